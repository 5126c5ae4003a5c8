package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"strings"

	"verifharness/sym"
)

// limitFor is the limit that applies on a machine with cpu CPUs.
func limitFor(asked, cpu int) int {
	return sym.IfInt(sym.And(asked >= 1, asked <= cpu), asked, cpu)
}

// K01_Limit: every way to set or inherit the limit.
// bound: machine of 1..8 CPUs, limit any int64, set by SetMaxCPU, EmptyDataFrame, CSV option or never; inherited through every view, copy and concatenation function
// cover: capped kept
func K01_Limit() {
	cpu := sym.NumCPU(8)
	asked := sym.Int("asked")
	m := smallModel("", 3)
	var df *dataframe.DataFrame
	want := limitFor(asked, cpu)
	switch sym.Choose("set", 6) {
	case 0:
		df = m.build()
		df.SetMaxCPU(asked)
	case 1:
		df = dataframe.EmptyDataFrame(3, asked)
		sym.Assert(df.ActualMaxCPU() == want, "EmptyDataFrame: CPU limit")
		df.TransferRawDataFrom(&m.build().RawData)
	case 2:
		raw, err := dataframe.FromCSV(strings.NewReader("f1,i1,b1,s1,o1\n1.5,2,true,a,b\n2.5,3,false,c,d\n3.5,7,true,e,f\n"), dataframe.CSVReadingSpec{MaxCPU: asked})
		sym.Assert(err == nil, "FromCSV fails")
		sym.Assert(raw.ActualMaxCPU() == want, "FromCSV: CPU limit")
		df = raw.ToDataFrame()
	case 3:
		df = m.build()
		want = cpu
	case 4:
		b := newBuilder()
		b.RawData.SetMaxCPU(asked)
		b.AddInts("i1", 1, 2, 3).AddFloats("f1", 1, 2, 3).AddBools("b1", true, true, false).AddStrings("s1", "a", "b", "c").AddObjects("o1", 1, 2, 3)
		df = b.ToDataFrame()
	case 5:
		df = m.build()
		df.SetMaxCPU(2)
		df.SetMaxCPU(asked)
	}
	if asked > 8 {
		sym.Cover("capped")
	}
	if asked >= 1 && asked < cpu {
		sym.Cover("kept")
	}
	sym.Assert(df.ActualMaxCPU() == want, "CPU limit")
	sym.Assert(df.ActualMaxCPU() >= 1, "CPU limit below one")
	sym.Assert(df.ActualMaxCPU() <= cpu, "CPU limit above the machine's")
	var got *dataframe.DataFrame
	other := (&mdl{cols: map[string]*col{"other": newCol(kI, 3)}, idx: iota_(3)}).build()
	if want != cpu {
		other.SetMaxCPU(asked)
	}
	got = inheriting(df, other, sym.Choose("inherit", 34))
	sym.Assert(got != nil, "operation fails")
	sym.Assert(got.ActualMaxCPU() == want, "inherited CPU limit")
	q := got.CreateColumnQueue([]string{"a", "b", "c", "d", "e", "f", "g", "h", "i"})
	sym.Assert(q.Workers >= 1, "queue without workers")
	sym.Assert(q.Workers <= want, "queue with more workers than the limit")
}

// K01_Complete: whatever was asked for, multi-threaded operations complete.
// bound: machine of 1..3 CPUs, limits -2..5 set by SetMaxCPU, EmptyDataFrame or never, hashing and CSV writing on every frame
// cover: done
func K01_Complete() {
	cpu := sym.NumCPU(3)
	asked := sym.IntRange("asked", -2, 5)
	n := sym.Choose("n", 3)
	m := smallModel("", n)
	for r := 0; r < n; r++ {
		// writing numbers in full is R02's subject
		m.cols["f1"].f[r], m.cols["i1"].i[r] = float64(r)/4, r-1
	}
	var df *dataframe.DataFrame
	switch sym.Choose("set", 3) {
	case 0:
		df = m.build()
		df.SetMaxCPU(asked)
	case 1:
		df = dataframe.EmptyDataFrame(n, asked)
		df.TransferRawDataFrom(&m.build().RawData)
	case 2:
		df = m.build()
	}
	got := df.HashStringsView("s1")
	sym.Assert(got.NumRows() == n, "hashing loses rows")
	sym.Assert(got.ActualMaxCPU() <= cpu, "CPU limit above the machine's")
	var w strings.Builder
	sym.Assert(df.To1CSV(&w, dataframe.CSVWritingSpec{}) == nil, "writing fails")
	sym.NoLeak("a worker never finishes")
	sym.Cover("done")
}

// inheriting is a frame derived from df, which has smallModel's columns and 3
// rows, or from df and other, which has an int column.
func inheriting(df, other *dataframe.DataFrame, which int) (got *dataframe.DataFrame) {
	switch which {
	case 0:
		got = df.View()
	case 1:
		got = df.IndexView([]int{2, 0, 0, 1})
	case 2:
		got = df.SliceView(1, -1)
	case 3:
		got = df.ReverseView()
	case 4:
		got = df.MaskView([]bool{true, false, true})
	case 5:
		got = df.ShuffleView()
	case 6:
		got = df.SampleView(2, false)
	case 7:
		got = df.ColumnView("s1", "i1")
	case 8:
		got = df.Copy()
	case 9:
		got = df.ShallowCopy()
	case 10:
		got = df.DetachedView("f1")
	case 11:
		got = df.SplitNView(2)[1]
	case 12:
		got = df.SplitView(2)[0]
	case 13:
		_, got = df.SplitTrainTestViews(0.4)
	case 14:
		got = df.SortedView("i1")
	case 15:
		got = df.TopView("f1", 2, true, false)
	case 16:
		got, _ = dataframe.RowConcat(df, df.ReverseView())
	case 17:
		got, _ = dataframe.ColumnConcatView(df, other)
	case 18:
		got = df.ResetIndexView()
	case 19:
		got = df.HashStringsView("s1")
	case 20:
		got, _ = dataframe.ColumnSmartConcat(df, other)
	case 21:
		got, _ = dataframe.ColumnCopyConcat(df.View(), other)
	case 22:
		got = dataframe.MergeRawDataRows([]*dataframe.RawData{&df.Copy().RawData, &df.Copy().RawData}).ToDataFrame()
	case 23:
		got = dataframe.MergeRawDataColumns([]*dataframe.RawData{&df.RawData, &other.RawData}).ToDataFrame()
	case 24:
		got = df.TopView("i1", 2, false, true).View().Copy()
	case 25:
		got = df.ColumnView("s1", "i1", "f1", "b1", "o1")
	case 26:
		got = df.ColumnView()
	case 27:
		got = df.SplitView(3)[0]
	case 28:
		got, _ = df.SplitTrainTestViews(0)
	case 29:
		got = df.SampleView(3, false)
	case 30:
		got = df.DetachedView()
	case 31:
		got, _ = dataframe.RowConcat(df)
	case 32:
		got, _ = dataframe.ColumnConcatView(df)
	case 33:
		got = df.SliceView(2, 0)
	}
	return got
}
