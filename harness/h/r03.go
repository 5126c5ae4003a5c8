package h

import (
	"io"
	"os"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

// checkParts asserts that the outputs together hold every row of m once.
func (m *mdl) checkParts(texts []string, label string) {
	count := map[int]int{}
	for _, r := range m.idx {
		count[r]++
	}
	for _, t := range texts {
		got := m.readTyped(t, label)
		if got.NumRows() == 0 {
			continue
		}
		ids := got.Ints("id")
		pm := m.only("id", "f", "b")
		pm.idx = nil
		for j := 0; j < got.NumRows(); j++ {
			r := ids.Get(j) - 10
			sym.Assert(count[r] > 0, label+": a row is repeated or unknown")
			count[r]--
			pm.idx = append(pm.idx, r)
		}
		pm.checkCells(got, label, "id", "f", "b")
	}
	for _, c := range count {
		sym.Assert(c == 0, label+": a row is lost")
	}
}

// R03_Writers: ToCSVs to any number of writers.
// bound: 0..4 backing rows as is or through a row view with arbitrary indices, 1..4 writers, both orders, every schedule of the writing goroutines with no preemption
// cover: more-writers-than-rows
func R03_Writers() {
	n := sym.Choose("n", 5)
	m := csvModel(n)
	df := m.build()
	m0, base := m, df
	switch sym.Choose("view", 4) {
	case 1:
		df, m = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 1 {
			df, m = df.SliceView(1, n), m.pick(iota_(n)[1:])
		}
	case 3:
		if n > 0 {
			idx := symIdx("idx", 2, n)
			df, m = df.IndexView(idx), m.pick(idx)
		}
	}
	k := 1 + sym.Choose("writers", 4)
	if k > m.rows() {
		sym.Cover("more-writers-than-rows")
	}
	var bs []*strings.Builder
	var ws []io.Writer
	for i := 0; i < k; i++ {
		bs = append(bs, &strings.Builder{})
		ws = append(ws, bs[i])
	}
	var w dataframe.CSVWritingSpec
	w.MaintainOrder = sym.Choose("order", 2) == 1
	if k < 4 {
		sym.AllSchedules(0)
	}
	err := df.ToCSVs(ws, w)
	sym.OneSchedule()
	sym.Assert(err == nil, "writing fails")
	var texts []string
	for _, b := range bs {
		sym.Assert(len(b.String()) > 0, "an output has no header")
		texts = append(texts, b.String())
	}
	m.checkParts(texts, "ToCSVs")
	m.check(df, "frame after writing")
	m0.check(base, "base after writing")
	sym.NoLeak("a writer never finishes")
}

// R03_Files: ToCSVFiles and ToCSVDir.
// bound: 0..3 (thorough 0..5) rows, 1..3 named files, or a directory with MinRowsPerFile -1..5 and a CPU limit of 1..4 on a machine with 1..4 CPUs; output files may exist before; both orders, as is or reversed
// cover: dir split overwrite
func R03_Files() {
	sym.NumCPU(4)
	n := sym.Choose("n", sym.Quick(4, 6))
	m := csvModel(n)
	df := m.build()
	df.SetMaxCPU(sym.IntRange("maxcpu", 0, 4))
	limit := df.ActualMaxCPU()
	if sym.Choose("view", 2) == 1 {
		df, m = df.ReverseView(), m.pick(rev(n))
	}
	var w dataframe.CSVWritingSpec
	w.MaintainOrder = sym.Choose("order", 2) == 1
	dir := sym.TempDir()
	var paths []string
	if sym.Choose("api", 2) == 0 {
		k := 1 + sym.Choose("files", 3)
		for i := 0; i < k; i++ {
			paths = append(paths, dir+"/f"+itoa(i))
		}
		if sym.Choose("exists", 2) == 1 {
			sym.Cover("overwrite")
			os.WriteFile(paths[0], []byte("id,f,b,s\n1,2.5,true,old\n1,2.5,true,old\n1,2.5,true,old\n1,2.5,true,old\n1,2.5,true,old\n1,2.5,true,old\n"), 0600)
		}
		sym.Assert(df.ToCSVFiles(w, paths...) == nil, "writing fails")
	} else {
		sym.Cover("dir")
		w.MinRowsPerFile = sym.Choose("minrows", 7) - 1
		var err error
		paths, err = df.ToCSVDir(w, dir+"/out")
		sym.Assert(err == nil, "writing fails")
		sym.Assert(len(paths) >= 1, "no file")
		sym.Assert(len(paths) <= limit, "more files than the CPU limit")
		if len(paths) > 1 {
			sym.Cover("split")
		}
		if w.MinRowsPerFile > 0 && n > w.MinRowsPerFile && limit > 1 {
			sym.Assert(len(paths) > 1, "not split above MinRowsPerFile")
		}
		if w.MinRowsPerFile <= 0 || n < w.MinRowsPerFile {
			sym.Assert(len(paths) == 1, "split below MinRowsPerFile")
		}
		for i, p := range paths {
			sym.Assert(strings.HasPrefix(p, dir+"/out"), "a file is outside the prefix")
			for _, q := range paths[:i] {
				sym.Assert(p != q, "the same file twice")
			}
		}
	}
	var texts []string
	for _, p := range paths {
		b, err := os.ReadFile(p)
		sym.Assert(err == nil, "a reported file does not exist")
		texts = append(texts, string(b))
	}
	m.checkParts(texts, "files")
	m.check(df, "frame after writing")
}
