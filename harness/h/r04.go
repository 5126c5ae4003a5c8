package h

import (
	"errors"
	"io"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"verifharness/sym"
)

var errDisk = errors.New("disk full")

// brokenWriter accepts writes up to left bytes in total, then fails forever.
type brokenWriter struct {
	left   int
	failed bool
}

func (b *brokenWriter) Write(p []byte) (int, error) {
	if len(p) > b.left {
		b.left = 0
		b.failed = true
		return 0, errDisk
	}
	b.left -= len(p)
	return len(p), nil
}

// R04_One: a single failing writer.
// bound: 0..3 rows of an int and a string column, the writer failing after any number of bytes 0..40 (before, within or after the data), all option combinations, or never
// cover: fails fine
func R04_One() {
	n := sym.Choose("n", 4)
	m := csvModel(n).only("id", "s")
	df := m.build()
	o, _ := writeOptions()
	w := &brokenWriter{left: sym.IntRange("left", 0, 40)}
	err := df.To1CSV(w, o)
	if w.failed {
		sym.Cover("fails")
	} else {
		sym.Cover("fine")
	}
	sym.Assert((err != nil) == w.failed, "To1CSV: a failing writer is not reported, or an error without failure")
}

func longInts(n int) []int {
	r := iota_(n)
	for i := range r {
		r[i] -= 1 << 62
	}
	return r
}

// R04_Batches: failures at any write of a frame with several batches, and of a header larger than the buffer.
// bound: 257 or 513 rows, or a column name of 5000 bytes with 0 or 2 rows; failing after any number of bytes
// cover: fails fine
func R04_Batches() {
	var df *dataframe.DataFrame
	b := newBuilder()
	switch sym.Choose("what", 4) {
	case 0:
		df = b.SetInts("i", longInts(257)).ToDataFrame()
	case 1:
		df = b.SetInts("i", longInts(513)).ToDataFrame()
	case 2:
		df = b.SetInts(strings.Repeat("x", 5000), iota_(0)).ToDataFrame()
	case 3:
		df = b.SetInts(strings.Repeat("x", 5000), iota_(2)).ToDataFrame()
	}
	w := &brokenWriter{left: sym.IntRange("left", 0, 12000)}
	err := df.To1CSV(w, dataframe.CSVWritingSpec{})
	if w.failed {
		sym.Cover("fails")
	} else {
		sym.Cover("fine")
	}
	sym.Assert((err != nil) == w.failed, "To1CSV: a failing writer is not reported, or an error without failure")
}

// R04_Many: failures of any of several writers.
// bound: 0..3 rows, 1..3 writers of which any may fail after any number of bytes 0..40, all schedules of the writing goroutines without preemption
// cover: fails fine
func R04_Many() {
	n := sym.Choose("n", 4)
	df := csvModel(n).only("id", "s").build()
	k := 1 + sym.Choose("writers", 3)
	var ws []io.Writer
	var bs []*brokenWriter
	for i := 0; i < k; i++ {
		bs = append(bs, &brokenWriter{left: sym.IntRange("left", 0, 40)})
		ws = append(ws, bs[i])
	}
	if k < 3 {
		sym.AllSchedules(0)
	}
	err := df.ToCSVs(ws, dataframe.CSVWritingSpec{MaintainOrder: sym.Choose("order", 2) == 1})
	sym.OneSchedule()
	failed := false
	for _, b := range bs {
		failed = failed || b.failed
	}
	if failed {
		sym.Cover("fails")
	} else {
		sym.Cover("fine")
	}
	sym.Assert((err != nil) == failed, "ToCSVs: a failing writer is not reported, or an error without failure")
	sym.NoLeak("a writer never finishes")
}

// R04_Files: files that cannot be created or written.
// bound: 0..2 rows, 1..3 paths of which any may be in a missing directory, a directory, or on a full device; ToCSVDir into a missing directory
// cover: create full fine
func R04_Files() {
	n := sym.Choose("n", 3)
	df := csvModel(n).build()
	dir := sym.TempDir()
	if sym.Choose("api", 2) == 1 {
		_, err := df.ToCSVDir(dataframe.CSVWritingSpec{MinRowsPerFile: 1}, dir+"/missing/out")
		sym.Assert(err != nil, "ToCSVDir: a missing directory is not reported")
		_, err = df.ToCSVDir(dataframe.CSVWritingSpec{MinRowsPerFile: 1}, dir+"/out")
		sym.Assert(err == nil, "ToCSVDir: an error without failure")
		return
	}
	k := 1 + sym.Choose("files", 3)
	bad := false
	var paths []string
	for i := 0; i < k; i++ {
		switch sym.Choose("path", 4) {
		case 0:
			paths = append(paths, dir+"/f"+itoa(i))
			sym.Cover("fine")
		case 1:
			paths = append(paths, dir+"/missing/f")
			bad = true
			sym.Cover("create")
		case 2:
			paths = append(paths, dir)
			bad = true
		case 3:
			paths = append(paths, "/dev/full")
			bad = true
			sym.Cover("full")
		}
	}
	err := df.ToCSVFiles(dataframe.CSVWritingSpec{}, paths...)
	sym.Assert((err != nil) == bad, "ToCSVFiles: a failing file is not reported, or an error without failure")
	sym.NoLeak("a writer never finishes")
}
