package h

import (
	"errors"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/utils"
	"verifharness/sym"
)

var queueNames = []string{"", "a", "b", "c", "d"}

// drain runs the queue the way the library does and returns the results.
func drain(q utils.StringQ, deferred, wait bool) ([]utils.ProcessedJob, [][]string, []bool) {
	seen := make([][]string, q.Workers)
	done := make([]bool, q.Workers)
	fail := errors.New("b failed")
	for w := 0; w < q.Workers; w++ {
		go func(w int) {
			for name, more := q.Next(); more; name, more = q.Next() {
				seen[w] = append(seen[w], name)
				job := utils.ProcessedJob{Key: name, Result: name + "!"}
				if name == "b" {
					job.Error = fail
				}
				if deferred {
					defer q.Notify(job)
				} else {
					q.Notify(job)
				}
			}
			done[w] = true
		}(w)
	}
	if wait {
		q.Wait()
		return nil, seen, done
	}
	return q.Results(), seen, done
}

// times counts a name in a list.
func times(name string, list []string) int {
	k := 0
	for _, x := range list {
		if x == name {
			k++
		}
	}
	return k
}

// Q01_Queue: one queue, every schedule.
// sym: steps=3000000
// bound: 0..3 names (one of them empty, or one of them twice), limits 1..4, notifying at once or on return, Results or Wait, every goroutine schedule with at most 2 preemptions (thorough 3), every shuffle
// cover: many idle twice
func Q01_Queue() {
	sym.SymbolicRand(true)
	n := sym.Choose("n", 4)
	limit := 1 + sym.Choose("limit", sym.Quick(3, 4))
	names := append([]string(nil), queueNames[:n]...)
	if n > 1 && sym.Choose("twice", 2) == 1 {
		names[n-1] = names[n-2]
		sym.Cover("twice")
	}
	keep := append([]string(nil), names...)
	sym.AllSchedules(sym.Quick(2, 3))
	sym.DetectRaces()
	q := utils.CreateStringQueue(names, limit)
	sym.Assert(q.NumJobs == n, "queue: number of jobs")
	sym.Assert(q.Workers >= 1, "queue: no worker")
	sym.Assert(q.Workers <= limit, "queue: more workers than the limit")
	if n == 0 {
		sym.Assert(q.Workers == 1, "queue: more than one worker for nothing")
	} else {
		sym.Assert(q.Workers <= n, "queue: more workers than jobs")
	}
	wait := sym.Choose("wait", 2) == 1
	res, seen, _ := drain(q, sym.Choose("deferred", 2) == 1, wait)
	if !wait {
		sym.Assert(len(res) == n, "Results: not one result per name")
		for _, name := range keep {
			k := 0
			for _, r := range res {
				if r.Key == name {
					k++
					sym.Assert(r.Result == name+"!", "Results: result of another job")
					sym.Assert((r.Error != nil) == (name == "b"), "Results: error lost or invented")
				}
			}
			sym.Assert(k == times(name, keep), "Results: a name without exactly one result")
		}
	}
	sym.OneSchedule()
	sym.NoLeak("queue: a worker never finishes")
	for _, name := range keep {
		k := 0
		for _, s := range seen {
			k += times(name, s)
		}
		sym.Assert(k == times(name, keep), "queue: a name is not handed out exactly once")
	}
	for i := range keep {
		sym.Assert(names[i] == keep[i], "queue: the list of names is changed")
	}
	if q.Workers > 1 {
		sym.Cover("many")
	}
	if n == 0 {
		sym.Cover("idle")
	}
}

// Q01_Column: the queue made by a frame follows the frame's CPU limit.
// bound: 0..4 columns, machine of 1..4 CPUs, limits -1..5, one schedule
// cover: limited
func Q01_Column() {
	cpu := sym.NumCPU(4)
	m := smallModel("", 1)
	df := m.build()
	limit := sym.IntRange("limit", -1, 5)
	df.SetMaxCPU(limit)
	n := sym.Choose("n", 5)
	q := df.CreateColumnQueue(queueNames[:n])
	want := cpu
	if limit >= 1 && limit < cpu {
		want = limit
		sym.Cover("limited")
	}
	if n == 0 {
		want = 1
	} else if n < want {
		want = n
	}
	sym.Assert(q.Workers == want, "CreateColumnQueue: number of workers")
	res, _, _ := drain(q, true, false)
	sym.Assert(len(res) == n, "CreateColumnQueue: results")
	sym.NoLeak("CreateColumnQueue: a worker never finishes")
}

// Q01_Empty: a column without a name is a column like any other.
// bound: frames of 1..2 rows with a string column and a float column named "", 1..3 CPUs, every schedule with at most 1 preemption
// cover: hashed
func Q01_Empty() {
	n := 1 + sym.Choose("n", 2)
	m := smallModel("", n)
	m.cols[""] = m.cols["s1"]
	delete(m.cols, "s1")
	df := m.build()
	sym.SetNumCPU(3)
	df.SetMaxCPU(1 + sym.Choose("cpu", 3))
	sym.AllSchedules(1)
	var got *dataframe.DataFrame = df.HashStringsView("")
	sym.Assert(got.IntHeader().NameSet()[""], "the column without a name is not hashed")
	for j := 0; j < n; j++ {
		sym.Assert(got.Ints("").Get(j) > 0, "the column without a name is not hashed")
	}
	sym.NoLeak("a worker never finishes")
	sym.Cover("hashed")
}
