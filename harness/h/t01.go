package h

import (
	"errors"
	"math"
	"testing"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/utils"
	"verifharness/sym"
)

// holds runs an assertion helper as a test: the result and whether the test
// failed have to say the same.
func holds(label string, f func(t *testing.T) bool) bool {
	var ok bool
	failed := sym.RunTest(func(t *testing.T) { ok = f(t) })
	sym.Assert(ok == !failed, label+": the result is not whether the test passed")
	return ok
}

// T01_Scalars: helpers comparing ints, strings, bools, floats and errors.
// bound: arbitrary ints and bools, strings of 0..2 arbitrary bytes, any float64 compared to 10 expected values (NaN and infinities included)
// cover: int string bool float nan error
func T01_Scalars() {
	switch sym.Choose("what", 5) {
	case 0:
		a, b := sym.Int("a"), sym.Int("b")
		eq := a == b
		sym.Assert(holds("AssertIntEquals", func(t *testing.T) bool { return utils.AssertIntEquals("x", a, b, t) }) == eq, "AssertIntEquals")
		sym.Assert(holds("AssertIntNotEquals", func(t *testing.T) bool { return utils.AssertIntNotEquals("x", a, b, t) }) == !eq, "AssertIntNotEquals")
		sym.Cover("int")
	case 1:
		a, b := sym.Bytes("a", sym.Choose("la", 3)), sym.Bytes("b", sym.Choose("lb", 3))
		eq := a == b
		sym.Assert(holds("AssertStringEquals", func(t *testing.T) bool { return utils.AssertStringEquals("x", a, b, t) }) == eq, "AssertStringEquals")
		sym.Assert(holds("AssertStringNotEquals", func(t *testing.T) bool { return utils.AssertStringNotEquals("x", a, b, t) }) == !eq, "AssertStringNotEquals")
		sym.Cover("string")
	case 2:
		a := sym.Bool("a")
		sym.Assert(holds("AssertTrue", func(t *testing.T) bool { return utils.AssertTrue("x", a, t) }) == a, "AssertTrue")
		sym.Assert(holds("AssertFalse", func(t *testing.T) bool { return utils.AssertFalse("x", a, t) }) == !a, "AssertFalse")
		sym.Cover("bool")
	case 3:
		a, b := sym.Float64("a"), sym.OneOf("b", math.NaN(), math.Inf(-1), -1e300, -2.5, -0.01, 0, 0.005, 1, 123456.789, math.Inf(1))
		ok := holds("AssertFloatEquals", func(t *testing.T) bool { return utils.AssertFloatEquals("x", a, b, t) })
		sym.Assert(sym.Implies(a == b, ok), "AssertFloatEquals refuses equal values")
		sym.Assert(sym.Implies(sym.Or(a < b-0.011, a > b+0.011), !ok), "AssertFloatEquals accepts different values")
		sym.Assert(sym.Implies(sym.And(a >= b-0.009, a <= b+0.009), ok), "AssertFloatEquals refuses close values")
		sym.Assert(sym.Implies((a == a) != (b == b), !ok), "AssertFloatEquals accepts NaN as a number")
		if a != a {
			sym.Cover("nan")
		} else {
			sym.Cover("float")
		}
	case 4:
		var err error
		if sym.Choose("err", 2) == 1 {
			err = errors.New("e")
		}
		sym.Assert(holds("AssertNoError", func(t *testing.T) bool { return utils.AssertNoError(err, t) }) == (err == nil), "AssertNoError")
		sym.Cover("error")
	}
}

// T01_Slices: helpers comparing slices.
// bound: slices of 1..3 elements (thorough 4): arbitrary ints and bools, floats of a list of 5 with NaN, strings of 1 arbitrary byte, compared in order or as sets
// cover: ints bools floats strings sets
func T01_Slices() {
	k := 3 + sym.Tier()
	la, lb := 1+sym.Choose("la", k), 1+sym.Choose("lb", k)
	what := sym.Choose("what", 5)
	eq := la == lb
	switch what {
	case 0:
		a, b := make([]int, la), make([]int, lb)
		for i := range a {
			a[i] = sym.Int("a")
		}
		for i := range b {
			b[i] = sym.Int("b")
			if la == lb {
				eq = sym.And(eq, a[i] == b[i])
			}
		}
		sym.Assert(holds("AssertIntSliceEquals", func(t *testing.T) bool { return utils.AssertIntSliceEquals("x", a, b, t) }) == eq, "AssertIntSliceEquals")
		sym.Assert(holds("AssertIntSliceNotEquals", func(t *testing.T) bool { return utils.AssertIntSliceNotEquals("x", a, b, t) }) == !eq, "AssertIntSliceNotEquals")
		sym.Cover("ints")
	case 1:
		a, b := make([]bool, la), make([]bool, lb)
		for i := range a {
			a[i] = sym.Bool("a")
		}
		for i := range b {
			b[i] = sym.Bool("b")
			if la == lb {
				eq = sym.And(eq, a[i] == b[i])
			}
		}
		sym.Assert(holds("AssertBoolSliceEquals", func(t *testing.T) bool { return utils.AssertBoolSliceEquals("x", a, b, t) }) == eq, "AssertBoolSliceEquals")
		sym.Cover("bools")
	case 2:
		a, b := make([]float64, la), make([]float64, lb)
		for i := range a {
			a[i] = sym.OneOf("a", math.NaN(), -1, 0, 0.004, 2)
		}
		eq := la == lb
		skip := false
		for i := range b {
			b[i] = sym.OneOf("b", math.NaN(), -1, 0, 0.004, 2)
			if la == lb {
				eq = sym.And(eq, sym.And(a[i] >= b[i]-0.01, a[i] <= b[i]+0.01))
				skip = sym.Or(skip, sym.And(a[i] != a[i], b[i] != b[i]))
			}
		}
		ok := holds("AssertFloatSliceEquals", func(t *testing.T) bool { return utils.AssertFloatSliceEquals("x", a, b, t) })
		sym.Assert(sym.Or(skip, ok == eq), "AssertFloatSliceEquals")
		sym.Cover("floats")
	default:
		a, b := make([]string, la), make([]string, lb)
		for i := range a {
			a[i] = sym.Bytes("a", 1)
		}
		for i := range b {
			b[i] = sym.Bytes("b", 1)
			if la == lb {
				eq = sym.And(eq, a[i] == b[i])
			}
		}
		order := what == 3
		if !order {
			sub := func(a, b []string) bool {
				all := true
				for _, x := range a {
					in := false
					for _, y := range b {
						in = sym.Or(in, x == y)
					}
					all = sym.And(all, in)
				}
				return all
			}
			distinct := func(a []string) {
				for i := range a {
					for j := 0; j < i; j++ {
						sym.Assume(a[i] != a[j])
					}
				}
			}
			distinct(a)
			distinct(b)
			eq = sym.And(sub(a, b), sub(b, a))
			sym.Cover("sets")
		} else {
			sym.Cover("strings")
		}
		sym.Assert(holds("AssertStringSliceEquals", func(t *testing.T) bool { return utils.AssertStringSliceEquals("x", a, b, order, t) }) == eq, "AssertStringSliceEquals")
	}
}

// T01_Overlap: CheckNoColumnOverlap.
// bound: 0..3 frames with each of 2 columns absent or of any of 5 types (thorough 3 columns), plain frames, views or column views
// cover: overlap none
func T01_Overlap() {
	k := sym.Choose("frames", 4)
	names := []string{"a", "b", "c"}[:2+sym.Tier()]
	dfs := make([]*dataframe.DataFrame, k)
	count := map[string]int{}
	for i := range dfs {
		b := newBuilder()
		for _, n := range names {
			typ := sym.Choose("type", 6)
			if typ > 0 {
				count[n]++
			}
			switch typ {
			case 1:
				b.AddFloats(n, 1, 2)
			case 2:
				b.AddInts(n, 1, 2)
			case 3:
				b.AddBools(n, true, false)
			case 4:
				b.AddObjects(n, nil, 2)
			case 5:
				b.AddStrings(n, "x", "y")
			}
		}
		dfs[i] = b.ToDataFrame()
		if i == 0 && sym.Choose("view", 2) == 1 {
			dfs[i] = dfs[i].ReverseView()
		}
	}
	overlap := false
	for _, c := range count {
		overlap = overlap || c > 1
	}
	err := dataframe.CheckNoColumnOverlap(dfs)
	sym.Assert((err != nil) == overlap, "CheckNoColumnOverlap")
	if overlap {
		sym.Cover("overlap")
	} else {
		sym.Cover("none")
	}
}

// T01_Consistency: every frame passes CheckConsistency, and data with columns of different lengths does not.
// bound: 0..2 rows of 7 columns of all types in any derived frame after any change of the frame; data with one column of each type, one of which is shorter or longer by 1..2 rows
// cover: frame data
func T01_Consistency() {
	check := func(d *dataframe.RawData) bool {
		return holds("CheckConsistency", func(t *testing.T) bool { return d.CheckConsistency(t) })
	}
	if sym.Choose("what", 2) == 0 {
		m := newModel("", sym.Choose("n", 3))
		df := m.build()
		back := m.rows()
		v, vm, own := derived(df, m, "d")
		if own {
			back = vm.rows()
		}
		restructure(v, vm, back, sym.Choose("op", 22), "op")
		sym.Assert(check(&v.RawData), "a frame is not consistent")
		sym.Assert(check(&df.RawData), "the original frame is not consistent")
		sym.Cover("frame")
		return
	}
	b := newBuilder()
	n := 1 + sym.Choose("n", 3)
	odd := 1 + (n+sym.Choose("by", 2))%3
	which := sym.Choose("which", 6)
	size := func(i int) int {
		if i == which {
			return odd
		}
		return n
	}
	b.AddFloats("f", make([]float64, size(0))...)
	b.AddInts("i", make([]int, size(1))...)
	b.AddBools("b", make([]bool, size(2))...)
	b.AddObjects("o", make([]interface{}, size(3))...)
	b.AddStrings("s", make([]string, size(4))...)
	if which < 5 {
		sym.Assert(sym.Panics(func() { b.ToDataFrame() }), "a frame is made of columns of different lengths")
		sym.Assert(!check(b.RawData), "columns of different lengths are consistent")
	} else {
		sym.Assert(!sym.Panics(func() { b.ToDataFrame() }), "a frame cannot be made of columns of the same length")
		sym.Assert(check(b.RawData), "columns of the same length are not consistent")
	}
	sym.Cover("data")
}

// T01_Tall: the same over longer lists.
// bound: two slices of 5, 33 or 120 elements (ints, bools, floats, strings in order or as sets), of which one element of the second (first, second, middle, last) is replaced by an arbitrary value, and the last is left out or not; 12 frames of 1..3 columns where two of any of these frames share a column or none does; 20 columns of 70 rows in turn of each type, one of which is a row shorter or longer, or none
// cover: slices frames data
func T01_Tall() {
	switch sym.Choose("what", 3) {
	case 0:
		n := []int{5, 33, 120}[sym.Choose("n", 3)]
		at := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
		less := sym.Choose("less", 2)
		yes := func(what string, eq, ok bool) {
			if less == 1 {
				eq = false
			}
			sym.Assert(ok == eq, what)
		}
		switch sym.Choose("type", 5) {
		case 0:
			a, b := make([]int, n), make([]int, n)
			for i := range a {
				a[i], b[i] = i*3, i*3
			}
			x := sym.Int("x")
			b[at] = x
			yes("AssertIntSliceEquals", x == a[at], holds("AssertIntSliceEquals", func(t *testing.T) bool { return utils.AssertIntSliceEquals("x", a, b[:n-less], t) }))
			yes("AssertIntSliceNotEquals", x == a[at], !holds("AssertIntSliceNotEquals", func(t *testing.T) bool { return utils.AssertIntSliceNotEquals("x", a, b[:n-less], t) }))
		case 1:
			a, b := make([]bool, n), make([]bool, n)
			for i := range a {
				a[i], b[i] = i%3 == 0, i%3 == 0
			}
			x := sym.Bool("x")
			b[at] = x
			yes("AssertBoolSliceEquals", x == a[at], holds("AssertBoolSliceEquals", func(t *testing.T) bool { return utils.AssertBoolSliceEquals("x", a, b[:n-less], t) }))
		case 2:
			a, b := make([]float64, n), make([]float64, n)
			for i := range a {
				a[i], b[i] = float64(i), float64(i)
			}
			x := sym.IntRange("x", 0, n)
			b[at] = float64(x)
			yes("AssertFloatSliceEquals", x == at, holds("AssertFloatSliceEquals", func(t *testing.T) bool { return utils.AssertFloatSliceEquals("x", a, b[:n-less], t) }))
		default:
			order := sym.Choose("order", 2) == 1
			n = min(n, 33)
			a, b := make([]string, n), make([]string, n)
			for i := range a {
				a[i], b[i] = "n"+itoa(i), "n"+itoa(i)
			}
			at := sym.Choose("place", n)
			x := "n" + itoa(sym.Choose("value", 2)*100+at)
			b[at] = x
			if !order {
				b = append(b[n/2:n:n], b[:n/2]...)
			}
			yes("AssertStringSliceEquals", x == a[at], holds("AssertStringSliceEquals", func(t *testing.T) bool { return utils.AssertStringSliceEquals("x", a, b[:n-less], order, t) }))
		}
		sym.Cover("slices")
	case 1:
		i, j := sym.Choose("i", 12), sym.Choose("j", 12)
		sym.Assume(i <= j)
		var dfs []*dataframe.DataFrame
		for k := 0; k < 12; k++ {
			b := newBuilder()
			for c := 0; c <= k%3; c++ {
				b.AddFloats("c"+itoa(k)+"_"+itoa(c), 1)
			}
			if k == i {
				b.AddInts("twice", 1)
			}
			if k == j && i != j {
				b.AddStrings("twice", "x")
			}
			dfs = append(dfs, b.ToDataFrame())
		}
		sym.Assert((dataframe.CheckNoColumnOverlap(dfs) != nil) == (i != j), "CheckNoColumnOverlap")
		sym.Cover("frames")
	case 2:
		which, odd := sym.Choose("which", 21), 69+2*sym.Choose("odd", 2)
		b := newBuilder()
		for c := 0; c < 20; c++ {
			n := 70
			if c == which {
				n = odd
			}
			name := "c" + itoa(c)
			switch c % 5 {
			case 0:
				b.AddFloats(name, make([]float64, n)...)
			case 1:
				b.AddInts(name, make([]int, n)...)
			case 2:
				b.AddBools(name, make([]bool, n)...)
			case 3:
				b.AddObjects(name, make([]interface{}, n)...)
			case 4:
				b.AddStrings(name, make([]string, n)...)
			}
		}
		ok := which == 20
		sym.Assert(holds("CheckConsistency", func(t *testing.T) bool { return b.RawData.CheckConsistency(t) }) == ok, "CheckConsistency")
		sym.Assert(sym.Panics(func() { b.ToDataFrame() }) == !ok, "a frame is made exactly of columns of the same length")
		sym.Cover("data")
	}
}
