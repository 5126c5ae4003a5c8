package h

import (
	"github.com/rom1mouret/ml-essentials/utils"
	"verifharness/sym"
)

// U01_MakeRange: every arithmetic progression.
// bound: arbitrary 64-bit from with |from| <= 2^40, steps 1..3 and 2^33, at most 5 elements (thorough 8), empty and backwards intervals down to -2^40
// cover: ragged empty backwards
func U01_MakeRange() {
	from := sym.Int("from")
	sym.Assume(from >= -1<<40)
	sym.Assume(from <= 1<<40)
	step := []int{1, 2, 3, 1 << 33}[sym.Choose("step", 4)]
	k := sym.Choose("k", sym.Quick(6, 9))
	to := from
	if k > 0 {
		to = from + (k-1)*step + sym.IntRange("rest", 1, step)
		if to != from+k*step {
			sym.Cover("ragged")
		}
	} else if sym.Choose("back", 2) == 1 {
		to = from - sym.IntRange("by", 1, 1<<40)
		sym.Cover("backwards")
	} else {
		sym.Cover("empty")
	}
	got := utils.MakeRange(from, to, step)
	sym.Assert(len(got) == k, "MakeRange: number of elements")
	for i := 0; i < k; i++ {
		sym.Assert(got[i] == from+i*step, "MakeRange: element")
	}
}

// U01_GroupIndexer: any number of elements.
// bound: arbitrary 0..1024 elements (thorough 65536), 1..4 groups asked for (thorough 5), or more groups than elements
// cover: uneven empty
func U01_GroupIndexer() {
	groups := 1 + sym.Choose("groups", sym.Quick(4, 5))
	checkGroups(sym.IntRange("n", 0, sym.Quick(1<<10, 1<<16)), groups)
}

// U01_ManyGroups: any small number of elements in any small number of groups.
// bound: arbitrary 0..40 elements (thorough 0..80), every number of groups 5..20 (thorough 5..40), a machine of that many CPUs being the usual reason
// cover: uneven empty
func U01_ManyGroups() {
	groups := 5 + sym.Choose("groups", sym.Quick(16, 36))
	checkGroups(sym.Choose("n", sym.Quick(41, 81)), groups)
}

// U01_Reuse: an indexer initialized again after any number of groups.
// bound: 0..9 elements in 1..4 groups, any number of groups taken, then 0..9 (thorough 0..40) elements in 1..4 groups
// cover: uneven empty
func U01_Reuse() {
	g := utils.CreateGroupIndexer(sym.Choose("n", 10), 1+sym.Choose("groups", 4))
	for k := sym.Choose("taken", 5); k > 0 && g.HasNext(); k-- {
		g.Next()
	}
	n, groups := sym.Choose("n2", sym.Quick(10, 41)), 1+sym.Choose("groups2", 4)
	g.Initialize(n, groups)
	groupsOf(&g, n, groups)
}

func checkGroups(n, groups int) {
	g := utils.CreateGroupIndexer(n, groups)
	groupsOf(&g, n, groups)
}

func groupsOf(g *utils.GroupIndexer, n, groups int) {
	next, k := 0, 0
	for g.HasNext() {
		sym.Assert(k < groups, "GroupIndexer: more groups than asked for")
		i, l, r := g.Next()
		sym.Assert(i == k, "GroupIndexer: group number")
		sym.Assert(l == next, "GroupIndexer: groups are not consecutive")
		sym.Assert(r > l, "GroupIndexer: empty group")
		next = r
		k++
	}
	sym.Assert(next == n, "GroupIndexer: elements not covered")
	sym.Assert(g.NGroups == k, "GroupIndexer: NGroups is not the number of groups delivered")
	if n == 0 {
		sym.Cover("empty")
	}
	if n%groups != 0 {
		sym.Cover("uneven")
	}
}

// U01_SplitStringSlice: groups of strings.
// bound: 0..6 strings, 0..8 groups asked for (thorough 0..9 and 0..11)
// cover: few nothing
func U01_SplitStringSlice() {
	n := sym.Choose("n", sym.Quick(7, 10))
	groups := sym.Choose("groups", sym.Quick(9, 12))
	var in []string
	for i := 0; i < n; i++ {
		in = append(in, sym.Bytes("s", 1))
	}
	checkSplit(in, groups)
}

// U01_SplitMany: many groups.
// bound: 0..33 strings (thorough 0..65), 8..18 groups asked for (thorough 8..34)
// cover: few nothing
func U01_SplitMany() {
	n := sym.Choose("n", sym.Quick(34, 66))
	groups := 8 + sym.Choose("groups", sym.Quick(11, 27))
	var in []string
	for i := 0; i < n; i++ {
		in = append(in, "s"+itoa(i))
	}
	checkSplit(in, groups)
}

func checkSplit(in []string, groups int) {
	n := len(in)
	keep := append([]string(nil), in...)
	got := utils.SplitStringSlice(in, groups)
	if n == 0 || groups == 0 {
		sym.Assert(len(got) == 0, "SplitStringSlice: groups made of nothing")
		sym.Cover("nothing")
		return
	}
	if groups > n {
		sym.Cover("few")
	}
	sym.Assert(len(got) <= groups, "SplitStringSlice: more groups than asked for")
	at := 0
	for _, g := range got {
		sym.Assert(len(g) > 0, "SplitStringSlice: empty group")
		for _, s := range g {
			sym.Assert(at < n, "SplitStringSlice: too many elements")
			sym.Assert(s == keep[at], "SplitStringSlice: element")
			at++
		}
	}
	sym.Assert(at == n, "SplitStringSlice: elements lost")
	for i := range in {
		sym.Assert(in[i] == keep[i], "SplitStringSlice: input changed")
	}
}

// U01_FloatArgSort: a sorting permutation.
// bound: 0..3 values (thorough 5), arbitrary float64 except NaN, read-only or not
// cover: readonly
func U01_FloatArgSort() {
	n := sym.Choose("n", sym.Quick(4, 6))
	var in []float64
	for i := 0; i < n; i++ {
		x := sym.Float64("x")
		sym.Assume(x == x)
		in = append(in, x)
	}
	keep := append([]float64(nil), in...)
	ro := sym.Choose("readonly", 2) == 1
	got := utils.FloatArgSort(in, ro)
	sym.Assert(len(got) == n, "FloatArgSort: length")
	for a := 0; a < n; a++ {
		sym.Assert(got[a] >= 0 && got[a] < n, "FloatArgSort: index out of range")
		for b := 0; b < a; b++ {
			sym.Assert(got[a] != got[b], "FloatArgSort: index repeated")
		}
	}
	for a := 1; a < n; a++ {
		sym.Assert(keep[got[a-1]] <= keep[got[a]], "FloatArgSort: not sorted")
	}
	if ro {
		sym.Cover("readonly")
		for i := range in {
			sym.Assert(sym.Same(in[i], keep[i]), "FloatArgSort: read-only input changed")
		}
	}
	// the result must be usable: gonum fills it with stale contents otherwise
	for a := 0; a < n; a++ {
		sym.Observe("i", got[a])
	}
}

// U01_Sets: set helpers.
// bound: 0..4 strings of 1 arbitrary byte
// cover: repeated
func U01_Sets() {
	n := sym.Choose("n", 5)
	var in []string
	for i := 0; i < n; i++ {
		in = append(in, sym.Bytes("s", 1))
	}
	set := utils.ToStringSet(in)
	distinct := 0
	for i, s := range in {
		sym.Assert(set[s], "ToStringSet: element missing")
		first := true
		for _, t := range in[:i] {
			if t == s {
				first = false
			}
		}
		if first {
			distinct++
			sym.Assert(utils.IndexOfString(s, in) == i, "IndexOfString: not the first occurrence")
		} else {
			sym.Cover("repeated")
		}
	}
	sym.Assert(len(set) == distinct, "ToStringSet: size")
	keys := utils.StringSetKeys(set)
	sym.Assert(len(keys) == distinct, "StringSetKeys: size")
	for i, k := range keys {
		sym.Assert(set[k], "StringSetKeys: unknown key")
		sym.Assert(utils.IndexOfString(k, keys) == i, "StringSetKeys: key repeated")
	}
	other := sym.Bytes("other", 1)
	if !set[other] {
		sym.Assert(utils.IndexOfString(other, in) == -1, "IndexOfString: absent element")
	}
}
