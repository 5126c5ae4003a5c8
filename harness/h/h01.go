package h

import (
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"verifharness/sym"
)

// hashFrame has two string columns of arbitrary cells and optionally others.
func hashFrame(n int, others bool) *mdl {
	m := &mdl{cols: map[string]*col{}, idx: iota_(n)}
	if others {
		m = smallModel("", n)
	}
	for _, c := range []string{"s1", "s2"} {
		k := &col{k: kS, o: []interface{}{}}
		for r := 0; r < n; r++ {
			l := sym.Choose(c+"len", 4)
			if c == "s2" && l > 1 {
				l = 3
			}
			if l == 3 {
				k.o = append(k.o, nil)
			} else {
				k.o = append(k.o, sym.Bytes(c, l))
			}
		}
		m.cols[c] = k
	}
	return m
}

// H01_Hash: arbitrary strings in any frame and view.
// bound: 0..2 rows (thorough 3), two string columns (0..2 arbitrary bytes or missing; second one 0..1 bytes), with or without other columns, frame as is, reversed, sliced or repeating rows, hashing one or both columns, directly or by HashEncoder, 1 or 2 CPUs
// cover: equal missing alone
func H01_Hash() {
	n := sym.Choose("n", sym.Quick(3, 4))
	others := sym.Choose("others", 2) == 1
	m := hashFrame(n, others)
	df := m.build()
	sym.SetNumCPU(2)
	df.SetMaxCPU(1 + n%2)
	v, vm := df, m
	switch sym.Choose("view", 4) {
	case 1:
		v, vm = df.ReverseView(), m.pick(rev(n))
	case 2:
		if n > 1 {
			v, vm = df.SliceView(1, n), m.pick(iota_(n)[1:])
		}
	case 3:
		if n > 0 {
			idx := append(iota_(n), 0)
			v, vm = df.IndexView(idx), m.pick(idx)
		}
	}
	keep, base := vm.freeze(), m.freeze()
	cols := []string{"s1", "s2"}
	var got *dataframe.DataFrame
	switch sym.Choose("how", 3) {
	case 0:
		got = v.HashStringsView("s1", "s2")
	case 1:
		cols = cols[:1]
		got = v.HashStringsView("s1")
	case 2:
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		sym.Assert(e.Fit(v) == nil, "HashEncoder.Fit fails")
		keep.check(v, "input after HashEncoder.Fit")
		var err error
		got, err = e.TransformView(v)
		sym.Assert(err == nil, "HashEncoder.TransformView fails")
	}
	if len(cols) == 2 && !others {
		sym.Cover("alone")
	}
	want := vm.view()
	for _, c := range cols {
		k := &col{k: kI, i: make([]int, n)}
		for j, r := range vm.idx {
			k.i[r] = got.Ints(c).Get(j)
		}
		want.cols[c] = k
	}
	want.check(got, "hashed frame")
	keep.check(v, "input after hashing")
	base.check(df, "base after hashing")
	type seenAs struct {
		s string
		h int
	}
	var seen []seenAs
	for _, c := range cols {
		for j, r := range vm.idx {
			h := got.Ints(c).Get(j)
			o := m.cols[c].o[r]
			if o == nil {
				sym.Assert(h == -1, "missing string is not -1")
				sym.Cover("missing")
				continue
			}
			sym.Assert(h >= 0, "hash of a string is negative")
			for _, p := range seen {
				if len(p.s) == len(o.(string)) {
					sym.Assert(sym.Implies(p.s == o.(string), p.h == h), "equal strings, different hashes")
				}
			}
			seen = append(seen, seenAs{o.(string), h})
		}
	}
	// the same function in every frame
	if len(seen) > 0 {
		p := seen[len(seen)-1]
		one := &mdl{cols: map[string]*col{"z": {k: kS, o: []interface{}{nil, p.s}}, "i": newCol(kI, 2)}, idx: iota_(2)}
		again := one.build().HashStringsView("z")
		sym.Assert(again.Ints("z").Get(1) == p.h, "hash depends on the frame")
		sym.Assert(again.Ints("z").Get(0) == -1, "missing string is not -1")
		sym.Cover("equal")
	}
	observe(got, "r")
}

// H01_Distinct: short strings do not collide.
// bound: every pair of strings of 1 arbitrary byte, or of a fixed prefix of 0..8 letters followed by 1 arbitrary byte
// cover: differ
func H01_Distinct() {
	p := "abcdefgh"[:sym.Choose("prefix", 9)]
	a, b := sym.Bytes("a", 1), sym.Bytes("b", 1)
	m := &mdl{cols: map[string]*col{"s": {k: kS, o: []interface{}{p + a, p + b, p}}}, idx: iota_(3)}
	h := m.build().HashStringsView("s").Ints("s")
	sym.Assert((h.Get(0) == h.Get(1)) == (a == b), "different short strings have the same hash")
	sym.Assert(h.Get(2) != h.Get(0), "a string and its prefix have the same hash")
	if a != b {
		sym.Cover("differ")
	}
}

// H01_Nothing: no column to hash.
// bound: frames of 0..2 rows with and without string columns
func H01_Nothing() {
	n := sym.Choose("n", 3)
	m := smallModel("", n)
	if sym.Choose("strings", 2) == 0 {
		delete(m.cols, "s1")
		df := m.build()
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		sym.Assert(e.Fit(df) == nil, "HashEncoder.Fit fails")
		got, err := e.TransformView(df)
		sym.Assert(err == nil, "HashEncoder.TransformView fails")
		m.check(got, "nothing hashed")
		m.check(df, "input after hashing nothing")
		return
	}
	df := m.build()
	m.check(df.HashStringsView(), "nothing hashed")
	m.check(df, "input after hashing nothing")
}

// H01_Spread: different words have different hashes.
// sym: steps=60000000
// bound: 1500 words of 1 to 6 letters and digits and pairs of words that common 32-bit hash functions confuse, one of them with an arbitrary last letter among 3; 1 or 2 columns; plain or reversed
// cover: done
func H01_Spread() {
	words := []string{"costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "plumless", "buckeroo", "codding", "gnu", "exhibiters", "schlager",
		"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "ab", "ba", "abc", "acb", "bca", "", " ", "  ", "\t", "a ", " a", "A", "a", "\x00", "\x00\x00"}
	for k := 0; len(words) < 1500; k++ {
		words = append(words, "w"+itoa(k))
		if k%3 == 0 {
			words = append(words, itoa(k), "k"+itoa(k)+"k")
		}
	}
	words = append(words, "arb"+[]string{"x", "y", "z"}[sym.Choose("letter", 3)])
	n := len(words)
	m := &mdl{cols: map[string]*col{"s": {k: kS}}, idx: iota_(n)}
	for _, w := range words {
		m.cols["s"].o = append(m.cols["s"].o, w)
	}
	if sym.Choose("columns", 2) == 1 {
		m.cols["s2"] = m.cols["s"]
	}
	df := m.build()
	v, idx := df, m.idx
	if sym.Choose("reverse", 2) == 1 {
		v, idx = df.ReverseView(), rev(n)
	}
	got := v.HashStringsView(m.names()...)
	for _, name := range m.names() {
		seen := map[int]int{}
		for j := 0; j < n; j++ {
			h := got.Ints(name).Get(j)
			sym.Assert(h >= 0, "hash of a string is negative")
			_, dup := seen[h]
			sym.Assert(!dup, "different short strings have the same hash")
			seen[h] = idx[j]
		}
	}
	sym.Cover("done")
}
