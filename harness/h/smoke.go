package h

import "verifharness/sym"

// SMOKE_Add checks the engine itself.
func SMOKE_Add() {
	a := sym.IntRange("a", 0, 10)
	b := sym.IntRange("b", 0, 10)
	xs := []int{5, 3, a, b}
	m := 0
	for _, x := range xs {
		if x > m {
			m = x
		}
	}
	sym.Assert(m >= a && m >= b, "max")
	sym.Cover("end")
	sym.Observe("m", m)
}

// SMOKE_Bad must be refuted.
func SMOKE_Bad() {
	a := sym.IntRange("a", 0, 10)
	if a > 4 {
		sym.Assert(a != 7, "not seven")
	}
}
