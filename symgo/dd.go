package main

// Ordered decision diagrams with float constants as leaves: floating-point
// operations on values of finite support (sym.OneOf and what is computed from
// it) become Boolean structure over the selecting atoms, which solvers decide
// easily, unlike bit-blasted multiplication and division.

const (
	ddCap   = 3000    // largest operand
	ddProd  = 60000   // product of operand sizes that is always expanded
	ddLarge = 6000000 // ... that is tried with ddSteps steps
	ddSteps = 3000
)

type ddPair struct{ a, b *Term }

// dd is the tree size of t as an ordered diagram; 0 if it is none.
func dd(t *Term) int32 {
	if t.op == OConst && t.sort.K == KFP {
		return 1
	}
	return t.dd
}

// ddKey orders atoms; atoms v=k on the same variable v are adjacent.
func ddKey(c *Term) (int32, uint64) {
	if v, k := eqAtom(c); v != nil {
		return v.id, k
	}
	return c.id, 0
}

func eqAtom(c *Term) (*Term, uint64) {
	if c.op == OEq {
		if c.args[0].op == OVar && c.args[1].op == OConst {
			return c.args[0], c.args[1].val
		}
		if c.args[1].op == OVar && c.args[0].op == OConst {
			return c.args[1], c.args[0].val
		}
	}
	return nil, 0
}

func ddLess(a, b *Term) bool {
	i, x := ddKey(a)
	j, y := ddKey(b)
	if i != j {
		return i < j
	}
	if x != y {
		return x < y
	}
	return a.id < b.id
}

// ddTop is the first atom of the diagrams, nil if all are constant.
func ddTop(ts ...*Term) *Term {
	var c *Term
	for _, t := range ts {
		if t.op == OIte && (c == nil || ddLess(t.args[0], c)) {
			c = t.args[0]
		}
	}
	return c
}

// ddRestrict assumes c (which is not after the top atom of t).
func ddRestrict(t, c *Term, val bool) *Term {
	v, _ := eqAtom(c)
	for t.op == OIte {
		d := t.args[0]
		if d == c {
			if val {
				return t.args[1]
			}
			t = t.args[2]
			continue
		}
		if w, _ := eqAtom(d); val && v != nil && w == v {
			t = t.args[2] // v has another value
			continue
		}
		break
	}
	return t
}

func (tb *Table) ddNode(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	t := tb.mk(OIte, a.sort, 0, "", c, a, b)
	t.dd = 1 + dd(a) + dd(b)
	return t
}

// ddBin applies f to the leaves of a and b. Bool results are built with Ite.
// It returns nil when that takes too many steps for large diagrams.
func (tb *Table) ddBin(a, b *Term, f func(x, y *Term) *Term) *Term {
	memo := map[ddPair]*Term{}
	large := int64(dd(a))*int64(dd(b)) > ddProd && a != b
	var rec func(a, b *Term) *Term
	rec = func(a, b *Term) *Term {
		c := ddTop(a, b)
		if c == nil {
			return f(a, b)
		}
		if r, ok := memo[ddPair{a, b}]; ok {
			return r
		}
		if large && len(memo) > ddSteps {
			return nil
		}
		p := rec(ddRestrict(a, c, true), ddRestrict(b, c, true))
		if p == nil {
			return nil
		}
		q := rec(ddRestrict(a, c, false), ddRestrict(b, c, false))
		if q == nil {
			return nil
		}
		var r *Term
		if p.sort.K == KFP {
			r = tb.ddNode(c, p, q)
		} else {
			r = tb.Ite(c, p, q)
		}
		memo[ddPair{a, b}] = r
		return r
	}
	return rec(a, b)
}

func (tb *Table) ddUn(a *Term, f func(*Term) *Term) *Term {
	return tb.ddBin(a, a, func(x, _ *Term) *Term { return f(x) })
}

// ddOK reports whether a combination of a and b is worth expanding.
func ddOK(a, b *Term) bool {
	x, y := dd(a), dd(b)
	return x > 0 && y > 0 && (x > 1 || y > 1) && (int64(x)*int64(y) <= ddLarge || a == b) && x <= ddCap && y <= ddCap
}

// ddIte is ite(c, a, b) for diagrams a and b, or nil when it gets too large.
func (tb *Table) ddIte(c, a, b *Term) *Term {
	if dd(a) == 0 || dd(b) == 0 {
		return nil
	}
	n := 0
	type key struct{ c, a, b *Term }
	memo := map[key]*Term{}
	var rec func(c, a, b *Term) *Term
	rec = func(c, a, b *Term) *Term {
		switch {
		case c == tb.T:
			return a
		case c == tb.F:
			return b
		case a == b:
			return a
		}
		if r, ok := memo[key{c, a, b}]; ok {
			return r
		}
		if n++; n > ddCap {
			return nil
		}
		var r *Term
		switch c.op {
		case ONot:
			r = rec(c.args[0], b, a)
		case OAnd:
			if m := rec(c.args[1], a, b); m != nil {
				r = rec(c.args[0], m, b)
			}
		case OOr:
			if m := rec(c.args[1], a, b); m != nil {
				r = rec(c.args[0], a, m)
			}
		case OIte:
			p, q := rec(c.args[1], a, b), rec(c.args[2], a, b)
			if p != nil && q != nil {
				r = rec(c.args[0], p, q)
			}
		default:
			top := ddTop(a, b)
			if top == nil || ddLess(c, top) || c == top {
				r = tb.ddNode(c, ddRestrict(a, c, true), ddRestrict(b, c, false))
				break
			}
			// restrict c itself when it is an atom on the same variable
			ct, cf := c, c
			if v, _ := eqAtom(c); v != nil {
				if w, _ := eqAtom(top); w == v {
					ct = tb.F
				}
			}
			p := rec(ct, ddRestrict(a, top, true), ddRestrict(b, top, true))
			q := rec(cf, ddRestrict(a, top, false), ddRestrict(b, top, false))
			if p != nil && q != nil {
				r = tb.ddNode(top, p, q)
			}
		}
		if r == nil || dd(r) > ddCap {
			n = ddCap
			return nil
		}
		memo[key{c, a, b}] = r
		return r
	}
	return rec(c, a, b)
}
