package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: hash-consed SMT expressions. One Table per worker.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
)

type Sort struct {
	K Kind
	W uint8 // bit width (BV) or 32/64 (FP)
}

var (
	SBool = Sort{KBool, 1}
	SFP64 = Sort{KFP, 64}
	SFP32 = Sort{KFP, 32}
)

func SBV(w int) Sort { return Sort{KBV, uint8(w)} }

func (s Sort) smt() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	default:
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq // SMT equality on any sort
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	ONeg
	OBNot
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OTrunc
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFFromBits
	OFCvt
	OFFromS
	OFFromU
	OFToS
	OFToU
	OFRTI // round to integral; val = mode 0 floor 1 ceil 2 trunc 3 even
	OFSignBit
)

type Term struct {
	op     Op
	sort   Sort
	args   []*Term
	val    uint64
	name   string
	id     int32
	lo, hi int64 // signed range for BV
	evGen  int32
	evVal  uint64
	size   int32
	depth  int32
	dd     int32 // see dd.go
}

func (t *Term) isConst() bool { return t.op == OConst }

type Table struct {
	m      map[string]*Term
	next   int32
	gen    int32
	T, F   *Term
	vars   []*Term
	keybuf []byte
	nodes  int
}

func NewTable() *Table {
	tb := &Table{m: map[string]*Term{}}
	tb.T = tb.Const(SBool, 1)
	tb.F = tb.Const(SBool, 0)
	return tb
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tb *Table) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := tb.keybuf[:0]
	k = append(k, byte(op), byte(s.K), s.W)
	for i := 0; i < 8; i++ {
		k = append(k, byte(val>>(8*i)))
	}
	for _, a := range args {
		k = append(k, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	k = append(k, name...)
	tb.keybuf = k
	if t, ok := tb.m[string(k)]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, id: tb.next}
	t.size = 1
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
		for _, a := range args {
			if t.size < 1<<28 {
				t.size += a.size
			}
			if a.depth+1 > t.depth {
				t.depth = a.depth + 1
			}
		}
	}
	tb.next++
	tb.nodes++
	tb.setRange(t)
	tb.m[string(k)] = t
	return t
}

func fullRange(w uint8) (int64, int64) {
	if w >= 64 {
		return math.MinInt64, math.MaxInt64
	}
	return -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0) || b == 0
}

func (tb *Table) setRange(t *Term) {
	if t.sort.K != KBV {
		return
	}
	w := t.sort.W
	lo, hi := fullRange(w)
	flo, fhi := lo, hi
	switch t.op {
	case OConst:
		lo = sext(t.val, w)
		hi = lo
	case OIte:
		a, b := t.args[1], t.args[2]
		lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
	case OAdd:
		a, b := t.args[0], t.args[1]
		l, ok1 := addOv(a.lo, b.lo)
		h, ok2 := addOv(a.hi, b.hi)
		if ok1 && ok2 && l >= flo && h <= fhi {
			lo, hi = l, h
		}
	case OSub:
		a, b := t.args[0], t.args[1]
		if b.lo != math.MinInt64 && b.hi != math.MinInt64 {
			l, ok1 := addOv(a.lo, -b.hi)
			h, ok2 := addOv(a.hi, -b.lo)
			if ok1 && ok2 && l >= flo && h <= fhi {
				lo, hi = l, h
			}
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		const lim = 1 << 30
		if a.lo > -lim && a.hi < lim && b.lo > -lim && b.hi < lim {
			ps := []int64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
			l, h := ps[0], ps[0]
			for _, p := range ps {
				l, h = min(l, p), max(h, p)
			}
			if l >= flo && h <= fhi {
				lo, hi = l, h
			}
		}
	case OZExt:
		a := t.args[0]
		if a.lo >= 0 {
			lo, hi = a.lo, a.hi
		} else {
			lo, hi = 0, int64(maskW(a.sort.W))
		}
	case OSExt:
		lo, hi = t.args[0].lo, t.args[0].hi
	case OTrunc:
		a := t.args[0]
		if a.lo >= flo && a.hi <= fhi {
			lo, hi = a.lo, a.hi
		}
	case OURem:
		a, b := t.args[0], t.args[1]
		if b.lo > 0 {
			lo, hi = 0, b.hi-1
			if a.lo >= 0 {
				hi = min(hi, a.hi)
			}
		}
	case OSRem:
		a, b := t.args[0], t.args[1]
		if b.lo > 0 {
			lo, hi = -(b.hi - 1), b.hi-1
			if a.lo >= 0 {
				lo = 0
				hi = min(hi, a.hi)
			}
		}
	case OSDiv:
		a, b := t.args[0], t.args[1]
		if a.lo >= 0 && b.lo > 0 {
			lo, hi = a.lo/b.hi, a.hi/b.lo
		}
	case OBAnd:
		a, b := t.args[0], t.args[1]
		if a.lo >= 0 {
			lo, hi = 0, a.hi
		}
		if b.lo >= 0 {
			if lo < 0 {
				lo = 0
				hi = b.hi
			} else {
				hi = min(hi, b.hi)
			}
		}
	}
	t.lo, t.hi = lo, hi
}

func (tb *Table) Const(s Sort, v uint64) *Term {
	switch s.K {
	case KBool:
		v &= 1
	case KBV:
		v &= maskW(s.W)
	case KFP:
		if s.W == 64 {
			if f := math.Float64frombits(v); f != f {
				v = 0x7ff8000000000001
			}
		} else {
			v &= 0xffffffff
			if f := math.Float32frombits(uint32(v)); f != f {
				v = 0x7fc00000
			}
		}
	}
	return tb.mk(OConst, s, v, "")
}

func (tb *Table) Bool(b bool) *Term {
	if b {
		return tb.T
	}
	return tb.F
}

// Var creates (or returns) the variable of that name. Range is only valid if the
// caller also asserts it.
func (tb *Table) Var(s Sort, name string, lo, hi int64, hasRange bool) *Term {
	n := tb.nodes
	t := tb.mk(OVar, s, 0, name)
	if tb.nodes != n {
		tb.vars = append(tb.vars, t)
		if hasRange && s.K == KBV {
			t.lo, t.hi = lo, hi
		}
	}
	return t
}

// rawRange is lo <= t <= hi, not simplified with t's own declared range.
func (tb *Table) rawRange(t *Term, lo, hi int64) *Term {
	a := tb.mk(OSle, SBool, 0, "", tb.Const(t.sort, uint64(lo)), t)
	b := tb.mk(OSle, SBool, 0, "", t, tb.Const(t.sort, uint64(hi)))
	return tb.mk(OAnd, SBool, 0, "", a, b)
}

func (tb *Table) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op {
	case OSlt:
		return tb.Cmp(OSle, a.args[1], a.args[0])
	case OSle:
		return tb.Cmp(OSlt, a.args[1], a.args[0])
	case OUlt:
		return tb.Cmp(OUle, a.args[1], a.args[0])
	case OUle:
		return tb.Cmp(OUlt, a.args[1], a.args[0])
	}
	return tb.mk(ONot, SBool, 0, "", a)
}

func (tb *Table) isNeg(a, b *Term) bool {
	return tb.Not(a) == b
}

func (tb *Table) And(a, b *Term) *Term {
	if a == tb.F || b == tb.F {
		return tb.F
	}
	if a == tb.T {
		return b
	}
	if b == tb.T || a == b {
		return a
	}
	if tb.isNeg(a, b) {
		return tb.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, SBool, 0, "", a, b)
}

func (tb *Table) Or(a, b *Term) *Term {
	if a == tb.T || b == tb.T {
		return tb.T
	}
	if a == tb.F {
		return b
	}
	if b == tb.F || a == b {
		return a
	}
	if tb.isNeg(a, b) {
		return tb.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, SBool, 0, "", a, b)
}

func (tb *Table) Ite(c, a, b *Term) *Term {
	if c == tb.T {
		return a
	}
	if c == tb.F {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == tb.T {
			return tb.Or(c, b)
		}
		if a == tb.F {
			return tb.And(tb.Not(c), b)
		}
		if b == tb.T {
			return tb.Or(tb.Not(c), a)
		}
		if b == tb.F {
			return tb.And(c, a)
		}
	}
	if a.sort.K == KFP && dd(a) > 0 && dd(b) > 0 {
		if r := tb.ddIte(c, a, b); r != nil {
			return r
		}
	}
	if c.op == ONot {
		return tb.Ite(c.args[0], b, a)
	}
	// ite(c, x, ite(c, y, z)) = ite(c, x, z)
	if b.op == OIte && b.args[0] == c {
		return tb.Ite(c, a, b.args[2])
	}
	if a.op == OIte && a.args[0] == c {
		return tb.Ite(c, a.args[1], b)
	}
	// ite(c, x, ite(d, x, z)) = ite(c|d, x, z)
	if b.op == OIte && b.args[1] == a {
		return tb.Ite(tb.Or(c, b.args[0]), a, b.args[2])
	}
	return tb.mk(OIte, a.sort, 0, "", c, a, b)
}

// constIte reports whether t is a (nested) ite with constant leaves, within a budget.
func constIte(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.op == OConst {
		return true
	}
	if t.op == OIte {
		return constIte(t.args[1], budget) && constIte(t.args[2], budget)
	}
	return false
}

func isConstIte(t *Term) bool {
	if t.op != OIte {
		return false
	}
	b := 64
	return constIte(t, &b)
}

func (tb *Table) liftIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return tb.Ite(t.args[0], tb.liftIte(t.args[1], f), tb.liftIte(t.args[2], f))
	}
	return f(t)
}

func (tb *Table) Eq(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.sort.K == KBV {
		if a.hi < b.lo || b.hi < a.lo {
			return tb.F
		}
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b == tb.T {
			return a
		}
		if b == tb.F {
			return tb.Not(a)
		}
	}
	if a.sort.K == KFP && ddOK(a, b) {
		if r := tb.ddBin(a, b, tb.Eq); r != nil {
			return r
		}
	}
	if b.isConst() && isConstIte(a) {
		return tb.liftIte(a, func(x *Term) *Term { return tb.Eq(x, b) })
	}
	if a.isConst() && isConstIte(b) {
		return tb.liftIte(b, func(x *Term) *Term { return tb.Eq(a, x) })
	}
	if (b.isConst() && (a.op == OZExt || a.op == OSExt)) || (a.isConst() && (b.op == OZExt || b.op == OSExt)) {
		x, k := a, b
		if a.isConst() {
			x, k = b, a
		}
		in := x.args[0]
		kk := tb.Const(in.sort, k.val)
		var back uint64
		if x.op == OZExt {
			back = kk.val
		} else {
			back = uint64(sext(kk.val, in.sort.W)) & maskW(x.sort.W)
		}
		if back != k.val {
			return tb.F
		}
		return tb.Eq(in, kk)
	}
	if a.op == OAdd && b.isConst() && a.args[1].isConst() {
		return tb.Eq(a.args[0], tb.Bin(OSub, b, a.args[1]))
	}
	// ite(c,x,y) = x  ->  c | y = x  (helps symbolic updates)
	if a.op == OIte && a.args[1] == b {
		return tb.Or(a.args[0], tb.Eq(a.args[2], b))
	}
	if a.op == OIte && a.args[2] == b {
		return tb.Or(tb.Not(a.args[0]), tb.Eq(a.args[1], b))
	}
	if b.op == OIte && b.args[1] == a {
		return tb.Or(b.args[0], tb.Eq(b.args[2], a))
	}
	if b.op == OIte && b.args[2] == a {
		return tb.Or(tb.Not(b.args[0]), tb.Eq(b.args[1], a))
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return tb.Ite(a.args[0], tb.Eq(a.args[1], b.args[1]), tb.Eq(a.args[2], b.args[2]))
	}
	if a.op == OFFromBits && b.op == OFFromBits && a.args[0] == b.args[0] {
		return tb.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, SBool, 0, "", a, b)
}

func (tb *Table) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(evalOp(op, SBool, 0, a.sort, a.val, b.val) == 1)
	}
	switch op {
	case OSlt:
		if a == b {
			return tb.F
		}
		if a.hi < b.lo {
			return tb.T
		}
		if a.lo >= b.hi {
			return tb.F
		}
	case OSle:
		if a == b {
			return tb.T
		}
		if a.hi <= b.lo {
			return tb.T
		}
		if a.lo > b.hi {
			return tb.F
		}
	case OUlt:
		if a == b {
			return tb.F
		}
		if a.lo >= 0 && b.lo >= 0 {
			return tb.Cmp(OSlt, a, b)
		}
	case OUle:
		if a == b {
			return tb.T
		}
		if a.lo >= 0 && b.lo >= 0 {
			return tb.Cmp(OSle, a, b)
		}
	}
	if a.sort.K == KFP && ddOK(a, b) {
		if r := tb.ddBin(a, b, func(x, y *Term) *Term { return tb.Cmp(op, x, y) }); r != nil {
			return r
		}
	}
	if b.isConst() && isConstIte(a) {
		return tb.liftIte(a, func(x *Term) *Term { return tb.Cmp(op, x, b) })
	}
	if a.isConst() && isConstIte(b) {
		return tb.liftIte(b, func(x *Term) *Term { return tb.Cmp(op, a, x) })
	}
	if op == OFLe && a.isConst() && fval(a) <= 0 && nonNeg(b) {
		return tb.Not(tb.Un(OFIsNaN, SBool, 0, b))
	}
	if op == OFLt && b.isConst() && fval(b) <= 0 && nonNeg(a) {
		return tb.F
	}
	return tb.mk(op, SBool, 0, "", a, b)
}

func nanBits(s Sort) uint64 {
	if s.W == 64 {
		return 0x7ff8000000000001
	}
	return 0x7fc00000
}

func fval(t *Term) float64 {
	if t.sort.W == 64 {
		return math.Float64frombits(t.val)
	}
	return float64(math.Float32frombits(uint32(t.val)))
}

func finiteNonZero(t *Term) bool {
	x := fval(t)
	return x == x && x != 0 && !math.IsInf(x, 0)
}

// nonNeg reports that t is >= 0 (either zero) or NaN.
func nonNeg(t *Term) bool {
	switch t.op {
	case OConst:
		return t.sort.K == KFP && !(fval(t) < 0)
	case OFAbs, OFSqrt:
		return true
	case OFMul:
		return t.args[0] == t.args[1] || (nonNeg(t.args[0]) && nonNeg(t.args[1]))
	case OFAdd:
		return nonNeg(t.args[0]) && nonNeg(t.args[1])
	case OFDiv:
		return t.args[1].isConst() && fval(t.args[1]) > 0 && nonNeg(t.args[0])
	}
	return false
}

func (tb *Table) Bin(op Op, a, b *Term) *Term {
	s := a.sort
	if a.isConst() && b.isConst() {
		if !((op == OUDiv || op == OSDiv || op == OURem || op == OSRem) && b.val == 0) {
			return tb.Const(s, evalOp(op, s, 0, s, a.val, b.val))
		}
	}
	if s.K == KFP && ddOK(a, b) {
		if r := tb.ddBin(a, b, func(x, y *Term) *Term { return tb.Bin(op, x, y) }); r != nil {
			return r
		}
	}
	zero := func(t *Term) bool { return t.isConst() && t.val == 0 }
	one := func(t *Term) bool { return t.isConst() && t.val == 1 }
	switch op {
	case OAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.op == OAdd && a.args[1].isConst() {
			return tb.Bin(OAdd, a.args[0], tb.Bin(OAdd, a.args[1], b))
		}
		if b.isConst() && a.op == OSub && a.args[1].isConst() {
			return tb.Bin(OAdd, a.args[0], tb.Bin(OSub, b, a.args[1]))
		}
	case OSub:
		if zero(b) {
			return a
		}
		if a == b {
			return tb.Const(s, 0)
		}
		if b.isConst() {
			return tb.Bin(OAdd, a, tb.Const(s, -b.val))
		}
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.op == OAdd && a.args[1] == b {
			return a.args[0]
		}
	case OMul:
		if zero(a) || zero(b) {
			return tb.Const(s, 0)
		}
		if one(a) {
			return b
		}
		if one(b) {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
	case OSDiv, OUDiv:
		if one(b) {
			return a
		}
	case OSRem, OURem:
		if one(b) {
			return tb.Const(s, 0)
		}
		if b.isConst() && a.lo >= 0 && b.lo > 0 && a.hi < b.lo {
			return a
		}
	case OBAnd:
		if zero(a) || zero(b) {
			return tb.Const(s, 0)
		}
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == maskW(s.W) {
			return a
		}
		// x & mask where x in [0,mask] and mask = 2^k-1
		if b.isConst() && b.val&(b.val+1) == 0 && a.lo >= 0 && uint64(a.hi) <= b.val {
			return a
		}
	case OBOr:
		if zero(a) {
			return b
		}
		if zero(b) || a == b {
			return a
		}
	case OBXor:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if a == b {
			return tb.Const(s, 0)
		}
	case OShl, OLShr, OAShr:
		if zero(b) {
			return a
		}
	case OFSub:
		if a == b { // x-x is +0, or NaN for infinities and NaN
			return tb.Ite(tb.Or(tb.Un(OFIsNaN, SBool, 0, a), tb.Un(OFIsInf, SBool, 0, a)), tb.Const(s, nanBits(s)), tb.Const(s, 0))
		}
	case OFAdd, OFMul:
		if op == OFMul && a == b { // (-x)(-x) = xx, (x-y)(x-y) = (y-x)(y-x)
			if a.op == OFNeg {
				return tb.Bin(op, a.args[0], a.args[0])
			}
			if a.op == OFSub && a.args[0].id > a.args[1].id {
				d := tb.Bin(OFSub, a.args[1], a.args[0])
				return tb.Bin(op, d, d)
			}
		}
		if a.id > b.id { // commutative (NaN is unique in SMT)
			a, b = b, a
		}
		return tb.mk(op, s, 0, "", a, b)
	}
	if s.K == KBV {
		if b.isConst() && isConstIte(a) && !((op == OUDiv || op == OSDiv || op == OURem || op == OSRem) && b.val == 0) {
			return tb.liftIte(a, func(x *Term) *Term { return tb.Bin(op, x, b) })
		}
		if a.isConst() && isConstIte(b) && op != OUDiv && op != OSDiv && op != OURem && op != OSRem {
			return tb.liftIte(b, func(x *Term) *Term { return tb.Bin(op, a, x) })
		}
	}
	if (op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(op, s, 0, "", a, b)
}

func (tb *Table) Un(op Op, rs Sort, extra uint64, a *Term) *Term {
	if a.isConst() {
		return tb.Const(rs, evalOp(op, rs, extra, a.sort, a.val, 0))
	}
	if a.sort.K == KFP && dd(a) > 1 {
		return tb.ddUn(a, func(x *Term) *Term { return tb.Un(op, rs, extra, x) })
	}
	switch op {
	case OZExt, OSExt, OTrunc:
		if rs.W == a.sort.W {
			return a
		}
		if op == OSExt && a.lo >= 0 {
			op = OZExt
		}
		if isConstIte(a) {
			return tb.liftIte(a, func(x *Term) *Term { return tb.Un(op, rs, extra, x) })
		}
		if op == OTrunc && (a.op == OZExt || a.op == OSExt) {
			in := a.args[0]
			if in.sort.W == rs.W {
				return in
			}
			if in.sort.W > rs.W {
				return tb.Un(OTrunc, rs, 0, in)
			}
			return tb.Un(a.op, rs, 0, in)
		}
		if op == OZExt && a.op == OZExt {
			return tb.Un(OZExt, rs, 0, a.args[0])
		}
		if op == OSExt && a.op == OSExt {
			return tb.Un(OSExt, rs, 0, a.args[0])
		}
	case OFNeg:
		if a.op == OFNeg {
			return a.args[0]
		}
	case OFAbs:
		if a.op == OFAbs || a.op == OFNeg {
			return tb.Un(OFAbs, rs, 0, a.args[0])
		}
		if a.op == OFSub && a.args[0].id > a.args[1].id { // |x-y| = |y-x|
			return tb.Un(OFAbs, rs, 0, tb.Bin(OFSub, a.args[1], a.args[0]))
		}
	case OFIsNaN:
		switch a.op {
		case OFFromS, OFFromU:
			return tb.F
		case OIte:
			return tb.Ite(a.args[0], tb.Un(op, rs, 0, a.args[1]), tb.Un(op, rs, 0, a.args[2]))
		case OFNeg, OFAbs, OFCvt:
			return tb.Un(op, rs, 0, a.args[0])
		case OFMul:
			if a.args[0] == a.args[1] {
				return tb.Un(op, rs, 0, a.args[0])
			}
		case OFDiv:
			if k := a.args[1]; k.isConst() && finiteNonZero(k) {
				return tb.Un(op, rs, 0, a.args[0])
			}
		case OFAdd:
			if nonNeg(a.args[0]) && nonNeg(a.args[1]) {
				return tb.Or(tb.Un(op, rs, 0, a.args[0]), tb.Un(op, rs, 0, a.args[1]))
			}
		case OFSub:
			x, y := a.args[0], a.args[1]
			same := tb.And(tb.And(tb.Un(OFIsInf, SBool, 0, x), tb.Un(OFIsInf, SBool, 0, y)), tb.Cmp(OFEq, x, y))
			return tb.Or(tb.Or(tb.Un(op, rs, 0, x), tb.Un(op, rs, 0, y)), same)
		}
	case OFCvt:
		if a.sort == rs {
			return a
		}
	case OFToS:
		if a.op == OFFromS && a.args[0].sort == rs && a.args[0].lo > -(1<<53) && a.args[0].hi < 1<<53 && a.sort.W == 64 {
			return a.args[0]
		}
	}
	if (op == OFFromS || op == OFFromU || op == OFCvt || op == OFNeg) && isConstIte(a) {
		return tb.liftIte(a, func(x *Term) *Term { return tb.Un(op, rs, extra, x) })
	}
	return tb.mk(op, rs, extra, "", a)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp evaluates a binary or unary op natively. as is the argument sort.
func evalOp(op Op, rs Sort, extra uint64, as Sort, a, b uint64) uint64 {
	w := as.W
	if as.K == KBV {
		switch op {
		case OAdd:
			return (a + b) & maskW(w)
		case OSub:
			return (a - b) & maskW(w)
		case OMul:
			return (a * b) & maskW(w)
		case OUDiv:
			if b == 0 {
				return maskW(w)
			}
			return a / b
		case OURem:
			if b == 0 {
				return a
			}
			return a % b
		case OSDiv:
			sa, sb := sext(a, w), sext(b, w)
			if sb == 0 {
				if sa < 0 {
					return 1
				}
				return maskW(w)
			}
			if sb == -1 {
				return uint64(-sa) & maskW(w)
			}
			return uint64(sa/sb) & maskW(w)
		case OSRem:
			sa, sb := sext(a, w), sext(b, w)
			if sb == 0 {
				return a
			}
			if sb == -1 {
				return 0
			}
			return uint64(sa%sb) & maskW(w)
		case OBAnd:
			return a & b
		case OBOr:
			return a | b
		case OBXor:
			return a ^ b
		case OShl:
			if b >= uint64(w) {
				return 0
			}
			return (a << b) & maskW(w)
		case OLShr:
			if b >= uint64(w) {
				return 0
			}
			return a >> b
		case OAShr:
			sh := b
			if sh >= uint64(w) {
				sh = uint64(w) - 1
			}
			return uint64(sext(a, w)>>sh) & maskW(w)
		case ONeg:
			return -a & maskW(w)
		case OBNot:
			return ^a & maskW(w)
		case OUlt:
			return b2u(a < b)
		case OUle:
			return b2u(a <= b)
		case OSlt:
			return b2u(sext(a, w) < sext(b, w))
		case OSle:
			return b2u(sext(a, w) <= sext(b, w))
		case OZExt:
			return a
		case OSExt:
			return uint64(sext(a, w)) & maskW(rs.W)
		case OTrunc:
			return a & maskW(rs.W)
		case OFFromBits:
			return a
		case OFFromS:
			if rs.W == 64 {
				return math.Float64bits(float64(sext(a, w)))
			}
			return uint64(math.Float32bits(float32(sext(a, w))))
		case OFFromU:
			if rs.W == 64 {
				return math.Float64bits(float64(a))
			}
			return uint64(math.Float32bits(float32(a)))
		}
	}
	if as.K == KFP {
		if w == 64 {
			x, y := math.Float64frombits(a), math.Float64frombits(b)
			switch op {
			case OFAdd:
				return math.Float64bits(x + y)
			case OFSub:
				return math.Float64bits(x - y)
			case OFMul:
				return math.Float64bits(x * y)
			case OFDiv:
				return math.Float64bits(x / y)
			case OFNeg:
				return math.Float64bits(-x)
			case OFAbs:
				return math.Float64bits(math.Abs(x))
			case OFSqrt:
				return math.Float64bits(math.Sqrt(x))
			case OFLt:
				return b2u(x < y)
			case OFLe:
				return b2u(x <= y)
			case OFEq:
				return b2u(x == y)
			case OFIsNaN:
				return b2u(x != x)
			case OFIsInf:
				return b2u(math.IsInf(x, 0))
			case OFSignBit:
				return b2u(math.Signbit(x))
			case OFCvt:
				if rs.W == 64 {
					return a
				}
				return uint64(math.Float32bits(float32(x)))
			case OFToS:
				return uint64(f2s(x, rs.W)) & maskW(rs.W)
			case OFToU:
				return uint64(x) & maskW(rs.W)
			case OFRTI:
				switch extra {
				case 0:
					x = math.Floor(x)
				case 1:
					x = math.Ceil(x)
				case 2:
					x = math.Trunc(x)
				case 4:
					x = math.Round(x)
				default:
					x = math.RoundToEven(x)
				}
				return math.Float64bits(x)
			}
		} else {
			x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
			r := func(f float32) uint64 { return uint64(math.Float32bits(f)) }
			switch op {
			case OFAdd:
				return r(x + y)
			case OFSub:
				return r(x - y)
			case OFMul:
				return r(x * y)
			case OFDiv:
				return r(x / y)
			case OFNeg:
				return r(-x)
			case OFAbs:
				return r(float32(math.Abs(float64(x))))
			case OFSqrt:
				return r(float32(math.Sqrt(float64(x))))
			case OFLt:
				return b2u(x < y)
			case OFLe:
				return b2u(x <= y)
			case OFEq:
				return b2u(x == y)
			case OFIsNaN:
				return b2u(x != x)
			case OFIsInf:
				return b2u(math.IsInf(float64(x), 0))
			case OFSignBit:
				return b2u(math.Signbit(float64(x)))
			case OFCvt:
				if rs.W == 32 {
					return a
				}
				return math.Float64bits(float64(x))
			case OFToS:
				return uint64(f2s(float64(x), rs.W)) & maskW(rs.W)
			}
		}
	}
	panic(fmt.Sprintf("evalOp: op %d sort %v", op, as))
}

func f2s(x float64, w uint8) int64 {
	if w == 64 {
		if x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0 {
			return math.MinInt64
		}
		return int64(x)
	}
	return int64(x)
}

// Model assigns values to variables (by term). Missing = 0.
type Model map[*Term]uint64

// Eval evaluates t under m; generation-cached.
func (tb *Table) Eval(t *Term, m Model) uint64 {
	tb.gen++
	return tb.ev(t, m)
}

func (tb *Table) ev(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == tb.gen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m[t]
		if t.sort.K == KBV {
			// out-of-range defaults are moved into the declared range
			s := sext(v, t.sort.W)
			if s < t.lo || s > t.hi {
				v = uint64(t.lo) & maskW(t.sort.W)
			}
		}
	case ONot:
		v = 1 - tb.ev(t.args[0], m)
	case OAnd:
		v = tb.ev(t.args[0], m)
		if v == 1 {
			v = tb.ev(t.args[1], m)
		}
	case OOr:
		v = tb.ev(t.args[0], m)
		if v == 0 {
			v = tb.ev(t.args[1], m)
		}
	case OIte:
		if tb.ev(t.args[0], m) == 1 {
			v = tb.ev(t.args[1], m)
		} else {
			v = tb.ev(t.args[2], m)
		}
	case OEq:
		v = b2u(canonFP(t.args[0].sort, tb.ev(t.args[0], m)) == canonFP(t.args[1].sort, tb.ev(t.args[1], m)))
	default:
		a := tb.ev(t.args[0], m)
		var b uint64
		if len(t.args) > 1 {
			b = tb.ev(t.args[1], m)
		}
		v = canonFP(t.sort, evalOp(t.op, t.sort, t.val, t.args[0].sort, a, b))
	}
	t.evGen = tb.gen
	t.evVal = v
	return v
}

func canonFP(s Sort, v uint64) uint64 {
	if s.K == KFP {
		if s.W == 64 {
			if f := math.Float64frombits(v); f != f {
				return 0x7ff8000000000001
			}
		} else if f := math.Float32frombits(uint32(v)); f != f {
			return 0x7fc00000
		}
	}
	return v
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OBNot: "bvnot", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite", OFSignBit: "fp.isNegative"}

func constSMT(t *Term) string {
	switch t.sort.K {
	case KBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case KBV:
		if t.sort.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.sort.W)/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.sort.W), t.val)
	default:
		if t.sort.W == 64 {
			if f := math.Float64frombits(t.val); f != f {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
		}
		if f := math.Float32frombits(uint32(t.val)); f != f {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
	}
}

// exprSMT prints t in terms of references to its arguments.
func exprSMT(t *Term, ref func(*Term) string) string {
	var sb strings.Builder
	sb.WriteByte('(')
	eb, mb := 11, 53
	if t.sort.W == 32 {
		eb, mb = 8, 24
	}
	switch t.op {
	case OZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort.W-t.args[0].sort.W)
	case OSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort.W-t.args[0].sort.W)
	case OTrunc:
		fmt.Fprintf(&sb, "(_ extract %d 0)", t.sort.W-1)
	case OFFromBits:
		fmt.Fprintf(&sb, "(_ to_fp %d %d)", eb, mb)
	case OFCvt, OFFromS:
		fmt.Fprintf(&sb, "(_ to_fp %d %d) RNE", eb, mb)
	case OFFromU:
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %d %d) RNE", eb, mb)
	case OFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort.W)
	case OFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.sort.W)
	case OFRTI:
		sb.WriteString("fp.roundToIntegral " + []string{"RTN", "RTP", "RTZ", "RNE", "RNA"}[t.val])
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len
