package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a Go value. Concrete scalars live in u with r == nil; symbolic scalars
// have r == *Term. All other kinds use r.
type Value struct {
	r any
	u uint64
}

type Cell struct {
	v    Value
	sub  []*Cell
	base bool
	acc  *Access
}

type SliceV struct{ c []*Cell }

type AggV struct{ f []Value }

type SymStr struct{ b []*Term }

type IfaceV struct {
	t *TI
	v Value
}

type FuncV struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
}

// SymPtr is the address of one of several cells, chosen by a symbolic index
// already known to be within bounds.
type SymPtr struct {
	c   []*Cell
	idx *Term
	el  *TI
}

// SlicePtr is unsafe.SliceData of a slice / StringData of a string.
type SlicePtr struct {
	c []*Cell
	s Value // string value when from a string
}

type mapEnt struct {
	key, val Value
	dead     bool
}

type MapObj struct {
	ents  []*mapEnt
	idx   map[string]*mapEnt
	nsym  int
	n     int
	ndead int
	base  bool
	acc   *Access
	id    int
}

type IterV struct {
	ents []*mapEnt
	i    int
	str  Value
	m    *MapObj
}

type ChanObj struct {
	buf    []chanMsg
	cap    int
	closed bool
	sendq  []*pendSend
	recvW  int
	vcs    VC
	closeV VC
	slotVC VC
	el     *TI
}
type chanMsg struct {
	v  Value
	vc VC
}
type pendSend struct {
	g    *G
	v    Value
	done bool
	vc   VC
}

// ---- types ----

type TK uint8

const (
	TScalar TK = iota
	TString
	TPtr
	TSlice
	TMap
	TIface
	TFunc
	TChan
	TStruct
	TArray
	TTuple
	TUnsafe
	TOther
)

type TI struct {
	t      types.Type
	k      TK
	sort   Sort
	signed bool
	isFlt  bool
	elem   *TI
	key    *TI
	fields []*TI
	n      int
	size   int64
	hasPtr bool
	id     int
}

func (in *Interp) ti(t types.Type) *TI {
	if x, ok := in.tiByPtr[t]; ok {
		return x
	}
	if x := in.tiCanon.At(t); x != nil {
		r := x.(*TI)
		in.tiByPtr[t] = r
		return r
	}
	r := &TI{t: t, id: len(in.tiByPtr)}
	in.tiByPtr[t] = r
	in.tiCanon.Set(t, r)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		in.basicTI(r, u)
	case *types.Pointer:
		r.k = TPtr
	case *types.Slice:
		r.k = TSlice
		r.elem = in.ti(u.Elem())
	case *types.Map:
		r.k = TMap
		r.key, r.elem = in.ti(u.Key()), in.ti(u.Elem())
	case *types.Interface:
		r.k = TIface
	case *types.Signature:
		r.k = TFunc
	case *types.Chan:
		r.k = TChan
		r.elem = in.ti(u.Elem())
	case *types.Struct:
		r.k = TStruct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, in.ti(u.Field(i).Type()))
		}
	case *types.Array:
		r.k = TArray
		r.elem = in.ti(u.Elem())
		r.n = int(u.Len())
	case *types.Tuple:
		r.k = TTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, in.ti(u.At(i).Type()))
		}
	default:
		r.k = TOther
	}
	if r.k != TTuple && r.k != TOther {
		func() {
			defer func() {
				if recover() != nil {
					r.size = 8
				}
			}()
			r.size = in.sizes.Sizeof(t)
		}()
	}
	r.hasPtr = r.k != TScalar
	return r
}

func (in *Interp) basicTI(r *TI, b *types.Basic) {
	r.k = TScalar
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		r.sort = SBool
	case types.Int, types.Int64, types.UntypedInt:
		r.sort, r.signed = SBV(64), true
	case types.Int8:
		r.sort, r.signed = SBV(8), true
	case types.Int16:
		r.sort, r.signed = SBV(16), true
	case types.Int32, types.UntypedRune:
		r.sort, r.signed = SBV(32), true
	case types.Uint, types.Uint64, types.Uintptr:
		r.sort = SBV(64)
	case types.Uint8:
		r.sort = SBV(8)
	case types.Uint16:
		r.sort = SBV(16)
	case types.Uint32:
		r.sort = SBV(32)
	case types.Float32:
		r.sort, r.isFlt = SFP32, true
	case types.Float64, types.UntypedFloat:
		r.sort, r.isFlt = SFP64, true
	case types.String, types.UntypedString:
		r.k = TString
	case types.UnsafePointer:
		r.k = TUnsafe
	case types.UntypedNil:
		r.k = TPtr
	default:
		r.k = TOther
	}
}

// zero value (immutable form)
func (in *Interp) zero(t *TI) Value {
	switch t.k {
	case TStruct, TTuple:
		a := &AggV{f: make([]Value, len(t.fields))}
		for i, f := range t.fields {
			a.f[i] = in.zero(f)
		}
		return Value{r: a}
	case TArray:
		a := &AggV{f: make([]Value, t.n)}
		for i := range a.f {
			a.f[i] = in.zero(t.elem)
		}
		return Value{r: a}
	}
	return Value{}
}

func (in *Interp) initCell(c *Cell, t *TI) {
	switch t.k {
	case TStruct:
		blk := make([]Cell, len(t.fields))
		c.sub = make([]*Cell, len(t.fields))
		for i := range blk {
			c.sub[i] = &blk[i]
			if k := t.fields[i].k; k == TStruct || k == TArray {
				in.initCell(&blk[i], t.fields[i])
			}
		}
		if in.initing {
			for i := range blk {
				blk[i].base = true
			}
		}
	case TArray:
		c.sub = in.newCells(t.n, t.elem)
	}
	c.base = in.initing
}

func (in *Interp) newCells(n int, el *TI) []*Cell {
	blk := make([]Cell, n)
	r := make([]*Cell, n)
	agg := el.k == TStruct || el.k == TArray
	for i := range blk {
		r[i] = &blk[i]
		if agg {
			in.initCell(&blk[i], el)
		}
		blk[i].base = in.initing
	}
	return r
}

func (in *Interp) newCell(t *TI) *Cell {
	c := &Cell{}
	in.initCell(c, t)
	return c
}

// load copies the content out of a cell.
func (in *Interp) load(c *Cell) Value {
	if c.sub != nil {
		a := &AggV{f: make([]Value, len(c.sub))}
		for i, s := range c.sub {
			a.f[i] = in.load(s)
		}
		return Value{r: a}
	}
	if in.raceOn {
		in.raceRead(c)
	}
	return c.v
}

func (in *Interp) store(c *Cell, v Value) {
	if c.sub != nil {
		a, _ := v.r.(*AggV)
		if a == nil {
			if v.r == nil {
				for _, s := range c.sub {
					in.store(s, Value{})
				}
				return
			}
			in.unsup("store of non-aggregate into aggregate")
		}
		in.storeT = nil
		for i, s := range c.sub {
			in.store(s, a.f[i])
		}
		return
	}
	if in.raceOn {
		in.raceWrite(c)
	}
	if c.base && !in.initing {
		in.undo = append(in.undo, undoRec{c, c.v})
	}
	if in.spec != nil {
		in.spec.log = append(in.spec.log, undoRec{c, c.v})
		if in.storeT != nil {
			in.spec.types[c] = in.storeT
		}
	}
	c.v = v
}

type undoRec struct {
	c *Cell
	v Value
}

func (in *Interp) loadPtr(v Value) Value {
	switch p := v.r.(type) {
	case *Cell:
		return in.load(p)
	case *SymPtr:
		if r, ok := in.loadSym(p); ok {
			return r
		}
		return in.load(in.concPtr(p))
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	case *SlicePtr:
		if p.c != nil && len(p.c) > 0 {
			return in.load(p.c[0])
		}
	}
	in.unsup(fmt.Sprintf("load through %T", v.r))
	return Value{}
}

func (in *Interp) concPtr(p *SymPtr) *Cell {
	i := in.concretize(p.idx, 0, int64(len(p.c)-1))
	return p.c[i]
}

func (in *Interp) loadSym(p *SymPtr) (Value, bool) {
	lo, hi := p.idx.lo, p.idx.hi
	if lo < 0 {
		lo = 0
	}
	if hi >= int64(len(p.c)) {
		hi = int64(len(p.c)) - 1
	}
	if lo > hi {
		in.unsup("empty symbolic pointer")
	}
	acc := in.load(p.c[hi])
	for i := hi - 1; i >= lo; i-- {
		c := in.tb.Eq(p.idx, in.tb.Const(p.idx.sort, uint64(i)))
		if c == in.tb.F {
			continue
		}
		var ok bool
		acc, ok = in.mergeT(p.el, c, in.load(p.c[i]), acc)
		if !ok {
			return Value{}, false
		}
	}
	return acc, true
}

func (in *Interp) storePtr(pv Value, v Value) {
	switch p := pv.r.(type) {
	case *Cell:
		in.store(p, v)
		return
	case *SymPtr:
		// conditional update of every candidate
		n := len(p.c)
		nv := make([]Value, n)
		for i, c := range p.c {
			cond := in.tb.Eq(p.idx, in.tb.Const(p.idx.sort, uint64(i)))
			if cond == in.tb.F {
				nv[i] = in.load(c)
				continue
			}
			m, ok := in.mergeT(p.el, cond, v, in.load(c))
			if !ok {
				in.store(in.concPtr(p), v)
				return
			}
			nv[i] = m
		}
		for i, c := range p.c {
			in.store(c, nv[i])
		}
		return
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.unsup(fmt.Sprintf("store through %T", pv.r))
}

// merge builds ite(c, a, b) when the shapes allow it.
func (in *Interp) merge(c *Term, a, b Value) (Value, bool) {
	if c == in.tb.T {
		return a, true
	}
	if c == in.tb.F {
		return b, true
	}
	if a == b {
		return a, true
	}
	ta, oka := a.r.(*Term)
	tb_, okb := b.r.(*Term)
	switch {
	case oka && okb:
		return in.fromTerm(in.tb.Ite(c, ta, tb_)), true
	case oka && b.r == nil:
		return in.fromTerm(in.tb.Ite(c, ta, in.tb.Const(ta.sort, b.u))), true
	case okb && a.r == nil:
		return in.fromTerm(in.tb.Ite(c, in.tb.Const(tb_.sort, a.u), tb_)), true
	}
	switch x := a.r.(type) {
	case string, *SymStr:
		xs, ok1 := in.strTerms(a)
		ys, ok2 := in.strTerms(b)
		if ok1 && ok2 && len(xs) == len(ys) {
			r := make([]*Term, len(xs))
			for i := range xs {
				r[i] = in.tb.Ite(c, xs[i], ys[i])
			}
			return in.mkStr(r), true
		}
	case *IfaceV:
		y, ok := b.r.(*IfaceV)
		if ok && x.t == y.t {
			if x.t.k == TScalar {
				m := in.mergeScalar(c, x.t.sort, x.v, y.v)
				return Value{r: &IfaceV{x.t, m}}, true
			}
			if m, ok := in.merge(c, x.v, y.v); ok {
				return Value{r: &IfaceV{x.t, m}}, true
			}
		}
	case *AggV:
		// fields may hold concrete scalars of unknown sort: only if equal or mergeable
		y, ok := b.r.(*AggV)
		if ok && len(x.f) == len(y.f) {
			r := &AggV{f: make([]Value, len(x.f))}
			for i := range x.f {
				m, ok := in.merge(c, x.f[i], y.f[i])
				if !ok {
					return Value{}, false
				}
				r.f[i] = m
			}
			return Value{r: r}, true
		}
	}
	return Value{}, false
}

func (in *Interp) mergeScalar(c *Term, s Sort, a, b Value) Value {
	return in.fromTerm(in.tb.Ite(c, in.term(a, s), in.term(b, s)))
}

// mergeT merges with a known static type (needed for two concrete scalars).
func (in *Interp) mergeT(t *TI, c *Term, a, b Value) (Value, bool) {
	if t.k == TScalar {
		return in.mergeScalar(c, t.sort, a, b), true
	}
	if t.k == TStruct {
		x, ok1 := a.r.(*AggV)
		y, ok2 := b.r.(*AggV)
		if ok1 && ok2 {
			r := &AggV{f: make([]Value, len(x.f))}
			for i := range x.f {
				m, ok := in.mergeT(t.fields[i], c, x.f[i], y.f[i])
				if !ok {
					return Value{}, false
				}
				r.f[i] = m
			}
			return Value{r: r}, true
		}
	}
	return in.merge(c, a, b)
}

func (in *Interp) term(v Value, s Sort) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return in.tb.Const(s, v.u)
}

func (in *Interp) fromTerm(t *Term) Value {
	if t.op == OConst {
		return Value{u: t.val}
	}
	return Value{r: t}
}

func mkInt(i int) Value   { return Value{u: uint64(i)} }
func mkBool(b bool) Value { return Value{u: b2u(b)} }
func mkFloat(f float64) Value {
	return Value{u: math.Float64bits(f)}
}

func mkString(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: s}
}

func (in *Interp) mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OConst {
			return Value{r: &SymStr{b}}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return mkString(sb.String())
}

// strConc returns the concrete string.
func strConc(v Value) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (in *Interp) strTerms(v Value) ([]*Term, bool) {
	switch s := v.r.(type) {
	case nil:
		return nil, true
	case string:
		r := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = in.tb.Const(SBV(8), uint64(s[i]))
		}
		return r, true
	case *SymStr:
		return s.b, true
	}
	return nil, false
}

func strLen(v Value) int {
	switch s := v.r.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	return 0
}

func (in *Interp) strAt(v Value, i int) Value {
	switch s := v.r.(type) {
	case string:
		return Value{u: uint64(s[i])}
	case *SymStr:
		return in.fromTerm(s.b[i])
	}
	return Value{}
}

func (in *Interp) substr(v Value, lo, hi int) Value {
	switch s := v.r.(type) {
	case string:
		return mkString(s[lo:hi])
	case *SymStr:
		return in.mkStr(s.b[lo:hi])
	}
	return Value{}
}

// bytesToStr reads a byte slice.
func (in *Interp) bytesToStr(c []*Cell) Value {
	conc := true
	for _, x := range c {
		if in.raceOn {
			in.raceRead(x)
		}
		if x.v.r != nil {
			conc = false
		}
	}
	if conc {
		b := make([]byte, len(c))
		for i, x := range c {
			b[i] = byte(x.v.u)
		}
		return mkString(string(b))
	}
	r := make([]*Term, len(c))
	for i, x := range c {
		r[i] = in.term(x.v, SBV(8))
	}
	return in.mkStr(r)
}

func cells(v Value) []*Cell {
	if s, ok := v.r.(*SliceV); ok {
		return s.c
	}
	return nil
}

// eq builds the Go == of two values of static type t.
func (in *Interp) eq(t *TI, a, b Value) *Term {
	switch t.k {
	case TScalar:
		if a.r == nil && b.r == nil {
			if t.isFlt {
				return in.tb.Bool(evalOp(OFEq, SBool, 0, t.sort, a.u, b.u) == 1)
			}
			return in.tb.Bool(a.u == b.u)
		}
		x, y := in.term(a, t.sort), in.term(b, t.sort)
		if t.isFlt {
			return in.feq(x, y)
		}
		return in.tb.Eq(x, y)
	case TString:
		return in.strEq(a, b)
	case TStruct:
		x, y := a.r.(*AggV), b.r.(*AggV)
		r := in.tb.T
		for i, f := range t.fields {
			r = in.tb.And(r, in.eq(f, x.f[i], y.f[i]))
			if r == in.tb.F {
				return r
			}
		}
		return r
	case TArray:
		x, y := a.r.(*AggV), b.r.(*AggV)
		r := in.tb.T
		for i := range x.f {
			r = in.tb.And(r, in.eq(t.elem, x.f[i], y.f[i]))
		}
		return r
	case TIface:
		return in.ifaceEq(a, b)
	case TSlice, TMap, TFunc:
		return in.tb.Bool((a.r == nil) == (b.r == nil) && (a.r == nil || b.r == nil))
	}
	if pa, ok := a.r.(*SymPtr); ok {
		a.r = in.concPtr(pa)
	}
	if pb, ok := b.r.(*SymPtr); ok {
		b.r = in.concPtr(pb)
	}
	return in.tb.Bool(a.r == b.r && a.u == b.u)
}

func (in *Interp) feq(x, y *Term) *Term {
	if x == y {
		return in.tb.Not(in.tb.Un(OFIsNaN, SBool, 0, x))
	}
	return in.tb.Cmp(OFEq, x, y)
}

func (in *Interp) strEq(a, b Value) *Term {
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return in.tb.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return in.tb.F
	}
	xs, _ := in.strTerms(a)
	ys, _ := in.strTerms(b)
	r := in.tb.T
	for i := range xs {
		r = in.tb.And(r, in.tb.Eq(xs[i], ys[i]))
		if r == in.tb.F {
			return r
		}
	}
	return r
}

func (in *Interp) ifaceEq(a, b Value) *Term {
	x, ok1 := a.r.(*IfaceV)
	y, ok2 := b.r.(*IfaceV)
	if !ok1 || !ok2 {
		return in.tb.Bool(!ok1 && !ok2)
	}
	if x.t != y.t {
		return in.tb.F
	}
	if x.t.k == TSlice || x.t.k == TMap || x.t.k == TFunc {
		in.rtPanic("comparing uncomparable type " + x.t.t.String())
	}
	return in.eq(x.t, x.v, y.v)
}

// keyStr gives a canonical key for concrete map keys.
func (in *Interp) keyStr(t *TI, v Value) (string, bool) {
	switch t.k {
	case TScalar:
		if v.r != nil {
			return "", false
		}
		u := v.u
		if t.isFlt {
			if t.sort.W == 64 && u == 1<<63 {
				u = 0
			}
		}
		return string([]byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24), byte(u >> 32), byte(u >> 40), byte(u >> 48), byte(u >> 56)}), true
	case TString:
		return strConc(v)
	case TIface:
		i, ok := v.r.(*IfaceV)
		if !ok {
			return "nil", true
		}
		s, ok := in.keyStr(i.t, i.v)
		return fmt.Sprintf("%d:%s", i.t.id, s), ok
	case TStruct, TArray:
		a := v.r.(*AggV)
		var sb strings.Builder
		for i := range a.f {
			ft := t.elem
			if t.k == TStruct {
				ft = t.fields[i]
			}
			s, ok := in.keyStr(ft, a.f[i])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	default:
		return fmt.Sprintf("%p", v.r), true
	}
}

func (in *Interp) mapWriteBarrier(m *MapObj) {
	if m.base && !in.initing {
		m.base = false
		cp := &MapObj{n: m.n, nsym: m.nsym, ndead: m.ndead, idx: map[string]*mapEnt{}}
		rev := map[*mapEnt]*mapEnt{}
		for _, e := range m.ents {
			ne := *e
			cp.ents = append(cp.ents, &ne)
			rev[e] = &ne
		}
		for k, e := range m.idx {
			cp.idx[k] = rev[e]
		}
		in.undoMaps = append(in.undoMaps, undoMap{m, cp})
	}
}

type undoMap struct {
	m, old *MapObj
}

// mapFind returns the entry for key, forking on symbolic equality if needed.
func (in *Interp) mapFind(t *TI, m *MapObj, key Value) *mapEnt {
	if m == nil {
		return nil
	}
	ks, conc := in.keyStr(t.key, key)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := in.keyStr(t.key, e.key); ec {
				continue
			}
		}
		c := in.eq(t.key, key, e.key)
		if c == in.tb.F {
			continue
		}
		if in.branch(c) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(t *TI, m *MapObj, key, val Value) {
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	if in.raceOn {
		in.raceMapWrite(m)
	}
	in.noSpec()
	e := in.mapFind(t, m, key)
	in.mapWriteBarrier(m)
	if e != nil {
		if in.initing {
			e.val = val
			return
		}
		// entries of base maps were cloned by the barrier; update in place
		e.val = val
		return
	}
	ne := &mapEnt{key: key, val: val}
	m.ents = append(m.ents, ne)
	m.n++
	if ks, conc := in.keyStr(t.key, key); conc {
		m.idx[ks] = ne
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(t *TI, m *MapObj, key Value) {
	if m == nil {
		return
	}
	if in.raceOn {
		in.raceMapWrite(m)
	}
	in.noSpec()
	e := in.mapFind(t, m, key)
	if e == nil {
		return
	}
	in.mapWriteBarrier(m)
	e.dead = true
	m.n--
	m.ndead++
	if ks, conc := in.keyStr(t.key, e.key); conc {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	if m.ndead > 32 && m.ndead > len(m.ents)/2 {
		var live []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				live = append(live, x)
			}
		}
		m.ents, m.ndead = live, 0
	}
}

func newMap(base bool) *MapObj {
	return &MapObj{idx: map[string]*mapEnt{}, base: base}
}
