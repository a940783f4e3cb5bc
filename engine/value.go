package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreter value. Scalars live in U (concrete) or T (symbolic); everything else in O.
type Value struct {
	U uint64
	T *Term
	O any
}

// Arr is a mutable aggregate: struct fields, array elements, slice backing store, or a single boxed cell.
type Arr struct {
	v    []Value
	base bool  // created by package initialisation: writes are logged and undone after each path
	seq  int64 // allocation order (used by state merging)
}

type Ptr struct {
	a *Arr
	i int
}

// SymPtr is a pointer to an array element with a symbolic (in-range) index.
type SymPtr struct {
	a      *Arr
	off, n int
	idx    *Term // 64-bit
}

type Slice struct {
	a           *Arr
	off, n, cap int
}

type SStr struct{ b []Value }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn *ssa.Function
	bd []Value
	bi *ssa.Builtin
}

type mapEnt struct {
	k, v Value
	live bool
	ck   string
}

type Map struct {
	ents []*mapEnt
	idx  map[string]int
	n    int
	base bool
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	// rendezvous bookkeeping
	recvWaiting int
	sendq       []*sendItem
}

type sendItem struct {
	v    Value
	done bool
}

type poisonT struct{ why string }

type Tuple []Value

func cint(v uint64, w uint8) Value { return Value{U: v & mask(w)} }
func cbool(b bool) Value {
	if b {
		return Value{U: 1}
	}
	return Value{}
}
func cstr(s string) Value { return Value{O: s} }

func (x *Exec) sym(t *Term) Value {
	if t.op == OConst {
		return Value{U: t.val}
	}
	return Value{T: t}
}

func (x *Exec) term(v Value, w uint8) *Term {
	if v.T != nil {
		return v.T
	}
	if _, ok := v.O.(poisonT); ok {
		x.unsupported("use of a value from unsupported package initialisation")
	}
	return x.tt.Const(v.U, w)
}

// ---- type helpers ----

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Arr{v: make([]Value, u.NumFields())}
		for i := range a.v {
			f := u.Field(i).Type()
			switch f.Underlying().(type) {
			case *types.Struct, *types.Array:
				a.v[i] = zero(f)
			}
		}
		return Value{O: a}
	case *types.Array:
		a := &Arr{v: make([]Value, u.Len())}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.v {
				a.v[i] = zero(u.Elem())
			}
		}
		return Value{O: a}
	}
	return Value{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// clone copies an aggregate value (value semantics).
func clone(v Value) Value {
	if a, ok := v.O.(*Arr); ok {
		n := &Arr{v: make([]Value, len(a.v))}
		for i, e := range a.v {
			if e.O != nil {
				e = clone(e)
			}
			n.v[i] = e
		}
		return Value{O: n}
	}
	return v
}

func (x *Exec) setSlot(a *Arr, i int, v Value) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	if a.base && !x.initMode {
		if x.gmark {
			x.globalWrite(v)
		}
		x.trail = append(x.trail, trailEnt{a: a, i: i, old: a.v[i]})
		a.v[i] = v
		if x.gmark {
			x.globalWrite(Value{})
		}
		return
	}
	a.v[i] = v
}

// globalWrite is a place before or after a write to memory that package variables refer to; v is going to be in it.
func (x *Exec) globalWrite(v Value) {
	switch v.O.(type) {
	case *Arr, Ptr, *Slice, *Iface, *Closure, *Map:
		markBase(v, map[any]bool{})
	}
	if x.preempt > 0 {
		x.preemptPoint(Value{})
	}
}

// assign stores v at slot, copying aggregates in place so that interior pointers stay valid.
func (x *Exec) assign(a *Arr, i int, v Value) {
	if src, ok := v.O.(*Arr); ok {
		if dst, ok := a.v[i].O.(*Arr); ok && len(dst.v) == len(src.v) {
			if dst == src {
				return
			}
			for j := range src.v {
				x.assign(dst, j, src.v[j])
			}
			return
		}
		x.setSlot(a, i, clone(v))
		return
	}
	x.setSlot(a, i, v)
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.O.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v.O))
}

func strAt(v Value, i int) Value {
	switch s := v.O.(type) {
	case string:
		return Value{U: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic(fmt.Sprintf("strAt: %T", v.O))
}

func strSub(v Value, lo, hi int) Value {
	switch s := v.O.(type) {
	case nil:
		return v
	case string:
		return cstr(s[lo:hi])
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSub")
}

// mkStr makes a string value of byte values (which must not be mutated later).
func mkStr(b []Value) Value {
	for _, e := range b {
		if e.T != nil {
			return Value{O: &SStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, e := range b {
		bs[i] = byte(e.U)
	}
	return cstr(string(bs))
}

func strBytes(v Value) []Value {
	switch s := v.O.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].U = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic("strBytes")
}

func goStr(v Value) (string, bool) {
	switch s := v.O.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strConcat(a, b Value) Value {
	if sa, ok := goStr(a); ok {
		if sb, ok := goStr(b); ok {
			return cstr(sa + sb)
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	ba, bb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(ba)+len(bb))
	r = append(append(r, ba...), bb...)
	return Value{O: &SStr{r}}
}

func (x *Exec) strEq(a, b Value) *Term {
	if sa, ok := goStr(a); ok {
		if sb, ok := goStr(b); ok {
			return x.tt.Bool(sa == sb)
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return x.tt.False
	}
	r := x.tt.True
	for i := 0; i < n; i++ {
		e := x.tt.Eq(x.term(strAt(a, i), 8), x.term(strAt(b, i), 8))
		if e == x.tt.False {
			return e
		}
		r = x.tt.BAnd(r, e)
	}
	return r
}

func (x *Exec) strLess(a, b Value) *Term {
	if sa, ok := goStr(a); ok {
		if sb, ok := goStr(b); ok {
			return x.tt.Bool(sa < sb)
		}
	}
	na, nb := strLen(a), strLen(b)
	n := min(na, nb)
	r := x.tt.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		p, q := x.term(strAt(a, i), 8), x.term(strAt(b, i), 8)
		r = x.tt.BOr(x.tt.Ult(p, q), x.tt.BAnd(x.tt.Eq(p, q), r))
	}
	return r
}

// ---- equality ----

func (x *Exec) eqVal(a, b Value, t types.Type) *Term {
	if _, ok := a.O.(poisonT); ok {
		x.unsupported("comparison with uninitialised global")
	}
	if _, ok := b.O.(poisonT); ok {
		x.unsupported("comparison with uninitialised global")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			if pa, oka := a.O.(Ptr); oka { // uintptr holding a pointer
				pb, okb := b.O.(Ptr)
				return x.tt.Bool(okb && pa == pb)
			}
			return x.tt.Eq(x.term(a, w), x.term(b, w))
		}
		if isBool(t) {
			return x.tt.Eq(x.term(a, 0), x.term(b, 0))
		}
		if isString(t) {
			return x.strEq(a, b)
		}
		if isFloat(t) {
			return x.tt.Bool(math.Float64frombits(a.U) == math.Float64frombits(b.U))
		}
		if u.Kind() == types.UnsafePointer {
			return x.tt.Bool(samePtr(a, b))
		}
		if u.Kind() == types.UntypedNil {
			return x.tt.True
		}
	case *types.Pointer:
		return x.tt.Bool(samePtr(a, b))
	case *types.Struct:
		r := x.tt.True
		aa, ba := a.O.(*Arr), b.O.(*Arr)
		for i := 0; i < u.NumFields(); i++ {
			r = x.tt.BAnd(r, x.eqVal(aa.v[i], ba.v[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := x.tt.True
		aa, ba := a.O.(*Arr), b.O.(*Arr)
		for i := range aa.v {
			r = x.tt.BAnd(r, x.eqVal(aa.v[i], ba.v[i], u.Elem()))
		}
		return r
	case *types.Interface:
		ia, _ := a.O.(*Iface)
		ib, _ := b.O.(*Iface)
		if ia == nil || ib == nil {
			return x.tt.Bool(ia == nil && ib == nil)
		}
		if !types.Identical(ia.t, ib.t) {
			return x.tt.False
		}
		if !types.Comparable(ia.t) {
			x.rtPanic("comparing uncomparable type " + ia.t.String())
		}
		return x.eqVal(ia.v, ib.v, ia.t)
	case *types.Slice, *types.Map, *types.Signature: // only against nil
		return x.tt.Bool(a.O == nil && b.O == nil)
	case *types.Chan:
		return x.tt.Bool(a.O == b.O)
	}
	x.unsupported("comparison of " + t.String())
	return nil
}

func samePtr(a, b Value) bool {
	if a.O == nil || b.O == nil {
		return a.O == nil && b.O == nil
	}
	pa, ok1 := a.O.(Ptr)
	pb, ok2 := b.O.(Ptr)
	if ok1 && ok2 {
		return pa == pb
	}
	return false
}

// ---- maps ----

// canonKey encodes a fully concrete key; ok=false if it has symbolic parts.
func canonKey(v Value, t types.Type, sb *strings.Builder) bool {
	if v.T != nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			s, ok := goStr(v)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "s%d:%s", len(s), s)
			return true
		}
		fmt.Fprintf(sb, "i%d;", v.U)
		return true
	case *types.Struct:
		a := v.O.(*Arr)
		for i := range a.v {
			if !canonKey(a.v[i], u.Field(i).Type(), sb) {
				return false
			}
		}
		return true
	case *types.Array:
		a := v.O.(*Arr)
		for i := range a.v {
			if !canonKey(a.v[i], u.Elem(), sb) {
				return false
			}
		}
		return true
	case *types.Interface:
		i, _ := v.O.(*Iface)
		if i == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("t" + i.t.String() + ":")
		return canonKey(i.v, i.t, sb)
	case *types.Pointer, *types.Chan:
		if p, ok := v.O.(Ptr); ok {
			fmt.Fprintf(sb, "p%p.%d;", p.a, p.i)
		} else {
			fmt.Fprintf(sb, "p%p;", v.O)
		}
		return true
	}
	return false
}

// find returns the entry for key k, forking on symbolic equality. nil if absent.
func (x *Exec) mapFind(m *Map, k Value, kt types.Type) *mapEnt {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	if canonKey(k, kt, &sb) {
		if i, ok := m.idx[sb.String()]; ok {
			return m.ents[i]
		}
		for _, e := range m.ents {
			if e.live && e.ck == "" {
				if x.decide(x.eqVal(e.k, k, kt)) {
					return e
				}
				if x.specFail {
					return nil
				}
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.live {
			if x.decide(x.eqVal(e.k, k, kt)) {
				return e
			}
			if x.specFail {
				return nil
			}
		}
	}
	return nil
}

func (x *Exec) mapTouch(m *Map) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	if m.base && !x.initMode {
		if x.gmark {
			x.gmaps[m] = true
		}
		c := &Map{n: m.n, idx: map[string]int{}}
		for _, e := range m.ents {
			ne := *e
			c.ents = append(c.ents, &ne)
		}
		for k, v := range m.idx {
			c.idx[k] = v
		}
		x.trail = append(x.trail, trailEnt{m: m, oldM: c})
		m.base = false // log once per path; restored on undo
	}
}

func (x *Exec) mapSet(m *Map, k, v Value, kt types.Type) {
	if x.gmark && x.spec == 0 && (m.base || x.gmaps[m]) {
		x.globalWrite(v)
		defer x.globalWrite(k)
	}
	x.mapTouch(m)
	if e := x.mapFind(m, k, kt); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v, live: true}
	var sb strings.Builder
	if canonKey(k, kt, &sb) {
		e.ck = sb.String()
		m.idx[e.ck] = len(m.ents)
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (x *Exec) mapDel(m *Map, k Value, kt types.Type) {
	if m == nil {
		return
	}
	x.mapTouch(m)
	if e := x.mapFind(m, k, kt); e != nil {
		e.live = false
		if e.ck != "" {
			delete(m.idx, e.ck)
		}
		m.n--
	}
}

type trailEnt struct {
	a    *Arr
	i    int
	old  Value
	m    *Map
	oldM *Map
}

func (x *Exec) undoTrail() {
	for i := len(x.trail) - 1; i >= 0; i-- {
		t := x.trail[i]
		if t.a != nil {
			t.a.v[t.i] = t.old
		} else {
			*t.m = *t.oldM
			t.m.base = true
		}
	}
	x.trail = x.trail[:0]
}

// markBase flags everything reachable from v as initial state.
func markBase(v Value, seen map[any]bool) {
	switch o := v.O.(type) {
	case *Arr:
		markArr(o, seen)
	case Ptr:
		markArr(o.a, seen)
	case *Slice:
		markArr(o.a, seen)
	case *Iface:
		if !seen[o] {
			seen[o] = true
			markBase(o.v, seen)
		}
	case *Closure:
		if !seen[o] {
			seen[o] = true
			for _, b := range o.bd {
				markBase(b, seen)
			}
		}
	case *Map:
		if !seen[o] {
			seen[o] = true
			o.base = true
			for _, e := range o.ents {
				markBase(e.k, seen)
				markBase(e.v, seen)
			}
		}
	}
}

func markArr(a *Arr, seen map[any]bool) {
	if a == nil || seen[a] {
		return
	}
	seen[a] = true
	a.base = true
	for _, e := range a.v {
		if e.O != nil {
			markBase(e, seen)
		}
	}
}
