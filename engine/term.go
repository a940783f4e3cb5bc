package main

// Bit-vector / boolean term DAG with hash-consing and simplification.
// Width 0 denotes Bool; widths 1..64 denote bit-vectors.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat // a high, b low
	OExtract
	OSExt
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opSMT = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBAnd: "and", OBOr: "or", OBNot: "not",
}

type Term struct {
	op      Op
	w       uint8
	lo      uint8 // extract low bit
	a, b, c *Term
	val     uint64 // const value, var index
	id      int32
	sup     []int32 // sorted variable indices
	size    int32
	tt      *[4]uint64 // truth table for boolean terms over a single 8-bit (or narrower) var
	evGen   uint32
	evVal   uint64
	defined uint32 // solver generation in which it has been defined
}

type termKey struct {
	op      Op
	w, lo   uint8
	a, b, c int32
	val     uint64
}

type TermTable struct {
	m     map[termKey]*Term
	n     int32
	vars  []*Term // by index
	evGen uint32
	sups  map[string][]int32
	True  *Term
	False *Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{m: make(map[termKey]*Term, 1<<14), sups: map[string][]int32{}}
	tt.True = tt.mk(OConst, 0, 0, nil, nil, nil, 1)
	tt.False = tt.mk(OConst, 0, 0, nil, nil, nil, 0)
	return tt
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *TermTable) mk(op Op, w, lo uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, w, lo, tid(a), tid(b), tid(c), val}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, lo: lo, a: a, b: b, c: c, val: val, id: tt.n}
	tt.n++
	sz := int32(1)
	var s []int32
	for _, x := range [3]*Term{a, b, c} {
		if x == nil {
			continue
		}
		sz += x.size
		if sz > 1<<28 {
			sz = 1 << 28
		}
		s = unionSup(s, x.sup)
	}
	if op == OVar {
		s = []int32{int32(val)}
	}
	t.size = sz
	t.sup = s
	tt.m[k] = t
	return t
}

func unionSup(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks to share
	i, j := 0, 0
	aSubB, bSubA := true, true
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			aSubB = false
			i++
		} else {
			bSubA = false
			j++
		}
	}
	if i < len(a) {
		aSubB = false
	}
	if j < len(b) {
		bSubA = false
	}
	if bSubA {
		return a
	}
	if aSubB {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			r = append(r, a[i])
			i++
			j++
		} else if a[i] < b[j] {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

// Var returns the idx-th variable; widths must agree across paths for the same (idx,w).
func (tt *TermTable) Var(idx int, w uint8) *Term {
	return tt.mk(OVar, w, 0, nil, nil, nil, uint64(idx))
}

func (tt *TermTable) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v&1 != 0 {
			return tt.True
		}
		return tt.False
	}
	return tt.mk(OConst, w, 0, nil, nil, nil, v&mask(w))
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func isC(t *Term) bool { return t.op == OConst }

func (tt *TermTable) BNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return tt.Bool(a.val == 0)
	case OBNot:
		return a.a
	case OUlt:
		return tt.mk(OUle, 0, 0, a.b, a.a, nil, 0)
	case OUle:
		return tt.mk(OUlt, 0, 0, a.b, a.a, nil, 0)
	case OSlt:
		return tt.mk(OSle, 0, 0, a.b, a.a, nil, 0)
	case OSle:
		return tt.mk(OSlt, 0, 0, a.b, a.a, nil, 0)
	}
	return tt.mk(OBNot, 0, 0, a, nil, nil, 0)
}

func (tt *TermTable) BAnd(a, b *Term) *Term {
	if isC(a) {
		if a.val == 0 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.BNot(a) == b {
		return tt.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBAnd, 0, 0, a, b, nil, 0)
}

func (tt *TermTable) BOr(a, b *Term) *Term {
	if isC(a) {
		if a.val != 0 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.BNot(a) == b {
		return tt.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBOr, 0, 0, a, b, nil, 0)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if isC(c) {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if isC(a) {
			if a.val != 0 {
				return tt.BOr(c, b)
			}
			return tt.BAnd(tt.BNot(c), b)
		}
		if isC(b) {
			if b.val != 0 {
				return tt.BOr(tt.BNot(c), a)
			}
			return tt.BAnd(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return tt.mk(OIte, a.w, 0, c, a, b, 0)
}

// ---- segments: a bit-vector as a list of pieces, high to low ----

func (tt *TermTable) flat(t *Term, out []*Term) []*Term {
	if t.op == OConcat {
		out = tt.flat(t.a, out)
		return tt.flat(t.b, out)
	}
	return append(out, t)
}

// joins pieces (high to low) into a right-leaning concat, merging constants and adjacent extracts.
func (tt *TermTable) join(ps []*Term) *Term {
	var o []*Term
	for _, p := range ps {
		if n := len(o); n > 0 {
			q := o[n-1]
			if isC(q) && isC(p) && q.w+p.w <= 64 {
				o[n-1] = tt.Const(q.val<<p.w|p.val, q.w+p.w)
				continue
			}
			// adjacent extracts of the same base
			qb, qlo := extBase(q)
			pb, plo := extBase(p)
			if qb == pb && !isC(qb) && int(plo)+int(p.w) == int(qlo) {
				o[n-1] = tt.Extract(qb, plo, q.w+p.w)
				continue
			}
		}
		o = append(o, p)
	}
	r := o[len(o)-1]
	for i := len(o) - 2; i >= 0; i-- {
		r = tt.mk(OConcat, o[i].w+r.w, 0, o[i], r, nil, 0)
	}
	return r
}

func extBase(t *Term) (*Term, uint8) {
	if t.op == OExtract {
		return t.a, t.lo
	}
	return t, 0
}

func (tt *TermTable) Concat(a, b *Term) *Term {
	var ps []*Term
	ps = tt.flat(a, ps)
	ps = tt.flat(b, ps)
	return tt.join(ps)
}

func (tt *TermTable) Extract(t *Term, lo, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return tt.Const(t.val>>lo, w)
	case OExtract:
		return tt.Extract(t.a, t.lo+lo, w)
	case OConcat:
		ps := tt.flat(t, nil)
		var out []*Term
		pos := t.w
		for _, p := range ps {
			plo := pos - p.w
			// piece covers [plo,pos)
			l, h := plo, pos
			if l < lo {
				l = lo
			}
			if h > lo+w {
				h = lo + w
			}
			if l < h {
				out = append(out, tt.Extract(p, l-plo, h-l))
			}
			pos = plo
		}
		return tt.join(out)
	case OIte:
		if isC(t.b) && isC(t.c) || t.b.op == OConcat || t.c.op == OConcat || isC(t.b) || isC(t.c) {
			return tt.Ite(t.a, tt.Extract(t.b, lo, w), tt.Extract(t.c, lo, w))
		}
	case OAnd, OOr, OXor:
		if isC(t.a) || isC(t.b) || t.size < 20 {
			x, y := tt.Extract(t.a, lo, w), tt.Extract(t.b, lo, w)
			switch t.op {
			case OAnd:
				return tt.And(x, y)
			case OOr:
				return tt.Or(x, y)
			default:
				return tt.Xor(x, y)
			}
		}
	case ONot:
		return tt.Not(tt.Extract(t.a, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 && w < t.w {
			x, y := tt.Extract(t.a, 0, w), tt.Extract(t.b, 0, w)
			switch t.op {
			case OAdd:
				return tt.Add(x, y)
			case OSub:
				return tt.Sub(x, y)
			default:
				return tt.Mul(x, y)
			}
		}
	case OSExt:
		if lo+w <= t.a.w {
			return tt.Extract(t.a, lo, w)
		}
	}
	return tt.mk(OExtract, w, lo, t, nil, nil, 0)
}

func (tt *TermTable) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return tt.Extract(t, 0, w)
	}
	return tt.Concat(tt.Const(0, w-t.w), t)
}

func (tt *TermTable) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return tt.Extract(t, 0, w)
	}
	if isC(t) {
		return tt.Const(uint64(sext(t.val, t.w)), w)
	}
	if t.op == OConcat && isC(t.a) && t.a.val>>(t.a.w-1)&1 == 0 {
		return tt.ZExt(t, w)
	}
	if t.op == OSExt {
		return tt.SExt(t.a, w)
	}
	return tt.mk(OSExt, w, 0, t, nil, nil, 0)
}

// align splits two equal-width flattened terms on common boundaries.
func (tt *TermTable) align(a, b *Term) (x, y []*Term) {
	return tt.alignCuts(a, b, nil)
}

func (tt *TermTable) alignCuts(a, b *Term, _ []uint8) (x, y []*Term) {
	pa, pb := tt.flat(a, nil), tt.flat(b, nil)
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		p, q := pa[i], pb[j]
		if p.w == q.w {
			x, y = append(x, p), append(y, q)
			i++
			j++
		} else if p.w < q.w {
			d := q.w - p.w
			x, y = append(x, p), append(y, tt.Extract(q, d, p.w))
			pb[j] = tt.Extract(q, 0, d)
			if pb[j].op == OConcat { // keep flat
				pb = append(pb[:j], append(tt.flat(pb[j], nil), pb[j+1:]...)...)
			}
			i++
		} else {
			d := p.w - q.w
			x, y = append(x, tt.Extract(p, d, q.w)), append(y, q)
			pa[i] = tt.Extract(p, 0, d)
			if pa[i].op == OConcat {
				pa = append(pa[:i], append(tt.flat(pa[i], nil), pa[i+1:]...)...)
			}
			j++
		}
	}
	return
}

// runs cuts a constant into maximal runs of equal bits (high to low).
func (tt *TermTable) runs(v uint64, w uint8) []*Term {
	var out []*Term
	for i := int(w) - 1; i >= 0; {
		bit := v >> uint(i) & 1
		j := i
		for j >= 0 && v>>uint(j)&1 == bit {
			j--
		}
		n := uint8(i - j)
		if bit == 1 {
			out = append(out, tt.Const(mask(n), n))
		} else {
			out = append(out, tt.Const(0, n))
		}
		i = j
	}
	return out
}

func (tt *TermTable) rawConcat(ps []*Term) *Term {
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = tt.mk(OConcat, ps[i].w+r.w, 0, ps[i], r, nil, 0)
	}
	return r
}

func (tt *TermTable) And(a, b *Term) *Term {
	if isC(a) {
		a, b = b, a
	}
	if isC(a) {
		return tt.Const(a.val&b.val, a.w)
	}
	if a == b {
		return a
	}
	if isC(b) {
		if b.val == 0 {
			return b
		}
		if b.val == mask(b.w) {
			return a
		}
		rs := tt.runs(b.val, b.w)
		if len(rs) <= 4 {
			var out []*Term
			pos := a.w
			for _, r := range rs {
				pos -= r.w
				if r.val == 0 {
					out = append(out, r)
				} else {
					out = append(out, tt.flat(tt.Extract(a, pos, r.w), nil)...)
				}
			}
			return tt.join(out)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		x, y := tt.align(a, b)
		if len(x) > 1 {
			ok := false
			for i := range x {
				if isC(x[i]) || isC(y[i]) {
					ok = true
				}
			}
			if ok {
				var out []*Term
				for i := range x {
					out = append(out, tt.flat(tt.And(x[i], y[i]), nil)...)
				}
				return tt.join(out)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if isC(a) {
		a, b = b, a
	}
	if isC(a) {
		return tt.Const(a.val|b.val, a.w)
	}
	if a == b {
		return a
	}
	if isC(b) {
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return b
		}
		rs := tt.runs(b.val, b.w)
		if len(rs) <= 4 {
			var out []*Term
			pos := a.w
			for _, r := range rs {
				pos -= r.w
				if r.val != 0 {
					out = append(out, r)
				} else {
					out = append(out, tt.flat(tt.Extract(a, pos, r.w), nil)...)
				}
			}
			return tt.join(out)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		x, y := tt.align(a, b)
		if len(x) > 1 {
			ok := false
			for i := range x {
				if isC(x[i]) || isC(y[i]) {
					ok = true
				}
			}
			if ok {
				var out []*Term
				for i := range x {
					out = append(out, tt.flat(tt.Or(x[i], y[i]), nil)...)
				}
				return tt.join(out)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) Xor(a, b *Term) *Term {
	if isC(a) {
		a, b = b, a
	}
	if isC(a) {
		return tt.Const(a.val^b.val, a.w)
	}
	if a == b {
		return tt.Const(0, a.w)
	}
	if isC(b) {
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return tt.Not(a)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		x, y := tt.align(a, b)
		if len(x) > 1 {
			ok := false
			for i := range x {
				if isC(x[i]) || isC(y[i]) {
					ok = true
				}
			}
			if ok {
				var out []*Term
				for i := range x {
					out = append(out, tt.flat(tt.Xor(x[i], y[i]), nil)...)
				}
				return tt.join(out)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OXor, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) Not(a *Term) *Term {
	if isC(a) {
		return tt.Const(^a.val, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, a.w, 0, a, nil, nil, 0)
}

func (tt *TermTable) Neg(a *Term) *Term { return tt.Sub(tt.Const(0, a.w), a) }

// disjoint reports that a and b have no common possibly-set bit (by constant zero segments).
func (tt *TermTable) disjoint(a, b *Term) bool {
	x, y := tt.align(a, b)
	for i := range x {
		if !(isC(x[i]) && x[i].val == 0) && !(isC(y[i]) && y[i].val == 0) {
			return false
		}
	}
	return true
}

func (tt *TermTable) Add(a, b *Term) *Term {
	if isC(a) {
		a, b = b, a
	}
	if isC(a) {
		return tt.Const(a.val+b.val, a.w)
	}
	if isC(b) {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && isC(a.b) {
			return tt.Add(a.a, tt.Const(a.b.val+b.val, a.w))
		}
		if a.op == OIte && (isC(a.b) || isC(a.c)) && a.size < 64 {
			return tt.Ite(a.a, tt.Add(a.b, b), tt.Add(a.c, b))
		}
	}
	if (a.op == OConcat || b.op == OConcat) && tt.disjoint(a, b) {
		return tt.Or(a, b)
	}
	if isC(b) {
		return tt.mk(OAdd, a.w, 0, a, b, nil, 0)
	}
	// move constants outward
	if a.op == OAdd && isC(a.b) {
		return tt.Add(tt.Add(a.a, b), a.b)
	}
	if b.op == OAdd && isC(b.b) {
		return tt.Add(tt.Add(a, b.a), b.b)
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAdd, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) Sub(a, b *Term) *Term {
	if isC(b) {
		return tt.Add(a, tt.Const(-b.val, b.w))
	}
	if a == b {
		return tt.Const(0, a.w)
	}
	if a.op == OAdd {
		if a.b == b {
			return a.a
		}
		if a.a == b {
			return a.b
		}
		if isC(a.b) {
			return tt.Add(tt.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd && isC(b.b) {
		return tt.Add(tt.Sub(a, b.a), tt.Const(-b.b.val, b.w))
	}
	return tt.mk(OSub, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) Mul(a, b *Term) *Term {
	if isC(a) {
		a, b = b, a
	}
	if isC(a) {
		return tt.Const(a.val*b.val, a.w)
	}
	if isC(b) {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if bits.OnesCount64(b.val) == 1 {
			return tt.ShlC(a, uint(bits.TrailingZeros64(b.val)))
		}
		return tt.mk(OMul, a.w, 0, a, b, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OMul, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) UDiv(a, b *Term) *Term {
	if isC(b) && b.val != 0 {
		if isC(a) {
			return tt.Const(a.val/b.val, a.w)
		}
		if bits.OnesCount64(b.val) == 1 {
			return tt.LShrC(a, uint(bits.TrailingZeros64(b.val)))
		}
		if n := tt.zeroHigh(a); n > 0 && n < a.w { // narrow
			nw := a.w - n
			if b.val > mask(nw) {
				return tt.Const(0, a.w)
			}
			return tt.ZExt(tt.mk(OUDiv, nw, 0, tt.Extract(a, 0, nw), tt.Const(b.val, nw), nil, 0), a.w)
		}
	}
	return tt.mk(OUDiv, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) zeroHigh(a *Term) uint8 {
	if a.op == OConcat && isC(a.a) && a.a.val == 0 {
		return a.a.w
	}
	return 0
}

func (tt *TermTable) URem(a, b *Term) *Term {
	if isC(b) && b.val != 0 {
		if isC(a) {
			return tt.Const(a.val%b.val, a.w)
		}
		if bits.OnesCount64(b.val) == 1 {
			return tt.And(a, tt.Const(b.val-1, a.w))
		}
		if n := tt.zeroHigh(a); n > 0 && n < a.w {
			nw := a.w - n
			if b.val > mask(nw) {
				return a
			}
			return tt.ZExt(tt.mk(OURem, nw, 0, tt.Extract(a, 0, nw), tt.Const(b.val, nw), nil, 0), a.w)
		}
	}
	return tt.mk(OURem, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) SDiv(a, b *Term) *Term {
	if isC(a) && isC(b) && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y == -1 {
			return tt.Const(uint64(-x), a.w)
		}
		return tt.Const(uint64(x/y), a.w)
	}
	if isC(b) && b.val != 0 && sext(b.val, b.w) > 0 && tt.zeroHigh(a) > 0 {
		return tt.UDiv(a, b)
	}
	return tt.mk(OSDiv, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) SRem(a, b *Term) *Term {
	if isC(a) && isC(b) && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y == -1 {
			return tt.Const(0, a.w)
		}
		return tt.Const(uint64(x%y), a.w)
	}
	if isC(b) && b.val != 0 && sext(b.val, b.w) > 0 && tt.zeroHigh(a) > 0 {
		return tt.URem(a, b)
	}
	return tt.mk(OSRem, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) ShlC(a *Term, n uint) *Term {
	if n == 0 {
		return a
	}
	if n >= uint(a.w) {
		return tt.Const(0, a.w)
	}
	return tt.Concat(tt.Extract(a, 0, a.w-uint8(n)), tt.Const(0, uint8(n)))
}

func (tt *TermTable) LShrC(a *Term, n uint) *Term {
	if n == 0 {
		return a
	}
	if n >= uint(a.w) {
		return tt.Const(0, a.w)
	}
	return tt.Concat(tt.Const(0, uint8(n)), tt.Extract(a, uint8(n), a.w-uint8(n)))
}

func (tt *TermTable) AShrC(a *Term, n uint) *Term {
	if n == 0 {
		return a
	}
	if n >= uint(a.w) {
		n = uint(a.w) - 1
	}
	return tt.SExt(tt.Extract(a, uint8(n), a.w-uint8(n)), a.w)
}

// Shifts with Go semantics (amount unsigned, over-shift yields 0 / sign). b has same width as a.
func (tt *TermTable) Shl(a, b *Term) *Term {
	if isC(b) {
		if b.val >= uint64(a.w) {
			return tt.Const(0, a.w)
		}
		return tt.ShlC(a, uint(b.val))
	}
	if isC(a) && a.val == 0 {
		return a
	}
	return tt.mk(OShl, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) LShr(a, b *Term) *Term {
	if isC(b) {
		if b.val >= uint64(a.w) {
			return tt.Const(0, a.w)
		}
		return tt.LShrC(a, uint(b.val))
	}
	if isC(a) && a.val == 0 {
		return a
	}
	return tt.mk(OLShr, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) AShr(a, b *Term) *Term {
	if isC(b) {
		if b.val >= uint64(a.w) {
			return tt.AShrC(a, uint(a.w))
		}
		return tt.AShrC(a, uint(b.val))
	}
	return tt.mk(OAShr, a.w, 0, a, b, nil, 0)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if isC(a) && !isC(b) {
		a, b = b, a
	}
	if isC(a) && isC(b) {
		return tt.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if isC(b) {
			if b.val != 0 {
				return a
			}
			return tt.BNot(a)
		}
		if tt.BNot(a) == b {
			return tt.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tt.mk(OEq, 0, 0, a, b, nil, 0)
	}
	if a.op == OConcat || b.op == OConcat {
		x, y := tt.align(a, b)
		if len(x) > 1 {
			useful := isC(b)
			all := true
			for i := range x {
				if isC(x[i]) || isC(y[i]) || x[i] == y[i] {
					useful = true
				} else {
					all = false
				}
			}
			_ = all
			if useful || (a.op == OConcat && b.op == OConcat) {
				r := tt.True
				for i := range x {
					e := tt.Eq(x[i], y[i])
					if e == tt.False {
						return e
					}
					r = tt.BAnd(r, e)
				}
				return r
			}
		}
	}
	if isC(b) {
		switch a.op {
		case OIte:
			if isC(a.b) || isC(a.c) {
				return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		case OAdd:
			if isC(a.b) {
				return tt.Eq(a.a, tt.Const(b.val-a.b.val, a.w))
			}
		case OSub:
			if b.val == 0 {
				return tt.Eq(a.a, a.b)
			}
		case ONot:
			return tt.Eq(a.a, tt.Const(^b.val, a.w))
		case OXor:
			if isC(a.b) {
				return tt.Eq(a.a, tt.Const(b.val^a.b.val, a.w))
			}
		case OSExt:
			v := tt.Const(b.val, a.a.w)
			if tt.SExt(v, a.w) != b {
				return tt.False
			}
			return tt.Eq(a.a, v)
		}
	} else if a.op == OAdd && b.op == OAdd && isC(a.b) && isC(b.b) && a.b == b.b {
		return tt.Eq(a.a, b.a)
	} else if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return tt.Eq(a.a, b.a)
	}
	if a.id > b.id && !isC(b) {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, a, b, nil, 0)
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if isC(a) && isC(b) {
		return tt.Bool(a.val < b.val)
	}
	if isC(b) {
		if b.val == 0 {
			return tt.False
		}
		if b.val == 1 {
			return tt.Eq(a, tt.Const(0, a.w))
		}
		if n := tt.zeroHigh(a); n > 0 {
			nw := a.w - n
			if b.val > mask(nw) {
				return tt.True
			}
			return tt.Ult(tt.Extract(a, 0, nw), tt.Const(b.val, nw))
		}
		if a.op == OIte && isC(a.b) && isC(a.c) {
			return tt.Ite(a.a, tt.Ult(a.b, b), tt.Ult(a.c, b))
		}
	}
	if isC(a) {
		if a.val == mask(a.w) {
			return tt.False
		}
		if n := tt.zeroHigh(b); n > 0 {
			nw := b.w - n
			if a.val >= mask(nw) {
				return tt.False
			}
			return tt.Ult(tt.Const(a.val, nw), tt.Extract(b, 0, nw))
		}
		if b.op == OIte && isC(b.b) && isC(b.c) {
			return tt.Ite(b.a, tt.Ult(a, b.b), tt.Ult(a, b.c))
		}
	}
	if n, m := tt.zeroHigh(a), tt.zeroHigh(b); n > 0 && m > 0 {
		if m < n {
			n = m
		}
		return tt.Ult(tt.Extract(a, 0, a.w-n), tt.Extract(b, 0, b.w-n))
	}
	return tt.mk(OUlt, 0, 0, a, b, nil, 0)
}

func (tt *TermTable) Ule(a, b *Term) *Term { return tt.BNot(tt.Ult(b, a)) }

func (tt *TermTable) nonneg(a *Term) bool {
	return isC(a) && a.val>>(a.w-1)&1 == 0 || tt.zeroHigh(a) > 0
}

func (tt *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if isC(a) && isC(b) {
		return tt.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.Ult(a, b)
	}
	if tt.nonneg(a) && isC(b) { // b negative
		return tt.False
	}
	if isC(a) && tt.nonneg(b) { // a negative
		return tt.True
	}
	if a.op == OIte && isC(a.b) && isC(a.c) && isC(b) {
		return tt.Ite(a.a, tt.Slt(a.b, b), tt.Slt(a.c, b))
	}
	if b.op == OIte && isC(b.b) && isC(b.c) && isC(a) {
		return tt.Ite(b.a, tt.Slt(a, b.b), tt.Slt(a, b.c))
	}
	if a.op == OSExt && isC(b) {
		nb := tt.Const(b.val, a.a.w)
		if tt.SExt(nb, a.w) == b {
			return tt.Slt(a.a, nb)
		}
		return tt.Bool(sext(b.val, b.w) > 0)
	}
	if b.op == OSExt && isC(a) {
		na := tt.Const(a.val, b.a.w)
		if tt.SExt(na, b.w) == a {
			return tt.Slt(na, b.a)
		}
		return tt.Bool(sext(a.val, a.w) < 0)
	}
	return tt.mk(OSlt, 0, 0, a, b, nil, 0)
}

func (tt *TermTable) Sle(a, b *Term) *Term { return tt.BNot(tt.Slt(b, a)) }

// ---- evaluation under a model ----

func (tt *TermTable) Eval(t *Term, model []uint64) uint64 {
	tt.evGen++
	return tt.ev(t, model)
}

func (tt *TermTable) ev(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if int(t.val) < len(m) {
			if t.w == 0 {
				return m[t.val] & 1
			}
			return m[t.val] & mask(t.w)
		}
		return 0
	}
	if t.evGen == tt.evGen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OIte:
		if tt.ev(t.a, m) != 0 {
			r = tt.ev(t.b, m)
		} else {
			r = tt.ev(t.c, m)
		}
	case OBAnd:
		r = tt.ev(t.a, m)
		if r != 0 {
			r = tt.ev(t.b, m)
		}
	case OBOr:
		r = tt.ev(t.a, m)
		if r == 0 {
			r = tt.ev(t.b, m)
		}
	case OBNot:
		r = tt.ev(t.a, m) ^ 1
	default:
		a := tt.ev(t.a, m)
		var b uint64
		if t.b != nil {
			b = tt.ev(t.b, m)
		}
		w := t.a.w
		b2u := func(x bool) uint64 {
			if x {
				return 1
			}
			return 0
		}
		switch t.op {
		case OAdd:
			r = a + b
		case OSub:
			r = a - b
		case OMul:
			r = a * b
		case OUDiv:
			if b == 0 {
				r = mask(w)
			} else {
				r = a / b
			}
		case OURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSDiv:
			x, y := sext(a, w), sext(b, w)
			if y == 0 {
				if x < 0 {
					r = 1
				} else {
					r = mask(w)
				}
			} else if y == -1 {
				r = uint64(-x)
			} else {
				r = uint64(x / y)
			}
		case OSRem:
			x, y := sext(a, w), sext(b, w)
			if y == 0 {
				r = a
			} else if y == -1 {
				r = 0
			} else {
				r = uint64(x % y)
			}
		case OAnd:
			r = a & b
		case OOr:
			r = a | b
		case OXor:
			r = a ^ b
		case ONot:
			r = ^a
		case ONeg:
			r = -a
		case OShl:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a << b
			}
		case OLShr:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a >> b
			}
		case OAShr:
			x := sext(a, w)
			if b >= uint64(w) {
				b = 63
			}
			r = uint64(x >> b)
		case OConcat:
			r = a<<t.b.w | b
		case OExtract:
			r = a >> t.lo
		case OSExt:
			r = uint64(sext(a, w))
		case OEq:
			r = b2u(a == b)
		case OUlt:
			r = b2u(a < b)
		case OUle:
			r = b2u(a <= b)
		case OSlt:
			r = b2u(sext(a, w) < sext(b, w))
		case OSle:
			r = b2u(sext(a, w) <= sext(b, w))
		default:
			panic("ev: op")
		}
		if t.w > 0 {
			r &= mask(t.w)
		}
	}
	t.evGen = tt.evGen
	t.evVal = r
	return r
}

// TT returns the truth table of boolean term t over its only variable (width<=8), or nil.
func (tt *TermTable) TT(t *Term, v *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	idx := t.sup[0]
	m := make([]uint64, idx+1)
	var r [4]uint64
	for x := 0; x < 1<<v.w; x++ {
		m[idx] = uint64(x)
		if tt.Eval(t, m) != 0 {
			r[x>>6] |= 1 << (x & 63)
		}
	}
	t.tt = &r
	return t.tt
}

// ---- printing ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (t *Term) varName() string { return fmt.Sprintf("x%d_%d", t.val, t.w) }

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return t.varName()
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.lo)+int(t.w)-1, t.lo, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opSMT[t.op])
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// defs writes definitions for t (post-order) that are not yet defined in generation gen.
func (t *Term) defs(sb *strings.Builder, gen uint32, onVar func(*Term)) {
	if t.op == OConst || t.defined == gen {
		return
	}
	t.defined = gen
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.varName(), sortName(t.w))
		if onVar != nil {
			onVar(t)
		}
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			x.defs(sb, gen, onVar)
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
}

// Pretty renders a term as nested text (size-limited, for samples).
func (t *Term) Pretty(limit int) string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	if limit <= 0 {
		return "…"
	}
	args := []string{}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			args = append(args, x.Pretty(limit-1))
		}
	}
	name := opSMT[t.op]
	switch t.op {
	case OExtract:
		name = fmt.Sprintf("(_ extract %d %d)", int(t.lo)+int(t.w)-1, t.lo)
	case OSExt:
		name = fmt.Sprintf("(_ sign_extend %d)", t.w-t.a.w)
	}
	return "(" + name + " " + strings.Join(args, " ") + ")"
}
