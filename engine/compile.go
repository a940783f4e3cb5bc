package main

// Translation of go/ssa functions into closures over a Frame.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared is the loaded program, common to all workers.
type Shared struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	repoPkgs map[string]bool
	models   map[string]*ssa.Function // target function name -> Go-level model
	rtErr    types.Type
	modelPkg string
	ndPkg    string
	initPkgs []*ssa.Package
}

// Program is the per-worker compilation cache.
type Program struct {
	*Shared
	noMerge bool
	cfns    map[*ssa.Function]*CFn
	impl    map[implKey]bool
}

type implKey struct {
	t types.Type
	i types.Type
}

type methKey struct {
	t types.Type
	m *types.Func
}

func NewProgram(sh *Shared) *Program {
	return &Program{Shared: sh, cfns: map[*ssa.Function]*CFn{}, impl: map[implKey]bool{}}
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (p *Program) cfn(fn *ssa.Function) *CFn {
	if c, ok := p.cfns[fn]; ok {
		return c
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	c := &CFn{fn: fn, name: name, np: len(fn.Params)}
	p.cfns[fn] = c
	path := pkgPathOf(fn)
	c.inRepo = p.repoPkgs[path]
	if in, ok := intrinsics[name]; ok {
		c.intr, c.pure = in.f, in.pure
	} else if strings.HasPrefix(path, p.ndPkg) && p.ndPkg != "" {
		if in, ok := ndIntrinsics[fn.Name()]; ok {
			c.intr, c.pure = in.f, in.pure
		}
	} else if m, ok := p.models[name]; ok && m != fn {
		c.model = p.cfn(m)
	} else if noopFn(name) {
		res := fn.Signature.Results()
		c.intr = func(x *Exec, fr *Frame, args []Value) Value { return zeroResult(res) }
	}
	c.isInit = fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil
	return c
}

func zeroResult(res *types.Tuple) Value {
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(res.At(0).Type())
	}
	tu := make(Tuple, res.Len())
	for i := range tu {
		tu[i] = zero(res.At(i).Type())
	}
	return Value{O: tu}
}

func (p *Program) lookupMethod(x *Exec, t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := x.methodC[k]; ok {
		return f
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	x.methodC[k] = f
	return f
}

func (p *Program) implements(t types.Type, i types.Type) bool {
	k := implKey{t, i}
	if r, ok := p.impl[k]; ok {
		return r
	}
	r := types.Implements(t, i.Underlying().(*types.Interface))
	p.impl[k] = r
	return r
}

func (p *Program) compile(c *CFn) {
	c.compiled = true
	fn := c.fn
	if fn.Blocks == nil {
		return
	}
	c.reg = map[ssa.Value]int{}
	n := 0
	for _, v := range fn.Params {
		c.reg[v] = n
		n++
	}
	c.np = n
	for _, v := range fn.FreeVars {
		c.reg[v] = n
		n++
	}
	hasDefer := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				hasDefer = true
			}
		}
	}
	c.nregs = n
	if hasDefer {
		c.instrN |= 1
	}
	c.blocks = make([]*CBlock, len(fn.Blocks))
	for i := range fn.Blocks {
		c.blocks[i] = &CBlock{idx: i}
	}
	idx := p.indexUses(fn)
	for i, b := range fn.Blocks {
		cb := c.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, c.blocks[s.Index])
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, c.blocks[s.Index])
		}
		cb.specOK = true
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Phi:
				ph := phi{dst: c.reg[t], typ: t.Type(), idxUse: idx[t]}
				for _, e := range t.Edges {
					ph.edges = append(ph.edges, p.operand(c, e))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.If:
				cb.term = t
				cb.cond = p.operand(c, t.Cond)
			case *ssa.Jump:
				cb.term = t
			case *ssa.Return:
				cb.term = t
				for _, r := range t.Results {
					cb.rets = append(cb.rets, p.operand(c, r))
				}
			case *ssa.Panic:
				cb.term = t
				cb.cond = p.operand(c, t.X)
			default:
				f, pure := p.instr(c, in)
				cb.code = append(cb.code, f)
				cb.instrs = append(cb.instrs, in)
				if !pure {
					cb.specOK = false
				}
			}
		}
	}
	c.ipdom = postdoms(c.blocks)
}

// indexUses marks phis whose value flows (through +/-/conversions) into an index, slice bound or allocation size.
func (p *Program) indexUses(fn *ssa.Function) map[ssa.Value]bool {
	mark := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || mark[v] {
			return
		}
		mark[v] = true
		switch t := v.(type) {
		case *ssa.Phi:
			for _, e := range t.Edges {
				visit(e)
			}
		case *ssa.BinOp:
			if t.Op == token.ADD || t.Op == token.SUB || t.Op == token.MUL {
				visit(t.X)
				visit(t.Y)
			}
		case *ssa.Convert:
			visit(t.X)
		case *ssa.ChangeType:
			visit(t.X)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch t := i.(type) {
			case *ssa.IndexAddr:
				visit(t.Index)
			case *ssa.Index:
				visit(t.Index)
			case *ssa.Slice:
				visit(t.Low)
				visit(t.High)
				visit(t.Max)
			case *ssa.MakeSlice:
				visit(t.Len)
				visit(t.Cap)
			case *ssa.Lookup:
				if isString(t.X.Type()) {
					visit(t.Index)
				}
			}
		}
	}
	return mark
}

func postdoms(bs []*CBlock) []int {
	n := len(bs)
	// sets as bitsets; exit = virtual node n
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i>>6] |= 1 << (i & 63)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64{}, full...)
	}
	pd[n] = make([]uint64, words)
	pd[n][n>>6] |= 1 << (n & 63)
	isExit := func(b *CBlock) bool {
		switch b.term.(type) {
		case *ssa.Return:
			return true
		}
		return false
	}
	isPanic := func(b *CBlock) bool { _, ok := b.term.(*ssa.Panic); return ok }
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := bs[i]
			if isPanic(b) {
				continue // panicking blocks are ignored: speculation aborts there
			}
			cur := append([]uint64{}, full...)
			if isExit(b) {
				copy(cur, pd[n])
			}
			for _, s := range b.succs {
				for w := range cur {
					cur[w] &= pd[s.idx][w]
				}
			}
			cur[i>>6] |= 1 << (i & 63)
			for w := range cur {
				if cur[w] != pd[i][w] {
					ch = true
				}
			}
			pd[i] = cur
		}
	}
	r := make([]int, n)
	for i := range bs {
		r[i] = -2
		if isPanic(bs[i]) {
			continue
		}
		// ipdom = the postdominator whose own set size is exactly one less
		cnt := func(s []uint64) int {
			c := 0
			for _, w := range s {
				for ; w != 0; w &= w - 1 {
					c++
				}
			}
			return c
		}
		ci := cnt(pd[i])
		if ci > n { // unreachable exit
			continue
		}
		for j := 0; j <= n; j++ {
			if j == i || pd[i][j>>6]>>(j&63)&1 == 0 {
				continue
			}
			if cnt(pd[j]) == ci-1 {
				if j == n {
					r[i] = -1
				} else {
					r[i] = j
				}
				break
			}
		}
	}
	return r
}

func (p *Program) operand(c *CFn, v ssa.Value) opnd {
	switch t := v.(type) {
	case *ssa.Const:
		return opnd{k: 0, v: constValue(t)}
	case *ssa.Global:
		return opnd{k: 2, g: t}
	case *ssa.Function:
		return opnd{k: 0, v: Value{O: &Closure{fn: t}}}
	case *ssa.Builtin:
		return opnd{k: 0, v: Value{O: &Closure{bi: t}}}
	}
	i, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, c.name))
	}
	return opnd{k: 1, i: i}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// instr compiles one instruction; the second result says whether it may run under speculation.
func (p *Program) instr(c *CFn, in ssa.Instruction) (func(fr *Frame), bool) {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg[v]
	}
	switch t := in.(type) {
	case *ssa.Alloc:
		et := deref(t.Type())
		return func(fr *Frame) {
			fr.x.allocSeq++
			fr.regs[dst] = Value{O: Ptr{&Arr{v: []Value{zeroSeq(et, fr.x.allocSeq)}, seq: fr.x.allocSeq}, 0}}
		}, true
	case *ssa.BinOp:
		a, b := p.operand(c, t.X), p.operand(c, t.Y)
		ta, tb, op := t.X.Type(), t.Y.Type(), t.Op
		if !types.IsInterface(ta) && types.IsInterface(tb) { // comparison value vs interface
			return func(fr *Frame) {
				av := fr.get(&a)
				fr.regs[dst] = fr.x.binop(op, Value{O: &Iface{ta, av}}, fr.get(&b), tb, tb)
			}, true
		}
		return func(fr *Frame) { fr.regs[dst] = fr.x.binop(op, fr.get(&a), fr.get(&b), ta, tb) }, true
	case *ssa.UnOp:
		a := p.operand(c, t.X)
		xt := t.X.Type()
		switch t.Op {
		case token.MUL:
			et := deref(xt)
			repo := c.inRepo
			return func(fr *Frame) {
				if fr.x.preempt > 0 && repo {
					fr.x.preemptPoint(fr.get(&a))
				}
				fr.regs[dst] = fr.x.load(fr.get(&a), et)
			}, true
		case token.NOT:
			return func(fr *Frame) {
				v := fr.get(&a)
				if v.T == nil {
					fr.regs[dst] = cbool(v.U == 0)
					return
				}
				fr.regs[dst] = fr.x.sym(fr.x.tt.BNot(v.T))
			}, true
		case token.SUB:
			if isFloat(xt) {
				return func(fr *Frame) { v := fr.get(&a); v.U ^= 1 << 63; fr.regs[dst] = v }, true
			}
			w, _, _ := intInfo(xt)
			return func(fr *Frame) {
				v := fr.get(&a)
				if v.T == nil {
					fr.regs[dst] = cint(-v.U, w)
					return
				}
				fr.regs[dst] = fr.x.sym(fr.x.tt.Neg(v.T))
			}, true
		case token.XOR:
			w, _, _ := intInfo(xt)
			return func(fr *Frame) {
				v := fr.get(&a)
				if v.T == nil {
					fr.regs[dst] = cint(^v.U, w)
					return
				}
				fr.regs[dst] = fr.x.sym(fr.x.tt.Not(v.T))
			}, true
		case token.ARROW:
			ct := xt.Underlying().(*types.Chan)
			commaOk := t.CommaOk
			return func(fr *Frame) {
				v, ok := fr.x.chanRecv(fr.get(&a), ct.Elem())
				if commaOk {
					fr.regs[dst] = Value{O: Tuple{v, cbool(ok)}}
				} else {
					fr.regs[dst] = v
				}
			}, false
		}
	case *ssa.ChangeType:
		a := p.operand(c, t.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(&a) }, true
	case *ssa.Convert:
		a := p.operand(c, t.X)
		from, to := t.X.Type(), t.Type()
		return func(fr *Frame) { fr.regs[dst] = fr.x.convert(fr.get(&a), from, to) }, true
	case *ssa.MultiConvert:
		a := p.operand(c, t.X)
		from, to := t.X.Type(), t.Type()
		return func(fr *Frame) { fr.regs[dst] = fr.x.convert(fr.get(&a), from, to) }, true
	case *ssa.ChangeInterface:
		a := p.operand(c, t.X)
		return func(fr *Frame) { fr.regs[dst] = fr.get(&a) }, true
	case *ssa.SliceToArrayPointer:
		a := p.operand(c, t.X)
		n := int(deref(t.Type()).Underlying().(*types.Array).Len())
		readOnly := true // a conversion to an array value: the pointer is only dereferenced
		for _, r := range *t.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				readOnly = false
			}
		}
		return func(fr *Frame) {
			s, _ := fr.get(&a).O.(*Slice)
			if s == nil {
				if n == 0 {
					fr.regs[dst] = Value{}
					return
				}
				fr.x.rtPanic("cannot convert slice with length 0 to array or pointer to array")
			}
			if s.n < n {
				fr.x.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.n, n))
			}
			if s.off == 0 && len(s.a.v) == n {
				fr.regs[dst] = Value{O: Ptr{&Arr{v: []Value{{O: s.a}}}, 0}}
				return
			}
			if readOnly {
				b := &Arr{v: make([]Value, n)}
				for i := range b.v {
					b.v[i] = clone(s.a.v[s.off+i])
				}
				fr.regs[dst] = Value{O: Ptr{&Arr{v: []Value{{O: b}}}, 0}}
				return
			}
			fr.x.unsupported("slice to array pointer")
		}, true
	case *ssa.MakeInterface:
		a := p.operand(c, t.X)
		ty := t.X.Type()
		return func(fr *Frame) { fr.regs[dst] = Value{O: &Iface{ty, fr.get(&a)}} }, true
	case *ssa.MakeClosure:
		fn := t.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range t.Bindings {
			bs = append(bs, p.operand(c, b))
		}
		return func(fr *Frame) {
			bd := make([]Value, len(bs))
			for i := range bs {
				bd[i] = fr.get(&bs[i])
			}
			fr.regs[dst] = Value{O: &Closure{fn: fn, bd: bd}}
		}, true
	case *ssa.MakeMap:
		return func(fr *Frame) { fr.regs[dst] = Value{O: &Map{idx: map[string]int{}}} }, false
	case *ssa.MakeChan:
		a := p.operand(c, t.Size)
		return func(fr *Frame) { fr.regs[dst] = Value{O: &Chan{cap: fr.x.cintv(fr.get(&a))}} }, false
	case *ssa.MakeSlice:
		l, cp := p.operand(c, t.Len), p.operand(c, t.Cap)
		lt, ct := t.Len.Type(), t.Cap.Type()
		et := t.Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(et)
		sz := types.SizesFor("gc", "amd64").Sizeof(et)
		if sz == 0 {
			sz = 1
		}
		return func(fr *Frame) {
			n := fr.x.allocLen(fr.get(&l), lt, sz, fr)
			m := fr.x.allocLen(fr.get(&cp), ct, sz, fr)
			if m < n {
				fr.x.rtPanic("makeslice: cap out of range")
			}
			fr.x.allocSeq++
			a := &Arr{v: make([]Value, m), seq: fr.x.allocSeq}
			if agg {
				for i := range a.v {
					a.v[i] = zeroSeq(et, fr.x.allocSeq)
				}
			}
			fr.regs[dst] = Value{O: &Slice{a, 0, int(n), int(m)}}
		}, true
	case *ssa.Slice:
		a := p.operand(c, t.X)
		var lo, hi, mx opnd
		var lt, ht, mt types.Type
		if t.Low != nil {
			lo, lt = p.operand(c, t.Low), t.Low.Type()
		}
		if t.High != nil {
			hi, ht = p.operand(c, t.High), t.High.Type()
		}
		if t.Max != nil {
			mx, mt = p.operand(c, t.Max), t.Max.Type()
		}
		xt := t.X.Type()
		return func(fr *Frame) {
			var lp, hp, mp *Value
			if lt != nil {
				v := fr.get(&lo)
				lp = &v
			}
			if ht != nil {
				v := fr.get(&hi)
				hp = &v
			}
			if mt != nil {
				v := fr.get(&mx)
				mp = &v
			}
			fr.regs[dst] = fr.x.sliceOp(fr.get(&a), xt, lp, hp, mp, lt, ht, mt)
		}, true
	case *ssa.FieldAddr:
		a := p.operand(c, t.X)
		f := t.Field
		return func(fr *Frame) { fr.regs[dst] = fr.x.fieldAddr(fr.get(&a), f) }, true
	case *ssa.Field:
		a := p.operand(c, t.X)
		f := t.Field
		return func(fr *Frame) {
			v := fr.get(&a)
			ar, ok := v.O.(*Arr)
			if !ok {
				if fr.x.initMode {
					fr.regs[dst] = v
					return
				}
				fr.x.unsupported("field of non-struct")
			}
			r := ar.v[f]
			if _, ok := r.O.(*Arr); ok {
				r = clone(r)
			}
			fr.regs[dst] = r
		}, true
	case *ssa.IndexAddr:
		a, ix := p.operand(c, t.X), p.operand(c, t.Index)
		it := t.Index.Type()
		_, isSl := t.X.Type().Underlying().(*types.Slice)
		return func(fr *Frame) {
			v := fr.get(&a)
			switch q := v.O.(type) {
			case *Slice:
				fr.regs[dst] = fr.x.ptrTo(q.a, q.off, q.n, fr.get(&ix), it)
			case Ptr:
				ar := q.a.v[q.i].O.(*Arr)
				fr.regs[dst] = fr.x.ptrTo(ar, 0, len(ar.v), fr.get(&ix), it)
			case *SymPtr:
				i := int(fr.x.concretize(q.idx))
				ar := q.a.v[q.off+i].O.(*Arr)
				fr.regs[dst] = fr.x.ptrTo(ar, 0, len(ar.v), fr.get(&ix), it)
			case nil:
				if isSl {
					fr.x.index(fr.get(&ix), it, 0, "")
				}
				fr.x.nilDeref()
			case poisonT:
				if fr.x.initMode {
					fr.regs[dst] = v
					return
				}
				fr.x.unsupported("index of poison")
			default:
				panic(fmt.Sprintf("IndexAddr %T", v.O))
			}
		}, true
	case *ssa.Index:
		a, ix := p.operand(c, t.X), p.operand(c, t.Index)
		it := t.Index.Type()
		xt := t.X.Type()
		return func(fr *Frame) {
			v := fr.get(&a)
			if isString(xt) {
				fr.regs[dst] = fr.x.strIndex(v, fr.get(&ix), it)
				return
			}
			ar := v.O.(*Arr)
			fr.regs[dst] = fr.x.load(fr.x.ptrTo(ar, 0, len(ar.v), fr.get(&ix), it), xt.Underlying().(*types.Array).Elem())
		}, true
	case *ssa.Lookup:
		a, ix := p.operand(c, t.X), p.operand(c, t.Index)
		it := t.Index.Type()
		if isString(t.X.Type()) {
			return func(fr *Frame) { fr.regs[dst] = fr.x.strIndex(fr.get(&a), fr.get(&ix), it) }, true
		}
		mt := t.X.Type().Underlying().(*types.Map)
		commaOk := t.CommaOk
		return func(fr *Frame) {
			if po, ok := fr.get(&a).O.(poisonT); ok {
				if fr.x.initMode {
					fr.regs[dst] = Value{O: Tuple{Value{O: po}, Value{}}}
					if !commaOk {
						fr.regs[dst] = Value{O: po}
					}
					return
				}
				fr.x.unsupported("lookup in poison map")
			}
			m, _ := fr.get(&a).O.(*Map)
			e := fr.x.mapFind(m, fr.get(&ix), mt.Key())
			var v Value
			if e != nil {
				v = clone(e.v)
			} else {
				v = zero(mt.Elem())
			}
			if commaOk {
				fr.regs[dst] = Value{O: Tuple{v, cbool(e != nil)}}
			} else {
				fr.regs[dst] = v
			}
		}, true
	case *ssa.Extract:
		a := p.operand(c, t.Tuple)
		i := t.Index
		return func(fr *Frame) {
			v := fr.get(&a)
			tu, ok := v.O.(Tuple)
			if !ok {
				if _, isP := v.O.(poisonT); isP {
					fr.regs[dst] = v
					return
				}
				panic(fmt.Sprintf("extract from %T in %s", v.O, c.name))
			}
			fr.regs[dst] = tu[i]
		}, true
	case *ssa.TypeAssert:
		a := p.operand(c, t.X)
		at := t.AssertedType
		commaOk := t.CommaOk
		isI := types.IsInterface(at)
		return func(fr *Frame) {
			v := fr.get(&a)
			if _, isP := v.O.(poisonT); isP {
				if fr.x.initMode {
					fr.regs[dst] = v
					return
				}
				fr.x.unsupported("type assertion on poison")
			}
			i, _ := v.O.(*Iface)
			ok := false
			var r Value
			if i != nil {
				if isI {
					ok = fr.x.P.implements(i.t, at)
					r = v
				} else {
					ok = types.Identical(i.t, at)
					if ok {
						r = clone(i.v)
					}
				}
			}
			if commaOk {
				if !ok {
					r = zero(at)
				}
				fr.regs[dst] = Value{O: Tuple{r, cbool(ok)}}
				return
			}
			if !ok {
				fr.x.rtPanic("interface conversion: not " + at.String())
			}
			fr.regs[dst] = r
		}, true
	case *ssa.Store:
		a, v := p.operand(c, t.Addr), p.operand(c, t.Val)
		ty := t.Val.Type()
		repo := c.inRepo
		return func(fr *Frame) {
			if fr.x.preempt > 0 && repo {
				fr.x.preemptPoint(fr.get(&a))
			}
			fr.x.store(fr.get(&a), fr.get(&v), ty)
		}, !isAgg(ty)
	case *ssa.MapUpdate:
		m, k, v := p.operand(c, t.Map), p.operand(c, t.Key), p.operand(c, t.Value)
		kt := t.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) {
			mv := fr.get(&m)
			mm, _ := mv.O.(*Map)
			if mm == nil {
				if fr.x.initMode {
					return
				}
				tp := &tpanic{v: Value{O: &Iface{types.Typ[types.String], cstr("assignment to entry in nil map")}}, msg: "assignment to entry in nil map", where: fr.x.where(fr)}
				panic(tp)
			}
			fr.x.mapSet(mm, fr.get(&k), clone(fr.get(&v)), kt)
		}, false
	case *ssa.Send:
		ch, v := p.operand(c, t.Chan), p.operand(c, t.X)
		return func(fr *Frame) { fr.x.chanSend(fr.get(&ch), fr.get(&v)) }, false
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.x.runDefers(fr)
			if fr.pan != nil {
				panic(fr.pan)
			}
		}, false
	case *ssa.Defer:
		f := p.callee(c, &t.Call)
		return func(fr *Frame) {
			fv, args := f(fr)
			fr.defers = append(fr.defers, deferred{fn: fv, args: args, instr: t})
		}, false
	case *ssa.Go:
		f := p.callee(c, &t.Call)
		return func(fr *Frame) {
			fv, args := f(fr)
			fr.x.goStart(fv, args)
		}, false
	case *ssa.Range:
		a := p.operand(c, t.X)
		xt := t.X.Type()
		return func(fr *Frame) { fr.regs[dst] = fr.x.rangeStart(fr.get(&a), xt) }, false
	case *ssa.Next:
		a := p.operand(c, t.Iter)
		isStr := t.IsString
		tt := t.Type().(*types.Tuple)
		return func(fr *Frame) { fr.regs[dst] = fr.x.rangeNext(fr.get(&a), isStr, tt) }, false
	case *ssa.Select:
		type st struct {
			dir  types.ChanDir
			ch   opnd
			send opnd
			et   types.Type
		}
		var sts []st
		for _, s := range t.States {
			q := st{dir: s.Dir, ch: p.operand(c, s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if s.Send != nil {
				q.send = p.operand(c, s.Send)
			}
			sts = append(sts, q)
		}
		blocking := t.Blocking
		return func(fr *Frame) {
			cases := make([]selCase, len(sts))
			for i := range sts {
				ch, _ := fr.get(&sts[i].ch).O.(*Chan)
				cases[i] = selCase{send: sts[i].dir == types.SendOnly, ch: ch, et: sts[i].et}
				if cases[i].send {
					cases[i].v = fr.get(&sts[i].send)
				}
			}
			fr.regs[dst] = fr.x.selectOp(cases, blocking)
		}, false
	case *ssa.Call:
		return p.call(c, t, dst)
	}
	return func(fr *Frame) { fr.x.unsupported(fmt.Sprintf("instruction %T in %s", in, c.name)) }, false
}

// zeroSeq is zero with allocation sequence numbers on nested aggregates.
func zeroSeq(t types.Type, seq int64) Value {
	v := zero(t)
	if a, ok := v.O.(*Arr); ok {
		stamp(a, seq)
	}
	return v
}

func stamp(a *Arr, seq int64) {
	a.seq = seq
	for _, e := range a.v {
		if b, ok := e.O.(*Arr); ok {
			stamp(b, seq)
		}
	}
}

func (x *Exec) allocLen(v Value, t types.Type, elem int64, fr *Frame) int64 {
	w, signed, _ := intInfo(t)
	ext := func(u uint64) int64 {
		if signed {
			return sext(u, w)
		}
		if int64(u) < 0 {
			return -1
		}
		return int64(u)
	}
	if v.T != nil {
		// split: oversized requests are reported, negative ones panic, the rest is enumerated
		var e *Term
		if signed {
			e = x.tt.SExt(v.T, 64)
		} else {
			e = x.tt.ZExt(v.T, 64)
		}
		lim := x.allocCap / elem
		if !x.decide(x.tt.Ule(e, x.tt.Const(uint64(lim), 64))) {
			if x.decide(x.tt.Ule(e, x.tt.Const(1<<46, 64))) {
				x.checkAlloc(x.allocCap/elem+1, elem, fr)
			}
			x.rtPanic("makeslice: len out of range")
		}
		return ext(x.concretize(v.T))
	}
	n := ext(v.U)
	if n < 0 || n > 1<<46 {
		x.rtPanic("makeslice: len out of range")
	}
	x.checkAlloc(n, elem, fr)
	return n
}

func (x *Exec) fieldAddr(v Value, f int) Value {
	switch q := v.O.(type) {
	case Ptr:
		ar, ok := q.a.v[q.i].O.(*Arr)
		if !ok {
			if _, isP := q.a.v[q.i].O.(poisonT); isP && x.initMode {
				return q.a.v[q.i]
			}
			x.unsupported("field address of a non-struct cell")
		}
		return Value{O: Ptr{ar, f}}
	case *SymPtr:
		i := int(x.concretize(q.idx))
		return Value{O: Ptr{q.a.v[q.off+i].O.(*Arr), f}}
	case nil:
		x.nilDeref()
	case poisonT:
		if x.initMode {
			return v
		}
		x.unsupported("field of poison: " + q.why)
	}
	panic(fmt.Sprintf("FieldAddr %T", v.O))
}

func (x *Exec) strIndex(s, ix Value, it types.Type) Value {
	n := strLen(s)
	i, t := x.index(ix, it, n, "")
	if t == nil {
		return strAt(s, i)
	}
	return x.symLoad(&SymPtr{&Arr{v: strBytes(s)}, 0, n, t}, types.Typ[types.Uint8])
}

// callee compiles the callee and arguments of a call common; invoke-mode calls resolve the method.
func (p *Program) callee(c *CFn, cc *ssa.CallCommon) func(fr *Frame) (Value, []Value) {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = p.operand(c, a)
	}
	if cc.IsInvoke() {
		rv := p.operand(c, cc.Value)
		m := cc.Method
		return func(fr *Frame) (Value, []Value) {
			v := fr.get(&rv)
			i, _ := v.O.(*Iface)
			if i == nil {
				if _, isP := v.O.(poisonT); isP {
					fr.x.unsupported("method call on poison")
				}
				fr.x.nilDeref()
			}
			fn := p.lookupMethod(fr.x, i.t, m)
			if fn == nil {
				fr.x.unsupported("no method " + m.Name() + " on " + i.t.String())
			}
			av := make([]Value, len(args)+1)
			av[0] = clone(i.v)
			for k := range args {
				av[k+1] = fr.get(&args[k])
			}
			return Value{O: &Closure{fn: fn}}, av
		}
	}
	fv := p.operand(c, cc.Value)
	return func(fr *Frame) (Value, []Value) {
		av := make([]Value, len(args))
		for k := range args {
			av[k] = fr.get(&args[k])
		}
		return fr.get(&fv), av
	}
}

func (p *Program) call(c *CFn, t *ssa.Call, dst int) (func(fr *Frame), bool) {
	cc := &t.Call
	set := func(fr *Frame, v Value) { fr.regs[dst] = v }
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]opnd, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = p.operand(c, a)
		}
		pure := false
		switch b.Name() {
		case "len", "cap", "min", "max", "real", "imag", "complex", "ssa:wrapnilchk", "SliceData", "StringData", "String":
			pure = true
		}
		return func(fr *Frame) {
			av := make([]Value, len(args))
			for k := range args {
				av[k] = fr.get(&args[k])
			}
			set(fr, fr.x.builtin(b, av, fr, cc))
		}, pure
	}
	if cc.IsInvoke() {
		f := p.callee(c, cc)
		return func(fr *Frame) {
			fv, av := f(fr)
			set(fr, fr.x.callFn(p.cfn(fv.O.(*Closure).fn), av, nil, fr))
		}, true
	}
	if sc, ok := cc.Value.(*ssa.Function); ok {
		args := make([]opnd, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = p.operand(c, a)
		}
		cf := p.cfn(sc)
		return func(fr *Frame) {
			av := make([]Value, len(args))
			for k := range args {
				av[k] = fr.get(&args[k])
			}
			set(fr, fr.x.callFn(cf, av, nil, fr))
		}, true
	}
	f := p.callee(c, cc)
	return func(fr *Frame) {
		fv, av := f(fr)
		set(fr, fr.x.callValue(fv, av, fr))
	}, true
}

// skipInit lists packages whose initialisers are not run (their globals stay zero / are poison on use).
func (p *Program) skipInit(path string) bool {
	switch path {
	case "runtime", "syscall", "os", "net", "reflect", "sync/atomic", "unsafe",
		"crypto", "crypto/md5", "crypto/rand", "crypto/tls", "crypto/x509", "net/http", "io/fs", "path/filepath", "os/exec", "os/signal",
		"math/rand", "math/rand/v2", "math/big", "compress/gzip", "compress/flate", "html/template", "text/template", "iter", "maps", "weak", "unique", "mime", "mime/multipart", "poll":
		return true
	}
	for _, pre := range []string{"internal/", "runtime/", "vendor/", "crypto/", "golang.org/", "net/http/", "encoding/json", "encoding/asn1", "encoding/pem"} {
		if strings.HasPrefix(path, pre) {
			return true
		}
	}
	return false
}
