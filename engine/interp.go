package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, fr *Frame, args []Value) Value

type opnd struct {
	k uint8 // 0 const, 1 reg, 2 global
	i int
	v Value
	g *ssa.Global
}

type CFn struct {
	fn       *ssa.Function
	name     string
	intr     intrinsic
	pure     bool // intrinsic may run under speculation
	nregs    int
	blocks   []*CBlock
	np       int // params
	reg      map[ssa.Value]int
	compiled bool
	model    *CFn
	instrN   int
	ipdom    []int // block index -> immediate postdominator (-1 = exit)
	inRepo   bool
	isInit   bool
	pureSt   int8 // 0 unknown 1 pure 2 impure 3 in progress
}

type phi struct {
	dst    int
	edges  []opnd
	typ    types.Type
	idxUse bool
}

type CBlock struct {
	idx      int
	phis     []phi
	code     []func(fr *Frame)
	instrs   []ssa.Instruction
	term     ssa.Instruction
	cond     opnd
	rets     []opnd
	succs    []*CBlock
	preds    []*CBlock
	specOK   bool // code is free of side effects
	noMerge  bool
	fails    int
	failPath int64
	hasPos   token.Pos
}

type Frame struct {
	x         *Exec
	fn        *CFn
	regs      []Value
	caller    *Frame
	g         *G
	defers    []deferred
	result    Value
	pan       *tpanic // active panic while running deferred calls
	recovered bool
	curI      ssa.Instruction
	depth     int
}

type deferred struct {
	fn    Value
	args  []Value
	cc    *ssa.CallCommon
	instr *ssa.Defer
}

func (fr *Frame) get(o *opnd) Value {
	switch o.k {
	case 0:
		return o.v
	case 1:
		return fr.regs[o.i]
	default:
		return Value{O: Ptr{fr.x.global(o.g), 0}}
	}
}

func (x *Exec) global(g *ssa.Global) *Arr {
	if a, ok := x.globals[g]; ok {
		return a
	}
	a := &Arr{v: []Value{zero(g.Type().(*types.Pointer).Elem())}}
	if g.Pkg != nil && x.P.skipInit(g.Pkg.Pkg.Path()) && !isAgg(g.Type().(*types.Pointer).Elem()) {
		a.v[0] = Value{O: poisonT{g.String()}}
	}
	if !x.initMode {
		markArr(a, map[any]bool{})
	}
	x.globals[g] = a
	return a
}

func (x *Exec) where(fr *Frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.fn.inRepo && f.curI != nil {
			p := x.P.prog.Fset.Position(f.curI.Pos())
			if !p.IsValid() {
				// nearest instruction with a position
				for _, i := range f.curI.Block().Instrs {
					if i.Pos().IsValid() {
						p = x.P.prog.Fset.Position(i.Pos())
					}
					if i == f.curI {
						break
					}
				}
			}
			fn := p.Filename
			if i := strings.LastIndex(fn, "/repo/"); i >= 0 {
				fn = fn[i+6:]
			}
			return fmt.Sprintf("%s (%s:%d)", f.fn.name, fn, p.Line)
		}
	}
	if fr != nil {
		return fr.fn.name
	}
	return "?"
}

// rtPanic raises a Go runtime panic in the program under test.
func (x *Exec) rtPanic(msg string) {
	if x.spec > 0 {
		x.specFail = true
		panic(specAbort{})
	}
	var v Value
	if x.P.rtErr != nil {
		v = Value{O: &Iface{x.P.rtErr, cstr(msg)}}
	} else {
		v = Value{O: &Iface{types.Typ[types.String], cstr("runtime error: " + msg)}}
	}
	fr := x.cur.top
	panic(&tpanic{v: v, msg: "runtime error: " + msg, where: x.where(fr)})
}

// ---------- calls ----------

func (x *Exec) callFn(cf *CFn, args []Value, bd []Value, caller *Frame) Value {
	if cf.intr != nil {
		if x.spec > 0 && !cf.pure {
			x.specFail = true
			panic(specAbort{})
		}
		return cf.intr(x, caller, args)
	}
	if cf.model != nil {
		cf = cf.model
	}
	if !cf.compiled {
		x.P.compile(cf)
	}
	if cf.blocks == nil {
		if x.initMode {
			return Value{O: poisonT{cf.name}}
		}
		x.unsupported("call of function without body: " + cf.name)
	}
	if cf.isInit && x.P.skipInit(cf.fn.Pkg.Pkg.Path()) {
		return Value{}
	}
	if x.spec > 0 && caller != nil && x.fnImpure(cf) {
		x.specFail = true
		panic(specAbort{})
	}
	d := 0
	if caller != nil {
		d = caller.depth + 1
	}
	if d > 3000 {
		panic(abortPath{outStepLimit, "call depth exceeds 3000: " + cf.name})
	}
	fr := &Frame{x: x, fn: cf, regs: make([]Value, cf.nregs), caller: caller, depth: d, g: x.cur}
	copy(fr.regs, args)
	copy(fr.regs[cf.np:], bd)
	if x.fnSeen != nil && cf.inRepo {
		x.fnSeen[cf] = true
	}
	g := x.cur
	saved := g.top
	g.top = fr
	if x.initMode && caller != nil && caller.fn.isInit && !cf.isInit {
		failed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					failed = true
					x.initErrs = append(x.initErrs, fmt.Sprintf("%s: %v", cf.name, r))
				}
			}()
			x.run(fr)
		}()
		g.top = saved
		if failed {
			return poisonResult(cf.fn.Signature.Results(), cf.name)
		}
		return fr.result
	}
	x.run(fr)
	g.top = saved
	return fr.result
}

func poisonResult(res *types.Tuple, why string) Value {
	if res.Len() <= 1 {
		return Value{O: poisonT{why}}
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = Value{O: poisonT{why}}
	}
	return Value{O: t}
}

// fnImpure reports statically that a function has side effects (so it cannot be speculated).
func (x *Exec) fnImpure(cf *CFn) bool {
	if cf.pureSt == 0 {
		cf.pureSt = 1
		for _, b := range cf.blocks {
			if !b.specOK {
				cf.pureSt = 2
				break
			}
			switch b.term.(type) {
			case *ssa.Panic:
			case *ssa.Return, *ssa.If, *ssa.Jump:
			}
		}
	}
	return cf.pureSt == 2
}

// run executes a frame to completion, handling defers and panics.
func (x *Exec) run(fr *Frame) {
	if fr.fn.fn.Recover == nil && !fr.fn.hasDefer() {
		x.exec(fr, fr.fn.blocks[0], nil)
		return
	}
	x.runProtected(fr)
}

func (c *CFn) hasDefer() bool { return c.instrN&1 != 0 }

func (x *Exec) runProtected(fr *Frame) {
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*tpanic)
			if !ok {
				panic(r)
			}
			x.cur.top = fr
			fr.pan = tp
			fr.recovered = false
		}()
		x.exec(fr, fr.fn.blocks[0], nil)
	}()
	if fr.pan != nil {
		x.runDefers(fr)
		if fr.pan != nil {
			panic(fr.pan)
		}
		// recovered: run the recover block to load named results
		if fr.fn.fn.Recover != nil {
			x.exec(fr, fr.fn.blocks[fr.fn.fn.Recover.Index], nil)
		}
	}
}

func (x *Exec) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*tpanic); ok {
						x.cur.top = fr
						fr.pan = tp
						return
					}
					panic(r)
				}
			}()
			x.callValue(d.fn, d.args, fr)
		}()
	}
}

func (x *Exec) callValue(f Value, args []Value, fr *Frame) Value {
	c, ok := f.O.(*Closure)
	if !ok || c == nil {
		if _, p := f.O.(poisonT); p {
			x.unsupported("call of poison function value")
		}
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.bi != nil {
		return x.builtin(c.bi, args, fr, nil)
	}
	return x.callFn(x.P.cfn(c.fn), args, c.bd, fr)
}

type edge struct {
	to   *CBlock
	vals []Value
}

func (x *Exec) phiVals(fr *Frame, to, from *CBlock) []Value {
	if len(to.phis) == 0 {
		return nil
	}
	pi := -1
	for i, p := range to.preds {
		if p == from {
			pi = i
			break
		}
	}
	r := make([]Value, len(to.phis))
	for i := range to.phis {
		r[i] = fr.get(&to.phis[i].edges[pi])
	}
	return r
}

func (x *Exec) tick(fr *Frame, n int) {
	x.steps += int64(n)
	if x.steps > x.maxSteps && !x.initMode {
		panic(abortPath{outStepLimit, "step limit in " + x.where(fr)})
	}
	if x.spec > 0 {
		x.specSteps += n
		if x.specSteps > 600 {
			x.specFail = true
			panic(specAbort{})
		}
	}
}

// exec runs blocks starting at b until return.
func (x *Exec) exec(fr *Frame, b *CBlock, from *CBlock) {
	var vals []Value
	if from != nil {
		vals = x.phiVals(fr, b, from)
	}
	for {
		for i := range vals {
			fr.regs[b.phis[i].dst] = vals[i]
		}
		x.tick(fr, len(b.code)+1)
		for i, c := range b.code {
			fr.curI = b.instrs[i]
			c(fr)
		}
		fr.curI = b.term
		switch t := b.term.(type) {
		case *ssa.Jump:
			vals = x.phiVals(fr, b.succs[0], b)
			b = b.succs[0]
		case *ssa.If:
			c := fr.get(&b.cond)
			if c.T == nil {
				k := 1
				if c.U != 0 {
					k = 0
				}
				vals = x.phiVals(fr, b.succs[k], b)
				b = b.succs[k]
				continue
			}
			if x.spec == 0 && !b.noMerge && !x.P.noMerge {
				if e, done, ok := x.trySpec(fr, b, c.T); ok {
					if done {
						return
					}
					b, vals = e.to, e.vals
					continue
				}
			}
			if x.spec == 0 {
				b, vals = x.foldIf(fr, b, c.T)
				continue
			}
			// inside speculation a symbolic branch must be mergeable
			e, done := x.specIf(fr, b, c.T, nil, false)
			if done {
				return
			}
			b, vals = e.to, e.vals
		case *ssa.Return:
			fr.result = x.retVal(fr, b)
			return
		case *ssa.Panic:
			if x.spec > 0 {
				x.specFail = true
				panic(specAbort{})
			}
			v := fr.get(&b.cond)
			panic(&tpanic{v: v, msg: "panic: " + x.showPanic(v), where: x.where(fr)})
		default:
			panic(fmt.Sprintf("terminator %T", t))
		}
	}
}

func (x *Exec) retVal(fr *Frame, b *CBlock) Value {
	switch len(b.rets) {
	case 0:
		return Value{}
	case 1:
		return fr.get(&b.rets[0])
	}
	tu := make(Tuple, len(b.rets))
	for i := range b.rets {
		tu[i] = fr.get(&b.rets[i])
	}
	return Value{O: tu}
}

func (x *Exec) showPanic(v Value) string {
	i, _ := v.O.(*Iface)
	if i == nil {
		return "nil"
	}
	if s, ok := goStr(i.v); ok && isString(i.t) {
		return s
	}
	if p, ok := i.v.O.(Ptr); ok {
		if a, ok := p.a.v[p.i].O.(*Arr); ok && len(a.v) > 0 {
			if s, ok := a.v[0].O.(string); ok {
				return s
			}
		}
	}
	return i.t.String()
}

// ---------- if-conversion (state merging of side-effect-free regions) ----------

// trySpec attempts to merge both sides of the branch at b. done: the function returned.
func (x *Exec) trySpec(fr *Frame, b *CBlock, c *Term) (e edge, done, ok bool) {
	if x.failCount(b) > 12 {
		return edge{}, false, false
	}
	savedI := fr.curI
	top := x.cur.top
	depth := x.cur
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				x.specRollback(0)
				x.spec = 0
				x.specFail = false
				b.fails++
				fr.curI = savedI
				x.cur = depth
				x.cur.top = top
				e, done, ok = edge{}, false, false
				return
			}
			panic(r)
		}
	}()
	x.spec = 1
	x.specSteps = 0
	e, done = x.specIf(fr, b, c, nil, true)
	x.spec = 0
	for _, l := range x.specLog { // commit: log writes to initial state for undo
		if l.a.base && !x.initMode {
			x.trail = append(x.trail, trailEnt{a: l.a, i: l.i, old: l.old})
		}
	}
	x.specLog = x.specLog[:0]
	x.merges++
	return e, done, true
}

type specEnt struct {
	a        *Arr
	i        int
	old, new Value
	t        types.Type
}

func (x *Exec) failCount(b *CBlock) int {
	if b.failPath != x.pathNo {
		b.failPath = x.pathNo
		b.fails = 0
	}
	return b.fails
}

// specStore writes a scalar or reference cell under speculation.
func (x *Exec) specStore(a *Arr, i int, v Value, t types.Type) {
	if isAgg(t) {
		panic(specAbort{})
	}
	x.specLog = append(x.specLog, specEnt{a, i, a.v[i], v, t})
	a.v[i] = v
}

func (x *Exec) specRollback(mark int) {
	for i := len(x.specLog) - 1; i >= mark; i-- {
		l := x.specLog[i]
		l.a.v[l.i] = l.old
	}
	x.specLog = x.specLog[:mark]
}

// specTake undoes the writes since mark and returns the final value per cell.
func (x *Exec) specTake(mark int) []specEnt {
	if len(x.specLog) == mark {
		return nil
	}
	var r []specEnt
	for _, l := range x.specLog[mark:] {
		found := false
		for j := range r {
			if r[j].a == l.a && r[j].i == l.i {
				r[j].new = l.new
				found = true
			}
		}
		if !found {
			r = append(r, l)
		}
	}
	x.specRollback(mark)
	return r
}

func (x *Exec) specMerge(c *Term, lw, rw []specEnt, seq int64) {
	put := func(e specEnt, lv, rv Value) {
		var v Value
		switch {
		case e.a.seq > seq: // allocated inside one of the branches: only reachable from there
			v = lv
		default:
			v = x.mergeVal(c, lv, rv, e.t, x.wideInt(e.t))
		}
		x.specLog = append(x.specLog, specEnt{e.a, e.i, e.a.v[e.i], v, e.t})
		e.a.v[e.i] = v
	}
	for _, e := range lw {
		rv := e.old
		for _, f := range rw {
			if f.a == e.a && f.i == e.i {
				rv = f.new
			}
		}
		if e.a.seq > seq {
			rv = e.new
		}
		put(e, e.new, rv)
	}
outer:
	for _, f := range rw {
		for _, e := range lw {
			if f.a == e.a && f.i == e.i {
				continue outer
			}
		}
		if f.a.seq > seq {
			put(f, f.new, f.new)
		} else {
			put(f, f.old, f.new)
		}
	}
}

// wideInt: stored counters and offsets must stay concrete, so differing constants refuse to merge.
func (x *Exec) wideInt(t types.Type) bool {
	w, _, ok := intInfo(t)
	return ok && w > 16
}

type specRes struct {
	to   *CBlock // nil: returned
	vals []Value
	ret  Value
}

// specIf evaluates both sides of a symbolic branch speculatively and merges them at the immediate postdominator.
func (x *Exec) specIf(fr *Frame, b *CBlock, c *Term, stop *CBlock, top bool) (edge, bool) {
	jp := fr.fn.ipdom[b.idx]
	var join *CBlock
	if jp >= 0 {
		join = fr.fn.blocks[jp]
	} else if jp == -2 || len(fr.defers) > 0 || fr.fn.hasDefer() {
		panic(specAbort{})
	}
	if join == b {
		panic(specAbort{})
	}
	mark, seq := len(x.specLog), x.allocSeq
	l := x.specRun(fr, b.succs[0], b, join)
	lw := x.specTake(mark)
	r := x.specRun(fr, b.succs[1], b, join)
	rw := x.specTake(mark)
	x.specMerge(c, lw, rw, seq)
	if join == nil {
		fr.result = x.mergeRet(fr, c, l.ret, r.ret)
		return edge{}, true
	}
	vals := make([]Value, len(join.phis))
	for i := range join.phis {
		vals[i] = x.mergeVal(c, l.vals[i], r.vals[i], join.phis[i].typ, join.phis[i].idxUse)
	}
	return edge{join, vals}, false
}

// specRun executes from (b, coming from pred) until join (nil: until return).
func (x *Exec) specRun(fr *Frame, b, from, join *CBlock) specRes {
	vals := x.phiVals(fr, b, from)
	org := fr.fn.fn.Blocks[from.idx]
	for {
		if b == join {
			return specRes{to: b, vals: vals}
		}
		// a block dominating the branch would overwrite registers that are live in the other arm
		if !b.specOK || fr.fn.fn.Blocks[b.idx].Dominates(org) {
			panic(specAbort{})
		}
		for i := range vals {
			fr.regs[b.phis[i].dst] = vals[i]
		}
		x.tick(fr, len(b.code)+1)
		for i, cd := range b.code {
			fr.curI = b.instrs[i]
			cd(fr)
		}
		fr.curI = b.term
		switch b.term.(type) {
		case *ssa.Jump:
			vals = x.phiVals(fr, b.succs[0], b)
			b = b.succs[0]
		case *ssa.If:
			c := fr.get(&b.cond)
			if c.T == nil {
				k := 1
				if c.U != 0 {
					k = 0
				}
				vals = x.phiVals(fr, b.succs[k], b)
				b = b.succs[k]
				continue
			}
			e, done := x.specIf(fr, b, c.T, join, false)
			if done {
				if join != nil {
					panic(specAbort{})
				}
				return specRes{ret: fr.result}
			}
			b, vals = e.to, e.vals
		case *ssa.Return:
			if join != nil {
				panic(specAbort{})
			}
			return specRes{ret: x.retVal(fr, b)}
		default:
			panic(specAbort{})
		}
	}
}

func (x *Exec) mergeRet(fr *Frame, c *Term, a, b Value) Value {
	res := fr.fn.fn.Signature.Results()
	if res.Len() == 1 {
		return x.mergeVal(c, a, b, res.At(0).Type(), false)
	}
	if res.Len() == 0 {
		return Value{}
	}
	ta, tb := a.O.(Tuple), b.O.(Tuple)
	r := make(Tuple, len(ta))
	for i := range ta {
		r[i] = x.mergeVal(c, ta[i], tb[i], res.At(i).Type(), false)
	}
	return Value{O: r}
}

func (x *Exec) mergeVal(c *Term, a, b Value, t types.Type, idxUse bool) Value {
	if a.T == nil && b.T == nil && a.O == nil && b.O == nil && a.U == b.U {
		return a
	}
	w, _, isInt := intInfo(t)
	if isInt || isBool(t) {
		if a.O != nil || b.O != nil {
			panic(specAbort{})
		}
		if isInt && idxUse && a.T == nil && b.T == nil {
			panic(specAbort{})
		}
		return x.sym(x.tt.Ite(c, x.term(a, w), x.term(b, w)))
	}
	if isString(t) {
		sa, ok1 := goStr(a)
		sb, ok2 := goStr(b)
		if ok1 && ok2 && sa == sb {
			return a
		}
		if a.O != nil && a.O == b.O {
			return a
		}
		panic(specAbort{})
	}
	switch p := a.O.(type) {
	case nil:
		if b.O == nil {
			return a
		}
	case Ptr:
		if q, ok := b.O.(Ptr); ok && p == q {
			return a
		}
	case *Slice:
		if q, ok := b.O.(*Slice); ok && *p == *q {
			return a
		}
	case *Iface:
		if q, ok := b.O.(*Iface); ok && (p == q || types.Identical(p.t, q.t) && samePtr(p.v, q.v) && p.v.O != nil) {
			return a
		}
	case *Arr:
		if q, ok := b.O.(*Arr); ok && p == q {
			return a
		}
	case *Map, *Chan, *Closure:
		if a.O == b.O {
			return a
		}
	}
	panic(specAbort{})
}

// foldIf forks on c, first folding short-circuit chains (a && b && c, a || b) into one condition.
func (x *Exec) foldIf(fr *Frame, b *CBlock, c *Term) (*CBlock, []Value) {
	e1 := edge{b.succs[0], x.phiVals(fr, b.succs[0], b)}
	e2 := edge{b.succs[1], x.phiVals(fr, b.succs[1], b)}
	if !x.P.noMerge {
		for n := 0; n < 64; n++ {
			if c2, ne1, ne2, ok := x.foldEdge(fr, c, e1, e2, true); ok {
				c, e1, e2 = c2, ne1, ne2
				continue
			}
			if c2, ne1, ne2, ok := x.foldEdge(fr, c, e1, e2, false); ok {
				c, e1, e2 = c2, ne1, ne2
				continue
			}
			break
		}
	}
	if x.decide(c) {
		return e1.to, e1.vals
	}
	return e2.to, e2.vals
}

func (x *Exec) foldEdge(fr *Frame, c *Term, e1, e2 edge, first bool) (rc *Term, r1, r2 edge, ok bool) {
	if c.op == OConst {
		return
	}
	e, o := e1, e2
	if !first {
		e, o = e2, e1
	}
	t := e.to
	if !t.specOK || t == o.to {
		return
	}
	if _, isIf := t.term.(*ssa.If); !isIf {
		return
	}
	if t.succs[0] != o.to && t.succs[1] != o.to || t.succs[0] == t.succs[1] {
		return
	}
	// the chain block must be reachable only through this edge's chain (its registers are not live elsewhere)
	if len(t.preds) != 1 || x.failCount(t) > 12 {
		return
	}
	savedI, top, g := fr.curI, x.cur.top, x.cur
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				x.specRollback(0)
				x.spec, x.specFail = 0, false
				t.fails++
				fr.curI = savedI
				x.cur = g
				x.cur.top = top
				ok = false
				return
			}
			panic(r)
		}
	}()
	x.spec = 1
	x.specSteps = 0
	for i := range e.vals {
		fr.regs[t.phis[i].dst] = e.vals[i]
	}
	x.tick(fr, len(t.code)+1)
	for i, cd := range t.code {
		fr.curI = t.instrs[i]
		cd(fr)
	}
	if len(x.specLog) > 0 {
		panic(specAbort{})
	}
	cv := fr.get(&t.cond)
	c2 := x.term(cv, 0)
	var ne, sh edge // the edge leaving the chain, the edge into the shared target
	shOnTrue := t.succs[0] == o.to
	if shOnTrue {
		sh = edge{t.succs[0], x.phiVals(fr, t.succs[0], t)}
		ne = edge{t.succs[1], x.phiVals(fr, t.succs[1], t)}
	} else {
		sh = edge{t.succs[1], x.phiVals(fr, t.succs[1], t)}
		ne = edge{t.succs[0], x.phiVals(fr, t.succs[0], t)}
	}
	merged := edge{to: o.to, vals: make([]Value, len(o.vals))}
	for i := range o.vals {
		ph := &o.to.phis[i]
		if first { // c true -> e chain; c false -> o
			merged.vals[i] = x.mergeVal(c, sh.vals[i], o.vals[i], ph.typ, ph.idxUse)
		} else {
			merged.vals[i] = x.mergeVal(c, o.vals[i], sh.vals[i], ph.typ, ph.idxUse)
		}
	}
	x.spec = 0
	x.merges++
	stay := c2 // condition, within the chain block, of leaving through ne
	if shOnTrue {
		stay = x.tt.BNot(c2)
	}
	if first {
		return x.tt.BAnd(c, stay), ne, merged, true
	}
	return x.tt.BOr(c, x.tt.BNot(stay)), merged, ne, true
}

// ---------- arithmetic ----------

func (x *Exec) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	tt := x.tt
	if w, signed, ok := intInfo(ta); ok {
		if a.O != nil || b.O != nil {
			if op == token.EQL || op == token.NEQ {
				r := x.eqVal(a, b, ta)
				if op == token.NEQ {
					r = tt.BNot(r)
				}
				return x.sym(r)
			}
			if _, isP := a.O.(Ptr); isP && b.U == 0 && b.O == nil { // uintptr noescape idiom (p ^ 0)
				return a
			}
			x.unsupported("pointer arithmetic")
		}
		if op == token.SHL || op == token.SHR {
			return x.shift(op, a, b, w, signed, tb)
		}
		if a.T == nil && b.T == nil {
			p, q := a.U, b.U
			sp, sq := sext(p, w), sext(q, w)
			switch op {
			case token.ADD:
				return cint(p+q, w)
			case token.SUB:
				return cint(p-q, w)
			case token.MUL:
				return cint(p*q, w)
			case token.QUO:
				if q == 0 {
					x.rtPanic("integer divide by zero")
				}
				if signed {
					if sq == -1 {
						return cint(uint64(-sp), w)
					}
					return cint(uint64(sp/sq), w)
				}
				return cint(p/q, w)
			case token.REM:
				if q == 0 {
					x.rtPanic("integer divide by zero")
				}
				if signed {
					if sq == -1 {
						return cint(0, w)
					}
					return cint(uint64(sp%sq), w)
				}
				return cint(p%q, w)
			case token.AND:
				return cint(p&q, w)
			case token.OR:
				return cint(p|q, w)
			case token.XOR:
				return cint(p^q, w)
			case token.AND_NOT:
				return cint(p&^q, w)
			case token.EQL:
				return cbool(p == q)
			case token.NEQ:
				return cbool(p != q)
			case token.LSS:
				if signed {
					return cbool(sp < sq)
				}
				return cbool(p < q)
			case token.LEQ:
				if signed {
					return cbool(sp <= sq)
				}
				return cbool(p <= q)
			case token.GTR:
				if signed {
					return cbool(sp > sq)
				}
				return cbool(p > q)
			case token.GEQ:
				if signed {
					return cbool(sp >= sq)
				}
				return cbool(p >= q)
			}
		}
		p, q := x.term(a, w), x.term(b, w)
		switch op {
		case token.ADD:
			return x.sym(tt.Add(p, q))
		case token.SUB:
			return x.sym(tt.Sub(p, q))
		case token.MUL:
			return x.sym(tt.Mul(p, q))
		case token.QUO, token.REM:
			if !isC(q) {
				if x.decide(tt.Eq(q, tt.Const(0, w))) {
					x.rtPanic("integer divide by zero")
				}
			} else if q.val == 0 {
				x.rtPanic("integer divide by zero")
			}
			if op == token.QUO {
				if signed {
					return x.sym(tt.SDiv(p, q))
				}
				return x.sym(tt.UDiv(p, q))
			}
			if signed {
				return x.sym(tt.SRem(p, q))
			}
			return x.sym(tt.URem(p, q))
		case token.AND:
			return x.sym(tt.And(p, q))
		case token.OR:
			return x.sym(tt.Or(p, q))
		case token.XOR:
			return x.sym(tt.Xor(p, q))
		case token.AND_NOT:
			return x.sym(tt.And(p, tt.Not(q)))
		case token.EQL:
			return x.sym(tt.Eq(p, q))
		case token.NEQ:
			return x.sym(tt.BNot(tt.Eq(p, q)))
		case token.LSS:
			if signed {
				return x.sym(tt.Slt(p, q))
			}
			return x.sym(tt.Ult(p, q))
		case token.LEQ:
			if signed {
				return x.sym(tt.Sle(p, q))
			}
			return x.sym(tt.Ule(p, q))
		case token.GTR:
			if signed {
				return x.sym(tt.Slt(q, p))
			}
			return x.sym(tt.Ult(q, p))
		case token.GEQ:
			if signed {
				return x.sym(tt.Sle(q, p))
			}
			return x.sym(tt.Ule(q, p))
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if types.IsInterface(ta) && !types.IsInterface(tb) && b.O != nil {
			r = x.eqVal(a, Value{O: &Iface{tb, b}}, ta)
		} else {
			r = x.eqVal(a, b, ta)
		}
		if op == token.NEQ {
			r = tt.BNot(r)
		}
		return x.sym(r)
	}
	if isString(ta) {
		switch op {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return x.sym(x.strLess(a, b))
		case token.GTR:
			return x.sym(x.strLess(b, a))
		case token.LEQ:
			return x.sym(tt.BNot(x.strLess(b, a)))
		case token.GEQ:
			return x.sym(tt.BNot(x.strLess(a, b)))
		}
	}
	if isFloat(ta) {
		p, q := math.Float64frombits(a.U), math.Float64frombits(b.U)
		var r float64
		switch op {
		case token.ADD:
			r = p + q
		case token.SUB:
			r = p - q
		case token.MUL:
			r = p * q
		case token.QUO:
			r = p / q
		case token.LSS:
			return cbool(p < q)
		case token.LEQ:
			return cbool(p <= q)
		case token.GTR:
			return cbool(p > q)
		case token.GEQ:
			return cbool(p >= q)
		}
		if isFloat32(ta) {
			r = float64(float32(r))
		}
		return Value{U: math.Float64bits(r)}
	}
	if isBool(ta) {
		p, q := x.term(a, 0), x.term(b, 0)
		switch op {
		case token.AND, token.LAND:
			return x.sym(tt.BAnd(p, q))
		case token.OR, token.LOR:
			return x.sym(tt.BOr(p, q))
		}
	}
	x.unsupported(fmt.Sprintf("binop %s on %s", op, ta))
	return Value{}
}

func (x *Exec) shift(op token.Token, a, b Value, w uint8, signed bool, tb types.Type) Value {
	tt := x.tt
	wb, sb, _ := intInfo(tb)
	if b.T == nil {
		n := b.U
		if sb && sext(n, wb) < 0 {
			x.rtPanic("negative shift amount")
		}
		if a.T == nil {
			if op == token.SHL {
				if n >= 64 {
					return Value{}
				}
				return cint(a.U<<n, w)
			}
			if signed {
				if n > 63 {
					n = 63
				}
				return cint(uint64(sext(a.U, w)>>n), w)
			}
			if n >= 64 {
				return Value{}
			}
			return cint(a.U>>n, w)
		}
		if n > 64 {
			n = 64
		}
		c := tt.Const(n, w)
		if n >= uint64(w) {
			c = tt.Const(uint64(w), w) // over-shift
			if uint64(w) > mask(w) {
				c = tt.Const(mask(w), w)
			}
		}
		if op == token.SHL {
			return x.sym(tt.Shl(a.T, c))
		}
		if signed {
			return x.sym(tt.AShr(a.T, c))
		}
		return x.sym(tt.LShr(a.T, c))
	}
	if sb {
		if x.decide(tt.Slt(b.T, tt.Const(0, wb))) {
			x.rtPanic("negative shift amount")
		}
	}
	p := x.term(a, w)
	var n *Term
	big := tt.False
	if wb > w {
		n = tt.Extract(b.T, 0, w)
		big = tt.BNot(tt.Ult(b.T, tt.Const(uint64(w), wb)))
	} else {
		n = tt.ZExt(b.T, w)
	}
	switch {
	case op == token.SHL:
		return x.sym(tt.Ite(big, tt.Const(0, w), tt.Shl(p, n)))
	case signed:
		return x.sym(tt.Ite(big, tt.AShrC(p, uint(w)), tt.AShr(p, n)))
	default:
		return x.sym(tt.Ite(big, tt.Const(0, w), tt.LShr(p, n)))
	}
}

func (x *Exec) convert(v Value, from, to types.Type) Value {
	if _, ok := v.O.(poisonT); ok {
		return v
	}
	fu, tu := from.Underlying(), to.Underlying()
	wf, sf, fi := intInfo(from)
	wt, st, ti := intInfo(to)
	if fi && ti {
		if v.O != nil {
			return v
		}
		if v.T == nil {
			if sf {
				return cint(uint64(sext(v.U, wf)), wt)
			}
			return cint(v.U, wt)
		}
		if wt <= wf {
			return x.sym(x.tt.Extract(v.T, 0, wt))
		}
		if sf {
			return x.sym(x.tt.SExt(v.T, wt))
		}
		return x.sym(x.tt.ZExt(v.T, wt))
	}
	if fi && isFloat(to) {
		u := x.cval(v, wf)
		var f float64
		if sf {
			f = float64(sext(u, wf))
		} else {
			f = float64(u)
		}
		if isFloat32(to) {
			f = float64(float32(f))
		}
		return Value{U: math.Float64bits(f)}
	}
	if isFloat(from) && isFloat(to) {
		f := math.Float64frombits(v.U)
		if isFloat32(to) {
			f = float64(float32(f))
		}
		return Value{U: math.Float64bits(f)}
	}
	if isFloat(from) && ti {
		f := math.Float64frombits(v.U)
		if st {
			return cint(uint64(int64(f)), wt)
		}
		return cint(uint64(f), wt)
	}
	if isString(to) {
		if fi {
			r := rune(sext(x.cval(v, wf), wf))
			return cstr(string(r))
		}
		if s, ok := fu.(*types.Slice); ok {
			sl, _ := v.O.(*Slice)
			if sl == nil {
				return cstr("")
			}
			ew, _, _ := intInfo(s.Elem())
			if ew == 8 {
				b := make([]Value, sl.n)
				copy(b, sl.a.v[sl.off:sl.off+sl.n])
				return mkStr(b)
			}
			var sb strings.Builder
			for i := 0; i < sl.n; i++ {
				sb.WriteRune(rune(int32(x.cval(sl.a.v[sl.off+i], 32))))
			}
			return cstr(sb.String())
		}
		if isString(from) {
			return v
		}
	}
	if isString(from) {
		if s, ok := tu.(*types.Slice); ok {
			ew, _, _ := intInfo(s.Elem())
			if ew == 8 {
				b := strBytes(v)
				n := make([]Value, len(b))
				copy(n, b)
				return Value{O: &Slice{&Arr{v: n}, 0, len(n), len(n)}}
			}
			var out []Value
			b := strBytes(v)
			for i := 0; i < len(b); {
				r, sz := x.decodeRune(b[i:])
				out = append(out, r)
				i += sz
			}
			return Value{O: &Slice{&Arr{v: out}, 0, len(out), len(out)}}
		}
	}
	return v // pointer / unsafe.Pointer / named conversions
}

func (x *Exec) decodeRune(b []Value) (Value, int) {
	if b[0].T != nil {
		if x.decide(x.tt.Ult(b[0].T, x.tt.Const(0x80, 8))) {
			return x.sym(x.tt.ZExt(b[0].T, 32)), 1
		}
	} else if b[0].U < 0x80 {
		return Value{U: b[0].U}, 1
	}
	var bs []byte
	for i := 0; i < len(b) && i < 4; i++ {
		bs = append(bs, byte(x.cval(b[i], 8)))
		if utf8.FullRune(bs) {
			break
		}
	}
	r, sz := utf8.DecodeRune(bs)
	return cint(uint64(r), 32), sz
}

// ---------- memory ----------

func (x *Exec) nilDeref() { x.rtPanic("invalid memory address or nil pointer dereference") }

func (x *Exec) load(p Value, t types.Type) Value {
	switch q := p.O.(type) {
	case Ptr:
		v := q.a.v[q.i]
		if _, ok := v.O.(*Arr); ok {
			return clone(v)
		}
		return v
	case *SymPtr:
		return x.symLoad(q, t)
	case nil:
		x.nilDeref()
	case poisonT:
		if x.initMode {
			return p
		}
		x.unsupported("load through poison: " + q.why)
	}
	panic(fmt.Sprintf("load %T", p.O))
}

func (x *Exec) store(p, v Value, t types.Type) {
	switch q := p.O.(type) {
	case Ptr:
		if x.spec > 0 {
			x.specStore(q.a, q.i, v, t)
			return
		}
		x.assign(q.a, q.i, v)
		return
	case *SymPtr:
		if x.spec > 0 {
			panic(specAbort{})
		}
		x.symStore(q, v, t)
		return
	case nil:
		x.nilDeref()
	case poisonT:
		if x.initMode {
			return
		}
		x.unsupported("store through poison")
	}
	panic(fmt.Sprintf("store %T", p.O))
}

func scalarElems(a *Arr, off, n int) bool {
	for i := off; i < off+n; i++ {
		if a.v[i].O != nil {
			return false
		}
	}
	return true
}

func (x *Exec) symLoad(p *SymPtr, t types.Type) Value {
	w, _, ok := intInfo(t)
	if !ok && !isBool(t) || !scalarElems(p.a, p.off, p.n) {
		i := int(x.concretize(p.idx))
		v := p.a.v[p.off+i]
		return clone(v)
	}
	el := p.a.v[p.off : p.off+p.n]
	conc := true
	for i := range el {
		if el[i].T != nil {
			conc = false
			break
		}
	}
	if conc {
		return x.sym(x.tableLookup(el, p.idx, w))
	}
	r := x.term(el[len(el)-1], w)
	for i := len(el) - 2; i >= 0; i-- {
		r = x.tt.Ite(x.tt.Eq(p.idx, x.tt.Const(uint64(i), 64)), x.term(el[i], w), r)
	}
	return x.sym(r)
}

type trun struct {
	lo     int
	affine bool
	v0     uint64
}

func (x *Exec) tableLookup(el []Value, idx *Term, w uint8) *Term {
	// limit by the width of the index
	if n := x.tt.zeroHigh(idx); n > 0 && 64-n < 30 {
		if m := 1 << (64 - n); m < len(el) {
			el = el[:m]
		}
	}
	var runs []trun
	for i := 0; i < len(el); {
		j := i + 1
		for j < len(el) && el[j].U == el[i].U {
			j++
		}
		if j-i >= 2 || w == 0 {
			runs = append(runs, trun{i, false, el[i].U})
			i = j
			continue
		}
		for j < len(el) && el[j].U == (el[j-1].U+1)&mask(w) && !(j+1 < len(el) && el[j+1].U == el[j].U) {
			j++
		}
		runs = append(runs, trun{i, j-i > 1, el[i].U})
		i = j
	}
	val := func(r trun) *Term {
		if !r.affine {
			return x.tt.Const(r.v0, w)
		}
		base := idx
		if w < 64 {
			base = x.tt.Extract(idx, 0, w)
		}
		return x.tt.Add(base, x.tt.Const(r.v0-uint64(r.lo), w))
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return val(runs[lo])
		}
		mid := (lo + hi + 1) / 2
		return x.tt.Ite(x.tt.Ult(idx, x.tt.Const(uint64(runs[mid].lo), 64)), build(lo, mid-1), build(mid, hi))
	}
	return build(0, len(runs)-1)
}

func (x *Exec) symStore(p *SymPtr, v Value, t types.Type) {
	w, _, isInt := intInfo(t)
	if p.n > 4096 || v.O != nil || !isInt && !isBool(t) || !scalarElems(p.a, p.off, p.n) {
		i := int(x.concretize(p.idx))
		x.assign(p.a, p.off+i, v)
		return
	}
	nv := x.term(v, w)
	for i := 0; i < p.n; i++ {
		c := x.tt.Eq(p.idx, x.tt.Const(uint64(i), 64))
		x.setSlot(p.a, p.off+i, x.sym(x.tt.Ite(c, nv, x.term(p.a.v[p.off+i], w))))
	}
}

// index checks idx (of type it) against n and returns a concrete index or a symbolic 64-bit term.
func (x *Exec) index(idx Value, it types.Type, n int, what string) (int, *Term) {
	w, signed, _ := intInfo(it)
	if idx.T == nil {
		i := int64(idx.U)
		if signed {
			i = sext(idx.U, w)
		}
		if i < 0 || i >= int64(n) {
			x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	var t *Term
	if signed {
		t = x.tt.SExt(idx.T, 64)
	} else {
		t = x.tt.ZExt(idx.T, 64)
	}
	if !x.decide(x.tt.Ult(t, x.tt.Const(uint64(n), 64))) {
		x.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	if n == 1 {
		return 0, nil
	}
	return 0, t
}

func (x *Exec) ptrTo(a *Arr, off, n int, idx Value, it types.Type) Value {
	i, t := x.index(idx, it, n, "")
	if t == nil {
		return Value{O: Ptr{a, off + i}}
	}
	if n > 2048 {
		return Value{O: Ptr{a, off + int(x.concretize(t))}}
	}
	return Value{O: &SymPtr{a, off, n, t}}
}

func (x *Exec) sliceOp(v Value, t types.Type, lo, hi, max *Value, loT, hiT, maxT types.Type) Value {
	get := func(p *Value, pt types.Type, def int) int64 {
		if p == nil {
			return int64(def)
		}
		w, s, _ := intInfo(pt)
		if p.T != nil {
			u := x.concretize(p.T)
			if s {
				return sext(u, w)
			}
			return int64(u)
		}
		if s {
			return sext(p.U, w)
		}
		return int64(p.U)
	}
	// symbolic bounds: first split off the out-of-range part so that only valid offsets are enumerated
	rng := func(p *Value, pt types.Type, limit int) bool {
		if p == nil || p.T == nil {
			return true
		}
		_, s, _ := intInfo(pt)
		var e *Term
		if s {
			e = x.tt.SExt(p.T, 64)
		} else {
			e = x.tt.ZExt(p.T, 64)
		}
		return x.decide(x.tt.Ule(e, x.tt.Const(uint64(limit), 64)))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic: // string
		n := strLen(v)
		if !rng(hi, hiT, n) || !rng(lo, loT, n) {
			x.rtPanic(fmt.Sprintf("slice bounds out of range [symbolic] with length %d", n))
		}
		h := get(hi, hiT, n)
		l := get(lo, loT, 0)
		if h < 0 || h > int64(n) {
			x.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			x.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return strSub(v, int(l), int(h))
	case *types.Pointer: // array
		p, ok := v.O.(Ptr)
		if !ok {
			x.nilDeref()
		}
		arr := p.a.v[p.i].O.(*Arr)
		return x.slice3(arr, 0, len(arr.v), len(arr.v), lo, hi, max, loT, hiT, maxT, get, rng)
	case *types.Slice:
		s, _ := v.O.(*Slice)
		if s == nil {
			if _, isP := v.O.(poisonT); isP {
				x.unsupported("slice of poison")
			}
			h, l := get(hi, hiT, 0), get(lo, loT, 0)
			m := get(max, maxT, 0)
			if h != 0 || l != 0 || m != 0 {
				x.rtPanic("slice bounds out of range on nil slice")
			}
			return Value{}
		}
		return x.slice3(s.a, s.off, s.n, s.cap, lo, hi, max, loT, hiT, maxT, get, rng)
	default:
		x.unsupported(fmt.Sprintf("slice of %v", u))
	}
	return Value{}
}

func (x *Exec) slice3(a *Arr, off, n, cp int, lo, hi, max *Value, loT, hiT, maxT types.Type, get func(*Value, types.Type, int) int64, rng func(*Value, types.Type, int) bool) Value {
	if !rng(max, maxT, cp) || !rng(hi, hiT, cp) || !rng(lo, loT, cp) {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [symbolic] with capacity %d", cp))
	}
	m := get(max, maxT, cp)
	h := get(hi, hiT, n)
	l := get(lo, loT, 0)
	if m < 0 || m > int64(cp) {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cp))
	}
	if h < 0 || h > m {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if l < 0 || l > h {
		x.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	return Value{O: &Slice{a, off + int(l), int(h - l), int(m - l)}}
}

func (x *Exec) checkAlloc(n int64, elem int64, fr *Frame) {
	if n < 0 {
		x.rtPanic("makeslice: len out of range")
	}
	if n*elem > x.allocCap && !x.initMode {
		if x.spec > 0 {
			panic(specAbort{})
		}
		msg := fmt.Sprintf("allocation of %d bytes exceeds the bound of %d", n*elem, x.allocCap)
		x.violate("alloc", msg, x.where(fr), x.pc.model)
		panic(abortPath{outViolation, msg})
	}
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if w, signed, ok := intInfo(t); ok {
		if signed {
			v, _ := constant.Int64Val(constant.ToInt(c.Value))
			return cint(uint64(v), w)
		}
		v, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return cint(v, w)
	}
	if isBool(t) {
		return cbool(constant.BoolVal(c.Value))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		v, _ := constant.Int64Val(c.Value)
		return cstr(string(rune(v)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return Value{U: math.Float64bits(f)}
	}
	return Value{O: poisonT{"const " + t.String()}}
}
