package main

// Path execution: decisions, forking, path outcomes.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	k uint8 // 0 branch-false 1 branch-true (constraint added) 2 forced-false 3 forced-true 4 ==v 5 !=v 6 choose v
	v uint64
}

type pending struct {
	prefix []dec
	model  []uint64
}

type inputRec struct {
	kind string
	w    uint8
	v    Value
}

type obsRec struct {
	label string
	kind  string // "u64","bool","bytes","str"
	vals  []Value
}

type outcome int

const (
	outOK outcome = iota
	outAssume
	outViolation
	outUnsupported
	outStepLimit
	outDeadlock
	outUnknown
)

var outcomeName = map[outcome]string{outOK: "ok", outAssume: "infeasible-or-assumed-away", outViolation: "violation", outUnsupported: "unsupported", outStepLimit: "step-limit", outDeadlock: "deadlock", outUnknown: "solver-unknown"}

type abortPath struct {
	out outcome
	msg string
}

type tpanic struct {
	v     Value // interface value
	msg   string
	where string
}

type Violation struct {
	Msg    string
	Kind   string // assert | panic | hang | deadlock | alloc
	Where  string
	Inputs []ReplayVal
	Term   string
}

type Exec struct {
	P    *Program
	tt   *TermTable
	sol  *Solver
	pc   *PathCond
	decs []dec
	pos  int
	pre  []dec

	globals  map[*ssa.Global]*Arr
	trail    []trailEnt
	initMode bool

	inputs   []inputRec
	obs      []obsRec
	covers   map[string]bool
	steps    int64
	maxSteps int64
	allocCap int64
	depth    int

	spec      int
	specFail  bool
	specSteps int
	specLog   []specEnt
	allocSeq  int64
	pathNo    int64

	ufs map[string][]ufApp

	cur         *G
	gs          []*G
	nextG       int
	preempt     int
	gmark       bool // accesses to memory of package variables are scheduling points
	gmaps       map[*Map]bool
	pools       map[*Arr][]Value
	preemptions int
	modelHooks  map[string]Value
	abort       any
	selectYield bool
	shared      map[*Arr]bool
	rawC        map[*ssa.Function]*CFn
	locks       map[*Arr]*lockState
	clock       int64
	objs        map[*Arr]int // identities of objects
	initErrs    []string

	violations []Violation
	fork       func(pending)
	params     map[string]int
	totalSteps int64
	forks      int64
	merges     int64
	fnSeen     map[*CFn]bool
	lastFn     *CFn
	mapOrders  bool
	methodC    map[methKey]*ssa.Function
	hit        map[string]int64
}

type ufApp struct {
	in  []*Term
	out []*Term
}

func (x *Exec) unsupported(msg string) {
	if x.spec > 0 {
		x.specFail = true
		// fall through: abort speculation via panic, caught in trySpec
		panic(specAbort{})
	}
	at := ""
	if x.cur != nil {
		for f, n := x.cur.top, 0; f != nil && n < 4; f, n = f.caller, n+1 {
			at += " < " + f.fn.name
		}
	}
	panic(abortPath{outUnsupported, msg + at})
}

type specAbort struct{}

func (x *Exec) newVar(w uint8) *Term {
	t := x.tt.Var(len(x.pc.vars), w)
	x.pc.vars = append(x.pc.vars, t)
	for len(x.pc.model) < len(x.pc.vars) {
		x.pc.model = append(x.pc.model, 0)
	}
	return t
}

func (x *Exec) record(d dec) { x.decs = append(x.decs, d) }

func (x *Exec) next() (dec, bool) {
	if x.pos < len(x.pre) {
		d := x.pre[x.pos]
		x.pos++
		x.decs = append(x.decs, d)
		return d, true
	}
	return dec{}, false
}

func (x *Exec) pushPending(d dec, model []uint64) {
	p := make([]dec, len(x.decs)+1)
	copy(p, x.decs)
	p[len(x.decs)] = d
	x.forks++
	if forkSites != nil {
		forkMu.Lock()
		if x.cur != nil {
			forkSites[fmt.Sprintf("g%d %s", x.cur.id, x.where(x.cur.top))]++
		}
		forkMu.Unlock()
	}
	x.fork(pending{prefix: p, model: append([]uint64{}, model...)})
}

// forkSites counts forks by place, if VX_FORKS is set.
var (
	forkSites map[string]int
	forkMu    sync.Mutex
)

// decide forks on a boolean term and returns the branch taken on this path.
func (x *Exec) decide(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if x.initMode {
		panic("symbolic branch in init")
	}
	if x.spec > 0 {
		// only decidable if forced by domains; otherwise speculation fails
		if x.pc.unary(c) {
			if d := x.pc.dom[c.sup[0]]; d != nil {
				tab := x.tt.TT(c, x.pc.vars[c.sup[0]])
				t, f := false, false
				for i := range d {
					if d[i]&tab[i] != 0 {
						t = true
					}
					if d[i]&^tab[i] != 0 {
						f = true
					}
				}
				if t != f {
					return t
				}
			}
		}
		x.specFail = true
		panic(specAbort{})
	}
	if d, ok := x.next(); ok {
		switch d.k {
		case 0:
			x.pc.Add(x.tt.BNot(c))
			return false
		case 1:
			x.pc.Add(c)
			return true
		case 2:
			return false
		case 3:
			return true
		}
		panic(fmt.Sprintf("decision desync: %v", d))
	}
	nc := x.tt.BNot(c)
	// which side does the current model take?
	cur := x.tt.Eval(c, x.pc.model) != 0
	x.sol.st.ModelHits++
	other, same := nc, c
	if !cur {
		other, same = c, nc
	}
	r, m := x.sol.Check(x.pc, other)
	switch r {
	case 0:
		if cur {
			x.record(dec{k: 3})
		} else {
			x.record(dec{k: 2})
		}
		return cur
	case 1:
		if cur {
			x.pushPending(dec{k: 0}, m)
		} else {
			x.pushPending(dec{k: 1}, m)
		}
	default:
		x.hit["unknown-branch"]++
	}
	x.pc.Add(same)
	if cur {
		x.record(dec{k: 1})
	} else {
		x.record(dec{k: 0})
	}
	return cur
}

// concretize picks a concrete value for t, forking over all feasible values.
func (x *Exec) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if x.spec > 0 {
		x.specFail = true
		panic(specAbort{})
	}
	for n := 0; ; n++ {
		if d, ok := x.next(); ok {
			c := x.tt.Eq(t, x.tt.Const(d.v, t.w))
			switch d.k {
			case 4:
				x.pc.Add(c)
				return d.v
			case 5:
				x.pc.Add(x.tt.BNot(c))
				continue
			case 6: // forced value
				return d.v
			}
			panic("decision desync (concretize)")
		}
		v := x.tt.Eval(t, x.pc.model)
		c := x.tt.Eq(t, x.tt.Const(v, t.w))
		r, m := x.sol.Check(x.pc, x.tt.BNot(c))
		if r == 0 {
			x.record(dec{k: 6, v: v})
			return v
		}
		if r == 1 {
			x.pushPending(dec{k: 5, v: v}, m)
		} else {
			x.hit["unknown-branch"]++
		}
		x.pc.Add(c)
		x.record(dec{k: 4, v: v})
		return v
	}
}

func (x *Exec) cval(v Value, w uint8) uint64 {
	if v.T == nil {
		if _, ok := v.O.(poisonT); ok {
			x.unsupported("poison integer")
		}
		return v.U
	}
	return x.concretize(v.T)
}

func (x *Exec) cintv(v Value) int { return int(int64(x.cval(v, 64))) }

func (x *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if x.spec > 0 {
		x.specFail = true
		panic(specAbort{})
	}
	if d, ok := x.next(); ok {
		if d.k != 6 {
			panic("decision desync (choose)")
		}
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		x.pushPending(dec{k: 6, v: uint64(i)}, x.pc.model)
	}
	x.record(dec{k: 6, v: 0})
	return 0
}

// assume restricts the path; ends it if infeasible.
func (x *Exec) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(abortPath{outAssume, "assume"})
		}
		return
	}
	if d, ok := x.next(); ok {
		if d.k == 3 {
			return
		}
		x.pc.Add(c)
		return
	}
	r, m := x.sol.Check(x.pc, c)
	switch r {
	case 0:
		panic(abortPath{outAssume, "assume"})
	case -1:
		panic(abortPath{outUnknown, "assume"})
	}
	x.pc.model = m
	x.pc.Add(c)
	x.record(dec{k: 1})
}

// assertT checks that c holds for every input on this path.
func (x *Exec) assertT(c *Term, msg, where string) {
	x.sol.st.AssertQueries++
	if c.op == OConst {
		if c.val == 0 {
			x.violate("assert", msg, where, x.pc.model)
			panic(abortPath{outViolation, msg})
		}
		x.sol.st.AssertUnsat++
		return
	}
	if d, ok := x.next(); ok {
		if d.k == 1 {
			x.pc.Add(c)
		}
		return
	}
	nc := x.tt.BNot(c)
	var r int
	var m []uint64
	if x.tt.Eval(nc, x.pc.model) != 0 {
		r, m = 1, x.pc.model
	} else {
		r, m = x.sol.query(x.pc, nc, true)
	}
	switch r {
	case 0:
		x.sol.st.AssertUnsat++
		x.record(dec{k: 3})
		return
	case -1:
		x.hit["unknown-assert: "+msg]++
		x.record(dec{k: 3})
		return
	}
	x.violate("assert", msg, where, m)
	// continue on the part of the path where the assertion holds, if any
	r, m = x.sol.Check(x.pc, c)
	if r != 1 {
		panic(abortPath{outViolation, msg})
	}
	x.pc.model = append([]uint64{}, m...)
	x.pc.Add(c)
	x.record(dec{k: 1})
}

func (x *Exec) violate(kind, msg, where string, model []uint64) {
	x.violations = append(x.violations, Violation{Msg: msg, Kind: kind, Where: where, Inputs: x.inputsUnder(model)})
}

func (x *Exec) inputsUnder(model []uint64) []ReplayVal {
	r := make([]ReplayVal, len(x.inputs))
	for i, in := range x.inputs {
		v := in.v.U
		if in.v.T != nil {
			v = x.tt.Eval(in.v.T, model)
		}
		r[i] = ReplayVal{in.kind, v}
	}
	return r
}

// PathResult is what one completed path reports.
type PathResult struct {
	Out        outcome
	Msg        string
	Where      string
	Violations []Violation
	Inputs     []ReplayVal
	Obs        []string
	Steps      int64
	Covers     []string
}

// RunPath executes entry from the initial state along the given prefix.
func (x *Exec) RunPath(entry *ssa.Function, p pending) (res PathResult) {
	x.undoTrail()
	x.pathNo++
	x.specLog = x.specLog[:0]
	x.pc = NewPathCond(x.tt)
	x.pc.model = append([]uint64{}, p.model...)
	x.decs = x.decs[:0]
	x.pre = p.prefix
	x.pos = 0
	x.inputs = x.inputs[:0]
	x.obs = x.obs[:0]
	x.covers = map[string]bool{}
	x.steps = 0
	x.depth = 0
	x.spec, x.specFail = 0, false
	x.violations = nil
	x.ufs = map[string][]ufApp{}
	x.gs = nil
	x.nextG = 0
	x.preempt = 0
	x.gmark, x.gmaps, x.pools = false, nil, nil
	x.preemptions = 0
	x.mapOrders = false
	x.modelHooks = map[string]Value{}
	x.shared = nil
	x.locks = nil
	x.clock = 0
	x.objs = nil
	x.selectYield = false

	res.Out, res.Msg, res.Where = x.runMain(entry)
	if res.Out == outViolation && len(x.violations) == 0 || (res.Out == outStepLimit || res.Out == outDeadlock) {
		kind := map[outcome]string{outViolation: "panic", outStepLimit: "hang", outDeadlock: "deadlock"}[res.Out]
		x.violate(kind, res.Msg, res.Where, x.pc.model)
	}
	res.Violations = x.violations
	res.Steps = x.steps
	x.totalSteps += x.steps
	if res.Out == outOK {
		res.Inputs = x.inputsUnder(x.pc.model)
		for _, o := range x.obs {
			res.Obs = append(res.Obs, o.label+"="+x.renderObs(o))
		}
	}
	for c := range x.covers {
		res.Covers = append(res.Covers, c)
	}
	sort.Strings(res.Covers)
	return
}

func (x *Exec) renderObs(o obsRec) string {
	ev := func(v Value) uint64 {
		if v.T != nil {
			return x.tt.Eval(v.T, x.pc.model)
		}
		return v.U
	}
	switch o.kind {
	case "bytes", "str":
		var sb strings.Builder
		for _, v := range o.vals {
			fmt.Fprintf(&sb, "%02x", byte(ev(v)))
		}
		return sb.String()
	default:
		return fmt.Sprintf("%d", ev(o.vals[0]))
	}
}

func (x *Exec) typeString(t types.Type) string { return types.TypeString(t, nil) }
