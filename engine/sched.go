package main

// Goroutines, channels, select, mutexes. Exactly one interpreted goroutine runs at a time.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type G struct {
	id     int
	top    *Frame
	resume chan bool // false: killed
	ready  func() bool
	done   bool
	dead   chan struct{}
	recvOn []*Chan
	wake   int64 // when a sleeping goroutine goes on
}

type killG struct{}

type gAbort struct {
	r any
}

func (x *Exec) runMain(entry *ssa.Function) (out outcome, msg, where string) {
	g := &G{id: 0, resume: make(chan bool)}
	x.cur = g
	x.gs = []*G{g}
	x.nextG = 1
	x.abort = nil
	defer func() {
		r := recover()
		// stop every other goroutine
		for _, o := range x.gs[1:] {
			if !o.done {
				o.resume <- false
				<-o.dead
			}
		}
		x.spec = 0
		if r == nil {
			return
		}
		switch e := r.(type) {
		case abortPath:
			out, msg = e.out, e.msg
			if x.cur != nil && x.cur.top != nil {
				where = x.where(x.cur.top)
			}
		case *tpanic:
			out, msg, where = outViolation, "panic: "+strings.TrimPrefix(e.msg, "panic: "), e.where
		case specAbort:
			out, msg = outUnsupported, "speculation escaped"
		default:
			panic(r)
		}
	}()
	x.callFn(x.P.cfn(entry), nil, nil, nil)
	if x.pos < len(x.pre) {
		return outUnsupported, "replay desync: unused decisions", ""
	}
	return outOK, "", ""
}

func (x *Exec) goStart(f Value, args []Value) {
	if x.initMode {
		return
	}
	if x.spec > 0 {
		panic(specAbort{})
	}
	g := &G{id: x.nextG, resume: make(chan bool), dead: make(chan struct{})}
	x.nextG++
	if x.nextG > 256 {
		panic(abortPath{outUnsupported, "more than 256 goroutines"})
	}
	x.gs = append(x.gs, g)
	go func() {
		defer close(g.dead)
		if !<-g.resume {
			g.done = true
			return
		}
		var ab any
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killG); ok {
						g.done = true
						ab = r
						return
					}
					ab = r
				}
			}()
			x.callValue(f, args, nil)
		}()
		if _, ok := ab.(killG); ok {
			return
		}
		g.done = true
		if ab != nil {
			x.abort = ab
			x.cur = x.gs[0]
			x.gs[0].resume <- true
			return
		}
		n := x.pick(g)
		for n == nil && x.advance() {
			n = x.pick(g)
		}
		if n == nil {
			x.abort = abortPath{outDeadlock, x.deadlockMsg()}
			n = x.gs[0]
		}
		x.cur = n
		n.resume <- true
	}()
}

func (x *Exec) deadlockMsg() string { return "all goroutines are asleep - deadlock" }

// pick chooses the next runnable goroutine other than g (round robin).
func (x *Exec) pick(g *G) *G {
	n := len(x.gs)
	start := 0
	for i, o := range x.gs {
		if o == g {
			start = i
		}
	}
	for k := 1; k <= n; k++ {
		o := x.gs[(start+k)%n]
		if o == g || o.done {
			continue
		}
		if o.ready == nil || o.ready() {
			return o
		}
	}
	return nil
}

func (x *Exec) switchTo(n *G) {
	me := x.cur
	x.cur = n
	n.resume <- true
	if !<-me.resume {
		panic(killG{})
	}
	x.cur = me
	if me.id == 0 && x.abort != nil {
		a := x.abort
		x.abort = nil
		panic(a)
	}
}

// block waits until ready() holds, running other goroutines meanwhile.
func (x *Exec) block(ready func() bool) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	me := x.cur
	for !ready() {
		me.ready = ready
		n := x.pick(me)
		if n == nil && x.advance() {
			continue
		}
		if n == nil {
			if me.id == 0 {
				panic(abortPath{outDeadlock, x.deadlockMsg()})
			}
			x.abort = abortPath{outDeadlock, x.deadlockMsg()}
			n = x.gs[0]
		}
		x.switchTo(n)
	}
	me.ready = nil
}

// next returns when the first of the sleeping goroutines wakes up.
func (x *Exec) nextWake() (t int64) {
	for _, g := range x.gs {
		if !g.done && g.wake > 0 && (t == 0 || g.wake < t) {
			t = g.wake
		}
	}
	return
}

// advance lets time pass until a sleeping goroutine wakes up: nothing else can happen.
func (x *Exec) advance() bool {
	t := x.nextWake()
	if t == 0 {
		return false
	}
	if t > x.clock {
		x.clock = t
	}
	return true
}

func (x *Exec) sleep(d int64) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	if d <= 0 {
		x.yieldG()
		return
	}
	me := x.cur
	me.wake = x.clock + d
	x.block(func() bool { return x.clock >= me.wake })
	me.wake = 0
}

// quiesce lets other goroutines run for d until none of them can make progress.
func (x *Exec) quiesce(d int64) {
	end := x.clock + d
	for i := 0; i < 10000; i++ {
		n := x.pick(x.cur)
		if n == nil {
			t := x.nextWake()
			if t == 0 || t > end {
				break
			}
			if t > x.clock {
				x.clock = t
			}
			if x.pick(x.cur) == nil {
				break
			}
			continue
		}
		x.cur.ready = nil
		x.switchTo(n)
	}
	if x.clock < end {
		x.clock = end
	}
}

// yieldG lets every other runnable goroutine make progress once.
func (x *Exec) yieldG() {
	me := x.cur
	me.ready = nil
	if n := x.pick(me); n != nil {
		x.switchTo(n)
	}
}

// preemptPoint explores a context switch before a shared-memory access (bounded number per path).
func (x *Exec) preemptPoint(p Value) {
	if x.spec > 0 {
		panic(specAbort{})
	}
	if x.preemptions >= x.preempt {
		return
	}
	if pp, ok := p.O.(Ptr); ok && pp.a != nil && !x.shared[pp.a] {
		return
	}
	var run []*G
	for _, o := range x.gs {
		if o != x.cur && !o.done && (o.ready == nil || o.ready()) {
			run = append(run, o)
		}
	}
	if len(run) == 0 {
		return
	}
	k := x.choose(len(run) + 1)
	if k == 0 {
		return
	}
	x.preemptions++
	x.switchTo(run[k-1])
}

// ---- channels ----

func (x *Exec) recvReady(c *Chan) bool {
	return c != nil && (len(c.buf) > 0 || len(c.sendq) > 0 || c.closed)
}

func (x *Exec) takeFrom(c *Chan, et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if len(c.sendq) > 0 {
			it := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, it.v)
			it.done = true
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.done = true
		return it.v, true
	}
	return zero(et), false
}

func (x *Exec) chanRecv(cv Value, et types.Type) (Value, bool) {
	c, _ := cv.O.(*Chan)
	if c == nil {
		x.block(func() bool { return false })
	}
	c.recvWaiting++
	x.cur.recvOn = []*Chan{c}
	if x.preempt > 0 {
		x.preemptPoint(Value{})
	}
	x.block(func() bool { return x.recvReady(c) })
	c.recvWaiting--
	return x.takeFrom(c, et)
}

func (x *Exec) chanSend(cv, v Value) {
	c, _ := cv.O.(*Chan)
	if c == nil {
		x.block(func() bool { return false })
	}
	if c.closed {
		x.userPanic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	it := &sendItem{v: v}
	c.sendq = append(c.sendq, it)
	x.block(func() bool { return it.done || c.closed })
	if !it.done {
		x.userPanic("send on closed channel")
	}
}

func (x *Exec) userPanic(msg string) {
	panic(&tpanic{v: Value{O: &Iface{types.Typ[types.String], cstr(msg)}}, msg: msg, where: x.where(x.cur.top)})
}

func (x *Exec) chanClose(cv Value) {
	c, _ := cv.O.(*Chan)
	if c == nil {
		x.userPanic("close of nil channel")
	}
	if c.closed {
		x.userPanic("close of closed channel")
	}
	c.closed = true
}

type selCase struct {
	send bool
	ch   *Chan
	v    Value
	et   types.Type
}

func (x *Exec) caseReady(c *selCase) bool {
	if c.ch == nil {
		return false
	}
	if c.send {
		return c.ch.closed || len(c.ch.buf) < c.ch.cap || c.ch.recvWaiting > len(c.ch.sendq)
	}
	return x.recvReady(c.ch)
}

func (x *Exec) selectOp(cases []selCase, blocking bool) Value {
	any := func() bool {
		for i := range cases {
			if x.caseReady(&cases[i]) {
				return true
			}
		}
		return false
	}
	if !any() && !blocking && len(x.gs) > 1 && x.selectYield {
		x.yieldG()
	}
	chosen := -1
	if any() || blocking {
		if !any() {
			for i := range cases {
				if !cases[i].send && cases[i].ch != nil {
					cases[i].ch.recvWaiting++
				}
			}
			x.block(any)
			for i := range cases {
				if !cases[i].send && cases[i].ch != nil {
					cases[i].ch.recvWaiting--
				}
			}
		}
		var r []int
		for i := range cases {
			if x.caseReady(&cases[i]) {
				r = append(r, i)
			}
		}
		chosen = r[x.choose(len(r))]
	}
	res := Tuple{cint(uint64(int64(chosen)), 64), Value{}}
	for i := range cases {
		c := &cases[i]
		if c.send {
			if i == chosen {
				if c.ch.closed {
					x.userPanic("send on closed channel")
				}
				if len(c.ch.buf) < c.ch.cap {
					c.ch.buf = append(c.ch.buf, c.v)
				} else {
					c.ch.sendq = append(c.ch.sendq, &sendItem{v: c.v})
				}
			}
			continue
		}
		if i == chosen {
			v, ok := x.takeFrom(c.ch, c.et)
			res[1] = cbool(ok)
			res = append(res, v)
		} else {
			res = append(res, zero(c.et))
		}
	}
	return Value{O: res}
}

// ---- range ----

type iter struct {
	m     *Map
	order []*mapEnt
	s     Value
	pos   int
}

func (x *Exec) rangeStart(v Value, t types.Type) Value {
	if isString(t) {
		return Value{O: &iter{s: v}}
	}
	m, _ := v.O.(*Map)
	it := &iter{m: m}
	if m != nil {
		for _, e := range m.ents {
			if e.live {
				it.order = append(it.order, e)
			}
		}
		if x.mapOrders && len(it.order) > 1 && len(it.order) <= 4 {
			for i := 0; i < len(it.order)-1; i++ {
				k := i + x.choose(len(it.order)-i)
				it.order[i], it.order[k] = it.order[k], it.order[i]
			}
		}
	}
	return Value{O: it}
}

func (x *Exec) rangeNext(v Value, isStr bool, tt *types.Tuple) Value {
	it := v.O.(*iter)
	if isStr {
		n := strLen(it.s)
		if it.pos >= n {
			return Value{O: Tuple{cbool(false), Value{}, Value{}}}
		}
		b := make([]Value, 0, 4)
		for i := it.pos; i < n && len(b) < 4; i++ {
			b = append(b, strAt(it.s, i))
		}
		p := it.pos
		r, sz := x.decodeRune(b)
		it.pos += sz
		return Value{O: Tuple{cbool(true), cint(uint64(p), 64), r}}
	}
	for it.pos < len(it.order) {
		e := it.order[it.pos]
		it.pos++
		if e.live {
			return Value{O: Tuple{cbool(true), clone(e.k), clone(e.v)}}
		}
	}
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Value{}
		}
		return zero(t)
	}
	return Value{O: Tuple{cbool(false), z(1), z(2)}}
}

// ---- builtins ----

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need int, esz int64) int {
	nc := need
	if need <= 2*old {
		if old < 256 {
			nc = 2 * old
		} else {
			nc = old
			for nc < need {
				nc += (nc + 3*256) / 4
			}
		}
	}
	if esz <= 0 {
		return nc
	}
	b := int64(nc) * esz
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				return int(c / esz)
			}
		}
	}
	b = (b + 8191) / 8192 * 8192
	return int(b / esz)
}

func (x *Exec) builtin(b *ssa.Builtin, args []Value, fr *Frame, cc *ssa.CallCommon) Value {
	for i := range args {
		if _, ok := args[i].O.(poisonT); ok {
			if x.initMode {
				return args[i]
			}
			x.unsupported("builtin " + b.Name() + " on poison")
		}
	}
	argT := func(i int) types.Type {
		if cc != nil {
			return cc.Args[i].Type()
		}
		return b.Type().(*types.Signature).Params().At(i).Type()
	}
	switch b.Name() {
	case "len":
		switch o := args[0].O.(type) {
		case nil:
			if a, ok := argT(0).Underlying().(*types.Array); ok {
				return cint(uint64(a.Len()), 64)
			}
			return Value{}
		case string, *SStr:
			return cint(uint64(strLen(args[0])), 64)
		case *Slice:
			return cint(uint64(o.n), 64)
		case *Map:
			return cint(uint64(o.n), 64)
		case *Chan:
			return cint(uint64(len(o.buf)), 64)
		case *Arr:
			return cint(uint64(len(o.v)), 64)
		case Ptr:
			return cint(uint64(len(o.a.v[o.i].O.(*Arr).v)), 64)
		}
	case "cap":
		switch o := args[0].O.(type) {
		case nil:
			return Value{}
		case *Slice:
			return cint(uint64(o.cap), 64)
		case *Chan:
			return cint(uint64(o.cap), 64)
		case *Arr:
			return cint(uint64(len(o.v)), 64)
		case Ptr:
			return cint(uint64(len(o.a.v[o.i].O.(*Arr).v)), 64)
		}
	case "append":
		st := argT(0)
		var et types.Type
		if s, ok := st.Underlying().(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = types.Typ[types.Uint8]
		}
		s, _ := args[0].O.(*Slice)
		var add []Value
		switch o := args[1].O.(type) {
		case nil:
		case *Slice:
			add = o.a.v[o.off : o.off+o.n]
		case string, *SStr:
			add = strBytes(args[1])
		}
		if len(add) == 0 {
			return args[0]
		}
		n, cp, off := 0, 0, 0
		if s != nil {
			n, cp, off = s.n, s.cap, s.off
		}
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = clone(add[i])
		}
		agg := isAgg(et)
		if n+len(add) <= cp {
			for i := range tmp {
				if agg {
					x.assign(s.a, off+n+i, tmp[i])
				} else {
					x.setSlot(s.a, off+n+i, tmp[i])
				}
			}
			return Value{O: &Slice{s.a, off, n + len(add), cp}}
		}
		esz := types.SizesFor("gc", "amd64").Sizeof(et)
		nc := growCap(cp, n+len(add), esz)
		if nc < n+len(add) {
			nc = n + len(add)
		}
		x.checkAlloc(int64(nc), max(esz, 1), fr)
		x.allocSeq++
		a := &Arr{v: make([]Value, nc), seq: x.allocSeq}
		for i := 0; i < n; i++ {
			a.v[i] = clone(s.a.v[off+i])
		}
		copy(a.v[n:], tmp)
		if agg {
			for i := n + len(add); i < nc; i++ {
				a.v[i] = zeroSeq(et, x.allocSeq)
			}
		}
		return Value{O: &Slice{a, 0, n + len(add), nc}}
	case "copy":
		d, _ := args[0].O.(*Slice)
		if d == nil {
			return Value{}
		}
		var src []Value
		switch o := args[1].O.(type) {
		case *Slice:
			src = o.a.v[o.off : o.off+o.n]
		case string, *SStr:
			src = strBytes(args[1])
		}
		n := min(d.n, len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = clone(src[i])
		}
		for i := range tmp {
			x.assign(d.a, d.off+i, tmp[i])
		}
		return cint(uint64(n), 64)
	case "delete":
		m, _ := args[0].O.(*Map)
		x.mapDel(m, args[1], argT(0).Underlying().(*types.Map).Key())
		return Value{}
	case "clear":
		switch o := args[0].O.(type) {
		case *Map:
			x.mapTouch(o)
			o.ents, o.idx, o.n = nil, map[string]int{}, 0
		case *Slice:
			et := argT(0).Underlying().(*types.Slice).Elem()
			for i := 0; i < o.n; i++ {
				x.assign(o.a, o.off+i, zero(et))
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "close":
		x.chanClose(args[0])
		return Value{}
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		if fr != nil && fr.caller != nil && fr.caller.pan != nil {
			p := fr.caller.pan
			fr.caller.pan = nil
			fr.caller.recovered = true
			return p.v
		}
		return Value{}
	case "min", "max":
		r := args[0]
		t := argT(0)
		w, signed, ok := intInfo(t)
		if !ok {
			x.unsupported("min/max on " + t.String())
		}
		for _, a := range args[1:] {
			p, q := x.term(r, w), x.term(a, w)
			var lt *Term
			if signed {
				lt = x.tt.Slt(q, p)
			} else {
				lt = x.tt.Ult(q, p)
			}
			if b.Name() == "max" {
				lt = x.tt.BNot(x.tt.BOr(lt, x.tt.Eq(p, q)))
			}
			r = x.sym(x.tt.Ite(lt, q, p))
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].O == nil {
			x.nilDeref()
		}
		return args[0]
	case "SliceData":
		s, _ := args[0].O.(*Slice)
		if s == nil {
			return Value{}
		}
		if s.off >= len(s.a.v) {
			return Value{O: Ptr{s.a, s.off}}
		}
		return Value{O: Ptr{s.a, s.off}}
	case "StringData":
		b := strBytes(args[0])
		return Value{O: Ptr{&Arr{v: append([]Value{}, b...)}, 0}}
	case "String":
		n := x.cintv(args[1])
		if n == 0 {
			return cstr("")
		}
		p := args[0].O.(Ptr)
		return mkStr(append([]Value{}, p.a.v[p.i:p.i+n]...))
	case "Slice":
		n := x.cintv(args[1])
		if args[0].O == nil {
			return Value{}
		}
		p := args[0].O.(Ptr)
		return Value{O: &Slice{p.a, p.i, n, n}}
	}
	x.unsupported(fmt.Sprintf("builtin %s", b.Name()))
	return Value{}
}
