package main

// Intrinsics: functions without Go bodies (assembly, runtime), functions whose SSA would explode under symbolic
// execution although a branch-free equivalent exists, and the nd API used by the harnesses.

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type intrEnt struct {
	f    intrinsic
	pure bool
}

var intrinsics map[string]intrEnt
var ndIntrinsics map[string]intrEnt

func noopFn(name string) bool {
	switch {
	case strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "(*log.Logger).Print"),
		strings.HasPrefix(name, "fmt.Print"):
		return true
	case name == "(*net.conn).SetWriteDeadline",
		name == "runtime.KeepAlive", name == "runtime.SetFinalizer", name == "runtime.GC", name == "runtime.Gosched":
		return true
	}
	return false
}

func (x *Exec) sliceVals(v Value) []Value {
	s, _ := v.O.(*Slice)
	if s == nil {
		return nil
	}
	return s.a.v[s.off : s.off+s.n]
}

func mkBytes(b []Value) Value {
	return Value{O: &Slice{&Arr{v: b}, 0, len(b), len(b)}}
}

func allConc(bs []Value) bool {
	for _, b := range bs {
		if b.T != nil {
			return false
		}
	}
	return true
}

func goBytes(bs []Value) []byte {
	r := make([]byte, len(bs))
	for i := range bs {
		r[i] = byte(bs[i].U)
	}
	return r
}

func (x *Exec) indexByte(bs []Value, c Value) Value {
	for i := range bs {
		if x.decide(x.tt.Eq(x.term(bs[i], 8), x.term(c, 8))) {
			return cint(uint64(i), 64)
		}
	}
	return cint(^uint64(0), 64)
}

func (x *Exec) lastIndexByte(bs []Value, c Value) Value {
	for i := len(bs) - 1; i >= 0; i-- {
		if x.decide(x.tt.Eq(x.term(bs[i], 8), x.term(c, 8))) {
			return cint(uint64(i), 64)
		}
	}
	return cint(^uint64(0), 64)
}

func (x *Exec) countByte(bs []Value, c Value) Value {
	n := 0
	for i := range bs {
		if x.decide(x.tt.Eq(x.term(bs[i], 8), x.term(c, 8))) {
			n++
		}
	}
	return cint(uint64(n), 64)
}

func (x *Exec) indexSub(h, n []Value) Value {
	if len(n) == 0 {
		return Value{}
	}
	for i := 0; i+len(n) <= len(h); i++ {
		r := x.tt.True
		for j := range n {
			r = x.tt.BAnd(r, x.tt.Eq(x.term(h[i+j], 8), x.term(n[j], 8)))
			if r == x.tt.False {
				break
			}
		}
		if x.decide(r) {
			return cint(uint64(i), 64)
		}
	}
	return cint(^uint64(0), 64)
}

func (x *Exec) asciiAll(bs []Value) bool {
	c := x.tt.True
	for _, b := range bs {
		c = x.tt.BAnd(c, x.tt.Ult(x.term(b, 8), x.tt.Const(0x80, 8)))
	}
	return x.decide(c)
}

// caseMap maps ASCII letters without branching.
func (x *Exec) caseMap(b Value, lo, hi uint64, delta uint64) Value {
	t := x.term(b, 8)
	in := x.tt.BAnd(x.tt.Ule(x.tt.Const(lo, 8), t), x.tt.Ule(t, x.tt.Const(hi, 8)))
	return x.sym(x.tt.Ite(in, x.tt.Add(t, x.tt.Const(delta, 8)), t))
}

func (x *Exec) rawCall(pkg, fn string, args []Value, fr *Frame) Value {
	p := x.P.pkgs[pkg]
	f := p.Func(fn)
	k := &CFn{fn: f, name: f.String() + "#raw", np: len(f.Params)}
	if c, ok := x.rawC[f]; ok {
		k = c
	} else {
		x.rawC[f] = k
	}
	return x.callFn(k, args, nil, fr)
}

func isTokenByte(c byte) bool {
	const s = "!#$%&'*+-.^_`|~"
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte(s, c) >= 0
}

// inSet builds the condition that the byte is a member of the set given by pred.
func (x *Exec) inSet(b Value, pred func(c byte) bool) *Term {
	t := x.term(b, 8)
	r := x.tt.False
	for c := 0; c < 256; {
		if !pred(byte(c)) {
			c++
			continue
		}
		d := c
		for d+1 < 256 && pred(byte(d+1)) {
			d++
		}
		var e *Term
		if c == d {
			e = x.tt.Eq(t, x.tt.Const(uint64(c), 8))
		} else {
			e = x.tt.BAnd(x.tt.Ule(x.tt.Const(uint64(c), 8), t), x.tt.Ule(t, x.tt.Const(uint64(d), 8)))
		}
		r = x.tt.BOr(r, e)
		c = d + 1
	}
	return r
}

// formatDec renders an unsigned value in decimal; symbolic values get fresh digit variables tied by a defining equation.
func (x *Exec) formatDec(t *Term) []Value {
	if isC(t) {
		var r []Value
		for _, c := range []byte(strconv.FormatUint(t.val, 10)) {
			r = append(r, Value{U: uint64(c)})
		}
		return r
	}
	w := t.w
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if w < 64 && p > mask(w) {
			break
		}
		if x.decide(x.tt.Ult(t, x.tt.Const(p, w))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		p *= 10
	}
	v := x.tt.Eval(t, x.pc.model)
	s := strconv.FormatUint(v, 10)
	sum := x.tt.Const(0, w)
	r := make([]Value, nd)
	for i := 0; i < nd; i++ {
		d := x.newVar(8)
		if i < len(s) {
			x.pc.model[len(x.pc.vars)-1] = uint64(s[i])
		}
		lo := uint64('0')
		if i == 0 && nd > 1 {
			lo = '1'
		}
		x.pc.Add(x.tt.BAnd(x.tt.Ule(x.tt.Const(lo, 8), d), x.tt.Ule(d, x.tt.Const('9', 8))))
		dv := x.tt.Sub(d, x.tt.Const('0', 8))
		if w > 8 {
			dv = x.tt.ZExt(dv, w)
		}
		sum = x.tt.Add(x.tt.Mul(sum, x.tt.Const(10, w)), dv)
		r[i] = x.sym(d)
	}
	x.pc.Add(x.tt.Eq(sum, t))
	return r
}

func (x *Exec) formatInt(v Value, w uint8, signed bool) Value {
	if v.T == nil {
		if signed {
			return cstr(strconv.FormatInt(sext(v.U, w), 10))
		}
		return cstr(strconv.FormatUint(v.U, 10))
	}
	if signed && x.decide(x.tt.Slt(v.T, x.tt.Const(0, w))) {
		return mkStr(append([]Value{{U: '-'}}, x.formatDec(x.tt.Neg(v.T))...))
	}
	return mkStr(x.formatDec(v.T))
}

// md5UF applies MD5: concretely when the input is concrete, as an uninterpreted function otherwise.
func (x *Exec) md5UF(in []Value) []Value {
	if x.ufs == nil {
		x.ufs = map[string][]ufApp{}
	}
	key := fmt.Sprintf("md5/%d", len(in))
	it := make([]*Term, len(in))
	for i := range in {
		it[i] = x.term(in[i], 8)
	}
	ev := make([]byte, len(in))
	for i := range it {
		ev[i] = byte(x.tt.Eval(it[i], x.pc.model))
	}
	sum := md5.Sum(ev)
	out := make([]*Term, 16)
	conc := allConc(in)
	for _, a := range x.ufs[key] {
		same := true
		for i := range it {
			if a.in[i] != it[i] {
				same = false
				break
			}
		}
		if same {
			r := make([]Value, 16)
			for i := range r {
				r[i] = x.sym(a.out[i])
			}
			return r
		}
	}
	r := make([]Value, 16)
	for i := range out {
		if conc {
			out[i] = x.tt.Const(uint64(sum[i]), 8)
		} else {
			out[i] = x.newVar(8)
			x.pc.model[len(x.pc.vars)-1] = uint64(sum[i])
		}
		r[i] = x.sym(out[i])
	}
	for _, a := range x.ufs[key] {
		ei, eo := x.tt.True, x.tt.True
		for i := range it {
			ei = x.tt.BAnd(ei, x.tt.Eq(it[i], a.in[i]))
		}
		for i := range out {
			eo = x.tt.BAnd(eo, x.tt.Eq(out[i], a.out[i]))
		}
		x.pc.Add(x.tt.BOr(x.tt.BNot(ei), eo))
	}
	x.ufs[key] = append(x.ufs[key], ufApp{it, out})
	return r
}

func (x *Exec) ifaceStr(v Value) (Value, bool) {
	i, _ := v.O.(*Iface)
	if i == nil {
		return cstr("<nil>"), true
	}
	if isString(i.t) {
		return i.v, true
	}
	return Value{}, false
}

// goVal turns a concrete value of a basic type, or a slice of such, into a Go one for formatting.
func (x *Exec) goVal(t types.Type, v Value) (any, bool) {
	if w, s, ok := intInfo(t); ok {
		if v.T != nil {
			return nil, false
		}
		u := x.cval(v, w)
		if s {
			return sext(u, w), true
		}
		if w == 8 {
			return byte(u), true
		}
		return u, true
	}
	switch {
	case isString(t):
		s, ok := goStr(v)
		return s, ok
	case isBool(t):
		if v.T != nil {
			return nil, false
		}
		return v.U != 0, true
	case isFloat(t):
		return math.Float64frombits(v.U), true
	}
	if el, es, ok := x.elems(t, v); ok {
		if x.textMethod(el) != nil {
			return nil, false
		}
		if ew, _, ok := intInfo(el); ok && ew == 8 {
			if !allConc(es) {
				return nil, false
			}
			return goBytes(es), true
		}
		var r []any
		for _, e := range es {
			g, ok := x.goVal(el, e)
			if !ok {
				return nil, false
			}
			r = append(r, g)
		}
		return r, true
	}
	return nil, false
}

// method finds Error or String of a type.
func (x *Exec) textMethod(t types.Type) *ssa.Function {
	for _, mname := range []string{"Error", "String"} {
		if sel := x.P.prog.MethodSets.MethodSet(t).Lookup(nil, mname); sel != nil {
			if sig, ok := sel.Type().(*types.Signature); !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
				continue
			}
			if f := x.P.prog.MethodValue(sel); f != nil {
				return f
			}
		}
	}
	return nil
}

// elems returns the elements of an array or a slice.
func (x *Exec) elems(t types.Type, v Value) (types.Type, []Value, bool) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem(), x.sliceVals(v), true
	case *types.Array:
		if a, ok := v.O.(*Arr); ok {
			return u.Elem(), a.v, true
		}
	}
	return nil, nil, false
}

// fmtAny formats composite values the way package fmt does.
func (x *Exec) fmtAny(spec string, t types.Type, v Value, depth int, fr *Frame) Value {
	leaf := func(t types.Type, v Value) Value {
		if types.IsInterface(t) {
			if v.O == nil {
				return cstr("<nil>")
			}
			i := v.O.(*Iface)
			t, v = i.t, i.v
		}
		return x.fmtAny(spec, t, v, depth+1, fr)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return x.sprintf(spec, []Value{{O: &Iface{t, v}}}, fr)
	case *types.Struct:
		arr, ok := v.O.(*Arr)
		if !ok {
			break
		}
		out := cstr("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = strConcat(out, cstr(" "))
			}
			f := u.Field(i)
			if spec == "%+v" {
				out = strConcat(out, cstr(f.Name()+":"))
			}
			if f.Exported() {
				out = strConcat(out, x.sprintf(spec, []Value{x.asIface(f.Type(), arr.v[i])}, fr))
			} else {
				out = strConcat(out, leaf(f.Type(), arr.v[i]))
			}
		}
		return strConcat(out, cstr("}"))
	case *types.Pointer:
		p, ok := v.O.(Ptr)
		if !ok {
			return cstr("<nil>")
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return strConcat(cstr("&"), x.fmtAny(spec, u.Elem(), p.a.v[p.i], depth+1, fr))
			}
		}
		return cstr("0xc000012345")
	case *types.Slice, *types.Array:
		el, es, ok := x.elems(t, v)
		if !ok {
			break
		}
		out := cstr("[")
		for i, e := range es {
			if i > 0 {
				out = strConcat(out, cstr(" "))
			}
			out = strConcat(out, x.sprintf(spec, []Value{x.asIface(el, e)}, fr))
		}
		return strConcat(out, cstr("]"))
	case *types.Map:
		m, _ := v.O.(*Map)
		var parts []string
		text := map[string]Value{}
		if m != nil {
			for _, e := range m.ents {
				if !e.live {
					continue
				}
				k, ok := goStr(x.sprintf(spec, []Value{x.asIface(u.Key(), e.k)}, fr))
				if !ok {
					x.unsupported("fmt of a map with symbolic keys")
				}
				parts = append(parts, k)
				text[k] = x.sprintf(spec, []Value{x.asIface(u.Elem(), e.v)}, fr)
			}
		}
		sort.Strings(parts)
		out := cstr("map[")
		for i, k := range parts {
			if i > 0 {
				out = strConcat(out, cstr(" "))
			}
			out = strConcat(strConcat(out, cstr(k+":")), text[k])
		}
		return strConcat(out, cstr("]"))
	case *types.Chan, *types.Signature:
		if v.O == nil {
			return cstr("<nil>")
		}
		return cstr("0xc000012345")
	}
	x.unsupported("fmt " + spec + " of " + t.String())
	return Value{}
}

func (x *Exec) asIface(t types.Type, v Value) Value {
	if types.IsInterface(t) {
		return v
	}
	return Value{O: &Iface{t, v}}
}

// hexDigit is the character of a nibble.
func (x *Exec) hexDigit(t *Term, upper bool) Value {
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	return x.sym(x.tt.Ite(x.tt.Ult(t, x.tt.Const(10, 8)), x.tt.Add(t, x.tt.Const('0', 8)), x.tt.Add(t, x.tt.Const(a, 8))))
}

// fmtStr formats a string.
func (x *Exec) fmtStr(spec string, v Value, fr *Frame) Value {
	if s, ok := goStr(v); ok {
		return cstr(fmt.Sprintf(spec, s))
	}
	verb := spec[len(spec)-1]
	mid := spec[1 : len(spec)-1]
	left := strings.HasPrefix(mid, "-")
	width, err := 0, error(nil)
	if w := strings.TrimPrefix(mid, "-"); w != "" {
		width, err = strconv.Atoi(w)
		if err != nil || w[0] == '0' {
			x.unsupported("fmt " + spec + " on a symbolic string")
		}
	}
	switch verb {
	case 's', 'v':
	case 'q':
		v = x.callFn(x.P.cfn(x.P.pkgs["strconv"].Func("Quote")), []Value{v}, nil, fr)
	case 'x', 'X':
		r := cstr("")
		for _, b := range strBytes(v) {
			t := x.term(b, 8)
			r = strConcat(r, mkStr([]Value{x.hexDigit(x.tt.LShrC(t, 4), verb == 'X'), x.hexDigit(x.tt.And(t, x.tt.Const(15, 8)), verb == 'X')}))
		}
		v = r
	default:
		x.unsupported("fmt " + spec + " on a symbolic string")
	}
	if width > 0 {
		n := x.cintv(x.callFn(x.P.cfn(x.P.pkgs["unicode/utf8"].Func("RuneCountInString")), []Value{v}, nil, fr))
		if n < width {
			pad := cstr(strings.Repeat(" ", width-n))
			if left {
				return strConcat(v, pad)
			}
			return strConcat(pad, v)
		}
	}
	return v
}

func (x *Exec) sprintf(format string, args []Value, fr *Frame) Value {
	out := cstr("")
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			out = strConcat(out, cstr(format[i:i+j]))
			i += j - 1
			continue
		}
		// flags, width and precision; * and [n] are resolved here
		spec := "%"
		j := i + 1
		for j < len(format) && strings.IndexByte("0123456789.+-# *[]", format[j]) >= 0 {
			switch format[j] {
			case '*':
				n := 0
				if ai < len(args) {
					if a, _ := args[ai].O.(*Iface); a != nil {
						n = x.cintv(a.v)
					}
					ai++
				}
				spec += strconv.Itoa(n)
			case '[':
				k := strings.IndexByte(format[j:], ']')
				if k < 0 {
					x.unsupported("format " + format)
				}
				n, err := strconv.Atoi(format[j+1 : j+k])
				if err != nil || n < 1 {
					x.unsupported("format " + format)
				}
				ai = n - 1
				j += k
			default:
				spec += string(format[j])
			}
			j++
		}
		if j >= len(format) {
			out = strConcat(out, cstr("%!(NOVERB)"))
			break
		}
		verb := format[j]
		spec += string(verb)
		i = j
		if verb == '%' {
			out = strConcat(out, cstr("%"))
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, cstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a, _ := args[ai].O.(*Iface)
		ai++
		if a == nil {
			out = strConcat(out, cstr(fmt.Sprintf(spec, nil)))
			continue
		}
		if verb == 'T' {
			out = strConcat(out, cstr(types.TypeString(a.t, func(p *types.Package) string { return p.Name() })))
			continue
		}
		if _, _, isInt := intInfo(a.t); !isInt || verb == 'v' || verb == 's' {
			if f := x.textMethod(a.t); f != nil && strings.IndexByte("vsq", verb) >= 0 {
				r := x.callFn(x.P.cfn(f), []Value{clone(a.v)}, nil, fr)
				out = strConcat(out, x.fmtStr(spec, r, fr))
				continue
			}
		}
		if w, s, ok := intInfo(a.t); ok {
			if a.v.T != nil && (spec == "%d" || spec == "%v") {
				out = strConcat(out, x.formatInt(a.v, w, s))
				continue
			}
			if a.v.T != nil && spec == "%c" && x.decide(x.tt.Ult(a.v.T, x.tt.Const(128, w))) {
				t := a.v.T
				if w > 8 {
					t = x.tt.Extract(t, 0, 8)
				}
				out = strConcat(out, mkStr([]Value{x.sym(t)}))
				continue
			}
			u := x.cval(a.v, w)
			if s {
				out = strConcat(out, cstr(fmt.Sprintf(spec, sext(u, w))))
			} else {
				out = strConcat(out, cstr(fmt.Sprintf(spec, u)))
			}
			continue
		}
		if isString(a.t) {
			out = strConcat(out, x.fmtStr(spec, a.v, fr))
			continue
		}
		if isBool(a.t) {
			out = strConcat(out, cstr(fmt.Sprintf(spec, x.cval(a.v, 0) != 0)))
			continue
		}
		if g, ok := x.goVal(a.t, a.v); ok {
			out = strConcat(out, cstr(fmt.Sprintf(spec, g)))
			continue
		}
		if el, elems, ok := x.elems(a.t, a.v); ok {
			if ew, _, ok := intInfo(el); ok && ew == 8 {
				if verb == 's' || verb == 'q' {
					out = strConcat(out, x.fmtStr(spec, mkStr(append([]Value{}, elems...)), fr))
					continue
				}
				if spec == "%x" || spec == "%X" || spec == "%02x" || spec == "%02X" {
					for _, b := range elems {
						t := x.term(b, 8)
						out = strConcat(out, mkStr([]Value{x.hexDigit(x.tt.LShrC(t, 4), verb == 'X'), x.hexDigit(x.tt.And(t, x.tt.Const(15, 8)), verb == 'X')}))
					}
					continue
				}
			}
		}
		if strings.IndexByte("vsdq", verb) < 0 || len(spec) > 2 && spec != "%+v" {
			x.unsupported("fmt " + spec + " of " + a.t.String())
		}
		out = strConcat(out, x.fmtAny(spec, a.t, a.v, 0, fr))
	}
	return out
}

func lockArr(v Value, x *Exec) *Arr {
	p, ok := v.O.(Ptr)
	if !ok {
		x.nilDeref()
	}
	return p.a.v[p.i].O.(*Arr)
}

// mutexes keep their state in a side table keyed by the lock's storage
type lockState struct {
	locked  bool
	readers int
	writers int   // waiting
	n       int64 // WaitGroup counter
}

func (x *Exec) lock(a *Arr) *lockState {
	if x.locks == nil {
		x.locks = map[*Arr]*lockState{}
	}
	l := x.locks[a]
	if l == nil {
		l = &lockState{}
		x.locks[a] = l
	}
	return l
}

func addrOf(v Value, x *Exec) (a *Arr, i int) {
	switch p := v.O.(type) {
	case Ptr:
		return p.a, p.i
	case nil:
		x.nilDeref()
	}
	x.unsupported(fmt.Sprintf("atomic on %T", v.O))
	return nil, 0
}

func init() {
	_ = unsafe.Sizeof(0)
	I := map[string]intrEnt{}
	intrinsics = I
	add := func(name string, f intrinsic) { I[name] = intrEnt{f: f} }
	pure := func(name string, f intrinsic) { I[name] = intrEnt{f: f, pure: true} }

	// ---- bytealg ----
	pure("internal/bytealg.IndexByte", func(x *Exec, fr *Frame, a []Value) Value { return x.indexByte(x.sliceVals(a[0]), a[1]) })
	pure("internal/bytealg.IndexByteString", func(x *Exec, fr *Frame, a []Value) Value { return x.indexByte(strBytes(a[0]), a[1]) })
	pure("internal/bytealg.LastIndexByte", func(x *Exec, fr *Frame, a []Value) Value { return x.lastIndexByte(x.sliceVals(a[0]), a[1]) })
	pure("internal/bytealg.LastIndexByteString", func(x *Exec, fr *Frame, a []Value) Value { return x.lastIndexByte(strBytes(a[0]), a[1]) })
	pure("internal/bytealg.Count", func(x *Exec, fr *Frame, a []Value) Value { return x.countByte(x.sliceVals(a[0]), a[1]) })
	pure("internal/bytealg.CountString", func(x *Exec, fr *Frame, a []Value) Value { return x.countByte(strBytes(a[0]), a[1]) })
	pure("internal/bytealg.Equal", func(x *Exec, fr *Frame, a []Value) Value {
		return x.sym(x.strEq(mkStr(x.sliceVals(a[0])), mkStr(x.sliceVals(a[1]))))
	})
	pure("bytes.Equal", func(x *Exec, fr *Frame, a []Value) Value {
		return x.sym(x.strEq(mkStr(x.sliceVals(a[0])), mkStr(x.sliceVals(a[1]))))
	})
	pure("bytes.Index", func(x *Exec, fr *Frame, a []Value) Value { return x.indexSub(x.sliceVals(a[0]), x.sliceVals(a[1])) })
	pure("strings.Index", func(x *Exec, fr *Frame, a []Value) Value { return x.indexSub(strBytes(a[0]), strBytes(a[1])) })
	pure("internal/stringslite.Index", func(x *Exec, fr *Frame, a []Value) Value { return x.indexSub(strBytes(a[0]), strBytes(a[1])) })
	pure("internal/bytealg.Index", func(x *Exec, fr *Frame, a []Value) Value { return x.indexSub(x.sliceVals(a[0]), x.sliceVals(a[1])) })
	pure("internal/bytealg.IndexString", func(x *Exec, fr *Frame, a []Value) Value { return x.indexSub(strBytes(a[0]), strBytes(a[1])) })
	cmp := func(x *Exec, p, q Value) Value {
		lt, eq := x.strLess(p, q), x.strEq(p, q)
		return x.sym(x.tt.Ite(lt, x.tt.Const(^uint64(0), 64), x.tt.Ite(eq, x.tt.Const(0, 64), x.tt.Const(1, 64))))
	}
	pure("internal/bytealg.Compare", func(x *Exec, fr *Frame, a []Value) Value {
		return cmp(x, mkStr(x.sliceVals(a[0])), mkStr(x.sliceVals(a[1])))
	})
	pure("internal/bytealg.CompareString", func(x *Exec, fr *Frame, a []Value) Value { return cmp(x, a[0], a[1]) })
	pure("bytes.Compare", func(x *Exec, fr *Frame, a []Value) Value {
		return cmp(x, mkStr(x.sliceVals(a[0])), mkStr(x.sliceVals(a[1])))
	})
	add("internal/bytealg.MakeNoZero", func(x *Exec, fr *Frame, a []Value) Value {
		n := int(x.allocLen(a[0], types.Typ[types.Int], 1, fr))
		c := growCap(0, n, 1)
		return Value{O: &Slice{&Arr{v: make([]Value, c)}, 0, n, c}}
	})
	pure("internal/abi.NoEscape", func(x *Exec, fr *Frame, a []Value) Value { return a[0] })
	pure("internal/abi.Escape", func(x *Exec, fr *Frame, a []Value) Value { return a[0] })
	pure("strings.noescape", func(x *Exec, fr *Frame, a []Value) Value { return a[0] })
	pure("internal/stringslite.Clone", func(x *Exec, fr *Frame, a []Value) Value { return a[0] })
	pure("strings.Clone", func(x *Exec, fr *Frame, a []Value) Value { return a[0] })

	// ---- strings, branch free ----
	pure("strings.ToLower", func(x *Exec, fr *Frame, a []Value) Value {
		if s, ok := goStr(a[0]); ok {
			return cstr(strings.ToLower(s))
		}
		b := strBytes(a[0])
		if !x.asciiAll(b) {
			return x.rawCall("strings", "ToLower", a, fr)
		}
		r := make([]Value, len(b))
		for i := range b {
			r[i] = x.caseMap(b[i], 'A', 'Z', 32)
		}
		return mkStr(r)
	})
	pure("strings.ToUpper", func(x *Exec, fr *Frame, a []Value) Value {
		if s, ok := goStr(a[0]); ok {
			return cstr(strings.ToUpper(s))
		}
		b := strBytes(a[0])
		if !x.asciiAll(b) {
			return x.rawCall("strings", "ToUpper", a, fr)
		}
		r := make([]Value, len(b))
		for i := range b {
			r[i] = x.caseMap(b[i], 'a', 'z', 0xE0)
		}
		return mkStr(r)
	})
	pure("net/textproto.CanonicalMIMEHeaderKey", func(x *Exec, fr *Frame, a []Value) Value {
		b := strBytes(a[0])
		ok := x.tt.True
		for i := range b {
			ok = x.tt.BAnd(ok, x.inSet(b[i], isTokenByte))
		}
		if !x.decide(ok) {
			return a[0]
		}
		r := make([]Value, len(b))
		up := x.tt.True
		for i := range b {
			u, l := x.caseMap(b[i], 'a', 'z', 0xE0), x.caseMap(b[i], 'A', 'Z', 32)
			r[i] = x.sym(x.tt.Ite(up, x.term(u, 8), x.term(l, 8)))
			up = x.tt.Eq(x.term(b[i], 8), x.tt.Const('-', 8))
		}
		return mkStr(r)
	})

	// ---- strconv ----
	add("strconv.Itoa", func(x *Exec, fr *Frame, a []Value) Value { return x.formatInt(a[0], 64, true) })
	add("strconv.FormatInt", func(x *Exec, fr *Frame, a []Value) Value {
		if a[0].T == nil && a[1].T == nil {
			return cstr(strconv.FormatInt(int64(a[0].U), int(a[1].U)))
		}
		if a[1].T == nil && a[1].U == 10 {
			return x.formatInt(a[0], 64, true)
		}
		return x.rawCall("strconv", "FormatInt", a, fr)
	})
	add("strconv.FormatUint", func(x *Exec, fr *Frame, a []Value) Value {
		if a[0].T == nil && a[1].T == nil {
			return cstr(strconv.FormatUint(a[0].U, int(a[1].U)))
		}
		if a[1].T == nil && a[1].U == 10 {
			return x.formatInt(a[0], 64, false)
		}
		return x.rawCall("strconv", "FormatUint", a, fr)
	})
	appendDec := func(signed bool) intrinsic {
		return func(x *Exec, fr *Frame, a []Value) Value {
			b := int(x.cintv(a[2]))
			var s Value
			if b == 10 {
				s = x.formatInt(a[1], 64, signed)
			} else if signed {
				s = cstr(strconv.FormatInt(int64(x.cval(a[1], 64)), b))
			} else {
				s = cstr(strconv.FormatUint(x.cval(a[1], 64), b))
			}
			old := x.sliceVals(a[0])
			return mkBytes(append(append([]Value{}, old...), strBytes(s)...))
		}
	}
	add("strconv.AppendInt", appendDec(true))
	add("strconv.AppendUint", appendDec(false))
	add("strconv.FormatFloat", func(x *Exec, fr *Frame, a []Value) Value {
		return cstr(strconv.FormatFloat(math.Float64frombits(a[0].U), byte(x.cval(a[1], 8)), x.cintv(a[2]), x.cintv(a[3])))
	})
	add("strconv.AppendFloat", func(x *Exec, fr *Frame, a []Value) Value {
		s := strconv.FormatFloat(math.Float64frombits(a[1].U), byte(x.cval(a[2], 8)), x.cintv(a[3]), x.cintv(a[4]))
		return mkBytes(append(append([]Value{}, x.sliceVals(a[0])...), strBytes(cstr(s))...))
	})
	add("fmt.Sprintf", func(x *Exec, fr *Frame, a []Value) Value {
		f, ok := goStr(a[0])
		if !ok {
			x.unsupported("symbolic format string")
		}
		return x.sprintf(f, x.sliceVals(a[1]), fr)
	})
	add("fmt.Sprint", func(x *Exec, fr *Frame, a []Value) Value {
		out := cstr("")
		text := true
		for i, v := range x.sliceVals(a[0]) {
			it, _ := v.O.(*Iface)
			str := it != nil && isString(it.t)
			if i > 0 && !str && !text {
				out = strConcat(out, cstr(" "))
			}
			text = str
			out = strConcat(out, x.sprintf("%v", []Value{v}, fr))
		}
		return out
	})
	add("fmt.Sprintln", func(x *Exec, fr *Frame, a []Value) Value {
		out := cstr("")
		for i, v := range x.sliceVals(a[0]) {
			if i > 0 {
				out = strConcat(out, cstr(" "))
			}
			out = strConcat(out, x.sprintf("%v", []Value{v}, fr))
		}
		return strConcat(out, cstr("\n"))
	})

	// ---- math ----
	f1 := func(f func(float64) float64) intrinsic {
		return func(x *Exec, fr *Frame, a []Value) Value {
			return Value{U: math.Float64bits(f(math.Float64frombits(a[0].U)))}
		}
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Round": math.Round, "RoundToEven": math.RoundToEven, "Exp2": math.Exp2} {
		pure("math."+n, f1(f))
	}
	for n, f := range map[string]func(float64, float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod, "Hypot": math.Hypot} {
		f := f
		pure("math."+n, func(x *Exec, fr *Frame, a []Value) Value {
			return Value{U: math.Float64bits(f(math.Float64frombits(a[0].U), math.Float64frombits(a[1].U)))}
		})
	}
	pure("math.Float64bits", func(x *Exec, fr *Frame, a []Value) Value { return a[0] })
	pure("math.Float64frombits", func(x *Exec, fr *Frame, a []Value) Value { return Value{U: x.cval(a[0], 64)} })
	pure("math.Float32bits", func(x *Exec, fr *Frame, a []Value) Value {
		return Value{U: uint64(math.Float32bits(float32(math.Float64frombits(a[0].U))))}
	})
	pure("math.Float32frombits", func(x *Exec, fr *Frame, a []Value) Value {
		return Value{U: math.Float64bits(float64(math.Float32frombits(uint32(x.cval(a[0], 32)))))}
	})

	// ---- sync ----
	add("(*sync.Mutex).Lock", func(x *Exec, fr *Frame, a []Value) Value {
		ar := lockArr(a[0], x)
		l := x.lock(ar)
		if x.preempt > 0 {
			x.preemptPoint(Value{})
		}
		x.block(func() bool { return !l.locked })
		l.locked = true
		return Value{}
	})
	add("(*sync.Mutex).TryLock", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if l.locked {
			return cbool(false)
		}
		l.locked = true
		return cbool(true)
	})
	unlock := func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if !l.locked {
			panic(&tpanic{msg: "fatal error: sync: unlock of unlocked mutex", where: x.where(x.cur.top), v: Value{O: &Iface{types.Typ[types.String], cstr("unlock of unlocked mutex")}}})
		}
		l.locked = false
		if x.preempt > 0 {
			x.preemptPoint(Value{})
		}
		return Value{}
	}
	add("(*sync.Mutex).Unlock", unlock)
	add("(*sync.RWMutex).Lock", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if x.preempt > 0 {
			x.preemptPoint(Value{})
		}
		l.writers++
		x.block(func() bool { return !l.locked && l.readers == 0 })
		l.writers--
		l.locked = true
		return Value{}
	})
	add("(*sync.RWMutex).TryLock", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if l.locked || l.readers > 0 {
			return cbool(false)
		}
		l.locked = true
		return cbool(true)
	})
	add("(*sync.RWMutex).Unlock", unlock)
	// a writer that waits keeps new readers out
	add("(*sync.RWMutex).RLock", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if x.preempt > 0 {
			x.preemptPoint(Value{})
		}
		x.block(func() bool { return !l.locked && l.writers == 0 })
		l.readers++
		return Value{}
	})
	add("(*sync.RWMutex).TryRLock", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if l.locked || l.writers > 0 {
			return cbool(false)
		}
		l.readers++
		return cbool(true)
	})
	add("(*sync.RWMutex).RUnlock", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if l.readers <= 0 {
			panic(&tpanic{msg: "fatal error: sync: RUnlock of unlocked RWMutex", where: x.where(x.cur.top), v: Value{O: &Iface{types.Typ[types.String], cstr("RUnlock of unlocked RWMutex")}}})
		}
		l.readers--
		if x.preempt > 0 {
			x.preemptPoint(Value{})
		}
		return Value{}
	})
	wgAdd := func(x *Exec, a Value, n int64) {
		l := x.lock(lockArr(a, x))
		l.n += n
		if l.n < 0 {
			panic(&tpanic{msg: "panic: sync: negative WaitGroup counter", where: x.where(x.cur.top), v: Value{O: &Iface{types.Typ[types.String], cstr("sync: negative WaitGroup counter")}}})
		}
	}
	add("(*sync.WaitGroup).Add", func(x *Exec, fr *Frame, a []Value) Value {
		wgAdd(x, a[0], int64(x.cval(a[1], 64)))
		return Value{}
	})
	add("(*sync.WaitGroup).Done", func(x *Exec, fr *Frame, a []Value) Value {
		wgAdd(x, a[0], -1)
		return Value{}
	})
	add("(*sync.WaitGroup).Wait", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		x.block(func() bool { return l.n <= 0 })
		return Value{}
	})
	add("(*sync.Once).Do", func(x *Exec, fr *Frame, a []Value) Value {
		l := x.lock(lockArr(a[0], x))
		if x.initMode {
			return Value{}
		}
		if l.n == 0 {
			l.n = 1
			defer func() { l.n = 2 }()
			x.callValue(a[1], nil, fr)
			return Value{}
		}
		x.block(func() bool { return l.n == 2 })
		return Value{}
	})
	// What was put last is got first, as it is on one processor until memory is collected.
	add("(*sync.Pool).Get", func(x *Exec, fr *Frame, a []Value) Value {
		ar := lockArr(a[0], x)
		if x.preempt > 0 {
			x.preemptPoint(Value{})
		}
		if l := x.pools[ar]; len(l) > 0 && !x.initMode {
			if x.spec > 0 {
				panic(specAbort{})
			}
			x.pools[ar] = append([]Value{}, l[:len(l)-1]...)
			return l[len(l)-1]
		}
		nf := ar.v[len(ar.v)-1] // New is the last field
		if nf.O == nil {
			return Value{}
		}
		return x.callValue(nf, nil, fr)
	})
	add("(*sync.Pool).Put", func(x *Exec, fr *Frame, a []Value) Value {
		ar := lockArr(a[0], x)
		if x.initMode || a[1].O == nil {
			return Value{}
		}
		if x.spec > 0 {
			panic(specAbort{})
		}
		if x.pools == nil {
			x.pools = map[*Arr][]Value{}
		}
		x.pools[ar] = append(x.pools[ar], a[1])
		if x.preempt > 0 {
			x.preemptPoint(Value{})
		}
		return Value{}
	})

	// Equal values have the same handle; only the zones of network addresses are made unique.
	uniq, uniqMu := map[string]Ptr{}, sync.Mutex{}
	add("unique.Make", func(x *Exec, fr *Frame, a []Value) Value {
		d, ok := a[0].O.(*Arr)
		if !ok || len(d.v) != 2 || d.v[0].T != nil {
			x.unsupported("unique handle of a symbolic value")
		}
		zone, ok := d.v[1].O.(string)
		if d.v[1].O != nil && !ok {
			x.unsupported("unique handle of a symbolic value")
		}
		key := fmt.Sprint(d.v[0].U, zone)
		uniqMu.Lock()
		defer uniqMu.Unlock()
		p, ok := uniq[key]
		if !ok {
			p = Ptr{&Arr{v: []Value{{O: &Arr{v: append([]Value{}, d.v...)}}}, base: true}, 0}
			uniq[key] = p
		}
		return Value{O: &Arr{v: []Value{{O: p}}}}
	})

	// ---- atomics ----
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, k := range []struct {
			n string
			w uint8
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
			w := k.w
			add(pk+"Load"+k.n, func(x *Exec, fr *Frame, a []Value) Value {
				p, i := addrOf(a[0], x)
				if x.preempt > 0 {
					x.preemptPoint(a[0])
				}
				return p.v[i]
			})
			add(pk+"Store"+k.n, func(x *Exec, fr *Frame, a []Value) Value {
				p, i := addrOf(a[0], x)
				x.setSlot(p, i, a[1])
				return Value{}
			})
			add(pk+"Swap"+k.n, func(x *Exec, fr *Frame, a []Value) Value {
				p, i := addrOf(a[0], x)
				old := p.v[i]
				x.setSlot(p, i, a[1])
				return old
			})
			add(pk+"Add"+k.n, func(x *Exec, fr *Frame, a []Value) Value {
				p, i := addrOf(a[0], x)
				if x.preempt > 0 {
					x.preemptPoint(a[0])
				}
				r := x.sym(x.tt.Add(x.term(p.v[i], w), x.term(a[1], w)))
				x.setSlot(p, i, r)
				return r
			})
			add(pk+"CompareAndSwap"+k.n, func(x *Exec, fr *Frame, a []Value) Value {
				p, i := addrOf(a[0], x)
				var eq bool
				if w == 0 {
					eq = samePtr(p.v[i], a[1])
				} else {
					eq = x.decide(x.tt.Eq(x.term(p.v[i], w), x.term(a[1], w)))
				}
				if eq {
					x.setSlot(p, i, a[2])
				}
				return cbool(eq)
			})
		}
	}
	add("(*sync/atomic.Value).Load", func(x *Exec, fr *Frame, a []Value) Value { return lockArr(a[0], x).v[0] })
	add("(*sync/atomic.Value).Store", func(x *Exec, fr *Frame, a []Value) Value {
		x.setSlot(lockArr(a[0], x), 0, a[1])
		return Value{}
	})

	// ---- time ----
	add("time.Now", func(x *Exec, fr *Frame, a []Value) Value {
		x.clock++
		return Value{O: &Arr{v: []Value{{U: uint64(x.clock % 1e9)}, {U: uint64(63_900_000_000 + x.clock/1e9)}, {}}}}
	})
	add("time.Sleep", func(x *Exec, fr *Frame, a []Value) Value { x.sleep(int64(x.cintv(a[0]))); return Value{} })
	add("time.runtimeNano", func(x *Exec, fr *Frame, a []Value) Value { x.clock++; return Value{U: uint64(x.clock)} })

	add("crypto/rand.Read", func(x *Exec, fr *Frame, a []Value) Value {
		s, _ := a[0].O.(*Slice)
		n := 0
		if s != nil {
			n = s.n
			for i := 0; i < n; i++ {
				x.setSlot(s.a, s.off+i, x.sym(x.newVar(8)))
			}
		}
		return Value{O: Tuple{cint(uint64(n), 64), Value{}}}
	})
	errMethod := func(x *Exec, fr *Frame, e *Iface, name string, args ...Value) (Value, bool) {
		sel := x.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, name)
		if sel == nil {
			return Value{}, false
		}
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() != len(args) || sig.Results().Len() != 1 {
			return Value{}, false
		}
		return x.callFn(x.P.cfn(x.P.prog.MethodValue(sel)), append([]Value{clone(e.v)}, args...), nil, fr), true
	}
	// errWalk visits e and everything it wraps, depth first, as errors.Is and errors.As do
	var errWalk func(x *Exec, fr *Frame, e *Iface, f func(*Iface) bool) bool
	errWalk = func(x *Exec, fr *Frame, e *Iface, f func(*Iface) bool) bool {
		for e != nil {
			if f(e) {
				return true
			}
			r, ok := errMethod(x, fr, e, "Unwrap")
			if !ok {
				return false
			}
			if l, ok := r.O.(*Slice); ok {
				for i := 0; i < l.n; i++ {
					if c, _ := l.a.v[l.off+i].O.(*Iface); errWalk(x, fr, c, f) {
						return true
					}
				}
				return false
			}
			e, _ = r.O.(*Iface)
		}
		return false
	}
	add("errors.Is", func(x *Exec, fr *Frame, a []Value) Value {
		ei, _ := a[0].O.(*Iface)
		ti, _ := a[1].O.(*Iface)
		if ei == nil || ti == nil {
			return cbool(ei == nil && ti == nil)
		}
		return cbool(errWalk(x, fr, ei, func(e *Iface) bool {
			if types.Identical(e.t, ti.t) && types.Comparable(e.t) && x.decide(x.eqVal(e.v, ti.v, e.t)) {
				return true
			}
			r, ok := errMethod(x, fr, e, "Is", a[1])
			return ok && x.decide(x.term(r, 0))
		}))
	})
	add("errors.As", func(x *Exec, fr *Frame, a []Value) Value {
		ei, _ := a[0].O.(*Iface)
		ti, _ := a[1].O.(*Iface)
		if ei == nil {
			return cbool(false)
		}
		var pt *types.Pointer
		if ti != nil {
			pt, _ = ti.t.Underlying().(*types.Pointer)
		}
		if pt == nil {
			x.rtPanic("errors: target must be a non-nil pointer")
		}
		want := pt.Elem()
		return cbool(errWalk(x, fr, ei, func(e *Iface) bool {
			if types.IsInterface(want) {
				if x.P.implements(e.t, want) {
					x.store(ti.v, Value{O: e}, want)
					return true
				}
			} else if types.Identical(e.t, want) {
				x.store(ti.v, clone(e.v), want)
				return true
			}
			r, ok := errMethod(x, fr, e, "As", a[1])
			return ok && x.decide(x.term(r, 0))
		}))
	})

	// ---- nd ----
	N := map[string]intrEnt{}
	ndIntrinsics = N
	nadd := func(name string, f intrinsic) { N[name] = intrEnt{f: f} }
	npure := func(name string, f intrinsic) { N[name] = intrEnt{f: f, pure: true} }
	input := func(x *Exec, kind string, w uint8) Value {
		if x.spec > 0 {
			panic(specAbort{})
		}
		v := x.sym(x.newVar(w))
		x.inputs = append(x.inputs, inputRec{kind, w, v})
		return v
	}
	for _, k := range []struct {
		n string
		w uint8
	}{{"Byte", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Int", 64}, {"Uint", 64}} {
		k := k
		nadd(k.n, func(x *Exec, fr *Frame, a []Value) Value { return input(x, k.n, k.w) })
	}
	nadd("Bool", func(x *Exec, fr *Frame, a []Value) Value { return input(x, "Bool", 0) })
	nadd("Bytes", func(x *Exec, fr *Frame, a []Value) Value {
		n := x.cintv(a[0])
		b := make([]Value, n)
		for i := range b {
			b[i] = input(x, "Byte", 8)
		}
		return mkBytes(b)
	})
	nadd("ByteIn", func(x *Exec, fr *Frame, a []Value) Value {
		set, _ := goStr(a[0])
		v := input(x, "Byte", 8)
		x.assume(x.inSet(v, func(c byte) bool { return strings.IndexByte(set, c) >= 0 }))
		return v
	})
	nadd("StrIn", func(x *Exec, fr *Frame, a []Value) Value {
		n := x.cintv(a[0])
		set, _ := goStr(a[1])
		b := make([]Value, n)
		for i := range b {
			b[i] = input(x, "Byte", 8)
			x.assume(x.inSet(b[i], func(c byte) bool { return strings.IndexByte(set, c) >= 0 }))
		}
		return mkStr(b)
	})
	nadd("StrNotIn", func(x *Exec, fr *Frame, a []Value) Value {
		n := x.cintv(a[0])
		set, _ := goStr(a[1])
		b := make([]Value, n)
		for i := range b {
			b[i] = input(x, "Byte", 8)
			x.assume(x.inSet(b[i], func(c byte) bool { return strings.IndexByte(set, c) < 0 }))
		}
		return mkStr(b)
	})
	nadd("Choose", func(x *Exec, fr *Frame, a []Value) Value {
		n := x.cintv(a[0])
		k := x.choose(n)
		v := cint(uint64(k), 64)
		x.inputs = append(x.inputs, inputRec{"Choose", 64, v})
		return v
	})
	nadd("Range", func(x *Exec, fr *Frame, a []Value) Value {
		v := input(x, "Int", 64)
		lo, hi := x.term(a[0], 64), x.term(a[1], 64)
		x.assume(x.tt.BAnd(x.tt.Sle(lo, x.term(v, 64)), x.tt.Sle(x.term(v, 64), hi)))
		return v
	})
	nadd("Concrete", func(x *Exec, fr *Frame, a []Value) Value { return cint(x.cval(a[0], 64), 64) })
	nadd("Assume", func(x *Exec, fr *Frame, a []Value) Value {
		x.assume(x.term(a[0], 0))
		return Value{}
	})
	nadd("Assert", func(x *Exec, fr *Frame, a []Value) Value {
		msg, ok := goStr(a[1])
		if !ok {
			msg = "assertion"
		}
		x.assertT(x.term(a[0], 0), msg, x.where(x.cur.top))
		return Value{}
	})
	nadd("Cover", func(x *Exec, fr *Frame, a []Value) Value {
		s, _ := goStr(a[0])
		x.covers[s] = true
		return Value{}
	})
	obs := func(kind string) intrinsic {
		return func(x *Exec, fr *Frame, a []Value) Value {
			l, _ := goStr(a[0])
			var vs []Value
			switch kind {
			case "bytes":
				vs = append([]Value{}, x.sliceVals(a[1])...)
			case "str":
				vs = append([]Value{}, strBytes(a[1])...)
			default:
				vs = []Value{a[1]}
			}
			x.obs = append(x.obs, obsRec{l, kind, vs})
			return Value{}
		}
	}
	nadd("ObserveU", obs("u64"))
	nadd("ObserveB", obs("bytes"))
	nadd("ObserveS", obs("str"))
	npure("And", func(x *Exec, fr *Frame, a []Value) Value { return x.sym(x.tt.BAnd(x.term(a[0], 0), x.term(a[1], 0))) })
	npure("Or", func(x *Exec, fr *Frame, a []Value) Value { return x.sym(x.tt.BOr(x.term(a[0], 0), x.term(a[1], 0))) })
	npure("Implies", func(x *Exec, fr *Frame, a []Value) Value {
		return x.sym(x.tt.BOr(x.tt.BNot(x.term(a[0], 0)), x.term(a[1], 0)))
	})
	ite := func(w uint8) intrinsic {
		return func(x *Exec, fr *Frame, a []Value) Value {
			return x.sym(x.tt.Ite(x.term(a[0], 0), x.term(a[1], w), x.term(a[2], w)))
		}
	}
	npure("IteU8", ite(8))
	npure("IteU64", ite(64))
	npure("IteInt", ite(64))
	npure("EqBytes", func(x *Exec, fr *Frame, a []Value) Value {
		return x.sym(x.strEq(mkStr(x.sliceVals(a[0])), mkStr(x.sliceVals(a[1]))))
	})
	npure("EqStr", func(x *Exec, fr *Frame, a []Value) Value { return x.sym(x.strEq(a[0], a[1])) })
	npure("InSet", func(x *Exec, fr *Frame, a []Value) Value {
		set, _ := goStr(a[1])
		return x.sym(x.inSet(a[0], func(c byte) bool { return strings.IndexByte(set, c) >= 0 }))
	})
	npure("Param", func(x *Exec, fr *Frame, a []Value) Value {
		n, _ := goStr(a[0])
		if v, ok := x.params[n]; ok {
			return cint(uint64(int64(v)), 64)
		}
		return a[1]
	})
	npure("Symbolic", func(x *Exec, fr *Frame, a []Value) Value { return cbool(true) })
	nadd("MD5", func(x *Exec, fr *Frame, a []Value) Value {
		r := x.md5UF(x.sliceVals(a[0]))
		return mkBytes(append([]Value{}, r...))
	})
	nadd("MapOrders", func(x *Exec, fr *Frame, a []Value) Value { x.mapOrders = x.cval(a[0], 0) != 0; return Value{} })
	nadd("PreemptGlobals", func(x *Exec, fr *Frame, a []Value) Value {
		x.preempt = x.cintv(a[0])
		x.gmark = x.preempt > 0
		if x.gmaps == nil {
			x.gmaps = map[*Map]bool{}
		}
		return Value{}
	})
	nadd("Preempt", func(x *Exec, fr *Frame, a []Value) Value { x.preempt = x.cintv(a[0]); return Value{} })
	nadd("Yield", func(x *Exec, fr *Frame, a []Value) Value { x.yieldG(); return Value{} })
	nadd("Quiesce", func(x *Exec, fr *Frame, a []Value) Value {
		x.quiesce(20e6)
		return Value{}
	})
	nadd("SelectYield", func(x *Exec, fr *Frame, a []Value) Value { x.selectYield = true; return Value{} })
	nadd("Object", func(x *Exec, fr *Frame, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		if i == nil {
			return cint(0, 64)
		}
		p, ok := i.v.O.(Ptr)
		if !ok || p.a == nil {
			return cint(0, 64)
		}
		o := p.a
		for k := p.i; ; k = 0 {
			if len(o.v) <= k {
				break
			}
			b, ok := o.v[k].O.(*Arr)
			if !ok {
				break
			}
			o = b
		}
		if x.objs == nil {
			x.objs = map[*Arr]int{}
		}
		if x.objs[o] == 0 {
			x.objs[o] = len(x.objs) + 1
		}
		return cint(uint64(x.objs[o]), 64)
	})
	nadd("Share", func(x *Exec, fr *Frame, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		if i != nil {
			if p, ok := i.v.O.(Ptr); ok {
				if x.shared == nil {
					x.shared = map[*Arr]bool{}
				}
				var mark func(a *Arr)
				mark = func(a *Arr) {
					x.shared[a] = true
					for _, e := range a.v {
						if b, ok := e.O.(*Arr); ok {
							mark(b)
						}
					}
				}
				mark(p.a)
			}
		}
		return Value{}
	})
}

var _ = ssa.NewProgram

// ---- encoding/binary of composite values (reflection in the library) ----

func binSize(t types.Type) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr {
			return int(w) / 8, true
		}
		if isBool(t) {
			return 1, true
		}
	case *types.Array:
		n, ok := binSize(u.Elem())
		return n * int(u.Len()), ok
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n, ok := binSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

// binDecode stores the octets into slot i of a.
func (x *Exec) binDecode(t types.Type, a *Arr, i int, b []Value, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		in := a.v[i].O.(*Arr)
		for k := range in.v {
			b = x.binDecode(u.Elem(), in, k, b, big)
		}
		return b
	case *types.Struct:
		in := a.v[i].O.(*Arr)
		for k := 0; k < u.NumFields(); k++ {
			ft := u.Field(k).Type()
			if u.Field(k).Name() == "_" {
				n, _ := binSize(ft)
				b = b[n:]
				continue
			}
			b = x.binDecode(ft, in, k, b, big)
		}
		return b
	}
	n, _ := binSize(t)
	if isBool(t) {
		x.setSlot(a, i, x.sym(x.tt.BNot(x.tt.Eq(x.term(b[0], 8), x.tt.Const(0, 8)))))
		return b[1:]
	}
	var v *Term
	for k := 0; k < n; k++ {
		o := x.term(b[k], 8)
		if !big {
			o = x.term(b[n-1-k], 8)
		}
		if v == nil {
			v = o
		} else {
			v = x.tt.Concat(v, o)
		}
	}
	x.setSlot(a, i, x.sym(v))
	return b[n:]
}

func (x *Exec) binEncode(t types.Type, v Value, out []Value, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		for _, e := range v.O.(*Arr).v {
			out = x.binEncode(u.Elem(), e, out, big)
		}
		return out
	case *types.Struct:
		for k, e := range v.O.(*Arr).v {
			if u.Field(k).Name() == "_" {
				n, _ := binSize(u.Field(k).Type())
				for ; n > 0; n-- {
					out = append(out, Value{})
				}
				continue
			}
			out = x.binEncode(u.Field(k).Type(), e, out, big)
		}
		return out
	}
	n, _ := binSize(t)
	if isBool(t) {
		return append(out, x.sym(x.tt.Ite(x.term(v, 0), x.tt.Const(1, 8), x.tt.Const(0, 8))))
	}
	tm := x.term(v, uint8(n*8))
	for k := 0; k < n; k++ {
		lo := 8 * (n - 1 - k)
		if !big {
			lo = 8 * k
		}
		if n == 1 {
			out = append(out, x.sym(tm))
		} else {
			out = append(out, x.sym(x.tt.Extract(tm, uint8(lo), 8)))
		}
	}
	return out
}

// binData tells whether data needs reflection and gives its elements.
func (x *Exec) binData(data Value) (t types.Type, a *Arr, off, n int, ok bool) {
	i, _ := data.O.(*Iface)
	if i == nil {
		return
	}
	composite := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return true
		}
		// a named type of a basic one
		_, basic := t.(*types.Basic)
		return !basic
	}
	switch u := i.t.Underlying().(type) {
	case *types.Pointer:
		p, isp := i.v.O.(Ptr)
		if !isp || !composite(u.Elem()) {
			return
		}
		_, fits := binSize(u.Elem())
		return u.Elem(), p.a, p.i, 1, fits
	case *types.Slice:
		s, _ := i.v.O.(*Slice)
		if s == nil || !composite(u.Elem()) {
			return
		}
		_, fits := binSize(u.Elem())
		return u.Elem(), s.a, s.off, s.n, fits
	case *types.Struct, *types.Array, *types.Basic:
		if !composite(i.t) {
			return
		}
		_, fits := binSize(i.t)
		return i.t, &Arr{v: []Value{i.v}}, 0, 1, fits
	}
	return
}

func bigOrder(v Value) bool {
	i, _ := v.O.(*Iface)
	return i != nil && strings.Contains(strings.ToLower(i.t.String()), "bigendian")
}

// sortSlice is sort.Slice and its variants: an insertion sort that calls less on the slice itself.
func sortSlice(x *Exec, fr *Frame, a []Value) Value {
	i, _ := a[0].O.(*Iface)
	if i == nil {
		return Value{}
	}
	s, _ := i.v.O.(*Slice)
	if s == nil {
		return Value{}
	}
	for k := 1; k < s.n; k++ {
		for j := k; j > 0; j-- {
			r := x.callValue(a[1], []Value{cint(uint64(j), 64), cint(uint64(j-1), 64)}, fr)
			if !x.decide(x.term(r, 0)) {
				break
			}
			p, q := clone(s.a.v[s.off+j]), clone(s.a.v[s.off+j-1])
			x.assign(s.a, s.off+j, q)
			x.assign(s.a, s.off+j-1, p)
		}
	}
	return Value{}
}

func init() {
	intrinsics["sort.Slice"] = intrEnt{f: sortSlice}
	intrinsics["sort.SliceStable"] = intrEnt{f: sortSlice}
	intrinsics["encoding/binary.Size"] = intrEnt{f: func(x *Exec, fr *Frame, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		if i == nil {
			return cint(^uint64(0), 64)
		}
		t, n := i.t, 1
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t, n = u.Elem(), len(x.sliceVals(i.v))
		}
		sz, ok := binSize(t)
		if !ok {
			return cint(^uint64(0), 64)
		}
		return cint(uint64(sz*n), 64)
	}}
	intrinsics["encoding/binary.Read"] = intrEnt{f: func(x *Exec, fr *Frame, a []Value) Value {
		t, arr, off, n, ok := x.binData(a[2])
		if !ok {
			return x.rawCall("encoding/binary", "Read", a, fr)
		}
		sz, _ := binSize(t)
		buf := &Arr{v: make([]Value, sz*n)}
		r := x.callFn(x.P.cfn(x.P.pkgs["io"].Func("ReadFull")), []Value{a[0], {O: &Slice{buf, 0, sz * n, sz * n}}}, nil, fr)
		err := r.O.(Tuple)[1]
		if err.O != nil {
			return err
		}
		b := buf.v
		for k := 0; k < n; k++ {
			b = x.binDecode(t, arr, off+k, b, bigOrder(a[1]))
		}
		return Value{}
	}}
	intrinsics["encoding/binary.Write"] = intrEnt{f: func(x *Exec, fr *Frame, a []Value) Value {
		t, arr, off, n, ok := x.binData(a[2])
		if !ok {
			return x.rawCall("encoding/binary", "Write", a, fr)
		}
		var out []Value
		for k := 0; k < n; k++ {
			out = x.binEncode(t, arr.v[off+k], out, bigOrder(a[1]))
		}
		w := a[0].O.(*Iface)
		sel := x.P.prog.MethodSets.MethodSet(w.t).Lookup(nil, "Write")
		r := x.callFn(x.P.cfn(x.P.prog.MethodValue(sel)), []Value{clone(w.v), mkBytes(out)}, nil, fr)
		return r.O.(Tuple)[1]
	}}
}
