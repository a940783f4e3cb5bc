// Package verifnd is the interface between harnesses and the checker. Under symbolic execution every function here
// is replaced by an intrinsic; compiled natively, inputs are read from a vector (a counterexample or a sampled path).
package verifnd

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type Val struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

type Vector struct {
	Fn     string         `json:"fn"`
	In     []Val          `json:"in"`
	Params map[string]int `json:"params"`
	MS     int            `json:"ms"`
}

type Result struct {
	Idx   int      `json:"idx"`
	Out   string   `json:"out"`
	Msg   string   `json:"msg"`
	Obs   []string `json:"obs"`
	Alloc uint64   `json:"alloc"`
	Stack string   `json:"stack,omitempty"`
}

type state struct {
	in     []Val
	pos    int
	params map[string]int
	obs    []string
}

var cur *state

type stop struct{ out, msg string }

func next(k string) uint64 {
	if cur.pos >= len(cur.in) {
		panic(stop{"desync", "inputs exhausted"})
	}
	v := cur.in[cur.pos]
	cur.pos++
	if v.K != k {
		panic(stop{"desync", "expected " + k + " got " + v.K})
	}
	return v.V
}

func Byte() byte  { return byte(next("Byte")) }
func U16() uint16 { return uint16(next("U16")) }
func U32() uint32 { return uint32(next("U32")) }
func U64() uint64 { return next("U64") }
func I8() int8    { return int8(next("I8")) }
func I16() int16  { return int16(next("I16")) }
func I32() int32  { return int32(next("I32")) }
func I64() int64  { return int64(next("I64")) }
func Int() int    { return int(next("Int")) }
func Uint() uint  { return uint(next("Uint")) }
func Bool() bool  { return next("Bool") != 0 }
func Choose(n int) int {
	if v := int(next("Choose")); v < n {
		return v
	}
	panic(stop{"desync", "choose out of range"})
}

// Bytes returns n unconstrained bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// ByteIn returns a byte that is a member of set.
func ByteIn(set string) byte {
	b := Byte()
	Assume(strings.IndexByte(set, b) >= 0)
	return b
}

// StrIn returns a string of n bytes, each a member of set.
func StrIn(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(set)
	}
	return string(b)
}

// StrNotIn returns a string of n bytes, none of which is a member of set.
func StrNotIn(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
		Assume(strings.IndexByte(set, b[i]) < 0)
	}
	return string(b)
}

// Range returns an integer in [lo, hi].
func Range(lo, hi int) int {
	v := Int()
	Assume(lo <= v && v <= hi)
	return v
}

// Concrete forces the checker to enumerate the values of v.
func Concrete(v int) int { return v }

func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(stop{"assert", msg})
	}
}

func Cover(string) {}

func ObserveU(l string, v uint64) { cur.obs = append(cur.obs, fmt.Sprintf("%s=%d", l, v)) }
func ObserveB(l string, b []byte) { cur.obs = append(cur.obs, l+"="+hex.EncodeToString(b)) }
func ObserveS(l string, s string) { cur.obs = append(cur.obs, l+"="+hex.EncodeToString([]byte(s))) }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool    { return string(a) == string(b) }
func EqStr(a, b string) bool      { return a == b }
func InSet(b byte, s string) bool { return strings.IndexByte(s, b) >= 0 }
func Symbolic() bool              { return false }
func MapOrders(bool)              {}
func Preempt(int)                 {}
func PreemptGlobals(int)          {}
func Yield()                      { runtime.Gosched() }
func Quiesce()                    { time.Sleep(20 * time.Millisecond) }
func SelectYield()                {}
func Share(interface{})           {}

// Object identifies the object p points to or begins with; it is for models only.
func Object(p interface{}) int { panic("model only") }
func MD5([]byte) []byte        { panic("model only") }

func Param(name string, def int) int {
	if v, ok := cur.params[name]; ok {
		return v
	}
	return def
}

// RunAll executes the vectors of the file named by VERIF_VEC, writing one JSON result per line to VERIF_OUT.
func RunAll(hs map[string]func()) {
	raw, err := os.ReadFile(os.Getenv("VERIF_VEC"))
	if err != nil {
		panic(err)
	}
	var vs []Vector
	if err := json.Unmarshal(raw, &vs); err != nil {
		panic(err)
	}
	start, _ := strconv.Atoi(os.Getenv("VERIF_START"))
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	emit := func(r Result) {
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	for i := start; i < len(vs); i++ {
		v := vs[i]
		f := hs[v.Fn]
		if f == nil {
			emit(Result{Idx: i, Out: "desync", Msg: "no harness " + v.Fn})
			continue
		}
		st := &state{in: v.In, params: v.Params}
		cur = st
		done := make(chan Result, 1)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		go func() {
			r := Result{Idx: i, Out: "ok"}
			defer func() {
				if e := recover(); e != nil {
					if s, ok := e.(stop); ok {
						r.Out, r.Msg = s.out, s.msg
					} else {
						r.Out, r.Msg = "panic", fmt.Sprint(e)
						r.Stack = string(debug.Stack())
					}
				}
				r.Obs = st.obs
				done <- r
			}()
			f()
		}()
		ms := v.MS
		if ms == 0 {
			ms = 10000
		}
		select {
		case r := <-done:
			runtime.ReadMemStats(&m1)
			r.Alloc = m1.TotalAlloc - m0.TotalAlloc
			emit(r)
		case <-time.After(time.Duration(ms) * time.Millisecond):
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			emit(Result{Idx: i, Out: "hang", Msg: "no result within the time limit", Stack: string(buf)})
			os.Exit(3)
		}
	}
}
