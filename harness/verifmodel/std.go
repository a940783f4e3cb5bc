package verifmodel

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"sync"
)

// ---- fmt.Errorf ----

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

//verif:model fmt.Errorf
func fmtErrorf(format string, a ...interface{}) error {
	var errs []error
	plain := []byte{}
	n := 0
	for i := 0; i < len(format); i++ {
		plain = append(plain, format[i])
		if format[i] != '%' {
			continue
		}
		for i++; i < len(format); i++ {
			c := format[i]
			if c == 'w' {
				plain = append(plain, 'v')
				if n < len(a) {
					if e, ok := a[n].(error); ok {
						errs = append(errs, e)
					}
				}
				n++
				break
			}
			plain = append(plain, c)
			if c == '%' {
				break
			}
			if c == '*' {
				n++
			}
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				n++
				break
			}
		}
	}
	msg := fmt.Sprintf(string(plain), a...)
	switch len(errs) {
	case 0:
		return errors.New(msg)
	case 1:
		return &wrapError{msg, errs[0]}
	}
	return &wrapErrors{msg, errs}
}

// ---- log.Logger ----

type logState struct {
	w      io.Writer
	prefix string
	flags  int
}

var loggers = map[*log.Logger]*logState{}
var stdLogger *log.Logger

func logState_(l *log.Logger) *logState {
	s := loggers[l]
	if s == nil {
		s = &logState{w: os.Stderr, flags: log.LstdFlags}
		loggers[l] = s
	}
	return s
}

//verif:model log.New
func logNew(out io.Writer, prefix string, flag int) *log.Logger {
	l := &log.Logger{}
	loggers[l] = &logState{out, prefix, flag}
	return l
}

//verif:model log.Default
func logDefault() *log.Logger {
	if stdLogger == nil {
		stdLogger = &log.Logger{}
	}
	return stdLogger
}

//verif:model (*log.Logger).SetPrefix
func loggerSetPrefix(l *log.Logger, p string) { logState_(l).prefix = p }

//verif:model (*log.Logger).SetFlags
func loggerSetFlags(l *log.Logger, f int) { logState_(l).flags = f }

//verif:model (*log.Logger).SetOutput
func loggerSetOutput(l *log.Logger, w io.Writer) { logState_(l).w = w }

//verif:model (*log.Logger).Prefix
func loggerPrefix(l *log.Logger) string { return logState_(l).prefix }

//verif:model (*log.Logger).Flags
func loggerFlags(l *log.Logger) int { return logState_(l).flags }

//verif:model (*log.Logger).Writer
func loggerWriter(l *log.Logger) io.Writer { return logState_(l).w }

//verif:model log.SetPrefix
func logSetPrefix(p string) {}

//verif:model log.Prefix
func logPrefix() string { return "" }

//verif:model log.Flags
func logFlags() int { return log.LstdFlags }

//verif:model log.Writer
func logWriter() io.Writer { return os.Stderr }

// emit writes a line to a logger whose output is not the process's.
func emit(l *log.Logger, text func() string) {
	s := logState_(l)
	if _, ok := s.w.(*os.File); ok {
		if Logged != nil {
			Logged(text())
		}
		return
	}
	if s.w == io.Discard {
		return
	}
	t := s.prefix + text()
	if s.flags&log.Lmsgprefix != 0 {
		t = text()
	}
	if len(t) == 0 || t[len(t)-1] != '\n' {
		t += "\n"
	}
	s.w.Write([]byte(t))
}

//verif:model (*log.Logger).Print
func loggerPrint(l *log.Logger, a ...interface{}) {
	emit(l, func() string { return fmt.Sprint(a...) })
}

//verif:model (*log.Logger).Println
func loggerPrintln(l *log.Logger, a ...interface{}) {
	emit(l, func() string { return fmt.Sprintln(a...) })
}

//verif:model (*log.Logger).Printf
func loggerPrintf(l *log.Logger, format string, a ...interface{}) {
	emit(l, func() string { return fmt.Sprintf(format, a...) })
}

//verif:model (*log.Logger).Output
func loggerOutput(l *log.Logger, depth int, s string) error {
	emit(l, func() string { return s })
	return nil
}

//verif:model log.Output
func logOutput(depth int, s string) error {
	if Logged != nil {
		Logged(s)
	}
	return nil
}

//verif:model (*log.Logger).Fatal
func loggerFatal(l *log.Logger, a ...interface{}) { panic("fatal") }

//verif:model (*log.Logger).Fatalf
func loggerFatalf(l *log.Logger, format string, a ...interface{}) { panic("fatal") }

//verif:model (*log.Logger).Fatalln
func loggerFatalln(l *log.Logger, a ...interface{}) { panic("fatal") }

//verif:model (*log.Logger).Panic
func loggerPanic(l *log.Logger, a ...interface{}) { panic(fmt.Sprint(a...)) }

//verif:model (*log.Logger).Panicf
func loggerPanicf(l *log.Logger, format string, a ...interface{}) { panic(fmt.Sprintf(format, a...)) }

//verif:model log.Panic
func logPanic(a ...interface{}) { panic(fmt.Sprint(a...)) }

//verif:model log.Panicf
func logPanicf(format string, a ...interface{}) { panic(fmt.Sprintf(format, a...)) }

//verif:model log.Panicln
func logPanicln(a ...interface{}) { panic(fmt.Sprintln(a...)) }

// ---- sync.Map ----

var maps = map[*sync.Map]map[interface{}]interface{}{}

func smap(m *sync.Map) map[interface{}]interface{} {
	s := maps[m]
	if s == nil {
		s = map[interface{}]interface{}{}
		maps[m] = s
	}
	return s
}

//verif:model (*sync.Map).Load
func smLoad(m *sync.Map, k interface{}) (interface{}, bool) { v, ok := smap(m)[k]; return v, ok }

//verif:model (*sync.Map).Store
func smStore(m *sync.Map, k, v interface{}) { smap(m)[k] = v }

//verif:model (*sync.Map).Swap
func smSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	o, ok := smap(m)[k]
	smap(m)[k] = v
	return o, ok
}

//verif:model (*sync.Map).Clear
func smClear(m *sync.Map) { maps[m] = nil }

//verif:model (*sync.Map).LoadOrStore
func smLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if o, ok := smap(m)[k]; ok {
		return o, true
	}
	smap(m)[k] = v
	return v, false
}

//verif:model (*sync.Map).LoadAndDelete
func smLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	o, ok := smap(m)[k]
	delete(smap(m), k)
	return o, ok
}

//verif:model (*sync.Map).Delete
func smDelete(m *sync.Map, k interface{}) { delete(smap(m), k) }

//verif:model (*sync.Map).CompareAndSwap
func smCAS(m *sync.Map, k, o, n interface{}) bool {
	if v, ok := smap(m)[k]; ok && v == o {
		smap(m)[k] = n
		return true
	}
	return false
}

//verif:model (*sync.Map).CompareAndDelete
func smCAD(m *sync.Map, k, o interface{}) bool {
	if v, ok := smap(m)[k]; ok && v == o {
		delete(smap(m), k)
		return true
	}
	return false
}

//verif:model (*sync.Map).Range
func smRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range smap(m) {
		if !f(k, v) {
			return
		}
	}
}

// ---- sync.Cond ----

var waiters = map[*sync.Cond][]chan struct{}{}

//verif:model (*sync.Cond).Wait
func condWait(c *sync.Cond) {
	ch := make(chan struct{})
	waiters[c] = append(waiters[c], ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

//verif:model (*sync.Cond).Signal
func condSignal(c *sync.Cond) {
	if w := waiters[c]; len(w) > 0 {
		waiters[c] = w[1:]
		close(w[0])
	}
}

//verif:model (*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) {
	w := waiters[c]
	waiters[c] = nil
	for _, ch := range w {
		close(ch)
	}
}

// ---- context ----

type valueCtx struct {
	context.Context
	key, val interface{}
}

func (c *valueCtx) Value(key interface{}) interface{} {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

//verif:model context.WithValue
func withValue(parent context.Context, key, val interface{}) context.Context {
	return &valueCtx{parent, key, val}
}

// ---- internal/godebug: nothing is set ----

//verif:model (*internal/godebug.Setting).Value
func godebugValue(s *byte) string { return "" }

//verif:model (*internal/godebug.Setting).IncNonDefault
func godebugInc(s *byte) {}

//verif:model (net.IP).String
func ipString(ip net.IP) string {
	if len(ip) == 0 {
		return "<nil>"
	}
	if p := ip.To4(); p != nil {
		return fmt.Sprintf("%d.%d.%d.%d", p[0], p[1], p[2], p[3])
	}
	if len(ip) != 16 {
		return fmt.Sprintf("?%x", []byte(ip))
	}
	from, n := -1, 1 // the longest run of zero groups
	for i := 0; i < 8; i++ {
		j := i
		for j < 8 && ip[2*j] == 0 && ip[2*j+1] == 0 {
			j++
		}
		if j-i > n {
			from, n = i, j-i
		}
	}
	s := ""
	for i := 0; i < 8; i++ {
		if i == from {
			s += "::"
			i += n - 1
			continue
		}
		if i > 0 && i != from+n {
			s += ":"
		}
		s += fmt.Sprintf("%x", uint16(ip[2*i])<<8|uint16(ip[2*i+1]))
	}
	return s
}
