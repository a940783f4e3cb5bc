// Package verifmodel holds Go-level models that replace library functions under symbolic execution.
package verifmodel

import (
	"errors"
	"fmt"
	"hash"
	"io"
	"net"
	"os"
	"time"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

type md5h struct{ buf []byte }

func (m *md5h) Write(p []byte) (int, error) {
	m.buf = append(m.buf, p...)
	return len(p), nil
}
func (m *md5h) WriteString(p string) (int, error) {
	m.buf = append(m.buf, p...)
	return len(p), nil
}
func (m *md5h) Sum(in []byte) []byte { return append(in, nd.MD5(m.buf)...) }
func (m *md5h) Reset()               { m.buf = nil }
func (m *md5h) Size() int            { return 16 }
func (m *md5h) BlockSize() int       { return 64 }

//verif:model crypto/md5.New
func md5New() hash.Hash { return &md5h{} }

//verif:model crypto/md5.Sum
func md5Sum(data []byte) [16]byte {
	var r [16]byte
	copy(r[:], nd.MD5(data))
	return r
}

// ConnRead and ConnWrite, when set, stand for the peer of every TCP connection.
var ConnRead func(p []byte) (int, error)
var ConnWrite func(p []byte) (int, error)

// Closed is set when the TCP connection is closed by the client.
var Closed bool

// The receivers of the following are the first field of any connection.

//verif:model (*net.conn).Read
func connRead(c *byte, p []byte) (int, error) {
	if u := asUDP(c); u != nil {
		return ReadUDP(u, p)
	}
	if q := peers[nd.Object(c)]; q != nil {
		return q.read(p)
	}
	return ConnRead(p)
}

//verif:model (*net.conn).Write
func connWrite(c *byte, p []byte) (int, error) {
	if q := peers[nd.Object(c)]; q != nil {
		return q.write(p)
	}
	return ConnWrite(p)
}

// peer is the other end of a TCP connection: what ConnRead and ConnWrite were when it was made.
type peer struct {
	read, write func(p []byte) (int, error)
}

var peers = map[int]*peer{}

//verif:model (*net.conn).Close
func connClose(c *byte) error {
	if u := asUDP(c); u != nil {
		if CloseUDP != nil {
			return CloseUDP(u)
		}
		return nil
	}
	Closed = true
	return nil
}

// ReadDeadline is the last deadline that was set for reads of a TCP connection.
var ReadDeadline time.Time

//verif:model (*net.conn).SetReadDeadline
func setReadDeadline(c *byte, t time.Time) error {
	if asUDP(c) == nil {
		ReadDeadline = t
	}
	return nil
}

//verif:model (*net.conn).SetDeadline
func setDeadline(c *byte, t time.Time) error { return setReadDeadline(c, t) }

// Timers, on top of goroutines that sleep.

type timer struct {
	gen  int
	live bool
	fire func()
}

var timers = map[*time.Timer]*timer{}
var tickers = map[*time.Ticker]*timer{}

func (t *timer) start(d time.Duration) {
	t.gen++
	t.live = true
	gen := t.gen
	go func() {
		time.Sleep(d)
		if t.live && t.gen == gen {
			t.live = false
			t.fire()
		}
	}()
}

func signal(c chan time.Time) {
	select {
	case c <- time.Now():
	default:
	}
}

//verif:model time.NewTimer
func newTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	timers[t] = &timer{fire: func() { signal(c) }}
	timers[t].start(d)
	return t
}

//verif:model time.After
func after(d time.Duration) <-chan time.Time { return newTimer(d).C }

//verif:model time.AfterFunc
func afterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	timers[t] = &timer{fire: func() { go f() }}
	timers[t].start(d)
	return t
}

func drain(c <-chan time.Time) {
	select {
	case <-c:
	default:
	}
}

//verif:model (*time.Timer).Stop
func timerStop(t *time.Timer) bool {
	m := timers[t]
	was := m.live
	m.live = false
	drain(t.C)
	return was
}

//verif:model (*time.Timer).Reset
func timerReset(t *time.Timer, d time.Duration) bool {
	was := timerStop(t)
	timers[t].start(d)
	return was
}

//verif:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	m := &timer{}
	m.fire = func() {
		signal(c)
		m.start(d)
	}
	tickers[t] = m
	m.start(d)
	return t
}

//verif:model time.Tick
func tick(d time.Duration) <-chan time.Time { return newTicker(d).C }

//verif:model (*time.Ticker).Stop
func tickerStop(t *time.Ticker) { tickers[t].live = false }

// TCP connections are made without a network; ConnRead and ConnWrite are their other end.

//verif:model net.ResolveTCPAddr
func resolveTCP(network, address string) (*net.TCPAddr, error) {
	return &net.TCPAddr{Zone: address}, nil
}

// ConnDial, when set, is told the address of every TCP connection that is made.
var ConnDial func(address string)

//verif:model net.DialTCP
func dialTCP(network string, laddr, raddr *net.TCPAddr) (*net.TCPConn, error) {
	if ConnDial != nil {
		ConnDial(raddr.Zone)
	}
	c := &net.TCPConn{}
	peers[nd.Object(c)] = &peer{ConnRead, ConnWrite}
	return c, nil
}

//verif:model net.Dial
func dial(network, address string) (net.Conn, error) {
	return dialTCP(network, nil, &net.TCPAddr{Zone: address})
}

//verif:model net.DialTimeout
func dialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return dialTCP(network, nil, &net.TCPAddr{Zone: address})
}

//verif:model (*net.Dialer).Dial
func dialerDial(d *net.Dialer, network, address string) (net.Conn, error) {
	return dialTCP(network, nil, &net.TCPAddr{Zone: address})
}

//verif:model (*net.TCPConn).SetNoDelay
func tcpNoDelay(c *net.TCPConn, on bool) error { return nil }

//verif:model (*net.TCPConn).SetKeepAlive
func tcpKeepAlive(c *net.TCPConn, on bool) error { return nil }

//verif:model math/rand.Uint64
func randUint64() uint64 { return 0x0123456789abcdef }

// UDP sockets.
var ListenUDP func(port int) *net.UDPConn
var ReadUDP func(c *net.UDPConn, p []byte) (int, error)
var CloseUDP func(c *net.UDPConn) error

var udps = map[int]*net.UDPConn{}

// asUDP tells which UDP connection begins with c.
func asUDP(c *byte) *net.UDPConn { return udps[nd.Object(c)] }

//verif:model net.ResolveIPAddr
func resolveIP(network, address string) (*net.IPAddr, error) { return &net.IPAddr{}, nil }

//verif:model net.ListenUDP
func listenUDP(network string, laddr *net.UDPAddr) (*net.UDPConn, error) {
	c := ListenUDP(laddr.Port)
	if c == nil {
		return nil, errors.New("address already in use")
	}
	udps[nd.Object(c)] = c
	return c, nil
}

//verif:model (*net.UDPConn).ReadFromUDP
func readFromUDP(c *net.UDPConn, b []byte) (int, *net.UDPAddr, error) {
	n, err := ReadUDP(c, b)
	return n, &net.UDPAddr{}, err
}

//verif:model (*net.UDPConn).ReadFrom
func readFrom(c *net.UDPConn, b []byte) (int, net.Addr, error) {
	n, err := ReadUDP(c, b)
	return n, &net.UDPAddr{}, err
}

//verif:model (*time.Ticker).Reset
func tickerReset(t *time.Ticker, d time.Duration) { tickers[t].start(d) }

func init() {
	if nd.Symbolic() {
		net.ErrClosed = closed{}
	}
}

// closed is the error of using a closed connection.
type closed struct{}

func (closed) Error() string   { return "use of closed network connection" }
func (closed) Timeout() bool   { return false }
func (closed) Temporary() bool { return false }

// Logged, when set, is given what is logged; formatting it is skipped otherwise.
var Logged func(text string)

//verif:model log.Print
func logPrint(a ...interface{}) {
	if Logged != nil {
		Logged(fmt.Sprint(a...))
	}
}

//verif:model log.Println
func logPrintln(a ...interface{}) {
	if Logged != nil {
		Logged(fmt.Sprintln(a...))
	}
}

//verif:model log.Printf
func logPrintf(format string, a ...interface{}) {
	if Logged != nil {
		Logged(fmt.Sprintf(format, a...))
	}
}

// The process ends natively.

//verif:model log.Fatal
func logFatal(a ...interface{}) { panic("fatal") }

//verif:model log.Fatalln
func logFatalln(a ...interface{}) { panic("fatal") }

//verif:model log.Fatalf
func logFatalf(format string, a ...interface{}) { panic("fatal") }

//verif:model os.Exit
func osExit(code int) { panic("exit") }

//verif:model log.SetOutput
func logSetOutput(w io.Writer) {}

//verif:model log.SetFlags
func logSetFlags(flag int) {}

func output(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

//verif:model fmt.Fprint
func fprint(w io.Writer, a ...interface{}) (int, error) { return output(w, fmt.Sprint(a...)) }

//verif:model fmt.Fprintln
func fprintln(w io.Writer, a ...interface{}) (int, error) { return output(w, fmt.Sprintln(a...)) }

//verif:model fmt.Fprintf
func fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return output(w, fmt.Sprintf(format, a...))
}

//verif:model fmt.Append
func fappend(b []byte, a ...interface{}) []byte { return append(b, fmt.Sprint(a...)...) }

//verif:model fmt.Appendln
func fappendln(b []byte, a ...interface{}) []byte { return append(b, fmt.Sprintln(a...)...) }

//verif:model fmt.Appendf
func fappendf(b []byte, format string, a ...interface{}) []byte {
	return append(b, fmt.Sprintf(format, a...)...)
}

// Parallel runs jobs at the same time in goroutines of their own, after each is prepared, and tells whether each
// yields what it yields alone. Natively every job is repeated as often.
func Parallel(k, rounds int, jobs ...func() func() []byte) bool {
	n := len(jobs)
	copies := 1
	want := make([][]byte, n)
	if nd.Symbolic() {
		rounds = 1
	} else {
		// A schedule cannot be replayed; many rounds make the same race likely.
		copies = 3
		for i := range jobs {
			want[i] = jobs[i]()()
		}
	}
	until := time.Now().Add(time.Second)
	got := make([][]byte, n)
	done := make(chan bool, 3*n)
	var ready []func()
	for i := range jobs {
		for c := 0; c < copies; c++ {
			i, job := i, jobs[i]()
			ready = append(ready, func() {
				if nd.Symbolic() {
					got[i] = job()
					done <- true
					return
				}
				ok := true
				for r := 0; r < rounds && ok; r++ {
					ok = string(job()) == string(want[i])
					if r%64 == 63 && time.Now().After(until) {
						break
					}
				}
				done <- ok
			})
		}
	}
	nd.PreemptGlobals(k)
	for i := range ready {
		go ready[i]()
	}
	same := true
	for range ready {
		if !<-done {
			same = false
		}
	}
	nd.PreemptGlobals(0)
	if nd.Symbolic() {
		for i := range jobs {
			same = nd.And(same, nd.EqBytes(got[i], jobs[i]()()))
		}
	}
	return same
}
