package rtsp

import (
	"io"
	"log"
	"net"
	"time"

	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// timedOut is what a read from a silent peer ends with.
type vzTimedOut struct{}

func (vzTimedOut) Error() string   { return "i/o timeout" }
func (vzTimedOut) Timeout() bool   { return true }
func (vzTimedOut) Temporary() bool { return true }

const (
	vzNativeTimeout = 40 * time.Millisecond
	vzNativePause   = 130 * time.Millisecond
)

// play makes a peer which sends the chunks and then closes the connection; a nil chunk is a pause longer than
// the timeout of the client. It returns the address to connect to.
func vzPlay(chunks [][]byte) (uri string) {
	if nd.Symbolic() {
		i := 0
		rest := []byte(nil)
		model.ConnRead = func(p []byte) (int, error) {
			if len(rest) == 0 {
				if i == len(chunks) {
					return 0, io.EOF
				}
				rest = chunks[i]
				i++
				if rest == nil {
					return 0, vzTimedOut{}
				}
			}
			n := copy(p, rest)
			rest = rest[n:]
			return n, nil
		}
		model.ConnWrite = func(p []byte) (int, error) { return len(p), nil }
		return "rtsp://127.0.0.1:554/s"
	}
	log.SetOutput(io.Discard)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		c, err := ln.Accept()
		ln.Close()
		if err != nil {
			return
		}
		go io.Copy(io.Discard, c)
		for _, b := range chunks {
			if b == nil {
				time.Sleep(vzNativePause)
				continue
			}
			time.Sleep(2 * time.Millisecond)
			c.Write(b)
		}
		c.(*net.TCPConn).CloseWrite()
	}()
	return "rtsp://" + ln.Addr().String() + "/s"
}

// impatient makes pauses of the peer longer than the timeout.
func vzImpatient(c *Conn) {
	if !nd.Symbolic() {
		c.Timeout = vzNativeTimeout
	}
}

// next returns the next packet, if there is any.
func vzNextPacket(c *Conn, tries int) (p RawPacket, ok bool) {
	for i := 0; i < tries; i++ {
		select {
		case p = <-c.Data:
			return p, true
		default:
		}
		if nd.Symbolic() && i == 2 {
			break
		}
		nd.Quiesce()
	}
	return
}

// cut splits b into chunks at (at most) k places and puts pauses at some of them.
func vzCut(b []byte, k int, pauses bool) (chunks [][]byte) {
	from := 0
	for i := 0; i < k && from < len(b); i++ {
		at := from + 1 + nd.Choose(len(b)-from)
		chunks = append(chunks, b[from:at])
		from = at
		if pauses && from < len(b) && nd.Choose(2) == 1 {
			chunks = append(chunks, nil)
		}
	}
	if from < len(b) {
		chunks = append(chunks, b[from:])
	}
	return
}
