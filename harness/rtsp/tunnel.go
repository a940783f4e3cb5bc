package rtsp

import (
	"io"
	"log"
	"net"
	"strconv"
	"strings"
	"time"

	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// overheard is a peer which keeps what it is sent and plays chunks once a request is complete.
type vzOverheard struct {
	text string
	dial []string
}

// serve returns the address of the peer; nothing is sent before the request is there.
func (o *vzOverheard) serve(chunks [][]byte) (host string) {
	if nd.Symbolic() {
		vzPlay(chunks)
		read := model.ConnRead
		model.ConnRead = func(p []byte) (int, error) {
			if !strings.Contains(o.text, "\r\n\r\n") {
				return 0, vzTimedOut{}
			}
			return read(p)
		}
		model.ConnWrite = func(p []byte) (int, error) {
			o.text += string(p)
			return len(p), nil
		}
		model.ConnDial = func(a string) { o.dial = append(o.dial, a) }
		return "127.0.0.1:554"
	}
	log.SetOutput(io.Discard)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	o.dial = []string{ln.Addr().String()}
	go func() {
		c, err := ln.Accept()
		ln.Close()
		if err != nil {
			return
		}
		buf := make([]byte, 4096)
		for !strings.Contains(o.text, "\r\n\r\n") {
			n, err := c.Read(buf)
			if err != nil {
				return
			}
			o.text += string(buf[:n])
		}
		for _, b := range chunks {
			time.Sleep(2 * time.Millisecond)
			c.Write(b)
		}
		c.(*net.TCPConn).CloseWrite()
	}()
	return ln.Addr().String()
}

// checkTunnel compares the request which opens a tunnel with what it has to be.
func vzCheckTunnel(text, verb, uri, cookie string) {
	m := vzTakeApart(text)
	nd.Assert(m.ok, "a request is lines, headers and an empty line")
	nd.Assert(m.rest == "", "nothing follows a request")
	nd.Assert(nd.EqStr(m.first, verb+" "+uri+" HTTP/1.0"), "request line")
	if cookie != "" {
		vzNeedOne(m, "x-sessioncookie", cookie, "cookie of the session")
	}
	vzNeedOne(m, "Accept", "application/x-rtsp-tunnelled", "media type")
	vzNeedOne(m, "Pragma", "no-cache", "HTTP/1.0 caches are told to keep out")
	vzNeedOne(m, "Cache-Control", "no-store", "caches are told to keep out")
	v, n := m.value("User-Agent")
	nd.Assert(n == 1 && v != "", "user agent is sent once")
	v, n = m.value("Content-Length")
	if verb == "POST" {
		size, err := strconv.Atoi(v)
		nd.Assert(n == 1 && err == nil && size > 0, "POST has room for commands")
		nd.Cover("post")
	} else {
		nd.Assert(n == 0, "GET has no body")
		nd.Cover("get")
	}
}

// VerifTunnelRequest: requests that open both halves of a tunnel are well-formed and share the cookie.
func VerifTunnelRequest() {
	verb := vzOneOf("GET", "POST")
	uri := "rtsp://" + nd.StrIn(nd.Param("uri", 4), vzLineTx[1:])
	cookie := nd.StrIn(nd.Param("cookie", 4), vzToken)
	vzCheckTunnel(string(ConnectHTTP(verb, uri, cookie)), verb, uri, cookie)
}

// VerifTunnelOpen: opening a tunnel sends one GET, reads exactly the response to it and leaves what follows for the
// RTSP reader; what is not a response is an error.
func VerifTunnelOpen() {
	eol := vzOneOf("\r\n", "\n")
	text, bad := "", false
	switch nd.Choose(1 + nd.Param("bad", 4)) {
	case 0:
		text = "HTTP/1.0 200" + vzOneOf(" "+nd.StrIn(1, vzToken), "") + eol
		for i := nd.Choose(3); i > 0; i-- {
			text += nd.StrIn(1, vzToken) + ":" + vzOneOf(" ", "") + nd.StrIn(nd.Choose(2), vzLineTx[1:]) + eol
			nd.Cover("headers")
		}
		text += eol
	case 1:
		proto := nd.StrIn(8, "HTPSRhttp/1.0")
		nd.Assume(!nd.EqStr(proto, "HTTP/1.0") && !nd.EqStr(proto, "HTTP/1.1"))
		text, bad = proto+" 200 OK"+eol+eol, true
	case 2:
		code := nd.StrIn(nd.Choose(5), "0129 x+-")
		digits := 0
		for i := 0; i < len(code) && code[i] >= '0' && code[i] <= '9'; i++ {
			digits++
		}
		nd.Assume(len(code) == 0 || code[0] != ' ')
		bad = digits != 3 || len(code) > 3 && code[3] != ' '
		nd.Assume(bad)
		text = "HTTP/1.0 " + code + eol + eol
	case 3:
		text, bad = "HTTP/1.0 200 OK"+eol+nd.StrIn(1+nd.Choose(2), vzToken)+eol+eol, true
	case 4:
		// The connection is lost before the end of the response.
		text = "HTTP/1.0 200 OK\r\nA: b\r\n\r\n"
		text, bad = text[:nd.Choose(len(text))], true
	}
	tail := append([]byte{}, '$', nd.Byte(), 0, 1, nd.Byte())
	stream := []byte(text)
	if !bad {
		stream = append(stream, tail...)
	}
	var o vzOverheard
	host := o.serve(vzCut(stream, nd.Param("cuts", 1), false))
	c, err := Dial("rtsp://u:p@"+host+"/s?a=b", ProtoHTTP)
	if bad {
		nd.Assert(err != nil, "what is not a response is an error")
		nd.Cover("rejected")
		return
	}
	nd.Assert(err == nil, "a tunnel is open")
	nd.Assert(len(o.dial) == 1 && o.dial[0] == host, "address of the server")
	vzCheckTunnel(o.text, "GET", "rtsp://"+host+"/s?a=b", "")
	b, err := c.ReadBytes(len(tail))
	nd.Assert(err == nil && nd.EqBytes(b, tail), "what follows the response is left for the next read")
	nd.ObserveS("tail", string(b))
}
