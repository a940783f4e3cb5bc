package rtsp

import (
	"errors"
	"net"
	"strconv"
	"strings"

	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifReaders: every way of reading from the connection consumes exactly what it returns, however the stream is cut.
func VerifReaders() {
	n := nd.Param("n", 6)
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.ByteIn("a\n\x00\xff")
	}
	if nd.Param("any", 0) == 1 {
		b = nd.Bytes(n)
	}
	c, err := Dial(vzPlay(vzCut(append([]byte{}, b...), nd.Param("cuts", 1), false)), ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	pos := 0
	line := func(from int) (l int, ok bool) {
		for i := from; i < n; i++ {
			if b[i] == '\n' {
				return i + 1 - from, true
			}
		}
		return 0, false
	}
	for k := nd.Param("ops", 2); k > 0; k-- {
		left := n - pos
		switch nd.Choose(7) {
		case 0:
			s, err := c.ReadLine()
			l, ok := line(pos)
			if !ok {
				nd.Assert(err != nil, "a line without its end is an error")
				nd.Cover("no line")
				return
			}
			nd.Assert(err == nil && nd.EqStr(s, string(b[pos:pos+l])), "a line with its end")
			nd.Cover("line")
			pos += l
		case 1:
			off := nd.Choose(2)
			s, err := c.PeekLine(off)
			if off > left {
				nd.Assert(err != nil, "nothing to peek at")
				return
			}
			l, ok := line(pos + off)
			if !ok {
				nd.Assert(err != nil, "a line without its end is an error")
				continue
			}
			nd.Assert(err == nil && nd.EqStr(s, string(b[pos+off:pos+off+l])), "a line is seen ahead")
			nd.Cover("line ahead")
		case 2:
			v, err := c.ReadUint16()
			if left < 2 {
				nd.Assert(err != nil, "no number without two octets")
				return
			}
			nd.Assert(err == nil && v == uint16(b[pos])<<8|uint16(b[pos+1]), "a number in network byte order")
			pos += 2
		case 3:
			v, err := c.ReadByte()
			if left < 1 {
				nd.Assert(err != nil, "no octet after the last one")
				return
			}
			nd.Assert(err == nil && v == b[pos], "an octet")
			pos++
		case 4:
			m := nd.Choose(4)
			p, err := c.ReadBytes(m)
			if left < m {
				nd.Assert(err != nil, "no more octets than there are")
				continue // nothing is consumed
			}
			nd.Assert(err == nil && nd.EqBytes(p, b[pos:pos+m]), "octets")
			pos += m
		case 5:
			m := nd.Choose(4)
			p, err := c.Peek(m)
			if left < m {
				nd.Assert(err != nil, "no more octets than there are")
				nd.Cover("short")
			} else {
				nd.Assert(err == nil && nd.EqBytes(p, b[pos:pos+m]), "octets are seen ahead")
			}
		case 6:
			m := nd.Choose(4)
			d, err := c.Discard(m)
			if left < m {
				nd.Assert(err != nil && d == left, "no more octets than there are")
				return
			}
			nd.Assert(err == nil && d == m, "octets are skipped")
			pos += m
		}
	}
	p, err := c.ReadBytes(n - pos)
	nd.Assert(err == nil && nd.EqBytes(p, b[pos:]), "the rest of the stream")
	nd.ObserveB("rest", p)
}

// VerifDial: the connection is made to the host and port of the URI, 554 unless given.
func VerifDial() {
	hosts := [...]string{"127.0.0.2", "127.0.0.3", "[::1]"}
	host := hosts[nd.Choose(nd.Param("hosts", 3))]
	port := ""
	if nd.Choose(2) == 1 {
		port = ":" + [...]string{"5", "8554"}[nd.Choose(2)]
		nd.Cover("port")
	}
	user, path := vzAnyParts()
	dialed := ""
	if nd.Symbolic() {
		vzPlay(nil)
		model.ConnDial = func(a string) { dialed = a }
	}
	_, err := Dial("rtsp://"+user+host+port+path, ProtoTCP)
	if !nd.Symbolic() {
		// Nobody is expected to listen there.
		var e *net.OpError
		if errors.As(err, &e) {
			dialed = e.Addr.String()
		}
	}
	if port == "" {
		port = ":554"
	}
	if !nd.Symbolic() && err == nil {
		dialed = host + port // somebody does
	}
	nd.Assert(dialed == host+port, "the connection is made to the host and port of the URI")
	nd.ObserveS("address", dialed)
}

// anyParts returns credentials and path of a URI.
func vzAnyParts() (user, path string) {
	switch nd.Choose(4) {
	case 1:
		user = nd.StrIn(2, vzToken) + "@"
	case 2:
		user = nd.StrIn(1, vzToken)
		user += ":" + nd.StrIn(2, vzToken) + "@"
	case 3:
		user = "a%40b:c%3A%2f@"
	}
	switch nd.Choose(7) {
	case 4:
		path = "/a%2Fb%20c/d%3Fe"
	case 5:
		path = "?c=%26&d=rtsp://x:y@z/;e"
	case 6:
		path = "/s//t/../u:1@2/?"
	case 1:
		path = "/"
	case 2:
		path = "/" + nd.StrIn(2, vzToken)
	case 3:
		path = "/a/b?c=" + nd.StrIn(1, vzToken) + "&d"
	}
	return
}

// VerifBaseURI: requests are for the URI that was given, but without credentials.
func VerifBaseURI() {
	host := strings.TrimSuffix(strings.TrimPrefix(vzPlay(nil), "rtsp://"), "/s")
	user, path := vzAnyParts()
	c, err := Dial("rtsp://"+user+host+path, ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	nd.Assert(nd.EqStr(c.BaseURI, "rtsp://"+host+path), "URI of requests is the one given without credentials")
	nd.ObserveU("length", uint64(len(c.BaseURI)-len(host)))
}

func vzHexValue(c byte) byte {
	return nd.IteU8(c <= '9', c-'0', nd.IteU8(c <= 'F', c-'A'+10, c-'a'+10))
}

// escaped returns text as is and as it is written in a URI.
func vzEscaped(n int) (text, uri string) {
	for i := 0; i < n; i++ {
		switch nd.Choose(3) {
		case 0:
			b := nd.StrIn(1, vzToken)
			text += b
			uri += b
		case 1:
			h := "23456789ABCDEFabcdef"[nd.Choose(nd.Param("high", 4))]
			l := nd.ByteIn(vzHexText)
			text += string([]byte{vzHexValue(h)<<4 | vzHexValue(l)})
			uri += "%" + string([]byte{h, l})
			nd.Cover("escaped")
		case 2:
			b := nd.StrIn(1, "$&+,;=-_.~!*'()")
			text += b
			uri += b
		}
	}
	return
}

// VerifCredentials: user name and password are taken from the URI with escapes decoded and are never sent in it.
func VerifCredentials() {
	v := vzNewScenario(1)
	v.auth = [...]int{vzAuthDigest, vzAuthBasic}[nd.Param("basic", 0)]
	var user, pass string
	v.user, user = vzEscaped(1 + nd.Choose(nd.Param("user", 2)))
	v.pass, pass = vzEscaped(nd.Choose(nd.Param("pass", 3)))
	nd.Assume(!strings.Contains(v.user, ":") || v.auth == vzAuthDigest)
	if v.auth == vzAuthDigest {
		nd.Assume(!strings.ContainsAny(v.user, "\"\\"))
	}
	uri := user
	if pass != "" || nd.Choose(2) == 1 {
		uri += ":" + pass
	} else {
		nd.Cover("no password")
	}
	s, stop := v.open(uri + "@")
	st, ok := vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "session is ready with credentials of the URI")
	stop()
	v.settle()
	nd.Assert(len(v.reqs) > 3, "credentials are used")
	for _, r := range v.reqs {
		nd.Assert(!strings.Contains(r.uri, "@"), "credentials are not in the URI of a request")
	}
	nd.ObserveS("requests", strconv.Itoa(len(v.reqs)))
}
