package rtsp

import (
	"errors"
	"net"
	"strconv"
	"strings"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

const (
	vzToken  = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-"
	vzLineTx = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
)

// parsed is a message taken apart by the reference parser.
type vzParsed struct {
	first string
	names []string
	vals  []string
	rest  string
	ok    bool
}

// takeApart is the reference parser: a line, header lines and an empty line, all ending with CRLF.
func vzTakeApart(s string) (m vzParsed) {
	line := func() (l string, ok bool) {
		for i := 0; i+1 < len(s); i++ {
			if s[i] == '\r' && s[i+1] == '\n' {
				l, s = s[:i], s[i+2:]
				return l, true
			}
		}
		return "", false
	}
	var ok bool
	if m.first, ok = line(); !ok {
		return
	}
	for {
		l, ok := line()
		if !ok {
			return
		}
		if l == "" {
			break
		}
		i := 0
		for i < len(l) && l[i] != ':' {
			i++
		}
		if i+1 >= len(l) || l[i+1] != ' ' {
			return
		}
		m.names = append(m.names, l[:i])
		m.vals = append(m.vals, l[i+2:])
	}
	m.rest = s
	m.ok = true
	return
}

// value returns the only value of a header; n is the number of its occurrences.
func (m vzParsed) value(name string) (v string, n int) {
	for i := range m.names {
		if strings.EqualFold(m.names[i], name) {
			v = m.vals[i]
			n++
		}
	}
	return
}

func vzNeedOne(m vzParsed, name, want, msg string) {
	v, n := m.value(name)
	nd.Assert(n == 1, msg+" is sent once")
	nd.Assert(nd.EqStr(v, want), msg)
}

// VerifRequest: a packed request is a well-formed RTSP message with exactly what the request holds.
func VerifRequest() {
	nd.MapOrders(true)
	verbs := [...]string{VerbOptions, VerbDescribe, VerbSetup, VerbPlay, VerbPause, VerbTeardown, VerbGetParameter}
	verb := verbs[nd.Choose(len(verbs))]
	seq := nd.Range(1, nd.Param("seq", 999))
	r := &Request{Verb: verb, Cseq: seq, URI: "rtsp://h/" + nd.StrIn(2, vzToken), Header: make(MessageHeader)}
	if nd.Choose(2) == 1 {
		r.Auth = "Digest " + nd.StrIn(2, vzLineTx)
	}
	if nd.Choose(2) == 1 {
		r.Session = nd.StrIn(2, vzToken)
	}
	type pair struct{ k, v string }
	var hs []pair
	for i := nd.Choose(3); i > 0; i-- {
		k := [...]string{HeaderTransport, HeaderAccept, "x-Test"}[i]
		v := nd.StrIn(nd.Choose(2)*2, vzLineTx)
		r.Header.Set(k, v)
		hs = append(hs, pair{k, v})
		nd.Assert(nd.EqStr(r.Header.Get(strings.ToUpper(k)), v), "headers are found whatever the case")
	}
	keep := verb == VerbOptions && r.Session != "" && nd.Choose(2) == 1
	if keep {
		// Session is kept alive by an explicit header.
		r.Header.Set(HeaderSession, r.Session)
		hs = append(hs, pair{HeaderSession, r.Session})
		nd.Cover("keep-alive")
	}
	m := vzTakeApart(string(r.Pack()))
	nd.Assert(m.ok, "a request is lines, headers and an empty line")
	nd.Assert(m.rest == "", "nothing follows a request")
	nd.Assert(nd.EqStr(m.first, verb+" "+r.URI+" RTSP/1.0"), "request line")
	vzNeedOne(m, "CSeq", strconv.Itoa(seq), "sequence number")
	n := 1
	for _, h := range hs {
		vzNeedOne(m, h.k, h.v, "header")
		n++
	}
	v, k := m.value("Session")
	if verb != VerbSetup && verb != VerbOptions {
		if r.Session != "" {
			vzNeedOne(m, "Session", r.Session, "session identifier")
			nd.Cover("session")
		} else {
			nd.Assert(k == 0, "no session identifier before there is a session")
		}
	} else if k > 0 {
		nd.Assert(k == 1 && r.Session != "" && nd.EqStr(v, r.Session), "session identifier is the one of the session")
	}
	if r.Auth != "" {
		vzNeedOne(m, "Authorization", r.Auth, "credentials")
	} else {
		_, k := m.value("Authorization")
		nd.Assert(k == 0, "no credentials unless asked")
	}
	vzNeedOne(m, "Content-Length", "0", "content length")
	if len(hs) > 1 {
		nd.Cover("two headers")
	}
}

func vzOneOf(a, b string) string {
	if nd.Param("big", 0) == 1 {
		return a
	}
	return [...]string{a, b}[nd.Choose(2)]
}

// VerifResponse: a response comes out as it was sent, however the stream is cut and wherever it pauses, and what follows
// it is left for the next read.
func VerifResponse() {
	code := nd.StrIn(3, vzDecimal)
	reason := vzOneOf(" "+nd.StrIn(2, vzToken), "")
	seq, seqs := vzDigitsOf(nd.Param("seq", 3))
	eol := "\r\n"
	if nd.Param("lf", 1) == 1 {
		eol = vzOneOf("\r\n", "\n")
	}
	size := nd.Choose(nd.Param("body", 3))
	if nd.Param("big", 0) == 1 {
		size = [...]int{2000, 2047, 2048, 2049, 5000, 60000}[nd.Choose(6)]
	}
	body := vzAnyPayload(size)
	val := nd.StrIn(nd.Param("val", 2), vzToken) + nd.StrIn(1, vzLineTx[1:])
	lines := []string{"CSeq:" + vzOneOf(" ", "0") + seqs, vzOneOf("X-Value", "x-vALUE") + ": " + val}
	if size > 0 || vzOneOf("", "0") != "" {
		lines = append(lines, vzOneOf("content-length: 0", "Content-Length: ")+strconv.Itoa(size))
	}
	if vzOneOf("", "swap") != "" {
		lines[0], lines[len(lines)-1] = lines[len(lines)-1], lines[0]
	}
	text := "RTSP/1.0 " + code + reason + eol
	for _, l := range lines {
		text += l + eol
	}
	text += eol
	stream := append([]byte(text), body...)
	tail := append([]byte{'$'}, nd.Bytes(2)...)
	tail = append(tail, '\n')
	stream = append(stream, tail...)
	var chunks [][]byte
	if nd.Param("big", 0) == 1 {
		for len(stream) > 1448 {
			chunks = append(chunks, stream[:1448])
			if nd.Choose(2) == 1 {
				chunks = append(chunks, nil)
			}
			stream = stream[1448:]
			if len(chunks) > 4 {
				break
			}
		}
		chunks = append(chunks, stream)
	} else {
		chunks = vzCut(stream, nd.Param("cuts", 1), nd.Param("pauses", 1) == 1)
	}
	c, err := Dial(vzPlay(chunks), ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	vzImpatient(c)
	var r *Response
	for i := 0; i < 40; i++ {
		if r, err = Unpack(c); err == nil || !vzTimeout(err) {
			break
		}
		nd.Cover("timeout")
	}
	nd.Assert(err == nil, "a well-formed response is accepted")
	nd.Assert(r.StatusCode == int(code[0]-'0')*100+int(code[1]-'0')*10+int(code[2]-'0'), "status code")
	nd.Assert(nd.EqStr(r.Status, code+reason), "status line")
	nd.Assert(r.Cseq == seq, "sequence number")
	nd.Assert(nd.EqStr(r.Header.Get("X-Value"), val), "header value")
	nd.Assert(r.Header.Get("X-Other") == "", "no other headers")
	nd.Assert(int(r.ContentLength) == size, "content length")
	nd.Assert(nd.EqBytes(r.Body, body), "body")
	nd.ObserveU("code", uint64(r.StatusCode))
	nd.ObserveU("seq", uint64(r.Cseq))
	got := []byte(nil)
	for i := 0; i < 40 && len(got) == 0; i++ {
		if b, err := c.ReadBytes(len(tail)); err == nil {
			got = append(got, b...)
		}
	}
	nd.Assert(nd.EqBytes(got, tail), "what follows the response is left for the next read")
	nd.Assert(nd.EqBytes(r.Body, body), "body stays as it is after further reads")
	if size > 0 {
		nd.Cover("body")
	}
}

// VerifResponseAny: what is not an RTSP response is rejected; no stream makes the reader crash or take memory for what
// was not received.
func VerifResponseAny() {
	any := func(n int) string { return nd.StrIn(nd.Choose(n), "RTSP/1.0 2:-+\r\n\x00\xff$") }
	text := ""
	bad := false
	switch nd.Choose(6) {
	case 0:
		text = any(nd.Param("n", 5))
		bad = true
		if nd.Choose(2) == 1 {
			text += " RTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n"
		}
	case 1:
		// Another protocol or version.
		text = nd.StrIn(8, "RTSPHIrtsp/1.02")
		nd.Assume(!nd.EqStr(text, "RTSP/1.0"))
		text += " 200 OK\r\nCSeq: 1\r\n\r\n"
		bad = true
	case 2:
		// Malformed status.
		code := nd.StrIn(nd.Choose(5), "0129 x+-")
		digits := 0
		for i := 0; i < len(code) && code[i] >= '0' && code[i] <= '9'; i++ {
			digits++
		}
		nd.Assume(len(code) == 0 || code[0] != ' ')
		bad = digits != 3 || len(code) > 3 && code[3] != ' '
		text = "RTSP/1.0 " + code + "\r\nCSeq: 1\r\n\r\n"
	case 3:
		// Header without a colon.
		text = "RTSP/1.0 200 OK\r\n" + nd.StrIn(1+nd.Choose(2), vzToken) + "\r\n\r\n"
		bad = true
	case 4:
		// Lengths of bodies that are not there.
		text = "RTSP/1.0 200 OK\r\nContent-Length: " + nd.StrIn(1, "-+1290x") + nd.StrIn(nd.Choose(nd.Param("len", 4)), "0123456789") + vzOneOf("", "00000000000000000") + "\r\n\r\n"
	case 5:
		text = "RTSP/1.0 200 OK\r\nCSeq: 1\r\n" + any(4)
	}
	c, err := Dial(vzPlay([][]byte{[]byte(text)}), ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	r, err := Unpack(c)
	if bad {
		nd.Assert(err != nil, "what is not an RTSP response is rejected")
		nd.Cover("rejected")
	}
	if err == nil {
		nd.Assert(r != nil, "a response is returned")
		nd.Assert(int64(len(r.Body)) == r.ContentLength || r.ContentLength <= 0 && len(r.Body) == 0, "the body is as long as the response says")
		nd.ObserveU("code", uint64(r.StatusCode))
		nd.Cover("accepted")
	}
}

// VerifHeaders: headers are found, replaced and deleted by name whatever its letter case, and others are not touched.
func VerifHeaders() {
	h := make(MessageHeader)
	names := [...]string{"cseq", "x-a", "www-authenticate"}
	want := [...]string{"", "", ""}
	for i := nd.Param("ops", 3); i > 0; i-- {
		k := nd.Choose(nd.Param("names", 2))
		name := vzMixCase(names[k])
		switch nd.Choose(2) {
		case 0:
			v := nd.StrIn(1+nd.Choose(2), vzLineTx[1:])
			h.Set(name, v)
			want[k] = v
		case 1:
			h.Del(name)
			want[k] = ""
			nd.Cover("deleted")
		}
		for j := range names {
			nd.Assert(nd.EqStr(h.Get(names[j]), want[j]), "a header has the value it was given last")
		}
	}
	n := 0
	for k := range want {
		nd.Assert(nd.EqStr(h.Get(vzMixCase(names[k])), want[k]), "a header is found whatever the case")
		if want[k] != "" {
			n++
		}
	}
	nd.Assert(len(h) == n, "there are no other headers")
	var none MessageHeader
	nd.Assert(none.Get(names[0]) == "", "there are no headers in nothing")
}

// VerifResponsePack: reading a packed response gives the same response and leaves nothing behind.
func VerifResponsePack() {
	nd.MapOrders(true)
	r := Response{Proto: "RTSP/1.0", Header: make(MessageHeader)}
	code := nd.StrIn(3, vzDecimal)
	r.StatusCode = int(code[0]-'0')*100 + int(code[1]-'0')*10 + int(code[2]-'0')
	r.Status = code + vzOneOf(" "+nd.StrIn(2, vzToken), "")
	seq, seqs := vzDigitsOf(nd.Param("seq", 2))
	r.Header.Set("CSeq", seqs)
	val := nd.StrIn(2, vzToken)
	if vzOneOf("x", "") != "" {
		r.Header.Set("X-Value", val)
	} else {
		val = ""
	}
	r.Body = nd.Bytes(nd.Choose(nd.Param("body", 3)))
	r.ContentLength = int64(len(r.Body))
	if len(r.Body) > 0 {
		r.Header.Set("Content-Length", strconv.Itoa(len(r.Body)))
		nd.Cover("body")
	}
	b := append(append([]byte{}, r.Pack()...), r.Pack()...)
	c, err := Dial(vzPlay([][]byte{b}), ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	for i := 0; i < 2; i++ {
		q, err := Unpack(c)
		nd.Assert(err == nil, "a packed response is read")
		nd.Assert(nd.EqStr(q.Status, r.Status) && q.Cseq == seq && q.StatusCode == int(code[0]-'0')*100+int(code[1]-'0')*10+int(code[2]-'0'), "status and sequence number")
		nd.Assert(len(q.Header) == len(r.Header) && nd.EqStr(q.Header.Get("x-value"), val), "headers")
		nd.Assert(nd.EqBytes(q.Body, r.Body) && q.ContentLength == r.ContentLength, "body")
		nd.ObserveU("code", uint64(q.StatusCode))
	}
	_, err = c.ReadByte()
	nd.Assert(err != nil, "nothing follows a packed response")
}

func vzTimeout(err error) bool {
	var e net.Error
	return errors.As(err, &e) && e.Timeout()
}
