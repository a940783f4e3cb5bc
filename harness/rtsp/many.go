package rtsp

import (
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// vzLongText returns n characters of a set with two arbitrary ones at the start, middle or end.
func vzLongText(n, seed int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = set[(i*5+seed)%len(set)]
	}
	copy(b[[...]int{0, n/2 - 1, n - 2}[nd.Choose(3)]:], nd.StrIn(2, set))
	return string(b)
}

// vzSegments cuts a stream into segments, with or without a pause of the server after each.
func vzSegments(stream []byte, size int, pauses bool) (chunks [][]byte) {
	for len(stream) > size {
		chunks = append(chunks, stream[:size])
		if pauses {
			chunks = append(chunks, nil)
		}
		stream = stream[size:]
	}
	return append(chunks, stream)
}

func vzManyHeaders() (names, vals []string) {
	form := nd.Choose(nd.Param("forms", 4))
	n, size := [...]int{5, 40, 3, 12}[form], [...]int{30, 20, nd.Param("long", 20000), 1000}[form]
	at := [...]int{0, n / 2, n - 1}[nd.Choose(3)]
	for i := 0; i < n; i++ {
		names = append(names, "X-Header-"+strconv.Itoa(i))
		if i == at {
			vals = append(vals, vzLongText(size, i, vzToken))
			continue
		}
		b := make([]byte, size)
		for j := range b {
			b[j] = vzToken[(i+j*3)%len(vzToken)]
		}
		vals = append(vals, string(b))
	}
	return
}

// VerifResponseMany: responses with many or long headers, over many segments.
func VerifResponseMany() {
	names, vals := vzManyHeaders()
	seq, seqs := vzDigitsOf([...]int{1, 9}[nd.Choose(2)])
	size := [...]int{0, 3, 700}[nd.Choose(3)]
	body := vzAnyPayload(size)
	text := "RTSP/1.0 200 OK\r\n"
	at := nd.Choose(2) * len(names)
	for i := range names {
		if i == at {
			text += "CSeq: " + seqs + "\r\n"
		}
		text += names[i] + ": " + vals[i] + "\r\n"
	}
	text += "Content-Length: " + strconv.Itoa(size) + "\r\n"
	if at > 0 {
		text += "CSeq: " + seqs + "\r\n"
	}
	stream := append([]byte(text+"\r\n"), body...)
	tail := vzFrame(1, []byte("next"))
	seg := [...]int{1448, 100}[nd.Choose(2)]
	if seg == 100 && len(stream) > 2000 {
		seg = 701
	}
	c, err := Dial(vzPlay(vzSegments(append(stream, tail...), seg, nd.Choose(2) == 1)), ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	vzImpatient(c)
	var r *Response
	for i := 0; i < 400; i++ {
		if r, err = Unpack(c); err == nil || !vzTimeout(err) {
			break
		}
		nd.Cover("timeout")
	}
	nd.Assert(err == nil, "a well-formed response is accepted")
	nd.Assert(r.StatusCode == 200 && r.Cseq == seq && int(r.ContentLength) == size, "status, sequence number and length")
	for i := range names {
		nd.Assert(nd.EqStr(r.Header.Get(names[i]), vals[i]), "header value")
	}
	nd.Assert(len(r.Header) == len(names)+2, "no other headers")
	nd.Assert(nd.EqBytes(r.Body, body), "body")
	b, err := c.ReadBytes(len(tail))
	for i := 0; i < 5 && err != nil; i++ {
		b, err = c.ReadBytes(len(tail))
	}
	nd.Assert(nd.EqBytes(b, tail), "what follows the response is left for the next read")
	nd.ObserveU("seq", uint64(r.Cseq))
	nd.Cover("many headers")
}

// VerifRequestMany: requests with many or long headers and a long address.
func VerifRequestMany() {
	names, vals := vzManyHeaders()
	verb := [...]string{VerbDescribe, VerbPlay, VerbSetup}[nd.Choose(3)]
	seq := [...]int{1, 65536, 99999999}[nd.Choose(3)]
	r := &Request{Verb: verb, Cseq: seq, URI: "rtsp://h/" + vzLongText(1500, 1, vzToken), Auth: "Digest " + vals[0] + vals[1], Session: vals[len(vals)/2], Header: make(MessageHeader)}
	for i := range names {
		r.Header.Set(names[i], vals[i])
	}
	m := vzTakeApart(string(r.Pack()))
	nd.Assert(m.ok && m.rest == "", "a request is lines, headers and an empty line")
	nd.Assert(nd.EqStr(m.first, verb+" "+r.URI+" RTSP/1.0"), "request line")
	vzNeedOne(m, "CSeq", strconv.Itoa(seq), "sequence number")
	for i := range names {
		vzNeedOne(m, names[i], vals[i], "header")
	}
	vzNeedOne(m, "Authorization", r.Auth, "credentials")
	if verb != VerbSetup {
		vzNeedOne(m, "Session", r.Session, "session identifier")
	}
	vzNeedOne(m, "Content-Length", "0", "content length")
	nd.ObserveU("headers", uint64(len(m.names)))
	nd.Cover("many headers")
}

// VerifResponsePackMany: packed responses with many or long headers and long bodies are read back the same.
func VerifResponsePackMany() {
	names, vals := vzManyHeaders()
	body := vzAnyPayload([...]int{9, 256, 5000}[nd.Choose(3)])
	r := Response{Proto: "RTSP/1.0", Status: "200 OK", Header: make(MessageHeader), Body: body, ContentLength: int64(len(body))}
	r.Header.Set("CSeq", "77")
	r.Header.Set("Content-Length", strconv.Itoa(len(body)))
	for i := range names {
		r.Header.Set(names[i], vals[i])
	}
	b := append(append([]byte{}, r.Pack()...), r.Pack()...)
	c, err := Dial(vzPlay([][]byte{b}), ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	for i := 0; i < 2; i++ {
		q, err := Unpack(c)
		nd.Assert(err == nil, "a packed response is read")
		nd.Assert(q.Status == r.Status && q.Cseq == 77 && q.StatusCode == 200 && len(q.Header) == len(r.Header), "status, sequence number and number of headers")
		for j := range names {
			nd.Assert(nd.EqStr(q.Header.Get(names[j]), vals[j]), "headers")
		}
		nd.Assert(nd.EqBytes(q.Body, body) && q.ContentLength == r.ContentLength, "body")
		nd.ObserveU("body", uint64(len(q.Body)))
	}
	_, err = c.ReadByte()
	nd.Assert(err != nil, "nothing follows a packed response")
	nd.Cover("many headers")
}

// VerifDigestLong: credentials with long names, challenges and addresses, whatever the letter case of directives.
func VerifDigestLong() {
	lens := [...]int{3, 16, 64, 300}
	k := nd.Choose(5)
	long := func(i int, set string) string {
		if i == k {
			return vzLongText(lens[nd.Choose(4)], i, set)
		}
		return set[i : i+5+17*i]
	}
	realm, nonce, opaque := long(0, vzQtext), long(1, vzQtext), long(2, vzQtext)
	user, pass := long(3, vzToken[:62]+"_.!~*"), long(4, vzToken[:62]+"_.!~*-()'&=+$,;:#")
	uri := "rtsp://h/" + realm + "?" + nonce
	form := nd.Choose(5)
	challenge := [...]string{`Digest realm="`, `Digest Realm="`, `Digest REALM="`, `Digest rEALm="`, `Basic realm="`}[form] + realm + `",` +
		[...]string{`nonce`, ` Nonce`, ` NONCE`, ` nOnce`, ` x`}[form] + `="` + nonce + `", ` + [...]string{`opaque`, `Opaque`, `OPAQUE`, `opAQUE`, `y`}[form] + `="` + opaque + `"`
	sess := form == 2
	if sess {
		challenge += `, ALGORITHM=md5-SESS, QOP="auth"`
	} else if form == 3 {
		challenge += `, Algorithm=Md5, Qop="AUTH"`
	}
	d, err := NewDigest(uri, challenge)
	nd.Assert(err == nil, "a well-formed challenge is accepted")
	auth := d.Authenticate(user, pass)
	first := ""
	for i := 1; i <= 3; i++ {
		v := auth(VerbSetup, nil)
		if form == 4 {
			nd.Assert(strings.HasPrefix(v, "Basic "), "scheme of the credentials")
			b, ok := vzDecode64(v[len("Basic "):])
			nd.Assert(ok && nd.EqStr(string(b), user+":"+pass), "credentials are user name and password")
			nd.Cover("basic")
			continue
		}
		nd.Assert(strings.HasPrefix(v, "Digest "), "scheme of the credentials")
		m := vzDirectives(v[len("Digest "):])
		nd.Assert(nd.And(nd.EqStr(m["username"], user), nd.EqStr(m["realm"], realm)), "user name and realm are sent as is")
		nd.Assert(nd.And(nd.EqStr(m["nonce"], nonce), nd.EqStr(m["uri"], uri)), "nonce and URI are sent as is")
		nd.Assert(nd.EqStr(m["opaque"], opaque), "opaque is returned")
		a1, a2 := vzRefMD5(user, realm, pass), vzRefMD5(VerbSetup, uri)
		want := vzRefMD5(a1, nonce, a2)
		if form >= 2 {
			nd.Assert(m["nc"] == vzHex8(i), "nonce count is the number of the request")
			if i == 1 {
				first = m["cnonce"]
			}
			if sess {
				a1 = vzRefMD5(a1, nonce, first)
			}
			want = vzRefMD5(a1, nonce, m["nc"], m["cnonce"], "auth", a2)
		}
		nd.Assert(nd.EqStr(m["response"], want), "response is the digest of RFC 2617")
		nd.ObserveU("length", uint64(len(v)))
		nd.Cover("digest")
	}
}

// VerifMediaMany: long media of several feeds of one connection come out unchanged and in order.
func VerifMediaMany() {
	feeds := 1 + nd.Choose(3)
	n := [...]int{10, nd.Param("units", 45)}[nd.Choose(2)]
	at := [...]int{0, n / 2, n - 1}[nd.Choose(3)]
	form := nd.Choose(4)
	big := [...]int{20, 1400}[nd.Choose(2)]
	var stream []byte
	want := make([][]vzMediaUnit, feeds)
	sn := make([]uint16, feeds)
	packets := 0
	for i := 0; i < n; i++ {
		f := (i + i/3) % feeds
		w := vzMediaUnit{head: byte(0x61 + i%3), ts: 0xffffff00 + uint32(40*i), don: uint16(len(want[f]))}
		size := 2 + (i%5)*big/4
		w.data = make([]byte, size)
		for j := range w.data {
			w.data[j] = byte(j*3+i) | 4
		}
		if i == at {
			copy(w.data[size/2-1:], nd.Bytes(2))
			nd.Assume(nd.And(w.data[size/2-1] > 3, w.data[size/2] > 3))
		}
		want[f] = append(want[f], w)
		put := func(payload []byte, mark bool) {
			stream = append(stream, vzFrame(byte(2*f), vzRtpPacket((form+packets)%4, 65530+sn[f], w.ts, mark, payload))...)
			sn[f]++
			packets++
		}
		switch (i + form) % 3 {
		case 0:
			put(append([]byte{w.head}, w.data...), true)
		case 1:
			put(append([]byte{24, byte((size + 1) >> 8), byte(size + 1), w.head}, w.data...), true)
		case 2:
			k := 1 + size/3
			for j := 0; j < size; j += k {
				e, flags := j+k, w.head&31
				if j == 0 {
					flags |= 0x80
				}
				if e >= size {
					e = size
					flags |= 0x40
				}
				put(append([]byte{w.head&0xe0 | 28, flags}, w.data[j:e]...), e == size)
			}
		}
		if i%7 == 3 {
			r := append([]byte{0x80, 200, 0, 6}, make([]byte, 24)...)
			r[27] = byte(packets)
			stream = append(stream, vzFrame(byte(2*f+1), r)...)
			packets++
		}
	}
	s := NewSession()
	nd.Assert(s.Open(vzPlay(vzSegments(stream, 1448, false)), ProtoTCP) == nil, "session is open")
	vzImpatient(s.Conn)
	sinks := make([]*h264.NALSink, feeds)
	for i := range sinks {
		sinks[i] = h264.NewNALSink()
	}
	units := make([][]h264.NALUnit, feeds)
	next := make([]uint16, feeds)
	for i := 0; i < packets; i++ {
		p, ok := vzNextPacket(s.Conn, 200)
		nd.Assert(ok && int(p.Channel) < 2*feeds, "every packet is delivered")
		f := int(p.Channel / 2)
		if p.Channel&1 == 1 {
			r, err := rtcp.Unpack(p.Payload)
			nd.Assert(err == nil && r.DSR != nil, "reports are decoded, in order")
			continue
		}
		q, err := rtp.Unpack(p.Payload)
		nd.Assert(err == nil && q.PT() == 96, "packets are decoded")
		nd.Assert(q.SN == 65530+next[f], "packets of a feed are in order")
		next[f]++
		nd.Assert(sinks[f].Push(q.PL, q.TS) == nil, "payloads are accepted")
		units[f] = append(units[f], sinks[f].Units...)
	}
	for f := range want {
		nd.Assert(len(units[f]) == len(want[f]), "as many units as were sent")
		for i, w := range want[f] {
			u := &units[f][i]
			nd.Assert(u.Header == w.head && nd.EqBytes(u.Data, w.data), "units come out as they were sent, in order")
			nd.Assert(u.TS == w.ts && u.Don == w.don, "timestamp and order of units")
		}
		nd.ObserveU("units", uint64(len(units[f])))
	}
	nd.Cover("many units")
}

// VerifReadersMany: reads of any size and long lines over many segments return exactly the stream.
func VerifReadersMany() {
	b := make([]byte, 30000)
	for i := range b {
		b[i] = byte(i * 11)
		if b[i] == '\n' {
			b[i]++
		}
	}
	ends := []int{0, 1, 80, 4095, 4096, 9000}
	for _, e := range ends {
		b[e] = '\n'
	}
	at := [...]int{3, 4000, 8999, 29990}[nd.Choose(4)]
	v := nd.Byte()
	nd.Assume(v != '\n')
	b[at-1] = v
	b[29999] = '\n'
	seg := [...]int{1448, 100, 4096}[nd.Choose(3)]
	c, err := Dial(vzPlay(vzSegments(append([]byte{}, b...), seg, false)), ProtoTCP)
	nd.Assert(err == nil, "connection is open")
	pos := 0
	for _, e := range ends {
		s, err := c.PeekLine(0)
		nd.Assert(err == nil && nd.EqStr(s, string(b[pos:e+1])), "a line is seen ahead")
		s, err = c.ReadLine()
		nd.Assert(err == nil && nd.EqStr(s, string(b[pos:e+1])), "a line with its end")
		pos = e + 1
	}
	s, err := c.PeekLine(7)
	nd.Assert(err == nil && nd.EqStr(s, string(b[pos+7:])), "a long line is seen ahead")
	for i := 0; pos < 25000; i++ {
		m := [...]int{1, 255, 256, 1448, 5000}[i%5]
		switch i % 3 {
		case 0:
			p, err := c.ReadBytes(m)
			nd.Assert(err == nil && nd.EqBytes(p, b[pos:pos+m]), "octets")
		case 1:
			p, err := c.Peek(m + 1)
			nd.Assert(err == nil && nd.EqBytes(p, b[pos:pos+m+1]), "octets are seen ahead")
			continue
		case 2:
			d, err := c.Discard(m)
			nd.Assert(err == nil && d == m, "octets are skipped")
		}
		pos += m
		w, err := c.ReadUint16()
		nd.Assert(err == nil && w == uint16(b[pos])<<8|uint16(b[pos+1]), "a number in network byte order")
		pos += 2
	}
	p, err := c.ReadBytes(30000 - pos)
	nd.Assert(err == nil && nd.EqBytes(p, b[pos:]), "the rest of the stream")
	nd.ObserveU("at", uint64(pos))
	nd.Cover("many segments")
}
