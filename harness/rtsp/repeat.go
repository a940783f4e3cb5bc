package rtsp

import (
	"strconv"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifRepeatDigest: credentials for several servers, asked for in any order, are those for each alone.
func VerifRepeatDigest() {
	user, pass := nd.StrIn(1, vzToken), nd.StrIn(1, vzToken)
	var auths []DigestAuth
	var nonces []string
	for i := 0; i < 2; i++ {
		nonce := nd.StrIn(2, vzToken)
		d, err := NewDigest("rtsp://h"+strconv.Itoa(i)+"/", `Digest realm="r`+strconv.Itoa(i)+`", qop="auth", nonce="`+nonce+`"`)
		nd.Assert(err == nil, "a well-formed challenge is accepted")
		auths = append(auths, d.Authenticate(user+strconv.Itoa(i), pass))
		nonces = append(nonces, nonce)
	}
	var got, keep []string
	var counts [2]int
	for k := nd.Param("steps", 4); k > 0; k-- {
		i := nd.Choose(2)
		n := strconv.Itoa(i)
		verb := [...]string{VerbPlay, VerbPause}[nd.Choose(2)]
		v := auths[i](verb, nil)
		got = append(got, v)
		keep = append(keep, string(append([]byte{}, v...)))
		counts[i]++
		m := vzDirectives(v[len("Digest "):])
		nd.Assert(nd.EqStr(m["nonce"], nonces[i]) && nd.EqStr(m["username"], user+n) && m["realm"] == "r"+n && m["uri"] == "rtsp://h"+n+"/", "credentials of its own")
		nd.Assert(m["nc"] == vzHex8(counts[i]), "nonce count of its own")
		a1 := vzRefMD5(user+n, "r"+n, pass)
		nd.Assert(nd.EqStr(m["response"], vzRefMD5(a1, nonces[i], m["nc"], m["cnonce"], "auth", vzRefMD5(verb, "rtsp://h"+n+"/"))), "response of its own")
		nd.Cover("asked")
	}
	for i := range got {
		nd.Assert(nd.EqStr(got[i], keep[i]), "credentials stay as they are")
	}
}

// VerifRepeatMessages: messages stay as they were packed or read when others are.
func VerifRepeatMessages() {
	var reqs []*Request
	var packed, keep [][]byte
	for i := 0; i < 2; i++ {
		r := &Request{Verb: [...]string{VerbPlay, VerbSetup}[nd.Choose(2)], Cseq: 1 + i, URI: "rtsp://h/" + nd.StrIn(1, vzToken), Header: make(MessageHeader)}
		if nd.Choose(2) == 1 {
			r.Session = nd.StrIn(2, vzToken)
		}
		if nd.Choose(2) == 1 {
			r.Header.Set("X-Value", nd.StrIn(2, vzToken))
		}
		reqs = append(reqs, r)
		b := r.Pack()
		packed = append(packed, b)
		keep = append(keep, append([]byte{}, b...))
	}
	for i, r := range reqs {
		nd.Assert(nd.EqBytes(packed[i], keep[i]), "a request stays as it was packed")
		nd.Assert(nd.EqBytes(r.Pack(), keep[i]), "the same request is packed the same again")
		nd.Assert(nd.EqBytes(packed[i], keep[i]), "a request stays as it was packed")
	}
	// Two responses that arrive one after the other, and two that are read from different connections.
	var stream [2][]byte
	var vals, bodies [2]string
	for i := range stream {
		vals[i] = nd.StrIn(2, vzToken)
		bodies[i] = nd.StrIn(nd.Choose(3), vzToken)
		stream[i] = []byte("RTSP/1.0 200 OK\r\nCSeq: " + strconv.Itoa(i+1) + "\r\nX-Value: " + vals[i] + "\r\nContent-Length: " + strconv.Itoa(len(bodies[i])) + "\r\n\r\n" + bodies[i])
	}
	var conns [2]*Conn
	var err error
	if nd.Choose(2) == 0 {
		conns[0], err = Dial(vzPlay([][]byte{vzJoin(stream[0], stream[1])}), ProtoTCP)
		nd.Assert(err == nil, "connection is open")
		conns[1] = conns[0]
	} else {
		for i := range conns {
			conns[i], err = Dial(vzPlay([][]byte{stream[i]}), ProtoTCP)
			nd.Assert(err == nil, "connection is open")
		}
		nd.Cover("two connections")
	}
	var rsps [2]*Response
	for i := range rsps {
		rsps[i], err = Unpack(conns[i])
		nd.Assert(err == nil, "a response is read")
	}
	for i, r := range rsps {
		nd.Assert(r.Cseq == i+1 && r.StatusCode == 200, "responses stay as they were read")
		nd.Assert(nd.And(nd.EqStr(r.Header.Get("X-Value"), vals[i]), nd.EqStr(string(r.Body), bodies[i])), "responses stay as they were read")
	}
}

func vzJoin(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// VerifRepeatFeeds: feeds of one description are not changed by another, nor transports by others.
func VerifRepeatFeeds() {
	var feeds [2][]*Feed
	var want [2]vzFeedSets
	for k := range feeds {
		want[k] = vzAnyFeedSets(k)
		fs, err := ParseFeeds(ProtoTCP, []byte("v=0\r\n"+want[k].sdp("t"+strconv.Itoa(k))))
		nd.Assert(err == nil && len(fs) == 1, "a feed per video section")
		feeds[k] = fs
	}
	var headers [2]string
	for k := range feeds {
		headers[k] = feeds[k][0].TransportHeader()
	}
	var set [2]bool
	first := nd.Choose(2)
	for k := range feeds {
		i := (first + k) % 2
		lo := 4 + 2*i
		nd.Assert(feeds[i][0].TransportSetup("RTP/AVP/TCP;interleaved="+strconv.Itoa(lo)+"-"+strconv.Itoa(lo+1)) == nil, "a transport is set up")
		set[i] = true
		for j := range feeds {
			f := feeds[j][0]
			nd.Assert(f.IsSet == set[j], "a feed is set once its transport is set up")
			want[j].check(f.Sets, set[j])
			h := headers[j]
			if set[j] {
				h = "RTP/AVP/TCP;interleaved=" + [...]string{"4-5", "6-7"}[j]
			}
			nd.Assert(f.TransportHeader() == h, "transport of its own")
		}
	}
	nd.Cover("set up")
}
