package rtsp

import (
	"strconv"

	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// vzJob is something a goroutine does on its own; it is prepared with what is only used once.
func vzJob(kind int, b string, me int) func() func() []byte {
	n := strconv.Itoa(me)
	var f func() []byte
	switch kind {
	case 0:
		h := "RTP/AVP/TCP;unicast;interleaved=" + n + "-" + strconv.Itoa(me+1) + ";ssrc=1234ABC" + n + ";mode=\"PLAY\";x=" + b
		f = func() []byte {
			t := NewTransport(ProtoTCP, 4+me)
			out := t.String()
			if t.Parse(h) != nil {
				return nil
			}
			return []byte(out + t.String())
		}
	case 1:
		f = func() []byte {
			d, err := NewDigest("rtsp://h"+n+"/", `Digest realm="r`+n+`", nonce="`+b+`", qop="auth", opaque="o`+n+`"`)
			if err != nil {
				return nil
			}
			auth := d.Authenticate("u"+n, "p"+n)
			v := auth(VerbPlay, nil)
			m := vzDirectives(v[len("Digest "):])
			a1, a2 := vzRefMD5("u"+n, "r"+n, "p"+n), vzRefMD5(VerbPlay, "rtsp://h"+n+"/")
			if !nd.EqStr(m["response"], vzRefMD5(a1, b, m["nc"], m["cnonce"], "auth", a2)) {
				return []byte("wrong")
			}
			return []byte(m["nc"] + m["realm"] + m["nonce"] + m["opaque"] + m["uri"] + m["username"])
		}
	case 2:
		f = func() []byte {
			d, err := NewDigest("rtsp://h"+n+"/", `Basic realm="r"`)
			if err != nil {
				return nil
			}
			r := &Request{Verb: VerbSetup, Cseq: 1 + me, URI: "rtsp://h/" + n, Session: "s" + n, Header: make(MessageHeader)}
			r.Header.Set("x-value", b)
			r.Auth = d.Authenticate("u"+n, b)(VerbSetup, nil)
			return r.Pack()
		}
	case 3:
		text := "v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:t" + n + "\r\na=fmtp:96 sprop-parameter-sets=Z0IAKeKQFAe2AtwEBAaQeJEV,aM48gA==\r\n"
		if me > 0 {
			text += "m=video 0 RTP/AVP 97\r\na=control:t" + b + "\r\n"
		}
		f = func() (out []byte) {
			fs, err := ParseFeeds(ProtoTCP, []byte(text))
			if err != nil {
				return nil
			}
			for i, f := range fs {
				out = append(out, f.TransportHeader()...)
				if f.TransportSetup("RTP/AVP/TCP;interleaved="+strconv.Itoa(2*i)+"-"+strconv.Itoa(2*i+1)) != nil {
					return nil
				}
				_, ok := f.Sets.GetSPS(0)
				out = append(out, byte(len(f.SpropParameterSets)))
				if ok {
					out = append(out, 1)
				}
				out = append(out, f.Control...)
			}
			return
		}
	case 4:
		body := b + "body" + n
		rsp := "RTSP/1.0 20" + n + " OK\r\nCSeq: " + n + "\r\nx-value: " + b + n + "\r\ncontent-length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
		times := 1
		if !nd.Symbolic() {
			times = vzTimes + 1
		}
		var stream []byte
		for i := 0; i < times; i++ {
			stream = append(stream, rsp...)
		}
		return func() func() []byte {
			c, err := Dial(vzPlay([][]byte{stream}), ProtoTCP)
			nd.Assert(err == nil, "connection is open")
			return func() []byte {
				r, err := Unpack(c)
				if err != nil {
					return nil
				}
				return append([]byte(r.Status+r.Header.Get("X-Value")+strconv.Itoa(r.Cseq)), r.Body...)
			}
		}
	}
	return func() func() []byte { return f }
}

const vzTimes = 4000

// VerifParallel: what belongs to different goroutines works as if each was alone.
func VerifParallel() {
	a, b := nd.Choose(5), nd.Choose(5)
	nd.Assume(a <= b)
	one, two := nd.StrIn(1, vzToken), nd.StrIn(1, vzToken)
	rounds := 1 << 30
	if b == 4 {
		rounds = vzTimes
	}
	nd.Assert(model.Parallel(nd.Param("preempt", 1), rounds, vzJob(a, one, 0), vzJob(b, two, 1)), "what one goroutine yields does not depend on others")
	if a == b {
		nd.Cover("same work")
	} else {
		nd.Cover("different work")
	}
}
