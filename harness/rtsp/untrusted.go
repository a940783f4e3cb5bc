package rtsp

import (
	"strconv"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifUntrusted: whatever a server answers at any point of a session, the session does not crash, does not report
// progress the server has not confirmed, and asks for nothing twice.
func VerifUntrusted() {
	feeds := 1 + nd.Choose(nd.Param("feeds", 2))
	v := vzNewScenario(feeds)
	v.proto = [...]int{ProtoTCP, ProtoUnicast}[nd.Choose(nd.Param("protos", 2))]
	var u vzSockets
	u.listen()
	odd := [...]string{VerbOptions, VerbDescribe, VerbSetup, VerbPlay}[nd.Choose(4)]
	kind := nd.Param("kind", 0)
	size := nd.Param("n", 3)
	raw := []byte(nd.StrIn(size, "0129 =;,:-/\"$a\r\n\xff"))
	if nd.Param("any", 0) == 1 {
		raw = nd.Bytes(size)
	}
	respond := v.reply
	met := 0
	confirmed := false
	v.reply = func(r vzRequest) {
		if r.verb != odd || v.setups > 0 && odd == VerbOptions || met > 0 && kind != 6 {
			if met == 0 || odd == VerbSetup && feeds > 1 {
				respond(r)
			}
			return
		}
		met++
		head := "RTSP/1.0 200 OK\r\nCSeq: "
		switch kind {
		case 0:
			v.send(raw)
		case 1:
			// Another number.
			v.send([]byte(head + strconv.Itoa(r.seq+50) + "\r\n\r\n"))
		case 2:
			// A number of arbitrary text.
			v.send(append(append([]byte(head), raw...), "\r\n\r\n"...))
			for _, b := range raw {
				confirmed = nd.Or(confirmed, b == byte('0'+r.seq))
			}
		case 3:
			// Arbitrary values of headers.
			b := []byte(head + strconv.Itoa(r.seq) + "\r\nSession: ")
			for _, h := range []string{"\r\nTransport: RTP/AVP;", "\r\nPublic: ", "\r\nWWW-Authenticate: ", "\r\nX: "} {
				b = append(append(b, raw...), h...)
			}
			v.send(append(b, "\r\n\r\n"...))
			confirmed = true
		case 4:
			// An arbitrary body.
			b := append([]byte("m=video 0 RTP/AVP 96\r\na=control:"), raw...)
			b = append(append(b, "\r\na=fmtp:96 sprop-parameter-sets="...), raw...)
			v.send(append([]byte(head+strconv.Itoa(r.seq)+"\r\nContent-Length: "+strconv.Itoa(len(b))+"\r\n\r\n"), b...))
			confirmed = true
		case 5:
			// A refusal.
			v.send([]byte("RTSP/1.0 " + nd.StrIn(1, "345") + "00 No\r\nCSeq: " + strconv.Itoa(r.seq) + "\r\n\r\n"))
			confirmed = odd == VerbSetup
		case 6:
			// A challenge that asks for what is not there.
			v.send(append([]byte("RTSP/1.0 401 No\r\nCSeq: "+strconv.Itoa(r.seq)+"\r\nWWW-Authenticate: Digest realm=\"r\", nonce=\"n\""), append(raw, "\r\n\r\n"...)...))
		}
	}
	s, stop := v.open([...]string{"", "u:p@"}[nd.Choose(2)])
	st, ok := vzNextStage(s, 4)
	if odd == VerbPlay {
		nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
		nd.Assert(s.Play() == nil, "PLAY is sent")
		st, ok = vzNextStage(s, 4)
		nd.Assert(!ok || st == StagePlay, "nothing is reported but what was asked for")
		nd.Cover("playing")
	} else {
		nd.Assert(!ok || st == StageReady, "nothing is reported but what was asked for")
	}
	nd.Assert(met > 0, "the odd answer is given")
	nd.Assert(nd.Implies(ok, confirmed), "no progress is reported which the server has not confirmed")
	if ok {
		nd.Cover("reported")
	} else {
		nd.Cover("stuck")
	}
	nd.Assert(met <= 2*feeds, "nothing is asked for again and again")
	s.Stop()
	stop()
	nd.Quiesce()
	nd.ObserveU("setups", uint64(v.setups))
}
