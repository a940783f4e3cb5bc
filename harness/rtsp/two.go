package rtsp

import (
	"strconv"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifTwoSessions: sessions of one program with different servers go on side by side as if each was alone.
func VerifTwoSessions() {
	script := nd.Param("script", 5)
	var vs [2]*vzScenario
	var ss [2]*Session
	var stops [2]func()
	var at [2]int
	for i := range vs {
		v := vzNewScenario(1)
		v.addr = "127.0.0.1:" + strconv.Itoa(554+i)
		v.user, v.pass, v.nonce = "u"+strconv.Itoa(i), "p"+strconv.Itoa(i), "n"+strconv.Itoa(i)
		v.auth = [...]int{vzAuthNone, vzAuthQop, vzAuthBasic, vzAuthDigest}[nd.Choose(nd.Param("auths", 2))]
		if v.auth != vzAuthNone {
			nd.Cover("credentials")
		}
		vs[i] = v
	}
	stage := func(i, want int) {
		st, ok := vzNextStage(ss[i], 100)
		nd.Assert(ok && st == want, "stages of its own, in order")
	}
	step := func(i int) {
		v, s := vs[i], ss[i]
		switch at[i] {
		case 0:
			user := ""
			if v.auth != vzAuthNone {
				user = v.user + ":" + v.pass + "@"
			}
			ss[i], stops[i] = v.open(user)
		case 1:
			stage(i, StageReady)
			nd.Assert(s.Play() == nil, "PLAY is sent")
		case 2:
			stage(i, StagePlay)
		case 3:
			b := nd.Bytes(2)
			v.send(vzFrame(byte(i), b))
			v.send(vzFrame(byte(i), b[:1]))
			for k := 2; k > 0; k-- {
				p, ok := vzNextPacket(s.Conn, 50)
				nd.Assert(ok && p.Channel == byte(i) && nd.EqBytes(p.Payload, b[:k]), "media of its own")
			}
		case 4:
			nd.Assert(s.Teardown() == nil, "TEARDOWN is sent")
			if script == 5 {
				stage(i, StageDone)
			}
		case 5:
			stage(i, StageDone)
		}
		at[i]++
	}
	turns := 0
	last := -1
	for at[0] < script || at[1] < script {
		i := 0
		if at[0] == script {
			i = 1
		} else if at[1] < script {
			i = nd.Choose(2)
		}
		if i != last {
			turns++
		}
		last = i
		step(i)
	}
	if turns > 4 {
		nd.Cover("in turns")
	}
	for i, v := range vs {
		_, ok := vzNextPacket(ss[i].Conn, 3)
		nd.Assert(!ok, "no media of others")
		stops[i]()
		v.settle()
		nd.ObserveS("verbs", v.verbs())
		n := 0
		for _, r := range v.reqs {
			if r.verb == VerbSetup && r.auth != "" || r.verb == VerbSetup && v.auth == vzAuthNone {
				n++
			}
		}
		nd.Assert(n == 1, "every feed is set up once")
	}
}

// VerifTwoUnicast: two unicast sessions of one program with different servers each get ports of their own.
func VerifTwoUnicast() {
	var u vzSockets
	u.listen()
	var vs [2]*vzScenario
	var ss [2]*Session
	var stops [2]func()
	for i := range vs {
		v := vzNewScenario(1 + nd.Choose(nd.Param("feeds", 2)))
		v.addr = "127.0.0.1:" + strconv.Itoa(554+i)
		v.proto = ProtoUnicast
		vs[i] = v
		ss[i], stops[i] = v.open("")
		st, ok := vzNextStage(ss[i], 60)
		if i == 0 {
			nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
			continue
		}
		nd.Assert(ok && st == StageReady, "a second unicast session is set up while there is another one")
	}
	for i, v := range vs {
		b := nd.Bytes(2)
		nd.Assert(u.sendTo(v.client[0].Two, b), "the announced port is listened on")
		p, ok := vzNextPacket(ss[i].Conn, 50)
		nd.Assert(ok && p.Channel == 1 && nd.EqBytes(p.Payload, b), "media of its own")
		_, ok = vzNextPacket(ss[1-i].Conn, 3)
		nd.Assert(!ok, "no media of others")
	}
	for i := range vs {
		ss[i].Stop()
		stops[i]()
		vs[i].settle()
	}
	nd.Cover("both play")
}
