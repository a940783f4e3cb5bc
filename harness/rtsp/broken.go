package rtsp

import (
	"runtime"
	"strconv"
	"time"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// vzBusy is the number of goroutines natively.
func vzBusy() int {
	if nd.Symbolic() {
		return 0
	}
	return runtime.NumGoroutine()
}

// vzAtRest tells whether nobody reads from connections that are gone: reads are few or, natively, goroutines have ended.
func vzAtRest(before, reads int) bool {
	if nd.Symbolic() {
		return reads < 10
	}
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= before {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// VerifBroken: wherever the connection breaks, what has arrived before counts and nothing else does, nobody keeps
// reading from it, commands fail once nobody takes them, and another session can be opened.
func VerifBroken() {
	before := vzBusy()
	v := vzNewScenario(1)
	v.proto = [...]int{ProtoTCP, ProtoUnicast}[nd.Choose(nd.Param("protos", 2))]
	reset := nd.Choose(2) == 1
	last := nd.Choose(6) // the message that is cut off
	where := nd.Choose(nd.Param("places", 4))
	sent := 0
	whole := false // the last message was sent to its end
	broken := false
	commands := 0
	var u vzSockets
	u.listen()
	host, stop := v.start()
	v.at(host)
	respond := v.reply
	var send func(b []byte)
	v.reply = func(r vzRequest) {
		if r.verb == VerbOptions && v.seen > 2 {
			// A sign of life, which is not counted.
			if !broken {
				send([]byte("RTSP/1.0 200 OK\r\nCSeq: " + strconv.Itoa(r.seq) + "\r\n\r\n"))
			}
			return
		}
		commands++
		if send == nil {
			send = v.send
			v.send = func(b []byte) {
				if broken {
					return
				}
				if sent < last {
					sent++
					send(b)
					return
				}
				n := where
				if nd.Param("all", 0) == 0 {
					n = [...]int{0, 1, len(b) - 1, len(b), len(b) / 2, len(b) / 3, len(b) * 3 / 4}[where]
				} else if n > len(b) {
					n = len(b)
				}
				broken, whole = true, n == len(b)
				if n > 0 {
					send(append([]byte{}, b[:n]...))
				}
				v.snap(reset)
			}
		}
		respond(r)
	}
	s := NewSession()
	nd.Assert(s.Open("rtsp://"+host+v.path, v.proto) == nil, "session is open")
	vzImpatient(s.Conn)
	came := func(i int) bool { return last > i || last == i && whole }
	st, ok := vzNextStage(s, 10)
	nd.Assert(ok == came(2), "the session is ready exactly if all it was told has arrived")
	if ok {
		nd.Assert(st == StageReady, "the session is ready")
		for i := 0; i < 4; i++ {
			nd.Quiesce()
		}
		err := s.Play()
		if last == 2 && reset {
			nd.Assert(err != nil, "a command that nobody takes fails")
			nd.Cover("command fails")
		} else {
			nd.Assert(err == nil, "PLAY is sent")
		}
		st, ok = vzNextStage(s, 10)
		nd.Assert(ok == came(3) && (!ok || st == StagePlay), "playing is reported exactly if its confirmation has arrived")
	}
	if ok {
		b := nd.Bytes(3)
		v.send(vzFrame(6, b[:2]))
		v.send(vzFrame(7, b[1:]))
		for i := 4; i < 6; i++ {
			p, ok := vzNextPacket(s.Conn, 10)
			nd.Assert(ok == came(i), "frames are delivered exactly if they have arrived to their end")
			if ok {
				nd.Assert(p.Channel == byte(2+i) && nd.EqBytes(p.Payload, b[i-4:i-2]), "frames are delivered as they were sent")
				nd.Cover("frame")
			} else {
				nd.Cover("lost frame")
			}
		}
	}
	nd.Assert(broken, "the connection is broken")
	_, ok = vzNextPacket(s.Conn, 3)
	nd.Assert(!ok, "no frame is invented")
	_, ok = vzNextStage(s, 3)
	nd.Assert(!ok, "no progress is made without a connection")
	for i := 0; i < 3; i++ {
		nd.Quiesce()
	}
	// Each command follows the complete response to the one before it.
	want := last + 1
	if want > 4 {
		want = 4
	} else if whole && want < 4 {
		want++
	}
	nd.Assert(commands == want || reset && commands == want-1 && whole, "a partial response counts for nothing")
	n := len(v.reqs)
	if reset {
		nd.Assert(s.Teardown() != nil, "a command that nobody takes fails")
		nd.Assert(s.Pause() != nil, "a command that nobody takes fails")
		nd.Assert(len(v.reqs) == n, "nothing is sent without a connection")
	}
	_, ok = vzNextStage(s, 3)
	nd.Assert(!ok, "no progress is made without a connection")
	s.Stop()
	for _, p := range v.client {
		for i := 0; i < 3; i++ {
			nd.Quiesce()
		}
		nd.Assert(u.free(p.One) && u.free(p.Two), "ports are free once the session is stopped")
		nd.Cover("ports")
	}
	stop()
	nd.Assert(vzAtRest(before, v.idle), "nobody reads from a connection that is gone")
	v.settle()
	w := vzNewScenario(1)
	w.addr = "127.0.0.1:556"
	s, stop = w.open("")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "another session can be opened")
	stop()
	w.settle()
	nd.ObserveU("setups", uint64(v.setups))
}
