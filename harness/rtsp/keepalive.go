package rtsp

import (
	"strconv"
	"time"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifKeepAlive: a session whose media do not come over its connection shows signs of life often enough, but not all
// the time, for as long as it lasts; other sessions do not.
func VerifKeepAlive() {
	v := vzNewScenario(1)
	v.clock = true
	v.proto = [...]int{ProtoUnicast, ProtoTCP}[nd.Choose(2)]
	wait := [...]time.Duration{2 * time.Second, 300 * time.Millisecond, 1100 * time.Millisecond}[nd.Choose(nd.Param("waits", 3))]
	late := [...]time.Duration{0, 900 * time.Millisecond}[nd.Choose(nd.Param("late", 2))]
	var u vzSockets
	u.listen()
	respond := v.reply
	v.reply = func(r vzRequest) {
		if v.setups > 0 && r.verb == VerbOptions {
			v.expect(v.proto == ProtoUnicast, "connection with media is not kept alive")
			v.expect(nd.EqStr(r.session, v.session), "session is kept alive by its identifier")
			if late > 0 {
				go func() {
					time.Sleep(late)
					respond(r)
				}()
				return
			}
		}
		respond(r)
	}
	s, stop := v.open("")
	s.Timeout = wait
	st, ok := vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
	nd.Assert(s.Play() == nil, "PLAY is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StagePlay, "playing is reported when the server starts it")
	start := time.Now()
	life := time.Duration(nd.Param("life", 5200)) * time.Millisecond
	time.Sleep(life)
	if nd.Choose(2) == 1 {
		nd.Assert(s.Pause() == nil, "PAUSE is sent")
		time.Sleep(late + 100*time.Millisecond)
		st, ok = vzNextStage(s, 100)
		nd.Assert(ok && st == StagePause, "pause is reported when the server makes it")
		time.Sleep(4200 * time.Millisecond)
		nd.Cover("paused")
	}
	end := time.Now()
	var at []time.Time
	for _, r := range v.reqs {
		if r.verb == VerbOptions && r.seq > 1 {
			at = append(at, r.at)
		}
	}
	nd.Assert(s.Teardown() == nil, "TEARDOWN is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StageDone, "end is reported when the server ends the session")
	n := len(v.reqs)
	time.Sleep(2500 * time.Millisecond)
	nd.Assert(len(v.reqs) == n, "a session that is over is not kept alive")
	s.Stop()
	stop()
	v.settle()
	if v.proto == ProtoTCP {
		nd.Assert(len(at) == 0, "connection with media is not kept alive")
		nd.Cover("media over connection")
		return
	}
	slack := time.Millisecond
	if !nd.Symbolic() {
		slack = 700 * time.Millisecond
	}
	most := 2*time.Second + wait + slack
	if late > 0 {
		most += late // a response of the server restarts the wait
	}
	nd.Assert(len(at) > 0 && at[0].Sub(start) <= most, "the session is kept alive from its beginning")
	for i := range at {
		next := end
		if i+1 < len(at) {
			next = at[i+1]
			nd.Assert(next.Sub(at[i]) >= 2*time.Second-slack/2, "signs of life are two seconds apart")
		}
		nd.Assert(next.Sub(at[i]) <= most, "the session is kept alive until its end")
	}
	nd.ObserveS("requests", strconv.Itoa(len(at)/100))
}
