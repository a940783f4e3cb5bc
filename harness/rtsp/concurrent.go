package rtsp

import (
	"strconv"
	"sync"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifConcurrent: commands issued at the same time from several goroutines get sequence numbers of their own, and
// responses find their commands in any order.
func VerifConcurrent() {
	v := vzNewScenario(0)
	order := nd.Choose(2)
	kind := nd.Choose(3)
	auth := nd.Choose(2) == 1
	rounds, workers := 1, 2
	if !nd.Symbolic() {
		// A schedule cannot be replayed; many rounds make the same race likely.
		rounds, workers = 3000, 4
	}
	var reqs []vzRequest
	challenged := 0
	var mu sync.Mutex
	v.reply = func(r vzRequest) {
		head := "CSeq: " + strconv.Itoa(r.seq) + "\r\n"
		if auth && challenged == 0 {
			challenged = 1
			v.send([]byte("RTSP/1.0 401 Unauthorized\r\n" + head + "WWW-Authenticate: Digest realm=\"r\", nonce=\"n\", qop=\"auth\"\r\n\r\n"))
			return
		}
		mu.Lock()
		reqs = append(reqs, r)
		if nd.Symbolic() {
			mu.Unlock()
			return
		}
		if len(v.reqs) > 50 {
			v.reqs = v.reqs[:0]
		}
		mu.Unlock()
	}
	user := ""
	if auth {
		user = "u:p@"
	}
	s, stop := v.open(user)
	nd.Quiesce()
	if auth {
		nd.Assert(challenged == 1, "the first command is sent")
	}
	nd.Share(s)
	nd.Preempt(nd.Param("preempt", 2))
	done := make(chan bool, 8)
	for w := 0; w < workers; w++ {
		w := w
		go func() {
			for i := 0; i < rounds; i++ {
				var err error
				switch (kind + w) % 3 {
				case 0:
					err = s.Pause()
				case 1:
					err = s.Play()
				case 2:
					err = s.Teardown()
				}
				if err != nil {
					done <- false
					return
				}
			}
			done <- true
		}()
	}
	for w := 0; w < workers; w++ {
		nd.Assert(<-done, "commands are sent")
	}
	nd.Preempt(0)
	nd.Quiesce()
	if !nd.Symbolic() {
		for i := 0; i < 200; i++ {
			mu.Lock()
			n := len(reqs)
			mu.Unlock()
			if n > rounds*workers {
				break
			}
			nd.Quiesce()
		}
	}
	mu.Lock()
	all := reqs
	mu.Unlock()
	nd.Assert(len(all) == 1+rounds*workers, "every command reaches the server")
	seen := map[int]bool{}
	counts := map[string]bool{}
	for _, r := range all {
		nd.Assert(!seen[r.seq], "sequence numbers are never reused")
		seen[r.seq] = true
		if auth {
			m := vzDirectives(r.auth[7:])
			nd.Assert(len(m["nc"]) == 8 && !counts[m["nc"]], "nonce counts are never reused")
			counts[m["nc"]] = true
		}
	}
	// Responses come in any order; each has to find its command.
	stage := map[string]int{VerbPause: StagePause, VerbPlay: StagePlay, VerbTeardown: StageDone}
	last := all[len(all)-2:]
	if order == 1 {
		last = []vzRequest{last[1], last[0]}
	}
	for _, r := range last {
		v.send([]byte("RTSP/1.0 200 OK\r\nCSeq: " + strconv.Itoa(r.seq) + "\r\n\r\n"))
	}
	for _, r := range last {
		st, ok := vzNextStage(s, 50)
		nd.Assert(ok && st == stage[r.verb], "a response is matched with its command")
	}
	nd.Cover("both answered")
	stop()
	v.settle()
}
