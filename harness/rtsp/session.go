package rtsp

import (
	"io"
	"log"
	"net"
	"strconv"
	"strings"
	"time"

	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// check is something the server expects of the client; it is decided once the session is over.
type vzCheck struct {
	ok  bool
	msg string
}

type vzRequest struct {
	vzParsed
	verb, uri string
	seq       int
	session   string
	auth      string
	transport string
	at        time.Time
}

// server is an RTSP server as seen from the wire.
type vzServer struct {
	buf    string
	reqs   []vzRequest
	checks []vzCheck
	send   func(b []byte)
	reply  func(r vzRequest)
	addr   string // under symbolic execution; a default when empty
	clock  bool   // reads of the client end at their deadlines
	snap   func(reset bool)
	idle   int // reads of the client since the connection has ended; under symbolic execution
}

func (v *vzServer) expect(ok bool, msg string) { v.checks = append(v.checks, vzCheck{ok, msg}) }

// receive takes bytes from the client and replies to complete requests.
func (v *vzServer) receive(p []byte) {
	v.buf += string(p)
	for {
		i := strings.Index(v.buf, "\r\n\r\n")
		if i < 0 {
			return
		}
		m := vzTakeApart(v.buf[:i+4])
		v.buf = v.buf[i+4:]
		r := vzRequest{vzParsed: m}
		v.expect(m.ok, "requests are well-formed")
		f := strings.Split(m.first, " ")
		if !m.ok || len(f) != 3 {
			v.expect(false, "request line has verb, URI and version")
			continue
		}
		r.verb, r.uri = f[0], f[1]
		r.at = time.Now()
		v.expect(f[2] == "RTSP/1.0", "version of the protocol")
		s, n := m.value("CSeq")
		seq, err := strconv.Atoi(s)
		v.expect(n == 1 && err == nil && seq > 0, "every request has a sequence number")
		for _, q := range v.reqs {
			v.expect(q.seq != seq, "sequence numbers are never reused")
		}
		r.seq = seq
		r.session, _ = m.value("Session")
		r.auth, _ = m.value("Authorization")
		r.transport, _ = m.value("Transport")
		v.reqs = append(v.reqs, r)
		v.reply(r)
	}
}

// start makes the server reachable and returns its address; stop ends it.
func (v *vzServer) start() (addr string, stop func()) {
	if nd.Symbolic() {
		queue := make(chan []byte, 64)
		var rest []byte
		over := false
		var gone error
		v.snap = func(reset bool) {
			if !over {
				over = true
				close(queue)
			}
			if reset {
				gone = vzGone{}
			}
		}
		v.send = func(b []byte) {
			if !over {
				queue <- b
			}
		}
		model.ConnRead = func(p []byte) (int, error) {
			if len(rest) == 0 {
				var b []byte
				var ok bool
				if v.clock && !model.ReadDeadline.IsZero() {
					select {
					case b, ok = <-queue:
					case <-time.After(time.Until(model.ReadDeadline)):
						return 0, vzTimedOut{}
					}
				} else {
					b, ok = <-queue
				}
				if !ok {
					if v.idle++; v.idle > 20 {
						select {}
					}
					if gone != nil && v.idle == 1 {
						return 0, gone // once
					}
					return 0, io.EOF
				}
				rest = b
			}
			n := copy(p, rest)
			rest = rest[n:]
			return n, nil
		}
		model.ConnWrite = func(p []byte) (int, error) {
			if gone != nil {
				return 0, gone
			}
			v.receive(append([]byte{}, p...))
			return len(p), nil
		}
		if v.addr == "" {
			v.addr = "127.0.0.1:554"
		}
		return v.addr, func() { v.snap(false) }
	}
	log.SetOutput(io.Discard)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	conns := make(chan net.Conn, 1)
	go func() {
		c, err := ln.Accept()
		ln.Close()
		if err != nil {
			return
		}
		v.send = func(b []byte) { c.Write(b) }
		v.snap = func(reset bool) {
			if !reset {
				c.(*net.TCPConn).CloseWrite()
				return
			}
			// What was sent is read first.
			time.Sleep(30 * time.Millisecond)
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}
		conns <- c
		buf := make([]byte, 4096)
		for {
			n, err := c.Read(buf)
			if err != nil {
				return
			}
			v.receive(buf[:n])
		}
	}()
	return ln.Addr().String(), func() {
		select {
		case c := <-conns:
			c.Close()
			time.Sleep(5 * time.Millisecond)
		case <-time.After(time.Second):
		}
	}
}

// nextStage waits for the session to report a stage.
func vzNextStage(s *Session, tries int) (st int, ok bool) {
	for i := 0; i < tries; i++ {
		select {
		case st = <-s.State:
			return st, true
		default:
		}
		if nd.Symbolic() && i == 2 {
			break
		}
		nd.Quiesce()
	}
	return
}

// gone is the error of a connection that was reset by the other end.
type vzGone struct{}

func (vzGone) Error() string   { return "connection reset by peer" }
func (vzGone) Timeout() bool   { return false }
func (vzGone) Temporary() bool { return false }

const (
	vzAuthNone = iota
	vzAuthBasic
	vzAuthDigest
	vzAuthQop
)

// scenario is a server with everything about it chosen in advance.
type vzScenario struct {
	*vzServer
	host     string
	path     string
	feeds    int
	controls []string
	status   []int // of SETUP
	auth     int
	from     string // first verb that needs credentials
	wrong    bool   // credentials are wrong
	renew    int    // nonce is renewed at this request
	session  string
	timeout  string
	reverse  bool
	frames   bool
	proto    int
	user     string
	pass     string

	nonce   string
	seen    int
	held    [][]byte
	setups  int
	counts  map[string]int
	tries   map[string]int
	client  []Pair // announced ports
	refused int
	assign  func(feed int, asked string) string // transport of a feed, unless the default
	done    [64]bool
	stale   bool
	no      string // status of feeds that are refused, unless given by number
	code    string // status of commands in a session, unless 200
	quiet   bool   // responses to commands do not repeat the identifier
}

func (v *vzScenario) challenge() string {
	c := `Digest realm="r, x", nonce="` + v.nonce + `"`
	switch v.auth {
	case vzAuthBasic:
		return `Basic realm="r"`
	case vzAuthQop:
		c += `, qop="auth"`
		if v.stale {
			c += ",stale=TRUE"
		}
	default:
		if v.stale {
			c += ", stale=true"
		}
	}
	return c
}

// accepted tells whether credentials of a request are the current ones; whether they are right is left to a check.
func (v *vzScenario) accepted(r vzRequest) bool {
	v.stale = false
	if r.auth == "" {
		return false
	}
	if v.auth == vzAuthBasic {
		b, ok := vzDecode64(strings.TrimPrefix(r.auth, "Basic "))
		v.expect(nd.And(ok, nd.EqStr(string(b), v.user+":"+v.pass)), "credentials are user name and password from the URI")
		return true
	}
	m := vzDirectives(strings.TrimPrefix(r.auth, "Digest "))
	if m["nonce"] != v.nonce {
		v.stale = !v.wrong
		return false
	}
	v.expect(m["uri"] == r.uri || r.verb == VerbSetup && m["uri"] == v.base(), "digest is for the URI of the request")
	a1, a2 := vzRefMD5(v.user, "r, x", v.pass), vzRefMD5(r.verb, m["uri"])
	want := vzRefMD5(a1, v.nonce, a2)
	if v.auth == vzAuthQop {
		v.counts[v.nonce]++
		v.expect(m["nc"] == vzHex8(v.counts[v.nonce]), "nonce count is the number of the request with the nonce")
		want = vzRefMD5(a1, v.nonce, m["nc"], m["cnonce"], "auth", a2)
	}
	v.expect(nd.EqStr(m["username"], v.user), "user name from the URI")
	v.expect(nd.EqStr(m["response"], want), "digest is calculated for the request with credentials from the URI")
	return true
}

func (v *vzScenario) sdp() string {
	s := "v=0\r\ns=x\r\na=control:*\r\n"
	for _, c := range v.controls {
		s += "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:" + c + "\r\n"
	}
	return s
}

func (v *vzScenario) respond(r vzRequest) {
	v.seen++
	if v.frames && v.seen%2 == 0 {
		v.send(vzFrame(byte(v.seen), []byte{byte(v.seen)}))
	}
	head := "CSeq: " + strconv.Itoa(r.seq) + "\r\n"
	if v.auth != vzAuthNone {
		if r.verb == v.from {
			v.refused |= 1 // from now on credentials are needed
		}
		if v.renew > 0 && v.seen == v.renew {
			v.nonce = "renewed"
		}
		if v.refused != 0 && (!v.accepted(r) || v.wrong) {
			v.tries[r.verb+r.uri]++
			v.send([]byte("RTSP/1.0 401 Unauthorized\r\n" + head + "WWW-Authenticate: " + v.challenge() + "\r\n\r\n"))
			return
		}
	}
	v.expect(r.verb == VerbSetup || r.uri == v.base(), "requests are for the URI of the session")
	switch r.verb {
	case VerbOptions:
		v.send([]byte("RTSP/1.0 200 OK\r\n" + head + "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN\r\n\r\n"))
	case VerbDescribe:
		a, _ := r.value("Accept")
		v.expect(a == "application/sdp", "description is asked for in SDP")
		body := v.sdp()
		v.send([]byte("RTSP/1.0 200 OK\r\n" + head + "Content-Type: application/sdp\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body))
	case VerbSetup:
		i := 0
		for i < v.feeds && r.uri != v.target(i) {
			i++
		}
		if i == v.feeds || v.done[i] {
			v.expect(false, "every feed is set up once, by its control URL")
			return
		}
		v.done[i] = true
		v.setups++
		want := "RTP/AVP/TCP;interleaved=" + strconv.Itoa(2*i) + "-" + strconv.Itoa(2*i+1)
		if v.assign != nil {
			want = v.assign(i, r.transport)
		} else if v.proto == ProtoTCP {
			v.expect(r.transport == want, "every feed gets its own channels")
		} else {
			var t Transport
			v.expect(t.Parse(r.transport) == nil && !t.IsTCP && !t.IsMulticast && t.ClientPort.One > 0 && t.ClientPort.Two == t.ClientPort.One+1, "every feed gets its own pair of ports")
			for _, p := range v.client {
				v.expect(p != t.ClientPort, "pairs of ports are different")
			}
			v.client = append(v.client, t.ClientPort)
			unicast := 0
			for _, p := range strings.Split(r.transport, ";")[1:] {
				if p == "unicast" {
					unicast++
				}
				v.expect(!strings.HasPrefix(p, "interleaved"), "nothing but unicast is asked for")
			}
			v.expect(unicast == 1, "unicast is asked for")
			want = r.transport + ";server_port=6000-6001"
		}
		status := strconv.Itoa(v.status[i])
		if v.status[i] != RtspOK && v.no != "" {
			status = v.no
		}
		b := []byte("RTSP/1.0 " + status + " X\r\n" + head)
		if v.status[i] == RtspOK {
			b = append(b, "Session: "+v.session+v.timeout+"\r\nTransport: "+want+"\r\n"...)
		}
		b = append(b, "\r\n"...)
		if v.reverse {
			v.held = append(v.held, b)
			if len(v.held) < v.feeds {
				return
			}
			for j := len(v.held) - 1; j >= 0; j-- {
				v.send(v.held[j])
			}
			return
		}
		v.send(b)
	case VerbPlay, VerbPause, VerbTeardown:
		v.expect(nd.EqStr(r.session, v.session), "commands carry identifier of the session")
		code := v.code
		if code == "" {
			code = "200"
		}
		if !v.quiet {
			head += "Session: " + v.session + "\r\n"
		}
		v.send([]byte("RTSP/1.0 " + code + " OK\r\n" + head + "\r\n"))
	default:
		v.expect(false, "no other requests")
	}
}

// base is the URI of the session.
func (v *vzScenario) base() string { return "rtsp://" + v.host + v.path }

func (v *vzScenario) target(i int) string {
	if strings.HasPrefix(v.controls[i], "rtsp://") {
		return v.controls[i]
	}
	return v.base() + "/" + v.controls[i]
}

func vzNewScenario(feeds int) *vzScenario {
	v := &vzScenario{vzServer: &vzServer{}, feeds: feeds, nonce: "first", counts: map[string]int{}, tries: map[string]int{}, user: "u", pass: "p", from: VerbOptions}
	v.reply = v.respond
	for i := 0; i < feeds; i++ {
		v.status = append(v.status, RtspOK)
	}
	v.session = nd.StrIn(nd.Param("session", 2), vzToken+"$_.+")
	v.timeout = [...]string{"", ";timeout=60", "; timeout=5"}[nd.Choose(nd.Param("timeouts", 2))]
	v.path = "/s"
	if v.timeout != "" {
		v.path = "/s/a%2Fb?x=1&y=/2"
	}
	return v
}

// open starts the server and the session.
func (v *vzScenario) open(user string) (*Session, func()) {
	host, stop := v.start()
	v.at(host)
	s := NewSession()
	nd.Assert(s.Open("rtsp://"+user+host+v.path, v.proto) == nil, "session is open")
	return s, stop
}

// at gives the server its address.
func (v *vzScenario) at(host string) {
	v.host = host
	for i := 0; i < v.feeds; i++ {
		c := "track/" + strconv.Itoa(i+1)
		if i == 1 {
			c = "rtsp://" + host + "/other/t"
			if v.timeout == "" {
				c = "rtsp://192.0.2.1:8554/s/t" // its own name for itself
			}
		}
		v.controls = append(v.controls, c)
	}
}

func (v *vzScenario) settle() {
	for i := range v.checks {
		nd.Assert(v.checks[i].ok, v.checks[i].msg)
	}
}

func (v *vzScenario) verbs() (s string) {
	for _, r := range v.reqs {
		s += r.verb + " "
	}
	return
}

// VerifSession: a session goes through its stages in order against any server of the family.
func VerifSession() {
	feeds := 1 + nd.Choose(nd.Param("feeds", 2))
	v := vzNewScenario(feeds)
	user := ""
	v.auth = nd.Param("auth", 0)
	if v.auth < 0 {
		v.auth = nd.Choose(4)
	}
	if v.auth != vzAuthNone {
		if nd.Param("creds", 0) == 1 {
			v.user = nd.StrIn(2, vzToken)
			v.pass = nd.StrIn(1, vzToken)
		}
		user = v.user + ":" + v.pass + "@"
		v.from = [...]string{VerbOptions, VerbDescribe, VerbSetup, VerbPlay}[nd.Choose(4)]
		if v.auth != vzAuthBasic && nd.Choose(1+nd.Param("renewal", 1)) == 1 {
			v.renew = 4 + nd.Choose(nd.Param("renew", 6))
		}
	}
	for i := range v.status {
		if nd.Param("refuse", 1) == 1 && nd.Choose(2) == 1 {
			v.status[i] = [...]int{404, 461}[i%2]
			if i == 0 {
				a, b, c := nd.ByteIn("345"), nd.ByteIn(vzDecimal), nd.ByteIn(vzDecimal)
				v.no = string([]byte{a, b, c})
				nd.Assume(!nd.EqStr(v.no, "401"))
			}
			nd.Cover("feed refused")
		}
	}
	v.frames = nd.Choose(1+nd.Param("frames", 1)) == 1
	v.reverse = feeds > 1 && v.auth == vzAuthNone && nd.Choose(2) == 1
	s, stop := v.open(user)
	st, ok := vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
	nd.Assert(v.setups == feeds, "every feed is set up")
	played := false
	for i := range v.status {
		played = played || v.status[i] == RtspOK
	}
	if !played {
		v.session = "" // no feed, no session
	}
	nd.Assert(s.Play() == nil, "PLAY is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StagePlay, "playing is reported when the server starts it")
	nd.Assert(s.Pause() == nil, "PAUSE is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StagePause, "pause is reported when the server makes it")
	nd.Assert(s.Teardown() == nil, "TEARDOWN is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StageDone, "end is reported when the server ends the session")
	stop()
	v.settle()
	for _, r := range v.reqs {
		nd.Assert(!strings.Contains(r.uri, "@"), "credentials are not in the URI of a request")
	}
	for _, k := range v.tries {
		nd.Assert(k <= 2, "a refused command is repeated once per challenge")
	}
	nd.ObserveS("verbs", v.verbs())
	if v.frames {
		for i := 2; i <= v.seen; i += 2 {
			p, ok := vzNextPacket(s.Conn, 50)
			nd.Assert(ok && p.Channel == byte(i) && len(p.Payload) == 1 && p.Payload[0] == byte(i), "frames between responses are delivered")
		}
		nd.Cover("frames between responses")
	}
	if v.renew > 0 && v.nonce == "renewed" {
		nd.Cover("nonce renewed")
	}
	if v.reverse {
		nd.Cover("out of order")
	}
}

// VerifUnauthorized: a session that has no credentials or wrong ones reports no progress and stops asking.
func VerifUnauthorized() {
	v := vzNewScenario(1)
	v.auth = vzAuthBasic + nd.Choose(3)
	late := nd.Choose(6) // how far the session gets
	v.from = [...]string{VerbOptions, VerbDescribe, VerbSetup, VerbPlay, VerbPause, VerbTeardown}[late]
	v.wrong = true
	user := ""
	if nd.Choose(2) == 1 {
		v.user = nd.StrIn(2, vzToken)
		v.pass = nd.StrIn(nd.Choose(2), vzToken)
		user = v.user + ":" + v.pass + "@"
	}
	fresh := nd.Choose(2) == 1 // every challenge has a nonce of its own
	v.reply = func(r vzRequest) {
		if fresh {
			v.nonce = "n" + strconv.Itoa(v.seen)
		}
		if v.seen < 20 {
			v.respond(r)
			v.stale = false
		}
	}
	if fresh {
		// Whatever nonce the client uses it is told that credentials are wrong, not that the nonce is old.
		v.renew = 0
	}
	s, stop := v.open(user)
	if late > 2 {
		st, ok := vzNextStage(s, 20)
		nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
		if late > 3 {
			nd.Assert(s.Play() == nil, "PLAY is sent")
			st, ok = vzNextStage(s, 20)
			nd.Assert(ok && st == StagePlay, "playing is reported when the server starts it")
		}
		if late == 5 && nd.Choose(2) == 1 {
			nd.Assert(s.Pause() == nil, "PAUSE is sent")
			st, ok = vzNextStage(s, 20)
			nd.Assert(ok && st == StagePause, "pause is reported when the server makes it")
		}
		before := len(v.reqs)
		nd.Assert([...]func() error{s.Play, s.Pause, s.Teardown}[late-3]() == nil, "command is sent")
		defer func() { nd.Assert(len(v.reqs)-before <= 2, "the session stops asking") }()
		nd.Cover("late")
	}
	_, ok := vzNextStage(s, 5)
	nd.Assert(!ok, "no progress is reported without credentials")
	n := len(v.reqs)
	nd.Assert(late > 2 || n <= 4, "the session stops asking")
	if user == "" {
		for _, r := range v.reqs {
			nd.Assert(r.auth == "", "credentials are not made up")
		}
		nd.Cover("no credentials")
	} else {
		nd.Assert(v.reqs[n-1].auth != "", "credentials are tried")
		nd.Cover("wrong credentials")
	}
	stop()
	nd.ObserveS("verbs", v.verbs())
}

// VerifSessionMany: a session of many feeds with a long identifier that is played and paused again and again.
func VerifSessionMany() {
	feeds := [...]int{4, 7, nd.Param("feeds", 20)}[nd.Choose(3)]
	v := vzNewScenario(feeds)
	v.session = v.session + "1234567890abcdef.$-_+ABCDEF1234567890"
	v.auth = nd.Choose(4)
	user := ""
	if v.auth != vzAuthNone {
		user = v.user + ":" + v.pass + "@"
		v.from = [...]string{VerbOptions, VerbPlay}[nd.Choose(2)]
	}
	if i := [...]int{-1, 0, feeds / 2, feeds - 1}[nd.Choose(4)]; i >= 0 {
		v.status[i] = 461
	}
	v.reverse = v.auth == vzAuthNone && nd.Choose(2) == 1
	s, stop := v.open(user)
	st, ok := vzNextStage(s, 200)
	nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
	nd.Assert(v.setups == feeds, "every feed is set up")
	for r := nd.Param("rounds", 6); r > 0; r-- {
		nd.Assert(s.Play() == nil, "PLAY is sent")
		st, ok = vzNextStage(s, 100)
		nd.Assert(ok && st == StagePlay, "playing is reported when the server starts it")
		f := [...]int{0, feeds - 1, feeds / 2}[r%3]
		for ctl := 0; ctl < 2; ctl++ {
			b := vzAnyPayload(2)
			v.send(vzFrame(byte(2*f+ctl), b))
			p, ok := vzNextPacket(s.Conn, 50)
			nd.Assert(ok && int(p.Channel) == 2*f+ctl && nd.EqBytes(p.Payload, b), "media of every feed are delivered on its channels")
		}
		nd.Assert(s.Pause() == nil, "PAUSE is sent")
		st, ok = vzNextStage(s, 100)
		nd.Assert(ok && st == StagePause, "pause is reported when the server makes it")
	}
	nd.Assert(s.Teardown() == nil, "TEARDOWN is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StageDone, "end is reported when the server ends the session")
	stop()
	v.settle()
	for _, k := range v.tries {
		nd.Assert(k <= 2, "a refused command is repeated once per challenge")
	}
	nd.ObserveU("requests", uint64(len(v.reqs)))
	nd.Cover("many feeds")
}

// VerifCommands: commands in any order are reported exactly when the server confirms them.
func VerifCommands() {
	v := vzNewScenario(1 + nd.Choose(nd.Param("feeds", 1)))
	v.auth = [...]int{vzAuthNone, vzAuthQop}[nd.Choose(nd.Param("auths", 1))]
	user := ""
	if v.auth != vzAuthNone {
		user = "u:p@"
		v.from = [...]string{VerbPlay, VerbPause, VerbTeardown}[nd.Choose(3)]
	}
	s, stop := v.open(user)
	st, ok := vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
	log := ""
	for i := nd.Param("commands", 3); i > 0; i-- {
		k := nd.Choose(3)
		stage := [...]int{StagePlay, StagePause, StageDone}[k]
		v.code, v.quiet = "", false
		v.tries = map[string]int{}
		if v.auth != vzAuthNone && nd.Choose(2) == 1 {
			v.nonce = "n" + strconv.Itoa(i)
			nd.Cover("nonce renewed")
		}
		switch nd.Choose(3) {
		case 1:
			v.quiet = true
			nd.Cover("no identifier")
		case 2:
			v.code = nd.StrIn(1, "345") + nd.StrIn(1, "0123456789") + nd.StrIn(1, "0123456789")
			nd.Assume(v.code != "401")
		}
		nd.Assert([...]func() error{s.Play, s.Pause, s.Teardown}[k]() == nil, "command is sent")
		st, ok = vzNextStage(s, 6)
		if v.code != "" {
			nd.Assert(!ok, "what the server refuses is not reported")
			nd.Cover("refused")
		} else {
			nd.Assert(ok && st == stage, "what the server confirms is reported")
		}
		for _, n := range v.tries {
			nd.Assert(n <= 1, "a challenged command is repeated with the nonce of the challenge")
		}
		log += strconv.Itoa(k)
		if ok && st == StageDone {
			break
		}
	}
	_, ok = vzNextStage(s, 2)
	nd.Assert(!ok, "nothing is reported twice")
	stop()
	v.settle()
	for _, k := range v.tries {
		nd.Assert(k <= 2, "a refused command is repeated once per challenge")
	}
	nd.ObserveS("commands", log+v.verbs())
}
