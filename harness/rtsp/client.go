package rtsp

import (
	"strconv"
	"strings"
	"time"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// ClientScenario is a whole session of the client program run against a server; logged returns what it has reported.
func ClientScenario(run func(uri string), logged func() string) {
	least := nd.Param("least", 1)
	v := vzNewScenario(least + nd.Choose(nd.Param("feeds", 2)+1-least))
	v.clock = true
	waits := [...]time.Duration{0, 2600 * time.Millisecond}
	wait := waits[nd.Choose(nd.Param("waits", 2))]
	slow := [...]string{VerbPlay, VerbPause, VerbTeardown}[nd.Choose(3)]
	confirmed := map[string]time.Time{}
	respond := v.reply
	var want, packets, reports []string
	var media [][]byte
	unit := func(ch int, ts uint32, sn int, payload []byte) {
		form, mark := 0, vzK01(0)
		if len(media) == 0 {
			form, mark = nd.Choose(4), vzK01(nd.Choose(2))
		}
		p := vzRtpPacket(form, uint16(sn), ts, mark, payload)
		media = append(media, vzFrame(byte(ch), p))
		cc := 0
		if form == 1 {
			cc = 2
		}
		packets = append(packets, "RTP ["+strconv.Itoa(ch)+"] PT=96, CC="+strconv.Itoa(cc)+", M="+strconv.FormatBool(mark)+", SN="+strconv.Itoa(sn))
	}
	report := func(ch, pt, words, count int) {
		b := append([]byte{0x80 | byte(count), byte(pt), byte(words >> 8), byte(words)}, nd.Bytes(4*words)...)
		media = append(media, vzFrame(byte(ch), b))
		reports = append(reports, "RTCP ["+strconv.Itoa(ch)+"] PT="+strconv.Itoa(pt)+", LN="+strconv.Itoa(words)+", C="+strconv.Itoa(count))
	}
	// Every feed has its own time.
	ts := make([]uint32, v.feeds)
	for i := range ts {
		ts[i] = nd.U32()
	}
	expect := func(head byte, size int) {
		want = append(want, "NAL Zero=true, RefIdc="+strconv.Itoa(int(head>>5))+", Type="+strconv.Itoa(int(head&31))+", Size="+strconv.Itoa(size))
	}
	kind := nd.Param("kind", -1)
	if kind < 0 {
		kind = nd.Choose(nd.Param("kinds", 3))
	}
	switch kind {
	case 0:
		// One after another.
		sn := [...]int{0, 65530}[nd.Choose(2)]
		for i := range ts {
			h := [...]byte{0x65, 0x0a, 0x41, 0x06}[nd.Choose(nd.Param("types", 4))]
			if h == 0x0a {
				// Units may be nothing but a header.
				unit(2*i, ts[i], sn, []byte{h})
				expect(h, 0)
				nd.Cover("header only")
			} else {
				unit(2*i, ts[i], sn, []byte{h, 9, nd.Byte() | 4, 9})
				expect(h, 3)
			}
			g := [...]byte{0x68, 0x67}[nd.Choose((nd.Param("types", 4)+1)/2)]
			unit(2*i, ts[i], sn+1, []byte{24, 0, 2, 0x67, nd.Byte(), 0, 3, g, 9, nd.Byte() | 4})
			expect(0x67, 1)
			expect(g, 2)
		}
	case 1:
		// Fragments of all feeds at the same time.
		for k := 0; k < 3; k++ {
			for i := range ts {
				f := byte(0)
				if k == 0 {
					f = 0x80
				} else if k == 2 {
					f = 0x40
					expect(0x60|byte(1+i), 6)
				}
				unit(2*i, ts[i], k, []byte{0x7c, f | byte(1+i), 9, nd.Byte() | 4})
				nd.Cover("fragments")
			}
		}
	case 2:
		// Reports of the server.
		for i := 0; i < v.feeds; i++ {
			switch nd.Choose(4) {
			case 0:
				report(2*i+1, 200, 6, 0)
			case 1:
				report(2*i+1, 200, 12, 1)
			case 2:
				report(2*i+1, 201, 7, 1)
			case 3:
				report(2*i+1, 203, 1, 1)
			}
		}
		nd.Cover("reports")
	}
	gaps := [...]time.Duration{20 * time.Millisecond, 900 * time.Millisecond}
	if nd.Param("order", 1) == 1 {
		gaps = [...]time.Duration{1400 * time.Millisecond, 1600 * time.Millisecond}
	}
	gap := gaps[nd.Choose(2)]
	v.reply = func(r vzRequest) {
		d := time.Duration(0)
		if r.verb == slow {
			d = wait
		}
		if _, ok := confirmed[r.verb]; ok || r.verb == VerbOptions || r.verb == VerbDescribe || r.verb == VerbSetup {
			respond(r)
			return
		}
		go func() {
			time.Sleep(d)
			confirmed[r.verb] = time.Now()
			respond(r)
			if r.verb == VerbPlay {
				for _, b := range media {
					time.Sleep(gap)
					v.send(b)
				}
			}
		}()
	}
	addr, stop := v.start()
	v.at(addr)
	run("rtsp://" + addr + v.path)
	end := time.Now()
	stop()
	time.Sleep(50 * time.Millisecond)
	v.settle()
	if nd.Param("order", 1) == 1 {
		v.orderly(confirmed, end)
		return
	}
	var nals, rtps, reps []string
	for _, l := range strings.Split(logged(), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "NAL "):
			nals = append(nals, l)
		case strings.HasPrefix(l, "RTP "):
			rtps = append(rtps, l)
		case strings.HasPrefix(l, "RTCP "):
			reps = append(reps, l)
		}
	}
	nd.Assert(strings.Join(nals, "\n") == strings.Join(want, "\n"), "every unit of every feed is reported once, in order")
	nd.Assert(strings.Join(rtps, "\n") == strings.Join(packets, "\n"), "every media packet is reported once, in order")
	nd.Assert(strings.Join(reps, "\n") == strings.Join(reports, "\n"), "every report of the server is reported once, in order")
	nd.ObserveU("units", uint64(len(nals)))
}

func vzK01(i int) bool { return i != 0 }

// orderly checks the commands of a session of the client and their times.
func (v *vzScenario) orderly(confirmed map[string]time.Time, end time.Time) {
	verbs := ""
	at := map[string]time.Time{}
	for _, r := range v.reqs {
		verbs += r.verb + " "
		at[r.verb] = r.at
	}
	nd.Assert(verbs == "OPTIONS DESCRIBE "+strings.Repeat("SETUP ", v.feeds)+"PLAY PAUSE TEARDOWN ", "the session is opened, played, paused and closed, each once")
	slack := time.Millisecond
	if !nd.Symbolic() {
		slack = 1200 * time.Millisecond
	}
	later := func(from, to time.Time) bool {
		d := to.Sub(from)
		return d >= 5*time.Second-slack && d <= 5*time.Second+slack
	}
	nd.Assert(later(confirmed[VerbPlay], at[VerbPause]), "playing is paused five seconds after it has started")
	nd.Assert(later(confirmed[VerbPause], at[VerbTeardown]), "the session is closed five seconds after it is paused")
	nd.Assert(later(confirmed[VerbTeardown], end), "the program ends five seconds after the session")
}
