package rtsp

import (
	"net"
	"strconv"
	"strings"

	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// sockets are the UDP sockets of the client as the server sees them: datagrams are sent to ports.
type vzSockets struct {
	conns []*net.UDPConn
	ports []int
	boxes []chan []byte
	gone  []bool
	idle  int // reads of closed sockets; under symbolic execution
}

func (u *vzSockets) listen() {
	if !nd.Symbolic() {
		return
	}
	model.ListenUDP = func(port int) *net.UDPConn {
		for i := range u.ports {
			if u.ports[i] == port && !u.gone[i] {
				return nil
			}
		}
		c := &net.UDPConn{}
		u.gone = append(u.gone, false)
		u.conns = append(u.conns, c)
		u.ports = append(u.ports, port)
		u.boxes = append(u.boxes, make(chan []byte, 64))
		return c
	}
	model.ReadUDP = func(c *net.UDPConn, p []byte) (int, error) {
		for i := range u.conns {
			if u.conns[i] == c {
				b, ok := <-u.boxes[i]
				if !ok {
					if u.idle++; u.idle > 40 {
						select {}
					}
					return 0, net.ErrClosed
				}
				if b == nil {
					return 0, vzTimedOut{}
				}
				return copy(p, b), nil
			}
		}
		return 0, net.ErrClosed
	}
	model.CloseUDP = func(c *net.UDPConn) error {
		for i := range u.conns {
			if u.conns[i] == c {
				if u.gone[i] {
					return net.ErrClosed
				}
				u.gone[i] = true
				close(u.boxes[i])
			}
		}
		return nil
	}
}

// free tells whether nobody listens on a port.
func (u *vzSockets) free(port int) bool {
	if nd.Symbolic() {
		for i := range u.ports {
			if u.ports[i] == port && !u.gone[i] {
				return false
			}
		}
		return true
	}
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err == nil {
		c.Close()
	}
	return err == nil
}

// sendTo sends a datagram to a port of the client; nil is a timeout of the read.
func (u *vzSockets) sendTo(port int, b []byte) bool {
	if nd.Symbolic() {
		for i := range u.ports {
			if u.ports[i] == port && !u.gone[i] {
				u.boxes[i] <- b
				return true
			}
		}
		return false
	}
	if b == nil {
		return true
	}
	c, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err != nil {
		return false
	}
	c.Write(b)
	c.Close()
	return true
}

// VerifUDP: datagrams sent to the ports which a unicast session has announced come out unchanged on the channels of
// their feeds, in order; commands keep the session alive.
func VerifUDP() {
	feeds := 1 + nd.Choose(nd.Param("feeds", 2))
	v := vzNewScenario(feeds)
	v.proto = ProtoUnicast
	respond := v.reply
	kept := 0
	v.reply = func(r vzRequest) {
		if r.verb == VerbOptions && v.setups == feeds {
			v.expect(nd.EqStr(r.session, v.session), "session is kept alive by its identifier")
			kept++
		}
		respond(r)
	}
	var u vzSockets
	u.listen()
	s, stop := v.open("")
	st, ok := vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
	nd.Assert(s.Play() == nil, "PLAY is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StagePlay, "playing is reported when the server starts it")
	nd.Quiesce()
	nd.Assert(len(v.client) == feeds, "every feed announces its ports")
	for i := nd.Choose(nd.Param("packets", 3)); i >= 0; i-- {
		f := nd.Choose(feeds)
		ctl := nd.Choose(2)
		size := [...]int{1, 0, 1500, 2049, 60000}[nd.Choose(nd.Param("sizes", 3))]
		b := append([]byte{}, vzAnyPayload(size)...)
		port := v.client[f].One
		if ctl == 1 {
			port = v.client[f].Two
			nd.Cover("control")
		}
		if nd.Choose(2) == 1 {
			u.sendTo(port, nil)
		}
		nd.Assert(u.sendTo(port, b), "the announced port is listened on")
		p, ok := vzNextPacket(s.Conn, 50)
		nd.Assert(ok, "the datagram is delivered")
		nd.Assert(int(p.Channel) == 2*f+ctl, "channel of the feed")
		nd.Assert(nd.EqBytes(p.Payload, b), "the datagram is delivered unchanged")
		nd.ObserveU("channel", uint64(p.Channel))
	}
	if nd.Param("burst", 0) == 1 {
		// Several datagrams before the consumer looks at the first one.
		var bs [][]byte
		k := [...]int{3, 30}[nd.Choose(2)]
		for i := 0; i < k; i++ {
			b := []byte{byte(i), byte(i >> 3)}
			if i%3 == 0 {
				b = nd.Bytes(2)
			}
			bs = append(bs, b)
			u.sendTo(v.client[feeds-1].Two, b)
			if i%10 == 9 {
				nd.Quiesce()
			}
		}
		for i := 0; i < 5; i++ {
			nd.Quiesce()
		}
		for i := range bs {
			p, ok := vzNextPacket(s.Conn, 50)
			nd.Assert(ok, "every datagram of a burst is delivered")
			nd.Assert(int(p.Channel) == 2*feeds-1, "channel of the feed")
			nd.Assert(nd.EqBytes(p.Payload, bs[i]), "datagrams of a burst are delivered unchanged")
		}
		nd.Cover("burst")
	}
	_, ok = vzNextPacket(s.Conn, 3)
	nd.Assert(!ok, "no datagram is invented")
	nd.Assert(kept > 0, "the session is kept alive")
	if feeds > 1 {
		nd.Cover("two feeds")
	}
	s.Stop()
	stop()
	v.settle()
}

// VerifMulticast: a multicast session asks for multicast delivery to a pair of ports per feed and listens on the ports
// which the server has assigned; datagrams to these come out unchanged on the channels of their feeds.
func VerifMulticast() {
	feeds := 1 + nd.Choose(nd.Param("feeds", 2))
	v := vzNewScenario(feeds)
	v.proto = ProtoMulticast
	ports := make([]Pair, feeds)
	kinds := make([]int, feeds)
	for i := range kinds {
		kinds[i] = nd.Choose(6)
	}
	var asked []string
	v.assign = func(i int, header string) string {
		f := strings.Split(header, ";")
		v.expect(f[0] == "RTP/AVP" || f[0] == "RTP/AVP/UDP", "media over UDP are asked for")
		mode, pair := 0, ""
		for _, p := range f[1:] {
			switch {
			case p == "multicast":
				mode++
			case p == "unicast" || strings.HasPrefix(p, "interleaved"):
				v.expect(false, "nothing but multicast is asked for")
			case strings.HasPrefix(p, "port="):
				pair = p[5:]
			}
		}
		v.expect(mode == 1, "multicast is asked for")
		k := strings.Index(pair, "-")
		if k < 0 {
			v.expect(false, "a pair of ports is asked for")
			return header
		}
		one, err := strconv.Atoi(pair[:k])
		two, err2 := strconv.Atoi(pair[k+1:])
		v.expect(err == nil && err2 == nil && one > 0 && one%2 == 0 && two == one+1, "an even port for media and the next one for control")
		for _, p := range asked {
			v.expect(p != pair, "pairs of ports are different")
		}
		asked = append(asked, pair)
		ports[i] = Pair{one, two}
		base := 46000 + 10*i
		n := strconv.Itoa(base)
		switch kinds[i] {
		case 0:
			return header
		case 1:
			ports[i] = Pair{base, base + 1}
			return "RTP/AVP;multicast;destination=239.1.2.3;port=" + n + "-" + strconv.Itoa(base+1) + ";ttl=16"
		case 2:
			ports[i] = Pair{base, base + 1}
			return "RTP/AVP/UDP;multicast;port=" + n
		case 3:
			ports[i] = Pair{base, base + 5}
			return "RTP/AVP;multicast;ttl=1;port=" + n + "-" + strconv.Itoa(base+5) + ";source=127.0.0.1"
		case 4:
			ports[i] = Pair{base + 3, base + 8}
			return "RTP/AVP;multicast;port=" + strconv.Itoa(base+3) + "-" + strconv.Itoa(base+8)
		}
		return "RTP/AVP;multicast;destination=239.1.2.3"
	}
	var u vzSockets
	u.listen()
	s, stop := v.open("")
	st, ok := vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
	nd.Assert(s.Play() == nil, "PLAY is sent")
	st, ok = vzNextStage(s, 100)
	nd.Assert(ok && st == StagePlay, "playing is reported when the server starts it")
	nd.Quiesce()
	for k := 0; k < nd.Param("packets", 2); k++ {
		f := nd.Choose(feeds)
		ctl := nd.Choose(2)
		b := vzAnyPayload(3)
		port := ports[f].One
		if ctl == 1 {
			port = ports[f].Two
			nd.Cover("control")
		}
		nd.Assert(u.sendTo(port, b), "the assigned port is listened on")
		p, ok := vzNextPacket(s.Conn, 50)
		nd.Assert(ok, "the datagram is delivered")
		nd.Assert(int(p.Channel) == 2*f+ctl, "channel of the feed")
		nd.Assert(nd.EqBytes(p.Payload, b), "the datagram is delivered unchanged")
		nd.ObserveU("channel", uint64(p.Channel))
		if kinds[f] > 0 && kinds[f] < 4 {
			nd.Cover("assigned port")
		}
	}
	for i := range ports {
		if kinds[i] > 0 && kinds[i] < 4 {
			nd.Assert(u.free(50000+2*i), "ports which the server has not assigned are left alone")
		}
	}
	_, ok = vzNextPacket(s.Conn, 3)
	nd.Assert(!ok, "no datagram is invented")
	s.Stop()
	for i := 0; i < 3; i++ {
		nd.Quiesce()
	}
	for _, p := range ports {
		nd.Assert(u.free(p.One) && u.free(p.Two), "ports are free once the session is stopped")
	}
	stop()
	v.settle()
}

// VerifStop: stopping ends all listeners, whatever they are doing; their ports can be listened on again.
func VerifStop() {
	feeds := 1 + nd.Choose(nd.Param("feeds", 2))
	before := vzBusy()
	v := vzNewScenario(feeds)
	v.proto = ProtoUnicast
	var u vzSockets
	u.listen()
	s, stop := v.open("")
	st, ok := vzNextStage(s, 100)
	nd.Assert(ok && st == StageReady, "session is ready once all feeds are set up")
	nd.Quiesce()
	nd.Assert(len(v.client) == feeds, "every feed announces its ports")
	var ports []int
	for _, p := range v.client {
		ports = append(ports, p.One, p.Two)
	}
	for _, p := range ports {
		nd.Assert(!u.free(p), "announced ports are listened on")
	}
	n := [...]int{0, 1, 25}[nd.Choose(3)]
	for i := 0; i < n; i++ {
		// Nobody takes them from the session.
		nd.Assert(u.sendTo(ports[i%nd.Param("spread", 2)], []byte{byte(i)}), "the announced port is listened on")
		if i%5 == 4 {
			nd.Quiesce()
		}
	}
	nd.Quiesce()
	s.Stop()
	for i := 0; i < 3; i++ {
		nd.Quiesce()
	}
	for _, p := range ports {
		nd.Assert(u.free(p), "ports are free once the session is stopped")
	}
	k := 0
	for {
		p, ok := vzNextPacket(s.Conn, 2)
		if !ok {
			break
		}
		nd.Assert(p.Channel < byte(nd.Param("spread", 2)) && len(p.Payload) == 1 && int(p.Payload[0]) < n && k < n, "only what was sent is delivered")
		k++
	}
	if n > 20 {
		nd.Cover("nobody reads")
		nd.Assert(k >= 20, "what was received is not lost")
	} else {
		nd.Assert(k == n, "what was received is not lost")
	}
	// The same ports again, for other channels.
	b := nd.Bytes(2)
	i := nd.Choose(len(ports))
	nd.Assert(s.AddSink(7, ports[i]) == nil, "port can be listened on again")
	s.Start()
	nd.Assert(u.sendTo(ports[i], b), "listening starts again")
	p, ok := vzNextPacket(s.Conn, 50)
	nd.Assert(ok && p.Channel == 7 && nd.EqBytes(p.Payload, b), "datagrams are delivered on the new channel")
	_, ok = vzNextPacket(s.Conn, 3)
	nd.Assert(!ok, "datagrams are delivered once")
	s.Stop()
	s.Stop() // there is nothing left to stop
	nd.Quiesce()
	nd.Assert(u.free(ports[i]), "ports are free once the session is stopped")
	stop()
	nd.Assert(vzAtRest(before, u.idle-len(u.conns)), "nobody reads from a connection that is gone")
	v.settle()
}
