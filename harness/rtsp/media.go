package rtsp

import (
	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

func vzOctets32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// rtpPacket builds a packet with whatever optional parts a camera may use.
func vzRtpPacket(form int, sn uint16, ts uint32, mark bool, payload []byte) []byte {
	b := []byte{0x80, 96, byte(sn >> 8), byte(sn)}
	if mark {
		b[1] |= 0x80
	}
	b = append(b, vzOctets32(ts)...)
	b = append(b, nd.Bytes(4)...)
	if form == 1 {
		b[0] |= 2
		b = append(b, nd.Bytes(8)...)
	}
	if form == 2 {
		b[0] |= 0x10
		b = append(b, nd.Byte(), nd.Byte(), 0, 1)
		b = append(b, nd.Bytes(4)...)
	}
	b = append(b, payload...)
	if form == 3 {
		b[0] |= 0x20
		b = append(b, nd.Byte(), nd.Byte(), 3)
		nd.Cover("padding")
	}
	return b
}

type vzMediaUnit struct {
	head byte
	data []byte
	ts   uint32
	don  uint16
}

// VerifMedia: NAL units which a camera puts into RTP packets interleaved with the session come out of the depacketizer
// as they were, in order, also when packets are processed long after they have arrived.
func VerifMedia() {
	var want []vzMediaUnit
	var stream []byte
	sn, ts := nd.U16(), nd.U32()
	don := uint16(0)
	nal := func(n int) (byte, []byte) {
		h := nd.Byte()
		nd.Assume(h&31 >= 1 && h&31 <= 23 && h&0x80 == 0)
		b := nd.Bytes(n)
		for i := range b {
			nd.Assume(b[i] > 3) // no emulation prevention
		}
		return h, b
	}
	expect := func(h byte, b []byte) {
		want = append(want, vzMediaUnit{h, b, ts, don})
		don++
	}
	packets, reports := 0, 0
	form := nd.Choose(4)
	put := func(payload []byte, mark bool) {
		stream = append(stream, vzFrame(0, vzRtpPacket((form+packets)%4, sn, ts, mark, payload))...)
		sn++
		packets++
	}
	for i := nd.Choose(nd.Param("accessUnits", 2)); i >= 0; i-- {
		switch nd.Choose(3) {
		case 0:
			h, b := nal(1 + nd.Choose(2))
			expect(h, b)
			put(append([]byte{h}, b...), true)
		case 1:
			p := []byte{24}
			for k := 0; k < 2; k++ {
				h, b := nal(1 + k)
				expect(h, b)
				p = append(p, 0, byte(len(b)+1), h)
				p = append(p, b...)
			}
			put(p, true)
			nd.Cover("aggregate")
		case 2:
			h, b := nal(3)
			expect(h, b)
			put([]byte{h&0xe0 | 28, 0x80 | h&31, b[0]}, false)
			if nd.Choose(2) == 1 {
				put([]byte{h&0xe0 | 28, h & 31, b[1]}, false)
				put([]byte{h&0xe0 | 28, 0x40 | h&31, b[2]}, true)
			} else {
				put([]byte{h&0xe0 | 28, 0x40 | h&31, b[1], b[2]}, true)
			}
			nd.Cover("fragments")
		}
		if nd.Choose(2) == 1 {
			r := append([]byte{0x80, 200, 0, 6}, nd.Bytes(24)...)
			stream = append(stream, vzFrame(1, r)...)
			reports++
			nd.Cover("report")
		}
		ts += 3000
	}
	s := NewSession()
	nd.Assert(s.Open(vzPlay(vzCut(stream, nd.Param("cuts", 0), false)), ProtoTCP) == nil, "session is open")
	vzImpatient(s.Conn)
	var got []RawPacket
	late := nd.Choose(2) == 1
	sink := h264.NewNALSink()
	var units []h264.NALUnit
	process := func(p RawPacket) {
		if p.Channel == 1 {
			r, err := rtcp.Unpack(p.Payload)
			nd.Assert(err == nil && r.DSR != nil, "reports are decoded")
			reports--
			return
		}
		q, err := rtp.Unpack(p.Payload)
		nd.Assert(err == nil && q.PT() == 96, "packets are decoded")
		nd.Assert(sink.Push(q.PL, q.TS) == nil, "payloads are accepted")
		units = append(units, sink.Units...)
	}
	for i := packets + reports; i > 0; i-- {
		p, ok := vzNextPacket(s.Conn, 100)
		nd.Assert(ok, "every packet is delivered")
		if late {
			got = append(got, p)
		} else {
			process(p)
		}
	}
	for _, p := range got {
		process(p)
	}
	nd.Assert(reports == 0, "all reports are delivered")
	nd.Assert(len(units) == len(want), "as many units as were sent")
	for i, w := range want {
		u := &units[i]
		nd.Assert(u.Header == w.head && nd.EqBytes(u.Data, w.data), "units come out as they were sent, in order")
		nd.Assert(u.TS == w.ts && u.Don == w.don, "timestamp and order of units")
		nd.Assert(u.Type() == w.head&31 && u.RefIdc() == w.head>>5, "type and importance of units")
		nd.ObserveB("unit", u.Data)
	}
}
