package rtsp

import (
	nd "github.com/aboukirev/ouro/net/verifnd"
)

func vzFrame(ch byte, payload []byte) []byte {
	return append([]byte{'$', ch, byte(len(payload) >> 8), byte(len(payload))}, payload...)
}

// anyPayload makes a payload with arbitrary bytes at its ends and, if it is short, everywhere.
func vzAnyPayload(n int) []byte {
	if n <= 8 {
		return nd.Bytes(n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	copy(b, nd.Bytes(2))
	copy(b[n-2:], nd.Bytes(2))
	return b
}

// VerifInterleaved: interleaved frames come out as they were sent, in order, however the stream is cut into reads and
// wherever it pauses.
func VerifInterleaved() {
	sizes := [...]int{0, 1, 3, 36, 2044, 2045, 4096, 65535}
	burst := nd.Param("burst", 0)
	n := burst
	if burst == 0 {
		n = 1 + nd.Choose(nd.Param("frames", 2))
	}
	var want []RawPacket
	var stream []byte
	for i := 0; i < n; i++ {
		size := 1
		if nd.Param("big", 0) == 1 {
			size = nd.Choose(len(sizes))
		} else if burst == 0 {
			size = nd.Choose(nd.Param("small", 3))
		}
		p := RawPacket{Channel: nd.Byte(), Payload: vzAnyPayload(sizes[size])}
		want = append(want, p)
		stream = append(stream, vzFrame(p.Channel, p.Payload)...)
	}
	var chunks [][]byte
	if nd.Param("big", 0) == 1 {
		// Reads of the size of a segment.
		for len(stream) > 1448 {
			chunks = append(chunks, stream[:1448])
			stream = stream[1448:]
		}
		chunks = append(chunks, stream)
	} else {
		chunks = vzCut(stream, nd.Param("cuts", 2), nd.Param("pauses", 1) == 1)
	}
	uri := vzPlay(chunks)
	s := NewSession()
	nd.Assert(s.Open(uri, ProtoTCP) == nil, "session is open")
	vzImpatient(s.Conn)
	if burst > 0 {
		// The consumer is late.
		for i := 0; i < 10; i++ {
			nd.Quiesce()
		}
		nd.Cover("late consumer")
	}
	var got []RawPacket
	for _, w := range want {
		p, ok := vzNextPacket(s.Conn, 100)
		nd.Assert(ok, "every frame is delivered")
		nd.Assert(p.Channel == w.Channel, "channel of the frame")
		nd.Assert(nd.EqBytes(p.Payload, w.Payload), "payload of the frame, in order")
		nd.ObserveU("channel", uint64(p.Channel))
		if len(w.Payload) < 64 {
			nd.ObserveB("payload", p.Payload)
		}
		got = append(got, p)
	}
	for i, w := range want {
		nd.Assert(nd.EqBytes(got[i].Payload, w.Payload), "the payload does not change afterwards")
	}
	_, ok := vzNextPacket(s.Conn, 4)
	nd.Assert(!ok, "no frame is invented")
	if len(chunks) > 2 {
		nd.Cover("several reads")
	}
	for _, c := range chunks {
		if c == nil {
			nd.Cover("pause")
		}
	}
}
