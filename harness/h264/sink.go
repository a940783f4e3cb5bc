package h264

import nd "github.com/aboukirev/ouro/net/verifnd"

// annexBStart: payload begins with a start code, i.e. it is a byte stream and not an RTP payload.
func vzAnnexBStart(b []byte) bool {
	if len(b) >= 3 && b[0] == 0 && b[1] == 0 && b[2] == 1 {
		return true
	}
	return len(b) >= 4 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1
}

// pushed hands the sink a private copy of payload and scribbles over it afterwards.
func vzPushed(s *NALSink, payload []byte, ts uint32) error {
	b := append([]byte{}, payload...)
	err := s.Push(b, ts)
	for i := range b {
		b[i] ^= 0xff
	}
	return err
}

func vzCat(parts ...[]byte) []byte {
	out := []byte{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func vzBe16(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }

// nalHeader returns a NAL header octet with a single-unit type.
func vzNalHeader() byte {
	h := nd.Byte()
	nd.Assume(h&31 >= 1 && h&31 <= 23)
	return h
}

func vzCheckUnit(u *NALUnit, nal []byte, don uint16, ts uint32) {
	nd.Assert(u.Header == nal[0], "the unit carries its NAL header")
	nd.Assert(u.Don == don, "the unit carries its decoding order number")
	nd.Assert(u.TS == ts, "the unit carries its timestamp")
	nd.Assert(nd.EqBytes(u.Data, vzRefDecap(nal[1:])), "the unit carries exactly its payload")
	nd.ObserveB("data", u.Data)
	nd.ObserveU("don", uint64(u.Don))
	nd.ObserveU("ts", uint64(u.TS))
	t := u.Type()
	nd.Assert(nd.And(t == nal[0]&31, u.RefIdc() == nal[0]>>5&3), "type and reference importance come from the header")
}

// anyNAL returns a NAL unit of 1..max octets.
func vzAnyNAL(max int) []byte {
	n := nd.Choose(max) + 1
	return vzCat([]byte{vzNalHeader()}, nd.Bytes(n-1))
}

// VerifSinkSingle: single NAL unit payloads produce exactly one unit each, numbered consecutively.
func VerifSinkSingle() {
	s := NewNALSink()
	s.Don = nd.U16()
	first := s.Don
	k := nd.Param("pushes", 2)
	for i := 0; i < k; i++ {
		nal := vzAnyNAL(nd.Param("len", 5))
		ts := nd.U32()
		nd.Assert(vzPushed(s, nal, ts) == nil, "a single unit payload is accepted")
		nd.Assert(len(s.Units) == 1, "a single unit payload yields one unit")
		vzCheckUnit(&s.Units[0], nal, first+uint16(i), ts)
	}
	nd.Cover("done")
}

// VerifSinkSTAP: single-time aggregation packets.
func VerifSinkSTAP() {
	s := NewNALSink()
	s.Don = nd.U16()
	don := s.Don
	ts := nd.U32()
	nri := nd.Byte() & 0x60
	var p []byte
	if nd.Choose(2) == 0 {
		p = []byte{nri | 24}
	} else {
		don = nd.U16()
		p = vzCat([]byte{nri | 25}, vzBe16(don))
		nd.Cover("STAP-B")
	}
	k := nd.Choose(nd.Param("units", 3)) + 1
	var nals [][]byte
	for i := 0; i < k; i++ {
		nal := vzAnyNAL(nd.Param("len", 3))
		n := 0
		if i == 0 {
			n = [...]int{0, 300, 33000}[nd.Choose(3)]
		}
		if n > 0 {
			// a unit whose size needs both octets
			pad := make([]byte, n)
			for j := range pad {
				pad[j] = byte(j) | 1
			}
			nal = vzCat(nal[:1], pad, nal[1:])
			nd.Cover("long unit")
		}
		nals = append(nals, nal)
		p = vzCat(p, vzBe16(uint16(len(nal))), nal)
	}
	nd.Assert(vzPushed(s, p, ts) == nil, "a well formed aggregation packet is accepted")
	nd.Assert(len(s.Units) == k, "an aggregation packet yields all of its units")
	for i := range nals {
		vzCheckUnit(&s.Units[i], nals[i], don+uint16(i), ts)
	}
	// the number sequence continues after the packet
	nal := []byte{vzNalHeader(), 0x55}
	nd.Assert(vzPushed(s, nal, ts) == nil, "a single unit payload is accepted")
	nd.Assert(len(s.Units) == 1, "units of earlier payloads are not repeated")
	vzCheckUnit(&s.Units[0], nal, don+uint16(k), ts)
}

// VerifSinkMTAP: multi-time aggregation packets.
func VerifSinkMTAP() {
	s := NewNALSink()
	s.Don = nd.U16()
	ts := nd.U32()
	donb := nd.U16()
	wide := nd.Choose(2) == 1
	typ := byte(26)
	if wide {
		typ = 27
	}
	p := vzCat([]byte{nd.Byte()&0x60 | typ}, vzBe16(donb))
	k := nd.Choose(nd.Param("units", 3)) + 1
	var nals [][]byte
	var dons []uint16
	var tss []uint32
	for i := 0; i < k; i++ {
		nal := vzAnyNAL(nd.Param("len", 3))
		if i == 0 && nd.Choose(2) == 1 {
			pad := make([]byte, 33000)
			for j := range pad {
				pad[j] = byte(j) | 1
			}
			nal = vzCat(nal[:1], pad, nal[1:])
			nd.Cover("long unit")
		}
		dond := nd.Byte()
		off := nd.U32()
		nals = append(nals, nal)
		dons = append(dons, donb+uint16(dond))
		p = vzCat(p, vzBe16(uint16(len(nal))), []byte{dond})
		if wide {
			off &= 0xffffff
			p = append(p, byte(off>>16))
		} else {
			off &= 0xffff
		}
		p = vzCat(p, vzBe16(uint16(off)), nal)
		tss = append(tss, ts+off)
	}
	nd.Assert(vzPushed(s, p, ts) == nil, "a well formed aggregation packet is accepted")
	nd.Assert(len(s.Units) == k, "an aggregation packet yields all of its units")
	for i := range nals {
		vzCheckUnit(&s.Units[i], nals[i], dons[i], tss[i])
	}
	if wide {
		nd.Cover("MTAP24")
	} else {
		nd.Cover("MTAP16")
	}
}

// VerifSinkTruncated: an aggregation packet whose unit sizes do not fit the payload is rejected and never yields a
// unit with octets from elsewhere.
func VerifSinkTruncated() {
	s := NewNALSink()
	typ := byte(24 + nd.Choose(4))
	head := 3
	off := 2
	if typ == 24 {
		head = 1
	}
	if typ >= 26 {
		off = 5
	}
	if typ == 27 {
		off = 6
	}
	n := off + nd.Choose(nd.Param("n", 8))
	body := nd.Bytes(n)
	p := vzCat([]byte{typ | 0x60}, nd.Bytes(head-1), body)
	err := vzPushed(s, p, nd.U32())
	size := int(body[0])<<8 | int(body[1])
	if size == 0 || size > n-off {
		nd.Assert(err != nil, "a unit size of zero or beyond the payload is an error")
		nd.Assert(len(s.Units) == 0, "no unit is made up")
		nd.Cover("rejected")
		return
	}
	nd.Assert(len(s.Units) >= 1, "a complete leading unit is delivered")
	u := &s.Units[0]
	size = nd.Concrete(size)
	nd.Assert(u.Header == body[off], "the leading unit has its header")
	nd.Assert(nd.EqBytes(u.Data, vzRefDecap(body[off+1:off+size])), "the leading unit has exactly its payload")
	nd.Cover("leading unit")
}

// VerifSinkAny: arbitrary payloads, in any order, neither crash the sink nor produce more octets than came in.
func VerifSinkAny() {
	s := NewNALSink()
	in := 0
	k := nd.Param("pushes", 2)
	for i := 0; i < k; i++ {
		n := nd.Choose(nd.Param("n", 8) + 1)
		p := nd.Bytes(n)
		err := vzPushed(s, p, nd.U32())
		if n == 0 {
			nd.Assert(err != nil, "an empty payload is an error")
			nd.Assert(len(s.Units) == 0, "an empty payload yields no units")
			continue
		}
		in += n
		out := 0
		for j := range s.Units {
			out += len(s.Units[j].Data)
		}
		nd.Assert(out <= in, "units contain no more octets than were received")
		nd.ObserveU("units", uint64(len(s.Units)))
	}
	nd.Cover("done")
}

// VerifSinkFU: a NAL unit sent as fragments (FU-A, or FU-B followed by FU-A) comes out once, complete, when the last
// fragment arrives.
func VerifSinkFU() {
	s := NewNALSink()
	s.Don = nd.U16()
	don := s.Don
	ts := nd.U32()
	hdr := vzNalHeader()
	fub := nd.Choose(2) == 1
	var lead []byte
	if nd.Choose(2) == 1 {
		// an ordinary unit first
		lead = vzAnyNAL(2)
		nd.Assert(vzPushed(s, lead, ts-1) == nil, "a single unit payload is accepted")
		don++
	}
	next := don + 1
	if fub {
		don = nd.U16()
		nd.Cover("FU-B")
	}
	k := nd.Choose(nd.Param("frags", 3)) + 2
	nal := []byte{hdr}
	for i := 0; i < k; i++ {
		n := nd.Choose(nd.Param("len", 3)) + 1
		d := nd.Bytes(n)
		nal = append(nal, d...)
		fh := hdr & 31
		if i == 0 {
			fh |= 0x80
		}
		if i == k-1 {
			fh |= 0x40
		}
		p := []byte{hdr&0xe0 | 28, fh}
		if fub && i == 0 {
			p = vzCat([]byte{hdr&0xe0 | 29, fh}, vzBe16(don))
		}
		nd.Assert(vzPushed(s, vzCat(p, d), ts) == nil, "a fragment is accepted")
		if i < k-1 {
			nd.Assert(len(s.Units) == 0, "nothing is delivered before the last fragment")
		}
	}
	nd.Assert(len(s.Units) == 1, "the last fragment delivers the unit")
	vzCheckUnit(&s.Units[0], nal, don, ts)
	if !fub {
		nal = []byte{vzNalHeader(), 0x55}
		nd.Assert(vzPushed(s, nal, ts) == nil, "a single unit payload is accepted")
		nd.Assert(len(s.Units) == 1, "units of earlier payloads are not repeated")
		vzCheckUnit(&s.Units[0], nal, next, ts)
		nd.Cover("FU-A")
	}
}

// VerifSinkFULoss: whatever fragments are lost, only whole units are delivered.
func VerifSinkFULoss() {
	s := NewNALSink()
	hdr := vzNalHeader()
	base := nd.U32()
	var pend []byte // expected content of the unit being received, nil when its start is missing
	var pts uint32
	open := false // fragments of one unit in progress without interruption
	n := nd.Param("packets", 5)
	for i := 0; i < n; i++ {
		kind := nd.Choose(4)
		ts := base + uint32(nd.Choose(2))
		d := []byte{nd.Byte(), byte(0x10 + i)}
		fh := hdr & 31
		switch kind {
		case 0:
			fh |= 0x80
		case 2:
			fh |= 0x40
		case 3:
			if open {
				return // interleaving other payloads with fragments is outside the contract
			}
			nal := vzCat([]byte{hdr}, d)
			nd.Assert(vzPushed(s, nal, ts) == nil, "a single unit payload is accepted")
			nd.Assert(len(s.Units) == 1, "a single unit payload yields one unit")
			continue
		}
		nd.Assert(vzPushed(s, vzCat([]byte{hdr&0xe0 | 28, fh}, d), ts) == nil, "a fragment is accepted")
		switch kind {
		case 0:
			pend, pts, open = vzCat([]byte{hdr}, d), ts, true
		case 1:
			if open && pts == ts {
				pend = append(pend, d...)
			} else {
				open = false
			}
		case 2:
			if open && pts == ts {
				pend = append(pend, d...)
				nd.Assert(len(s.Units) == 1, "the last fragment delivers the unit")
				u := &s.Units[0]
				nd.Assert(nd.And(u.Header == hdr, u.TS == ts), "the unit has its header and timestamp")
				nd.Assert(nd.EqBytes(u.Data, vzRefDecap(pend[1:])), "the unit consists of its own fragments only")
				nd.Cover("delivered")
				open = false
				continue
			}
			open = false
			nd.Cover("incomplete")
		}
		nd.Assert(len(s.Units) == 0, "an incomplete unit is never delivered")
	}
}

// VerifSinkAnnexB: a byte stream payload is split into its units.
func VerifSinkAnnexB() {
	s := NewNALSink()
	s.Don = nd.U16()
	don := s.Don
	ts := nd.U32()
	k := nd.Choose(nd.Param("units", 3)) + 1
	var p []byte
	var nals [][]byte
	for i := 0; i < k; i++ {
		if nd.Choose(2) == 1 {
			p = append(p, 0)
		}
		p = append(p, 0, 0, 1)
		nal := vzAnyNAL(nd.Param("len", 3))
		n := len(nal)
		nd.Assume(nal[n-1] != 0)
		for j := 0; j+2 < n; j++ {
			nd.Assume(!nd.And(nd.And(nal[j] == 0, nal[j+1] == 0), nal[j+2] < 3))
		}
		nals = append(nals, nal)
		p = append(p, nal...)
	}
	nd.Assert(vzPushed(s, p, ts) == nil, "a byte stream is accepted")
	nd.Assert(len(s.Units) == k, "a byte stream yields all of its units")
	for i := range nals {
		vzCheckUnit(&s.Units[i], nals[i], don+uint16(i), ts)
	}
	if k > 1 {
		nd.Cover("several units")
	}
}

// VerifDonDiff: the signed distance between decoding order numbers follows RFC 6184, section 5.5.
func VerifDonDiff() {
	m, n := nd.U16(), nd.U16()
	d := DonDiff(m, n)
	nd.ObserveU("d", uint64(int64(d)))
	var want int
	a, b := int(m), int(n)
	switch {
	case a == b:
		want = 0
	case a < b && b-a < 32768:
		want = b - a
	case a > b && a-b >= 32768:
		want = 65536 - a + b
	case a < b && b-a >= 32768:
		want = -(a + 65536 - b)
	default:
		want = -(a - b)
	}
	nd.Assert(d == want, "the distance follows the wrap-around rules")
	if want < 0 && a < b {
		nd.Cover("wrapped")
	}
}
