package rtcp

import nd "github.com/aboukirev/ouro/net/verifnd"

func vzBeU32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// checkSR compares a parsed sender report with its bytes.
func vzCheckSR(p *Packet, b []byte, rc int) {
	nd.Assert(p.DSR != nil, "a sender report is decoded")
	d := p.DSR
	nd.Assert(d.SSRC == vzBeU32(b[4:]), "sender SSRC")
	nd.Assert(d.NTPTS == uint64(vzBeU32(b[8:]))<<32|uint64(vzBeU32(b[12:])), "NTP timestamp")
	nd.Assert(d.RTPTS == vzBeU32(b[16:]), "RTP timestamp")
	nd.Assert(d.PC == vzBeU32(b[20:]), "packet count")
	nd.Assert(d.OC == vzBeU32(b[24:]), "octet count")
	nd.Assert(len(d.Reports) == rc, "as many report blocks as counted")
	for i := 0; i < rc; i++ {
		r, w := d.Reports[i], b[28+24*i:]
		nd.Assert(nd.And(nd.And(r.SSRC == vzBeU32(w), r.FL == w[4]), r.PL == vzBeU32(w[4:])&0xFFFFFF), "report source and losses")
		nd.Assert(nd.And(nd.And(r.SN == vzBeU32(w[8:]), r.JIT == vzBeU32(w[12:])), nd.And(r.LSR == vzBeU32(w[16:]), r.DLSR == vzBeU32(w[20:]))), "report statistics")
	}
}

// VerifSR: every field of every well-formed sender report is decoded; report blocks come in order.
func VerifSR() {
	rc := nd.Choose(nd.Param("rc", 5))
	if nd.Param("full", 0) == 1 {
		rc = nd.Choose(32)
	}
	ext := nd.Choose(nd.Param("ext", 3)) // profile-specific extension, in words
	ln := 6 + 6*rc + ext
	next := nd.Choose(3) // bytes of the next packet in the compound
	b := []byte{0x80 | byte(nd.Choose(2))<<5 | byte(rc), 200, byte(ln >> 8), byte(ln)}
	b = append(b, nd.Bytes(4*ln+next)...)
	keep := append([]byte{}, b...)
	p, err := Unpack(b)
	nd.Assert(err == nil, "a well-formed sender report is accepted")
	nd.Assert(nd.And(p.PT == 200, int(p.LN) == ln), "header")
	nd.Assert(int(p.C()) == rc, "count")
	nd.Assert(p.P() == (b[0]&0x20 != 0), "padding flag")
	vzCheckSR(p, keep, rc)
	nd.ObserveU("ssrc", uint64(p.DSR.SSRC))
	if rc > 1 {
		nd.Cover("two blocks")
	}
	nd.Assert(nd.EqBytes(b, keep), "the buffer is not modified")
}

// VerifUnpackAny: arbitrary bytes either decode consistently with their header or are rejected; never a crash.
func VerifUnpackAny() {
	n := nd.Param("from", 0) + nd.Choose(nd.Param("n", 60))
	b := nd.Bytes(n)
	if n > 0 && nd.Param("sr", 0) == 1 {
		b[0] = 0x80 | b[0]&0x3f
		if n > 1 {
			b[1] = 200
		}
	}
	p, err := Unpack(b)
	if n < 4 {
		nd.Assert(nd.And(err != nil, p == nil), "a packet shorter than its header is rejected")
		nd.Cover("too short")
		return
	}
	if b[0]>>6 != 2 {
		nd.Assert(nd.And(err != nil, p == nil), "a packet of another version is rejected")
		nd.Cover("wrong version")
		return
	}
	rc := int(b[0] & 31)
	ln := int(b[2])<<8 | int(b[3])
	if b[1] != 200 {
		if err == nil {
			nd.Assert(nd.And(p.VPC == b[0], nd.And(p.PT == b[1], int(p.LN) == ln)), "header of other packets")
			nd.Assert(p.DSR == nil, "only sender reports are decoded as such")
			nd.Cover("other type")
		}
		return
	}
	if nd.Or(n < 4+4*ln, ln < 6+6*rc) {
		nd.Assert(nd.And(err != nil, p == nil), "a sender report shorter than its counts say is rejected")
		nd.Cover("inconsistent")
		return
	}
	nd.Assert(err == nil, "a consistent sender report is accepted")
	vzCheckSR(p, b, int(p.C()))
	nd.Assert(int(p.C()) == rc, "count")
	nd.Cover("accepted")
	nd.ObserveU("oc", uint64(p.DSR.OC))
}
