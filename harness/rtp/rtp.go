package rtp

import nd "github.com/aboukirev/ouro/net/verifnd"

func vzBeU32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// wireRTP builds a well-formed packet out of arbitrary field values; sizes are concrete.
func vzWireRTP(cc int, x bool, xl, pl, pad int) (b []byte) {
	first := byte(0x80) | byte(cc)
	if pad > 0 {
		first |= 0x20
	}
	if x {
		first |= 0x10
	}
	b = append(b, first)
	b = append(b, nd.Bytes(11+4*cc)...)
	if x {
		b = append(b, nd.Bytes(2)...)
		b = append(b, byte(xl>>8), byte(xl))
		b = append(b, nd.Bytes(4*xl)...)
	}
	b = append(b, nd.Bytes(pl)...)
	if pad > 0 {
		b = append(b, nd.Bytes(pad-1)...)
		b = append(b, byte(pad))
	}
	return
}

// sizes picks sizes of a packet: small ones, or (big=1) the ones where narrow arithmetic wraps around.
func vzSizes(nxl, npl int) (cc int, x bool, xl, pl int) {
	if nd.Param("big", 0) == 1 {
		cc = []int{0, 15}[nd.Choose(2)]
		xl = []int{0, 63, 64, 0x4000}[nd.Choose(4)]
		x = xl > 0
		pl = []int{0, 1, 255, 256, 1460}[nd.Choose(5)]
		return
	}
	cc = nd.Choose(16)
	x = nd.Choose(2) == 1
	if x {
		xl = nd.Choose(nxl)
	}
	pl = nd.Choose(npl)
	return
}

// VerifUnpack: every field of every well-formed packet is where RFC 3550 puts it.
func VerifUnpack() {
	cc, x, xl, pl := vzSizes(nd.Param("xl", 4), nd.Param("pl", 4))
	pad := 0
	if nd.Param("big", 0) == 1 {
		pad = []int{0, 1, 127, 128, 255}[nd.Choose(5)]
	} else {
		pad = nd.Choose(nd.Param("pad", 6))
	}
	b := vzWireRTP(cc, x, xl, pl, pad)
	keep := append([]byte{}, b...)
	p, err := Unpack(b)
	nd.Assert(err == nil, "a well-formed packet is accepted")
	nd.Assert(p.P() == (pad > 0), "padding flag")
	nd.Assert(p.X() == x, "extension flag")
	nd.Assert(int(p.CC()) == cc, "CSRC count")
	nd.Assert(p.M() == (keep[1] >= 128), "marker")
	nd.Assert(p.PT() == keep[1]&127, "payload type")
	nd.Assert(p.SN == uint16(keep[2])<<8|uint16(keep[3]), "sequence number")
	nd.Assert(p.TS == vzBeU32(keep[4:]), "timestamp")
	nd.Assert(p.SSRC == vzBeU32(keep[8:]), "SSRC")
	nd.Assert(len(p.CSRC) == cc, "as many CSRCs as counted")
	off := 12
	for i := 0; i < cc; i++ {
		nd.Assert(p.CSRC[i] == vzBeU32(keep[off:]), "CSRC")
		off += 4
	}
	if x {
		nd.Assert(nd.And(p.XH == uint16(keep[off])<<8|uint16(keep[off+1]), int(p.XL) == xl), "extension header")
		off += 4
		nd.Assert(nd.EqBytes(p.XD, keep[off:off+4*xl]), "extension data")
		off += 4 * xl
		nd.Cover("extension")
	} else {
		nd.Assert(nd.And(len(p.XD) == 0, p.XL == 0), "no extension")
	}
	nd.Assert(nd.EqBytes(p.PL, keep[off:off+pl]), "the payload is exactly what is between the header and the padding")
	if pad > 1 && pl > 0 {
		nd.Cover("padded payload")
	}
	nd.ObserveB("pl", p.PL)
	nd.Assert(nd.EqBytes(b, keep), "the buffer is not modified")
}

// VerifUnpackAny: for arbitrary bytes Unpack either fails or describes exactly those bytes, and never crashes.
func VerifUnpackAny() {
	n := nd.Choose(nd.Param("n", 26))
	b := nd.Bytes(n)
	p, err := Unpack(b)
	ok := false
	cc, off, xl, pad := 0, 12, 0, 0
	// Reference: what the header says about sizes.
	if n >= 12 {
		if b[0]>>6 == 2 {
			cc = int(b[0] & 15)
			off = 12 + 4*cc
			ok = off <= n
			if ok && b[0]&0x10 != 0 {
				ok = off+4 <= n
				if ok {
					xl = int(b[off+2])<<8 | int(b[off+3])
					off += 4 + 4*xl
					ok = off <= n
				}
			}
			if ok && b[0]&0x20 != 0 {
				pad = int(b[n-1])
				ok = pad > 0 && off+pad <= n
			}
		}
	}
	if !ok {
		nd.Assert(err != nil, "a packet that is not version 2 or is shorter than its header says is rejected")
		nd.Assert(p == nil, "nothing is returned for a rejected packet")
		if n >= 12 {
			nd.Cover("inconsistent header")
		}
		return
	}
	nd.Assert(err == nil, "a consistent packet is accepted")
	nd.Assert(len(p.CSRC) == cc, "as many CSRCs as counted")
	nd.Assert(int(p.XL) == xl && len(p.XD) == 4*xl, "extension size")
	nd.Assert(nd.EqBytes(p.PL, b[off:n-pad]), "the payload is exactly what is between the header and the padding")
	nd.ObserveB("pl", p.PL)
	if pad > 0 && xl > 0 {
		nd.Cover("extension and padding")
	}
}

// VerifPack: packing any consistent packet gives its RFC 3550 encoding, and unpacking that gives the same packet.
func VerifPack() {
	cc, x, xl, pl := vzSizes(nd.Param("xl", 3), nd.Param("pl", 5))
	pad := nd.Choose(2) == 1
	p := &Packet{VPXCC: 0x80 | byte(cc), MPT: nd.Byte(), SN: nd.U16(), TS: nd.U32(), SSRC: nd.U32(), PL: nd.Bytes(pl)}
	for i := 0; i < cc; i++ {
		p.CSRC = append(p.CSRC, nd.U32())
	}
	if x {
		p.VPXCC |= 0x10
		p.XH = nd.U16()
		p.XL = uint16(xl)
		p.XD = nd.Bytes(4 * xl)
	}
	if pad {
		p.VPXCC |= 0x20
	}
	b := p.Pack()
	nd.ObserveB("wire", b)
	size := 12 + 4*cc + pl
	if x {
		size += 4 + 4*xl
	}
	if pad {
		nd.Assert(len(b) > size, "padding takes at least one byte")
	} else {
		nd.Assert(len(b) == size, "packed size")
	}
	nd.Assert(nd.And(b[0] == p.VPXCC, b[1] == p.MPT), "flags")
	nd.Assert(nd.And(nd.And(vzBeU32(b[4:]) == p.TS, vzBeU32(b[8:]) == p.SSRC), uint16(b[2])<<8|uint16(b[3]) == p.SN), "fixed header")
	q, err := Unpack(b)
	nd.Assert(err == nil, "a packed packet can be unpacked")
	nd.Assert(nd.And(nd.And(q.VPXCC == p.VPXCC, q.MPT == p.MPT), nd.And(q.SN == p.SN, nd.And(q.TS == p.TS, q.SSRC == p.SSRC))), "the header survives the round trip")
	nd.Assert(len(q.CSRC) == cc, "as many CSRCs as packed")
	for i := 0; i < cc; i++ {
		nd.Assert(q.CSRC[i] == p.CSRC[i], "CSRC survives the round trip")
	}
	nd.Assert(nd.And(q.XH == p.XH, nd.And(q.XL == p.XL, nd.EqBytes(q.XD, p.XD))), "the extension survives the round trip")
	nd.Assert(nd.EqBytes(q.PL, p.PL), "the payload survives the round trip")
	if cc == 15 && xl > 0 && pad {
		nd.Cover("everything")
	}
}

// VerifRepack: unpacking and packing a packet without padding reproduces it byte for byte.
func VerifRepack() {
	cc, x, xl, pl := vzSizes(nd.Param("xl", 3), nd.Param("pl", 4))
	b := vzWireRTP(cc, x, xl, pl, 0)
	p, err := Unpack(b)
	nd.Assert(err == nil, "a well-formed packet is accepted")
	w := p.Pack()
	nd.ObserveB("wire", w)
	nd.Assert(nd.EqBytes(w, b), "packing an unpacked packet reproduces its bytes")
	if x {
		nd.Cover("extension")
	}
}
