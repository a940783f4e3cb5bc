package rtp

import nd "github.com/aboukirev/ouro/net/verifnd"

func vzSame(p *Packet, k Packet) bool {
	same := nd.And(nd.And(p.VPXCC == k.VPXCC, p.MPT == k.MPT), nd.And(nd.And(p.SN == k.SN, p.TS == k.TS), nd.And(p.SSRC == k.SSRC, nd.And(p.XH == k.XH, p.XL == k.XL))))
	if len(p.CSRC) != len(k.CSRC) {
		return false
	}
	for i := range k.CSRC {
		same = nd.And(same, p.CSRC[i] == k.CSRC[i])
	}
	return nd.And(same, nd.And(nd.EqBytes(p.XD, k.XD), nd.EqBytes(p.PL, k.PL)))
}

func vzKeep(p *Packet) Packet {
	k := *p
	k.CSRC = append([]uint32{}, p.CSRC...)
	k.XD = append([]byte{}, p.XD...)
	k.PL = append([]byte{}, p.PL...)
	return k
}

// VerifRepeat: a packet stays as it was decoded or packed when others are, and the same bytes decode the same again.
func VerifRepeat() {
	var bufs [2][]byte
	for i := range bufs {
		x := nd.Choose(2) == 1
		bufs[i] = vzWireRTP([...]int{0, 2}[nd.Choose(2)], x, nd.Choose(2), nd.Choose(3), nd.Choose(2))
	}
	a, b := bufs[0], bufs[1]
	one, err := Unpack(a)
	nd.Assert(err == nil, "a well-formed packet is accepted")
	keep := vzKeep(one)
	two, err := Unpack(b)
	nd.Assert(err == nil, "a well-formed packet is accepted")
	keep2 := vzKeep(two)
	nd.Assert(vzSame(one, keep), "a packet stays as it was decoded")
	wire := one.Pack()
	text := append([]byte{}, wire...)
	wire2 := two.Pack()
	text2 := append([]byte{}, wire2...)
	nd.Assert(nd.EqBytes(wire, text), "a packet stays as it was packed")
	nd.Assert(nd.EqBytes(one.Pack(), text), "the same packet is packed the same again")
	nd.Assert(nd.EqBytes(wire2, text2), "a packet stays as it was packed")
	again, err := Unpack(a)
	nd.Assert(err == nil && vzSame(again, keep), "the same bytes are the same packet again")
	nd.Assert(nd.And(vzSame(one, keep), vzSame(two, keep2)), "a packet stays as it was decoded")
	nd.Cover("again")
}
