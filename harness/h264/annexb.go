package h264

import nd "github.com/aboukirev/ouro/net/verifnd"

// refDecap is the reference removal of emulation prevention bytes: a 03 directly after two zero bytes is dropped.
func vzRefDecap(b []byte) []byte {
	out := []byte{}
	z := 0
	for _, c := range b {
		if z >= 2 && c == 3 {
			z = 0
			continue
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// refEncap is the reference insertion: a 03 goes between two zero bytes and a byte of 0..3.
func vzRefEncap(b []byte) []byte {
	out := []byte{}
	z := 0
	for _, c := range b {
		if z >= 2 && c <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// VerifEmulation: emulation prevention round-trips, leaves no start code behind and follows the specification.
func VerifEmulation() {
	n := nd.Choose(nd.Param("n", 7) + 1)
	raw := nd.Bytes(n)
	keep := append([]byte{}, raw...)
	enc := RBSPToEncapsulated(raw)
	nd.ObserveB("enc", enc)
	for i := 0; i+2 < len(enc); i++ {
		nd.Assert(!nd.And(nd.And(enc[i] == 0, enc[i+1] == 0), enc[i+2] < 3), "the encapsulated form contains no 00 00 00, 00 00 01 or 00 00 02")
	}
	back := EBSPToRaw(enc)
	nd.Assert(nd.EqBytes(back, keep), "removing emulation prevention restores the payload")
	nd.Assert(nd.EqBytes(raw, keep), "the payload passed in is not modified")
	if n > 0 && keep[n-1] != 0 {
		nd.Assert(nd.EqBytes(enc, vzRefEncap(keep)), "emulation prevention bytes are inserted exactly where required")
		nd.Cover("proper payload")
	}
	if len(enc) > n+1 {
		nd.Cover("two insertions")
	}
}

// VerifDecap: removal on arbitrary bytes.
func VerifDecap() {
	n := nd.Choose(nd.Param("n", 7) + 1)
	b := nd.Bytes(n)
	keep := append([]byte{}, b...)
	got := EBSPToRaw(b)
	nd.ObserveB("raw", got)
	nd.Assert(nd.EqBytes(got, vzRefDecap(keep)), "exactly the 03 bytes that follow two zero bytes are removed")
	nd.Assert(nd.EqBytes(b, keep), "the input is not modified")
	if len(got)+1 < n {
		nd.Cover("two removals")
	}
}

// refSplit splits at every 00 00 01, dropping the zero bytes at the end of every piece and empty pieces.
func vzRefSplit(b []byte) [][]byte {
	var out [][]byte
	prev := 0
	for i := 0; i+2 < len(b); {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			e := i
			for e > prev && b[e-1] == 0 {
				e--
			}
			if e > prev {
				out = append(out, b[prev:e])
			}
			i += 3
			prev = i
		} else {
			i++
		}
	}
	e := len(b)
	for e > prev && b[e-1] == 0 {
		e--
	}
	if e > prev {
		out = append(out, b[prev:e])
	}
	return out
}

// VerifSplitAny: splitting arbitrary bytes yields exactly the pieces between start codes.
func VerifSplitAny() {
	n := nd.Choose(nd.Param("n", 7)) + 1
	b := nd.Bytes(n)
	keep := append([]byte{}, b...)
	got := SplitAnnexB(b)
	want := vzRefSplit(keep)
	nd.Assert(len(got) == len(want), "one unit per piece between start codes")
	for i := range want {
		nd.Assert(nd.EqBytes(got[i], vzRefDecap(want[i])), "each unit is the piece between two start codes without emulation prevention")
		nd.ObserveB("unit", got[i])
	}
	if len(want) > 1 {
		nd.Cover("two units")
	}
}

// VerifSplitUnits: NAL units written as a byte stream come back unchanged and in order.
func VerifSplitUnits() {
	k := nd.Choose(nd.Param("units", 3)) + 1
	var stream []byte
	var want [][]byte
	total := nd.Param("total", 9)
	for i := 0; i < k; i++ {
		zeros := 2 + nd.Choose(3)
		if i == 0 && nd.Choose(2) == 1 {
			zeros = -1 // the first start code may be missing
		}
		if zeros > 0 {
			for j := 0; j < zeros; j++ {
				stream = append(stream, 0)
			}
			stream = append(stream, 1)
		}
		n := nd.Choose(nd.Param("len", 4)) + 1
		if total -= n; total < 0 {
			return
		}
		u := nd.Bytes(n)
		nd.Assume(u[n-1] != 0)
		for j := 0; j+2 < n; j++ {
			nd.Assume(!nd.And(nd.And(u[j] == 0, u[j+1] == 0), u[j+2] < 3))
		}
		stream = append(stream, u...)
		want = append(want, u)
	}
	stream = append(stream, make([]byte, nd.Choose(2)*2)...)
	got := SplitAnnexB(stream)
	nd.Assert(len(got) == len(want), "every unit of the byte stream is returned once")
	for i := range want {
		nd.Assert(nd.EqBytes(got[i], vzRefDecap(want[i])), "units are returned in order and unchanged")
	}
	if k == 3 {
		nd.Cover("three units")
	}
}

// VerifEmulationLong: emulation prevention in long payloads, with arbitrary bytes in a few places.
func VerifEmulationLong() {
	size := [...]int{31, 64, 255, 256, 257, 1500, nd.Param("size", 9000)}[nd.Choose(7)]
	b := make([]byte, size)
	fill := byte(nd.Choose(3)) // zeroes, ones, mixed
	for i := range b {
		b[i] = fill
		if fill == 2 {
			b[i] = byte(i%7) & 3
		}
	}
	k := nd.Param("window", 3)
	ats := []int{0, size/2 - 1, size - k}
	if size > 1024 {
		// On both sides of boundaries where octets may be handled in blocks.
		for p := 1024; p < size; p *= 2 {
			ats = append(ats, p-2, p)
		}
	}
	at := ats[nd.Choose(len(ats))]
	copy(b[at:], nd.Bytes(k))
	keep := append([]byte{}, b...)
	enc := RBSPToEncapsulated(b)
	bad := false
	for i := 0; i+2 < len(enc); i++ {
		bad = nd.Or(bad, nd.And(nd.And(enc[i] == 0, enc[i+1] == 0), enc[i+2] < 3))
	}
	nd.Assert(!bad, "the encapsulated form contains no 00 00 00, 00 00 01 or 00 00 02")
	nd.Assert(nd.EqBytes(EBSPToRaw(enc), keep), "removing emulation prevention restores the payload")
	if keep[size-1] != 0 {
		nd.Assert(nd.EqBytes(enc, vzRefEncap(keep)), "emulation prevention bytes are inserted exactly where required")
	}
	nd.Assert(nd.EqBytes(EBSPToRaw(b), vzRefDecap(keep)), "exactly the 03 bytes that follow two zero bytes are removed")
	nd.Assert(nd.EqBytes(b, keep), "the payload passed in is not modified")
	nd.Cover("long")
}
