package h264

import nd "github.com/aboukirev/ouro/net/verifnd"

// vzFiller returns n octets without start codes and emulation prevention, some of them zero.
func vzFiller(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + seed)
		if i%2 == 0 {
			b[i] |= 4
		}
	}
	if n > 0 {
		b[n-1] |= 4
	}
	return b
}

// vzLongNAL returns a unit of 1+n octets with arbitrary ones at its start, middle or end.
func vzLongNAL(n int) []byte {
	nal := vzCat([]byte{vzNalHeader()}, vzFiller(n, 3))
	w := 3
	if n < w {
		w = n
	}
	at := [...]int{1, 1 + (n-w)/2, 1 + n - w}[nd.Choose(3)]
	copy(nal[at:], nd.Bytes(w))
	return nal
}

func vzStreamable(u []byte) {
	n := len(u)
	nd.Assume(u[n-1] != 0)
	for j := 0; j+2 < n; j++ {
		nd.Assume(!nd.And(nd.And(u[j] == 0, u[j+1] == 0), u[j+2] < 3))
	}
}

// vzManyUnits returns k units, short ones but one, which has n octets after its header, at the start, middle or end.
func vzManyUnits(k, n int) (nals [][]byte, at int) {
	at = [...]int{0, k / 2, k - 1}[nd.Choose(3)]
	for i := 0; i < k; i++ {
		if i == at {
			nals = append(nals, vzLongNAL(n))
		} else {
			nals = append(nals, vzCat([]byte{byte(0x21 + i%4)}, vzFiller(i%3, i)))
		}
	}
	return
}

// VerifSplitMany: byte streams of many units, one of which may be long.
func VerifSplitMany() {
	k := [...]int{4, 9, nd.Param("units", 40)}[nd.Choose(3)]
	n := [...]int{2, 255, nd.Param("long", 5000)}[nd.Choose(3)]
	nals, at := vzManyUnits(k, n)
	vzStreamable(nals[at])
	stream := []byte{}
	pad := nd.Choose(3)
	for i, u := range nals {
		zeros := 2 + (i+pad)%3
		if i == at {
			zeros = [...]int{2, 3, 70}[pad]
		}
		stream = append(stream, make([]byte, zeros)...)
		stream = append(stream, 1)
		stream = append(stream, u...)
	}
	stream = append(stream, make([]byte, [...]int{0, 1, 4}[pad])...)
	got := SplitAnnexB(stream)
	nd.Assert(len(got) == len(nals), "every unit of the byte stream is returned once")
	for i := range nals {
		nd.Assert(nd.EqBytes(got[i], vzRefDecap(nals[i])), "units are returned in order and unchanged")
	}
	nd.ObserveU("last", uint64(len(got[k-1])))
	nd.Cover("many units")
}

// VerifSinkMany: aggregates of many units, one of which may be long, and byte streams of many units.
func VerifSinkMany() {
	s := NewNALSink()
	s.Don = nd.U16()
	don, ts := s.Don, nd.U32()
	k := [...]int{4, 21, nd.Param("units", 70)}[nd.Choose(3)]
	n := [...]int{2, 255, 1400, nd.Param("long", 65000)}[nd.Choose(4)]
	typ := 23 + nd.Choose(5)
	nals, at := vzManyUnits(k, n)
	dons := make([]uint16, k)
	tss := make([]uint32, k)
	p := []byte{}
	switch typ {
	case 23:
		vzStreamable(nals[at])
	case 24:
		p = []byte{0x60 | 24}
	default:
		don = nd.U16()
		p = vzCat([]byte{0x60 | byte(typ)}, vzBe16(don))
	}
	for i, u := range nals {
		dons[i], tss[i] = don+uint16(i), ts
		if typ == 23 {
			p = append(p, 0, 0, 0, 1)
			p = append(p, u...)
			continue
		}
		p = append(p, byte(len(u)>>8), byte(len(u)))
		if typ >= 26 {
			dond, off := byte(3*i), uint32(900*i)&0xffff
			if i == at {
				dond = nd.Byte()
			}
			p = append(p, dond)
			if typ == 27 {
				off += uint32(i%2)<<20
				p = append(p, byte(off>>16))
			}
			p = append(p, byte(off>>8), byte(off))
			dons[i], tss[i] = don+uint16(dond), ts+off
		}
		p = append(p, u...)
	}
	for j := 0; j < 2; j++ {
		nd.Assert(vzPushed(s, p, ts) == nil, "a well formed payload is accepted")
		nd.Assert(len(s.Units) == k, "a payload yields all of its units")
		for i := range nals {
			u := &s.Units[i]
			want := dons[i]
			if j == 1 && typ <= 24 {
				want += uint16(k)
			}
			nd.Assert(nd.And(u.Header == nals[i][0], nd.And(u.Don == want, u.TS == tss[i])), "header, number and timestamp of the unit")
			nd.Assert(nd.EqBytes(u.Data, vzRefDecap(nals[i][1:])), "the unit carries exactly its payload")
		}
	}
	nd.ObserveU("don", uint64(s.Units[k-1].Don))
	if typ == 23 {
		nd.Cover("stream")
	}
	nd.Cover("many units")
}

// VerifSinkFUMany: units of many fragments, and many fragmented units in a row.
func VerifSinkFUMany() {
	s := NewNALSink()
	s.Don = nd.U16()
	don, ts := s.Don, nd.U32()
	k := [...]int{5, 21, nd.Param("frags", 60)}[nd.Choose(3)]
	size := [...]int{3, 256, nd.Param("size", 1400)}[nd.Choose(3)]
	fub := nd.Choose(2) == 1
	// Arbitrary octets on both sides of a boundary between fragments.
	at := [...]int{1, k / 2, k - 1}[nd.Choose(3)]
	hdr := vzNalHeader()
	rounds := 1
	if size == 3 {
		rounds = 30
	}
	for r := 0; r < rounds; r++ {
		nal := vzCat([]byte{hdr}, vzFiller(k*size, r))
		if r == 0 || r == rounds-1 {
			copy(nal[1+at*size-2:], nd.Bytes(4))
		}
		want := don
		if fub {
			want = nd.U16()
		} else {
			don++
		}
		for i := 0; i < k; i++ {
			fh := hdr & 31
			if i == 0 {
				fh |= 0x80
			}
			if i == k-1 {
				fh |= 0x40
			}
			p := []byte{hdr&0xe0 | 28, fh}
			if fub && i == 0 {
				p = vzCat([]byte{hdr&0xe0 | 29, fh}, vzBe16(want))
			}
			nd.Assert(vzPushed(s, vzCat(p, nal[1+i*size:1+(i+1)*size]), ts+uint32(r)) == nil, "a fragment is accepted")
			if i < k-1 {
				nd.Assert(len(s.Units) == 0, "nothing is delivered before the last fragment")
			}
		}
		nd.Assert(len(s.Units) == 1, "the last fragment delivers the unit")
		u := &s.Units[0]
		nd.Assert(nd.And(u.Header == hdr, nd.And(u.Don == want, u.TS == ts+uint32(r))), "header, number and timestamp of the unit")
		nd.Assert(nd.EqBytes(u.Data, vzRefDecap(nal[1:])), "the unit carries exactly its payload")
		nd.ObserveU("size", uint64(len(u.Data)))
	}
	nd.Cover("many fragments")
}
