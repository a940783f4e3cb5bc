package h264

import nd "github.com/aboukirev/ouro/net/verifnd"

func vzCopies(units [][]byte) (out [][]byte) {
	for _, u := range units {
		out = append(out, append([]byte{}, u...))
	}
	return
}

func vzSameAll(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = nd.And(same, nd.EqBytes(a[i], b[i]))
	}
	return same
}

// VerifRepeatStream: what was decoded stays as it is when something else is decoded, and decoding again gives the same.
func VerifRepeatStream() {
	a := nd.Bytes(1 + nd.Choose(nd.Param("n", 5)))
	b := nd.Bytes(1 + nd.Choose(nd.Param("n", 5)))
	f := [...]func(p []byte) [][]byte{
		func(p []byte) [][]byte { return SplitAnnexB(p) },
		func(p []byte) [][]byte { return [][]byte{EBSPToRaw(p)} },
		func(p []byte) [][]byte { return [][]byte{RBSPToEncapsulated(p)} },
	}[nd.Choose(3)]
	one := f(a)
	keep := vzCopies(one)
	two := f(b)
	keep2 := vzCopies(two)
	nd.Assert(vzSameAll(one, keep), "a result stays as it is")
	again := f(a)
	nd.Assert(vzSameAll(again, keep), "the same input gives the same result")
	nd.Assert(vzSameAll(one, keep), "a result stays as it is")
	nd.Assert(vzSameAll(two, keep2), "a result stays as it is")
	nd.Cover("again")
}

// VerifRepeatSinks: two depacketizers used in turns yield what each yields alone; units once taken stay as they are.
func VerifRepeatSinks() {
	sinks := []*NALSink{NewNALSink(), NewNALSink()}
	var want [2][]byte // payload of the fragments so far
	var open [2]bool
	var tss [2]uint32
	var head [2]byte
	var don [2]uint16
	for i := range sinks {
		tss[i] = nd.U32()
		head[i] = vzNalHeader()
	}
	var taken []NALUnit
	var keep [][]byte
	look := func() {
		for i := range taken {
			nd.Assert(nd.EqBytes(taken[i].Data, keep[i]), "a unit stays as it is once it is taken")
		}
	}
	for k := nd.Param("steps", 4); k > 0; k-- {
		i := nd.Choose(2)
		s := sinks[i]
		b := nd.Bytes(1 + nd.Choose(2))
		if open[i] || nd.Choose(2) == 0 {
			// the next fragment, the last one at random
			fu := head[i] & 0x1f
			if !open[i] {
				fu |= 0x80
				want[i] = nil
			}
			last := open[i] && nd.Choose(2) == 1
			if last {
				fu |= 0x40
			}
			nd.Assert(vzPushed(s, vzCat([]byte{head[i]&0xe0 | 28, fu}, b), tss[i]) == nil, "a fragment is accepted")
			want[i] = vzCat(want[i], b)
			open[i] = !last
			if !last {
				nd.Assert(len(s.Units) == 0, "a fragment is no unit")
				continue
			}
			nd.Assert(len(s.Units) == 1, "the last fragment completes a unit")
			nd.Assert(nd.And(s.Units[0].Header == head[i], nd.EqBytes(s.Units[0].Data, vzRefDecap(want[i]))), "a unit of its own fragments")
			nd.Cover("fragments")
		} else {
			h := vzNalHeader()
			nd.Assert(vzPushed(s, vzCat([]byte{h}, b), tss[i]) == nil, "a unit is accepted")
			nd.Assert(len(s.Units) == 1, "a unit per payload")
			nd.Assert(nd.And(s.Units[0].Header == h, nd.EqBytes(s.Units[0].Data, vzRefDecap(b))), "the unit of its own payload")
			nd.Cover("single")
		}
		nd.Assert(nd.And(s.Units[0].Don == don[i], s.Units[0].TS == tss[i]), "numbers of its own")
		don[i]++
		look()
		taken = append(taken, s.Units[0])
		keep = append(keep, append([]byte{}, s.Units[0].Data...))
	}
	look()
}

// VerifRepeatSets: sets of one stream are not seen in another, and a set that was looked up stays as it is.
func VerifRepeatSets() {
	one, two := NewParameterSets(), NewParameterSets()
	id := uint64(nd.Choose(3))
	la, lb := nd.Byte(), nd.Byte()
	ra, rb := nd.Byte()&7, nd.Byte()&7
	nd.Assert(one.ParseSprop(SampleVerifSPS(id, la, 4, 2)) == nil, "a well formed set is accepted")
	nd.Assert(one.ParseSprop(SampleVerifPPS(id, id, ra)) == nil, "a well formed set is accepted")
	_, ok := two.GetSPS(uint32(id))
	_, ok2 := two.GetPPS(uint32(id))
	nd.Assert(!ok && !ok2, "sets of another stream are not seen")
	was, _ := one.GetSPS(uint32(id))
	wasp, _ := one.GetPPS(uint32(id))
	other := nd.Choose(2) == 1
	into := two
	if other {
		into = one
		nd.Cover("replaced")
	}
	nd.Assert(into.ParseSprop(SampleVerifSPS(id, lb, 6, 3)) == nil, "a well formed set is accepted")
	nd.Assert(into.ParseSprop(SampleVerifPPS(id, id, rb)) == nil, "a well formed set is accepted")
	if !other {
		was2, _ := one.GetSPS(uint32(id))
		wasp2, _ := one.GetPPS(uint32(id))
		nd.Assert(nd.And(was2.LevelIdc == la, was2.Width == 64), "sets of a stream stay when another stream gets its own")
		nd.Assert(wasp2.NumRefIdxL0DefaultActiveMinus1 == uint32(ra)+7, "sets of a stream stay when another stream gets its own")
	}
	nd.Assert(nd.And(was.LevelIdc == la, was.Width == 64), "a set stays as it was looked up")
	nd.Assert(wasp.NumRefIdxL0DefaultActiveMinus1 == uint32(ra)+7, "a set stays as it was looked up")
	now, _ := into.GetSPS(uint32(id))
	nowp, _ := into.GetPPS(uint32(id))
	nd.Assert(nd.And(now.LevelIdc == lb, now.Width == 96), "the newer set replaces the older one")
	nd.Assert(nowp.NumRefIdxL0DefaultActiveMinus1 == uint32(rb)+7, "the newer set replaces the older one")
}

// VerifRepeatReaders: two bit readers used in turns each read their own buffer.
func VerifRepeatReaders() {
	bufs := [][]byte{nd.Bytes(4), nd.Bytes(4)}
	rs := []*BitReader{NewBitReader(bufs[0]), NewBitReader(bufs[1])}
	var pos [2]int
	for k := 0; k < nd.Param("steps", 4); k++ {
		i := nd.Choose(2)
		n := [...]int{1, 5, 13}[nd.Choose(3)]
		v, err := rs[i].ReadBits(uint(n))
		if pos[i]+n > 32 {
			nd.Assert(err != nil, "reading past the end reports an error")
			return
		}
		nd.Assert(err == nil && uint64(v) == vzRefBits(bufs[i], pos[i], n), "the next bits of its own buffer")
		pos[i] += n
		nd.Cover("read")
	}
	nd.Assert(nd.And(rs[0].Available() == uint(32-pos[0]), rs[1].Available() == uint(32-pos[1])), "unread bits of its own buffer")
}
