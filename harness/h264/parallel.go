package h264

import (
	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

func vzJoin(units [][]byte) (out []byte) {
	for _, u := range units {
		out = append(append(out, byte(len(u))), u...)
	}
	return
}

func vzUnits(s *NALSink, out []byte) []byte {
	for _, u := range s.Units {
		out = append(out, byte(len(u.Data)), u.Header, byte(u.Don), byte(u.Don>>8), byte(u.TS))
		out = append(out, u.Data...)
	}
	return out
}

// vzJob is something a goroutine does with a decoder of its own.
func vzJob(kind int, b []byte, me byte) func() []byte {
	switch kind {
	case 0:
		in := append([]byte{0, 0, 0, 1, 0x65, 10 + me, 0, 0, 3, 1}, b...)
		in = append(in, 0x91, 0, 0, 1, 0x41, 20+me)
		return func() []byte { return vzJoin(SplitAnnexB(in)) }
	case 1:
		in := append([]byte{30 + me, 0, 0, 1, 5, 0, 0, 0, me}, b...)
		return func() []byte { return RBSPToEncapsulated(in) }
	case 2:
		single := append([]byte{0x65, 40 + me, 0, 0, 3, 2}, b...)
		first := append([]byte{0x7c, 0x85, 50 + me}, b...)
		stap := []byte{0x78, 0, 3, 0x41, 60 + me, 1, 0, 2, 0x42, 70 + me}
		return func() []byte {
			s := NewNALSink()
			s.Don = uint16(me) * 300
			s.Push(single, 1)
			out := vzUnits(s, nil)
			s.Push(first, 2)
			s.Push(stap, 2)
			out = vzUnits(s, out)
			s.Push([]byte{0x5c, 0x45, 80 + me, 7}, 2)
			return vzUnits(s, out)
		}
	case 3:
		w := &vzBitWriter{}
		g := &vzFieldGen{w: w}
		w.u(100, 8)
		w.u(0, 8)
		w.u(uint64(b[0]), 8)
		for _, v := range []uint64{uint64(me), 1, 0, 0} {
			g.ueConst(v)
		}
		w.u(3, 2) // scaling matrix with its first list
		w.u(1, 1)
		g.ueConst(uint64(2 + me))
		for i := 1; i < 16; i++ {
			g.ueConst(uint64(1 + i%2))
		}
		w.u(0, 7)
		for _, v := range []uint64{0, 2, 1} {
			g.ueConst(v)
		}
		w.u(0, 1)
		g.ueConst(uint64(5 + me))
		g.ueConst(uint64(7 - me))
		w.u(0xc, 4)
		w.trailing()
		a := vzCat([]byte{0x67}, vzRefEncap(w.buf))
		c := SampleVerifPPS(uint64(me), uint64(me), 1+me)
		return func() []byte {
			p := NewParameterSets()
			if p.ParseSprop(a) != nil || p.ParseSprop(c) != nil {
				return nil
			}
			s, ok := p.GetSPS(uint32(me))
			q, ok2 := p.GetPPS(uint32(me))
			_, ok3 := p.GetSPS(uint32(1 - me))
			if !ok || !ok2 || ok3 {
				return nil
			}
			out := []byte{s.LevelIdc, byte(s.Width >> 4), byte(s.Height >> 4), byte(s.ScalingListPresent), byte(q.NumRefIdxL0DefaultActiveMinus1)}
			for i := 0; i < 16; i++ {
				out = append(out, byte(s.ScalingList[i]))
			}
			return out
		}
	}
	in := append([]byte{0xa6 + me, 0x42, 0x2f + me, 0x11}, b...)
	return func() []byte {
		r := NewBitReader(in)
		var out []byte
		for i := 0; i < 3; i++ {
			v, err := r.ReadUnsignedGolomb()
			if err != nil {
				return nil
			}
			w, err := r.ReadSignedGolomb()
			if err != nil {
				return nil
			}
			out = append(out, byte(v), byte(w))
		}
		v, err := r.ReadBits(r.Available())
		if err != nil {
			return nil
		}
		return append(out, byte(v), byte(v>>8))
	}
}

// VerifParallel: decoders that belong to different goroutines do their work as if each was alone.
func VerifParallel() {
	a, b := nd.Choose(5), nd.Choose(5)
	nd.Assume(a <= b)
	one, two := nd.Bytes(1), nd.Bytes(1)
	job := func(f func() []byte) func() func() []byte { return func() func() []byte { return f } }
	nd.Assert(model.Parallel(nd.Param("preempt", 1), 1<<30, job(vzJob(a, one, 0)), job(vzJob(b, two, 1))), "what a decoder yields does not depend on others")
	if a == b {
		nd.Cover("same work")
	} else {
		nd.Cover("different work")
	}
}
