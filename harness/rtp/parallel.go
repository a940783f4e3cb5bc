package rtp

import (
	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifParallel: packets that belong to different goroutines are decoded and packed as if each was alone.
func VerifParallel() {
	var jobs []func() func() []byte
	for i := 0; i < 2; i++ {
		cc := 2 * nd.Choose(2)
		x := nd.Choose(2) == 1
		in := vzWireRTP(cc, x, 1, 2, nd.Choose(2))
		f := func() []byte {
			p, err := Unpack(in)
			if err != nil {
				return nil
			}
			out := []byte{p.PT(), byte(p.CC()), byte(p.SN), byte(p.SN >> 8), byte(p.TS), byte(p.SSRC)}
			out = append(out, p.PL...)
			return append(out, p.Pack()...)
		}
		jobs = append(jobs, func() func() []byte { return f })
	}
	nd.Assert(model.Parallel(nd.Param("preempt", 1), 1<<30, jobs...), "what a decoder yields does not depend on others")
	nd.Cover("same work")
}
