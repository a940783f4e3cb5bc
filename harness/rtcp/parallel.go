package rtcp

import (
	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifParallel: reports that belong to different goroutines are decoded as if each was alone.
func VerifParallel() {
	var jobs []func() func() []byte
	for i := 0; i < 2; i++ {
		rc := nd.Choose(3)
		ln := 6 + 6*rc
		in := append([]byte{0x80 | byte(rc), 200, 0, byte(ln)}, nd.Bytes(4*ln)...)
		f := func() []byte {
			p, err := Unpack(in)
			if err != nil {
				return nil
			}
			s := p.DSR
			out := []byte{p.PT, byte(p.C()), byte(p.LN), byte(s.SSRC), byte(s.NTPTS), byte(s.NTPTS >> 32), byte(s.RTPTS), byte(s.PC), byte(s.OC), byte(len(s.Reports))}
			for _, b := range s.Reports {
				out = append(out, byte(b.SSRC), b.FL, byte(b.PL), byte(b.SN), byte(b.JIT), byte(b.LSR), byte(b.DLSR))
			}
			return out
		}
		jobs = append(jobs, func() func() []byte { return f })
	}
	nd.Assert(model.Parallel(nd.Param("preempt", 1), 1<<30, jobs...), "what a decoder yields does not depend on others")
	nd.Cover("same work")
}
