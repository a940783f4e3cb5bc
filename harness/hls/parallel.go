package hls

import (
	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifParallel: playlists that belong to different goroutines are filled and rendered as if each was alone.
func VerifParallel() {
	var jobs []func() func() []byte
	for i := 0; i < 2; i++ {
		i := i
		n := 1 + nd.Choose(2)
		l := int64(nd.Range(0, 9))
		f := func() []byte {
			pl, err := NewPlaylist("http://h/"+[...]string{"a", "b"}[i], "/v/f.ts", n, 3)
			if err != nil {
				return nil
			}
			pl.AddSegment(2.5, 10*int64(1+i)+l)
			out := []byte(pl.String())
			pl.AddSegment(float64(3+i), 7)
			return append(out, pl.String()...)
		}
		jobs = append(jobs, func() func() []byte { return f })
	}
	nd.Assert(model.Parallel(nd.Param("preempt", 1), 1<<30, jobs...), "what a playlist lists does not depend on others")
	nd.Cover("same work")
}
