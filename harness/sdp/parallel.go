package sdp

import (
	"strconv"

	model "github.com/aboukirev/ouro/net/verifmodel"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifParallel: descriptions that belong to different goroutines are parsed as if each was alone.
func VerifParallel() {
	var jobs []func() func() []byte
	for i := 0; i < 2; i++ {
		sections := 1 + nd.Choose(2)
		set := nd.Bytes(2)
		text := "v=0\r\na=control:*\r\n"
		for k := 0; k < sections; k++ {
			pt := strconv.Itoa(96 + i + 2*k)
			text += "m=video 0 RTP/AVP " + pt + "\r\na=rtpmap:" + pt + " H264/" + strconv.Itoa(90000+10*i+k) + "\r\na=control:t" + pt + "\r\n"
			text += "a=fmtp:" + pt + " config=00" + pt + "; sprop-parameter-sets=" + string(vzEncode64(set)) + "\r\n"
		}
		in := []byte(text)
		f := func() (out []byte) {
			for _, m := range Parse(in) {
				out = append(out, byte(m.PayloadType), byte(m.Rtpmap), byte(m.Type), byte(m.TimeScale), byte(len(m.SpropParameterSets)))
				out = append(append(out, m.Control...), m.Config...)
				for _, b := range m.SpropParameterSets {
					out = append(out, b...)
				}
			}
			return
		}
		jobs = append(jobs, func() func() []byte { return f })
	}
	nd.Assert(model.Parallel(nd.Param("preempt", 1), 1<<30, jobs...), "what a description yields does not depend on others")
	nd.Cover("same work")
}
