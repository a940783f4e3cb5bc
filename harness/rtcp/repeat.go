package rtcp

import nd "github.com/aboukirev/ouro/net/verifnd"

// VerifRepeat: a report stays as it was decoded when others are, and the same bytes decode the same again.
func VerifRepeat() {
	var bufs [2][]byte
	var rcs [2]int
	for i := range bufs {
		rc := nd.Choose(3)
		ln := 6 + 6*rc
		rcs[i] = rc
		bufs[i] = append([]byte{0x80 | byte(rc), 200, 0, byte(ln)}, nd.Bytes(4*ln)...)
	}
	keep := append([]byte{}, bufs[0]...)
	keep2 := append([]byte{}, bufs[1]...)
	one, err := Unpack(bufs[0])
	nd.Assert(err == nil, "a well-formed sender report is accepted")
	two, err := Unpack(bufs[1])
	nd.Assert(err == nil, "a well-formed sender report is accepted")
	again, err := Unpack(bufs[0])
	nd.Assert(err == nil, "a well-formed sender report is accepted")
	vzCheckSR(again, keep, rcs[0])
	vzCheckSR(two, keep2, rcs[1])
	vzCheckSR(one, keep, rcs[0])
	if rcs[0] != rcs[1] {
		nd.Cover("different")
	}
}
