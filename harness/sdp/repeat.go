package sdp

import (
	"strconv"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// VerifRepeat: a description stays as it was parsed when others are, and the same text is parsed the same again.
func VerifRepeat() {
	var texts [2]string
	var secs [2][]vzSection
	var sets [2][]byte
	for k := range texts {
		for i := nd.Choose(2 - k); i >= 0; i-- {
			c := vzSection{video: true, pt: 90 + 2*k + i, typ: H264}
			c.control = "t" + nd.StrIn(1, vzHexd)
			c.rtpmap = c.pt
			var scale string
			c.scale, scale = vzNumber(1)
			sets[k] = nd.Bytes(1 + nd.Choose(2)*2)
			pt := strconv.Itoa(c.pt)
			texts[k] += "m=video 0 RTP/AVP " + pt + "\r\na=rtpmap:" + pt + " H264/" + scale + "\r\na=control:" + c.control + "\r\n"
			texts[k] += "a=fmtp:" + pt + " sprop-parameter-sets=" + string(vzEncode64(sets[k])) + "\r\n"
			secs[k] = append(secs[k], c)
		}
	}
	check := func(ms []Media, k int) {
		nd.Assert(len(ms) == len(secs[k]), "one feed per video section")
		for i, c := range secs[k] {
			vzCheckFeed(ms[i], c)
			nd.Assert(len(ms[i].SpropParameterSets) == 1, "one parameter set per section")
		}
		nd.Assert(nd.EqBytes(ms[len(ms)-1].SpropParameterSets[0], sets[k]), "parameter set bytes")
	}
	one := Parse([]byte(texts[0]))
	two := Parse([]byte(texts[1]))
	again := Parse([]byte(texts[0]))
	check(again, 0)
	check(two, 1)
	check(one, 0)
	nd.Cover("again")
}
