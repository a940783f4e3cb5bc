package rtsp

import (
	"encoding/base64"
	"strconv"

	"github.com/aboukirev/ouro/net/h264"
	nd "github.com/aboukirev/ouro/net/verifnd"
)

// feedSets is what the description of a feed says about its parameter sets.
type vzFeedSets struct {
	sps    []byte // levels by id
	width  []int
	refs   []byte // of picture parameter sets by id
	nals   [][]byte
	accept bool
}

func vzAnyFeedSets(i int) (f vzFeedSets) {
	for k := nd.Choose(nd.Param("sets", 3)); k > 0; k-- {
		id := len(f.sps)
		level, refs := nd.Byte(), nd.Byte()&7
		f.sps = append(f.sps, level)
		f.refs = append(f.refs, refs)
		f.width = append(f.width, 16*(i*3+id+1))
		f.nals = append(f.nals, h264.SampleVerifSPS(uint64(id), level, uint64(i*3+id+1), 2), h264.SampleVerifPPS(uint64(id), uint64(id), refs))
	}
	return
}

func (f *vzFeedSets) sdp(control string) string {
	s := "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1"
	for i, b := range f.nals {
		s += [...]string{";sprop-parameter-sets=", ","}[nd.IteInt(i > 0, 1, 0)] + base64.StdEncoding.EncodeToString(b)
	}
	return s + "\r\na=control:" + control + "\r\n"
}

// check compares sets of a feed with its description.
func (f *vzFeedSets) check(sets *h264.ParameterSets, set bool) {
	for id := 0; id < 4; id++ {
		sps, ok := sets.GetSPS(uint32(id))
		pps, ok2 := sets.GetPPS(uint32(id))
		if !set || id >= len(f.sps) {
			nd.Assert(!ok && !ok2, "a feed has no parameter sets but its own")
			continue
		}
		nd.Assert(ok && ok2, "parameter sets of the description are there once the feed is set up")
		nd.Assert(sps.LevelIdc == f.sps[id] && int(sps.Width) == f.width[id], "sequence parameter set is the one of the feed")
		nd.Assert(uint64(pps.SpsID) == uint64(id) && uint64(pps.NumRefIdxL0DefaultActiveMinus1) == uint64(f.refs[id])+7, "picture parameter set is the one of the feed")
		nd.Cover("sets")
	}
}

// VerifFeeds: parameter sets from the description of each feed get into that feed when its transport is set up.
func VerifFeeds() {
	n := 1 + nd.Choose(nd.Param("feeds", 3))
	proto := [...]int{ProtoTCP, ProtoUnicast, ProtoMulticast}[nd.Choose(3)]
	text := "v=0\r\ns=x\r\n"
	var want []vzFeedSets
	for i := 0; i < n; i++ {
		want = append(want, vzAnyFeedSets(i))
		text += want[i].sdp("t" + strconv.Itoa(i))
	}
	feeds, err := ParseFeeds(proto, []byte(text))
	nd.Assert(err == nil && len(feeds) == n, "a feed per video section")
	set := make([]bool, n)
	check := func() {
		for i, f := range feeds {
			nd.Assert(f.IsSet == set[i], "a feed is set once its transport is set up")
			want[i].check(f.Sets, set[i])
		}
	}
	check()
	first := nd.Choose(n)
	for k := 0; k < n; k++ {
		i := (first + k) % n
		f := feeds[i]
		h := f.TransportHeader()
		nd.Assert(f.Control == "t"+strconv.Itoa(i), "control URL of the feed")
		if k == 0 && nd.Choose(2) == 1 {
			nd.Assert(f.TransportSetup("RTP/AVP;client_port=x") != nil, "malformed transport is an error")
			check()
			nd.Cover("malformed")
		}
		nd.Assert(f.TransportSetup(h) == nil, "transport as asked for is accepted")
		nd.Assert(nd.EqStr(f.TransportHeader(), h), "transport as asked for changes nothing")
		set[i] = true
		check()
	}
}
