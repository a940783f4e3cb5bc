package sdp

import (
	"strconv"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

const (
	vzDigits  = "0123456789"
	vzUrlText = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/:=;,.?&_-%"
	vzB64     = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	vzHexd    = "0123456789abcdef"
)

// number returns a decimal number without leading zeroes and its text.
func vzNumber(n int) (v int, s string) {
	b := make([]byte, n)
	for i := range b {
		set := vzDigits
		if i == 0 {
			set = vzDigits[1:]
		}
		b[i] = nd.ByteIn(set)
		v = v*10 + int(b[i]-'0')
	}
	return v, string(b)
}

func vzB64char(v byte) byte {
	c := byte(0)
	for i := 0; i < 64; i++ {
		c = nd.IteU8(v == byte(i), vzB64[i], c)
	}
	return c
}

// encode64 is the reference encoder of RFC 4648.
func vzEncode64(b []byte) (s []byte) {
	for len(b) > 0 {
		var t [3]byte
		n := copy(t[:], b)
		b = b[n:]
		s = append(s, vzB64char(t[0]>>2), vzB64char(t[0]&3<<4|t[1]>>4))
		if n > 1 {
			s = append(s, vzB64char(t[1]&15<<2|t[2]>>6))
		} else {
			s = append(s, '=')
		}
		if n > 2 {
			s = append(s, vzB64char(t[2]&63))
		} else {
			s = append(s, '=')
		}
	}
	return
}

// section is a media section of the description and what a client has to learn from it.
type vzSection struct {
	text    string
	video   bool
	pt      int
	control string
	rtpmap  int
	typ     uint
	scale   int
}

var vzOthers = []string{"audio", "application", "text", "videos", "v"}

func vzGenSection(eol string, nattr int) (c vzSection) {
	kind := nd.Choose(1 + nd.Param("others", 3))
	name := "video"
	if kind > 0 {
		name = vzOthers[kind-1]
	} else {
		c.video = true
	}
	var pt string
	c.pt, pt = vzNumber(nd.Param("ptlen", 2))
	c.text = "m=" + name + [...]string{" 0", " 49170", " 0/2"}[(nattr+kind)%3] + " RTP/AVP " + pt
	if nattr > 1 {
		c.text += " 0"
	}
	c.text += eol
	for i := 0; i < nattr; i++ {
		switch nd.Choose(nd.Param("attrs", 5)) {
		case 0:
			c.control = nd.StrIn([...]int{1, nd.Param("url", 5)}[nd.Choose(2)], vzUrlText)
			c.text += "a=control:" + c.control + eol
		case 1:
			codec := nd.Choose(nd.Param("codecs", 4))
			c.rtpmap = c.pt
			var scale string
			c.scale, scale = vzNumber(nd.Param("scale", 5))
			enc := [...]string{"H264", "h264", "MPEG4-GENERIC", "H265"}[codec]
			switch codec {
			case 0, 1:
				c.typ = H264
			case 2:
				c.typ = AAC
			}
			c.text += "a=rtpmap:" + pt + " " + enc + "/" + scale
			if codec == 2 {
				c.text += "/2"
			}
			c.text += eol
		case 2:
			// Attributes which have nothing to do with the fields; some look alike.
			c.text += "a=x-" + nd.StrIn(nd.Param("xlen", 3), "c:/ 1") + eol
		case 3:
			c.text += "b=AS:" + nd.StrIn(1, vzDigits) + eol
		case 4:
			c.text += [...]string{"a=recvonly", "i=a/1 b/2", "a=framesize:96 640-480/5", "a=x-dimensions:control:1"}[nd.Choose(4)] + eol
		}
	}
	return
}

func vzCheckFeed(m Media, c vzSection) {
	nd.Assert(m.PayloadType == c.pt, "payload type of the first format of the media line")
	nd.Assert(nd.EqStr(m.Control, c.control), "control URL of the section, verbatim")
	nd.Assert(m.Rtpmap == c.rtpmap, "payload type of the rtpmap of the section")
	nd.Assert(nd.And(m.Type == c.typ, m.TimeScale == c.scale), "encoding and clock rate of the rtpmap of the section")
	nd.ObserveS("control", m.Control)
	nd.ObserveU("scale", uint64(m.TimeScale))
}

// VerifFeeds: there is one feed per video section, in order, and every attribute goes to the section it is in.
func VerifFeeds() {
	eol := [...]string{"\n", "\r\n"}[nd.Choose(2)]
	text := "v=0" + eol + "o=- 1 1 IN IP4 0.0.0.0" + eol + "s=x" + eol
	if nd.Choose(2) == 1 {
		// Session-level attributes belong to no feed.
		text += "a=control:*" + eol + "a=range:npt=0-" + eol + "a=rtpmap:7 H264/5" + eol
	}
	n := nd.Choose(nd.Param("sections", 2) + 1)
	var want []vzSection
	for i := 0; i < n; i++ {
		c := vzGenSection(eol, nd.Choose(nd.Param("nattr", 2)+1))
		text += c.text
		if c.video {
			want = append(want, c)
		} else if i > 0 {
			nd.Cover("other media after another section")
		}
	}
	feeds := Parse([]byte(text))
	nd.Assert(len(feeds) == len(want), "one feed per video section")
	for i, c := range want {
		vzCheckFeed(feeds[i], c)
		if i > 0 {
			nd.Cover("second video")
		}
	}
}

// VerifSprop: parameter sets and codec configuration of fmtp are decoded whatever bytes they hold and wherever they are among parameters.
func VerifSprop() {
	n := nd.Choose(nd.Param("sets", 2))
	var sets [][]byte
	val := ""
	for i := 0; i <= n; i++ {
		b := nd.Bytes(1 + nd.Choose(nd.Param("bytes", 4)))
		sets = append(sets, b)
		if i > 0 {
			val += ","
		}
		val += string(vzEncode64(b))
	}
	cfg := nd.Bytes(nd.Choose(2) * nd.Param("cfg", 2))
	hx := ""
	for _, b := range cfg {
		h := func(v byte) string {
			return string([]byte{nd.IteU8(v < 10, '0'+v, 'a'+v-10)})
		}
		hx += h(b>>4) + h(b&15)
	}
	parts := []string{"sprop-parameter-sets=" + val, "packetization-mode=1"}
	sizes := nd.Choose(2) == 1
	var sl, il string
	var slv, ilv int
	if sizes {
		slv, sl = vzNumber(2)
		ilv, il = vzNumber(1)
		parts = append(parts, "sizelength="+sl, "indexlength="+il, "config="+hx)
	}
	at := nd.Choose(len(parts))
	if nd.Choose(2) == 1 && !sizes {
		parts = parts[:1]
		at = 0
		nd.Cover("only parameter")
	}
	parts[0], parts[at] = parts[at], parts[0]
	sep := [...]string{";", "; "}[nd.Choose(2)]
	text := "a=fmtp:96 "
	for i, p := range parts {
		if i > 0 {
			text += sep
		}
		text += p
	}
	if nd.Param("alike", 0) == 1 {
		// Attributes which look like format parameters.
		text += "\r\na=" + [...]string{"x-fmtp:96", "framesize:96", "x-fmtp"}[nd.Choose(3)] + [...]string{" sizelength=9;config=ff;sprop-parameter-sets=AAAA", " 1;indexlength=7"}[nd.Choose(2)]
		nd.Cover("look-alike")
	}
	attrs := "a=rtpmap:96 H264/90000\r\n" + text
	if nd.Choose(2) == 1 {
		attrs = text + "\r\na=rtpmap:96 H264/90000"
		nd.Cover("parameters first")
	}
	feeds := Parse([]byte("m=video 0 RTP/AVP 96\r\n" + attrs + "\r\na=control:t/1\r\nm=audio 0 RTP/AVP 97\r\na=fmtp:97 sizelength=1;config=00;sprop-parameter-sets=AAAA\r\n"))
	nd.Assert(len(feeds) == 1, "one feed per video section")
	m := feeds[0]
	nd.Assert(len(m.SpropParameterSets) == len(sets), "as many parameter sets as listed")
	for i, b := range sets {
		nd.Assert(nd.EqBytes(m.SpropParameterSets[i], b), "parameter set bytes")
		nd.ObserveB("set", m.SpropParameterSets[i])
	}
	nd.Assert(nd.And(m.TimeScale == 90000, m.Type == H264), "encoding and clock rate are not disturbed by parameters")
	nd.Assert(m.Control == "t/1", "control URL")
	if sizes {
		nd.Assert(nd.And(m.SizeLength == slv, m.IndexLength == ilv), "size and index lengths")
		nd.Assert(nd.EqBytes(m.Config, cfg), "codec configuration")
		nd.Cover("configuration")
	}
	if n > 0 {
		nd.Cover("several sets")
	}
}

// VerifAny: no text makes the parser crash or invent feeds.
func VerifAny() {
	pre := [...]string{"", "m=", "m=video", "m=video 0 RTP/AVP 96\na=", "m=video 0 RTP/AVP 96\na=rtpmap:", "m=video 0 RTP/AVP 96\na=fmtp:96 ",
		"m=video 0 RTP/AVP 96\na=fmtp:96 sprop-parameter-sets=", "m=video 0 RTP/AVP 96\na=fmtp:96 config=", "m=video 0 RTP/AVP 96\na=rtpmap:96 "}[nd.Choose(9)]
	rest := nd.StrIn(nd.Choose(nd.Param("n", 4)), "m=a: \r\n/;,A1\x00\xff")
	post := [...]string{"", "\na=control:x\nm=video\n"}[nd.Choose(2)]
	text := pre + rest + post
	feeds := Parse([]byte(text))
	lines := 1
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			lines++
		}
	}
	nd.Assert(len(feeds) <= lines, "no more feeds than lines")
	if post != "" {
		nd.Assert(len(feeds) > 0, "a well-formed section after garbage is found")
		m := feeds[len(feeds)-1]
		nd.Assert(m.Control == "" && m.PayloadType == 0 && m.Type == 0, "a new section starts empty")
		nd.Cover("section after garbage")
	}
	nd.ObserveU("feeds", uint64(len(feeds)))
}

// VerifFeedsMany: descriptions of many sections with many and long attributes; a few of them are arbitrary.
func VerifFeedsMany() {
	n := [...]int{4, 7, nd.Param("sections", 20)}[nd.Choose(3)]
	size := [...]int{3, 60, 300, nd.Param("long", 1100)}[nd.Choose(4)]
	at := [...]int{0, n / 2, n - 1}[nd.Choose(3)]
	eol := [...]string{"\n", "\r\n"}[(n+at+size/4)%2]
	text := "v=0" + eol + "o=- 1 1 IN IP4 0.0.0.0" + eol + "s=x" + eol + "a=control:*" + eol
	var want []vzSection
	for i := 0; i < n; i++ {
		c := vzSection{video: i == at || i%3 != 1, pt: 96 + i%30, typ: H264, scale: 90000 + i}
		url := make([]byte, size)
		for j := range url {
			url[j] = vzUrlText[(i+3*j)%len(vzUrlText)]
		}
		if i == at {
			k := [...]int{0, size / 2, size - 2}[nd.Choose(3)]
			copy(url[k:], nd.StrIn(2, vzUrlText))
		}
		c.control = "t" + strconv.Itoa(i) + string(url)
		c.rtpmap = c.pt
		enc := "H264"
		if i%4 == 2 {
			c.typ, enc = AAC, "mpeg4-generic"
		}
		pt := strconv.Itoa(c.pt)
		kind := "video"
		if !c.video {
			kind = "audio"
		}
		text += "m=" + kind + " 0 RTP/AVP " + pt + eol
		attrs := []string{"a=control:" + c.control, "a=rtpmap:" + pt + " " + enc + "/" + strconv.Itoa(c.scale), "a=framerate:25.0", "b=AS:500",
			"a=x-note:" + c.control, "a=fmtp:" + pt + " packetization-mode=1;profile-level-id=4D0029"}
		for j := range attrs {
			text += attrs[(i+j)%len(attrs)] + eol
		}
		if c.video {
			want = append(want, c)
		}
	}
	feeds := Parse([]byte(text))
	nd.Assert(len(feeds) == len(want), "one feed per video section")
	for i, c := range want {
		m := feeds[i]
		nd.Assert(nd.And(m.PayloadType == c.pt, m.Rtpmap == c.rtpmap), "payload types of the section")
		nd.Assert(nd.EqStr(m.Control, c.control), "control URL of the section, verbatim")
		nd.Assert(nd.And(m.Type == c.typ, m.TimeScale == c.scale), "encoding and clock rate of the rtpmap of the section")
	}
	nd.ObserveU("feeds", uint64(len(feeds)))
	nd.Cover("many sections")
}

// VerifSpropMany: many and long parameter sets and a long configuration; a few of their bytes are arbitrary.
func VerifSpropMany() {
	n := [...]int{1, 3, nd.Param("sets", 10)}[nd.Choose(3)]
	size := [...]int{23, 24, 25, nd.Param("long", 700)}[nd.Choose(4)]
	at := [...]int{0, n / 2, n - 1}[nd.Choose(3)]
	fill := func(k, seed int) []byte {
		b := make([]byte, k)
		for j := range b {
			b[j] = byte(37*j + seed)
		}
		return b
	}
	var sets [][]byte
	val := ""
	for i := 0; i < n; i++ {
		b := fill(4+i%3, i)
		if i == at {
			b = fill(size, i)
			copy(b[[...]int{0, size / 2, size - 3}[nd.Choose(3)]:], nd.Bytes(3))
		}
		sets = append(sets, b)
		if i > 0 {
			val += ","
		}
		val += string(vzEncode64(b))
	}
	cfg := fill(size, 7)
	copy(cfg[size-1:], nd.Bytes(1))
	hx := ""
	for _, b := range cfg {
		h := func(v byte) string {
			return string([]byte{nd.IteU8(v < 10, '0'+v, 'a'+v-10)})
		}
		hx += h(b>>4) + h(b&15)
	}
	text := "a=fmtp:96 packetization-mode=1; sprop-parameter-sets=" + val + ";sizelength=13;config=" + hx + "; indexlength=3"
	feeds := Parse([]byte("m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n" + text + "\r\na=control:t/1\r\n"))
	nd.Assert(len(feeds) == 1, "one feed per video section")
	m := feeds[0]
	nd.Assert(len(m.SpropParameterSets) == len(sets), "as many parameter sets as listed")
	for i, b := range sets {
		nd.Assert(nd.EqBytes(m.SpropParameterSets[i], b), "parameter set bytes")
	}
	nd.Assert(nd.EqBytes(m.Config, cfg), "codec configuration")
	nd.Assert(nd.And(m.SizeLength == 13, m.IndexLength == 3), "size and index lengths")
	nd.Assert(nd.And(nd.EqStr(m.Control, "t/1"), m.TimeScale == 90000), "other attributes are not disturbed")
	nd.ObserveB("set", m.SpropParameterSets[at])
	nd.Cover("many sets")
}
