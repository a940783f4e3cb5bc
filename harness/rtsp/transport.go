package rtsp

import (
	"strconv"
	"strings"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

const (
	vzDecimal  = "0123456789"
	vzHostText = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:/-_=%"
	vzHexText  = "0123456789ABCDEFabcdef"
)

// digits returns an arbitrary decimal number of n digits without leading zeroes.
func vzDigitsOf(n int) (v int, s string) {
	b := make([]byte, n)
	for i := range b {
		set := vzDecimal
		if i == 0 && n > 1 {
			set = vzDecimal[1:]
		}
		b[i] = nd.ByteIn(set)
		v = v*10 + int(b[i]-'0')
	}
	return v, string(b)
}

func vzAnyPair() (p Pair, s string) {
	one, a := vzDigitsOf([...]int{nd.Param("one", 5), 1}[nd.Choose(nd.Param("ones", 2))])
	if nd.Choose(2) == 0 {
		// A single channel or port: the other one of the pair follows it.
		return Pair{one, one + 1}, a
	}
	two, b := vzDigitsOf(nd.Param("two", 3))
	return Pair{one, two}, a + "-" + b
}

func vzMixCase(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] = nd.ByteIn(string([]byte{b[i], b[i] - 32}))
		}
	}
	return string(b)
}

func vzSameTransport(a, b Transport) bool {
	r := nd.And(a.IsTCP == b.IsTCP, nd.And(a.IsMulticast == b.IsMulticast, nd.And(a.IsInterleaved == b.IsInterleaved, a.IsAppend == b.IsAppend)))
	r = nd.And(r, nd.And(a.Interleave == b.Interleave, nd.And(a.Port == b.Port, nd.And(a.ClientPort == b.ClientPort, a.ServerPort == b.ServerPort))))
	r = nd.And(r, nd.And(a.Layers == b.Layers, a.TTL == b.TTL))
	r = nd.And(r, nd.And(nd.EqStr(a.Destination, b.Destination), nd.EqStr(a.Source, b.Source)))
	return nd.And(r, nd.And(nd.EqStr(a.SSRC, b.SSRC), nd.EqStr(a.Mode, b.Mode)))
}

// VerifTransportParse: every parameter of a Transport header, in any order, sets its own field and no other.
func VerifTransportParse() {
	var t Transport
	t.Mode = "PLAY"
	want := t
	text := "RTP/AVP"
	switch nd.Choose(3) {
	case 0:
		text += "/" + vzMixCase("tcp")
		want.IsTCP = true
	case 1:
		text += "/UDP"
	}
	n := nd.Choose(nd.Param("params", 2) + 1)
	mixed := nd.Param("mixed", 0) == 1
	for i := 0; i < n; i++ {
		text += [...]string{";", "; "}[nd.Choose(2)]
		key, val := "", ""
		switch nd.Choose(14) {
		case 0:
			key = "unicast"
			want.IsMulticast = false
		case 1:
			key = "multicast"
			want.IsMulticast = true
		case 2:
			key = "destination"
			want.Destination = nd.StrIn(nd.Param("host", 3), vzHostText)
			val = "=" + want.Destination
		case 3:
			key = "source"
			want.Source = nd.StrIn(nd.Param("host", 3), vzHostText)
			val = "=" + want.Source
		case 4:
			key = "interleaved"
			want.IsMulticast, want.IsInterleaved = false, true
			want.Interleave, val = vzAnyPair()
			val = "=" + val
			nd.Cover("interleaved")
		case 5:
			key = "append"
			want.IsAppend = true
		case 6:
			key = "layers"
			want.Layers, val = vzDigitsOf(2)
			val = "=" + val
		case 7:
			key = "ttl"
			want.TTL, val = vzDigitsOf(3)
			val = "=" + val
		case 8:
			key = "port"
			want.Port, val = vzAnyPair()
			val = "=" + val
		case 9:
			key = "client_port"
			want.ClientPort, val = vzAnyPair()
			val = "=" + val
		case 10:
			key = "server_port"
			want.ServerPort, val = vzAnyPair()
			val = "=" + val
			nd.Cover("server port")
		case 11:
			key = "ssrc"
			want.SSRC = nd.StrIn(nd.Param("ssrc", 8), vzHexText)
			val = "=" + want.SSRC
		case 12:
			key = "mode"
			want.Mode = nd.StrIn(4, vzHostText+"\"")
			val = "=" + want.Mode
		case 13:
			// An unknown parameter changes nothing.
			key = "x-" + nd.StrIn(3, vzHostText)
		}
		if mixed {
			key = vzMixCase(key)
		}
		text += key + val
	}
	err := t.Parse(text)
	nd.Assert(err == nil, "a well-formed transport is accepted")
	nd.Assert(vzSameTransport(t, want), "every parameter sets its own field and no other")
	nd.ObserveS("transport", t.String())
	if n > 1 {
		nd.Cover("several parameters")
	}
}

// VerifTransportRoundTrip: parsing what was formatted restores the transport; formatting it again gives the same text.
func VerifTransportRoundTrip() {
	pair := func(lo int) Pair {
		return Pair{lo + nd.Choose(2)*5, lo + 1}
	}
	num := nd.Range(1, nd.Param("max", 999))
	proto := nd.Choose(4)
	idx := 2 * nd.Choose(4)
	t := NewTransport(proto, idx)
	switch proto {
	case ProtoTCP, ProtoHTTP:
		nd.Assert(t.IsTCP && t.IsInterleaved && t.Interleave == Pair{idx, idx + 1}, "TCP transport asks for its own pair of channels")
	case ProtoUnicast:
		nd.Assert(!t.IsTCP && !t.IsMulticast && t.ClientPort.One%2 == 0 && t.ClientPort.Two == t.ClientPort.One+1, "unicast transport asks for an even and odd pair of ports")
	case ProtoMulticast:
		nd.Assert(!t.IsTCP && t.IsMulticast && t.Port.One%2 == 0 && t.Port.Two == t.Port.One+1, "multicast transport asks for an even and odd pair of ports")
	}
	switch nd.Choose(8) {
	case 0:
		t.Destination = nd.StrIn(nd.Param("host", 3), vzHostText)
	case 1:
		t.Source = nd.StrIn(nd.Param("host", 3), vzHostText)
		t.IsAppend = true
	case 2:
		if t.IsTCP {
			t.Interleave = Pair{num, num + 1}
		} else {
			t.ServerPort = Pair{num, 7}
		}
	case 3:
		t.ServerPort = pair(6000)
		t.ClientPort = Pair{num, num + 1}
	case 4:
		t.Port = Pair{num, num + 1}
		t.SSRC = nd.StrIn(8, vzHexText)
	case 5:
		t.Layers = num
	case 6:
		if t.IsMulticast {
			t.TTL = num
		}
	case 7:
		t.Mode = nd.StrIn(4, "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
		nd.Cover("mode")
	}
	text := t.String()
	nd.ObserveS("text", text)
	u := &Transport{Mode: "PLAY"}
	nd.Assert(u.Parse(text) == nil, "a formatted transport can be parsed")
	nd.Assert(vzSameTransport(*t, *u), "parsing a formatted transport restores it")
	nd.Assert(nd.EqStr(u.String(), text), "formatting is stable")
	n := 1
	for _, set := range [...]bool{!t.IsTCP, t.Destination != "", t.Source != "", t.IsInterleaved, t.IsAppend, t.Port.One > 0, t.ClientPort.One > 0,
		t.ServerPort.One > 0, t.TTL > 0, t.Layers > 0, t.SSRC != "", t.Mode != "" && t.Mode != "PLAY"} {
		if set {
			n++
		}
	}
	nd.Assert(len(strings.Split(text, ";")) == n, "nothing but what is set is formatted")
	// A response that repeats the request changes nothing in the transport of the client.
	keep := *t
	nd.Assert(t.Parse(text) == nil && vzSameTransport(*t, keep), "an echoed transport changes nothing")
	if proto == ProtoMulticast {
		nd.Cover("multicast")
	}
}

// VerifTransportAny: malformed parameters are rejected; no text makes the parser crash.
func VerifTransportAny() {
	t := NewTransport(nd.Choose(3), 0)
	keys := [...]string{"destination", "source", "interleaved", "layers", "ttl", "port", "client_port", "server_port", "ssrc", "mode"}
	k := nd.Choose(len(keys) + 1)
	if k == len(keys) {
		// Anything at all.
		text := [...]string{"", "RTP/AVP", "RTP/AVP/TCP;", "interleaved=", "port=1-"}[nd.Choose(5)] + nd.StrIn(nd.Choose(nd.Param("n", 5)), "tcpTCP/=;- 019\x00\xc3\xff")
		err := t.Parse(text)
		if err == nil {
			nd.Cover("accepted")
		}
		nd.ObserveS("any", t.String())
		return
	}
	numeric := k >= 2 && k <= 7
	text := "RTP/AVP;" + keys[k]
	if numeric {
		switch nd.Choose(3) {
		case 1:
			// A value which does not start with a number.
			text += "=" + string([]byte{nd.ByteIn("abc ,./:x;=")}) + nd.StrIn(nd.Choose(2), vzDecimal)
		case 2:
			// A value with a number that is not one.
			bad := nd.StrIn(nd.Choose(3), vzDecimal) + string([]byte{nd.ByteIn("abcXYZ,./:=_\xff")}) + nd.StrIn(nd.Choose(2), vzDecimal)
			good := nd.StrIn(1+nd.Choose(2), vzDecimal)
			pair := k != 3 && k != 4
			if pair && nd.Choose(2) == 1 {
				bad = good + "-" + [...]string{bad, ""}[nd.Choose(2)]
				nd.Cover("second")
			} else if pair && nd.Choose(2) == 1 {
				bad += "-" + good
			}
			text += "=" + bad
		}
	}
	err := t.Parse(text + [...]string{"", ";unicast", ";client_port=5", ";destination=h;ttl=3"}[nd.Choose(4)])
	nd.Assert(err != nil, "a parameter without its value is an error")
	nd.Cover("rejected")
}

// VerifPair: pairs of numbers are parsed and formatted exactly.
func VerifPair() {
	one, a := vzDigitsOf(1 + nd.Choose(5))
	two, b := vzDigitsOf(1 + nd.Choose(5))
	p, err := ParsePair(a + "-" + b)
	nd.Assert(err == nil && p.One == one && p.Two == two, "both numbers of a pair are parsed")
	p, err = ParsePair(a)
	nd.Assert(err == nil && p.One == one && p.Two == one+1, "the second number follows the only one")
	_, err = ParsePair(a + "-" + string([]byte{nd.ByteIn("abcxyz. ")}))
	nd.Assert(err != nil, "a pair with a malformed number is rejected")
	q := Pair{nd.Range(0, nd.Param("max", 999)), 1}
	nd.Assert(nd.EqStr(q.String(), strconv.Itoa(q.One)+"-1"), "format of a pair")
	nd.Cover("pair")
}
