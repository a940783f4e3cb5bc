package rtsp

import (
	"crypto/md5"
	"strings"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

// Text that can be inside of a quoted string.
const vzQtext = " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func vzHexOf(sum [16]byte) string {
	b := make([]byte, 32)
	for i, v := range sum {
		hi, lo := v>>4, v&15
		b[2*i] = nd.IteU8(hi < 10, '0'+hi, 'a'-10+hi)
		b[2*i+1] = nd.IteU8(lo < 10, '0'+lo, 'a'-10+lo)
	}
	return string(b)
}

func vzRefMD5(parts ...string) string {
	s := parts[0]
	for _, p := range parts[1:] {
		s += ":" + p
	}
	return vzHexOf(md5.Sum([]byte(s)))
}

// directives splits a value of Authorization header into its parameters.
func vzDirectives(s string) map[string]string {
	m := map[string]string{}
	i := 0
	for i < len(s) {
		for i < len(s) && (s[i] == ' ' || s[i] == ',') {
			i++
		}
		j := i
		for j < len(s) && s[j] != '=' {
			j++
		}
		if j == len(s) {
			break
		}
		key := s[i:j]
		i = j + 1
		if i < len(s) && s[i] == '"' {
			for j = i + 1; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
			m[key] = s[i+1 : j]
			i = j + 1
		} else {
			for j = i; j < len(s) && s[j] != ','; j++ {
			}
			m[key] = s[i:j]
			i = j
		}
	}
	return m
}

func vzHex8(n int) string {
	b := make([]byte, 8)
	for i := 7; i >= 0; i-- {
		b[i] = "0123456789abcdef"[n%16]
		n /= 16
	}
	return string(b)
}

const vzLetters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"

// VerifDigestMany: the nonce count of every one of many requests is its number and its response is the one of RFC 2617.
func VerifDigestMany() {
	user, pass, nonce := nd.StrIn(1, vzToken), nd.StrIn(1, vzToken), nd.StrIn(1, vzToken)
	sess := nd.Choose(2) == 1
	challenge := `Digest realm="r", qop="auth", nonce="` + nonce + `"`
	if sess {
		challenge += ", algorithm=MD5-sess"
	}
	d, err := NewDigest("rtsp://h/", challenge)
	nd.Assert(err == nil, "a well-formed challenge is accepted")
	auth := d.Authenticate(user, pass)
	a1 := vzRefMD5(user, "r", pass)
	n := nd.Param("requests", 40)
	for i := 1; i <= n; i++ {
		m := vzDirectives(auth(VerbPlay, nil)[len("Digest "):])
		nd.Assert(m["nc"] == vzHex8(i), "nonce count is the number of the request")
		if sess && i == 1 {
			a1 = vzRefMD5(a1, nonce, m["cnonce"])
		}
		nd.Assert(nd.EqStr(m["response"], vzRefMD5(a1, nonce, m["nc"], m["cnonce"], "auth", vzRefMD5(VerbPlay, "rtsp://h/"))), "response is the digest of RFC 2617")
	}
	nd.Cover("many requests")
}

// VerifDigest: the response to a challenge is the one of RFC 2617, for every request of the session.
func VerifDigest() {
	realm := nd.StrIn(nd.Param("realm", 2), vzQtext)
	esc := nd.Param("esc", 0) == 1 && nd.Choose(2) == 1
	if esc {
		realm += `\"`
		nd.Cover("escaped quote")
	}
	nonce := nd.StrIn(nd.Param("nonce", 2), vzQtext)
	opaque := nd.StrIn(nd.Choose(2)*2, vzQtext)
	user := nd.StrIn(2, vzQtext)
	pass := nd.StrIn(2, vzQtext)
	uri := "rtsp://h/" + nd.StrIn(1, "abcdefgh/?=&")
	ds := []string{`realm="` + realm + `"`, `nonce="` + nonce + `"`}
	alg := "md5"
	switch nd.Choose(3) {
	case 1:
		ds = append(ds, [...]string{"algorithm=MD5", `algorithm="MD5"`, "algorithm=md5"}[nd.Choose(3)])
	case 2:
		alg = "md5-sess"
		ds = append(ds, "algorithm=MD5-sess")
	}
	qop := ""
	switch nd.Choose(4) {
	case 1:
		qop = "auth"
		ds = append(ds, `qop="auth"`)
	case 2:
		qop = "auth-int"
		ds = append(ds, `qop="auth-int"`)
	case 3:
		qop = "auth"
		ds = append(ds, `qop="auth,auth-int"`)
	}
	if opaque != "" {
		ds = append(ds, `opaque="`+opaque+`"`)
	}
	switch nd.Choose(3) {
	case 1:
		ds = append(ds, "stale=FALSE", `domain="/a,b"`)
	case 2:
		ds = append(ds, `charset="UTF-8"`, "x-"+nd.StrIn(1, "abc")+`="realm=1"`)
		nd.Cover("unknown directive")
	}
	if alg == "md5-sess" && qop == "" {
		return // RFC 2617 does not define a client nonce for it
	}
	// The order of directives does not matter.
	rot := nd.Choose(len(ds))
	ds = append(append([]string{}, ds[rot:]...), ds[:rot]...)
	challenge := "Digest " + strings.Join(ds, [...]string{", ", ","}[nd.Choose(2)])
	d, err := NewDigest(uri, challenge)
	nd.Assert(err == nil, "a well-formed challenge is accepted")
	auth := d.Authenticate(user, pass)
	first := ""
	verbs := [...]string{VerbOptions, VerbDescribe, VerbSetup}
	for i := 1; i <= nd.Param("requests", 2); i++ {
		verb := verbs[(i+nd.Param("verb", 0))%3]
		body := []byte(nil)
		if qop == "auth-int" && i == 2 {
			body = nd.Bytes(2)
		}
		v := auth(verb, body)
		nd.Assert(strings.HasPrefix(v, "Digest "), "scheme of the credentials")
		m := vzDirectives(v[len("Digest "):])
		nd.Assert(nd.And(nd.EqStr(m["username"], user), nd.EqStr(m["realm"], realm)), "user name and realm are sent as is")
		nd.Assert(nd.And(nd.EqStr(m["nonce"], nonce), nd.EqStr(m["uri"], uri)), "nonce and URI are sent as is")
		nd.Assert(nd.And(nd.EqStr(m["opaque"], opaque), nd.EqStr(m["algorithm"], alg)), "opaque and algorithm are returned")
		a1 := vzRefMD5(user, realm, pass)
		a2 := vzRefMD5(verb, uri)
		if qop == "auth-int" {
			a2 = vzRefMD5(verb, uri, vzHexOf(md5.Sum(body)))
		}
		want := ""
		if qop == "" {
			nd.Assert(m["nc"] == "" && m["cnonce"] == "" && m["qop"] == "", "no nonce count and client nonce unless asked for protection")
			want = vzRefMD5(a1, nonce, a2)
		} else {
			cnonce := m["cnonce"]
			nd.Assert(m["qop"] == qop, "protection is the first one of offered")
			nd.Assert(len(cnonce) > 0, "client nonce is sent")
			nd.Assert(m["nc"] == vzHex8(i), "nonce count is the number of the request")
			if i == 1 {
				first = cnonce
			}
			if alg == "md5-sess" {
				a1 = vzRefMD5(a1, nonce, first)
				nd.Cover("session key")
			}
			want = vzRefMD5(a1, nonce, m["nc"], cnonce, qop, a2)
		}
		nd.Assert(nd.EqStr(m["response"], want), "response is the digest of RFC 2617")
		if qop == "" {
			nd.ObserveS("response", m["response"])
		}
	}
}

// VerifBasic: Basic credentials are base64 of user name and password.
func VerifBasic() {
	user := nd.StrIn(nd.Choose(nd.Param("user", 5)), vzQtext)
	pass := nd.StrIn(nd.Choose(nd.Param("pass", 5)), vzQtext+`"\:`)
	realm := nd.StrIn(2, vzQtext)
	challenge := [...]string{`Basic realm="a,b"`, `Basic realm="` + realm + `"`, " Basic realm=x", `Basic realm="x", charset="UTF-8"`}[nd.Choose(4)]
	d, err := NewDigest("rtsp://h/", challenge)
	nd.Assert(err == nil, "a well-formed challenge is accepted")
	auth := d.Authenticate(user, pass)
	v := auth(VerbPlay, nil)
	nd.Assert(nd.EqStr(auth(VerbSetup, nil), v), "Basic credentials do not depend on the request")
	nd.Assert(strings.HasPrefix(v, "Basic "), "scheme of the credentials")
	// Decode with a reference decoder and compare.
	b, ok := vzDecode64(v[len("Basic "):])
	nd.Assert(ok, "credentials are base64")
	nd.Assert(nd.EqStr(string(b), user+":"+pass), "credentials are user name and password")
	nd.ObserveS("basic", v)
	if len(user) > 1 && len(pass) > 1 {
		nd.Cover("both")
	}
}

func vzSextet(c byte) (v byte, ok bool) {
	const tbl = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	for i := 0; i < 64; i++ {
		v = nd.IteU8(c == tbl[i], byte(i), v)
	}
	return v, nd.InSet(c, tbl)
}

func vzDecode64(s string) (b []byte, ok bool) {
	if len(s)%4 != 0 {
		return nil, false
	}
	ok = true
	for i := 0; i < len(s); i += 4 {
		var v [4]byte
		n := 4
		if i+4 == len(s) {
			for n > 2 && s[i+n-1] == '=' {
				n--
			}
		}
		for j := 0; j < n; j++ {
			var k bool
			v[j], k = vzSextet(s[i+j])
			ok = nd.And(ok, k)
		}
		t := []byte{v[0]<<2 | v[1]>>4, v[1]<<4 | v[2]>>2, v[2]<<6 | v[3]}
		b = append(b, t[:n-1]...)
	}
	return b, ok
}

// VerifChallengeAny: challenges with an unknown scheme or algorithm are rejected; no text makes the parser crash.
func VerifChallengeAny() {
	switch nd.Choose(3) {
	case 0:
		n := nd.Choose(nd.Param("n", 7))
		s := nd.Bytes(n)
		known := n >= 6 && string(s[:6]) == "Basic " || n >= 7 && string(s[:7]) == "Digest "
		nd.Assume(!known)
		if n > 0 {
			nd.Assume(s[0] > ' ' && s[0] < 127)
		}
		_, err := NewDigest("u", string(s))
		nd.Assert(err != nil, "an unknown scheme is rejected")
		nd.Cover("unknown scheme")
	case 1:
		alg := [...]string{"", "md5", "MD5", "md5-ses", "MD5-sess"}[nd.Choose(5)]
		if alg == "" {
			alg = nd.StrIn(3, vzLetters)
		} else {
			alg += nd.StrIn(nd.Choose(3), vzLetters)
		}
		low := strings.ToLower(alg)
		ok := nd.Or(low == "md5", low == "md5-sess")
		_, err := NewDigest("u", `Digest realm="r", nonce="n", algorithm=`+alg)
		nd.Assert((err == nil) == ok, "an unknown algorithm is rejected")
		if ok {
			nd.Cover("md5")
		}
	case 2:
		pre := [...]string{"Digest ", "Basic ", `Digest realm="`, "Digest qop=", `Digest nonce="n",algorithm=`}[nd.Choose(5)]
		d, err := NewDigest("u", pre+nd.StrIn(nd.Choose(nd.Param("k", 5)), "aqQ=,\"\\ 5\x00\xc3\xff"))
		if err == nil {
			nd.Assert(d != nil, "a processor is returned")
			v := d.Authenticate("u", "p")(VerbPlay, nil)
			nd.Assert(len(v) > 6, "credentials are produced")
			nd.Cover("accepted")
		}
	}
}
