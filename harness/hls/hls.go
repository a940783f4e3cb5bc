package hls

import (
	"strconv"

	nd "github.com/aboukirev/ouro/net/verifnd"
)

var vzDurations = []float64{2.58, 3.014, 3, 0.25, 12.5, 1e-7, 1234567, 4.0000000123, 0.30000000000000004, 1e21}
var vzDurationText = []string{"2.58", "3.014", "3", "0.25", "12.5", "0.0000001", "1234567", "4.0000000123", "0.30000000000000004", "1000000000000000000000"}

// VerifRing: after any history of additions the window holds the last segments in order at cumulative positions.
func VerifRing() {
	n := 1 + nd.Choose(nd.Param("ring", 5))
	k := nd.Choose(nd.Param("adds", 13))
	pl, err := NewPlaylist("http://h/m", "/v/f.ts", n, 3)
	nd.Assert(err == nil && pl != nil, "a playlist with room for segments is created")
	nd.Assert(pl.First < 0 && len(pl.Segments) == n, "a new playlist is empty")
	pos := []int64{0}
	for i := 0; i < k; i++ {
		l := nd.I64()
		pl.AddSegment(vzDurations[i%len(vzDurations)], l)
		pos = append(pos, pos[i]+l)
		// The window after every step, not only after the last one.
		first := 0
		if i+1 > n {
			first = i + 1 - n
		}
		nd.Assert(pl.First >= 0 && pl.First < n && pl.Last >= 0 && pl.Last < n, "the window is inside of the ring")
		at := pl.First
		for j := first; j <= i; j++ {
			s := pl.Segments[at]
			nd.Assert(s.Position == pos[j], "a segment starts where the previous one ended")
			nd.Assert(s.Length == pos[j+1]-pos[j], "segment length")
			nd.Assert(s.Duration == vzDurations[j%len(vzDurations)], "segment duration")
			nd.Assert((at == pl.Last) == (j == i), "the window holds exactly the last segments")
			at = (at + 1) % n
		}
		nd.ObserveU("first", uint64(pl.First))
		nd.ObserveU("pos", uint64(pl.Segments[pl.Last].Position))
		if i+1 > 2*n {
			nd.Cover("second lap")
		}
	}
}

// VerifRender: the text of a playlist lists exactly the last segments in order, at any moment of any history.
func VerifRender() {
	n := 1 + nd.Choose(nd.Param("ring", 4))
	k := nd.Choose(nd.Param("adds", 10))
	long := nd.Choose(2) == 1
	pl, err := NewPlaylist("https://example.com/media", "/var/media/video.ts", n, 3.5)
	nd.Assert(err == nil, "a playlist with room for segments is created")
	var lines []string
	pos := 0
	head := "#EXTM3U\n#EXT-X-VERSION:4\n"
	nd.Assert(nd.EqStr(pl.String(), head+"#EXT-X-ENDLIST\n"), "an empty playlist lists nothing")
	for i := 0; i < k; i++ {
		// One length is arbitrary, the others are not, so that decimal numbers stay tractable.
		l := 1000*i + 7
		d := i % len(vzDurations)
		if i == k-1 {
			if long {
				l = 1<<62 + 5 - pos
			} else {
				l = nd.Range(0, nd.Param("max", 299))
			}
			d = nd.Choose(len(vzDurations))
		}
		pl.AddSegment(vzDurations[d], int64(l))
		lines = append(lines, "#EXTINF:"+vzDurationText[d]+"\n#EXT-X-BYTERANGE:"+strconv.Itoa(l)+"@"+strconv.Itoa(pos)+"\nhttps://example.com/media/video.ts\n")
		pos += l
		if len(lines) > n {
			lines = lines[1:]
		}
		want := head
		for _, s := range lines {
			want += s
		}
		want += "#EXT-X-ENDLIST\n"
		got := pl.String()
		nd.Assert(nd.EqStr(got, want), "the playlist lists exactly the last segments in order")
		nd.Assert(nd.EqStr(pl.String(), got), "rendering changes nothing")
		if i >= n {
			nd.Cover("wrapped")
		}
	}
	nd.ObserveS("m3u8", pl.String())
}

// VerifNew: the media URI is the base URI with the file name appended; sizes which cannot hold a segment are rejected.
func VerifNew() {
	n := nd.Choose(6) - 2
	name := nd.StrIn(1+nd.Choose(nd.Param("name", 3)), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")
	dir := [...]string{"/", "/var/media/", "", "../x/"}[nd.Choose(4)]
	seg := nd.StrIn(nd.Choose(nd.Param("seg", 3)), "abcdefghijklmnopqrstuvwxyz0123456789")
	base := "https://example.com"
	if seg != "" {
		base += "/" + seg
	}
	slash := [...]string{"", "/"}[nd.Choose(2)]
	query := ""
	if nd.Choose(2) == 1 {
		query = "?a=" + nd.StrIn(1, "abcdefghijklmnopqrstuvwxyz0123456789") + "&b"
		nd.Cover("query")
	}
	written := name
	switch nd.Choose(4) {
	case 1:
		name, written = name+" x", name+"%20x"
		nd.Cover("escaped")
	case 2:
		name, written = name+"%3", name+"%253"
	case 3:
		name, written = "a?#"+name, "a%3F%23"+name
	}
	pl, err := NewPlaylist(base+slash+query, dir+name+".ts", n, 3.5)
	if n < 1 {
		nd.Assert(err != nil && pl == nil, "a playlist without room for segments is rejected")
		nd.Cover("no room")
		return
	}
	nd.Assert(err == nil, "a playlist with room for segments is created")
	nd.Assert(nd.EqStr(pl.FileName, dir+name+".ts"), "file name")
	want := base + "/" + written + ".ts" + query
	nd.Assert(nd.EqStr(pl.URI, want), "media URI is the base URI with the file name")
	nd.ObserveS("uri", pl.URI)
	if seg != "" {
		nd.Cover("path")
	}
}

// VerifMany: large windows and long histories; one length is arbitrary, at several places in the history.
func VerifMany() {
	n := [...]int{7, 16, nd.Param("ring", 70)}[nd.Choose(3)]
	k := [...]int{n - 1, n + 1, 2*n + 3}[nd.Choose(3)]
	at := [...]int{0, n / 2, k - 2, k - 1}[nd.Choose(4)]
	pl, err := NewPlaylist("http://h/m", "/v/f.ts", n, 3)
	nd.Assert(err == nil && pl != nil, "a playlist with room for segments is created")
	scale := [...]int64{1, 1 << 20, 1 << 33}[nd.Choose(3)]
	var lens, pos []int64
	p := int64(0)
	for i := 0; i < k; i++ {
		l := int64(i*i+5) * scale
		if i == at {
			l = nd.I64()
		}
		pl.AddSegment(vzDurations[i%len(vzDurations)], l)
		lens, pos = append(lens, l), append(pos, p)
		p += l
	}
	first := 0
	if k > n {
		first = k - n
		nd.Cover("wrapped")
	}
	i := pl.First
	for j := first; j < k; j++ {
		s := pl.Segments[i]
		nd.Assert(nd.And(s.Position == pos[j], s.Length == lens[j]), "a segment starts where the previous one ended")
		nd.Assert(s.Duration == vzDurations[j%len(vzDurations)], "segment duration")
		nd.Assert((i == pl.Last) == (j == k-1), "the window holds exactly the last segments")
		i = (i + 1) % n
	}
	nd.ObserveU("pos", uint64(pl.Segments[pl.Last].Position))
}

// VerifRenderMany: the text of large playlists after long histories; the last length is arbitrary.
func VerifRenderMany() {
	n := [...]int{7, 16, nd.Param("ring", 70)}[nd.Choose(3)]
	k := [...]int{n - 1, n + 1, 2*n + 3}[nd.Choose(3)]
	pl, err := NewPlaylist("https://example.com/media", "/var/media/video.ts", n, 3.5)
	nd.Assert(err == nil, "a playlist with room for segments is created")
	scale := [...]int{1, 1 << 20, 1 << 33}[nd.Choose(3)]
	var lines []string
	pos := 0
	for i := 0; i < k; i++ {
		l := (i*i + 5) * scale
		if i == k-1 {
			l = nd.Range(0, nd.Param("max", 299))
		}
		d := i % len(vzDurations)
		pl.AddSegment(vzDurations[d], int64(l))
		lines = append(lines, "#EXTINF:"+vzDurationText[d]+"\n#EXT-X-BYTERANGE:"+strconv.Itoa(l)+"@"+strconv.Itoa(pos)+"\nhttps://example.com/media/video.ts\n")
		pos += l
	}
	if k > n {
		lines = lines[k-n:]
		nd.Cover("wrapped")
	}
	want := "#EXTM3U\n#EXT-X-VERSION:4\n"
	for _, s := range lines {
		want += s
	}
	nd.Assert(nd.EqStr(pl.String(), want+"#EXT-X-ENDLIST\n"), "the playlist lists exactly the last segments in order")
	nd.ObserveU("length", uint64(len(want)))
}
