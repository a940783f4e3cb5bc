package hls

import nd "github.com/aboukirev/ouro/net/verifnd"

// VerifRepeat: two playlists used in turns each list their own segments; a rendered text stays as it is and rendering
// changes nothing.
func VerifRepeat() {
	n := [2]int{1 + nd.Choose(2), 2}
	var pls [2]*Playlist
	for i := range pls {
		pl, err := NewPlaylist("http://h/"+[...]string{"a", "b"}[i], "/v/f.ts", n[i], 3)
		nd.Assert(err == nil && pl != nil, "a playlist with room for segments is created")
		pls[i] = pl
	}
	nd.Assert(nd.And(nd.EqStr(pls[0].URI, "http://h/a/f.ts"), nd.EqStr(pls[1].URI, "http://h/b/f.ts")), "URI of its own")
	var lens [2][]int64
	var texts, keep []string
	for k := nd.Param("steps", 4); k > 0; k-- {
		i := nd.Choose(2)
		l := int64(10*k + 3)
		if len(lens[i]) == 0 {
			l = int64(nd.Range(0, 9))
		}
		pls[i].AddSegment(3, l)
		lens[i] = append(lens[i], l)
		if nd.Choose(2) == 1 {
			t := pls[i].String()
			texts = append(texts, t)
			keep = append(keep, string(append([]byte{}, t...)))
			nd.Cover("rendered")
		}
	}
	for i := range texts {
		nd.Assert(nd.EqStr(texts[i], keep[i]), "a text stays as it was rendered")
	}
	for i, pl := range pls {
		k := len(lens[i])
		if k == 0 {
			nd.Assert(pl.First < 0, "a playlist nothing was added to is empty")
			continue
		}
		pos := int64(0)
		for j := 0; j < k; j++ {
			if j >= k-n[i] {
				s := pl.Segments[j%n[i]]
				nd.Assert(nd.And(s.Position == pos, s.Length == lens[i][j]), "segments of its own")
			}
			pos += lens[i][j]
		}
		nd.Assert(pl.Last == (k-1)%n[i], "window of its own")
	}
}
