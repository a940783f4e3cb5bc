package h264

import nd "github.com/aboukirev/ouro/net/verifnd"

// fieldGen hands out Exp-Golomb fields: one field takes any width up to max, the others follow a width pattern.
type vzFieldGen struct {
	w            *vzBitWriter
	i, long, max int
	pattern      int
}

func (g *vzFieldGen) width(cap int) int {
	k := (g.i*5 + g.pattern) % 3
	if g.i == g.long {
		k = nd.Choose(g.max + 1)
	}
	g.i++
	if k > cap {
		k = cap
	}
	return k
}

// ue writes a field of at most cap suffix bits and returns its value.
func (g *vzFieldGen) ue(cap int) uint64 {
	k := g.width(cap)
	v := vzAnyUE(k)
	g.w.ue(v, k)
	return v
}

// wide writes a field of 7 to n+6 suffix bits, an ordinary one if n is 0, and returns its value.
func (g *vzFieldGen) wide(n int) uint64 {
	if n == 0 {
		return g.ue(13)
	}
	g.i++
	k := 7 + nd.Choose(n)
	v := vzAnyUE(k)
	g.w.ue(v, k)
	return v
}

func (g *vzFieldGen) se(cap int) int64 {
	k := g.width(cap)
	code, v := vzAnySE(k)
	g.w.ue(code, k)
	return v
}

// ueConst writes a known value.
func (g *vzFieldGen) ueConst(v uint64) {
	k := 0
	for (v+1)>>uint(k+1) != 0 {
		k++
	}
	g.w.ue(v, k)
}

func (g *vzFieldGen) flag() bool {
	v := nd.Bool()
	g.w.flag(v)
	return v
}

// choice writes a flag the structure of the syntax depends on.
func (g *vzFieldGen) choice() bool {
	v := nd.Choose(2) == 1
	g.w.flag(v)
	return v
}

var vzHighProfiles = []byte{100, 110, 122, 244, 44, 83, 86, 118, 128, 138}

type vzListRef struct {
	idx int
	def bool
	off int
	val []int32
}

// scalingLists writes nlists present flags and one or two present lists.
func (g *vzFieldGen) scalingLists(nlists int) (mask uint32, refs []vzListRef) {
	first := nd.Choose(nlists)
	second := -1
	if nd.Choose(2) == 1 {
		second = (first + 1) % nlists
	}
	off, size := 0, 16
	for i := 0; i < nlists; i++ {
		present := i == first || i == second
		g.w.flag(present)
		if present {
			mask |= 1 << uint(i)
			vals := make([]int32, size)
			last := int32(8)
			stop := size
			def := false
			k := nd.Choose(3) * 4 // widths 0, 4, 8
			stopAt := -1
			if i == first {
				stopAt = nd.Choose(3) - 1 // -1: never, 0: default matrix, 1: after the first value
			}
			for j := 0; j < size; j++ {
				if j < stop {
					switch {
					case j == stopAt && j == 0:
						g.ueSE(-8)
						def = true
						stop = 0
					case j == stopAt:
						// back to zero: next = last + delta + 256 = 256
						nd.Assume(last < 128)
						code := uint64(2 * last)
						kk := nd.Choose(8)
						nd.Assume(nd.And(code+1 >= 1<<uint(kk), code+1 < 2<<uint(kk)))
						g.w.ue(code, kk)
						stop = j
					case j == 0 || j == 2:
						code, d := vzAnySE(k)
						nd.Assume(nd.And(d >= -128, d <= 127))
						nv := (int64(last) + d + 256) & 255
						nd.Assume(nv != 0)
						g.w.ue(code, k)
						last = int32(nv)
					default:
						g.w.ue(0, 0)
					}
				}
				vals[j] = last
			}
			refs = append(refs, vzListRef{i, def, off, vals})
		}
		off += size
		if i >= 5 {
			size = 64
		}
	}
	return
}

func (g *vzFieldGen) ueSE(v int) {
	c := uint64(-2 * v)
	if v > 0 {
		c = uint64(2*v - 1)
	}
	g.ueConst(c)
}

func vzCheckLists(refs []vzListRef, mask, gotMask uint32, list []int32, def []bool) {
	nd.Assert(mask == gotMask, "the set of transmitted scaling lists is reported")
	for _, r := range refs {
		nd.Assert(def[r.idx] == r.def, "the default matrix indication is reported")
		if r.def {
			continue
		}
		ok := true
		for j, v := range r.val {
			ok = nd.And(ok, list[r.off+j] == v)
		}
		nd.Assert(ok, "scaling list values are decoded into their place")
	}
}

// VerifSPS: a sequence parameter set written according to the specification is decoded field by field and the
// picture dimensions follow from it.
func VerifSPS() {
	w := &vzBitWriter{}
	mode := nd.Param("mode", 0) // 0: dimensions, 1: scaling lists, 2: picture order count, 3: profiles
	g := &vzFieldGen{w: w, long: -1, max: nd.Param("k", 6), pattern: nd.Param("pattern", 1)}
	big := nd.Param("big", 0)
	if mode != 1 && big == 0 {
		g.long = nd.Choose(12)
	}
	var profile byte
	high := mode == 1
	switch mode {
	case 0:
		high = nd.Choose(2) == 1
		profile = 77
		if high {
			profile = 100
		}
	case 1:
		profile = 110
	case 2:
		profile = 66
	case 3:
		if high = nd.Choose(2) == 1; high {
			profile = vzHighProfiles[nd.Choose(len(vzHighProfiles))]
		} else {
			profile = []byte{66, 77, 88}[nd.Choose(3)]
		}
	}
	constraint := nd.Byte() &^ 3
	level := nd.Byte()
	w.u(uint64(profile), 8)
	w.u(uint64(constraint), 8)
	w.u(uint64(level), 8)
	id := g.ue(4)
	nd.Assume(id <= 31)
	chroma := uint64(1)
	sep := false
	var depthL, depthC uint64
	bypass, matrix := false, false
	var mask uint32
	var refs []vzListRef
	if high {
		if mode == 1 {
			chroma = 1 + 2*uint64(nd.Choose(2))
		} else {
			chroma = uint64(nd.Choose(4))
		}
		g.ueConst(chroma)
		if chroma == 3 {
			sep = g.choice()
		}
		depthL, depthC = g.ue(2), g.ue(2)
		bypass = g.flag()
		matrix = mode == 1
		w.flag(matrix)
		if matrix {
			n := 8
			if chroma == 3 {
				n = 12
			}
			mask, refs = g.scalingLists(n)
		}
	}
	frameNum := g.ue(3)
	poc := 0
	if mode == 2 {
		poc = nd.Choose(3)
	}
	g.ueConst(uint64(poc))
	var log2poc, cycle uint64
	var nonref, topbot int64
	delta0 := false
	switch poc {
	case 0:
		log2poc = g.ue(3)
	case 1:
		delta0 = g.flag()
		nonref = g.se(31)
		topbot = g.se(31)
		cycle = [...]uint64{0, 1, 2, 3, 255}[nd.Choose(5)]
		g.ueConst(cycle)
		for i := 0; i < int(cycle); i++ {
			if i < 3 {
				g.se(31)
			} else {
				g.ueConst(uint64(i % 9))
			}
		}
	}
	refsN := g.ue(4)
	gaps := g.flag()
	wm := g.wide(big)
	hm := g.wide(big)
	fmo := true
	if mode == 1 {
		w.flag(true)
	} else {
		fmo = g.choice()
	}
	adaptive := false
	if !fmo {
		adaptive = g.flag()
	}
	d8 := g.flag()
	crop := mode == 0
	if mode == 0 {
		crop = g.choice()
	} else {
		w.flag(false)
	}
	var cl, cr, ct, cb uint64
	if crop {
		cl, cr, ct, cb = g.wide(big/2), g.ue(13), g.ue(13), g.wide(big/2)
	}
	vui := true
	if nd.Param("vui", 0) == 1 {
		// Contents of VUI follow the flag: picture aspect, timing.
		w.flag(true)
		w.u(1, 1)
		w.u(255, 8)
		w.u(uint64(nd.U16()), 16)
		w.u(uint64(nd.U16()), 16)
		w.u(0, 3)
		w.u(1, 1)
		w.u(uint64(nd.U32()), 32)
		w.u(uint64(nd.U32()), 32)
		w.u(0x10, 5)
		nd.Cover("VUI")
	} else {
		vui = g.flag()
	}
	w.trailing()
	cx, cy, mul := uint64(1), uint64(1), uint64(1)
	if !sep && (chroma == 1 || chroma == 2) {
		cx = 2
	}
	if !sep && chroma == 1 {
		cy = 2
	}
	if !fmo {
		mul = 2
	}
	fullW, fullH := (wm+1)*16, (hm+1)*16*mul
	nd.Assume(nd.And(cx*(cl+cr) < fullW, cy*mul*(ct+cb) < fullH))

	sets := NewParameterSets()
	var err error
	if nd.Param("sprop", 0) == 1 {
		err = sets.ParseSprop(vzCat([]byte{0x67}, vzRefEncap(w.buf)))
	} else {
		err = sets.ParseSPS(w.buf)
	}
	nd.Assert(err == nil, "a well formed sequence parameter set is accepted")
	sps, ok := sets.GetSPS(uint32(id))
	nd.Assert(ok, "the set is found under its id")
	nd.Assert(uint64(sps.SpsID) == id, "id")
	nd.Assert(nd.And(sps.ProfileIdc == profile, nd.And(sps.ConstraintSet == constraint, sps.LevelIdc == level)), "profile, constraints and level")
	nd.Assert(nd.And(uint64(sps.ChromaFormatIdc) == chroma, sps.SeparateColorPlane == sep), "chroma format")
	nd.Assert(nd.And(uint64(sps.BitDepthLuma) == depthL, uint64(sps.BitDepthChroma) == depthC), "bit depths")
	nd.Assert(nd.And(sps.ZeroTransformBypass == bypass, sps.ScalingMatrixPresent == matrix), "transform flags")
	vzCheckLists(refs, mask, sps.ScalingListPresent, sps.ScalingList[:], sps.UseDefaultScalingMatrix[:])
	nd.Assert(uint64(sps.Log2MaxFrameNum) == frameNum, "frame number length")
	nd.Assert(nd.And(uint64(sps.PicOrderCntType) == uint64(poc), uint64(sps.Log2MaxPicOrderCnt) == log2poc), "picture order count type")
	nd.Assert(nd.And(nd.And(sps.DeltaPicOrderAlways0 == delta0, int64(sps.OffsetForNonRefPic) == nonref), nd.And(int64(sps.OffsetForTopToBottomField) == topbot, uint64(sps.NumRefFramesInPicOrderCntCycle) == cycle)), "picture order count cycle")
	nd.Assert(nd.And(uint64(sps.MaxNumRefFrames) == refsN, sps.GapsInFrameNumValueAllowed == gaps), "reference frames")
	nd.Assert(nd.And(uint64(sps.PicWidthInMbsMinus1) == wm, uint64(sps.PicHeightInMapUnitsMinus1) == hm), "coded size")
	nd.Assert(nd.And((sps.FrameMbsOnly != 0) == fmo, nd.And(sps.MbAdaptiveFrameField == adaptive, sps.Direct8x8Inference == d8)), "frame coding flags")
	nd.Assert(nd.And(nd.And(sps.FrameCropping == crop, uint64(sps.FrameCropLeftOffset) == cl), nd.And(uint64(sps.FrameCropRightOffset) == cr, nd.And(uint64(sps.FrameCropTopOffset) == ct, uint64(sps.FrameCropBottomOffset) == cb))), "cropping")
	nd.Assert(sps.VuiParametersPresent == vui, "VUI flag")
	nd.Assert(uint64(sps.Width) == fullW-cx*(cl+cr), "picture width")
	nd.Assert(uint64(sps.Height) == fullH-cy*mul*(ct+cb), "picture height")
	nd.ObserveU("w", uint64(sps.Width))
	nd.ObserveU("h", uint64(sps.Height))
	if crop && !fmo {
		nd.Cover("cropped fields")
	}
	if poc == 2 {
		nd.Cover("poc 2")
	}
}

// VerifPPS: a picture parameter set written according to the specification is decoded field by field.
func VerifPPS() {
	w := &vzBitWriter{}
	mode := nd.Param("mode", 0) // 0: general, 1: slice groups, 2: scaling lists
	g := &vzFieldGen{w: w, long: -1, max: nd.Param("k", 6), pattern: nd.Param("pattern", 1)}
	if mode != 2 {
		g.long = nd.Choose(10)
	}
	sets := NewParameterSets()
	chroma := uint32(1)
	planes := uint64(0)
	if mode == 2 && nd.Choose(2) == 1 {
		chroma = 3
		planes = uint64(nd.Choose(2))
	}
	var spsid uint64
	if mode == 2 {
		// the referenced sequence parameter set comes first
		// among others
		spsid = uint64(nd.Choose(2))
		order := int(chroma / 3)
		for j := uint64(0); j < 3; j++ {
			sid, chr := [...]uint64{spsid, 1 - spsid, 5}[(j+uint64(order))%3], uint64(chroma)
			if sid != spsid {
				chr = 4 - chr
			}
			sw := &vzBitWriter{}
			sg := &vzFieldGen{w: sw, long: -1}
			sw.u(100, 8)
			sw.u(0, 8)
			sw.u(31, 8)
			sg.ueConst(sid)
			sg.ueConst(chr)
			if chr == 3 {
				sw.u(planes, 1)
			}
			sw.u(3, 2)   // bit depths
			sw.u(0, 2)   // bypass, no matrix
			sw.u(1, 1)   // frame number
			sw.u(1, 1)   // poc type
			sw.u(1, 1)   // poc length
			sw.u(1, 1)   // references
			sw.u(0, 1)   // gaps
			sw.u(3, 2)   // size
			sw.u(0xc, 4) // frame only, direct, no crop, no vui
			sw.trailing()
			nd.Assert(sets.ParseSPS(sw.buf) == nil, "a well formed sequence parameter set is accepted")
		}
	}
	id := g.ue(7)
	nd.Assume(id <= 255)
	if mode == 2 {
		g.ueConst(spsid)
	} else {
		spsid = g.ue(4)
		nd.Assume(spsid <= 31)
	}
	entropy, bottom := g.flag(), g.flag()
	groups := 0
	mapType := 0
	var run, tl, br [8]uint64
	dir := false
	var rate, picSize uint64
	var ids []byte
	if mode != 1 {
		g.ueConst(0)
	} else {
		groups = nd.Choose(7) + 1
		g.ueConst(uint64(groups))
		mapType = nd.Choose(7)
		g.ueConst(uint64(mapType))
		switch mapType {
		case 0:
			for i := 0; i <= groups; i++ {
				run[i] = g.ue(31)
			}
		case 2:
			for i := 0; i < groups; i++ {
				tl[i], br[i] = g.ue(31), g.ue(31)
			}
		case 3, 4, 5:
			dir = g.flag()
			rate = g.ue(31)
		case 6:
			picSize = [...]uint64{0, 1, 2, 3, 4, 98, 299, 1619, 8159}[nd.Choose(nd.Param("maps", 7))]
			if picSize > 1000 {
				nd.Assume(groups == 1 || groups == 6)
				g.long = -1
			}
			g.ueConst(picSize)
			bits := 0
			for 1<<uint(bits) < groups+1 {
				bits++
			}
			for i := 0; i <= int(picSize); i++ {
				v := byte(i % (groups + 1))
				if i < 4 || i == int(picSize) {
					v = nd.Byte() & byte(1<<uint(bits)-1)
				}
				ids = append(ids, v)
				w.u(uint64(v), bits)
			}
		}
	}
	l0, l1 := g.ue(5), g.ue(5)
	wp := g.flag()
	bi := nd.Byte() & 3
	w.u(uint64(bi), 2)
	qp, qs, cq := g.se(7), g.se(7), g.se(5)
	deb, intra, red := g.flag(), g.flag(), g.flag()
	more := mode == 2 || nd.Choose(2) == 1
	t8, matrix := false, false
	var mask uint32
	var refs []vzListRef
	var cq2 int64
	if more {
		if mode == 2 {
			t8 = g.choice()
			matrix = true
		} else {
			t8 = g.flag()
		}
		w.flag(matrix)
		if matrix {
			n := 6
			if t8 && chroma == 3 {
				n = 12
			} else if t8 {
				n = 8
			}
			mask, refs = g.scalingLists(n)
		}
		cq2 = g.se(5)
		nd.Cover("extended")
	} else {
		nd.Cover("short")
	}
	w.trailing()
	for i := nd.Choose(2); i > 0; i-- {
		w.u(0, 8) // padding is not data
	}
	var err error
	if nd.Param("sprop", 0) == 1 {
		err = sets.ParseSprop(vzCat([]byte{0x68}, vzRefEncap(w.buf)))
	} else {
		err = sets.ParsePPS(w.buf)
	}
	nd.Assert(err == nil, "a well formed picture parameter set is accepted")
	pps, ok := sets.GetPPS(uint32(id))
	nd.Assert(ok, "the set is found under its id")
	nd.Assert(nd.And(uint64(pps.PpsID) == id, uint64(pps.SpsID) == spsid), "ids")
	nd.Assert(nd.And(pps.EntropyCodingMode == entropy, pps.BottomFieldPicOorderInFramePresent == bottom), "coding flags")
	nd.Assert(nd.And(pps.NumSliceGroupsMinus1 == uint32(groups), pps.SliceGroupMapType == uint32(mapType)), "slice groups")
	for i := 0; i < 8; i++ {
		nd.Assert(nd.And(uint64(pps.RunLengthMinus1[i]) == run[i], nd.And(uint64(pps.TopLeft[i]) == tl[i], uint64(pps.BottomRight[i]) == br[i])), "slice group geometry")
	}
	nd.Assert(nd.And(pps.SliceGroupChangeDirection == dir, uint64(pps.SliceGroupChangeRateMinus1) == rate), "slice group change")
	nd.Assert(nd.And(uint64(pps.PicSizeInMapUnitsMinus1) == picSize, nd.EqBytes(pps.SliceGroupID, ids)), "slice group map")
	nd.Assert(nd.And(uint64(pps.NumRefIdxL0DefaultActiveMinus1) == l0, uint64(pps.NumRefIdxL1DefaultActiveMinus1) == l1), "reference counts")
	nd.Assert(nd.And(pps.WeightedPred == wp, pps.WeightedBipredIdc == bi), "weighted prediction")
	nd.Assert(nd.And(int64(pps.PicInitQpMinus26) == qp, nd.And(int64(pps.PicInitQsMinus26) == qs, int64(pps.ChromaQpIndexOffset) == cq)), "quantiser parameters")
	nd.Assert(nd.And(pps.DeblockingFilterControlPresent == deb, nd.And(pps.ConstrainedIntraPred == intra, pps.RedundantPicCntPresent == red)), "control flags")
	nd.Assert(nd.And(pps.Transform8x8Mode == t8, pps.ScalingMatrixPresent == matrix), "transform flags")
	vzCheckLists(refs, mask, pps.ScalingListPresent, pps.ScalingList[:], pps.UseDefaultScalingMatrix[:])
	if more {
		nd.Assert(int64(pps.SecondChromaQpIndexOffset) == cq2, "second chroma offset")
	}
	nd.ObserveU("qp", uint64(int64(pps.PicInitQpMinus26)))
}

// samePPS compares what a user can see of two picture parameter sets.
func vzSamePPS(a, b *PPSInfo) bool {
	ok := nd.And(a.PpsID == b.PpsID, a.SpsID == b.SpsID)
	ok = nd.And(ok, nd.And(a.EntropyCodingMode == b.EntropyCodingMode, a.NumSliceGroupsMinus1 == b.NumSliceGroupsMinus1))
	ok = nd.And(ok, nd.And(a.PicInitQpMinus26 == b.PicInitQpMinus26, a.PicInitQsMinus26 == b.PicInitQsMinus26))
	ok = nd.And(ok, nd.And(a.ChromaQpIndexOffset == b.ChromaQpIndexOffset, a.SecondChromaQpIndexOffset == b.SecondChromaQpIndexOffset))
	ok = nd.And(ok, nd.And(a.NumRefIdxL0DefaultActiveMinus1 == b.NumRefIdxL0DefaultActiveMinus1, a.NumRefIdxL1DefaultActiveMinus1 == b.NumRefIdxL1DefaultActiveMinus1))
	ok = nd.And(ok, nd.And(a.WeightedPred == b.WeightedPred, a.WeightedBipredIdc == b.WeightedBipredIdc))
	ok = nd.And(ok, nd.And(a.Transform8x8Mode == b.Transform8x8Mode, a.ScalingListPresent == b.ScalingListPresent))
	ok = nd.And(ok, nd.And(a.ScalingList == b.ScalingList, nd.EqBytes(a.SliceGroupID, b.SliceGroupID)))
	return ok
}

// VerifParamsAny: arbitrary bytes never crash the parser nor make it allocate beyond its input, and a rejected set
// leaves the stored sets as they were.
func VerifParamsAny() {
	sets := NewParameterSets()
	sw := &vzBitWriter{buf: []byte{66, 0, 30}, n: 24}
	sw.u(0x1f, 5) // id, frame number, poc type and length, references
	sw.u(0x12, 7) // gaps, 2x2 macroblocks
	sw.u(0xc, 4)
	sw.trailing()
	nd.Assert(sets.ParseSPS(sw.buf) == nil, "a well formed sequence parameter set is accepted")
	nd.Assert(sets.ParsePPS([]byte{0xee, 0x3c, 0x80}) == nil, "a well formed picture parameter set is accepted")
	s0, ok1 := sets.GetSPS(0)
	p0, ok2 := sets.GetPPS(0)
	nd.Assert(ok1 && ok2, "sets are found under their ids")
	sc, pc := *s0, *p0
	n := nd.Choose(nd.Param("n", 6)) + 1
	b := nd.Bytes(n)
	keep := append([]byte{}, b...)
	var err error
	kind := nd.Param("kind", 0)
	switch kind {
	case 0:
		// any high or ordinary profile
		err = sets.ParseSPS(b)
	case 1:
		err = sets.ParsePPS(b)
	case 2:
		err = sets.ParseSprop(b)
	case 3:
		// the tail of a sequence parameter set with a deep prefix
		pre := [][]byte{{100, 0, 31, 0xac}, {100, 0, 31, 0xad}, {244, 0, 31, 0x91}, {66, 0, 30, 0xda}, {66, 0, 30, 0xd8}}[nd.Choose(5)]
		err = sets.ParseSPS(vzCat(pre, b))
	case 4:
		// the tail of a picture parameter set with many slice groups
		pre := [][]byte{{0xc1, 0x0e}, {0xc2, 0x07}, {0xc0, 0xff}, {0xee, 0x3c}, {0xce, 0x3c}}[nd.Choose(5)]
		err = sets.ParsePPS(vzCat(pre, b))
	}
	nd.Assert(nd.EqBytes(b, keep), "the input is not modified")
	s1, ok1 := sets.GetSPS(0)
	p1, ok2 := sets.GetPPS(0)
	nd.Assert(ok1 && ok2, "stored sets are never lost")
	if err != nil {
		nd.Assert(*s1 == sc, "a rejected set leaves the stored sequence parameter set alone")
		nd.Assert(vzSamePPS(p1, &pc), "a rejected set leaves the stored picture parameter set alone")
		nd.Cover("rejected")
		return
	}
	// an accepted set touches its own id only
	if kind != 1 && kind != 4 {
		if s1.SpsID == 0 && s1 == s0 {
			nd.Assert(*s1 == sc, "stored sets are not edited in place")
		}
		if kind != 2 {
			nd.Assert(vzSamePPS(p1, &pc), "a sequence parameter set does not touch picture parameter sets")
		}
	} else {
		nd.Assert(*s1 == sc, "a picture parameter set does not touch sequence parameter sets")
	}
	nd.Cover("accepted")
}
