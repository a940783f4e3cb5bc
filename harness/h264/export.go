package h264

// NewTestSPS returns a NAL unit with a baseline sequence parameter set.
func SampleVerifSPS(id uint64, level byte, widthMbs, heightMbs uint64) []byte {
	w := &vzBitWriter{}
	g := &vzFieldGen{w: w}
	w.u(66, 8)
	w.u(0xc0, 8)
	w.u(uint64(level), 8)
	for _, v := range []uint64{id, 0, 2, 1} {
		g.ueConst(v)
	}
	w.u(0, 1)
	g.ueConst(widthMbs - 1)
	g.ueConst(heightMbs - 1)
	w.u(0xc, 4) // frames only, direct inference, no cropping, no VUI
	w.trailing()
	return vzCat([]byte{0x67}, vzRefEncap(w.buf))
}

// NewTestPPS returns a NAL unit with a picture parameter set which has 7 and refs more reference pictures than one.
func SampleVerifPPS(id, sps uint64, refs byte) []byte {
	w := &vzBitWriter{}
	g := &vzFieldGen{w: w}
	g.ueConst(id)
	g.ueConst(sps)
	w.u(0, 2)
	g.ueConst(0)
	w.ue(uint64(refs&7)+7, 3) // 7..14 reference pictures
	g.ueConst(0)
	w.u(0, 3)
	for i := 0; i < 3; i++ {
		g.ueConst(0)
	}
	w.u(4, 3) // deblocking control only
	w.trailing()
	return vzCat([]byte{0x68}, vzRefEncap(w.buf))
}
