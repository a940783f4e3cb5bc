"""Behaviour-preserving rewrites; every check has to stay quiet on them. (id, checks, edits)"""
V = []
def rf(id, checks, *edits): V.append((id, checks.split(), edits))
def fn(src, name):
    """marks a whole function for replacement: ('fn', receiver-and-name)"""
    return ("fn", name)

B = "net/h264/bits.go"
# edits: (file, old text, new text) or (file, "func:<start of declaration>", new declaration)
rf("bits-bitwise", "C01 C02 C05 C06 C07", (B, "func:func (r *BitReader) ReadBits(", """func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
	if n > 32 || n > r.Available() {
		return 0, io.ErrUnexpectedEOF
	}
	for ; n > 0; n-- {
		val = val<<1 | r.bit()
	}
	return val, nil
}

func (r *BitReader) bit() uint32 {
	if r.bitn == 8 {
		r.byten++
		r.bitn = 0
	}
	b := r.buffer[r.byten] >> (7 - r.bitn) & 1
	r.bitn++
	return uint32(b)
}"""))
rf("bits-position", "C01 C02 C05 C06 C07",
 (B, "	count  uint\n	byten  uint\n	bitn   uint\n", "	pos    uint\n"),
 (B, "BitReader{buffer: buf, count: uint(len(buf)), byten: 0, bitn: 0}", "BitReader{buffer: buf}"),
 (B, "func:func (r *BitReader) Available(", "func (r *BitReader) Available() uint {\n	return uint(len(r.buffer))*8 - r.pos\n}"),
 (B, "last := r.count; last", "last := uint(len(r.buffer)); last"),
 (B, "return r.byten*8+r.bitn < stop", "return r.pos < stop"),
 (B, "func:func (r *BitReader) ReadBits(", """func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
	if n > 32 || n > r.Available() {
		err = io.ErrUnexpectedEOF
		return
	}
	var acc uint64
	for k := uint(0); k < n; {
		b := r.buffer[r.pos/8]
		free := 8 - r.pos%8
		take := n - k
		if take > free {
			take = free
		}
		acc = acc<<take | uint64(b>>(free-take))&(1<<take-1)
		k += take
		r.pos += take
	}
	return uint32(acc), nil
}"""),
 (B, "func:func (r *BitReader) SkipBits(", """func (r *BitReader) SkipBits(n uint) error {
	if n > 32 || n > r.Available() {
		return io.ErrUnexpectedEOF
	}
	r.pos += n
	return nil
}"""),
 (B, "for r.bitn != 0 && r.bitn != 8 {", "for r.pos%8 != 0 {"))
rf("bits-golomb-shared", "C02 C05 C06", (B, "func:func (r *BitReader) ReadUnsignedGolomb(", """func (r *BitReader) ReadUnsignedGolomb() (uint32, error) {
	zeroes, err := r.prefix()
	if err != nil {
		return 0, err
	}
	val, err := r.ReadBits(zeroes)
	if err != nil {
		return val, err
	}
	return uint32(uint64(val) + uint64(1)<<zeroes - 1), nil
}

// prefix reads the zeroes and the bit after them.
func (r *BitReader) prefix() (zeroes uint, err error) {
	for {
		bit, err := r.ReadFlag()
		switch {
		case err != nil:
			return 0, err
		case !bit:
			zeroes++
			continue
		case zeroes >= 32:
			return 0, errInvalidGolomb
		}
		return zeroes, nil
	}
}"""), (B, "func:func (r *BitReader) SkipGolomb(", """func (r *BitReader) SkipGolomb() error {
	zeroes, err := r.prefix()
	if err == nil {
		err = r.SkipBits(zeroes)
	}
	return err
}"""), (B, "func:func (r *BitReader) ReadSignedGolomb(", """func (r *BitReader) ReadSignedGolomb() (int32, error) {
	u, err := r.ReadUnsignedGolomb()
	if err != nil {
		return 0, err
	}
	v := int32(u>>1 + u&1)
	if u&1 == 0 {
		v = -v
	}
	return v, nil
}"""))
rf("bits-moredata-mathbits", "C01 C06", (B, 'import (\n	"errors"\n', 'import (\n	"bytes"\n	"errors"\n	"math/bits"\n'), (B, "func:func (r *BitReader) MoreData(", """func (r *BitReader) MoreData() bool {
	data := bytes.TrimRight(r.buffer, "\\x00")
	if len(data) == 0 {
		return false
	}
	stop := uint(len(data))*8 - 1 - uint(bits.TrailingZeros8(data[len(data)-1]))
	return r.byten*8+r.bitn < stop
}"""))
A = "net/h264/annexb.go"
rf("annexb-bytes", "C03 C04 C08 C09 C11 C40", (A, "package h264\n", 'package h264\n\nimport "bytes"\n\nvar (\n	startCode = []byte{0, 0, 1}\n	zeros     = []byte{0, 0}\n	escaped   = []byte{0, 0, 3}\n)\n'),
 (A, "const shortStartCodeLen = 3\n", ""),
 (A, "func:func SplitAnnexB(", """func SplitAnnexB(buf []byte) [][]byte {
	units := make([][]byte, 0)
	for {
		i := bytes.Index(buf, startCode)
		if i < 0 {
			break
		}
		if unit := bytes.TrimRight(buf[:i], "\\x00"); len(unit) > 0 {
			units = append(units, EBSPToRaw(unit))
		}
		buf = buf[i+3:]
	}
	if len(buf) > 0 {
		units = append(units, EBSPToRaw(buf))
	}
	return units
}"""),
 (A, "func:func EBSPToRaw(", """func EBSPToRaw(buf []byte) []byte {
	return bytes.ReplaceAll(buf, escaped, zeros)
}"""))
rf("annexb-states", "C03 C04 C08 C09 C11 C40",
 (A, "func:func EBSPToRaw(", """func EBSPToRaw(buf []byte) []byte {
	out := make([]byte, len(buf))
	n, run := 0, 0
	for _, b := range buf {
		if run >= 2 && b == 3 {
			run = 0
			continue
		}
		if b == 0 {
			run++
		} else {
			run = 0
		}
		out[n] = b
		n++
	}
	return out[:n]
}"""),
 (A, "func:func RBSPToEncapsulated(", """func RBSPToEncapsulated(buf []byte) []byte {
	ebsp := make([]byte, 0, len(buf)+len(buf)/2+1)
	for i := 0; i < len(buf); i++ {
		rest := buf[i:]
		switch {
		case len(rest) >= 2 && rest[0]|rest[1] == 0 && (len(rest) == 2 || rest[2]&^3 == 0):
			ebsp = append(ebsp, 0, 0, 3)
			i++
		default:
			ebsp = append(ebsp, rest[0])
		}
	}
	return ebsp
}"""))
P = "net/h264/packet.go"
rf("packet-reader", "C08 C09 C10 C11 C12 C13 C40 C49",
 (P, 'import (\n	"encoding/binary"\n	"errors"\n', 'import (\n	"bytes"\n	"encoding/binary"\n	"errors"\n	"io"\n'),
 (P, "func:func (s *NALSink) parseSTAP(", """func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
	rdr := bytes.NewReader(buf)
	if typ == typeStapB {
		if err := binary.Read(rdr, binary.BigEndian, &s.Don); err != nil {
			return errPacketTooShort
		}
	}
	for {
		var size uint16
		if err := binary.Read(rdr, binary.BigEndian, &size); err != nil {
			return nil
		}
		if size == 0 {
			return errInvalidPayloadHeader
		}
		data := make([]byte, size)
		if _, err := io.ReadFull(rdr, data); err != nil {
			return errPacketTooShort
		}
		s.Units = append(s.Units, NALUnit{Header: data[0], Don: s.Don, TS: ts, Data: data[1:]})
		s.Don++
	}
}"""),
 (P, "		data := []byte{}\n		for _, frag := range s.Fragments {\n			data = append(data, frag.Data...)\n		}\n", """		parts := make([][]byte, 0, len(s.Fragments))
		for i := range s.Fragments {
			parts = append(parts, s.Fragments[i].Data)
		}
		data := bytes.Join(parts, nil)
"""))
rf("packet-table", "C08 C09 C10 C11 C12 C13 C40",
 (P, "func:func (s *NALSink) parseNAL(", """func (s *NALSink) parseNAL(buf []byte, ts uint32) (err error) {
	if len(buf) == 0 {
		return errPacketTooShort
	}
	header, body := buf[0], buf[1:]
	handlers := map[byte]func() error{
		typeStapA:  func() error { return s.parseSTAP(typeStapA, body, ts) },
		typeStapB:  func() error { return s.parseSTAP(typeStapB, body, ts) },
		typeMtap16: func() error { return s.parseMTAP(typeMtap16, body, ts) },
		typeMtap24: func() error { return s.parseMTAP(typeMtap24, body, ts) },
		typeFuA:    func() error { return s.fragment(header, body, 1, ts) },
		typeFuB:    func() error { return s.fragment(header, body, 3, ts) },
	}
	if h, ok := handlers[header&0x1F]; ok {
		return h()
	}
	s.Units = append(s.Units, NALUnit{Header: header, Don: s.Don, TS: ts, Data: body})
	s.Don++
	return
}

func (s *NALSink) fragment(indicator byte, body []byte, size int, ts uint32) error {
	if len(body) < size {
		return errPacketTooShort
	}
	h := indicator&0xE0 | body[0]&0x1F
	if size == 3 {
		s.AddFragment(h, body[0], uint16(body[1])<<8|uint16(body[2]), ts, body[size:])
		return nil
	}
	s.AddFragment(h, body[0], s.Don, ts, body[size:])
	if len(s.Units) != 0 {
		s.Don++
	}
	return nil
}"""),
 (P, "func:func DonDiff(", """func DonDiff(don1 uint16, don2 uint16) int {
	d := int(int16(don2 - don1))
	if d == -32768 && don1 > don2 {
		d = -d
	}
	return d
}"""))
rf("packet-mtap-loop", "C08 C10 C12 C13", (P, "func:func (s *NALSink) parseMTAP(", """func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) (err error) {
	if len(buf) < 2 {
		return errPacketTooShort
	}
	s.Don, buf = be.Uint16(buf), buf[2:]
	width := 2
	if typ == typeMtap24 {
		width = 3
	}
	head := 3 + width
	for ; len(buf) >= head; {
		size := int(be.Uint16(buf[:2]))
		switch {
		case size == 0:
			return errInvalidPayloadHeader
		case size > len(buf)-head:
			return errPacketTooShort
		}
		var stamp [4]byte
		copy(stamp[4-width:], buf[3:head])
		unit := buf[head : head+size : head+size]
		s.Units = append(s.Units, NALUnit{
			Header: unit[0],
			Don:    s.Don + uint16(buf[2]),
			TS:     ts + binary.BigEndian.Uint32(stamp[:]),
			Data:   unit[1:],
		})
		buf = buf[head+size:]
	}
	return
}"""))
S = "net/h264/spspps.go"
rf("sps-sticky", "C05 C06 C07 C39", (S, "func:func (s *ParameterSets) ParseSPS(", """func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
	sps := &SPSInfo{}
	br := NewBitReader(buf)
	ue := func(p *uint32) {
		if err == nil {
			*p, err = br.ReadUnsignedGolomb()
		}
	}
	se := func(p *int32) {
		if err == nil {
			*p, err = br.ReadSignedGolomb()
		}
	}
	u8 := func(p *byte) {
		if err == nil {
			*p, err = br.ReadByteBits(8)
		}
	}
	flag := func(p *bool) bool {
		if err == nil {
			*p, err = br.ReadFlag()
		}
		return *p && err == nil
	}
	u8(&sps.ProfileIdc)
	if sps.ProfileIdc != 183 {
		sps.ChromaFormatIdc = 1
	}
	u8(&sps.ConstraintSet)
	u8(&sps.LevelIdc)
	ue(&sps.SpsID)
	if err != nil {
		return
	}
	switch sps.ProfileIdc {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138:
		ue(&sps.ChromaFormatIdc)
		if sps.ChromaFormatIdc == 3 {
			flag(&sps.SeparateColorPlane)
		}
		ue(&sps.BitDepthLuma)
		ue(&sps.BitDepthChroma)
		flag(&sps.ZeroTransformBypass)
		if flag(&sps.ScalingMatrixPresent) {
			nlists := 8
			if sps.ChromaFormatIdc == 3 {
				nlists += 4
			}
			off := 0
			for i := 0; i < nlists && err == nil; i++ {
				size := 16
				if i > 5 {
					size = 64
				}
				var present bool
				if flag(&present) {
					sps.ScalingListPresent |= 1 << uint(i)
					sps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(sps.ScalingList[off : off+size])
				}
				off += size
			}
		}
	}
	ue(&sps.Log2MaxFrameNum)
	ue(&sps.PicOrderCntType)
	if err != nil {
		return
	}
	switch sps.PicOrderCntType {
	case 0:
		ue(&sps.Log2MaxPicOrderCnt)
	case 1:
		flag(&sps.DeltaPicOrderAlways0)
		se(&sps.OffsetForNonRefPic)
		se(&sps.OffsetForTopToBottomField)
		ue(&sps.NumRefFramesInPicOrderCntCycle)
		for i := sps.NumRefFramesInPicOrderCntCycle; i > 0 && err == nil; i-- {
			var dummy int32
			se(&dummy)
		}
	}
	ue(&sps.MaxNumRefFrames)
	flag(&sps.GapsInFrameNumValueAllowed)
	ue(&sps.PicWidthInMbsMinus1)
	ue(&sps.PicHeightInMapUnitsMinus1)
	if err == nil {
		sps.FrameMbsOnly, err = br.ReadBits(1)
	}
	if err != nil {
		return
	}
	if p := sps.ProfileIdc; sps.ConstraintSet&2 != 0 && (p == 77 || p == 88 || p == 100) {
		sps.FrameMbsOnly = 1
	}
	if sps.FrameMbsOnly == 0 {
		flag(&sps.MbAdaptiveFrameField)
	}
	flag(&sps.Direct8x8Inference)
	if flag(&sps.FrameCropping) {
		for _, p := range []*uint32{&sps.FrameCropLeftOffset, &sps.FrameCropRightOffset, &sps.FrameCropTopOffset, &sps.FrameCropBottomOffset} {
			ue(p)
		}
	}
	flag(&sps.VuiParametersPresent)
	if err != nil {
		return
	}
	sps.size()
	s.spset[sps.SpsID] = sps
	return nil
}

func (sps *SPSInfo) size() {
	units := map[uint32][2]uint32{1: {2, 2}, 2: {2, 1}}
	u, ok := units[sps.ChromaFormatIdc]
	if !ok || sps.SeparateColorPlane {
		u = [2]uint32{1, 1}
	}
	fields := 2 - sps.FrameMbsOnly
	sps.Width = 16*(sps.PicWidthInMbsMinus1+1) - u[0]*(sps.FrameCropLeftOffset+sps.FrameCropRightOffset)
	sps.Height = fields * (16*(sps.PicHeightInMapUnitsMinus1+1) - u[1]*(sps.FrameCropTopOffset+sps.FrameCropBottomOffset))
}"""))
rf("pps-mathbits", "C06 C07 C39", (S, '	"math"\n', '	"math/bits"\n'),
 (S, "bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))", "width := uint(bits.Len32(pps.NumSliceGroupsMinus1))"),
 (S, "br.ReadByteBits(bits)", "br.ReadByteBits(width)"),
 (S, "			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)\n", "			pps.SliceGroupID = append(pps.SliceGroupID, make([]byte, int(pps.PicSizeInMapUnitsMinus1)+1)...)\n"),
 (S, "			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {\n", "			for i := range pps.SliceGroupID {\n"),
 (S, "func:func (s *ParameterSets) ParseSprop(", """func (s *ParameterSets) ParseSprop(buf []byte) error {
	if len(buf) > 0 {
		parse := map[byte]func([]byte) error{typeSPS: s.ParseSPS, typePPS: s.ParsePPS}[buf[0]&0x1F]
		if parse != nil {
			return parse(EBSPToRaw(buf[1:]))
		}
	}
	return nil
}"""))
rf("pps-panic-recover", "C06 C07", (S, "func:func (s *ParameterSets) ParsePPS(", """func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
	type failure struct{ error }
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(failure)
			if !ok {
				panic(r)
			}
			err = f.error
		}
	}()
	check := func(err error) {
		if err != nil {
			panic(failure{err})
		}
	}
	pps, br := new(PPSInfo), NewBitReader(buf)
	ue := func() uint32 { v, err := br.ReadUnsignedGolomb(); check(err); return v }
	se := func() int32 { v, err := br.ReadSignedGolomb(); check(err); return v }
	flag := func() bool { v, err := br.ReadFlag(); check(err); return v }
	pps.PpsID, pps.SpsID = ue(), ue()
	chroma := uint32(3)
	if sps, ok := s.GetSPS(pps.SpsID); ok {
		chroma = sps.ChromaFormatIdc
	}
	pps.EntropyCodingMode = flag()
	pps.BottomFieldPicOorderInFramePresent = flag()
	pps.NumSliceGroupsMinus1 = ue()
	if pps.NumSliceGroupsMinus1 >= 8 {
		return errInvalidSliceGroups
	}
	if n := int(pps.NumSliceGroupsMinus1); n > 0 {
		pps.SliceGroupMapType = ue()
		switch pps.SliceGroupMapType {
		case 0:
			for i := 0; i < n+1; i++ {
				pps.RunLengthMinus1[i] = ue()
			}
		case 2:
			for i := range pps.TopLeft[:n] {
				pps.TopLeft[i] = ue()
				pps.BottomRight[i] = ue()
			}
		case 3, 4, 5:
			pps.SliceGroupChangeDirection = flag()
			pps.SliceGroupChangeRateMinus1 = ue()
		case 6:
			pps.PicSizeInMapUnitsMinus1 = ue()
			if uint(pps.PicSizeInMapUnitsMinus1) >= br.Available() {
				return io.ErrUnexpectedEOF
			}
			pps.SliceGroupID = make([]byte, 0, pps.PicSizeInMapUnitsMinus1+1)
			width := uint(math.Ceil(math.Log2(float64(n + 1))))
			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
				b, err := br.ReadByteBits(width)
				check(err)
				pps.SliceGroupID = append(pps.SliceGroupID, b)
			}
		}
	}
	pps.NumRefIdxL0DefaultActiveMinus1 = ue()
	pps.NumRefIdxL1DefaultActiveMinus1 = ue()
	pps.WeightedPred = flag()
	pps.WeightedBipredIdc, err = br.ReadByteBits(2)
	check(err)
	pps.PicInitQpMinus26 = se()
	pps.PicInitQsMinus26 = se()
	pps.ChromaQpIndexOffset = se()
	pps.DeblockingFilterControlPresent = flag()
	pps.ConstrainedIntraPred = flag()
	pps.RedundantPicCntPresent = flag()
	if br.MoreData() {
		pps.Transform8x8Mode = flag()
		pps.ScalingMatrixPresent = flag()
		if pps.ScalingMatrixPresent {
			n := 6
			if pps.Transform8x8Mode && chroma == 3 {
				n = 12
			} else if pps.Transform8x8Mode {
				n = 8
			}
			list := pps.ScalingList[:]
			for i := 0; i < n; i++ {
				size := 16
				if i >= 6 {
					size *= 4
				}
				if flag() {
					pps.ScalingListPresent |= 1 << uint(i)
					pps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(list[:size])
					check(err)
				}
				list = list[size:]
			}
		}
		pps.SecondChromaQpIndexOffset = se()
	}
	s.ppset[pps.PpsID] = pps
	return nil
}"""))
RT = "net/rtp/packet.go"
rf("rtp-append", "C14 C15 C40 C49", (RT, "func:func (p *Packet) Pack(", """func (p *Packet) Pack() []byte {
	if p == nil {
		return nil
	}
	b := make([]byte, 0, 64)
	b = append(b, p.VPXCC, p.MPT)
	b = binary.BigEndian.AppendUint16(b, p.SN)
	b = binary.BigEndian.AppendUint32(b, p.TS)
	b = binary.BigEndian.AppendUint32(b, p.SSRC)
	csrc := make([]uint32, p.CC())
	copy(csrc, p.CSRC)
	for _, c := range csrc {
		b = binary.BigEndian.AppendUint32(b, c)
	}
	if p.X() {
		b = binary.BigEndian.AppendUint16(b, p.XH)
		b = binary.BigEndian.AppendUint16(b, p.XL)
		xd := make([]byte, int(p.XL)*4)
		copy(xd, p.XD)
		b = append(b, xd...)
	}
	b = append(b, p.PL...)
	if p.P() {
		pad := byte(4 - len(b)&3)
		for i := byte(1); i < pad; i++ {
			b = append(b, 0)
		}
		b = append(b, pad)
	}
	return b
}"""))
rf("rtp-reader", "C14 C15 C40 C49", (RT, 'import (\n	"encoding/binary"\n', 'import (\n	"bytes"\n	"encoding/binary"\n'),
 (RT, "func:func Unpack(", """func Unpack(buf []byte) (*Packet, error) {
	if len(buf) < HeaderSize {
		return nil, errPacketTooShort
	}
	if v := buf[0] >> 6; v != 2 {
		return nil, errInvalidVersion
	}
	p := new(Packet)
	rdr := bytes.NewReader(buf)
	p.VPXCC, _ = rdr.ReadByte()
	p.MPT, _ = rdr.ReadByte()
	for _, f := range []interface{}{&p.SN, &p.TS, &p.SSRC} {
		if err := binary.Read(rdr, be, f); err != nil {
			return nil, errPacketTooShort
		}
	}
	p.CSRC = make([]uint32, p.CC())
	if err := binary.Read(rdr, be, p.CSRC); err != nil {
		return nil, errPacketTooShort
	}
	if p.X() {
		if binary.Read(rdr, be, &p.XH) != nil || binary.Read(rdr, be, &p.XL) != nil {
			return nil, errPacketTooShort
		}
		n := int(p.XL) * 4
		if rdr.Len() < n {
			return nil, errPacketTooShort
		}
		if off := len(buf) - rdr.Len(); n > 0 {
			p.XD = buf[off : off+n]
			rdr.Seek(int64(n), 1)
		}
	}
	p.PL = buf[len(buf)-rdr.Len():]
	if p.P() {
		pad := int(buf[len(buf)-1])
		if pad < 1 || len(p.PL) < pad {
			return nil, errInvalidPadding
		}
		p.PL = p.PL[:len(p.PL)-pad]
	}
	return p, nil
}"""))
RC = "net/rtcp/packet.go"
rf("rtcp-struct-read", "C16 C17 C49", (RC, 'import (\n	"encoding/binary"\n', 'import (\n	"bytes"\n	"encoding/binary"\n'),
 (RC, "		data := &DataSR{}\n", "		var head struct {\n			SSRC  uint32\n			NTPTS uint64\n			RTPTS uint32\n			PC    uint32\n			OC    uint32\n		}\n		if err := binary.Read(bytes.NewReader(buf[off:]), be, &head); err != nil {\n			return nil, err\n		}\n		data := &DataSR{SSRC: head.SSRC, NTPTS: head.NTPTS, RTPTS: head.RTPTS, PC: head.PC, OC: head.OC}\n"),
 (RC, """		data.SSRC = be.Uint32(buf[off:])
		data.NTPTS = be.Uint64(buf[off+4:])
		data.RTPTS = be.Uint32(buf[off+12:])
		data.PC = be.Uint32(buf[off+16:])
		data.OC = be.Uint32(buf[off+20:])
""", ""))
rf("rtcp-helper", "C16 C17 C49", (RC, """		for i := 0; i < int(packet.C()); i++ {
			data.Reports = append(data.Reports, SynSource{
				SSRC: be.Uint32(buf[off:]),
				FL:   buf[off+4],
				PL:   be.Uint32(buf[off+4:]) & 0xFFFFFF,
				SN:   be.Uint32(buf[off+8:]),
				JIT:  be.Uint32(buf[off+12:]),
				LSR:  be.Uint32(buf[off+16:]),
				DLSR: be.Uint32(buf[off+20:]),
			})
			off += 24
		}
""", """		blocks := buf[off:]
		for n := packet.C(); n > 0; n-- {
			var w [6]uint32
			for i := range w {
				w[i] = be.Uint32(blocks[i*4 : i*4+4])
			}
			r := SynSource{w[0], byte(w[1] >> 24), w[1] << 8 >> 8, w[2], w[3], w[4], w[5]}
			data.Reports = append(data.Reports, r)
			blocks = blocks[24:]
		}
"""))
D = "net/sdp/packet.go"
rf("sdp-scanner", "C18 C19 C20 C21 C39", (D, 'import (\n', 'import (\n	"bufio"\n	"bytes"\n'),
 (D, "	content := string(buf)\n\n	for _, line := range strings.Split(content, \"\\n\") {\n		line = strings.TrimSpace(line)\n", "	scanner := bufio.NewScanner(bytes.NewReader(buf))\n	scanner.Buffer(nil, len(buf)+2)\n	for scanner.Scan() {\n		line := strings.TrimSpace(scanner.Text())\n"))
rf("sdp-cut", "C18 C19 C20 C21 C39", (D, "func:func Parse(", """func Parse(buf []byte) (feeds []Media) {
	var m *Media
	for rest := string(buf); rest != ""; {
		var line string
		line, rest, _ = strings.Cut(rest, "\\n")
		key, value, ok := strings.Cut(strings.TrimSpace(line), "=")
		if !ok {
			continue
		}
		switch key {
		case "m":
			m = nil
			kind, _, _ := strings.Cut(value, " ")
			if kind != "video" {
				break
			}
			feeds = append(feeds, Media{})
			m = &feeds[len(feeds)-1]
			if f := strings.Split(value, " "); len(f) > 3 {
				m.PayloadType = number(f[3])
			}
		case "a":
			if m != nil {
				m.attribute(value)
			}
		}
	}
	return
}

func number(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func (m *Media) attribute(value string) {
	first, second, more := strings.Cut(value, " ")
	name, val, ok := strings.Cut(first, ":")
	if ok {
		switch name {
		case "control":
			m.Control = val
		case "rtpmap":
			m.Rtpmap = number(val)
		}
	}
	if !more {
		return
	}
	switch name {
	case "rtpmap":
		codec := strings.Split(second, "/")
		if len(codec) < 2 {
			return
		}
		if strings.EqualFold(codec[0], "H264") {
			m.Type = H264
		} else if strings.EqualFold(codec[0], "mpeg4-generic") {
			m.Type = AAC
		}
		if i, err := strconv.Atoi(codec[1]); err == nil {
			m.TimeScale = i
		}
	case "fmtp":
		for _, param := range strings.Split(second, ";") {
			key, val, ok := strings.Cut(param, "=")
			if !ok {
				continue
			}
			switch strings.TrimSpace(key) {
			case "config":
				m.Config, _ = hex.DecodeString(val)
			case "sizelength":
				m.SizeLength = number(val)
			case "indexlength":
				m.IndexLength = number(val)
			case "sprop-parameter-sets":
				for _, set := range strings.Split(val, ",") {
					b, _ := base64.StdEncoding.DecodeString(set)
					m.SpropParameterSets = append(m.SpropParameterSets, b)
				}
			}
		}
	}
}"""))
L = "net/hls/playlist.go"
rf("hls-fprintf", "C21 C22 C23", (L, '	"errors"\n', '	"errors"\n	"fmt"\n'),
 (L, "func:func (pl Playlist) String(", """func (pl Playlist) String() string {
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "#EXTM3U\\n#EXT-X-VERSION:%d\\n", pl.Version)
	if pl.First >= 0 {
		n := len(pl.Segments)
		count := (pl.Last-pl.First+n)%n + 1
		for k := 0; k < count; k++ {
			seg := &pl.Segments[(pl.First+k)%n]
			fmt.Fprintf(&buf, "#EXTINF:%s\\n", strconv.FormatFloat(seg.Duration, 'f', -1, 64))
			fmt.Fprintf(&buf, "#EXT-X-BYTERANGE:%d@%d\\n", seg.Length, seg.Position)
			fmt.Fprintln(&buf, pl.URI)
		}
	}
	fmt.Fprint(&buf, "#EXT-X-ENDLIST\\n")
	return buf.String()
}"""),
 (L, "func:func (pl *Playlist) AddSegment(", """func (pl *Playlist) AddSegment(duration float64, length int64) {
	seg := Segment{Duration: duration, Length: length}
	if pl.Last >= 0 {
		prev := pl.Segments[pl.Last]
		seg.Position = prev.Position + prev.Length
	}
	if pl.Last++; pl.Last == len(pl.Segments) {
		pl.Last = 0
	}
	pl.Segments[pl.Last] = seg
	switch {
	case pl.First < 0:
		pl.First = pl.Last
	case pl.First == pl.Last:
		pl.First++
		pl.First %= len(pl.Segments)
	}
}"""))
T = "net/rtsp/transport.go"
rf("transport-lines", "C24 C25 C26 C39", (T, '	"errors"\n', '	"errors"\n	"fmt"\n'),
 (T, "func:func (t Transport) String(", """func (t Transport) String() string {
	parts := []string{"RTP/AVP"}
	add := func(ok bool, format string, args ...interface{}) {
		if ok {
			parts = append(parts, fmt.Sprintf(format, args...))
		}
	}
	if t.IsTCP {
		parts[0] += "/TCP"
	}
	add(!t.IsTCP && t.IsMulticast, "multicast")
	add(!t.IsTCP && !t.IsMulticast, "unicast")
	add(t.Destination != "", "destination=%s", t.Destination)
	add(t.Source != "", "source=%s", t.Source)
	add(t.IsInterleaved, "interleaved=%v", t.Interleave)
	add(t.IsAppend, "append")
	add(t.Port.One > 0, "port=%s", t.Port)
	add(t.ClientPort.One > 0, "client_port=%s", t.ClientPort)
	add(t.ServerPort.One > 0, "server_port=%s", t.ServerPort)
	add(t.IsMulticast && t.TTL > 0, "ttl=%d", t.TTL)
	add(t.Layers > 0, "layers=%d", t.Layers)
	add(t.SSRC != "", "ssrc=%s", t.SSRC)
	add(t.Mode != "" && t.Mode != "PLAY", "mode=%s", t.Mode)
	return strings.Join(parts, ";")
}"""),
 (T, "func:func (p Pair) String(", 'func (p Pair) String() string {\n	return fmt.Sprintf("%d-%d", p.One, p.Two)\n}'))
rf("transport-table", "C24 C25 C26 C39", (T, "func:func (t *Transport) Parse(", """func (t *Transport) Parse(value string) error {
	str := func(p *string) func(string) error {
		return func(v string) error { *p = v; return nil }
	}
	num := func(p *int) func(string) error {
		return func(v string) (err error) { *p, err = strconv.Atoi(v); return }
	}
	pair := func(p *Pair) func(string) error {
		return func(v string) (err error) { *p, err = ParsePair(v); return }
	}
	setters := map[string]func(string) error{
		"destination": str(&t.Destination), "source": str(&t.Source), "ssrc": str(&t.SSRC), "mode": str(&t.Mode),
		"layers": num(&t.Layers), "ttl": num(&t.TTL),
		"port": pair(&t.Port), "client_port": pair(&t.ClientPort), "server_port": pair(&t.ServerPort),
		"interleaved": func(v string) error {
			t.IsInterleaved = true
			return pair(&t.Interleave)(v)
		},
	}
	for i, field := range strings.Split(value, ";") {
		field = strings.TrimSpace(field)
		if i == 0 {
			if p := strings.Split(field, "/"); len(p) == 3 {
				t.IsTCP = strings.EqualFold(p[2], "tcp")
			}
		}
		key, val := field, ""
		eq := strings.IndexByte(field, '=')
		if eq >= 0 {
			key, val = field[:eq], field[eq+1:]
		}
		switch key = strings.ToLower(key); key {
		case "unicast", "multicast":
			t.IsMulticast = key[0] == 'm'
			continue
		case "append":
			t.IsAppend = true
			continue
		case "interleaved":
			t.IsMulticast = false
		}
		set, ok := setters[key]
		if !ok {
			continue
		}
		if eq < 0 {
			return ErrMalformedTransport
		}
		if err := set(val); err != nil {
			return err
		}
	}
	return nil
}"""))
G = "net/rtsp/digest.go"
rf("digest-sprintf", "C31 C32 C33 C34 C35 C36 C45", (G, "func:func md5hex(", 'func md5hex(data []byte) string {\n	return fmt.Sprintf("%x", md5.Sum(data))\n}'),
 (G, "func:func colonnade(", 'func colonnade(params ...string) []byte {\n	return []byte(strings.Join(params, ":"))\n}'),
 (G, "func:func (d *Digest) response(", """func (d *Digest) response(verb string, body []byte) string {
	parts := []string{verb, d.uri}
	if d.qop == "auth-int" {
		parts = append(parts, md5hex(body))
	}
	d.ha2 = md5hex(colonnade(parts...))
	if d.qop == "" {
		return fmt.Sprintf(", response=\\"%s\\"", md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
	}
	if d.algorithm == "md5-sess" && !d.keyed {
		d.keyed, d.ha1 = true, md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
	}
	sum := md5hex(colonnade(d.ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2))
	return fmt.Sprintf(`, qop="%s", nc=%s, cnonce="%s", response="%s"`, d.qop, d.nc, d.cnonce, sum)
}"""),
 (G, "	hf := md5.New()\n", "") if False else (G, "	d.cnonce = hex.EncodeToString(b)[:8]\n", "	d.cnonce = fmt.Sprintf(\"%x\", b[:4])\n"),
 (G, '	"encoding/hex"\n', ''))
rf("digest-fields", "C31 C32 C33 C34 C35 C36 C45", (G, """			switch attr {
			case "realm":
				d.realm = val
			case "domain":
				d.domain = val
			case "nonce":
				d.nonce = val
			case "opaque":
				d.opaque = val
			case "stale":
				d.stale = val
			case "algorithm":
				d.algorithm = strings.ToLower(val)
			case "qop":
				vals := strings.Split(val, ",")
				if len(vals) > 0 {
					d.qop = strings.ToLower(vals[0])
				}
			}
""", """			fields := map[string]*string{"realm": &d.realm, "domain": &d.domain, "nonce": &d.nonce, "opaque": &d.opaque, "stale": &d.stale, "algorithm": &d.algorithm, "qop": &d.qop}
			if p, ok := fields[attr]; ok {
				switch attr {
				case "qop":
					val, _, _ = strings.Cut(val, ",")
					fallthrough
				case "algorithm":
					val = strings.ToLower(val)
				}
				*p = val
			}
"""), (G, "func:func splitQuoted(", """func splitQuoted(list string) []string {
	var parts []string
	var cur strings.Builder
	quoted, escaped := false, false
	for _, c := range []byte(list) {
		if escaped {
			escaped = false
			cur.WriteByte(c)
			continue
		}
		switch c {
		case '\\\\':
			escaped = quoted
		case '"':
			quoted = !quoted
		case ',':
			if !quoted {
				parts = append(parts, cur.String())
				cur.Reset()
				continue
			}
		}
		cur.WriteByte(c)
	}
	return append(parts, cur.String())
}"""))
M = "net/rtsp/message.go"
rf("message-sprintf", "C27 C28 C29 C30 C34 C41 C42 C47", (M, 'import (\n	"bytes"\n', 'import (\n	"bytes"\n	"fmt"\n'),
 (M, "func:func (r *Request) Pack(", """func (r *Request) Pack() []byte {
	buf := &bytes.Buffer{}
	fmt.Fprintf(buf, "%s %s RTSP/1.0\\r\\n", r.Verb, r.URI)
	line := func(key string, val interface{}) { fmt.Fprintf(buf, "%s: %v\\r\\n", key, val) }
	line(HeaderCSeq, r.Cseq)
	for key := range r.Header {
		line(key, r.Header[key])
	}
	switch r.Verb {
	case VerbOptions, VerbSetup:
	default:
		if r.Session != "" {
			line(HeaderSession, r.Session)
		}
	}
	if r.Auth != "" {
		line(HeaderAuthorization, r.Auth)
	}
	line(HeaderUserAgent, Agent)
	line(HeaderContentLength, 0)
	buf.WriteString("\\r\\n")
	return buf.Bytes()
}"""),
 (M, "func:func (h MessageHeader) Get(", "func (h MessageHeader) Get(key string) string {\n	return h[textproto.CanonicalMIMEHeaderKey(key)]\n}"))
rf("message-sorted-headers", "C27 C28 C34 C42", (M, '	"net/textproto"\n', '	"net/textproto"\n	"sort"\n'),
 (M, """	for key, val := range r.Header {
		buf.WriteString(key)
		buf.Write(colsp)
		buf.WriteString(val)
		buf.Write(crnl)
	}
	if r.Session""", """	keys := make([]string, 0, len(r.Header))
	for key := range r.Header {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		buf.WriteString(key + ": " + r.Header[key] + "\\r\\n")
	}
	if r.Session"""))
rf("message-unpack-split", "C28 C29 C30 C37 C47", (M, "func:func Unpack(", """func Unpack(rdr *Conn) (*Response, error) {
	size := 0
	next := func() (string, error) {
		line, err := rdr.PeekLine(size)
		size += len(line)
		return line, err
	}
	line, err := next()
	if err != nil {
		return nil, err
	}
	proto, status, ok := strings.Cut(line, " ")
	if !ok {
		return nil, errMalformedResponse
	}
	if proto != "RTSP/1.0" {
		return nil, errNotSupported
	}
	r := &Response{Proto: proto, Status: strings.TrimSpace(status), Header: MessageHeader{}}
	if r.StatusCode, err = statusOf(r.Status); err != nil {
		return nil, err
	}
	for {
		if line, err = next(); err != nil {
			return nil, err
		}
		line = strings.TrimSpace(line)
		if len(line) == 0 {
			break
		}
		key, val, ok := strings.Cut(line, ":")
		if !ok {
			return nil, errMalformedResponse
		}
		r.Header.Set(strings.TrimSpace(key), strings.TrimSpace(val))
	}
	if n, err := strconv.Atoi(r.Header.Get(HeaderCSeq)); err == nil {
		r.Cseq = n
	} else {
		r.Cseq, _ = strconv.Atoi(r.Header.Get(HeaderCSeq))
	}
	if n, err := strconv.ParseInt(r.Header.Get(HeaderContentLength), 10, 64); err == nil {
		r.ContentLength = n
	}
	if n := int(r.ContentLength); n > 0 {
		b, err := rdr.Peek(size + n)
		if err != nil {
			return nil, err
		}
		r.Body = make([]byte, n)
		copy(r.Body, b[size:])
		size += n
	}
	_, err = rdr.Discard(size)
	return r, err
}

func statusOf(status string) (int, error) {
	code, _, _ := strings.Cut(status, " ")
	if len(code) != 3 {
		return 0, errInvalidStatus
	}
	n := 0
	for _, c := range code {
		if c < '0' || c > '9' {
			return 0, errInvalidStatus
		}
		n = n*10 + int(c-'0')
	}
	return n, nil
}"""))
X = "net/rtsp/session.go"
rf("session-atomics", "C30 C34 C36 C37 C43 C47 C48", (X, '	"sync"\n', '	"sync"\n	"sync/atomic"\n'),
 (X, "		cseq    int\n", "		cseq    int32\n"),
 (X, "func:func (s *Session) enqueue(", """func (s *Session) enqueue(req *Request) {
	req.Cseq = int(atomic.AddInt32(&s.cseq, 1))
	s.Lock()
	req.Session = s.session
	if s.auth != nil {
		req.Auth = s.auth(req.Verb, nil)
	}
	s.queue[req.Cseq] = req
	s.Unlock()
}"""),
 (X, "func:func (s *Session) notify(", "func (s *Session) notify(stage int) {\n	s.stage = stage\n	s.State <- stage\n}"))
rf("session-table", "C30 C34 C36 C37 C43 C46 C47 C48", (X, """	switch req.Verb {
	case VerbOptions:
		if s.stage == StageInit {
			for _, v := range strings.Split(rsp.Header.Get(HeaderPublic), ", ") {
				s.verbs[v] = struct{}{}
			}
			return s.Describe()
		}
	case VerbDescribe:
		if rsp.Body != nil {
			if s.feeds, err = ParseFeeds(s.Proto, rsp.Body); err != nil {
				return err
			}
			return s.Setup()
		}
	case VerbPause:
		if rsp.StatusCode == RtspOK {
			s.notify(StagePause)
		}
	case VerbPlay:
		if rsp.StatusCode == RtspOK {
			s.notify(StagePlay)
		}
	case VerbTeardown:
		if rsp.StatusCode == RtspOK {
			s.notify(StageDone)
		}
	case VerbSetup:
		return s.handleSetup(rsp)
	}

	return
}
""", """	handlers := map[string]func(*Response) error{
		VerbOptions:  s.onOptions,
		VerbDescribe: s.onDescribe,
		VerbSetup:    s.handleSetup,
	}
	stages := map[string]int{VerbPlay: StagePlay, VerbPause: StagePause, VerbTeardown: StageDone}
	if h := handlers[req.Verb]; h != nil {
		return h(rsp)
	}
	if stage, ok := stages[req.Verb]; ok && rsp.StatusCode == RtspOK {
		s.notify(stage)
	}
	return nil
}

func (s *Session) onOptions(rsp *Response) error {
	if s.stage != StageInit {
		return nil
	}
	for _, v := range strings.Split(rsp.Header.Get(HeaderPublic), ", ") {
		s.verbs[v] = struct{}{}
	}
	return s.Describe()
}

func (s *Session) onDescribe(rsp *Response) error {
	if rsp.Body == nil {
		return nil
	}
	feeds, err := ParseFeeds(s.Proto, rsp.Body)
	if s.feeds = feeds; err != nil {
		return err
	}
	return s.Setup()
}
"""), (X, """	if s.Proto != ProtoHTTP && s.Proto != ProtoTCP && s.stage > StageInit && s.stage < StageDone {
		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
			s.last = time.Now()
			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: s.session})
		}
	}
	return nil
""", """	tcp := s.Proto == ProtoHTTP || s.Proto == ProtoTCP
	if tcp || s.stage <= StageInit || s.stage >= StageDone {
		return nil
	}
	if now := time.Now(); s.last.IsZero() || !now.Before(s.last.Add(keepAliveTimeout)) {
		s.last = now
		return s.command(VerbOptions, s.BaseURI, map[string]string{HeaderSession: s.session})
	}
	return nil
"""))
C = "net/rtsp/connection.go"
rf("conn-iofull", "C28 C30 C34 C37 C44 C45 C46", (C, '	"fmt"\n', '	"errors"\n	"fmt"\n	"io"\n'),
 (C, "func:func (c *Conn) ReadUint16(", """func (c *Conn) ReadUint16() (uint16, error) {
	if c.Timeout > 0 {
		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
	}
	var b [2]byte
	if _, err := io.ReadFull(c.rdr, b[:]); err != nil {
		return 0, err
	}
	return be.Uint16(b[:]), nil
}"""),
 (C, "func:func isTimeoutOrTemp(", """func isTimeoutOrTemp(err error) bool {
	var nerr net.Error
	return errors.As(err, &nerr) && (nerr.Timeout() || nerr.Temporary())
}"""),
 (C, "func:func (c *Conn) Stop(", """func (c *Conn) Stop() {
	sinks := c.sinks
	c.sinks = nil
	for i := range sinks {
		func(s udpsink) {
			defer s.Close()
			close(s.done)
		}(sinks[i])
	}
}"""))
rf("conn-deadline-helper", "C28 C30 C34 C37 C44 C45 C46 C48", (C, "func:func (c *Conn) Peek(", """func (c *Conn) Peek(n int) ([]byte, error) {
	c.touch()
	return c.rdr.Peek(n)
}

func (c *Conn) touch() {
	if c.Timeout <= 0 {
		return
	}
	_ = c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
}"""), (C, "func:func (c *Conn) ReadByte(", """func (c *Conn) ReadByte() (byte, error) {
	c.touch()
	return c.rdr.ReadByte()
}"""), (C, "	for _, s := range c.sinks {\n		fmt.Printf(\"Reading from UDP sink %d\", s.ch)\n		go func(sink udpsink) {\n			defer sink.Close()\n			var buf [65535]byte\n			for {\n				n, _, err := sink.ReadFromUDP(buf[:])\n				if err == nil {\n					select {\n					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:\n					case <-sink.done:\n						return\n					}\n				} else if !isTimeoutOrTemp(err) {\n					return\n				}\n			}\n			// TODO: Notify caller about closed connection.\n		}(s)\n	}\n}\n",
 """	for i := range c.sinks {
		fmt.Printf("Reading from UDP sink %d", c.sinks[i].ch)
		go c.sinks[i].pump(c.Data)
	}
}

func (sink udpsink) pump(data chan<- RawPacket) {
	defer sink.Close()
	buf := make([]byte, 65535)
	for {
		n, _, err := sink.ReadFrom(buf)
		switch {
		case err == nil:
			p := make([]byte, n)
			copy(p, buf)
			select {
			case <-sink.done:
				return
			case data <- RawPacket{sink.ch, p}:
			}
		case !isTimeoutOrTemp(err):
			return
		}
	}
}
"""))
rf("conn-dial-generic", "C28 C30 C38 C44 C45 C48", (C, """	addr, err := net.ResolveTCPAddr("tcp", url1.Host)
	if err != nil {
		return nil, err
	}
	conn, err := net.DialTCP("tcp", nil, addr)
	if err != nil {
		return nil, err
	}
""", """	dialed, err := net.Dial("tcp", url1.Host)
	if err != nil {
		return nil, err
	}
	conn := dialed.(*net.TCPConn)
"""))
H = "net/rtsp/http.go"
rf("http-template", "C38", (H, 'import (\n	"bytes"\n', 'import (\n	"fmt"\n'),
 (H, "func:func ConnectHTTP(", """func ConnectHTTP(verb, uri, cookie string) []byte {
	length := ""
	if verb == "POST" {
		length = fmt.Sprintf("%s: %d\\r\\n", HeaderContentLength, 32767)
	}
	return []byte(fmt.Sprintf("%s %s HTTP/1.0\\r\\n%s: %s\\r\\n%s: application/x-rtsp-tunnelled\\r\\n%s: no-cache\\r\\n%s: no-store\\r\\n%s%s: %s\\r\\n\\r\\n",
		verb, uri, HeaderXSessionCookie, cookie, HeaderAccept, HeaderPragma, HeaderCacheControl, length, HeaderUserAgent, Agent))
}"""))
O = "cmd/ouro/main.go"
rf("client-split", "C48 C49", (O, "		case pkt := <- s.Data:\n", "		case pkt, ok := <-s.Data:\n			if !ok {\n				return\n			}\n"),
 (O, "					err := nalsink.Push(buf, p.TS)\n					if err != nil {\n", "					if err := nalsink.Push(buf, p.TS); err != nil {\n"),
 (O, 'log.Printf("NAL Zero=%t, RefIdc=%d, Type=%d, Size=%d\\r\\n", nal.ZeroBit(), nal.RefIdc(), nal.Type(), len(nal.Data))', 'report("NAL Zero=%v, RefIdc=%v, Type=%v, Size=%v\\r\\n", nal.ZeroBit(), nal.RefIdc(), nal.Type(), len(nal.Data))'),
 (O, "func main() {\n", "func report(format string, args ...interface{}) { log.Printf(format, args...) }\n\nfunc main() {\n"))
rf("client-after", "C48", (O, "	tmr := time.NewTimer(time.Minute)\n	tmr.Stop()\n", "	var tmr <-chan time.Time\n"), (O, "		case <- tmr.C:\n", "		case <-tmr:\n"),
 (O, "				tmr.Reset(time.Second * 5)\n			case rtsp.StagePause:", "				tmr = time.After(5 * time.Second)\n			case rtsp.StagePause:"),
 (O, "				tmr.Reset(time.Second * 5)\n			case rtsp.StageDone:", "				tmr = time.After(5 * time.Second)\n			case rtsp.StageDone:"),
 (O, "				tmr.Reset(time.Second * 5)\n			default:", "				tmr = time.After(5 * time.Second)\n			default:"))

# ---- second round ----
rf("session-extract", "C30 C34 C36 C37 C43 C46 C47 C48 C49", (X, """	if rsp.StatusCode == RtspUnauthorized {
		challenge := rsp.Header.Get(HeaderAuthenticate)
		if req.retried && !isStale(challenge) {
			return errUnauthorized
		}
		req.retried = true
		if err = s.authorize(challenge); err != nil {
			return err
		}
		// Treat this as retransmit of the same message but with a CSeq of its own.
		s.enqueue(req)
		// Feeds are matched to responses to transport setup commands by CSeq.
		for _, f := range s.feeds {
			if f.cseq == rsp.Cseq {
				f.cseq = req.Cseq
			}
		}
		buf := req.Pack()

		log.Println(string(buf))

		_, err = s.Write(buf)
		return err
	}

	if sess := rsp.Header.Get(HeaderSession); sess != "" {
		if fields := strings.Split(sess, ";"); len(fields) > 0 {
			s.session = fields[0]
		}
	}
""", """	if rsp.StatusCode == RtspUnauthorized {
		return s.retry(req, rsp)
	}
	s.remember(rsp.Header.Get(HeaderSession))
"""), (X, "func (s *Session) handleSetup(", """func (s *Session) retry(req *Request, rsp *Response) error {
	challenge, old := rsp.Header.Get(HeaderAuthenticate), req.Cseq
	if req.retried && !isStale(challenge) {
		return errUnauthorized
	}
	if req.retried = true; true {
		if err := s.authorize(challenge); err != nil {
			return err
		}
	}
	s.enqueue(req)
	if f := s.feedFor(old); f != nil {
		f.cseq = req.Cseq
	}
	return s.transmit(req)
}

func (s *Session) feedFor(seq int) *Feed {
	for i := range s.feeds {
		if s.feeds[i].cseq == seq {
			return s.feeds[i]
		}
	}
	return nil
}

func (s *Session) transmit(req *Request) error {
	buf := req.Pack()
	log.Println(string(buf))
	_, err := s.Write(buf)
	return err
}

func (s *Session) remember(sess string) {
	if sess == "" {
		return
	}
	if i := strings.IndexByte(sess, ';'); i >= 0 {
		sess = sess[:i]
	}
	s.session = sess
}

func (s *Session) handleSetup("""), (X, """	s.enqueue(req)
	seq := req.Cseq
	buf := req.Pack()

	log.Println(string(buf))

	_, err := s.Write(buf)
	return seq, err
""", """	s.enqueue(req)
	seq := req.Cseq
	return seq, s.transmit(req)
"""), (X, """	for i := range s.feeds {
		// Setup is done on a different URI that accounts for Control in media.
		uri := s.feeds[i].Control
		if !strings.HasPrefix(uri, "rtsp://") {
			uri = s.BaseURI + "/" + uri
		}
		seq, err := s.send(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
		if err != nil {
			return err
		}
		s.feeds[i].cseq = seq
	}
	return nil
""", """	var err error
	for _, f := range s.feeds {
		headers := Headers{HeaderTransport: f.TransportHeader()}
		if f.cseq, err = s.send(VerbSetup, s.controlURI(f), headers); err != nil {
			break
		}
	}
	return err
"""), (X, "func:// Play handles", """// controlURI returns the URI of the media.
func (s *Session) controlURI(f *Feed) string {
	if strings.HasPrefix(f.Control, "rtsp://") {
		return f.Control
	}
	return strings.Join([]string{s.BaseURI, f.Control}, "/")
}

// Play handles client PLAY request in RTSP.
func (s *Session) Play() error {
	return s.command(VerbPlay, s.BaseURI, nil)
}"""))
rf("conn-frame", "C28 C30 C34 C37 C44 C45 C46 C48 C49", (X, "func:func (s *Session) receive(", """func (s *Session) receive() error {
	b, err := s.Peek(1)
	switch {
	case err != nil:
		return err
	case b[0] != '$':
		return s.handleRtsp()
	}
	pkt, err := s.frame()
	if err == nil {
		s.Data <- pkt
	}
	return err
}"""), (C, "// AddSink creates", """// frame reads an interleaved packet.
func (c *Conn) frame() (pkt RawPacket, err error) {
	hdr, err := c.Peek(4)
	if err != nil {
		return
	}
	ch, total := hdr[1], 4+int(hdr[2])<<8+int(hdr[3])
	buf, err := c.ReadBytes(total)
	if err != nil {
		return
	}
	payload := make([]byte, len(buf)-4)
	copy(payload, buf[4:])
	return RawPacket{Channel: ch, Payload: payload}, nil
}

// AddSink creates"""))
rf("session-setup", "C30 C34 C36 C37 C43 C44 C46 C48 C49", (X, "func:func (s *Session) handleSetup(", """func (s *Session) handleSetup(rsp *Response) error {
	if rsp.StatusCode != RtspOK {
		if rsp.StatusCode != RtspUnauthorized {
			s.feedidx++
		}
		return s.ready()
	}
	for i := range s.feeds {
		f := s.feeds[i]
		if f.cseq != rsp.Cseq {
			continue
		}
		s.feedidx++
		err := f.TransportSetup(rsp.Header.Get(HeaderTransport))
		if err == nil {
			err = s.listen(byte(i)*2, f.transp)
		}
		if err != nil {
			return err
		}
	}
	return s.ready()
}

func (s *Session) listen(ch byte, t *Transport) error {
	if t.IsTCP {
		return nil
	}
	ports := t.ClientPort
	if t.IsMulticast {
		ports = t.Port
	}
	for k, port := range []int{ports.One, ports.Two} {
		if err := s.AddSink(ch+byte(k), port); err != nil {
			return err
		}
	}
	return nil
}

func (s *Session) ready() error {
	if s.feedidx < len(s.feeds) {
		return nil
	}
	s.notify(StageReady)
	s.Start()
	return nil
}"""))
rf("bits-accumulate", "C01 C02 C05 C06 C07", (B, "func:func (r *BitReader) ReadBits(", """func (r *BitReader) ReadBits(n uint) (uint32, error) {
	if n > 32 || n > r.Available() {
		return 0, io.ErrUnexpectedEOF
	}
	var acc uint64
	for got := uint(0); got < n; {
		if r.bitn == 8 {
			r.byten, r.bitn = r.byten+1, 0
		}
		take := 8 - r.bitn
		if take > n-got {
			take = n - got
		}
		chunk := r.buffer[r.byten] << r.bitn >> (8 - take)
		acc = acc<<take | uint64(chunk)
		got += take
		r.bitn += take
	}
	return uint32(acc), nil
}"""))
rf("rtcp-cursor", "C16 C17 C49", (RC, "func:func Unpack(", """func Unpack(buf []byte) (*Packet, error) {
	if len(buf) < HeaderSize {
		return nil, errPacketTooShort
	}
	if buf[0]>>6 != RtcpVersion>>6 {
		return nil, errInvalidVersion
	}
	p := &Packet{VPC: buf[0], PT: buf[1], LN: be.Uint16(buf[2:4])}
	switch p.PT {
	case 200:
		sr, err := parseSR(buf, int(p.LN), int(p.VPC&31))
		if err != nil {
			return nil, err
		}
		p.DSR = sr
	}
	return p, nil
}

func parseSR(buf []byte, words, count int) (*DataSR, error) {
	size := HeaderSize + 4*words
	if len(buf) < size || size < HeaderSize+24+24*count {
		return nil, errPacketTooShort
	}
	r := reader(buf[HeaderSize:size])
	sr := &DataSR{SSRC: r.u32()}
	hi := r.u32()
	sr.NTPTS = uint64(hi)<<32 | uint64(r.u32())
	sr.RTPTS, sr.PC, sr.OC = r.u32(), r.u32(), r.u32()
	for ; count > 0; count-- {
		s := SynSource{SSRC: r.u32()}
		lost := r.u32()
		s.FL, s.PL = byte(lost>>24), lost&(1<<24-1)
		for _, f := range []*uint32{&s.SN, &s.JIT, &s.LSR, &s.DLSR} {
			*f = r.u32()
		}
		sr.Reports = append(sr.Reports, s)
	}
	return sr, nil
}

type reader []byte

func (r *reader) u32() (v uint32) {
	v = be.Uint32(*r)
	*r = (*r)[4:]
	return
}"""))
rf("rtp-fields", "C14 C15 C40 C49", (RT, "	off := HeaderSize\n	if len(buf) < off+int(packet.CC())*4 {", """	cc := int(packet.VPXCC & 15)
	rest := buf[HeaderSize:]
	if len(rest) < 4*cc {
		return nil, errPacketTooShort
	}
	for i := 0; i < cc; i++ {
		packet.CSRC = append(packet.CSRC, be.Uint32(rest[4*i:]))
	}
	if cc == 0 {
		packet.CSRC = []uint32{}
	}
	off := HeaderSize
	if len(buf) < off+int(packet.CC())*4 {"""),
 (RT, "	packet.CSRC = make([]uint32, packet.CC())\n	for i := range packet.CSRC {\n		packet.CSRC[i] = be.Uint32(buf[off:])\n		off += 4\n	}\n", "	off += 4 * cc\n"))
rf("message-writer", "C27 C34 C36 C42 C43 C48", (M, 'import (\n	"bytes"\n', 'import (\n	"bufio"\n	"bytes"\n'),
 (M, "func:func (r *Request) Pack(", """func (r *Request) Pack() []byte {
	out := new(bytes.Buffer)
	w := textproto.NewWriter(bufio.NewWriter(out))
	w.PrintfLine("%s %s RTSP/1.0", r.Verb, r.URI)
	line := func(key, val string) {
		w.PrintfLine("%s: %s", key, val)
	}
	line(HeaderCSeq, strconv.Itoa(r.Cseq))
	for key := range r.Header {
		line(key, r.Header[key])
	}
	switch r.Verb {
	case VerbOptions, VerbSetup:
	default:
		if r.Session != "" {
			line(HeaderSession, r.Session)
		}
	}
	if r.Auth != "" {
		line(HeaderAuthorization, r.Auth)
	}
	line(HeaderUserAgent, Agent)
	line(HeaderContentLength, "0")
	w.PrintfLine("")
	return out.Bytes()
}"""))
rf("sdp-regexp", "C18 C19 C20 C21 C39", (D, '	"encoding/hex"\n', '	"encoding/hex"\n	"regexp"\n'),
 (D, "type (\n	// Media", "var codecs = regexp.MustCompile(`(?i)^(MPEG4-GENERIC|H264)$`)\n\ntype (\n	// Media"),
 (D, """							switch strings.ToUpper(key) {
							case "MPEG4-GENERIC":
								m.Type = AAC
							case "H264":
								m.Type = H264
							}
""", """							if codecs.MatchString(key) {
								if strings.HasPrefix(key, "H") || strings.HasPrefix(key, "h") {
									m.Type = H264
								} else {
									m.Type = AAC
								}
							}
"""))
rf("client-handlers", "C48 C49", (O, """            if pkt.Channel % 2 == 0 {
				var p *rtp.Packet""", """			if pkt.Channel&1 == 0 {
				if err := media(pkt, sinks); err != nil {
					log.Println(err)
					return
				}
				continue
			}
			if pkt.Channel % 2 == 0 {
				var p *rtp.Packet"""), (O, "func main() {\n", """func media(pkt rtsp.RawPacket, sinks map[byte]*h264.NALSink) error {
	p, err := rtp.Unpack(pkt.Payload)
	if err != nil {
		return err
	}
	log.Printf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d\\r\\n", pkt.Channel, p.PT(), p.CC(), p.M(), p.SN)
	if p.PL == nil {
		return nil
	}
	sink := sinks[pkt.Channel]
	if sink == nil {
		sink = h264.NewNALSink()
		sinks[pkt.Channel] = sink
	}
	if err = sink.Push(p.PL, p.TS); err != nil {
		return err
	}
	for i := range sink.Units {
		nal := &sink.Units[i]
		log.Printf("NAL Zero=%t, RefIdc=%d, Type=%d, Size=%d\\r\\n", nal.ZeroBit(), nal.RefIdc(), nal.Type(), len(nal.Data))
	}
	return nil
}

func main() {
"""))
rf("packet-switch", "C08 C09 C10 C11 C12 C13 C40 C49", (P, "func:func (s *NALSink) parseNAL(", """func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
	if len(buf) == 0 {
		return errPacketTooShort
	}
	header, body := buf[0], buf[1:]
	switch typ := header & 0x1F; {
	case typ == typeStapA || typ == typeStapB:
		return s.parseSTAP(typ, body, ts)
	case typ == typeMtap16 || typ == typeMtap24:
		return s.parseMTAP(typ, body, ts)
	case typ == typeFuA || typ == typeFuB:
		return s.parseFU(typ == typeFuB, header&0xE0, body, ts)
	}
	s.emit(header, s.Don, ts, body)
	s.Don++
	return nil
}

func (s *NALSink) parseFU(withDon bool, nri byte, body []byte, ts uint32) error {
	min, don := 1, s.Don
	if withDon {
		min = 3
	}
	if len(body) < min {
		return errPacketTooShort
	}
	if withDon {
		don = be.Uint16(body[1:])
	}
	s.AddFragment(nri|body[0]&0x1F, body[0], don, ts, body[min:])
	if !withDon && len(s.Units) != 0 {
		s.Don++
	}
	return nil
}

func (s *NALSink) emit(header byte, don uint16, ts uint32, data []byte) {
	s.Units = append(s.Units, NALUnit{Header: header, Don: don, TS: ts, Data: data})
}"""), (P, """		data := []byte{}
		for _, frag := range s.Fragments {
			data = append(data, frag.Data...)
		}
		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
		s.Fragments = s.Fragments[:0]
""", """		total := 0
		for i := range s.Fragments {
			total += len(s.Fragments[i].Data)
		}
		data, at := make([]byte, total), 0
		for i := range s.Fragments {
			at += copy(data[at:], s.Fragments[i].Data)
		}
		s.emit(indicator, s.Fragments[0].Don, ts, data)
		s.Fragments = nil
"""))
