package h264

import nd "github.com/aboukirev/ouro/net/verifnd"

// refBits is the reference: bits [pos, pos+n) of b, most significant bit first.
func vzRefBits(b []byte, pos, n int) (v uint64) {
	for i := pos; i < pos+n; i++ {
		v = v<<1 | uint64(b[i/8]>>(7-uint(i%8))&1)
	}
	return
}

// VerifBitsRead: any history of reads returns exactly the next bits of the buffer and moves by exactly that many.
func VerifBitsRead() {
	size := nd.Choose(nd.Param("size", 6) + 1)
	b := nd.Bytes(size)
	keep := append([]byte{}, b...)
	r := NewBitReader(b)
	pos := 0
	ops := nd.Param("ops", 2)
	for i := 0; i < ops; i++ {
		n := nd.Choose(35)
		short := n > 32 || pos+n > 8*size
		op := 0
		if i == ops-1 {
			op = nd.Choose(4)
		}
		nd.Assert(r.Available() == uint(8*size-pos), "Available reports the unread bits")
		switch op {
		case 0:
			v, err := r.ReadBits(uint(n))
			if short {
				nd.Assert(err != nil, "reading past the end reports an error")
			} else {
				nd.Assert(err == nil, "a read within the buffer succeeds")
				nd.Assert(uint64(v) == vzRefBits(keep, pos, n), "ReadBits returns the next n bits")
				nd.ObserveU("bits", uint64(v))
				pos += n
			}
		case 1:
			err := r.SkipBits(uint(n))
			if short {
				nd.Assert(err != nil, "skipping past the end reports an error")
			} else {
				nd.Assert(err == nil, "a skip within the buffer succeeds")
				pos += n
			}
		case 2:
			asked := uint(n)
			if n > 8 {
				// A byte has no room for more.
				n, short = 8, pos+8 > 8*size
				nd.Cover("more than a byte")
			}
			v, err := r.ReadByteBits(asked)
			if short {
				nd.Assert(err != nil, "reading past the end reports an error")
			} else {
				nd.Assert(nd.And(err == nil, uint64(v) == vzRefBits(keep, pos, n)), "ReadByteBits returns the next n bits")
				pos += n
			}
		case 3:
			if n > 1 {
				return
			}
			v, err := r.ReadFlag()
			if pos+1 > 8*size {
				nd.Assert(err != nil, "reading past the end reports an error")
			} else {
				nd.Assert(nd.And(err == nil, v == (vzRefBits(keep, pos, 1) == 1)), "ReadFlag returns the next bit")
				pos++
			}
		}
		nd.Assert(r.Available() == uint(8*size-pos), "the reader advances by exactly the bits consumed")
	}
	if pos == 8*size && size > 0 {
		nd.Cover("read to the end")
	}
	nd.Assert(nd.EqBytes(b, keep), "the buffer is not modified")
}

// bitWriter builds bit streams out of symbolic values; every length is concrete.
type vzBitWriter struct {
	buf []byte
	n   int
}

func (w *vzBitWriter) u(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.buf = append(w.buf, 0)
		}
		w.buf[w.n/8] |= byte(v>>uint(i)&1) << (7 - uint(w.n%8))
		w.n++
	}
}

func (w *vzBitWriter) flag(v bool) { w.u(nd.IteU64(v, 1, 0), 1) }

// ue writes code number v which must have exactly k significant suffix bits: 2^k-1 <= v <= 2^(k+1)-2.
func (w *vzBitWriter) ue(v uint64, k int) {
	w.u(0, k)
	w.u(v+1, k+1)
}

// anyUE picks a code number with k suffix bits.
func vzAnyUE(k int) uint64 {
	s := nd.U32()
	nd.Assume(uint64(s) < 1<<uint(k))
	return uint64(s) + 1<<uint(k) - 1
}

// anySE picks a signed value whose code number has k suffix bits.
func vzAnySE(k int) (code uint64, val int64) {
	code = vzAnyUE(k)
	h := int64(code+1) / 2
	val = int64(nd.IteU64(code&1 == 1, uint64(h), uint64(-h)))
	return
}

func (w *vzBitWriter) trailing() {
	w.u(1, 1)
	for w.n%8 != 0 {
		w.u(0, 1)
	}
}

// VerifGolomb: Exp-Golomb codes of every width at every bit offset decode to the specified value, as unsigned and as
// signed, and reading and skipping a code move the reader by the same distance.
func VerifGolomb() {
	k := nd.Choose(34)
	start := nd.Choose(8)
	w := &vzBitWriter{}
	w.u(uint64(nd.Byte()), start)
	s := uint64(nd.U32())
	if k < 32 {
		nd.Assume(s < 1<<uint(k))
	}
	w.u(0, k)
	w.u(1, 1)
	w.u(s, k)
	after := nd.Byte()
	w.u(uint64(after), 8)
	w.trailing()
	code := s + 1<<uint(k) - 1
	open := func() *BitReader {
		r := NewBitReader(w.buf)
		nd.Assert(r.SkipBits(uint(start)) == nil, "skipping the prefix succeeds")
		return r
	}
	follow := func(r *BitReader) {
		b, err := r.ReadBits(8)
		nd.Assert(nd.And(err == nil, b == uint32(after)), "the reader continues right after the code")
	}
	ru := open()
	v, err := ru.ReadUnsignedGolomb()
	rs := open()
	sv, serr := rs.ReadSignedGolomb()
	rk := open()
	kerr := rk.SkipGolomb()
	if k >= 32 {
		nd.Assert(err != nil, "a code number beyond 32 bits is rejected (unsigned)")
		nd.Assert(serr != nil, "a code number beyond 32 bits is rejected (signed)")
		nd.Assert(kerr != nil, "a code number beyond 32 bits is rejected (skip)")
		nd.Cover("oversized code")
		return
	}
	nd.Assert(err == nil, "a complete unsigned code is accepted")
	nd.Assert(uint64(v) == code, "ue(v) decodes to 2^zeros-1+suffix")
	nd.Assert(serr == nil, "a complete signed code is accepted")
	h := int64(code+1) / 2
	nd.Assert(nd.Or(nd.And(code&1 == 1, int64(sv) == h), nd.And(code&1 == 0, int64(sv) == -h)), "se(v) maps code numbers to alternating signs")
	nd.Assert(kerr == nil, "a complete code can be skipped")
	follow(ru)
	follow(rs)
	follow(rk)
	nd.ObserveU("v", uint64(v))
	if k == 31 {
		nd.Cover("widest code")
	}
}

// VerifGolombShort: a code cut off by the end of the buffer is an error, never a value.
func VerifGolombShort() {
	n := nd.Choose(nd.Param("bytes", 4) + 1)
	b := nd.Bytes(n)
	r := NewBitReader(b)
	k := nd.Choose(8)
	if k > 8*n {
		return
	}
	if r.SkipBits(uint(k)) != nil {
		nd.Assert(false, "skipping within the buffer succeeds")
	}
	z := 0
	for z+k < 8*n && vzRefBits(b, k+z, 1) == 0 {
		z++
	}
	whole := k+2*z+1 <= 8*n
	switch nd.Choose(3) {
	case 0:
		v, err := r.ReadUnsignedGolomb()
		nd.Assert((err == nil) == whole, "a code is accepted exactly when it is complete")
		if whole {
			nd.Assert(uint64(v) == vzRefBits(b, k+z, z+1)-1, "ue(v) value")
		}
	case 1:
		_, err := r.ReadSignedGolomb()
		nd.Assert((err == nil) == whole, "a code is accepted exactly when it is complete")
	case 2:
		nd.Assert((r.SkipGolomb() == nil) == whole, "a code is skipped exactly when it is complete")
	}
	if whole {
		nd.Assert(r.Available() == uint(8*n-k-2*z-1), "the reader stops after the code")
		nd.Cover("complete")
	} else {
		nd.Cover("cut off")
	}
}

// VerifScalingList: scaling lists follow the delta coding of the specification.
func VerifScalingList() {
	size := nd.Param("size", 4)
	w := &vzBitWriter{}
	want := make([]int32, size)
	last, next := int32(8), int32(8)
	useDef := false
	long := nd.Choose(size) // one delta of any width, the others short
	for j := 0; j < size; j++ {
		if next != 0 {
			k := nd.Choose(2)
			if j == long {
				k = nd.Choose(9)
			}
			code, d := vzAnySE(k)
			nd.Assume(d >= -128 && d <= 127)
			w.ue(code, k)
			nv := (int64(last) + d + 256) & 255
			next = int32(nv)
			if nv == 0 && j == 0 {
				useDef = true
			}
		}
		if next != 0 {
			last = next
		}
		want[j] = last
	}
	after := nd.Byte()
	w.u(uint64(after), 8)
	w.trailing()
	list := make([]int32, size)
	r := NewBitReader(w.buf)
	def, err := r.ReadScalingList(list)
	nd.Assert(err == nil, "a complete scaling list is accepted")
	nd.Assert(def == useDef, "the default-matrix indication is set exactly for a first scale of zero")
	if !useDef {
		for j := range want {
			nd.Assert(list[j] == want[j], "scale values accumulate deltas modulo 256")
		}
	} else {
		nd.Cover("default")
	}
	b, err := r.ReadBits(8)
	nd.Assert(nd.And(err == nil, b == uint32(after)), "the reader continues right after the list")
}

// VerifTrailing: trailing bits and SEI size coding.
func VerifTrailing() {
	n := nd.Choose(nd.Param("bytes", 3) + 1)
	b := nd.Bytes(n)
	k := nd.Choose(8*n + 1)
	r := NewBitReader(b)
	for i := 0; i < k; i++ {
		if _, err := r.ReadFlag(); err != nil {
			nd.Assert(false, "reading within the buffer succeeds")
		}
	}
	if nd.Bool() {
		err := r.SkipTrailingBits()
		rest := (8 - k%8) % 8
		if rest == 0 {
			rest = 8
		}
		good := k < 8*n && vzRefBits(b, k, rest) == 1<<uint(rest-1)
		nd.Assert((err == nil) == good, "trailing bits are accepted exactly when they are a one followed by zeros up to the byte boundary")
		if good {
			nd.Assert(r.Available() == uint(8*n-k-rest), "the reader stops at the byte boundary")
			nd.Cover("trailing ok")
		}
		return
	}
	v, err := r.ReadPayloadParam()
	sum := uint64(0)
	p := k
	for p+8 <= 8*n && vzRefBits(b, p, 8) == 255 {
		sum += 255
		p += 8
	}
	if p+8 <= 8*n {
		nd.Assert(err == nil, "a complete payload parameter is accepted")
		nd.Assert(uint64(v) == sum+vzRefBits(b, p, 8), "payload parameters add up 0xff bytes and one final byte")
		nd.Assert(r.Available() == uint(8*n-p-8), "the reader stops after the parameter")
	} else {
		nd.Assert(err != nil, "a cut off payload parameter is an error")
	}
}

// VerifMoreData: there is more data exactly while bits before the final stop bit are unread, whatever padding follows.
func VerifMoreData() {
	n := nd.Choose(nd.Param("bytes", 4) + 1)
	b := nd.Bytes(n)
	pad := 0
	if n <= 2 {
		pad = [...]int{0, 5, 40, 300}[nd.Choose(4)]
	}
	r := NewBitReader(append(b, make([]byte, pad)...))
	stop := -1
	for i := 8*n - 1; i >= 0 && stop < 0; i-- {
		if vzRefBits(b, i, 1) == 1 {
			stop = i
		}
	}
	if stop < 0 {
		nd.Cover("no stop bit")
	}
	pos := nd.Choose(8*n + 1)
	// All ways to get there are equal; take whole bytes first or last.
	if nd.Choose(2) == 1 {
		for i := 0; i < pos/8; i++ {
			_, err := r.ReadBits(8)
			nd.Assert(err == nil, "reading within the buffer succeeds")
		}
		nd.Assert(r.SkipBits(uint(pos%8)) == nil, "reading within the buffer succeeds")
	} else {
		_, err := r.ReadBits(uint(pos % 8))
		nd.Assert(err == nil, "reading within the buffer succeeds")
		for i := 0; i < pos/8; i++ {
			nd.Assert(r.SkipBits(8) == nil, "reading within the buffer succeeds")
		}
	}
	for i := 0; i < 2; i++ {
		nd.Assert(r.MoreData() == (pos < stop), "there is more data exactly before the stop bit")
	}
	nd.Assert(r.Available() == uint(8*(n+pad)-pos), "looking for more data does not move the reader")
	if pos+1 < stop {
		nd.Cover("inside data")
	}
}

// VerifBitsFar: reads near the end of large buffers are as exact as in small ones.
func VerifBitsFar() {
	size := [...]int{256, 257, 8193, 65537}[nd.Choose(4)]
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i * 11)
	}
	const window = 8
	at := size - window
	copy(b[at:], nd.Bytes(window))
	r := NewBitReader(b)
	for i := 0; i < at/4; i++ {
		if r.SkipBits(32) != nil {
			nd.Assert(false, "a skip within the buffer succeeds")
		}
	}
	for i := at / 4 * 4; i < at; i++ {
		if _, err := r.ReadByteBits(8); err != nil {
			nd.Assert(false, "a read within the buffer succeeds")
		}
	}
	pos := 8 * at
	nd.Assert(r.Available() == uint(8*(size-at)), "Available reports the unread bits")
	k := [...]int{0, 3, 7}[nd.Choose(3)]
	if nd.Choose(2) == 1 {
		nd.Assert(r.SkipBits(uint(k)) == nil, "a skip within the buffer succeeds")
	} else {
		v, err := r.ReadBits(uint(k))
		nd.Assert(nd.And(err == nil, uint64(v) == vzRefBits(b, pos, k)), "ReadBits returns the next n bits")
	}
	pos += k
	n := [...]int{1, 8, 26, 32}[nd.Choose(4)]
	v, err := r.ReadBits(uint(n))
	nd.Assert(nd.And(err == nil, uint64(v) == vzRefBits(b, pos, n)), "ReadBits returns the next n bits")
	pos += n
	nd.Assert(r.Available() == uint(8*size-pos), "the reader advances by exactly the bits consumed")
	nd.Cover("far")
}

// VerifScalingShort: over arbitrary bytes a scaling list is accepted exactly when all of its codes are there.
func VerifScalingShort() {
	n := nd.Choose(nd.Param("bytes", 3) + 1)
	b := nd.Bytes(n)
	size := 1 + nd.Choose(nd.Param("size", 3))
	at := 0
	whole := true
	last, next := int64(8), int64(8)
	want := make([]int64, size)
	for j := 0; j < size && whole; j++ {
		if next != 0 {
			z := 0
			for at+z < 8*n && vzRefBits(b, at+z, 1) == 0 {
				z++
			}
			if at+2*z+1 > 8*n {
				whole = false
				break
			}
			code := int64(vzRefBits(b, at+z, z+1)) - 1
			at += 2*z + 1
			d := int64(nd.IteU64(code&1 == 1, uint64((code+1)/2), uint64(-(code / 2))))
			next = (last + d + 256) % 256
			nd.Assume(last+d+256 >= 0) // deltas are in the range of the specification
		}
		if next != 0 {
			last = next
		}
		want[j] = last
	}
	list := make([]int32, size)
	r := NewBitReader(b)
	_, err := r.ReadScalingList(list)
	nd.Assert((err == nil) == whole, "a scaling list is accepted exactly when all of its codes are complete")
	if whole {
		for j := range want {
			nd.Assert(int64(list[j]) == want[j], "scale values accumulate deltas modulo 256")
		}
		nd.Assert(r.Available() == uint(8*n-at), "the reader stops after the list")
		nd.Cover("complete list")
	} else {
		nd.Cover("cut off list")
	}
}

// VerifPayloadParamLong: long SEI types and sizes.
func VerifPayloadParamLong() {
	n := [...]int{3, 16, 127, 128, 129, 255, 256, 257, 258, 514, nd.Param("bytes", 70000)}[nd.Choose(11)]
	off := nd.Choose(8)
	b := make([]byte, n+2)
	for i := range b {
		b[i] = 255
	}
	last := nd.Byte()
	nd.Assume(last != 255)
	w := (0xff0000 | uint32(last)<<8 | uint32(nd.Byte())) >> uint(off)
	b[n], b[n+1] = byte(w>>8), byte(w)
	r := NewBitReader(b)
	nd.Assert(r.SkipBits(uint(off)) == nil, "skipping within the buffer succeeds")
	v, err := r.ReadPayloadParam()
	nd.Assert(err == nil, "a complete payload parameter is accepted")
	nd.Assert(v == uint32(255*n)+uint32(last), "payload parameters add up 0xff bytes and one final byte")
	nd.Assert(r.Available() == uint(8-off), "the reader stops after the parameter")
	nd.Cover("long parameter")
}
