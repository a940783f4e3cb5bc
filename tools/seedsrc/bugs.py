# Planted bugs: id, property, package, edits (file, old, new), what is needed, what breaks, demonstration (in-package test).
BUGS = []
def bug(id, property, pkg, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("bits-byte-granular-check", "C01", "net/h264",
    [("net/h264/bits.go", """func (r *BitReader) SkipBits(n uint) (err error) {
	if n > 32 || n > r.Available() {""", """func (r *BitReader) SkipBits(n uint) (err error) {
	if n > 32 || r.byten+(n+7)/8 > r.count {""")],
    "an unaligned skip that ends in the byte after the last one, so that the number of whole bytes it needs still fits",
    "skipping more bits than remain succeeds and the number of unread bits wraps around", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	r := NewBitReader([]byte{0xff, 0x12, 0x34})
	if err := r.SkipBits(14); err != nil {
		t.Fatal(err)
	}
	if v, err := r.ReadBits(10); err != nil || v != 0x234 {
		t.Fatal(v, err)
	}
	r = NewBitReader([]byte{0xff, 0x12, 0x34})
	r.SkipBits(14)
	if err := r.SkipBits(11); err == nil {
		t.Fatal("skipped past the end", r.Available())
	}
}
""")

bug("ebsp-in-place", "C03", "net/h264",
    [("net/h264/annexb.go", "	rbsp := make([]byte, 0, size)\n", "	rbsp := buf[:0] // Raw payload never gets ahead of the encapsulated one.\n")],
    "a payload with an emulation prevention byte that the caller looks at again",
    "removing emulation prevention shifts bytes of the buffer that belongs to the caller", """
package h264

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	in := []byte{9, 0, 0, 3, 1, 7, 0, 0, 3, 0}
	cp := append([]byte{}, in...)
	if out := EBSPToRaw(in); !bytes.Equal(out, []byte{9, 0, 0, 1, 7, 0, 0, 0}) {
		t.Fatal(out)
	}
	if !bytes.Equal(in, cp) {
		t.Fatal("input modified", in)
	}
}
""")

bug("scaling-default-mid-list", "C02", "net/h264",
    [("net/h264/bits.go", "			useDefault = j == 0 && nextScale == 0\n", "			useDefault = nextScale == 0\n")],
    "a scaling list that is cut short by a zero scale after its first entry",
    "a list whose tail repeats the last scale is reported as a request for the default matrix", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	// delta 0 (scale 8), delta -8 (stop): se(0) = 1, se(-8) = codenum 16 = 000010001
	r := NewBitReader([]byte{0x84, 0x40})
	list := make([]int32, 4)
	def, err := r.ReadScalingList(list)
	if err != nil || def || list[0] != 8 || list[3] != 8 {
		t.Fatal(def, err, list)
	}
}
""")

bug("annexb-skip-after-code", "C04", "net/h264",
    [("net/h264/annexb.go", """			off += 3
			prev = off
""", """			off += 3
			prev = off
			off++ // Every unit has at least a header byte.
"""), ("net/h264/annexb.go", """			// Speed up traversal in search for start codes
			off += 3
""", """			// Speed up traversal in search for start codes.
			off += shortStartCodeLen
""")],
    "a start code immediately after a start code (an empty unit or zero padding between two codes)",
    "the second start code is taken for data: the next unit starts with the remains of the start code", """
package h264

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	u := SplitAnnexB([]byte{0, 0, 1, 0, 0, 1, 0x65, 7, 0, 0, 1, 0x41, 8})
	if len(u) != 2 || !bytes.Equal(u[0], []byte{0x65, 7}) || !bytes.Equal(u[1], []byte{0x41, 8}) {
		t.Fatal(u)
	}
}
""")

bug("sps-8x8-list-offset", "C05", "net/h264",
    [("net/h264/spspps.go", """					if sps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(sps.ScalingList[off : off+size]); err != nil {
						return
					}
				}
				off += size
				if i >= 5 {
					size = 64
				}
""", """					if sps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(sps.ScalingList[off : off+size]); err != nil {
						return
					}
					off += size
				}
				if i >= 5 {
					size = 64
				}
""")],
    "a high profile set in which a scaling list that is absent precedes one that is present",
    "lists after an absent one are stored in the place of the absent one", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	var b []byte
	n := uint(0)
	put := func(v uint32, bits uint) {
		for i := int(bits) - 1; i >= 0; i-- {
			if n%8 == 0 {
				b = append(b, 0)
			}
			if v>>uint(i)&1 == 1 {
				b[len(b)-1] |= 0x80 >> (n % 8)
			}
			n++
		}
	}
	put(100, 8)
	put(0, 8)
	put(30, 8)
	put(1, 1) // sps id
	put(2, 3) // chroma 4:2:0
	put(1, 1)
	put(1, 1)
	put(0, 1)
	put(1, 1) // matrix
	put(0, 1) // list 0 absent
	put(1, 1) // list 1: first scale 8-1=7, rest 7
	put(3, 3)
	put(0xe, 0)
	// delta that leads to zero: -7 = codenum 14 = 0001111
	put(15, 7)
	put(0, 6)
	put(1, 1)
	put(3, 3) // poc type 2
	put(1, 1)
	put(0, 1)
	put(1, 1)
	put(1, 1)
	put(1, 1) // frame mbs only
	put(0, 1)
	put(0, 1)
	put(0, 1)
	put(1, 1)
	s := NewParameterSets()
	if err := s.ParseSPS(b); err != nil {
		t.Fatal(err)
	}
	sps := s.spset[0]
	if sps.ScalingListPresent != 2 || sps.ScalingList[0] != 0 || sps.ScalingList[16] != 7 || sps.ScalingList[31] != 7 {
		t.Fatal(sps.ScalingListPresent, sps.ScalingList[:32])
	}
}
""")

bug("pps-group-id-width", "C06", "net/h264",
    [("net/h264/spspps.go", "			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))\n", "			bits := uint(math.Log2(float64(pps.NumSliceGroupsMinus1)) + 1)\n"),
     ("net/h264/spspps.go", "	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {\n		return\n	}\n", "	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {\n		return err\n	}\n")] if False else
    [("net/h264/spspps.go", "			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))\n", "			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1))))\n			if bits == 0 {\n				bits = 1\n			}\n")],
    "explicit slice group map (type 6) with three or five slice groups",
    "slice group ids are read with too few bits and everything after them is garbage", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	var b []byte
	n := uint(0)
	put := func(v uint32, bits uint) {
		for i := int(bits) - 1; i >= 0; i-- {
			if n%8 == 0 {
				b = append(b, 0)
			}
			if v>>uint(i)&1 == 1 {
				b[len(b)-1] |= 0x80 >> (n % 8)
			}
			n++
		}
	}
	put(1, 1)
	put(1, 1)
	put(0, 2)
	put(3, 3) // num_slice_groups_minus1 = 2
	put(7, 5) // type 6
	put(3, 3) // 3 map units
	put(2, 2)
	put(0, 2)
	put(1, 2)
	put(3, 2) // ref counts
	put(0, 3)
	put(7, 3) // qp, qs, chroma
	put(0, 3)
	put(1, 1)
	s := NewParameterSets()
	if err := s.ParsePPS(b); err != nil {
		t.Fatal(err)
	}
	id := s.ppset[0].SliceGroupID
	if len(id) != 3 || id[0] != 2 || id[1] != 0 || id[2] != 1 {
		t.Fatal(id)
	}
}
""")

bug("sps-stored-before-complete", "C07", "net/h264",
    [("net/h264/spspps.go", """	if sps.Direct8x8Inference, err = br.ReadFlag(); err != nil {
		return
	}
	if sps.FrameCropping, err""", """	if sps.Direct8x8Inference, err = br.ReadFlag(); err != nil {
		return
	}
	s.spset[sps.SpsID] = sps
	if sps.FrameCropping, err"""),
     ("net/h264/spspps.go", """*cropUnitY
	s.spset[sps.SpsID] = sps
""", """*cropUnitY
""")],
    "a sequence parameter set truncated in its last few fields (cropping or VUI flag) under the id of a stored one",
    "the rejected set replaces the good one", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	good := []byte{66, 0, 30, 0xda, 0x02, 0x00, 0x80, 0x00}
	// ids 1 1 011(poc2) 01 0 ... built below instead
	var b []byte
	n := uint(0)
	put := func(v uint32, bits uint) {
		for i := int(bits) - 1; i >= 0; i-- {
			if n%8 == 0 {
				b = append(b, 0)
			}
			if v>>uint(i)&1 == 1 {
				b[len(b)-1] |= 0x80 >> (n % 8)
			}
			n++
		}
	}
	put(66, 8)
	put(0, 8)
	put(30, 8)
	put(1, 1)
	put(1, 1)
	put(3, 3)
	put(1, 1)
	put(0, 1)
	put(1, 1)
	put(1, 1)
	put(1, 1)
	put(0, 1)
	put(0, 1)
	put(0, 1)
	put(1, 1)
	good = b
	s := NewParameterSets()
	if err := s.ParseSPS(good); err != nil {
		t.Fatal(err)
	}
	before := *s.spset[0]
	b, n = nil, 0
	put(66, 8)
	put(0, 8)
	put(31, 8)
	put(1, 1)
	put(1, 1)
	put(3, 3)
	put(1, 1)
	put(0, 1)
	put(1, 1)
	put(1, 1)
	put(1, 1)
	put(0, 1)
	put(1, 1) // cropping follows but does not fit
	put(0, 4)
	if err := s.ParseSPS(b); err == nil {
		t.Fatal("truncated set accepted")
	}
	if *s.spset[0] != before {
		t.Fatal("rejected set replaced the stored one")
	}
}
""")

bug("mtap-don-accumulates", "C08", "net/h264",
    [("net/h264/packet.go", "		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})\n",
      "		s.Don += dond\n		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don, TS: ts + tsoff, Data: buf[off+1 : size+off]})\n")],
    "a multi-time aggregate of at least two units in which one that is not the last has a nonzero DOND",
    "decoding order numbers accumulate instead of being relative to DONB", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	s := NewNALSink()
	if err := s.Push([]byte{0x7a, 0, 10, 0, 2, 1, 0, 0, 0x41, 1, 0, 2, 3, 0, 5, 0x41, 2}, 100); err != nil {
		t.Fatal(err)
	}
	if len(s.Units) != 2 || s.Units[0].Don != 11 || s.Units[1].Don != 13 || s.Units[1].TS != 105 {
		t.Fatal(s.Units)
	}
}
""")

bug("fu-start-same-timestamp", "C09", "net/h264",
    [("net/h264/packet.go", """	if (header & 0x80) != 0 {
		s.Fragments = s.Fragments[:0]
	} else""", """	if (header&0x80) != 0 && len(s.Fragments) > 0 && s.Fragments[0].TS != ts {
		// Abandon the unit of an earlier picture.
		s.Fragments = s.Fragments[:0]
	} else if (header & 0x80) != 0 {
		// Nothing to abandon.
	} else""")],
    "the last fragment of one slice is lost and the next slice of the same picture (same timestamp) is fragmented, too",
    "the incomplete unit contaminates the next one", """
package h264

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	s := NewNALSink()
	s.Push([]byte{0x7c, 0x85, 1, 2}, 9)
	// the end of the first slice is lost
	s.Push([]byte{0x7c, 0x85, 3, 4}, 9)
	s.Push([]byte{0x7c, 0x45, 5, 6}, 9)
	if len(s.Units) != 1 || !bytes.Equal(s.Units[0].Data, []byte{3, 4, 5, 6}) {
		t.Fatal(s.Units)
	}
}
""")

bug("stap-clamps-size", "C10", "net/h264",
    [("net/h264/packet.go", """		if len(buf) < int(size+2) {
			return errPacketTooShort
		}
		s.Units = append(s.Units, NALUnit{Header: buf[2]""", """		if len(buf) == 2 {
			return errPacketTooShort
		} else if len(buf) < int(size+2) {
			// Salvage what there is.
			size = len(buf) - 2
		}
		s.Units = append(s.Units, NALUnit{Header: buf[2]""")],
    "an aggregate whose last unit is truncated",
    "a truncated unit is delivered as if it were complete and no error is reported", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	s := NewNALSink()
	err := s.Push([]byte{0x78, 0, 2, 0x65, 1, 0, 9, 0x41, 1, 2}, 1)
	if err == nil || len(s.Units) > 1 {
		t.Fatal(err, s.Units)
	}
}
""")

bug("rtp-long-extension", "C13", "net/rtp",
    [("net/rtp/packet.go", "			off += int(packet.XL) * 4\n		}\n	}\n", "			off += int(packet.XL * 4)\n		}\n	}\n")],
    "an extension of 65536 bytes or more (length of at least 16384 words)",
    "the payload starts in the middle of the extension data", """
package rtp

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 12+4+65536+3)
	b[0], b[1] = 0x90, 96
	b[14], b[15] = 0x40, 0
	b[len(b)-3] = 7
	p, err := Unpack(b)
	if err != nil || len(p.XD) != 65536 || len(p.PL) != 3 || p.PL[0] != 7 {
		t.Fatal(err, len(p.XD), len(p.PL))
	}
}
""")

bug("rtcp-count-mask", "C16", "net/rtcp",
    [("net/rtcp/packet.go", "	return p.VPC & 0x1F\n", "	return p.VPC & 0x0F\n")],
    "a sender report with more than 15 report blocks",
    "report blocks beyond the low four bits of the count are lost", """
package rtcp

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 28+17*24)
	b[0], b[1], b[3] = 0x80|17, 200, byte(len(b)/4-1)
	b[28+16*24+3] = 5
	p, err := Unpack(b)
	if err != nil || len(p.DSR.Reports) != 17 || p.DSR.Reports[16].SSRC != 5 {
		t.Fatal(err, p)
	}
}
""")

bug("sdp-audio-bleeds", "C18", "net/sdp",
    [("net/sdp/packet.go", """					default:
						m = nil
					}""", """					case "":
						m = nil
					}""")],
    "an audio (or any other non-video) section after a video section",
    "control URL and codec of the audio section replace those of the video feed", """
package sdp

import "testing"

func TestDemo(t *testing.T) {
	f := Parse([]byte("v=0\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:track1\\r\\na=rtpmap:96 H264/90000\\r\\nm=audio 0 RTP/AVP 97\\r\\na=control:track2\\r\\na=rtpmap:97 MPEG4-GENERIC/8000\\r\\n"))
	if len(f) != 1 || f[0].Control != "track1" || f[0].Type != H264 || f[0].TimeScale != 90000 {
		t.Fatal(f)
	}
}
""")

bug("sdp-raw-base64", "C19", "net/sdp",
    [("net/sdp/packet.go", "											val, _ := base64.StdEncoding.DecodeString(field)\n",
      "											val, _ := base64.RawStdEncoding.DecodeString(strings.TrimRight(val, \"=\"))\n")] if False else
    [("net/sdp/packet.go", "									val := keyval[1]\n									switch key {", "									val := strings.TrimRight(keyval[1], \"= \")\n									switch key {")],
    "a parameter set whose length is not a multiple of three, as the last one of the list",
    "padding of the last base64 value is cut so that its last bytes are lost", """
package sdp

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	f := Parse([]byte("m=video 0 RTP/AVP 96\\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z0IAKQ==,aM4=\\n"))
	if len(f) != 1 || len(f[0].SpropParameterSets) != 2 || !bytes.Equal(f[0].SpropParameterSets[1], []byte{0x68, 0xce}) {
		t.Fatal(f)
	}
}
""")

bug("hls-duration-rounded", "C22", "net/hls",
    [("net/hls/playlist.go", "			buf.WriteString(strconv.FormatFloat(seg.Duration, 'f', -1, 64))\n", "			buf.WriteString(strconv.FormatFloat(seg.Duration, 'f', -1, 32))\n")],
    "a duration that does not fit in a single precision number",
    "the playlist lists a duration that is not the one of the segment", """
package hls

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	pl, _ := NewPlaylist("http://h/a", "x.ts", 3, 4)
	pl.AddSegment(4.0000000123, 10)
	if !strings.Contains(pl.String(), "#EXTINF:4.0000000123\\n") {
		t.Fatal(pl.String())
	}
}
""")

bug("hls-position-wraps", "C21", "net/hls",
    [("net/hls/playlist.go", """	if pl.Last >= 0 {
		pos =""", """	if pl.Last > 0 || pl.First == 0 {
		pos =""")],
    "more segments than the playlist has room for: the ring wraps around so that the last segment is in the first slot",
    "positions restart from zero after every round of the ring", """
package hls

import "testing"

func TestDemo(t *testing.T) {
	pl, _ := NewPlaylist("http://h/a", "x.ts", 3, 4)
	for i := 0; i < 5; i++ {
		pl.AddSegment(4, 10)
	}
	if p := pl.Segments[pl.Last].Position; p != 40 {
		t.Fatal(p)
	}
}
""")

bug("transport-lowercases-values", "C24", "net/rtsp",
    [("net/rtsp/transport.go", """		keyval = strings.SplitN(field, "=", 2)
		switch strings.ToLower(keyval[0]) {""", """		keyval = strings.SplitN(strings.ToLower(field), "=", 2)
		switch keyval[0] {""")],
    "a textual value with capital letters (mode, ssrc, destination)",
    "values are turned into lower case", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	var tr Transport
	if err := tr.Parse("RTP/AVP;unicast;client_port=50000-50001;SSRC=1A2B3C4D;mode=\\"PLAY\\""); err != nil || tr.SSRC != "1A2B3C4D" || tr.Mode != "\\"PLAY\\"" {
		t.Fatal(err, tr)
	}
}
""")

bug("transport-single-layer", "C25", "net/rtsp",
    [("net/rtsp/transport.go", "	if t.Layers > 0 {\n", "	if t.IsMulticast && t.Layers > 1 {\n")],
    "a transport with the number of layers that is one or that is not multicast",
    "the number of layers is lost when the transport is formatted", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	var a, b Transport
	if err := a.Parse("RTP/AVP;multicast;port=5000-5001;ttl=3;layers=1"); err != nil {
		t.Fatal(err)
	}
	if err := b.Parse(a.String()); err != nil || b.Layers != 1 || a.String() != b.String() {
		t.Fatal(err, b)
	}
}
""")

SERVER = """
package rtsp

import (
	"bufio"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"
)

// serve accepts one connection on the loopback and gives every request, as its header lines, to the handler.
func serve(t *testing.T, handle func(c net.Conn, verb string, seq string, lines []string)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		r := bufio.NewReader(c)
		for {
			var lines []string
			seq := ""
			for {
				s, err := r.ReadString('\\n')
				if err != nil {
					return
				}
				s = strings.TrimSpace(s)
				if s == "" {
					break
				}
				if strings.HasPrefix(s, "CSeq: ") {
					seq = s[6:]
				}
				lines = append(lines, s)
			}
			handle(c, strings.SplitN(lines[0], " ", 2)[0], seq, lines)
		}
	}()
	return l.Addr().String()
}

var _ = fmt.Sprint
var _ = time.Second
"""

SDP = "m=video 0 RTP/AVP 96\\\\r\\\\na=control:t1\\\\r\\\\nm=video 0 RTP/AVP 96\\\\r\\\\na=control:t2\\\\r\\\\n"

bug("refused-setup-stalls", "C34", "net/rtsp",
    [("net/rtsp/session.go", "	} else if rsp.StatusCode != RtspUnauthorized {\n", "	} else if rsp.StatusCode >= 500 {\n")],
    "a server that refuses the setup of one of the feeds with a 4xx status",
    "the session never reports that it is ready", SERVER + """
func TestDemo(t *testing.T) {
	sdp := "m=video 0 RTP/AVP 96\\r\\na=control:t1\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:t2\\r\\n"
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		switch {
		case verb == "DESCRIBE":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", seq, len(sdp), sdp)
		case verb == "SETUP" && strings.Contains(lines[0], "t2"):
			fmt.Fprintf(c, "RTSP/1.0 404 Not Found\\r\\nCSeq: %s\\r\\n\\r\\n", seq)
		case verb == "SETUP":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\nTransport: RTP/AVP/TCP;interleaved=0-1\\r\\n\\r\\n", seq)
		default:
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\n\\r\\n", seq)
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/a", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	select {
	case st := <-s.State:
		if st != StageReady {
			t.Fatal(st)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("never ready")
	}
}
""")

bug("frames-dropped-when-full", "C30", "net/rtsp",
    [("net/rtsp/session.go", """		if err == nil {
			select {
			case s.Data <- RawPacket""", """		if err == nil && len(s.Data) < cap(s.Data) { // Drop packets that nobody reads.
			select {
			case s.Data <- RawPacket""")],
    "a burst of more than 20 interleaved frames while the consumer is not reading yet",
    "frames beyond the capacity of the channel are lost", SERVER + """
func TestDemo(t *testing.T) {
	const frames = 64
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		for i := 0; i < frames; i++ {
			c.Write([]byte{'$', byte(i), 0, 1, byte(i)})
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/a", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Second)
	for i := 0; i < frames; i++ {
		select {
		case p := <-s.Data:
			if p.Channel != byte(i) || len(p.Payload) != 1 || p.Payload[0] != byte(i) {
				t.Fatal(i, p)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("frame lost", i)
		}
	}
}
""")

bug("udp-shared-buffer", "C37", "net/rtsp",
    [("net/rtsp/connection.go", "				case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:\n",
      "				case c.Data <- RawPacket{Channel: sink.ch, Payload: buf[:n]}:\n")],
    "a second datagram on the same port before the consumer has looked at the first one",
    "the payload of a delivered datagram is overwritten by a later one", """
package rtsp

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := &Conn{Data: make(chan RawPacket, 20)}
	if err := c.AddSink(4, 0); err != nil {
		t.Fatal(err)
	}
	dst := c.sinks[0].LocalAddr().(*net.UDPAddr)
	c.Start()
	u, err := net.DialUDP("udp", nil, dst)
	if err != nil {
		t.Fatal(err)
	}
	u.Write([]byte("first"))
	u.Write([]byte("secnd"))
	time.Sleep(300 * time.Millisecond)
	a, b := <-c.Data, <-c.Data
	if string(a.Payload) != "first" || string(b.Payload) != "secnd" {
		t.Fatal(string(a.Payload), string(b.Payload))
	}
}
""")

bug("keepalive-session-twice", "C27", "net/rtsp",
    [("net/rtsp/message.go", "	if r.Session != \"\" && r.Verb != VerbOptions && r.Verb != VerbSetup {\n", "	if r.Session != \"\" && r.Verb != VerbSetup {\n")],
    "a keep-alive command of a session whose identifier is known (it has the Session header set explicitly)",
    "the Session header is there twice", """
package rtsp

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	r := &Request{Verb: VerbOptions, URI: "rtsp://h/a", Cseq: 7, Session: "abc", Header: make(MessageHeader)}
	r.Header.Set(HeaderSession, "abc")
	if n := bytes.Count(r.Pack(), []byte("Session: abc\\r\\n")); n != 1 {
		t.Fatal(n)
	}
}
""")

bug("header-needs-space", "C28", "net/rtsp",
    [("net/rtsp/message.go", "		keyval := strings.SplitN(line, \":\", 2)\n", "		keyval := strings.SplitN(line, \": \", 2)\n")],
    "a header line without a space after the colon or without a value",
    "the response is rejected", SERVER + """
func TestDemo(t *testing.T) {
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {})
	c, err := Dial("rtsp://"+addr+"/a", ProtoTCP)
	if err != nil {
		t.Fatal(err)
	}
	c.rdr = bufio.NewReader(strings.NewReader("RTSP/1.0 200 OK\\r\\nCSeq:3\\r\\nPublic:\\r\\n\\r\\n"))
	r, err := Unpack(c)
	if err != nil || r.Cseq != 3 {
		t.Fatal(r, err)
	}
}
""")

bug("status-not-three-digits", "C29", "net/rtsp",
    [("net/rtsp/message.go", "	if len(statusCode) != 3 {\n		return nil, errInvalidStatus\n	}\n", "	if len(statusCode) > 3 {\n		return nil, errInvalidStatus\n	}\n")],
    "a status of fewer than three digits",
    "a malformed status is accepted", SERVER + """
func TestDemo(t *testing.T) {
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {})
	c, err := Dial("rtsp://"+addr+"/a", ProtoTCP)
	if err != nil {
		t.Fatal(err)
	}
	c.rdr = bufio.NewReader(strings.NewReader("RTSP/1.0 20 OK\\r\\nCSeq: 3\\r\\n\\r\\n"))
	if r, err := Unpack(c); err == nil {
		t.Fatal(r)
	}
}
""")

bug("digest-decimal-count", "C31", "net/rtsp",
    [("net/rtsp/digest.go", "	d.nc = fmt.Sprintf(\"%08x\", d.count)\n", "	d.nc = fmt.Sprintf(\"%08d\", d.count)\n")],
    "at least ten requests with the same nonce",
    "the nonce count is not hexadecimal: it jumps from 9 to 16", """
package rtsp

import (
	"fmt"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := NewDigest("rtsp://h/a", `Digest realm="r", nonce="n", qop="auth"`)
	if err != nil {
		t.Fatal(err)
	}
	f := d.Authenticate("u", "p")
	for i := 1; i < 40; i++ {
		if s := f("PLAY", nil); !strings.Contains(s, fmt.Sprintf(", nc=%08x,", i)) {
			t.Fatal(i, s)
		}
	}
}
""")

bug("basic-url-encoding", "C32", "net/rtsp",
    [("net/rtsp/digest.go", "		out.WriteString(base64.StdEncoding.EncodeToString(colonnade(username, password)))\n",
      "		out.WriteString(base64.URLEncoding.EncodeToString(colonnade(username, password)))\n")],
    "a user name or a password with particular characters, so that the encoding has a + or a /",
    "credentials are in the URL alphabet that servers do not accept", """
package rtsp

import (
	"encoding/base64"
	"testing"
)

func TestDemo(t *testing.T) {
	d, _ := NewDigest("rtsp://h/a", `Basic realm="r"`)
	want := "Basic " + base64.StdEncoding.EncodeToString([]byte("user:p>>>???~~~"))
	if s := d.Authenticate("user", "p>>>???~~~")("PLAY", nil); s != want {
		t.Fatal(s, want)
	}
}
""")

bug("algorithm-case", "C33", "net/rtsp",
    [("net/rtsp/digest.go", "				d.algorithm = strings.ToLower(val)\n", "				d.algorithm = val\n"),
     ("net/rtsp/digest.go", "		if d.algorithm != \"md5\" && d.algorithm != \"md5-sess\" {\n", "		if d.algorithm = strings.TrimSpace(d.algorithm); !strings.HasPrefix(strings.ToLower(d.algorithm), \"md5\") {\n")],
    "a challenge with an algorithm that has md5 as a prefix or in capital letters",
    "unknown algorithms are accepted and capital MD5-sess is calculated as plain MD5", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	if _, err := NewDigest("rtsp://h/a", `Digest realm="r", nonce="n", algorithm=MD5x`); err == nil {
		t.Fatal("unknown algorithm accepted")
	}
	if _, err := NewDigest("rtsp://h/a", `Digest realm="r", nonce="n", algorithm=MD5`); err != nil {
		t.Fatal(err)
	}
}
""")

bug("credentials-outside-lock", "C36", "net/rtsp",
    [("net/rtsp/session.go", """func (s *Session) enqueue(req *Request) {
	s.Lock()
	defer s.Unlock()
	s.cseq++
	req.Cseq = s.cseq
	req.Session = s.session
	if s.auth != nil {
		req.Auth = s.auth(req.Verb, nil)
	}
	s.queue[req.Cseq] = req
}""", """func (s *Session) enqueue(req *Request) {
	// Credentials take a while to calculate, do not hold the lock.
	if auth := s.auth; auth != nil {
		req.Auth = auth(req.Verb, nil)
	}
	s.Lock()
	s.cseq++
	req.Cseq = s.cseq
	req.Session = s.session
	s.queue[req.Cseq] = req
	s.Unlock()
}""")],
    "two commands issued at the same time after a digest challenge was answered",
    "two commands get the same nonce count", SERVER + """
func TestDemo(t *testing.T) {
	counts := make(chan string, 100000)
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		for _, l := range lines {
			if i := strings.Index(l, ", nc="); i > 0 {
				counts <- l[i+5 : i+13]
			}
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://u:p@"+addr+"/a", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	if err := s.authorize(`Digest realm="r", nonce="n", qop="auth"`); err != nil {
		t.Fatal(err)
	}
	// Reading of random numbers lies between the two uses of the count.
	done := make(chan bool)
	const workers, each = 16, 1500
	for i := 0; i < workers; i++ {
		go func() {
			for j := 0; j < each; j++ {
				s.enqueue(&Request{Verb: VerbPlay})
			}
			done <- true
		}()
	}
	for i := 0; i < workers; i++ {
		<-done
	}
	seen := map[string]bool{}
	for _, r := range s.queue {
		if r.Verb != VerbPlay {
			continue
		}
		i := strings.Index(r.Auth, ", nc=")
		if nc := r.Auth[i+5 : i+13]; seen[nc] {
			t.Fatal("nonce count used twice", nc)
		} else {
			seen[nc] = true
		}
	}
	if len(seen) != workers*each {
		t.Fatal(len(seen))
	}
}
""")

bug("empty-password-guess", "C35", "net/rtsp",
    [("net/rtsp/session.go", """	if s.URL.User == nil {
		return errNoCredentials
	}
	username := s.URL.User.Username()
	password, _ := s.URL.User.Password()
""", """	username, password := "admin", ""
	if s.URL.User != nil {
		username = s.URL.User.Username()
		password, _ = s.URL.User.Password()
	}
""")],
    "a challenge to a session without credentials in its URI",
    "the session makes credentials up", SERVER + """
func TestDemo(t *testing.T) {
	got := make(chan string, 10)
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		for _, l := range lines {
			if strings.HasPrefix(l, "Authorization") {
				got <- l
			}
		}
		fmt.Fprintf(c, "RTSP/1.0 401 Unauthorized\\r\\nCSeq: %s\\r\\nWWW-Authenticate: Basic realm=\\"r\\"\\r\\n\\r\\n", seq)
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/a", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	select {
	case l := <-got:
		t.Fatal("made up", l)
	case <-time.After(time.Second):
	}
}
""")

# ---------------------------------------------------------------- second batch

bug("annexb-delimiter-number", "C11", "net/h264",
    [("net/h264/packet.go", "		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: buf[1:]})\n		s.Don++\n",
      "		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: buf[1:]})\n		if typ != typeAUD {\n			s.Don++ // Delimiters share the number of the unit that follows.\n		}\n")],
    "a byte stream with an access unit delimiter",
    "two units get the same decoding order number", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	s := NewNALSink()
	if err := s.Push([]byte{0, 0, 0, 1, 9, 0xf0, 0, 0, 1, 0x65, 7, 7}, 5); err != nil {
		t.Fatal(err)
	}
	if len(s.Units) != 2 || s.Units[0].Don == s.Units[1].Don {
		t.Fatal(s.Units)
	}
}
""")

bug("don-distance-half", "C12", "net/h264",
    [("net/h264/packet.go", "	if diff >= 32768 {\n", "	if diff > 32768 {\n")],
    "two numbers exactly 32768 apart, the first one smaller",
    "the sign of the distance is wrong", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	if d := DonDiff(5, 32773); d != -32768 {
		t.Fatal(d)
	}
}
""")

bug("rtp-extension-overflow", "C14", "net/rtp",
    [("net/rtp/packet.go", """		if len(buf) < off+int(packet.XL)*4 {
			return nil, errPacketTooShort
		}
		if packet.XL > 0 {
			packet.XD = buf[off : off+int(packet.XL)*4]
			off += int(packet.XL) * 4
		}
""", """		size := packet.XL * 4
		if len(buf) < off+int(size) {
			return nil, errPacketTooShort
		}
		if size > 0 {
			packet.XD = buf[off : off+int(size)]
			off += int(size)
		}
""")],
    "an extension length of at least 16384 words, which wraps around in 16 bits",
    "a packet is accepted with an extension that is not there", """
package rtp

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 30)
	b[0], b[14] = 0x90, 0x40
	if p, err := Unpack(b); err == nil {
		t.Fatal(p)
	}
}
""")

bug("rtp-empty-extension", "C15", "net/rtp",
    [("net/rtp/packet.go", "	if p.X() {\n		sz += 4 * (1 + int(p.XL))\n", "	if p.X() && p.XL > 0 {\n		sz += 4 * (1 + int(p.XL))\n"),
     ("net/rtp/packet.go", "	if p.X() {\n		be.PutUint16(b[off:], p.XH)\n", "	if p.X() && p.XL > 0 {\n		be.PutUint16(b[off:], p.XH)\n")],
    "a packet with an extension that has no data",
    "the extension header is missing although the flag is set, so the payload is taken for it", """
package rtp

import "testing"

func TestDemo(t *testing.T) {
	p := &Packet{VPXCC: 0x90, XH: 0xbede, PL: []byte{1, 2, 3, 4, 5}}
	q, err := Unpack(p.Pack())
	if err != nil || q.XH != 0xbede || len(q.PL) != 5 {
		t.Fatal(q, err)
	}
}
""")

bug("rtcp-length-mask", "C17", "net/rtcp",
    [("net/rtcp/packet.go", "		LN:  be.Uint16(buf[2:]),\n", "		LN:  be.Uint16(buf[2:]) & 0x3FFF, // Datagrams are shorter than 64 kB.\n")],
    "a sender report with a length of at least 16384 words",
    "a truncated report is accepted and its length is not the transmitted one", """
package rtcp

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 28)
	b[0], b[1], b[2], b[3] = 0x80, 200, 0x40, 6
	if p, err := Unpack(b); err == nil {
		t.Fatal(p)
	}
}
""")

bug("sdp-empty-set", "C20", "net/sdp",
    [("net/sdp/packet.go", """											val, _ := base64.StdEncoding.DecodeString(field)
											m.SpropParameterSets = append(m.SpropParameterSets, val)
""", """											val, _ := base64.StdEncoding.DecodeString(field)
											if val[0]&0x1F != 0 { // Not an unspecified unit.
												m.SpropParameterSets = append(m.SpropParameterSets, val)
											}
""")],
    "an empty parameter set, for instance a comma at the end of the list",
    "the parser panics", """
package sdp

import "testing"

func TestDemo(t *testing.T) {
	if f := Parse([]byte("m=video 0 RTP/AVP 96\\r\\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=aM48gA==,\\r\\n")); len(f) != 1 {
		t.Fatal(f)
	}
}
""")

bug("hls-plain-append", "C23", "net/hls",
    [("net/hls/playlist.go", "	u.Path = path.Join(u.Path, base)\n", "	u.Path = path.Join(u.Path)\n"),
     ("net/hls/playlist.go", "		URI:      u.String(),\n", "		URI:      u.String() + \"/\" + base,\n")],
    "a base URI with an empty path or with a query",
    "the name of the media file is not in the path of the media URI", """
package hls

import "testing"

func TestDemo(t *testing.T) {
	p, err := NewPlaylist("http://h/live?token=1", "/tmp/a.ts", 3, 2)
	if err != nil || p.URI != "http://h/live/a.ts?token=1" {
		t.Fatal(p, err)
	}
}
""")

bug("pair-second-ignored", "C26", "net/rtsp",
    [("net/rtsp/transport.go", """		p.Two, err = strconv.Atoi(parts[1])
		if err != nil {
			p.Two = p.One + 1
		}
""", """		if two, err := strconv.Atoi(parts[1]); err == nil {
			p.Two = two
		}
""")],
    "a pair with a malformed second number",
    "a malformed Transport header is accepted", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	var tr Transport
	if err := tr.Parse("RTP/AVP;unicast;client_port=5000-5x"); err == nil {
		t.Fatal(tr)
	}
}
""")

bug("tunnel-leaks-credentials", "C38", "net/rtsp",
    [("net/rtsp/connection.go", "		cmd := ConnectHTTP(\"GET\", c.BaseURI, c.guid)\n", "		cmd := ConnectHTTP(\"GET\", uri, c.guid)\n")],
    "a session over HTTP with credentials in the URI",
    "user name and password are sent in clear text in the request line", SERVER + """
func TestDemo(t *testing.T) {
	first := make(chan string, 1)
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		first <- lines[0]
		fmt.Fprintf(c, "HTTP/1.0 200 OK\\r\\n\\r\\n")
	})
	if _, err := Dial("rtsp://user:secret@"+addr+"/a", ProtoHTTP); err != nil {
		t.Fatal(err)
	}
	if s := <-first; strings.Contains(s, "secret") {
		t.Fatal(s)
	}
}
""")

bug("feeds-share-sets", "C39", "net/rtsp",
    [("net/rtsp/feed.go", "	for i, m := range sdp.Parse(buf) {\n		feeds = append(feeds, &Feed{Media: m, transp: NewTransport(proto, i*2), Sets: h264.NewParameterSets()})\n",
      "	sets := h264.NewParameterSets()\n	for i, m := range sdp.Parse(buf) {\n		feeds = append(feeds, &Feed{Media: m, transp: NewTransport(proto, i*2), Sets: sets})\n")],
    "a description with two feeds whose parameter sets have the same ids",
    "parameter sets of one feed replace those of the other one", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	sdp := "m=video 0 RTP/AVP 96\\r\\na=control:1\\r\\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z0IAKeKQFAe2AtwEBAaQeJEV,aM48gA==\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:2\\r\\n"
	f, err := ParseFeeds(ProtoTCP, []byte(sdp))
	if err != nil || len(f) != 2 {
		t.Fatal(f, err)
	}
	if err := f[0].TransportSetup("RTP/AVP/TCP;interleaved=0-1"); err != nil {
		t.Fatal(err)
	}
	if _, ok := f[0].Sets.GetSPS(0); !ok {
		t.Fatal("not there")
	}
	if _, ok := f[1].Sets.GetSPS(0); ok {
		t.Fatal("set of another feed")
	}
}
""")

bug("fu-type-four-bits", "C40", "net/h264",
    [("net/h264/packet.go", "		s.AddFragment(nri+(buf[1]&0x1F), buf[1], s.Don, ts, buf[2:])\n", "		s.AddFragment(nri+(buf[1]&0x0F), buf[1], s.Don, ts, buf[2:])\n")],
    "a fragmented unit of a type from 16 on, such as a slice extension",
    "the unit comes out with another type", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	s := NewNALSink()
	s.Push([]byte{0x7c, 0x94, 1}, 5)
	s.Push([]byte{0x7c, 0x54, 2}, 5)
	if len(s.Units) != 1 || s.Units[0].Header != 0x74 {
		t.Fatal(s.Units)
	}
}
""")

bug("header-del-verbatim", "C41", "net/rtsp",
    [("net/rtsp/message.go", "	delete(h, textproto.CanonicalMIMEHeaderKey(key))\n", "	delete(h, key)\n")],
    "deleting a header whose name is not in the canonical letter case",
    "the header stays", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	h := make(MessageHeader)
	h.Set("CSeq", "1")
	h.Del("CSeq")
	if h.Get("cseq") != "" || len(h) != 0 {
		t.Fatal(h)
	}
}
""")

bug("pack-body-of-success-only", "C42", "net/rtsp",
    [("net/rtsp/message.go", "	if r.ContentLength > 0 {\n		buf.Write(r.Body)\n", "	if r.ContentLength > 0 && r.StatusCode/100 == 2 {\n		buf.Write(r.Body)\n")],
    "a response with an error status and a body",
    "the body is missing although its length is announced", """
package rtsp

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	r := Response{Proto: "RTSP/1.0", Status: "454 Session Not Found", StatusCode: 454, ContentLength: 3, Header: make(MessageHeader), Body: []byte("abc")}
	r.Header.Set("Content-Length", "3")
	if b := r.Pack(); !bytes.HasSuffix(b, []byte("abc")) {
		t.Fatal(string(b))
	}
}
""")

bug("paused-not-kept-alive", "C43", "net/rtsp",
    [("net/rtsp/session.go", "s.stage > StageInit && s.stage < StageDone {\n", "s.stage > StageInit && s.stage < StagePause {\n")],
    "a paused unicast session that is left alone for a while",
    "the server does not hear from the session and drops it", SERVER + """
func TestDemo(t *testing.T) {
	sdp := "m=video 0 RTP/AVP 96\\r\\na=control:t1\\r\\n"
	alive := make(chan bool, 1000)
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		switch verb {
		case "DESCRIBE":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", seq, len(sdp), sdp)
		case "SETUP":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\nTransport: RTP/AVP;unicast;client_port=38412-38413\\r\\n\\r\\n", seq)
		case "OPTIONS":
			alive <- true
			fallthrough
		default:
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\n\\r\\n", seq)
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/a", ProtoUnicast); err != nil {
		t.Fatal(err)
	}
	for _, f := range []func() error{s.Play, s.Pause} {
		select {
		case <-s.State:
		case <-time.After(5 * time.Second):
			t.Fatal("not ready")
		}
		f()
	}
	if st := <-s.State; st != StagePause {
		t.Fatal(st)
	}
	for len(alive) > 0 {
		<-alive
	}
	time.Sleep(9 * time.Second)
	if len(alive) == 0 {
		t.Fatal("not kept alive")
	}
}
""")

bug("number-short-read", "C44", "net/rtsp",
    [("net/rtsp/connection.go", "	err = binary.Read(c.rdr, be, &data)\n	return\n", "	var b [2]byte\n	_, err = c.rdr.Read(b[:]) // No reflection.\n	return binary.BigEndian.Uint16(b[:]), err\n")],
    "a stream that is cut in the middle of the number",
    "half of the number is read and the stream is out of step", SERVER + """
func TestDemo(t *testing.T) {
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		c.Write([]byte{1})
		time.Sleep(300 * time.Millisecond)
		c.Write([]byte{2})
	})
	c, err := Dial("rtsp://"+addr+"/a", ProtoTCP)
	if err != nil {
		t.Fatal(err)
	}
	fmt.Fprintf(c, "X\\r\\n\\r\\n")
	if v, err := c.ReadUint16(); err != nil || v != 0x102 {
		t.Fatal(v, err)
	}
}
""")

bug("credentials-not-unescaped", "C45", "net/rtsp",
    [("net/rtsp/session.go", "	username := s.URL.User.Username()\n	password, _ := s.URL.User.Password()\n",
      "	userinfo := strings.SplitN(s.URL.User.String()+\":\", \":\", 3)\n	username, password := userinfo[0], userinfo[1]\n")],
    "a user name or a password with an escaped character in the URI, for instance %40",
    "credentials are computed from the escaped text and the server refuses them", SERVER + """
func TestDemo(t *testing.T) {
	auth := make(chan string, 10)
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		for _, l := range lines {
			if strings.HasPrefix(l, "Authorization: ") {
				auth <- l
				return
			}
		}
		fmt.Fprintf(c, "RTSP/1.0 401 Unauthorized\\r\\nCSeq: %s\\r\\nWWW-Authenticate: Basic realm=\\"r\\"\\r\\n\\r\\n", seq)
	})
	s := NewSession()
	if err := s.Open("rtsp://admin:p%40ss@"+addr+"/a", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	select {
	case l := <-auth:
		if l != "Authorization: Basic YWRtaW46cEBzcw==" {
			t.Fatal(l)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no credentials")
	}
}
""")

bug("stop-keeps-sinks", "C46", "net/rtsp",
    [("net/rtsp/connection.go", "	c.sinks = c.sinks[:0]\n", "")],
    "stopping twice, or stopping and starting other listeners on the same connection",
    "listeners that are closed are closed once more, which panics", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	c := &Conn{Data: make(chan RawPacket, 20)}
	if err := c.AddSink(0, 0); err != nil {
		t.Fatal(err)
	}
	c.Start()
	c.Stop()
	c.Stop()
}
""")

bug("redirect-is-playing", "C47", "net/rtsp",
    [("net/rtsp/session.go", "	case VerbPlay:\n		if rsp.StatusCode == RtspOK {\n", "	case VerbPlay:\n		if rsp.StatusCode < 400 {\n")],
    "a server that answers PLAY with a redirection",
    "the session reports that it is playing", SERVER + """
func TestDemo(t *testing.T) {
	sdp := "m=video 0 RTP/AVP 96\\r\\na=control:t1\\r\\n"
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		switch verb {
		case "DESCRIBE":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", seq, len(sdp), sdp)
		case "PLAY":
			fmt.Fprintf(c, "RTSP/1.0 302 Moved\\r\\nCSeq: %s\\r\\nLocation: rtsp://x/\\r\\n\\r\\n", seq)
		default:
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\n\\r\\n", seq)
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/a", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	<-s.State
	if err := s.Play(); err != nil {
		t.Fatal(err)
	}
	select {
	case st := <-s.State:
		t.Fatal(st)
	case <-time.After(time.Second):
	}
}
""")

# A server with two feeds and a run of the whole client program.
CLIENT = SERVER.replace("package rtsp", "package main").replace('	"bufio"\n', '	"bufio"\n	"flag"\n	"io"\n	"os"\n') + """
const sdp = "m=video 0 RTP/AVP 96\\r\\na=control:t1\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:t2\\r\\n"

// client runs the program and returns the requests with their times and what was printed.
func client(t *testing.T, playing func(c net.Conn), late string) (verbs []string, at []time.Time, confirmed map[string]time.Time, out string) {
	confirmed = map[string]time.Time{}
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		verbs, at = append(verbs, verb), append(at, time.Now())
		if verb == late {
			time.Sleep(1500 * time.Millisecond)
		}
		confirmed[verb] = time.Now()
		switch verb {
		case "DESCRIBE":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", seq, len(sdp), sdp)
		default:
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\n\\r\\n", seq)
		}
		if verb == "PLAY" && playing != nil {
			go playing(c)
		}
	})
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	stdout := os.Stdout
	os.Stdout = w
	os.Args = []string{"ouro", "rtsp://" + addr + "/a"}
	flag.CommandLine = flag.NewFlagSet("ouro", flag.ContinueOnError)
	read := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		read <- string(b)
	}()
	done := make(chan bool)
	go func() {
		main()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.Error("the program does not end")
	}
	os.Stdout = stdout
	w.Close()
	return verbs, at, confirmed, <-read
}

func rtpFrame(ch byte, sn byte, payload ...byte) []byte {
	p := append([]byte{0x80, 96, 0, sn, 0, 0, 0, 1, 0, 0, 0, 1}, payload...)
	return append([]byte{'$', ch, 0, byte(len(p))}, p...)
}
"""

bug("client-timer-from-request", "C48", "cmd/ouro",
    [("cmd/ouro/main.go", """				log.Println("Stage: Ready")
""", """				log.Println("Stage: Ready")
				tmr.Reset(time.Second * 5)
"""), ("cmd/ouro/main.go", """				log.Println("Stage: Playing")
				tmr.Reset(time.Second * 5)
""", """				log.Println("Stage: Playing")
""")],
    "a server that confirms PLAY late",
    "the session is paused before it has played for five seconds", CLIENT + """
func TestDemo(t *testing.T) {
	verbs, at, confirmed, _ := client(t, nil, "PLAY")
	for i, v := range verbs {
		if v == "PAUSE" {
			if d := at[i].Sub(confirmed["PLAY"]); d < 4500*time.Millisecond || d > 6500*time.Millisecond {
				t.Fatal(d)
			}
			return
		}
	}
	t.Fatal(verbs)
}
""")

bug("client-idle-timer", "C48", "cmd/ouro",
    [("cmd/ouro/main.go", """            if pkt.Channel % 2 == 0 {
""", """			if state == rtsp.StagePlay {
				tmr.Reset(time.Second * 5)
			}
			if pkt.Channel%2 == 0 {
""")],
    "media that arrives some seconds after playing has started",
    "every packet puts off the pause: a session with continuous media is never paused", CLIENT + """
func TestDemo(t *testing.T) {
	verbs, at, confirmed, _ := client(t, func(c net.Conn) {
		time.Sleep(3 * time.Second)
		c.Write(rtpFrame(0, 1, 0x65, 9, 9))
	}, "")
	for i, v := range verbs {
		if v == "PAUSE" {
			if d := at[i].Sub(confirmed["PLAY"]); d < 4500*time.Millisecond || d > 6500*time.Millisecond {
				t.Fatal(d)
			}
			return
		}
	}
	t.Fatal(verbs)
}
""")

bug("client-first-feed-only", "C49", "cmd/ouro",
    [("cmd/ouro/main.go", "            if pkt.Channel % 2 == 0 {\n", "			if pkt.Channel < 2 && pkt.Channel%2 == 0 || pkt.Payload[1]&0x7f < 72 {\n")],
    "a second feed whose media has a payload type of 72 or more",
    "media of the second feed is read as a control packet and the program ends", CLIENT + """
func TestDemo(t *testing.T) {
	_, _, _, out := client(t, func(c net.Conn) {
		c.Write(rtpFrame(0, 1, 0x65, 9, 9))
		c.Write(rtpFrame(2, 1, 0x65, 9, 9))
	}, "")
	if n := strings.Count(out, "NAL Zero=true, RefIdc=3, Type=5, Size=2"); n != 2 {
		t.Fatal(n)
	}
}
""")

bug("client-stamp-of-first-packet", "C49", "cmd/ouro",
    [("cmd/ouro/main.go", """					for _, nal := range nalsink.Units {
""", """					for i, nal := range nalsink.Units {
						if i > 0 && nal.Type() == nalsink.Units[i-1].Type() {
							continue
						}
""")],
    "a packet that aggregates two units of the same type",
    "the second of them is not reported", CLIENT + """
func TestDemo(t *testing.T) {
	_, _, _, out := client(t, func(c net.Conn) {
		c.Write(rtpFrame(0, 1, 24, 0, 2, 0x41, 9, 0, 3, 0x41, 9, 9))
	}, "")
	if !strings.Contains(out, "Type=1, Size=1") || !strings.Contains(out, "Type=1, Size=2") {
		t.Fatal(out)
	}
}
""")

# A server of one multicast feed which assigns the given ports, and a session that plays it.
MULTICAST = SERVER + """
func freePort(t *testing.T, odd int) int {
	for i := 0; i < 1000; i++ {
		l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			t.Fatal(err)
		}
		p := l.LocalAddr().(*net.UDPAddr).Port
		l.Close()
		if p%2 == odd {
			return p
		}
	}
	t.Fatal("no port")
	return 0
}

func multicast(t *testing.T, one, two int) {
	sdp := "m=video 0 RTP/AVP 96\\r\\na=control:t1\\r\\n"
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		switch verb {
		case "DESCRIBE":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", seq, len(sdp), sdp)
		case "SETUP":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\nTransport: RTP/AVP;multicast;destination=239.1.2.3;port=%d-%d;ttl=16\\r\\n\\r\\n", seq, one, two)
		default:
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\n\\r\\n", seq)
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/a", ProtoMulticast); err != nil {
		t.Fatal(err)
	}
	select {
	case <-s.State:
	case <-time.After(3 * time.Second):
		t.Fatal("not ready")
	}
	for i, port := range []int{one, two} {
		time.Sleep(200 * time.Millisecond)
		c, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
		if err != nil {
			t.Fatal(err)
		}
		c.Write([]byte{1, 2, byte(i)})
		c.Close()
		select {
		case p := <-s.Data:
			if int(p.Channel) != i || len(p.Payload) != 3 || p.Payload[2] != byte(i) {
				t.Fatal(p)
			}
		case <-time.After(2 * time.Second):
			t.Fatal("nothing on port ", i)
		}
	}
	s.Stop()
}
"""

bug("multicast-asked-ports", "C50", "net/rtsp",
    [("net/rtsp/session.go", """				s.feedidx++
				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
					return err
				}
				if !f.transp.IsTCP {
					ch := byte(i) * 2
					port := f.transp.ClientPort
					if f.transp.IsMulticast {
						port = f.transp.Port
					}
""", """				port := f.transp.ClientPort
				if f.transp.IsMulticast {
					port = f.transp.Port
				}
				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
					return err
				}
				s.feedidx++
				if !f.transp.IsTCP {
					ch := byte(i) * 2
""")],
    "a multicast server that assigns other ports than those asked for",
    "the session listens on the ports it asked for and gets nothing", MULTICAST + """
func TestDemo(t *testing.T) {
	p := freePort(t, 0)
	q := freePort(t, 1)
	multicast(t, p, q)
}
""")

bug("listener-parity", "C50", "net/rtsp",
    [("net/rtsp/connection.go", "&net.UDPAddr{IP: c.addr.IP, Port: port, Zone: \"\"}", "&net.UDPAddr{IP: c.addr.IP, Port: port&^1 | int(ch&1), Zone: \"\"}")],
    "a multicast server that assigns an odd port to media",
    "the session listens on the even port below the assigned one", MULTICAST + """
func TestDemo(t *testing.T) {
	p := freePort(t, 1)
	q := freePort(t, 1)
	for q == p {
		q = freePort(t, 1)
	}
	multicast(t, p, q)
}
""")

bug("request-pack-shared-buffer", "C51", "net/rtsp",
    [("net/rtsp/message.go", """func (r *Request) Pack() []byte {
	buf := &bytes.Buffer{}
""", """func (r *Request) Pack() []byte {
	buf := &packed
	buf.Reset()
"""), ("net/rtsp/message.go", """// Pack request into RTSP message.
""", """// Requests are short and alike so the buffer is allocated once.
var packed bytes.Buffer

// Pack request into RTSP message.
""")],
    "a packed request that is still in use when another one is packed, for instance by another session",
    "the first message turns into the second one", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	a := &Request{Verb: "PLAY", Cseq: 1, URI: "rtsp://h/a", Header: make(MessageHeader)}
	b := &Request{Verb: "PAUSE", Cseq: 2, URI: "rtsp://h/b", Header: make(MessageHeader)}
	pa := a.Pack()
	keep := string(pa)
	b.Pack()
	if string(pa) != keep {
		t.Fatalf("%q became %q", keep, pa)
	}
}
""")

bug("rtp-shared-sources", "C51", "net/rtp",
    [("net/rtp/packet.go", "	packet.CSRC = make([]uint32, packet.CC())\n", "	packet.CSRC = sources[:packet.CC()]\n"),
     ("net/rtp/packet.go", "// Unpack ", "// There are at most 15 contributing sources.\nvar sources [15]uint32\n\n// Unpack ")],
    "two packets with contributing sources that are in use at the same time",
    "contributing sources of a packet become those of the next one", """
package rtp

import "testing"

func TestDemo(t *testing.T) {
	a, err := Unpack([]byte{0x81, 96, 0, 1, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 77, 5})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := Unpack([]byte{0x81, 96, 0, 2, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 78, 5}); err != nil {
		t.Fatal(err)
	}
	if a.CSRC[0] != 77 {
		t.Fatal(a.CSRC)
	}
}
""")

bug("digest-hash-by-realm", "C52", "net/rtsp",
    [("net/rtsp/digest.go", """	d.ha1 = md5hex(colonnade(username, d.realm, password))
""", """	if d.ha1 = hashes[d.uri[strings.LastIndexByte(d.uri, '/')+1:]+d.realm]; d.ha1 == "" {
		// The hash stays the same until credentials change.
		d.ha1 = md5hex(colonnade(username, d.realm, password))
		hashes[d.uri[strings.LastIndexByte(d.uri, '/')+1:]+d.realm] = d.ha1
	}
"""), ("net/rtsp/digest.go", "// Authenticate creates", "var hashes = map[string]string{}\n\n// Authenticate creates")],
    "two cameras with the same realm and stream name but different credentials in one program",
    "credentials for the second camera are calculated with the password of the first one", """
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	var got [2]string
	for i, pass := range []string{"one", "two"} {
		d, err := NewDigest([]string{"rtsp://a/s", "rtsp://b/s"}[i], `Digest realm="r", nonce="n"`)
		if err != nil {
			t.Fatal(err)
		}
		d.uri = "rtsp://same/s"
		v := d.Authenticate("u", pass)("PLAY", nil)
		got[i] = v[strings.Index(v, "response="):]
	}
	if got[0] == got[1] {
		t.Fatal("the password makes no difference")
	}
}
""")

bug("network-errors-retried", "C46", "net/rtsp",
    [("net/rtsp/connection.go", """	if nerr, ok := err.(net.Error); ok {
		return nerr.Timeout() || nerr.Temporary()
	}
	return false
""", """	// Errors of the network pass, unlike those of the protocol.
	_, ok := err.(net.Error)
	return ok
""")],
    "a session whose listeners are stopped while they wait for datagrams",
    "listeners on closed ports go on in a busy loop that never ends", """
package rtsp

import (
	"net"
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	port := l.LocalAddr().(*net.UDPAddr).Port
	l.Close()
	before := runtime.NumGoroutine()
	c := &Conn{Data: make(chan RawPacket, 20)}
	if err := c.AddSink(0, port); err != nil {
		t.Fatal(err)
	}
	c.Start()
	time.Sleep(50 * time.Millisecond)
	c.Stop()
	time.Sleep(200 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before {
		t.Fatal("still listening", n, before)
	}
}
""")

bug("cut-body-accepted", "C53", "net/rtsp",
    [("net/rtsp/message.go", "	if r.ContentLength > 0 {\n		b, err := rdr", "	if r.ContentLength = rdr.complete(size, r.ContentLength); r.ContentLength > 0 {\n		b, err := rdr"),
     ("net/rtsp/connection.go", "// PeekLine returns", """// complete returns the length of the body that starts at the given offset, which may end with the connection.
func (c *Conn) complete(off int, length int64) int64 {
	b, err := c.Peek(off + int(length))
	if err == io.EOF && len(b) > off {
		return int64(len(b) - off)
	}
	return length
}

// PeekLine returns"""), ("net/rtsp/connection.go", '	"fmt"\n', '	"fmt"\n	"io"\n')],
    "a camera that closes the connection in the middle of the description",
    "a description that was cut off is taken for a complete one and its feeds are set up", """
package rtsp

import (
	"io"
	"log"
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		c.Write([]byte("RTSP/1.0 200 OK\\r\\nCSeq: 1\\r\\nContent-Length: 20\\r\\n\\r\\nv=0\\r\\nm=vid"))
		c.Close()
	}()
	c, err := Dial("rtsp://"+ln.Addr().String()+"/s", ProtoTCP)
	if err != nil {
		t.Fatal(err)
	}
	if r, err := Unpack(c); err == nil {
		t.Fatalf("%q", r.Body)
	}
}
""")

bug("digest-shared-hash", "C54", "net/rtsp",
    [("net/rtsp/digest.go", "	hf := md5.New()\n", "	hf.Reset()\n"),
     ("net/rtsp/digest.go", "func md5hex(", "// Hash function is reused to spare allocations.\nvar hf = md5.New()\n\nfunc md5hex(")],
    "sessions with two cameras that calculate credentials at the same time",
    "digests of two sessions are mixed up and credentials are refused at random", """
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	want := []string{md5hex([]byte("one")), md5hex([]byte("two and some more"))}
	done := make(chan bool, 8)
	for k := 0; k < 8; k++ {
		go func(in, want string) {
			defer func() {
				if recover() != nil {
					done <- false
				}
			}()
			for i := 0; i < 100000; i++ {
				if md5hex([]byte(in)) != want {
					done <- false
					return
				}
			}
			done <- true
		}([]string{"one", "two and some more"}[k%2], want[k%2])
	}
	for k := 0; k < 8; k++ {
		if !<-done {
			t.Fatal("hash of something else")
		}
	}
}
""")

bug("sdp-shared-section", "C54", "net/sdp",
    [("net/sdp/packet.go", "	var m *Media\n	content := string(buf)\n", "	m = nil\n	content := string(buf)\n"),
     ("net/sdp/packet.go", "// Parse parses", "// m is the section that attributes belong to.\nvar m *Media\n\n// Parse parses")],
    "descriptions of two cameras that are parsed at the same time",
    "attributes of a section end up in the description of another camera", """
package sdp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	done := make(chan bool, 8)
	for k := 0; k < 8; k++ {
		go func(name string) {
			defer func() {
				if recover() != nil {
					done <- false
				}
			}()
			text := []byte(strings.Replace("v=0\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:NAME\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:NAME\\r\\n", "NAME", name, -1))
			for i := 0; i < 20000; i++ {
				for _, m := range Parse(text) {
					if m.Control != name {
						done <- false
						return
					}
				}
			}
			done <- true
		}([]string{"one", "two"}[k%2])
	}
	for k := 0; k < 8; k++ {
		if !<-done {
			t.Fatal("attributes of something else")
		}
	}
}
""")

bug("fu-series-limit", "C09", "net/h264",
    [("net/h264/packet.go", "	s.Fragments = append(s.Fragments, NALFragment{\n", "	if len(s.Fragments) == maxFragments {\n		s.Fragments = s.Fragments[1:]\n	}\n	s.Fragments = append(s.Fragments[:len(s.Fragments):len(s.Fragments)], NALFragment{\n"),
     ("net/h264/packet.go", "// AddFragment pushes", "// maxFragments limits memory that is kept for a unit.\nconst maxFragments = 100\n\n// AddFragment pushes")],
    "a unit, such as a large key frame, in more than a hundred fragments",
    "the beginning of the unit is dropped and the rest is delivered as if it was whole", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	s := NewNALSink()
	for i := 0; i < 120; i++ {
		f := byte(5)
		if i == 0 {
			f |= 0x80
		} else if i == 119 {
			f |= 0x40
		}
		if err := s.Push([]byte{0x7c, f, byte(i + 4)}, 9); err != nil {
			t.Fatal(err)
		}
	}
	if len(s.Units) != 1 || len(s.Units[0].Data) != 120 {
		t.Fatal(s.Units)
	}
}
""")

bug("sei-size-sixteen-bits", "C02", "net/h264",
    [("net/h264/bits.go", """		val += v
		if v != 0xff {
			return
""", """		size += uint16(v)
		if v != 0xff {
			return uint32(size), nil
"""), ("net/h264/bits.go", "	var v uint32\n	for {\n		if v, err = r.ReadBits(8); err != nil {\n", "	var v uint32\n	var size uint16\n	for {\n		if v, err = r.ReadBits(8); err != nil {\n")],
    "a message of more than 65535 bytes",
    "the size of the message wraps around", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 301)
	for i := 0; i < 300; i++ {
		b[i] = 0xff
	}
	b[300] = 7
	if v, err := NewBitReader(b).ReadPayloadParam(); err != nil || v != 300*255+7 {
		t.Fatal(v, err)
	}
}
""")

bug("datagrams-dropped-when-full", "C37", "net/rtsp",
    [("net/rtsp/connection.go", """					select {
					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:
""", """					// Listening must not be held up by a consumer.
					packet := RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}
					select {
					default:
					case c.Data <- packet:
""")],
    "a burst of more datagrams than fit the channel before the consumer takes the first one",
    "datagrams that were received are lost", """
package rtsp

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	p, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	port := p.LocalAddr().(*net.UDPAddr).Port
	p.Close()
	c := &Conn{Data: make(chan RawPacket, 20), Timeout: 2 * time.Second}
	if err := c.AddSink(3, port); err != nil {
		t.Fatal(err)
	}
	c.Start()
	defer c.Stop()
	d, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err != nil {
		t.Fatal(err)
	}
	defer d.Close()
	for i := 0; i < 40; i++ {
		d.Write([]byte{byte(i)})
		time.Sleep(time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 40; i++ {
		select {
		case p := <-c.Data:
			if p.Payload[0] != byte(i) {
				t.Fatal(i, p)
			}
		case <-time.After(time.Second):
			t.Fatal("lost ", i)
		}
	}
}
""")

bug("pps-planes-of-sps", "C06", "net/h264",
    [("net/h264/spspps.go", "		chromaFormatIdc = sps.ChromaFormatIdc\n", "		chromaFormatIdc = sps.ChromaArrayType()\n"),
     ("net/h264/spspps.go", "// ParsePPS ", "// ChromaArrayType is the chroma format unless color planes are coded separately.\nfunc (sps *SPSInfo) ChromaArrayType() uint32 {\n	if sps.SeparateColorPlane {\n		return 0\n	}\n	return sps.ChromaFormatIdc\n}\n\n// ParsePPS ")],
    "scaling lists in a picture parameter set whose sequence parameter set has chroma format 3 with separate color planes",
    "fewer scaling lists are read than are there and the fields after them are wrong", """
package h264

import "testing"

type bits struct {
	b []byte
	n uint
}

func (w *bits) u(v uint, n int) {
	for n--; n >= 0; n-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(n)&1) << (7 - w.n%8)
		w.n++
	}
}

func TestDemo(t *testing.T) {
	sps := &bits{}
	sps.u(100, 8)
	sps.u(0, 8)
	sps.u(31, 8)
	sps.u(1, 1)     // id 0
	sps.u(4, 5)     // chroma 3
	sps.u(1, 1)     // separate planes
	sps.u(3, 2)     // depths
	sps.u(0, 2)     // no bypass, no matrix
	sps.u(15, 4)    // numbers
	sps.u(0, 1)     // gaps
	sps.u(3, 2)     // size
	sps.u(0xc, 4)   // frames only, direct, no crop, no vui
	sps.u(1, 1)
	s := NewParameterSets()
	if err := s.ParseSPS(sps.b); err != nil {
		t.Fatal(err)
	}
	pps := &bits{}
	pps.u(3, 2)  // ids 0
	pps.u(0, 2)  // entropy, bottom
	pps.u(7, 3)  // groups, references
	pps.u(0, 3)  // weights
	pps.u(7, 3)  // qp, qs, offset
	pps.u(0, 3)  // flags
	pps.u(1, 1)  // 8x8
	pps.u(1, 1)  // matrix
	pps.u(0, 12) // lists
	pps.u(3, 3)  // second offset: 011 is -1
	pps.u(1, 1)
	if err := s.ParsePPS(pps.b); err != nil {
		t.Fatal(err)
	}
	for _, p := range s.ppset {
		if p.SecondChromaQpIndexOffset != -1 {
			t.Fatalf("%+v", p)
		}
	}
}
""")

bug("long-session-dropped", "C27", "net/rtsp",
    [("net/rtsp/message.go", '	if r.Session != "" && r.Verb != VerbOptions && r.Verb != VerbSetup {\n', '	if n := len(r.Session); n > 0 && n < 128 && r.Verb != VerbOptions && r.Verb != VerbSetup {\n')],
    "a server with session identifiers of 128 characters or more",
    "commands in the session are sent without its identifier", """
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	id := strings.Repeat("0123456789abcdef", 10)
	r := &Request{Verb: VerbPlay, Cseq: 3, URI: "rtsp://h/a", Session: id, Header: make(MessageHeader)}
	if s := string(r.Pack()); !strings.Contains(s, "Session: "+id+"\\r\\n") {
		t.Fatal(s)
	}
}
""")

bug("client-header-only-units", "C49", "cmd/ouro",
    [("cmd/ouro/main.go", "					for _, nal := range nalsink.Units {\n", "					for _, nal := range nalsink.Units {\n						if len(nal.Data) == 0 {\n							continue // There is nothing to report.\n						}\n"),
     ("cmd/ouro/main.go", "				if buf != nil {\n", "				if len(buf) > 0 {\n")],
    "a unit without payload, such as the end of a sequence",
    "the unit is not reported", CLIENT + """
func TestDemo(t *testing.T) {
	_, _, _, out := client(t, func(c net.Conn) {
		c.Write(rtpFrame(0, 1, 0x0a))
	}, "")
	if !strings.Contains(out, "Type=10, Size=0") {
		t.Fatal(out)
	}
}
""")

bug("nonce-count-of-a-byte", "C31", "net/rtsp",
    [("net/rtsp/digest.go", '	d.nc = fmt.Sprintf("%08x", d.count)\n', '	d.nc = fmt.Sprintf("%08x", []byte{0, 0, 0, byte(d.count)})\n')],
    "a session that is kept alive for more than 255 commands with the same nonce",
    "nonce count starts again and the server refuses it as replayed", """
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := NewDigest("rtsp://h/a", `Digest realm="r", nonce="n", qop="auth"`)
	if err != nil {
		t.Fatal(err)
	}
	auth := d.Authenticate("u", "p")
	for i := 1; i <= 256; i++ {
		if v := auth(VerbOptions, nil); i == 256 && !strings.Contains(v, "00000100") {
			t.Fatal(v)
		}
	}
}
""")

bug("session-of-last-response", "C34", "net/rtsp",
    [("net/rtsp/session.go", '	if sess := rsp.Header.Get(HeaderSession); sess != "" {\n', '	if sess := rsp.Header.Get(HeaderSession); sess != "" || req.Verb == VerbPlay && rsp.StatusCode == RtspOK {\n')],
    "a server that does not repeat the session identifier in its response to PLAY",
    "commands after PLAY are sent without the session identifier", SERVER + """
func TestDemo(t *testing.T) {
	sdp := "m=video 0 RTP/AVP 96\\r\\na=control:t1\\r\\n"
	got := make(chan string, 1)
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		switch verb {
		case "DESCRIBE":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", seq, len(sdp), sdp)
		case "SETUP":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\nTransport: RTP/AVP/TCP;interleaved=0-1\\r\\n\\r\\n", seq)
		case "PAUSE":
			got <- strings.Join(lines, "\\n")
			fallthrough
		default:
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\n\\r\\n", seq)
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/a", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	for _, f := range []func() error{s.Play, s.Pause} {
		select {
		case <-s.State:
		case <-time.After(3 * time.Second):
			t.Fatal("nothing is reported")
		}
		f()
	}
	select {
	case r := <-got:
		if !strings.Contains(r, "Session: 7") {
			t.Fatal(r)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no request")
	}
}
""")

bug("address-without-brackets", "C45", "net/rtsp",
    [("net/rtsp/connection.go", '	if _, _, err = net.SplitHostPort(url1.Host); err != nil {\n		url1.Host = url1.Host + ":554"\n', '	if url1.Port() == "" {\n		url1.Host = net.JoinHostPort(url1.Host, "554")\n')],
    "an IPv6 address without a port",
    "the connection fails as the address gets a second pair of brackets", """
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	c, err := Dial("rtsp://[::1]/a", ProtoTCP)
	if err != nil {
		if s := err.Error(); strings.Contains(s, "too many colons") || strings.Contains(s, "[[") || strings.Contains(s, "unexpected") || strings.Contains(s, "missing") {
			t.Fatal(err)
		}
		return // nobody listens there
	}
	c.conn.Close()
}
""")

bug("wide-picture-wraps", "C05", "net/h264",
    [("net/h264/spspps.go", "	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16 // / subWidthC\n", "	sps.Width = uint32(uint16(sps.PicWidthInMbsMinus1)<<4) + 16 // / subWidthC\n")],
    "a picture of more than 4096 macroblocks in width",
    "the width of the picture wraps around", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	var w []byte
	n := 0
	put := func(v uint, k int) {
		for k--; k >= 0; k-- {
			if n%8 == 0 {
				w = append(w, 0)
			}
			w[n/8] |= byte(v>>uint(k)&1) << uint(7-n%8)
			n++
		}
	}
	ue := func(v uint) {
		k := 0
		for (v+1)>>uint(k+1) != 0 {
			k++
		}
		put(v+1, 2*k+1)
	}
	put(66, 8)
	put(0, 8)
	put(31, 8)
	for _, v := range []uint{0, 0, 2, 1} { // id, frame number, order count, references
		ue(v)
	}
	put(0, 1)
	ue(4999)
	ue(1)
	put(0xc, 4) // frame only, direct, no crop, no vui
	put(1, 1)
	s := NewParameterSets()
	if err := s.ParseSPS(w); err != nil {
		t.Fatal(err)
	}
	if p, ok := s.GetSPS(0); !ok || p.Width != 80000 || p.Height != 32 {
		t.Fatal(p.Width, p.Height)
	}
}
""")

bug("map-of-large-picture", "C06", "net/h264",
    [("net/h264/spspps.go", "			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {\n", "			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1&0xfff; i++ {\n")],
    "an explicit slice group map of a picture of more than 4096 macroblocks",
    "the rest of the map is taken for other fields", """
package h264

import "testing"

func TestDemo(t *testing.T) {
	var w []byte
	n := 0
	put := func(v uint, k int) {
		for k--; k >= 0; k-- {
			if n%8 == 0 {
				w = append(w, 0)
			}
			w[n/8] |= byte(v>>uint(k)&1) << uint(7-n%8)
			n++
		}
	}
	ue := func(v uint) {
		k := 0
		for (v+1)>>uint(k+1) != 0 {
			k++
		}
		put(v+1, 2*k+1)
	}
	ue(0)
	ue(0)
	put(0, 2)
	ue(1)
	ue(6)
	ue(8159)
	for i := uint(0); i < 8160; i++ {
		put(i&1, 1)
	}
	ue(2)
	ue(3)
	put(0, 3)
	ue(0)
	ue(0)
	ue(0)
	put(0, 3)
	put(1, 1)
	s := NewParameterSets()
	if err := s.ParsePPS(w); err != nil {
		t.Fatal(err)
	}
	p, ok := s.GetPPS(0)
	if !ok || p.NumRefIdxL0DefaultActiveMinus1 != 2 || p.NumRefIdxL1DefaultActiveMinus1 != 3 || len(p.SliceGroupID) != 8160 || p.SliceGroupID[8159] != 1 {
		t.Fatal(ok)
	}
}
""")

bug("uri-put-together-again", "C45", "net/rtsp",
    [("net/rtsp/connection.go", "		BaseURI:   url2.String(),\n", "		BaseURI:   (&url.URL{Scheme: url2.Scheme, Host: url2.Host, Path: url2.Path, RawQuery: url2.RawQuery}).String(),\n")],
    "a path with an escaped slash",
    "requests are for another resource, whose path has one more level", """
package rtsp

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	uri := "rtsp://" + ln.Addr().String() + "/cam%2F1/a"
	c, err := Dial(uri, ProtoTCP)
	if err != nil {
		t.Fatal(err)
	}
	c.conn.Close()
	if c.BaseURI != uri {
		t.Fatal(c.BaseURI)
	}
}
""")

bug("busy-feed-is-awaited", "C34", "net/rtsp",
    [("net/rtsp/session.go", "	} else if rsp.StatusCode != RtspUnauthorized {\n", "	} else if rsp.StatusCode != RtspUnauthorized && rsp.StatusCode != 503 {\n		// A server that is busy answers again.\n")],
    "a server that refuses a feed as it is busy",
    "the session is never ready", SERVER + """
func TestDemo(t *testing.T) {
	sdp := "m=video 0 RTP/AVP 96\\r\\na=control:t1\\r\\nm=video 0 RTP/AVP 96\\r\\na=control:t2\\r\\n"
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		switch verb {
		case "DESCRIBE":
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", seq, len(sdp), sdp)
		case "SETUP":
			if strings.Contains(lines[0], "t2") {
				fmt.Fprintf(c, "RTSP/1.0 503 Service Unavailable\\r\\nCSeq: %s\\r\\n\\r\\n", seq)
				return
			}
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 7\\r\\nTransport: RTP/AVP/TCP;interleaved=0-1\\r\\n\\r\\n", seq)
		default:
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\n\\r\\n", seq)
		}
	})
	s := NewSession()
	if err := s.Open("rtsp://"+addr+"/s", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	select {
	case st := <-s.State:
		if st != StageReady {
			t.Fatal(st)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the session is not ready")
	}
}
""")

bug("octal-sequence-number", "C28", "net/rtsp",
    [("net/rtsp/message.go", "	r.Cseq, _ = strconv.Atoi(r.Header.Get(HeaderCSeq))\n", "	seq, _ := strconv.ParseInt(r.Header.Get(HeaderCSeq), 0, 32)\n	r.Cseq = int(seq)\n")],
    "a server that writes sequence numbers with leading zeroes",
    "the number is read as octal and the response matches another command or none", """
package rtsp

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		c, err := ln.Accept()
		if err == nil {
			c.Write([]byte("RTSP/1.0 200 OK\\r\\nCSeq: 0012\\r\\n\\r\\n"))
		}
	}()
	c, err := Dial("rtsp://"+ln.Addr().String()+"/s", ProtoTCP)
	if err != nil {
		t.Fatal(err)
	}
	r, err := Unpack(c)
	if err != nil || r.Cseq != 12 {
		t.Fatal(r, err)
	}
}
""")

bug("digest-without-query", "C34", "net/rtsp",
    [("net/rtsp/session.go", "	digest, err := NewDigest(s.BaseURI, challenge)\n", "	digest, err := NewDigest(strings.SplitN(s.BaseURI, \"?\", 2)[0], challenge)\n")],
    "a URI with a query and a server that asks for digest credentials",
    "credentials are for a URI other than the requested one and are refused", SERVER + """
func TestDemo(t *testing.T) {
	got := make(chan string, 9)
	addr := serve(t, func(c net.Conn, verb, seq string, lines []string) {
		for _, l := range lines {
			if strings.HasPrefix(l, "Authorization:") {
				got <- l
				return
			}
		}
		fmt.Fprintf(c, "RTSP/1.0 401 Unauthorized\\r\\nCSeq: %s\\r\\nWWW-Authenticate: Digest realm=\\"r\\", nonce=\\"n\\"\\r\\n\\r\\n", seq)
	})
	s := NewSession()
	if err := s.Open("rtsp://u:p@"+addr+"/s?channel=1", ProtoTCP); err != nil {
		t.Fatal(err)
	}
	select {
	case l := <-got:
		if !strings.Contains(l, "/s?channel=1\\"") {
			t.Fatal(l)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no credentials")
	}
}
""")
