"""The properties, their harness runs and bounds. gen.py turns this into properties.jsonl, MANIFEST.json and checks.json."""

PROPS = []

def run(fn, params=None, covers=None, sweep=None, sweepT=None, **kw):
    d = {"fn": fn}
    if params: d["params"] = params
    if covers: d["covers"] = covers
    if sweep: d["sweep"] = sweep
    if sweepT: d["sweepT"] = sweepT
    d.update(kw)
    return d

def prop(id, pkg, title, statement, over, quant, why, files, mech, runs, bounds, outside, assumptions=(), state=(), observe=()):
    for r in runs:
        r.setdefault("pkg", pkg)
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      runs=runs, bounds=bounds, outside=outside, assumptions=list(assumptions), state=list(state), observe=list(observe)))

H = "net/h264/"
R = "net/rtsp/"

# ---------------------------------------------------------------- H.264

prop("C01", "h264", "Bit reader returns exactly the next n bits or an error",
 "Any sequence of bit reads and skips over any buffer returns exactly the next bits, most significant first, and advances by exactly that many, with the reported number of unread bits always right and the buffer never modified. A read or skip of more bits than remain (or more than 32) fails and never panics. The end-of-data indication is true exactly while there are bits before the final stop bit.",
 ["inputs", "histories"], "every buffer content, every sequence of read/skip operations of 0..34 bits at every bit offset",
 "The tests read a handful of fixed constants; a read that spans five bytes, a zero-bit read or a read at the last bit is never sampled.",
 [H+"bits.go"], [("bit cursor", H+"bits.go BitReader"), ("end of data", H+"bits.go MoreData")],
 [run("VerifBitsRead", covers=["read to the end"], thorough={"ops": 3, "size": 5}, budget=100),
  run("VerifMoreData", covers=["no stop bit", "inside data"]),
  run("VerifBitsFar", covers=["far"])],
 "buffers of 0..6 arbitrary bytes, two operations of 0..34 bits each (thorough: 5 bytes, three operations); two operations 8 bytes before the end of buffers of 256..65537 bytes",
 "longer operation sequences than the bound (the reader state is only its position, which the two operations put at every offset)")

prop("C02", "h264", "Exp-Golomb, scaling list and SEI size codes decode per specification",
 "Every complete unsigned or signed Exp-Golomb code of up to 32 bits decodes to the specified value, and every scaling list, trailing-bits pattern and SEI size value decodes as the H.264 specification says, with the reader left right after it. A code that is cut off or too wide for 32 bits is an error, never a value, and reading and skipping a code advance identically.",
 ["inputs"], "all code widths 0..33, all values of each width, all bit offsets, all continuations",
 "The tests decode a few small codes; the widest codes, sign boundaries and truncation points are out of their reach.",
 [H+"bits.go"], [("Exp-Golomb", H+"bits.go ReadUnsignedGolomb"), ("scaling list", H+"bits.go ReadScalingList"), ("trailing bits", H+"bits.go SkipTrailingBits")],
 [run("VerifGolomb", covers=["oversized code", "widest code"]),
  run("VerifGolombShort", covers=["complete", "cut off"], thorough={"bytes": 6}),
  run("VerifScalingList", covers=["default"], thorough={"size": 6}, budget=100),
  run("VerifScalingShort", params={"bytes": 2}, covers=["complete list", "cut off list"], budget=100, thorough={"bytes": 3, "size": 4}),
  run("VerifTrailing", covers=["trailing ok"], thorough={"bytes": 5}),
  run("VerifPayloadParamLong", covers=["long parameter"], steps=20000000)],
 "Golomb codes of 0..33 leading zeroes at 8 bit offsets with all values; truncation in buffers of 0..4 arbitrary bytes (thorough 6); scaling lists of 4 entries (thorough 6) with one delta of any width and deltas -128..127, and lists of up to 3 entries read from 0..2 arbitrary bytes (thorough 4 entries, 3 bytes), whole or cut off anywhere; trailing bits and SEI sizes in 0..3 arbitrary bytes (thorough 5); SEI sizes of 3..70000 bytes 0xff at any bit offset",
 "scaling list deltas outside the range the specification allows; SEI sizes above 2^32")

prop("C03", "h264", "Emulation prevention round-trips and leaves no start code",
 "Inserting emulation prevention bytes into any payload yields bytes without any start code pattern, and removing them restores the payload exactly. For payloads not ending in zero exactly the bytes the specification requires are inserted; removal from arbitrary bytes drops exactly the 03 bytes that follow two zero bytes. Neither operation modifies its input.",
 ["inputs"], "every byte string within the length bound",
 "Three fixed byte strings are tested; runs of zeroes, payloads ending in zeroes and adjacent insertions are not.",
 [H+"annexb.go"], [("insertion", H+"annexb.go RBSPToEncapsulated"), ("removal", H+"annexb.go EBSPToRaw")],
 [run("VerifEmulation", covers=["proper payload", "two insertions"], params={"n": 7}, thorough={"n": 9}, budget=100),
  run("VerifDecap", covers=["two removals"], thorough={"n": 9}),
  run("VerifEmulationLong", covers=["long"], steps=60000000, thorough={"size": 70000}, budgetT=400)],
 "all payloads of 0..7 arbitrary bytes (thorough 9); payloads of 31..9000 bytes (thorough 70000; zeroes, ones or a mix) with 3 arbitrary bytes at the start, middle or end, or on either side of a power of two",
 "longer payloads with patterns farther apart than the windows")

prop("C04", "h264", "Annex B byte streams split into exactly their NAL units",
 "Splitting a byte stream returns exactly the pieces between start codes, in order, without leading or trailing zero padding and without emulation prevention bytes; no unit is lost, repeated, empty or glued to another one. The stream passed in is not modified.",
 ["inputs"], "every byte string within the bound, and every stream of up to three units with any start code forms",
 "Two fixed streams are tested; start codes at the ends, adjacent start codes and padding are not.",
 [H+"annexb.go"], [("splitter", H+"annexb.go SplitAnnexB")],
 [run("VerifSplitAny", covers=["two units"], thorough={"n": 9}, budget=100),
  run("VerifSplitUnits", covers=["three units"], budget=100, thorough={"len": 5, "total": 11}),
  run("VerifSplitMany", params={"units": 300}, covers=["many units"], steps=20000000, samples=12, budget=100, thorough={"long": 66000})],
 "all streams of 1..7 arbitrary bytes (thorough 9); streams of 1..3 units of 1..4 bytes with 2..4 zeroes in start codes; streams of 4, 9 and 300 units, one of 3, 256 or 5001 bytes (thorough 66001) with three arbitrary ones at its start, middle or end, and up to 70 zeroes in start codes",
 "arbitrary bytes in several places of long streams")

prop("C05", "h264", "Sequence parameter sets decode field by field with right picture size",
 "Every sequence parameter set encoded per the H.264 specification is accepted and each of its fields (profile, chroma, bit depths, scaling lists, picture order count, references, sizes, frame/field coding, cropping, VUI flag) is reported with its value under its id. The picture width and height follow from the coded size, field coding, chroma format and cropping.",
 ["inputs"], "all field values within stated widths, all syntax branches, all fourteen profiles",
 "Two captured parameter sets are tested; interlaced, cropped, 4:2:2, 4:4:4, POC type 1/2 and scaling-matrix streams are not.",
 [H+"spspps.go"], [("decoder", H+"spspps.go ParseSPS"), ("store", H+"spspps.go GetSPS")],
 [run("VerifSPS", covers=["cropped fields", "poc 2"], budget=150,
      sweep=[{"mode": 0}, {"mode": 2}, {"mode": 3}, {"mode": 1}],
      sweepT=[{"mode": 0, "k": 12}, {"mode": 2, "k": 24}, {"mode": 3, "pattern": 0}, {"mode": 3, "pattern": 2}, {"mode": 1}, {"mode": 1, "pattern": 2}]),
  run("VerifSPS", params={"mode": 2, "sprop": 1, "k": 4}, covers=["poc 2"], budget=100),
  run("VerifSPS", params={"mode": 0, "vui": 1, "k": 2}, covers=["VUI", "cropped fields"], budget=100),
  run("VerifSPS", params={"mode": 0, "big": 6}, covers=["cropped fields"], budget=100, thorough={"big": 8}, budgetT=400)],
 "one variable-length field at a time takes every width up to 6 suffix bits (thorough 12..24) with all values of that width, the others follow a width pattern with all values; picture sizes up to 2^13 macroblocks in both directions at the same time, with cropping; picture order count cycles of 0..3 and 255; VUI with aspect ratio and timing; one or two scaling lists transmitted with arbitrary first and third deltas",
 "VUI contents (not decoded); combinations of two wide fields at once")

prop("C06", "h264", "Picture parameter sets decode field by field",
 "Every picture parameter set encoded per the H.264 specification is accepted and each of its fields (ids, slice groups of all seven map types, reference counts, weighting, quantiser and chroma offsets, control flags, transform flag, scaling lists) is reported with its value under its id, whether or not the optional transform extension is present and whatever padding follows.",
 ["inputs"], "all field values within stated widths, all slice group map types and counts, all syntax branches",
 "One captured parameter set is tested; slice groups and the extension are not.",
 [H+"spspps.go"], [("decoder", H+"spspps.go ParsePPS"), ("extension detection", H+"bits.go MoreData")],
 [run("VerifPPS", covers=["extended", "short"], budget=150, sweep=[{"mode": 0}, {"mode": 1, "maps": 9}, {"mode": 2}],
      sweepT=[{"mode": 0, "k": 16}, {"mode": 1, "k": 10, "maps": 9}, {"mode": 2}, {"mode": 2, "pattern": 2}]),
  run("VerifPPS", params={"mode": 0, "sprop": 1, "k": 3}, budget=100)],
 "one variable-length field at a time takes every width up to 6 suffix bits with all values; 1..8 slice groups; explicit maps of 1..5, 99, 300, 1620 and 8160 units; three sequence parameter sets of different chroma formats stored; one or two scaling lists",
 "other sizes of explicit slice group maps; combinations of two wide fields at once")

prop("C07", "h264", "Untrusted parameter sets never crash the decoder or damage stored sets",
 "For arbitrary bytes given as a sequence or picture parameter set the decoder returns, without a panic and without allocating more than in proportion to its input. A rejected set leaves every stored set as it was, an accepted one changes only sets of its own kind, and the input is not modified.",
 ["inputs"], "every byte string within the bound after empty and deep valid prefixes",
 "No test feeds malformed parameter sets.",
 [H+"spspps.go", H+"bits.go"], [("bounds checks", H+"bits.go"), ("slice group limit", H+"spspps.go ParsePPS")],
 [run("VerifParamsAny", covers=["accepted", "rejected"], alloc=1048576, budget=150,
      sweep=[{"kind": 0, "n": 5}, {"kind": 1, "n": 3}, {"kind": 2, "n": 3}, {"kind": 3, "n": 2}, {"kind": 4, "n": 2}],
      sweepT=[{"kind": 0, "n": 6}, {"kind": 1, "n": 4}, {"kind": 2, "n": 4}, {"kind": 3, "n": 3}, {"kind": 4, "n": 3}])],
 "1..5 arbitrary bytes (thorough 6) as a sequence and 1..3 (thorough 4) as a picture parameter set or an SDP parameter set; 1..2 (thorough 3) after ten valid prefixes that lead deep into the syntax",
 "longer arbitrary tails")

prop("C08", "h264", "Single and aggregated RTP payloads yield exactly their NAL units",
 "A single NAL unit payload yields one unit, and every well-formed STAP-A, STAP-B, MTAP16 or MTAP24 payload yields all of its units in order, each with its own header, payload without emulation prevention, decoding order number and timestamp per RFC 6184. Numbers not transmitted continue the sequence of earlier payloads modulo 65536. Units do not change when the caller reuses the payload buffer, and units of earlier payloads are not repeated.",
 ["inputs", "histories"], "all unit contents, headers, numbers, offsets and timestamps within size bounds",
 "No test covers depacketization.",
 [H+"packet.go"], [("dispatch", H+"packet.go Push"), ("STAP", H+"packet.go parseSTAP"), ("MTAP", H+"packet.go parseMTAP")],
 [run("VerifSinkSingle", covers=["done"], thorough={"pushes": 3}),
  run("VerifSinkSTAP", covers=["STAP-B", "long unit"], thorough={"len": 4}, budget=100),
  run("VerifSinkMTAP", covers=["MTAP16", "MTAP24", "long unit"], thorough={"len": 4}, budget=100),
  run("VerifSinkMany", params={"long": 6000, "units": 130}, covers=["many units"], steps=60000000, samples=12, budget=100, thorough={"long": 65000, "units": 300}),
  run("VerifSinkMany", params={"long": 65000, "units": 5}, covers=["many units"], steps=60000000, samples=12, budget=120)],
 "up to 2 single payloads of up to 5 bytes; aggregates of 1..3 units of 1..3 arbitrary bytes (one also of 300 or 33000 bytes), any numbers, offsets and timestamps; aggregates of 4, 21 and 130 units (thorough 300), one of 3, 256, 1401 or 6001 bytes (thorough 65001) with three arbitrary ones",
 "other numbers and sizes of units")

prop("C09", "h264", "Fragmented NAL units are reassembled whole or not at all",
 "A NAL unit sent as FU-A fragments, or as FU-B followed by FU-A, is delivered exactly once when its last fragment arrives, with its original header, the concatenated payload, its timestamp and its decoding order number, and the next unit continues the numbering. Whatever fragments are lost at its beginning, or belong to units with other timestamps, an incomplete unit is never delivered and never contaminates another one.",
 ["inputs", "histories", "fault_sequences"], "all contents, headers and numbers; all sequences of up to five start/middle/end/other packets with two timestamps",
 "No test covers fragments; loss needs particular packet sequences.",
 [H+"packet.go"], [("reassembly", H+"packet.go AddFragment")],
 [run("VerifSinkFU", covers=["FU-A", "FU-B"], thorough={"frags": 4}, budget=100),
  run("VerifSinkFULoss", params={"packets": 5}, covers=["delivered", "incomplete"], thorough={"packets": 6}, budget=100),
  run("VerifSinkFUMany", params={"frags": 130}, covers=["many fragments"], steps=60000000, samples=12, budget=100, thorough={"frags": 300})],
 "5, 21 and 130 fragments (thorough 300) of 3, 256 and 1400 bytes with arbitrary ones on both sides of a boundary, and 30 fragmented units in a row; 2..4 fragments of 1..3 arbitrary bytes; every sequence of 5 packets (thorough 6) out of first/middle/last fragment and single unit with two timestamps",
 "loss in the middle of a unit (the depacketizer is not given sequence numbers); other payloads interleaved with fragments")

prop("C10", "h264", "Untrusted RTP payloads never crash the depacketizer or invent octets",
 "For any sequence of arbitrary payloads the depacketizer returns without a panic, rejects an empty payload, and its units never hold more octets than were received. An aggregate whose unit size is zero or exceeds the payload is an error and yields no made-up unit.",
 ["inputs", "histories"], "every payload within the bound, in any order",
 "No test feeds malformed payloads.",
 [H+"packet.go"], [("size checks", H+"packet.go parseSTAP, parseMTAP, parseNAL")],
 [run("VerifSinkAny", params={"n": 7}, covers=["done"], budget=150, sweepT=[{"n": 8}, {"n": 5, "pushes": 3}]),
  run("VerifSinkTruncated", covers=["rejected", "leading unit"], thorough={"n": 10}, budget=100)],
 "two arbitrary payloads of 0..7 bytes in sequence (thorough 8, and three of 5); truncated aggregates of all four types with bodies of up to 8 bytes beyond their header",
 "longer payloads")

prop("C11", "h264", "Byte-stream payloads pushed to the depacketizer yield all their units",
 "A payload that begins with a start code is treated as an Annex B byte stream: every unit in it is delivered in order with its header, payload, consecutive decoding order numbers and the timestamp of the payload.",
 ["inputs"], "all unit contents, both start code forms, one to three units",
 "No test covers it.",
 [H+"packet.go", H+"annexb.go"], [("start code detection", H+"packet.go hasStartCode")],
 [run("VerifSinkAnnexB", covers=["several units"], thorough={"len": 4}, budget=100),
  run("VerifSinkMany", params={"long": 6000, "units": 130}, covers=["many units", "stream"], steps=60000000, samples=12, budget=100, thorough={"long": 65000, "units": 300})],
 "1..3 units of 1..3 arbitrary bytes with 3- or 4-byte start codes; 4, 21 and 70 units (thorough 200), one of 3, 256, 1401 or 6001 bytes with three arbitrary ones",
 "other numbers and sizes of units")

prop("C12", "h264", "Decoding order distance follows RFC 6184",
 "The signed distance between any two 16-bit decoding order numbers follows the wrap-around rules of RFC 6184 section 5.5, so that units can be ordered across the wrap.",
 ["inputs"], "all 2^32 pairs of numbers",
 "No test covers it; wrap-around boundaries are single values.",
 [H+"packet.go"], [("distance", H+"packet.go DonDiff")],
 [run("VerifDonDiff", covers=["wrapped"])],
 "none: all pairs of 16-bit numbers", "nothing")

# ---------------------------------------------------------------- RTP / RTCP

prop("C13", "rtp", "RTP packets decode every field per RFC 3550",
 "For every well-formed RTP packet the decoded flags, payload type, sequence number, timestamp, SSRC, all CSRCs, extension header and extension data are the transmitted ones, and the payload is exactly what lies between the header and the padding. The packet buffer is not modified.",
 ["inputs"], "all field values, 0..15 CSRCs, with and without extension and padding",
 "There are no RTP tests.",
 ["net/rtp/packet.go"], [("decoder", "net/rtp/packet.go Unpack")],
 [run("VerifUnpack", covers=["extension", "padded payload"], thorough={"xl": 6, "pl": 6, "pad": 8}),
  run("VerifUnpack", params={"big": 1}, covers=["extension"], budget=100)],
 "all field values; 0..15 CSRCs, extension of 0..3 words, payload of 0..3 bytes, padding of 0..5 bytes, and the sizes at which 8- and 16-bit arithmetic wraps (63, 64 and 16384 extension words, payloads of 255, 256 and 1460 bytes, padding of 127, 128 and 255)",
 "other sizes")

prop("C14", "rtp", "Arbitrary bytes as RTP are rejected or described exactly",
 "For any bytes the RTP decoder never panics: it rejects what is not version 2 or is shorter than its CSRC count, extension length or padding say, returning no packet, and otherwise accepts and describes exactly those bytes.",
 ["inputs"], "every byte string up to the bound",
 "There are no RTP tests.",
 ["net/rtp/packet.go"], [("bounds checks", "net/rtp/packet.go Unpack")],
 [run("VerifUnpackAny", params={"n": 26}, covers=["extension and padding", "inconsistent header"], thorough={"n": 40})],
 "all packets of 0..25 arbitrary bytes (thorough 39)",
 "longer packets")

prop("C15", "rtp", "RTP packing and unpacking are inverse",
 "Packing any consistent RTP packet produces its RFC 3550 encoding in full (header, CSRCs, extension, payload), and unpacking that gives the same packet back. Unpacking and packing a well-formed packet without padding reproduces it byte for byte.",
 ["inputs"], "all field values, sizes within bounds",
 "There are no RTP tests.",
 ["net/rtp/packet.go"], [("encoder", "net/rtp/packet.go Pack")],
 [run("VerifPack", covers=["everything"], thorough={"xl": 5, "pl": 7}),
  run("VerifPack", params={"big": 1}, budget=100),
  run("VerifRepack", covers=["extension"], thorough={"xl": 5, "pl": 7}),
  run("VerifRepack", params={"big": 1}, covers=["extension"], budget=100)],
 "all field values; 0..15 CSRCs, extension of 0..2 words, payload of 0..4 bytes, and the sizes at which 8- and 16-bit arithmetic wraps",
 "how much padding is added")

prop("C16", "rtcp", "RTCP sender reports decode every field and every report block",
 "For every well-formed RTCP sender report the decoded header, sender SSRC, NTP and RTP timestamps, packet and octet counts and all report blocks in order carry the transmitted values, also when a profile extension or another packet of the compound follows. The buffer is not modified.",
 ["inputs"], "all field values, 0..31 report blocks, extensions and following packets",
 "There are no RTCP tests.",
 ["net/rtcp/packet.go"], [("decoder", "net/rtcp/packet.go Unpack")],
 [run("VerifSR", covers=["two blocks"]), run("VerifSR", params={"full": 1}, covers=["two blocks"], budget=100)],
 "all field values, 0..31 report blocks, 0..2 words of extension, 0..2 bytes of a following packet",
 "later packets of a compound (only the first one is decoded)")

prop("C17", "rtcp", "Arbitrary bytes as RTCP are rejected or decoded consistently",
 "For any bytes the RTCP decoder never panics: it rejects what is shorter than a header, of another version, or a sender report shorter than its length and report count say; it accepts every consistent sender report, and other packet types are never taken for sender reports.",
 ["inputs"], "every byte string up to the bound",
 "There are no RTCP tests.",
 ["net/rtcp/packet.go"], [("bounds checks", "net/rtcp/packet.go Unpack")],
 [run("VerifUnpackAny", params={"n": 60}, covers=["too short", "wrong version", "other type", "inconsistent", "accepted"], thorough={"n": 90}),
  run("VerifUnpackAny", params={"n": 60, "sr": 1}, covers=["inconsistent", "accepted"], thorough={"n": 120}),
  run("VerifUnpackAny", params={"from": 120, "n": 10, "sr": 1}, covers=["inconsistent", "accepted"], thorough={"from": 120, "n": 80})],
 "all packets of 0..59 arbitrary bytes (thorough 119), and sender reports of 120..129 bytes (thorough 199), that is up to 7 report blocks",
 "longer packets")

# ---------------------------------------------------------------- SDP

prop("C18", "sdp", "SDP yields one feed per video section with its own attributes",
 "Parsing a session description yields exactly one feed per video section, in order. Control URL, payload types, codec and clock rate of every feed are those of its own section, verbatim, whatever other sections, session-level attributes and unrelated or look-alike attributes surround it and whichever line ending is used.",
 ["inputs"], "all descriptions of a grammar of up to three sections of four media kinds with attributes in any order and arbitrary values",
 "One captured description is tested.",
 ["net/sdp/packet.go"], [("section state", "net/sdp/packet.go Parse")],
 [run("VerifFeeds", covers=["second video", "other media after another section"], budget=100,
      sweep=[{"sections": 1, "nattr": 2, "others": 1, "url": 2, "xlen": 2, "scale": 2},
             {"sections": 2, "nattr": 1, "others": 1, "codecs": 2, "url": 2, "xlen": 2, "scale": 2, "ptlen": 1},
             {"sections": 3, "nattr": 1, "attrs": 2, "codecs": 1, "others": 1, "url": 2, "xlen": 1, "scale": 2, "ptlen": 1},
             {"sections": 1, "nattr": 1, "attrs": 1, "url": 6}, {"sections": 1, "nattr": 1, "attrs": 2, "scale": 5, "others": 5, "ptlen": 3, "url": 1}],
      sweepT=[{"sections": 1, "nattr": 2, "others": 5, "url": 3, "xlen": 3, "scale": 5},
             {"sections": 2, "nattr": 2, "others": 1, "codecs": 2, "url": 1, "xlen": 1, "scale": 1, "ptlen": 1},
             {"sections": 3, "nattr": 1, "others": 2, "codecs": 2, "url": 1, "xlen": 1, "scale": 1, "ptlen": 1},
             {"sections": 1, "nattr": 1, "attrs": 1, "url": 8}]),
  run("VerifFeedsMany", covers=["many sections"], steps=20000000, samples=12, budget=100, thorough={"sections": 60, "long": 5000}, budgetT=600)],
 "4, 7 and 20 sections (thorough 60) of six attributes in any rotation with control URLs of 4..1100 characters (thorough 5000), two of them arbitrary; up to 3 sections, up to 2 attributes per section; control URLs of up to 6 characters, numbers of up to 5 digits, unrelated attributes with up to 3 arbitrary characters",
 "other lengths; more than one rtpmap per section")

prop("C19", "sdp", "Parameter sets and codec configuration in SDP decode byte-exactly",
 "The base64 parameter sets of a section are decoded in number, order and content, and size length, index length and codec configuration are decoded exactly, wherever they are among the format parameters and however the parameters are separated, even when there is only one. Parameters of other sections do not interfere.",
 ["inputs"], "all bytes of up to two parameter sets and of the configuration, all positions",
 "One captured description is tested.",
 ["net/sdp/packet.go"], [("format parameters", "net/sdp/packet.go Parse")],
 [run("VerifSprop", covers=["configuration", "only parameter"], params={"sets": 1}, budget=100),
  run("VerifSprop", covers=["several sets"], params={"sets": 2, "bytes": 2, "cfg": 1}, thorough={"bytes": 3}, budget=100),
  run("VerifSprop", covers=["look-alike"], params={"sets": 1, "bytes": 1, "cfg": 1, "alike": 1}, budget=100),
  run("VerifSpropMany", covers=["many sets"], steps=20000000, samples=12, budget=100, thorough={"sets": 40, "long": 3000})],
 "1, 3 and 10 sets (thorough 40), one of 23..25 or 700 bytes (thorough 3000) with three arbitrary ones, and a configuration of as many bytes; one set of 1..4 arbitrary bytes or two of 1..2 bytes; configuration of 0..2 bytes; two-digit sizes",
 "arbitrary bytes in several places of long sets")

prop("C20", "sdp", "Arbitrary text as SDP never crashes the parser",
 "For any text the SDP parser returns without a panic and yields no more feeds than there are lines, and a well-formed video section after garbage is still found and starts with no attributes of what precedes it.",
 ["inputs"], "arbitrary characters after nine prefixes that lead to every branch of the parser",
 "No test feeds malformed descriptions.",
 ["net/sdp/packet.go"], [("line parser", "net/sdp/packet.go Parse")],
 [run("VerifAny", covers=["section after garbage"], thorough={"n": 5}, budget=100)],
 "up to 3 arbitrary characters of a set of 14 (thorough 4) after nine prefixes",
 "longer garbage")

# ---------------------------------------------------------------- HLS

prop("C21", "hls", "Playlist window holds exactly the last segments at cumulative positions",
 "After any history of segment additions the playlist window holds exactly the last segments (as many as the playlist has room for) in order, each with its own duration and length and starting where the previous one ended.",
 ["histories", "inputs"], "all histories of up to 12 additions to rings of 1..5 segments, all lengths",
 "One history is tested.",
 ["net/hls/playlist.go"], [("ring", "net/hls/playlist.go AddSegment")],
 [run("VerifRing", covers=["second lap"], thorough={"ring": 8, "adds": 26}),
  run("VerifMany", params={"ring": 300}, covers=["wrapped"], steps=20000000, samples=12, budget=100, thorough={"ring": 5000})],
 "rings of 7, 16 and 300 segments (thorough 5000) and up to two laps of additions, one of an arbitrary length; rings of 1..5 segments, up to 12 additions with arbitrary 64-bit lengths (thorough 8 and 25); durations from a fixed table",
 "symbolic durations (they are only copied)")

prop("C22", "hls", "Rendered playlist lists exactly the window",
 "At any moment of any history the playlist text has the header, then exactly the segments of the window in order, each with its duration, byte range (length at position) and media URI, and the end marker; rendering it changes nothing.",
 ["histories", "inputs"], "all histories of up to 9 additions to rings of 1..4 segments",
 "One history is tested.",
 ["net/hls/playlist.go"], [("renderer", "net/hls/playlist.go String")],
 [run("VerifRender", covers=["wrapped"], thorough={"ring": 6, "adds": 16, "max": 999}, budget=100),
  run("VerifRenderMany", params={"ring": 300}, covers=["wrapped"], steps=20000000, samples=12, budget=100, thorough={"ring": 1500})],
 "rings of 7, 16 and 300 segments (thorough 1500) after up to two laps of additions with lengths up to 2^47; rings of 1..4 segments, up to 9 additions, the last length arbitrary in 0..299 or beyond 2^61, durations from a table of seven",
 "other durations; floating point formatting is executed concretely")

prop("C23", "hls", "New playlist has the right media URI and is never without room",
 "A new playlist is empty and its media URI is the base URI with the name of the media file appended, whatever the base path and the directory of the file; a playlist that could not hold a segment is refused with an error.",
 ["inputs", "configurations"], "all names and base paths within bounds, sizes -2..3",
 "One configuration is tested.",
 ["net/hls/playlist.go"], [("constructor", "net/hls/playlist.go NewPlaylist")],
 [run("VerifNew", covers=["no room", "path", "query", "escaped"], thorough={"name": 5, "seg": 4}, budget=100)],
 "file names of 1..3 characters, base path segment of 0..2 characters, with and without a trailing slash and a query, four directories; file names that need no escaping in a URI and three patterns that do",
 "percent escapes and dot segments in the base URI")

# ---------------------------------------------------------------- RTSP

prop("C24", "rtsp", "Transport header parameters each set their own field",
 "Every well-formed Transport header, with its parameters in any order and letter case, is accepted and every parameter sets its own field and no other; a single port or channel denotes the pair with the next one, lower transport comes from the transport specification only, and unknown parameters change nothing.",
 ["inputs"], "all parameters, values within bounds, all orders of two",
 "No test covers Transport headers.",
 [R+"transport.go"], [("parser", R+"transport.go Parse")],
 [run("VerifTransportParse", params={"params": 1}, covers=["interleaved", "server port"], budget=100),
  run("VerifTransportParse", params={"params": 1, "mixed": 1, "one": 2, "two": 2}, budget=100),
  run("VerifTransportParse", params={"params": 2, "ones": 1, "one": 1, "two": 1, "host": 1, "ssrc": 1}, covers=["several parameters"], budget=100, thorough={"params": 3}, budgetT=1200),
  run("VerifPair", covers=["pair"], budget=100)],
 "up to two parameters (thorough three) of fourteen kinds; ports of up to 5 digits, addresses of up to 3 characters, SSRC of 8 hex digits; any letter case for one parameter",
 "longer values; more parameters at once")

prop("C25", "rtsp", "Transport formatting and parsing are inverse; feeds get own channels",
 "A new transport for a feed asks for that feed's own pair of channels (TCP) or for an even/odd pair of ports (UDP). Parsing any formatted transport restores every field, formatting it again gives the same text, and a response that echoes the request changes nothing.",
 ["inputs", "configurations"], "all protocols, feeds 0..3, one arbitrary field at a time",
 "No test covers Transport headers.",
 [R+"transport.go"], [("formatter", R+"transport.go String"), ("constructor", R+"transport.go NewTransport")],
 [run("VerifTransportRoundTrip", covers=["mode", "multicast"], budget=150)],
 "numbers 1..999, addresses of 3 characters, SSRC of 8 hex digits, mode of 4 letters, one field at a time",
 "interaction of several arbitrary fields")

prop("C26", "rtsp", "Malformed Transport headers are errors, never crashes",
 "A Transport parameter that requires a value and has none, or a numeric one that is not a number, is reported as an error, and no text whatever makes the parser panic.",
 ["inputs"], "all parameters, arbitrary characters after five prefixes",
 "No test covers Transport headers.",
 [R+"transport.go"], [("parser", R+"transport.go Parse")],
 [run("VerifTransportAny", covers=["accepted", "rejected", "second"], budget=150, thorough={"n": 6})],
 "up to 4 arbitrary characters of a set of 18 (thorough 5) after five prefixes; values and pairs of values with one malformed character among up to three digits",
 "longer garbage")

prop("C27", "rtsp", "Requests are serialized as well-formed RTSP messages",
 "Every request is serialized as a request line, header lines and one empty line: it carries its verb and URI, its sequence number exactly once, every given header once with its value, the session identifier on in-session commands once there is one, credentials exactly when there are some, and a content length of zero.",
 ["inputs"], "seven verbs, header values, identifiers and credentials within bounds, every map iteration order",
 "No test covers it; header order is nondeterministic.",
 [R+"message.go"], [("serializer", R+"message.go Request.Pack")],
 [run("VerifRequest", covers=["session", "two headers", "keep-alive"], budget=100),
  run("VerifRequestMany", covers=["many headers"], steps=20000000, samples=12, budget=100)],
 "3, 5, 12 and 40 headers of up to 9000 characters and an address of 1500 characters, two of them arbitrary; sequence numbers 1..999, header values of 0 or 2 printable characters, identifiers of 2 characters, up to two extra headers",
 "header values with line breaks")

prop("C28", "rtsp", "Responses are read exactly, however the stream is cut or stalls",
 "A response arriving over the connection is read with its status, sequence number, headers (in any letter case and order, CRLF or LF) and its complete body, however the stream is cut into reads and whether or not it stalls past the timeout in the middle. What follows it stays for the next read, and the body does not change afterwards.",
 ["inputs", "schedules", "fault_sequences"], "all contents within bounds, every cut point, every pause",
 "The session test is empty; cut points and stalls depend on network timing.",
 [R+"message.go", R+"connection.go"], [("reader", R+"message.go Unpack"), ("peeking", R+"connection.go PeekLine")],
 [run("VerifResponse", params={"cuts": 1}, covers=["body", "timeout"], budget=200, samples=10),
  run("VerifResponse", params={"big": 1, "lf": 0}, covers=["body"], budget=200, samples=10),
  run("VerifResponseMany", covers=["many headers", "timeout"], steps=20000000, samples=12, budget=100)],
 "3, 5, 12 and 40 headers of up to 9000 characters, two of them arbitrary, in segments of 100, 701 or 1448 bytes with or without stalls; one cut at any place with or without a stall; status, sequence numbers of 3 digits, one extra header value of 3 characters, bodies of 0..3 bytes; bodies of 2000..60000 bytes in 1448-byte segments with stalls",
 "responses larger than the 64 kB buffer of the connection")

prop("C29", "rtsp", "What is not an RTSP response is rejected without harm",
 "A message of another protocol or version, with a malformed status or a malformed header line is rejected with an error, and no stream makes the reader panic or allocate memory for a body that was not received.",
 ["inputs"], "arbitrary characters in every part of a response",
 "No test feeds malformed responses.",
 [R+"message.go"], [("validation", R+"message.go Unpack")],
 [run("VerifResponseAny", covers=["rejected", "accepted"], alloc=1048576, budget=100, samples=10)],
 "up to 4 arbitrary characters per malformed part; content lengths of up to 21 digits",
 "longer garbage")

prop("C30", "rtsp", "Interleaved frames are delivered exactly, in order, however the stream arrives",
 "Every interleaved binary frame on the RTSP connection is delivered once with its channel and its complete payload, in order, for every frame size up to 65535, however the stream is cut into reads and whether or not it stalls past the timeout in the middle of a frame; no frame is invented.",
 ["inputs", "schedules", "fault_sequences"], "all contents, channels and cut points, stalls anywhere",
 "The session test is empty.",
 [R+"session.go", R+"connection.go"], [("demultiplexer", R+"session.go receive")],
 [run("VerifInterleaved", params={"frames": 2}, covers=["several reads", "pause"], samples=10, budget=100),
  run("VerifInterleaved", params={"big": 1}, covers=["several reads"], samples=10, budget=100),
  run("VerifInterleaved", params={"burst": 30, "cuts": 1, "pauses": 0}, covers=["late consumer"], samples=6, budget=100, thorough={"burst": 100})],
 "two frames of 0..3 bytes with two cuts at any place and stalls; frames of 36..65535 bytes in 1448-byte segments; bursts of 30 frames (thorough 100) before the consumer reads the first one",
 "a consumer that never reads")

prop("C31", "rtsp", "Digest responses follow RFC 2617 for every request",
 "For every Digest challenge (MD5 or MD5-sess, with no protection, auth or auth-int, directives in any order, commas and escaped quotes in quoted strings, unknown directives) the credentials of every request repeat user, realm, nonce, URI and opaque verbatim and carry the response RFC 2617 defines, with nonce counts 1, 2, 3... and a stable session key.",
 ["inputs", "histories"], "all user names, passwords, realms, nonces, opaque values and URIs within bounds; all combinations of options; up to three requests",
 "One captured challenge without protection is tested.",
 [R+"digest.go"], [("challenge parser", R+"digest.go NewDigest"), ("response", R+"digest.go response")],
 [run("VerifDigest", covers=["session key", "unknown directive"], budget=100),
  run("VerifDigest", params={"esc": 1, "requests": 3}, covers=["escaped quote"], budget=100),
  run("VerifDigestMany", params={"requests": 300}, covers=["many requests"], steps=40000000, budget=100, thorough={"requests": 1200}),
  run("VerifDigestLong", covers=["digest"], steps=20000000, samples=12, budget=100)],
 "realms, nonces, user names and passwords of 3, 16, 64 and 300 characters, two of them arbitrary, directives in any letter case; strings of 1..2 arbitrary printable characters (realm also with an escaped quote), up to 3 requests, and 300 requests (thorough 1200) with one-character strings; bodies of 2 bytes for auth-int",
 "MD5 itself: an uninterpreted function in the encoding, the real one in native replays", ["MD5 is modelled as an uninterpreted function of its input"])

prop("C32", "rtsp", "Basic credentials are the base64 of user and password",
 "For every Basic challenge the credentials of every request are the base64 encoding of user name, colon and password, for any user name and password and any realm.",
 ["inputs"], "all user names and passwords within bounds",
 "One pair is tested.",
 [R+"digest.go"], [("credentials", R+"digest.go Authenticate")],
 [run("VerifBasic", covers=["both"], budget=100, thorough={"user": 7, "pass": 7}),
  run("VerifDigestLong", covers=["basic"], steps=20000000, samples=12, budget=100)],
 "user names and passwords of 0..4 printable characters (thorough 6) and of 16, 64 and 300 characters, two of them arbitrary", "other lengths")

prop("C33", "rtsp", "Unknown or malformed challenges are rejected without harm",
 "A challenge of an unknown scheme or with an unknown algorithm is rejected with an error, MD5 is accepted in any letter case, and no text makes the challenge parser or the credentials computed from it panic.",
 ["inputs"], "arbitrary bytes as a challenge and inside of one",
 "No test feeds malformed challenges.",
 [R+"digest.go"], [("challenge parser", R+"digest.go NewDigest")],
 [run("VerifChallengeAny", covers=["unknown scheme", "md5", "accepted"], budget=100)],
 "arbitrary text of up to 6 bytes; algorithm names of 3 characters; up to 4 arbitrary characters of a set of 12 after five prefixes",
 "longer garbage")

prop("C34", "rtsp", "A session goes through its stages in order against any server",
 "Opening a session asks for options and description, sets up every video feed exactly once by its own control URL with its own channels, and reports ready once every feed is answered, also when some are refused or responses come out of order; play, pause and teardown are reported exactly when the server confirms them. Challenged commands are repeated once with valid credentials taken from the URI (which are never part of a request URI), a renewed nonce is answered, in-session commands carry the session identifier without its timeout, and frames between responses are delivered.",
 ["histories", "inputs", "configurations"], "servers with 1..3 feeds, every refusal pattern, response order, authentication scheme and starting point, session identifiers and timeouts",
 "The session test is empty: no server is available to the tests.",
 [R+"session.go", R+"feed.go", R+"connection.go"], [("state machine", R+"session.go handleRtsp"), ("feed setup", R+"session.go handleSetup")],
 [run("VerifSession", params={"feeds": 3}, covers=["feed refused", "frames between responses", "out of order"], samples=6, budget=100),
  run("VerifSession", params={"feeds": 2, "auth": 1}, samples=4, budget=100),
  run("VerifSession", params={"feeds": 2, "auth": 2, "frames": 0}, covers=["nonce renewed"], samples=4, budget=100),
  run("VerifSession", params={"feeds": 2, "auth": 3, "frames": 0}, covers=["nonce renewed"], samples=4, budget=100),
  run("VerifSession", params={"feeds": 1, "auth": 2, "frames": 0, "creds": 1, "timeouts": 1, "refuse": 0, "renewal": 0}, samples=4, budget=100),
  run("VerifSession", params={"feeds": 1, "auth": 3, "frames": 0, "creds": 1, "timeouts": 1, "refuse": 0, "renewal": 0}, samples=4, budget=100),
  run("VerifSessionMany", params={"timeouts": 3}, covers=["many feeds"], steps=20000000, samples=6, budget=100, thorough={"rounds": 20}),
  run("VerifCommands", covers=["no identifier", "refused"], samples=4, budget=100, thorough={"commands": 4}),
  run("VerifCommands", params={"feeds": 2, "auths": 2, "commands": 2}, covers=["no identifier", "refused", "nonce renewed"], samples=4, budget=100, thorough={"commands": 3})],
 "three commands (thorough four) in any order of which each is confirmed, with or without repeating the session identifier, or refused with any status of 300..599 but 401, or two of them with 1..2 feeds, authentication and a nonce renewed before any of them; 4, 7 and 20 feeds with identifiers of 38 characters, played and paused six times (thorough 20); 1..3 feeds (2 with authentication), one session, session identifiers of 2 characters, credentials of 1..2 characters, one renewal of the nonce",
 "descriptions without video feeds; servers that never answer", ["MD5 is modelled as an uninterpreted function of its input"])

prop("C35", "rtsp", "Without valid credentials a session stops asking and reports nothing",
 "When the server keeps refusing the credentials, or none are in the URI, the session reports no progress, never makes credentials up and stops repeating the command after at most one attempt per challenge, even if every challenge has a new nonce.",
 ["histories", "inputs"], "every scheme, every command challenged first, any credentials, fixed and fresh nonces",
 "The session test is empty.",
 [R+"session.go"], [("retry limit", R+"session.go handleRtsp")],
 [run("VerifUnauthorized", covers=["no credentials", "wrong credentials", "late"], samples=4, budget=100)],
 "user names of 2 and passwords of 0..1 characters; challenges while the session is opened or to play, pause and teardown", "servers that claim staleness for ever", ["MD5 is modelled as an uninterpreted function of its input"])

prop("C36", "rtsp", "Sequence numbers and nonce counts stay unique under concurrency",
 "Commands issued at the same time from several goroutines, while responses arrive, each get a sequence number and a nonce count of their own, all reach the server, and every response finds its command whatever the order of responses.",
 ["schedules", "histories"], "all interleavings with up to the preemption bound of two commands and the receiver, all command pairs and response orders, with and without authentication",
 "Schedules are not controlled by tests.",
 [R+"session.go"], [("queue lock", R+"session.go enqueue, dequeue")],
 [run("VerifConcurrent", params={"preempt": 1}, covers=["both answered"], samples=4, budget=100, thorough={"preempt": 2})],
 "two commands, one preemption at any shared access (thorough two)", "more goroutines; weak memory effects",
 ["interleavings are sequentially consistent; the native confirmation of a race reruns 3000 rounds with 4 goroutines"])

prop("C37", "rtsp", "UDP datagrams of announced ports come out on their feed's channels",
 "In a unicast session every datagram sent to a port the session has announced is delivered once and unchanged on the channel of its feed and kind (media or control), in order and across read timeouts; no datagram is invented; and the session is kept alive by commands carrying its identifier.",
 ["inputs", "histories"], "all contents, 1..2 feeds, media and control ports, timeouts in between",
 "The session test is empty.",
 [R+"connection.go", R+"session.go"], [("listeners", R+"connection.go AddSink, Start"), ("keep-alive", R+"session.go KeepAlive")],
 [run("VerifUDP", params={"packets": 2}, covers=["control", "two feeds"], samples=4, budget=100, thorough={"sizes": 5}),
  run("VerifUDP", params={"packets": 1, "burst": 1}, covers=["burst"], samples=4, budget=100)],
 "up to 2 datagrams of 0, 1 or 1500 bytes one by one and bursts of 3 and 30 (thorough up to 60000), 1..2 feeds",
 "multicast group membership; the address the listeners bind to (the loopback one)")

prop("C38", "rtsp", "RTSP over HTTP opens with one well-formed GET and leaves the stream intact",
 "Opening a session over HTTP connects to the host and port of the URI and sends exactly one GET request for it, without credentials and with the headers a tunnel needs; the other half of a tunnel is asked for by a well-formed POST with the same cookie. The HTTP response is read exactly up to its empty line, what follows is left for the RTSP reader, and what is not an HTTP response is an error.",
 ["inputs", "schedules"], "all response headers, protocols and status codes within bounds, every cut point",
 "No test covers tunnels.",
 [R+"http.go", R+"connection.go"], [("request", R+"http.go ConnectHTTP"), ("response", R+"http.go UnpackHTTP"), ("tunnel", R+"connection.go Dial")],
 [run("VerifTunnelRequest", covers=["get", "post"], thorough={"uri": 8, "cookie": 10}),
  run("VerifTunnelOpen", covers=["get", "headers", "rejected"], samples=8, budget=100, thorough={"cuts": 2}, budgetT=800)],
 "up to two headers with values of up to 1 character, protocols of 8 and status codes of up to 4 characters, one cut (thorough two)",
 "status codes other than 200 (any is accepted); commands over the POST half, which the README declares unimplemented")

prop("C39", "rtsp", "Each feed gets exactly its own parameter sets",
 "When the transport of a feed is set up, the parameter sets its section of the description announces are in that feed's decoder, each under its id, and no others: neither sets of other feeds nor any before the setup. A malformed transport is an error and sets nothing up, and a transport echoed as it was asked for changes nothing.",
 ["inputs", "configurations"], "1..3 feeds with 0..2 pairs of parameter sets of arbitrary level and references, all protocols, any order of setup",
 "The session test is empty.",
 [R+"feed.go", "net/h264/spspps.go", "net/sdp/packet.go"], [("feeds", R+"feed.go ParseFeeds"), ("setup", R+"feed.go TransportSetup")],
 [run("VerifFeeds", covers=["malformed", "sets"], samples=8, budget=150)],
 "up to 3 feeds, up to 2 pairs of parameter sets per feed; the level of sequence sets and reference counts of picture sets are arbitrary, their sizes fixed",
 "malformed parameter sets in a description")

prop("C40", "rtsp", "Interleaved media come out as the NAL units the camera sent",
 "NAL units that a camera sends as single, aggregated or fragmented payloads in RTP packets (with CSRC list, extension or padding) interleaved with RTCP reports come out of the connection, the RTP decoder and the depacketizer complete, in order, with their headers, timestamps and order numbers, also when packets are processed only after all have arrived.",
 ["inputs", "histories", "schedules"], "all contents, sequence numbers and timestamps, every combination of payload structure, packet form and reports over up to three access units, at once or late",
 "The tests of the packages never go through more than one of them.",
 [R+"session.go", "net/rtp/packet.go", "net/rtcp/packet.go", "net/h264/packet.go"], [("demultiplexer", R+"session.go receive"), ("decoder", "net/rtp/packet.go Unpack"), ("depacketizer", "net/h264/packet.go Push")],
 [run("VerifMedia", params={"accessUnits": 3}, covers=["aggregate", "fragments", "padding", "report"], samples=8, budget=150),
  run("VerifMedia", params={"accessUnits": 1, "cuts": 1}, covers=["aggregate", "fragments", "padding", "report"], samples=8, budget=150, thorough={"accessUnits": 2}, budgetT=600),
  run("VerifMediaMany", covers=["many units", "padding"], steps=20000000, samples=12, budget=100, thorough={"units": 200})],
 "10 and 45 units (thorough 200) of 1..3 feeds with up to 1402 bytes each, two of them arbitrary, across the wrap of sequence numbers and timestamps; up to 3 access units of 1..2 units with 1..3 bytes each; one cut of the stream at any place with one access unit (thorough two)",
 "longer streams; lost packets (property C09)")

prop("C41", "rtsp", "Message headers are found, replaced and deleted whatever the letter case",
 "After any sequence of setting and deleting headers, each in any letter case, every header has exactly the value it was given last, under any letter case, and there are no others.",
 ["histories", "inputs"], "every sequence of up to 3 operations on two headers in every letter case, all values within bounds",
 "No test covers headers.",
 [R+"message.go"], [("headers", R+"message.go MessageHeader")],
 [run("VerifHeaders", covers=["deleted"], samples=8, budget=100, thorough={"ops": 4})],
 "up to 3 operations (thorough 4) on two names of 3 and 4 characters; values of 1..2 printable characters", "names with characters that are not ASCII")

prop("C42", "rtsp", "Packed responses are read back the same",
 "Any response with a status, sequence number, headers and body is serialized so that reading it from a connection yields the same response and leaves exactly what follows.",
 ["inputs"], "all status codes, sequence numbers, header values and bodies within bounds, every map iteration order",
 "No test packs a response.",
 [R+"message.go"], [("serializer", R+"message.go Response.Pack"), ("reader", R+"message.go Unpack")],
 [run("VerifResponsePack", covers=["body"], samples=8, budget=100, thorough={"body": 6, "seq": 3}),
  run("VerifResponsePackMany", covers=["many headers"], steps=20000000, samples=12, budget=100)],
 "two responses in a row, bodies of 0..2 bytes (thorough 5), values of 2 characters; 3, 5, 12 and 40 headers of up to 9000 characters and bodies of 9, 256 and 5000 bytes", "other sizes")

prop("C43", "rtsp", "UDP sessions are kept alive at the right pace, others not at all",
 "While a unicast session lasts, playing or paused, it sends a sign of life carrying its identifier at most the keep-alive period plus one read timeout after the previous one and never sooner than that period, also when the server answers late. A session with media over its connection sends none, and none is sent after teardown.",
 ["schedules", "histories"], "every combination of transport, read timeout, server delay and pause, in virtual time",
 "The session test is empty; the tests never wait.",
 [R+"session.go"], [("keep-alive", R+"session.go receive")],
 [run("VerifKeepAlive", covers=["media over connection", "paused"], samples=2, ms=40000, budget=150, thorough={"life": 20000}, budgetT=400)],
 "read timeouts of 0.3, 1.1 and 2 s, server delays of 0 and 0.9 s, 5.2 s of playing and 4.2 s of pause (thorough 20 s of playing)",
 "a server that never answers a sign of life", ["virtual time: every wait ends exactly on time and computation takes none"])

prop("C44", "rtsp", "Every way of reading the connection consumes exactly what it returns",
 "Reading or looking ahead for a line, a number, an octet or any number of octets returns exactly the next bytes of the stream; reading consumes exactly these and looking ahead nothing, and when there are not enough the call fails, however the stream is cut into reads.",
 ["histories", "inputs", "schedules"], "every sequence of two operations (thorough three) of seven kinds, every cut point",
 "No test covers the connection.",
 [R+"connection.go"], [("reader", R+"connection.go ReadLine, PeekLine, ReadBytes, Peek, Discard")],
 [run("VerifReaders", covers=["line", "line ahead", "no line", "short"], samples=8, budget=100, thorough={"ops": 3}, budgetT=300),
  run("VerifReadersMany", covers=["many segments"], steps=20000000, samples=12, budget=100)],
 "streams of 6 bytes of four values, one cut, reads of 0..3 bytes; a stream of 30000 bytes in segments of 100, 1448 and 4096 bytes, lines of up to 20 kB and reads of up to 5000 bytes", "reads larger than the buffer of the connection")

prop("C45", "rtsp", "Connection and credentials come from the URI",
 "A session connects to the host and port of its URI (554 if there is none), asks for that URI, exactly as given but without credentials (and with the default port), and answers challenges with the user name and password of the URI with percent escapes decoded.",
 ["inputs"], "all forms of URI: hosts, ports, user names and passwords with escapes and punctuation, paths and queries",
 "The session test is empty.",
 [R+"connection.go", R+"session.go"], [("URI", R+"connection.go Dial"), ("credentials", R+"session.go handleRtsp")],
 [run("VerifDial", covers=["port"], samples=6),
  run("VerifBaseURI", samples=8, budget=100),
  run("VerifCredentials", params={"user": 1, "pass": 2, "basic": 1}, covers=["escaped", "no password"], samples=4, budget=100, thorough={"user": 2}, budgetT=400),
  run("VerifCredentials", params={"user": 1, "pass": 1}, covers=["escaped", "no password"], samples=4, budget=100, thorough={"pass": 2}, budgetT=300)],
 "user names of 1 (thorough 2) and passwords of 0..1 characters, written as they are or escaped; paths of up to 8 characters",
 "paths with percent escapes", ["MD5 is modelled as an uninterpreted function of its input"])

prop("C46", "rtsp", "Stopping ends all UDP listeners and frees their ports",
 "Once a unicast session is stopped every port it announced is free again, even when nobody takes the datagrams that have arrived; these are still delivered once, and the same ports can be listened on and started again for other channels. Stopping twice is harmless.",
 ["histories", "schedules"], "1..2 feeds with 0, 1 or more datagrams than the queue holds at the time of the stop",
 "The session test is empty.",
 [R+"connection.go"], [("listeners", R+"connection.go AddSink, Start, Stop")],
 [run("VerifStop", covers=["nobody reads"], samples=4, budget=100)],
 "1..2 feeds, 0, 1 or 25 datagrams waiting", "sockets the system refuses to close")

prop("C47", "rtsp", "No answer of a server crashes a session or makes it report unconfirmed progress",
 "Whatever a server answers to any command of a session (text of no protocol, wrong or malformed sequence numbers, arbitrary header values, descriptions, refusals or challenges), the session does not panic, reports no progress the server has not confirmed and does not repeat commands without limit.",
 ["inputs", "histories", "fault_sequences"], "seven kinds of odd answers with arbitrary characters to each of four commands, 1..2 feeds, both transports, with and without credentials",
 "The session test is empty.",
 [R+"session.go", R+"message.go", R+"feed.go"], [("dispatch", R+"session.go handleRtsp")],
 [run("VerifUntrusted", params={"n": 2}, sweep=[{"kind": k} for k in (0, 1, 2, 6)], sweepT=[{"kind": k, "n": 3} for k in (0, 1, 2, 6)] + [{"kind": 0, "n": 2, "any": 1}], covers=["playing", "stuck"], samples=4, budget=100),
  run("VerifUntrusted", params={"n": 2}, sweep=[{"kind": k} for k in (3, 4, 5)], sweepT=[{"kind": k, "n": 3} for k in (3, 4, 5)], covers=["playing", "reported"], samples=4, budget=100)],
 "2 arbitrary characters of a set of 17 in every place (thorough 3)",
 "a server that claims staleness of every nonce; longer texts")

prop("C50", "rtsp", "Multicast sessions listen on the ports the server assigns",
 "A multicast session asks for multicast delivery, and for nothing else, with an even port and the next one for each feed; once set up it listens on exactly the ports that the server assigned in any form of transport header (those asked for when it names none), every datagram to these comes out once and unchanged on the channel of its feed and kind, and they are free again when the session is stopped.",
 ["inputs", "configurations"], "1..2 feeds, five forms of assignment per feed, media and control datagrams with arbitrary contents",
 "The session test is empty.",
 [R+"session.go", R+"transport.go", R+"connection.go"], [("assignment", R+"session.go handleSetup"), ("request", R+"transport.go NewTransport")],
 [run("VerifMulticast", covers=["control", "assigned port"], samples=4, budget=100, sweepT=[{"packets": 3}, {"feeds": 3}], budgetT=400)],
 "1..2 feeds (thorough 3), two datagrams of 3 bytes (thorough three)",
 "joining the multicast group, which the client does not do: the listeners are bound to the loopback address")

prop("C51", "rtsp", "What was decoded stays as it is, whatever is decoded next",
 "Packets, reports, NAL units, parameter sets, descriptions, playlists, messages and credentials that were decoded or produced stay unchanged when others are decoded or produced; decoders, playlists, feeds and credentials used in turns each behave as if used alone; and decoding the same bytes again gives the same.",
 ["histories", "inputs"], "every order of use of two instances of every decoder with arbitrary contents within bounds",
 "The tests use every decoder once and look at the result right away.",
 [H+"annexb.go", H+"packet.go", H+"spspps.go", H+"bits.go", "net/rtp/packet.go", "net/rtcp/packet.go", "net/sdp/packet.go", "net/hls/playlist.go", R+"digest.go", R+"message.go", R+"feed.go"],
 [("byte streams", H+"annexb.go SplitAnnexB"), ("depacketizer", H+"packet.go NALSink"), ("parameter sets", H+"spspps.go ParameterSets"), ("packets", "net/rtp/packet.go Unpack, Pack"), ("credentials", R+"digest.go Authenticate"), ("messages", R+"message.go Pack, Unpack")],
 [run("VerifRepeatStream", pkg="h264", covers=["again"], samples=4, thorough={"n": 6}),
  run("VerifRepeatSinks", pkg="h264", covers=["fragments", "single"], samples=4, budget=100, thorough={"steps": 5}),
  run("VerifRepeatSets", pkg="h264", covers=["replaced"], samples=4),
  run("VerifRepeatReaders", pkg="h264", covers=["read"], samples=4, thorough={"steps": 5}),
  run("VerifRepeat", pkg="rtp", covers=["again"], samples=4),
  run("VerifRepeat", pkg="rtcp", covers=["different"], samples=4),
  run("VerifRepeat", pkg="sdp", covers=["again"], samples=4, budget=100),
  run("VerifRepeat", pkg="hls", covers=["rendered"], samples=4, budget=100, thorough={"steps": 5}),
  run("VerifRepeatDigest", covers=["asked"], samples=4, thorough={"steps": 5}),
  run("VerifRepeatMessages", covers=["two connections"], samples=4, budget=100),
  run("VerifRepeatFeeds", covers=["set up", "sets"], samples=4, budget=100)],
 "two instances of each decoder; byte streams of 1..5 bytes, 4 steps in turns (thorough 5) of depacketizers, readers, playlists and credentials, packets of up to two sources and 2 bytes, descriptions of 1..2 sections",
 "changes made by the caller to buffers that results refer to")

prop("C52", "rtsp", "Sessions with different servers do not disturb each other",
 "Two sessions of one program with different servers, advanced in any order, each open, are set up with their own credentials and identifiers, play, deliver exactly their own media and end as if they were alone.",
 ["histories", "schedules", "configurations"], "every order of the steps of two sessions, with and without credentials, all media contents and session identifiers",
 "The session test is empty.",
 [R+"session.go", R+"connection.go", R+"digest.go"], [("session", R+"session.go Open, process"), ("connection", R+"connection.go Dial")],
 [run("VerifTwoSessions", params={"timeouts": 1, "session": 1}, covers=["in turns", "credentials"], samples=4, budget=150, thorough={"auths": 4}, budgetT=600),
  run("VerifTwoUnicast", params={"timeouts": 1, "session": 1, "feeds": 2}, samples=2)],
 "two sessions over TCP of one feed each, five steps each in every order, without credentials or with digest (thorough: also basic and old-style digest); two unicast sessions of 1..2 feeds set up one after the other, which fail for a recorded reason (known finding)",
 "media of two unicast sessions at the same time, which cannot be set up (known finding)")

prop("C53", "rtsp", "A session whose connection breaks stops there, having delivered what arrived",
"Wherever in the exchange the connection of a session ends or is reset, progress is reported and frames are delivered exactly if the response or frame had arrived completely, a partial one counts for nothing, nobody keeps reading from the connection, commands on a connection that was reset fail with an error, stopping frees the ports, and other sessions can be opened.",
["fault_sequences", "crash_points"], "the connection ends or is reset after any part of any message of the server, TCP and unicast sessions, all frame contents",
"The session test is empty.",
[R+"session.go", R+"connection.go", R+"message.go"], [("reading loop", R+"session.go process, receive"), ("commands", R+"session.go send"), ("responses", R+"message.go Unpack")],
[run("VerifBroken", params={"timeouts": 1, "session": 1, "places": 7}, covers=["command fails", "frame", "lost frame", "ports"], samples=6, budget=100, thorough={"places": 300, "all": 1}, budgetT=600)],
"one feed, six messages of the server, cut at seven places each (thorough: at every octet)",
"commands that are sent in part; servers that fall silent without closing the connection")

prop("C54", "rtsp", "What different goroutines decode at the same time does not interfere",
"Depacketizers, bit readers, parameter set stores, RTP packets, RTCP reports, descriptions, feeds, transports, playlists, credentials, requests and connections that belong to different goroutines each yield, under every schedule, exactly what they yield alone.",
["schedules", "inputs"], "every pair of eleven kinds of work done at the same time by two goroutines with arbitrary contents, under every schedule with a bounded number of preemptions at accesses to memory they could share",
"The tests run one goroutine at a time.",
[H+"annexb.go", H+"packet.go", H+"spspps.go", H+"bits.go", "net/rtp/packet.go", "net/rtcp/packet.go", "net/sdp/packet.go", "net/hls/playlist.go", R+"digest.go", R+"message.go", R+"feed.go", R+"transport.go"],
[("byte streams", H+"annexb.go"), ("depacketizer", H+"packet.go NALSink"), ("parameter sets", H+"spspps.go ParameterSets"), ("packets", "net/rtp/packet.go Unpack, Pack"), ("credentials", R+"digest.go Authenticate"), ("messages", R+"message.go Pack, Unpack")],
[run("VerifParallel", pkg=k, covers=["same work"], samples=1, budget=100, thorough={"preempt": 2}, budgetT=150) for k in ("h264", "rtp", "rtcp", "sdp", "hls", "rtsp")],
"two goroutines; one preemption (thorough two), before or after a write to memory which package variables refer to, at locks, channels and pools",
"one object used by several goroutines, except a session, whose commands may be (C36); races without effect on results")

# ---------------------------------------------------------------- client program

prop("C48", "ouro", "The client opens, plays, pauses and closes a session once and in time",
 "Run against a server that confirms its commands, the client program opens the given address, sets up every video feed of the description, plays, pauses five seconds after the server has confirmed playing, tears the session down five seconds after the pause is confirmed and ends five seconds after that; each command is sent exactly once, however long the server takes to confirm and whatever media arrives meanwhile.",
 ["inputs", "schedules", "histories"], "1..2 feeds, delayed confirmation of any of the commands, media of every kind arriving slowly or fast",
 "The program has no tests.",
 ["cmd/ouro/main.go", R+"session.go"], [("state machine", "cmd/ouro/main.go handleStates"), ("stages", R+"session.go notify")],
 [run("VerifClient", params={"order": 1, "feeds": 2, "types": 1}, sweepT=[{"feeds": 3}], covers=["fragments", "reports"], samples=2, ms=40000)],
 "1..2 feeds (thorough 3) over TCP, confirmations of one command on time or late by 2.6 s, up to 6 media packets 1.4 or 1.6 s apart with arbitrary contents",
 "servers that refuse commands or send malformed packets (the program ends); command line errors; several streams of one program")

prop("C49", "ouro", "The client reports every packet, unit and report of every feed",
 "Run against a server that plays several feeds at once, the client program prints every media packet (channel, payload type, sources, marker, sequence number), every NAL unit in it (zero bit, reference value, type and size without emulation prevention) and every control packet (channel, type, length, count) exactly once and in order of arrival, with fragmented units of different feeds kept apart.",
 ["inputs", "histories"], "1..2 feeds, single, aggregated and fragmented units of all feeds interleaved, all contents, reports of four forms",
 "The program has no tests.",
 ["cmd/ouro/main.go", H+"packet.go", "net/rtp/packet.go", "net/rtcp/packet.go"], [("packet pipeline", "cmd/ouro/main.go handleStates")],
 [run("VerifClient", params={"order": 0, "feeds": 2, "waits": 1}, sweepT=[{"feeds": 3}], covers=["fragments", "reports"], samples=2, ms=40000),
  run("VerifClient", params={"order": 0, "feeds": 5, "least": 5, "kind": 1, "waits": 1, "timeouts": 1}, covers=["fragments"], samples=1, ms=40000),
  run("VerifClient", params={"order": 0, "feeds": 3, "least": 3, "kind": 2, "waits": 1, "timeouts": 1}, covers=["reports"], samples=1, ms=40000)],
 "1..2 feeds (thorough 3; fragments also of 5 and reports of 3), up to 6 packets per two feeds with arbitrary timestamps and contents, with contributing sources, extension or padding in the first one, at two paces, before, during and after the pause",
 "the format of other lines of the log; malformed packets (the program ends); feeds that are not H.264")

# Properties that are not claimed.
NA = []
