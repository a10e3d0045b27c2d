package spec

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode"

	mp4 "github.com/abema/go-mp4"
)

// Def is the description of one payload format.
type Def struct {
	GoType   string
	Versions []uint8 // nil: any / not versioned
	Body     func(c *Codec)
	// Alt generates a well-formed payload in a form the encoder never emits.
	Alt       func(r *rand.Rand) []byte
	Container bool // can be expanded meaningfully
}

var plain = map[string]*Def{}
var order []string

func def(t, goType string, versions []uint8, body func(c *Codec)) *Def {
	d := &Def{GoType: goType, Versions: versions, Body: body}
	plain[t] = d
	order = append(order, t)
	return d
}

var (
	v0  = []uint8{0}
	v01 = []uint8{0, 1}
	v12 = []uint8{1, 2}
)

// Escape is the documented replacement of unprintable characters.
func Escape(s string) string {
	var sb strings.Builder
	for _, r := range s { // invalid UTF-8 becomes U+FFFD
		if unicode.In(r, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Zs) {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('.')
		}
	}
	return sb.String()
}

var quoted = Custom(func(n *Node) (string, bool) { return `"` + Escape(string(n.Raw)) + `"`, true })

// Fixed-point rendering: integral values as integers, others with a fixed number of decimals.
func fixedStr(num int64, frac uint, decimals int) string {
	den := int64(1) << frac
	if num&(den-1) == 0 {
		return strconv.FormatInt(num>>frac, 10)
	}
	bits := 64
	if frac == 8 {
		bits = 32
	}
	return strconv.FormatFloat(float64(num)/float64(den), 'f', decimals, bits)
}

var (
	fixI1616 = Custom(func(n *Node) (string, bool) { return fixedStr(int64(int32(n.I)), 16, 5), true })
	fixU1616 = Custom(func(n *Node) (string, bool) {
		// the integral part is printed from the upper 16 bits
		return fixedStr(int64(n.U), 16, 5), true
	})
	fixI88 = Custom(func(n *Node) (string, bool) { return fixedStr(n.I, 8, 3), true })
)

func UUIDString(b []byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16])
}

func cover(body func(c *Codec)) func(c *Codec) { return body }

func sampleEntry(c *Codec) {
	c.Ext("SampleEntry", func() {
		c.Bytes("Reserved", 6, Const)
		c.U("DataReferenceIndex", 16)
	})
}

func times(c *Codec, names ...string) {
	for _, n := range names {
		if c.ver == 0 {
			c.U(n+"V0", 32)
		} else {
			c.U(n+"V1", 64)
		}
	}
}

func visual(c *Codec) {
	sampleEntry(c)
	c.U("PreDefined", 16)
	c.U("Reserved", 16, Const)
	c.ListU("PreDefined2", 3, 32)
	c.U("Width", 16)
	c.U("Height", 16)
	c.U("Horizresolution", 32)
	c.U("Vertresolution", 32)
	c.U("Reserved2", 32, Const)
	c.U("FrameCount", 16)
	cn := c.Bytes("Compressorname", 32, Custom(func(n *Node) (string, bool) {
		if n.Raw[0] <= 31 {
			return `"` + Escape(string(n.Raw[1:1+int(n.Raw[0])])) + `"`, true
		}
		return "", false
	}))
	if !c.Dec && c.R.IntN(3) != 0 { // usually a proper Pascal string
		cn[0] = byte(c.R.IntN(33))
		c.data[len(c.data)-32] = cn[0]
	}
	c.U("Depth", 16)
	c.I("PreDefined3", 16)
}

func audio(c *Codec) {
	qt := c.Ctx.IsQuickTimeCompatible
	if qt && c.Ctx.UnderWave {
		c.Rest("QuickTimeData")
		return
	}
	sampleEntry(c)
	ev := c.U("EntryVersion", 16, func(o *fopt) {
		o.draw = func(r *rand.Rand) uint64 {
			if r.IntN(4) == 0 {
				return DrawUint(r, 16)
			}
			return uint64(r.IntN(4))
		}
	})
	c.ListU("Reserved", 3, 16, Const)
	c.U("ChannelCount", 16)
	c.U("SampleSize", 16)
	c.U("PreDefined", 16)
	c.U("Reserved2", 16, Const)
	c.U("SampleRate", 32, fixU1616)
	if qt && ev == 1 {
		c.Bytes("QuickTimeData", 16)
	} else if qt && ev == 2 {
		c.Bytes("QuickTimeData", 36)
	}
}

func paramSet(c *Codec) func() {
	return func() {
		n := c.Count("Length", 16)
		c.Bytes("NALUnit", n)
	}
}

func highProfile(p uint64) bool { return p == 100 || p == 110 || p == 122 || p == 144 }

func avcC(c *Codec) {
	c.U8("ConfigurationVersion", 8)
	prof := c.U8("Profile", 8, func(o *fopt) {
		o.draw = func(r *rand.Rand) uint64 {
			if r.IntN(3) == 0 {
				return DrawUint(r, 8)
			}
			return []uint64{66, 77, 88, 100, 110, 122, 144}[r.IntN(7)]
		}
	})
	c.U8("ProfileCompatibility", 8)
	c.U8("Level", 8)
	c.U8("Reserved", 6, Const)
	c.U8("LengthSizeMinusOne", 2)
	c.U8("Reserved2", 3, Const)
	n := c.Count8("NumOfSequenceParameterSets", 5)
	c.List("SequenceParameterSets", n, 0, paramSet(c))
	n = c.Count8("NumOfPictureParameterSets", 8)
	c.List("PictureParameterSets", n, 0, paramSet(c))
	var high bool
	if c.Dec {
		high = highProfile(prof) && c.Left() >= 32
	} else {
		high = highProfile(prof) && c.R.IntN(3) != 0
	}
	c.Derived("HighProfileFieldsEnabled", high)
	if high {
		c.U8("Reserved3", 6, Const)
		c.U8("ChromaFormat", 2)
		c.U8("Reserved4", 5, Const)
		c.U8("BitDepthLumaMinus8", 3)
		c.U8("Reserved5", 5, Const)
		c.U8("BitDepthChromaMinus8", 3)
		n = c.Count8("NumOfSequenceParameterSetExt", 8)
		c.List("SequenceParameterSetsExt", n, 0, paramSet(c))
	}
}

func hvcC(c *Codec) {
	c.U8("ConfigurationVersion", 8)
	c.U8("GeneralProfileSpace", 2)
	c.Bool("GeneralTierFlag")
	c.U8("GeneralProfileIdc", 5)
	c.ListBool("GeneralProfileCompatibility", 32)
	c.Bytes("GeneralConstraintIndicator", 6)
	c.U8("GeneralLevelIdc", 8)
	c.U8("Reserved1", 4, Const)
	c.U("MinSpatialSegmentationIdc", 12)
	c.U8("Reserved2", 6, Const)
	c.U8("ParallelismType", 2)
	c.U8("Reserved3", 6, Const)
	c.U8("ChromaFormatIdc", 2)
	c.U8("Reserved4", 5, Const)
	c.U8("BitDepthLumaMinus8", 3)
	c.U8("Reserved5", 5, Const)
	c.U8("BitDepthChromaMinus8", 3)
	c.U("AvgFrameRate", 16)
	c.U8("ConstantFrameRate", 2)
	c.U8("NumTemporalLayers", 2)
	c.U8("TemporalIdNested", 2)
	c.U8("LengthSizeMinusOne", 2)
	n := c.Count8("NumOfNaluArrays", 8)
	c.List("NaluArrays", n, 0, func() {
		c.Bool("Completeness")
		c.Bool("Reserved")
		c.U8("NaluType", 6)
		m := c.Count("NumNalus", 16)
		c.List("Nalus", m, 0, paramSet(c))
	})
}

func (c *Codec) varint(name string, draw func(r *rand.Rand) uint64) uint64 {
	var v uint64
	if c.Dec {
		for i := 0; ; i++ {
			b := c.getBits(8)
			v = v<<7 | b&0x7f
			if v>>32 != 0 {
				c.fail(ErrRange) // no such length
			}
			if b&0x80 == 0 {
				if i > 3 {
					c.Unspecified() // the format allows at most four octets
				}
				break
			}
			if i > 20 {
				c.Unspecified()
			}
		}
	} else {
		v = draw(c.R)
		for s := 21; s >= 0; s -= 7 {
			b := v >> uint(s) & 0x7f
			if s > 0 {
				b |= 0x80
			}
			c.putBits(b, 8)
		}
	}
	c.add(&Node{Name: name, Kind: KUint, U: v})
	return v
}

func descriptor(c *Codec) func() {
	return func() {
		tag := c.I("Tag", 8, Custom(func(n *Node) (string, bool) {
			switch n.I {
			case 3:
				return "ESDescr", true
			case 4:
				return "DecoderConfigDescr", true
			case 5:
				return "DecSpecificInfo", true
			case 6:
				return "SLConfigDescr", true
			}
			return "", false
		}), func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 {
				if r.IntN(6) == 0 {
					return DrawUint(r, 8)
				}
				return uint64(3 + r.IntN(4))
			}
		})
		size := c.varint("Size", func(r *rand.Rand) uint64 {
			if tag == 3 || tag == 4 {
				return DrawUint(r, 28)
			}
			if r.IntN(12) == 0 {
				return uint64(r.IntN(300)) // crosses the 7-bit boundary
			}
			return c.byteLen()
		})
		switch tag {
		case 3:
			c.Ptr("ESDescriptor", func() {
				c.U("ESID", 16)
				dep := c.Bool("StreamDependenceFlag")
				url := c.Bool("UrlFlag")
				ocr := c.Bool("OcrStreamFlag")
				c.I("StreamPriority", 5)
				if dep {
					c.U("DependsOnESID", 16)
				}
				if url {
					n := c.Count8("URLLength", 8)
					c.Bytes("URLString", n, Str)
				}
				if ocr {
					c.U("OCRESID", 16)
				}
			})
		case 4:
			c.Ptr("DecoderConfigDescriptor", func() {
				c.U8("ObjectTypeIndication", 8)
				c.I("StreamType", 6)
				c.Bool("UpStream")
				c.Bool("Reserved")
				c.U("BufferSizeDB", 24)
				c.U("MaxBitrate", 32)
				c.U("AvgBitrate", 32)
			})
		default:
			c.Bytes("Data", size)
		}
	}
}

func esds(c *Codec) {
	c.Full(v0)
	l := &Node{Name: "Descriptors", Kind: KList}
	if c.Dec {
		for c.Left() > 0 {
			l.Kids = append(l.Kids, c.sub("", KStruct, descriptor(c)))
		}
	} else {
		for i := c.ListLen(); i > 0; i-- {
			l.Kids = append(l.Kids, c.sub("", KStruct, descriptor(c)))
		}
	}
	c.add(l)
}

func dataBody(c *Codec) {
	t := c.U("DataType", 32, func(o *fopt) {
		o.draw = func(r *rand.Rand) uint64 {
			if r.IntN(4) == 0 {
				return DrawUint(r, 32)
			}
			return []uint64{0, 1, 1, 2, 3, 13, 14, 21, 22, 23}[r.IntN(10)]
		}
	}, Custom(func(n *Node) (string, bool) {
		s, ok := map[uint64]string{0: "BINARY", 1: "UTF8", 2: "UTF16", 3: "MAC_STR", 14: "JPEG",
			21: "INT", 22: "FLOAT32", 23: "FLOAT64"}[n.U]
		return s, ok
	}))
	c.U("DataLang", 32)
	if t == 1 {
		c.Rest("Data", quoted)
	} else {
		c.Rest("Data")
	}
}

func brands(c *Codec) {
	cc := []string{"isom", "iso2", "mp41", "mp42", "avc1", "dash", "iso6", "M4A "}
	c.FourCC("MajorBrand", cc, Str)
	c.U("MinorVersion", 32)
	c.ListRest("CompatibleBrands", 32, func() { c.FourCC("CompatibleBrand", cc, Str) })
}

func sgpdAlst(c *Codec) func() {
	return func() {
		n := c.Count("RollCount", 16)
		c.U("FirstOutputSample", 16)
		c.ListU("SampleOffset", n, 32)
		c.ListRest("Opts", 32, func() {
			c.U("NumOutputSamples", 16)
			c.U("NumTotalSamples", 16)
		})
	}
}

func sgpd(c *Codec) {
	c.Full(v12)
	gt := c.FourCC("GroupingType", []string{"roll", "prol", "alst", "rap ", "tele", "seig"}, Str)
	ver := c.ver
	// canonical element size per grouping type
	dl := uint64(0)
	var alstLen uint64
	if ver == 1 {
		dl = c.U("DefaultLength", 32, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 {
				if r.IntN(2) == 0 {
					return 0
				}
				switch gt {
				case "roll", "prol":
					return 2
				case "alst":
					return 4 + 4*uint64(r.IntN(6))
				case "rap ", "tele":
					return 1
				}
				return DrawUint(r, 32)
			}
		})
		alstLen = dl
	} else {
		c.U("DefaultSampleDescriptionIndex", 32)
	}
	perEntry := ver == 1 && dl == 0
	n := c.Count("EntryCount", 32)
	alst := func(size uint64) {
		if c.Dec {
			sgpdAlst(c)()
			return
		}
		roll := uint64(c.R.IntN(int((size-4)/4) + 1))
		c.U("RollCount", 16, Fixed(roll))
		c.U("FirstOutputSample", 16)
		c.ListU("SampleOffset", roll, 32)
		c.List("Opts", (size-4)/4-roll, 32, func() {
			c.U("NumOutputSamples", 16)
			c.U("NumTotalSamples", 16)
		})
		c.cur.Kid("Opts").O.Counted = false
	}
	switch gt {
	case "roll", "prol":
		if !perEntry {
			if c.Dec && ver == 1 && dl != 2 {
				c.Unspecified()
			}
			c.ListI("RollDistances", n, 16)
		} else {
			c.List("RollDistancesL", n, 48, func() {
				c.U("DescriptionLength", 32)
				c.I("RollDistance", 16)
			})
		}
	case "alst":
		if !perEntry {
			if ver != 1 {
				// no entry length on the wire: one entry may take everything that is left
				if c.Dec && n > 1 {
					c.Unspecified()
				}
				if !c.Dec && n > 1 {
					c.setCount("EntryCount", 1, 32)
					n = 1
				}
				size := uint64(4)
				if !c.Dec {
					size = 4 + 4*uint64(c.R.IntN(6))
				}
				c.List("AlternativeStartupEntries", n, 0, func() { alst(size) })
			} else {
				if c.Dec && n > 0 && alstLen*8 > uint64(c.Left()) {
					c.fail(ErrTrunc)
				}
				c.List("AlternativeStartupEntries", n, 0, func() { c.Sized(alstLen, func() { alst(alstLen) }) })
			}
		} else {
			c.List("AlternativeStartupEntriesL", n, 0, func() {
				var sz uint64
				if !c.Dec {
					sz = 4 + 4*uint64(c.R.IntN(6))
				}
				l := c.U("DescriptionLength", 32, Fixed(sz))
				if c.Dec && l == 0 {
					c.Unspecified()
				}
				c.Ext("AlternativeStartupEntry", func() { c.Sized(l, func() { alst(l) }) })
			})
		}
	case "rap ", "tele":
		ent := func() {
			if gt == "rap " {
				c.Bool("NumLeadingSamplesKnown")
				c.U8("NumLeadingSamples", 7)
			} else {
				c.Bool("LevelIndependentlyDecodable")
				c.U8("Reserved", 7, Const)
			}
		}
		nm := map[string]string{"rap ": "VisualRandomAccessEntr", "tele": "TemporalLevelEntr"}[gt]
		if !perEntry {
			c.List(nm+"ies", n, 8, ent)
		} else {
			c.List(nm+"iesL", n, 40, func() {
				c.U("DescriptionLength", 32)
				c.Ext(nm+"y", ent)
			})
		}
	default:
		c.Rest("Unsupported")
	}
}

// setCount rewrites an already emitted count field that ends at the current position.
func (c *Codec) setCount(name string, v uint64, bits int) {
	c.cur.Kid(name).U = v
	b := c.data[len(c.data)-bits/8:]
	for i := range b {
		b[i] = byte(v >> uint(8*(len(b)-1-i)))
	}
}

func hdlr(c *Codec) {
	c.Full(v0)
	pre := c.U("PreDefined", 32, func(o *fopt) {
		o.draw = func(r *rand.Rand) uint64 {
			if r.IntN(3) > 0 {
				return 0
			}
			return DrawUint(r, 32)
		}
	})
	c.FourCC("HandlerType", []string{"vide", "soun", "mdir", "meta", "text"}, Str)
	c.ListU("Reserved", 3, 32, Const)
	if !c.Dec {
		s := c.text()
		if pre != 0 && len(s) > 0 && int(s[0]) == len(s) {
			s = "~~" + s // would read back as a Pascal string
			if int(s[0]) == len(s) {
				s = "x" + s
			}
		}
		c.putBytes([]byte(s))
		c.putBits(0, 8)
		c.add(&Node{Name: "Name", Kind: KString, S: s})
		return
	}
	rest := c.rest
	b := c.getBytes(c.Left() / 8)
	c.rest = rest
	var s string
	if pre != 0 && len(b) >= 2 && int(b[0]) == len(b)-1 {
		s = string(b[1:])
	} else {
		s = string(b)
		if i := strings.IndexByte(s, 0); i >= 0 {
			s = s[:i]
		}
	}
	c.add(&Node{Name: "Name", Kind: KString, S: s})
}

func emsg(c *Codec) {
	c.Full(v01)
	if c.ver == 0 {
		c.Str("SchemeIdUri")
		c.Str("Value")
		c.U("Timescale", 32)
		c.U("PresentationTimeDelta", 32)
		c.U("EventDuration", 32)
		c.U("Id", 32)
	} else {
		c.U("Timescale", 32)
		c.U("PresentationTime", 64)
		c.U("EventDuration", 32)
		c.U("Id", 32)
		c.StrStrict("SchemeIdUri")
		c.StrStrict("Value")
	}
	c.Rest("MessageData", Str)
	c.Reorder("FullBox", "SchemeIdUri", "Value", "Timescale", "PresentationTimeDelta", "PresentationTime",
		"EventDuration", "Id", "MessageData")
}

func pssh(c *Codec) {
	c.Full(v01)
	c.Bytes("SystemID", 16, UUID)
	if c.ver != 0 {
		n := c.Count("KIDCount", 32)
		c.List("KIDs", n, 128, func() { c.Bytes("KID", 16, UUID) }, Custom(func(n *Node) (string, bool) {
			var s []string
			for _, k := range n.Kids {
				s = append(s, UUIDString(k.Kids[0].Raw))
			}
			return "[" + strings.Join(s, ", ") + "]", true
		}))
	}
	sz := c.I("DataSize", 32, func(o *fopt) {
		o.draw = func(r *rand.Rand) uint64 { return c.byteLen() }
	})
	if sz < 0 {
		c.fail(ErrTrunc)
	}
	c.Bytes("Data", uint64(sz))
}

func init() {
	for _, x := range [][2]string{{"dinf", "Dinf"}, {"edts", "Edts"}, {"mdia", "Mdia"}, {"mfra", "Mfra"}, {"minf", "Minf"},
		{"moof", "Moof"}, {"moov", "Moov"}, {"mvex", "Mvex"}, {"schi", "Schi"}, {"sinf", "Sinf"}, {"stbl", "Stbl"},
		{"traf", "Traf"}, {"trak", "Trak"}, {"udta", "Udta"}, {"wave", "Wave"}, {"ilst", "Ilst"},
		{"vttc", "VTTCueBox"}, {"vtte", "VTTEmptyCueBox"}} {
		def(x[0], x[1], nil, func(c *Codec) {}).Container = true
	}
	def("btrt", "Btrt", nil, func(c *Codec) {
		c.U("BufferSizeDB", 32)
		c.U("MaxBitrate", 32)
		c.U("AvgBitrate", 32)
	})
	def("co64", "Co64", v0, func(c *Codec) {
		c.Full(v0)
		c.ListU("ChunkOffset", c.Count("EntryCount", 32), 64)
	})
	def("colr", "Colr", nil, func(c *Codec) {
		t := c.FourCC("ColourType", []string{"nclx", "rICC", "prof", "nclc"}, Str)
		switch t {
		case "nclx":
			c.U("ColourPrimaries", 16)
			c.U("TransferCharacteristics", 16)
			c.U("MatrixCoefficients", 16)
			c.Bool("FullRangeFlag")
			c.U8("Reserved", 7)
		case "rICC", "prof":
			c.Rest("Profile")
		default:
			c.Rest("Unknown")
		}
	})
	def("cslg", "Cslg", v01, func(c *Codec) {
		c.Full(v01)
		for _, n := range []string{"CompositionToDTSShift", "LeastDecodeToDisplayDelta", "GreatestDecodeToDisplayDelta",
			"CompositionStartTime", "CompositionEndTime"} {
			if c.ver == 0 {
				c.I(n+"V0", 32)
			} else {
				c.I(n+"V1", 64)
			}
		}
	})
	def("ctts", "Ctts", v01, func(c *Codec) {
		c.Full(v01)
		c.List("Entries", c.Count("EntryCount", 32), 64, func() {
			c.U("SampleCount", 32)
			if c.ver == 0 {
				c.U("SampleOffsetV0", 32)
			} else {
				c.I("SampleOffsetV1", 32)
			}
		})
	})
	entryCountOnly := func(c *Codec) {
		c.Full(v0)
		c.U("EntryCount", 32)
	}
	def("dref", "Dref", v0, entryCountOnly).Container = true
	def("stsd", "Stsd", v0, entryCountOnly).Container = true
	def("url ", "Url", v0, func(c *Codec) {
		c.Full(v0, 1)
		if c.flags&1 == 0 {
			c.Str("Location")
		}
	})
	def("urn ", "Urn", v0, func(c *Codec) {
		c.Full(v0, 1)
		if c.flags&1 == 0 {
			c.Str("Name")
			c.Str("Location")
		}
	})
	def("elst", "Elst", v01, func(c *Codec) {
		c.Full(v01)
		n := c.Count("EntryCount", 32)
		bits := 96
		if c.ver == 1 {
			bits = 160
		}
		c.List("Entries", n, bits, func() {
			if c.ver == 0 {
				c.U("SegmentDurationV0", 32)
				c.I("MediaTimeV0", 32)
			} else {
				c.U("SegmentDurationV1", 64)
				c.I("MediaTimeV1", 64)
			}
			c.I("MediaRateInteger", 16)
			c.I("MediaRateFraction", 16, Const)
		})
	})
	def("emsg", "Emsg", v01, emsg)
	def("fiel", "Fiel", nil, func(c *Codec) {
		c.U8("FieldCount", 8)
		c.U8("FieldOrdering", 8)
	})
	def("free", "Free", nil, func(c *Codec) { c.Rest("Data") })
	def("skip", "Skip", nil, func(c *Codec) { c.Rest("Data") })
	def("mdat", "Mdat", nil, func(c *Codec) { c.Rest("Data") })
	def("frma", "Frma", nil, func(c *Codec) { c.FourCC("DataFormat", []string{"avc1", "mp4a"}, Str) })
	def("ftyp", "Ftyp", nil, brands)
	def("styp", "Styp", nil, brands)
	def("hdlr", "Hdlr", v0, hdlr).Alt = func(r *rand.Rand) []byte {
		b := make([]byte, 24)
		b[7] = byte(r.IntN(2)) // pre_defined
		copy(b[8:], "mhlr")
		n := []int{0, 1, 2, 31, 127, 128, 254, 255, r.IntN(256)}[r.IntN(9)]
		b = append(append(b, byte(n)), drawBytes(r, n)...)
		if r.IntN(6) == 0 {
			b = append(b, 0)
		}
		return b
	}
	def("hvcC", "HvcC", nil, hvcC)
	def("mdhd", "Mdhd", v01, func(c *Codec) {
		c.Full(v01)
		times(c, "CreationTime", "ModificationTime")
		c.U("Timescale", 32)
		times(c, "Duration")
		c.Bool("Pad", Hidden)
		language(c)
		c.U("PreDefined", 16)
	})
	def("mehd", "Mehd", v01, func(c *Codec) {
		c.Full(v01)
		times(c, "FragmentDuration")
	})
	def("meta", "Meta", v0, func(c *Codec) {
		if c.Dec {
			// a QuickTime meta has no version and flags: its payload starts with a child header
			if len(c.data) < 4 || binary.BigEndian.Uint32(c.data) != 0 {
				c.Ext("FullBox", func() {
					c.add(&Node{Name: "Version", Kind: KUint, U8: true, O: fopt{Dec: true}})
					c.add(&Node{Name: "Flags", Kind: KBytes, Raw: make([]byte, 3), O: fopt{Custom: func(n *Node) (string, bool) {
						return "0x000000", true
					}}})
				})
				return
			}
			c.Full(v0)
			return
		}
		c.Ext("FullBox", func() {
			c.U8("Version", 8, Dec, Fixed(0))
			c.putBits(0, 24)
			c.add(&Node{Name: "Flags", Kind: KBytes, Raw: make([]byte, 3), O: fopt{Custom: func(n *Node) (string, bool) {
				return "0x000000", true
			}}})
		})
	}).Container = true
	def("mfhd", "Mfhd", v0, func(c *Codec) { c.Full(v0); c.U("SequenceNumber", 32) })
	def("mfro", "Mfro", v0, func(c *Codec) { c.Full(v0); c.U("Size", 32) })
	def("mvhd", "Mvhd", v01, func(c *Codec) {
		c.Full(v01)
		times(c, "CreationTime", "ModificationTime")
		c.U("Timescale", 32)
		times(c, "Duration")
		c.I("Rate", 32, fixI1616)
		c.I("Volume", 16)
		c.I("Reserved", 16, Const)
		c.ListU("Reserved2", 2, 32, Const)
		c.ListI("Matrix", 9, 32, Hex)
		c.ListI("PreDefined", 6, 32)
		c.U("NextTrackID", 32)
	})
	def("saio", "Saio", v01, func(c *Codec) {
		c.Full(v01, 1)
		if c.flags&1 != 0 {
			c.FourCC("AuxInfoType", []string{"cenc", "cbcs"}, Str)
			c.U("AuxInfoTypeParameter", 32, Hex)
		}
		n := c.Count("EntryCount", 32)
		if c.ver == 0 {
			c.ListU("OffsetV0", n, 32)
		} else {
			c.ListU("OffsetV1", n, 64)
		}
	})
	def("saiz", "Saiz", v0, func(c *Codec) {
		c.Full(v0, 1)
		if c.flags&1 != 0 {
			c.FourCC("AuxInfoType", []string{"cenc", "cbcs"}, Str)
			c.U("AuxInfoTypeParameter", 32, Hex)
		}
		d := c.U8("DefaultSampleInfoSize", 8, Dec, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 { return DrawUint(r, 8) * uint64(r.IntN(2)) }
		})
		if d == 0 {
			n := c.Count("SampleCount", 32)
			c.Bytes("SampleInfoSize", n, Dec)
		} else {
			c.U("SampleCount", 32)
		}
	})
	for _, t := range []string{"mp4v", "avc1", "encv", "hev1", "hvc1", "av01", "vp08", "vp09"} {
		def(t, "VisualSampleEntry", nil, visual).Container = true
	}
	for _, t := range []string{"mp4a", "enca", "ac-3", "ipcm", "fpcm", "Opus"} {
		def(t, "AudioSampleEntry", nil, audio).Container = true
	}
	def("avcC", "AVCDecoderConfiguration", nil, avcC)
	def("pasp", "PixelAspectRatioBox", nil, func(c *Codec) { c.U("HSpacing", 32); c.U("VSpacing", 32) })
	def("stpp", "XMLSubtitleSampleEntry", nil, func(c *Codec) {
		sampleEntry(c)
		c.Str("Namespace")
		c.Str("SchemaLocation")
		c.Str("AuxiliaryMIMETypes")
	}).Container = true
	def("sbtt", "TextSubtitleSampleEntry", nil, func(c *Codec) {
		sampleEntry(c)
		c.Str("ContentEncoding")
		c.Str("MIMEFormat")
	}).Container = true
	def("wvtt", "WVTTSampleEntry", nil, sampleEntry).Container = true
	def("sbgp", "Sbgp", v01, func(c *Codec) {
		c.Full(v01)
		c.U("GroupingType", 32)
		if c.ver == 1 {
			c.U("GroupingTypeParameter", 32)
		}
		c.List("Entries", c.Count("EntryCount", 32), 64, func() {
			c.U("SampleCount", 32)
			c.U("GroupDescriptionIndex", 32)
		})
	})
	def("schm", "Schm", v0, func(c *Codec) {
		c.Full(v0, 1)
		c.FourCC("SchemeType", []string{"cenc", "cbcs"}, Str)
		c.U("SchemeVersion", 32, Hex)
		if c.flags&1 != 0 {
			c.Rest("SchemeUri", Str)
		}
	})
	def("sdtp", "Sdtp", v0, func(c *Codec) {
		c.Full(v0)
		c.ListRest("Samples", 8, func() {
			c.U8("IsLeading", 2)
			c.U8("SampleDependsOn", 2)
			c.U8("SampleIsDependedOn", 2)
			c.U8("SampleHasRedundancy", 2)
		})
	})
	def("sgpd", "Sgpd", v12, sgpd)
	def("sidx", "Sidx", v01, func(c *Codec) {
		c.Full(v01)
		c.U("ReferenceID", 32)
		c.U("Timescale", 32)
		times(c, "EarliestPresentationTime", "FirstOffset")
		c.U("Reserved", 16, Const)
		c.List("References", c.Count("ReferenceCount", 16), 96, func() {
			c.Bool("ReferenceType")
			c.U("ReferencedSize", 31)
			c.U("SubsegmentDuration", 32)
			c.Bool("StartsWithSAP")
			c.U("SAPType", 3)
			c.U("SAPDeltaTime", 28)
		})
	})
	def("smhd", "Smhd", v0, func(c *Codec) {
		c.Full(v0)
		c.I("Balance", 16, fixI88)
		c.U("Reserved", 16, Const)
	})
	def("stco", "Stco", v0, func(c *Codec) {
		c.Full(v0)
		c.ListU("ChunkOffset", c.Count("EntryCount", 32), 32)
	})
	def("stsc", "Stsc", v0, func(c *Codec) {
		c.Full(v0)
		c.List("Entries", c.Count("EntryCount", 32), 96, func() {
			c.U("FirstChunk", 32)
			c.U("SamplesPerChunk", 32)
			c.U("SampleDescriptionIndex", 32)
		})
	})
	def("stss", "Stss", v0, func(c *Codec) {
		c.Full(v0)
		c.ListU("SampleNumber", c.Count("EntryCount", 32), 32)
	})
	def("stsz", "Stsz", v0, func(c *Codec) {
		c.Full(v0)
		s := c.U("SampleSize", 32, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 { return DrawUint(r, 32) * uint64(r.IntN(2)) }
		})
		if s == 0 {
			c.ListU("EntrySize", c.Count("SampleCount", 32), 32)
		} else {
			c.U("SampleCount", 32)
			c.ListU("EntrySize", 0, 32)
		}
	})
	def("stts", "Stts", v0, func(c *Codec) {
		c.Full(v0)
		c.List("Entries", c.Count("EntryCount", 32), 64, func() {
			c.U("SampleCount", 32)
			c.U("SampleDelta", 32)
		})
	})
	def("tfdt", "Tfdt", v01, func(c *Codec) { c.Full(v01); times(c, "BaseMediaDecodeTime") })
	def("tfhd", "Tfhd", v0, func(c *Codec) {
		c.Full(v0, 1, 2, 8, 0x10, 0x20, 0x10000, 0x20000)
		c.U("TrackID", 32)
		if c.flags&1 != 0 {
			c.U("BaseDataOffset", 64)
		}
		if c.flags&2 != 0 {
			c.U("SampleDescriptionIndex", 32)
		}
		if c.flags&8 != 0 {
			c.U("DefaultSampleDuration", 32)
		}
		if c.flags&0x10 != 0 {
			c.U("DefaultSampleSize", 32)
		}
		if c.flags&0x20 != 0 {
			c.U("DefaultSampleFlags", 32, Hex)
		}
	})
	def("tfra", "Tfra", v01, func(c *Codec) {
		c.Full(v01)
		c.U("TrackID", 32)
		c.U("Reserved", 26, Const)
		a := c.U8("LengthSizeOfTrafNum", 2)
		b := c.U8("LengthSizeOfTrunNum", 2)
		s := c.U8("LengthSizeOfSampleNum", 2)
		n := c.Count("NumberOfEntry", 32)
		tb := 64
		if c.ver == 1 {
			tb = 128
		}
		c.List("Entries", n, tb+8*int(a+b+s+3), func() {
			times(c, "Time", "MoofOffset")
			c.U("TrafNumber", 8*int(a+1))
			c.U("TrunNumber", 8*int(b+1))
			c.U("SampleNumber", 8*int(s+1))
		})
	})
	def("tkhd", "Tkhd", v01, func(c *Codec) {
		c.Full(v01, 1, 2, 4)
		times(c, "CreationTime", "ModificationTime")
		c.U("TrackID", 32)
		c.U("Reserved0", 32, Const)
		times(c, "Duration")
		c.ListU("Reserved1", 2, 32, Const)
		c.I("Layer", 16)
		c.I("AlternateGroup", 16)
		c.I("Volume", 16)
		c.U("Reserved2", 16, Const)
		c.ListI("Matrix", 9, 32, Hex)
		c.U("Width", 32, fixU1616)
		c.U("Height", 32, fixU1616)
	})
	def("trep", "Trep", v0, func(c *Codec) { c.Full(v0); c.U("TrackID", 32) }).Container = true
	def("trex", "Trex", v0, func(c *Codec) {
		c.Full(v0)
		c.U("TrackID", 32)
		c.U("DefaultSampleDescriptionIndex", 32)
		c.U("DefaultSampleDuration", 32)
		c.U("DefaultSampleSize", 32)
		c.U("DefaultSampleFlags", 32, Hex)
	})
	def("trun", "Trun", v01, func(c *Codec) {
		c.Full(v01, 1, 4, 0x100, 0x200, 0x400, 0x800)
		n := c.Count("SampleCount", 32)
		if c.flags&1 != 0 {
			c.I("DataOffset", 32)
		}
		if c.flags&4 != 0 {
			c.U("FirstSampleFlags", 32, Hex)
		}
		bits := 0
		for _, f := range []uint32{0x100, 0x200, 0x400, 0x800} {
			if c.flags&f != 0 {
				bits += 32
			}
		}
		if bits == 0 {
			bits = -1
		}
		c.List("Entries", n, bits, func() {
			if c.flags&0x100 != 0 {
				c.U("SampleDuration", 32)
			}
			if c.flags&0x200 != 0 {
				c.U("SampleSize", 32)
			}
			if c.flags&0x400 != 0 {
				c.U("SampleFlags", 32, Hex)
			}
			if c.flags&0x800 != 0 {
				if c.ver == 0 {
					c.U("SampleCompositionTimeOffsetV0", 32)
				} else {
					c.I("SampleCompositionTimeOffsetV1", 32)
				}
			}
		})
	})
	def("vmhd", "Vmhd", v0, func(c *Codec) {
		c.Full(v0)
		c.U("Graphicsmode", 16)
		c.ListU("Opcolor", 3, 16)
	})
	// MPEG-4 systems
	def("esds", "Esds", v0, esds).Alt = func(r *rand.Rand) []byte {
		b := make([]byte, 4)
		vi := func(v uint64) {
			min := 1
			for v>>uint(7*min) != 0 {
				min++
			}
			for i := min + r.IntN(5-min); i > 0; i-- {
				x := byte(v>>uint(7*(i-1))) & 0x7f
				if i > 1 {
					x |= 0x80
				}
				b = append(b, x)
			}
		}
		for k := r.IntN(4); k >= 0; k-- {
			switch tag := byte(r.IntN(7)); tag {
			case 3:
				b = append(b, 3)
				vi(DrawUint(r, 27))
				b = append(b, byte(r.Uint32()), byte(r.Uint32()), byte(r.IntN(32)))
			case 4:
				b = append(b, 4)
				vi(DrawUint(r, 27))
				b = append(b, drawBytes(r, 13)...)
			default:
				n := []int{0, 1, 5, 127, 128, 300}[r.IntN(6)]
				b = append(b, tag)
				vi(uint64(n))
				b = append(b, drawBytes(r, n)...)
			}
		}
		return b
	}
	// WebVTT
	for _, x := range [][3]string{{"vttC", "WebVTTConfigurationBox", "Config"}, {"vlab", "WebVTTSourceLabelBox", "SourceLabel"},
		{"ctim", "CueTimeBox", "CueCurrentTime"}, {"iden", "CueIDBox", "CueId"}, {"sttg", "CueSettingsBox", "Settings"},
		{"payl", "CuePayloadBox", "CueText"}, {"vtta", "VTTAdditionalTextBox", "CueAdditionalText"}} {
		x := x
		def(x[0], x[1], nil, func(c *Codec) { c.BoxStr(x[2]) })
	}
	def("vsid", "CueSourceIDBox", nil, func(c *Codec) { c.U("SourceId", 32) })
	// protection
	def("pssh", "Pssh", v01, pssh)
	def("tenc", "Tenc", v01, func(c *Codec) {
		c.Full(v01)
		c.U8("Reserved", 8, Dec)
		c.U8("DefaultCryptByteBlock", 4, Dec)
		c.U8("DefaultSkipByteBlock", 4, Dec)
		p := c.U8("DefaultIsProtected", 8, Dec, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 { return []uint64{0, 1, 1, 1, DrawUint(r, 8)}[r.IntN(5)] }
		})
		iv := c.U8("DefaultPerSampleIVSize", 8, Dec, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 { return []uint64{0, 0, 8, 16, DrawUint(r, 8)}[r.IntN(5)] }
		})
		c.Bytes("DefaultKID", 16, UUID)
		if p == 1 && iv == 0 {
			n := c.Count8("DefaultConstantIVSize", 8, Dec)
			c.Bytes("DefaultConstantIV", n)
		}
	})
	// codecs
	def("av1C", "Av1C", nil, func(c *Codec) {
		c.U8("Marker", 1, Const)
		c.U8("Version", 7, Const)
		c.U8("SeqProfile", 3)
		c.U8("SeqLevelIdx0", 5)
		c.U8("SeqTier0", 1)
		c.U8("HighBitdepth", 1)
		c.U8("TwelveBit", 1)
		c.U8("Monochrome", 1)
		c.U8("ChromaSubsamplingX", 1)
		c.U8("ChromaSubsamplingY", 1)
		c.U8("ChromaSamplePosition", 2)
		c.U8("Reserved", 3, Const)
		c.U8("InitialPresentationDelayPresent", 1)
		c.U8("InitialPresentationDelayMinusOne", 4)
		c.Rest("ConfigOBUs")
	})
	def("dac3", "Dac3", nil, func(c *Codec) {
		c.U8("Fscod", 2)
		c.U8("Bsid", 5)
		c.U8("Bsmod", 3)
		c.U8("Acmod", 3)
		c.U8("LfeOn", 1)
		c.U8("BitRateCode", 5)
		c.U8("Reserved", 5, Const)
	})
	def("pcmC", "PcmC", v01, func(c *Codec) {
		c.Full(v01)
		c.U8("FormatFlags", 8)
		c.U8("PCMSampleSize", 8)
	})
	def("vpcC", "VpcC", nil, func(c *Codec) {
		c.Full(nil)
		c.U8("Profile", 8)
		c.U8("Level", 8)
		c.U8("BitDepth", 4)
		c.U8("ChromaSubsampling", 3)
		c.U8("VideoFullRangeFlag", 1)
		c.U8("ColourPrimaries", 8)
		c.U8("TransferCharacteristics", 8)
		c.U8("MatrixCoefficients", 8)
		n := c.Count("CodecInitializationDataSize", 16)
		c.Bytes("CodecInitializationData", n)
	})
	def("dOps", "DOps", nil, func(c *Codec) {
		c.U8("Version", 8, Dec)
		n := c.U8("OutputChannelCount", 8, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 { return c.byteLen() }
		})
		c.U("PreSkip", 16)
		c.U("InputSampleRate", 32)
		c.I("OutputGain", 16)
		f := c.U8("ChannelMappingFamily", 8, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 { return []uint64{0, 1, 2, 255, DrawUint(r, 8)}[r.IntN(5)] }
		})
		if f != 0 {
			c.U8("StreamCount", 8)
			c.U8("CoupledCount", 8)
			c.Bytes("ChannelMapping", n)
		}
	})
	// metadata
	def("keys", "Keys", nil, func(c *Codec) {
		c.Full(nil)
		n := c.I("EntryCount", 32, func(o *fopt) { o.draw = func(*rand.Rand) uint64 { return c.ListLen() } })
		if n < 0 {
			c.fail(ErrTrunc)
		}
		c.List("Entries", uint64(n), 0, func() {
			sz := c.I("KeySize", 32, func(o *fopt) {
				o.draw = func(r *rand.Rand) uint64 { return 8 + c.byteLen() }
			})
			c.Bytes("KeyNamespace", 4, quoted)
			if sz < 8 {
				c.fail(ErrTrunc)
			}
			c.Bytes("KeyValue", uint64(sz-8), quoted)
		})
	})
}

func language(c *Codec) {
	// three 5-bit letters
	l := &Node{Name: "Language", Kind: KBytes, O: fopt{ISO: true}}
	for i := 0; i < 3; i++ {
		l.Raw = append(l.Raw, byte(c.raw(5, &fopt{draw: func(r *rand.Rand) uint64 {
			if r.IntN(5) == 0 {
				return uint64(r.IntN(32))
			}
			return uint64(1 + r.IntN(26))
		}})))
	}
	c.add(l)
}

var (
	ilstItem = &Def{GoType: "IlstMetaContainer", Body: func(c *Codec) {}, Container: true}
	dataDef  = &Def{GoType: "Data", Body: dataBody}
	strData  = &Def{GoType: "StringData", Body: func(c *Codec) { c.Rest("Data", quoted) }}
	udtaStr  = &Def{GoType: "Udta3GppString", Versions: v0, Body: func(c *Codec) {
		c.Full(v0)
		c.Bool("Pad", Hidden)
		language(c)
		c.Rest("Data", Str)
	}}
	itemDef = &Def{GoType: "Item", Body: func(c *Codec) {
		c.U8("Version", 8, Dec)
		c.Bytes("Flags", 3, Custom(func(n *Node) (string, bool) {
			return fmt.Sprintf("0x%02x%02x%02x", n.Raw[0], n.Raw[1], n.Raw[2]), true
		}))
		c.Bytes("ItemName", 4, quoted)
		c.Struct("Data", func() { dataBody(c) })
	}}
)

// IlstItems are the iTunes metadata item types.
var IlstItems = strings.Split("----,aART,akID,apID,atID,cmID,cnID,covr,cpil,cprt,desc,disk,egid,geID,gnre,pcst,pgap,plID,"+
	"purd,purl,rtng,sfID,soaa,soal,soar,soco,sonm,sosn,stik,tmpo,trkn,tven,tves,tvnn,tvsh,tvsn,"+
	"\xa9ART,\xa9alb,\xa9cmt,\xa9com,\xa9day,\xa9gen,\xa9grp,\xa9nam,\xa9too,\xa9wrt", ",")

// Udta3GPP are the 3GPP user data string types.
var Udta3GPP = []string{"titl", "dscp", "cprt", "perf", "auth", "gnre"}

func isIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// IsIlstItem reports whether t is an iTunes metadata item type.
func IsIlstItem(t mp4.BoxType) bool { return isIn(IlstItems, string(t[:])) }

// Lookup returns the definition of type t in context ctx, or nil.
func Lookup(t mp4.BoxType, ctx mp4.Context) *Def {
	s := string(t[:])
	if d := plain[s]; d != nil {
		return d
	}
	if ctx.UnderIlst && !ctx.UnderIlstMeta && isIn(IlstItems, s) {
		return ilstItem
	}
	if s == "data" && ctx.UnderIlstMeta {
		return dataDef
	}
	if (s == "mean" || s == "name") && ctx.UnderIlstFreeMeta {
		return strData
	}
	if ctx.UnderUdta && isIn(Udta3GPP, s) {
		return udtaStr
	}
	if ctx.UnderIlst {
		id := int64(binary.BigEndian.Uint32(t[:]))
		if id >= 1 && id <= int64(ctx.QuickTimeKeysMetaEntryCount) {
			return itemDef
		}
	}
	return nil
}

// TypeCtx is a type together with a context in which it is defined.
type TypeCtx struct {
	Type mp4.BoxType
	Ctx  mp4.Context
}

func bt(s string) mp4.BoxType { return mp4.BoxType{s[0], s[1], s[2], s[3]} }

// All lists every supported type in every context that changes its interpretation.
func All() []TypeCtx {
	var out []TypeCtx
	weight := map[string]int{"sgpd": 16, "trun": 4, "esds": 3, "avcC": 3, "hdlr": 3, "hvcC": 2, "pssh": 2, "keys": 2, "tfra": 2,
		"emsg": 2, "stsz": 2, "tenc": 2, "saiz": 2, "saio": 2, "colr": 3, "tfhd": 2, "dOps": 2, "elst": 2, "ctts": 2, "sidx": 2}
	for _, t := range order {
		for k := max(1, weight[t]); k > 0; k-- {
			out = append(out, TypeCtx{bt(t), mp4.Context{}})
		}
		if plain[t].GoType == "AudioSampleEntry" {
			out = append(out, TypeCtx{bt(t), mp4.Context{IsQuickTimeCompatible: true}},
				TypeCtx{bt(t), mp4.Context{IsQuickTimeCompatible: true, UnderWave: true}},
				TypeCtx{bt(t), mp4.Context{UnderWave: true}})
		}
	}
	for _, t := range IlstItems {
		out = append(out, TypeCtx{bt(t), mp4.Context{UnderIlst: true}})
	}
	meta := mp4.Context{UnderIlst: true, UnderIlstMeta: true}
	free := meta
	free.UnderIlstFreeMeta = true
	for i := 0; i < 4; i++ { // several slots: data-dependent rendering
		out = append(out, TypeCtx{bt("data"), meta})
	}
	out = append(out, TypeCtx{bt("data"), free}, TypeCtx{bt("mean"), free}, TypeCtx{bt("name"), free})
	for _, t := range Udta3GPP {
		out = append(out, TypeCtx{bt(t), mp4.Context{UnderUdta: true}})
		out = append(out, TypeCtx{bt(t), mp4.Context{UnderUdta: true, UnderIlst: true, UnderIlstMeta: true}})
	}
	out = append(out, TypeCtx{bt("cprt"), mp4.Context{UnderUdta: true, UnderIlst: true}},
		TypeCtx{bt("gnre"), mp4.Context{UnderUdta: true, UnderIlst: true}})
	for _, id := range []uint32{1, 2, 7} {
		out = append(out, TypeCtx{mp4.BoxType{0, 0, 0, byte(id)}, mp4.Context{UnderIlst: true, QuickTimeKeysMetaEntryCount: 7}})
	}
	return out
}

// PlainTypes are the four-character codes defined in every context.
func PlainTypes() []string { return order }
