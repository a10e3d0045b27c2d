package gen

import (
	"math"
	"math/rand/v2"

	mp4 "github.com/abema/go-mp4"

	"verif/spec"
)

// W builds field bytes.
type W struct{ B []byte }

func (w *W) U8(v ...uint8) *W { w.B = append(w.B, v...); return w }
func (w *W) U16(v uint16) *W  { w.B = append(w.B, byte(v>>8), byte(v)); return w }
func (w *W) U32(v uint32) *W  { return w.U16(uint16(v >> 16)).U16(uint16(v)) }
func (w *W) U64(v uint64) *W  { return w.U32(uint32(v >> 32)).U32(uint32(v)) }
func (w *W) Z(n int) *W       { w.B = append(w.B, make([]byte, n)...); return w }
func (w *W) S(s string) *W    { w.B = append(w.B, s...); return w }
func (w *W) Full(ver uint8, flags uint32) *W {
	return w.U32(uint32(ver)<<24 | flags)
}

// MSample is a sample of a generated track.
type MSample struct {
	Data  []byte
	Delta uint32
	CTO   int64
	IDR   bool
}

// MTrack is a generated track.
type MTrack struct {
	ID        uint32
	Timescale uint32
	Kind      string // sample entry type; "" none
	Samples   []MSample
	Expect    *mp4.Track
	IDR       []int // indices of the samples with an IDR slice
	Trak      *Box
	chunkBox  *Box
	trex      uint32 // default sample duration of the movie box
	trexUsed  bool
	co64      bool
	chunks    []mchunk
}

type mchunk struct{ first, n int }

// MFrag is a generated fragment.
type MFrag struct {
	Moof, Mdat *Box
	TrackID    uint32
	Expect     *mp4.Segment
	Duration   uint64 // sum of its sample durations
}

// Movie is a generated movie.
type Movie struct {
	*File
	R       *rand.Rand
	Tracks  []*MTrack
	Frags   []*MFrag
	Expect  *mp4.ProbeInfo
	Missing string // the mandatory box left out
}

// MovieOptions select the kind of movie.
type MovieOptions struct {
	Progressive, Fragmented bool
	MaxTracks, MaxSamples   int
	MaxFrags                int
	Missing                 bool // leave out a mandatory box
	Divide                  bool // only what mp4tool divide accepts: distinct kinds, no unknown boxes at the top
	BigData                 bool
	Far                     bool // data and boxes beyond 4 GiB
	Small                   bool
	Timed                   bool // media data only in fragments with a duration, more and more
	Wild                    bool // some 64-bit chunk offsets point anywhere
}

// MandatoryBoxes are those whose absence makes probing fail.
var MandatoryBoxes = []string{"tkhd", "mdhd", "stco", "stts", "stsc", "tfhd"}

// RandomMovie builds a well-formed movie and what probing it must report.
func RandomMovie(r *rand.Rand, o MovieOptions) *Movie {
	m := &Movie{File: &File{}, R: r}
	qt := r.IntN(3) == 0
	if o.MaxTracks == 0 {
		o.MaxTracks = 3
	}
	if o.MaxSamples == 0 {
		o.MaxSamples = 12
	}
	if o.MaxFrags == 0 {
		o.MaxFrags = 5
	}
	if o.Missing {
		m.Missing = MandatoryBoxes[r.IntN(len(MandatoryBoxes))]
		if !o.Fragmented && m.Missing == "tfhd" {
			m.Missing = "stts"
		}
		if m.Missing == "tfhd" {
			o.MaxFrags = max(o.MaxFrags, 2)
		}
	}
	e := &mp4.ProbeInfo{}
	m.Expect = e
	// brands
	copy(e.MajorBrand[:], []string{"isom", "mp42", "dash", "qt  ", "M4V "}[r.IntN(5)])
	e.MinorVersion = r.Uint32() >> uint(r.IntN(32))
	fw := new(W).S(string(e.MajorBrand[:])).U32(e.MinorVersion)
	nb := r.IntN(4)
	if r.IntN(100) == 0 {
		nb = 60 + r.IntN(300)
	}
	at := r.IntN(nb + 1)
	for i := 0; i <= nb; i++ {
		if i == at && qt {
			fw.S("qt  ")
			e.CompatibleBrands = append(e.CompatibleBrands, [4]byte{'q', 't', ' ', ' '})
		}
		if i < nb {
			b := []string{"isom", "iso2", "avc1", "mp41", "\x00\x00\x00\x00", "qt2 "}[r.IntN(6)]
			fw.S(b)
			e.CompatibleBrands = append(e.CompatibleBrands, [4]byte{b[0], b[1], b[2], b[3]})
		}
	}
	ftyp := Leaf("ftyp", fw.B)
	// movie header
	e.Timescale = []uint32{1, 600, 1000, 90000, 44100, r.Uint32()}[r.IntN(6)]
	mw := new(W)
	if r.IntN(2) == 0 {
		e.Duration = uint64(any32(r))
		mw.Full(0, 0).U32(r.Uint32()).U32(r.Uint32()).U32(e.Timescale).U32(uint32(e.Duration))
	} else {
		e.Duration = any64(r)
		mw.Full(1, 0).U64(r.Uint64()).U64(r.Uint64()).U32(e.Timescale).U64(e.Duration)
	}
	mw.U32(0x10000).U16(0x100).Z(10)
	for _, v := range []uint32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000} {
		mw.U32(v)
	}
	mw.Z(24).U32(r.Uint32())
	mvhd := Leaf("mvhd", mw.B)
	moov := Cont("moov", mvhd)
	// tracks
	kinds := []string{"avc1", "mp4a", "encv", "enca", "hvc1", "avc1", "mp4a", "wvtt", ""}
	if o.Divide {
		kinds = []string{"avc1", "mp4a", "encv", "enca"}
		r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	}
	nt := 1 + r.IntN(o.MaxTracks)
	if o.Divide {
		nt = 1 + r.IntN(min(o.MaxTracks, 4))
		if r.IntN(5) == 0 { // and one of a kind that is not divided
			kinds = append(kinds[:nt:nt], []string{"hvc1", "wvtt", ""}[r.IntN(3)])
			nt++
		}
	}
	ids := map[uint32]bool{}
	bad := -1
	if m.Missing != "" && m.Missing != "tfhd" {
		bad = r.IntN(nt)
	}
	for i := 0; i < nt; i++ {
		k := kinds[r.IntN(len(kinds))]
		if o.Divide {
			k = kinds[i]
		}
		id := uint32(i + 1)
		if r.IntN(3) == 0 {
			id = r.Uint32() >> uint(r.IntN(32))
		}
		if o.Divide && r.IntN(20) == 0 {
			id = []uint32{0, 0xffffffff}[r.IntN(2)]
		}
		for ids[id] {
			id++
		}
		ids[id] = true
		miss := ""
		if i == bad {
			miss = m.Missing
		}
		m.track(id, k, o, qt, miss)
	}
	var traks []*Box
	for _, t := range m.Tracks {
		traks = append(traks, t.Trak)
		e.Tracks = append(e.Tracks, t.Expect)
	}
	moov.Kids = append(moov.Kids, traks...)
	if o.Divide && r.IntN(2) == 0 {
		mvex := Cont("mvex")
		for _, t := range m.Tracks {
			if r.IntN(3) > 0 {
				t.trex = r.Uint32() >> uint(12+r.IntN(20))
				mvex.Kids = append(mvex.Kids, Leaf("trex", new(W).Full(0, 0).U32(t.ID).U32(r.Uint32()).U32(t.trex).U32(r.Uint32()).U32(r.Uint32()).B))
			}
		}
		r.Shuffle(len(mvex.Kids), func(i, j int) { mvex.Kids[i], mvex.Kids[j] = mvex.Kids[j], mvex.Kids[i] })
		moov.Kids = append(moov.Kids, mvex)
	} else if o.Fragmented && r.IntN(2) == 0 {
		moov.Kids = append(moov.Kids, Cont("mvex", Leaf("trex", new(W).Full(0, 0).U32(m.Tracks[0].ID).U32(1).U32(0).U32(0).U32(0).B)))
	}
	if r.IntN(3) == 0 {
		moov.Kids = append(moov.Kids, Cont("udta", Leaf("titl", new(W).Full(0, 0).U16(0x15c7).S("name\x00").B)))
		if o.Divide && r.IntN(3) == 0 {
			n := r.IntN(20)
			if o.BigData {
				n = r.IntN(300000)
			}
			moov.Kids[len(moov.Kids)-1].Kids = append(moov.Kids[len(moov.Kids)-1].Kids, Leaf("abcd", randB(r, n)))
		}
	}
	if r.IntN(3) == 0 {
		moov.Kids = append(moov.Kids, m.Pssh())
	}
	if !o.Divide && r.IntN(3) == 0 {
		moov.Kids = append(moov.Kids, Leaf([]string{"free", "iods", "xyzw"}[r.IntN(3)], randB(r, r.IntN(9))))
	}
	if r.IntN(2) == 0 {
		r.Shuffle(len(moov.Kids)-1, func(i, j int) { moov.Kids[i+1], moov.Kids[j+1] = moov.Kids[j+1], moov.Kids[i+1] })
		e.Tracks = nil // file order
		for _, k := range moov.Kids {
			for _, t := range m.Tracks {
				if t.Trak == k {
					e.Tracks = append(e.Tracks, t.Expect)
				}
			}
		}
		if !o.Divide && r.IntN(4) == 0 { // the header need not come first
			j := 1 + r.IntN(len(moov.Kids)-1)
			moov.Kids[0], moov.Kids[j] = moov.Kids[j], moov.Kids[0]
			e.Tracks = nil
			for _, k := range moov.Kids {
				for _, t := range m.Tracks {
					if t.Trak == k {
						e.Tracks = append(e.Tracks, t.Expect)
					}
				}
			}
		}
	}
	// media data: one or two boxes holding the chunks of all tracks, interleaved
	var mdats []*Box
	type ref struct {
		t    *MTrack
		ci   int
		mdat *Box
		off  int
	}
	var refs []ref
	if o.Progressive {
		nm := 1 + r.IntN(2)
		if r.IntN(100) == 0 {
			nm = 20 + r.IntN(300)
		}
		for i := 0; i < nm; i++ {
			mdats = append(mdats, Leaf("mdat", randB(r, r.IntN(6))))
			if o.Far && i == 0 {
				mdats[i].Hole = 1<<32 - 100 + uint64(r.IntN(200)) + uint64(r.IntN(3))<<32
			}
		}
		var todo []ref
		for _, t := range m.Tracks {
			for ci := range t.chunks {
				todo = append(todo, ref{t: t, ci: ci})
			}
		}
		if r.IntN(2) == 0 {
			r.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
		}
		for _, f := range todo {
			f.mdat = mdats[r.IntN(len(mdats))]
			f.off = len(f.mdat.Fields)
			for _, s := range f.t.Samples[f.t.chunks[f.ci].first : f.t.chunks[f.ci].first+f.t.chunks[f.ci].n] {
				f.mdat.Fields = append(f.mdat.Fields, s.Data...)
			}
			if r.IntN(4) == 0 {
				f.mdat.Fields = append(f.mdat.Fields, randB(r, 1+r.IntN(5))...)
			}
			refs = append(refs, f)
		}
	}
	// top level
	roots := []*Box{moov}
	first := true // moov before media data
	for _, d := range mdats {
		if r.IntN(2) == 0 {
			roots = append([]*Box{d}, roots...)
			first = false
		} else {
			roots = append(roots, d)
		}
	}
	roots = append([]*Box{ftyp}, roots...)
	if o.Fragmented {
		first = m.fragments(&roots, o, first)
	}
	e.FastStart = first
	if o.Divide { // an index, protection data, an index of the fragments at the end
		if r.IntN(4) == 0 {
			at := 2 + r.IntN(len(roots)-1)
			w := new(W).Full(0, 0).U32(1).U32(1000).U32(0).U32(0).U16(0).U16(1).U32(100).U32(1000).U32(0x90000000)
			roots = append(roots[:at], append([]*Box{Leaf("sidx", w.B)}, roots[at:]...)...)
		}
		if r.IntN(6) == 0 {
			at := 1 + r.IntN(len(roots))
			roots = append(roots[:at], append([]*Box{m.Pssh()}, roots[at:]...)...)
		}
		if r.IntN(4) == 0 {
			roots = append(roots, Cont("mfra", Leaf("tfra", new(W).Full(1, 0).U32(1).U32(0).U32(0).B), Leaf("mfro", new(W).Full(0, 0).U32(48).B)))
		}
	}
	if !o.Divide {
		for i := r.IntN(3); i > 0; i-- {
			at := 1 + r.IntN(len(roots))
			x := Leaf([]string{"free", "skip", "styp", "uuid", "abcd"}[r.IntN(5)], nil)
			if string(x.Type[:]) == "styp" {
				x.Fields = []byte("msdhmsdh\x00\x00\x00\x01")
			} else {
				x.Fields = randB(r, r.IntN(20))
			}
			roots = append(roots[:at], append([]*Box{x}, roots[at:]...)...)
		}
		if r.IntN(8) == 0 && !qt { // brands last
			roots = append(roots[1:], roots[0])
		}
	} else if r.IntN(3) == 0 {
		roots = append(roots, Cont("mfra", Leaf("mfro", new(W).Full(0, 0).U32(16).B)))
	}
	if o.Far && !o.Progressive {
		h := Leaf("free", nil)
		h.Hole = 1<<32 - 100 + uint64(r.IntN(200)) + uint64(r.IntN(3))<<32
		roots = append(roots[:1:1], append([]*Box{h}, roots[1:]...)...)
	}
	m.Roots = roots
	forms(r, roots)
	if r.IntN(6) == 0 && len(roots) > 1 && string(roots[len(roots)-1].Type[:]) != "moov" {
		roots[len(roots)-1].Form = 2
	}
	m.Layout()
	for _, f := range refs { // the offsets are known now
		off := f.mdat.Offset + f.mdat.Header + f.mdat.Hole + uint64(f.off)
		f.t.Expect.Chunks[f.ci].DataOffset = off
		if f.t.chunkBox == nil {
			continue
		}
		if f.t.co64 {
			if o.Wild && r.IntN(4) == 0 {
				off = r.Uint64() >> uint(r.IntN(64))
				f.t.Expect.Chunks[f.ci].DataOffset = off
			}
			w := new(W).U64(off)
			copy(f.t.chunkBox.Fields[8+8*f.ci:], w.B)
		} else {
			w := new(W).U32(uint32(off))
			copy(f.t.chunkBox.Fields[8+4*f.ci:], w.B)
		}
	}
	m.Layout()
	for _, f := range m.Frags {
		f.Expect.MoofOffset = f.Moof.Offset
	}
	m.Resolve()
	return m
}

func forms(r *rand.Rand, bs []*Box) {
	for _, b := range bs {
		if r.IntN(12) == 0 {
			b.Form = 1
		}
		forms(r, b.Kids)
	}
}

func randB(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// Pssh makes a random protection header.
func (m *Movie) Pssh() *Box {
	r := m.R
	w := new(W)
	if r.IntN(2) == 0 {
		w.Full(0, 0).U8(randB(r, 16)...)
	} else {
		n := r.IntN(3)
		w.Full(1, uint32(r.IntN(2)*0x10203)).U8(randB(r, 16)...).U32(uint32(n)).U8(randB(r, 16*n)...)
	}
	n := r.IntN(40)
	if r.IntN(8) == 0 {
		n = 1000 + r.IntN(3000)
	}
	w.U32(uint32(n)).U8(randB(r, n)...)
	return Leaf("pssh", w.B)
}

// nalSample makes an AVC sample of length-prefixed NAL units.
func nalSample(r *rand.Rand, lengthSize int, idr bool, maxNAL int) []byte {
	var out []byte
	n := 1 + r.IntN(4)
	at := -1
	if idr {
		at = r.IntN(n)
	}
	for i := 0; i < n; i++ {
		l := 1 + r.IntN(maxNAL)
		if lengthSize == 1 && l > 255 {
			l = 255
		}
		t := []byte{1, 6, 7, 8, 9, 2, 20, 0, 31, 4, 13, 21, 15, 1}[r.IntN(14)] // 13, 21: 5 in some of the low bits only
		if i == at {
			t = 5
		}
		for k := lengthSize - 1; k >= 0; k-- {
			if k >= 4 {
				out = append(out, 0)
			} else {
				out = append(out, byte(l>>uint(8*k)))
			}
		}
		nal := randB(r, l)
		nal[0] = nal[0]&0xe0 | t
		out = append(out, nal...)
	}
	return out
}

func ctxOf(qt, wave bool) mp4.Context {
	return mp4.Context{IsQuickTimeCompatible: qt, UnderWave: wave}
}

func runLengths(r *rand.Rand, n int, same func(i, j int) bool) []int { // lengths of runs, sometimes split
	var out []int
	for i := 0; i < n; {
		j := i + 1
		for j < n && same(i, j) && r.IntN(6) > 0 {
			j++
		}
		out = append(out, j-i)
		i = j
	}
	return out
}

func (m *Movie) track(id uint32, kind string, o MovieOptions, qt bool, missing string) {
	r := m.R
	t := &MTrack{ID: id, Kind: kind, Timescale: []uint32{1, 1000, 24, 90000, 48000, r.Uint32()/2 + 1}[r.IntN(6)]}
	e := &mp4.Track{TrackID: id, Timescale: t.Timescale}
	t.Expect = e
	m.Tracks = append(m.Tracks, t)
	// sample entry
	lengthSize := 4
	var entry *Box
	gen := func(typ string, ctx mp4.Context) (*spec.Node, []byte) {
		ty := bt(typ)
		g := spec.Gen(spec.Lookup(ty, ctx), ty, ctx, r, 2, 6)
		return g.Root, g.Data
	}
	switch kind {
	case "avc1", "encv":
		root, data := gen(kind, mp4.Context{IsQuickTimeCompatible: qt})
		entry = Leaf(kind, data)
		e.Codec = mp4.CodecAVC1
		if kind == "encv" {
			e.Encrypted = true
		}
		if r.IntN(8) > 0 {
			cfg, cdata := gen("avcC", mp4.Context{IsQuickTimeCompatible: qt})
			lengthSize = int(cfg.Kid("LengthSizeMinusOne").U) + 1
			if kind == "avc1" {
				e.AVC = &mp4.AVCDecConfigInfo{
					ConfigurationVersion: uint8(cfg.Kid("ConfigurationVersion").U), Profile: uint8(cfg.Kid("Profile").U),
					ProfileCompatibility: uint8(cfg.Kid("ProfileCompatibility").U), Level: uint8(cfg.Kid("Level").U),
					LengthSize: uint16(lengthSize), Width: uint16(root.Kid("Width").U), Height: uint16(root.Kid("Height").U)}
			}
			entry.Kids = append(entry.Kids, Leaf("avcC", cdata))
		}
		if r.IntN(2) == 0 {
			entry.Kids = append(entry.Kids, Leaf("btrt", randB(r, 12)))
		}
		if r.IntN(2) == 0 {
			entry.Kids = append(entry.Kids, Leaf("pasp", randB(r, 8)))
		}
		r.Shuffle(len(entry.Kids), func(i, j int) { entry.Kids[i], entry.Kids[j] = entry.Kids[j], entry.Kids[i] })
	case "mp4a", "enca":
		root, data := gen(kind, ctxOf(qt, false))
		entry = Leaf(kind, data)
		e.Codec = mp4.CodecMP4A
		e.Encrypted = kind == "enca"
		if r.IntN(8) > 0 {
			esds, oti, aot := m.esds()
			e.MP4A = &mp4.MP4AInfo{OTI: oti, AudOTI: aot, ChannelCount: uint16(root.Kid("ChannelCount").U)}
			if qt && kind == "mp4a" && r.IntN(2) == 0 {
				entry.Kids = []*Box{Cont("wave", Leaf("frma", []byte("mp4a")), esds)}
				if r.IntN(2) == 0 {
					_, inner := gen("mp4a", ctxOf(true, true))
					entry.Kids[0].Kids = append(entry.Kids[0].Kids[:1:1], Leaf("mp4a", inner), esds, Leaf("\x00\x00\x00\x00", nil))
				}
			} else {
				entry.Kids = []*Box{esds}
			}
		}
		if r.IntN(3) == 0 {
			entry.Kids = append(entry.Kids, Leaf("btrt", randB(r, 12)))
		}
	case "hvc1":
		_, data := gen("hvc1", mp4.Context{})
		entry = Leaf("hvc1", data)
	case "wvtt":
		_, data := gen("wvtt", mp4.Context{})
		entry = Leaf("wvtt", data)
	}
	if kind == "encv" || kind == "enca" {
		entry.Kids = append(entry.Kids, Cont("sinf", Leaf("frma", []byte("avc1")), Leaf("schm", new(W).Full(0, 0).S("cenc").U32(0x10000).B)))
	}
	// samples
	n := 0
	if o.Progressive {
		n = r.IntN(o.MaxSamples + 1)
	}
	maxSize := 20
	if o.BigData && r.IntN(2) == 0 {
		maxSize = 400
	}
	constant := r.IntN(4) == 0 && e.AVC == nil
	csize := 1 + r.IntN(maxSize)
	ctsv := uint8(r.IntN(2))
	ctsOn := r.IntN(2) == 0
	delta := 1 + r.Uint32N(4000)
	for i := 0; i < n; i++ {
		s := MSample{}
		switch {
		case e.AVC != nil:
			s.IDR = r.IntN(3) == 0
			if r.IntN(10) == 0 {
				s.IDR = false // empty sample
			} else {
				s.Data = nalSample(r, lengthSize, s.IDR, maxSize)
			}
		case constant:
			s.Data = randB(r, csize)
		default:
			s.Data = randB(r, r.IntN(maxSize))
		}
		if r.IntN(4) == 0 {
			delta = r.Uint32() >> uint(8+r.IntN(24))
			if r.IntN(8) == 0 {
				delta = any32(r)
			}
		}
		s.Delta = delta
		if ctsOn {
			if ctsv == 0 {
				s.CTO = int64(any32(r))
			} else {
				s.CTO = int64(int32(any32(r)))
				if r.IntN(2) == 0 {
					s.CTO = int64(int32(r.Uint32()) >> uint(r.IntN(32)))
				}
			}
			if i > 0 && r.IntN(2) == 0 {
				s.CTO = t.Samples[i-1].CTO
			}
		}
		t.Samples = append(t.Samples, s)
	}
	for i, s := range t.Samples {
		e.Samples = append(e.Samples, &mp4.Sample{Size: uint32(len(s.Data)), TimeDelta: s.Delta, CompositionTimeOffset: s.CTO})
		if s.IDR {
			t.IDR = append(t.IDR, i)
		}
	}
	// sample tables
	stts := new(W)
	runs := runLengths(r, n, func(i, j int) bool { return t.Samples[i].Delta == t.Samples[j].Delta })
	cnt, at := 0, 0
	for _, l := range runs {
		if r.IntN(10) == 0 { // an entry for no sample
			stts.U32(0).U32(r.Uint32())
			cnt++
		}
		stts.U32(uint32(l)).U32(t.Samples[at].Delta)
		at += l
		cnt++
	}
	sttsBox := Leaf("stts", new(W).Full(0, 0).U32(uint32(cnt)).U8(stts.B...).B)
	var stbl []*Box
	if missing != "stts" {
		stbl = append(stbl, sttsBox)
	}
	if ctsOn {
		w := new(W)
		nn := n
		if n > 0 && r.IntN(4) == 0 { // covers only the first samples
			nn = r.IntN(n)
			for i := nn; i < n; i++ {
				e.Samples[i].CompositionTimeOffset, t.Samples[i].CTO = 0, 0
			}
		}
		cnt, at = 0, 0
		for _, l := range runLengths(r, nn, func(i, j int) bool { return t.Samples[i].CTO == t.Samples[j].CTO }) {
			w.U32(uint32(l)).U32(uint32(t.Samples[at].CTO))
			at += l
			cnt++
		}
		if nn == n && r.IntN(4) == 0 { // covers more than there are
			w.U32(1 + r.Uint32()>>uint(r.IntN(32))).U32(r.Uint32() >> 1)
			cnt++
		}
		stbl = append(stbl, Leaf("ctts", new(W).Full(ctsv, 0).U32(uint32(cnt)).U8(w.B...).B))
	}
	// chunks
	for at := 0; at < n; {
		l := 1 + r.IntN(4)
		if r.IntN(6) == 0 {
			l = 1 + r.IntN(20)
		}
		l = min(l, n-at)
		t.chunks = append(t.chunks, mchunk{at, l})
		at += l
	}
	if n > 0 && r.IntN(10) == 0 { // a chunk without samples
		i := r.IntN(len(t.chunks) + 1)
		first := n
		if i < len(t.chunks) {
			first = t.chunks[i].first
		}
		t.chunks = append(t.chunks[:i], append([]mchunk{{first, 0}}, t.chunks[i:]...)...)
	}
	w := new(W)
	cnt, at = 0, 0
	for _, l := range runLengths(r, len(t.chunks), func(i, j int) bool { return t.chunks[i].n == t.chunks[j].n }) {
		w.U32(uint32(at + 1)).U32(uint32(t.chunks[at].n)).U32([]uint32{1, 1, 1, 2, r.Uint32()}[r.IntN(5)])
		at += l
		cnt++
	}
	if missing != "stsc" {
		stbl = append(stbl, Leaf("stsc", new(W).Full(0, 0).U32(uint32(cnt)).U8(w.B...).B))
	}
	for _, c := range t.chunks {
		e.Chunks = append(e.Chunks, &mp4.Chunk{SamplesPerChunk: uint32(c.n)})
	}
	t.co64 = o.Far || r.IntN(3) == 0
	if t.co64 {
		t.chunkBox = Leaf("co64", new(W).Full(0, 0).U32(uint32(len(t.chunks))).Z(8*len(t.chunks)).B)
	} else {
		t.chunkBox = Leaf("stco", new(W).Full(0, 0).U32(uint32(len(t.chunks))).Z(4*len(t.chunks)).B)
	}
	if missing == "stco" {
		t.chunkBox = nil
	} else {
		stbl = append(stbl, t.chunkBox)
	}
	w = new(W).Full(0, 0)
	if constant {
		w.U32(uint32(csize)).U32(uint32(n))
	} else {
		w.U32(0).U32(uint32(n))
		for _, s := range t.Samples {
			w.U32(uint32(len(s.Data)))
		}
	}
	stbl = append(stbl, Leaf("stsz", w.B))
	if r.IntN(3) == 0 {
		stbl = append(stbl, Leaf("stss", new(W).Full(0, 0).U32(1).U32(1).B))
	}
	r.Shuffle(len(stbl), func(i, j int) { stbl[i], stbl[j] = stbl[j], stbl[i] })
	stsd := Leaf("stsd", new(W).Full(0, 0).U32(0).B)
	if entry != nil {
		stsd = Leaf("stsd", new(W).Full(0, 0).U32(1).B)
		stsd.Kids = []*Box{entry}
	}
	if r.IntN(3) == 0 {
		stbl = append(stbl, stsd)
	} else {
		stbl = append([]*Box{stsd}, stbl...)
	}
	// headers
	tk := new(W)
	flags := []uint32{0, 1, 3, 7, 15, r.Uint32() & 0xffffff}[r.IntN(6)]
	if r.IntN(2) == 0 {
		tk.Full(0, flags).U32(r.Uint32()).U32(r.Uint32()).U32(id).U32(0).U32(r.Uint32())
	} else {
		tk.Full(1, flags).U64(r.Uint64()).U64(r.Uint64()).U32(id).U32(0).U64(r.Uint64())
	}
	if r.IntN(4) > 0 {
		tk.Z(8).U16(0).U16(0).U16(0x100).U16(0)
		for _, v := range []uint32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000} {
			tk.U32(v)
		}
	} else { // layers, groups, volume, matrix: nothing that probing reports
		for i := 0; i < 13; i++ {
			tk.U32(r.Uint32())
		}
	}
	tk.U32(r.Uint32()).U32(r.Uint32())
	md := new(W)
	if r.IntN(2) == 0 {
		e.Duration = uint64(any32(r))
		md.Full(0, 0).U32(r.Uint32()).U32(r.Uint32()).U32(t.Timescale).U32(uint32(e.Duration))
	} else {
		e.Duration = any64(r)
		md.Full(1, 0).U64(r.Uint64()).U64(r.Uint64()).U32(t.Timescale).U64(e.Duration)
	}
	md.U16(uint16(r.Uint32()) & 0x7fff).U16(uint16(r.IntN(2) * r.IntN(1<<16)))
	var trak []*Box
	if missing != "tkhd" {
		trak = append(trak, Leaf("tkhd", tk.B))
	}
	if r.IntN(2) == 0 {
		ne := r.IntN(4)
		if r.IntN(100) == 0 {
			ne = 60 + r.IntN(300)
		}
		ver := uint8(r.IntN(2))
		w := new(W).Full(ver, 0).U32(uint32(ne))
		for i := 0; i < ne; i++ {
			x := &mp4.EditListEntry{}
			if ver == 0 {
				x.SegmentDuration = uint64(any32(r))
				x.MediaTime = int64(int32(any32(r)))
				w.U32(uint32(x.SegmentDuration)).U32(uint32(int32(x.MediaTime)))
			} else {
				x.SegmentDuration = any64(r)
				x.MediaTime = int64(any64(r))
				w.U64(x.SegmentDuration).U64(uint64(x.MediaTime))
			}
			w.U16([]uint16{0, 1, 0xffff, uint16(r.Uint32())}[r.IntN(4)]).U16(uint16(r.Uint32() >> uint(r.IntN(32))))
			e.EditList = append(e.EditList, x)
		}
		trak = append(trak, Cont("edts", Leaf("elst", w.B)))
	}
	minf := Cont("minf")
	if r.IntN(2) == 0 {
		minf.Kids = append(minf.Kids, Leaf("vmhd", new(W).Full(0, 1).Z(8).B))
	}
	if r.IntN(2) == 0 {
		minf.Kids = append(minf.Kids, Cont("dinf", &Box{Type: bt("dref"), Fields: new(W).Full(0, 0).U32(1).B, Kids: []*Box{Leaf("url ", new(W).Full(0, 1).B)}}))
	}
	minf.Kids = append(minf.Kids, Cont("stbl", stbl...))
	mdia := Cont("mdia")
	if missing != "mdhd" {
		mdia.Kids = append(mdia.Kids, Leaf("mdhd", md.B))
	}
	mdia.Kids = append(mdia.Kids, Leaf("hdlr", new(W).Full(0, 0).U32(0).S("vide").Z(12).S("h\x00").B), minf)
	if r.IntN(4) == 0 {
		r.Shuffle(len(mdia.Kids), func(i, j int) { mdia.Kids[i], mdia.Kids[j] = mdia.Kids[j], mdia.Kids[i] })
	}
	trak = append(trak, mdia)
	if r.IntN(4) == 0 {
		r.Shuffle(len(trak), func(i, j int) { trak[i], trak[j] = trak[j], trak[i] })
	}
	if r.IntN(5) == 0 {
		trak = append(trak, Leaf("abcd", randB(r, 5)))
	}
	t.Trak = Cont("trak", trak...)
}

// bitw writes bits.
type bitw struct {
	b []byte
	n int
}

func (w *bitw) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[w.n/8] |= 1 << (7 - uint(w.n%8))
		}
		w.n++
	}
}

func (m *Movie) esds() (b *Box, oti, aot uint8) {
	r := m.R
	oti = []uint8{0x40, 0x40, 0x40, 0x40, 0x6b, 0x69, 0xdd, 0x67, 0}[r.IntN(9)]
	var spec []byte
	if oti == 0x40 {
		spec, aot = AudioConfig(r)
	} else if r.IntN(2) == 0 {
		spec = randB(r, r.IntN(5))
	}
	varint := func(n int) []byte {
		if r.IntN(3) == 0 && n < 128 {
			return []byte{byte(n)}
		}
		return []byte{0x80 | byte(n>>21), 0x80 | byte(n>>14), 0x80 | byte(n>>7), byte(n & 0x7f)}
	}
	var ds []byte
	ds = append(ds, 5)
	ds = append(append(ds, varint(len(spec))...), spec...)
	if oti != 0x40 && r.IntN(2) == 0 {
		ds = nil
	}
	dc := append([]byte{oti, 0x15}, randB(r, 11)...)
	dl := varint(len(dc) + len(ds))
	dc = append(append([]byte{4}, dl...), dc...)
	dc = append(dc, ds...)
	es := append([]byte{0, 1, 0}, dc...)
	es = append(es, 6, 1, 2)
	out := append([]byte{3}, varint(len(es))...)
	return Leaf("esds", append([]byte{0, 0, 0, 0}, append(out, es...)...)), oti, aot
}

// AudioConfig makes an AudioSpecificConfig and the object type it signals.
func AudioConfig(r *rand.Rand) ([]byte, uint8) {
	w := &bitw{}
	aot := uint8([]int{2, 2, 2, 2, 5, 29, 1, 3, 4, 17, 23, 32, 42, 39, 95, 30}[r.IntN(16)])
	if aot < 31 {
		w.put(uint64(aot), 5)
	} else {
		w.put(31, 5)
		w.put(uint64(aot-32), 6)
	}
	freq := func() {
		f := r.IntN(13)
		if r.IntN(3) == 0 {
			f = 15
		}
		w.put(uint64(f), 4)
		if f == 15 {
			w.put(r.Uint64()&0xffffff, 24)
		}
	}
	freq()
	w.put(uint64(r.IntN(8)), 4) // channels
	if aot != 2 {
		w.put(0, (8-w.n%8)%8)
		return append(w.b, randB(r, r.IntN(3))...), aot
	}
	if r.IntN(3) == 0 { // plain AAC-LC: GASpecificConfig
		w.put(0, 3)
		w.put(0, (8-w.n%8)%8)
		return w.b, 2
	}
	// an extension, in the layout the library reads it
	rep := aot
	switch r.IntN(5) {
	case 0: // some other extension
		w.put(0x2b7^1<<r.IntN(11), 11)
		w.put(5, 5)
		w.put(r.Uint64(), 8)
	default:
		w.put(0x2b7, 11)
		ext := uint8([]int{5, 5, 5, 22, 6, 37}[r.IntN(6)])
		if ext < 31 {
			w.put(uint64(ext), 5)
		} else {
			w.put(31, 5)
			w.put(uint64(ext-32), 6)
		}
		sbr := r.IntN(4) > 0
		if sbr {
			w.put(1, 1)
		} else {
			w.put(0, 1)
		}
		if sbr && (ext == 5 || ext == 22) {
			rep = 5
			if ext == 5 {
				freq()
				switch r.IntN(4) {
				case 0: // nothing else
				case 1:
					w.put(0x548, 11)
					w.put(1, 1)
					rep = 29
				case 2:
					w.put(0x548, 11)
					w.put(0, 1)
				case 3:
					w.put(0x548^1<<r.IntN(11), 11)
					w.put(1, 1)
				}
			}
		}
		if !sbr || ext != 5 {
			w.put(0, 8)
		}
	}
	w.put(0, (8-w.n%8)%8)
	return w.b, rep
}

func (m *Movie) fragments(roots *[]*Box, o MovieOptions, first bool) bool {
	r := m.R
	n := r.IntN(o.MaxFrags + 1)
	if m.Missing == "tfhd" {
		n = max(n, 1)
	}
	bad := -1
	if m.Missing == "tfhd" {
		bad = r.IntN(n)
	}
	front := *roots
	for i := 0; i < n; i++ {
		t := m.Tracks[r.IntN(len(m.Tracks))]
		id := t.ID
		if !o.Divide && r.IntN(10) == 0 || o.Divide && r.IntN(12) == 0 {
			id = r.Uint32()
			if o.Divide { // of no track
				for again := true; again; {
					again = false
					for _, x := range m.Tracks {
						if x.ID == id {
							id++
							again = true
						}
					}
				}
			}
		}
		f := &MFrag{TrackID: id, Expect: &mp4.Segment{TrackID: id}}
		e := f.Expect
		// tfhd
		var flags uint32
		tf := new(W).U32(id)
		if r.IntN(4) == 0 {
			flags |= 1
			tf.U64(r.Uint64())
		}
		if r.IntN(4) == 0 {
			flags |= 2
			tf.U32(r.Uint32())
		}
		var dd, ds uint32
		if r.IntN(2) == 0 {
			flags |= 8
			dd = r.Uint32() >> uint(12+r.IntN(20))
			tf.U32(dd)
		}
		if r.IntN(2) == 0 {
			flags |= 0x10
			ds = r.Uint32() >> uint(12+r.IntN(20))
			tf.U32(ds)
		}
		if r.IntN(2) == 0 {
			flags |= 0x20
			tf.U32(r.Uint32())
		}
		flags |= 0x20000 * uint32(r.IntN(2))
		e.DefaultSampleDuration = dd
		if flags&8 == 0 {
			dd = t.trex
		}
		tfhd := Leaf("tfhd", append(new(W).Full(0, flags).B, tf.B...))
		var traf []*Box
		if i != bad {
			traf = append(traf, tfhd)
		}
		if r.IntN(5) > 0 {
			if r.IntN(2) == 0 {
				e.BaseMediaDecodeTime = uint64(any32(r))
				traf = append(traf, Leaf("tfdt", new(W).Full(0, 0).U32(uint32(e.BaseMediaDecodeTime)).B))
			} else {
				e.BaseMediaDecodeTime = any64(r)
				traf = append(traf, Leaf("tfdt", new(W).Full(1, 0).U64(e.BaseMediaDecodeTime).B))
			}
		}
		nr := 1
		if r.IntN(10) == 0 {
			nr = 0
		} else if o.Divide && r.IntN(5) == 0 {
			nr = 2
		}
		total := 0
		for k := 0; k < nr; k++ {
			cnt := r.IntN(o.MaxSamples + 1)
			ver := uint8(r.IntN(2))
			var fl uint32
			for _, b := range []uint32{1, 4, 0x100, 0x200, 0x400, 0x800} {
				if r.IntN(2) == 0 {
					fl |= b
				}
			}
			if flags&8 == 0 && t.trex == 0 {
				fl |= 0x100
			}
			if flags&0x10 == 0 {
				fl |= 0x200
			}
			w := new(W).Full(ver, fl).U32(uint32(cnt))
			if fl&1 != 0 {
				w.U32(r.Uint32())
			}
			if fl&4 != 0 {
				w.U32(r.Uint32())
			}
			e.SampleCount = uint32(cnt)
			var dts int64
			wide := r.IntN(12) == 0 // values up to the width of their fields
			for s := 0; s < cnt; s++ {
				dur, size := dd, ds
				if fl&0x100 == 0 && flags&8 == 0 {
					t.trexUsed = true
				}
				if fl&0x100 != 0 {
					dur = r.Uint32() >> uint(12+r.IntN(20))
					if wide && o.Divide {
						dur = r.Uint32()
					} else if wide && s == cnt-1 {
						dur = 0xffffffff - e.Duration - uint32(r.IntN(3))*dur
						if r.IntN(2) == 0 {
							dur >>= uint(r.IntN(20))
						}
					}
					w.U32(dur)
				}
				if fl&0x200 != 0 {
					size = r.Uint32() >> uint(12+r.IntN(20))
					if wide {
						size = (0xffffffff - e.Size) >> uint(r.IntN(20))
					}
					w.U32(size)
				}
				if fl&0x400 != 0 {
					w.U32(r.Uint32())
				}
				var cto int64
				if fl&0x800 != 0 {
					if ver == 0 {
						cto = int64(r.Uint32() >> uint(4+r.IntN(28)))
					} else {
						cto = int64(int32(r.Uint32()) >> uint(4+r.IntN(28)))
					}
					if wide { // as far as the sum fits
						if ver == 0 || r.IntN(2) == 0 {
							cto = (1<<31 - 1 - dts) >> uint(r.IntN(24))
						} else {
							cto = (-1<<31 - dts) >> uint(r.IntN(24))
						}
						cto = max(cto, -1<<31)
					}
					w.U32(uint32(cto))
				}
				if off := int32(dts + cto); s == 0 || off < e.CompositionTimeOffset {
					e.CompositionTimeOffset = off
				}
				dts += int64(dur)
				e.Duration += dur
				f.Duration += uint64(dur)
				e.Size += size
				total++
			}
			traf = append(traf, Leaf("trun", w.B))
		}
		if r.IntN(6) == 0 {
			traf = append(traf, Leaf("sdtp", new(W).Full(0, 0).B))
		}
		f.Moof = Cont("moof", Leaf("mfhd", new(W).Full(0, 0).U32(uint32(i+1)).B))
		if r.IntN(4) == 0 {
			f.Moof.Kids = append(f.Moof.Kids, m.Pssh())
		}
		if i != bad || len(traf) > 0 || r.IntN(2) == 0 {
			f.Moof.Kids = append(f.Moof.Kids, Cont("traf", traf...))
		}
		f.Mdat = Leaf("mdat", randB(r, r.IntN(60)))
		if o.BigData && r.IntN(4) == 0 {
			f.Mdat.Fields = randB(r, r.IntN(200000))
		}
		if o.Timed {
			f.Mdat.Fields = randB(r, i/2+r.IntN(60))
		}
		if o.Divide && r.IntN(12) == 0 || o.Timed && f.Duration == 0 { // no media data
			m.Frags = append(m.Frags, f)
			*roots = append(*roots, f.Moof)
			continue
		}
		if o.Divide && r.IntN(12) == 0 { // media data in two boxes
			m.Frags = append(m.Frags, f)
			*roots = append(*roots, f.Moof, f.Mdat, Leaf("mdat", randB(r, r.IntN(30))))
			continue
		}
		m.Frags = append(m.Frags, f)
		*roots = append(*roots, f.Moof, f.Mdat)
	}
	// the movie box may even follow the fragments
	if !o.Divide && len(front) == 2 && r.IntN(12) == 0 && n > 0 && m.Missing == "" {
		moov := (*roots)[1]
		*roots = append(append((*roots)[:1:1], (*roots)[2:]...), moov)
		first = false
	}
	for _, f := range m.Frags {
		m.Expect.Segments = append(m.Expect.Segments, f.Expect)
	}
	return first
}

// any32 is any number; the borders of its range are likely.
func any32(r *rand.Rand) uint32 {
	if r.IntN(10) == 0 {
		return []uint32{0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}[r.IntN(6)]
	}
	return r.Uint32() >> uint(r.IntN(32))
}

// any64 is any number; the borders of its range and of 32 bits are likely.
func any64(r *rand.Rand) uint64 {
	if r.IntN(8) == 0 {
		return []uint64{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}[r.IntN(10)]
	}
	return r.Uint64() >> uint(r.IntN(64))
}

// AudioMovie is a movie with one mp4a track of no samples and the given esds payload.
func AudioMovie(esds []byte) *File {
	entry := Leaf("mp4a", new(W).Z(6).U16(1).Z(8).U16(2).U16(16).Z(4).U32(48000<<16).B)
	entry.Kids = []*Box{Leaf("esds", esds)}
	stsd := Leaf("stsd", new(W).Full(0, 0).U32(1).B)
	stsd.Kids = []*Box{entry}
	f := &File{Roots: []*Box{Leaf("ftyp", new(W).S("isom").U32(0).B), Cont("moov", Cont("trak",
		Leaf("tkhd", new(W).Full(0, 7).Z(8).U32(1).Z(68).B),
		Cont("mdia", Leaf("mdhd", new(W).Full(0, 0).Z(8).U32(48000).U32(0).U32(0x55c40000).B),
			Cont("minf", Cont("stbl", stsd, Leaf("stts", new(W).Z(8).B), Leaf("stsc", new(W).Z(8).B),
				Leaf("stsz", new(W).Z(12).B), Leaf("stco", new(W).Z(8).B))))))}}
	f.Layout()
	f.Resolve()
	return f
}

// TrexUsed reports whether a fragment of the track takes its durations from the movie box.
func (t *MTrack) TrexUsed() bool { return t.trexUsed }

// Entry is the sample entry of the track.
func (t *MTrack) Entry() *Box {
	var find func(b *Box) *Box
	find = func(b *Box) *Box {
		if b.Type == bt("stsd") && len(b.Kids) > 0 {
			return b.Kids[0]
		}
		for _, k := range b.Kids {
			if x := find(k); x != nil {
				return x
			}
		}
		return nil
	}
	return find(t.Trak)
}
