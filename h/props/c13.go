package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"math/rand/v2"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C13", Quick: 120000, Thorough: 8000000,
		Rule: "tracks laid out by the generator (all NAL length sizes, every NAL type, units up to the field's limit behind holes of the reader, chunks in any order and at any " +
			"64-bit offset, empty samples, chunks of more samples than there are and fewer) are searched for IDR slices, and lists of samples and segments with sizes and durations " +
			"over their whole range are rated; the results are compared with the generator's record and with a model that looks at every start; non-trivial: distinct layouts and lists",
		Need: []string{"IDR samples found", "samples without IDR", "movies searched", "units beyond 2^31 bytes", "chunks beyond 4 GiB", "length size 1", "length size 2", "length size 3", "length size 4",
			"units longer than their sample", "units of no bytes", "maximum rates", "chunks of more than 65536 samples", "windows of more than 5000 samples", "maxima from a window that starts inside a longer one", "maxima from the last, shorter window", "segments rated", "segments of other tracks", "no time elapses", "products near 2^64"},
		Case:  c13,
		Fixed: []func(t *core.T){c13many},
	})
}

func c13(t *core.T) {
	switch t.R.IntN(5) {
	case 0:
		c13movie(t)
	case 1:
		c13layout(t)
	case 2, 3:
		c13samples(t)
	default:
		c13segments(t)
	}
}

func c13movie(t *core.T) {
	r := t.R
	o := gen.MovieOptions{Progressive: true, Fragmented: r.IntN(5) == 0, Far: r.IntN(6) == 0, BigData: r.IntN(3) == 0}
	switch r.IntN(3000) {
	case 0:
		o.MaxTracks, o.MaxSamples, o.BigData = 1, 140000, false
	case 1, 2, 3, 4, 5, 6, 7, 8:
		o.MaxTracks, o.MaxSamples, o.BigData = 2, 6000, false
	}
	m := gen.RandomMovie(r, o)
	rd := rw.NewReader(m.Data)
	rd.HoleAt, rd.HoleLen = int64(m.HoleAt), int64(m.HoleLen)
	info, err := mp4.Probe(rd)
	if err != nil || len(info.Tracks) != len(m.Expect.Tracks) {
		return // C12
	}
	t.Attach("file", m.Data)
	for i, tr := range info.Tracks {
		var mt *gen.MTrack
		for _, x := range m.Tracks {
			if x.Expect == m.Expect.Tracks[i] {
				mt = x
			}
		}
		if mt.Expect.AVC == nil || tr.AVC == nil {
			continue
		}
		rd.Pos = int64(r.IntN(len(m.Data)))
		t.Count("movies searched", 1)
		c13judge(t, rd, tr, mt.IDR, "track of a movie")
	}
}

func c13judge(t *core.T, rd *rw.Reader, tr *mp4.Track, want []int, what string) {
	got, err := mp4.FindIDRFrames(rd, tr)
	t.Count("IDR samples found", len(want))
	t.Count("samples without IDR", len(tr.Samples)-len(want))
	t.Count(fmt.Sprintf("length size %d", tr.AVC.LengthSize), 1)
	t.Distinct([]byte(tree.Dump(tr.Chunks)), []byte(tree.Dump(tr.Samples)), fmt.Append(nil, want))
	if t.Idx < 20 {
		t.Sample("IDR search in %d samples in %d chunks of a %s: %v", len(tr.Samples), len(tr.Chunks), what, got)
	}
	if err != nil {
		t.Failf("IDR search fails", "%s: %v; IDR samples are %v; %s", what, err, want, tree.Dump(tr))
		return
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf("wrong IDR samples", "%s: reported %v, IDR slices are in %v; %s", what, got, want, tree.Dump(tr))
	}
}

// c13layout lays out samples without a movie around them.
func c13layout(t *core.T) {
	r := t.R
	ls := 1 + r.IntN(4)
	tr := &mp4.Track{Codec: mp4.CodecAVC1, AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}}
	tr.Encrypted = r.IntN(4) == 0 // the lengths and headers of NAL units stay in clear
	tr.TrackID, tr.Timescale = r.Uint32N(3), r.Uint32N(3)
	rd := rw.NewReader(nil)
	rd.R = r
	if r.IntN(3) == 0 {
		rd.Mode = rw.Modes[r.IntN(len(rw.Modes))]
	}
	holeAt := -1 // one NAL unit of zeros in the hole
	if ls == 4 && r.IntN(3) == 0 {
		rd.HoleLen = int64(1)<<uint(r.IntN(32)) + int64(r.IntN(50))
		if r.IntN(3) == 0 {
			rd.HoleLen = math.MaxUint32 - 100 - int64(r.IntN(20))
		}
		holeAt = r.IntN(3)
	} else if r.IntN(3) == 0 { // the data lies far into the stream
		rd.HoleAt, rd.HoleLen = 0, int64(r.Uint64()>>uint(1+r.IntN(62)))
		rd.HoleLen = min(rd.HoleLen, math.MaxInt64-1<<20)
	}
	var want []int
	n := r.IntN(12)
	type chunk struct {
		data  []byte
		hole  int
		count uint32
	}
	var cur chunk
	cur.hole = -1
	var chunks []chunk
	seen := 0
	for i := 0; i < n; i++ {
		var s []byte
		size := uint64(0)
		idr := false
		k := r.IntN(5)
		for j := 0; j < k; j++ {
			if r.IntN(12) == 0 { // a unit of nothing, not even a type
				s = append(s, make([]byte, ls)...)
				t.Count("units of no bytes", 1)
				continue
			}
			l := 1 + r.IntN(30)
			switch {
			case r.IntN(8) == 0: // a length that reads as the type of an IDR slice
				l = []int{5, 0x25, 0x45, 0x85}[r.IntN(4)]
			case r.IntN(12) == 0 && ls > 1:
				l = 250 + r.IntN(20)
			case r.IntN(20) == 0:
				l = 1
			}
			ty := byte(r.IntN(32))
			for ty == 5 && r.IntN(3) > 0 {
				ty = byte(r.IntN(32))
			}
			nal := randBytes(r, l)
			nal[0] = nal[0]&0xe0 | ty
			idr = idr || ty == 5
			length := uint64(l)
			if holeAt == seen && length > 1 {
				length += uint64(rd.HoleLen)
			}
			var lb [8]byte
			for b := 0; b < ls; b++ {
				lb[b] = byte(length >> uint(8*(ls-1-b)))
			}
			s = append(s, lb[:ls]...)
			if holeAt == seen && l > 1 {
				s = append(s, nal[:1]...)
				cur.hole = len(cur.data) + len(s)
				s = append(s, nal[1:]...)
				size += uint64(rd.HoleLen)
				if length > math.MaxInt32 {
					t.Count("units beyond 2^31 bytes", 1)
				}
				holeAt = -2
			} else {
				s = append(s, nal...)
			}
			if holeAt != -2 {
				seen++
			}
		}
		if ls == 4 && r.IntN(20) == 0 { // a unit that is not all there, with what looks like units in it
			ty := byte(r.IntN(32))
			if ty == 5 {
				ty = 1
			}
			s = append(binary.BigEndian.AppendUint32(s, math.MaxUint32-uint32(r.IntN(40))), ty)
			for j := r.IntN(8); j > 0; j-- {
				s = append(s, 0, 0, 0, byte(1+r.IntN(3)), 5, 0x65)[:len(s)+r.IntN(7)]
			}
			t.Count("units longer than their sample", 1)
		} else if k > 0 && r.IntN(10) == 0 { // a tail too short for another unit
			s = append(s, randBytes(r, 1+r.IntN(ls))...)
		}
		size += uint64(len(s))
		if size > math.MaxUint32 {
			return
		}
		tr.Samples = append(tr.Samples, &mp4.Sample{Size: uint32(size)})
		cur.data = append(cur.data, s...)
		cur.count++
		if idr {
			want = append(want, i)
		}
		if r.IntN(3) == 0 {
			chunks = append(chunks, cur)
			cur = chunk{hole: -1}
			if r.IntN(8) == 0 { // a chunk of none
				chunks = append(chunks, chunk{hole: -1})
			}
		}
	}
	switch {
	case r.IntN(6) == 0 && len(cur.data) > 0: // the last samples are in no chunk
		first := len(tr.Samples) - int(cur.count)
		for len(want) > 0 && want[len(want)-1] >= first {
			want = want[:len(want)-1]
		}
		if cur.hole >= 0 {
			rd.HoleAt, rd.HoleLen = 0, 0
		}
	default:
		if r.IntN(6) == 0 { // the last chunk declares more
			cur.count += uint32(1 + r.IntN(5))
		}
		chunks = append(chunks, cur)
	}
	// the chunks lie in any order
	order := r.Perm(len(chunks))
	pos := make([]int, len(chunks))
	var data []byte
	if holeAt > -2 && rd.HoleAt == 0 && rd.HoleLen > 0 && holeAt >= 0 {
		rd.HoleLen = 0 // no unit took the hole
	}
	used := holeAt == -2
	for _, i := range order {
		data = append(data, randBytes(r, r.IntN(5))...)
		pos[i] = len(data)
		if used && chunks[i].hole >= 0 {
			rd.HoleAt = int64(len(data) + chunks[i].hole)
		}
		data = append(data, chunks[i].data...)
	}
	for i, c := range chunks {
		off := uint64(pos[i])
		if rd.HoleLen > 0 && (rd.HoleAt == 0 && !used || int64(pos[i]) > rd.HoleAt) {
			off += uint64(rd.HoleLen)
		}
		if off > math.MaxUint32 {
			t.Count("chunks beyond 4 GiB", 1)
		}
		tr.Chunks = append(tr.Chunks, &mp4.Chunk{DataOffset: off, SamplesPerChunk: c.count})
	}
	if r.IntN(2) == 0 {
		data = append(data, randBytes(r, r.IntN(9))...)
	}
	rd.Data = data
	t.Attach("data", data)
	t.AttachStr("layout", fmt.Sprintf("hole of %d at %d", rd.HoleLen, rd.HoleAt))
	c13judge(t, rd, tr, want, "track laid out by hand")
	plain := *tr
	plain.AVC = nil
	if got, err := mp4.FindIDRFrames(rd, &plain); err != nil || len(got) > 0 {
		t.Failf("IDR in a track that is not AVC", "reported %v, %v", got, err)
	}
}

func c13value(r *rand.Rand, style int) uint32 {
	switch style {
	case 0:
		return uint32(r.IntN(5))
	case 1:
		return 1 + uint32(r.IntN(40))
	case 2:
		return r.Uint32() >> uint(r.IntN(32))
	case 3:
		return math.MaxUint32 - uint32(r.IntN(3))
	}
	return 1000
}

// rate is 8*size*ts/dur; ok tells whether the product fits.
func rate(size, dur uint64, ts uint32) (v uint64, ok bool) {
	hi, lo := bits.Mul64(size, 8)
	if hi != 0 {
		return 0, false
	}
	hi, lo = bits.Mul64(lo, uint64(ts))
	if hi != 0 {
		return 0, false
	}
	if dur == 0 {
		return 0, true
	}
	return lo / dur, true
}

func c13samples(t *core.T) {
	r := t.R
	n := r.IntN(14)
	if r.IntN(20) == 0 {
		n = 300
	}
	if r.IntN(3000) == 0 {
		n = 300 + r.IntN(20000)
	}
	ss, ds := r.IntN(5), r.IntN(5)
	var samples mp4.Samples
	var size, dur uint64
	for i := 0; i < n; i++ {
		s := &mp4.Sample{Size: c13value(r, ss), TimeDelta: c13value(r, ds), CompositionTimeOffset: int64(int32(r.Uint32()))}
		samples = append(samples, s)
		size += uint64(s.Size)
		dur += uint64(s.TimeDelta)
	}
	ts := []uint32{1, 1000, 90000, r.Uint32() >> uint(r.IntN(32)), 0}[r.IntN(5)]
	if ds == 0 && r.IntN(3) == 0 {
		for _, s := range samples {
			s.TimeDelta = 0
		}
		dur = 0
	}
	if r.IntN(30) == 0 && size > 0 { // the product just fits
		ts = uint32(min(math.MaxUint64/8/size, math.MaxUint32))
	}
	want, fits := rate(size, dur, ts)
	if !fits {
		return
	}
	if size*8*uint64(ts) > 1<<63 {
		t.Count("products near 2^64", 1)
	}
	name := fmt.Sprintf("samples %s at %d", tree.Dump(samples), ts)
	t.AttachStr("samples", name)
	if dur == 0 {
		t.Count("no time elapses", 1)
	}
	if got := samples.GetBitrate(ts); got != want {
		t.Failf("average of samples", "%s: %d instead of %d", name, got, want)
	}
	var span uint64
	switch r.IntN(5) {
	case 0:
		span = uint64(r.IntN(6))
	case 1:
		span = uint64(ts)
	case 2:
		if dur > 0 {
			span = r.Uint64N(dur + 3)
		}
	case 3:
		span = uint64(c13value(r, ds)) * uint64(1+r.IntN(4))
	case 4:
		span = r.Uint64() >> uint(r.IntN(64))
	}
	max, kind := c13max(samples, ts, span)
	if kind == "inner" {
		t.Count("maxima from a window that starts inside a longer one", 1)
	}
	if kind == "tail" {
		t.Count("maxima from the last, shorter window", 1)
	}
	if max > 0 {
		t.Count("maximum rates", 1)
	}
	if t.Idx < 20 {
		t.Sample("%d samples of %d bytes lasting %d: average %d, maximum over %d: %d", n, size, dur, want, span, max)
	}
	t.Distinct([]byte(name), fmt.Append(nil, span))
	if got := samples.GetMaxBitrate(ts, span); got != max {
		t.Failf("maximum of samples", "%s over %d: %d instead of %d (%s)", name, span, got, max, kind)
	}
}

// c13max looks at every start on its own.
func c13max(samples mp4.Samples, ts uint32, span uint64) (best uint64, kind string) {
	n := len(samples)
	if span == 0 {
		return 0, ""
	}
	end, prev := 0, 0 // behind the last full window
	for b := 0; b < n; b++ {
		var size, dur uint64
		e := b
		for e < n && dur < span {
			size += uint64(samples[e].Size)
			dur += uint64(samples[e].TimeDelta)
			e++
		}
		k := "full"
		if dur < span { // no more full windows
			if end == n {
				break
			}
			k = "tail"
		} else {
			if e == prev {
				k = "inner"
			}
			end, prev = e, e
		}
		if v, _ := rate(size, dur, ts); v > best {
			best, kind = v, k
		}
		if k == "tail" {
			break
		}
	}
	return best, kind
}

func c13segments(t *core.T) {
	r := t.R
	n := r.IntN(12)
	ss, ds := r.IntN(5), r.IntN(5)
	ids := []uint32{1, 2, 0, r.Uint32(), math.MaxUint32}
	id := ids[r.IntN(len(ids))]
	var segs mp4.Segments
	var size, dur, best uint64
	ts := []uint32{1, 1000, 90000, r.Uint32() >> uint(r.IntN(32)), 0}[r.IntN(5)]
	fits := true
	for i := 0; i < n; i++ {
		s := &mp4.Segment{TrackID: id, Size: c13value(r, ss), Duration: c13value(r, ds), SampleCount: r.Uint32(), DefaultSampleDuration: r.Uint32(),
			CompositionTimeOffset: int32(r.Uint32()), BaseMediaDecodeTime: r.Uint64()}
		if r.IntN(3) == 0 {
			s.TrackID = ids[r.IntN(len(ids))]
		}
		segs = append(segs, s)
		if s.TrackID != id {
			t.Count("segments of other tracks", 1)
			continue
		}
		size += uint64(s.Size)
		dur += uint64(s.Duration)
		v, ok := rate(uint64(s.Size), uint64(s.Duration), ts)
		best = max(best, v)
		fits = fits && ok
	}
	want, ok := rate(size, dur, ts)
	name := fmt.Sprintf("segments %s of track %d at %d", tree.Dump(segs), id, ts)
	t.AttachStr("segments", name)
	t.Distinct([]byte(name))
	t.Count("segments rated", n)
	if dur == 0 {
		t.Count("no time elapses", 1)
	}
	if ok {
		if got := segs.GetBitrate(id, ts); got != want {
			t.Failf("average of segments", "%s: %d instead of %d", name, got, want)
		}
	}
	if fits {
		if got := segs.GetMaxBitrate(id, ts); got != best {
			t.Failf("maximum of segments", "%s: %d instead of %d", name, got, best)
		}
	}
}

// c13many has chunks and windows of very many samples.
func c13many(t *core.T) {
	r := t.R
	for _, n := range []int{40000, 65535, 65536, 65537, 140000} {
		tr := &mp4.Track{Codec: mp4.CodecAVC1, AVC: &mp4.AVCDecConfigInfo{LengthSize: 1}}
		var want []int
		var data []byte
		for i := 0; i < n; i++ {
			h := byte(1)
			if i%10007 == 0 || i == n-1 {
				h = 0x65
				want = append(want, i)
			}
			s := []byte{1, h, 1, 9}[:2+2*r.IntN(2)]
			data = append(data, s...)
			tr.Samples = append(tr.Samples, &mp4.Sample{Size: uint32(len(s))})
		}
		// one chunk, and as many chunks as samples
		one := mp4.Chunks{{SamplesPerChunk: uint32(n)}}
		if n > 65536 {
			t.Count("chunks of more than 65536 samples", 1)
		}
		var each mp4.Chunks
		off := uint64(0)
		for _, s := range tr.Samples {
			each = append(each, &mp4.Chunk{DataOffset: off, SamplesPerChunk: 1})
			off += uint64(s.Size)
		}
		for _, tr.Chunks = range []mp4.Chunks{one, each} {
			got, err := mp4.FindIDRFrames(rw.NewReader(data), tr)
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				t.Failf("IDR search in many samples", "%d samples in %d chunks: %v, %v; IDR slices are in %v", n, len(tr.Chunks), got, err, want)
			}
		}
	}
	for _, n := range []int{5000, 10001, 40000, 70000} {
		var s mp4.Samples
		var dur uint64
		for i := 0; i < n; i++ {
			x := &mp4.Sample{Size: 1 + uint32(r.IntN(1000)), TimeDelta: uint32(r.IntN(3))}
			s = append(s, x)
			dur += uint64(x.TimeDelta)
		}
		for _, span := range []uint64{dur - dur/64, dur - 20, dur - 1, dur, dur + 1} {
			want, _ := c13max(s, 90000, span)
			t.Count("windows of more than 5000 samples", 1)
			if got := s.GetMaxBitrate(90000, span); got != want {
				t.Failf("maximum over many samples", "%d samples lasting %d over %d: %d instead of %d", n, dur, span, got, want)
			}
		}
		var segs mp4.Segments
		best := uint64(0)
		for i := 0; i < n; i++ {
			x := &mp4.Segment{TrackID: 7, Size: uint32(r.IntN(1000)), Duration: 1 + uint32(r.IntN(9))}
			segs = append(segs, x)
			best = max(best, 8*uint64(x.Size)*90000/uint64(x.Duration))
		}
		if got := segs.GetMaxBitrate(7, 90000); got != best {
			t.Failf("maximum of many segments", "%d segments: %d instead of %d", n, got, best)
		}
	}
}
