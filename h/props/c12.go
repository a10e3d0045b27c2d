package props

import (
	"fmt"
	"io"
	"reflect"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C12", Quick: 25000, Thorough: 3000000,
		Rule: "generated movies (progressive, fragmented, both; several tracks of every sample entry kind, all header versions, chunk tables in both widths, split runs, " +
			"empty chunks and samples, data beyond 4 GiB through a reader with a hole, box orders shuffled, a mandatory box missing, an unsupported box of many GiB inserted) " +
			"are probed and every field of the result is compared with what the generator put in; non-trivial: distinct probe results",
		Need: []string{"movies", "tracks", "fragments", "samples", "edits", "descriptions AVC", "descriptions MPEG-4 audio", "missing box", "beyond 4 GiB",
			"movies without fast start", "encrypted tracks", "QuickTime movies", "audio extensions", "negative offsets"},
		Case:  c12,
		Fixed: []func(t *core.T){c12sbr},
	})
}

func c12(t *core.T) {
	r := t.R
	o := gen.MovieOptions{Progressive: r.IntN(3) > 0, MaxTracks: 1 + r.IntN(4)}
	o.Fragmented = !o.Progressive || r.IntN(3) == 0
	o.Missing = r.IntN(6) == 0
	o.Far = r.IntN(8) == 0
	o.Wild = r.IntN(20) == 0
	if r.IntN(10) == 0 {
		o.MaxSamples = 200
		o.MaxFrags = 30
	}
	if r.IntN(40) == 0 {
		o.MaxTracks = 20
	}
	switch r.IntN(1500) {
	case 0:
		o.MaxTracks, o.MaxSamples = 1, 140000
	case 1, 2, 3, 4, 5:
		o.MaxTracks, o.MaxSamples = 2, 8000
	case 6, 7, 8, 9:
		o.MaxTracks, o.MaxFrags = 3, 1500
	case 10, 11, 12, 13:
		o.MaxTracks, o.MaxSamples, o.MaxFrags = 400, 3, 10
	}
	m := gen.RandomMovie(r, o)
	if !o.Far && r.IntN(15) == 0 { // a huge box somewhere
		m.File.Punch(r)
		m.File.Resolve()
		for i, f := range m.Frags {
			f.Expect.MoofOffset = f.Moof.Offset
			_ = i
		}
	}
	rd := rw.NewReader(m.Data)
	rd.R = r
	rd.HoleAt, rd.HoleLen = int64(m.HoleAt), int64(m.HoleLen)
	t.Attach("file", m.Data)
	if m.HoleLen > 0 {
		t.AttachStr("hole", fmt.Sprintf("%d zeros at %d", m.HoleLen, m.HoleAt))
		t.Count("beyond 4 GiB", 1)
	}
	start := r.IntN(len(m.Data) + 1) // the position beforehand is of no importance
	rd.Pos = int64(start)
	probe := mp4.Probe
	if r.IntN(4) == 0 {
		probe = func(r io.ReadSeeker) (*mp4.ProbeInfo, error) { return mp4.ProbeFra(r) }
	}
	info, err := probe(rd)
	if m.Missing != "" {
		t.Count("missing box", 1)
		t.Count("missing "+m.Missing, 1)
		if err == nil {
			t.Failf("missing box accepted", "a movie without %s is reported as %s", m.Missing, tree.Dump(info))
		}
		return
	}
	if err != nil {
		t.Failf("error", "a well-formed movie gives %q; expected %s", err, tree.Dump(m.Expect))
		return
	}
	want := tree.Dump(m.Expect)
	if where, ok := tree.Equal(reflect.ValueOf(info), reflect.ValueOf(m.Expect)); !ok {
		t.Failf("wrong "+c12key(where), "%s differs:\nreported %s\nexpected %s", where, tree.Dump(info), want)
		return
	}
	t.Distinct([]byte(want))
	if t.Idx < 6 {
		t.Sample("%d bytes: %s", len(m.Data), want)
	}
	t.Count("movies", 1)
	t.Count("tracks", len(m.Tracks))
	t.Count("fragments", len(m.Frags))
	if !m.Expect.FastStart {
		t.Count("movies without fast start", 1)
	}
	for _, b := range m.Expect.CompatibleBrands {
		if string(b[:]) == "qt  " {
			t.Count("QuickTime movies", 1)
		}
	}
	for _, tr := range m.Tracks {
		t.Count("samples", len(tr.Samples))
		t.Count("edits", len(tr.Expect.EditList))
		if tr.Expect.AVC != nil {
			t.Count("descriptions AVC", 1)
		}
		if a := tr.Expect.MP4A; a != nil {
			t.Count("descriptions MPEG-4 audio", 1)
			if a.AudOTI == 5 || a.AudOTI == 29 {
				t.Count("audio extensions", 1)
			}
		}
		if tr.Expect.Encrypted {
			t.Count("encrypted tracks", 1)
		}
		for _, s := range tr.Expect.Samples {
			if s.CompositionTimeOffset < 0 {
				t.Count("negative offsets", 1)
			}
		}
	}
}

// c12key strips indices.
func c12key(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < '0' || c > '9' {
			out = append(out, c)
		}
	}
	return string(out)
}

// c12sbr shows the listed defect: AAC-LC with backward compatible SBR signalling as ISO/IEC
// 14496-3 lays it out (GASpecificConfig before the extension) is reported as plain AAC-LC.
func c12sbr(t *core.T) {
	// object type 2, frequency index 7, 2 channels, GASpecificConfig 000, sync 0x2b7, object type 5, SBR, frequency index 4
	cfg := []byte{0x13, 0x90, 0x56, 0xe5, 0xa0}
	esds := append([]byte{0, 0, 0, 0, 3, 27, 0, 1, 0, 4, 22, 0x40, 0x15}, make([]byte, 11)...)
	esds = append(append(esds, 5, byte(len(cfg))), cfg...)
	esds[5], esds[10] = byte(len(esds)-6), byte(len(esds)-11)
	m := gen.AudioMovie(esds)
	info, err := mp4.Probe(rw.NewReader(m.Data))
	if err != nil || len(info.Tracks) != 1 || info.Tracks[0].MP4A == nil {
		t.Failf("audio description", "a movie with one AAC track: %s, %v", tree.Dump(info), err)
		return
	}
	if got := *info.Tracks[0].MP4A; got != (mp4.MP4AInfo{OTI: 0x40, AudOTI: 5, ChannelCount: 2}) {
		if got != (mp4.MP4AInfo{OTI: 0x40, AudOTI: 2, ChannelCount: 2}) {
			t.Failf("audio description", "AAC-LC with SBR is reported as %+v", got)
			return
		}
		t.Known("C12-aac-sbr", "AAC-LC with backward compatible SBR signalled behind its GASpecificConfig (AudioSpecificConfig 139056e5a0) is reported as object type 2 instead of 5")
	}
}
