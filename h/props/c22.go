package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
)

func init() {
	register(&core.Check{
		ID: "C22", Quick: 9000, Thorough: 600000,
		Rule: "fragmented movies with plain and encrypted video and audio tracks (and tracks of other kinds) in random order, any interleaving of fragments, fragments without or with several media data boxes or of unknown tracks, " +
			"any combination of sample durations (per sample, per fragment, per movie), every header form, are divided by the built mp4tool; every file that it writes is compared with the model, and playlists with segments and durations; " +
			"non-trivial: distinct movies",
		Need: []string{"movies divided", "tracks", "encrypted tracks", "tracks of other kinds", "segments", "fragments of no track", "media data in several boxes", "fragments without media data", "tracks without segments", "durations from the movie box",
			"durations beyond 32 bits", "existing outputs replaced", "boxes in movie boxes", "media data before the first fragment", "headers to the end of the file", "large media data", "indexes and protection data at the top", "large movie boxes", "movies of many segments", "divisions with failing writes", "divisions with an output that cannot be written", "inputs that end within a box", "inputs that do not exist"},
		Case:  c22,
		Fixed: []func(t *core.T){c22long, c22huge},
	})
}

// c22long divides a movie of many segments by a process that may open few files.
func c22long(t *core.T) {
	for i := 0; i < 1000; i++ {
		m := gen.RandomMovie(t.R, gen.MovieOptions{Fragmented: true, Divide: true, MaxTracks: 2, MaxFrags: 4000, MaxSamples: 2, Timed: true})
		n := map[uint32]int{}
		for _, f := range m.Frags {
			n[f.TrackID]++
		}
		if m.All() != nil && len(m.Tracks) == 2 && n[m.Tracks[0].ID] >= 1030 && n[m.Tracks[1].ID] >= 1030 && strings.HasPrefix(c22dirs[m.Tracks[0].Kind]+c22dirs[m.Tracks[1].Kind], "video") {
			t.Count("movies of many segments", 1)
			c22run(t, m, true)
			return
		}
	}
}

// c22boxes lists the boxes in data; ok is false if they do not fill it.
func c22boxes(data []byte) (types []mp4.BoxType, payloads, whole [][]byte, ok bool) {
	for len(data) > 0 {
		if len(data) < 8 {
			return nil, nil, nil, false
		}
		size, header := uint64(binary.BigEndian.Uint32(data)), uint64(8)
		switch size {
		case 0:
			size = uint64(len(data))
		case 1:
			if len(data) < 16 {
				return nil, nil, nil, false
			}
			size, header = binary.BigEndian.Uint64(data[8:]), 16
		}
		if size < header || size > uint64(len(data)) {
			return nil, nil, nil, false
		}
		types = append(types, mp4.BoxType(data[4:8]))
		payloads = append(payloads, data[header:size])
		whole = append(whole, data[:size])
		data = data[size:]
	}
	return types, payloads, whole, true
}

var c22dirs = map[string]string{"avc1": "video", "mp4a": "audio", "encv": "video_enc", "enca": "audio_enc"}

type c22seg struct {
	data     []byte
	duration float64
	mdats    []uint64 // sizes of media data boxes
}

func c22(t *core.T) {
	r := t.R
	o := gen.MovieOptions{Fragmented: true, Divide: true, Progressive: r.IntN(8) == 0, MaxTracks: 4, MaxFrags: 1 + r.IntN(12), MaxSamples: 1 + r.IntN(8), BigData: r.IntN(10) == 0}
	switch r.IntN(150) {
	case 0:
		o.MaxFrags = 150
	case 1:
		o.MaxSamples = 1000
	}
	m := gen.RandomMovie(r, o)
	if m.All() == nil || len(m.Data) > 4<<20 {
		return
	}
	c22run(t, m, false)
}

// c22huge divides movies with a lot of data in front of the fragments.
func c22huge(t *core.T) {
	for k := 0; k < 6; k++ {
		m := gen.RandomMovie(t.R, gen.MovieOptions{Fragmented: true, Divide: true, MaxTracks: 3, MaxFrags: 4, MaxSamples: 4})
		if len(m.Frags) == 0 || m.HoleLen > 0 {
			continue
		}
		b := gen.Leaf([]string{"mdat", "mfra"}[k%2], []byte("data"))
		b.Form, b.Hole = 1, 1<<32+uint64(t.R.IntN(100))
		i := 0
		for m.Roots[i].Type != bt("moof") {
			if m.Roots[i].Form == 2 {
				m.Roots[i].Form = 1
			}
			i++
		}
		m.Roots = append(m.Roots[:i:i], append([]*gen.Box{b}, m.Roots[i:]...)...)
		m.Layout()
		c22run(t, m, false)
	}
}

func c22run(t *core.T, m *gen.Movie, few bool) {
	r := t.R
	data := m.Data
	in := ""
	if m.HoleLen > 0 {
		in = scratchSparse(t, m.File)
	} else {
		in = scratchFile(t, data)
	}
	if in == "" {
		return
	}
	defer os.Remove(in)
	dir := scratchName(t, "divided")
	defer os.RemoveAll(dir)
	byID := map[uint32]*gen.MTrack{}
	for _, tr := range m.Tracks {
		byID[tr.ID] = tr
	}
	fresh := true
	if r.IntN(8) == 0 { // what an earlier run left behind
		fresh = false
		t.Count("existing outputs replaced", 1)
		for _, d := range c22dirs {
			os.MkdirAll(filepath.Join(dir, d), 0o755)
			for _, n := range []string{"init.mp4", "0.mp4", "1.mp4", "playlist.m3u8"} {
				os.WriteFile(filepath.Join(dir, d, n), bytes.Repeat([]byte("old\n"), len(data)/4+100), 0o644)
			}
		}
		os.WriteFile(filepath.Join(dir, "playlist.m3u8"), bytes.Repeat([]byte("old\n"), 1000), 0o644)
	}
	if r.IntN(2) == 0 && fresh {
		os.MkdirAll(dir, 0o755)
	}
	for _, b := range m.Roots {
		if b.Form == 2 {
			t.Count("headers to the end of the file", 1)
		}
		switch string(b.Type[:]) {
		case "sidx", "pssh", "mfra":
			t.Count("indexes and protection data at the top", 1)
		}
	}
	t.Attach("file", data)
	t.Trace("file for mp4tool alpha divide", data)
	t.Distinct(data)
	arg := dir
	if r.IntN(4) == 0 {
		arg += "/"
	}
	run := runTool
	if few {
		run = func(args ...string) toolResult { return runWith(256, -1, args...) }
	}
	res := run("alpha", "divide", in, arg)
	t.Eval(1)
	if res.timeout || res.crash() != "" {
		t.Failf("divide crashes", "%.800s", res.crash())
		return
	}
	if res.code != 0 {
		t.Failf("divide fails", "exit status %d, %.300q %.300q", res.code, res.out, res.errOut)
		return
	}
	t.Count("movies divided", 1)
	if m.HoleLen > 0 {
		t.Count("movies of more than 4 GiB", 1)
	} else if b, err := os.ReadFile(in); err != nil || !bytes.Equal(b, data) {
		t.Failf("input changed", "%d bytes, was %d (%v)", len(b), len(data), err)
	}
	// which segments there must be
	segs := map[uint32][]c22seg{}
	frags := map[*gen.Box]*gen.MFrag{}
	for _, f := range m.Frags {
		frags[f.Moof] = f
	}
	var cur *gen.MTrack
	started := false
	n := 0
	for _, b := range m.Roots {
		switch b.Type {
		case bt("moof"):
			f := frags[b]
			started = true
			cur = byID[f.TrackID]
			n = 0
			if cur == nil {
				t.Count("fragments of no track", 1)
				continue
			}
			if c22dirs[cur.Kind] == "" {
				cur = nil
				continue
			}
			if f.Duration > math.MaxUint32 {
				t.Count("durations beyond 32 bits", 1)
			}
			segs[cur.ID] = append(segs[cur.ID], c22seg{data: bytes.Clone(m.Bytes(b)), duration: float64(f.Duration) / float64(cur.Timescale)})
		case bt("mdat"):
			if !started {
				t.Count("media data before the first fragment", 1)
			}
			if cur == nil {
				continue
			}
			if n++; n == 2 {
				t.Count("media data in several boxes", 1)
			}
			if b.Size > 1<<16 {
				t.Count("large media data", 1)
			}
			l := segs[cur.ID]
			l[len(l)-1].data = append(l[len(l)-1].data, m.Bytes(b)...)
			l[len(l)-1].mdats = append(l[len(l)-1].mdats, b.Size)
		}
	}
	var ftyp, moov *gen.Box
	for _, b := range m.Roots {
		if b.Type == bt("ftyp") {
			ftyp = b
		} else if b.Type == bt("moov") {
			moov = b
			if b.Size > 1<<16 {
				t.Count("large movie boxes", 1)
			}
		}
	}
	want := map[string]bool{"playlist.m3u8": true}
	dirs := map[string]*gen.MTrack{}
	for _, tr := range m.Tracks {
		d := c22dirs[tr.Kind]
		if d == "" {
			t.Count("tracks of other kinds", 1)
			continue
		}
		dirs[d] = tr
		t.Count("tracks", 1)
		if strings.HasSuffix(d, "_enc") {
			t.Count("encrypted tracks", 1)
		}
		c22init(t, m, tr, ftyp, moov, filepath.Join(dir, d, "init.mp4"))
		want[d+"/init.mp4"], want[d+"/playlist.m3u8"] = true, true
		l := segs[tr.ID]
		if len(l) == 0 {
			t.Count("tracks without segments", 1)
			want[d+"/0.mp4"] = true // may be there, empty
			if b, err := os.ReadFile(filepath.Join(dir, d, "0.mp4")); err == nil && len(b) > 0 {
				t.Failf("media segment of a track without fragments", "%s/0.mp4: %d bytes", d, len(b))
			}
		}
		for i, s := range l {
			name := fmt.Sprintf("%s/%d.mp4", d, i)
			want[name] = true
			t.Count("segments", 1)
			if len(s.mdats) == 0 {
				t.Count("fragments without media data", 1)
			}
			b, err := os.ReadFile(filepath.Join(dir, name))
			if err != nil {
				t.Failf("media segment missing", "%v", err)
			} else if !bytes.Equal(b, s.data) {
				t.Failf("media segment", "%s of %d segments (track %d): %s", name, len(l), tr.ID, diff(b, s.data))
			}
		}
		c22playlist(t, l, filepath.Join(dir, d, "playlist.m3u8"))
	}
	c22master(t, dirs, segs, filepath.Join(dir, "playlist.m3u8"))
	if fresh {
		filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				if rel, _ := filepath.Rel(dir, p); !want[rel] {
					t.Failf("surplus file", "%s (%d bytes)", rel, info.Size())
				}
			}
			return nil
		})
	}
	if fresh && (r.IntN(6) == 0 || few) {
		c22full(t, in, dir)
	}
	if m.HoleLen == 0 && r.IntN(4) == 0 {
		kinds := "moov moof mdat"
		for _, b := range m.Roots { // media data before the first fragment are nobody's
			if b.Type == bt("mdat") || b.Type == bt("moof") {
				if b.Type == bt("mdat") {
					kinds = "moov moof"
				}
				break
			}
		}
		for _, f := range m.Frags { // and so are fragments of tracks that do not exist
			if byID[f.TrackID] == nil {
				kinds = "moov"
			}
		}
		for _, tr := range m.Tracks { // or are of no kind that is divided
			if c22dirs[tr.Kind] == "" {
				kinds = ""
			}
		}
		cutInput(t, data, kinds, func(in string) toolResult {
			out := scratchName(t, "cut")
			defer os.RemoveAll(out)
			return runTool("alpha", "divide", in, out)
		})
	}
	if t.Idx < 60 {
		var kinds []string
		for _, tr := range m.Tracks {
			kinds = append(kinds, fmt.Sprintf("%s: %d segments", tr.Kind, len(segs[tr.ID])))
		}
		t.Sample("movie of %d bytes with %d fragments: %s", len(data), len(m.Frags), strings.Join(kinds, ", "))
	}
	for _, tr := range m.Tracks {
		if tr.TrexUsed() {
			t.Count("durations from the movie box", 1)
		}
	}
}

// c22full divides again where no file may become as large as one of those that were written.
func c22full(t *core.T, in, dir string) {
	r := t.R
	var sizes []int64
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && info.Size() > 0 {
			sizes = append(sizes, info.Size())
			if filepath.Base(p) == "playlist.m3u8" {
				sizes = append(sizes, info.Size())
			}
		}
		return nil
	})
	if len(sizes) == 0 {
		return
	}
	var names []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if rel, e := filepath.Rel(dir, p); err == nil && e == nil && !info.IsDir() {
			names = append(names, rel)
		}
		return nil
	})
	for _, k := range r.Perm(len(names))[:min(2, len(names))] {
		name, out := names[k], scratchName(t, "full")
		for _, n := range names {
			os.MkdirAll(filepath.Join(out, filepath.Dir(n)), 0o755)
		}
		what := "a directory"
		_, full := os.Stat("/dev/full")
		info, _ := os.Stat(filepath.Join(dir, name))
		if full == nil && info != nil && info.Size() > 0 && r.IntN(3) > 0 {
			what = "a full device"
			os.Symlink("/dev/full", filepath.Join(out, name))
		} else {
			os.MkdirAll(filepath.Join(out, name, "taken"), 0o755)
		}
		res := runTool("alpha", "divide", in, out)
		os.RemoveAll(out)
		t.Eval(1)
		t.Count("divisions with an output that cannot be written", 1)
		if res.timeout || res.crash() != "" {
			t.Failf("divide crashes where writes fail", "%.800s", res.crash())
		} else if res.code == 0 {
			t.Failf("failed writes not reported", "%s is %s: exit status 0", name, what)
		}
	}
	limits := []int64{sizes[r.IntN(len(sizes))] - 1}
	if r.IntN(2) == 0 {
		limits[0] = r.Int64N(limits[0] + 1)
	}
	most := slices.Max(sizes)
	limits = append(limits, most-1-r.Int64N(min(most, 16)))
	for _, limit := range limits {
		out := scratchName(t, "full")
		res := runLimited(limit, "alpha", "divide", in, out)
		os.RemoveAll(out)
		t.Eval(1)
		t.Count("divisions with failing writes", 1)
		if res.timeout || res.crash() != "" {
			t.Failf("divide crashes where writes fail", "%.800s", res.crash())
		} else if res.code == 0 {
			t.Failf("failed writes not reported", "no file can be larger than %d bytes, the largest needs %d: exit status 0", limit, most)
		}
	}
}

// c22init judges an initialization segment.
func c22init(t *core.T, m *gen.Movie, tr *gen.MTrack, ftyp, moov *gen.Box, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Failf("initialization segment missing", "%v", err)
		return
	}
	types, payloads, whole, ok := c22boxes(b)
	// boxes for the whole movie may come along, as they are
	for i := 0; ok && i < len(types); i++ {
		if types[i] != bt("sidx") && types[i] != bt("pssh") {
			continue
		}
		found := false
		for _, x := range m.Roots {
			found = found || x.Type == types[i] && bytes.Equal(m.Bytes(x), whole[i])
		}
		if !found {
			t.Attach("output", b)
			t.Failf("initialization segment", "track %d (%s): %q not of the movie: %x", tr.ID, tr.Kind, types[i], whole[i])
			return
		}
		types, payloads, whole = append(types[:i:i], types[i+1:]...), append(payloads[:i:i], payloads[i+1:]...), append(whole[:i:i], whole[i+1:]...)
		i--
	}
	if !ok || len(types) != 2 || types[0] != bt("ftyp") || types[1] != bt("moov") {
		t.Attach("output", b)
		t.Failf("initialization segment", "track %d (%s): boxes %q in %d bytes (well formed: %v)", tr.ID, tr.Kind, types, len(b), ok)
		return
	}
	if !bytes.Equal(payloads[0], m.Payload(ftyp)) {
		t.Failf("initialization segment: brands", "track %d: %x, expected %x", tr.ID, payloads[0], m.Payload(ftyp))
	}
	_, _, kids, ok := c22boxes(payloads[1])
	if !ok {
		t.Attach("output", b)
		t.Failf("initialization segment: movie box", "track %d: malformed", tr.ID)
		return
	}
	i := 0
	for _, k := range moov.Kids {
		if k.Type == bt("trak") && k != tr.Trak {
			continue
		}
		t.Count("boxes in movie boxes", 1)
		if i >= len(kids) || !bytes.Equal(kids[i], m.Bytes(k)) {
			t.Attach("output", b)
			what := "missing"
			if i < len(kids) {
				what = diff(kids[i], m.Bytes(k))
			}
			t.Failf("initialization segment: movie box", "track %d: box %d, %s of %d bytes: %s", tr.ID, i, typeStr(k.Type), k.Size, what)
			return
		}
		i++
	}
	if i < len(kids) {
		t.Attach("output", b)
		t.Failf("initialization segment: movie box", "track %d: %d boxes, expected %d; surplus: %.8q", tr.ID, len(kids), i, kids[i])
	}
}

// c22playlist judges a media playlist.
func c22playlist(t *core.T, segs []c22seg, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Failf("media playlist missing", "%v", err)
		return
	}
	t.AttachStr("playlist", string(b))
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	bad := func(format string, a ...any) {
		t.Failf("media playlist", "%s: %s\n%.1500s", filepath.Base(filepath.Dir(path)), fmt.Sprintf(format, a...), b)
	}
	if lines[0] != "#EXTM3U" || lines[len(lines)-1] != "#EXT-X-ENDLIST" {
		bad("it begins with %q and ends with %q", lines[0], lines[len(lines)-1])
		return
	}
	var max float64
	for _, s := range segs {
		max = math.Max(max, s.duration)
	}
	dur := math.NaN()
	n, mapped, target := 0, 0, 0
	for _, l := range lines[1 : len(lines)-1] {
		switch {
		case strings.HasPrefix(l, "#EXTINF:"):
			v := strings.TrimPrefix(l, "#EXTINF:")
			if i := strings.IndexByte(v, ','); i >= 0 {
				v = v[:i]
			}
			d, err := strconv.ParseFloat(v, 64)
			if err != nil || !math.IsNaN(dur) {
				bad("line %q (%v)", l, err)
				return
			}
			dur = d
		case strings.HasPrefix(l, "#EXT-X-MAP:"):
			mapped++
			if !strings.Contains(l, `URI="init.mp4"`) || n > 0 {
				bad("line %q", l)
			}
		case strings.HasPrefix(l, "#EXT-X-TARGETDURATION:"):
			target++
			if v := strings.TrimPrefix(l, "#EXT-X-TARGETDURATION:"); v != strconv.FormatInt(int64(math.Ceil(max)), 10) {
				bad("target duration %s, the longest segment lasts %f", v, max)
			}
		case l != "" && l[0] != '#':
			if n >= len(segs) {
				bad("surplus segment %q", l)
				return
			}
			if l != fmt.Sprintf("%d.mp4", n) {
				bad("segment %d is %q", n, l)
				return
			}
			if w := segs[n].duration; !(math.Abs(dur-w) <= 1e-6+w*1e-12) {
				bad("segment %d lasts %f, its samples %f", n, dur, w)
				return
			}
			dur = math.NaN()
			n++
		}
	}
	if n != len(segs) || !math.IsNaN(dur) {
		bad("%d segments, expected %d", n, len(segs))
	}
	if mapped != 1 || target != 1 {
		bad("%d references to the initialization segment, %d target durations", mapped, target)
	}
}

// c22master judges the master playlist.
func c22master(t *core.T, dirs map[string]*gen.MTrack, segs map[uint32][]c22seg, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		if len(dirs) == 0 {
			return
		}
		t.Failf("master playlist missing", "%v", err)
		return
	}
	pick := func(a, b string) string {
		if dirs[a] != nil {
			return a
		} else if dirs[b] != nil {
			return b
		}
		return ""
	}
	audio, video := pick("audio", "audio_enc"), pick("video", "video_enc")
	bad := func(format string, a ...any) {
		t.Failf("master playlist", "%s\n%.1500s", fmt.Sprintf(format, a...), b)
	}
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if lines[0] != "#EXTM3U" {
		bad("it begins with %q", lines[0])
	}
	var media, streams, uris []string
	for _, l := range lines[1:] {
		switch {
		case strings.HasPrefix(l, "#EXT-X-MEDIA:"):
			media = append(media, l)
		case strings.HasPrefix(l, "#EXT-X-STREAM-INF:"):
			streams = append(streams, l)
		case l != "" && l[0] != '#':
			uris = append(uris, l)
		}
	}
	if audio == "" && len(media) != 0 || audio != "" && (len(media) != 1 || !strings.Contains(media[0], `URI="`+audio+`/playlist.m3u8"`)) {
		bad("audio in %q", audio)
	}
	if video == "" {
		if len(streams) != 0 || len(uris) != 0 {
			bad("no video")
		}
		return
	}
	if len(streams) != 1 || len(uris) != 1 || uris[0] != video+"/playlist.m3u8" {
		bad("video in %q", video)
		return
	}
	if (audio != "") != strings.Contains(streams[0], "AUDIO=") {
		bad("audio in %q", audio)
	}
	tr := dirs[video]
	entry := tr.Entry()
	if !strings.Contains(streams[0]+",", fmt.Sprintf("RESOLUTION=%dx%d,", entry.Tree.Kid("Width").U, entry.Tree.Kid("Height").U)) {
		bad("resolution %dx%d", entry.Tree.Kid("Width").U, entry.Tree.Kid("Height").U)
	}
	// the highest rate of a media data box in its segment, where defined
	var rate float64
	for _, s := range segs[tr.ID] {
		if s.duration == 0 && len(s.mdats) > 0 {
			return
		}
		for _, n := range s.mdats {
			rate = math.Max(rate, math.Floor(float64(n)*8/s.duration))
		}
	}
	i := strings.Index(streams[0], "BANDWIDTH=")
	if i < 0 {
		bad("no bandwidth")
		return
	}
	v := streams[0][i+len("BANDWIDTH="):]
	if i = strings.IndexByte(v, ','); i >= 0 {
		v = v[:i]
	}
	if g, err := strconv.ParseFloat(v, 64); err != nil || math.Abs(g-rate) > 1+rate*1e-9 {
		bad("bandwidth %s, expected %.0f", v, rate)
	}
}
