package props

import (
	"fmt"
	"reflect"
	"slices"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C09", Quick: 60000, Thorough: 4000000,
		Rule: "random forests and movies, some beyond 4 GiB; random sets of paths (real ones, prefixes, extensions, wildcards in any position, duplicates, overlapping ones, empty ones) " +
			"relative to the file, to a generated box, or to a box extracted before; the returned records are compared with a direct match of the paths against the model of the " +
			"file, the payloads with the model and with what a walk decodes; non-trivial: distinct (file, parent, paths) with at least one matching box",
		Assumptions: []string{"where a path leads through a box that the library does not support, an error instead of a result is accepted",
			"boxes of the actual type 0x00000000, which doubles as the wildcard, are left out"},
		Need:  []string{"extractions", "matches", "wildcards matching", "relative to a box", "relative to an extracted box", "several paths", "empty paths", "payloads", "boxes matched by several paths", "errors for unsupported boxes", "paths through an unsupported version", "results of more than 4096 boxes"},
		Case:  c09,
		Fixed: []func(t *core.T){c09many},
	})
}

// pathMatch reports whether the path of a box equals p, and whether it is a proper prefix of p.
func pathMatch(p, box mp4.BoxPath) (full, prefix bool) {
	if len(box) > len(p) {
		return false, false
	}
	for i := range box {
		if p[i] != box[i] && p[i] != (mp4.BoxType{}) {
			return false, false
		}
	}
	return len(box) == len(p), len(box) < len(p)
}

// c09many extracts very many boxes with very many paths.
func c09many(t *core.T) {
	for _, n := range []int{255, 257, 4097, 70000} {
		in := &gen.Box{Type: bt("trak")}
		for i := range n {
			in.Kids = append(in.Kids, gen.Leaf([]string{"free", "skip"}[i%3/2], []byte{byte(i), byte(i >> 8), byte(i >> 16)}))
		}
		f := &gen.File{Roots: []*gen.Box{gen.Leaf("free", nil), gen.Cont("moov", in)}}
		f.Resolve()
		f.Layout()
		for _, last := range []string{"free", "skip", "\x00\x00\x00\x00"} {
			paths := []mp4.BoxPath{{bt("moov"), bt("trak"), bt(last)}}
			for k := range min(n, 1000) { // paths of nothing, and one more that leads there
				paths = append(paths, mp4.BoxPath{bt("moov"), mp4.BoxType{'x', byte(k), byte(k >> 8), 'y'}, bt("free")})
			}
			paths = append(paths, mp4.BoxPath{bt("moov"), bt("trak"), bt("skip")})
			got, err := mp4.ExtractBoxesWithPayload(rw.NewReader(f.Data), nil, paths)
			t.Eval(1)
			if err != nil {
				t.Failf("many boxes", "extracting %s of %d boxes: %v", last, n, err)
				return
			}
			i := 0
			for k, b := range in.Kids {
				if last == "skip" && b.Type == bt("free") {
					continue
				}
				if i >= len(got) {
					t.Failf("many boxes", "extracting %q of %d boxes: only %d", last, n, len(got))
					return
				}
				g := got[i]
				var data []byte
				switch p := g.Payload.(type) {
				case *mp4.Free:
					data = p.Data
				case *mp4.Skip:
					data = p.Data
				}
				if g.Info.Offset != b.Offset || g.Info.Type != b.Type || g.Info.Size != 11 || string(data) != string(b.Fields) {
					t.Failf("many boxes", "extracting %q of %d boxes: result %d is %s with %x, box %d is at %d with %x", last, n, i, infoStr(&g.Info), data, k, b.Offset, b.Fields)
					return
				}
				i++
			}
			if i != len(got) {
				t.Failf("many boxes", "extracting %q of %d boxes: %d results instead of %d", last, n, len(got), i)
				return
			}
			if i > 4096 {
				t.Count("results of more than 4096 boxes", 1)
			}
		}
	}
}

func c09(t *core.T) {
	r := t.R
	var f *gen.File
	if r.IntN(3) == 0 {
		f, _ = randFile(r)
	} else {
		o := gen.Default(r)
		o.NoUnknown = r.IntN(4) > 0
		f = gen.Random(r, o)
	}
	var huge *gen.Box
	if r.IntN(16) == 0 {
		huge = f.Punch(r)
	}
	all := f.All()
	var parent *gen.Box
	if len(all) > 0 && r.IntN(2) == 0 {
		parent = all[r.IntN(len(all))]
		if r.IntN(2) == 0 { // rather one with children
			for i := 0; i < 10 && len(parent.Kids) == 0; i++ {
				parent = all[r.IntN(len(all))]
			}
		}
	}
	c09version(t, f)
	paths := randPaths(r, all, parent)
	t.Attach("file", f.Data)
	t.AttachStr("paths", fmt.Sprint(paths))
	var bi *mp4.BoxInfo
	if parent != nil {
		bi = infoOf(parent)
		t.AttachStr("parent", fmt.Sprintf("%v at %d", parent.Path(), parent.Offset))
	}
	switch r.IntN(30) {
	case 0:
		i := r.IntN(len(paths) + 1)
		paths = slices.Insert(paths, i, mp4.BoxPath{})
		if r.IntN(2) == 0 {
			paths[i] = nil
		}
		t.Count("empty paths", 1)
		if bis, err := mp4.ExtractBoxes(rw.NewReader(f.Data), bi, paths); err == nil {
			t.Failf("empty path accepted", "%v: %d boxes, no error", paths, len(bis))
		}
		if bs, err := mp4.ExtractBoxesWithPayload(rw.NewReader(f.Data), bi, paths); err == nil {
			t.Failf("empty path accepted", "%v: %d boxes, no error", paths, len(bs))
		}
		if len(paths[i]) == 0 {
			if _, err := mp4.ExtractBox(rw.NewReader(f.Data), bi, paths[i]); err == nil {
				t.Failf("empty path accepted", "ExtractBox: no error")
			}
			if _, err := mp4.ExtractBoxWithPayload(rw.NewReader(f.Data), bi, paths[i]); err == nil {
				t.Failf("empty path accepted", "ExtractBoxWithPayload: no error")
			}
		}
		return
	case 1:
		if bis, err := mp4.ExtractBoxes(rw.NewReader(f.Data), bi, nil); err != nil || len(bis) != 0 {
			t.Failf("no path", "%d boxes, %v", len(bis), err)
		}
	}
	got := c09extract(t, f, huge, parent, bi, paths)
	if got == nil || len(got) == 0 || r.IntN(3) > 0 {
		return
	}
	// go on from what was extracted
	k := got[r.IntN(len(got))]
	var b *gen.Box
	for _, x := range all {
		if x.Offset == k.Offset {
			b = x
		}
	}
	t.Count("relative to an extracted box", 1)
	paths = randPaths(r, all, b)
	t.AttachStr("extracted parent", fmt.Sprintf("%v at %d", b.Path(), b.Offset))
	t.AttachStr("paths", fmt.Sprint(paths))
	c09extract(t, f, huge, b, k, paths)
}

func c09extract(t *core.T, f *gen.File, huge, parent *gen.Box, bi *mp4.BoxInfo, paths []mp4.BoxPath) []*mp4.BoxInfo {
	r := t.R
	// what must come out
	var want []*gen.Box
	unsupported, wild, multi := false, false, 0
	var rec func(bs []*gen.Box, rel mp4.BoxPath)
	visit := func(b *gen.Box, rel mp4.BoxPath) {
		n, pre := 0, false
		for _, p := range paths {
			m, fw := pathMatch(p, rel)
			if m {
				n++
				if slices.Contains(p, mp4.BoxType{}) {
					wild = true
				}
			}
			pre = pre || fw
		}
		if n > 0 {
			want = append(want, b)
		}
		if n > 1 {
			multi++
		}
		if pre {
			if !c09decodable(f, b) {
				unsupported = true
			}
			rec(b.Kids, rel)
		}
	}
	rec = func(bs []*gen.Box, rel mp4.BoxPath) {
		for _, b := range bs {
			if b.Type == (mp4.BoxType{}) {
				continue
			}
			visit(b, append(slices.Clone(rel), b.Type))
		}
	}
	if parent == nil {
		rec(f.Roots, nil)
	} else {
		if parent.Type == (mp4.BoxType{}) {
			return nil
		}
		t.Count("relative to a box", 1)
		if !c09decodable(f, parent) {
			unsupported = true
		}
		rec(parent.Kids, nil)
	}
	rd := rw.NewReader(f.Data)
	rd.HoleAt, rd.HoleLen = int64(f.HoleAt), int64(f.HoleLen)
	rd.R = r
	rd.Pos = int64(r.IntN(len(f.Data) + 1))
	if r.IntN(3) == 0 {
		rd.Mode = rw.Modes[r.IntN(len(rw.Modes))]
	}
	t.Count("extractions", 1)
	if len(paths) > 1 {
		t.Count("several paths", 1)
	}
	var was mp4.BoxInfo
	if bi != nil {
		was = *bi
	}
	orig := fmt.Sprint(paths)
	var bis []*mp4.BoxInfo
	var err error
	if len(paths) == 1 && r.IntN(2) == 0 {
		bis, err = mp4.ExtractBox(rd, bi, paths[0])
	} else {
		bis, err = mp4.ExtractBoxes(rd, bi, paths)
	}
	if bi != nil && *bi != was {
		t.Failf("parent record changed", "%s became %s", infoStr(&was), infoStr(bi))
	}
	if fmt.Sprint(paths) != orig {
		t.Failf("paths changed", "%s became %v", orig, paths)
	}
	if err != nil && unsupported {
		t.Count("errors for unsupported boxes", 1)
		return nil
	}
	if err != nil {
		t.Failf("extraction failed", "%v", err)
		return nil
	}
	if len(want) > 0 {
		var ps []byte
		if parent != nil {
			ps = fmt.Appendf(nil, "%d", parent.Offset)
		}
		t.Distinct(f.Data, []byte(orig), ps)
		t.Count("matches", len(want))
		t.Count("boxes matched by several paths", multi)
		if wild {
			t.Count("wildcards matching", 1)
		}
		if t.Idx < 100 {
			t.Sample("paths %s in a file of %d boxes: %d matches", orig, len(f.All()), len(want))
		}
	}
	if !c09same(t, bis, want, "ExtractBoxes") {
		return nil
	}
	// with payload
	var bad, big bool
	for _, b := range want {
		if !c09decodable(f, b) {
			bad = true
		}
		for p := huge; p != nil; p = p.Parent {
			if p == b {
				big = true
			}
		}
	}
	if big {
		return bis
	}
	var bs []*mp4.BoxInfoWithPayload
	if len(paths) == 1 && r.IntN(2) == 0 {
		bs, err = mp4.ExtractBoxWithPayload(rd, bi, paths[0])
	} else {
		bs, err = mp4.ExtractBoxesWithPayload(rd, bi, paths)
	}
	if err != nil && bad {
		t.Count("errors for unsupported boxes", 1)
		return bis
	}
	if bad {
		t.Failf("payload of an unsupported box", "no error although a matching box cannot be decoded")
		return bis
	}
	if err != nil {
		t.Failf("extraction with payload failed", "%v", err)
		return bis
	}
	var infos []*mp4.BoxInfo
	for _, b := range bs {
		infos = append(infos, &b.Info)
	}
	if !c09same(t, infos, want, "ExtractBoxesWithPayload") {
		return bis
	}
	walked := map[uint64]string{}
	if r.IntN(4) == 0 && huge == nil {
		h := func(h *mp4.ReadHandle) (interface{}, error) {
			if !h.BoxInfo.IsSupportedType() {
				return nil, nil
			}
			box, _, err := h.ReadPayload()
			if err == mp4.ErrUnsupportedBoxVersion {
				return nil, nil
			}
			if err != nil {
				return nil, err
			}
			walked[h.BoxInfo.Offset] = tree.Dump(box)
			_, err = h.Expand()
			return nil, err
		}
		if _, err := mp4.ReadBoxStructure(rd, h); err != nil {
			t.Failf("walk failed", "%v", err)
		}
	}
	for i, b := range want {
		t.Count("payloads", 1)
		m := spec.Decode(b.Def, b.Type, b.Ctx, f.Payload(b))
		if m.Err != nil {
			continue
		}
		if tree.GoType(bs[i].Payload) != b.Def.GoType {
			t.Failf("payload type", "%v at %d: %s, expected %s", b.Path(), b.Offset, tree.GoType(bs[i].Payload), b.Def.GoType)
			continue
		}
		if err := tree.Compare(m.Root, reflect.ValueOf(bs[i].Payload)); err != nil {
			t.Failf("payload value", "%v at %d: %v", b.Path(), b.Offset, err)
		}
		if w, ok := walked[b.Offset]; ok && w != tree.Dump(bs[i].Payload) {
			t.Failf("payload differs from a walk's", "%v at %d: %s, walking decodes %s", b.Path(), b.Offset, tree.Dump(bs[i].Payload), w)
		}
	}
	return bis
}

func c09same(t *core.T, got []*mp4.BoxInfo, want []*gen.Box, what string) bool {
	list := func() string {
		s := "got"
		for _, b := range got {
			s += fmt.Sprintf(" %v@%d", b.Type, b.Offset)
		}
		s += "; expected"
		for _, b := range want {
			s += fmt.Sprintf(" %v@%d", b.Path(), b.Offset)
		}
		return s
	}
	if len(got) != len(want) {
		t.Failf(what+": number of boxes", "%d boxes instead of %d: %s", len(got), len(want), list())
		return false
	}
	for i, b := range want {
		g := got[i]
		if g.Offset != b.Offset || g.Type != b.Type {
			t.Failf(what+": wrong boxes", "%s", list())
			return false
		}
		if g.Size != b.Size || g.HeaderSize != b.Header || g.ExtendToEOF != (b.Form == 2) {
			t.Failf(what+": wrong record", "%v at %d: %s, expected size %d, header %d", b.Path(), b.Offset, infoStr(g), b.Size, b.Header)
			return false
		}
		if g.IsSupportedType() != (b.Def != nil) || g.Context != b.Ctx && b.Type != bt("ftyp") && b.Type != bt("keys") {
			t.Failf(what+": wrong context", "%v at %d: %s, expected %s", b.Path(), b.Offset, infoStr(g), ctxStr(b.Ctx))
			return false
		}
		for j := range i {
			if got[j] == g {
				t.Failf(what+": shared record", "results %d and %d are the same record", j, i)
				return false
			}
		}
	}
	return true
}

// c09version gives a box with boxes inside a version that is not supported.
func c09version(t *core.T, f *gen.File) {
	r := t.R
	if r.IntN(5) > 0 {
		return
	}
	var c []*gen.Box
	for _, b := range f.All() {
		if b.Def != nil && b.Def.Versions != nil && len(b.Kids) > 0 && len(b.Fields) >= 4 && b.Type != bt("meta") { // that one tells its two layouts apart by these bytes
			c = append(c, b)
		}
	}
	if len(c) == 0 {
		return
	}
	b := c[r.IntN(len(c))]
	v := uint8(1 + r.IntN(255))
	for slices.Contains(b.Def.Versions, v) {
		v++
	}
	b.Fields[0] = v
	f.Layout()
	t.Count("paths through an unsupported version", 1)
}

// c09decodable reports whether the box is of a supported type and version.
func c09decodable(f *gen.File, b *gen.Box) bool {
	return b.Def != nil && (b.Def.Versions == nil || b.QTMeta || len(b.Fields) == 0 || slices.Contains(b.Def.Versions, b.Fields[0]))
}
