package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"maps"
	"os"
	"reflect"
	"slices"
	"strconv"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/spec"
)

func init() {
	register(&core.Check{
		ID: "C21", Quick: 6000, Thorough: 500000,
		Rule: "well-formed files (random forests with every box type, context, header form and QuickTime's peculiarities; movies with fragments) are edited by the built mp4tool with random options; " +
			"the output must hold exactly the boxes of the edited model: types, order, nesting, field values, data, sizes; " +
			"damaged and sample files that the library can still walk are compared box by box with a walk over the output; non-trivial: distinct files and options",
		Need: []string{"edits", "long drop lists", "edits without options", "boxes dropped", "subtrees dropped", "values set in version 0", "values set in version 1", "values refused", "boxes compared", "64-bit headers", "headers to the end of the file",
			"leftover bytes", "QuickTime meta boxes", "unsupported boxes", "files beyond the buffer", "other files compared", "existing outputs replaced", "absent types to drop", "edits with failing writes", "outputs that cannot be created", "inputs that end within a box", "inputs that do not exist"},
		Case: c21,
	})
}

func c21(t *core.T) {
	if t.Idx%6 == 5 {
		c21other(t)
		return
	}
	c21model(t)
}

// c21edit are the options of one edit.
type c21edit struct {
	drop  map[string]bool
	set   bool
	value uint64
	args  []string
}

func c21draw(t *core.T, types []mp4.BoxType, times int) (e c21edit) {
	r := t.R
	e.drop = map[string]bool{}
	if r.IntN(5) == 0 {
		return
	}
	if r.IntN(3) > 0 {
		var l []string
		n := 1 + r.IntN(3)
		if r.IntN(4) == 0 {
			n = 4 + r.IntN(12)
			t.Count("long drop lists", 1)
		}
		for k := n; k > 0; k-- {
			s := []string{"moov", "free", "mdat", "xxxx", "tfdt", "", "pssh", "nope", "mvhd ", "moo"}[r.IntN(10)]
			if len(types) > 0 && r.IntN(4) > 0 {
				s = typeName(types[r.IntN(len(types))])
			}
			if strings.ContainsAny(s, ",\x00") {
				continue
			}
			e.drop[s] = true
			l = append(l, s)
		}
		e.args = append(e.args, "-drop", strings.Join(l, ","))
	}
	if times > 0 && r.IntN(3) > 0 || r.IntN(5) == 0 {
		e.set = true
		e.value = r.Uint64() >> uint(r.IntN(64))
		switch r.IntN(8) {
		case 0:
			e.value = []uint64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<63 - 1, 1 << 63, 1<<64 - 2}[r.IntN(10)]
		case 1, 2, 3:
			e.value >>= 32
		}
		s := strconv.FormatUint(e.value, 10)
		if r.IntN(5) == 0 {
			s = fmt.Sprintf("0x%x", e.value)
		}
		if r.IntN(2) == 0 {
			e.args = append(e.args, "-base_media_decode_time", s)
		} else {
			e.args = append(e.args, "--base_media_decode_time="+s)
		}
	}
	return
}

func c21model(t *core.T) {
	r := t.R
	var f *gen.File
	if r.IntN(4) == 0 {
		f = gen.RandomMovie(r, gen.MovieOptions{Fragmented: true, Progressive: r.IntN(2) == 0, Small: true}).File
	} else {
		o := gen.Default(r)
		if r.IntN(5) == 0 {
			o.MaxBytes, o.MaxList = 80, 20
		}
		f = gen.Random(r, o)
		for k := r.IntN(4); k > 0; k-- { // fragments
			var kids []*gen.Box
			for n := 1 + r.IntN(3); n > 0; n-- {
				typ := bt([]string{"tfdt", "tfhd", "trun", "tfdt"}[r.IntN(4)])
				kids = append(kids, &gen.Box{Type: typ, Fields: spec.Gen(spec.Lookup(typ, mp4.Context{}), typ, mp4.Context{}, r, 3, 8).Data})
			}
			b := gen.Cont("moof", gen.Cont("traf", kids...))
			i := r.IntN(len(f.Roots) + 1)
			if i == len(f.Roots) && endsOpen(f.All()) {
				i = 0
			}
			if r.IntN(4) == 0 && len(kids) > 0 {
				b.Kids[0].Kids[0].Form, b.Form = r.IntN(2), r.IntN(2)
			}
			f.Roots = append(f.Roots[:i:i], append([]*gen.Box{b}, f.Roots[i:]...)...)
		}
		f.Layout()
		f.Resolve()
	}
	if r.IntN(12) == 0 {
		c20pad(t, f, 128*1024)
		f.Resolve()
	}
	times := 0
	for _, b := range f.All() {
		if b.Def != nil {
			m := spec.Decode(b.Def, b.Type, b.Ctx, f.Payload(b))
			if m.Err != nil {
				t.Count("outcome left open", 1)
				return
			}
			b.Tree = m.Root
		}
		if b.Type == bt("tfdt") {
			times++
		}
		if b.Form == 1 {
			t.Count("64-bit headers", 1)
		} else if b.Form == 2 {
			t.Count("headers to the end of the file", 1)
		}
	}
	data := bytes.Clone(f.Data)
	e := c21draw(t, typesIn(f.All()), times)
	// the edit of the model
	refused := false
	var rec func(bs []*gen.Box) []*gen.Box
	rec = func(bs []*gen.Box) []*gen.Box {
		var out []*gen.Box
		for _, b := range bs {
			if e.drop[typeName(b.Type)] {
				t.Count("boxes dropped", 1)
				if len(b.Kids) > 0 {
					t.Count("subtrees dropped", 1)
				}
				continue
			}
			out = append(out, b)
			if b.Def == nil {
				t.Count("unsupported boxes", 1)
				continue
			}
			if b.Type == bt("tfdt") && e.set {
				b.Fields = bytes.Clone(b.Fields)
				switch {
				case b.Fields[0] == 1:
					t.Count("values set in version 1", 1)
					binary.BigEndian.PutUint64(b.Fields[4:], e.value)
				case e.value > 1<<32-1:
					refused = true
				default:
					t.Count("values set in version 0", 1)
					binary.BigEndian.PutUint32(b.Fields[4:], uint32(e.value))
				}
				b.Tree = spec.Decode(b.Def, b.Type, b.Ctx, b.Fields).Root
			}
			if b.QTMeta {
				t.Count("QuickTime meta boxes", 1)
				b.QTMeta, b.Fields = false, make([]byte, 4)
			}
			if len(b.Tail) > 0 {
				t.Count("leftover bytes", 1)
				b.Tail = nil // no boxes
			}
			b.Kids = rec(b.Kids)
		}
		return out
	}
	before := len(f.All())
	f.Roots = rec(f.Roots)
	f.Layout()
	if len(e.drop) > 0 && before == len(f.All()) {
		t.Count("absent types to drop", 1)
	}
	out, _, ok := c21run(t, data, e, refused)
	if !ok || refused {
		return
	}
	t.Count("boxes compared", len(f.All()))
	if bytes.Equal(out, f.Data) {
		if t.Idx < 60 {
			t.Sample("mp4tool alpha edit %v: %d boxes of %d left, %d bytes as expected", e.args, len(f.All()), before, len(out))
		}
		return
	}
	if what := c21same(f, f.Roots, out, 0, uint64(len(out))); what != "" {
		t.Attach("expected", f.Data)
		t.Failf("edited file", "mp4tool alpha edit %v: %s; %s", e.args, what, diff(out, f.Data))
	} else {
		t.Count("different bytes for the same boxes", 1)
	}
}

// c21run edits data and returns the output.
func c21run(t *core.T, data []byte, e c21edit, fail bool) ([]byte, toolResult, bool) {
	in := scratchFile(t, data)
	defer os.Remove(in)
	outName := scratchName(t, "edited")
	defer os.Remove(outName)
	if t.R.IntN(4) == 0 { // an output that exists already
		t.Count("existing outputs replaced", 1)
		os.WriteFile(outName, bytes.Repeat([]byte("old"), len(data)/2+20), 0o644)
	}
	args := append(append([]string{"alpha", "edit"}, e.args...), in, outName)
	t.Attach("file", data)
	t.Trace("file for mp4tool alpha edit", data)
	t.AttachStr("command", fmt.Sprintf("%q", args))
	t.Count("edits", 1)
	if len(e.args) == 0 {
		t.Count("edits without options", 1)
	}
	t.Distinct(data, []byte(strings.Join(e.args, " ")))
	res := runTool(args...)
	t.Eval(1)
	if res.timeout || res.crash() != "" {
		t.Failf("edit crashes", "mp4tool %q: %.800s", args, res.crash())
		return nil, res, false
	}
	if fail {
		if res.code == 0 {
			t.Failf("edit accepts a value that does not fit", "mp4tool %q", args)
			return nil, res, false
		}
		t.Count("values refused", 1)
		return nil, res, true
	}
	if res.code != 0 {
		t.Failf("edit fails", "mp4tool %q: exit status %d, %.300q %.300q", args, res.code, res.out, res.errOut)
		return nil, res, false
	}
	if b, err := os.ReadFile(in); err != nil || !bytes.Equal(b, data) {
		t.Failf("input changed", "mp4tool %q: the input is %d bytes, was %d (%v)", args, len(b), len(data), err)
	}
	out, err := os.ReadFile(outName)
	if err != nil {
		t.Failf("no output", "mp4tool %q: %v", args, err)
		return nil, res, false
	}
	if len(e.args) == 0 && t.R.IntN(4) == 0 {
		cutInput(t, data, "moov moof mdat", func(in string) toolResult { return runTool("alpha", "edit", in, outName) })
	}
	if t.R.IntN(8) == 0 {
		c21full(t, args, int64(len(out)))
	}
	return out, res, true
}

// c21full edits again where the output cannot be written in full, or not at all.
func c21full(t *core.T, args []string, size int64) {
	args = slices.Clone(args)
	outName := scratchName(t, "full")
	defer os.RemoveAll(outName)
	args[len(args)-1] = outName
	limit := int64(-1)
	switch r := t.R; {
	case r.IntN(8) == 0:
		os.Mkdir(outName, 0o755)
		t.Count("outputs that cannot be created", 1)
	case r.IntN(8) == 0:
		args[len(args)-1] += "/missing/out.mp4"
		t.Count("outputs that cannot be created", 1)
	case size == 0:
		return
	case r.IntN(2) == 0:
		limit = size - 1 - r.Int64N(min(size, 9))
	default:
		limit = r.Int64N(size)
	}
	res := runLimited(limit, args...)
	t.Eval(1)
	t.Count("edits with failing writes", 1)
	if res.timeout || res.crash() != "" {
		t.Failf("edit crashes where writes fail", "mp4tool %q: %.800s", args, res.crash())
	} else if res.code == 0 {
		t.Failf("failed writes not reported", "mp4tool %q, the output of %d bytes cannot be larger than %d bytes (-1: cannot be created): exit status 0", args, size, limit)
	}
}

// c21same says how the boxes at [pos, end) of out differ from the model's.
func c21same(f *gen.File, want []*gen.Box, out []byte, pos, end uint64) string {
	for _, b := range want {
		if end-pos < 8 {
			return fmt.Sprintf("%v: no room for it at %d", b.Path(), pos)
		}
		size, header := uint64(binary.BigEndian.Uint32(out[pos:])), uint64(8)
		switch size {
		case 0:
			size = uint64(len(out)) - pos
		case 1:
			if end-pos < 16 {
				return fmt.Sprintf("%v: no room for its header at %d", b.Path(), pos)
			}
			size, header = binary.BigEndian.Uint64(out[pos+8:]), 16
		}
		if size < header || size > end-pos {
			return fmt.Sprintf("%v: size %d at %d, in %d bytes", b.Path(), size, pos, end-pos)
		}
		if typ := mp4.BoxType(out[pos+4 : pos+8]); typ != b.Type {
			return fmt.Sprintf("%v: type %q at %d", b.Path(), typ[:], pos)
		}
		p := out[pos+header : pos+size]
		n := len(p)
		if b.Def == nil || b.Type == bt("mdat") {
			if !bytes.Equal(p, f.Payload(b)) {
				return fmt.Sprintf("%v at %d: data %s", b.Path(), pos, diff(p, f.Payload(b)))
			}
		} else {
			m := spec.Decode(b.Def, b.Type, b.Ctx, p)
			if m.Err != nil {
				return fmt.Sprintf("%v at %d: fields not well formed: %v", b.Path(), pos, m.Err)
			}
			if !sameNode(m.Root, b.Tree) {
				return fmt.Sprintf("%v at %d: other field values", b.Path(), pos)
			}
			n = m.N
		}
		if s := c21same(f, b.Kids, out, pos+header+uint64(n), pos+size); s != "" {
			return s
		}
		pos += size
	}
	if pos != end {
		return fmt.Sprintf("%d surplus bytes at %d", end-pos, pos)
	}
	return ""
}

// sameNode compares two models of a value.
func sameNode(a, b *spec.Node) bool {
	if a.Name != b.Name || a.Kind != b.Kind || a.U != b.U || a.I != b.I || a.B != b.B || a.S != b.S || !bytes.Equal(a.Raw, b.Raw) || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !sameNode(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// c21box is a box as the library reads it.
type c21box struct {
	depth int
	typ   mp4.BoxType
	data  string
	box   mp4.IBox
}

var errC21skip = errors.New("skip")

// c21walk lists all boxes but those dropped.
func c21walk(data []byte, e *c21edit) (out []c21box, err error) {
	_, err = mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
		if e != nil && e.drop[typeName(h.BoxInfo.Type)] {
			return nil, nil
		}
		if h.BoxInfo.Offset+h.BoxInfo.Size > uint64(len(data)) {
			return nil, errC21skip
		}
		c := c21box{depth: len(h.Path), typ: h.BoxInfo.Type}
		if !h.BoxInfo.IsSupportedType() || h.BoxInfo.Type == bt("mdat") {
			c.data = string(data[h.BoxInfo.Offset+h.BoxInfo.HeaderSize : h.BoxInfo.Offset+h.BoxInfo.Size])
			out = append(out, c)
			return nil, nil
		}
		box, _, err := h.ReadPayload()
		if err != nil {
			return nil, err
		}
		switch string(h.BoxInfo.Type[:]) {
		case "vttC", "vlab", "ctim", "iden", "sttg", "payl", "vtta": // text up to the end of the box, which a NUL byte ends early here
			if bytes.IndexByte(data[h.BoxInfo.Offset+h.BoxInfo.HeaderSize:h.BoxInfo.Offset+h.BoxInfo.Size], 0) >= 0 {
				return nil, errC21skip
			}
		}
		c.box = box
		out = append(out, c)
		_, err = h.Expand()
		return nil, err
	})
	return
}

// c21other edits sample files and damaged files.
func c21other(t *core.T) {
	r := t.R
	var data []byte
	var types []mp4.BoxType
	if r.IntN(3) == 0 {
		files := sampleFiles()
		names := slices.Sorted(maps.Keys(files))
		data = bytes.Clone(files[names[r.IntN(len(names))]])
		if r.IntN(2) == 0 {
			for k := 1 + r.IntN(4); k > 0; k-- {
				data[r.IntN(len(data))] = byte(r.Uint32())
			}
		}
	} else {
		f, _ := randFile(r)
		data = mutateFile(r, f)
	}
	if hugeTrun(data) {
		return
	}
	all, err := c21walk(data, nil)
	if err != nil {
		t.Count("damaged beyond reading", 1)
		return
	}
	for _, b := range all {
		if b.typ != bt("ftyp") && b.typ != bt("keys") { // without these, other boxes mean something else
			types = append(types, b.typ)
		}
	}
	e := c21draw(t, types, 1)
	if e.drop["ftyp"] || e.drop["keys"] {
		return
	}
	want, err := c21walk(data, &e)
	if err != nil {
		return // only the dropped boxes made it readable
	}
	refused := false
	for i := range want {
		if v, ok := want[i].box.(*mp4.Tfdt); ok && e.set {
			switch {
			case v.Version == 1:
				v.BaseMediaDecodeTimeV1 = e.value
			case e.value > 1<<32-1:
				refused = true
			default:
				v.BaseMediaDecodeTimeV0 = uint32(e.value)
			}
		}
	}
	out, _, ok := c21run(t, data, e, refused)
	if !ok || refused {
		return
	}
	t.Count("other files compared", 1)
	got, err := c21walk(out, nil)
	if err != nil {
		t.Attach("output", out)
		t.Failf("edited file unreadable", "mp4tool alpha edit %v: %v", e.args, err)
		return
	}
	for i := range want {
		if i >= len(got) {
			t.Failf("box missing", "mp4tool alpha edit %v: %d boxes, expected %d; missing: %s", e.args, len(got), len(want), typeStr(want[i].typ))
			return
		}
		g, w := got[i], want[i]
		if g.typ != w.typ || g.depth != w.depth || g.data != w.data || !reflect.DeepEqual(g.box, w.box) {
			t.Attach("output", out)
			t.Failf("box changed", "mp4tool alpha edit %v: box %d is %s at depth %d, %.300q %s; expected %s at depth %d, %.300q %s", e.args, i,
				typeStr(g.typ), g.depth, g.data, dump(g.box), typeStr(w.typ), w.depth, w.data, dump(w.box))
			return
		}
	}
	if len(got) > len(want) {
		t.Failf("surplus box", "mp4tool alpha edit %v: %d boxes, expected %d", e.args, len(got), len(want))
	}
}
