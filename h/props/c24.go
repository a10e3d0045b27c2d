package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C24", Quick: 70000, Thorough: 6000000,
		Rule: "random histories of decoding (into new and used values), encoding, rendering, walking, extraction, probing, IDR search, rating and header writing, with failing writers, damaged lists and every supported type; " +
			"a monitor keeps every value given or obtained, compares each with its record after every operation, looks for memory (with the spare capacity of slices) that two of them, or one of them and the input, refer to, " +
			"and overwrites values and inputs to see whether others change; non-trivial: distinct values and files",
		Need: []string{"values encoded", "failed encodings", "values rendered", "values decoded", "values decoded into used ones", "used values of another version or flags", "values overwritten", "inputs overwritten", "memory compared",
			"header records", "boxes started", "boxes copied", "handles", "payloads of a walk", "handles overwritten", "extractions", "boxes with pointers", "movies probed", "IDR searches", "ratings"},
		Init: func(*core.Run) { mp4.AddBoxDef(&c24box{}, 0, 1) },
		Case: c24,
	})
}

func c24(t *core.T) {
	switch t.R.IntN(10) {
	case 0, 1:
		c24encode(t)
	case 2, 3, 4:
		c24history(t)
	case 5:
		c24headers(t)
	case 6:
		c24walk(t)
	case 7:
		c24extract(t)
	case 8:
		c24own(t)
	default:
		c24probe(t)
	}
}

// c24encode encodes and renders a value.
func c24encode(t *core.T) {
	r := t.R
	tc := allTypes[r.IntN(len(allTypes))]
	d, res := genFor(r, tc)
	box, err := tree.Build(res.Root, tc.Type, tc.Ctx)
	if err != nil {
		t.Failf("model", "%s: %v", typeStr(tc.Type), err)
		return
	}
	v := reflect.ValueOf(box)
	if r.IntN(2) == 0 {
		tree.Garbage(res.Root, v, r) // fields that are not in the payload
	}
	wrong := r.IntN(4) == 0
	if wrong { // lists that do not fit their counts
		c24lists(v.Elem(), func(l reflect.Value) {
			switch r.IntN(4) {
			case 0:
				l.Set(l.Slice(0, r.IntN(l.Len()+1)))
			case 1:
				l.Set(reflect.Append(l, reflect.Zero(l.Type().Elem())))
			}
		})
	}
	spare := tree.Pad(v, r)
	before := tree.Dump(box)
	sp := tree.Spans(box, d.GoType, 0)
	check := func(what string) bool {
		if s := tree.Dump(box); s != before {
			t.AttachStr("value", before)
			t.Failf(what+" changes the value", "%s%s: %s", typeStr(tc.Type), ctxStr(tc.Ctx), core.FirstDiff(before, s))
			return false
		}
		if s := spare(); s != "" {
			t.Failf(what+" writes beyond a list", "%s%s %s", typeStr(tc.Type), ctxStr(tc.Ctx), s)
			return false
		}
		if !reflect.DeepEqual(sp, tree.Spans(box, d.GoType, 0)) {
			t.Failf(what+" replaces storage of the value", "%s%s: %s", typeStr(tc.Type), ctxStr(tc.Ctx), before)
			return false
		}
		return true
	}
	t.Distinct([]byte(before))
	var first []byte
	for i := 2 + r.IntN(3); i > 0; i-- {
		t.Eval(1)
		switch r.IntN(4) {
		case 0, 1: // completely
			var w bytes.Buffer
			n, err := c24marshal(&w, box, tc.Ctx)
			if !check("encoding") {
				return
			}
			if err != nil {
				t.Count("failed encodings", 1)
				continue
			}
			t.Count("values encoded", 1)
			if first == nil {
				first = bytes.Clone(w.Bytes())
			} else if !bytes.Equal(first, w.Bytes()) || n != uint64(len(first)) {
				t.Failf("encoding again differs", "%s%s: %s", typeStr(tc.Type), ctxStr(tc.Ctx), diff(w.Bytes(), first))
			}
		case 2: // up to a failure of the writer
			w := &rw.WriteSeeker{FailAt: 1 + r.IntN(len(res.Data)+2), Persist: true, Partial: r.IntN(2) == 0}
			if _, err := c24marshal(w, box, tc.Ctx); err != nil {
				t.Count("failed encodings", 1)
			}
			if !check("encoding") {
				return
			}
		default:
			if wrong {
				continue
			}
			mp4.StringifyWithIndent(box, []string{"", " ", "\t"}[r.IntN(3)], tc.Ctx)
			t.Count("values rendered", 1)
			if !check("rendering") {
				return
			}
		}
	}
}

// c24marshal encodes; that it may panic for inconsistent values is the concern of others.
func c24marshal(w io.Writer, box mp4.IBox, ctx mp4.Context) (n uint64, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return mp4.Marshal(w, box, ctx)
}

// c24lists calls f for every list of a value.
func c24lists(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			c24lists(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				c24lists(v.Field(i), f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c24lists(v.Index(i), f)
		}
		f(v)
	}
}

// c24kept is a value that was obtained, as it was.
type c24kept struct {
	v    any
	dump string
	what string
}

// c24pool watches the values obtained so far.
type c24pool struct {
	t    *core.T
	kept []c24kept
	bad  bool
	inp  []tree.Span // memory of inputs
}

func (p *c24pool) add(v any, what string) {
	p.kept = append(p.kept, c24kept{v, tree.Dump(v), what})
}

// still reports whether all values are as they were.
func (p *c24pool) still(after string) bool {
	for i := range p.kept {
		k := &p.kept[i]
		if s := tree.Dump(k.v); s != k.dump {
			p.t.AttachStr("value", k.dump)
			p.t.Failf("an earlier value changes", "%s, obtained as value %d of %d, changes by %s: %s", k.what, i+1, len(p.kept), after, core.FirstDiff(k.dump, s))
			p.bad = true
			return false
		}
	}
	return true
}

// apart reports whether no two values share memory.
func (p *c24pool) apart(after string) bool {
	sp := append([]tree.Span(nil), p.inp...)
	for i, k := range p.kept {
		sp = append(sp, tree.Spans(k.v, k.what, i)...)
	}
	p.t.Count("memory compared", len(sp))
	if a, b, found := tree.Shared(sp); found {
		p.t.Failf("shared memory", "after %s: %s (value %d) and %s (value %d) share memory: %#x-%#x, %#x-%#x", after, a.Of, a.Owner, b.Of, b.Owner, a.Lo, a.Hi, b.Lo, b.Hi)
		p.bad = true
		return false
	}
	return true
}

// c24history decodes, encodes and renders values of one or several types, and overwrites some.
func c24history(t *core.T) {
	r := t.R
	p := &c24pool{t: t}
	type source struct {
		tc   spec.TypeCtx
		d    *spec.Def
		res  spec.Result
		data []byte
		off  int64
		rd   *bytes.Reader
	}
	var srcs []*source
	for i := 1 + r.IntN(3); i > 0; i-- {
		tc := allTypes[r.IntN(len(allTypes))]
		if len(srcs) > 0 && r.IntN(3) > 0 {
			tc = srcs[0].tc
		}
		d, res := genFor(r, tc)
		s := &source{tc: tc, d: d, res: res}
		s.data, s.off = stream(r, res.Data)
		s.rd = bytes.NewReader(s.data)
		p.inp = append(p.inp, tree.BytesSpan(s.data, "input", -1))
		srcs = append(srcs, s)
	}
	steps := 3 + r.IntN(8)
	for i := 0; i < steps && !p.bad; i++ {
		s := srcs[r.IntN(len(srcs))]
		what := typeStr(s.tc.Type) + ctxStr(s.tc.Ctx)
		size := uint64(len(s.res.Data))
		t.Eval(1)
		switch k := r.IntN(7); {
		case k < 2:
			d := unmarshalAt(s.rd, s.off, s.tc.Type, size, s.tc.Ctx)
			if d.err != nil {
				continue // C01
			}
			t.Count("values decoded", 1)
			p.add(d.box, what)
			p.still("decoding " + what)
			p.apart("decoding " + what)
		case k < 4: // into a value that holds data
			dst, note := c24used(t, s.tc)
			if dst == nil {
				continue
			}
			was := reflect.New(reflect.TypeOf(dst).Elem()) // what still refers to its storage
			was.Elem().Set(reflect.ValueOf(dst).Elem())
			held := tree.Dump(was.Interface())
			if _, err := s.rd.Seek(s.off, io.SeekStart); err != nil {
				panic(err)
			}
			n, err := mp4.Unmarshal(s.rd, size, dst, s.tc.Ctx)
			fresh := unmarshalAt(bytes.NewReader(s.data), s.off, s.tc.Type, size, s.tc.Ctx)
			t.Count("values decoded into used ones", 1)
			if (err == nil) != (fresh.err == nil) {
				t.AttachStr("used value", held)
				t.Failf("decoding into a used value", "%s: %v, into a new one: %v (%s)", what, err, fresh.err, note)
				return
			}
			if err != nil {
				continue
			}
			if n != fresh.n {
				t.Failf("decoding into a used value", "%s: %d bytes, into a new one %d (%s)", what, n, fresh.n, note)
			}
			if s.res.Err == nil {
				if err := tree.ComparePresent(s.res.Root, reflect.ValueOf(dst)); err != nil {
					t.AttachStr("used value", held)
					t.Attach("payload", s.res.Data)
					t.Failf("decoding into a used value", "%s (%s): %v", what, note, err)
					return
				}
			}
			if now := tree.Dump(was.Interface()); now != held {
				t.Failf("decoding overwrites storage of an earlier value", "%s: %s", what, core.FirstDiff(held, now))
				return
			}
			// it encodes and renders as the new one does
			var a, b bytes.Buffer
			_, e1 := c24marshal(&a, dst, s.tc.Ctx)
			_, e2 := c24marshal(&b, fresh.box, s.tc.Ctx)
			if (e1 == nil) != (e2 == nil) || !bytes.Equal(a.Bytes(), b.Bytes()) {
				t.Failf("a used value encodes otherwise", "%s (%s): %x %v, %x %v", what, note, a.Bytes(), e1, b.Bytes(), e2)
			}
			x, e1 := mp4.Stringify(dst, s.tc.Ctx)
			y, e2 := mp4.Stringify(fresh.box, s.tc.Ctx)
			if x != y || (e1 == nil) != (e2 == nil) {
				t.Failf("a used value renders otherwise", "%s (%s): %.300s %v, %.300s %v", what, note, x, e1, y, e2)
			}
			p.add(dst, what)
			p.add(fresh.box, what)
			p.still("decoding " + what + " into a used value")
			p.apart("decoding " + what + " into a used value")
		case k == 4 && len(p.kept) > 0: // overwrite a value
			j := r.IntN(len(p.kept))
			x := p.kept[j]
			tree.Scribble(reflect.ValueOf(x.v), r)
			p.kept = append(p.kept[:j:j], p.kept[j+1:]...)
			t.Count("values overwritten", 1)
			p.still("overwriting " + x.what)
		case k == 5 && len(p.kept) > 0: // encode and render
			x := p.kept[r.IntN(len(p.kept))]
			if b, ok := x.v.(mp4.IBox); ok {
				var w bytes.Buffer
				c24marshal(&w, b, mp4.Context{})
				c24render(b)
				p.still("encoding and rendering " + x.what)
			}
		case k == 6 && i == steps-1: // the input goes away
			for i := range s.data {
				s.data[i] ^= 0xff
			}
			t.Count("inputs overwritten", 1)
			p.still("overwriting the input")
		}
	}
	for _, k := range p.kept {
		t.Distinct([]byte(k.dump))
	}
	if t.Idx < 40 && len(p.kept) > 0 {
		t.Sample("history of %d steps on %d inputs: %d values unchanged and apart, the last %s", steps, len(srcs), len(p.kept), p.kept[len(p.kept)-1].what)
	}
}

func c24render(b mp4.IBox) {
	defer func() { recover() }()
	mp4.Stringify(b, mp4.Context{})
}

// c24used is a value of the type that was decoded or filled before.
func c24used(t *core.T, tc spec.TypeCtx) (mp4.IBox, string) {
	r := t.R
	_, res := genFor(r, tc)
	var dst mp4.IBox
	note := "decoded before"
	if r.IntN(2) == 0 {
		d := unmarshalAt(bytes.NewReader(res.Data), 0, tc.Type, uint64(len(res.Data)), tc.Ctx)
		if d.err != nil {
			return nil, ""
		}
		dst = d.box
	} else {
		b, err := tree.Build(res.Root, tc.Type, tc.Ctx)
		if err != nil {
			return nil, ""
		}
		dst = b
		note = "built before"
	}
	if r.IntN(2) == 0 { // every other field as well
		tree.Garbage(res.Root, reflect.ValueOf(dst), r)
		note += ", all fields set"
	}
	if dst.GetVersion() != 0 || dst.GetFlags() != 0 {
		t.Count("used values of another version or flags", 1)
	}
	if r.IntN(4) == 0 {
		tree.Pad(reflect.ValueOf(dst), r)
	}
	return dst, note
}

// c24headers writes headers and boxes.
func c24headers(t *core.T) {
	r := t.R
	draw := func() *mp4.BoxInfo {
		bi := &mp4.BoxInfo{Offset: uint64(r.Uint32() >> uint(r.IntN(32))), Type: c23code(r), ExtendToEOF: r.IntN(6) == 0, Context: randCtx(r)}
		bi.HeaderSize = []uint64{0, 8, 8, 16}[r.IntN(4)]
		bi.Size = bi.HeaderSize + uint64(r.Uint32()>>uint(r.IntN(32)))
		if r.IntN(6) == 0 {
			bi.Size += uint64(r.Uint32()) << uint(r.IntN(20))
		}
		return bi
	}
	same := func(what string, bi *mp4.BoxInfo, before mp4.BoxInfo) {
		t.Eval(1)
		t.Count("header records", 1)
		if *bi != before {
			t.Failf(what+" changes the header record", "%s, was %s", infoStr(bi), infoStr(&before))
		}
	}
	w := &rw.WriteSeeker{}
	if r.IntN(4) == 0 {
		w.FailAt, w.Persist = 1+r.IntN(12), r.IntN(2) == 0
	}
	w.Pos = int64(r.IntN(30))
	switch r.IntN(3) {
	case 0:
		bi := draw()
		before := *bi
		t.Distinct([]byte(infoStr(bi)))
		out, err := mp4.WriteBoxInfo(w, bi)
		same("WriteBoxInfo", bi, before)
		if err == nil {
			if out == bi {
				t.Failf("shared memory", "WriteBoxInfo returns the caller's record")
				return
			}
			got := *out
			*bi = mp4.BoxInfo{}
			if *out != got {
				t.Failf("shared memory", "the result of WriteBoxInfo follows the caller's record")
			}
		}
	case 1: // nested boxes, records reused and overwritten meanwhile
		mw := mp4.NewWriter(w)
		var open []*mp4.BoxInfo
		var was []mp4.BoxInfo
		shared := draw()
		shared.ExtendToEOF = false
		depth := 1 + r.IntN(5)
		for i := 0; i < depth; i++ {
			bi := draw()
			bi.ExtendToEOF = false
			if r.IntN(3) == 0 {
				bi = shared
			}
			before := *bi
			out, err := mw.StartBox(bi)
			same("StartBox", bi, before)
			t.Count("boxes started", 1)
			if err != nil {
				break
			}
			if out == bi {
				t.Failf("shared memory", "StartBox returns the caller's record")
				return
			}
			open, was = append(open, bi), append(was, before)
			mw.Write(randBytes(r, r.IntN(20)))
		}
		// what becomes of the record afterwards does not matter
		clean := w.FailAt == 0 && r.IntN(2) == 0
		for i := range open {
			if clean {
				*open[i] = *draw()
				was[i] = *open[i]
			}
		}
		if clean { // records may have been the same one
			for i := range open {
				was[i] = *open[i]
			}
		}
		for i := len(open) - 1; i >= 0; i-- {
			end := w.Pos
			out, err := mw.EndBox()
			for k := range open {
				same("EndBox", open[k], was[k])
			}
			if err != nil {
				break
			}
			for k := range open {
				if out == open[k] {
					t.Failf("shared memory", "EndBox returns the caller's record")
					return
				}
			}
			if uint64(end) != out.Offset+out.Size {
				t.Failf("EndBox", "box of %d bytes at %d ends at %d", out.Size, out.Offset, end)
			}
		}
	default:
		data := randBytes(r, 20+r.IntN(60))
		bi := draw()
		bi.Offset = uint64(r.IntN(20))
		bi.Size = uint64(r.IntN(len(data)))
		before, orig := *bi, bytes.Clone(data)
		mp4.NewWriter(w).CopyBox(bytes.NewReader(data), bi)
		t.Count("boxes copied", 1)
		same("CopyBox", bi, before)
		if !bytes.Equal(data, orig) {
			t.Failf("CopyBox changes its input", "%s", diff(data, orig))
		}
		s := bytes.NewReader(data)
		bi.SeekToStart(s)
		bi.SeekToPayload(s)
		bi.SeekToEnd(s)
		bi.IsSupportedType()
		same("seeking", bi, before)
	}
}

// c24walk keeps every handle of a walk, overwrites some that are finished, and compares
// everything at the end.
func c24walk(t *core.T) {
	r := t.R
	f, _ := randFile(r)
	data := bytes.Clone(f.Data)
	if f.HoleLen > 0 || len(data) == 0 {
		return
	}
	p := &c24pool{t: t, inp: []tree.Span{tree.BytesSpan(data, "input", -1)}}
	type rec struct {
		path mp4.BoxPath
		want mp4.BoxPath
		info *mp4.BoxInfo
		was  mp4.BoxInfo
	}
	var recs []rec
	scribble := r.IntN(2) == 0
	var cur mp4.BoxPath
	var handler mp4.ReadHandler
	handler = func(h *mp4.ReadHandle) (interface{}, error) {
		t.Eval(1)
		t.Count("handles", 1)
		cur = append(cur[:len(cur):len(cur)], h.BoxInfo.Type)
		depth := len(cur)
		defer func() { cur = cur[:depth-1] }()
		if fmt.Sprint(h.Path) != fmt.Sprint(cur) {
			t.Failf("path of a handle", "%v, expected %v", h.Path, cur)
			return nil, nil
		}
		want := append(mp4.BoxPath{}, h.Path...)
		path := h.Path
		if r.IntN(2) == 0 { // spare capacity is the handler's
			path = append(h.Path, mp4.BoxType{1, 2, 3, 4})
			want = append(want, mp4.BoxType{1, 2, 3, 4})
		}
		x := rec{path, want, &h.BoxInfo, h.BoxInfo}
		recs = append(recs, x)
		if !h.BoxInfo.IsSupportedType() {
			return nil, nil
		}
		if r.IntN(2) == 0 {
			if box, _, err := h.ReadPayload(); err == nil {
				t.Count("payloads of a walk", 1)
				p.add(box, typeStr(h.BoxInfo.Type))
				if again, _, err := h.ReadPayload(); err == nil && r.IntN(2) == 0 {
					p.add(again, typeStr(h.BoxInfo.Type)+" again")
				}
			} else {
				return nil, nil
			}
		}
		if _, err := h.Expand(); err != nil {
			return nil, err
		}
		if h.BoxInfo != x.was {
			t.Failf("header record of a handle changes", "%v: %s, was %s", want, infoStr(&h.BoxInfo), infoStr(&x.was))
		}
		if scribble && r.IntN(3) == 0 { // done with it
			t.Count("handles overwritten", 1)
			for i := range path {
				path[i] = mp4.BoxType{9, 9, 9, byte(i)}
			}
			copy(want, path)
		}
		return nil, nil
	}
	if _, err := mp4.ReadBoxStructure(bytes.NewReader(data), handler); err != nil {
		return
	}
	t.Distinct(data)
	if !bytes.Equal(data, f.Data) {
		t.Failf("walking changes the input", "%s", diff(data, f.Data))
	}
	for i, x := range recs {
		if fmt.Sprint(x.path) != fmt.Sprint(x.want) {
			t.Attach("file", f.Data)
			t.Failf("path of a handle changes", "handle %d of %d: %v, was %v", i, len(recs), x.path, x.want)
			return
		}
		if *x.info != x.was {
			t.Failf("header record of a handle changes", "handle %d of %d: %s, was %s", i, len(recs), infoStr(x.info), infoStr(&x.was))
			return
		}
	}
	p.still("the walk")
	for _, x := range recs {
		p.kept = append(p.kept, c24kept{x.path, tree.Dump(x.path), fmt.Sprintf("path %v", x.path)}, c24kept{x.info, tree.Dump(x.info), "header record"})
	}
	p.apart("the walk")
	for i := range data {
		data[i] ^= 0x55
	}
	t.Count("inputs overwritten", 1)
	p.still("overwriting the input")
}

// c24extract extracts boxes twice.
func c24extract(t *core.T) {
	r := t.R
	f, m := randFile(r)
	data := bytes.Clone(f.Data)
	if f.HoleLen > 0 || len(data) == 0 {
		return
	}
	p := &c24pool{t: t, inp: []tree.Span{tree.BytesSpan(data, "input", -1)}}
	prm := paramsFor(r, f, m)
	if r.IntN(2) == 0 && len(prm.Paths) > 0 { // a path in every storage, twice
		prm.Paths = append(prm.Paths, prm.Paths[0])
	}
	spare := tree.Pad(reflect.ValueOf(&prm.Paths).Elem(), r)
	paths := fmt.Sprint(prm.Paths)
	var parent mp4.BoxInfo
	if prm.Box != nil {
		parent = *prm.Box
	}
	rd := bytes.NewReader(data)
	for i := 0; i < 2; i++ {
		t.Eval(2)
		t.Count("extractions", 1)
		bis, _ := mp4.ExtractBoxes(rd, prm.Box, prm.Paths)
		for _, bi := range bis {
			p.add(bi, "header record of "+typeStr(bi.Type))
		}
		bs, _ := mp4.ExtractBoxesWithPayload(rd, prm.Box, prm.Paths)
		for _, b := range bs {
			p.add(b, "box "+typeStr(b.Info.Type))
		}
		if prm.Box != nil {
			v, err := mp4.ReadBoxStructureFromInternal(rd, prm.Box, func(h *mp4.ReadHandle) (interface{}, error) { return nil, nil })
			_, _ = v, err
			if *prm.Box != parent {
				t.Failf("extraction changes the header record", "%s, was %s", infoStr(prm.Box), infoStr(&parent))
				return
			}
		}
		if s := spare(); s != "" || fmt.Sprint(prm.Paths) != paths {
			t.Failf("extraction changes the paths", "%v, were %s %s", prm.Paths, paths, s)
			return
		}
	}
	t.Distinct(data, []byte(paths))
	p.apart("extraction")
	if !bytes.Equal(data, f.Data) {
		t.Failf("extraction changes the input", "%s", diff(data, f.Data))
	}
	if len(p.kept) > 1 && !p.bad {
		j := r.IntN(len(p.kept))
		x := p.kept[j]
		tree.Scribble(reflect.ValueOf(x.v), r)
		p.kept = append(p.kept[:j:j], p.kept[j+1:]...)
		p.still("overwriting " + x.what)
		t.Count("values overwritten", 1)
	}
	for i := range data {
		data[i] ^= 0x55
	}
	p.still("overwriting the input")
}

// c24probe probes a movie twice, searches and rates its tracks.
func c24probe(t *core.T) {
	r := t.R
	m := gen.RandomMovie(r, gen.MovieOptions{Progressive: r.IntN(4) > 0, Fragmented: r.IntN(2) == 0, Small: r.IntN(2) == 0})
	if m.HoleLen > 0 {
		return
	}
	data := bytes.Clone(m.Data)
	p := &c24pool{t: t, inp: []tree.Span{tree.BytesSpan(data, "input", -1)}}
	rd := bytes.NewReader(data)
	for i := 0; i < 2; i++ {
		info, err := mp4.Probe(rd)
		if err != nil {
			return
		}
		t.Eval(1)
		t.Count("movies probed", 1)
		p.add(info, "movie")
		if !p.still("probing") {
			return
		}
		for _, tr := range info.Tracks {
			if tr.AVC != nil && tr.AVC.LengthSize > 0 {
				idr, _ := mp4.FindIDRFrames(rd, tr)
				t.Count("IDR searches", 1)
				p.add(idr, "IDR frames")
			}
			tr.Samples.GetBitrate(tr.Timescale)
			tr.Samples.GetMaxBitrate(tr.Timescale, uint64(1+r.IntN(5000)))
			info.Segments.GetBitrate(tr.TrackID, tr.Timescale)
			info.Segments.GetMaxBitrate(tr.TrackID, tr.Timescale)
			t.Count("ratings", 1)
			if !p.still("searching and rating") {
				return
			}
		}
	}
	t.Distinct(data)
	p.apart("probing")
	if !bytes.Equal(data, m.Data) {
		t.Failf("probing changes the input", "%s", diff(data, m.Data))
	}
	if len(p.kept) > 1 && !p.bad {
		j := r.IntN(len(p.kept))
		x := p.kept[j]
		tree.Scribble(reflect.ValueOf(x.v), r)
		p.kept = append(p.kept[:j:j], p.kept[j+1:]...)
		p.still("overwriting " + x.what)
	}
	for i := range data {
		data[i] ^= 0x55
	}
	p.still("overwriting the input")
}

// c24box is a box of a caller with pointers, nested structures and lists of all kinds.
type c24box struct {
	mp4.FullBox `mp4:"0,extend"`
	N           uint8      `mp4:"1,size=8"`
	P           *c24part   `mp4:"2"`
	Old         *c24part   `mp4:"3,ver=0"`
	L           []*c24part `mp4:"4,len=dynamic"`
	M           [2]c24part `mp4:"5"`
	U           *uint32    `mp4:"6,size=32"`
	W           []c24deep  `mp4:"7,len=dynamic"`
	V           []uint16   `mp4:"8,size=12,len=4"`
	T           [3]bool    `mp4:"9,size=8"`
	S           string     `mp4:"10,string"`
	Rest        []byte     `mp4:"11,size=8"`
}

type c24part struct {
	A int16  `mp4:"0,size=16"`
	B []byte `mp4:"1,size=8,len=3"`
	C string `mp4:"2,string"`
}

type c24deep struct {
	D [2][]byte  `mp4:"0,size=8,len=2"`
	E *c24part   `mp4:"1"`
	F []*c24part `mp4:"2,len=1"`
}

func (*c24box) GetType() mp4.BoxType { return bt("c24x") }

func (b *c24box) GetFieldLength(name string, ctx mp4.Context) uint { return uint(b.N) }

func c24own(t *core.T) {
	r := t.R
	payload := func() []byte {
		ver := byte(r.IntN(2))
		n := r.IntN(4)
		w := append([]byte{ver}, randBytes(r, 3)...)
		w = append(w, byte(n))
		part := func(k int) {
			for ; k > 0; k-- {
				w = append(w, randBytes(r, 5)...)
				w = append(append(w, "string"[:r.IntN(6)]...), 0)
			}
		}
		part(1)
		if ver == 0 {
			part(1)
		}
		part(n)
		part(2)
		w = append(w, randBytes(r, 4)...)
		for i := 0; i < n; i++ {
			w = append(w, randBytes(r, 4)...)
			part(2)
		}
		w = append(w, randBytes(r, 6)...)
		for i := 0; i < 3; i++ {
			w = append(w, byte(-r.IntN(2)))
		}
		w = append(append(w, "text"[:r.IntN(5)]...), 0)
		return append(w, randBytes(r, r.IntN(8))...)
	}
	p := &c24pool{t: t}
	ctx := mp4.Context{}
	for i := 1 + r.IntN(3); i > 0 && !p.bad; i-- {
		t.Eval(1)
		t.Count("boxes with pointers", 1)
		in, before := payload(), payload()
		p.inp = append(p.inp, tree.BytesSpan(in, "input", -1))
		decode := func(dst *c24box, b []byte) bool {
			n, err := mp4.Unmarshal(bytes.NewReader(b), uint64(len(b)), dst, ctx)
			if err != nil || n != uint64(len(b)) {
				t.Attach("payload", b)
				t.Failf("decoding a box with pointers", "%d of %d bytes, %v", n, len(b), err)
			}
			return err == nil
		}
		fresh, used := new(c24box), new(c24box)
		if !decode(fresh, in) || !decode(used, before) {
			return
		}
		p.add(fresh, "box with pointers")
		was := *used
		held := tree.Dump(&was)
		old := used.Old
		if !decode(used, in) {
			return
		}
		if fresh.Version != 0 {
			used.Old = nil // not in the payload
		}
		if s, ok := tree.Equal(reflect.ValueOf(used), reflect.ValueOf(fresh)); !ok {
			t.Failf("decoding into a used value", "box with pointers differs in %s: %s, expected %s", s, tree.Dump(used), tree.Dump(fresh))
		}
		if now := tree.Dump(&was); now != held {
			t.Failf("decoding overwrites storage of an earlier value", "box with pointers: %s", core.FirstDiff(held, now))
			return
		}
		was.Old = old
		p.add(used, "box with pointers, used")
		p.add(&was, "what it held")
		p.still("decoding a box with pointers")
		p.apart("decoding a box with pointers")
		// encoding and rendering
		spare := tree.Pad(reflect.ValueOf(used), r)
		var w bytes.Buffer
		n, err := mp4.Marshal(&w, used, ctx)
		if err != nil || n != uint64(len(in)) || !bytes.Equal(w.Bytes(), in) {
			t.Failf("encoding a box with pointers", "%d bytes, %v: %s", n, err, diff(w.Bytes(), in))
		}
		if _, err := mp4.Stringify(used, ctx); err != nil {
			t.Failf("rendering a box with pointers", "%v", err)
		}
		if s := spare(); s != "" {
			t.Failf("encoding writes beyond a list", "box with pointers %s", s)
		}
		p.still("encoding a box with pointers")
		if r.IntN(2) == 0 {
			tree.Scribble(reflect.ValueOf(used), r)
			p.kept = append(p.kept[:len(p.kept)-2:len(p.kept)-2], p.kept[len(p.kept)-1])
			p.still("overwriting a box with pointers")
		}
		t.Distinct(in)
	}
}
