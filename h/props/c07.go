package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C07", Quick: 40000, Thorough: 3000000,
		Rule: "random forests and movies are walked (from the root and from inside) by handlers that at random read payloads, copy data, seek and read the stream, expand zero to " +
			"three times before or after that, return values or errors, or swallow errors; a monitor checks every call (path, type, offset, sizes, parameters), every value and " +
			"datum handed out, every list of returned values and, at the end, that retained paths are unchanged; non-trivial: distinct files with at least two boxes",
		Need:  []string{"handler calls", "payloads read", "data copied", "expansions", "second expansions", "unsupported boxes", "errors raised", "errors swallowed", "walks from inside", "files beyond 4 GiB", "stray seeks and reads", "long levels", "deep chains", "boxes of more than 4 GiB read", "errors of the standard library and the package", "boxes of unknown versions read", "boxes larger than what is left"},
		Case:  c07,
		Fixed: []func(t *core.T){c07wide, c07deep, c07huge},
	})
}

// c07wide walks levels of very many boxes and copies large data.
func c07wide(t *core.T) {
	for _, n := range []int{255, 1023, 1025, 4097, 65537} {
		var level []byte
		for i := range n {
			size := 8 + i%3
			level = append(binary.BigEndian.AppendUint32(level, uint32(size)), []string{"free", "abcd", "moov"}[i%3/2+i%2]...)
			level = append(level, "xy"[:size-8]...)
		}
		data := randBytes(t.R, 3<<20+5)
		in := func(typ string, p []byte) []byte {
			return append(append(binary.BigEndian.AppendUint32(nil, uint32(8+len(p))), typ...), p...)
		}
		t.Count("long levels", 2)
		// at the top
		i := 0
		vals, err := mp4.ReadBoxStructure(bytes.NewReader(level), func(h *mp4.ReadHandle) (interface{}, error) {
			i++
			return i, nil
		}, "p")
		t.Eval(1)
		if err != nil || len(vals) != n || i != n {
			t.Failf("long level", "%d boxes at the top: %d calls, %d values, %v", n, i, len(vals), err)
			continue
		}
		for k, v := range vals {
			if v != k+1 {
				t.Failf("long level", "%d boxes at the top: value %d is %v", n, k, v)
				break
			}
		}
		// inside, behind data
		i = 0
		f := append(in("mdat", data), in("moov", in("trak", level))...)
		depth := 0
		_, err = mp4.ReadBoxStructure(bytes.NewReader(f), func(h *mp4.ReadHandle) (interface{}, error) {
			switch {
			case h.BoxInfo.Type == bt("mdat"):
				var b bytes.Buffer
				if k, err := h.ReadData(&b); err != nil || k != uint64(len(data)) || !bytes.Equal(b.Bytes(), data) {
					t.Failf("long data", "%d bytes reported, %d copied, %v", k, b.Len(), err)
				}
			case depth < 2:
				depth++
				vals, err := h.Expand(depth)
				if depth--; depth == 1 && (err != nil || len(vals) != n || i != n) {
					t.Failf("long level", "%d boxes in a box: %d calls, %d values, %v", n, i, len(vals), err)
				} else if depth == 1 {
					for k, v := range vals {
						if v != k+1 {
							t.Failf("long level", "%d boxes in a box: value %d is %v", n, k, v)
							break
						}
					}
				}
				return nil, err
			default:
				if len(h.Params) != 1 || h.Params[0] != 2 || len(h.Path) != 3 {
					t.Failf("long level", "call %d: path %v, parameters %v", i, h.Path, h.Params)
				}
				i++
				return i, nil
			}
			return nil, nil
		})
		t.Eval(1)
		if err != nil || i != n {
			t.Failf("long level", "%d boxes in a box: %d calls, %v", n, i, err)
		}
	}
}

// c07huge reads the data of boxes of more than 4 GiB.
func c07huge(t *core.T) {
	for _, typ := range []string{"mdat", "huge"} {
		f, h := hugeFile(t, typ, typ == "huge")
		rd := rw.NewReader(f.Data)
		rd.HoleAt, rd.HoleLen = int64(f.HoleAt), int64(f.HoleLen)
		var seen []string
		_, err := mp4.ReadBoxStructure(rd, func(hd *mp4.ReadHandle) (interface{}, error) {
			seen = append(seen, fmt.Sprintf("%s %d %d", hd.BoxInfo.Type, hd.BoxInfo.Offset, hd.BoxInfo.Size))
			switch hd.BoxInfo.Type {
			case h.Type:
				v := verifier(f, h.Offset+h.Header, h.Offset+h.Size)
				n, err := hd.ReadData(v)
				if s := v.done(); err != nil || n != h.Size-h.Header || s != "" {
					t.Failf("data of a huge box", "%s of %d bytes: ReadData reports %d, %v; %s", typ, h.Size, n, err, s)
				}
				t.Count("boxes of more than 4 GiB read", 1)
			case bt("trak"), bt("moov"):
				return hd.Expand()
			}
			return nil, nil
		})
		t.Eval(1)
		var want []string
		for _, b := range f.All() {
			want = append(want, fmt.Sprintf("%s %d %d", b.Type, b.Offset, b.Size))
		}
		if err != nil || fmt.Sprint(seen) != fmt.Sprint(want) {
			t.Failf("file with a huge box", "%v; boxes %v, expected %v", err, seen, want)
		}
	}
}

// c07deep walks long chains of boxes.
func c07deep(t *core.T) {
	for _, n := range []int{33, 64, 65, 129, 257, 400} {
		var types []mp4.BoxType
		var f []byte
		for k := range n {
			typ := bt([]string{"moov", "trak", "udta", "mdia"}[(n-k)*7/3%4])
			types = append([]mp4.BoxType{typ}, types...)
			f = append(append(binary.BigEndian.AppendUint32(nil, uint32(8+len(f))), typ[:]...), f...)
		}
		t.Count("deep chains", 1)
		i := 0
		var kept []mp4.BoxPath
		vals, err := mp4.ReadBoxStructure(bytes.NewReader(f), func(h *mp4.ReadHandle) (interface{}, error) {
			i++
			if !reflect.DeepEqual([]mp4.BoxType(h.Path), types[:i]) || h.BoxInfo.Offset != uint64(8*(i-1)) || h.BoxInfo.Size != uint64(len(f)-8*(i-1)) || len(h.Params) != 1 || h.Params[0] != i {
				t.Failf("deep chain", "call %d of %d: path %v, %s, parameters %v", i, n, h.Path, infoStr(&h.BoxInfo), h.Params)
			}
			kept = append(kept, h.Path)
			v, err := h.Expand(i + 1)
			if i == n && len(v) == 0 {
				return 1, err
			}
			if len(v) != 1 {
				return nil, err
			}
			d, _ := v[0].(int)
			return d + 1, err
		}, 1)
		t.Eval(1)
		if err != nil || i != n || len(vals) != 1 || vals[0] != n {
			t.Failf("deep chain", "%d boxes: %d calls, %v, %v", n, i, vals, err)
		}
		for k, p := range kept {
			if !reflect.DeepEqual([]mp4.BoxType(p), types[:k+1]) {
				t.Failf("retained path changed", "path %d of %d is %v", k, n, p)
				break
			}
		}
	}
}

type c07frame struct {
	kids   []*gen.Box
	i      int
	params []any
}

type c07walk struct {
	t        *core.T
	f        *gen.File
	rd       *rw.Reader
	stack    []*c07frame
	base     int // length of the path above the first box
	n        int
	budget   int
	failAt   int
	err      error
	raised   bool // the error is on its way up
	swallow  bool
	done     bool // nothing may be called any more
	kept     []mp4.BoxPath
	want     []mp4.BoxPath
	handles  []*mp4.ReadHandle
	boxes    []*gen.Box
	bad      bool
	huge     *gen.Box // not to be read
	innocent bool     // no handler does anything but expand
	old      *gen.Box // a box of a version nobody knows
	large    *gen.Box // a box that says it is larger than what is left of its parent
}

func (w *c07walk) fail(key, format string, a ...any) {
	w.bad = true
	w.t.Failf(key, format, a...)
}

func c07(t *core.T) {
	r := t.R
	f, _ := randFile(r)
	var huge *gen.Box
	if r.IntN(12) == 0 {
		huge = f.Punch(r)
		t.Count("files beyond 4 GiB", 1)
	}
	all := f.All()
	if len(all) == 0 {
		return
	}
	if len(all) > 1 {
		t.Distinct(f.Data)
	}
	t.Attach("file", f.Data)
	w := &c07walk{t: t, f: f, budget: 400, err: errors.New("raised by a handler")}
	if r.IntN(2) == 0 { // errors that mean something to others
		w.err = []error{io.EOF, io.ErrUnexpectedEOF, mp4.ErrUnsupportedBoxVersion, mp4.ErrBoxInfoNotFound, io.ErrNoProgress, io.ErrShortWrite, fmt.Errorf("wrapped: %w", io.EOF)}[r.IntN(7)]
		t.Count("errors of the standard library and the package", 1)
	}
	w.rd = rw.NewReader(f.Data)
	w.rd.R = r
	w.rd.HoleAt, w.rd.HoleLen = int64(f.HoleAt), int64(f.HoleLen)
	w.huge = huge
	if r.IntN(2) == 0 {
		w.rd.Mode = rw.Modes[r.IntN(len(rw.Modes))]
	}
	if huge == nil && r.IntN(3) == 0 {
		w.sicken(all)
	}
	w.innocent = r.IntN(4) == 0
	if r.IntN(3) == 0 {
		w.failAt = 1 + r.IntN(len(all))
		w.swallow = r.IntN(3) == 0
	}
	if t.Idx < 30 {
		t.Sample("walk over %d boxes, %d bytes: %x", len(all), len(f.Data), f.Data[:min(200, len(f.Data))])
	}
	w.rd.Pos = int64(r.IntN(len(f.Data) + 1)) // wherever the reader stands
	params := c07params(t)
	var vals []any
	var err error
	inside := r.IntN(3) == 0
	if inside {
		t.Count("walks from inside", 1)
		b := all[r.IntN(len(all))]
		w.base = len(b.Path()) - 1
		if b == w.large { // its header is not read
			w.large = nil
		}
		w.stack = []*c07frame{{kids: []*gen.Box{b}, params: params}}
		bi := infoOf(b)
		was := *bi
		var v any
		v, err = mp4.ReadBoxStructureFromInternal(w.rd, bi, w.handle, params...)
		vals = []any{v}
		if *bi != was {
			w.fail("caller's record changed", "the box record %s became %s", infoStr(&was), infoStr(bi))
		}
	} else {
		w.stack = []*c07frame{{kids: f.Roots, params: params}}
		vals, err = mp4.ReadBoxStructure(w.rd, w.handle, params...)
	}
	w.after("the walk", w.stack[0], vals, err)
	for i, p := range w.kept {
		if !reflect.DeepEqual(p, w.want[i]) {
			w.fail("retained path changed", "the path %v became %v", w.want[i], p)
			break
		}
	}
	for i, h := range w.handles {
		b := w.boxes[i]
		if h.BoxInfo.Offset != b.Offset || h.BoxInfo.Size != b.Size || h.BoxInfo.Type != b.Type || !reflect.DeepEqual(h.Path, w.want[i]) {
			w.fail("retained handle changed", "the handle of %v at %d: %v %s", w.want[i], b.Offset, h.Path, infoStr(&h.BoxInfo))
			break
		}
	}
}

// sicken makes a box of the file one that cannot be read; whoever walks the file learns of it, and
// may go on behind it.
func (w *c07walk) sicken(all []*gen.Box) {
	r := w.t.R
	for range 20 {
		b := all[r.IntN(len(all))]
		if r.IntN(2) == 0 {
			if b.Parent == nil || b.Form != 0 || b.Parent.Def == nil {
				continue
			}
			binary.BigEndian.PutUint32(w.f.Data[b.Offset:], uint32(b.Parent.End()-b.Offset)+1+uint32(r.IntN(100)))
			w.large = b
			return
		}
		if b.Def == nil || len(b.Def.Versions) == 0 || len(b.Fields) < 4 || b.Type == bt("keys") || b.Type == bt("meta") {
			continue
		}
		w.f.Data[b.Offset+b.Header] = byte(50 + r.IntN(200))
		w.old = b
		return
	}
}

// sick judges the error of reading a box that cannot be read, and says whether the handler returns it.
func (w *c07walk) sick(what string, b *gen.Box, err error) bool {
	if err == nil {
		w.fail("box that cannot be read", "%s %v at %d reports no error", what, b.Path(), b.Offset)
		return false
	}
	if b == w.old && err != mp4.ErrUnsupportedBoxVersion {
		w.fail("box of an unknown version", "%s %v at %d: %v", what, b.Path(), b.Offset, err)
		return false
	}
	if w.t.R.IntN(3) > 0 {
		return false
	}
	w.err, w.raised = err, true
	return true
}

func c07params(t *core.T) []any {
	var p []any
	for k := t.R.IntN(4); k > 0; k-- {
		switch t.R.IntN(3) {
		case 0:
			p = append(p, t.R.IntN(1000))
		case 1:
			p = append(p, fmt.Sprintf("p%d", t.R.IntN(1000)))
		case 2:
			p = append(p, nil)
		}
	}
	return p
}

func sameAny(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// after judges the end of a walk or an expansion.
func (w *c07walk) after(what string, fr *c07frame, vals []any, err error) {
	if w.bad {
		return
	}
	if w.raised {
		if err != w.err {
			w.fail("handler's error lost", "a handler returned an error, but %s ended with %v", what, err)
		}
		return
	}
	if err != nil {
		w.fail("walk failed", "%s failed: %v (after %d of %d boxes of the level)", what, err, fr.i, len(fr.kids))
		return
	}
	if fr.i != len(fr.kids) {
		w.fail("boxes not visited", "%s ended after %d of %d boxes of the level", what, fr.i, len(fr.kids))
		return
	}
	var exp []any
	for _, k := range fr.kids {
		exp = append(exp, c07val(k))
	}
	if !sameAny(vals, exp) {
		w.fail("returned values", "%s returned %v, the handlers returned %v", what, vals, exp)
	}
}

// c07val is the value the handler of a box returns.
func c07val(b *gen.Box) any {
	switch b.Offset % 3 {
	case 0:
		return nil
	case 1:
		return b
	}
	return b.Offset
}

func (w *c07walk) handle(h *mp4.ReadHandle) (interface{}, error) {
	t, r := w.t, w.t.R
	if w.bad {
		return nil, w.err
	}
	t.Count("handler calls", 1)
	w.n++
	fr := w.stack[len(w.stack)-1]
	if w.raised {
		w.fail("walk goes on after an error", "a handler is called for %v although an earlier one returned an error", h.Path)
		return nil, w.err
	}
	if fr.i >= len(fr.kids) {
		w.fail("extra visit", "handler called for %v at %d, the level has only %d boxes", h.Path, h.BoxInfo.Offset, len(fr.kids))
		return nil, w.err
	}
	b := fr.kids[fr.i]
	fr.i++
	bi := &h.BoxInfo
	path := b.Path()[w.base:]
	if !reflect.DeepEqual(h.Path, path) {
		w.fail("path", "path %v, the box is %v", h.Path, path)
	}
	if bi.Type != b.Type || bi.Offset != b.Offset || bi.HeaderSize != b.Header || bi.Size != b.Size || bi.ExtendToEOF != (b.Form == 2) {
		w.fail("box record", "%v: record %s, the box is %x@%d+%d/%d eof=%v", path, infoStr(bi), b.Type[:], b.Offset, b.Size, b.Header, b.Form == 2)
	}
	if !sameAny(h.Params, fr.params) {
		w.fail("parameters", "%v: parameters %v, given were %v", path, h.Params, fr.params)
	}
	if bi.IsSupportedType() != (b.Def != nil) {
		w.fail("support", "%v in %s: supported %v", path, ctxStr(b.Ctx), bi.IsSupportedType())
	}
	w.kept = append(w.kept, h.Path)
	w.want = append(w.want, path)
	w.handles = append(w.handles, h)
	w.boxes = append(w.boxes, b)
	if w.bad {
		return nil, w.err
	}
	if b.Def == nil {
		t.Count("unsupported boxes", 1)
	}
	fail := w.failAt > 0 && w.n == w.failAt
	steps := r.IntN(5)
	if w.innocent || w.n > w.budget {
		steps = 0
	}
	expanded := 0
	stop := false
	for i := 0; i < steps && !stop; i++ {
		switch r.IntN(6) {
		case 0:
			stop = w.payload(h, b)
		case 1:
			w.data(h, b)
		case 2:
			t.Count("stray seeks and reads", 1)
			w.rd.Seek(int64(r.IntN(len(w.f.Data)+20)), io.SeekStart)
		case 3:
			t.Count("stray seeks and reads", 1)
			w.rd.Read(make([]byte, r.IntN(40)))
		case 4:
			if expanded < 3 && w.n < w.budget {
				stop = w.expand(h, b)
				expanded++
			}
		case 5: // expecting something else: nothing
		}
		if w.bad {
			return nil, w.err
		}
	}
	if !stop && expanded == 0 && r.IntN(6) > 0 && b.Def != nil {
		stop = w.expand(h, b)
		expanded++
	}
	if w.bad {
		return nil, w.err
	}
	if expanded > 1 {
		t.Count("second expansions", 1)
	}
	if stop { // a handler below raised an error
		if w.swallow {
			w.raised = false
			t.Count("errors swallowed", 1)
			return c07val(b), nil
		}
		return "ignored", w.err
	}
	if fail {
		t.Count("errors raised", 1)
		w.raised = true
		return "ignored", w.err
	}
	return c07val(b), nil
}

func (w *c07walk) payload(h *mp4.ReadHandle, b *gen.Box) bool {
	box, n, err := h.ReadPayload()
	w.t.Count("payloads read", 1)
	if b.Def == nil {
		if err == nil {
			w.fail("payload of an unsupported box", "%v: decoded as %s", b.Path(), dump(box))
		}
		return false
	}
	if b == w.old {
		w.t.Count("boxes of unknown versions read", 1)
		return w.sick("reading the payload of", b, err)
	}
	m := spec.Decode(b.Def, b.Type, b.Ctx, w.f.Payload(b))
	if m.Err != nil || m.Rest && w.huge != nil {
		return false
	}
	if err != nil {
		w.fail("payload", "%v at %d: %v", b.Path(), b.Offset, err)
		return false
	}
	if n != uint64(m.N) || m.N != len(b.Fields) {
		w.fail("payload length", "%v at %d: %d bytes, the fields are %d", b.Path(), b.Offset, n, len(b.Fields))
	}
	if tree.GoType(box) != b.Def.GoType {
		w.fail("payload type", "%v: %s, expected %s", b.Path(), tree.GoType(box), b.Def.GoType)
	} else if err := tree.Compare(m.Root, reflect.ValueOf(box)); err != nil {
		w.fail("payload value", "%v at %d: %v", b.Path(), b.Offset, err)
	}
	return false
}

func (w *c07walk) data(h *mp4.ReadHandle, b *gen.Box) {
	for p := w.huge; p != nil; p = p.Parent {
		if p == b {
			return
		}
	}
	var buf bytes.Buffer
	n, err := h.ReadData(&buf)
	w.t.Count("data copied", 1)
	if err != nil {
		w.fail("data", "%v at %d: %v", b.Path(), b.Offset, err)
		return
	}
	if n != b.Size-b.Header || !bytes.Equal(buf.Bytes(), w.f.Payload(b)) {
		w.fail("data", "%v at %d: %d bytes %x, the box holds %x", b.Path(), b.Offset, n, buf.Bytes(), w.f.Payload(b))
	}
}

// expand expands a box and says whether an error is on its way up.
func (w *c07walk) expand(h *mp4.ReadHandle, b *gen.Box) bool {
	params := c07params(w.t)
	fr := &c07frame{kids: b.Kids, params: params}
	if b == w.old {
		fr.kids = nil
	} else if w.large != nil && b == w.large.Parent {
		for fr.kids = nil; b.Kids[len(fr.kids)] != w.large; {
			fr.kids = b.Kids[:len(fr.kids)+1]
		}
	}
	w.stack = append(w.stack, fr)
	vals, err := h.Expand(params...)
	w.stack = w.stack[:len(w.stack)-1]
	w.t.Count("expansions", 1)
	if b.Def == nil {
		if err == nil {
			w.fail("expansion of an unsupported box", "%v: %v", b.Path(), vals)
		}
		return false
	}
	if w.bad {
		return false
	}
	if b == w.old {
		w.t.Count("boxes of unknown versions read", 1)
		return w.sick("expanding", b, err)
	}
	if w.large != nil && b == w.large.Parent && !w.raised {
		w.t.Count("boxes larger than what is left", 1)
		if fr.i != len(fr.kids) {
			w.fail("boxes not visited", "expanding %v ended with %v after %d of %d boxes in front of one that does not fit", b.Path(), err, fr.i, len(fr.kids))
			return false
		}
		return w.sick("expanding", b, err)
	}
	w.after(fmt.Sprintf("expanding %v at %d", b.Path(), b.Offset), fr, vals, err)
	return w.raised
}
