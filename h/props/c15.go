package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"syscall"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C15", Level: "fault_enumeration", Quick: 12000, Thorough: 600000,
		Rule: "every reading and writing entry point is run over generated files, payloads and values, first without faults to count its reads, seeks and writes, then once for each " +
			"of them failing (once or from there on, delivering nothing or a part), through plain and short-reading streams; whenever a fault was delivered the operation must " +
			"return an error, otherwise the undisturbed result; beyond 300 operations the indices are sampled; non-trivial: distinct (operation, input)",
		Need: []string{"faults in reads", "faults in seeks of readers", "faults in writes", "faults in seeks of writers", "partial reads", "partial writes", "executions with every index",
			"op ReadBoxStructure with payloads", "op Probe", "op FindIDRFrames", "op ExtractBoxesWithPayload", "op CopyBox and re-encoding", "op UnmarshalAny", "op Marshal", "op rewriting",
			"op WriteBoxInfo", "op ReadData", "op Writer", "input ending early", "a user's box"},
		Case: c15,
	})
}

func c15(t *core.T) {
	switch t.R.IntN(13) {
	case 0:
		c15file(t)
	case 1, 2, 3, 4, 5:
		c15payload(t)
	case 6, 7, 8, 9, 10:
		c15marshal(t)
	default:
		c15write(t)
	}
}

// c15errs are what streams report.
var c15errs = []error{rw.ErrInjected, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded,
	&os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}, fmt.Errorf("wrapped: %w", io.EOF)}

// c15idx are the operation indices to fail.
func c15idx(t *core.T, n int) []int {
	if n <= 300 {
		t.Count("executions with every index", 1)
		l := make([]int, n)
		for i := range l {
			l[i] = i + 1
		}
		return l
	}
	var l []int
	for i := 0; i < 120; i++ {
		l = append(l, 1+t.R.IntN(n))
	}
	return append(l, 1, 2, n-1, n)
}

// c15read fails every reader operation of f in turn.
func c15read(t *core.T, name string, data []byte, f func(r io.ReadSeeker) (string, error)) {
	r := t.R
	mode := rw.Plain
	if r.IntN(4) == 0 {
		mode = []rw.Mode{rw.OneByte, rw.DataEOF, rw.OneEOF}[r.IntN(3)]
	}
	rd := rw.NewReader(data)
	rd.Mode = mode
	var base string
	var err error
	if t.Guard(name, func() { base, err = f(rd) }) || err != nil || rd.Ops == 0 {
		return
	}
	t.Count("op "+name, 1)
	t.Distinct([]byte(name), data)
	if t.Idx < 60 && t.Idx%5 == 0 {
		t.Sample("%s over %d bytes: each of %d reader operations fails in turn", name, len(data), rd.Ops)
	}
	persist, partial := r.IntN(3) == 0, r.IntN(2) == 0
	for _, i := range c15idx(t, rd.Ops) {
		x := rw.NewReader(data)
		x.Mode, x.FailAt, x.Persist, x.Partial = mode, i, persist, partial
		x.Err = c15errs[r.IntN(len(c15errs))]
		var out string
		var err error
		if t.Guard(name, func() { out, err = f(x) }) {
			continue
		}
		t.Eval(1)
		if x.Failed == 0 {
			if err != nil || out != base {
				t.Attach("input", data)
				t.Failf("not deterministic", "%s: without a fault now %s, %v instead of %s", name, out, err, base)
			}
			continue
		}
		if x.FailedSeek {
			t.Count("faults in seeks of readers", 1)
		} else {
			t.Count("faults in reads", 1)
		}
		t.Count("partial reads", x.Wrong)
		if err == nil {
			t.Attach("input", data)
			kind := "read"
			if x.FailedSeek {
				kind = "seek"
			}
			t.Failf("unreported/"+name+"/"+kind, "%s over %d bytes (%v reader): reader operation %d of %d, a %s, fails with %q (persistent %v, partial %v), but the operation succeeds with %s (undisturbed: %s)",
				name, len(data), mode, i, rd.Ops, kind, x.Err, persist, partial, out, base)
		}
	}
}

// c15writer fails every writer operation of f in turn.
func c15writer(t *core.T, name string, key []byte, f func(w *rw.WriteSeeker) error) {
	r := t.R
	base := &rw.WriteSeeker{}
	var err error
	if t.Guard(name, func() { err = f(base) }) || err != nil || base.Ops == 0 {
		return
	}
	t.Count("op "+name, 1)
	t.Distinct([]byte(name), key)
	persist, partial := r.IntN(3) == 0, r.IntN(2) == 0
	for _, i := range c15idx(t, base.Ops) {
		w := &rw.WriteSeeker{FailAt: i, Persist: persist, Partial: partial, Err: c15errs[r.IntN(len(c15errs))]}
		var err error
		if t.Guard(name, func() { err = f(w) }) {
			continue
		}
		t.Eval(1)
		if w.Failed == 0 {
			if err != nil || !bytes.Equal(w.Data, base.Data) {
				t.Failf("not deterministic", "%s of %x: without a fault now %x, %v instead of %x", name, key, w.Data, err, base.Data)
			}
			continue
		}
		kind := "write"
		if w.FailedSeek {
			kind = "seek"
			t.Count("faults in seeks of writers", 1)
		} else {
			t.Count("faults in writes", 1)
			if partial {
				t.Count("partial writes", 1)
			}
		}
		if err == nil {
			t.Attach("input", key)
			t.Failf("unreported/"+name+"/"+kind, "%s: writer operation %d of %d, a %s, fails with %q (persistent %v, partial %v), but the operation succeeds; written %x instead of %x",
				name, i, base.Ops, kind, w.Err, persist, partial, w.Data, base.Data)
		}
	}
}

func c15file(t *core.T) {
	r := t.R
	f, m := randFile(r)
	if r.IntN(4) == 0 {
		m = gen.RandomMovie(r, gen.MovieOptions{Progressive: true, MaxTracks: 2, MaxSamples: 6, Small: true})
		f = m.File
	}
	if len(f.Data) > 2000 {
		return
	}
	p := paramsFor(r, f, m)
	for k := 0; k < 3; k++ {
		op := readOps[r.IntN(len(readOps))]
		c15read(t, op.name, f.Data, func(r io.ReadSeeker) (string, error) { return op.run(r, p) })
	}
	if p.Track != nil {
		c15read(t, "FindIDRFrames", f.Data, func(r io.ReadSeeker) (string, error) {
			l, err := mp4.FindIDRFrames(r, p.Track)
			return fmt.Sprint(l), err
		})
	}
	all := f.All()
	if len(all) == 0 {
		return
	}
	// the data of one box
	b := all[r.IntN(len(all))]
	bi := infoOf(b)
	data := func(r io.ReadSeeker, w io.Writer) (n uint64, err error) {
		_, err = mp4.ReadBoxStructureFromInternal(r, bi, func(h *mp4.ReadHandle) (interface{}, error) {
			var err error
			n, err = h.ReadData(w)
			return nil, err
		})
		return n, err
	}
	c15read(t, "ReadData", f.Data, func(r io.ReadSeeker) (string, error) {
		var buf bytes.Buffer
		n, err := data(r, &buf)
		return fmt.Sprintf("%d %x", n, buf.Bytes()), err
	})
	c15read(t, "CopyBox", f.Data, func(r io.ReadSeeker) (string, error) {
		ws := &rw.WriteSeeker{}
		err := mp4.NewWriter(ws).CopyBox(r, bi)
		return fmt.Sprintf("%x", ws.Data), err
	})
	key := f.Data[b.Offset:min(b.End(), uint64(len(f.Data)))]
	c15writer(t, "ReadData into a writer", key, func(w *rw.WriteSeeker) error {
		_, err := data(bytes.NewReader(f.Data), rw.OnlyWriter{W: w})
		return err
	})
	c15writer(t, "CopyBox into a writer", key, func(w *rw.WriteSeeker) error {
		return mp4.NewWriter(w).CopyBox(bytes.NewReader(f.Data), bi)
	})
	n := 0
	c15writer(t, "rewriting", f.Data, func(w *rw.WriteSeeker) error { return copyFile(bytes.NewReader(f.Data), w, &n) })
	// the input ends inside the box
	if b.Size > b.Header && b.Form != 2 {
		cut := f.Data[:b.Offset+b.Header+r.Uint64N(b.Size-b.Header)]
		t.Count("input ending early", 1)
		var buf bytes.Buffer
		if n, err := data(bytes.NewReader(cut), &buf); err == nil {
			t.Attach("file", cut)
			t.Failf("unreported/end/ReadData", "data of %s read as %d bytes although the file ends inside it at %d", infoStr(bi), n, len(cut))
		}
		ws := &rw.WriteSeeker{}
		if err := mp4.NewWriter(ws).CopyBox(bytes.NewReader(cut), bi); err == nil {
			t.Attach("file", cut)
			t.Failf("unreported/end/CopyBox", "%s copied as %d bytes although the file ends inside it at %d", infoStr(bi), len(ws.Data), len(cut))
		}
	}
}

func c15payload(t *core.T) {
	r := t.R
	tc := allTypes[r.IntN(len(allTypes))]
	var q []byte
	if r.IntN(20) == 0 {
		tc.Type, q = vpType, vpPayload(r)
		t.Count("a user's box", 1)
	} else {
		_, g := genFor(r, tc)
		q = g.Data
	}
	data, off := stream(r, q)
	size := uint64(len(q))
	c15read(t, "decoding", data, func(r io.ReadSeeker) (string, error) {
		if _, err := r.Seek(off, io.SeekStart); err != nil {
			return "", err
		}
		b, n, err := mp4.UnmarshalAny(r, tc.Type, size, tc.Ctx)
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%s %d", tree.Dump(b), n), nil
	})
	c15read(t, "decoding into a value", data, func(r io.ReadSeeker) (string, error) {
		if _, err := r.Seek(off, io.SeekStart); err != nil {
			return "", err
		}
		b, err := tc.Type.New(tc.Ctx)
		if err != nil {
			return "", err
		}
		n, err := mp4.Unmarshal(r, size, b, tc.Ctx)
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%s %d", tree.Dump(b), n), nil
	})
	if size > 0 { // the stream ends inside the fields
		cut := data[:off+r.Int64N(int64(size))]
		t.Count("input ending early", 1)
		if d := unmarshalAt(bytes.NewReader(cut), off, tc.Type, size, tc.Ctx); d.err == nil && d.n > uint64(len(cut))-uint64(off) {
			t.Attach("input", cut)
			t.Failf("unreported/end/decoding", "%s decoded from %d bytes, of which only %d are there: %s", typeStr(tc.Type), size, int64(len(cut))-off, dump(d.box))
		}
	}
}

func c15marshal(t *core.T) {
	tc := allTypes[t.R.IntN(len(allTypes))]
	if t.R.IntN(20) == 0 {
		q := vpPayload(t.R)
		if box, _, err := mp4.UnmarshalAny(bytes.NewReader(q), vpType, uint64(len(q)), tc.Ctx); err == nil {
			t.Count("a user's box", 1)
			c15writer(t, "Marshal", q, func(w *rw.WriteSeeker) error {
				_, err := mp4.Marshal(rw.OnlyWriter{W: w}, box, tc.Ctx)
				return err
			})
		}
		return
	}
	_, g := genFor(t.R, tc)
	box, err := tree.Build(g.Root, tc.Type, tc.Ctx)
	if err != nil {
		return
	}
	c15writer(t, "Marshal", append(append([]byte{}, tc.Type[:]...), g.Data...), func(w *rw.WriteSeeker) error {
		_, err := mp4.Marshal(rw.OnlyWriter{W: w}, box, tc.Ctx)
		return err
	})
}

func c15write(t *core.T) {
	r := t.R
	hdr := func() *mp4.BoxInfo {
		bi := &mp4.BoxInfo{Type: allTypes[r.IntN(len(allTypes))].Type, HeaderSize: []uint64{8, 16, 0}[r.IntN(3)], Size: uint64(r.IntN(100))}
		if r.IntN(6) == 0 {
			bi.Size, bi.ExtendToEOF = 0, true
		}
		return bi
	}
	one := hdr()
	c15writer(t, "WriteBoxInfo", []byte(infoPtr(one)), func(w *rw.WriteSeeker) error {
		_, err := mp4.WriteBoxInfo(w, one)
		return err
	})
	// a small program
	type step struct {
		kind int
		bi   *mp4.BoxInfo
		data []byte
		box  mp4.IBox
		ctx  mp4.Context
	}
	var steps []step
	depth := 0
	key := []byte{}
	for k := 1 + r.IntN(8); k > 0; k-- {
		s := step{kind: r.IntN(5)}
		switch s.kind {
		case 0, 1:
			s.kind = 0
			s.bi = &mp4.BoxInfo{Type: allTypes[r.IntN(len(allTypes))].Type, HeaderSize: []uint64{8, 16}[r.IntN(2)]}
			depth++
			key = append(key, s.bi.Type[:]...)
		case 2:
			if depth == 0 {
				continue
			}
			depth--
		case 3:
			s.data = randBytes(r, r.IntN(20))
			key = append(key, s.data...)
		case 4:
			tc := allTypes[r.IntN(len(allTypes))]
			_, g := genFor(r, tc)
			b, err := tree.Build(g.Root, tc.Type, tc.Ctx)
			if err != nil {
				continue
			}
			s.box, s.ctx = b, tc.Ctx
			key = append(key, g.Data...)
		}
		key = append(key, byte(s.kind))
		steps = append(steps, s)
	}
	for ; depth > 0; depth-- {
		steps = append(steps, step{kind: 2})
	}
	c15writer(t, "Writer", key, func(w *rw.WriteSeeker) error {
		mw := mp4.NewWriter(w)
		for _, s := range steps {
			var err error
			switch s.kind {
			case 0:
				_, err = mw.StartBox(s.bi)
			case 2:
				_, err = mw.EndBox()
			case 3:
				_, err = mw.Write(s.data)
			case 4:
				_, err = mp4.Marshal(mw, s.box, s.ctx)
			}
			if err != nil {
				return err
			}
		}
		return nil
	})
}
