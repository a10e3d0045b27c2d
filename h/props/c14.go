package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"

	mp4 "github.com/abema/go-mp4"
	"github.com/sunfish-shogi/bufseekio"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C14", Quick: 14000, Thorough: 700000,
		Rule: "every reading entry point is run over generated files, movies, damaged files and single payloads through an in-memory reader and through readers that deliver one byte, " +
			"short counts, data together with the end of file, use the rest of the buffer as scratch space, or sit behind bufseekio with random block sizes; values, orders, " +
			"positions and errors are compared; values are encoded and files rewritten through unbuffered and buffered writers of random buffer sizes and compared byte for byte; " +
			"readers that at times deliver nothing may be refused but must not change a result; non-trivial: distinct inputs",
		Need: []string{"runs one byte", "runs short", "runs data+EOF", "runs short, data+EOF", "runs one byte, data+EOF", "runs scratching", "runs sometimes nothing", "runs bufseekio",
			"operations that fail alike", "payloads", "payloads beyond 64 KiB", "a user's box", "encodings compared", "files rewritten", "library writers compared"},
		Case: c14,
	})
}

// outcome is what a caller observes of an operation.
type outcome struct {
	out string
	err error
}

func (o outcome) same(b outcome) bool {
	if (o.err == nil) != (b.err == nil) {
		return false
	}
	return o.out == b.out && errors.Is(o.err, mp4.ErrUnsupportedBoxVersion) == errors.Is(b.err, mp4.ErrUnsupportedBoxVersion)
}

func (o outcome) String() string { return fmt.Sprintf("%s, error %v", o.out, o.err) }

func c14run(t *core.T, name string, r io.ReadSeeker, f func(io.ReadSeeker) (string, error)) (o outcome, ok bool) {
	if t.Guard(name, func() { o.out, o.err = f(r) }) {
		return o, false
	}
	return o, true
}

func c14buffered(r *rand.Rand, in io.ReadSeeker) (io.ReadSeeker, string) {
	bs := []int{1, 2, 3, 7, 16, 64, 1024, 128 * 1024}[r.IntN(8)]
	h := 1 + r.IntN(5)
	return bufseekio.NewReadSeeker(in, bs, h), fmt.Sprintf("bufseekio (blocks of %d, %d kept)", bs, h)
}

// c14compare runs f through an in-memory reader and all others.
func c14compare(t *core.T, data []byte, what string, whole bool, f func(io.ReadSeeker) (string, error)) {
	r := t.R
	base, ok := c14run(t, what, bytes.NewReader(data), f)
	if !ok {
		return
	}
	if base.err != nil {
		t.Count("operations that fail alike", 1)
	}
	for _, m := range rw.Modes[1:] {
		rd := rw.NewReader(data)
		rd.R, rd.Mode = r, m
		got, ok := c14run(t, what, rd, f)
		t.Count("runs "+m.String(), 1)
		t.Eval(1)
		if ok && !got.same(base) {
			t.Attach("input", data)
			t.Failf("differs/"+m.String(), "%s: through a reader that delivers %s: %s; from memory: %s", what, m, got, base)
		}
	}
	rd := rw.NewReader(data)
	rd.R, rd.Mode = r, rw.Idle
	got, ok := c14run(t, what, rd, f)
	t.Count("runs "+rw.Idle.String(), 1)
	if ok && got.err == nil && !got.same(base) {
		t.Attach("input", data)
		t.Failf("differs/idle", "%s: through a reader that at times delivers nothing: %s; from memory: %s", what, got, base)
	}
	if !whole { // bufseekio itself fails beyond the end of the file
		return
	}
	rd = rw.NewReader(data)
	rd.R = r
	if r.IntN(3) == 0 {
		rd.Mode = []rw.Mode{rw.OneByte, rw.Short}[r.IntN(2)]
	}
	br, name := c14buffered(r, rd)
	got, ok = c14run(t, what, br, f)
	t.Count("runs bufseekio", 1)
	t.Eval(1)
	if ok && !got.same(base) {
		t.Attach("input", data)
		t.Failf("differs/bufseekio", "%s: through %s: %s; from memory: %s", what, name, got, base)
	}
}

func c14(t *core.T) {
	switch t.R.IntN(4) {
	case 0, 1:
		c14payload(t)
	case 2:
		c14file(t)
	case 3:
		c14encode(t)
	}
}

func c14file(t *core.T) {
	r := t.R
	f, m := randFile(r)
	p := paramsFor(r, f, m)
	d := f.Data
	if len(d) > 6000 {
		return
	}
	whole := true
	if r.IntN(3) == 0 {
		d = mutateFile(r, f)
		whole = false
		if len(d) > 6000 || moreStts(d, 4096) || moreTrun(d, 4096) {
			return
		}
	}
	t.Distinct(d)
	if t.Idx < 20 {
		t.Sample("file of %d bytes (well formed: %v): %x", len(d), whole, d[:min(len(d), 100)])
	}
	for _, op := range readOps {
		c14compare(t, d, op.name, whole, func(r io.ReadSeeker) (string, error) {
			pos, e1 := r.Seek(0, io.SeekCurrent)
			s, err := op.run(r, p)
			if err == nil && e1 == nil && op.name != "FindIDRFrames" {
				at, err := r.Seek(0, io.SeekCurrent)
				if err != nil {
					return "", err
				}
				return fmt.Sprintf("%s from %d to %d", s, pos, at), nil
			}
			return s, err
		})
	}
}

func c14payload(t *core.T) {
	r := t.R
	tc := allTypes[r.IntN(len(allTypes))]
	d, g := genFor(r, tc)
	if r.IntN(80) == 0 { // beyond any internal buffer
		g = spec.Gen(d, tc.Type, tc.Ctx, r, 500, 150000)
		if len(g.Data) > 400000 {
			return
		}
		if len(g.Data) > 65536 {
			t.Count("payloads beyond 64 KiB", 1)
		}
	}
	q := g.Data
	whole := true
	user := r.IntN(16) == 0
	if user {
		t.Count("a user's box", 1)
		tc.Type, q = vpType, vpPayload(r)
		whole = false // may be read beyond the end
	} else if r.IntN(2) == 0 {
		q = mutate(r, q, g.Marks)
		whole = false
	}
	data, off := stream(r, q)
	size := uint64(len(q))
	if hugeField(tc, q) {
		return
	}
	t.Count("payloads", 1)
	t.Distinct(tc.Type[:], q)
	c14compare(t, data, fmt.Sprintf("decoding %s %s %x", typeStr(tc.Type), ctxStr(tc.Ctx), q[:min(len(q), 80)]), whole && off+int64(size) < int64(len(data)), func(r io.ReadSeeker) (string, error) {
		d := unmarshalAt(r, off, tc.Type, size, tc.Ctx)
		if d.err != nil {
			return "", d.err
		}
		return fmt.Sprintf("%s n=%d pos=%d", tree.Dump(d.box), d.n, d.pos), nil
	})
}

// hugeField tells whether a run without bytes per sample makes decoding slow.
func hugeField(tc spec.TypeCtx, p []byte) bool {
	return string(tc.Type[:]) == "trun" && len(p) >= 8 && uint32(p[4])<<24|uint32(p[5])<<16|uint32(p[6])<<8|uint32(p[7]) > 4096
}

// bufSeeker is a buffered io.WriteSeeker.
type bufSeeker struct {
	w   io.WriteSeeker
	buf []byte
	cap int
}

func (b *bufSeeker) flush() error {
	_, err := b.w.Write(b.buf)
	b.buf = b.buf[:0]
	return err
}

func (b *bufSeeker) Write(p []byte) (int, error) {
	b.buf = append(b.buf, p...)
	if len(b.buf) >= b.cap {
		return len(p), b.flush()
	}
	return len(p), nil
}

func (b *bufSeeker) Seek(off int64, whence int) (int64, error) {
	if err := b.flush(); err != nil {
		return 0, err
	}
	return b.w.Seek(off, whence)
}

func c14encode(t *core.T) {
	r := t.R
	if r.IntN(3) == 0 {
		c14rewrite(t)
		return
	}
	tc := allTypes[r.IntN(len(allTypes))]
	_, g := genFor(r, tc)
	box, err := tree.Build(g.Root, tc.Type, tc.Ctx)
	if err != nil {
		return
	}
	if r.IntN(4) == 0 { // what cannot be encoded fails everywhere
		var lists []reflect.Value
		counted(g.Root, reflect.ValueOf(box), &lists)
		if len(lists) > 0 {
			l := lists[r.IntN(len(lists))]
			l.Set(l.Slice(0, r.IntN(l.Len())))
		}
	}
	t.Distinct(tc.Type[:], g.Data)
	var plain bytes.Buffer
	n, err := mp4.Marshal(rw.OnlyWriter{W: &plain}, box, tc.Ctx)
	name := fmt.Sprintf("encoding %s %s", typeStr(tc.Type), dump(box))
	cmp := func(kind string, got []byte, gn uint64, gerr error) {
		t.Count("encodings compared", 1)
		if (err == nil) != (gerr == nil) || err == nil && (gn != n || !bytes.Equal(got, plain.Bytes())) {
			t.Failf("encoding differs/"+kind, "%s: %s writer: %x (%d, %v); unbuffered: %x (%d, %v)", name, kind, got, gn, gerr, plain.Bytes(), n, err)
		}
	}
	var b bytes.Buffer
	gn, gerr := mp4.Marshal(&b, box, tc.Ctx)
	cmp("in-memory", b.Bytes(), gn, gerr)
	var c bytes.Buffer
	size := 16 + r.IntN(60)
	bw := bufio.NewWriterSize(rw.OnlyWriter{W: &c}, size)
	gn, gerr = mp4.Marshal(bw, box, tc.Ctx)
	if gerr == nil && bw.Flush() == nil {
		cmp("buffered", c.Bytes(), gn, nil)
	} else {
		cmp("buffered", nil, 0, gerr)
	}
	ws := &rw.WriteSeeker{}
	w := mp4.NewWriter(ws)
	if _, e := w.StartBox(&mp4.BoxInfo{Type: tc.Type}); e == nil {
		gn, gerr = mp4.Marshal(w, box, tc.Ctx)
		got := append([]byte{}, ws.Data[min(8, len(ws.Data)):]...)
		if gerr == nil {
			t.Count("library writers compared", 1)
		}
		cmp("library", got, gn, gerr)
	}
	pr, pw := io.Pipe()
	done := make(chan []byte, 1)
	go func() {
		d, _ := io.ReadAll(pr)
		done <- d
	}()
	gn, gerr = mp4.Marshal(pw, box, tc.Ctx)
	pw.Close()
	cmp("pipe", <-done, gn, gerr)
}

func c14rewrite(t *core.T) {
	r := t.R
	f := gen.Random(r, gen.Default(r))
	d := f.Data
	if r.IntN(4) == 0 {
		d = mutateFile(r, f)
		if moreTrun(d, 4096) || moreStts(d, 4096) {
			return
		}
	}
	if len(d) > 20000 {
		return
	}
	t.Distinct(d)
	n := 0
	plain := &rw.WriteSeeker{}
	err := copyFile(bytes.NewReader(d), plain, &n)
	under := &rw.WriteSeeker{}
	buf := &bufSeeker{w: under, cap: 1 + r.IntN(100)}
	rd := rw.NewReader(d)
	rd.R, rd.Mode = r, rw.Modes[r.IntN(len(rw.Modes))]
	err2 := copyFile(rd, buf, &n)
	if e := buf.flush(); e != nil {
		err2 = e
	}
	t.Count("files rewritten", 1)
	if (err == nil) != (err2 == nil) || err == nil && !bytes.Equal(plain.Data, under.Data) {
		t.Attach("file", d)
		t.Failf("rewriting differs", "copying a file of %d bytes through a %v reader and a buffered writer: %v; directly: %v; %s", len(d), rd.Mode, err2, err, diff(under.Data, plain.Data))
	}
}
