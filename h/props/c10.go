package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C10", Quick: 60000, Thorough: 4000000,
		Rule: "random programs of StartBox, Write, Marshal, CopyBox, Seek back and patch, and EndBox, on a stream that may begin anywhere and already hold data, with every header " +
			"form; after every step the returned record, the position and the bytes written so far are compared with a model writer; plus boxes of sizes around 2^32 on a sparse " +
			"stream, nested, with both header forms; non-trivial: distinct outputs with at least two boxes",
		Assumptions: []string{"the caller leaves the stream at the end of the box before EndBox, and puts boxes that extend to the end of the file last"},
		Need: []string{"boxes started", "boxes ended", "boxes copied", "payloads marshalled", "64-bit headers", "to-end-of-file headers", "nested boxes", "started at an offset", "nothing to end",
			"sizes beyond 32 bits refused", "sizes beyond 32 bits written", "sizes just below 2^32", "copies from beyond 4 GiB", "copies that must fail", "whole files rebuilt", "boxes of more than 4 GiB copied"},
		Case:  c10,
		Fixed: []func(t *core.T){c10huge},
	})
}

type c10open struct {
	off, hs uint64
	t       mp4.BoxType
	eof     bool
	bi      *mp4.BoxInfo
	set     bool
}

// hugeSink keeps the first bytes and compares the others.
type hugeSink struct {
	pos  int64
	head [16]byte
	v    *verify
}

func (h *hugeSink) Write(p []byte) (int, error) {
	n := len(p)
	if h.pos < 16 {
		k := copy(h.head[h.pos:], p)
		p = p[k:]
		h.pos += int64(k)
	}
	if len(p) > 0 {
		if h.pos != 16+int64(h.v.n) && h.v.bad == "" {
			h.v.bad = fmt.Sprintf("written at %d instead of %d", h.pos, 16+h.v.n)
		}
		h.v.Write(p)
		h.pos += int64(len(p))
	}
	return n, nil
}

func (h *hugeSink) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += 16 + int64(h.v.n)
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	h.pos = off
	return off, nil
}

// c10huge copies boxes of more than 4 GiB into a box.
func c10huge(t *core.T) {
	for _, typ := range []string{"mdat", "huge"} {
		f, h := hugeFile(t, typ, typ == "huge")
		rd := rw.NewReader(f.Data)
		rd.HoleAt, rd.HoleLen = int64(f.HoleAt), int64(f.HoleLen)
		s := &hugeSink{v: verifier(f, h.Offset, h.Offset+h.Size)}
		w := mp4.NewWriter(s)
		t.Eval(1)
		t.Count("boxes of more than 4 GiB copied", 1)
		if _, err := w.StartBox(&mp4.BoxInfo{Type: bt("moov"), HeaderSize: 16, Size: 16}); err != nil {
			t.Failf("StartBox failed", "%v", err)
			continue
		}
		if err := w.CopyBox(rd, infoOf(h)); err != nil {
			t.Failf("CopyBox failed", "a box of %d bytes: %v", h.Size, err)
			continue
		}
		if e := s.v.done(); e != "" || s.pos != int64(16+h.Size) {
			t.Failf("copy of a huge box", "%s of %d bytes, position %d: %s", typ, h.Size, s.pos, e)
		}
		bi, err := w.EndBox()
		if err != nil || bi.Size != h.Size+16 || s.pos != int64(16+h.Size) {
			t.Failf("EndBox failed", "%v, %s", err, infoPtr(bi))
		}
		if want := binary.BigEndian.AppendUint64([]byte("\x00\x00\x00\x01moov"), 16+h.Size); !bytes.Equal(want, s.head[:]) {
			t.Failf("header after EndBox", "%x, expected %x", s.head, want)
		}
	}
}

func c10(t *core.T) {
	switch t.Idx % 8 {
	case 6:
		c10sparse(t)
	case 7:
		c10rebuild(t)
	default:
		c10program(t)
	}
}

func c10program(t *core.T) {
	r := t.R
	ws := &rw.WriteSeeker{}
	var exp []byte
	pos := 0
	if r.IntN(2) == 0 { // the stream may hold something, and writing begins somewhere
		ws.Data = randBytes(r, r.IntN(60))
		exp = bytes.Clone(ws.Data)
		pos = r.IntN(len(exp) + 1)
		if r.IntN(4) == 0 {
			pos = len(exp) + r.IntN(20)
		}
		ws.Pos = int64(pos)
		t.Count("started at an offset", 1)
	}
	put := func(p []byte) {
		if len(p) == 0 {
			return
		}
		if need := pos + len(p); need > len(exp) {
			exp = append(exp, make([]byte, need-len(exp))...)
		}
		copy(exp[pos:], p)
		pos += len(p)
	}
	src := gen.Random(r, gen.Default(r))
	srcAll := src.All()
	w := mp4.NewWriter(ws)
	var open []*c10open
	log := ""
	boxes := 0
	note := func(format string, a ...any) { log += fmt.Sprintf(format, a...) + "; " }
	bad := func(key, format string, a ...any) {
		t.AttachStr("program", log)
		t.Failf(key, "%s; after: %s", fmt.Sprintf(format, a...), log)
	}
	same := func(what string) bool {
		if ws.Pos != int64(pos) {
			bad("position after "+what, "the stream stands at %d, expected %d", ws.Pos, pos)
			return false
		}
		// headers of boxes not yet ended may hold anything
		a, b := bytes.Clone(ws.Data), bytes.Clone(exp)
		if len(a) != len(b) {
			bad("bytes after "+what, "%d bytes written, expected %d", len(a), len(b))
			return false
		}
		for _, o := range open {
			for _, x := range [][]byte{a, b} {
				copy(x[o.off:o.off+o.hs], make([]byte, 16))
			}
		}
		if !bytes.Equal(a, b) {
			i := 0
			for a[i] == b[i] {
				i++
			}
			bad("bytes after "+what, "the bytes differ at %d: %x, expected %x", i, a[i:min(len(a), i+40)], b[i:min(len(b), i+40)])
			return false
		}
		return true
	}
	end := func() bool {
		o := open[len(open)-1]
		open = open[:len(open)-1]
		note("EndBox")
		bi, err := w.EndBox()
		if err != nil {
			bad("EndBox failed", "%v", err)
			return false
		}
		size := uint64(pos) - o.off
		h := exp[o.off:]
		switch {
		case o.eof:
			binary.BigEndian.PutUint32(h, 0)
		case o.hs == 16:
			binary.BigEndian.PutUint32(h, 1)
			binary.BigEndian.PutUint64(h[8:], size)
		default:
			binary.BigEndian.PutUint32(h, uint32(size))
		}
		copy(h[4:8], o.t[:])
		t.Count("boxes ended", 1)
		if bi == nil || bi.Offset != o.off || bi.Size != size || bi.HeaderSize != o.hs || bi.Type != o.t || bi.ExtendToEOF != o.eof {
			bad("record of EndBox", "%s, expected offset %d, size %d, header %d", infoPtr(bi), o.off, size, o.hs)
			return false
		}
		return same("EndBox")
	}
	most, nsteps := 8, 40
	starts := 4
	if r.IntN(100) == 0 {
		most, nsteps = 300, 400
		if r.IntN(2) == 0 { // deep
			starts = 9
		}
	}
	for steps := 1 + r.IntN(nsteps); steps > 0; steps-- {
		switch k := r.IntN(12); {
		case (k < 4 || starts > 4 && r.IntN(12) < starts) && len(open) < most: // start
			in := &mp4.BoxInfo{Type: allTypes[r.IntN(len(allTypes))].Type}
			hs := uint64(8)
			switch r.IntN(6) {
			case 0:
				in.HeaderSize, hs = 16, 16
				in.Size = 16
			case 1:
				in.HeaderSize = 8
				in.Size = 8 + uint64(r.IntN(100))
			case 2:
				in.Size = uint64(r.Uint32())
				in.HeaderSize = 8
			case 3: // announced as large: gets the long form
				if r.IntN(3) == 0 {
					in.Size = 1<<32 + uint64(r.Uint32())
					in.HeaderSize, hs = 16, 16
				}
			case 4:
				if r.IntN(2) == 0 {
					in.ExtendToEOF = true
					in.HeaderSize = 8
				}
			}
			in.Offset = r.Uint64() >> uint(r.IntN(64)) // to be ignored
			in.Context = randCtx(r)
			was := *in
			note("StartBox(%s)", infoStr(in))
			bi, err := w.StartBox(in)
			if err != nil {
				bad("StartBox failed", "%v", err)
				return
			}
			if *in != was {
				bad("caller's record changed", "%s became %s", infoStr(&was), infoStr(in))
				return
			}
			if bi == nil || bi.Offset != uint64(pos) || bi.HeaderSize != hs || bi.Type != in.Type || bi.ExtendToEOF != in.ExtendToEOF ||
				in.Size >= in.HeaderSize && bi.Size != in.Size-in.HeaderSize+hs {
				bad("record of StartBox", "%s, expected offset %d, header %d", infoPtr(bi), pos, hs)
				return
			}
			open = append(open, &c10open{off: uint64(pos), hs: hs, t: in.Type, eof: in.ExtendToEOF, bi: bi})
			put(make([]byte, hs))
			copy(exp[pos-int(hs)+4:], in.Type[:])
			boxes++
			t.Count("boxes started", 1)
			t.Max("nested boxes", int64(len(open)))
			if hs == 16 {
				t.Count("64-bit headers", 1)
			}
			if in.ExtendToEOF {
				t.Count("to-end-of-file headers", 1)
			}
			if !same("StartBox") {
				return
			}
		case k < 6:
			p := randBytes(r, r.IntN(30))
			if r.IntN(600) == 0 {
				p = randBytes(r, []int{127, 255, 256, 4095, 4096, 32768, 65535, 65536, 70000, 1<<20 + 1}[r.IntN(10)])
			}
			note("Write(%d)", len(p))
			n, err := w.Write(p)
			if err != nil || n != len(p) {
				bad("Write failed", "%d, %v", n, err)
				return
			}
			put(p)
			if !same("Write") {
				return
			}
		case k == 6: // a payload
			tc := allTypes[r.IntN(len(allTypes))]
			def, g := genFor(r, tc)
			m := spec.Decode(def, tc.Type, tc.Ctx, g.Data)
			if m.Err != nil {
				continue
			}
			box, err := tree.Build(g.Root, tc.Type, tc.Ctx)
			if err != nil {
				continue
			}
			note("Marshal(%v)", tc.Type)
			n, err := mp4.Marshal(w, box, tc.Ctx)
			if err != nil || n != uint64(len(g.Data)) {
				bad("Marshal into the writer", "%v: %d, %v; expected %d bytes", tc.Type, n, err, len(g.Data))
				return
			}
			put(g.Data)
			t.Count("payloads marshalled", 1)
			if !same("Marshal") {
				return
			}
		case k == 7 && len(srcAll) > 0:
			b := srcAll[r.IntN(len(srcAll))]
			rd := rw.NewReader(src.Data)
			rd.R = r
			rd.Mode = rw.Modes[r.IntN(len(rw.Modes))]
			rd.Pos = int64(r.IntN(len(src.Data) + 10))
			bi := infoOf(b)
			was := *bi
			note("CopyBox(%s)", infoStr(bi))
			if r.IntN(8) == 0 { // far into the source
				rd.HoleLen = int64(r.Uint64() >> uint(2+r.IntN(40)))
				bi.Offset += uint64(rd.HoleLen)
				was = *bi
				t.Count("copies from beyond 4 GiB", int(min(1, rd.HoleLen>>32)))
			}
			if err := w.CopyBox(rd, bi); err != nil {
				bad("CopyBox failed", "%v", err)
				return
			}
			if *bi != was {
				bad("caller's record changed", "%s became %s", infoStr(&was), infoStr(bi))
				return
			}
			put(src.Bytes(b))
			boxes++
			t.Count("boxes copied", 1)
			if !same("CopyBox") {
				return
			}
		case k == 8 && len(open) > 0 && pos > int(open[len(open)-1].off+open[len(open)-1].hs): // patch something
			o := open[len(open)-1]
			lo := int(o.off + o.hs)
			at := lo + r.IntN(pos-lo)
			p := randBytes(r, 1+r.IntN(pos-at))
			// not over the header of an inner, finished box: data of this box only
			note("patch %d at %d", len(p), at)
			if n, err := w.Seek(int64(at), io.SeekStart); err != nil || n != int64(at) {
				bad("Seek", "%d, %v", n, err)
				return
			}
			w.Write(p)
			keep := pos
			pos = at
			put(p)
			pos = keep
			if n, err := w.Seek(int64(keep-at-len(p)), io.SeekCurrent); err != nil || n != int64(keep) {
				bad("Seek", "%d, %v, expected %d", n, err, keep)
				return
			}
			if !same("Seek and Write") {
				return
			}
		case len(open) > 0:
			if !end() {
				return
			}
		default:
			note("EndBox")
			if bi, err := w.EndBox(); err == nil {
				bad("nothing to end", "EndBox returned %s without an error although no box is open", infoPtr(bi))
				return
			}
			t.Count("nothing to end", 1)
			if !same("EndBox with nothing to end") {
				return
			}
		}
	}
	if r.IntN(20) == 0 && len(srcAll) > 0 { // a source that ends inside the box
		b := srcAll[r.IntN(len(srcAll))]
		cut := int(b.Offset) + r.IntN(int(b.Size))
		t.Count("copies that must fail", 1)
		if err := mp4.NewWriter(&rw.WriteSeeker{}).CopyBox(rw.NewReader(src.Data[:cut]), infoOf(b)); err == nil {
			bad("incomplete copy", "CopyBox of %v, %d bytes from %d, succeeded on a source of %d bytes", b.Path(), b.Size, b.Offset, cut)
		}
	}
	for len(open) > 0 {
		if !end() {
			return
		}
	}
	if boxes > 1 {
		t.Distinct(exp)
	}
	if t.Idx < 24 {
		t.Sample("%s -> %d bytes", log, len(exp))
	}
}

func infoPtr(bi *mp4.BoxInfo) string {
	if bi == nil {
		return "nil"
	}
	return infoStr(bi)
}

// sparse is a stream that remembers only what was written.
type sparse struct {
	pos  int64
	end  int64
	data map[int64]byte
}

func (s *sparse) Write(p []byte) (int, error) {
	for i, b := range p {
		s.data[s.pos+int64(i)] = b
	}
	s.pos += int64(len(p))
	s.end = max(s.end, s.pos)
	return len(p), nil
}

func (s *sparse) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.end
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *sparse) at(off uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = s.data[int64(off)+int64(i)]
	}
	return b
}

// c10sparse builds nested boxes whose sizes lie around 2^32.
func c10sparse(t *core.T) {
	r := t.R
	s := &sparse{data: map[int64]byte{}}
	switch r.IntN(4) {
	case 0:
		s.pos = int64(r.Uint32())
	case 1:
		s.pos = 1<<32 - int64(r.IntN(64))
	case 2:
		s.pos = r.Int64N(1 << 45)
	}
	w := mp4.NewWriter(s)
	n := 1 + r.IntN(4)
	type lev struct {
		off, hs uint64
		eof     bool
	}
	var ls []lev
	log := fmt.Sprintf("at %d; ", s.pos)
	for i := 0; i < n; i++ {
		bi := &mp4.BoxInfo{Type: bt("moov"), HeaderSize: 8, Size: 8}
		l := lev{off: uint64(s.pos), hs: 8}
		switch r.IntN(4) {
		case 0, 1:
			bi.HeaderSize, bi.Size, l.hs = 16, 16, 16
		case 2:
			if r.IntN(2) == 0 {
				bi.ExtendToEOF, l.eof = true, true
			}
		}
		log += fmt.Sprintf("StartBox(header %d, to the end %v); ", bi.HeaderSize, bi.ExtendToEOF)
		if _, err := w.StartBox(bi); err != nil {
			t.Failf("StartBox failed", "%v; after %s", err, log)
			return
		}
		ls = append(ls, l)
		if r.IntN(2) == 0 {
			w.Write(randBytes(r, r.IntN(12)))
		}
	}
	// the data: so long that some of the boxes are near 2^32
	k := r.IntN(n)
	total := int64(1<<32) + int64(r.IntN(5)) - 3
	if r.IntN(3) == 0 {
		total = int64(1<<32) + r.Int64N(1<<40)
	}
	skip := int64(ls[k].off) + total - s.pos
	if _, err := w.Seek(skip, io.SeekCurrent); err != nil {
		t.Failf("Seek", "%v", err)
		return
	}
	s.end = max(s.end, s.pos)
	log += fmt.Sprintf("%d bytes of data; ", skip)
	for i := n - 1; i >= 0; i-- {
		l := ls[i]
		size := uint64(s.pos) - l.off
		end := s.pos
		bi, err := w.EndBox()
		log += "EndBox; "
		t.Distinct([]byte(log))
		if !l.eof && l.hs == 8 && size > math.MaxUint32 {
			t.Count("sizes beyond 32 bits refused", 1)
			if err == nil {
				t.Failf("size beyond 32 bits", "a box of %d bytes with an 8-byte header was ended without an error (%s); after %s", size, infoPtr(bi), log)
			}
			return
		}
		if err != nil {
			t.Failf("EndBox failed", "a box of %d bytes with a %d-byte header: %v; after %s", size, l.hs, err, log)
			return
		}
		if size > math.MaxUint32 {
			t.Count("sizes beyond 32 bits written", 1)
		} else {
			t.Count("sizes just below 2^32", 1)
		}
		if bi.Offset != l.off || bi.Size != size || bi.HeaderSize != l.hs || bi.ExtendToEOF != l.eof || bi.Type != bt("moov") {
			t.Failf("record of EndBox", "%s, expected offset %d, size %d, header %d; after %s", infoPtr(bi), l.off, size, l.hs, log)
			return
		}
		if s.pos != end {
			t.Failf("position after EndBox", "%d, expected %d; after %s", s.pos, end, log)
			return
		}
		var h []byte
		switch {
		case l.eof:
			h = []byte("\x00\x00\x00\x00moov")
		case l.hs == 16:
			h = binary.BigEndian.AppendUint64([]byte("\x00\x00\x00\x01moov"), size)
		default:
			h = append(binary.BigEndian.AppendUint32(nil, uint32(size)), "moov"...)
		}
		if g := s.at(l.off, int(l.hs)); !bytes.Equal(g, h) {
			t.Failf("header after EndBox", "%x, expected %x; after %s", g, h, log)
			return
		}
	}
}

// c10rebuild writes a whole file again through the writer, as a program that edits files does.
func c10rebuild(t *core.T) {
	r := t.R
	f, _ := randFile(r)
	t.Attach("file", f.Data)
	ws := &rw.WriteSeeker{}
	w := mp4.NewWriter(ws)
	var build func(bs []*gen.Box) bool
	build = func(bs []*gen.Box) bool {
		for _, b := range bs {
			if b.Def == nil || len(b.Kids) == 0 && r.IntN(2) == 0 {
				if err := w.CopyBox(rw.NewReader(f.Data), infoOf(b)); err != nil {
					t.Failf("CopyBox failed", "%v: %v", b.Path(), err)
					return false
				}
				continue
			}
			if _, err := w.StartBox(&mp4.BoxInfo{Type: b.Type, HeaderSize: b.Header, Size: b.Header, ExtendToEOF: b.Form == 2}); err != nil {
				t.Failf("StartBox failed", "%v: %v", b.Path(), err)
				return false
			}
			if b.Tree != nil && len(b.Fields) > 0 && r.IntN(2) == 0 {
				box, err := tree.Build(b.Tree, b.Type, b.Ctx)
				if err != nil {
					panic(err)
				}
				var buf bytes.Buffer
				if _, err := mp4.Marshal(&buf, box, b.Ctx); err == nil && bytes.Equal(buf.Bytes(), b.Fields) {
					mp4.Marshal(w, box, b.Ctx)
				} else {
					w.Write(b.Fields)
				}
			} else {
				w.Write(b.Fields)
			}
			if !build(b.Kids) {
				return false
			}
			w.Write(b.Tail)
			bi, err := w.EndBox()
			if err != nil {
				t.Failf("EndBox failed", "%v: %v", b.Path(), err)
				return false
			}
			if bi.Offset != b.Offset || bi.Size != b.Size || bi.HeaderSize != b.Header {
				t.Failf("record of EndBox", "%v: %s, expected offset %d, size %d, header %d", b.Path(), infoStr(bi), b.Offset, b.Size, b.Header)
				return false
			}
		}
		return true
	}
	if !build(f.Roots) {
		return
	}
	t.Count("whole files rebuilt", 1)
	t.Distinct(f.Data)
	if !bytes.Equal(ws.Data, f.Data) {
		i := 0
		for i < min(len(ws.Data), len(f.Data)) && ws.Data[i] == f.Data[i] {
			i++
		}
		t.Failf("rebuilt file differs", "%d bytes, expected %d; they differ at %d", len(ws.Data), len(f.Data), i)
	}
}
