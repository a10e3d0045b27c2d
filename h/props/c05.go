package props

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
)

// Bounds: bytes allocated in total and bytes read, per byte of input.
const (
	allocPerByte = 600
	allocBase    = 128 << 10
	readPerByte  = 8
	readBase     = 4 << 10
	toolLimit    = 192 << 20 // data segment of a command
)

func init() {
	register(&core.Check{
		ID: "C05", Quick: 24000, Thorough: 800000, Workers: 1,
		Rule: "payloads and files whose sizes, counts and lengths were replaced by huge ones are decoded, walked, extracted and probed while the bytes allocated " +
			"(runtime.MemStats.TotalAlloc) and the bytes taken from the reader are measured and compared with " +
			fmt.Sprintf("%d resp. %d per byte present (+%d resp. +%d)", allocPerByte, readPerByte, allocBase, readBase) +
			"; the reading commands of mp4tool are run as processes whose data segment is limited to 192 MiB; non-trivial: distinct inputs that declare more than they hold",
		Assumptions: []string{"nesting of at most 40 boxes (the paths handed to handlers make nested walks quadratic in the depth, a recorded finding)"},
		Need:        []string{"payloads", "files", "command runs"},
		Case:        c05,
		Fixed:       []func(t *core.T){c05trun, c05stts, c05deep, c05fields, c05toolSizes},
	})
}

// allocated measures the bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// c05judge compares measured use with the bounds; n is the number of bytes present.
func c05judge(t *core.T, what string, n int, alloc uint64, read int64) {
	t.Eval(1)
	if n >= 1000 {
		t.Max("bytes allocated per byte (inputs over 1000 bytes)", int64(alloc)/int64(n))
		t.Max("bytes read per 100 bytes (inputs over 1000 bytes)", read*100/int64(n))
	} else {
		t.Max("bytes allocated (small inputs)", int64(alloc))
		t.Max("bytes read (small inputs)", read)
	}
	if alloc > uint64(allocPerByte*n+allocBase) {
		t.Failf("memory: "+what, "%s allocated %d bytes for an input of %d bytes", what, alloc, n)
	}
	if read > int64(readPerByte*n+readBase) {
		t.Failf("I/O: "+what, "%s read %d bytes from an input of %d bytes", what, read, n)
	}
}

func c05(t *core.T) {
	r := t.R
	switch {
	case t.Idx%60 == 59:
		c05tool(t)
	case t.Idx%3 != 0:
		tc := allTypes[(t.Idx/3)%len(allTypes)]
		_, g := genFor(r, tc)
		p := enlarge(r, g.Data, g.Marks)
		size := uint64(len(p))
		if r.IntN(3) == 0 {
			size = []uint64{1 << 16, 1 << 24, 1 << 31, 1<<32 - 9, 1 << 34, 1 << 40, 1<<61 - 1}[r.IntN(7)]
		}
		data, off := stream(r, p)
		if tc.Type == bt("trun") && moreTrunAt(data, &mp4.BoxInfo{Offset: uint64(off)}, 64) {
			t.Count("skipped: samples without bytes", 1)
			return
		}
		t.Count("payloads", 1)
		t.Distinct(tc.Type[:], p)
		t.Attach("payload", p)
		t.Trace(typeStr(tc.Type)+ctxStr(tc.Ctx)+fmt.Sprint(size), p)
		rd := rw.NewReader(data)
		var d decoded
		a := allocated(func() {
			t.Guard("decoding", func() { d = unmarshalAt(rd, off, tc.Type, size, tc.Ctx) })
		})
		if d.err != nil {
			t.Count("rejected", 1)
		} else {
			t.Count("decoded", 1)
		}
		if t.Idx < 30 {
			t.Sample("%s of %d bytes declared as %d: allocated %d, read %d: %x", typeStr(tc.Type), len(p), size, a, rd.BytesRead, p[:min(len(p), 64)])
		}
		c05judge(t, "decoding "+typeStr(tc.Type), len(data), a, rd.BytesRead)
	default:
		d, p := c05file(t)
		if moreTrun(d, 64) {
			t.Count("skipped: samples without bytes", 1)
			return
		}
		t.Count("files", 1)
		t.Distinct(d)
		t.Attach("file", d)
		t.Trace("file", d)
		for _, op := range c05ops {
			if op.name == "Probe" && moreStts(d, 64) {
				continue
			}
			rd := rw.NewReader(d)
			a := allocated(func() {
				t.Guard(op.name, func() { op.run(rd, p) })
			})
			c05judge(t, op.name, len(d), a, rd.BytesRead)
		}
	}
}

type plainOp struct {
	name string
	run  func(r io.ReadSeeker, p *opParams) error
}

// The operations proper, without what the harness does to compare results.
var c05ops = []plainOp{
	{"walking", func(r io.ReadSeeker, p *opParams) error {
		_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
			if h.BoxInfo.IsSupportedType() {
				return h.Expand()
			}
			return nil, nil
		})
		return err
	}},
	{"walking with payloads", func(r io.ReadSeeker, p *opParams) error {
		_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
			if h.BoxInfo.IsSupportedType() {
				if _, _, err := h.ReadPayload(); err != nil {
					return nil, err
				}
				return h.Expand()
			}
			_, err := h.ReadData(io.Discard)
			return nil, err
		})
		return err
	}},
	{"extracting", func(r io.ReadSeeker, p *opParams) error {
		_, err := mp4.ExtractBoxes(r, p.Box, p.Paths)
		return err
	}},
	{"extracting with payload", func(r io.ReadSeeker, p *opParams) error {
		_, err := mp4.ExtractBoxesWithPayload(r, p.Box, p.Paths)
		return err
	}},
	{"Probe", func(r io.ReadSeeker, p *opParams) error {
		_, err := mp4.Probe(r)
		return err
	}},
}

var hugeWords = []uint64{1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x40000000, 0x20000000, 0x1fffffff, 0x00ffffff}

// enlarge replaces fields by huge values.
func enlarge(r randSource, p []byte, marks []int) []byte {
	q := append([]byte{}, p...)
	if r.IntN(3) == 0 && len(q) > 2 {
		q = q[:len(q)/2+r.IntN(len(q)/2+1)]
	}
	for k := 1 + r.IntN(2); k > 0; k-- {
		if len(marks) > 0 && r.IntN(4) > 0 {
			m := marks[r.IntN(min(len(marks), 8))]
			off, w := m>>8, m&0xff
			if off+w > len(q) {
				continue
			}
			v := hugeWords[r.IntN(len(hugeWords))]
			if w == 2 {
				v = []uint64{0xffff, 0x8000, 0x7fff}[r.IntN(3)]
			}
			if w == 1 {
				v = 0xff
			}
			for i := range w {
				q[off+w-1-i] = byte(v >> uint(8*i))
			}
		} else if len(q) >= 4 {
			i := r.IntN(len(q) - 3)
			binary.BigEndian.PutUint32(q[i:], uint32(hugeWords[r.IntN(len(hugeWords))]))
		}
	}
	return q
}

type randSource interface{ IntN(int) int }

// c05file draws a file that declares more than it holds.
func c05file(t *core.T) ([]byte, *opParams) {
	r := t.R
	f, m := randFile(r)
	p := paramsFor(r, f, m)
	d := append([]byte{}, f.Data...)
	all := f.All()
	if len(all) == 0 {
		return d, p
	}
	for k := 1 + r.IntN(2); k > 0; k-- {
		b := all[r.IntN(len(all))]
		if r.IntN(3) == 0 { // the size of the box, and of those around it
			grow := []uint64{1 << 20, 1 << 28, 1 << 31, 0xf0000000, 1 << 30}[r.IntN(4)]
			for x := b; x != nil; x = x.Parent {
				v := uint32(x.Size + grow)
				if x.Form == 1 {
					v64 := x.Size + grow<<uint(r.IntN(12))
					binary.BigEndian.PutUint64(d[x.Offset+8:], v64)
				} else if x.Form == 0 {
					binary.BigEndian.PutUint32(d[x.Offset:], v)
				}
				if r.IntN(6) == 0 {
					break
				}
			}
		} else if len(b.Fields) > 0 {
			o := int(b.Offset + b.Header)
			q := enlarge(r, b.Fields, nil)
			copy(d[o:o+len(b.Fields)], q)
		}
	}
	if r.IntN(4) == 0 {
		d = d[:r.IntN(len(d)+1)]
	}
	if p.Box != nil && r.IntN(3) == 0 {
		b := *p.Box
		b.Size += []uint64{1 << 20, 1 << 31, 1 << 40}[r.IntN(3)]
		p.Box = &b
	}
	return d, p
}

func c05tool(t *core.T) {
	d, p := c05file(t)
	_ = p
	if moreTrun(d, 64) || moreStts(d, 64) {
		t.Count("skipped: samples without bytes", 1)
		return
	}
	t.Attach("file", d)
	t.Distinct([]byte("tool"), d)
	path := scratchFile(t, d)
	defer os.Remove(path)
	for _, c := range [][]string{{"dump", path}, {"dump", "-a", "-full", "mdat,free,skip,xxxx", path}, {"psshdump", path}, {"extract", "pssh", path}, {"extract", "mdat", path}, {"probe", path}} {
		toolMemory(t, c, len(d))
	}
}

// toolMemory runs a command whose data segment (heap included) is limited.
func toolMemory(t *core.T, args []string, n int) {
	c := exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -d %d; exec \"$0\" \"$@\"", toolLimit>>10), toolPath()}, args...)...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	out, _ := c.CombinedOutput()
	t.Count("command runs", 1)
	t.Eval(1)
	name := strings.Join(args[:len(args)-1], " ")
	if s := string(out); strings.Contains(s, "out of memory") || strings.Contains(s, "makeslice") || strings.Contains(s, "cannot allocate memory") || strings.Contains(s, "bytes.Buffer: too large") {
		t.Failf("memory: mp4tool "+args[0], "mp4tool %s on a file of %d bytes, its memory limited to %d bytes: %s", name, n, toolLimit, s[:min(len(s), 400)])
	} else if c.ProcessState.ExitCode() > 1 || c.ProcessState.ExitCode() < 0 {
		t.Failf("memory: mp4tool "+args[0], "mp4tool %s on a file of %d bytes, its memory limited to %d bytes, ended with %v: %s", name, n, toolLimit, c.ProcessState, s[:min(len(s), 400)])
	}
}

// c05toolSizes gives the commands files whose last box declares nearly 4 GiB.
func c05toolSizes(t *core.T) {
	types := append([]string{"xxxx", "mdat"}, spec.PlainTypes()...)
	for i, typ := range types {
		for _, in := range []string{"", "moov", "moof"} {
			if in != "" && typ != "pssh" && i%8 != 0 {
				continue
			}
			box := new(gen.W).U32(0xf0000000).S(typ).Z(40).B
			f := new(gen.W).U32(16).S("ftypisom").Z(4)
			if in != "" {
				f.U32(0xf0000100).S(in)
			}
			d := append(f.B, box...)
			t.Distinct([]byte("tool"), d)
			path := scratchFile(t, d)
			toolMemory(t, []string{"dump", "-full", "xxxx,free,skip,mdat," + typ, "-a", path}, len(d))
			if typ == "pssh" || i%8 == 0 {
				toolMemory(t, []string{"psshdump", path}, len(d))
				toolMemory(t, []string{"probe", path}, len(d))
				toolMemory(t, []string{"extract", typ, path}, len(d))
			}
			os.Remove(path)
		}
	}
}

// c05fields sets every multi-byte field of every type to every huge value in turn.
func c05fields(t *core.T) {
	for _, tc := range allTypes {
		def := spec.Lookup(tc.Type, tc.Ctx)
		for k := 0; k < 4; k++ {
			g := spec.Gen(def, tc.Type, tc.Ctx, t.R, 3, 8)
			for _, m := range g.Marks {
				off, w := m>>8, m&0xff
				for _, v := range []uint64{0xffffffff, 0x7fffffff, 0x10000000, 0xfffffe} {
					q := append([]byte{}, g.Data...)
					for i := range w {
						q[off+w-1-i] = byte(v >> uint(8*i))
					}
					if tc.Type == bt("trun") && moreTrunAt(q, &mp4.BoxInfo{}, 64) {
						continue
					}
					for _, size := range []uint64{uint64(len(q)), 1 << 36} {
						t.Attach("payload", q)
						t.Trace(typeStr(tc.Type)+ctxStr(tc.Ctx), q)
						t.Distinct(tc.Type[:], q)
						rd := rw.NewReader(q)
						a := allocated(func() {
							t.Guard("decoding", func() { unmarshalAt(rd, 0, tc.Type, size, tc.Ctx) })
						})
						c05judge(t, "decoding "+typeStr(tc.Type), len(q), a, rd.BytesRead)
						t.Count("field set to a huge value", 1)
					}
				}
			}
		}
	}
}

// c05trun shows the recorded finding: samples for which no byte is present.
func c05trun(t *core.T) {
	p := []byte{0, 0, 0, 0, 0, 0x08, 0, 0} // no optional fields, 524288 samples
	rd := rw.NewReader(p)
	a := allocated(func() { unmarshalAt(rd, 0, bt("trun"), uint64(len(p)), mp4.Context{}) })
	if a > allocPerByte*uint64(len(p))+allocBase {
		t.Known("C05-trun-count", fmt.Sprintf("decoding a trun box of 8 bytes that declares 524288 samples without per-sample fields allocates %d bytes", a))
	}
}

// c05stts shows the recorded finding: probing expands run-length coded samples.
func c05stts(t *core.T) {
	m := c05movie(t, 1<<19)
	rd := rw.NewReader(m)
	a := allocated(func() { mp4.Probe(rd) })
	if a > uint64(allocPerByte*len(m)+allocBase) {
		t.Known("C05-stts-count", fmt.Sprintf("probing a movie of %d bytes whose stts box declares 524288 samples allocates %d bytes", len(m), a))
	}
}

func c05movie(t *core.T, samples uint32) []byte {
	w := func() *gen.W { return new(gen.W) }
	tkhd := gen.Leaf("tkhd", w().Full(0, 7).Z(80).B)
	mdhd := gen.Leaf("mdhd", w().Full(0, 0).Z(20).B)
	stts := gen.Leaf("stts", w().Full(0, 0).U32(1).U32(samples).U32(1).B)
	stsc := gen.Leaf("stsc", w().Full(0, 0).U32(0).B)
	stco := gen.Leaf("stco", w().Full(0, 0).U32(0).B)
	f := &gen.File{Roots: []*gen.Box{gen.Cont("moov", gen.Cont("trak", tkhd, gen.Cont("mdia", mdhd, gen.Cont("minf", gen.Cont("stbl", stts, stsc, stco)))))}}
	f.Layout()
	return f.Data
}

// c05deep shows the recorded finding: the paths of a deeply nested walk.
func c05deep(t *core.T) {
	n := 2048
	d := make([]byte, 8*n)
	for i := 0; i < n; i++ {
		binary.BigEndian.PutUint32(d[8*i:], uint32(len(d)-8*i))
		copy(d[8*i+4:], "moov")
	}
	walk := func(d []byte) uint64 {
		rd := rw.NewReader(d)
		return allocated(func() { c05ops[0].run(rd, &opParams{}) })
	}
	small := make([]byte, len(d)/8)
	for i := 0; i < n/8; i++ {
		binary.BigEndian.PutUint32(small[8*i:], uint32(len(small)-8*i))
		copy(small[8*i+4:], "moov")
	}
	a, b := walk(small), walk(d)
	if b > 10*a {
		t.Known("C05-deep-nesting", fmt.Sprintf("walking boxes nested %d deep allocates %d bytes, nested %d deep %d bytes: the path handed to each handler is a copy", n/8, a, n, b))
	}
}
