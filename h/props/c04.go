package props

import (
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
)

// The bound on reader operations: every byte is read once per pass with a handful of
// passes (a walk, an extraction, a decoding), plus some operations per box of eight bytes.
const (
	opsPerByte = 8
	opsBase    = 1000
)

func init() {
	register(&core.Check{
		ID: "C04", Quick: 60000, Thorough: 3000000,
		Rule: "hostile payloads of every type and context, hostile files (damaged generated forests and movies, random bytes, nesting, long lists of tiny boxes, truncated " +
			"and damaged sample files) given to every reading entry point behind a reader that counts operations and aborts the case beyond " +
			fmt.Sprintf("%d per input byte + %d", opsPerByte, opsBase) + "; and to the commands of mp4tool as processes; non-trivial: distinct inputs",
		Assumptions: []string{"inputs of at most 64 KiB; a call that makes no reader operations but does not return within 90 s also counts as not ending",
			"inputs that declare more than 65536 samples for which no byte is present are left out: they are recorded findings of C05"},
		Need:  []string{"payloads", "files", "decoded boxes rendered", "operations ended with a result", "operations ended with an error", "command runs", "IDR searches over probed tracks"},
		Case:  c04,
		Fixed: []func(t *core.T){c04samples, c04deep, c04wide, c04longNAL},
	})
}

func c04(t *core.T) {
	switch {
	case t.Idx%100 == 99:
		f, m := c04file(t, true)
		c04tool(t, f, m)
	case t.Idx%2 == 0:
		c04payload(t)
	default:
		d, p := c04file(t, false)
		if hugeTrun(d) || p.Box != nil && p.Box.Type == bt("trun") && hugeTrunAt(d, p.Box) {
			t.Count("skipped: samples without bytes", 1)
			return
		}
		c04ops(t, d, p)
	}
}

func c04payload(t *core.T) {
	r := t.R
	tc := allTypes[(t.Idx/2)%len(allTypes)]
	_, g := genFor(r, tc)
	p := g.Data
	switch r.IntN(6) {
	case 0:
		p = randBytes(r, r.IntN(64))
		if len(p) > 4 && r.IntN(2) == 0 { // a plausible version and flags
			binary.BigEndian.PutUint32(p, uint32(r.IntN(3))<<24|r.Uint32()>>uint(8+r.IntN(24)))
		}
	default:
		for k := 1 + r.IntN(4); k > 0; k-- {
			p = mutate(r, p, g.Marks)
		}
	}
	ctx := tc.Ctx
	if r.IntN(8) == 0 {
		ctx = randCtx(r)
	}
	data, off := stream(r, p)
	if tc.Type == bt("trun") && hugeTrunAt(data, &mp4.BoxInfo{Offset: uint64(off)}) {
		t.Count("skipped: samples without bytes", 1)
		return
	}
	t.Count("payloads", 1)
	t.Distinct(tc.Type[:], p)
	t.Attach("payload", p)
	t.Trace(typeStr(tc.Type)+ctxStr(ctx), p)
	size := uint64(len(p))
	switch r.IntN(12) {
	case 0: // the declared size is not what is there
		size = []uint64{0, 1, size + 1, size + 1000, 1 << 31, 1<<32 - 8, 1 << 33, 1<<61 - 1, 1 << 61, 1<<63 - 16, 1 << 63, ^uint64(0)}[r.IntN(12)]
	}
	t.Guard(fmt.Sprintf("%s in %s, %d bytes", typeStr(tc.Type), ctxStr(ctx), size), func() {
		rd := rw.NewReader(data)
		rd.MaxOps = opsPerByte*len(data) + opsBase
		d := unmarshalAt(rd, off, tc.Type, size, ctx)
		if d.err != nil {
			t.Count("operations ended with an error", 1)
			return
		}
		t.Count("operations ended with a result", 1)
		for _, ind := range []string{"", " "} {
			s, err := mp4.StringifyWithIndent(d.box, ind, ctx)
			if err == nil {
				t.Max("rendered text, bytes", int64(len(s)))
				t.Count("decoded boxes rendered", 1)
			}
		}
	})
}

// c04file draws a hostile file.
func c04file(t *core.T, tool bool) ([]byte, *opParams) {
	r := t.R
	f, m := randFile(r)
	if tool && r.IntN(2) == 0 {
		m = gen.RandomMovie(r, gen.MovieOptions{Fragmented: true, Progressive: r.IntN(2) == 0, Divide: true})
		f = m.File
	}
	whole := 4
	if r.IntN(4) == 0 || tool && r.IntN(2) == 0 {
		f.Restructure(r)
		whole = 8
	}
	p := paramsFor(r, f, m)
	d := f.Data
	switch k := r.IntN(12); {
	case k == 0:
		d = randBytes(r, r.IntN(200))
		for i := 0; i+8 <= len(d); i += 8 + r.IntN(20) { // something like headers
			binary.BigEndian.PutUint32(d[i:], uint32(r.IntN(40)))
			tc := allTypes[r.IntN(len(allTypes))]
			copy(d[i+4:], tc.Type[:])
		}
	case k < whole: // as it is
	default:
		d = mutateFile(r, f)
	}
	if len(d) > 1<<16 {
		d = d[:1<<16]
	}
	if p.Box != nil && r.IntN(3) == 0 { // a header record of the caller's own
		b := *p.Box
		switch r.IntN(5) {
		case 0:
			b.Offset = r.Uint64() >> uint(1+r.IntN(63))
		case 1:
			b.Size = b.HeaderSize + r.Uint64()>>uint(2+r.IntN(60))
		case 2:
			b.Type = allTypes[r.IntN(len(allTypes))].Type
		case 3:
			b.Context = randCtx(r)
		case 4:
			b.Size = b.HeaderSize
		}
		if b.Size < 1<<62 && b.Offset < 1<<62 && b.Size >= b.HeaderSize {
			p.Box = &b
		}
	}
	if p.Track == nil && r.IntN(3) == 0 || r.IntN(6) == 0 {
		p.Track = c04track(t, len(d))
	}
	p.NoProbe = hugeStts(d)
	return d, p
}

// c04track is a description of samples that has nothing to do with the file.
func c04track(t *core.T, n int) *mp4.Track {
	r := t.R
	tr := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16([]int{1, 2, 3, 4, 4, 4}[r.IntN(6)])}}
	for k := r.IntN(6); k > 0; k-- {
		c := &mp4.Chunk{DataOffset: uint64(r.IntN(n + 10)), SamplesPerChunk: uint32(r.IntN(5))}
		switch r.IntN(8) {
		case 0:
			c.DataOffset = r.Uint64()
		case 1:
			c.SamplesPerChunk = r.Uint32()
		}
		tr.Chunks = append(tr.Chunks, c)
	}
	for k := r.IntN(10); k > 0; k-- {
		s := &mp4.Sample{Size: uint32(r.IntN(60)), TimeDelta: r.Uint32() >> uint(r.IntN(32)), CompositionTimeOffset: int64(r.Uint64())}
		if r.IntN(8) == 0 {
			s.Size = r.Uint32()
		}
		tr.Samples = append(tr.Samples, s)
	}
	return tr
}

func trackBytes(tr *mp4.Track) int {
	var n uint64
	for _, s := range tr.Samples {
		n += min(uint64(s.Size), 1<<20) + 4
	}
	return int(min(n, 1<<24))
}

func c04ops(t *core.T, d []byte, p *opParams) {
	t.Count("files", 1)
	t.Distinct(d)
	if t.Idx < 60 {
		t.Sample("file of %d bytes to every entry point: %x", len(d), d[:min(len(d), 200)])
	}
	t.Attach("file", d)
	t.Trace("file", d)
	for _, op := range readOps {
		rd := rw.NewReader(d)
		rd.MaxOps = opsPerByte*len(d) + opsBase
		if op.name == "FindIDRFrames" && p.Track != nil {
			rd.MaxOps = 4*min(trackBytes(p.Track), len(p.Track.Samples)*(len(d)+8)) + opsBase
		}
		t.Guard(op.name, func() {
			_, err := op.run(rd, p)
			if err != nil {
				t.Count("operations ended with an error", 1)
			} else {
				t.Count("operations ended with a result", 1)
			}
		})
		t.Max("reader operations per 1000 bytes (files over 1000 bytes)", func() int64 {
			if len(d) < 1000 || op.name == "FindIDRFrames" {
				return 0
			}
			return int64(rd.Ops) * 1000 / int64(len(d))
		}())
		t.Eval(1)
	}
	if !p.NoProbe { // what probing finds is given to the IDR search and the bit rates
		t.Guard("probe, search and bit rates", func() {
			info, err := mp4.Probe(rw.NewReader(d))
			if err != nil {
				return
			}
			probeRates(newFP(), info, func(tr *mp4.Track) error {
				if tr.AVC == nil {
					return nil
				}
				rd := rw.NewReader(d)
				rd.MaxOps = 4*min(trackBytes(tr), len(tr.Samples)*(len(d)+8)) + opsBase
				mp4.FindIDRFrames(rd, tr)
				t.Count("IDR searches over probed tracks", 1)
				return nil
			})
		})
	}
}

// c04tool gives the file to the commands.
func c04tool(t *core.T, d []byte, p *opParams) {
	if hugeTrun(d) {
		t.Count("skipped: samples without bytes", 1)
		return
	}
	t.Attach("file", d)
	t.Trace("file for mp4tool", d)
	t.Distinct([]byte("tool"), d)
	path := scratchFile(t, d)
	defer os.Remove(path)
	out, dir := scratchName(t, "out"), scratchName(t, "div")
	defer os.Remove(out)
	defer os.RemoveAll(dir)
	cmds := [][]string{
		{"dump", path}, {"dump", "-a", "-offset", path}, {"dump", "-full", "mdat,free,skip,trun,moov,xxxx", "-hex", path},
		{"psshdump", path}, {"extract", "trak", path}, {"extract", "free", path},
		{"alpha", "edit", path, out}, {"alpha", "edit", "-drop", "mdat,free", "-base_media_decode_time", "123", path, out},
	}
	if !p.NoProbe {
		cmds = append(cmds, []string{"probe", path}, []string{"probe", "-format", "yaml", path})
	}
	cmds = append(cmds, []string{"alpha", "divide", path, dir})
	for _, c := range cmds {
		res := runTool(c...)
		t.Count("command runs", 1)
		t.Eval(1)
		name := strings.Join(c[:len(c)-1], " ")
		if res.timeout {
			t.Failf("mp4tool "+c[0]+" does not end", "mp4tool %s did not end within 40 s on %d bytes", name, len(d))
		} else if s := res.crash(); s != "" {
			if len(s) > 1500 {
				s = s[:1500]
			}
			t.Failf("mp4tool "+c[0]+" crashes", "mp4tool %s: %s", name, s)
		}
	}
}

// payloadAt is where the payload of a box begins whose type is at i.
func payloadAt(d []byte, i int) []int {
	if i >= 4 && binary.BigEndian.Uint32(d[i-4:]) == 1 {
		return []int{i + 12}
	}
	return []int{i + 4}
}

func hugeTrun(d []byte) bool { return moreTrun(d, 1<<16) }

// moreTrun reports a trun box that declares more than limit samples without any per-sample field.
func moreTrun(d []byte, limit uint32) bool {
	for i := 0; i+12 <= len(d); i++ {
		if d[i] != 't' || string(d[i:i+4]) != "trun" {
			continue
		}
		for _, o := range payloadAt(d, i) {
			if o+8 <= len(d) && binary.BigEndian.Uint32(d[o:])&0xf00 == 0 && binary.BigEndian.Uint32(d[o+4:]) > limit {
				return true
			}
		}
	}
	return false
}

func hugeTrunAt(d []byte, b *mp4.BoxInfo) bool { return moreTrunAt(d, b, 1<<16) }

func moreTrunAt(d []byte, b *mp4.BoxInfo, limit uint32) bool {
	o := b.Offset + b.HeaderSize
	return o+8 <= uint64(len(d)) && binary.BigEndian.Uint32(d[o:])&0xf00 == 0 && binary.BigEndian.Uint32(d[o+4:]) > limit
}

func hugeStts(d []byte) bool { return moreStts(d, 1<<16) }

// moreStts reports an stts box that declares more than limit samples.
func moreStts(d []byte, limit uint64) bool {
	for i := 0; i+12 <= len(d); i++ {
		if d[i] != 's' || string(d[i:i+4]) != "stts" {
			continue
		}
		for _, o := range payloadAt(d, i) {
			if o+8 > len(d) {
				continue
			}
			n := uint64(binary.BigEndian.Uint32(d[o+4:]))
			var sum uint64
			for k := o + 8; n > 0 && k+8 <= len(d); k += 8 {
				sum += uint64(binary.BigEndian.Uint32(d[k:]))
				n--
			}
			if sum > limit {
				return true
			}
		}
	}
	return false
}

// c04samples damages the sample files.
func c04samples(t *core.T) {
	r := t.R
	n := 40
	if t.Tier == "thorough" {
		n = 2000
	}
	for name, b := range sampleFiles() {
		for k := 0; k < n; k++ {
			d := append([]byte{}, b...)
			if k%2 == 0 {
				d = d[:r.IntN(len(d))]
			}
			for m := r.IntN(4); m > 0; m-- {
				// favour the structure: boxes lie in the first and last kilobytes
				i := r.IntN(len(d) + 1)
				if r.IntN(2) == 0 {
					i = max(0, len(d)-r.IntN(2000))
				}
				if i+4 <= len(d) {
					if r.IntN(2) == 0 {
						d[i] ^= 1 << uint(r.IntN(8))
					} else {
						binary.BigEndian.PutUint32(d[i:], uint32(words[r.IntN(len(words))]))
					}
				}
			}
			if hugeTrun(d) || hugeStts(d) {
				continue
			}
			t.AttachStr("sample", name)
			t.Distinct(d)
			for _, op := range readOps {
				rd := rw.NewReader(d)
				rd.MaxOps = opsPerByte*len(d) + opsBase
				t.Guard(op.name, func() {
					op.run(rd, &opParams{Paths: []mp4.BoxPath{{mp4.BoxTypeAny(), mp4.BoxTypeAny(), mp4.BoxTypeAny()}}, Indent: " "})
				})
				t.Eval(1)
			}
		}
	}
}

// c04deep nests boxes as deep as the input allows.
func c04deep(t *core.T) {
	for _, typ := range []string{"moov", "udta", "ilst", "wave", "meta", "stsd"} {
		def := spec.Lookup(bt(typ), mp4.Context{})
		if def == nil {
			def = spec.Lookup(bt(typ), mp4.Context{IsQuickTimeCompatible: true, UnderWave: true})
		}
		head := 8
		if typ == "meta" {
			head = 12
		} else if typ == "stsd" {
			head = 16
		}
		n := 32768 / head
		d := make([]byte, n*head)
		for i := 0; i < n; i++ {
			binary.BigEndian.PutUint32(d[i*head:], uint32(len(d)-i*head))
			copy(d[i*head+4:], typ)
		}
		t.Count("nesting depth tried", n)
		c04bounded(t, d, "nested "+typ)
	}
}

func c04bounded(t *core.T, d []byte, what string) {
	t.Distinct([]byte(what))
	p := &opParams{Paths: []mp4.BoxPath{{bt(string(d[4:8])), mp4.BoxTypeAny(), mp4.BoxTypeAny()}}, Indent: " "}
	for _, op := range readOps {
		rd := rw.NewReader(d)
		rd.MaxOps = opsPerByte*len(d) + opsBase
		t.AttachStr("input", what+", "+fmt.Sprint(len(d))+" bytes")
		t.Guard(op.name+" on "+what, func() { op.run(rd, p) })
		t.Eval(1)
	}
}

// c04wide has very many tiny boxes or list elements.
func c04wide(t *core.T) {
	for _, typ := range []string{"free", "moov", "keys", "\x00\x00\x00\x01", "zzzz", "ftyp"} {
		d := make([]byte, 64<<10)
		for i := 0; i+8 <= len(d); i += 8 {
			binary.BigEndian.PutUint32(d[i:], 8)
			copy(d[i+4:], typ)
		}
		c04bounded(t, d, "many "+typ)
		in := append([]byte{0, 1, 0, 8, 'm', 'o', 'o', 'v'}, d...)
		c04bounded(t, in, "many "+typ+" in moov")
	}
	for _, typ := range []string{"stts", "stsz", "ctts", "sgpd", "elst", "subs", "saiz", "saio", "trun", "stsc", "tfra", "senc", "sbgp", "sdtp", "avcC", "keys", "esds", "pssh"} {
		for _, c := range []uint32{0xffffffff, 0x7fffffff, 0x40000000, 12000} {
			p := make([]byte, 48<<10)
			for i := 0; i+4 <= len(p) && i < 20; i += 4 {
				binary.BigEndian.PutUint32(p[i:], c)
			}
			binary.BigEndian.PutUint32(p[0:], 0x00000f00)
			if typ == "stsc" || typ == "stts" || typ == "elst" {
				binary.BigEndian.PutUint32(p[0:], 0)
			}
			h := make([]byte, 8)
			binary.BigEndian.PutUint32(h, uint32(8+len(p)))
			copy(h[4:], typ)
			d := append(h, p...)
			if hugeTrun(d) {
				continue
			}
			c04bounded(t, d, fmt.Sprintf("%s with counts %d", typ, c))
		}
	}
}

// c04longNAL has a sample of many tiny NAL units and chunks that overlap.
func c04longNAL(t *core.T) {
	for _, ls := range []uint16{1, 2, 4} {
		d := make([]byte, 40000)
		tr := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: ls}}
		for i := 0; i < 4; i++ {
			tr.Chunks = append(tr.Chunks, &mp4.Chunk{DataOffset: uint64(i), SamplesPerChunk: 1})
			tr.Samples = append(tr.Samples, &mp4.Sample{Size: uint32(len(d) - i)})
		}
		rd := rw.NewReader(d)
		rd.MaxOps = 2*4*len(d)/int(ls) + opsBase
		t.Distinct([]byte{byte(ls)})
		t.Guard("FindIDRFrames on zero-length NAL units", func() { mp4.FindIDRFrames(rd, tr) })
		t.Count("files", 1)
	}
}
