package props

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"

	mp4 "github.com/abema/go-mp4"

	"verif/gen"
	"verif/rw"
	"verif/tree"
)

// readOp is one reading entry point of the library, run over a whole file. It returns
// everything the caller could observe.
type readOp struct {
	name string
	run  func(r io.ReadSeeker, p *opParams) (string, error)
}

// opParams are the further arguments of the operations.
type opParams struct {
	Paths  []mp4.BoxPath
	Box    *mp4.BoxInfo // a box of the file, may be nil
	Track  *mp4.Track   // for IDR search, may be nil
	Indent string
	NoProbe,
	NoPayload bool
}

type fp struct {
	h hash64
	n int
}

type hash64 interface {
	io.Writer
	Sum64() uint64
}

func newFP() *fp { return &fp{h: fnv.New64a()} }

func (f *fp) add(format string, a ...any) {
	fmt.Fprintf(f.h, format, a...)
	f.h.Write([]byte{0})
	f.n++
}

func (f *fp) String() string { return fmt.Sprintf("%d events, %016x", f.n, f.h.Sum64()) }

func infoStr(bi *mp4.BoxInfo) string {
	return fmt.Sprintf("%x@%d+%d/%d eof=%v %s", bi.Type[:], bi.Offset, bi.Size, bi.HeaderSize, bi.ExtendToEOF, ctxStr(bi.Context))
}

func walkHandler(f *fp, payload bool, p *opParams) mp4.ReadHandler {
	return func(h *mp4.ReadHandle) (interface{}, error) {
		f.add("%v %s", h.Path, infoStr(&h.BoxInfo))
		if !h.BoxInfo.IsSupportedType() {
			if payload {
				hh := fnv.New64a()
				n, err := h.ReadData(hh)
				f.add("data %d %x", n, hh.Sum64())
				if err != nil {
					return nil, err
				}
			}
			return nil, nil
		}
		if payload {
			box, n, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			f.add("%d %s", n, tree.Dump(box))
			for _, ind := range []string{"", p.Indent} {
				s, err := mp4.StringifyWithIndent(box, ind, h.BoxInfo.Context)
				if err != nil {
					return nil, err
				}
				f.add("%s", s)
			}
		}
		v, err := h.Expand()
		f.add("%d", len(v))
		return len(v), err
	}
}

func probeRates(f *fp, info *mp4.ProbeInfo, each func(tr *mp4.Track) error) error {
	for _, tr := range info.Tracks {
		f.add("%d %d %d", tr.Samples.GetBitrate(tr.Timescale), tr.Samples.GetMaxBitrate(tr.Timescale, uint64(tr.Timescale)),
			tr.Samples.GetMaxBitrate(tr.Timescale, 1))
		f.add("%d %d", info.Segments.GetBitrate(tr.TrackID, tr.Timescale), info.Segments.GetMaxBitrate(tr.TrackID, tr.Timescale))
		if err := each(tr); err != nil {
			return err
		}
	}
	return nil
}

var readOps = []readOp{
	{"ReadBoxStructure", func(r io.ReadSeeker, p *opParams) (string, error) {
		f := newFP()
		v, err := mp4.ReadBoxStructure(r, walkHandler(f, false, p), "a", 1)
		f.add("%v", v)
		return f.String(), err
	}},
	{"ReadBoxStructure with payloads", func(r io.ReadSeeker, p *opParams) (string, error) {
		f := newFP()
		v, err := mp4.ReadBoxStructure(r, walkHandler(f, true, p))
		f.add("%v", v)
		return f.String(), err
	}},
	{"ReadBoxStructureFromInternal", func(r io.ReadSeeker, p *opParams) (string, error) {
		if p.Box == nil {
			return "", nil
		}
		f := newFP()
		v, err := mp4.ReadBoxStructureFromInternal(r, p.Box, walkHandler(f, true, p))
		f.add("%v", v)
		return f.String(), err
	}},
	{"ExtractBoxes", func(r io.ReadSeeker, p *opParams) (string, error) {
		f := newFP()
		bis, err := mp4.ExtractBoxes(r, p.Box, p.Paths)
		for _, bi := range bis {
			f.add("%s", infoStr(bi))
		}
		return f.String(), err
	}},
	{"ExtractBoxesWithPayload", func(r io.ReadSeeker, p *opParams) (string, error) {
		f := newFP()
		bs, err := mp4.ExtractBoxesWithPayload(r, p.Box, p.Paths)
		for _, b := range bs {
			f.add("%s %s", infoStr(&b.Info), tree.Dump(b.Payload))
		}
		return f.String(), err
	}},
	{"Probe", func(r io.ReadSeeker, p *opParams) (string, error) {
		if p.NoProbe {
			return "", nil
		}
		f := newFP()
		info, err := mp4.Probe(r)
		if err != nil {
			return "", err
		}
		f.add("%s", tree.Dump(info))
		probeRates(f, info, func(*mp4.Track) error { return nil })
		return f.String(), nil
	}},
	{"FindIDRFrames", func(r io.ReadSeeker, p *opParams) (string, error) {
		if p.Track == nil {
			return "", nil
		}
		l, err := mp4.FindIDRFrames(r, p.Track)
		return fmt.Sprint(l), err
	}},
	{"ReadBoxInfo", func(r io.ReadSeeker, p *opParams) (string, error) {
		f := newFP()
		if _, err := r.Seek(0, io.SeekStart); err != nil {
			return "", err
		}
		for i := 0; i < 64; i++ {
			bi, err := mp4.ReadBoxInfo(r)
			if err == io.EOF {
				return f.String(), nil
			}
			if err != nil {
				return f.String(), err
			}
			pos, err := r.Seek(0, io.SeekCurrent)
			if err != nil {
				return f.String(), err
			}
			f.add("%s at %d", infoStr(bi), pos)
			if _, err := bi.SeekToEnd(r); err != nil {
				return f.String(), err
			}
		}
		return f.String(), nil
	}},
	{"UnmarshalAny", func(r io.ReadSeeker, p *opParams) (string, error) {
		if p.Box == nil || !p.Box.IsSupportedType() {
			return "", nil
		}
		if _, err := p.Box.SeekToPayload(r); err != nil {
			return "", err
		}
		b, n, err := mp4.UnmarshalAny(r, p.Box.Type, p.Box.Size-p.Box.HeaderSize, p.Box.Context)
		if err != nil {
			return "", err
		}
		pos, err := r.Seek(0, io.SeekCurrent)
		return fmt.Sprintf("%s n=%d pos=%d", tree.Dump(b), n, pos), err
	}},
	{"CopyBox and re-encoding", func(r io.ReadSeeker, p *opParams) (string, error) {
		ws := &rw.WriteSeeker{}
		var n int
		err := copyFile(r, ws, &n)
		return fmt.Sprintf("%d %x", len(ws.Data), fnvSum(ws.Data)), err
	}},
}

func fnvSum(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// randPaths draws paths, mostly ones that occur in the file.
func randPaths(r *rand.Rand, all []*gen.Box, parent *gen.Box) []mp4.BoxPath {
	var out []mp4.BoxPath
	n := 1 + r.IntN(4)
	if r.IntN(60) == 0 {
		n = 5 + r.IntN(80)
	}
	for ; n > 0; n-- {
		var p mp4.BoxPath
		if len(all) > 0 && r.IntN(8) > 0 {
			b := all[r.IntN(len(all))]
			if parent != nil && r.IntN(4) > 0 { // favour boxes below the parent
				var in []*gen.Box
				for _, x := range all {
					if x != parent && x.Offset > parent.Offset && x.End() <= parent.End() {
						in = append(in, x)
					}
				}
				if len(in) > 0 {
					b = in[r.IntN(len(in))]
				}
			}
			p = append(p, b.Path()...)
			if parent != nil {
				pp := len(parent.Path())
				if len(p) > pp {
					p = p[pp:]
				}
			}
		} else {
			for k := 1 + r.IntN(3); k > 0; k-- {
				p = append(p, bt([]string{"moov", "trak", "mdia", "free", "meta", "ilst", "udta", "zzzz"}[r.IntN(8)]))
			}
		}
		p = append(mp4.BoxPath{}, p...)
		for i := range p {
			if r.IntN(6) == 0 {
				p[i] = mp4.BoxTypeAny()
			}
		}
		switch r.IntN(10) {
		case 0:
			p = append(p, mp4.BoxTypeAny())
		case 1:
			if len(p) > 1 {
				p = p[:len(p)-1]
			}
		}
		out = append(out, p)
		if r.IntN(6) == 0 {
			out = append(out, append(mp4.BoxPath{}, p...))
		}
	}
	return out
}

// infoOf is the library's record of a generated box, as a walk hands it out.
func infoOf(b *gen.Box) *mp4.BoxInfo {
	return &mp4.BoxInfo{Offset: b.Offset, Size: b.Size, HeaderSize: b.Header, Type: b.Type, ExtendToEOF: b.Form == 2, Context: b.Ctx}
}

// paramsFor draws the arguments of the operations for a generated file.
func paramsFor(r *rand.Rand, f *gen.File, m *gen.Movie) *opParams {
	p := &opParams{Indent: []string{"", " ", "  ", "\t"}[r.IntN(4)]}
	all := f.All()
	var parent *gen.Box
	if len(all) > 0 && r.IntN(2) == 0 {
		parent = all[r.IntN(len(all))]
		p.Box = infoOf(parent)
	}
	p.Paths = randPaths(r, all, parent)
	if m != nil {
		for _, t := range m.Tracks {
			if t.Expect.AVC != nil {
				p.Track = t.Expect
			}
		}
	}
	return p
}

// randFile draws a random forest or a movie.
func randFile(r *rand.Rand) (*gen.File, *gen.Movie) {
	switch r.IntN(3) {
	case 0:
		m := gen.RandomMovie(r, gen.MovieOptions{Progressive: r.IntN(4) > 0, Fragmented: r.IntN(3) == 0, Small: true})
		return m.File, m
	}
	return gen.Random(r, gen.Default(r)), nil
}

// mutateFile damages a file.
func mutateFile(r *rand.Rand, f *gen.File) []byte {
	d := append([]byte{}, f.Data...)
	all := f.All()
	for k := 1 + r.IntN(3); k > 0; k-- {
		if len(d) < 8 {
			return d
		}
		switch r.IntN(8) {
		case 0, 1, 2: // the size of a box
			if len(all) == 0 {
				continue
			}
			b := all[r.IntN(len(all))]
			if int(b.Offset)+16 > len(d) {
				continue
			}
			v := uint32(b.Size)
			switch r.IntN(7) {
			case 0:
				v += uint32(r.IntN(40))
			case 1:
				v -= uint32(r.IntN(20))
			case 2:
				v = uint32(r.IntN(18))
			case 3:
				v = r.Uint32()
			case 4:
				v = 0
			case 5:
				v = 1
				if r.IntN(2) == 0 {
					binary.BigEndian.PutUint64(d[b.Offset+8:], r.Uint64()>>uint(r.IntN(64)))
				}
			case 6:
				v = 0xffffffff
			}
			binary.BigEndian.PutUint32(d[b.Offset:], v)
		case 3: // a type
			if len(all) == 0 {
				continue
			}
			b := all[r.IntN(len(all))]
			if int(b.Offset)+8 > len(d) {
				continue
			}
			tc := allTypes[r.IntN(len(allTypes))]
			copy(d[b.Offset+4:], tc.Type[:])
		case 4: // a payload
			if len(all) == 0 {
				continue
			}
			b := all[r.IntN(len(all))]
			if int(b.End()) > len(d) || len(b.Fields) == 0 {
				continue
			}
			o := int(b.Offset + b.Header)
			q := mutate(r, b.Fields, nil)
			copy(d[o:min(o+len(b.Fields), len(d))], q)
		case 5:
			d = d[:r.IntN(len(d))]
		case 6:
			d[r.IntN(len(d))] ^= byte(1 << uint(r.IntN(8)))
		case 7:
			i := r.IntN(len(d) - 3)
			binary.BigEndian.PutUint32(d[i:], uint32(words[r.IntN(len(words))]))
		}
	}
	return d
}
