// Package gen generates whole files: random forests of boxes and structured movies,
// each with a model of what every box is.
package gen

import (
	"bytes"
	"encoding/binary"
	"math/rand/v2"

	mp4 "github.com/abema/go-mp4"

	"verif/spec"
)

// Box is one box of a generated file.
type Box struct {
	Type    mp4.BoxType
	Ctx     mp4.Context // context the box must be interpreted in
	Def     *spec.Def   // nil: not supported in that context
	Tree    *spec.Node  // field values, if supported
	Fields  []byte      // bytes of its own fields (or its raw data if unsupported)
	Kids    []*Box
	Tail    []byte // bytes after the children that are no box (QuickTime only)
	Form    int    // 0: 32-bit size, 1: 64-bit size, 2: to end of file
	QTMeta  bool   // meta without version and flags
	Parent  *Box
	Offset  uint64
	Header  uint64
	Size    uint64
	Entries int    // keys: entry count
	Hole    uint64 // zeros in front of Fields that the file's data leaves out
}

// Path is the box's path from the root.
func (b *Box) Path() mp4.BoxPath {
	var p mp4.BoxPath
	for x := b; x != nil; x = x.Parent {
		p = append(mp4.BoxPath{x.Type}, p...)
	}
	return p
}

// End is the offset behind the box.
func (b *Box) End() uint64 { return b.Offset + b.Size }

// File is a generated file.
type File struct {
	Roots []*Box
	Data  []byte
	// HoleLen zeros at position HoleAt are left out of Data.
	HoleAt, HoleLen uint64
}

// Len is the length of the file.
func (f *File) Len() uint64 { return uint64(len(f.Data)) + f.HoleLen }

func (f *File) flat(off uint64) uint64 {
	if off > f.HoleAt {
		return off - min(f.HoleLen, off-f.HoleAt)
	}
	return off
}

// Punch makes one box, not interpreted by the library, so large that offsets behind it need 64 bits.
func (f *File) Punch(r *rand.Rand) *Box {
	b := &Box{Type: bt("huge"), Form: 1, Hole: 1<<32 - 40 + uint64(r.IntN(80)), Fields: randB(r, r.IntN(9))}
	if r.IntN(3) == 0 {
		b.Hole = uint64(r.IntN(1<<14)) << 32
	}
	i := 0
	var parents []*Box
	for _, x := range f.All() {
		if x.Def != nil && len(x.Kids) > 0 && !x.QTMeta {
			parents = append(parents, x)
		}
	}
	if len(parents) > 0 && r.IntN(2) == 0 {
		p := parents[r.IntN(len(parents))]
		i = r.IntN(len(p.Kids) + 1)
		b.Parent = p
		b.Ctx = ctxAt(p.Kids, i, false)
		p.Kids = append(p.Kids[:i:i], append([]*Box{b}, p.Kids[i:]...)...)
	} else {
		i = r.IntN(len(f.Roots) + 1)
		b.Ctx = ctxAt(f.Roots, i, true)
		f.Roots = append(f.Roots[:i:i], append([]*Box{b}, f.Roots[i:]...)...)
	}
	for _, x := range f.All() { // only the last boxes may extend to the end
		if x.Form == 2 {
			x.Form = 1
		}
	}
	f.Layout()
	return b
}

// All lists every box in file order.
func (f *File) All() []*Box {
	var out []*Box
	var rec func(bs []*Box)
	rec = func(bs []*Box) {
		for _, b := range bs {
			out = append(out, b)
			rec(b.Kids)
		}
	}
	rec(f.Roots)
	return out
}

// Payload is the bytes of a box behind its header.
func (f *File) Payload(b *Box) []byte {
	return f.Data[f.flat(b.Offset+b.Header):f.flat(b.Offset+b.Size)]
}

// Bytes is all bytes of a box.
func (f *File) Bytes(b *Box) []byte { return f.Data[f.flat(b.Offset):f.flat(b.Offset+b.Size)] }

// Options for random forests.
type Options struct {
	MaxBoxes  int
	MaxDepth  int
	MaxBytes  int
	MaxList   int
	LargeForm bool // allow 64-bit headers
	EOFForm   bool // allow a to-end-of-file header
	Tails     bool // allow leftovers under QuickTime
	QTMeta    bool // allow meta without version and flags
	NoUnknown bool
	NoMdat    bool
	Many      int // some boxes have up to this many children
}

// Default draws options.
func Default(r *rand.Rand) Options {
	o := Options{MaxBoxes: 1 + r.IntN(40), MaxDepth: 1 + r.IntN(7), MaxBytes: 16, MaxList: 3, LargeForm: r.IntN(3) == 0,
		EOFForm: r.IntN(4) == 0, Tails: true, QTMeta: true}
	if r.IntN(120) == 0 { // beyond what is usual
		switch r.IntN(5) {
		case 0:
			o.MaxBoxes = 100 + r.IntN(600)
			o.Many = 20 + r.IntN(300)
		case 1:
			o.MaxDepth, o.MaxBoxes = 8+r.IntN(32), 100
		case 2:
			o.MaxBytes, o.MaxBoxes = 200+r.IntN(9000), 1+r.IntN(10)
		case 3:
			o.MaxList, o.MaxBoxes = 10+r.IntN(400), 1+r.IntN(20)
		case 4:
			o.MaxBoxes, o.MaxDepth = 100+r.IntN(200), 8+r.IntN(8)
		}
	}
	return o
}

type builder struct {
	o    Options
	r    *rand.Rand
	left int
	deep bool // the next box goes on inwards
}

func bt(s string) mp4.BoxType { return mp4.BoxType{s[0], s[1], s[2], s[3]} }

var containers = []string{"moov", "trak", "mdia", "minf", "stbl", "dinf", "edts", "mvex", "moof", "traf", "mfra", "sinf", "schi",
	"udta", "meta", "ilst", "wave", "vttc", "stsd", "dref", "mp4a", "avc1", "enca", "trep", "stpp"}

// Random builds a random file.
func Random(r *rand.Rand, o Options) *File {
	b := &builder{o: o, r: r, left: o.MaxBoxes}
	f := &File{}
	ctx := mp4.Context{}
	if r.IntN(2) == 0 { // brands first, often QuickTime
		f.Roots = append(f.Roots, b.ftyp(ctx, r.IntN(3) != 0))
		b.left--
		after(f.Roots[0], &ctx, true)
	}
	f.Roots = append(f.Roots, b.level(&ctx, nil, 0, b.o.MaxBoxes)...)
	if o.EOFForm && len(f.Roots) > 0 {
		// a chain of last boxes may extend to the end of the file
		x := f.Roots[len(f.Roots)-1]
		for {
			if r.IntN(2) == 0 {
				x.Form = 2
			}
			if len(x.Kids) == 0 || len(x.Tail) > 0 || r.IntN(2) == 0 {
				break
			}
			if x.QTMeta && len(x.Kids) == 1 {
				break // a first child without a size would make it look like a full box
			}
			x = x.Kids[len(x.Kids)-1]
		}
	}
	f.Layout()
	return f
}

func (b *builder) ftyp(ctx mp4.Context, qt bool) *Box {
	x := &Box{Type: bt("ftyp"), Ctx: ctx}
	x.Def = spec.Lookup(x.Type, ctx)
	p := []byte("isom\x00\x00\x02\x00")
	n := b.r.IntN(4)
	for i := 0; i < n; i++ {
		p = append(p, []string{"isom", "mp41", "avc1", "qt2 ", "xqt ", "Qt  "}[b.r.IntN(6)]...)
	}
	if qt {
		i := 8 + 4*b.r.IntN(n+1)
		p = append(p[:i], append([]byte("qt  "), p[i:]...)...)
	} else if b.r.IntN(3) == 0 {
		copy(p, "qt  ") // as major brand only
	}
	m := spec.Decode(x.Def, x.Type, ctx, p)
	x.Tree, x.Fields = m.Root, p
	return x
}

// after updates the context of later siblings.
func after(x *Box, ctx *mp4.Context, root bool) {
	switch {
	case root && x.Type == bt("ftyp") && x.Def != nil && x.Tree != nil:
		if l := x.Tree.Kid("CompatibleBrands"); l != nil {
			for _, k := range l.Kids {
				if string(k.Kids[0].Raw) == "qt  " {
					ctx.IsQuickTimeCompatible = true
				}
			}
		}
	case x.Type == bt("keys"):
		ctx.QuickTimeKeysMetaEntryCount = x.Entries
	}
}

// ChildCtx is the context of the children of b.
func (b *Box) ChildCtx() mp4.Context { return inside(b) }

// inside is the context of the children of x.
func inside(x *Box) mp4.Context {
	c := x.Ctx
	switch {
	case x.Type == bt("wave"):
		c.UnderWave = true
	case x.Type == bt("ilst"):
		c.UnderIlst = true
	case c.UnderIlst && !c.UnderIlstMeta && spec.IsIlstItem(x.Type):
		c.UnderIlstMeta = true
		if x.Type == bt("----") {
			c.UnderIlstFreeMeta = true
		}
	case x.Type == bt("udta"):
		c.UnderUdta = true
	}
	if x.Type == bt("keys") { // entries declared here hold inside too
		c.QuickTimeKeysMetaEntryCount = x.Entries
	}
	return c
}

func (b *builder) level(ctx *mp4.Context, parent *Box, depth, max int) []*Box {
	var out []*Box
	n := b.r.IntN(7)
	if depth == 0 {
		n = 1 + b.r.IntN(9)
	}
	if b.o.Many > 0 && b.r.IntN(3) == 0 {
		n = b.r.IntN(b.o.Many + 1)
	}
	deep := -1
	if b.o.MaxDepth > 7 && n > 0 && parent != nil && b.r.IntN(4) > 0 {
		deep = b.r.IntN(n)
	}
	for i := 0; i < n && b.left > 0; i++ {
		b.left--
		b.deep = i == deep
		x := b.box(*ctx, parent, depth)
		out = append(out, x)
		after(x, ctx, depth == 0)
	}
	return out
}

func (b *builder) pick(ctx mp4.Context, parent *Box, depth int) mp4.BoxType {
	r := b.r
	if b.deep {
		return bt(containers[r.IntN(len(containers))])
	}
	var special []mp4.BoxType
	if parent != nil {
		switch string(parent.Type[:]) {
		case "udta":
			for _, s := range spec.Udta3GPP {
				special = append(special, bt(s))
			}
			special = append(special, bt("meta"), bt("meta"))
		case "meta":
			special = []mp4.BoxType{bt("hdlr"), bt("keys"), bt("keys"), bt("ilst"), bt("ilst")}
		case "ilst":
			for i := 0; i < 4; i++ {
				special = append(special, bt(spec.IlstItems[r.IntN(len(spec.IlstItems))]))
			}
			special = append(special, bt("----"), mp4.BoxType{0, 0, 0, byte(1 + r.IntN(4))}, mp4.BoxType{0, 0, 0, byte(1 + r.IntN(4))},
				mp4.BoxType{0, 0, byte(r.IntN(2)), byte(r.IntN(4))}, bt("data"))
		case "moov", "trak":
			special = []mp4.BoxType{bt("udta"), bt("trak"), bt("mdia"), bt("meta")}
		case "stsd":
			special = []mp4.BoxType{bt("mp4a"), bt("enca"), bt("avc1"), bt("wvtt"), bt("stpp")}
		case "mp4a", "enca":
			special = []mp4.BoxType{bt("wave"), bt("esds")}
		case "wave":
			special = []mp4.BoxType{bt("mp4a"), bt("enca"), bt("frma"), bt("esds"), mp4.BoxType{}}
		}
		if spec.IsIlstItem(parent.Type) && parent.Ctx.UnderIlst {
			special = []mp4.BoxType{bt("data"), bt("data"), bt("mean"), bt("name")}
		}
	}
	switch k := r.IntN(20); {
	case k < 8 && len(special) > 0:
		return special[r.IntN(len(special))]
	case k < 12 && depth < b.o.MaxDepth-1:
		return bt(containers[r.IntN(len(containers))])
	case k == 12 && !b.o.NoUnknown: // unsupported or position-dependent
		return []mp4.BoxType{bt("xxxx"), bt("data"), bt("mean"), bt("titl"), bt("cprt"), {0, 0, 0, 1}, {0, 0, 0, 0}, {0xff, 0xfe, 0, 1},
			bt("\xa9nam"), bt("trkn"), bt("uuid"), {0, 0, 1, 0}}[r.IntN(12)]
	case k == 13:
		return []mp4.BoxType{bt("ftyp"), bt("keys"), bt("free"), bt("mdat"), bt("skip")}[r.IntN(5)]
	default:
		ts := spec.PlainTypes()
		return bt(ts[r.IntN(len(ts))])
	}
}

func (b *builder) box(ctx mp4.Context, parent *Box, depth int) *Box {
	r := b.r
	t := b.pick(ctx, parent, depth)
	if b.o.NoMdat && t == bt("mdat") {
		t = bt("free")
	}
	x := &Box{Type: t, Ctx: ctx, Parent: parent}
	if t == bt("ftyp") {
		y := b.ftyp(ctx, r.IntN(2) == 0)
		y.Parent = parent
		if b.o.LargeForm && r.IntN(4) == 0 {
			y.Form = 1
		}
		return y
	}
	x.Def = spec.Lookup(t, ctx)
	if b.o.LargeForm && r.IntN(4) == 0 {
		x.Form = 1
	}
	if x.Def == nil {
		if b.o.NoUnknown {
			x.Type = bt("free")
			x.Def = spec.Lookup(x.Type, ctx)
		} else {
			x.Fields = make([]byte, r.IntN(b.o.MaxBytes+1))
			for i := range x.Fields {
				x.Fields[i] = byte(r.Uint32())
			}
			return x
		}
	}
	g := spec.Gen(x.Def, x.Type, ctx, r, b.o.MaxList, b.o.MaxBytes)
	// take the values that the bytes determine
	m := spec.Decode(x.Def, x.Type, ctx, g.Data)
	if m.Err != nil || m.N != len(g.Data) {
		// a form whose outcome the model leaves open: use a plain box instead
		x.Type = bt("free")
		x.Def = spec.Lookup(x.Type, ctx)
		g = spec.Gen(x.Def, x.Type, ctx, r, 2, 8)
		m = spec.Decode(x.Def, x.Type, ctx, g.Data)
	}
	x.Tree, x.Fields = m.Root, g.Data
	if x.Type == bt("keys") {
		x.Entries = int(m.Root.Kid("EntryCount").I)
	}
	if x.Def.Container && !m.Rest && depth < b.o.MaxDepth-1 {
		c := inside(x)
		x.Kids = b.level(&c, x, depth+1, 0)
		if x.Type == bt("meta") && b.o.QTMeta && len(x.Kids) > 0 && r.IntN(3) == 0 {
			x.QTMeta = true
			x.Fields = nil
		}
		if b.o.Tails && c.IsQuickTimeCompatible && r.IntN(4) == 0 && !(x.Type == bt("meta")) {
			x.Tail = make([]byte, r.IntN(8))
			for i := range x.Tail {
				x.Tail[i] = byte(r.Uint32()) * byte(r.IntN(2))
			}
		}
	}
	return x
}

func ctxAt(bs []*Box, i int, root bool) mp4.Context {
	if len(bs) == 0 {
		return mp4.Context{}
	}
	if i == 0 {
		return bs[0].Ctx
	}
	c := bs[i-1].Ctx
	after(bs[i-1], &c, root)
	return c
}

// Layout computes offsets and sizes and writes the file.
func (f *File) Layout() {
	var buf bytes.Buffer
	var eof []*Box
	f.HoleAt, f.HoleLen = 0, 0
	for _, x := range f.All() {
		if x.Hole > 0 {
			for p := x; p != nil; p = p.Parent {
				if p.Form == 0 {
					p.Form = 1
				}
			}
		}
	}
	at := func() uint64 { return uint64(buf.Len()) + f.HoleLen }
	var rec func(x *Box)
	rec = func(x *Box) {
		x.Offset = at()
		start := buf.Len()
		x.Header = 8
		if x.Form == 1 {
			x.Header = 16
		}
		buf.Write(make([]byte, x.Header))
		if x.Hole > 0 {
			f.HoleAt, f.HoleLen = at(), x.Hole
		}
		buf.Write(x.Fields)
		for _, k := range x.Kids {
			k.Parent = x
			rec(k)
		}
		buf.Write(x.Tail)
		x.Size = at() - x.Offset
		h := buf.Bytes()[start:]
		copy(h[4:8], x.Type[:])
		switch x.Form {
		case 0:
			binary.BigEndian.PutUint32(h, uint32(x.Size))
		case 1:
			binary.BigEndian.PutUint32(h, 1)
			binary.BigEndian.PutUint64(h[8:], x.Size)
		case 2:
			eof = append(eof, x)
		}
	}
	for _, x := range f.Roots {
		rec(x)
	}
	f.Data = buf.Bytes()
	for _, x := range eof {
		x.Size = f.Len() - x.Offset
	}
}

// Raw is the bytes of a box with the given payload.
func Raw(t mp4.BoxType, payload []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(8+len(payload)))
	return append(append(b, t[:]...), payload...)
}

// Leaf makes a box with raw field bytes.
func Leaf(t string, fields []byte) *Box { return &Box{Type: bt(t), Fields: fields} }

// Cont makes a container.
func Cont(t string, kids ...*Box) *Box { return &Box{Type: bt(t), Kids: kids} }

// Resolve fills in contexts and definitions of a hand-built file.
func (f *File) Resolve() {
	var level func(bs []*Box, ctx mp4.Context, root bool)
	level = func(bs []*Box, ctx mp4.Context, root bool) {
		for _, x := range bs {
			x.Ctx = ctx
			x.Def = spec.Lookup(x.Type, ctx)
			if x.Def != nil {
				m := spec.Decode(x.Def, x.Type, ctx, x.Fields)
				if m.Err == nil {
					x.Tree = m.Root
					if x.Type == bt("keys") {
						x.Entries = int(m.Root.Kid("EntryCount").I)
					}
				}
			}
			after(x, &ctx, root)
			level(x.Kids, inside(x), false)
		}
	}
	level(f.Roots, mp4.Context{}, true)
}

// Restructure deletes, duplicates, moves or retypes boxes, keeping all sizes right.
// The models of the boxes no longer hold afterwards.
func (f *File) Restructure(r *rand.Rand) {
	for k := 1 + r.IntN(3); k > 0; k-- {
		all := f.All()
		if len(all) == 0 {
			return
		}
		b := all[r.IntN(len(all))]
		list := func(p *Box) *[]*Box {
			if p == nil {
				return &f.Roots
			}
			return &p.Kids
		}
		l := list(b.Parent)
		i := -1
		for j, x := range *l {
			if x == b {
				i = j
			}
		}
		if i < 0 {
			continue
		}
		switch r.IntN(6) {
		case 0:
			*l = append((*l)[:i:i], (*l)[i+1:]...)
		case 1:
			*l = append((*l)[:i+1:i+1], (*l)[i:]...)
		case 2: // into another box or to the root
			*l = append((*l)[:i:i], (*l)[i+1:]...)
			var to *Box
			if r.IntN(3) > 0 {
				to = all[r.IntN(len(all))]
				if r.IntN(2) == 0 && len(f.Roots) > 0 {
					to = f.Roots[r.IntN(len(f.Roots))]
				}
			}
			for p := to; p != nil; p = p.Parent {
				if p == b {
					to = nil
					break
				}
			}
			t := list(to)
			j := r.IntN(len(*t) + 1)
			*t = append((*t)[:j:j], append([]*Box{b}, (*t)[j:]...)...)
			b.Parent = to
		case 3:
			b.Type = all[r.IntN(len(all))].Type
		case 4:
			ts := spec.PlainTypes()
			b.Type = bt(ts[r.IntN(len(ts))])
		case 5: // a copy elsewhere
			c := *b
			c.Kids = nil
			j := r.IntN(len(f.Roots) + 1)
			f.Roots = append(f.Roots[:j:j], append([]*Box{&c}, f.Roots[j:]...)...)
		}
	}
	f.Layout()
}
