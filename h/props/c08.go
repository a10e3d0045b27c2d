package props

import (
	"bytes"
	"encoding/binary"
	"math/rand/v2"
	"slices"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C08", Quick: 40000, Thorough: 3000000,
		Rule: "random forests, with brands, key lists and whole subtrees moved to and fro, are walked; a model of scopes says for every box whether it is supported there, as which " +
			"type and with which values, and the monitor compares; and every (type, context) pair, also arbitrary ones, is put to the registry: supported, made type, versions; " +
			"non-trivial: distinct files with a box whose meaning depends on its position, and distinct pairs",
		Need: []string{"boxes judged", "position-dependent boxes judged", "position-dependent boxes out of place", "numbered items", "numbered items beyond the keys",
			"key lists of 65536 and more", "QuickTime audio entries", "audio entries in wave", "moved subtrees", "pairs put to the registry", "unsupported pairs", "chains of scopes", "scopes in every context"},
		Case:  c08,
		Setup: c08init,
		Fixed: []func(t *core.T){c08manyKeys, c08chains, c08scopes},
	})
}

var c08dependent = map[string]bool{"mp4a": true, "enca": true, "data": true, "mean": true, "name": true, "titl": true, "dscp": true, "cprt": true,
	"perf": true, "auth": true, "gnre": true, "rtng": true, "clsf": true, "kywd": true, "loci": true, "albm": true, "yrrc": true}

func c08(t *core.T) {
	if t.Idx%4 == 3 {
		c08registry(t)
		return
	}
	r := t.R
	o := gen.Default(r)
	o.MaxBoxes += 10
	o.Tails = false
	f := gen.Random(r, o)
	for k := r.IntN(4); k > 0; k-- {
		c08move(t, f)
	}
	for k := r.IntN(3); k > 0; k-- {
		c08insert(t, f)
	}
	c08walk(t, f)
}

// c08chains has every chain of the boxes that make scopes, up to some length, and whatever depends on
// them at every level.
func c08chains(t *core.T) {
	item := "\x00\x00\x00\x02"
	var level func(depth int, ilst bool) []*gen.Box
	level = func(depth int, ilst bool) (out []*gen.Box) {
		for _, s := range []string{"data", "mean", "name", "titl", "gnre", "\xa9nam", "----", item} {
			out = append(out, gen.Leaf(s, []byte("\x00\x00\x00\x00\x00\x00\x00\x00x\x00")))
		}
		out = append(out, gen.Leaf("mp4a", make([]byte, 28)), gen.Leaf("mp4a", append(make([]byte, 9), append([]byte{1}, make([]byte, 34)...)...)))
		if depth == 0 {
			return out
		}
		for _, s := range []string{"trak", "udta", "meta", "ilst", "wave", "\xa9nam", "----", item} {
			if !ilst && (s == "\xa9nam" || s == "----" || s == item) {
				continue
			}
			b := gen.Cont(s, level(depth-1, ilst || s == "ilst")...)
			if s == "meta" {
				b.Fields = make([]byte, 4)
			}
			if s == item {
				b.Kids = []*gen.Box{gen.Leaf("data", make([]byte, 9))}
			}
			t.Count("chains of scopes", 1)
			out = append(out, b)
		}
		return out
	}
	keys := func() *gen.Box {
		w := new(gen.W).Full(0, 0).U32(2)
		for i := 0; i < 2; i++ {
			w.U32(9).S("mdta").S("k")
		}
		return gen.Leaf("keys", w.B)
	}
	brand := []*gen.Box{gen.Leaf("ftyp", []byte("isom\x00\x00\x00\x00qt  "))}
	for k, front := range [][]*gen.Box{nil, brand, {keys()}, append(brand, keys())} {
		f := &gen.File{Roots: append(front[:len(front):len(front)], level(5-k%2, false)...)}
		t.Eval(1)
		c08walk(t, f)
	}
}

// c08manyKeys has key lists around the sizes of narrower counters.
func c08manyKeys(t *core.T) {
	for _, n := range []int{255, 256, 257, 65535, 65536, 65537, 131072} {
		w := new(gen.W).Full(0, 0).U32(uint32(n))
		for i := 0; i < n; i++ {
			w.U32(9).S("mdta").S("k")
		}
		ilst := gen.Cont("ilst")
		for _, i := range []int{1, 2, n & 255, n & 65535, 255, 256, 257, 65535, 65536, 65537, n - 1, n, n + 1} {
			ty := make([]byte, 4)
			binary.BigEndian.PutUint32(ty, uint32(i))
			ilst.Kids = append(ilst.Kids, gen.Cont(string(ty), gen.Leaf("data", append([]byte{0, 0, 0, 1, 0, 0, 0, 0}, "abc"...))))
		}
		f := &gen.File{Roots: []*gen.Box{gen.Cont("moov", gen.Leaf("keys", w.B), ilst)}}
		t.Count("key lists of 65536 and more", n>>16)
		c08walk(t, f)
	}
}

func c08walk(t *core.T, f *gen.File) {
	f.Resolve()
	f.Layout()
	all := f.All()
	for _, b := range all {
		if (b.Type == bt("keys") || b.Type == bt("ftyp") && b.Parent == nil) && b.Tree == nil {
			return
		}
	}
	t.Attach("file", f.Data)
	dep := 0
	byOff := map[uint64]*gen.Box{}
	for _, b := range all {
		byOff[b.Offset] = b
	}
	seen := 0
	bad := false
	handler := func(h *mp4.ReadHandle) (interface{}, error) {
		if bad {
			return nil, nil
		}
		seen++
		b := byOff[h.BoxInfo.Offset]
		if b == nil || b.Type != h.BoxInfo.Type {
			bad = true
			t.Failf("unknown box", "%v at %d", h.Path, h.BoxInfo.Offset)
			return nil, nil
		}
		t.Count("boxes judged", 1)
		numbered := b.Ctx.UnderIlst && b.Type[0] == 0 && b.Type != bt("\x00\x00\x00\x00")
		if numbered {
			if b.Def != nil {
				t.Count("numbered items", 1)
			} else {
				t.Count("numbered items beyond the keys", 1)
			}
		}
		if c08dependent[string(b.Type[:])] || numbered || spec.IsIlstItem(b.Type) {
			dep++
			t.Count("position-dependent boxes judged", 1)
			if b.Def == nil {
				t.Count("position-dependent boxes out of place", 1)
			}
			if b.Def != nil && (b.Type == bt("mp4a") || b.Type == bt("enca")) {
				if b.Ctx.UnderWave {
					t.Count("audio entries in wave", 1)
				} else if b.Ctx.IsQuickTimeCompatible {
					t.Count("QuickTime audio entries", 1)
				}
			}
		}
		key := string(b.Type[:])
		if h.BoxInfo.IsSupportedType() != (b.Def != nil) {
			bad = true
			t.Failf("support "+key, "%v at %d must be interpreted in %s: supported is %v, but the library has %s", b.Path(), b.Offset, ctxStr(b.Ctx),
				b.Def != nil, ctxStr(h.BoxInfo.Context))
			return nil, nil
		}
		if c := h.BoxInfo.Context; c != b.Ctx && b.Type != bt("ftyp") && b.Type != bt("keys") {
			bad = true
			t.Failf("context "+key, "%v at %d must be interpreted in %s, the library has %s", b.Path(), b.Offset, ctxStr(b.Ctx), ctxStr(c))
			return nil, nil
		}
		p := f.Payload(b)
		if b.Def == nil {
			if box, _, err := h.ReadPayload(); err == nil {
				t.Failf("payload of an unsupported box "+key, "%v in %s: decoded as %s", b.Path(), ctxStr(b.Ctx), dump(box))
			}
			return nil, nil
		}
		m := spec.Decode(b.Def, b.Type, b.Ctx, p)
		if m.Err == spec.ErrTooBig || m.Err == spec.ErrUnspecified {
			return nil, nil
		}
		box, n, err := h.ReadPayload()
		if s := judge(m, decoded{box: box, n: n, err: err}, b.Def); s != "" {
			bad = true
			t.Failf("meaning "+key, "%v at %d in %s: %s; payload %x", b.Path(), b.Offset, ctxStr(b.Ctx), s, p[:min(len(p), 300)])
			return nil, nil
		}
		if m.Err != nil || m.N != len(b.Fields) || len(b.Kids) == 0 {
			return nil, nil
		}
		for _, k := range b.Kids { // what lies below must be readable
			if k.End() > b.End() {
				return nil, nil
			}
		}
		if _, err := h.Expand(); err != nil && !bad {
			bad = true
			t.Failf("expansion "+key, "%v at %d in %s: %v", b.Path(), b.Offset, ctxStr(b.Ctx), err)
		}
		return nil, nil
	}
	if _, err := mp4.ReadBoxStructure(bytes.NewReader(f.Data), handler); err != nil && !bad {
		t.Failf("walk failed", "%v", err)
	}
	if dep > 0 {
		t.Distinct(f.Data)
	}
	if dep > 2 && t.Idx < 200 {
		t.Sample("walked %d boxes, %d dependent on position: %x", seen, dep, f.Data[:min(300, len(f.Data))])
	}
}

// c08move moves a subtree to another place.
func c08move(t *core.T, f *gen.File) {
	r := t.R
	all := f.All()
	if len(all) < 2 {
		return
	}
	b := all[r.IntN(len(all))]
	if b.Form == 2 || len(b.Tail) > 0 {
		return
	}
	to := c08home(r, all, b)
	for p := to; p != nil; p = p.Parent {
		if p == b || p.QTMeta || len(p.Tail) > 0 {
			return
		}
	}
	for p := b.Parent; p != nil; p = p.Parent {
		if p.QTMeta || len(p.Tail) > 0 {
			return
		}
	}
	src := &f.Roots
	if b.Parent != nil {
		src = &b.Parent.Kids
	}
	i := slices.Index(*src, b)
	*src = slices.Delete(slices.Clone(*src), i, i+1)
	c08put(r, f, to, b)
	t.Count("moved subtrees", 1)
}

// c08home chooses a container or the root (nil).
func c08home(r *rand.Rand, all []*gen.Box, not *gen.Box) *gen.Box {
	var in []*gen.Box
	for _, x := range all {
		if x != not && x.Def != nil && x.Def.Container && x.Form != 2 {
			in = append(in, x)
		}
	}
	if len(in) == 0 || r.IntN(5) == 0 {
		return nil
	}
	return in[r.IntN(len(in))]
}

func c08put(r *rand.Rand, f *gen.File, to, b *gen.Box) {
	dst := &f.Roots
	if to != nil {
		dst = &to.Kids
	}
	n := len(*dst)
	if n > 0 && (*dst)[n-1].Form == 2 {
		n-- // that one must stay last
	}
	b.Parent = to
	*dst = slices.Insert(slices.Clone(*dst), r.IntN(n+1), b)
}

// c08insert adds a box that could influence others, or that could be influenced.
func c08insert(t *core.T, f *gen.File) {
	r := t.R
	to := c08home(r, f.All(), nil)
	for p := to; p != nil; p = p.Parent {
		if p.QTMeta || len(p.Tail) > 0 {
			return
		}
	}
	var b *gen.Box
	data := func() *gen.Box {
		return gen.Leaf("data", append([]byte{0, 0, 0, byte(r.IntN(3)), 0, 0, 0, 0}, "abc"...))
	}
	switch r.IntN(8) {
	case 6, 7:
		b = c08keyed(r)
	case 0:
		b = gen.Leaf("ftyp", []byte("qt  \x00\x00\x00\x00qt  "))
	case 1: // keys without the keys themselves count too
		w := new(gen.W).Full(0, 0)
		n := 1 + r.IntN(4)
		w.U32(uint32(n))
		for i := 0; i < n; i++ {
			w.U32(9).S("mdta").S("k")
		}
		b = gen.Leaf("keys", w.B)
	case 2:
		ty := make([]byte, 4)
		binary.BigEndian.PutUint32(ty, uint32(r.IntN(6)))
		b = gen.Cont("ilst", gen.Cont(string(ty), data()), gen.Cont("\xa9nam", data()), data(), gen.Cont("----", gen.Leaf("mean", []byte("\x00\x00\x00\x00m")),
			gen.Leaf("name", []byte("\x00\x00\x00\x00n")), data()))
	case 3:
		b = gen.Leaf([]string{"data", "mean", "name", "titl", "gnre", "\xa9nam", "----"}[r.IntN(7)], append(make([]byte, 8), "x\x00"...))
	case 4:
		b = gen.Cont("wave", gen.Leaf("mp4a", make([]byte, 28+16*r.IntN(3))))
	case 5:
		p := make([]byte, 28+16*r.IntN(3)+20*r.IntN(2))
		p[9] = byte(r.IntN(3))
		b = gen.Leaf([]string{"mp4a", "enca"}[r.IntN(2)], p)
	}
	c08put(r, f, to, b)
}

// c08keyed is a container with a list of keys and numbered items, not always in that order or at that level.
func c08keyed(r *rand.Rand) *gen.Box {
	n := 1 + r.IntN(4)
	w := new(gen.W).Full(0, 0).U32(uint32(n))
	for i := 0; i < n; i++ {
		w.U32(9).S("mdta").S("k")
	}
	keys := gen.Leaf("keys", w.B)
	ilst := func() *gen.Box {
		l := gen.Cont("ilst")
		for k := 1 + r.IntN(4); k > 0; k-- {
			ty := make([]byte, 4)
			binary.BigEndian.PutUint32(ty, uint32(r.IntN(n+2)))
			item := gen.Cont(string(ty), gen.Leaf("data", append([]byte{0, 0, 0, byte(r.IntN(3)), 0, 0, 0, 0}, "abc"...)))
			if r.IntN(2) == 0 { // an item's own fields, then nothing
				item.Kids = nil
				item.Fields = append([]byte{0, 0, 0, 0, 0, 0, 0, 9}, "mdtak"...)
			}
			l.Kids = append(l.Kids, item)
		}
		return l
	}
	c := gen.Cont([]string{"moov", "udta", "trak", "mdia"}[r.IntN(4)], keys, ilst())
	switch r.IntN(8) {
	case 0:
		c.Kids[0], c.Kids[1] = c.Kids[1], c.Kids[0]
	case 1:
		c.Kids[1] = gen.Cont("udta", c.Kids[1])
	case 2:
		c = gen.Cont("trak", gen.Cont("mdia", c.Kids...), ilst())
	case 3:
		c.Kids = append(c.Kids, gen.Leaf("keys", new(gen.W).Full(0, 0).U32(0).B), ilst())
	case 4:
		c.Kids = append(c.Kids, gen.Cont("meta"), ilst())
		c.Kids[2].Fields = make([]byte, 4)
	case 5:
		c.Kids[1].Kids = append(c.Kids[1].Kids, keys)
		c.Kids = append(c.Kids[1:], ilst())
	}
	return c
}

func c08registry(t *core.T) {
	r := t.R
	ty := allTypes[r.IntN(len(allTypes))].Type
	switch r.IntN(6) {
	case 0:
		binary.BigEndian.PutUint32(ty[:], uint32(r.IntN(10)))
	case 1:
		ty[r.IntN(4)] ^= byte(1 << uint(r.IntN(8)))
	case 2:
		binary.BigEndian.PutUint32(ty[:], r.Uint32()>>uint(r.IntN(32)))
	}
	ctx := randCtx(r)
	if r.IntN(8) == 0 {
		ctx.QuickTimeKeysMetaEntryCount = int(binary.BigEndian.Uint32(ty[:])) - r.IntN(3) + 1
	}
	def := spec.Lookup(ty, ctx)
	t.Count("pairs put to the registry", 1)
	t.Distinct(ty[:], []byte(ctxStr(ctx)))
	name := typeStr(ty) + " in " + ctxStr(ctx)
	key := string(ty[:])
	if ty.IsSupported(ctx) != (def != nil) {
		t.Failf("IsSupported "+key, "%s: %v, expected %v", name, ty.IsSupported(ctx), def != nil)
		return
	}
	bi := mp4.BoxInfo{Type: ty, Context: ctx}
	if bi.IsSupportedType() != (def != nil) {
		t.Failf("IsSupportedType "+key, "%s: %v, expected %v", name, bi.IsSupportedType(), def != nil)
	}
	box, err := ty.New(ctx)
	vs, verr := ty.GetSupportedVersions(ctx)
	if def == nil {
		t.Count("unsupported pairs", 1)
		if err == nil || verr == nil {
			t.Failf("unsupported type made "+key, "%s: New %v, GetSupportedVersions %v", name, err, verr)
		}
		if ty.IsSupportedVersion(0, ctx) {
			t.Failf("version of an unsupported type "+key, "%s: version 0 is supported", name)
		}
		if _, _, err := mp4.UnmarshalAny(bytes.NewReader(make([]byte, 100)), ty, 100, ctx); err != mp4.ErrBoxInfoNotFound {
			t.Failf("unsupported type decoded "+key, "%s: %v", name, err)
		}
		return
	}
	if err != nil || verr != nil {
		t.Failf("New "+key, "%s: %v %v", name, err, verr)
		return
	}
	if g := tree.GoType(box); g != def.GoType {
		t.Failf("New "+key, "%s: made %s, expected %s", name, g, def.GoType)
	}
	if box.GetType() != ty {
		t.Failf("type of a new box "+key, "%s: the new box says it is %v", name, box.GetType())
	}
	if def.Versions == nil {
		return // not versioned
	}
	s := slices.Clone(vs)
	slices.Sort(s)
	if !slices.Equal(s, def.Versions) {
		t.Failf("versions "+key, "%s: %v, expected %v", name, vs, def.Versions)
	}
	for v := 0; v < 256; v++ {
		want := slices.Contains(def.Versions, uint8(v))
		if ty.IsSupportedVersion(uint8(v), ctx) != want {
			t.Failf("IsSupportedVersion "+key, "%s: version %d: %v, expected %v", name, v, !want, want)
			break
		}
	}
}
