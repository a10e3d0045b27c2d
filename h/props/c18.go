//go:build bridge

package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"slices"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
	"verif/ubox"
	"verif/udecl"
)

func init() {
	register(&core.Check{
		ID: "C18", Quick: 220000, Thorough: 12000000,
		Rule: "box declarations are invented at random, written as Go source and compiled into the checker (every scalar kind and width, arrays, slices of fixed, dynamic and open length, nested and sized structures, " +
			"pointers, strings, version and flag conditions, dynamic hooks on boxes and nested structures, notation and ordering tags), then registered for types the library knows and does not know, in overlapping contexts and versions; " +
			"values, damaged payloads and whole files are compared with what an independent interpreter of the declarations says; non-trivial: distinct (declaration, payload) pairs",
		Need: []string{"declarations", "registrations", "encoded", "decoded", "rendered", "damaged payloads refused", "damaged payloads accepted", "unsupported versions", "context queries", "resolved to an earlier definition",
			"resolved to a built-in definition", "unknown types", "hooked fields observed", "encodings refused", "found in files", "expanded in files", "queries before registration", "64-bit counts", "long lists of each kind",
			"definitions of one type", "types of the user", "structures within bytes"},
		Setup: c18init,
		Case:  c18,
		Fixed: []func(t *core.T){c18counts, c18long, c18sized, c18odd},
		Post: func(g *core.Run) {
			for _, s := range ubox.Misplaced() {
				(&core.T{Run: g}).Failf("misplaced hook", "%s", s)
			}
		},
	})
}

type c18state struct {
	byType map[mp4.BoxType][]*udecl.Reg // in the order of registration
	types  []mp4.BoxType
	regs   []*udecl.Reg
}

func (s *c18state) resolve(t mp4.BoxType, ctx mp4.Context) *udecl.Reg {
	rs := s.byType[t]
	for i := len(rs) - 1; i >= 0; i-- {
		if rs[i].Matches(ctx) {
			return rs[i]
		}
	}
	return nil
}

// c18ctx is a context, with some probability one that the registration is made for.
func c18ctx(r *rand.Rand, g *udecl.Reg) mp4.Context {
	c := randCtx(r)
	if g == nil || !g.Ex {
		return c
	}
	set := func(bit uint8, p *bool) {
		if g.Mask&bit != 0 {
			*p = g.Val&bit != 0
		}
	}
	set(1, &c.IsQuickTimeCompatible)
	set(2, &c.UnderWave)
	set(4, &c.UnderIlst)
	set(8, &c.UnderIlstMeta)
	set(16, &c.UnderIlstFreeMeta)
	set(32, &c.UnderUdta)
	k := c.QuickTimeKeysMetaEntryCount > 2
	set(64, &k)
	if k && c.QuickTimeKeysMetaEntryCount <= 2 {
		c.QuickTimeKeysMetaEntryCount += 3
	} else if !k {
		c.QuickTimeKeysMetaEntryCount %= 3
	}
	return c
}

func c18init(t *core.T) {
	ubox.Load()
	tree.Ignore(ubox.Obs{})
	tree.Ignore(mp4.FullBox{}) // compared through its own node where it counts
	s := &c18state{byType: map[mp4.BoxType][]*udecl.Reg{}}
	t.Any = s
	t.Count("declarations", len(ubox.Boxes))
	c18many(t)
	for _, reg := range ubox.Regs {
		for k := 0; k < 6; k++ {
			c18query(t, s, reg.Type, c18ctx(t.R, reg))
		}
		t.Count("queries before registration", 6)
		v := ubox.New(reg.Box.Name)
		match := func(c mp4.Context) bool { return reg.Matches(c) }
		switch {
		case reg.Box.Base == udecl.Any && reg.Ex:
			mp4.AddAnyTypeBoxDefEx(v.(mp4.IAnyType), reg.Type, match, reg.Versions...)
		case reg.Box.Base == udecl.Any:
			mp4.AddAnyTypeBoxDef(v.(mp4.IAnyType), reg.Type, reg.Versions...)
		case reg.Ex:
			mp4.AddBoxDefEx(v, match, reg.Versions...)
		default:
			mp4.AddBoxDef(v, reg.Versions...)
		}
		t.Count("registrations", 1)
		if len(s.byType[reg.Type]) == 0 {
			s.types = append(s.types, reg.Type)
		}
		s.byType[reg.Type] = append(s.byType[reg.Type], reg)
		s.regs = append(s.regs, reg)
		for k := 0; k < 6; k++ {
			c18query(t, s, reg.Type, c18ctx(t.R, reg))
		}
	}
}

// c18query checks which definition a type has in a context.
func c18query(t *core.T, s *c18state, typ mp4.BoxType, ctx mp4.Context) {
	t.Count("context queries", 1)
	reg := s.resolve(typ, ctx)
	var want string
	var versions []uint8
	var def *spec.Def
	switch {
	case reg != nil:
		want, versions = reg.Box.Name, reg.Versions
		if rs := s.byType[typ]; rs[len(rs)-1] != reg {
			t.Count("resolved to an earlier definition", 1)
		}
	default:
		if def = spec.Lookup(typ, ctx); def != nil {
			want = def.GoType
			t.Count("resolved to a built-in definition", 1)
		}
	}
	key := "definition in context"
	where := typeStr(typ) + " in " + ctxStr(ctx)
	if got := typ.IsSupported(ctx); got != (want != "") {
		t.Failf(key, "%s: IsSupported %v, expected definition %q", where, got, want)
		return
	}
	b, err := typ.New(ctx)
	vs, verr := typ.GetSupportedVersions(ctx)
	info := mp4.BoxInfo{Type: typ, Context: ctx}
	if got := info.IsSupportedType(); got != (want != "") {
		t.Failf(key, "%s: BoxInfo.IsSupportedType %v, expected definition %q", where, got, want)
		return
	}
	if want == "" {
		t.Count("unknown types", 1)
		_, _, uerr := mp4.UnmarshalAny(bytes.NewReader(make([]byte, 40)), typ, 40, ctx)
		if !errors.Is(err, mp4.ErrBoxInfoNotFound) || !errors.Is(verr, mp4.ErrBoxInfoNotFound) || !errors.Is(uerr, mp4.ErrBoxInfoNotFound) {
			t.Failf("unknown type", "%s has no definition, but New: %v, GetSupportedVersions: %v, UnmarshalAny: %v", where, err, verr, uerr)
		}
		if typ.IsSupportedVersion(0, ctx) {
			t.Failf("unknown type", "%s has no definition, but version 0 is supported", where)
		}
		return
	}
	if err != nil || verr != nil {
		t.Failf(key, "%s should be %s, but New: %v, GetSupportedVersions: %v", where, want, err, verr)
		return
	}
	if got := tree.GoType(b); got != want {
		t.Failf(key, "%s is a %s, expected %s", where, got, want)
		return
	}
	if b.GetType() != typ {
		t.Failf(key, "%s: a new %s has type %q", where, want, b.GetType())
	}
	if reg == nil {
		return
	}
	if !slices.Equal(vs, versions) && len(vs)+len(versions) > 0 {
		t.Failf(key, "%s: supported versions %v, registered %v", where, vs, versions)
	}
	for v := 0; v < 8; v++ {
		if got := typ.IsSupportedVersion(uint8(v), ctx); got != (len(versions) == 0 || slices.Contains(versions, uint8(v))) {
			t.Failf(key, "%s: version %d supported: %v, registered %v", where, v, got, versions)
		}
	}
}

// bitString packs numbers.
type bitString struct {
	b []byte
	n int
}

func (w *bitString) put(v uint64, bits int) {
	for i := bits - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << (7 - w.n%8)
		w.n++
	}
}

// c18long: lists of every kind of element may be long.
func c18long(t *core.T) {
	r := t.R
	for _, n := range []int{0, 8, 256, 1 << 10, 1<<12 + 8, 1 << 16, 1<<16 + 8, 100000} {
		b := &vpLong{N: uint32(n)}
		w := &bitString{}
		w.put(uint64(n), 32)
		for k := 0; k < n; k++ {
			v := uint8(r.IntN(16))
			b.A = append(b.A, v)
			w.put(uint64(v), 4)
		}
		for k := 0; k < n; k++ {
			v := r.IntN(2)
			b.B = append(b.B, v == 1)
			w.put(uint64(v), 1)
		}
		for k := 0; k < n; k++ {
			v := r.IntN(4096) - 2048
			b.C = append(b.C, int16(v))
			w.put(uint64(v), 12)
		}
		for k := 0; k < n; k++ {
			v := fmt.Sprint(k)[:r.IntN(2)]
			b.D = append(b.D, v)
			for i := range v {
				w.put(uint64(v[i]), 8)
			}
			w.put(0, 8)
		}
		for k := 0; k < n; k++ {
			v := r.Uint32() >> uint(4+r.IntN(28))
			b.E = append(b.E, v)
			for s := 21; s > 0; s -= 7 {
				w.put(1, 1)
				w.put(uint64(v>>s), 7)
			}
			w.put(uint64(v&0x7f), 8)
		}
		for k := 0; k < n; k++ {
			p := vpPart{X: uint16(r.IntN(512)), Y: int8(r.IntN(128) - 64), Z: [1]uint8{uint8(r.Uint32())}}
			b.F = append(b.F, p)
			w.put(uint64(p.X), 9)
			w.put(uint64(p.Y), 7)
			w.put(uint64(p.Z[0]), 8)
		}
		for k := 0; k < n; k++ {
			p := [2]uint16{uint16(r.Uint32()), uint16(r.Uint32())}
			b.G = append(b.G, p)
			w.put(uint64(p[0]), 16)
			w.put(uint64(p[1]), 16)
		}
		for k := 0; k < n; k++ {
			v := int64(r.Uint64())
			b.H = append(b.H, v)
			w.put(uint64(v), 64)
		}
		t.Count("long lists of each kind", 8)
		t.Eval(2)
		var out bytes.Buffer
		k, err := mp4.Marshal(&out, b, mp4.Context{})
		if err != nil || k != uint64(len(w.b)) || !bytes.Equal(out.Bytes(), w.b) {
			t.Failf("long lists", "encoding lists of %d elements: %d bytes reported, %v; %s", n, k, err, diff(out.Bytes(), w.b))
		}
		// elements beyond the count are not part of the box
		more := *b
		more.A, more.B, more.C, more.D = append(more.A[:n:n], 9), append(more.B[:n:n], true, true), append(more.C[:n:n], 5), append(more.D[:n:n], "x")
		more.E, more.F, more.G = append(more.E[:n:n], 1, 2, 3), append(more.F[:n:n], vpPart{X: 1}), append(more.G[:n:n], [2]uint16{1, 2})
		out.Reset()
		k, err = mp4.Marshal(&out, &more, mp4.Context{})
		if err != nil || k != uint64(len(w.b)) || !bytes.Equal(out.Bytes(), w.b) {
			t.Failf("long lists", "encoding %d of more elements: %d bytes reported, %v; %s", n, k, err, diff(out.Bytes(), w.b))
		}
		s1, e1 := mp4.Stringify(b, mp4.Context{})
		s2, e2 := mp4.Stringify(&more, mp4.Context{})
		if e1 != nil || e2 != nil || s1 != s2 {
			t.Failf("long lists", "rendering %d of more elements: %v, %v; %s", n, e1, e2, diff([]byte(s2), []byte(s1)))
		}
		d := unmarshalAt(bytes.NewReader(w.b), 0, vpLongType, uint64(len(w.b)), mp4.Context{})
		if d.err != nil || d.n != uint64(len(w.b)) {
			t.Failf("long lists", "decoding lists of %d elements: %d of %d bytes, %v", n, d.n, len(w.b), d.err)
		} else if at, same := tree.Equal(reflect.ValueOf(b), reflect.ValueOf(d.box)); !same {
			t.Failf("long lists", "decoding lists of %d elements: %s differs", n, at)
		}
	}
}

// c18counts: 64-bit counts are not taken modulo anything.
func c18counts(t *core.T) {
	for _, n := range []uint64{0, 1, 5, 100} {
		for _, m := range []uint64{0, 1, 7} {
			for sh := 0; sh <= 64; sh++ {
				for field := 0; field < 2; field++ {
					count, items := n, m
					if sh < 64 && field == 0 {
						count |= 1 << sh
					} else if sh < 64 {
						items |= 1 << sh
					}
					w := new(gen.W).U64(count).U64(items).U8(randBytes(t.R, int(n))...)
					for k := uint64(0); k < m; k++ {
						w.U16(uint16(t.R.Uint32()))
					}
					p := w.U8(9).B
					ok := count == n && items == m
					t.Count("64-bit counts", 1)
					t.Eval(1)
					t.Trace("counts", p)
					var d decoded
					if t.Guard("64-bit counts", func() { d = unmarshalAt(bytes.NewReader(p), 0, vp64Type, uint64(len(p)), mp4.Context{}) }) {
						continue
					}
					v := &vp64{Count: count, Items: items, Data: p[16 : 16+n], Tail: 9}
					for k := 0; k < int(m); k++ {
						q := p[16+int(n)+2*k:]
						v.List = append(v.List, uint16(q[0])<<8|uint16(q[1]))
					}
					if ok {
						if d.err != nil || d.n != uint64(len(p)) {
							t.Failf("64-bit counts", "decoding %d bytes and %d elements: n=%d, %v", n, m, d.n, d.err)
						} else if at, same := tree.Equal(reflect.ValueOf(v), reflect.ValueOf(d.box)); !same {
							t.Failf("64-bit counts", "decoding %d bytes and %d elements: %s differs", n, m, at)
						}
					} else if small := count < n+uint64(2*m)+2 && items <= n+2*m; !small && d.err == nil {
						t.Failf("64-bit counts", "decoding %#x bytes and %#x elements from a payload of %d bytes: no error", count, items, len(p))
					}
					var b bytes.Buffer
					t.Guard("64-bit counts", func() {
						k, err := mp4.Marshal(&b, v, mp4.Context{})
						if (err == nil) != ok || ok && (k != uint64(len(p)) || !bytes.Equal(b.Bytes(), p)) {
							t.Failf("64-bit counts", "encoding counts %#x and %#x with %d bytes and %d elements: n=%d, %v, %x", count, items, n, m, k, err, b.Bytes())
						}
					})
				}
			}
		}
	}
}

func c18(t *core.T) {
	s := t.Any.(*c18state)
	r := t.R
	if r.IntN(6) == 0 {
		typ := s.types[r.IntN(len(s.types))]
		switch r.IntN(4) {
		case 0:
			for i := range typ {
				typ[i] = "abcdefgz"[r.IntN(8)]
			}
		case 1:
			typ[r.IntN(4)] ^= 1 << uint(r.IntN(8))
		}
		if typ != (mp4.BoxType{}) {
			c18query(t, s, typ, c18ctx(r, nil))
		}
		return
	}
	var reg *udecl.Reg
	var ctx mp4.Context
	for k := 0; k < 20; k++ {
		reg = s.regs[r.IntN(len(s.regs))]
		if k == 0 {
			reg = s.regs[t.Idx%len(s.regs)]
		}
		ctx = c18ctx(r, reg)
		if s.resolve(reg.Type, ctx) == reg {
			break
		}
		reg = nil
	}
	if reg == nil {
		return
	}
	max, _ := genSizes(r)
	m := udecl.Gen(reg, ctx, r, max)
	if m.Err != nil && m.Err != udecl.ErrBits {
		panic("udecl: " + reg.Box.Name + " cannot be generated: " + m.Err.Error())
	}
	box, err := tree.Build(m.Root, reg.Type, ctx)
	if err != nil {
		t.Failf("build "+reg.Box.Name, "%v", err)
		return
	}
	what := reg.Box.Name + " (" + typeStr(reg.Type) + " in " + ctxStr(ctx) + ")"
	t.Attach("payload", m.Data)
	t.AttachStr("declaration", what+" of declarations "+declSeed())
	var buf bytes.Buffer
	n, err := mp4.Marshal(&buf, box, ctx)
	t.Eval(1)
	if m.Err != nil {
		if err == nil {
			t.Failf("encoding", "%s: encoded although its fields do not fill bytes: %x", what, buf.Bytes())
		}
		t.Count("encodings refused", 1)
		return
	}
	if err != nil {
		t.Failf("encoding", "%s: error %q for %s", what, err, tree.Render(m.Root, ""))
		return
	}
	if n != uint64(buf.Len()) || !bytes.Equal(buf.Bytes(), m.Data) {
		t.Failf("encoding", "%s: encoded (n=%d) as\n%x\nexpected\n%x\nfor %s", what, n, buf.Bytes(), m.Data, tree.Render(m.Root, ""))
		return
	}
	t.Count("encoded", 1)
	t.Distinct([]byte(reg.Box.Name), m.Data)
	if t.Idx < 80 && t.Idx%20 == 3 {
		t.Sample("%s: %x is %s", what, m.Data, tree.Render(m.Root, ""))
	}
	ind := c17indents[r.IntN(len(c17indents))]
	for _, in := range []string{"", ind} {
		got, err := mp4.StringifyWithIndent(box, in, ctx)
		if in == "" {
			got, err = mp4.Stringify(box, ctx)
		}
		t.Count("rendered", 1)
		if want := tree.Render(m.Root, in); err != nil || got != want {
			t.Failf("rendering", "%s, indent %q: %v\n%s\nexpected\n%s", what, in, err, got, want)
			return
		}
	}
	if r.IntN(8) == 0 {
		if k := c18spoil(m.Root, reflect.ValueOf(box), r); k != "" {
			t.Count("encodings refused", 1)
			if n, err := mp4.Marshal(io.Discard, box, ctx); err == nil {
				t.Failf("unencodable value", "%s: encoded (%d bytes) in spite of %s", what, n, k)
			}
		}
	}
	payload := append(randBytes(r, reg.Box.Prefix), m.Data...)
	if reg.Box.Fixed && r.IntN(5) == 0 {
		payload = append(payload, randBytes(r, r.IntN(20))...)
	}
	c18decode(t, reg, ctx, payload, what, false)
	for k := 0; k < 3; k++ {
		p := mutate(r, payload, nil)
		if r.IntN(8) == 0 && reg.Box.Base == udecl.Full && len(p) > reg.Box.Prefix {
			p[reg.Box.Prefix] = byte(r.IntN(8))
		}
		c18decode(t, reg, ctx, p, what, true)
	}
	if r.IntN(8) == 0 {
		c18file(t, s, reg, payload)
	}
}

func declSeed() string {
	return fmt.Sprintf("genu %d %d", ubox.Seed, ubox.N)
}

func c18decode(t *core.T, reg *udecl.Reg, ctx mp4.Context, payload []byte, what string, damaged bool) {
	m := udecl.Decode(reg, ctx, payload)
	data, off := stream(t.R, payload)
	rd := rw.NewReader(data)
	rd.Mode, rd.R = rw.Modes[t.R.IntN(len(rw.Modes))], t.R
	if _, err := rd.Seek(off, io.SeekStart); err != nil {
		panic(err)
	}
	t.Attach("decoded payload", payload)
	box := ubox.New(reg.Box.Name)
	if a, ok := box.(mp4.IAnyType); ok {
		a.SetType(reg.Type)
	}
	obs := reflect.ValueOf(box).Elem().FieldByName("Obs").Addr().Interface().(*ubox.Obs)
	obs.On = true
	var d decoded
	if t.R.IntN(3) == 0 {
		d.box, d.n, d.err = mp4.UnmarshalAny(rd, reg.Type, uint64(len(payload)), ctx)
		obs.On = false
	} else {
		d.box = box
		d.n, d.err = mp4.Unmarshal(rd, uint64(len(payload)), box, ctx)
	}
	t.Eval(1)
	if m.Err == udecl.ErrOverridden {
		if d.err != nil || d.n != uint64(reg.Box.Prefix) {
			t.Failf("override", "%s: n=%d, %v where a hook read %d bytes and took over", what, d.n, d.err, reg.Box.Prefix)
		}
		return
	}
	m.In -= reg.Box.Prefix
	if msg := judge(m.Result, d, &spec.Def{GoType: reg.Box.Name}); msg != "" {
		t.Failf("decoding", "%s: %s\npayload %x", what, msg, payload)
		return
	}
	if m.Err == nil && damaged {
		t.Count("damaged payloads accepted", 1)
	}
	switch {
	case m.Err == spec.ErrVersion:
		t.Count("unsupported versions", 1)
	case m.Err != nil:
		t.Count("damaged payloads refused", 1)
		return
	default:
		t.Count("decoded", 1)
	}
	if obs.On && reg.Box.Prefix > 0 && obs.Before != uint64(len(payload)) {
		t.Failf("hook arguments", "%s: BeforeUnmarshal was told %d bytes, the payload has %d", what, obs.Before, len(payload))
	}
	if m.Err != nil {
		return
	}
	for name, left := range obs.Left {
		t.Count("hooked fields observed", 1)
		if left != m.Left[name] {
			t.Failf("hook arguments", "%s: OnReadField(%s) was told that %d bits are left, there are %d\npayload %x", what, name, left, m.Left[name], payload)
		}
	}
}

// c18spoil makes the value one that cannot be encoded and says how.
func c18spoil(n *spec.Node, v reflect.Value, r *rand.Rand) string {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return ""
	}
	for _, i := range r.Perm(len(n.Kids)) {
		k := n.Kids[i]
		f := v.FieldByName(k.Name)
		sf, _ := v.Type().FieldByName(k.Name)
		tag := "," + sf.Tag.Get("mp4") + ","
		switch {
		case f.Kind() == reflect.Ptr:
			f.SetZero()
			return k.Name + ": nil"
		case f.Kind() == reflect.Slice && f.Len() > 0 && bytes.Contains([]byte(tag), []byte("len=")):
			f.SetLen(f.Len() - 1)
			return k.Name + ": too few elements"
		case bytes.Contains([]byte(tag), []byte("varint")) && f.Type().Bits() > 0:
			f.SetUint(1<<28 + r.Uint64()>>uint(36+r.IntN(28)))
			return k.Name + ": beyond four bytes"
		case k.Kind == spec.KStruct && k.Name != "FullBox":
			if s := c18spoil(k, f, r); s != "" {
				return k.Name + "." + s
			}
		}
	}
	return ""
}

// c18file puts the box in a file and reads it back by walking.
func c18file(t *core.T, s *c18state, reg *udecl.Reg, payload []byte) {
	r := t.R
	// a place in a file whose context the registration is made for
	under := []string{"", "udta", "wave", "ilst"}[r.IntN(4)]
	qt := r.IntN(2) == 0
	ctx := mp4.Context{IsQuickTimeCompatible: qt, UnderUdta: under == "udta", UnderWave: under == "wave", UnderIlst: under == "ilst"}
	typ := reg.Type
	for _, name := range []string{"ftyp", "moov", "keys", "qzqz", under} {
		if name == "" {
			continue
		}
		if typ == bt(name) {
			return
		}
		for _, c := range []mp4.Context{{IsQuickTimeCompatible: qt}, {}} {
			if s.resolve(bt(name), c) != nil {
				return
			}
		}
	}
	got := s.resolve(typ, ctx)
	if got != nil && got != reg && len(payload) > 0 { // another declaration's box: its own payload
		m := udecl.Gen(got, ctx, r, 3)
		if m.Err != nil {
			return
		}
		payload = append(randBytes(r, got.Box.Prefix), m.Data...)
	}
	children := 0
	free := []byte{0, 0, 0, 9, 'q', 'z', 'q', 'z', 7}
	if got != nil && got.Box.Fixed && !got.Box.Override {
		m := udecl.Decode(got, ctx, payload)
		if m.Err == nil && m.N == len(payload) {
			children = r.IntN(3)
			for i := 0; i < children; i++ {
				payload = append(payload, free...)
			}
		}
	}
	inner := gen.Raw(typ, payload)
	for k := r.IntN(2); k > 0; k-- {
		inner = append(inner, free...)
	}
	if under != "" {
		inner = gen.Raw(bt(under), inner)
	}
	brand := "isom"
	if qt {
		brand = "qt  "
	}
	file := append(gen.Raw(bt("ftyp"), append([]byte("isom\x00\x00\x00\x01"), brand...)), gen.Raw(bt("moov"), inner)...)
	t.Attach("file", file)
	seen, kids := 0, 0
	wantDepth := 2
	if under != "" {
		wantDepth = 3
	}
	_, err := mp4.ReadBoxStructure(bytes.NewReader(file), func(h *mp4.ReadHandle) (any, error) {
		if len(h.Path) > wantDepth && h.Path[wantDepth-1] == typ {
			if h.BoxInfo.Type == bt("qzqz") {
				kids++
			}
			return nil, nil
		}
		if len(h.Path) < wantDepth {
			_, err := h.Expand()
			return nil, err
		}
		if h.BoxInfo.Type != typ {
			return nil, nil
		}
		seen++
		what := typeStr(typ) + " in " + ctxStr(ctx)
		if h.BoxInfo.Context != ctx {
			t.Failf("context in file", "%s: context %s", what, ctxStr(h.BoxInfo.Context))
			return nil, nil
		}
		def := spec.Lookup(typ, ctx)
		if sup := h.BoxInfo.IsSupportedType(); sup != (got != nil || def != nil) {
			t.Failf("definition in context", "%s in a file: IsSupportedType %v", what, sup)
		}
		if got == nil && def != nil {
			return nil, nil
		}
		box, n, err := h.ReadPayload()
		if got == nil {
			t.Count("unknown types", 1)
			if !errors.Is(err, mp4.ErrBoxInfoNotFound) {
				t.Failf("unknown type", "%s has no definition, but in a file ReadPayload gives %v", what, err)
			}
			return nil, nil
		}
		t.Count("found in files", 1)
		m := udecl.Decode(got, ctx, payload)
		if m.Err == udecl.ErrOverridden {
			return nil, nil
		}
		m.In -= got.Box.Prefix
		if msg := judge(m.Result, decoded{box: box, n: n, err: err}, &spec.Def{GoType: got.Box.Name}); msg != "" {
			t.Failf("decoding in file", "%s as %s: %s", what, got.Box.Name, msg)
			return nil, nil
		}
		if m.Err == nil && got.Box.Fixed && m.N == len(payload)-children*len(free) {
			t.Count("expanded in files", 1)
			if _, err := h.Expand(); err != nil || kids != children {
				t.Failf("children in file", "%s as %s: %d children, %d reached: %v", what, got.Box.Name, children, kids, err)
			}
		}
		return nil, nil
	})
	if err != nil || seen != 1 {
		t.Failf("walk", "walk over a file with %s: seen %d times, %v", typeStr(typ), seen, err)
	}
}

// c18sized: a structure with a declared size takes just that many bits, in either direction; contents that
// do not fill it are an error.
func c18sized(t *core.T) {
	r := t.R
	for i := 0; i < 4000; i++ {
		b := &vpSized{N: uint8(r.IntN(4)), Size: uint8(1 + r.IntN(12))}
		if i%16 == 0 {
			b.Size = uint8(1 + r.IntN(255))
		}
		good := true // whether everything fills its size
		var w []byte // what is written
		rec := func(size int) vpRec {
			var x vpRec
			x.K = uint8(r.IntN(size))
			if rest := size - 1 - int(x.K); rest%2 != 0 {
				x.K++
			}
			n := (size - 1 - int(x.K)) / 2
			switch r.IntN(24) {
			case 0: // too much
				n += 1 + r.IntN(2)
			case 1: // too little
				if n > 0 {
					n = r.IntN(n)
				}
			case 2: // not whole
				x.K++
			}
			x.Sub, x.Rest = make([]uint8, x.K), make([]uint16, n)
			w = append(w, x.K)
			for i := range x.Sub {
				x.Sub[i] = uint8(r.Uint32())
				w = append(w, x.Sub[i])
			}
			for i := range x.Rest {
				x.Rest[i] = uint16(r.Uint32())
				w = append(w, uint8(x.Rest[i]>>8), uint8(x.Rest[i]))
			}
			good = good && 1+int(x.K)+2*n == size
			return x
		}
		w = append(w, b.N, b.Size)
		for i := 0; i < int(b.N); i++ {
			b.Recs = append(b.Recs, rec(int(b.Size)))
		}
		one := rec(int(b.Size))
		b.One = &one
		b.Two[0], b.Two[1] = rec(int(b.Size)), rec(int(b.Size))
		b.Out.L = uint8(1 + r.IntN(9))
		w = append(w, b.Out.L)
		b.Out.In = rec(int(b.Out.L))
		at := len(w)
		b.Out.Rest = randBytes(r, 9-int(b.Out.L))
		if r.IntN(24) == 0 {
			b.Out.Rest = randBytes(r, r.IntN(9))
		}
		good = good && len(b.Out.Rest) == 9-int(b.Out.L)
		w = append(w, b.Out.Rest...)
		var out bytes.Buffer
		n, err := mp4.Marshal(&out, b, mp4.Context{})
		t.Eval(2)
		if !good {
			t.Count("structures that do not fill their size", 1)
			if err == nil {
				t.Failf("vpsz misfit", "a structure that does not fill its declared size is written without an error: %x for %s", out.Bytes(), dump(b))
				return
			}
			continue
		}
		t.Count("structures of declared sizes", 5+int(b.N))
		if err != nil || n != uint64(len(w)) || !bytes.Equal(out.Bytes(), w) {
			t.Failf("vpsz encode", "n=%d err=%v: wrote %x, declared %x", n, err, out.Bytes(), w)
			return
		}
		var got vpSized
		n, err = mp4.Unmarshal(bytes.NewReader(w), uint64(len(w)), &got, mp4.Context{})
		if err != nil || n != uint64(len(w)) || flat(got) != flat(*b) {
			t.Failf("vpsz decode", "n=%d err=%v: decoded %s, declared %s", n, err, dump(&got), dump(b))
			return
		}
		// a length inside that is wrong: what it takes is not its neighbour's
		for k := 0; k < 3; k++ {
			in := []int{1, 2 + int(b.N)*int(b.Size), at - int(b.Out.L), at - int(b.Out.L) - 1}[r.IntN(4)]
			if in == 1 {
				in = 2
			}
			m := append([]byte(nil), w...)
			m[in] ^= 1 << r.IntN(8)
			if in == at-int(b.Out.L)-1 { // the size of the innermost
				m[in] = uint8(10 + r.IntN(200))
				if !mustNotFit(t, m) {
					return
				}
				continue
			}
			// a record whose first count changes: the same size must still come out even
			size := int(b.Size)
			if in == at-int(b.Out.L) {
				size = int(b.Out.L)
			}
			k := int(m[in])
			if 1+k > size || (size-1-k)%2 != 0 {
				if !mustNotFit(t, m) {
					return
				}
				continue
			}
			var got vpSized
			n, err := mp4.Unmarshal(bytes.NewReader(m), uint64(len(m)), &got, mp4.Context{})
			var back bytes.Buffer
			if err == nil {
				mp4.Marshal(&back, &got, mp4.Context{})
			}
			t.Eval(1)
			if err != nil || n != uint64(len(m)) || !bytes.Equal(back.Bytes(), m) {
				t.Failf("vpsz decode", "n=%d err=%v for %x: decoded %s", n, err, m, dump(&got))
				return
			}
		}
	}
}

// flat prints a box with what its pointer points at.
func flat(b vpSized) string {
	one := b.One
	b.One = nil
	return fmt.Sprint(dump(&b), dump(one))
}

func mustNotFit(t *core.T, data []byte) bool {
	var got vpSized
	t.Eval(1)
	t.Count("structures that do not fill their size", 1)
	if _, err := mp4.Unmarshal(bytes.NewReader(data), uint64(len(data)), &got, mp4.Context{}); err == nil {
		t.Failf("vpsz misfit", "a structure that does not fill its declared size is decoded without an error: %x as %s", data, dump(&got))
		return false
	}
	return true
}
