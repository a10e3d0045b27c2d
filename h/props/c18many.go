//go:build bridge

package props

import (
	"bytes"
	"slices"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
)

// Three kinds of boxes of any type that a payload of ten bytes tells apart.
type vpManyA struct {
	mp4.AnyTypeBox
	X []byte `mp4:"0,size=8"`
}

type vpManyB struct {
	mp4.AnyTypeBox
	mp4.FullBox `mp4:"0,extend"`
	X           uint16 `mp4:"1,size=16"`
	Y           []byte `mp4:"2,size=8"`
}

type vpManyC struct {
	mp4.AnyTypeBox
	X uint64  `mp4:"0,size=64"`
	Y [2]int8 `mp4:"1,size=8"`
}

func vpManyKind(b mp4.IBox) int {
	switch b.(type) {
	case *vpManyA:
		return 0
	case *vpManyB:
		return 1
	case *vpManyC:
		return 2
	}
	return -1
}

// c18many registers hundreds of definitions of one type and of hundreds of types, with up to 256
// versions, and asks after each stage for all of them. It belongs to the registration of the
// checker's boxes, before anything runs at once.
func c18many(t *core.T) {
	type def struct {
		kind     int
		lo, hi   int // matches entry counts lo..hi
		versions []uint8
	}
	var defs []def
	typ := mp4.BoxType{0xfe, 'v', 'm', 'y'}
	register := func(typ mp4.BoxType, d def) {
		match := func(c mp4.Context) bool {
			return c.QuickTimeKeysMetaEntryCount >= d.lo && c.QuickTimeKeysMetaEntryCount <= d.hi
		}
		mp4.AddAnyTypeBoxDefEx([]mp4.IAnyType{&vpManyA{}, &vpManyB{}, &vpManyC{}}[d.kind], typ, match, d.versions...)
	}
	versions := func() []uint8 {
		n := []int{0, 1, 2, 3, 7, 40, 256}[t.R.IntN(7)]
		var vs []uint8
		for _, v := range t.R.Perm(256)[:n] {
			vs = append(vs, uint8(v))
		}
		return vs
	}
	payload := []byte{0, 0, 0, 0, 5, 6, 7, 8, 9, 10}
	ask := func(typ mp4.BoxType, k int, d *def, all bool) bool {
		ctx := mp4.Context{QuickTimeKeysMetaEntryCount: k}
		t.Count("queries among many definitions", 1)
		if got := typ.IsSupported(ctx); got != (d != nil) {
			t.Failf("many definitions", "%s with %d keys: IsSupported %v, %d definitions", typeStr(typ), k, got, len(defs))
			return false
		}
		b, err := typ.New(ctx)
		if d == nil {
			return err != nil
		}
		vs, verr := typ.GetSupportedVersions(ctx)
		if err != nil || verr != nil || vpManyKind(b) != d.kind || b.GetType() != typ || !slices.Equal(vs, d.versions) && len(vs)+len(d.versions) > 0 {
			t.Failf("many definitions", "%s with %d keys: %T %v, versions %v %v; the last definition in force is of kind %d with versions %v", typeStr(typ), k, b, err, vs, verr, d.kind, d.versions)
			return false
		}
		if all {
			for v := 0; v < 256; v++ {
				want := len(d.versions) == 0 || slices.Contains(d.versions, uint8(v))
				if got := typ.IsSupportedVersion(uint8(v), ctx); got != want {
					t.Failf("many definitions", "%s: version %d supported: %v, registered %v", typeStr(typ), v, got, d.versions)
					return false
				}
			}
		}
		for _, v := range []uint8{0, 1, 254, 255} {
			payload[0] = v
			b, n, err := mp4.UnmarshalAny(bytes.NewReader(payload), typ, uint64(len(payload)), ctx)
			ok := false
			if d.kind == 1 && len(d.versions) != 0 && !slices.Contains(d.versions, v) {
				ok = err == mp4.ErrUnsupportedBoxVersion
			} else if err == nil && n == uint64(len(payload)) && vpManyKind(b) == d.kind && b.GetType() == typ {
				var out bytes.Buffer
				_, err := mp4.Marshal(&out, b, ctx)
				s, serr := mp4.Stringify(b, ctx)
				ok = err == nil && bytes.Equal(out.Bytes(), payload) && serr == nil && strings.Contains(s, "X=") && (d.kind == 0 || strings.Contains(s, "Y="))
				if vb, is := b.(*vpManyB); is {
					ok = ok && vb.Version == v && vb.X == 0x0506 && len(vb.Y) == 4
				}
			}
			if !ok {
				t.Failf("many definitions", "%s with %d keys and a payload of version %d decodes as %T, %d bytes, %v; the definition in force is of kind %d, versions %v", typeStr(typ), k, v, b, n, err, d.kind, d.versions)
				return false
			}
		}
		return true
	}
	current := func(k int) *def {
		for i := len(defs) - 1; i >= 0; i-- {
			if k >= defs[i].lo && k <= defs[i].hi {
				return &defs[i]
			}
		}
		return nil
	}
	for i := 0; i < 320; i++ {
		d := def{kind: t.R.IntN(3), lo: 1 + i, hi: 1 + i, versions: versions()}
		if t.R.IntN(4) == 0 { // over some of the earlier ones
			d.lo -= t.R.IntN(i + 1)
		}
		if t.R.IntN(16) == 0 && i > 0 {
			d.lo = 1 + t.R.IntN(i)
			d.hi = d.lo
		}
		register(typ, d)
		defs = append(defs, d)
		if i%29 == 0 || i == 319 {
			for k := 0; k < 324; k++ {
				if !ask(typ, k, current(k), i == 319 && k%8 == 0) {
					return
				}
			}
		}
	}
	t.Count("definitions of one type", len(defs))

	many := make([]def, 1500)
	name := func(i int) mp4.BoxType { return mp4.BoxType{0xfe, 'w', byte(i >> 8), byte(i)} }
	for i := range many {
		many[i] = def{kind: t.R.IntN(3), lo: 0, hi: 1 << 30, versions: versions()}
		register(name(i), many[i])
	}
	for i := range many {
		if !ask(name(i), t.R.IntN(5), &many[i], i%16 == 0) {
			return
		}
	}
	ask(name(len(many)), 0, nil, false)
	t.Count("types of the user", len(many))
}
