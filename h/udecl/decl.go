// Package udecl invents declarations of user-defined boxes, writes them down as Go
// source, and describes what such a declaration means: how values of the box are
// encoded, decoded and rendered.
package udecl

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

// Rule computes a dynamic size, length or presence from the context, the version or an
// earlier field.
type Rule struct {
	Kind RuleKind
	Sel  string
	A, B uint64
	Mod  uint64
}

type RuleKind int

const (
	RSel   RuleKind = iota // A + B*(field % Mod)
	RQT                    // A if the file is QuickTime compatible, else B
	RUdta                  // A under udta, else B
	RKeys                  // A + B*(number of keys % Mod)
	RVer                   // A in version 0, else B
	RFlags                 // A if the lowest flag is set, else B
)

// Eval evaluates the rule; sel gives the value of a field.
func (r *Rule) Eval(ctx mp4.Context, ver uint8, flags uint32, sel func(string) uint64) uint64 {
	pick := func(c bool) uint64 {
		if c {
			return r.A
		}
		return r.B
	}
	switch r.Kind {
	case RQT:
		return pick(ctx.IsQuickTimeCompatible)
	case RUdta:
		return pick(ctx.UnderUdta)
	case RKeys:
		return r.A + r.B*(uint64(ctx.QuickTimeKeysMetaEntryCount)%r.Mod)
	case RVer:
		return pick(ver == 0)
	case RFlags:
		return pick(flags&1 != 0)
	}
	return r.A + r.B*(sel(r.Sel)%r.Mod)
}

type Kind int

const (
	KUint Kind = iota
	KInt
	KBool
	KString
	KStruct
)

type WrapKind int

const (
	Ptr WrapKind = iota
	Arr
	Slice
)

type Wrap struct {
	K WrapKind
	N int
}

type Field struct {
	Name     string
	Kind     Kind
	Go       string // scalar type
	Wrap     []Wrap // outermost first
	Size     uint
	SizeRule *Rule
	Len      int // -1: unlimited
	LenRule  *Rule
	Order    int
	Ver      int // -1: any
	NVer     int
	Opt      uint32
	NOpt     uint32
	OptRule  *Rule

	Hex, Dec, Str, ISO, UUID, Hidden, Const, Ext, Varint, BoxStr, CP bool

	Pad    uint // hook: bits before the field
	PadVal uint64
	Xor    uint64 // hook: the field is stored inverted by this mask
	Text   bool   // hook: rendered by the hook
	S      *Struct
	Tag    string
	TypeGo string
}

func (f *Field) goBits() uint {
	switch f.Go {
	case "uint8", "int8":
		return 8
	case "uint16", "int16":
		return 16
	case "uint32", "int32":
		return 32
	}
	return 64
}

// slice says whether the field's type is a slice, and of what element depth.
func (f *Field) hasSlice() bool {
	for _, w := range f.Wrap {
		if w.K == Slice {
			return true
		}
	}
	return false
}

type Struct struct {
	Name   string
	Own    bool     // implements the hooks itself
	Fields []*Field // as declared
	sorted []*Field
}

// Sorted is the fields in wire order.
func (s *Struct) Sorted() []*Field {
	if s.sorted == nil {
		s.sorted = append([]*Field(nil), s.Fields...)
		sort.SliceStable(s.sorted, func(i, j int) bool { return s.sorted[i].Order < s.sorted[j].Order })
	}
	return s.sorted
}

type Base int

const (
	Plain Base = iota
	Full
	Any
)

type Box struct {
	Name     string
	Base     Base
	Type     mp4.BoxType // the type's own GetType, or the first registered type if Any
	S        *Struct
	Structs  []*Struct // all, the outermost first
	Prefix   int       // hook: bytes read by BeforeUnmarshal
	Override bool      // BeforeUnmarshal reads everything
	PHook    bool      // IsPString defined
	Fixed    bool      // no field takes what is left
	Hooks    map[string]map[string]*Field
	Regs     []*Reg
}

// Reg is one registration.
type Reg struct {
	Box      *Box
	Type     mp4.BoxType
	Versions []uint8
	Mask     uint8 // context bits looked at
	Val      uint8
	Ex       bool
}

// CtxBits packs a context.
func CtxBits(c mp4.Context) uint8 {
	var b uint8
	for i, x := range []bool{c.IsQuickTimeCompatible, c.UnderWave, c.UnderIlst, c.UnderIlstMeta, c.UnderIlstFreeMeta, c.UnderUdta, c.QuickTimeKeysMetaEntryCount > 2} {
		if x {
			b |= 1 << uint(i)
		}
	}
	return b
}

func (g *Reg) Matches(c mp4.Context) bool { return !g.Ex || CtxBits(c)&g.Mask == g.Val }

type maker struct {
	r     *rand.Rand
	box   *Box
	n     int
	top   []string // selectors of the outermost struct so far
	fixed bool     // only fields of known, unconditional size
	hooks bool     // the hooks can reach the fields of the current struct
}

func (m *maker) name(p string) string { m.n++; return fmt.Sprintf("%s%d", p, m.n) }

func newField(name string, k Kind) *Field {
	return &Field{Name: name, Kind: k, Len: -1, Ver: -1, NVer: -1}
}

var uintTypes = []string{"uint8", "uint16", "uint32", "uint64", "uint", "uintptr"}
var intTypes = []string{"int8", "int16", "int32", "int64", "int"}

func (m *maker) scalarType(k Kind, bits uint) string {
	ts := uintTypes
	if k == KInt {
		ts = intTypes
	}
	for {
		f := &Field{Go: ts[m.r.IntN(len(ts))]}
		if f.goBits() >= bits && (f.goBits() < 2*bits || f.goBits() == 8 || m.r.IntN(4) == 0) {
			return f.Go
		}
	}
}

func (m *maker) style(f *Field) {
	r := m.r
	switch r.IntN(8) {
	case 0:
		f.Hex = true
	case 1:
		f.Dec = true
	case 2:
		f.Hidden = r.IntN(2) == 0
		f.Const = !f.Hidden
	}
	if r.IntN(14) == 0 && !f.Hidden && !f.Const {
		f.Text = true
	}
}

// cond gives a run of fields the same random conditions.
func (m *maker) cond(fs []*Field, s *Struct, pre *[]*Field) {
	r := m.r
	if m.fixed || r.IntN(5) < 3 {
		return
	}
	ver, nver, opt, nopt := -1, -1, uint32(0), uint32(0)
	var rule *Rule
	switch r.IntN(7) {
	case 0, 1:
		ver = r.IntN(3)
	case 2:
		nver = r.IntN(3)
	case 3:
		opt = 1 << uint(r.IntN(24))
		if r.IntN(3) > 0 {
			opt = 1 << uint(r.IntN(3))
		}
		if r.IntN(4) == 0 {
			opt |= 1 << uint(r.IntN(24))
		}
	case 4:
		nopt = 1 << uint(r.IntN(3))
		if r.IntN(3) == 0 {
			nopt |= 1 << uint(r.IntN(24))
		}
	case 5:
		rule = m.rule(s, pre, 0, 1, 2)
	case 6:
		ver, opt = r.IntN(3), 1<<uint(r.IntN(3))
		if r.IntN(2) == 0 {
			rule = m.rule(s, pre, 0, 1, 2)
		}
	}
	for _, f := range fs {
		f.Ver, f.NVer, f.Opt, f.NOpt, f.OptRule = ver, nver, opt, nopt, rule
	}
}

// rule makes a rule with values a+b*[0..mod).
func (m *maker) rule(s *Struct, pre *[]*Field, a, b, mod uint64) *Rule {
	r := m.r
	switch r.IntN(6) {
	case 0:
		return &Rule{Kind: RQT, A: a + b*r.Uint64N(mod), B: a + b*r.Uint64N(mod)}
	case 1:
		k := RUdta
		if r.IntN(2) == 0 && !s.Own && m.box.Base == Full {
			k = []RuleKind{RVer, RFlags}[r.IntN(2)]
		}
		return &Rule{Kind: k, A: a + b*r.Uint64N(mod), B: a + b*r.Uint64N(mod)}
	case 2:
		return &Rule{Kind: RKeys, A: a, B: b, Mod: mod}
	}
	sel := ""
	isTop := s == m.box.S
	if isTop || s.Own {
		if isTop && len(m.top) > 0 && r.IntN(3) == 0 {
			sel = m.top[r.IntN(len(m.top))]
		} else {
			f := newField(m.name("S"), KUint)
			f.Size = uint(8 << uint(r.IntN(3)))
			f.Go = m.scalarType(KUint, f.Size)
			m.style(f)
			*pre = append(*pre, f)
			sel = f.Name
			if isTop {
				m.top = append(m.top, sel)
			}
		}
	} else if len(m.top) > 0 {
		sel = m.top[r.IntN(len(m.top))]
	} else {
		return &Rule{Kind: RQT, A: a + b*r.Uint64N(mod), B: a + b*r.Uint64N(mod)}
	}
	return &Rule{Kind: RSel, Sel: sel, A: a, B: b, Mod: mod}
}

// bits is a run of small fields that together fill bytes.
func (m *maker) bits() []*Field {
	r := m.r
	total := uint(8 << uint(r.IntN(4)))
	if r.IntN(4) == 0 {
		total = uint(8 * (1 + r.IntN(8)))
	}
	var out []*Field
	for left := total; left > 0; {
		w := 1 + uint(r.IntN(int(min(left, 64))))
		if r.IntN(3) == 0 {
			w = min(left, 64)
		}
		k := KUint
		switch r.IntN(5) {
		case 0:
			k = KInt
		case 1:
			k = KBool
			if r.IntN(3) > 0 {
				w = 1
			}
		}
		f := newField(m.name("F"), k)
		f.Size = w
		if k == KBool {
			f.Go = "bool"
		} else {
			f.Go = m.scalarType(k, w)
		}
		m.style(f)
		if k == KUint && r.IntN(12) == 0 && !m.fixed && m.hooks {
			f.Xor = r.Uint64()
			if w < 64 {
				f.Xor &= 1<<w - 1
			}
		}
		if r.IntN(15) == 0 {
			f.Wrap = []Wrap{{K: Ptr}}
			f.Xor = 0
		}
		out = append(out, f)
		left -= w
	}
	return out
}

func bitSum(fs []*Field) uint {
	var n uint
	for _, f := range fs {
		k := uint(1)
		for _, w := range f.Wrap {
			if w.K == Arr {
				k *= uint(w.N)
			}
			if w.K == Slice {
				k *= uint(f.Len)
			}
		}
		if f.Kind == KStruct && f.Size == 0 {
			n += k * bitSum(f.S.Fields)
		} else {
			n += k * f.Size
		}
	}
	return n
}

// array is a fixed array.
func (m *maker) array() []*Field {
	r := m.r
	f := newField(m.name("A"), KUint)
	switch r.IntN(6) {
	case 0:
		f.Go, f.Size, f.UUID, f.Wrap = "uint8", 8, true, []Wrap{{Arr, 16}}
	case 1:
		f.Go, f.Size, f.ISO, f.Wrap = "uint8", 5, true, []Wrap{{Arr, 3}}
		p := newField(m.name("F"), KUint)
		p.Go, p.Size, p.Hidden = "uint8", 1, true
		if r.IntN(2) == 0 {
			return []*Field{p, f}
		}
		return []*Field{f, p}
	case 2:
		f.Go, f.Size, f.Str, f.Wrap = "uint8", 8, true, []Wrap{{Arr, 1 + r.IntN(10)}}
	case 3:
		f.Go, f.Size, f.Wrap = "uint8", 8, []Wrap{{Arr, 1 + r.IntN(10)}}
		f.Dec = r.IntN(2) == 0
	case 4: // arrays of arrays
		f.Size = uint(8 * (1 + r.IntN(3)))
		f.Go = m.scalarType(KUint, f.Size)
		if f.Go == "uint8" {
			f.Go = "uint16"
		}
		f.Wrap = []Wrap{{Arr, 1 + r.IntN(3)}, {Arr, 1 + r.IntN(3)}}
	default:
		n := 1 + r.IntN(8)
		f.Kind = []Kind{KUint, KInt, KBool}[r.IntN(3)]
		f.Size = uint(1 + r.IntN(33))
		for f.Size*uint(n)%8 != 0 {
			n++
		}
		if f.Kind == KBool {
			f.Go = "bool"
		} else {
			f.Go = m.scalarType(f.Kind, f.Size)
		}
		f.Wrap = []Wrap{{Arr, n}}
	}
	f.Hidden = r.IntN(10) == 0
	return []*Field{f}
}

// elem gives a counted field its element type.
func (m *maker) elem(f *Field, depth int) {
	r := m.r
	switch r.IntN(8) {
	case 0, 1:
		f.Kind, f.Go, f.Size = KUint, "uint8", 8
		switch r.IntN(4) {
		case 0:
			f.Str = true
		case 1:
			f.Dec = true
		}
	case 2, 3:
		f.Kind = []Kind{KUint, KInt}[r.IntN(2)]
		f.Size = uint(8 * (1 + r.IntN(8)))
		f.Go = m.scalarType(f.Kind, f.Size)
		f.Hex = r.IntN(3) == 0
		if f.Size == 8 && f.Go == "uint8" {
			f.Hex = false
		}
	case 4:
		f.Kind, f.Go = KString, "string"
	case 5:
		f.Kind, f.Go, f.Size = KBool, "bool", 8
	default:
		if depth >= 3 {
			f.Kind, f.Go, f.Size = KUint, "uint32", 32
			return
		}
		f.Kind = KStruct
		m.structField(f, depth)
		if r.IntN(5) == 0 {
			f.Wrap = append(f.Wrap, Wrap{K: Ptr})
		}
	}
}

// narrow gives a list elements that are no whole bytes and says how many of them fill bytes.
func (m *maker) narrow(f *Field) int {
	r := m.r
	w := []uint{1, 2, 3, 4, 4, 5, 6, 7, 12}[r.IntN(9)]
	f.Kind, f.Size = KUint, w
	f.Go = "uint8"
	switch {
	case w > 8:
		f.Go = "uint16"
	case r.IntN(3) == 0:
		f.Kind, f.Go = KInt, "int8"
	case r.IntN(4) == 0:
		f.Go = "uint16"
	}
	f.S, f.Str, f.Dec, f.Hex = nil, false, r.IntN(4) == 0, false
	if f.Go == "uint8" && w == 5 && !f.Dec {
		f.ISO = r.IntN(2) == 0
	}
	f.Wrap = []Wrap{{K: Slice}}
	n := 1
	for w*uint(n)%8 != 0 {
		n++
	}
	return n
}

// structField gives a field a struct type, sized or not.
func (m *maker) structField(f *Field, depth int) {
	r := m.r
	if m.fixed || r.IntN(4) == 0 {
		saved := m.fixed
		m.fixed = true
		f.S = m.strct(depth+1, false, false)
		m.fixed = saved
		if r.IntN(2) == 0 && !saved {
			f.Size = bitSum(f.S.Fields)
			if r.IntN(2) == 0 { // what is left goes to the last field
				k := uint(r.IntN(6))
				l := newField(m.name("L"), KUint)
				l.Go, l.Size, l.Order = "uint8", 8, 1<<40
				if r.IntN(3) == 0 && k%2 == 0 {
					l.Go, l.Size = "uint16", 16
				} else if r.IntN(3) == 0 {
					l.Kind, l.Go = KInt, "int8"
				}
				l.Wrap = []Wrap{{K: Slice}}
				f.S.Fields = append(f.S.Fields, l)
				f.S.sorted = nil
				f.Size += 8 * k
				if f.Size == 0 {
					f.Size = 8 * l.Size
				}
			}
		}
		return
	}
	f.S = m.strct(depth+1, r.IntN(3) == 0, false)
}

func (m *maker) strct(depth int, own, top bool) *Struct {
	r := m.r
	s := &Struct{Name: m.name(m.box.Name + "N"), Own: own}
	if top {
		s.Name = m.box.Name
		m.box.S = s
	}
	m.box.Structs = append(m.box.Structs, s)
	var all []*Field
	ng := 1 + r.IntN(4)
	if top {
		ng = 1 + r.IntN(6)
	}
	many := !m.fixed && r.IntN(12) == 0
	if many {
		ng = 8 + r.IntN(10)
	}
	for g := 0; g < ng; g++ {
		var pre, fs []*Field
		m.hooks = top || own
		c := r.IntN(16)
		if m.fixed && c >= 8 {
			c = r.IntN(8)
		}
		switch {
		case c < 5:
			fs = m.bits()
		case c < 7:
			fs = m.array()
		case c < 8: // counted list of known length
			f := newField(m.name("C"), KUint)
			f.Wrap = []Wrap{{K: Slice}}
			f.Len = r.IntN(5)
			if m.fixed {
				f.Go, f.Size = "uint16", 16
				if r.IntN(2) == 0 {
					f.Go, f.Size = "uint8", 8
				}
			} else {
				m.elem(f, depth)
			}
			if r.IntN(4) == 0 {
				f.Len = m.narrow(f) * r.IntN(4)
			}
			fs = []*Field{f}
		case c < 11: // counted list of dynamic length
			f := newField(m.name("C"), KUint)
			f.Wrap = []Wrap{{K: Slice}}
			if r.IntN(5) == 0 {
				k := uint64(m.narrow(f))
				f.LenRule = m.rule(s, &pre, k*uint64(r.IntN(3)), k*uint64(1+r.IntN(2)), uint64(2+r.IntN(6)))
				fs = []*Field{f}
				break
			}
			f.LenRule = m.rule(s, &pre, uint64(r.IntN(3)), uint64(1+r.IntN(2)), uint64(2+r.IntN(12)))
			m.elem(f, depth)
			fs = []*Field{f}
		case c < 12:
			f := newField(m.name("T"), KString)
			f.Go = "string"
			f.Str = r.IntN(2) == 0
			if r.IntN(8) == 0 {
				f.Text = true
			}
			if r.IntN(12) == 0 {
				f.Wrap = []Wrap{{K: Ptr}}
			}
			fs = []*Field{f}
		case c < 13:
			f := newField(m.name("V"), KUint)
			f.Go = []string{"uint32", "uint64", "uint"}[r.IntN(3)]
			f.Varint = true
			fs = []*Field{f}
		case c < 14: // dynamic size
			f := newField(m.name("D"), []Kind{KUint, KInt, KBool}[r.IntN(3)])
			f.SizeRule = m.rule(s, &pre, 8, 8, uint64(1+r.IntN(7)))
			f.Go = []string{"uint64", "int64", "bool"}[f.Kind]
			switch r.IntN(4) {
			case 0:
				f.Wrap = []Wrap{{K: Arr, N: 1 + r.IntN(3)}}
			case 1:
				f.Wrap = []Wrap{{K: Slice}}
				f.Len = r.IntN(4)
			}
			f.Hex = r.IntN(3) == 0
			fs = []*Field{f}
		default: // nested struct
			if depth >= 3 {
				fs = m.bits()
				break
			}
			f := newField(m.name("N"), KStruct)
			f.Ext = r.IntN(2) == 0
			if r.IntN(3) == 0 {
				f.Wrap = []Wrap{{K: Ptr}}
			} else if r.IntN(4) == 0 {
				f.Wrap = []Wrap{{Arr, 1 + r.IntN(2)}}
				f.Ext = false
			}
			m.structField(f, depth)
			fs = []*Field{f}
		}
		if r.IntN(10) == 0 && !m.fixed && len(fs) > 0 && fs[0].Kind != KStruct {
			fs[0].Pad = uint(8 * (1 + r.IntN(3)))
			fs[0].PadVal = r.Uint64() & (1<<fs[0].Pad - 1)
		}
		if r.IntN(14) == 0 && !m.fixed && len(fs) > 0 { // not aligned to bytes
			w := uint(1 + r.IntN(7))
			a, b := newField(m.name("F"), KUint), newField(m.name("F"), KUint)
			a.Go, a.Size, b.Go, b.Size = "uint8", w, "uint16", 8-w
			fs = append(append([]*Field{a}, fs...), b)
		}
		m.cond(fs, s, &pre)
		all = append(append(all, pre...), fs...)
	}
	if top {
		m.last(&all, s, depth)
		if r.IntN(25) == 0 { // does not fill its last byte
			f := newField(m.name("F"), KUint)
			f.Go, f.Size = "uint8", uint(1+r.IntN(7))
			if m.box.Fixed {
				all = append(all, f)
			}
		}
	}
	// wire order by tag, declared in any order; equal orders in the order of declaration
	ties := 0
	switch r.IntN(5) {
	case 0:
		ties = 1000
	case 1, 2:
		ties = 1
	}
	ord, step := 1+r.IntN(3), 1
	switch r.IntN(8) {
	case 0: // any numbers
		ord, step = 1+r.IntN(1<<20), []int{90, 128, 256, 65536, 1 << 24}[r.IntN(5)]
	case 1:
		if !top || m.box.Base != Full { // a full box's own fields are number 0
			ord, step = -1-r.IntN(10), 1
		}
	case 2:
		ord, step = 120+r.IntN(140), 1
	}
	for i, f := range all {
		if i > 0 && (ties == 0 || ties == 1 && r.IntN(4) == 0) {
			ord += step * (1 + r.IntN(2))
		}
		f.Order = ord
	}
	s.Fields = append([]*Field(nil), all...)
	if r.IntN(2) == 0 && len(all) > 1 {
		k := len(all)
		if all[k-1].BoxStr {
			k--
		}
		r.Shuffle(k, func(i, j int) { s.Fields[i], s.Fields[j] = s.Fields[j], s.Fields[i] })
		next := map[int][]*Field{}
		for _, f := range all[:k] {
			next[f.Order] = append(next[f.Order], f)
		}
		for i, f := range s.Fields[:k] {
			s.Fields[i] = next[f.Order][0]
			next[f.Order] = next[f.Order][1:]
		}
	}
	return s
}

// last adds a field that takes what is left of the payload.
func (m *maker) last(all *[]*Field, s *Struct, depth int) {
	r := m.r
	m.box.Fixed = true
	if r.IntN(2) == 0 {
		return
	}
	m.box.Fixed = false
	f := newField(m.name("L"), KUint)
	f.Wrap = []Wrap{{K: Slice}}
	switch r.IntN(9) {
	case 0:
		f.Go, f.Size = "uint8", 8
	case 1:
		f.Go, f.Size, f.Str = "uint8", 8, true
	case 2:
		f.Kind = []Kind{KUint, KInt}[r.IntN(2)]
		f.Size = uint(8 * (1 + r.IntN(8)))
		f.Go = m.scalarType(f.Kind, f.Size)
	case 3: // sized structs
		m.fixed = true
		f.Kind, f.S = KStruct, m.strct(depth+1, false, false)
		m.fixed = false
		f.Size = bitSum(f.S.Fields)
		if f.Size == 0 {
			f.Kind, f.S, f.Go, f.Size = KUint, nil, "uint8", 8
		}
	case 4: // structs of any size
		f.Kind, f.S = KStruct, m.strct(depth+1, r.IntN(2) == 0, false)
		if r.IntN(4) == 0 {
			f.Wrap = append(f.Wrap, Wrap{K: Ptr})
		}
	case 5:
		f.Kind, f.Go, f.Wrap, f.BoxStr = KString, "string", nil, true
	case 6:
		f.Kind, f.Go = KString, "string"
	case 7:
		f.Kind, f.Go, f.Wrap = KString, "string", nil
		f.CP = r.IntN(3) == 0
		f.Str = true
	case 8: // a list of arrays
		f.Size = 8 * uint(1+r.IntN(2))
		f.Go = []string{"", "uint16", "uint32"}[f.Size/8]
		f.Wrap = []Wrap{{K: Slice}, {Arr, 1 + r.IntN(3)}}
	}
	var pre []*Field
	fs := []*Field{f}
	if r.IntN(4) == 0 {
		m.cond(fs, s, &pre)
	}
	*all = append(append(*all, pre...), f)
}

// Make invents n declarations and their registrations.
func Make(seed uint64, n int) ([]*Box, []*Reg) {
	r := rand.New(rand.NewPCG(seed, 0xdec1))
	var boxes []*Box
	var regs []*Reg
	used := map[mp4.BoxType]bool{}
	var types []mp4.BoxType
	newType := func() mp4.BoxType {
		for {
			var t mp4.BoxType
			switch r.IntN(8) {
			case 0: // numbered, as items of a list are
				t = mp4.BoxType{0, 0, 0, byte(1 + r.IntN(40))}
			case 1: // a type the library defines
				known := []string{"free", "tkhd", "trun", "meta", "data", "udta", "stts", "sidx", "colr", "\xa9nam", "wave", "avcC", "titl"}
				copy(t[:], known[r.IntN(len(known))])
			case 2:
				for i := range t {
					t[i] = byte(r.Uint32())
				}
			default:
				for i := range t {
					t[i] = "abcdefghijklmnopqrstuvwxyz0123456789 -_"[r.IntN(39)]
				}
			}
			if !used[t] && t != (mp4.BoxType{}) {
				used[t] = true
				types = append(types, t)
				return t
			}
			if r.IntN(3) == 0 && used[t] {
				return t
			}
		}
	}
	for i := 0; i < n; i++ {
		b := &Box{Name: fmt.Sprintf("U%d", i), Base: []Base{Full, Full, Plain, Any}[r.IntN(4)]}
		m := &maker{r: r, box: b}
		m.strct(1, false, true)
		b.S.Own = true
		if r.IntN(12) == 0 {
			b.Prefix = 1 + r.IntN(6)
			b.Override = r.IntN(4) == 0
		}
		b.PHook = r.IntN(2) == 0
		if i == 0 || r.IntN(3) > 0 {
			b.Type = newType()
		} else {
			b.Type = types[r.IntN(len(types))]
		}
		nr := 1
		if r.IntN(6) == 0 {
			nr = 2
		}
		for k := 0; k < nr; k++ {
			g := &Reg{Box: b, Type: b.Type}
			if b.Base == Any && k > 0 {
				g.Type = newType()
			}
			if r.IntN(2) == 0 {
				g.Ex = true
				switch r.IntN(3) {
				case 0:
					g.Mask = 1 << uint(r.IntN(7))
				default:
					g.Mask = uint8(r.IntN(128)) & uint8(r.IntN(128))
				}
				g.Val = g.Mask & uint8(r.IntN(128))
			}
			if b.Base == Full || r.IntN(4) == 0 {
				switch r.IntN(4) {
				case 0:
				case 1:
					g.Versions = []uint8{0}
				case 2:
					g.Versions = []uint8{uint8(r.IntN(3)), uint8(3 + r.IntN(3))}
				case 3:
					g.Versions = []uint8{0, 1, 2}
				}
			}
			regs = append(regs, g)
			b.Regs = append(b.Regs, g)
		}
		b.tags(r)
		boxes = append(boxes, b)
	}
	r.Shuffle(len(regs), func(i, j int) { regs[i], regs[j] = regs[j], regs[i] })
	return boxes, regs
}

// tags writes the field tags and collects which hooks each struct needs.
func (b *Box) tags(r *rand.Rand) {
	b.Hooks = map[string]map[string]*Field{}
	for _, s := range b.Structs {
		owner := b.S.Name
		if s.Own {
			owner = s.Name
		}
		if b.Hooks[owner] == nil {
			b.Hooks[owner] = map[string]*Field{}
		}
		for _, f := range s.Fields {
			b.Hooks[owner][f.Name] = f
			var parts []string
			add := func(format string, a ...any) { parts = append(parts, fmt.Sprintf(format, a...)) }
			if f.SizeRule != nil {
				add("size=dynamic")
			} else if f.Size != 0 {
				add("size=%d", f.Size)
			}
			if f.LenRule != nil {
				add("len=dynamic")
			} else if f.Len >= 0 {
				add("len=%d", f.Len)
			}
			if f.Ver >= 0 {
				add("ver=%d", f.Ver)
			}
			if f.NVer >= 0 {
				add("nver=%d", f.NVer)
			}
			flag := func(k string, v uint32) {
				if r.IntN(2) == 0 {
					add("%s=0x%06x", k, v)
				} else {
					add("%s=%d", k, v)
				}
			}
			if f.OptRule != nil {
				add("opt=dynamic")
			} else if f.Opt != 0 {
				flag("opt", f.Opt)
			}
			if f.NOpt != 0 {
				flag("nopt", f.NOpt)
			}
			for k, on := range map[string]bool{"hex": f.Hex, "dec": f.Dec, "iso639-2": f.ISO, "uuid": f.UUID, "hidden": f.Hidden, "extend": f.Ext, "varint": f.Varint, "boxstring": f.BoxStr} {
				if on {
					parts = append(parts, k)
				}
			}
			if f.CP {
				add("string=c_p")
			} else if f.Str {
				add("string")
			}
			if f.Const {
				add("const=%d", r.IntN(10))
			}
			sort.Strings(parts)
			r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			parts = append([]string{fmt.Sprint(f.Order)}, parts...)
			if r.IntN(6) == 0 {
				r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			}
			if r.IntN(4) == 0 { // blanks are of no importance
				for i, p := range parts {
					p = strings.Replace(p, "=", []string{"=", " =", "= ", "  = "}[r.IntN(4)], 1)
					parts[i] = strings.Repeat(" ", r.IntN(3)) + p + strings.Repeat(" ", r.IntN(3))
				}
			}
			f.Tag = strings.Join(parts, []string{",", ", "}[r.IntN(2)])
			f.TypeGo = f.Go
			if f.Kind == KStruct {
				f.TypeGo = f.S.Name
			}
			for i := len(f.Wrap) - 1; i >= 0; i-- {
				switch w := f.Wrap[i]; w.K {
				case Ptr:
					f.TypeGo = "*" + f.TypeGo
				case Arr:
					f.TypeGo = fmt.Sprintf("[%d]%s", w.N, f.TypeGo)
				case Slice:
					f.TypeGo = "[]" + f.TypeGo
				}
			}
		}
	}
}

func hooked(fs map[string]*Field, is func(*Field) bool) bool {
	for _, f := range fs {
		if is(f) {
			return true
		}
	}
	return false
}

// Source is the Go source of the declarations.
func Source(seed uint64, n int) string {
	boxes, _ := Make(seed, n)
	var sb strings.Builder
	p := func(format string, a ...any) { fmt.Fprintf(&sb, format, a...) }
	p("// Code generated by genu. DO NOT EDIT.\npackage ubox\n\nimport (\n\t\"io\"\n\n\tmp4 \"github.com/abema/go-mp4\"\n\t\"github.com/abema/go-mp4/verifbridge\"\n)\n\n")
	p("var _ io.Reader\nvar _ verifbridge.Reader\n\nconst Seed, N = %d, %d\n\nfunc init() {\n", seed, n)
	for _, b := range boxes {
		p("\tmade[%q] = func() mp4.IBox { return &%s{} }\n", b.Name, b.Name)
	}
	p("}\n\n")
	for _, b := range boxes {
		for i, s := range b.Structs {
			p("type %s struct {\n", s.Name)
			if i == 0 {
				switch b.Base {
				case Plain:
					p("\tmp4.Box\n")
				case Full:
					p("\tmp4.FullBox `mp4:\"0,extend\"`\n")
				case Any:
					p("\tmp4.AnyTypeBox\n")
				}
				p("\tObs Obs\n")
			} else if s.Own {
				p("\tmp4.BaseCustomFieldObject\n")
			}
			for _, f := range s.Fields {
				p("\t%s %s `mp4:%q`\n", f.Name, f.TypeGo, f.Tag)
			}
			p("}\n\n")
			if i == 0 && b.Base != Any {
				p("func (*%s) GetType() mp4.BoxType { return mp4.BoxType{%d, %d, %d, %d} }\n\n", s.Name, b.Type[0], b.Type[1], b.Type[2], b.Type[3])
			}
			fs := b.Hooks[s.Name]
			if fs == nil {
				continue
			}
			if hooked(fs, func(f *Field) bool { return f.SizeRule != nil }) {
				p("func (b *%s) GetFieldSize(name string, ctx mp4.Context) uint { return size(b, name, ctx) }\n", s.Name)
			}
			if hooked(fs, func(f *Field) bool { return f.LenRule != nil }) {
				p("func (b *%s) GetFieldLength(name string, ctx mp4.Context) uint { return length(b, name, ctx) }\n", s.Name)
			}
			if hooked(fs, func(f *Field) bool { return f.OptRule != nil }) {
				p("func (b *%s) IsOptFieldEnabled(name string, ctx mp4.Context) bool { return opt(b, name, ctx) }\n", s.Name)
			}
			if hooked(fs, func(f *Field) bool { return f.Text }) {
				p("func (b *%s) StringifyField(name string, indent string, depth int, ctx mp4.Context) (string, bool) { return text(b, name) }\n", s.Name)
			}
			if hooked(fs, func(f *Field) bool { return f.Pad != 0 || f.Xor != 0 }) {
				p("func (b *%s) OnReadField(name string, r verifbridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) { return onRead(b, name, r, left, ctx) }\n", s.Name)
				p("func (b *%s) OnWriteField(name string, w verifbridge.Writer, ctx mp4.Context) (uint64, bool, error) { return onWrite(b, name, w, ctx) }\n", s.Name)
			}
			if i == 0 && b.Prefix > 0 {
				p("func (b *%s) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) { return before(b, r, size, %d, %v) }\n", s.Name, b.Prefix, b.Override)
			}
			if b.PHook && hooked(fs, func(f *Field) bool { return f.CP }) {
				p("func (b *%s) IsPString(name string, data []byte, remaining uint64, ctx mp4.Context) bool { return remaining == 0 }\n", s.Name)
			}
			p("\n")
		}
	}
	return sb.String()
}
