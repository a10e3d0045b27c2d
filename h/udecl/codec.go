package udecl

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/spec"
)

var ErrBits = errors.New("model: the fields do not fill bytes")
var ErrOverridden = errors.New("model: decoding is left to a hook")

type failure struct{ err error }

// codec generates or decodes values of a declaration.
type codec struct {
	dec   bool
	box   *Box
	reg   *Reg
	ctx   mp4.Context
	r     *rand.Rand
	data  []byte
	pos   int
	limit int // decode: end of the innermost container; generate: the same if bound
	bound bool
	ver   uint8
	flags uint32
	root  *spec.Node
	cur   *spec.Node
	max   int
	left  map[string]uint64
}

func (c *codec) fail(err error) { panic(failure{err}) }

func (c *codec) get(n int) uint64 {
	if c.pos+n > c.limit {
		c.fail(spec.ErrTrunc)
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(c.data[c.pos/8]>>(7-uint(c.pos%8))&1)
		c.pos++
	}
	return v
}

func (c *codec) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if c.pos%8 == 0 {
			c.data = append(c.data, 0)
		}
		if v>>uint(i)&1 != 0 {
			c.data[c.pos/8] |= 1 << (7 - uint(c.pos%8))
		}
		c.pos++
	}
}

func (c *codec) sel(owner *spec.Node) func(string) uint64 {
	return func(name string) uint64 {
		if k := owner.Kid(name); k != nil {
			return k.U
		}
		return 0
	}
}

func (c *codec) eval(r *Rule, owner *spec.Node) uint64 {
	return r.Eval(c.ctx, c.ver, c.flags, c.sel(owner))
}

func (c *codec) strct(s *Struct, n *spec.Node) {
	owner := c.root
	if s.Own {
		owner = n
	}
	for _, f := range s.Sorted() {
		if f.Ver >= 0 && int(c.ver) != f.Ver || f.NVer >= 0 && int(c.ver) == f.NVer ||
			f.Opt != 0 && f.OptRule == nil && c.flags&f.Opt == 0 || f.NOpt != 0 && c.flags&f.NOpt != 0 ||
			f.OptRule != nil && c.eval(f.OptRule, owner) == 0 {
			continue
		}
		size, ln := f.Size, f.Len
		if f.SizeRule != nil {
			size = uint(c.eval(f.SizeRule, owner))
		}
		if f.LenRule != nil {
			ln = int(c.eval(f.LenRule, owner))
		}
		if f.Pad != 0 {
			c.left[f.Name] = uint64(c.limit - c.pos)
			if !c.dec {
				c.put(f.PadVal, int(f.Pad))
			} else {
				c.get(int(f.Pad)) // whatever it holds
			}
		}
		if f.Xor != 0 {
			k := &spec.Node{Name: f.Name, Kind: spec.KUint, Bits: int(size), U8: f.Go == "uint8"}
			c.opts(k, f)
			if c.dec {
				k.U = c.get(int(size)) ^ f.Xor
			} else {
				k.U = spec.DrawUint(c.r, int(size))
				c.put(k.U^f.Xor, int(size))
			}
			n.Kids = append(n.Kids, k)
			continue
		}
		k := c.value(f, f.Wrap, size, ln)
		k.Name = f.Name
		n.Kids = append(n.Kids, k)
	}
}

func (c *codec) opts(k *spec.Node, f *Field) {
	k.O.Hex = f.Hex || f.Go == "uintptr"
	k.O.Dec = f.Dec
	k.O.Hidden = f.Hidden
	k.O.Const = f.Const
	k.O.Ext = f.Ext && f.Kind == KStruct
	k.U8 = f.Go == "uint8"
	if f.Text {
		name := f.Name
		k.O.Custom = func(*spec.Node) (string, bool) { return "<" + name + ">", true }
	}
}

func (c *codec) value(f *Field, wrap []Wrap, size uint, ln int) *spec.Node {
	if len(wrap) == 0 {
		return c.scalar(f, size)
	}
	w := wrap[0]
	if w.K == Ptr {
		return c.value(f, wrap[1:], size, ln)
	}
	l := &spec.Node{Kind: spec.KList}
	c.opts(l, f)
	if f.Go == "uint8" && len(wrap) == 1 {
		l.Kind = spec.KBytes
		l.O.Str, l.O.ISO, l.O.UUID = f.Str, f.ISO, f.UUID
	}
	n := w.N
	rest := false
	if w.K == Slice {
		n = ln
		if ln < 0 {
			rest = true
			n = 1 << 40
			if c.dec || c.bound {
				left := c.limit - c.pos
				if left < 0 {
					c.fail(spec.ErrTrunc)
				}
				if size != 0 && left%int(size) != 0 {
					c.fail(spec.ErrAlign)
				}
			} else {
				n = c.r.IntN(c.max + 1)
			}
		}
	}
	for i := 0; i < n; i++ {
		if rest && (c.dec || c.bound) && c.pos >= c.limit {
			break
		}
		start := c.pos
		e := c.value(f, wrap[1:], size, ln)
		e.O.Custom = nil
		if rest && c.pos == start {
			if c.dec {
				c.fail(spec.ErrAlign)
			}
			break
		}
		if l.Kind == spec.KBytes {
			l.Raw = append(l.Raw, byte(e.U))
		} else {
			l.Kids = append(l.Kids, e)
		}
	}
	return l
}

func (c *codec) scalar(f *Field, size uint) *spec.Node {
	n := &spec.Node{Bits: int(size)}
	c.opts(n, f)
	switch f.Kind {
	case KStruct:
		n.Kind = spec.KStruct
		if size != 0 && size%8 == 0 {
			savedLimit, savedBound := c.limit, c.bound
			end := c.pos + int(size)
			if c.dec && end > c.limit {
				// the fields may still end before the container does, but not fill it
				c.fail(spec.ErrTrunc)
			}
			c.limit, c.bound = end, true
			c.strct(f.S, n)
			if c.pos != end {
				c.fail(spec.ErrAlign)
			}
			c.limit, c.bound = savedLimit, savedBound
		} else {
			c.strct(f.S, n)
		}
	case KString:
		n.Kind = spec.KString
		n.S = c.str(f)
	case KUint:
		n.Kind = spec.KUint
		switch {
		case f.Varint && c.dec:
			for k := 0; ; k++ {
				b := c.get(8)
				if n.U>>57 != 0 {
					c.fail(spec.ErrRange)
				}
				n.U = n.U<<7 | b&0x7f
				if b&0x80 == 0 {
					break
				}
			}
			if f.Go == "uint32" && n.U>>32 != 0 {
				c.fail(spec.ErrRange)
			}
		case f.Varint:
			n.U = spec.DrawUint(c.r, 28)
			for s := 21; s > 0; s -= 7 {
				c.put(n.U>>uint(s)&0x7f|0x80, 8)
			}
			c.put(n.U&0x7f, 8)
		case c.dec:
			n.U = c.get(int(size))
		default:
			n.U = spec.DrawUint(c.r, int(size))
			c.put(n.U, int(size))
		}
	case KInt:
		n.Kind = spec.KInt
		var v uint64
		if c.dec {
			v = c.get(int(size))
		} else {
			v = spec.DrawUint(c.r, int(size))
			c.put(v, int(size))
		}
		n.I = int64(v<<(64-size)) >> (64 - size)
	case KBool:
		n.Kind = spec.KBool
		if c.dec {
			n.B = c.get(int(size)) != 0
		} else {
			n.B = c.r.IntN(2) == 0
			if n.B {
				c.put(^uint64(0), int(size))
			} else {
				c.put(0, int(size))
			}
		}
	}
	return n
}

func (c *codec) str(f *Field) string {
	if !c.dec {
		s := spec.DrawText(c.r, 3*c.max)
		for _, b := range []byte(s) {
			c.put(uint64(b), 8)
		}
		if !f.BoxStr {
			c.put(0, 8)
		}
		return s
	}
	if f.CP {
		left := (c.limit - c.pos) / 8
		if left >= 2 {
			if c.pos%8 != 0 {
				c.fail(spec.ErrUnspecified)
			}
			p := c.data[c.pos/8:]
			l := int(p[0])
			if l <= left-1 && (!c.box.PHook || left-1-l == 0) {
				c.pos += 8 * (1 + l)
				return string(p[1 : 1+l])
			}
		}
	}
	var b []byte
	for c.pos < c.limit {
		x := c.get(8)
		if x == 0 {
			if f.BoxStr {
				c.fail(spec.ErrUnspecified)
			}
			break
		}
		b = append(b, byte(x))
	}
	return string(b)
}

func (c *codec) run() {
	if c.dec && c.box.Prefix > 0 {
		c.get(8 * c.box.Prefix)
		if c.box.Override {
			c.fail(ErrOverridden)
		}
	}
	if c.box.Base == Full {
		fb := &spec.Node{Name: "FullBox", Kind: spec.KStruct}
		fb.O.Ext = true
		v := &spec.Node{Name: "Version", Kind: spec.KUint, Bits: 8, U8: true}
		v.O.Dec = true
		fl := &spec.Node{Name: "Flags", Kind: spec.KBytes}
		fl.O.Custom = func(n *spec.Node) (string, bool) {
			return fmt.Sprintf("0x%02x%02x%02x", n.Raw[0], n.Raw[1], n.Raw[2]), true
		}
		if c.dec {
			v.U = c.get(8)
			fl.Raw = []byte{byte(c.get(8)), byte(c.get(8)), byte(c.get(8))}
		} else {
			v.U = uint64(c.r.IntN(3))
			if len(c.reg.Versions) > 0 {
				v.U = uint64(c.reg.Versions[c.r.IntN(len(c.reg.Versions))])
			} else if c.r.IntN(8) == 0 {
				v.U = uint64(c.r.IntN(255))
			}
			x := uint32(c.r.IntN(8))
			switch c.r.IntN(3) {
			case 0:
				x = uint32(spec.DrawUint(c.r, 24))
			case 1:
				x |= 1 << uint(c.r.IntN(24))
			}
			fl.Raw = []byte{byte(x >> 16), byte(x >> 8), byte(x)}
			c.put(v.U, 8)
			c.put(uint64(x), 24)
		}
		c.ver = uint8(v.U)
		c.flags = uint32(fl.Raw[0])<<16 | uint32(fl.Raw[1])<<8 | uint32(fl.Raw[2])
		fb.Kids = []*spec.Node{v, fl}
		c.root.Kids = append(c.root.Kids, fb)
		if c.dec && len(c.reg.Versions) > 0 && !strings.ContainsRune(string(vs(c.reg.Versions)), rune(c.ver)) {
			c.fail(spec.ErrVersion)
		}
		if c.dec && c.ver == 255 {
			c.fail(spec.ErrUnspecified)
		}
	}
	c.strct(c.box.S, c.root)
	if c.pos%8 != 0 {
		c.fail(ErrBits)
	}
}

func vs(v []uint8) []rune {
	out := make([]rune, len(v))
	for i, x := range v {
		out[i] = rune(x)
	}
	return out
}

// Result of running a declaration.
type Result struct {
	spec.Result
	// Left is the number of bits that were left when each hooked field was read.
	Left map[string]uint64
}

func do(c *codec) (res Result) {
	c.root = &spec.Node{Kind: spec.KStruct}
	c.root.O.Ext = true
	c.left = map[string]uint64{}
	res.In = len(c.data)
	defer func() {
		res.Left = c.left
		if e := recover(); e != nil {
			f, ok := e.(failure)
			if !ok {
				panic(e)
			}
			res.Err = f.err
			if !c.dec {
				res.Root = c.root
			}
		}
	}()
	c.run()
	res.Root, res.N = c.root, c.pos/8
	if !c.dec {
		res.Data = c.data
	}
	return res
}

// Gen draws a value of the box as registered by g and encodes it.
func Gen(g *Reg, ctx mp4.Context, r *rand.Rand, max int) Result {
	return do(&codec{box: g.Box, reg: g, ctx: ctx, r: r, max: max})
}

// Decode decodes a payload.
func Decode(g *Reg, ctx mp4.Context, payload []byte) Result {
	return do(&codec{dec: true, box: g.Box, reg: g, ctx: ctx, data: payload, limit: 8 * len(payload)})
}
