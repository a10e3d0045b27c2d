// Package spec is an executable, hand-written description of the payload formats
// of every box type the library supports. It shares no code and no field tables
// with the library: each box is a function over a Codec, which runs either as a
// generator (drawing values and emitting bytes) or as a decoder (strictly bounded
// by the payload). Both produce a tree of named values.
package spec

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

type Kind int

const (
	KUint Kind = iota
	KInt
	KBool
	KString
	KBytes  // []uint8 or [N]uint8
	KList   // slice or array of anything else
	KStruct // struct, possibly extended (inlined)
	KPtr    // pointer to struct, extended
)

type Node struct {
	Name string
	Kind Kind
	U    uint64
	I    int64
	B    bool
	S    string
	Raw  []byte
	Kids []*Node
	Bits int
	U8   bool // Go type is uint8/byte
	O    fopt
}

func (n *Node) Kid(name string) *Node {
	for _, k := range n.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

type fopt struct {
	Hex, Dec, Str, ISO, UUID, Hidden, Const, Ext bool
	Derived                                      bool // not on the wire
	Counted                                      bool // length given elsewhere in the box
	Custom                                       func(n *Node) (string, bool)
	draw                                         func(r *rand.Rand) uint64
}

type Opt func(*fopt)

func Hex(o *fopt)    { o.Hex = true }
func Dec(o *fopt)    { o.Dec = true }
func Str(o *fopt)    { o.Str = true }
func ISO(o *fopt)    { o.ISO = true }
func UUID(o *fopt)   { o.UUID = true }
func Hidden(o *fopt) { o.Hidden = true }
func Const(o *fopt)  { o.Const = true }
func Custom(f func(n *Node) (string, bool)) Opt {
	return func(o *fopt) { o.Custom = f }
}
func Range(lo, hi uint64) Opt {
	return func(o *fopt) { o.draw = func(r *rand.Rand) uint64 { return lo + r.Uint64N(hi-lo+1) } }
}
func OneOf(vs ...uint64) Opt {
	return func(o *fopt) { o.draw = func(r *rand.Rand) uint64 { return vs[r.IntN(len(vs))] } }
}
func Fixed(v uint64) Opt { return OneOf(v) }

func mk(opts []Opt) fopt {
	var o fopt
	for _, f := range opts {
		f(&o)
	}
	return o
}

var (
	ErrTrunc       = errors.New("model: field does not fit in payload")
	ErrVersion     = errors.New("model: unsupported version")
	ErrAlign       = errors.New("model: fields do not fill their container")
	ErrUnspecified = errors.New("model: outcome not specified")
	ErrRange       = errors.New("model: number beyond what its field holds")
	ErrTooBig      = errors.New("model: zero-size elements in large number")
)

type failure struct{ err error }

// Codec runs a box description.
type Codec struct {
	Dec  bool
	Ctx  mp4.Context
	Type mp4.BoxType
	R    *rand.Rand
	// MaxList bounds generated list lengths, MaxBytes generated byte runs.
	MaxList, MaxBytes int
	// Huge, if not zero, is the length of one of the lists, runs or texts.
	Huge int
	Wild bool // generate arbitrary versions too (unused by default)

	data  []byte // decode: payload; encode: output
	pos   int    // bit position
	limit int    // decode: bit limit of the innermost container
	cur   *Node
	ver   uint8
	flags uint32
	marks []int
	rest  bool // a field took everything that was left
}

func (c *Codec) fail(err error) { panic(failure{err}) }

// Unspecified marks an input whose outcome the model does not fix.
func (c *Codec) Unspecified() { c.fail(ErrUnspecified) }

// Left is the number of bits left in the innermost container.
func (c *Codec) Left() int {
	if c.limit == len(c.data)*8 {
		c.rest = true
	}
	return c.limit - c.pos
}

func (c *Codec) getBits(n int) uint64 {
	if c.pos+n > c.limit {
		c.fail(ErrTrunc)
	}
	var v uint64
	for i := 0; i < n; {
		if c.pos%8 == 0 && n-i >= 8 {
			v = v<<8 | uint64(c.data[c.pos/8])
			c.pos += 8
			i += 8
			continue
		}
		b := c.data[c.pos/8] >> (7 - uint(c.pos%8)) & 1
		v = v<<1 | uint64(b)
		c.pos++
		i++
	}
	return v
}

func (c *Codec) putBits(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if c.pos%8 == 0 {
			c.data = append(c.data, 0)
		}
		if v>>uint(i)&1 != 0 {
			c.data[c.pos/8] |= 1 << (7 - uint(c.pos%8))
		}
		c.pos++
	}
}

func (c *Codec) putBytes(b []byte) {
	if c.pos%8 != 0 {
		for _, x := range b {
			c.putBits(uint64(x), 8)
		}
		return
	}
	c.data = append(c.data, b...)
	c.pos += 8 * len(b)
}

func (c *Codec) getBytes(n int) []byte {
	if n < 0 || n > (c.limit-c.pos)/8 {
		c.fail(ErrTrunc)
	}
	out := make([]byte, n)
	if c.pos%8 == 0 {
		copy(out, c.data[c.pos/8:])
		c.pos += 8 * n
		return out
	}
	for i := range out {
		out[i] = byte(c.getBits(8))
	}
	return out
}

func (c *Codec) add(n *Node) *Node { c.cur.Kids = append(c.cur.Kids, n); return n }

// DrawUint draws a value of the given width, biased to boundaries.
func DrawUint(r *rand.Rand, bits int) uint64 {
	var mask uint64 = ^uint64(0)
	if bits < 64 {
		mask = 1<<uint(bits) - 1
	}
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return mask
	case 2:
		return 1
	case 3:
		return (mask >> 1) + 1 // sign bit only
	case 4:
		return mask >> 1
	case 5:
		return (1 << uint(r.IntN(bits)))
	case 6:
		return uint64(r.IntN(256)) & mask
	case 7:
		return ^uint64(r.IntN(256)) & mask
	}
	return r.Uint64() & mask
}

func signExt(v uint64, bits int) int64 {
	return int64(v<<uint(64-bits)) >> uint(64-bits)
}

func (c *Codec) raw(bits int, o *fopt) uint64 {
	if c.Dec {
		return c.getBits(bits)
	}
	var v uint64
	if o.draw != nil {
		v = o.draw(c.R)
		if bits < 64 {
			v &= 1<<uint(bits) - 1
		}
	} else {
		v = DrawUint(c.R, bits)
	}
	if c.pos%8 == 0 && bits >= 16 && bits%8 == 0 {
		c.marks = append(c.marks, c.pos/8<<8|bits/8)
	}
	c.putBits(v, bits)
	return v
}

// U is an unsigned integer wider than a Go uint8 (printed in decimal by default).
func (c *Codec) U(name string, bits int, opts ...Opt) uint64 {
	o := mk(opts)
	v := c.raw(bits, &o)
	c.add(&Node{Name: name, Kind: KUint, U: v, Bits: bits, O: o})
	return v
}

// U8 is an unsigned integer held in a Go uint8 (printed in hexadecimal by default).
func (c *Codec) U8(name string, bits int, opts ...Opt) uint64 {
	o := mk(opts)
	v := c.raw(bits, &o)
	c.add(&Node{Name: name, Kind: KUint, U: v, Bits: bits, U8: true, O: o})
	return v
}

func (c *Codec) I(name string, bits int, opts ...Opt) int64 {
	o := mk(opts)
	v := signExt(c.raw(bits, &o), bits)
	c.add(&Node{Name: name, Kind: KInt, I: v, Bits: bits, O: o})
	return v
}

func (c *Codec) Bool(name string, opts ...Opt) bool {
	o := mk(opts)
	v := c.raw(1, &o) != 0
	c.add(&Node{Name: name, Kind: KBool, B: v, Bits: 1, O: o})
	return v
}

// Derived adds a boolean that is not on the wire.
func (c *Codec) Derived(name string, v bool) {
	c.add(&Node{Name: name, Kind: KBool, B: v, O: fopt{Derived: true, Hidden: true}})
}

var alphabets = []string{
	"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.:/",
	"{}[]=,\"'\\ <>&%",
	"\x01\x02\x07\x08\x09\x0a\x0b\x0c\x0d\x1b\x1f\x7f",
}

// DrawText draws a string without NUL bytes: ASCII, punctuation, control
// characters, multi-byte UTF-8, or arbitrary non-NUL bytes.
func DrawText(r *rand.Rand, max int) string {
	n := 0
	if max > 0 {
		n = r.IntN(max + 1)
	}
	var sb strings.Builder
	mode := r.IntN(6)
	for sb.Len() < n {
		switch {
		case mode < 2 || mode == 3 && r.IntN(3) > 0:
			a := alphabets[0]
			sb.WriteByte(a[r.IntN(len(a))])
		case mode == 2:
			a := alphabets[r.IntN(3)]
			sb.WriteByte(a[r.IntN(len(a))])
		case mode == 3:
			rs := []rune{'é', 'あ', '漢', '\u2028', '\u202e', '\u00a0', '\U0001F600', '\ufffd', '\u0085', '\u200b', '©'}
			sb.WriteRune(rs[r.IntN(len(rs))])
		default:
			sb.WriteByte(byte(1 + r.IntN(255)))
		}
	}
	return sb.String()
}

// Str is a NUL-terminated string; a missing terminator at the end of the payload is accepted.
func (c *Codec) Str(name string, opts ...Opt) string {
	o := mk(opts)
	var s string
	if c.Dec {
		s = c.cstr(false)
	} else {
		s = c.text()
		c.putBytes([]byte(s))
		c.putBits(0, 8)
	}
	c.add(&Node{Name: name, Kind: KString, S: s, O: o})
	return s
}

func (c *Codec) cstr(strict bool) string {
	var b []byte
	for {
		if c.pos >= c.limit {
			c.Left()
			if strict {
				c.fail(ErrTrunc)
			}
			return string(b)
		}
		x := byte(c.getBits(8))
		if x == 0 {
			return string(b)
		}
		b = append(b, x)
	}
}

// StrStrict requires its terminator.
func (c *Codec) StrStrict(name string) string {
	var s string
	if c.Dec {
		s = c.cstr(true)
	} else {
		s = c.text()
		c.putBytes([]byte(s))
		c.putBits(0, 8)
	}
	c.add(&Node{Name: name, Kind: KString, S: s})
	return s
}

// BoxStr is a string that fills the rest of the box.
func (c *Codec) BoxStr(name string) {
	var s string
	if c.Dec {
		b := c.getBytes(c.Left() / 8)
		if strings.IndexByte(string(b), 0) >= 0 {
			c.Unspecified()
		}
		s = string(b)
	} else {
		s = c.text()
		c.putBytes([]byte(s))
	}
	c.add(&Node{Name: name, Kind: KString, S: s})
}

func drawBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(4) {
	case 0:
		for i := range b {
			b[i] = byte(i + 1)
		}
	case 1:
		s := DrawText(r, n)
		for len(s) < n {
			s += " "
		}
		copy(b, s)
	default:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	}
	return b
}

// Bytes is exactly n bytes.
func (c *Codec) Bytes(name string, n uint64, opts ...Opt) []byte {
	return c.bytes(name, n, true, opts)
}

func (c *Codec) bytes(name string, n uint64, counted bool, opts []Opt) []byte {
	o := mk(opts)
	o.Counted = counted
	var b []byte
	if c.Dec {
		if n > uint64(len(c.data)) {
			c.fail(ErrTrunc)
		}
		b = c.getBytes(int(n))
	} else {
		b = drawBytes(c.R, int(n))
		c.putBytes(b)
	}
	c.add(&Node{Name: name, Kind: KBytes, Raw: b, O: o})
	return b
}

// FourCC is four bytes drawn from the given choices (or at random).
func (c *Codec) FourCC(name string, choices []string, opts ...Opt) string {
	o := mk(opts)
	var b []byte
	if c.Dec {
		b = c.getBytes(4)
	} else if len(choices) > 0 && c.R.IntN(8) != 0 {
		b = []byte(choices[c.R.IntN(len(choices))])
		c.putBytes(b)
	} else {
		b = drawBytes(c.R, 4)
		c.putBytes(b)
	}
	c.add(&Node{Name: name, Kind: KBytes, Raw: b, O: o})
	return string(b)
}

// Rest is all remaining bytes of the innermost container.
func (c *Codec) Rest(name string, opts ...Opt) []byte {
	if c.Dec {
		if c.Left()%8 != 0 {
			c.fail(ErrAlign)
		}
		return c.bytes(name, uint64(c.Left()/8), false, opts)
	}
	return c.bytes(name, c.byteLen(), false, opts)
}

// ListLen draws a list length (generator only).
func (c *Codec) ListLen() uint64 {
	if n := c.huge(); n > 0 {
		return uint64(n)
	}
	switch c.R.IntN(5) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return uint64(c.R.IntN(c.MaxList + 1))
}

func (c *Codec) huge() (n int) {
	if c.Huge > 0 && c.R.IntN(3) > 0 {
		n, c.Huge = c.Huge, 0
	}
	return n
}

// byteLen draws the length of a byte run.
func (c *Codec) byteLen() uint64 {
	if n := c.huge(); n > 0 {
		return uint64(n)
	}
	return uint64(c.R.IntN(c.MaxBytes + 1))
}

// text draws a text.
func (c *Codec) text() string {
	if n := c.huge(); n > 0 {
		s := ""
		for len(s) < n {
			s += DrawText(c.R, 2000)
		}
		return s
	}
	return DrawText(c.R, c.MaxBytes)
}

// Count is a list or byte count field.
func (c *Codec) Count(name string, bits int) uint64 {
	max := uint64(1)<<uint(bits) - 1
	v := c.U(name, bits, func(o *fopt) {
		o.draw = func(*rand.Rand) uint64 { return min(c.ListLen(), max) }
	})
	if c.Dec && bits == 32 && v == 0xffffffff {
		c.Unspecified()
	}
	return v
}
func (c *Codec) Count8(name string, bits int, opts ...Opt) uint64 {
	max := uint64(1)<<uint(bits) - 1
	return c.U8(name, bits, append(opts, func(o *fopt) {
		o.draw = func(*rand.Rand) uint64 { return min(c.ListLen(), max) }
	})...)
}

// ListU is n unsigned integers; u8 tells whether they are Go uint8.
func (c *Codec) ListU(name string, n uint64, bits int, opts ...Opt) {
	o := mk(opts)
	o.Counted = true
	l := &Node{Name: name, Kind: KList, O: o}
	c.checkFits(n, bits)
	for i := uint64(0); i < n; i++ {
		l.Kids = append(l.Kids, &Node{Kind: KUint, U: c.raw(bits, &o), Bits: bits, O: o})
	}
	c.add(l)
}

func (c *Codec) ListI(name string, n uint64, bits int, opts ...Opt) {
	o := mk(opts)
	o.Counted = true
	l := &Node{Name: name, Kind: KList, O: o}
	c.checkFits(n, bits)
	for i := uint64(0); i < n; i++ {
		l.Kids = append(l.Kids, &Node{Kind: KInt, I: signExt(c.raw(bits, &o), bits), Bits: bits, O: o})
	}
	c.add(l)
}

func (c *Codec) ListBool(name string, n uint64) {
	l := &Node{Name: name, Kind: KList}
	for i := uint64(0); i < n; i++ {
		l.Kids = append(l.Kids, &Node{Kind: KBool, B: c.raw(1, &fopt{}) != 0, Bits: 1})
	}
	c.add(l)
}

func (c *Codec) checkFits(n uint64, bits int) {
	if c.Dec && bits > 0 && n > uint64((c.limit-c.pos)/bits) {
		c.fail(ErrTrunc)
	}
}

// ListIRest is signed integers filling the container.
func (c *Codec) ListIRest(name string, bits int) uint64 {
	n := c.restCount(bits)
	c.ListI(name, n, bits)
	c.cur.Kid(name).O.Counted = false
	return n
}

func (c *Codec) restCount(bits int) uint64 {
	if c.Dec {
		if c.Left()%bits != 0 {
			c.fail(ErrAlign)
		}
		return uint64(c.Left() / bits)
	}
	return c.ListLen()
}

// List is n structs, each of elemBits bits if elemBits != 0.
func (c *Codec) List(name string, n uint64, elemBits int, body func(), opts ...Opt) {
	l := &Node{Name: name, Kind: KList, O: mk(opts)}
	l.O.Counted = true
	if elemBits > 0 {
		c.checkFits(n, elemBits)
	} else if c.Dec && n > 100000 {
		// elements of unknown or zero size
		if elemBits == 0 && n > uint64(c.limit-c.pos) {
			c.fail(ErrTrunc)
		}
		if elemBits < 0 {
			c.fail(ErrTooBig)
		}
	}
	for i := uint64(0); i < n; i++ {
		l.Kids = append(l.Kids, c.sub("", KStruct, body))
	}
	c.add(l)
}

// ListRest is structs of elemBits bits each filling the container.
func (c *Codec) ListRest(name string, elemBits int, body func()) {
	c.List(name, c.restCount(elemBits), elemBits, body)
	c.cur.Kid(name).O.Counted = false
}

func (c *Codec) sub(name string, k Kind, body func(), opts ...Opt) *Node {
	n := &Node{Name: name, Kind: k, O: mk(opts)}
	saved := c.cur
	c.cur = n
	body()
	c.cur = saved
	return n
}

// Ext is an inlined (extended) struct.
func (c *Codec) Ext(name string, body func()) {
	c.add(c.sub(name, KStruct, body, func(o *fopt) { o.Ext = true }))
}

// Struct is a nested struct.
func (c *Codec) Struct(name string, body func()) {
	c.add(c.sub(name, KStruct, body))
}

// Ptr is an inlined pointer to struct.
func (c *Codec) Ptr(name string, body func()) {
	c.add(c.sub(name, KPtr, body, func(o *fopt) { o.Ext = true }))
}

// Sized runs body in a container of exactly nbytes bytes.
func (c *Codec) Sized(nbytes uint64, body func()) {
	if !c.Dec {
		body()
		return
	}
	if nbytes > uint64((c.limit-c.pos)/8) {
		c.fail(ErrTrunc)
	}
	saved := c.limit
	c.limit = c.pos + int(nbytes)*8
	body()
	if c.pos != c.limit {
		c.fail(ErrAlign)
	}
	c.limit = saved
}

// Full is the version and flags of a full box. versions empty means any.
func (c *Codec) Full(versions []uint8, flagBits ...uint32) {
	c.Ext("FullBox", func() {
		v := c.U8("Version", 8, Dec, func(o *fopt) {
			o.draw = func(r *rand.Rand) uint64 {
				if len(versions) == 0 {
					return uint64(byte(r.Uint32())) & []uint64{0, 1, 3, 0xff}[r.IntN(4)] % 255
				}
				return uint64(versions[r.IntN(len(versions))])
			}
		})
		c.ver = uint8(v)
		fb := make([]byte, 3)
		if c.Dec {
			fb = c.getBytes(3)
		} else {
			var f uint32
			switch c.R.IntN(4) {
			case 0:
			case 1:
				f = uint32(DrawUint(c.R, 24))
			default:
				for _, b := range flagBits {
					if c.R.IntN(2) == 0 {
						f |= b
					}
				}
				if c.R.IntN(6) == 0 {
					f |= 1 << uint(c.R.IntN(24))
				}
			}
			fb[0], fb[1], fb[2] = byte(f>>16), byte(f>>8), byte(f)
			c.putBytes(fb)
		}
		c.flags = uint32(fb[0])<<16 | uint32(fb[1])<<8 | uint32(fb[2])
		c.add(&Node{Name: "Flags", Kind: KBytes, Raw: fb, O: fopt{Custom: func(n *Node) (string, bool) {
			return fmt.Sprintf("0x%02x%02x%02x", n.Raw[0], n.Raw[1], n.Raw[2]), true
		}}})
	})
	if c.Dec && len(versions) > 0 {
		for _, v := range versions {
			if v == c.ver {
				return
			}
		}
		c.fail(ErrVersion)
	}
}

// Reorder arranges the current struct's fields in declaration order.
func (c *Codec) Reorder(names ...string) {
	out := make([]*Node, 0, len(names))
	for _, nm := range names {
		if k := c.cur.Kid(nm); k != nil {
			out = append(out, k)
		}
	}
	if len(out) != len(c.cur.Kids) {
		panic("spec: Reorder loses fields")
	}
	c.cur.Kids = out
}

// Result of running a description.
type Result struct {
	Root *Node
	Data []byte // generated payload
	N    int    // bytes the fields occupy
	Err  error
	In   int  // decode: payload length
	Rest bool // decode: a field took everything that was left
	// Marks are the aligned multi-byte fields of a generated payload: offset<<8 | width.
	Marks []int
}

// Gen generates a value of the definition and its canonical payload.
func Gen(d *Def, t mp4.BoxType, ctx mp4.Context, r *rand.Rand, maxList, maxBytes int) Result {
	return gen(d, t, &Codec{Ctx: ctx, R: r, MaxList: maxList, MaxBytes: maxBytes})
}

// GenHuge is Gen with one list, run or text of n elements, where the format has one.
func GenHuge(d *Def, t mp4.BoxType, ctx mp4.Context, r *rand.Rand, maxList, maxBytes, n int) Result {
	return gen(d, t, &Codec{Ctx: ctx, R: r, MaxList: maxList, MaxBytes: maxBytes, Huge: n})
}

func gen(d *Def, t mp4.BoxType, c *Codec) Result {
	c.Type = t
	c.cur = &Node{Kind: KStruct, O: fopt{Ext: true}}
	root := c.cur
	d.Body(c)
	if c.pos%8 != 0 {
		panic("spec: generated payload of " + d.GoType + " is not byte aligned")
	}
	return Result{Root: root, Data: c.data, N: len(c.data), Marks: c.marks}
}

// Decode decodes a payload according to the definition.
func Decode(d *Def, t mp4.BoxType, ctx mp4.Context, payload []byte) (res Result) {
	c := &Codec{Dec: true, Ctx: ctx, Type: t, data: payload, limit: len(payload) * 8}
	c.cur = &Node{Kind: KStruct, O: fopt{Ext: true}}
	root := c.cur
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(failure)
			if !ok {
				panic(e)
			}
			res = Result{Err: f.err, In: len(payload)}
		}
	}()
	d.Body(c)
	if c.pos%8 != 0 {
		return Result{Err: ErrAlign, In: len(payload)}
	}
	return Result{Root: root, N: c.pos / 8, In: len(payload), Rest: c.rest}
}
