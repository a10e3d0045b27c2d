package props

import (
	"math/rand/v2"

	mp4 "github.com/abema/go-mp4"

	"verif/gen"
)

// vpBox is a user's box with what no box of the library has: strings of either kind, pointers,
// and bit fields around byte fields. Checks over I/O behaviour include it.
type vpBox struct {
	mp4.FullBox `mp4:"0,extend"`
	A           uint8    `mp4:"1,size=3"`
	B           int16    `mp4:"2,size=13"`
	S           string   `mp4:"3,string=c_p"`
	P           *vpPart  `mp4:"4"`
	N           uint8    `mp4:"5,size=8"`
	L           []vpPart `mp4:"6,len=dynamic,size=24"`
	V           uint64   `mp4:"7,varint"`
	T           bool     `mp4:"8,size=11"`
	U           bool     `mp4:"9,size=5"`
	R           []byte   `mp4:"10,size=8"`
}

type vpPart struct {
	mp4.BaseCustomFieldObject
	X uint16   `mp4:"0,size=9"`
	Y int8     `mp4:"1,size=7"`
	Z [1]uint8 `mp4:"2,size=8"`
}

func (*vpBox) GetType() mp4.BoxType { return vpType }

func (b *vpBox) GetFieldLength(name string, ctx mp4.Context) uint { return uint(b.N) }

var vpType = mp4.BoxType{'v', 'p', 0xa9, '1'}

func init() {
	mp4.AddBoxDef(&vpBox{}, 0, 1)
	mp4.AddBoxDef(&vp64{})
	mp4.AddBoxDef(&vpLong{})
	mp4.AddBoxDef(&vpSized{})
	mp4.AddBoxDef(&vpOdd{})
}

// vp64 is a user's box with 64-bit counts.
type vp64 struct {
	mp4.Box
	Count uint64   `mp4:"0,size=64"`
	Items uint64   `mp4:"1,size=64"`
	Data  []byte   `mp4:"2,size=8,len=dynamic"`
	List  []uint16 `mp4:"3,size=16,len=dynamic"`
	Tail  uint8    `mp4:"4,size=8"`
}

func (*vp64) GetType() mp4.BoxType { return vp64Type }

func (b *vp64) GetFieldLength(name string, ctx mp4.Context) uint {
	if name == "List" {
		return uint(b.Items)
	}
	return uint(b.Count)
}

var vp64Type = mp4.BoxType{'v', 'p', '6', '4'}

// vpPayload draws a payload and whether it is well formed.
func vpPayload(r *rand.Rand) []byte {
	w := new(gen.W).Full(uint8(r.IntN(2)), r.Uint32()&0xffffff).U16(uint16(r.Uint32()))
	s := randBytes(r, []int{0, 1, 2, 5, 30, 200, 255}[r.IntN(7)])
	if r.IntN(2) == 0 { // a Pascal string
		w.U8(uint8(len(s))).U8(s...)
	} else {
		for i := range s {
			s[i] |= 1
		}
		if len(s) > 0 {
			s[0] = 0xff // longer than what follows, mostly
		}
		w.U8(s...).U8(0)
	}
	w.U8(randBytes(r, 3)...)
	n := r.IntN(5)
	w.U8(uint8(n)).U8(randBytes(r, 3*n)...)
	for k := r.IntN(4); k > 0; k-- {
		w.U8(0x80 | uint8(r.Uint32()))
	}
	w.U8(uint8(r.Uint32()) & 0x7f)
	w.U16([]uint16{0, 0xffff, 0x001f, 0xffe0}[r.IntN(4)])
	return w.U8(randBytes(r, r.IntN(20))...).B
}

// vpLong is a user's box with long lists of every kind of element.
type vpLong struct {
	mp4.Box
	N uint32      `mp4:"0,size=32"`
	A []uint8     `mp4:"1,size=4,len=dynamic"`
	B []bool      `mp4:"2,size=1,len=dynamic"`
	C []int16     `mp4:"3,size=12,len=dynamic"`
	D []string    `mp4:"4,string,len=dynamic"`
	E []uint32    `mp4:"5,varint,len=dynamic"`
	F []vpPart    `mp4:"6,len=dynamic"`
	G [][2]uint16 `mp4:"7,size=16,len=dynamic"`
	H []int64     `mp4:"8,size=64"`
}

func (*vpLong) GetType() mp4.BoxType { return vpLongType }

func (b *vpLong) GetFieldLength(name string, ctx mp4.Context) uint { return uint(b.N) }

var vpLongType = mp4.BoxType{'v', 'p', 'l', 'o'}

// vpSized is a user's box with structures of declared sizes that hold lists of their own.
type vpSized struct {
	mp4.Box
	N    uint8     `mp4:"0,size=8"`
	Size uint8     `mp4:"1,size=8"`
	Recs []vpRec   `mp4:"2,size=dynamic,len=dynamic"`
	One  *vpRec    `mp4:"3,size=dynamic"`
	Two  [2]vpRec  `mp4:"4,size=dynamic"`
	Out  vpSizedIn `mp4:"5,size=80"`
}

type vpRec struct {
	mp4.BaseCustomFieldObject
	K    uint8    `mp4:"0,size=8"`
	Sub  []uint8  `mp4:"1,size=8,len=dynamic"`
	Rest []uint16 `mp4:"2,size=16"`
}

type vpSizedIn struct {
	mp4.BaseCustomFieldObject
	L    uint8   `mp4:"0,size=8"`
	In   vpRec   `mp4:"1,size=dynamic"`
	Rest []uint8 `mp4:"2,size=8"`
}

func (*vpSized) GetType() mp4.BoxType { return vpSizedType }

func (b *vpSized) GetFieldLength(name string, ctx mp4.Context) uint { return uint(b.N) }

func (b *vpSized) GetFieldSize(name string, ctx mp4.Context) uint { return uint(b.Size) * 8 }

func (r *vpRec) GetFieldLength(name string, ctx mp4.Context) uint { return uint(r.K) }

func (r *vpSizedIn) GetFieldSize(name string, ctx mp4.Context) uint { return uint(r.L) * 8 }

var vpSizedType = mp4.BoxType{'v', 'p', 's', 'z'}

// vpOdd is a user's box whose sized structure begins within a byte.
type vpOdd struct {
	mp4.Box
	K    uint8   `mp4:"0,size=3"`
	Size uint8   `mp4:"1,size=5"`
	A    uint8   `mp4:"2,size=dynamic"`
	One  vpOddIn `mp4:"3,size=dynamic"`
	Two  vpOddIn `mp4:"4,size=dynamic"`
	B    uint8   `mp4:"5,size=dynamic"`
	Tail uint16  `mp4:"6,size=16"`
}

type vpOddIn struct {
	mp4.BaseCustomFieldObject
	K    uint8  `mp4:"0,size=8"`
	X    uint8  `mp4:"1,size=dynamic"`
	Sub  []byte `mp4:"2,size=8,len=dynamic"`
	Y    uint16 `mp4:"3,size=dynamic"`
	Rest []byte `mp4:"4,size=8"`
}

func (*vpOdd) GetType() mp4.BoxType { return vpOddType }

func (b *vpOdd) GetFieldSize(name string, ctx mp4.Context) uint {
	switch name {
	case "A":
		return uint(b.K)
	case "B":
		return 8 - uint(b.K)
	}
	return uint(b.Size) * 8
}

func (r *vpOddIn) GetFieldLength(name string, ctx mp4.Context) uint { return uint(r.K >> 3) }

func (r *vpOddIn) GetFieldSize(name string, ctx mp4.Context) uint {
	if name == "X" {
		return 1 + uint(r.K&7)
	}
	return 15 - uint(r.K&7)
}

var vpOddType = mp4.BoxType{'v', 'p', 'o', 'd'}
