// Package ubox holds user-defined boxes whose source is generated for each run, and the
// hooks that make their dynamic fields work.
package ubox

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"

	mp4 "github.com/abema/go-mp4"
	"github.com/abema/go-mp4/verifbridge"

	"verif/udecl"
)

// Obs records what hooks of a box were told.
type Obs struct {
	On     bool
	Left   map[string]uint64
	Before uint64 // size given to BeforeUnmarshal
	Calls  int
}

var made = map[string]func() mp4.IBox{}

// New makes an empty value of a generated type.
func New(name string) mp4.IBox { return made[name]() }

var (
	Boxes  []*udecl.Box
	Regs   []*udecl.Reg
	fields map[string]map[string]*udecl.Field
	once   sync.Once

	mu       sync.Mutex
	misplace []string // hooks called for what they do not belong to
)

// Load rebuilds the declarations the source was generated from.
func Load() {
	once.Do(func() {
		Boxes, Regs = udecl.Make(Seed, N)
		fields = map[string]map[string]*udecl.Field{}
		for _, b := range Boxes {
			for owner, fs := range b.Hooks {
				fields[owner] = fs
			}
		}
	})
}

// Misplaced lists hook calls that should not have been made.
func Misplaced() []string {
	mu.Lock()
	defer mu.Unlock()
	return append([]string(nil), misplace...)
}

func wrong(b any, hook, name string) {
	mu.Lock()
	defer mu.Unlock()
	if len(misplace) < 20 {
		misplace = append(misplace, fmt.Sprintf("%s called on %T for field %q", hook, b, name))
	}
}

func lookup(b any, hook, name string, ok func(*udecl.Field) bool) *udecl.Field {
	f := fields[reflect.TypeOf(b).Elem().Name()][name]
	if f == nil && name == "FullBox" {
		return nil
	}
	if f == nil || !ok(f) {
		wrong(b, hook, name)
		return nil
	}
	return f
}

func eval(b any, r *udecl.Rule, ctx mp4.Context) uint64 {
	var ver uint8
	var flags uint32
	if x, ok := b.(mp4.IImmutableBox); ok {
		ver, flags = x.GetVersion(), x.GetFlags()
	}
	return r.Eval(ctx, ver, flags, func(name string) uint64 {
		return reflect.ValueOf(b).Elem().FieldByName(name).Uint()
	})
}

func size(b any, name string, ctx mp4.Context) uint {
	if f := lookup(b, "GetFieldSize", name, func(f *udecl.Field) bool { return f.SizeRule != nil }); f != nil {
		return uint(eval(b, f.SizeRule, ctx))
	}
	return 8
}

func length(b any, name string, ctx mp4.Context) uint {
	if f := lookup(b, "GetFieldLength", name, func(f *udecl.Field) bool { return f.LenRule != nil }); f != nil {
		return uint(eval(b, f.LenRule, ctx))
	}
	return 0
}

func opt(b any, name string, ctx mp4.Context) bool {
	if f := lookup(b, "IsOptFieldEnabled", name, func(f *udecl.Field) bool { return f.OptRule != nil }); f != nil {
		return eval(b, f.OptRule, ctx) != 0
	}
	return true
}

func any_(*udecl.Field) bool { return true }

func text(b any, name string) (string, bool) {
	f := lookup(b, "StringifyField", name, any_)
	if f != nil && f.Text {
		return "<" + name + ">", true
	}
	return "", false
}

func getBits(r verifbridge.ReadSeeker, n uint) (uint64, error) {
	d, err := r.ReadBits(n)
	if err != nil {
		return 0, err
	}
	var v uint64
	for _, x := range d {
		v = v<<8 | uint64(x)
	}
	return v, nil
}

func putBits(w verifbridge.Writer, v uint64, n uint) error {
	d := make([]byte, 8)
	for i := range d {
		d[7-i] = byte(v >> uint(8*i))
	}
	return w.WriteBits(d[8-(n+7)/8:], n)
}

func observe(b any, name string, left uint64) {
	o := reflect.ValueOf(b).Elem().FieldByName("Obs")
	if !o.IsValid() {
		return
	}
	if p := o.Addr().Interface().(*Obs); p.On {
		if p.Left == nil {
			p.Left = map[string]uint64{}
		}
		p.Left[name] = left
		p.Calls++
	}
}

func onRead(b any, name string, r verifbridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	f := lookup(b, "OnReadField", name, any_)
	if f == nil {
		return 0, false, nil
	}
	if f.Pad != 0 {
		observe(b, name, left)
		if uint64(f.Pad) > left {
			return 0, false, errors.New("no room for the padding")
		}
		if _, err := getBits(r, f.Pad); err != nil {
			return 0, false, err
		}
		if f.Xor == 0 {
			return uint64(f.Pad), false, nil
		}
	}
	if f.Xor != 0 {
		v, err := getBits(r, f.Size)
		if err != nil {
			return 0, false, err
		}
		reflect.ValueOf(b).Elem().FieldByName(name).SetUint(v ^ f.Xor)
		return uint64(f.Pad + f.Size), true, nil
	}
	return 0, false, nil
}

func onWrite(b any, name string, w verifbridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	f := lookup(b, "OnWriteField", name, any_)
	if f == nil {
		return 0, false, nil
	}
	if f.Pad != 0 {
		if err := putBits(w, f.PadVal, f.Pad); err != nil {
			return 0, false, err
		}
		if f.Xor == 0 {
			return uint64(f.Pad), false, nil
		}
	}
	if f.Xor != 0 {
		v := reflect.ValueOf(b).Elem().FieldByName(name).Uint()
		if err := putBits(w, v^f.Xor, f.Size); err != nil {
			return 0, false, err
		}
		return uint64(f.Pad + f.Size), true, nil
	}
	return 0, false, nil
}

func before(b any, r io.ReadSeeker, size uint64, prefix int, override bool) (uint64, bool, error) {
	o := reflect.ValueOf(b).Elem().FieldByName("Obs").Addr().Interface().(*Obs)
	o.Before = size
	if size < uint64(prefix) {
		return 0, false, errors.New("no room for the prefix")
	}
	if _, err := io.ReadFull(r, make([]byte, prefix)); err != nil {
		return 0, false, err
	}
	return uint64(prefix), override, nil
}
