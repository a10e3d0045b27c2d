// Package props holds one check per property.
package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/spec"
	"verif/tree"
)

var allTypes = spec.All()

func bt(s string) mp4.BoxType { return mp4.BoxType{s[0], s[1], s[2], s[3]} }

// decoded is the outcome of decoding with the library.
type decoded struct {
	box mp4.IBox
	n   uint64
	err error
	pos int64 // reader position afterwards
}

// unmarshalAt decodes size bytes at offset off of data.
func unmarshalAt(r io.ReadSeeker, off int64, t mp4.BoxType, size uint64, ctx mp4.Context) decoded {
	var d decoded
	if _, err := r.Seek(off, io.SeekStart); err != nil {
		d.err = err
		return d
	}
	d.box, d.n, d.err = mp4.UnmarshalAny(r, t, size, ctx)
	d.pos, _ = r.Seek(0, io.SeekCurrent)
	return d
}

// errClass says how an error must be reported.
func versionErr(err error) bool { return errors.Is(err, mp4.ErrUnsupportedBoxVersion) }

// judge compares the library's outcome with the model's; "" means they agree.
func judge(m spec.Result, d decoded, def *spec.Def) string {
	switch {
	case m.Err == spec.ErrUnspecified || m.Err == spec.ErrTooBig:
		return ""
	case m.Err != nil:
		if d.err == nil {
			return fmt.Sprintf("decoded although the payload is not well formed (%v): n=%d value=%s", m.Err, d.n, dump(d.box))
		}
		if (m.Err == spec.ErrVersion) != versionErr(d.err) && m.In >= 4 {
			return fmt.Sprintf("reported error %q, expected kind: %v", d.err, m.Err)
		}
		return ""
	}
	if d.err != nil {
		return fmt.Sprintf("error %q for a well-formed payload", d.err)
	}
	if d.box == nil {
		return "nil box without an error"
	}
	if g := tree.GoType(d.box); g != def.GoType {
		return fmt.Sprintf("decoded as %s instead of %s", g, def.GoType)
	}
	if d.n != uint64(m.N) {
		return fmt.Sprintf("reported %d bytes, the fields occupy %d", d.n, m.N)
	}
	if err := tree.Compare(m.Root, reflect.ValueOf(d.box)); err != nil {
		return "wrong value: " + err.Error()
	}
	return ""
}

func dump(b any) string {
	s := fmt.Sprintf("%+v", b)
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func ctxStr(c mp4.Context) string {
	s := ""
	add := func(b bool, n string) {
		if b {
			s += "," + n
		}
	}
	add(c.IsQuickTimeCompatible, "qt")
	add(c.UnderWave, "wave")
	add(c.UnderIlst, "ilst")
	add(c.UnderIlstMeta, "ilstMeta")
	add(c.UnderIlstFreeMeta, "ilstFree")
	add(c.UnderUdta, "udta")
	if c.QuickTimeKeysMetaEntryCount != 0 {
		s += fmt.Sprintf(",keys=%d", c.QuickTimeKeysMetaEntryCount)
	}
	return "{" + s + "}"
}

func typeStr(t mp4.BoxType) string { return fmt.Sprintf("%q", string(t[:])) }

// genSizes draws how large lists and byte runs are.
func genSizes(r *rand.Rand) (maxList, maxBytes int) {
	switch r.IntN(10) {
	case 0:
		return 0, 0
	case 1, 2:
		return 2, 4
	case 3:
		return 40, 300
	}
	return 6, 24
}

func genFor(r *rand.Rand, tc spec.TypeCtx) (*spec.Def, spec.Result) {
	d := spec.Lookup(tc.Type, tc.Ctx)
	ml, mb := genSizes(r)
	return d, spec.Gen(d, tc.Type, tc.Ctx, r, ml, mb)
}

// genBig is genFor with sizes around powers of two every now and then.
func genBig(t *core.T, tc spec.TypeCtx) (*spec.Def, spec.Result) {
	r := t.R
	n := 0
	switch k := r.IntN(3000); {
	case k == 0:
		n = []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 70000, 100000, 1<<17 + 1}[r.IntN(6)]
	case k < 4:
		n = []int{1<<15 - 1, 1 << 15, 1<<15 + 1, 20000}[r.IntN(4)]
	case k < 20:
		n = []int{1<<12 - 1, 1 << 12, 1<<12 + 1, 5000}[r.IntN(4)]
	case k < 100:
		n = []int{255, 256, 257, 300, 1<<10 - 1, 1 << 10, 1<<10 + 1}[r.IntN(7)]
	default:
		return genFor(r, tc)
	}
	d := spec.Lookup(tc.Type, tc.Ctx)
	g := spec.GenHuge(d, tc.Type, tc.Ctx, r, 2, 4, n)
	for i := 255; i <= 1<<16; i = i*16 + 15 {
		if len(g.Data) > i {
			t.Count(fmt.Sprintf("payloads of more than %d bytes", i), 1)
		}
	}
	return d, g
}

// megabytes builds payloads of some megabytes of plain data, with the values that they mean.
func megabytes(t *core.T, f func(typ mp4.BoxType, payload []byte, box mp4.IBox)) {
	for _, n := range []int{1<<16 + 1, 1<<20 + 17, 1<<24 + 3} {
		data := randBytes(t.R, n)
		f(bt("mdat"), data, &mp4.Mdat{Data: data})
		f(bt("free"), data, &mp4.Free{Data: data})
		f(bt("skip"), data, &mp4.Skip{Data: data})
		p := append([]byte{0, 0, 0, 9}, data[:16]...)
		p = append(binary.BigEndian.AppendUint32(p, uint32(n)), data...)
		f(bt("pssh"), p, &mp4.Pssh{FullBox: mp4.FullBox{Flags: [3]byte{0, 0, 9}}, SystemID: [16]byte(data[:16]), DataSize: int32(n), Data: data})
		t.Count("payloads of megabytes", 4)
	}
}

func megabytesDecode(t *core.T) {
	megabytes(t, func(typ mp4.BoxType, p []byte, box mp4.IBox) {
		d := unmarshalAt(bytes.NewReader(append([]byte("before"), append(p, "behind"...)...)), 6, typ, uint64(len(p)), mp4.Context{})
		t.Eval(1)
		if d.err != nil || d.n != uint64(len(p)) {
			t.Failf("large payload", "%s of %d bytes: %d bytes, %v", typeStr(typ), len(p), d.n, d.err)
		} else if at, ok := tree.Equal(reflect.ValueOf(box), reflect.ValueOf(d.box)); !ok {
			t.Failf("large payload", "%s of %d bytes: %s differs", typeStr(typ), len(p), at)
		}
	})
}

func megabytesEncode(t *core.T) {
	megabytes(t, func(typ mp4.BoxType, p []byte, box mp4.IBox) {
		var b bytes.Buffer
		n, err := mp4.Marshal(&b, box, mp4.Context{})
		t.Eval(1)
		if err != nil || n != uint64(len(p)) || !bytes.Equal(b.Bytes(), p) {
			t.Failf("large payload", "%s of %d bytes: %d bytes reported, %d written, %v", typeStr(typ), len(p), n, b.Len(), err)
		}
	})
}

// long spreads, over k cases, one payload of every type with a list, run or text of more than 2^16 elements.
func long(k int, f func(t *core.T, tc spec.TypeCtx, def *spec.Def, g spec.Result)) []func(t *core.T) {
	var fs []func(t *core.T)
	for part := 0; part < k; part++ {
		fs = append(fs, func(t *core.T) {
			for i, tc := range allTypes {
				if i%k != part {
					continue
				}
				def := spec.Lookup(tc.Type, tc.Ctx)
				var best spec.Result
				for try := 0; try < 12; try++ { // what the flags and versions allow differs
					g := spec.GenHuge(def, tc.Type, tc.Ctx, t.R, 2, 4, 1<<16+1+t.R.IntN(1<<13))
					if len(g.Data) > len(best.Data) {
						best = g
					}
					if len(best.Data) > 1<<17 || len(best.Data) > 1<<16 && try > 0 {
						break
					}
				}
				if len(best.Data) > 1<<16 {
					t.Count("payloads of more than 65535 elements", 1)
					f(t, tc, def, best)
				}
			}
		})
	}
	return fs
}

// randCtx is an arbitrary context.
func randCtx(r *rand.Rand) mp4.Context {
	b := func() bool { return r.IntN(2) == 0 }
	c := mp4.Context{IsQuickTimeCompatible: b(), UnderWave: b(), UnderIlst: b(), UnderIlstMeta: b(), UnderIlstFreeMeta: b(), UnderUdta: b()}
	if b() {
		c.QuickTimeKeysMetaEntryCount = r.IntN(8)
	}
	return c
}

var words = []uint64{0xffffffff, 0x7fffffff, 0x80000000, 0, 1, 2, 0x20000004, 0x20000002, 0x10000, 0xfffffffe, 0x20000000, 0x40000000,
	0x40000001, 0xffff, 0x8000, 0x7fff, 0x100, 0x1ffffffc, 0x55555556, 0x15555556}

// mutate alters a payload in one of several ways; marks locate its multi-byte fields.
func mutate(r *rand.Rand, p []byte, marks []int) []byte {
	q := bytes.Clone(p)
	switch r.IntN(11) {
	case 10: // longer variable-length numbers
		i := r.IntN(len(q) + 1)
		for k := 0; k < 8 && i < len(q) && q[i]&0x80 == 0; k++ {
			i = r.IntN(len(q) + 1)
		}
		more := bytes.Repeat([]byte{[]byte{0x80, 0x81, 0x90, 0xff, 0xfe, byte(r.Uint32()) | 0x80}[r.IntN(6)]}, 1+r.IntN(9))
		if r.IntN(2) == 0 {
			more[len(more)-1] = 0x80
		}
		q = append(q[:i:i], append(more, q[i:]...)...)
	case 8, 9: // a whole field
		if len(marks) > 0 {
			m := marks[r.IntN(len(marks))]
			off, w := m>>8, m&0xff
			if r.IntN(3) > 0 && off > 20 { // favour early fields: counts and lengths
				m = marks[r.IntN(min(len(marks), 4))]
				off, w = m>>8, m&0xff
			}
			if off+w <= len(q) {
				v := words[r.IntN(len(words))]
				if r.IntN(3) == 0 { // off by a little
					v = 0
					for _, b := range q[off : off+w] {
						v = v<<8 | uint64(b)
					}
					v += uint64(r.IntN(9)) - 4
				}
				for i := range w {
					q[off+w-1-i] = byte(v >> uint(8*i))
				}
			}
		}
	case 0: // truncate
		if len(q) > 0 {
			q = q[:r.IntN(len(q))]
		}
	case 1: // flip a bit
		if len(q) > 0 {
			q[r.IntN(len(q))] ^= 1 << uint(r.IntN(8))
		}
	case 2: // extreme word
		if len(q) >= 4 {
			i := r.IntN(len(q) - 3)
			copy(q[i:], [][]byte{{0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 0, 0, 0}, {0x20, 0, 0, 4},
				{0, 1, 0, 0}, {0xff, 0xff, 0xff, 0xfe}, {0x20, 0, 0, 0}, {0x40, 0, 0, 0}}[r.IntN(9)])
		}
	case 3: // off by one in a byte
		if len(q) > 0 {
			q[r.IntN(len(q))] += byte(1 + 254*r.IntN(2))
		}
	case 4: // version or flags
		if len(q) >= 4 {
			i := r.IntN(4)
			q[i] = byte(r.IntN(4))
			if r.IntN(4) == 0 {
				q[i] = byte(r.Uint32())
			}
		}
	case 5: // append
		n := 1 + r.IntN(12)
		for i := 0; i < n; i++ {
			q = append(q, byte(r.Uint32()))
		}
	case 6: // delete inside
		if len(q) > 1 {
			i := r.IntN(len(q))
			q = append(q[:i], q[min(i+1+r.IntN(4), len(q)):]...)
		}
	case 7: // random bytes
		for k := r.IntN(6); k >= 0 && len(q) > 0; k-- {
			q[r.IntN(len(q))] = byte(r.Uint32())
		}
	}
	return q
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// stream embeds a payload between random bytes.
func stream(r *rand.Rand, p []byte) (data []byte, off int64) {
	pre, post := r.IntN(9), r.IntN(40)
	if r.IntN(4) == 0 {
		post = 0
	}
	data = append(append(randBytes(r, pre), p...), randBytes(r, post)...)
	return data, int64(pre)
}

func register(c *core.Check) { core.Register(c) }
