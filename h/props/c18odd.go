//go:build bridge

package props

import (
	"bytes"
	"io"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/rw"
)

// c18odd writes and reads structures of declared sizes that begin at every bit of a byte and hold
// lists of bytes, from readers that give their bytes in pieces as well.
func c18odd(t *core.T) {
	r := t.R
	for i := 0; i < 3000; i++ {
		b := &vpOdd{K: uint8(1 + r.IntN(7)), Size: uint8(3 + r.IntN(29)), Tail: uint16(r.Uint32())}
		w := &bitString{}
		w.put(uint64(b.K), 3)
		w.put(uint64(b.Size), 5)
		b.A = uint8(r.Uint32()) & (1<<b.K - 1)
		w.put(uint64(b.A), int(b.K))
		for _, p := range []*vpOddIn{&b.One, &b.Two} {
			x := r.IntN(8)
			p.K = uint8(r.IntN(int(b.Size)-2)<<3 | x)
			p.X, p.Y = uint8(r.Uint32())&(2<<x-1), uint16(r.Uint32())&(1<<(15-x)-1)
			p.Sub, p.Rest = randBytes(r, int(p.K>>3)), randBytes(r, int(b.Size)-3-int(p.K>>3))
			w.put(uint64(p.K), 8)
			w.put(uint64(p.X), 1+x)
			for _, v := range p.Sub {
				w.put(uint64(v), 8)
			}
			w.put(uint64(p.Y), 15-x)
			for _, v := range p.Rest {
				w.put(uint64(v), 8)
			}
		}
		b.B = uint8(r.Uint32()) & (1<<(8-b.K) - 1)
		w.put(uint64(b.B), 8-int(b.K))
		w.put(uint64(b.Tail), 16)
		var out bytes.Buffer
		n, err := mp4.Marshal(&out, b, mp4.Context{})
		if err != nil || n != uint64(len(w.b)) || !bytes.Equal(out.Bytes(), w.b) {
			t.Failf("vpod encode", "n=%d err=%v: wrote %x, declared %x", n, err, out.Bytes(), w.b)
			return
		}
		// what precedes and what follows the payload is another's
		file := append(append(randBytes(r, r.IntN(5)), w.b...), randBytes(r, r.IntN(9))...)
		at := bytes.Index(file, w.b)
		in := rw.NewReader(file)
		in.Mode, in.R, in.Pos = rw.Modes[r.IntN(len(rw.Modes))], r, int64(at)
		var got vpOdd
		n, err = mp4.Unmarshal(in, uint64(len(w.b)), &got, mp4.Context{})
		t.Eval(2)
		if err != nil || n != uint64(len(w.b)) || dump(&got) != dump(b) {
			t.Failf("vpod decode", "n=%d err=%v: decoded %s, declared %s", n, err, dump(&got), dump(b))
			return
		}
		if pos, _ := in.Seek(0, io.SeekCurrent); pos != int64(at+len(w.b)) {
			t.Failf("vpod decode", "the reader is left at %d, the payload ends at %d", pos, at+len(w.b))
			return
		}
		t.Count("structures within bytes", 2)
		// one byte short
		if _, err := mp4.Unmarshal(bytes.NewReader(w.b[:len(w.b)-1]), uint64(len(w.b)-1), new(vpOdd), mp4.Context{}); err == nil {
			t.Failf("vpod decode", "%x lacks a byte and decodes without an error", w.b[:len(w.b)-1])
			return
		}
	}
}
