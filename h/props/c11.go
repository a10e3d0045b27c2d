package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/rw"
)

func init() {
	register(&core.Check{
		ID: "C11", Quick: 150000, Thorough: 10000000,
		Rule: "headers of all three forms with sizes at and around every boundary (below the header, the header alone, 2^31, 2^32, 2^63) at offsets from 0 to the end of the " +
			"64-bit range (a reader with a hole), through all delivery modes, complete and truncated, are read and judged by a model, and what was read is written back at " +
			"another offset; non-trivial: distinct (header bytes, offset)",
		Need: []string{"32-bit form", "64-bit form", "to-end-of-file form", "size below the header", "end beyond 2^63-1", "end exactly 2^63-1", "truncated headers", "written back", "small sizes in the 64-bit form", "offsets beyond 2^32", "more than 2^32 bytes to the end of file", "records made by hand"},
		Case: c11,
	})
}

func c11size(t *core.T) uint64 {
	r := t.R
	switch r.IntN(8) {
	case 0:
		return uint64(r.IntN(18))
	case 1:
		return uint64(r.IntN(300))
	case 2:
		return 1<<32 - 20 + uint64(r.IntN(40))
	case 3:
		return 1<<31 - 3 + uint64(r.IntN(6))
	case 4:
		return 1<<63 - 20 + uint64(r.IntN(40))
	case 5:
		return math.MaxUint64 - uint64(r.IntN(30))
	case 6:
		return 1<<uint(r.IntN(64)) + uint64(r.IntN(3)) - 1
	}
	return r.Uint64() >> uint(r.IntN(64))
}

func c11(t *core.T) {
	r := t.R
	ty := allTypes[r.IntN(len(allTypes))].Type
	if r.IntN(3) == 0 {
		binary.BigEndian.PutUint32(ty[:], r.Uint32()>>uint(r.IntN(32)))
	}
	form := r.IntN(3)
	var h []byte
	size := c11size(t)
	switch form {
	case 0:
		if size > math.MaxUint32 {
			size = math.MaxUint32 - uint64(r.IntN(5))
		}
		if size < 2 {
			size = 2
		}
		h = append(binary.BigEndian.AppendUint32(nil, uint32(size)), ty[:]...)
	case 1:
		h = binary.BigEndian.AppendUint64(append([]byte{0, 0, 0, 1}, ty[:]...), size)
	case 2:
		h = append([]byte{0, 0, 0, 0}, ty[:]...)
	}
	pre := randBytes(r, r.IntN(20))
	post := randBytes(r, r.IntN(40))
	cut := len(h)
	if r.IntN(12) == 0 { // the header itself is not all there
		cut = r.IntN(len(h))
		post = nil
	}
	data := append(append(bytes.Clone(pre), h[:cut]...), post...)
	rd := rw.NewReader(data)
	rd.R = r
	if r.IntN(2) == 0 {
		rd.Mode = rw.Modes[r.IntN(len(rw.Modes))]
	}
	off := uint64(len(pre))
	if r.IntN(3) == 0 { // far into the stream
		rd.HoleLen = r.Int64() >> uint(r.IntN(63))
		switch r.IntN(4) {
		case 0:
			rd.HoleLen = 1<<32 - int64(len(pre)) + int64(r.IntN(20)) - 10
		case 1: // the end near the last position
			if form != 2 && size < 1<<62 {
				rd.HoleLen = math.MaxInt64 - int64(len(pre)) - int64(size) + int64(r.IntN(5)) - 2
			}
		}
		rd.HoleLen = max(0, min(rd.HoleLen, math.MaxInt64-int64(len(data))))
		if cut == len(h) && r.IntN(3) == 0 { // a large payload
			rd.HoleAt = int64(len(pre) + cut)
		} else {
			off += uint64(rd.HoleLen)
		}
	}
	if off > math.MaxUint32 {
		t.Count("offsets beyond 2^32", 1)
	}
	rd.Pos = int64(off)
	t.Attach("header", h[:cut])
	t.AttachStr("offset", fmt.Sprint(off))
	t.Distinct(h[:cut], fmt.Appendf(nil, "%d", off))
	name := fmt.Sprintf("header %x at %d of %d bytes (%v reader)", h[:cut], off, rd.Len(), rd.Mode)
	bi, err := mp4.ReadBoxInfo(rd)
	pos := rd.Pos
	if t.Idx < 12 {
		t.Sample("%s: %s, %v", name, infoPtr(bi), err)
	}
	hs := uint64(len(h))
	if form == 2 {
		size = uint64(rd.Len()) - off
		if size > math.MaxUint32 {
			t.Count("more than 2^32 bytes to the end of file", 1)
		}
	}
	switch {
	case cut < len(h):
		t.Count("truncated headers", 1)
		if err == nil {
			t.Failf("truncated header", "%s: read as %s", name, infoPtr(bi))
		}
		if cut == 0 && err != io.EOF {
			t.Failf("end of file", "%s: %v instead of io.EOF", name, err)
		}
		return
	case size < hs:
		t.Count("size below the header", 1)
		if err == nil {
			t.Failf("size below the header", "%s: read as %s", name, infoPtr(bi))
		}
		return
	case size > math.MaxInt64 || off+size > math.MaxInt64:
		t.Count("end beyond 2^63-1", 1)
		if err == nil {
			t.Failf("end beyond file positions", "%s: read as %s", name, infoPtr(bi))
		}
		return
	case off+size == math.MaxInt64:
		t.Count("end exactly 2^63-1", 1)
	}
	t.Count([]string{"32-bit form", "64-bit form", "to-end-of-file form"}[form], 1)
	if form == 1 && size <= math.MaxUint32 {
		t.Count("small sizes in the 64-bit form", 1)
	}
	if err != nil {
		t.Failf("header refused", "%s: %v", name, err)
		return
	}
	want := mp4.BoxInfo{Offset: off, Size: size, HeaderSize: hs, Type: ty, ExtendToEOF: form == 2}
	if *bi != want {
		t.Failf("header misread", "%s: %s, expected %s", name, infoStr(bi), infoStr(&want))
		return
	}
	if pos != int64(off+hs) {
		t.Failf("reader position", "%s: the reader stands at %d, the payload starts at %d", name, pos, off+hs)
	}
	for i, f := range []func(io.Seeker) (int64, error){bi.SeekToStart, bi.SeekToPayload, bi.SeekToEnd} {
		w := int64([]uint64{off, off + hs, off + size}[i])
		rd.Pos = int64(r.Uint32())
		if n, err := f(rd); err != nil || n != w || rd.Pos != w {
			t.Failf("seeking", "%s: seek %d went to %d (reported %d, %v), expected %d", name, i, rd.Pos, n, err, w)
		}
	}
	// write it back
	ws := &sparse{data: map[int64]byte{}}
	ws.pos = []int64{0, int64(r.IntN(100)), r.Int64() >> uint(r.IntN(63)), int64(off)}[r.IntN(4)]
	ws.pos = min(ws.pos, math.MaxInt64-16)
	at := ws.pos
	was := *bi
	out, err := mp4.WriteBoxInfo(ws, bi)
	t.Count("written back", 1)
	if err != nil {
		t.Failf("header not written", "%s: %v", infoStr(bi), err)
		return
	}
	if *bi != was {
		t.Failf("caller's record changed", "%s became %s", infoStr(&was), infoStr(bi))
	}
	if g := ws.at(uint64(at), len(h)); !bytes.Equal(g, h) || len(ws.data) != len(h) || ws.pos != at+int64(len(h)) {
		t.Failf("header written differently", "%s read from %x: wrote %d bytes, %x, position %d", infoStr(bi), h, len(ws.data), g, ws.pos)
	}
	if out.Offset != uint64(at) || out.Size != size || out.HeaderSize != hs || out.Type != ty || out.ExtendToEOF != (form == 2) {
		t.Failf("record of the written header", "%s written at %d: %s", infoStr(bi), at, infoStr(out))
	}
	// records made by hand take the form they ask for
	if r.IntN(3) == 0 {
		t.Count("records made by hand", 1)
		ws := &sparse{data: map[int64]byte{}}
		size := c11size(t)
		bi := &mp4.BoxInfo{Type: ty, Size: size, HeaderSize: []uint64{8, 8, 16}[r.IntN(3)], ExtendToEOF: r.IntN(3) == 0}
		want := binary.BigEndian.AppendUint64(append([]byte{0, 0, 0, 1}, ty[:]...), size)
		switch {
		case bi.ExtendToEOF:
			want = append([]byte{0, 0, 0, 0}, ty[:]...)
		case bi.HeaderSize == 8 && size <= math.MaxUint32:
			want = append(binary.BigEndian.AppendUint32(nil, uint32(size)), ty[:]...)
		}
		out, err := mp4.WriteBoxInfo(ws, bi)
		if err != nil || !bytes.Equal(ws.at(0, len(want)), want) || len(ws.data) != len(want) || out.HeaderSize != uint64(len(want)) {
			t.Failf("header made by hand", "%s: %v, written %x as %s", infoStr(bi), err, ws.at(0, 16), infoPtr(out))
		}
	}
}
