package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C06", Quick: 60000, Thorough: 4000000,
		Rule: "payloads of every type and context, well formed, damaged or random, are decoded alone and again between different bytes (zeros, ones, copies of themselves, random, " +
			"other boxes) at different positions through different readers; outcome, count, value and reader position must agree; and files in which a box claims to extend " +
			"beyond its parent or in which a parent ends in bytes that form no box are walked and extracted from; non-trivial: distinct payloads and damaged files",
		Need: []string{"payloads", "decoded", "rejected", "unsupported version", "boxes beyond their parent", "leftover bytes", "leftover bytes under QuickTime", "declared more than present", "boxes to the end of the file in a parent that ends before", "more than 4 GiB around"},
		Case: c06,
	})
}

func c06(t *core.T) {
	if t.Idx%8 == 7 {
		c06file(t)
		return
	}
	r := t.R
	tc := allTypes[t.Idx%len(allTypes)]
	if t.Idx%3 == 0 {
		tc = allTypes[r.IntN(len(allTypes))]
	}
	def, g := genFor(r, tc)
	p := g.Data
	switch r.IntN(7) {
	case 0:
	case 6:
		if len(p) > 0 {
			p = bytes.Clone(p)
			p[0] = byte(r.Uint32()) >> uint(r.IntN(7))
		}
	case 1:
		if def.Alt != nil {
			p = def.Alt(r)
		}
	case 2:
		p = append(append([]byte{}, p...), randBytes(r, 1+r.IntN(20))...)
	case 3: // a truncation: what follows must not complete it
		if len(p) > 0 {
			p = p[:r.IntN(len(p))]
		}
	default:
		for k := 1 + r.IntN(2); k > 0; k-- {
			p = mutate(r, p, g.Marks)
		}
	}
	if tc.Type == bt("trun") && hugeTrunAt(p, &mp4.BoxInfo{}) || spec.Decode(def, tc.Type, tc.Ctx, p).Err == spec.ErrTooBig {
		t.Count("skipped: samples without bytes", 1)
		return
	}
	t.Count("payloads", 1)
	t.Attach("payload", p)
	t.Distinct(tc.Type[:], []byte(ctxStr(tc.Ctx)), p)
	name := typeStr(tc.Type) + " in " + ctxStr(tc.Ctx)
	key := string(tc.Type[:])
	ref := unmarshalAt(bytes.NewReader(p), 0, tc.Type, uint64(len(p)), tc.Ctx)
	refVal := ""
	if ref.err == nil {
		refVal = tree.Dump(ref.box)
	}
	switch {
	case ref.err == nil:
		t.Count("decoded", 1)
	case versionErr(ref.err):
		t.Count("unsupported version", 1)
	default:
		t.Count("rejected", 1)
	}
	check := func(what string, d decoded, off int64, size, avail int, val string) {
		t.Eval(1)
		if d.err == nil && d.n > uint64(min(size, avail)) {
			t.Failf("more bytes than the payload has: "+key, "%s, %s: reports %d bytes of a payload of %d", name, what, d.n, min(size, avail))
		}
		if d.err == nil && d.pos != off+int64(d.n) {
			t.Failf("reader position: "+key, "%s, %s: the reader stands at %d after %d bytes from %d", name, what, d.pos, d.n, off)
		}
		if d.err != nil && versionErr(d.err) && d.pos != off {
			t.Failf("reader position after an unsupported version: "+key, "%s, %s: the reader stands at %d, before the call at %d", name, what, d.pos, off)
		}
		if size > avail {
			return
		}
		if (d.err == nil) != (ref.err == nil) || versionErr(d.err) != versionErr(ref.err) {
			t.Failf("outcome depends on the surroundings: "+key, "%s, %s: %v; alone: %v; payload %x", name, what, d.err, ref.err, p)
			return
		}
		if d.err == nil && (d.n != ref.n || val != refVal) {
			t.Failf("value depends on the surroundings: "+key, "%s, %s: %d bytes, %s; alone: %d bytes, %s; payload %x", name, what, d.n, val, ref.n, refVal, p)
		}
	}
	check("alone", ref, 0, len(p), len(p), refVal)
	for k := 0; k < 6; k++ {
		pre := c06around(r, p)
		if k == 0 {
			pre = nil
		}
		post := c06around(r, p)
		data := append(append(append([]byte{}, pre...), p...), post...)
		off := int64(len(pre))
		var rd io.ReadSeeker = bytes.NewReader(data)
		mode := rw.Plain
		if r.IntN(2) == 0 {
			mode = rw.Modes[r.IntN(len(rw.Modes))]
			x := rw.NewReader(data)
			x.Mode, x.R = mode, r
			if r.IntN(3) == 0 { // and zeros by the gigabyte
				x.HoleLen = 1<<(31+r.IntN(3)) - int64(r.IntN(len(p)+len(post)+1)) + int64(r.IntN(8))
				if ref.err != nil || r.IntN(2) == 0 {
					off += x.HoleLen
				} else { // a count that is wrong may take it all before it is refused
					x.HoleAt = off + int64(len(p))
				}
				t.Count("more than 4 GiB around", 1)
			}
			rd = x
		}
		what := fmt.Sprintf("between %d and %d other bytes (%v reader)", len(pre), len(post), mode)
		t.AttachStr("surroundings", fmt.Sprintf("%x ... %x", pre, post))
		d := unmarshalAt(rd, off, tc.Type, uint64(len(p)), tc.Ctx)
		v := ""
		if d.err == nil {
			v = tree.Dump(d.box)
		}
		check(what, d, off, len(p), len(p), v)
		if k < 2 { // into a value of the caller's
			box, err := tc.Type.New(tc.Ctx)
			if err != nil {
				t.Failf("New: "+key, "%s: %v", name, err)
				continue
			}
			rd.Seek(off, io.SeekStart)
			var e decoded
			e.box = box
			e.n, e.err = mp4.Unmarshal(rd, uint64(len(p)), box, tc.Ctx)
			e.pos, _ = rd.Seek(0, io.SeekCurrent)
			v := ""
			if e.err == nil {
				v = tree.Dump(box)
			}
			check(what+", Unmarshal", e, off, len(p), len(p), v)
		}
	}
	// a payload that claims to be longer than the file
	for k := 0; k < 2; k++ {
		pre := c06around(r, p)
		data := append(append([]byte{}, pre...), p...)
		size := len(p) + 1 + r.IntN(40)
		d := unmarshalAt(bytes.NewReader(data), int64(len(pre)), tc.Type, uint64(size), tc.Ctx)
		t.Count("declared more than present", 1)
		check(fmt.Sprintf("declared as %d bytes", size), d, int64(len(pre)), size, len(p), "")
	}
	if t.Idx < 60 {
		t.Sample("%s: %x, outcome %v", name, p, ref.err)
	}
}

// c06around is what may stand before or behind a payload.
func c06around(r *rand.Rand, p []byte) []byte {
	n := r.IntN(48)
	switch r.IntN(7) {
	case 0:
		return nil
	case 1:
		return make([]byte, n)
	case 2:
		return bytes.Repeat([]byte{0xff}, n)
	case 3:
		return bytes.Clone(p)
	case 4: // text and terminators
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab\x00\x01"[r.IntN(4)]
		}
		return b
	case 5: // a box
		tc := allTypes[r.IntN(len(allTypes))]
		b := binary.BigEndian.AppendUint32(nil, uint32(8+n))
		b = append(b, tc.Type[:]...)
		return append(b, randBytes(r, n)...)
	}
	return randBytes(r, n)
}

// expandAll walks everything that can be walked.
func expandAll(h *mp4.ReadHandle) (interface{}, error) {
	if !h.BoxInfo.IsSupportedType() {
		return nil, nil
	}
	_, err := h.Expand()
	return nil, err
}

func c06file(t *core.T) {
	r := t.R
	f, _ := randFile(r)
	all := f.All()
	var nested, holders []*gen.Box
	for _, b := range all {
		if b.Parent != nil && b.Form != 2 {
			nested = append(nested, b)
		}
		if b.Def != nil && b.Tree != nil && !b.QTMeta && len(b.Tail) == 0 && b.Form != 2 {
			holders = append(holders, b)
		}
	}
	if r.IntN(2) == 0 && len(nested) > 0 {
		b := nested[r.IntN(len(nested))]
		if b.Parent.QTMeta && b.Parent.Kids[0] == b {
			return // another size would make its parent look like a full box
		}
		end := b.Parent.End()
		room := end - b.Offset
		d := bytes.Clone(f.Data)
		if !endsOpen(all) { // a box that extends to the end of the file would grow
			d = append(d, randBytes(r, 8+r.IntN(64))...)
		}
		over := uint64(1 + r.IntN(int(uint64(len(d))-end)+16))
		if r.IntN(4) == 0 {
			over = uint64(r.Uint32()) >> uint(r.IntN(8))
		}
		if over == 0 {
			over = 1
		}
		size := room + over
		if r.IntN(6) == 0 && !endsOpen(all) && end < uint64(len(d)) && len(b.Parent.Kids) > 0 { // to the end of the file, behind that of its parent
			size = uint64(len(d)) - b.Offset
			t.Count("boxes to the end of the file in a parent that ends before", 1)
			binary.BigEndian.PutUint32(d[b.Offset:], 0)
		} else if b.Form == 1 {
			if r.IntN(3) == 0 {
				size = room + r.Uint64()>>uint(r.IntN(40)+1)
				if size <= room {
					size = room + 1
				}
			}
			binary.BigEndian.PutUint64(d[b.Offset+8:], size)
		} else {
			if size > 0xffffffff {
				return
			}
			binary.BigEndian.PutUint32(d[b.Offset:], uint32(size))
		}
		t.Attach("file", d)
		t.Count("boxes beyond their parent", 1)
		t.Distinct(d)
		visit := func(h *mp4.ReadHandle) (interface{}, error) {
			if h.BoxInfo.Offset == b.Offset {
				t.Failf("box beyond its parent handed out", "%v at %d claims %d bytes, its parent ends after %d: the handler is given %s", b.Path(), b.Offset, size, room, infoStr(&h.BoxInfo))
			}
			return expandAll(h)
		}
		if _, err := mp4.ReadBoxStructure(bytes.NewReader(d), visit); err == nil {
			t.Failf("box beyond its parent accepted by the walk", "%v at %d claims %d bytes, its parent ends after %d: the walk succeeded", b.Path(), b.Offset, size, room)
		}
		if _, err := mp4.ExtractBoxes(bytes.NewReader(d), nil, []mp4.BoxPath{b.Path()}); err == nil {
			t.Failf("box beyond its parent accepted by extraction", "%v at %d claims %d bytes, its parent ends after %d: extraction succeeded", b.Path(), b.Offset, size, room)
		}
		if _, err := mp4.ReadBoxStructureFromInternal(bytes.NewReader(d), infoOf(b.Parent), visit); err == nil {
			t.Failf("box beyond its parent accepted by the walk from inside", "%v at %d claims %d bytes, its parent ends after %d", b.Path(), b.Offset, size, room)
		}
		return
	}
	if len(holders) == 0 {
		return
	}
	b := holders[r.IntN(len(holders))]
	tail := randBytes(r, 1+r.IntN(7))
	fields := append(bytes.Clone(b.Fields), tail...)
	if len(b.Kids) == 0 {
		m := spec.Decode(b.Def, b.Type, b.Ctx, fields)
		if m.Err != nil || m.N != len(b.Fields) {
			return // the bytes are fields
		}
	}
	b.Tail = tail
	f.Layout()
	qt := b.Ctx.IsQuickTimeCompatible || b.Parent == nil && b.Type == bt("ftyp") && hasQT(b)
	for _, k := range all {
		if k.Form != 2 {
			continue
		}
		for a := k.Parent; a != nil; a = a.Parent {
			if a == b { // the bytes behind would belong to the open box
				return
			}
		}
	}
	if qt && len(b.Kids) == 0 && b.Type == bt("meta") {
		return
	}
	t.Attach("file", f.Data)
	t.Distinct(f.Data)
	_, err := mp4.ReadBoxStructure(bytes.NewReader(f.Data), expandAll)
	_, err2 := mp4.ReadBoxStructureFromInternal(bytes.NewReader(f.Data), infoOf(b), expandAll)
	_, err3 := mp4.ExtractBoxes(bytes.NewReader(f.Data), nil, []mp4.BoxPath{append(b.Path(), mp4.BoxTypeAny())})
	_, err4 := mp4.ExtractBoxWithPayload(bytes.NewReader(f.Data), infoOf(b), mp4.BoxPath{bt("none")})
	if qt {
		t.Count("leftover bytes under QuickTime", 1)
		if err != nil || err2 != nil || err4 != nil {
			t.Failf("leftover bytes refused under QuickTime", "%v ends in %x: %v %v %v", b.Path(), tail, err, err2, err4)
		}
		return
	}
	t.Count("leftover bytes", 1)
	if err == nil || err2 == nil || err3 == nil || err4 == nil {
		t.Failf("leftover bytes accepted", "%v in %s ends in %x which is no box: %v %v %v %v", b.Path(), ctxStr(b.Ctx), tail, err, err2, err3, err4)
	}
	if errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
		t.Failf("leftover bytes misreported", "%v", err)
	}
}

func endsOpen(all []*gen.Box) bool {
	for _, b := range all {
		if b.Form == 2 {
			return true
		}
	}
	return false
}

func hasQT(b *gen.Box) bool {
	for _, k := range b.Tree.Kid("CompatibleBrands").Kids {
		if string(k.Kids[0].Raw) == "qt  " {
			return true
		}
	}
	return false
}
