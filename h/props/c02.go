package props

import (
	"bufio"
	"bytes"
	"reflect"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C02", Quick: 240000, Thorough: 6000000,
		Rule: "each case draws a box type, context and value tree with the independent format model, stores it in the library's struct by reflection, " +
			"encodes it to a buffer, a buffered writer and a seekable file, and compares bytes and count with the model's own encoding; then it makes the value " +
			"unrepresentable (counted list cut short, high-profile AVC fields on another profile, missing descriptor body, varint above 28 bits) and requires an error; " +
			"non-trivial: every encoded value",
		Assumptions: []string{"integers lie within their declared widths and NUL-terminated strings contain no NUL (values outside are not claimed)",
			"the format model /verif/h/spec is a correct reading of the specifications"},
		Need:  []string{"payloads of more than 255 bytes", "payloads of more than 4095 bytes", "encoded", "unrepresentable: short list", "unrepresentable: contradictory", "unrepresentable: another entry length", "payloads of megabytes", "payloads of more than 65535 elements"},
		Case:  c02,
		Fixed: append(long(8, func(t *core.T, tc spec.TypeCtx, def *spec.Def, g spec.Result) { c02case(t, tc, g) }), megabytesEncode),
	})
}

func c02(t *core.T) {
	tc := allTypes[t.Idx%len(allTypes)]
	_, g := genBig(t, tc)
	c02case(t, tc, g)
}

func c02case(t *core.T, tc spec.TypeCtx, g spec.Result) {
	box, err := tree.Build(g.Root, tc.Type, tc.Ctx)
	if err != nil {
		t.Failf("build "+typeStr(tc.Type), "the struct does not have the format's fields: %v", err)
		return
	}
	if t.R.IntN(3) == 0 {
		surplus(t, box)
	}
	if t.R.IntN(3) == 0 { // what the version and flags exclude is of no importance
		t.Count("excluded fields set", tree.Garbage(g.Root, reflect.ValueOf(box), t.R))
	}
	t.Attach("expected", g.Data)
	var buf bytes.Buffer
	n, err := mp4.Marshal(&buf, box, tc.Ctx)
	t.Count("encoded", 1)
	t.Distinct(tc.Type[:], []byte(ctxStr(tc.Ctx)), g.Data)
	if t.Idx < len(allTypes) {
		t.Sample("%s in %s -> %x", typeStr(tc.Type), ctxStr(tc.Ctx), g.Data)
	}
	key := "encode " + string(tc.Type[:])
	if err != nil {
		t.Failf(key, "%s in %s: error %q for %s", typeStr(tc.Type), ctxStr(tc.Ctx), err, dump(box))
		return
	}
	if !bytes.Equal(buf.Bytes(), g.Data) {
		t.Failf(key, "%s in %s: wrote %x, the format prescribes %x", typeStr(tc.Type), ctxStr(tc.Ctx), buf.Bytes(), g.Data)
		return
	}
	if n != uint64(len(g.Data)) {
		t.Failf(key, "%s in %s: wrote %d bytes but reported %d", typeStr(tc.Type), ctxStr(tc.Ctx), len(g.Data), n)
		return
	}
	// other writers
	switch t.R.IntN(3) {
	case 0:
		var b2 bytes.Buffer
		bw := bufio.NewWriterSize(&b2, 16+t.R.IntN(40))
		n, err = mp4.Marshal(bw, box, tc.Ctx)
		bw.Flush()
		if err != nil || n != uint64(len(g.Data)) || !bytes.Equal(b2.Bytes(), g.Data) {
			t.Failf(key, "buffered: n=%d err=%v %x instead of %x", n, err, b2.Bytes(), g.Data)
		}
	case 1:
		pre := randBytes(t.R, t.R.IntN(5))
		ws := &rw.WriteSeeker{}
		ws.Write(pre)
		n, err = mp4.Marshal(ws, box, tc.Ctx)
		if err != nil || n != uint64(len(g.Data)) || !bytes.Equal(ws.Data, append(pre, g.Data...)) {
			t.Failf(key, "file: n=%d err=%v %x", n, err, ws.Data)
		}
	}
	t.Eval(1)
	// unrepresentable values
	c02bad(t, tc, g)
}

// surplus appends elements beyond nothing: kept as a hook for values that agree with their counts in another storage form.
func surplus(t *core.T, box mp4.IBox) {
	// the same content in slices with spare capacity
	v := reflect.ValueOf(box).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Slice && f.Len() > 0 && f.CanSet() {
			c := reflect.MakeSlice(f.Type(), f.Len(), f.Len()+3)
			reflect.Copy(c, f)
			f.Set(c)
		}
	}
}

// shorten finds counted lists in the tree; it returns functions that cut one of them.
func counted(n *spec.Node, v reflect.Value, out *[]reflect.Value) {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	switch n.Kind {
	case spec.KStruct, spec.KPtr:
		for _, k := range n.Kids {
			counted(k, v.FieldByName(k.Name), out)
		}
	case spec.KBytes, spec.KList:
		if v.Kind() == reflect.Slice && n.O.Counted && v.Len() > 0 {
			*out = append(*out, v)
		}
		if n.Kind == spec.KList {
			for i, k := range n.Kids {
				counted(k, v.Index(i), out)
			}
		}
	}
}

func c02bad(t *core.T, tc spec.TypeCtx, g spec.Result) {
	box, err := tree.Build(g.Root, tc.Type, tc.Ctx)
	if err != nil {
		return
	}
	var lists []reflect.Value
	counted(g.Root, reflect.ValueOf(box), &lists)
	if len(lists) > 0 {
		l := lists[t.R.IntN(len(lists))]
		k := l.Len() - 1
		if t.R.IntN(2) == 0 {
			k = t.R.IntN(l.Len())
		}
		if k == 0 && t.R.IntN(2) == 0 {
			l.Set(reflect.Zero(l.Type()))
		} else {
			l.Set(l.Slice3(0, k, k+t.R.IntN(l.Len()-k+1)))
		}
		mustFail(t, tc, box, "unrepresentable: short list")
	}
	box, _ = tree.Build(g.Root, tc.Type, tc.Ctx)
	switch b := box.(type) {
	case *mp4.AVCDecoderConfiguration:
		if !b.HighProfileFieldsEnabled {
			b.HighProfileFieldsEnabled = true
			if b.Profile == 100 || b.Profile == 110 || b.Profile == 122 || b.Profile == 144 {
				b.Profile++
			}
			mustFail(t, tc, b, "unrepresentable: contradictory")
		}
	case *mp4.Sgpd: // entries of another length than is declared for them
		d := uint32([]int{-4, 4, 8, 400, 1, 1 << 20}[t.R.IntN(6)])
		if k := t.R.IntN(4); k == 0 {
			d = -d
		}
		if len(b.AlternativeStartupEntries) > 0 && b.Version == 1 && b.DefaultLength+d != 0 {
			b.DefaultLength += d
			mustFail(t, tc, b, "unrepresentable: another entry length")
		}
		if n := len(b.AlternativeStartupEntriesL); n > 0 {
			if e := &b.AlternativeStartupEntriesL[t.R.IntN(n)]; e.DescriptionLength+d != 0 {
				e.DescriptionLength += d
				mustFail(t, tc, b, "unrepresentable: another entry length")
			}
		}
	case *mp4.Esds:
		for i := range b.Descriptors {
			d := &b.Descriptors[i]
			if d.ESDescriptor != nil || d.DecoderConfigDescriptor != nil {
				d.ESDescriptor, d.DecoderConfigDescriptor = nil, nil
				mustFail(t, tc, b, "unrepresentable: contradictory")
				break
			}
		}
		b2, _ := tree.Build(g.Root, tc.Type, tc.Ctx)
		b = b2.(*mp4.Esds)
		if len(b.Descriptors) > 0 {
			d := &b.Descriptors[t.R.IntN(len(b.Descriptors))]
			if d.ESDescriptor != nil || d.DecoderConfigDescriptor != nil {
				d.Size = 1<<28 + uint32(t.R.Uint32()>>4)
				mustFail(t, tc, b, "unrepresentable: long varint")
			}
		}
	}
	// half a byte: a field of a user-defined box that does not fill its last byte
	if t.Idx%64 == 0 {
		h := &halfByte{A: uint8(t.R.Uint32()), B: uint8(t.R.IntN(16))}
		mustFail(t, spec.TypeCtx{Type: h.GetType()}, h, "unrepresentable: not whole bytes")
	}
}

func mustFail(t *core.T, tc spec.TypeCtx, box mp4.IBox, what string) {
	t.Count(what, 1)
	t.Eval(1)
	t.Guard(what, func() {
		var buf bytes.Buffer
		n, err := mp4.Marshal(&buf, box, tc.Ctx)
		if err == nil {
			t.Failf(what, "%s: no error for %s in %s: wrote %d bytes %x for %s", what, typeStr(tc.Type), ctxStr(tc.Ctx), n, buf.Bytes(), dump(box))
		}
	})
}

type halfByte struct {
	mp4.Box
	A uint8 `mp4:"0,size=8"`
	B uint8 `mp4:"1,size=4"`
}

func (*halfByte) GetType() mp4.BoxType { return bt("v!hb") }

func init() { mp4.AddBoxDef(&halfByte{}) }
