package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C03", Quick: 120000, Thorough: 4000000,
		Rule: "three kinds of cases: a generated value is encoded, decoded and compared with itself; a generated canonical payload is decoded, encoded and compared " +
			"with itself; a generated file (nested boxes, 32/64-bit/to-end headers, every type in its proper place) or one of the repository's sample files is copied by " +
			"decoding and re-encoding every supported box through the writer and compared byte for byte; non-trivial: every distinct value, payload or file",
		Assumptions: []string{"integers lie within their declared widths, NUL-terminated strings contain no NUL, payloads are in the form the encoder emits " +
			"(four-octet varints, C strings in hdlr, meta with version and flags)"},
		Need:  []string{"payloads of more than 255 bytes", "payloads of more than 4095 bytes", "values", "payloads", "files", "boxes copied by re-encoding", "sample files", "payloads of megabytes", "payloads of more than 65535 elements"},
		Case:  c03,
		Fixed: append(long(8, c03case), c03samples, megabytesDecode, megabytesEncode),
	})
}

func c03(t *core.T) {
	if t.Idx%8 == 7 {
		o := gen.Default(t.R)
		o.Tails, o.QTMeta = false, false
		f := gen.Random(t.R, o)
		t.Count("files", 1)
		t.Distinct(f.Data)
		c03copy(t, f.Data, "generated file")
		return
	}
	tc := allTypes[t.Idx%len(allTypes)]
	def, g := genBig(t, tc)
	c03case(t, tc, def, g)
}

func c03case(t *core.T, tc spec.TypeCtx, def *spec.Def, g spec.Result) {
	m := spec.Decode(def, tc.Type, tc.Ctx, g.Data)
	if m.Err != nil {
		return // a form whose reading the formats leave open
	}
	t.Distinct(tc.Type[:], []byte(ctxStr(tc.Ctx)), g.Data)
	t.Attach("payload", g.Data)
	key := string(tc.Type[:])
	// value -> bytes -> value
	box, err := tree.Build(g.Root, tc.Type, tc.Ctx)
	if err != nil {
		t.Failf("build "+key, "%v", err)
		return
	}
	t.Count("values", 1)
	var buf bytes.Buffer
	if _, err := mp4.Marshal(&buf, box, tc.Ctx); err != nil {
		t.Failf("encode "+key, "%s in %s: encoding a decodable value: %v", typeStr(tc.Type), ctxStr(tc.Ctx), err)
		return
	}
	d := unmarshalAt(bytes.NewReader(buf.Bytes()), 0, tc.Type, uint64(buf.Len()), tc.Ctx)
	if d.err != nil || d.n != uint64(buf.Len()) {
		t.Failf("value "+key, "%s in %s: decoding the encoded value: n=%d err=%v", typeStr(tc.Type), ctxStr(tc.Ctx), d.n, d.err)
		return
	}
	if p, ok := tree.Equal(reflect.ValueOf(box), reflect.ValueOf(d.box)); !ok {
		t.Failf("value "+key, "%s in %s: %s differs after encoding and decoding: %s / %s", typeStr(tc.Type), ctxStr(tc.Ctx), p, dump(box), dump(d.box))
	}
	// bytes -> value -> bytes
	t.Count("payloads", 1)
	d = unmarshalAt(bytes.NewReader(g.Data), 0, tc.Type, uint64(len(g.Data)), tc.Ctx)
	if d.err != nil {
		t.Failf("payload "+key, "%s in %s: %v", typeStr(tc.Type), ctxStr(tc.Ctx), d.err)
		return
	}
	buf.Reset()
	n, err := mp4.Marshal(&buf, d.box, tc.Ctx)
	if err != nil || !bytes.Equal(buf.Bytes(), g.Data[:d.n]) || n != d.n {
		t.Failf("payload "+key, "%s in %s: re-encoded %x (n=%d err=%v) from %x", typeStr(tc.Type), ctxStr(tc.Ctx), buf.Bytes(), n, err, g.Data)
	}
	t.Eval(1)
}

// copyFile copies a file as the README shows: supported boxes are decoded and encoded again.
func copyFile(r io.ReadSeeker, ws io.WriteSeeker, boxes *int) error {
	w := mp4.NewWriter(ws)
	_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
		if !h.BoxInfo.IsSupportedType() || h.BoxInfo.Type == mp4.BoxTypeMdat() {
			return nil, w.CopyBox(r, &h.BoxInfo)
		}
		if _, err := w.StartBox(&h.BoxInfo); err != nil {
			return nil, err
		}
		box, _, err := h.ReadPayload()
		if err != nil {
			return nil, err
		}
		if _, err := mp4.Marshal(w, box, h.BoxInfo.Context); err != nil {
			return nil, err
		}
		if _, err := h.Expand(); err != nil {
			return nil, err
		}
		*boxes++
		_, err = w.EndBox()
		return nil, err
	})
	return err
}

func c03copy(t *core.T, data []byte, what string) {
	ws := &rw.WriteSeeker{}
	n := 0
	err := copyFile(bytes.NewReader(data), ws, &n)
	t.Count("boxes copied by re-encoding", n)
	if err != nil {
		t.Attach("file", data)
		t.Failf("copy", "copying %s: %v", what, err)
	} else if !bytes.Equal(ws.Data, data) {
		t.Attach("file", data)
		t.Attach("copy", ws.Data)
		t.Failf("copy", "copying %s: the copy differs %s", what, diff(ws.Data, data))
	}
	if what == "generated file" && t.Idx < 20 {
		t.Sample("file of %d bytes, %d boxes re-encoded: %x", len(data), n, data[:min(len(data), 120)])
	}
}

func diff(got, want []byte) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("at byte %d: %x instead of %x (lengths %d, %d)", i, got[i:min(i+16, len(got))], want[i:min(i+16, len(want))], len(got), len(want))
		}
	}
	return fmt.Sprintf("in length: %d instead of %d", len(got), len(want))
}

func sampleFiles() map[string][]byte {
	out := map[string][]byte{}
	fs, _ := filepath.Glob("/repo/testdata/*.mp4")
	sort.Strings(fs)
	for _, p := range fs {
		if b, err := os.ReadFile(p); err == nil {
			out[filepath.Base(p)] = b
		}
	}
	return out
}

func c03samples(t *core.T) {
	for name, b := range sampleFiles() {
		if bytes.Contains(b[:min(len(b), 64)], []byte("ftypqt  ")) {
			continue // meta without version and flags, counted strings: not the form the encoder emits
		}
		t.Count("sample files", 1)
		c03copy(t, b, name)
	}
}
