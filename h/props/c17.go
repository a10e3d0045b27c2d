package props

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C17", Quick: 300000, Thorough: 20000000,
		Rule: "values of every box type in every context (extreme integers, every fixed-point class, hostile text: control characters, separators, bidi marks, invalid UTF-8, quotes and braces) " +
			"are rendered plainly and with several indents, as built and as decoded from their bytes, with arbitrary values in the fields that version and flags exclude; " +
			"the text is compared with that of an independent renderer and searched for control characters; non-trivial: distinct texts",
		Need: []string{"payloads of more than 255 bytes", "payloads of more than 4095 bytes", "payloads of more than 65535 bytes", "rendered plainly", "rendered with indent", "rendered after decoding", "excluded fields set", "texts with replaced characters", "texts beyond ASCII", "fractions", "negative numbers",
			"wrong contexts", "numbered items with flags", "lists of 300000 elements", "values with a part missing"},
		Case:  c17,
		Fixed: []func(t *core.T){c17long, c17missing},
	})
}

var (
	c17indents  = []string{" ", "  ", "    ", "\t", "--"}
	c17flags    = regexp.MustCompile(`Flags=0x[0-9a-f]{6}`)
	c17fraction = regexp.MustCompile(`=-?[0-9]+\.[0-9]`)
	c17negative = regexp.MustCompile(`=-`)
)

// c17long renders lists of hundreds of thousands of elements.
func c17long(t *core.T) {
	r := t.R
	const n = 300001
	sz := &mp4.Stsz{SampleCount: n}
	ft := &mp4.Ftyp{MajorBrand: [4]byte{'i', 's', 'o', 'm'}}
	un := &mp4.Mdat{Data: randBytes(r, n)}
	var want [3]strings.Builder
	want[0].WriteString("Version=0 Flags=0x000000 SampleSize=0 SampleCount=300001 EntrySize=[")
	want[1].WriteString("MajorBrand=\"isom\" MinorVersion=0 CompatibleBrands=[")
	want[2].WriteString("Data=[")
	for i := range n {
		sep := ", "
		if i == 0 {
			sep = ""
		}
		v := r.Uint32()
		sz.EntrySize = append(sz.EntrySize, v)
		fmt.Fprintf(&want[0], "%s%d", sep, v)
		b := [4]byte{'a' + byte(v&15), 'b', 'A' + byte(v>>8&15), '0' + byte(v>>16&7)}
		ft.CompatibleBrands = append(ft.CompatibleBrands, mp4.CompatibleBrandElem{CompatibleBrand: b})
		fmt.Fprintf(&want[1], "%s{CompatibleBrand=\"%s\"}", sep, b[:])
		fmt.Fprintf(&want[2], "%s0x%x", sep, un.Data[i])
	}
	for i, b := range []mp4.IBox{sz, ft, un} {
		want[i].WriteString("]")
		s, err := mp4.Stringify(b, mp4.Context{})
		t.Eval(1)
		t.Count("lists of 300000 elements", 1)
		if err != nil || s != want[i].String() {
			t.Failf("text of a long list", "%T with %d elements: %v; %s", b, n, err, diff([]byte(s), []byte(want[i].String())))
		}
	}
}

// c17missing renders values whose version, tag or flags call for a part
// that is not there: the outcome is an error, not a text without the part.
func c17missing(t *core.T) {
	values := map[string]mp4.IBox{
		"descriptor without its ES part":             &mp4.Esds{Descriptors: []mp4.Descriptor{{Tag: mp4.ESDescrTag, Size: 3}}},
		"descriptor without its decoder part":        &mp4.Esds{Descriptors: []mp4.Descriptor{{Tag: mp4.DecoderConfigDescrTag, Size: 13}}},
		"second descriptor without its decoder part": &mp4.Esds{Descriptors: []mp4.Descriptor{{Tag: mp4.DecSpecificInfoTag, Size: 1, Data: []byte{7}}, {Tag: mp4.DecoderConfigDescrTag}}},
	}
	for name, b := range values {
		for _, indent := range []string{"", " ", "\t"} {
			var s string
			var err error
			if t.Guard("Stringify "+name, func() { s, err = mp4.StringifyWithIndent(b, indent, mp4.Context{}) }) {
				return
			}
			t.Eval(1)
			t.Count("values with a part missing", 1)
			if err == nil {
				t.Failf("text without a part", "%s: rendered with indent %q as %q and no error", name, indent, s)
			}
		}
	}
}

func c17(t *core.T) {
	r := t.R
	tc := allTypes[r.IntN(len(allTypes))]
	if r.IntN(2) == 0 {
		tc = allTypes[t.Idx%len(allTypes)]
	}
	def, g := genBig(t, tc)
	box, err := tree.Build(g.Root, tc.Type, tc.Ctx)
	if err != nil {
		t.Failf("build "+typeStr(tc.Type), "%v", err)
		return
	}
	t.Attach("payload", g.Data)
	c17box(t, tc, g.Root, def, box, "built")
	if r.IntN(3) == 0 {
		if n := tree.Garbage(g.Root, reflect.ValueOf(box), r); n > 0 {
			t.Count("excluded fields set", n)
			c17box(t, tc, g.Root, def, box, "built with values in excluded fields")
		}
	}
	if r.IntN(4) == 0 {
		dec, _, err := mp4.UnmarshalAny(bytes.NewReader(g.Data), tc.Type, uint64(len(g.Data)), tc.Ctx)
		if err == nil {
			t.Count("rendered after decoding", 1)
			c17box(t, tc, g.Root, def, dec, "decoded")
		}
	}
	// in a context where the type means nothing
	if ctx := randCtx(r); spec.Lookup(tc.Type, ctx) == nil {
		t.Count("wrong contexts", 1)
		if s, err := mp4.Stringify(box, ctx); !errors.Is(err, mp4.ErrBoxInfoNotFound) {
			t.Failf("wrong context", "%s rendered in %s, where it is unknown: %q, %v", typeStr(tc.Type), ctxStr(ctx), s, err)
		}
	}
}

func c17box(t *core.T, tc spec.TypeCtx, root *spec.Node, def *spec.Def, box mp4.IBox, how string) {
	r := t.R
	want := tree.Render(root, "")
	got, err := mp4.Stringify(box, tc.Ctx)
	t.Count("rendered plainly", 1)
	t.Eval(1)
	if t.Idx < 60 && t.Idx%10 == 0 {
		t.Sample("%s in %s: %s", typeStr(tc.Type), ctxStr(tc.Ctx), got)
	}
	item := def.GoType == "Item"
	if item && !strings.Contains(want, "Flags=0x000000") {
		t.Count("numbered items with flags", 1)
	}
	c17cmp(t, tc, how, "", got, want, err, item)
	if err != nil {
		return
	}
	t.Distinct([]byte(got))
	if strings.Contains(want, ".") {
		t.Count("texts with replaced characters", 1)
	}
	for i := 0; i < len(got); i++ {
		if got[i] >= 0x80 {
			t.Count("texts beyond ASCII", 1)
			break
		}
	}
	if c17fraction.MatchString(got) {
		t.Count("fractions", 1)
	}
	if c17negative.MatchString(got) {
		t.Count("negative numbers", 1)
	}
	ind := c17indents[r.IntN(len(c17indents))]
	if r.IntN(6) == 0 {
		ind = ""
	}
	got, err = mp4.StringifyWithIndent(box, ind, tc.Ctx)
	t.Count("rendered with indent", 1)
	c17cmp(t, tc, how, ind, got, tree.Render(root, ind), err, item)
}

func c17cmp(t *core.T, tc spec.TypeCtx, how, ind, got, want string, err error, item bool) {
	key := "text of " + string(tc.Type[:])
	if err != nil {
		t.Failf(key, "%s (%s): error %q; expected %s", typeStr(tc.Type), how, err, want)
		return
	}
	if got != want {
		if item && got == c17flags.ReplaceAllString(want, "Flags=0x000000") {
			t.Known("C17-item-flags", "the flags of a numbered metadata item are rendered as 0x000000")
		} else {
			t.Failf(key, "%s in %s (%s), indent %q:\n%s\nexpected\n%s", typeStr(tc.Type), ctxStr(tc.Ctx), how, ind, got, want)
			return
		}
	}
	for i, c := range got {
		if (c < 0x20 || c >= 0x7f && c < 0xa0 || c == 0x2028 || c == 0x2029 || c >= 0x202a && c <= 0x202e || c == 0xfeff || c == 0x200b) &&
			!(ind != "" && (c == '\n' || strings.ContainsRune(ind, c))) {
			t.Failf("control character", "%s (%s), indent %q: character %#x at %d of %q", typeStr(tc.Type), how, ind, c, i, got)
			return
		}
	}
}
