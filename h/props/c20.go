package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"

	mp4 "github.com/abema/go-mp4"
	"gopkg.in/yaml.v2"

	"verif/core"
	"verif/gen"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C20", Quick: 2400, Thorough: 200000,
		Rule: "files (random forests of all box types with versions that are not supported, large boxes, every header form and context; movies; protection headers of all kinds at all places; damaged files) are given to the built mp4tool " +
			"with random options; what dump, extract and psshdump print for well-formed files is compared with the output composed from the generator's model, " +
			"for damaged files with that of a walk with the library; the summary is compared, field by field, with one computed by the library; the exit status is compared with whether the file could be processed; " +
			"non-trivial: distinct files and options",
		Need: []string{"dump runs", "extract runs", "psshdump runs", "probe runs", "lines compared", "unsupported types", "unsupported versions", "data shown", "contents abbreviated for their type", "contents abbreviated for their length",
			"boxes extracted", "protection headers", "reports as JSON", "reports as YAML", "failures expected", "failures of dump", "failures of extract", "failures of psshdump", "failures of probe", "damaged files processed", "bad command lines",
			"files beyond the buffer", "deep nestings", "large and many boxes"},
		Fixed: []func(t *core.T){c20deep, c20huge, c20large},
		Case:  c20,
	})
}

func c20(t *core.T) {
	switch t.Idx % 8 {
	case 0, 1, 2:
		c20forest(t)
	case 3:
		c20movie(t)
	case 4:
		c20pssh(t)
	case 5, 6:
		c20damaged(t)
	default:
		if t.Idx%64 == 7 {
			c20args(t)
		} else {
			c20forest(t)
		}
	}
}

// c20run runs mp4tool and judges how it ended.
func c20run(t *core.T, fail bool, args ...string) (toolResult, bool) {
	res := runTool(args...)
	t.Eval(1)
	name := strings.Join(args, " ")
	switch {
	case res.timeout:
		t.Failf("mp4tool "+args[0]+" does not end", "mp4tool %s", name)
		return res, false
	case res.crash() != "":
		t.Failf("mp4tool "+args[0]+" crashes", "mp4tool %s: %.1500s", name, res.crash())
		return res, false
	case fail && res.code == 0:
		t.Failf("mp4tool "+args[0]+" hides a failure", "mp4tool %s: exit status 0, a failure is due; it printed %.300q", name, res.out)
		return res, false
	case !fail && res.code != 0:
		t.Failf("mp4tool "+args[0]+" fails", "mp4tool %s: exit status %d; it printed %.300q ... %.300q", name, res.code, tailOf(res.out, 300), res.errOut)
		return res, false
	}
	if fail {
		t.Count("failures expected", 1)
		t.Count("failures of "+args[0], 1)
	}
	return res, true
}

func tailOf(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

// spoilVersions turns some boxes into ones whose version is not supported.
func spoilVersions(r *rand.Rand, f *gen.File) map[*gen.Box]bool {
	bad := map[*gen.Box]bool{}
	if r.IntN(2) == 0 {
		return bad
	}
	for k := 1 + r.IntN(3); k > 0; k-- {
		all := f.All()
		if len(all) == 0 {
			return bad
		}
		for try := 0; try < 10; try++ {
			b := all[r.IntN(len(all))]
			if b.Def == nil || bad[b] || b.QTMeta || b.Type == bt("keys") || b.Type == bt("ftyp") {
				continue
			}
			p := bytes.Clone(f.Payload(b))
			if len(p) < 4 {
				continue
			}
			p[0] = byte(r.Uint32())
			if r.IntN(2) == 0 {
				p[0] = byte(2 + r.IntN(3))
			}
			if spec.Decode(b.Def, b.Type, b.Ctx, p).Err != spec.ErrVersion {
				continue
			}
			b.Fields, b.Kids, b.Tail, b.Tree = p, nil, nil, nil
			bad[b] = true
			f.Layout()
			break
		}
	}
	return bad
}

// c20options are options of dump.
type c20options struct {
	full        map[string]bool
	all         bool
	offset, hex bool
	args        []string
}

func c20draw(r *rand.Rand, types []mp4.BoxType) c20options {
	o := c20options{full: map[string]bool{}}
	flag := func(name string) {
		o.args = append(o.args, []string{"-", "--"}[r.IntN(2)]+name)
	}
	if r.IntN(3) == 0 {
		o.all = true
		flag("a")
	}
	if r.IntN(3) == 0 {
		o.offset = true
		flag("offset")
	}
	if r.IntN(3) == 0 {
		o.hex = true
		flag("hex")
	}
	if r.IntN(6) == 0 {
		o.full["mdat"] = true
		flag("mdat")
	}
	if r.IntN(6) == 0 {
		o.full["free"], o.full["skip"] = true, true
		flag("free")
	}
	if r.IntN(2) == 0 {
		var l []string
		for k := 1 + r.IntN(4); k > 0; k-- {
			s := []string{"mdat", "free", "skip", "stts", "moov", "xxxx", "trun", "", "ftyp"}[r.IntN(9)]
			if len(types) > 0 && r.IntN(4) > 0 {
				s = typeName(types[r.IntN(len(types))])
			}
			if strings.ContainsAny(s, ",\x00") {
				continue
			}
			l = append(l, s)
			o.full[s] = true
		}
		o.args = append(o.args, "-full", strings.Join(l, ","))
	}
	return o
}

// typeName is how a type is printed.
func typeName(t mp4.BoxType) string {
	s := ""
	for _, c := range t {
		switch {
		case c == 0xa9:
			s += "(c)"
		case c >= 0x20 && c <= 0x7e:
			s += string(rune(c))
		default:
			return fmt.Sprintf("0x%02x%02x%02x%02x", t[0], t[1], t[2], t[3])
		}
	}
	return s
}

var childless = []string{"emsg", "esds", "ftyp", "pssh", "ctts", "co64", "elst", "sbgp", "sdtp", "stco", "stsc", "stts", "stss", "stsz", "tfra", "trun"}

func isChildless(t mp4.BoxType) bool {
	for _, s := range childless {
		if s == string(t[:]) {
			return true
		}
	}
	return false
}

// c20head is the start of the line for a box.
func c20head(o c20options, depth int, typ mp4.BoxType, supported bool, offset, size uint64) string {
	s := strings.Repeat("  ", depth) + "[" + typeName(typ) + "]"
	if !supported {
		s += " (unsupported box type)"
	}
	num := func(name string, v uint64) {
		if o.hex {
			s += fmt.Sprintf(" %s=0x%x", name, v)
		} else {
			s += fmt.Sprintf(" %s=%d", name, v)
		}
	}
	if o.offset {
		num("Offset", offset)
	}
	num("Size", size)
	return s
}

func c20hint(typ mp4.BoxType) string {
	return fmt.Sprintf("(use \"-full %s\" to show all)", typeName(typ))
}

func c20data(data []byte) string {
	var sb strings.Builder
	sb.WriteString(" Data=[")
	for i, d := range data {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "0x%02x", d)
	}
	sb.WriteString("]")
	return sb.String()
}

func isMedia(t mp4.BoxType) bool { return t == bt("mdat") || t == bt("free") || t == bt("skip") }

// c20width is the width of the terminal when there is none.
const c20width = 180

// c20fields is the rest of the line for a box with a rendered value.
func c20fields(t *core.T, head, text string, full bool, typ mp4.BoxType) string {
	switch {
	case !full && len(head)+len(text)+2 > c20width:
		t.Count("contents abbreviated for their length", 1)
		return head + " ... " + c20hint(typ)
	case text != "":
		return head + " " + text
	}
	return head
}

// c20dump is what dump must print for a well-formed file; ok is false if the model leaves it open.
func c20dump(t *core.T, f *gen.File, bad map[*gen.Box]bool, o c20options) (lines []string, items []bool, ok bool) {
	ok = true
	var rec func(bs []*gen.Box, depth int)
	rec = func(bs []*gen.Box, depth int) {
		for _, b := range bs {
			head := c20head(o, depth, b.Type, b.Def != nil, b.Offset, b.Size)
			full := o.full[typeName(b.Type)]
			item := false
			line, kids := "", false
			switch {
			case !full && isMedia(b.Type):
				line = head + " Data=[...] " + c20hint(b.Type)
			case b.Def == nil || bad[b]:
				full = full || o.all
				if b.Def == nil {
					t.Count("unsupported types", 1)
				} else {
					t.Count("unsupported versions", 1)
					if !full && b.Size-b.Header >= 64 && isChildless(b.Type) {
						line = head + " ... " + c20hint(b.Type)
						break
					}
					head += " (unsupported box version)"
				}
				if full {
					t.Count("data shown", 1)
					line = head + c20data(f.Payload(b))
				} else {
					line = head + " Data=[...] " + c20hint(b.Type)
				}
			default:
				full = full || o.all
				if !full && b.Size-b.Header >= 64 && isChildless(b.Type) {
					t.Count("contents abbreviated for their type", 1)
					line = head + " ... " + c20hint(b.Type)
					break
				}
				m := spec.Decode(b.Def, b.Type, b.Ctx, f.Payload(b))
				if m.Err != nil {
					ok = false
					return
				}
				item = b.Def.GoType == "Item"
				line, kids = c20fields(t, head, tree.Render(m.Root, ""), full, b.Type), true
			}
			lines, items = append(lines, line), append(items, item)
			if kids {
				rec(b.Kids, depth+1)
			}
		}
	}
	rec(f.Roots, 0)
	return
}

func c20cmpDump(t *core.T, args []string, out []byte, lines []string, items []bool) {
	got := strings.Split(string(out), "\n")
	if got[len(got)-1] == "" {
		got = got[:len(got)-1]
	} else {
		t.Failf("dump: last line not ended", "mp4tool %v: %.200q", args, got[len(got)-1])
	}
	for i, want := range lines {
		if i >= len(got) {
			t.Failf("dump: line missing", "mp4tool %v: %d lines, expected %d; missing: %.400q", args, len(got), len(lines), want)
			return
		}
		t.Count("lines compared", 1)
		if got[i] == want {
			continue
		}
		if items[i] && got[i] == c17flags.ReplaceAllString(want, "Flags=0x000000") {
			continue // finding C17-item-flags
		}
		t.Failf("dump: wrong line", "mp4tool %v, line %d:\n%.600q\nexpected\n%.600q", args, i, got[i], want)
		return
	}
	if len(got) > len(lines) {
		t.Failf("dump: surplus line", "mp4tool %v: %d lines, expected %d; surplus: %.400q", args, len(got), len(lines), got[len(lines)])
	}
}

func typesIn(all []*gen.Box) []mp4.BoxType {
	var out []mp4.BoxType
	for _, b := range all {
		out = append(out, b.Type)
	}
	return out
}

func c20forest(t *core.T) {
	r := t.R
	o := gen.Default(r)
	switch r.IntN(4) {
	case 0:
		o.MaxBytes, o.MaxList = 60, 20
	case 1:
		o.MaxBytes = 100
	}
	f := gen.Random(r, o)
	if r.IntN(10) == 0 {
		c20pad(t, f, 128*1024)
	}
	if r.IntN(2) == 0 && !endsOpen(f.All()) { // a line about as long as the terminal is wide
		b := &gen.Box{Type: bt("vtta"), Fields: bytes.Repeat([]byte{'w'}, 125+r.IntN(23))}
		if len(f.Roots) > 0 && r.IntN(2) == 0 {
			b.Ctx = f.Roots[len(f.Roots)-1].Ctx
			f.Roots = append(f.Roots, b)
		} else {
			f.Roots = append([]*gen.Box{b}, f.Roots...)
		}
		b.Def = spec.Lookup(b.Type, b.Ctx)
		f.Layout()
	}
	c20file(t, f, spoilVersions(r, f))
}

// c20deep dumps boxes nested deep, with others at every level.
func c20deep(t *core.T) {
	for _, n := range []int{20, 40, 150} {
		b := []*gen.Box{gen.Leaf("abcd", []byte("deep")), gen.Leaf("free", nil)}
		for i := 0; i < n; i++ {
			b = []*gen.Box{gen.Leaf("skip", []byte{byte(i)}), gen.Cont([]string{"moov", "trak", "mdia", "minf", "moof", "traf"}[i%6], b...), gen.Leaf("pssh", append(make([]byte, 20), 0, 0, 0, 0))}
		}
		f := &gen.File{Roots: b}
		f.Resolve()
		f.Layout()
		t.Count("deep nestings", 1)
		c20file(t, f, nil)
	}
}

// c20large shows large data and very many boxes.
func c20large(t *core.T) {
	r := t.R
	mv := &gen.Movie{R: r}
	moov, moof := gen.Cont("moov", gen.Leaf("abcd", randBytes(r, 70001))), gen.Cont("moof")
	for range 300 {
		moov.Kids = append(moov.Kids, mv.Pssh(), gen.Leaf("free", randBytes(r, r.IntN(5))))
		moof.Kids = append(moof.Kids, mv.Pssh(), gen.Leaf("wxyz", randBytes(r, r.IntN(5))))
	}
	var many []*gen.Box
	for i := range 3000 {
		many = append(many, gen.Leaf([]string{"free", "abcd", "skip"}[i%3], randBytes(r, i%5)))
	}
	f := &gen.File{Roots: []*gen.Box{moov, moof, gen.Leaf("mdat", randBytes(r, 150000)), gen.Cont("moov", gen.Cont("trak", many...), mv.Pssh())}}
	f.Layout()
	f.Resolve()
	path := scratchFile(t, f.Data)
	defer os.Remove(path)
	for _, o := range []c20options{{all: true, args: []string{"-a"}, full: map[string]bool{}}, {full: map[string]bool{"mdat": true, "free": true, "abcd": true, "pssh": true}, args: []string{"-full", "mdat,free,abcd,pssh"}},
		{full: map[string]bool{}, offset: true, args: []string{"-offset"}}} {
		lines, items, _ := c20dump(t, f, nil, o)
		args := append(append([]string{"dump"}, o.args...), path)
		if res, ok := c20run(t, false, args...); ok {
			c20cmpDump(t, args, res.out, lines, items)
		}
		t.Count("large and many boxes", len(lines))
		t.Eval(1)
	}
	c20psshRun(t, f, path, nil)
	c20extract(t, f, path, nil)
}

// c20huge shows, extracts and skips boxes of more than 4 GiB.
func c20huge(t *core.T) {
	for _, typ := range []string{"mdat", "huge"} {
		f, h := hugeFile(t, typ, typ == "huge")
		path := scratchSparse(t, f)
		if path == "" {
			return
		}
		for _, args := range [][]string{nil, {"-offset"}, {"-hex", "-offset"}} {
			opt := c20options{full: map[string]bool{}, args: args, offset: len(args) > 0, hex: len(args) > 1}
			lines, items, ok := c20dump(t, f, nil, opt)
			args := append(append([]string{"dump"}, args...), path)
			if res, ok2 := c20run(t, false, args...); ok && ok2 {
				c20cmpDump(t, args, res.out, lines, items)
			}
		}
		for _, b := range f.All() {
			v := verifier(f, b.Offset, b.Offset+b.Size)
			if b.Size > 1<<32 && b != h || typ == "mdat" { // extract holds the payload of mdat in memory
				continue
			}
			res := runTo(v, 0, -1, "extract", string(b.Type[:]), path)
			t.Eval(1)
			if res.timeout {
				t.Count("too slow for boxes of more than 4 GiB", 1)
				continue
			}
			t.Count("boxes extracted from files of more than 4 GiB", 1)
			if e := v.done(); e != "" || res.code != 0 || res.crash() != "" {
				t.Failf("extract: wrong bytes", "mp4tool extract %s from a file of %d bytes: %s; exit status %d %.300s", b.Type, f.Len(), e, res.code, res.errOut)
			}
		}
		c20psshRun(t, f, path, nil)
		os.Remove(path)
	}
}

func c20file(t *core.T, f *gen.File, bad map[*gen.Box]bool) {
	r := t.R
	all := f.All()
	t.Attach("file", f.Data)
	t.Trace("file for mp4tool", f.Data)
	path := scratchFile(t, f.Data)
	defer os.Remove(path)
	for k := 0; k < 2; k++ {
		opt := c20draw(r, typesIn(all))
		lines, items, ok := c20dump(t, f, bad, opt)
		if !ok {
			t.Count("outcome left open", 1)
			break
		}
		args := append(append([]string{"dump"}, opt.args...), path)
		t.AttachStr("command", fmt.Sprint(args))
		t.Count("dump runs", 1)
		t.Distinct(f.Data, []byte(strings.Join(opt.args, " ")))
		if res, ok := c20run(t, false, args...); ok {
			c20cmpDump(t, args, res.out, lines, items)
			if t.Idx < 40 && len(lines) > 2 && k == 0 {
				t.Sample("mp4tool dump %v of %d bytes: %d lines as expected, such as %.200q", opt.args, len(f.Data), len(lines), lines[len(lines)-1])
			}
		}
	}
	c20extract(t, f, path, bad)
	if r.IntN(4) == 0 {
		c20psshRun(t, f, path, bad)
	}
}

// c20pad makes the file larger than the blocks in which it is read.
func c20pad(t *core.T, f *gen.File, block int) {
	r := t.R
	t.Count("files beyond the buffer", 1)
	for k := 1 + r.IntN(3); k > 0; k-- {
		b := &gen.Box{Type: bt([]string{"mdat", "free"}[r.IntN(2)])}
		b.Def = spec.Lookup(b.Type, mp4.Context{})
		n := 1 + r.IntN(3*block)
		if r.IntN(2) == 0 { // headers right at a border
			n = max(0, block*(1+r.IntN(5))-len(f.Data)%block-r.IntN(24))
		}
		b.Fields = randBytes(r, n)
		i := r.IntN(len(f.Roots) + 1)
		if i == len(f.Roots) {
			if len(f.Roots) > 0 && endsOpen(f.All()) {
				continue
			}
		}
		if i > 0 { // what follows ftyp is QuickTime, perhaps
			c := f.Roots[i-1].Ctx
			b.Ctx = c
		}
		f.Roots = append(f.Roots[:i:i], append([]*gen.Box{b}, f.Roots[i:]...)...)
		f.Layout()
	}
}

func c20extract(t *core.T, f *gen.File, path string, bad map[*gen.Box]bool) {
	r := t.R
	all := f.All()
	for k := 0; k < 2; k++ {
		var typ mp4.BoxType
		if len(all) > 0 && r.IntN(8) > 0 {
			typ = all[r.IntN(len(all))].Type
		} else {
			typ = bt([]string{"moov", "xxxx", "free", "trak", "data"}[r.IntN(5)])
		}
		if bytes.IndexByte(typ[:], 0) >= 0 {
			continue // no argument
		}
		var want []byte
		n := 0
		for _, b := range all {
			if b.Type == typ {
				want = append(want, f.Bytes(b)...)
				n++
			}
		}
		t.Count("extract runs", 1)
		t.Count("boxes extracted", n)
		args := []string{"extract", string(typ[:]), path}
		if typ[0] == '-' {
			args = []string{"extract", "--", string(typ[:]), path}
		}
		t.AttachStr("command", fmt.Sprintf("%q", args))
		res, ok := c20run(t, false, args...)
		if ok && !bytes.Equal(res.out, want) {
			t.Failf("extract: wrong bytes", "mp4tool extract %q: %s (%d boxes)", typ[:], diff(res.out, want), n)
		}
	}
}

// c20psshRun compares psshdump with the model.
func c20psshRun(t *core.T, f *gen.File, path string, bad map[*gen.Box]bool) {
	var want strings.Builder
	n := 0
	for _, x := range f.Roots {
		if x.Type != bt("moov") && x.Type != bt("moof") {
			continue
		}
		for _, b := range x.Kids {
			if b.Type != bt("pssh") {
				continue
			}
			if bad[b] {
				t.Count("psshdump runs", 1)
				c20run(t, true, "psshdump", path)
				return
			}
			p := f.Payload(b)
			m := spec.Decode(b.Def, b.Type, b.Ctx, p)
			if m.Err != nil {
				return
			}
			id := fmt.Sprintf("%x-%x-%x-%x-%x", p[4:8], p[8:10], p[10:12], p[12:14], p[14:20])
			fmt.Fprintf(&want, "%d:\n  offset: %d\n  size: %d\n  version: %d\n  flags: 0x%06x\n  systemId: %s\n  dataSize: %d\n  base64: \"%s\"\n\n",
				n, b.Offset, b.Size, p[0], p[1:4], id, m.Root.Kid("DataSize").I, base64.StdEncoding.EncodeToString(f.Bytes(b)))
			n++
		}
	}
	t.Count("psshdump runs", 1)
	t.Count("protection headers", n)
	t.AttachStr("command", "psshdump")
	res, ok := c20run(t, false, "psshdump", path)
	if ok && string(res.out) != want.String() {
		t.Failf("psshdump: wrong output", "%s\nprinted %.1500s\nexpected %.1500s", diff(res.out, []byte(want.String())), res.out, want.String())
	}
}

// c20pssh makes a file with many protection headers.
func c20pssh(t *core.T) {
	r := t.R
	f := &gen.File{}
	mv := &gen.Movie{R: r}
	pssh := func() *gen.Box {
		b := mv.Pssh()
		if r.IntN(3) == 0 {
			d := spec.Lookup(bt("pssh"), mp4.Context{})
			b.Fields = spec.Gen(d, bt("pssh"), mp4.Context{}, r, 4, 1+r.IntN(3000)).Data
		}
		return b
	}
	for k := 1 + r.IntN(6); k > 0; k-- {
		var kids []*gen.Box
		for n := r.IntN(5); n > 0; n-- {
			switch r.IntN(5) {
			case 0:
				kids = append(kids, gen.Leaf("free", randBytes(r, r.IntN(2000))))
			case 1:
				kids = append(kids, gen.Cont("trak", pssh()))
			case 2:
				kids = append(kids, gen.Cont([]string{"moov", "moof"}[r.IntN(2)], pssh()))
			default:
				kids = append(kids, pssh())
			}
		}
		switch r.IntN(6) {
		case 0:
			f.Roots = append(f.Roots, pssh())
		case 1:
			f.Roots = append(f.Roots, gen.Leaf("mdat", randBytes(r, r.IntN(5000))))
		case 2:
			f.Roots = append(f.Roots, gen.Cont("trak", kids...))
		default:
			f.Roots = append(f.Roots, gen.Cont([]string{"moov", "moof"}[r.IntN(2)], kids...))
		}
	}
	f.Layout()
	for _, b := range f.All() {
		if r.IntN(6) == 0 {
			b.Form = 1
		}
	}
	if r.IntN(6) == 0 {
		f.Roots[len(f.Roots)-1].Form = 2
	}
	f.Layout()
	f.Resolve()
	bad := map[*gen.Box]bool{}
	if r.IntN(3) == 0 {
		bad = spoilVersions(r, f)
	}
	t.Attach("file", f.Data)
	t.Trace("file for mp4tool psshdump", f.Data)
	t.Distinct([]byte("pssh"), f.Data)
	path := scratchFile(t, f.Data)
	defer os.Remove(path)
	c20psshRun(t, f, path, bad)
	c20extract(t, f, path, bad)
}

// c20report mirrors the documented summary.
type c20report struct {
	MajorBrand       string      `yaml:"major_brand"`
	MinorVersion     uint32      `yaml:"minor_version"`
	CompatibleBrands []string    `yaml:"compatible_brands"`
	FastStart        bool        `yaml:"fast_start"`
	Timescale        uint32      `yaml:"timescale"`
	Duration         uint64      `yaml:"duration"`
	DurationSeconds  float32     `yaml:"duration_seconds"`
	Tracks           []*c20track `yaml:"tracks"`
}

type c20track struct {
	TrackID         uint32  `yaml:"track_id"`
	Timescale       uint32  `yaml:"timescale"`
	Duration        uint64  `yaml:"duration"`
	DurationSeconds float32 `yaml:"duration_seconds"`
	Codec           string  `yaml:"codec"`
	Encrypted       bool    `yaml:"encrypted"`
	Width           uint16  `json:",omitempty" yaml:"width,omitempty"`
	Height          uint16  `json:",omitempty" yaml:"height,omitempty"`
	SampleNum       int     `json:",omitempty" yaml:"sample_num,omitempty"`
	ChunkNum        int     `json:",omitempty" yaml:"chunk_num,omitempty"`
	IDRFrameNum     int     `json:",omitempty" yaml:"idr_frame_num,omitempty"`
	Bitrate         uint64  `json:",omitempty" yaml:"bitrate,omitempty"`
	MaxBitrate      uint64  `json:",omitempty" yaml:"max_bitrate,omitempty"`
}

// c20summary computes the summary with the library; err says that the file cannot be summarized.
func c20summary(data []byte, info *mp4.ProbeInfo) (*c20report, error) {
	r := bytes.NewReader(data)
	if info == nil {
		var err error
		if info, err = mp4.Probe(r); err != nil {
			return nil, err
		}
	}
	secs := func(d uint64, ts uint32) float32 {
		if ts == 0 {
			return 0
		}
		return float32(d) / float32(ts)
	}
	rep := &c20report{MajorBrand: string(info.MajorBrand[:]), MinorVersion: info.MinorVersion, CompatibleBrands: []string{}, FastStart: info.FastStart,
		Timescale: info.Timescale, Duration: info.Duration, DurationSeconds: secs(info.Duration, info.Timescale), Tracks: []*c20track{}}
	for _, b := range info.CompatibleBrands {
		rep.CompatibleBrands = append(rep.CompatibleBrands, string(b[:]))
	}
	for _, tr := range info.Tracks {
		k := &c20track{TrackID: tr.TrackID, Timescale: tr.Timescale, Duration: tr.Duration, DurationSeconds: secs(tr.Duration, tr.Timescale),
			Encrypted: tr.Encrypted, SampleNum: len(tr.Samples), ChunkNum: len(tr.Chunks), Codec: "unknown"}
		k.Bitrate, k.MaxBitrate = tr.Samples.GetBitrate(tr.Timescale), tr.Samples.GetMaxBitrate(tr.Timescale, uint64(tr.Timescale))
		if k.Bitrate == 0 || k.MaxBitrate == 0 {
			k.Bitrate, k.MaxBitrate = info.Segments.GetBitrate(tr.TrackID, tr.Timescale), info.Segments.GetMaxBitrate(tr.TrackID, tr.Timescale)
		}
		switch tr.Codec {
		case mp4.CodecAVC1:
			k.Codec = "avc1"
			if a := tr.AVC; a != nil {
				k.Codec = fmt.Sprintf("avc1.%02X%02X%02X", a.Profile, a.ProfileCompatibility, a.Level)
				k.Width, k.Height = a.Width, a.Height
			}
			idx, err := mp4.FindIDRFrames(r, tr)
			if err != nil {
				return nil, err
			}
			k.IDRFrameNum = len(idx)
		case mp4.CodecMP4A:
			k.Codec = "mp4a"
			if a := tr.MP4A; a != nil && a.OTI != 0 {
				k.Codec += fmt.Sprintf(".%X", a.OTI)
				if a.AudOTI != 0 {
					k.Codec += fmt.Sprintf(".%d", a.AudOTI)
				}
			}
		}
		rep.Tracks = append(rep.Tracks, k)
	}
	return rep, nil
}

// c20probe compares probe's report in the given format.
func c20probe(t *core.T, path string, want *c20report, wantErr error, format string) {
	args := []string{"probe", path}
	if format != "" {
		args = []string{"probe", "-format", format, path}
	}
	t.Count("probe runs", 1)
	t.AttachStr("command", fmt.Sprint(args))
	res, ok := c20run(t, wantErr != nil, args...)
	if !ok || wantErr != nil {
		return
	}
	var g, w any
	var err error
	if format == "yaml" {
		t.Count("reports as YAML", 1)
		b, _ := yaml.Marshal(want)
		yaml.Unmarshal(b, &w)
		err = yaml.Unmarshal(res.out, &g)
	} else {
		t.Count("reports as JSON", 1)
		b, _ := json.Marshal(want)
		dec := json.NewDecoder(bytes.NewReader(b))
		dec.UseNumber()
		dec.Decode(&w)
		dec = json.NewDecoder(bytes.NewReader(res.out))
		dec.UseNumber()
		if err = dec.Decode(&g); err == nil && dec.More() {
			err = errors.New("more than one report")
		}
	}
	if err != nil {
		t.Failf("probe: not "+format, "%v: %.400s", err, res.out)
	} else if !reflect.DeepEqual(g, w) {
		t.Failf("probe: wrong report", "mp4tool %v printed\n%.1500s\nexpected\n%+v", args, res.out, w)
	}
}

func c20movie(t *core.T) {
	r := t.R
	o := gen.MovieOptions{Progressive: r.IntN(4) > 0, Fragmented: r.IntN(2) == 0, Missing: r.IntN(10) == 0, BigData: r.IntN(6) == 0}
	switch r.IntN(60) {
	case 0:
		o.MaxTracks, o.MaxFrags = 40, 200
	case 1:
		o.MaxSamples = 2000
	}
	m := gen.RandomMovie(r, o)
	if len(m.Data) > 1<<20 {
		return
	}
	if len(m.Data) > 4096 {
		t.Count("files beyond the buffer", 1)
	}
	t.Attach("file", m.Data)
	t.Trace("movie for mp4tool", m.Data)
	t.Distinct([]byte("movie"), m.Data)
	path := scratchFile(t, m.Data)
	defer os.Remove(path)
	want, err := c20summary(m.Data, nil)
	if m.Missing != "" && err == nil {
		return // the summary is another property's matter
	}
	c20probe(t, path, want, err, []string{"", "json"}[r.IntN(2)])
	c20probe(t, path, want, err, "yaml")
	if t.Idx < 80 && err == nil {
		t.Sample("mp4tool probe of %d bytes: %d tracks, summary as the library computes it", len(m.Data), len(want.Tracks))
	}
	c20psshRun(t, m.File, path, nil)
	opt := c20draw(r, typesIn(m.All()))
	if lines, items, ok := c20dump(t, m.File, nil, opt); ok {
		args := append(append([]string{"dump"}, opt.args...), path)
		t.AttachStr("command", fmt.Sprint(args))
		t.Count("dump runs", 1)
		if res, ok := c20run(t, false, args...); ok {
			c20cmpDump(t, args, res.out, lines, items)
		}
	}
	c20extract(t, m.File, path, nil)
}

// c20refDump walks a damaged file with the library.
func c20refDump(t *core.T, data []byte, o c20options) (string, error) {
	var out strings.Builder
	_, err := mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
		bi := h.BoxInfo
		head := c20head(o, len(h.Path)-1, bi.Type, bi.IsSupportedType(), bi.Offset, bi.Size)
		full := o.full[typeName(bi.Type)]
		if !full && isMedia(bi.Type) {
			out.WriteString(head + " Data=[...] " + c20hint(bi.Type) + "\n")
			return nil, nil
		}
		full = full || o.all
		if bi.IsSupportedType() {
			if !full && bi.Size-bi.HeaderSize >= 64 && isChildless(bi.Type) {
				out.WriteString(head + " ... " + c20hint(bi.Type) + "\n")
				return nil, nil
			}
			box, _, err := h.ReadPayload()
			switch {
			case err == nil:
				text, err := mp4.Stringify(box, bi.Context)
				if err != nil {
					return nil, err
				}
				out.WriteString(c20fields(t, head, text, full, bi.Type) + "\n")
				_, err = h.Expand()
				return nil, err
			case !errors.Is(err, mp4.ErrUnsupportedBoxVersion):
				return nil, err
			}
			head += " (unsupported box version)"
		}
		if !full {
			out.WriteString(head + " Data=[...] " + c20hint(bi.Type) + "\n")
			return nil, nil
		}
		var buf bytes.Buffer
		if _, err := h.ReadData(&buf); err != nil {
			return nil, err
		}
		out.WriteString(head + c20data(buf.Bytes()) + "\n")
		return nil, nil
	})
	return out.String(), err
}

func c20refExtract(data []byte, typ mp4.BoxType) ([]byte, error) {
	var out []byte
	_, err := mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
		bi := h.BoxInfo
		if bi.Type == typ {
			if bi.Offset+bi.Size > uint64(len(data)) {
				return nil, io.EOF
			}
			out = append(out, data[bi.Offset:bi.Offset+bi.Size]...)
		}
		if !bi.IsSupportedType() || bi.Size >= 256 && isChildless(bi.Type) {
			return nil, nil
		}
		_, err := h.Expand()
		if errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
			return nil, nil
		}
		return nil, err
	})
	return out, err
}

func c20refPssh(data []byte) (string, error) {
	bs, err := mp4.ExtractBoxesWithPayload(bytes.NewReader(data), nil, []mp4.BoxPath{{bt("moov"), bt("pssh")}, {bt("moof"), bt("pssh")}})
	if err != nil {
		return "", err
	}
	var out strings.Builder
	for i, b := range bs {
		if b.Info.Offset+b.Info.Size > uint64(len(data)) {
			return out.String(), io.EOF
		}
		p := b.Payload.(*mp4.Pssh)
		id := p.SystemID
		fmt.Fprintf(&out, "%d:\n  offset: %d\n  size: %d\n  version: %d\n  flags: 0x%06x\n  systemId: %x-%x-%x-%x-%x\n  dataSize: %d\n  base64: \"%s\"\n\n",
			i, b.Info.Offset, b.Info.Size, p.Version, p.GetFlags(), id[:4], id[4:6], id[6:8], id[8:10], id[10:], p.DataSize,
			base64.StdEncoding.EncodeToString(data[b.Info.Offset:b.Info.Offset+b.Info.Size]))
	}
	return out.String(), nil
}

func c20damaged(t *core.T) {
	r := t.R
	var data []byte
	var types []mp4.BoxType
	switch r.IntN(6) {
	case 0:
		files := sampleFiles()
		names := slices.Sorted(maps.Keys(files))
		data = bytes.Clone(files[names[r.IntN(len(names))]])
		for k := r.IntN(4); k > 0 && len(data) > 0; k-- {
			data[r.IntN(len(data))] = byte(r.Uint32())
		}
		if r.IntN(4) == 0 {
			data = data[:r.IntN(len(data)+1)]
		}
		types = []mp4.BoxType{bt("trak"), bt("stsd"), bt("mdat"), bt("esds"), bt("free"), bt("moov")}
	case 1:
		data = randBytes(r, r.IntN(60))
		if len(data) > 8 {
			copy(data, []byte{0, 0, 0, byte(r.IntN(60))})
			copy(data[4:], []string{"moov", "ftyp", "moof", "mdat", "xxxx"}[r.IntN(5)])
		}
	default:
		f, _ := randFile(r)
		if r.IntN(6) == 0 {
			f.Restructure(r)
			f.Layout()
			data = f.Data
		} else {
			data = mutateFile(r, f)
		}
		types = typesIn(f.All())
	}
	if hugeTrun(data) {
		t.Count("skipped: samples without bytes", 1)
		return
	}
	t.Attach("file", data)
	t.Trace("damaged file for mp4tool", data)
	t.Distinct([]byte("damaged"), data)
	path := scratchFile(t, data)
	defer os.Remove(path)
	judge := func(want []byte, err error, args ...string) {
		t.AttachStr("command", fmt.Sprintf("%q", args))
		t.Count(args[0]+" runs", 1)
		res, ok := c20run(t, err != nil, args...)
		if !ok {
			return
		}
		t.Count("damaged files processed", 1)
		if err == nil && !bytes.Equal(res.out, want) {
			t.Failf(args[0]+": damaged file", "mp4tool %q: %s", args, diff(res.out, want))
		} else if err != nil && !bytes.HasPrefix(res.out, want) {
			t.Failf(args[0]+": output before the failure", "mp4tool %q: %s (then: %v)", args, diff(res.out[:min(len(res.out), len(want))], want), err)
		}
	}
	opt := c20draw(r, types)
	var want []byte
	var err error
	if t.Guard("dump", func() {
		var s string
		s, err = c20refDump(t, data, opt)
		want = []byte(s)
	}) {
		return
	}
	judge(want, err, append(append([]string{"dump"}, opt.args...), path)...)
	typ := bt("moov")
	if len(types) > 0 {
		typ = types[r.IntN(len(types))]
	}
	if bytes.IndexByte(typ[:], 0) < 0 && typ[0] != '-' {
		want, err = c20refExtract(data, typ)
		judge(want, err, "extract", string(typ[:]), path)
	}
	s, err := c20refPssh(data)
	judge([]byte(s), err, "psshdump", path)
	if hugeStts(data) {
		t.Count("skipped: samples without bytes", 1)
		return
	}
	rep, err := c20summary(data, nil)
	c20probe(t, path, rep, err, []string{"", "json", "yaml"}[r.IntN(3)])
}

// c20args gives wrong command lines and unreadable files.
func c20args(t *core.T) {
	r := t.R
	f, _ := randFile(r)
	path := scratchFile(t, f.Data)
	defer os.Remove(path)
	none := filepath.Join(t.Tmp, "does", "not", "exist.mp4")
	empty := scratchFile(t, nil)
	defer os.Remove(empty)
	for _, args := range [][]string{
		{}, {"nonsense"}, {"alpha"}, {"alpha", "nonsense"}, {"dump"}, {"dump", "-hex"}, {"psshdump"}, {"probe"}, {"probe", "-format", "yaml"}, {"extract"}, {"extract", "moov"},
		{"dump", none}, {"psshdump", none}, {"probe", none}, {"extract", "moov", none}, {"extract", "moo", path}, {"extract", "moovx", path}, {"extract", "", path},
		{"extract", "\u00a9nam", path}, {"extract", "\u00a9na", none}, {"extract", "\u65e5\u672c\u8a9e\u5b57", path},
		{"dump", t.Tmp}, {"psshdump", t.Tmp}, {"probe", t.Tmp}, {"extract", "moov", t.Tmp}, {"dump", "-nonsense", path}, {"probe", "-nonsense", path},
		{"extract", "-nonsense", "moov", path}, {"dump", "-full"},
	} {
		res := runTool(args...)
		t.Eval(1)
		t.Count("bad command lines", 1)
		if res.timeout || res.crash() != "" {
			t.Failf("bad command line crashes", "mp4tool %q: %.500s", args, res.crash())
		} else if res.code == 0 {
			t.Failf("bad command line accepted", "mp4tool %q: exit status 0, printed %.200q", args, res.out)
		}
	}
	for _, args := range [][]string{{"dump", empty}, {"psshdump", empty}, {"extract", "moov", empty}} {
		if res, ok := c20run(t, false, args...); ok && len(res.out) > 0 {
			t.Failf("output for an empty file", "mp4tool %q: %.300q", args[:len(args)-1], res.out)
		}
	}
	rep, err := c20summary(nil, nil)
	c20probe(t, empty, rep, err, "")
}
