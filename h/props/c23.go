package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C23", Quick: 2000000, Thorough: 60000000,
		Rule: "for every accessor of every box type, boxes with random values in all fields and every version, also decoded ones, compared with the field read by reflection; random histories of flag operations on every box type " +
			"and of brand operations against sets; type conversions, comparisons, renderings and the registry against the model; non-trivial: distinct values and histories",
		Need: []string{"accessors: version 0", "accessors: version 1", "accessors: unknown version", "accessors of decoded boxes", "fixed-point accessors", "word lists", "flag operations", "flag operations on boxes without flags",
			"brand operations", "duplicate brands", "type conversions", "printable types", "unprintable types", "registry queries", "supported types", "unsupported types"},
		Case:  c23,
		Fixed: []func(t *core.T){c23fixed},
	})
}

// accessors of fields in two widths: method, field, list that holds it
var c23getters = []struct {
	box    mp4.IBox
	method string
	list   string
	field  string // without V0 or V1
	inList bool   // the list itself is in two widths
}{
	{&mp4.Cslg{}, "GetCompositionToDTSShift", "", "CompositionToDTSShift", false},
	{&mp4.Cslg{}, "GetLeastDecodeToDisplayDelta", "", "LeastDecodeToDisplayDelta", false},
	{&mp4.Cslg{}, "GetGreatestDecodeToDisplayDelta", "", "GreatestDecodeToDisplayDelta", false},
	{&mp4.Cslg{}, "GetCompositionStartTime", "", "CompositionStartTime", false},
	{&mp4.Cslg{}, "GetCompositionEndTime", "", "CompositionEndTime", false},
	{&mp4.Ctts{}, "GetSampleOffset", "Entries", "SampleOffset", false},
	{&mp4.Elst{}, "GetSegmentDuration", "Entries", "SegmentDuration", false},
	{&mp4.Elst{}, "GetMediaTime", "Entries", "MediaTime", false},
	{&mp4.Mdhd{}, "GetCreationTime", "", "CreationTime", false},
	{&mp4.Mdhd{}, "GetModificationTime", "", "ModificationTime", false},
	{&mp4.Mdhd{}, "GetDuration", "", "Duration", false},
	{&mp4.Mehd{}, "GetFragmentDuration", "", "FragmentDuration", false},
	{&mp4.Mvhd{}, "GetCreationTime", "", "CreationTime", false},
	{&mp4.Mvhd{}, "GetModificationTime", "", "ModificationTime", false},
	{&mp4.Mvhd{}, "GetDuration", "", "Duration", false},
	{&mp4.Saio{}, "GetOffset", "Offset", "", true},
	{&mp4.Sidx{}, "GetEarliestPresentationTime", "", "EarliestPresentationTime", false},
	{&mp4.Sidx{}, "GetFirstOffset", "", "FirstOffset", false},
	{&mp4.Tfdt{}, "GetBaseMediaDecodeTime", "", "BaseMediaDecodeTime", false},
	{&mp4.Tfra{}, "GetTime", "Entries", "Time", false},
	{&mp4.Tfra{}, "GetMoofOffset", "Entries", "MoofOffset", false},
	{&mp4.Tkhd{}, "GetCreationTime", "", "CreationTime", false},
	{&mp4.Tkhd{}, "GetModificationTime", "", "ModificationTime", false},
	{&mp4.Tkhd{}, "GetDuration", "", "Duration", false},
	{&mp4.Trun{}, "GetSampleCompositionTimeOffset", "Entries", "SampleCompositionTimeOffset", false},
}

// c23fill sets every field to something.
func c23fill(v reflect.Value, r *rand.Rand) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				c23fill(v.Field(i), r)
			}
		}
	case reflect.Slice:
		n := 1 + r.IntN(4)
		if r.IntN(30) == 0 {
			n = r.IntN(400) + 1
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			c23fill(v.Index(i), r)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c23fill(v.Index(i), r)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(c23word(r, v.Type().Bits()))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		n := uint(v.Type().Bits())
		v.SetInt(int64(c23word(r, int(n))<<(64-n)) >> (64 - n))
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.String:
		v.SetString(string(randBytes(r, r.IntN(6))))
	}
}

func c23word(r *rand.Rand, bits int) uint64 {
	m := ^uint64(0) >> uint(64-bits)
	switch r.IntN(6) {
	case 0:
		return (uint64(1)<<uint(r.IntN(bits)) - uint64(r.IntN(2))) & m
	case 1:
		return m - uint64(r.IntN(3))
	case 2:
		return uint64(r.IntN(300)) & m
	}
	return r.Uint64() & m
}

func c23(t *core.T) {
	r := t.R
	switch r.IntN(8) {
	case 0, 1, 2:
		c23accessor(t)
	case 3:
		c23fixedPoint(t)
	case 4:
		c23flags(t)
	case 5:
		c23brands(t)
	case 6:
		c23conv(t)
	default:
		c23registry(t)
	}
}

func c23accessor(t *core.T) {
	r := t.R
	g := c23getters[r.IntN(len(c23getters))]
	typ := reflect.TypeOf(g.box).Elem()
	box := reflect.New(typ).Interface().(mp4.IBox)
	v := reflect.ValueOf(box).Elem()
	if r.IntN(4) == 0 { // decoded
		bt := g.box.GetType()
		res := spec.Gen(spec.Lookup(bt, mp4.Context{}), bt, mp4.Context{}, r, 3, 6)
		d := unmarshalAt(bytes.NewReader(res.Data), 0, bt, uint64(len(res.Data)), mp4.Context{})
		if d.err != nil {
			t.Failf("decode", "%s: %v", typ.Name(), d.err)
			return
		}
		box = d.box
		v = reflect.ValueOf(box).Elem()
		t.Count("accessors of decoded boxes", 1)
	} else {
		c23fill(v, r)
		switch r.IntN(8) {
		case 0, 1, 2:
			box.SetVersion(0)
		case 3, 4, 5:
			box.SetVersion(1)
		case 6:
			box.SetVersion(uint8(2 + r.IntN(4)))
		}
	}
	c23get(t, g.method, g.list, g.field, g.inList, box)
}

func c23get(t *core.T, method, list, field string, inList bool, box mp4.IBox) {
	r := t.R
	v := reflect.ValueOf(box).Elem()
	name := v.Type().Name() + "." + method
	ver := box.GetVersion()
	if uint64(ver) != v.FieldByName("Version").Uint() {
		t.Failf("version", "%s: %d, is %d", v.Type().Name(), ver, v.FieldByName("Version").Uint())
		return
	}
	sfx := fmt.Sprintf("V%d", ver)
	var args []reflect.Value
	src := v
	idx := -1
	if list != "" {
		l := v.FieldByName(list)
		if inList {
			if ver > 1 {
				l = v.FieldByName(list + "V0")
			} else {
				l = v.FieldByName(list + sfx)
				if r.IntN(2) == 0 { // the other list may be of any length
					other := v.FieldByName(list + fmt.Sprintf("V%d", 1-ver))
					other.Set(reflect.Zero(other.Type()))
				}
			}
		}
		if l.Len() == 0 {
			return
		}
		idx = r.IntN(l.Len())
		args = append(args, reflect.ValueOf(idx))
		src = l.Index(idx)
	}
	before := tree.Dump(box)
	out := reflect.ValueOf(box).MethodByName(method).Call(args)[0]
	t.Eval(1)
	got := c23num(out)
	want := "0"
	switch {
	case ver > 1:
		t.Count("accessors: unknown version", 1)
	case inList:
		want = c23num(src)
		t.Count(fmt.Sprintf("accessors: version %d", ver), 1)
	default:
		want = c23num(src.FieldByName(field + sfx))
		t.Count(fmt.Sprintf("accessors: version %d", ver), 1)
	}
	t.Distinct([]byte(name), []byte(want), []byte{ver})
	if got != want {
		t.AttachStr("box", before)
		t.Failf("accessor "+name, "version %d, index %d: %s, the field holds %s", ver, idx, got, want)
	}
	if after := tree.Dump(box); after != before {
		t.Failf("accessor modifies the box", "%s: %s, was %s", name, after, before)
	}
	if t.Idx < 40 {
		t.Sample("%s of version %d, index %d: %s", name, ver, idx, got)
	}
}

func c23num(v reflect.Value) string {
	if tree := v.Kind(); tree >= reflect.Int && tree <= reflect.Int64 {
		return fmt.Sprint(v.Int())
	}
	return fmt.Sprint(v.Uint())
}

// c23fixedPoint compares fixed-point accessors and word lists.
func c23fixedPoint(t *core.T) {
	r := t.R
	same := func(name string, field any, got, want float64) {
		t.Eval(1)
		t.Count("fixed-point accessors", 1)
		t.Distinct([]byte(name), []byte(fmt.Sprint(field)))
		if got != want {
			t.Failf("accessor "+name, "field %v: %v, expected %v", field, got, want)
		}
	}
	floor := func(n int64, frac uint) float64 { return math.Floor(float64(n) / float64(int64(1)<<frac)) }
	switch r.IntN(6) {
	case 0:
		var b mp4.Mvhd
		c23fill(reflect.ValueOf(&b).Elem(), r)
		same("Mvhd.GetRate", b.Rate, b.GetRate(), float64(b.Rate)/65536)
		same("Mvhd.GetRateInt", b.Rate, float64(b.GetRateInt()), floor(int64(b.Rate), 16))
	case 1:
		var b mp4.AudioSampleEntry
		b.SampleRate = uint32(c23word(r, 32))
		same("AudioSampleEntry.GetSampleRate", b.SampleRate, b.GetSampleRate(), float64(b.SampleRate)/65536)
		same("AudioSampleEntry.GetSampleRateInt", b.SampleRate, float64(b.GetSampleRateInt()), floor(int64(b.SampleRate), 16))
	case 2:
		var b mp4.Smhd
		c23fill(reflect.ValueOf(&b).Elem(), r)
		same("Smhd.GetBalance", b.Balance, float64(b.GetBalance()), float64(b.Balance)/256)
		same("Smhd.GetBalanceInt", b.Balance, float64(b.GetBalanceInt()), floor(int64(b.Balance), 8))
	case 3, 4:
		var b mp4.Tkhd
		c23fill(reflect.ValueOf(&b).Elem(), r)
		same("Tkhd.GetWidth", b.Width, b.GetWidth(), float64(b.Width)/65536)
		same("Tkhd.GetWidthInt", b.Width, float64(b.GetWidthInt()), floor(int64(b.Width), 16))
		same("Tkhd.GetHeight", b.Height, b.GetHeight(), float64(b.Height)/65536)
		same("Tkhd.GetHeightInt", b.Height, float64(b.GetHeightInt()), floor(int64(b.Height), 16))
	default:
		var x mp4.XMLSubtitleSampleEntry
		draw := func() (string, []string) {
			var words []string
			var sb strings.Builder
			pad := func(min int) {
				n := min
				if r.IntN(6) == 0 {
					n += r.IntN(3)
				}
				sb.WriteString(strings.Repeat(" ", n))
			}
			pad(0)
			for i := r.IntN(5); i > 0; i-- {
				w := make([]byte, 1+r.IntN(12))
				for j := range w {
					w[j] = byte(0x21 + r.IntN(0x5e))
				}
				words = append(words, string(w))
				sb.Write(w)
				if i > 1 {
					pad(1)
				}
			}
			pad(0)
			return sb.String(), words
		}
		for _, f := range []struct {
			name string
			dst  *string
			get  func() []string
		}{
			{"GetNamespaceList", &x.Namespace, x.GetNamespaceList},
			{"GetSchemaLocationList", &x.SchemaLocation, x.GetSchemaLocationList},
			{"GetAuxiliaryMIMETypesList", &x.AuxiliaryMIMETypes, x.GetAuxiliaryMIMETypesList},
		} {
			text, want := draw()
			*f.dst = text
			got := f.get()
			t.Eval(1)
			t.Count("word lists", 1)
			t.Distinct([]byte(f.name), []byte(text))
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				t.Failf("accessor XMLSubtitleSampleEntry."+f.name, "%q: %q, expected %q", text, got, want)
			}
		}
	}
}

// c23flags runs a history of flag and version operations.
func c23flags(t *core.T) {
	r := t.R
	tc := allTypes[r.IntN(len(allTypes))]
	box, err := tc.Type.New(tc.Ctx)
	if err != nil {
		t.Failf("new", "%s: %v", typeStr(tc.Type), err)
		return
	}
	v := reflect.ValueOf(box).Elem()
	c23fill(v, r)
	if a, ok := box.(interface{ SetType(mp4.BoxType) }); ok {
		a.SetType(tc.Type)
	}
	fb := v.FieldByName("FullBox")
	name := v.Type().Name()
	word := func() uint32 {
		switch r.IntN(4) {
		case 0:
			return 1 << uint(r.IntN(24))
		case 1:
			return r.Uint32() & r.Uint32() & 0xffffff
		case 2:
			return uint32(c23word(r, 24))
		}
		return r.Uint32N(1 << 24)
	}
	hist := name
	if !fb.IsValid() { // nothing to change
		before := tree.Dump(box)
		w := word()
		box.SetFlags(w)
		box.AddFlag(w)
		box.RemoveFlag(w >> 1)
		box.SetVersion(uint8(w))
		t.Eval(1)
		t.Count("flag operations on boxes without flags", 1)
		t.Distinct([]byte(name), []byte(fmt.Sprint(w)))
		if after := tree.Dump(box); after != before {
			t.Failf("flags of a box without flags", "%s: %s, was %s", name, after, before)
		}
		if box.GetFlags() != 0 || box.GetVersion() != 0 {
			t.Failf("flags of a box without flags", "%s: %#x, version %d", name, box.GetFlags(), box.GetVersion())
		}
		return
	}
	// everything but version and flags
	rest := func() string {
		f := fb.FieldByName("Flags")
		old := reflect.New(f.Type()).Elem()
		old.Set(f)
		ver := fb.FieldByName("Version").Uint()
		f.Set(reflect.Zero(f.Type()))
		fb.FieldByName("Version").SetUint(0)
		s := tree.Dump(box)
		f.Set(old)
		fb.FieldByName("Version").SetUint(ver)
		return s
	}
	others := rest()
	raw := fb.FieldByName("Flags").Interface().([3]byte)
	model := uint32(raw[0])<<16 | uint32(raw[1])<<8 | uint32(raw[2])
	ver := uint8(fb.FieldByName("Version").Uint())
	for i := 1 + r.IntN(12); i > 0; i-- {
		w := word()
		switch r.IntN(5) {
		case 0:
			box.SetFlags(w)
			model = w
			hist += fmt.Sprintf(" set %06x", w)
		case 1:
			box.AddFlag(w)
			model |= w
			hist += fmt.Sprintf(" add %06x", w)
		case 2:
			box.RemoveFlag(w)
			model &^= w
			hist += fmt.Sprintf(" remove %06x", w)
		case 3:
			ver = uint8(r.Uint32())
			box.SetVersion(ver)
			hist += fmt.Sprintf(" version %d", ver)
		case 4:
			raw := [3]byte(randBytes(r, 3))
			fb.FieldByName("Flags").Set(reflect.ValueOf(raw))
			model = uint32(raw[0])<<16 | uint32(raw[1])<<8 | uint32(raw[2])
			hist += fmt.Sprintf(" field %x", raw)
		}
		t.Count("flag operations", 1)
		t.Eval(1)
		bad := ""
		if box.GetFlags() != model {
			bad = fmt.Sprintf("flags %06x, expected %06x", box.GetFlags(), model)
		}
		if raw := fb.FieldByName("Flags").Interface().([3]byte); raw != [3]byte{byte(model >> 16), byte(model >> 8), byte(model)} {
			bad = fmt.Sprintf("field %x, expected %06x", raw, model)
		}
		if box.GetVersion() != ver || uint64(ver) != fb.FieldByName("Version").Uint() {
			bad = fmt.Sprintf("version %d, expected %d", box.GetVersion(), ver)
		}
		for b := uint(0); b < 24; b++ {
			if box.CheckFlag(1<<b) != (model>>b&1 == 1) {
				bad = fmt.Sprintf("CheckFlag(%06x) with flags %06x: %v", 1<<b, model, box.CheckFlag(1<<b))
			}
		}
		if q := word(); box.CheckFlag(q) != (model&q != 0) {
			bad = fmt.Sprintf("CheckFlag(%06x) with flags %06x: %v", q, model, box.CheckFlag(q))
		}
		if bad != "" {
			t.Failf("flags", "%s: %s", hist, bad)
			return
		}
	}
	if s := rest(); s != others {
		t.Failf("flag operations change other fields", "%s: %s, was %s", hist, s, others)
	}
	t.Distinct([]byte(hist))
	if t.Idx < 60 {
		t.Sample("%s: flags %06x", hist, model)
	}
}

// c23brands runs a history of brand operations.
func c23brands(t *core.T) {
	r := t.R
	pool := [][4]byte{mp4.BrandQT(), mp4.BrandISOM(), mp4.BrandISO2(), mp4.BrandISO9(), mp4.BrandMP41(), {}, {'Q', 'T', ' ', ' '}, {'q', 't', 0, 0}, {0xff, 0, 1, 2}}
	brand := func() [4]byte {
		if r.IntN(8) == 0 {
			return [4]byte(randBytes(r, 4))
		}
		return pool[r.IntN(len(pool))]
	}
	f := &mp4.Ftyp{MajorBrand: brand(), MinorVersion: r.Uint32()}
	major, minor := f.MajorBrand, f.MinorVersion
	count := map[[4]byte]int{}
	hist := "start"
	long := 1
	if r.IntN(40) == 0 {
		long = 60
	}
	for i := r.IntN(6) * long; i > 0; i-- {
		b := brand()
		if r.IntN(3) == 0 && len(f.CompatibleBrands) > 0 {
			b = f.CompatibleBrands[0].CompatibleBrand
		}
		f.CompatibleBrands = append(f.CompatibleBrands, mp4.CompatibleBrandElem{CompatibleBrand: b})
		count[b]++
		hist += fmt.Sprintf(" %q", b)
		if count[b] > 1 {
			t.Count("duplicate brands", 1)
		}
	}
	for i := 1 + r.IntN(12); i > 0; i-- {
		b := brand()
		if r.IntN(3) == 0 && len(f.CompatibleBrands) > 0 {
			b = f.CompatibleBrands[r.IntN(len(f.CompatibleBrands))].CompatibleBrand
		}
		if r.IntN(2) == 0 {
			f.AddCompatibleBrand(b)
			if count[b] == 0 {
				count[b] = 1
			}
			hist += fmt.Sprintf(" add %q", b)
		} else {
			f.RemoveCompatibleBrand(b)
			delete(count, b)
			hist += fmt.Sprintf(" remove %q", b)
		}
		t.Count("brand operations", 1)
		t.Eval(1)
		have := map[[4]byte]int{}
		for _, e := range f.CompatibleBrands {
			have[e.CompatibleBrand]++
		}
		bad := ""
		if !reflect.DeepEqual(have, count) {
			bad = fmt.Sprintf("brands %q, expected %q", have, count)
		}
		for _, b := range append(pool, b) {
			if f.HasCompatibleBrand(b) != (count[b] > 0) {
				bad = fmt.Sprintf("HasCompatibleBrand(%q): %v of %q", b, f.HasCompatibleBrand(b), have)
			}
		}
		if f.MajorBrand != major || f.MinorVersion != minor {
			bad = fmt.Sprintf("major brand %q, minor version %d; were %q, %d", f.MajorBrand, f.MinorVersion, major, minor)
		}
		if bad != "" {
			t.Failf("brands", "%s: %s", hist, bad)
			return
		}
	}
	t.Distinct([]byte(hist))
	if t.Idx < 60 {
		t.Sample("brands: %s: %d brands", hist, len(f.CompatibleBrands))
	}
}

// c23code draws the four bytes of a type.
func c23code(r *rand.Rand) mp4.BoxType {
	switch r.IntN(6) {
	case 0:
		return allTypes[r.IntN(len(allTypes))].Type
	case 1: // printable
		var b mp4.BoxType
		for i := range b {
			b[i] = byte(0x20 + r.IntN(0x5f))
			if r.IntN(5) == 0 {
				b[i] = 0xa9
			}
		}
		return b
	case 2: // at the edges of what is printable
		var b mp4.BoxType
		for i := range b {
			b[i] = []byte{0x20, 0x7e, 'a', 0xa9}[r.IntN(4)]
		}
		b[r.IntN(4)] = []byte{0x1f, 0x7f, 0xa8, 0xaa, 0, 0xff, 0x20, 0x7e}[r.IntN(8)]
		return b
	case 3:
		return mp4.BoxType{0, 0, byte(r.IntN(2)), byte(r.IntN(12))}
	}
	return mp4.BoxType(randBytes(r, 4))
}

func c23conv(t *core.T) {
	r := t.R
	b := c23code(r)
	t.Eval(1)
	t.Count("type conversions", 1)
	t.Distinct([]byte("conv"), b[:])
	u := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	if got := mp4.Uint32ToBoxType(u); got != b {
		t.Failf("Uint32ToBoxType", "%#08x: %q", u, string(got[:]))
	}
	if got := mp4.StrToBoxType(string(b[:])); got != b {
		t.Failf("StrToBoxType", "%q: %q", string(b[:]), string(got[:]))
	}
	want, printable := "", true
	for _, c := range b {
		if c == 0xa9 {
			want += "(c)"
		} else if c >= 0x20 && c <= 0x7e {
			want += string(rune(c))
		} else {
			printable = false
		}
	}
	if printable {
		t.Count("printable types", 1)
	} else {
		t.Count("unprintable types", 1)
		want = fmt.Sprintf("0x%08x", u)
	}
	if got := b.String(); got != want {
		t.Failf("BoxType.String", "%x: %q, expected %q", b, got, want)
	}
	// comparison
	c := b
	if r.IntN(3) > 0 {
		c[r.IntN(4)] ^= 1 << uint(r.IntN(8))
	} else if r.IntN(2) == 0 {
		c = c23code(r)
	}
	wild := mp4.BoxType{}
	if got, w := b.MatchWith(c), b == c || b == wild || c == wild; got != w {
		t.Failf("BoxType.MatchWith", "%q with %q: %v", b[:], c[:], got)
	}
	if !b.MatchWith(mp4.BoxTypeAny()) || !mp4.BoxTypeAny().MatchWith(b) || !b.MatchWith(b) {
		t.Failf("BoxType.MatchWith", "%q does not match any", b[:])
	}
	if got, w := mp4.IsIlstMetaBoxType(b), spec.IsIlstItem(b); got != w {
		t.Failf("IsIlstMetaBoxType", "%q: %v", b[:], got)
	}
	// a type in a box of any type
	var a mp4.AnyTypeBox
	a.SetType(c)
	a.SetType(b)
	if a.GetType() != b {
		t.Failf("AnyTypeBox", "%q: %q", b[:], a.GetType())
	}
	// no type has another length
	if r.IntN(16) == 0 {
		s := string(randBytes(r, []int{0, 1, 2, 3, 5, 6, 8}[r.IntN(7)]))
		func() {
			defer func() { recover() }()
			got := mp4.StrToBoxType(s)
			t.Failf("StrToBoxType", "%q: %q, no panic", s, string(got[:]))
		}()
	}
}

// c23registry asks the registry.
func c23registry(t *core.T) {
	r := t.R
	b, ctx := c23code(r), randCtx(r)
	if r.IntN(2) == 0 {
		tc := allTypes[r.IntN(len(allTypes))]
		b = tc.Type
		if r.IntN(2) == 0 {
			ctx = tc.Ctx
		}
	}
	d := spec.Lookup(b, ctx)
	t.Eval(1)
	t.Count("registry queries", 1)
	t.Distinct([]byte("registry"), b[:], []byte(ctxStr(ctx)))
	at := typeStr(b) + ctxStr(ctx)
	if got := b.IsSupported(ctx); got != (d != nil) {
		t.Failf("BoxType.IsSupported", "%s: %v", at, got)
	}
	if got := (&mp4.BoxInfo{Type: b, Context: ctx, Size: 8, HeaderSize: 8}).IsSupportedType(); got != (d != nil) {
		t.Failf("BoxInfo.IsSupportedType", "%s: %v", at, got)
	}
	ver := uint8(r.IntN(4))
	if r.IntN(4) == 0 {
		ver = uint8(r.Uint32())
	}
	box, err := b.New(ctx)
	vs, verr := b.GetSupportedVersions(ctx)
	if d == nil {
		t.Count("unsupported types", 1)
		if !errors.Is(err, mp4.ErrBoxInfoNotFound) || !errors.Is(verr, mp4.ErrBoxInfoNotFound) {
			t.Failf("unsupported type", "%s: New %v, GetSupportedVersions %v", at, err, verr)
		}
		if b.IsSupportedVersion(ver, ctx) {
			t.Failf("unsupported type", "%s: version %d is supported", at, ver)
		}
		return
	}
	t.Count("supported types", 1)
	if err != nil || verr != nil {
		t.Failf("supported type", "%s: New %v, GetSupportedVersions %v", at, err, verr)
		return
	}
	if box.GetType() != b {
		t.Failf("BoxType.New", "%s: box of type %q", at, box.GetType())
	}
	if g := tree.GoType(box); g != d.GoType {
		t.Failf("BoxType.New", "%s: a %s, expected %s", at, g, d.GoType)
	}
	// a new box is empty, whatever was done to an earlier one
	c23fill(reflect.ValueOf(box).Elem(), r)
	again, err := b.New(ctx)
	if err == nil {
		empty := reflect.New(reflect.TypeOf(again).Elem())
		if a, ok := empty.Interface().(interface{ SetType(mp4.BoxType) }); ok {
			a.SetType(b)
		}
		if tree.Dump(again) != tree.Dump(empty.Interface()) {
			t.Failf("BoxType.New", "%s: not empty: %s", at, tree.Dump(again))
		}
	}
	if !reflect.ValueOf(again).Elem().FieldByName("FullBox").IsValid() {
		ver = 0 // its only version, whether it is listed or not
	}
	want := len(d.Versions) == 0
	for _, v := range d.Versions {
		want = want || v == ver
	}
	if got := b.IsSupportedVersion(ver, ctx); got != want {
		t.Failf("BoxType.IsSupportedVersion", "%s: version %d: %v, supported: %d", at, ver, got, d.Versions)
	}
	listed := len(vs) == 0
	for _, v := range vs {
		listed = listed || v == ver
	}
	if listed != want {
		t.Failf("BoxType.GetSupportedVersions", "%s: %d, expected %d", at, vs, d.Versions)
	}
}

// c23fixed checks the functions and constants that name types, brands and flags.
func c23fixed(t *core.T) {
	seen := map[string]bool{}
	for _, e := range c23types {
		got := e.f()
		t.Eval(1)
		t.Count("type functions", 1)
		if string(got[:]) != e.code || seen[e.code] {
			t.Failf("type function", "%s: %q, expected %q", e.name, got[:], e.code)
		}
		seen[e.code] = true
	}
	if mp4.BoxTypeAny() != (mp4.BoxType{}) {
		t.Failf("type function", "BoxTypeAny: %q", mp4.BoxTypeAny())
	}
	for _, e := range []struct {
		b    [4]byte
		code string
	}{{mp4.BrandQT(), "qt  "}, {mp4.BrandISOM(), "isom"}, {mp4.BrandISO2(), "iso2"}, {mp4.BrandISO3(), "iso3"}, {mp4.BrandISO4(), "iso4"}, {mp4.BrandISO5(), "iso5"},
		{mp4.BrandISO6(), "iso6"}, {mp4.BrandISO7(), "iso7"}, {mp4.BrandISO8(), "iso8"}, {mp4.BrandISO9(), "iso9"}, {mp4.BrandAVC1(), "avc1"}, {mp4.BrandMP41(), "mp41"}, {mp4.BrandMP71(), "mp71"}} {
		if string(e.b[:]) != e.code {
			t.Failf("brand", "%q, expected %q", e.b[:], e.code)
		}
	}
	for _, e := range []struct {
		name      string
		got, want int64
	}{
		{"SmallHeaderSize", mp4.SmallHeaderSize, 8}, {"LargeHeaderSize", mp4.LargeHeaderSize, 16}, {"LengthUnlimited", mp4.LengthUnlimited, 0xffffffff},
		{"UrlSelfContained", mp4.UrlSelfContained, 1}, {"UrnSelfContained", mp4.UrnSelfContained, 1},
		{"AVCBaselineProfile", int64(mp4.AVCBaselineProfile), 66}, {"AVCMainProfile", int64(mp4.AVCMainProfile), 77}, {"AVCExtendedProfile", int64(mp4.AVCExtendedProfile), 88},
		{"AVCHighProfile", int64(mp4.AVCHighProfile), 100}, {"AVCHigh10Profile", int64(mp4.AVCHigh10Profile), 110}, {"AVCHigh422Profile", int64(mp4.AVCHigh422Profile), 122},
		{"TfhdBaseDataOffsetPresent", mp4.TfhdBaseDataOffsetPresent, 1}, {"TfhdSampleDescriptionIndexPresent", mp4.TfhdSampleDescriptionIndexPresent, 2},
		{"TfhdDefaultSampleDurationPresent", mp4.TfhdDefaultSampleDurationPresent, 8}, {"TfhdDefaultSampleSizePresent", mp4.TfhdDefaultSampleSizePresent, 0x10},
		{"TfhdDefaultSampleFlagsPresent", mp4.TfhdDefaultSampleFlagsPresent, 0x20}, {"TfhdDurationIsEmpty", mp4.TfhdDurationIsEmpty, 0x10000}, {"TfhdDefaultBaseIsMoof", mp4.TfhdDefaultBaseIsMoof, 0x20000},
		{"ESDescrTag", mp4.ESDescrTag, 3}, {"DecoderConfigDescrTag", mp4.DecoderConfigDescrTag, 4}, {"DecSpecificInfoTag", mp4.DecSpecificInfoTag, 5}, {"SLConfigDescrTag", mp4.SLConfigDescrTag, 6},
		{"DataTypeBinary", mp4.DataTypeBinary, 0}, {"DataTypeStringUTF8", mp4.DataTypeStringUTF8, 1}, {"DataTypeStringUTF16", mp4.DataTypeStringUTF16, 2}, {"DataTypeStringMac", mp4.DataTypeStringMac, 3},
		{"DataTypeStringJPEG", mp4.DataTypeStringJPEG, 14}, {"DataTypeSignedIntBigEndian", mp4.DataTypeSignedIntBigEndian, 21}, {"DataTypeFloat32BigEndian", mp4.DataTypeFloat32BigEndian, 22}, {"DataTypeFloat64BigEndian", mp4.DataTypeFloat64BigEndian, 23},
	} {
		t.Eval(1)
		if e.got != e.want {
			t.Failf("constant", "%s: %d, expected %d", e.name, e.got, e.want)
		}
	}
	// accessors of long lists
	for _, g := range c23getters {
		if g.list == "" {
			continue
		}
		box := reflect.New(reflect.TypeOf(g.box).Elem()).Interface().(mp4.IBox)
		for ver := uint8(0); ver < 2; ver++ {
			box.SetVersion(ver)
			l := reflect.ValueOf(box).Elem().FieldByName(g.list)
			if g.inList {
				l = reflect.ValueOf(box).Elem().FieldByName(g.list + fmt.Sprintf("V%d", ver))
			}
			l.Set(reflect.MakeSlice(l.Type(), 70000, 70000))
			for i := 0; i < l.Len(); i++ {
				if e := l.Index(i); g.inList {
					e.SetUint(c23word(t.R, e.Type().Bits()))
				} else {
					c23fill(e, t.R)
				}
			}
			m := reflect.ValueOf(box).MethodByName(g.method)
			for i := 0; i < l.Len(); i += 1 + t.R.IntN(50) {
				src := l.Index(i)
				if !g.inList {
					src = src.FieldByName(g.field + fmt.Sprintf("V%d", ver))
				}
				if got := m.Call([]reflect.Value{reflect.ValueOf(i)})[0]; c23num(got) != c23num(src) {
					t.Failf("accessor "+g.method, "version %d, index %d of %d: %s, the field holds %s", ver, i, l.Len(), c23num(got), c23num(src))
					break
				}
			}
		}
	}
	// every accessor, every version
	for _, g := range c23getters {
		for ver := 0; ver < 256; ver++ {
			box := reflect.New(reflect.TypeOf(g.box).Elem()).Interface().(mp4.IBox)
			c23fill(reflect.ValueOf(box).Elem(), t.R)
			box.SetVersion(uint8(ver))
			c23get(t, g.method, g.list, g.field, g.inList, box)
		}
	}
}
