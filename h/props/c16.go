package props

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/rw"
	"verif/spec"
	"verif/tree"
)

func init() {
	register(&core.Check{
		ID: "C16", Race: true, Quick: 450, Thorough: 60000,
		Rule: "built with the race detector; in each case several goroutines run every reading, encoding, rendering and writing operation in different random orders behind a barrier, on separate " +
			"streams (which yield at random) but on shared box values, header records, paths, tracks and probe results, while further cases run beside; the results are compared with those obtained " +
			"alone afterwards and the shared values with copies made before; first uses of every box type are raced at start-up; non-trivial: distinct sets of shared inputs",
		Assumptions: []string{"registration of box definitions takes place before, as the interface requires"},
		Need: []string{"operations run concurrently", "results compared", "shared values encoded", "shared values rendered", "shared headers used as parents", "types raced at first use",
			"max:operations inside the library at once"},
		Init: c16storm,
		Case: c16,
	})
}

type c16op struct {
	name string
	f    func(r *rand.Rand) string
}

// yielding is a reader that gives way to other goroutines.
func yielding(r *rand.Rand, data []byte) *rw.Reader {
	rd := rw.NewReader(data)
	k := 1 + r.IntN(20)
	rd.Yield = func() {
		if r.IntN(k) == 0 {
			runtime.Gosched()
		}
	}
	return rd
}

type c16writer struct {
	r *rand.Rand
	b bytes.Buffer
}

func (w *c16writer) Write(p []byte) (int, error) {
	if w.r.IntN(4) == 0 {
		runtime.Gosched()
	}
	return w.b.Write(p)
}

// c16storm lets several goroutines use every type for the first time at once.
func c16storm(g *core.Run) {
	r := rand.New(rand.NewPCG(g.Seed, 16))
	type item struct {
		tc   spec.TypeCtx
		data []byte
	}
	var items []item
	for _, i := range r.Perm(len(allTypes)) {
		tc := allTypes[i]
		res := spec.Gen(spec.Lookup(tc.Type, tc.Ctx), tc.Type, tc.Ctx, r, 3, 12)
		items = append(items, item{tc, res.Data})
	}
	const n = 6
	start := make([]chan struct{}, len(items))
	for i := range start {
		start[i] = make(chan struct{})
	}
	var arrived = make([]atomic.Int32, len(items))
	out := make([][n]string, len(items))
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, it := range items {
				if arrived[i].Add(1) == n {
					close(start[i])
				}
				<-start[i]
				func() {
					defer func() {
						if e := recover(); e != nil {
							out[i][w] = fmt.Sprint("panic ", e)
						}
					}()
					kinds := []int{0, 1, 2}
					s := fmt.Sprint(it.tc.Type.IsSupported(it.tc.Ctx), it.tc.Type.String())
					for range kinds {
						b, k, err := mp4.UnmarshalAny(bytes.NewReader(it.data), it.tc.Type, uint64(len(it.data)), it.tc.Ctx)
						s += fmt.Sprint(k, err)
						if err == nil {
							var buf bytes.Buffer
							txt, err := mp4.StringifyWithIndent(b, []string{"", " "}[w%2], it.tc.Ctx)
							if w%2 == 1 {
								txt = ""
							}
							_, err2 := mp4.Marshal(&buf, b, it.tc.Ctx)
							s += fmt.Sprintf("%v %v %x", err, err2, buf.Bytes())
							if w%2 == 0 {
								s += txt
							}
						}
					}
					out[i][w] = s
				}()
			}
		}()
	}
	wg.Wait()
	var bad []string
	for i := range out {
		for w := 2; w < n; w++ {
			if out[i][w] != out[i][w%2] {
				bad = append(bad, fmt.Sprintf("%s %s at first use: %s, another goroutine obtains %s", typeStr(items[i].tc.Type), ctxStr(items[i].tc.Ctx), out[i][w], out[i][w%2]))
			}
		}
	}
	g.Any = &c16state{bad: bad, types: len(items)}
}

type c16state struct {
	bad   []string
	types int
	in    atomic.Int64
}

func c16(t *core.T) {
	r := t.R
	st := t.Any.(*c16state)
	if t.Idx == 0 {
		t.Count("types raced at first use", st.types)
		for _, b := range st.bad {
			t.Failf("first use", "%s", b)
		}
	}
	// shared inputs
	type shared struct {
		tc   spec.TypeCtx
		box  mp4.IBox
		data []byte
	}
	var boxes []shared
	for k := 2 + r.IntN(4); k > 0; k-- {
		tc := allTypes[r.IntN(len(allTypes))]
		_, g := genFor(r, tc)
		b, err := tree.Build(g.Root, tc.Type, tc.Ctx)
		if err == nil && len(g.Data) < 2000 {
			boxes = append(boxes, shared{tc, b, g.Data})
		}
	}
	type file struct {
		f    *gen.File
		data []byte
		p    *opParams
		info *mp4.ProbeInfo
		bis  []*mp4.BoxInfo
	}
	var files []file
	for k := 1 + r.IntN(2); k > 0; k-- {
		f, m := randFile(r)
		if len(f.Data) > 3000 {
			continue
		}
		x := file{f: f, data: f.Data, p: paramsFor(r, f, m)}
		if m != nil {
			x.info = m.Expect
		}
		all := f.All()
		for i := 0; i < 4 && len(all) > 0; i++ {
			b := all[r.IntN(len(all))]
			for _, c := range all {
				if s := string(c.Type[:]); (s == "ftyp" || s == "keys" || s == "moov" || s == "meta") && r.IntN(2) == 0 {
					b = c
				}
			}
			x.bis = append(x.bis, infoOf(b))
		}
		files = append(files, x)
		t.Distinct(f.Data)
	}
	var ops []c16op
	add := func(name string, f func(r *rand.Rand) string) { ops = append(ops, c16op{name, f}) }
	for _, s := range boxes {
		add("Marshal", func(r *rand.Rand) string {
			w := &c16writer{r: r}
			n, err := mp4.Marshal(w, s.box, s.tc.Ctx)
			return fmt.Sprintf("%d %v %x", n, err, w.b.Bytes())
		})
		add("Stringify", func(r *rand.Rand) string {
			a, e1 := mp4.Stringify(s.box, s.tc.Ctx)
			b, e2 := mp4.StringifyWithIndent(s.box, "\t", s.tc.Ctx)
			return fmt.Sprintf("%s %s %v %v", a, b, e1, e2)
		})
		add("Unmarshal", func(r *rand.Rand) string {
			b, n, err := mp4.UnmarshalAny(yielding(r, s.data), s.tc.Type, uint64(len(s.data)), s.tc.Ctx)
			return fmt.Sprintf("%s %d %v", tree.Dump(b), n, err)
		})
		add("accessors", func(r *rand.Rand) string {
			l, e := s.tc.Type.GetSupportedVersions(s.tc.Ctx)
			return fmt.Sprint(s.box.GetType(), s.box.GetVersion(), s.box.GetFlags(), s.box.CheckFlag(0x100), l, e,
				s.tc.Type.IsSupported(s.tc.Ctx), s.tc.Type.IsSupportedVersion(1, s.tc.Ctx), mp4.StrToBoxType(string(s.tc.Type[:])), mp4.Uint32ToBoxType(uint32(len(s.data))<<24|0xa94041),
				mp4.IsIlstMetaBoxType(s.tc.Type), s.tc.Type.MatchWith(mp4.BoxTypeAny()), s.tc.Type.String()) + c16getters(s.box)
		})
	}
	for _, x := range files {
		for _, op := range readOps {
			add(op.name, func(r *rand.Rand) string {
				s, err := op.run(yielding(r, x.data), x.p)
				return fmt.Sprint(s, err)
			})
		}
		for _, bi := range x.bis {
			add("walking from a shared header", func(r *rand.Rand) string {
				f := newFP()
				v, err := mp4.ReadBoxStructureFromInternal(yielding(r, x.data), bi, walkHandler(f, true, x.p))
				return fmt.Sprint(f, v, err)
			})
			add("extracting below a shared header", func(r *rand.Rand) string {
				f := newFP()
				l, err := mp4.ExtractBoxesWithPayload(yielding(r, x.data), bi, x.p.Paths)
				for _, b := range l {
					f.add("%s %s", infoStr(&b.Info), tree.Dump(b.Payload))
				}
				l2, err2 := mp4.ExtractBox(yielding(r, x.data), bi, mp4.BoxPath{mp4.BoxTypeAny()})
				for _, b := range l2 {
					f.add("%s", infoStr(b))
				}
				return fmt.Sprint(f, err, err2)
			})
			add("writing a shared header", func(r *rand.Rand) string {
				ws := &rw.WriteSeeker{}
				w := mp4.NewWriter(ws)
				a, e1 := mp4.WriteBoxInfo(ws, bi)
				s := fmt.Sprint(a != nil && a != bi, e1)
				b, e2 := w.StartBox(bi)
				runtime.Gosched()
				if e2 == nil {
					e3 := w.CopyBox(yielding(r, x.data), bi)
					c, e4 := w.EndBox()
					s += fmt.Sprint(b != bi, e3, e4)
					if e4 == nil {
						s += infoPtr(c)
					}
				}
				return fmt.Sprintf("%s %v %x", s, e2, ws.Data)
			})
			add("seeking by a shared header", func(r *rand.Rand) string {
				rd := yielding(r, x.data)
				a, e1 := bi.SeekToStart(rd)
				b, e2 := bi.SeekToPayload(rd)
				c, e3 := bi.SeekToEnd(rd)
				return fmt.Sprint(a, b, c, e1, e2, e3, bi.IsSupportedType())
			})
		}
		if x.info != nil {
			add("rates of a shared probe", func(r *rand.Rand) string {
				f := newFP()
				rd := yielding(r, x.data)
				err := probeRates(f, x.info, func(tr *mp4.Track) error {
					l, err := mp4.FindIDRFrames(rd, tr)
					f.add("%v %v", l, err)
					return nil
				})
				return fmt.Sprint(f, err)
			})
		}
	}
	if len(ops) == 0 {
		return
	}
	before := make([]string, 0, len(boxes))
	for _, s := range boxes {
		before = append(before, tree.Dump(s.box))
	}
	n := 3 + r.IntN(6)
	out := make([][]string, n)
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	barrier := make(chan struct{})
	var wg sync.WaitGroup
	var most atomic.Int64
	for w := 0; w < n; w++ {
		out[w] = make([]string, len(ops))
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[w], 1))
			order := r.Perm(len(ops))
			if w%2 == 0 { // the same operations at the same time
				r2 := rand.New(rand.NewPCG(seeds[0], 2))
				order = r2.Perm(len(ops))
			}
			<-barrier
			for _, i := range order {
				k := st.in.Add(1)
				for {
					m := most.Load()
					if k <= m || most.CompareAndSwap(m, k) {
						break
					}
				}
				out[w][i] = c16do(ops[i], r)
				st.in.Add(-1)
			}
		}()
	}
	close(barrier)
	wg.Wait()
	t.Max("operations inside the library at once", most.Load())
	t.Count("operations run concurrently", n*len(ops))
	t.Eval(n*len(ops) - 1)
	for _, op := range ops {
		switch op.name {
		case "Marshal":
			t.Count("shared values encoded", n)
		case "Stringify":
			t.Count("shared values rendered", n)
		case "walking from a shared header", "extracting below a shared header":
			t.Count("shared headers used as parents", n)
		}
	}
	for i, s := range boxes {
		if d := tree.Dump(s.box); d != before[i] {
			t.Failf("shared value changed", "%s was %s, is %s after concurrent use", typeStr(s.tc.Type), before[i], d)
		}
	}
	for i, op := range ops {
		alone := c16do(op, rand.New(rand.NewPCG(1, uint64(i))))
		for w := range out {
			t.Count("results compared", 1)
			if out[w][i] != alone {
				for _, x := range files {
					t.Attach("file", x.data)
				}
				t.Failf("different result/"+op.name, "%s run beside %d goroutines gives %s; alone it gives %s", op.name, n-1, out[w][i], alone)
			}
		}
	}
	if t.Idx < 6 {
		t.Sample("%d goroutines x %d operations on %d shared values and %d files, up to %d at once in the process", n, len(ops), len(boxes), len(files), most.Load())
	}
}

func c16do(op c16op, r *rand.Rand) (s string) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(core.Abort); ok {
				s = a.Msg
				return
			}
			s = fmt.Sprint("panic ", e)
		}
	}()
	return op.f(r)
}

// c16getters calls the accessors some types have.
func c16getters(b mp4.IBox) string {
	switch v := b.(type) {
	case *mp4.Ftyp:
		return fmt.Sprint(v.HasCompatibleBrand(mp4.BrandQT()))
	case *mp4.Mvhd:
		return fmt.Sprint(v.GetDuration(), v.GetRate(), v.GetCreationTime())
	case *mp4.Tkhd:
		return fmt.Sprint(v.GetDuration(), v.GetWidth(), v.GetHeight())
	case *mp4.Tfdt:
		return fmt.Sprint(v.GetBaseMediaDecodeTime())
	}
	return ""
}
