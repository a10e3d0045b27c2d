package props

import (
	"bytes"
	"fmt"

	mp4 "github.com/abema/go-mp4"

	"verif/core"
	"verif/gen"
	"verif/spec"
)

// vpScope is a user's container.
type vpScope struct {
	mp4.AnyTypeBox
}

const vpScopeKeys = 987654 // the number of keys of the contexts it exists in

var vpScopeTypes = []string{"udta", "wave", "ilst", "moov", "free", "meta", "\x00\x00\x00\x02", "data", "mean", "name", "titl", "mdat", "mp4a", "stsd", "zzzz"}

// c08init registers a container for every type that makes a scope and some others, in contexts that
// no file has.
func c08init(t *core.T) {
	for i := range spec.IlstItems {
		vpScopeTypes = append(vpScopeTypes, spec.IlstItems[i])
	}
	for _, s := range vpScopeTypes {
		mp4.AddAnyTypeBoxDefEx(&vpScope{}, bt(s), func(ctx mp4.Context) bool { return ctx.QuickTimeKeysMetaEntryCount == vpScopeKeys })
	}
}

// c08scopes expands a box of each of these types in each context, and asks which context its children are in.
func c08scopes(t *core.T) {
	for _, s := range vpScopeTypes {
		for bits := 0; bits < 64; bits++ {
			ctx := mp4.Context{IsQuickTimeCompatible: bits&1 != 0, UnderWave: bits&2 != 0, UnderIlst: bits&4 != 0, UnderIlstMeta: bits&8 != 0,
				UnderIlstFreeMeta: bits&16 != 0, UnderUdta: bits&32 != 0, QuickTimeKeysMetaEntryCount: vpScopeKeys}
			for _, kids := range [][]string{{"free"}, {"zzzz", s, "free"}} {
				w := new(gen.W)
				w.U32(uint32(8 + 8*len(kids))).U8([]byte(s)...)
				for _, k := range kids {
					w.U32(8).U8([]byte(k)...)
				}
				want := (&gen.Box{Type: bt(s), Ctx: ctx}).ChildCtx()
				bi := mp4.BoxInfo{Type: bt(s), Offset: 3, Size: uint64(len(w.B)), HeaderSize: 8, Context: ctx}
				data := append([]byte("xyz"), w.B...)
				var got []mp4.Context
				_, err := mp4.ReadBoxStructureFromInternal(bytes.NewReader(data), &bi, func(h *mp4.ReadHandle) (interface{}, error) {
					if len(h.Path) == 1 {
						return h.Expand()
					}
					got = append(got, h.BoxInfo.Context)
					return nil, nil
				})
				t.Eval(1)
				t.Count("scopes in every context", 1)
				ok := err == nil && len(got) == len(kids)
				for _, g := range got {
					ok = ok && g == want
				}
				if !ok {
					t.Failf("context of children", "%q in %s: the children %q are in %s (%v), expected %s", s, ctxStr(ctx), kids, fmt.Sprint(got), err, ctxStr(want))
					return
				}
			}
		}
	}
}
