package props

import (
	"bytes"

	"verif/core"
	"verif/spec"
)

func init() {
	register(&core.Check{
		ID: "C01", Quick: 24000, Thorough: 1200000,
		Rule: "each case draws a box type and context (all of them in turn), generates a value and payload with an independent executable format model, " +
			"decodes it with the library inside a larger stream, then decodes every truncation (up to 80) and 24 mutations and compares value, " +
			"byte count and kind of error with the model; non-trivial: the model assigns a definite outcome",
		Assumptions: []string{"the format model /verif/h/spec is a correct reading of the specifications; payloads whose outcome it leaves open " +
			"(EntryCount 0xFFFFFFFF, varints over four octets, NUL inside boxstrings, unused sgpd shapes) are only required not to crash"},
		Need: []string{"payloads of more than 255 bytes", "payloads of more than 4095 bytes", "well-formed", "truncated or overrun", "unsupported version", "payloads of megabytes", "payloads of more than 65535 elements"},
		Case: c01,
		Fixed: append(long(8, func(t *core.T, tc spec.TypeCtx, def *spec.Def, g spec.Result) {
			c01try(t, tc, def, g.Data, true)
			c01try(t, tc, def, g.Data[:len(g.Data)-1], false)
		}), megabytesDecode),
	})
}

func c01(t *core.T) {
	tc := allTypes[t.Idx%len(allTypes)]
	def, g := genBig(t, tc)
	c01try(t, tc, def, g.Data, true)
	if t.Idx < len(allTypes) {
		t.Sample("%s in %s: %x", typeStr(tc.Type), ctxStr(tc.Ctx), g.Data)
	}
	if def.Alt != nil {
		for k := 0; k < 12; k++ {
			q := def.Alt(t.R)
			c01try(t, tc, def, q, false)
			if len(q) > 1 {
				c01try(t, tc, def, q[:t.R.IntN(len(q))], false)
			}
		}
	}
	// truncations
	n := len(g.Data)
	step := 1
	more := 24
	if n > 80 {
		step = n/80 + 1
	}
	if n > 4000 {
		step, more = n/5+1, 3
	}
	for k := 0; k < n; k += step {
		c01try(t, tc, def, g.Data[:k], false)
	}
	for k := 0; k < more; k++ {
		q := mutate(t.R, g.Data, g.Marks)
		if t.R.IntN(3) == 0 {
			q = mutate(t.R, q, g.Marks)
		}
		c01try(t, tc, def, q, false)
	}
}

func c01try(t *core.T, tc spec.TypeCtx, def *spec.Def, p []byte, canonical bool) {
	m := spec.Decode(def, tc.Type, tc.Ctx, p)
	if canonical && (m.Err != nil || m.N != len(p)) && m.Err != spec.ErrUnspecified {
		panic("spec: the model does not decode what it generated: " + def.GoType)
	}
	if m.Err == spec.ErrTooBig {
		t.Count("skipped: zero-size elements in large number", 1)
		return
	}
	data, off := stream(t.R, p)
	t.Trace(typeStr(tc.Type), p)
	var d decoded
	if t.Guard("decoding "+typeStr(tc.Type), func() {
		d = unmarshalAt(bytes.NewReader(data), off, tc.Type, uint64(len(p)), tc.Ctx)
	}) {
		t.Attach("payload", p)
		return
	}
	t.Eval(1)
	switch m.Err {
	case nil:
		t.Count("well-formed", 1)
	case spec.ErrVersion:
		t.Count("unsupported version", 1)
	case spec.ErrUnspecified:
		t.Count("outcome unspecified", 1)
		return
	default:
		t.Count("truncated or overrun", 1)
	}
	t.Distinct(tc.Type[:], []byte(ctxStr(tc.Ctx)), p)
	if s := judge(m, d, def); s != "" {
		t.Attach("payload", p)
		t.Failf("decode "+string(tc.Type[:])+"/"+def.GoType, "%s in %s: %s; payload %x", typeStr(tc.Type), ctxStr(tc.Ctx), s, p)
	}
}
