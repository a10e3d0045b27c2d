//go:build bridge

package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/abema/go-mp4/verifbridge"

	"verif/core"
	"verif/rw"
)

func init() {
	register(&core.Check{
		ID: "C19", Quick: 400000, Thorough: 20000000,
		Rule: "random histories of bit reads (widths 0 to 200, also single bits), byte reads and seeks in all three ways, and of bit writes (with stray high bits in the operands), single bits and byte writes, on streams that deliver " +
			"and take data in every permitted way, end early or fail at a chosen operation, are run against a model that holds the stream as a string of bits; non-trivial: distinct histories",
		Need: []string{"bit reads", "single bit reads", "byte reads", "seeks", "byte reads refused within a byte", "relative seeks refused within a byte", "seeks out of a byte", "ends reported", "failures reported", "seek failures reported",
			"idle readers", "bit writes", "single bit writes", "byte writes", "byte writes refused within a byte", "write failures reported", "read back", "continued after an error", "wide reads", "max:width"},
		Case: func(t *core.T) {
			if t.R.IntN(5) < 3 {
				c19read(t)
			} else {
				c19write(t)
			}
		},
	})
}

// c19err is the failure a stream of this case reports.
func c19err(t *core.T) error {
	switch t.R.IntN(12) {
	case 0:
		return io.ErrShortWrite
	case 1:
		return io.ErrClosedPipe
	case 2:
		return io.ErrNoProgress
	case 3:
		return io.ErrShortBuffer
	case 4:
		return os.ErrDeadlineExceeded
	}
	return rw.ErrInjected
}

// bitString gives n bits of data from bit position pos, most significant first, right-aligned.
func c19bits(data []byte, pos, n int) []byte {
	out := make([]byte, (n+7)/8)
	pad := len(out)*8 - n
	for i := 0; i < n; i++ {
		p := pos + i
		if data[p/8]&(0x80>>uint(p%8)) != 0 {
			q := pad + i
			out[q/8] |= 0x80 >> uint(q%8)
		}
	}
	return out
}

func c19read(t *core.T) {
	r := t.R
	data := randBytes(r, r.IntN(40))
	if r.IntN(10) == 0 {
		data = randBytes(r, r.IntN(600))
		if r.IntN(10) == 0 {
			data = randBytes(r, r.IntN(9000))
		}
	}
	rd := rw.NewReader(data)
	rd.R = r
	rd.Mode = rw.Modes[r.IntN(len(rw.Modes))]
	idle := r.IntN(12) == 0
	if idle {
		rd.Mode = rw.Idle
		t.Count("idle readers", 1)
	}
	rd.Err = c19err(t)
	if r.IntN(4) == 0 {
		rd.FailAt = 1 + r.IntN(30)
		rd.Persist = r.IntN(2) == 0
	}
	seekable := r.IntN(4) > 0
	var br verifbridge.Reader
	var bs verifbridge.ReadSeeker
	if seekable {
		bs = verifbridge.NewReadSeeker(rd)
		br = bs
	} else {
		br = verifbridge.NewReader(rd)
	}
	t.Attach("stream", data)
	pos := 0 // in bits
	end := 8 * len(data)
	log := fmt.Sprintf("%d bytes, %v, fail at %d", len(data), rd.Mode, rd.FailAt)
	step := func(format string, a ...any) {
		log += "; " + fmt.Sprintf(format, a...)
		t.AttachStr("history", log)
	}
	// after an error the position within a failed operation is not specified: seek to go on
	lost := false
	resync := func() bool {
		if !seekable {
			return false
		}
		for k := 0; k < 3; k++ {
			to := int64(r.IntN(len(data) + 1))
			step("seek %d to go on", to)
			n, err := bs.Seek(to, io.SeekStart)
			if err == nil {
				if n != to {
					t.Failf("seek", "%s: position %d", log, n)
					return false
				}
				pos = 8 * int(to)
				t.Count("continued after an error", 1)
				return true
			}
		}
		return false
	}
	for k := 1 + r.IntN(16); k > 0; k-- {
		if lost {
			if !resync() {
				return
			}
			lost = false
		}
		failed := rd.Failed
		t.Eval(1)
		op := r.IntN(10)
		if seekable && op >= 7 {
			c19seek(t, rd, bs, &pos, len(data), step, &lost, &log)
			if lost {
				continue
			}
			continue
		}
		switch {
		case op < 4: // bits
			n := 1 + r.IntN(24)
			switch r.IntN(6) {
			case 0:
				n = r.IntN(201)
				if r.IntN(20) == 0 {
					n = r.IntN(9000)
				}
			case 1:
				n = 8 * (1 + r.IntN(4))
			case 2:
				n = r.IntN(70)
			}
			step("ReadBits(%d) at %d.%d", n, pos/8, pos%8)
			got, err := br.ReadBits(uint(n))
			t.Count("bit reads", 1)
			t.Max("width", int64(n))
			if n > 64 {
				t.Count("wide reads", 1)
			}
			if lost = c19result(t, rd, failed, err, pos+n > end, idle, log); lost {
				continue
			}
			if err != nil {
				return
			}
			if want := c19bits(data, pos, n); !bytes.Equal(got, want) {
				t.Failf("bits", "%s: got %x, expected %x", log, got, want)
				return
			}
			pos += n
		case op < 5:
			step("ReadBit at %d.%d", pos/8, pos%8)
			got, err := br.ReadBit()
			t.Count("single bit reads", 1)
			if lost = c19result(t, rd, failed, err, pos+1 > end, idle, log); lost {
				continue
			}
			if err != nil {
				return
			}
			if want := data[pos/8]&(0x80>>uint(pos%8)) != 0; got != want {
				t.Failf("bits", "%s: got %v, expected %v", log, got, want)
				return
			}
			pos++
		default: // bytes
			n := r.IntN(12)
			buf := make([]byte, n)
			step("Read(%d) at %d.%d", n, pos/8, pos%8)
			t.Count("byte reads", 1)
			if pos%8 != 0 {
				ops := rd.Ops
				m, err := br.Read(buf)
				t.Count("byte reads refused within a byte", 1)
				if m != 0 || !errors.Is(err, verifbridge.ErrInvalidAlignment) || rd.Ops != ops {
					t.Failf("byte read within a byte", "%s: %d, %v after %d stream operations", log, m, err, rd.Ops-ops)
					return
				}
				continue
			}
			if n == 0 {
				continue
			}
			full := r.IntN(2) == 0
			var m int
			var err error
			if full {
				m, err = io.ReadFull(br, buf)
			} else {
				m, err = br.Read(buf)
			}
			if m < 0 || m > n || pos/8+m > len(data) || !bytes.Equal(buf[:m], data[pos/8:pos/8+m]) {
				t.Failf("bytes", "%s: got %d: %x, expected %x", log, m, buf[:max(0, m)], data[pos/8:])
				return
			}
			pos += 8 * m
			switch {
			case rd.Failed > failed:
				if !errors.Is(err, rd.Err) {
					t.Failf("failure not reported", "%s: failed read gives %d, %v", log, m, err)
					return
				}
				t.Count("failures reported", 1)
			case full && m < n && err == nil, full && m == n && err != nil:
				t.Failf("bytes", "%s: %d of %d, %v", log, m, n, err)
				return
			case m == 0 && err == nil && !idle:
				t.Failf("bytes", "%s: nothing read and no error", log)
				return
			case err != nil && pos < end && !(idle && err != io.EOF):
				t.Failf("bytes", "%s: %d, error %v before the end", log, m, err)
				return
			case err != nil:
				t.Count("ends reported", 1)
			}
		}
	}
	t.Distinct([]byte(log))
	if t.Idx < 50 && t.Idx%10 == 0 {
		t.Sample("%s", log)
	}
}

// c19result judges the error of a bit read; it reports whether the operation did not deliver.
func c19result(t *core.T, rd *rw.Reader, failed int, err error, beyond, idle bool, log string) bool {
	switch {
	case rd.Failed > failed:
		t.Count("failures reported", 1)
		if !errors.Is(err, rd.Err) {
			t.Failf("failure not reported", "%s: a read of the stream failed, result %v", log, err)
		}
		return true
	case beyond:
		t.Count("ends reported", 1)
		if err == nil {
			t.Failf("end not reported", "%s: no error beyond the end", log)
		}
		return true
	case err != nil && idle: // the stream had nothing at the moment: may be reported
		return true
	case err != nil:
		t.Failf("bits", "%s: error %v", log, err)
	}
	return false
}

func c19seek(t *core.T, rd *rw.Reader, bs verifbridge.ReadSeeker, pos *int, size int, step func(string, ...any), lost *bool, log *string) {
	r := t.R
	whence := r.IntN(3)
	to := r.IntN(size + 1)
	var off int64
	switch whence {
	case io.SeekStart:
		off = int64(to)
	case io.SeekCurrent:
		off = int64(to - *pos/8)
		if r.IntN(3) == 0 {
			off, to = 0, *pos/8
		}
	case io.SeekEnd:
		off = int64(to - size)
	}
	bad := r.IntN(12) == 0
	if bad { // before the beginning
		off -= int64(to) + 1
	}
	step("Seek(%d, %d) at %d.%d", off, whence, *pos/8, *pos%8)
	failed, ops := rd.Failed, rd.Ops
	n, err := bs.Seek(off, whence)
	t.Count("seeks", 1)
	switch {
	case whence == io.SeekCurrent && *pos%8 != 0:
		t.Count("relative seeks refused within a byte", 1)
		if !errors.Is(err, verifbridge.ErrInvalidAlignment) || rd.Ops != ops {
			t.Failf("relative seek within a byte", "%s: %d, %v after %d stream operations", *log, n, err, rd.Ops-ops)
			*lost = true
		}
	case rd.Failed > failed || bad:
		t.Count("seek failures reported", 1)
		if err == nil {
			t.Failf("failure not reported", "%s: %d without an error", *log, n)
		}
		// the position is unchanged: reading goes on where it was, within a byte too
	case err != nil || n != int64(to):
		t.Failf("seek", "%s: %d, %v, expected %d", *log, n, err, to)
		*lost = true
	default:
		if *pos%8 != 0 {
			t.Count("seeks out of a byte", 1)
		}
		*pos = 8 * to
	}
}

// c19sink takes bytes and fails or takes less at a chosen operation.
type c19sink struct {
	buf    bytes.Buffer
	ops    int
	failAt int
	short  bool
	failed int
	err    error
}

func (s *c19sink) Write(p []byte) (int, error) {
	s.ops++
	if s.ops == s.failAt {
		s.failed++
		if s.short && len(p) > 1 {
			s.buf.Write(p[:len(p)/2])
			return len(p) / 2, s.err
		}
		return 0, s.err
	}
	return s.buf.Write(p)
}

func c19write(t *core.T) {
	r := t.R
	s := &c19sink{err: c19err(t)}
	if r.IntN(4) == 0 {
		s.failAt, s.short = 1+r.IntN(12), r.IntN(2) == 0
	}
	w := verifbridge.NewWriter(s)
	var model []byte
	bits := 0
	put := func(b bool) {
		if bits%8 == 0 {
			model = append(model, 0)
		}
		if b {
			model[bits/8] |= 0x80 >> uint(bits%8)
		}
		bits++
	}
	log := fmt.Sprintf("fail at %d", s.failAt)
	step := func(format string, a ...any) {
		log += "; " + fmt.Sprintf(format, a...)
		t.AttachStr("history", log)
	}
	type field struct{ n int }
	var fields []field
	for k := 1 + r.IntN(16); k > 0; k-- {
		failed := s.failed
		t.Eval(1)
		var err error
		op := r.IntN(8)
		if bits%8 != 0 && r.IntN(3) == 0 { // fill the byte
			op = 8
		}
		switch {
		case op < 4 || op == 8:
			n := r.IntN(30)
			if r.IntN(5) == 0 {
				n = r.IntN(150)
				if r.IntN(20) == 0 {
					n = r.IntN(9000)
				}
			}
			if op == 8 {
				n = 8 - bits%8
			}
			d := randBytes(r, (n+7)/8+r.IntN(2)*r.IntN(3))
			step("WriteBits(%x, %d)", d, n)
			keep := bytes.Clone(d)
			err = w.WriteBits(d, uint(n))
			t.Count("bit writes", 1)
			if !bytes.Equal(d, keep) {
				t.Failf("operand changed", "%s: %x", log, d)
			}
			for i := 8*len(d) - n; i < 8*len(d); i++ {
				put(d[i/8]&(0x80>>uint(i%8)) != 0)
			}
			fields = append(fields, field{n})
		case op < 6:
			b := r.IntN(2) == 0
			step("WriteBit(%v)", b)
			err = w.WriteBit(b)
			t.Count("single bit writes", 1)
			put(b)
			fields = append(fields, field{1})
		default:
			d := randBytes(r, 1+r.IntN(9))
			step("Write(%x) at .%d", d, bits%8)
			ops := s.ops
			n, e := w.Write(d)
			t.Count("byte writes", 1)
			if bits%8 != 0 {
				t.Count("byte writes refused within a byte", 1)
				if n != 0 || !errors.Is(e, verifbridge.ErrInvalidAlignment) || s.ops != ops {
					t.Failf("byte write within a byte", "%s: %d, %v after %d stream operations", log, n, e, s.ops-ops)
					return
				}
				continue
			}
			err = e
			if err == nil && n != len(d) {
				t.Failf("bytes", "%s: wrote %d", log, n)
				return
			}
			for _, b := range d {
				for i := 7; i >= 0; i-- {
					put(b>>uint(i)&1 != 0)
				}
			}
			fields = append(fields, field{8 * len(d)})
		}
		if s.failed > failed {
			t.Count("write failures reported", 1)
			if !errors.Is(err, s.err) {
				t.Failf("failure not reported", "%s: a write to the stream failed, result %v", log, err)
			}
			return
		}
		if err != nil {
			t.Failf("bits", "%s: error %v", log, err)
			return
		}
		if !bytes.Equal(s.buf.Bytes(), model[:bits/8]) {
			t.Failf("written", "%s: stream holds %x, expected %x", log, s.buf.Bytes(), model[:bits/8])
			return
		}
	}
	t.Distinct([]byte(log))
	if t.Idx < 50 && t.Idx%10 == 5 {
		t.Sample("%s", log)
	}
	// the reader undoes the writer
	for bits%8 != 0 {
		if err := w.WriteBit(true); err != nil {
			if s.failed == 0 {
				t.Failf("bits", "%s: error %v", log, err)
			}
			return
		}
		put(true)
	}
	br := verifbridge.NewReader(bytes.NewReader(s.buf.Bytes()))
	pos := 0
	for _, f := range fields {
		got, err := br.ReadBits(uint(f.n))
		if want := c19bits(model, pos, f.n); err != nil || !bytes.Equal(got, want) {
			t.Failf("read back", "%s: %d bits at %d read back as %x (%v), written %x", log, f.n, pos, got, err, want)
			return
		}
		pos += f.n
	}
	t.Count("read back", 1)
}
