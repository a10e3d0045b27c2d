// Package rw has the instrumented readers and writers the monitors hand to the library.
package rw

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"verif/core"
)

// ErrInjected is the failure the harness injects.
var ErrInjected = errors.New("injected I/O failure")

// Mode says how a Reader delivers bytes.
type Mode int

const (
	Plain    Mode = iota
	OneByte       // one byte per call
	Short         // random short counts
	DataEOF       // the last bytes come together with io.EOF
	ShortEOF      // short counts and data with EOF
	OneEOF        // one byte per call, the last with EOF
	Idle          // sometimes nothing, short counts
	Scratch       // short counts, the rest of the buffer used as scratch space
)

// Modes are all delivery modes.
var Modes = []Mode{Plain, OneByte, Short, DataEOF, ShortEOF, OneEOF, Scratch}

func (m Mode) String() string {
	return []string{"plain", "one byte", "short", "data+EOF", "short, data+EOF", "one byte, data+EOF", "sometimes nothing", "scratching"}[m]
}

// Reader is an in-memory io.ReadSeeker that counts, delays, shortens and fails.
type Reader struct {
	Data []byte
	Pos  int64
	Mode Mode
	R    *rand.Rand

	Ops, Reads, Seeks int
	BytesRead         int64
	MaxOps            int    // 0: none; more operations abort the case
	MaxBytes          int64  // 0: none
	MaxRead           int    // largest single request seen
	FailAt            int    // operation number (from 1) that fails; 0: never
	Persist           bool   // later operations fail too
	Partial           bool   // a failing read delivers some bytes first
	Failed            int    // failures delivered
	Err               error  // default ErrInjected
	FailedSeek        bool   // the first failure hit a seek
	Wrong             int    // reads that delivered bytes together with the failure
	Yield             func() // called before every operation
	HoleAt, HoleLen   int64  // zeros left out of Data
	End               int64  // where Rest ends
}

func NewReader(data []byte) *Reader { return &Reader{Data: data} }

func (r *Reader) op() bool {
	r.Ops++
	if r.Yield != nil {
		r.Yield()
	}
	if r.MaxOps > 0 && r.Ops > r.MaxOps {
		panic(core.Abort{Key: "too many operations", Msg: fmt.Sprintf("more than %d reader operations for %d bytes of input", r.MaxOps, len(r.Data))})
	}
	if r.FailAt > 0 && (r.Ops == r.FailAt || r.Persist && r.Ops > r.FailAt) {
		r.Failed++
		return true
	}
	return false
}

func (r *Reader) err() error {
	if r.Err != nil {
		return r.Err
	}
	return ErrInjected
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Reads++
	if len(p) > r.MaxRead {
		r.MaxRead = len(p)
	}
	fail := r.op()
	src := r.src()
	n := min(len(p), len(src))
	if fail {
		if !r.Partial || n == 0 {
			return 0, r.err()
		}
		n = min(n, 1+n/2)
		if n == len(p) { // a full read with an error: deliver less
			n--
		}
		copy(p, src[:n])
		r.Pos += int64(n)
		r.Wrong++
		return n, r.err()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.Mode == Scratch {
		for i := n; i < len(p) && i < n+512; i++ {
			p[i] = 0xa5
		}
	}
	if n == 0 {
		return 0, io.EOF
	}
	switch r.Mode {
	case Idle:
		if r.R != nil && r.R.IntN(3) == 0 {
			return 0, nil
		}
		if r.R != nil && n > 1 && r.R.IntN(2) > 0 {
			n = 1 + r.R.IntN(n)
		}
	case Scratch:
		if r.R != nil && n > 1 && r.R.IntN(2) > 0 {
			n = 1 + r.R.IntN(n)
			for i := n; i < len(p) && i < n+512; i++ {
				p[i] = 0x5a
			}
		}
	case OneByte, OneEOF:
		n = 1
	case Short, ShortEOF:
		if r.R != nil && n > 1 && r.R.IntN(3) > 0 {
			n = 1 + r.R.IntN(n)
		}
	}
	copy(p, src[:n])
	r.Pos += int64(n)
	r.BytesRead += int64(n)
	if r.MaxBytes > 0 && r.BytesRead > r.MaxBytes {
		panic(core.Abort{Key: "too many bytes read", Msg: fmt.Sprintf("more than %d bytes read from %d bytes of input", r.MaxBytes, len(r.Data))})
	}
	if r.Pos == r.Len() && (r.Mode == DataEOF || r.Mode == ShortEOF || r.Mode == OneEOF) {
		return n, io.EOF
	}
	return n, nil
}

var zeros [1 << 16]byte

// src is what can be delivered at once from the position.
func (r *Reader) src() []byte {
	p := r.Pos
	switch {
	case p < 0 || p >= r.Len():
		return nil
	case r.HoleLen == 0 || p < r.HoleAt:
		if r.HoleLen > 0 {
			return r.Data[p:r.HoleAt]
		}
		return r.Data[p:]
	case p < r.HoleAt+r.HoleLen:
		return zeros[:min(int64(len(zeros)), r.HoleAt+r.HoleLen-p)]
	}
	return r.Data[p-r.HoleLen:]
}

// Rest is what can be delivered at once from the position, up to End.
func (r *Reader) Rest() []byte {
	s := r.src()
	return s[:max(0, min(int64(len(s)), r.End-r.Pos))]
}

// Len is the length of the stream.
func (r *Reader) Len() int64 { return int64(len(r.Data)) + r.HoleLen }

func (r *Reader) Seek(off int64, whence int) (int64, error) {
	r.Seeks++
	if r.op() {
		r.FailedSeek = r.FailedSeek || r.Failed == 1
		return 0, r.err()
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += r.Pos
	case io.SeekEnd:
		off += r.Len()
	default:
		return 0, errors.New("bad whence")
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.Pos = off
	return off, nil
}

// WriteSeeker is an in-memory io.WriteSeeker that counts and fails.
type WriteSeeker struct {
	Data    []byte
	Pos     int64
	Ops     int
	Writes  int
	FailAt  int
	Persist bool
	Partial bool // the failing write takes some bytes first
	Failed  int
	MaxOps  int

	FailedSeek bool  // the first failure hit a seek
	Err        error // default ErrInjected
}

func (w *WriteSeeker) err() error {
	if w.Err != nil {
		return w.Err
	}
	return ErrInjected
}

func (w *WriteSeeker) op() bool {
	w.Ops++
	if w.MaxOps > 0 && w.Ops > w.MaxOps {
		panic(core.Abort{Key: "too many operations", Msg: "too many writer operations"})
	}
	if w.FailAt > 0 && (w.Ops == w.FailAt || w.Persist && w.Ops > w.FailAt) {
		w.Failed++
		return true
	}
	return false
}

func (w *WriteSeeker) put(p []byte) {
	if len(p) == 0 {
		return
	}
	if need := w.Pos + int64(len(p)); need > int64(len(w.Data)) {
		w.Data = append(w.Data, make([]byte, need-int64(len(w.Data)))...)
	}
	copy(w.Data[w.Pos:], p)
	w.Pos += int64(len(p))
}

func (w *WriteSeeker) Write(p []byte) (int, error) {
	w.Writes++
	if w.op() {
		n := 0
		if w.Partial && len(p) > 1 {
			n = len(p) / 2
			w.put(p[:n])
		}
		return n, w.err()
	}
	w.put(p)
	return len(p), nil
}

func (w *WriteSeeker) Seek(off int64, whence int) (int64, error) {
	if w.op() {
		w.FailedSeek = w.FailedSeek || w.Failed == 1
		return 0, w.err()
	}
	switch whence {
	case io.SeekCurrent:
		off += w.Pos
	case io.SeekEnd:
		off += int64(len(w.Data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	w.Pos = off
	return off, nil
}

// OnlyWriter hides the other methods of a writer.
type OnlyWriter struct{ W io.Writer }

func (o OnlyWriter) Write(p []byte) (int, error) { return o.W.Write(p) }
