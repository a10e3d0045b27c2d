package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verif/core"
	"verif/gen"
	"verif/rw"
)

// toolResult is what one run of mp4tool showed.
type toolResult struct {
	out, errOut []byte
	code        int
	timeout     bool
}

// crash says how the command crashed, if it did.
func (r toolResult) crash() string {
	e := string(r.errOut)
	if i := strings.Index(e, "panic: "); i >= 0 {
		return e[i:]
	}
	if i := strings.Index(e, "fatal error: "); i >= 0 {
		return e[i:]
	}
	if r.code < 0 {
		return "killed by a signal: " + e
	}
	return ""
}

func toolPath() string { return filepath.Join(os.Getenv("VERIF_BIN"), "mp4tool") }

// runTool runs mp4tool with a small time limit.
func runTool(args ...string) toolResult { return runWith(0, -1, args...) }

// runLimited runs mp4tool; files cannot grow beyond limit bytes: writes behind it fail.
func runLimited(limit int64, args ...string) toolResult { return runWith(0, limit, args...) }

// runWith runs mp4tool; with files > 0 it may have that many files open, with limit >= 0 write files of so many bytes.
func runWith(files int, limit int64, args ...string) toolResult {
	return runTo(nil, files, limit, args...)
}

// runTo runs mp4tool with its output going to sink, if that is not nil.
func runTo(sink io.Writer, files int, limit int64, args ...string) toolResult {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, toolPath(), args...)
	if files > 0 {
		c = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, files), toolPath()}, args...)...)
	}
	if limit >= 0 {
		c = exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), "limit"), append([]string{fmt.Sprint(limit), toolPath()}, args...)...)
	}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if sink != nil {
		c.Stdout = sink
	}
	c.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	if files > 0 {
		c.Env = append(c.Env, "GOGC=off") // no finalizer closes files
	}
	err := c.Run()
	r := toolResult{out: o.Bytes(), errOut: e.Bytes()}
	if ctx.Err() != nil {
		r.timeout = true
	}
	if err != nil {
		r.code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.code = x.ExitCode()
		} else {
			panic(fmt.Sprintf("cannot run %s: %v", toolPath(), err))
		}
	}
	return r
}

var scratchN atomic.Int64

// scratchFile writes data to a new file of the check's scratch directory.
func scratchFile(t *core.T, data []byte) string {
	p := filepath.Join(t.Tmp, fmt.Sprintf("in%d.mp4", scratchN.Add(1)))
	if err := os.WriteFile(p, data, 0o644); err != nil {
		panic(err)
	}
	return p
}

// scratchSparse writes a file that is mostly a hole; "" if there is no room for such files.
func scratchSparse(t *core.T, f *gen.File) string {
	p := scratchName(t, "sparse")
	w, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	defer w.Close()
	if _, err = w.WriteAt(f.Data[:f.HoleAt], 0); err == nil {
		if err = w.Truncate(int64(f.Len())); err == nil {
			_, err = w.WriteAt(f.Data[f.HoleAt:], int64(f.HoleAt+f.HoleLen))
		}
	}
	if err != nil {
		os.Remove(p)
		t.Count("no room for sparse files", 1)
		return ""
	}
	return p
}

// verify is a writer that compares what it is given with what is expected.
type verify struct {
	want *rw.Reader
	n    uint64
	bad  string
}

func (v *verify) Write(p []byte) (int, error) {
	for q := p; len(q) > 0; {
		s := v.want.Rest()
		if len(s) > len(q) {
			s = s[:len(q)]
		}
		if len(s) == 0 || !bytes.Equal(s, q[:len(s)]) {
			if v.bad == "" {
				v.bad = fmt.Sprintf("wrong bytes behind %d", v.n)
			}
			break
		}
		v.want.Pos += int64(len(s))
		q = q[len(s):]
	}
	v.n += uint64(len(p))
	return len(p), nil
}

// verifier expects the bytes of f from off to end.
func verifier(f *gen.File, off, end uint64) *verify {
	rd := rw.NewReader(f.Data)
	rd.HoleAt, rd.HoleLen = int64(f.HoleAt), int64(f.HoleLen)
	rd.Pos = int64(off)
	rd.End = int64(end)
	return &verify{want: rd}
}

// done says what is wrong with what was written.
func (v *verify) done() string {
	if v.bad == "" && v.want.Pos != v.want.End {
		v.bad = fmt.Sprintf("%d bytes missing behind %d", v.want.End-v.want.Pos, v.n)
	}
	return v.bad
}

// hugeFile is a file with a box of more than 4 GiB of the given type at the top or in a box, between others.
func hugeFile(t *core.T, typ string, inside bool) (*gen.File, *gen.Box) {
	r := t.R
	h := gen.Leaf(typ, randBytes(r, 1000))
	h.Form, h.Hole = 1, 1<<32+uint64(r.IntN(3000))
	pssh := gen.Leaf("pssh", append(randBytes(r, 24)[:20:20], 0, 0, 0, 0))
	copy(pssh.Fields, "\x00\x00\x00\x00")
	moov := gen.Cont("moov", pssh, gen.Leaf("free", []byte("behind")))
	f := &gen.File{Roots: []*gen.Box{gen.Leaf("ftyp", []byte("isom\x00\x00\x00\x00isom")), h, moov, gen.Leaf("abcd", []byte("last"))}}
	if inside {
		f.Roots = []*gen.Box{f.Roots[0], gen.Cont("trak", gen.Leaf("skip", nil), h, gen.Leaf("abcd", []byte("next"))), moov}
	}
	f.Resolve()
	f.Layout() // sets the parents
	f.Layout()
	return f, h
}

// scratchName is a new name in the check's scratch directory.
func scratchName(t *core.T, kind string) string {
	return filepath.Join(t.Tmp, fmt.Sprintf("%s%d", kind, scratchN.Add(1)))
}

// cutInput gives a command that must read its whole input the beginning of a file, up to a byte within
// one of the boxes of some kinds at its top, or no file.
func cutInput(t *core.T, data []byte, kinds string, run func(in string) toolResult) {
	r := t.R
	in, what := "", ""
	if r.IntN(8) == 0 {
		in, what = scratchName(t, "none"), "does not exist"
		if r.IntN(2) == 0 {
			os.Mkdir(in, 0o755)
			what = "is a directory"
		}
		t.Count("inputs that do not exist", 1)
	} else {
		var cuts []uint64
		for at := uint64(0); at+8 <= uint64(len(data)); {
			size, header := uint64(binary.BigEndian.Uint32(data[at:])), uint64(8)
			if size == 1 && at+16 <= uint64(len(data)) {
				size, header = binary.BigEndian.Uint64(data[at+8:]), 16
			}
			if size < header || size > uint64(len(data))-at {
				break // to the end of the file
			}
			typ := string(data[at+4 : at+8])
			if strings.Contains(kinds, typ) {
				// in QuickTime files bytes at the end of a box may be no box, and nobody misses them
				if size > header+1 && (data[at+4] == 'm' && data[at+5] == 'd' || !bytes.Contains(data, []byte("qt  "))) {
					cuts = append(cuts, at+header+1+r.Uint64N(size-header-1), at+size-1)
				}
			}
			at += size
		}
		if len(cuts) == 0 {
			return
		}
		cut := cuts[r.IntN(len(cuts))]
		in, what = scratchFile(t, data[:cut]), fmt.Sprintf("is only the first %d of %d bytes, which end within a box", cut, len(data))
		t.Count("inputs that end within a box", 1)
	}
	defer os.RemoveAll(in)
	res := run(in)
	t.Eval(1)
	if res.timeout || res.crash() != "" {
		t.Failf("crash where the input is incomplete", "the input %s: %.800s", what, res.crash())
	} else if res.code == 0 {
		t.Failf("incomplete input not reported", "the input %s: exit status 0", what)
	}
}
