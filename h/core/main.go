package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	exitHang     = 97
	setupTimeout = 240 * time.Second // takes seconds
	caseTimeout  = 90 * time.Second  // ordinary cases take milliseconds
)

// Home is /verif.
var Home = "/verif"

// Main is the entry point of the runner.
func Main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	child := flag.String("child", "", "report file (internal)")
	journal := flag.String("journal", "", "journal file (internal)")
	one := flag.Int("case", -1, "run a single case")
	scale := flag.Float64("scale", 1, "multiply the number of cases")
	flag.Parse()
	c := Get(*prop)
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check for %q; have %v\n", *prop, IDs())
		os.Exit(2)
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *child != "" {
		runChild(c, *tier, seed, *child, *journal, *one, *scale)
		return
	}
	os.Exit(runParent(c, *tier, seed, *one, *scale))
}

func cases(c *Check, tier string, scale float64) int {
	n := c.Quick
	if tier == "thorough" {
		n = c.Thorough
	}
	return int(float64(n) * scale)
}

func runChild(c *Check, tier string, seed uint64, out, journal string, one int, scale float64) {
	as := c.AS
	if as == 0 {
		as = 12 << 30
	}
	if one >= 0 && as > 6<<30 {
		as = 6 << 30
	}
	if !c.Race {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: as, Max: as})
	}
	if one >= 0 {
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 60, Max: 65})
	}
	g := &Run{Check: c, Seed: seed, Tier: tier, counts: map[string]int64{}, known: map[string]string{}, Tmp: filepath.Dir(out), Single: one >= 0}
	if c.Init != nil {
		c.Init(g)
	}
	if c.Setup != nil {
		mark := filepath.Join(filepath.Dir(out), "setup")
		os.WriteFile(mark, nil, 0o644)
		late := time.AfterFunc(setupTimeout, func() {
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "the preparation runs for more than %v\n%s\n", setupTimeout, buf[:runtime.Stack(buf, true)])
			os.Exit(exitHang)
		})
		g.runCase(-1, c.Setup)
		late.Stop()
		os.Remove(mark)
	}
	workers := c.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	total := cases(c, tier, scale)
	nfix := len(c.Fixed)
	f := func(idx int) func(t *T) {
		if idx < nfix {
			return c.Fixed[idx]
		}
		return c.Case
	}
	if one >= 0 {
		g.runCase(one, f(one))
		if c.Post != nil {
			c.Post(g)
		}
		if err := g.report().write(out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	jf, err := os.OpenFile(journal, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	type slot struct {
		idx   atomic.Int64
		start atomic.Int64
		_     [48]byte
	}
	slots := make([]slot, workers)
	for i := range slots {
		slots[i].idx.Store(-1)
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	put := func(w int, v int64) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(v))
		jf.WriteAt(b[:], int64(8*w))
	}
	for w := 0; w < workers; w++ {
		put(w, -1)
	}
	done := make(chan struct{})
	go func() { // watchdog
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			now := time.Now().UnixNano()
			for i := range slots {
				if s := slots[i].start.Load(); s != 0 && now-s > int64(caseTimeout) {
					fmt.Fprintf(os.Stderr, "case %d runs for more than %v\n", slots[i].idx.Load(), caseTimeout)
					os.Exit(exitHang)
				}
			}
		}
	}()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !g.stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= total+nfix {
					break
				}
				slots[w].idx.Store(int64(i))
				slots[w].start.Store(time.Now().UnixNano())
				put(w, int64(i))
				g.runCase(i, f(i))
				slots[w].start.Store(0)
			}
			put(w, -1)
		}(w)
	}
	wg.Wait()
	close(done)
	if c.Post != nil {
		c.Post(g)
	}
	if err := g.report().write(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// KnownFinding is a genuine defect recorded rather than repaired.
type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func loadKnown(prop string) (map[string]KnownFinding, error) {
	b, err := os.ReadFile(filepath.Join(Home, "known_findings.json"))
	if err != nil {
		return nil, err
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, err
	}
	m := map[string]KnownFinding{}
	for _, f := range k.Findings {
		if f.Property == prop {
			m[f.ID] = f
		}
	}
	return m, nil
}

type childResult struct {
	rep    *Report
	code   int
	stderr string
	cpu    time.Duration
	killed bool
}

func spawn(c *Check, tier string, seed uint64, tmp string, one int, scale float64, wall time.Duration) childResult {
	out := filepath.Join(tmp, fmt.Sprintf("report%d.json", one))
	os.Remove(out)
	exe, _ := os.Executable()
	args := []string{"-prop", c.ID, "-tier", tier, "-child", out, "-journal", filepath.Join(tmp, "journal"),
		"-scale", fmt.Sprint(scale), "-case", strconv.Itoa(one)}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(tmp, "race"))
	var eb bytes.Buffer
	cmd.Stderr = &limited{b: &eb, n: 1 << 20}
	cmd.Stdout = cmd.Stderr
	var r childResult
	if err := cmd.Start(); err != nil {
		r.code = -1
		r.stderr = err.Error()
		return r
	}
	timer := time.AfterFunc(wall, func() { r.killed = true; cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	r.stderr = eb.String()
	if cmd.ProcessState != nil {
		r.cpu = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		r.code = cmd.ProcessState.ExitCode()
	}
	if err == nil {
		b, err := os.ReadFile(out)
		if err == nil {
			var rep Report
			if json.Unmarshal(b, &rep) == nil {
				r.rep = &rep
			}
		}
	}
	return r
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n || true {
		l.b.Write(p)
	}
	return len(p), nil
}

func lastInput(s string) string {
	i := strings.LastIndex(s, "input: ")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j+1]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// printable keeps what the library delivered from upsetting whoever reads the output.
func printable(s string) string {
	var sb strings.Builder
	for _, r := range strings.ToValidUTF8(s, "?") {
		switch {
		case r == '\n':
			sb.WriteString("\n  ")
		case r < ' ' || r == 0x7f || r >= 0x80 && r < 0xa0 || r == 0x2028 || r == 0x2029:
			fmt.Fprintf(&sb, "\\x%02x", r)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// scratchRoot is a directory in memory, if there is one with room, or the usual one.
func scratchRoot() string {
	const shm = "/dev/shm"
	var st syscall.Statfs_t
	if err := syscall.Statfs(shm, &st); err != nil || st.Bavail*uint64(st.Bsize) < 2<<30 || st.Flags&8 != 0 { // ST_NOEXEC
		return ""
	}
	return shm
}

func runParent(c *Check, tier string, seed uint64, one int, scale float64) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp(scratchRoot(), "verif-"+c.ID+"-")
	if err != nil {
		tmp, err = os.MkdirTemp("", "verif-"+c.ID+"-")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	wall := 840 * time.Second
	if tier == "thorough" {
		wall = 12 * time.Hour
	}
	known, err := loadKnown(c.ID)
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	r := spawn(c, tier, seed, tmp, one, scale, wall)
	var rep Report
	if r.rep != nil {
		rep = *r.rep
	} else {
		// abnormal end: find the case that causes it
		if r.code == 98 || r.killed {
			fmt.Fprintf(os.Stderr, "check %s: no verdict (exit %d)\n%s\n", c.ID, r.code, tail(r.stderr, 6000))
			return 3
		}
		var idxs []int
		if one >= 0 {
			idxs = []int{one}
		} else if b, err := os.ReadFile(filepath.Join(tmp, "journal")); err == nil {
			for i := 0; i+8 <= len(b); i += 8 {
				if v := int64(binary.LittleEndian.Uint64(b[i:])); v >= 0 {
					idxs = append(idxs, int(v))
				}
			}
		}
		found := false
		begun := time.Now()
		for _, i := range idxs {
			r1 := r
			if one < 0 {
				r1 = spawn(c, tier, seed, tmp, i, scale, 200*time.Second)
			}
			if r1.rep != nil {
				rep.Violations = append(rep.Violations, r1.rep.Violations...)
				found = found || len(r1.rep.Violations) > 0
				continue
			}
			found = true
			what := "the process died (exit " + strconv.Itoa(r1.code) + ")"
			if r1.cpu > 55*time.Second || r1.killed && r1.cpu > 50*time.Second {
				what = fmt.Sprintf("the case does not terminate (%.0f s of processor time used; ordinary cases take milliseconds)", r1.cpu.Seconds())
			}
			rep.Violations = append(rep.Violations, Violation{Property: c.ID, Case: i, Seed: seed, Key: "crash",
				Message: what + "\n" + lastInput(r1.stderr) + tail(r1.stderr[max(0, strings.LastIndex(r1.stderr, "input: ")):], 3000),
				Replay:  fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s -case %d", seed, c.ID, tier, i)})
			if len(rep.Violations) > 2 || time.Since(begun) > 3*time.Minute {
				break
			}
		}
		if _, err := os.Stat(filepath.Join(tmp, "setup")); err == nil && one < 0 {
			found = true // what is registered and asked before the cases
			rep.Violations = append(rep.Violations, Violation{Property: c.ID, Case: -1, Seed: seed, Key: "crash",
				Message: fmt.Sprintf("the preparation does not end or dies (exit %d)\n%s", r.code, tail(r.stderr, 3000)),
				Replay:  fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s", seed, c.ID, tier)})
		}
		if i := strings.Index(r.stderr, "fatal error: concurrent"); !found && c.Race && i >= 0 {
			found = true
			rep.Violations = append(rep.Violations, Violation{Property: c.ID, Case: -1, Seed: seed, Key: "concurrent access", Message: tail(r.stderr[i:], 4000),
				Replay: fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s", seed, c.ID, tier)})
		}
		if logs, _ := filepath.Glob(filepath.Join(tmp, "race.*")); !found && c.Race && len(logs) > 0 {
			found = true // reported below
		}
		if !found {
			fmt.Fprintf(os.Stderr, "check %s: the run ended abnormally (exit %d) but no single case reproduces it\n%s\n", c.ID, r.code, tail(r.stderr, 6000))
			return 3
		}
	}
	// race reports
	if c.Race {
		logs, _ := filepath.Glob(filepath.Join(tmp, "race.*"))
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			for _, blk := range strings.Split(string(b), "==================") {
				if strings.Contains(blk, "WARNING: DATA RACE") {
					rep.Violations = append(rep.Violations, Violation{Property: c.ID, Case: -1, Seed: seed, Key: "race",
						Message: strings.TrimSpace(blk), Replay: fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s", seed, c.ID, tier)})
				}
			}
		}
		if strings.Contains(r.stderr, "WARNING: DATA RACE") {
			rep.Violations = append(rep.Violations, Violation{Property: c.ID, Case: -1, Seed: seed, Key: "race", Message: tail(r.stderr, 4000)})
		}
	}
	sort.SliceStable(rep.Violations, func(i, j int) bool { return rep.Violations[i].Case < rep.Violations[j].Case })
	// known findings
	var kids []string
	for id := range rep.Known {
		kids = append(kids, id)
	}
	sort.Strings(kids)
	for _, id := range kids {
		if _, ok := known[id]; !ok {
			rep.Violations = append(rep.Violations, Violation{Property: c.ID, Case: -1, Seed: seed, Key: id, Message: rep.Known[id]})
		}
	}
	// evidence
	if one < 0 {
		cov := map[string]any{
			"evaluations":         rep.Evals,
			"distinct_nontrivial": rep.Distinct,
			"rule":                c.Rule,
			"samples":             rep.Samples,
		}
		obs := map[string]int64{}
		for k, v := range rep.Counts {
			obs[k] = v
		}
		cov["observed"] = obs
		if len(kids) > 0 {
			cov["known_findings_seen"] = kids
		}
		ev := map[string]any{
			"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
			"assumptions": append([]string{}, c.Assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": len(rep.Violations),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(Home, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(Home, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, id := range kids {
		if f, ok := known[id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.What)
		}
	}
	if len(rep.Violations) > 0 {
		dir := filepath.Join(Home, "replays")
		os.MkdirAll(dir, 0o755)
		seen := map[string]bool{}
		n := 0
		for _, v := range rep.Violations {
			if seen[v.Key] {
				continue
			}
			seen[v.Key] = true
			n++
			if n > 5 {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.ID, n, v.Case))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o644)
			msg := v.Message
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Println(printable(fmt.Sprintf("[%s] %s (case %d): %s", c.ID, v.Key, v.Case, msg)))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		}
		return 1
	}
	if one < 0 && scale >= 1 {
		for _, n := range c.Need {
			if rep.Counts[n] == 0 && rep.Counts["max:"+n] == 0 {
				fmt.Fprintf(os.Stderr, "check %s: inconclusive, nothing was observed for %q\n", c.ID, n)
				return 3
			}
		}
		if rep.Distinct == 0 {
			fmt.Fprintf(os.Stderr, "check %s: inconclusive, no non-trivial case\n", c.ID)
			return 3
		}
	}
	fmt.Printf("%s %s: held on %d executions, %d distinct non-trivial, %.1f s\n", c.ID, tier, rep.Evals, rep.Distinct, time.Since(t0).Seconds())
	return 0
}
