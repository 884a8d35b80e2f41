package main

// Running the real command-line tool, and the bookkeeping of a check.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Result of one run of the tool.
type Result struct {
	Out, Err []byte
	Exit     int
	Signal   syscall.Signal
	CPUOut   bool // ended by the CPU limit: it does not terminate on this input
	Watchdog bool // the wall-clock watchdog fired: no verdict
	Cmd      string
}

func (r *Result) Crashed() bool {
	return r.Signal != 0 || bytes.Contains(r.Err, []byte("\ngoroutine ")) || bytes.Contains(r.Err, []byte("panic:")) ||
		bytes.Contains(r.Err, []byte("fatal error:"))
}

func (r *Result) Status() string {
	switch {
	case r.Watchdog:
		return "watchdog"
	case r.CPUOut:
		return "does not terminate (CPU limit of 20 s reached)"
	case r.Signal != 0:
		return "killed by " + r.Signal.String()
	case r.Crashed():
		return fmt.Sprintf("crash, exit %d: %s", r.Exit, firstLine(r.Err))
	}
	s := fmt.Sprintf("exit %d", r.Exit)
	if len(r.Err) > 0 {
		s += ", stderr: " + firstLine(r.Err)
	}
	return s
}

func firstLine(b []byte) string {
	s := strings.TrimSpace(string(b))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// Harness-wide state.
type Harness struct {
	Prop    string
	Seed    int
	Tier    string
	CLI     string // the tool, built from the working tree
	CLIRace string
	Scratch string
	Root    string // /verif

	mu        sync.Mutex
	counts    map[string]int
	shapes    map[string]map[string]bool
	samples   []interface{}
	evals     int
	nontriv   map[string]bool
	violation []string
	known     map[string]string // key -> text
	knownHit  map[string]bool
	inconcl   []string
	cut       []string
	rule      string
	assume    []string
	start     time.Time
}

// Case is one generated case.
type Case struct {
	H   *Harness
	R   *Rng
	N   int
	Dir string
	// not 0: all dictionaries give the same ids, and few names
	IDSeed int
	// how many of 100 names have characters which a file name may not have
	OddPct int
	// no partitions
	NoParts bool
	NoZip   bool // no table of the redo dictionary is compressed
	desc    []string
	runs    []*Result
	Key     string // canonical description of what makes the case distinct
}

func (c *Case) Desc(format string, a ...interface{}) {
	c.desc = append(c.desc, fmt.Sprintf(format, a...))
}

func (c *Case) Count(name string, n int) {
	c.H.mu.Lock()
	c.H.counts[name] += n
	c.H.mu.Unlock()
}

// Shape records a distinct state seen, by category.
func (c *Case) Shape(cat, s string) {
	c.H.mu.Lock()
	if c.H.shapes[cat] == nil {
		c.H.shapes[cat] = map[string]bool{}
	}
	if len(c.H.shapes[cat]) < 200000 {
		c.H.shapes[cat][s] = true
	}
	c.H.mu.Unlock()
}

func (c *Case) Write(name string, b []byte) string {
	p := filepath.Join(c.Dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		fatal(err)
	}
	return p
}

// WriteIbd writes a tablespace.
func (c *Case) WriteIbd(name string, f *Ibd) string {
	if f.Sparse == nil {
		return c.Write(name, f.Bytes)
	}
	p := c.Write(name, nil)
	h, err := os.OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		fatal(err)
	}
	for no, b := range f.Sparse {
		if _, err := h.WriteAt(b, int64(no)*pageSize); err != nil {
			fatal(err)
		}
	}
	if err := h.Truncate(int64(f.NPages) * pageSize); err != nil {
		fatal(err)
	}
	if err := h.Close(); err != nil {
		fatal(err)
	}
	return p
}

type RunOpt struct {
	TZ     string
	Level  string
	Race   bool
	Raw    bool // no log flags
	Env    []string
	LogDir string
	// In place of collecting the output.
	Stdout *os.File
	// A program to run the tool under, with its arguments.
	Under []string
	// A limit of the shell's ulimit, as "-f 8".
	Limit string
	// Called with the running process.
	Started func(p *os.Process)
}

// Run executes the tool in the case's directory.
func (c *Case) Run(o RunOpt, args ...string) *Result {
	for try := 0; ; try++ {
		r := c.run1(o, args)
		if r.Watchdog && try < 2 {
			continue
		}
		if r.Watchdog {
			c.H.mu.Lock()
			c.H.inconcl = append(c.H.inconcl, fmt.Sprintf("case %d: the wall-clock watchdog fired", c.N))
			c.H.mu.Unlock()
		}
		c.runs = append(c.runs, r)
		return r
	}
}

func (c *Case) run1(o RunOpt, args []string) *Result {
	bin := c.H.CLI
	limit := "ulimit -t 20; ulimit -v 4000000; ulimit -c 0; exec \"$@\""
	if o.Race {
		bin = c.H.CLIRace
		limit = "ulimit -t 120; ulimit -c 0; exec \"$@\""
	}
	logDir := filepath.Join(c.Dir, "log")
	if o.LogDir != "" {
		logDir = o.LogDir
	}
	os.MkdirAll(logDir, 0755)
	home := filepath.Join(c.Dir, "home")
	os.MkdirAll(home, 0755)
	all := append([]string{}, args...)
	if !o.Raw {
		lv := o.Level
		if lv == "" {
			lv = "fatal"
		}
		all = append(all, "--LogPath="+logDir, "--LogLevel="+lv)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	if o.Limit != "" {
		limit = "ulimit " + o.Limit + "; " + limit
	}
	all = append(append(append([]string{}, o.Under...), bin), all...)
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", limit, "sh"}, all...)...)
	cmd.Dir = home
	tz := o.TZ
	if tz == "" {
		tz = "UTC"
	}
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + home, "TMPDIR=" + home, "TZ=" + tz, "USER=verif"}, o.Env...)
	var so, se bytes.Buffer
	cmd.Stdout = &limitedWriter{b: &so, max: 256 << 20}
	if o.Stdout != nil {
		cmd.Stdout = o.Stdout
	}
	cmd.Stderr = &limitedWriter{b: &se, max: 8 << 20}
	err := cmd.Start()
	if err == nil {
		if o.Started != nil {
			o.Started(cmd.Process)
		}
		err = cmd.Wait()
	}
	r := &Result{Out: so.Bytes(), Err: se.Bytes()}
	r.Cmd = "TZ=" + tz + " " + strings.Replace(strings.Join(all, " "), bin, "db-recovery", 1)
	if ctx.Err() != nil {
		r.Watchdog = true
		return r
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				r.Signal = ws.Signal()
				if r.Signal == syscall.SIGXCPU || r.Signal == syscall.SIGKILL {
					ru, _ := ee.SysUsage().(*syscall.Rusage)
					if ru != nil && ru.Utime.Sec+ru.Stime.Sec >= 18 {
						r.CPUOut = true
					}
				}
			}
			r.Exit = ee.ExitCode()
			ru, _ := ee.SysUsage().(*syscall.Rusage)
			if ru != nil && ru.Utime.Sec+ru.Stime.Sec >= 19 && !o.Race {
				r.CPUOut = true
			}
		} else {
			fatal(err)
		}
	}
	return r
}

type limitedWriter struct {
	b   *bytes.Buffer
	max int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.b.Len()+len(p) > w.max {
		return 0, fmt.Errorf("output limit reached")
	}
	return w.b.Write(p)
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"harness error:"}, a...)...)
	os.Exit(3)
}

// Parallel runs n cases on all cores; stops early after enough violations.
func (h *Harness) Parallel(stream string, n int, f func(c *Case) error) {
	workers := 8
	if w := os.Getenv("VERIF_WORKERS"); w != "" {
		fmt.Sscan(w, &workers)
	}
	h.ParallelN(workers, stream, n, f)
}

func (h *Harness) ParallelN(workers int, stream string, n int, f func(c *Case) error) {
	var wg sync.WaitGroup
	ch := make(chan int)
	only := os.Getenv("VERIF_CASE") // "stream:number" replays one case
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if only != "" && only != fmt.Sprintf("%s:%d", stream, i) {
					continue
				}
				h.one(stream, i, f)
			}
		}()
	}
	enough := 5
	if e := os.Getenv("VERIF_STOP"); e != "" {
		fmt.Sscan(e, &enough)
	}
	limit := 240 * time.Second
	if h.Tier == "thorough" {
		limit = 700 * time.Second
	}
	for i := 0; i < n; i++ {
		h.mu.Lock()
		stop := len(h.violation) >= enough
		if only == "" && time.Since(h.start) > limit {
			h.cut = append(h.cut, fmt.Sprintf("%s: stopped after %d of %d cases, out of time", stream, i, n))
			stop = true
		}
		h.mu.Unlock()
		if stop {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (h *Harness) one(stream string, i int, f func(c *Case) error) {
	dir, err := os.MkdirTemp(h.Scratch, "case")
	if err != nil {
		fatal(err)
	}
	c := &Case{H: h, N: i, R: NewRng(h.Seed, h.Prop, stream, i), Dir: dir}
	err = f(c)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	if c.Key != "" {
		h.nontriv[c.Key] = true
	}
	if len(h.samples) < 6 && (h.evals%17 == 1 || h.evals < 3) {
		d := append([]string{}, c.desc...)
		for _, r := range c.runs {
			d = append(d, strings.Replace(r.Cmd, c.Dir, "$CASE", -1)+" -> "+r.Status()+fmt.Sprintf(", %d bytes of output", len(r.Out)))
		}
		for k := range d {
			if len(d[k]) > 700 {
				d[k] = d[k][:700] + "..."
			}
		}
		h.samples = append(h.samples, map[string]interface{}{"case": fmt.Sprintf("%s:%d", stream, i), "what": d})
	}
	if err != nil {
		if k, ok := err.(*knownErr); ok {
			if _, listed := h.known[k.key]; listed {
				h.knownHit[k.key] = true
				os.RemoveAll(dir)
				return
			}
		}
		h.report(c, stream, err)
	}
	os.RemoveAll(dir)
}

// knownErr is a violation identified as one particular finding.
type knownErr struct {
	key string
	err error
}

func (k *knownErr) Error() string { return k.err.Error() }

// report saves the failing case; the caller holds the lock.
func (h *Harness) report(c *Case, stream string, err error) {
	rp := filepath.Join(h.Root, "replay", h.Prop, fmt.Sprintf("%s-%d", stream, c.N))
	os.RemoveAll(rp)
	os.MkdirAll(rp, 0755)
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, seed %d, tier %s, case %s:%d\n", h.Prop, h.Seed, h.Tier, stream, c.N)
	fmt.Fprintf(&b, "re-run this case: cd /verif && VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%s:%d ./check.sh %s\n\n", h.Seed, h.Tier, stream, c.N, h.Prop)
	fmt.Fprintf(&b, "violation: %v\n\n", err)
	for _, d := range c.desc {
		fmt.Fprintln(&b, d)
	}
	for i, r := range c.runs {
		fmt.Fprintf(&b, "\nrun %d: %s\n  %s\n", i, strings.Replace(r.Cmd, c.Dir, ".", -1), r.Status())
		os.WriteFile(filepath.Join(rp, fmt.Sprintf("run%d.stdout", i)), r.Out, 0644)
		os.WriteFile(filepath.Join(rp, fmt.Sprintf("run%d.stderr", i)), r.Err, 0644)
	}
	os.WriteFile(filepath.Join(rp, "README"), []byte(b.String()), 0644)
	exec.Command("cp", "-r", c.Dir, filepath.Join(rp, "case")).Run()
	os.RemoveAll(filepath.Join(rp, "case", "log"))
	os.RemoveAll(filepath.Join(rp, "case", "home"))
	h.violation = append(h.violation, rp)
	msg := err.Error()
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	fmt.Printf("%s case %s:%d: %s\n", h.Prop, stream, c.N, msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, rp)
}

// Finish writes the evidence and gives the exit code.
func (h *Harness) Finish() int {
	cov := map[string]interface{}{
		"evaluations":         h.evals,
		"distinct_nontrivial": len(h.nontriv),
		"rule":                h.rule,
		"samples":             h.samples,
	}
	obs := map[string]int{}
	for k, v := range h.counts {
		obs[k] = v
	}
	cov["observed"] = obs
	dist := map[string]int{}
	for k, v := range h.shapes {
		dist[k] = len(v)
	}
	cov["distinct_seen"] = dist
	small := map[string][]string{}
	for k, v := range h.shapes {
		if len(v) <= 80 {
			var l []string
			for s := range v {
				l = append(l, s)
			}
			sort.Strings(l)
			small[k] = l
		}
	}
	cov["seen"] = small
	if len(h.knownHit) > 0 {
		var l []string
		for k := range h.knownHit {
			l = append(l, k)
		}
		sort.Strings(l)
		cov["known_findings_seen"] = l
	}
	if len(h.cut) > 0 {
		cov["time_limit"] = h.cut
	}
	if len(h.inconcl) > 0 {
		cov["inconclusive"] = h.inconcl
	}
	ev := map[string]interface{}{
		"property": h.Prop, "tier": h.Tier, "seed": h.Seed, "level": "exploration",
		"coverage": cov, "assumptions": h.assume, "wall_s": time.Since(h.start).Seconds(), "violations": len(h.violation),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(h.Root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(h.Root, "evidence", h.Prop+".json"), append(js, '\n'), 0644); err != nil {
		fatal(err)
	}
	for k := range h.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", h.Prop, h.known[k])
	}
	fmt.Printf("%s: %d cases, %d distinct, observed %v, distinct %v, %d violations, %.1f s\n", h.Prop, h.evals, len(h.nontriv), obs, dist, len(h.violation), time.Since(h.start).Seconds())
	if len(h.violation) > 0 {
		return 1
	}
	if len(h.inconcl) > 0 {
		fmt.Fprintln(os.Stderr, "inconclusive:", h.inconcl)
		return 2
	}
	if h.evals == 0 && os.Getenv("VERIF_CASE") == "" {
		fmt.Fprintln(os.Stderr, "inconclusive: no case was run")
		return 2
	}
	return 0
}
