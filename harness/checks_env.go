package main

// C20 codecs, C21 logging, C22 parser instances, C23 determinism, C24 inputs.

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	checks["C20"] = &Check{
		Rule: "values written by independent encoders (all of 0..2^17, every power of two +-3 in each half of 64 bits, every 3-byte integer, random magnitudes) at random positions between random bytes are read by the tool's codecs in process; value and length must agree, cut-off values must not be read as others; non-trivial: every evaluation; distinct: encoded shape",
		Run:  codecCheck,
	}
	checks["C21"] = &Check{
		Rule: "stream 'sql': one request (data file or redo log, plain, damaged or unservable) run at several levels (any case, unknown, empty) and log directories: stdout and exit code must be identical, and the log files complete; stream 'gate': all logging functions called at every level, the set of messages in each log file must be exactly the set of the levels at or above the threshold; non-trivial: SQL was printed, or some messages pass and some do not; distinct by request and level",
		Run: func(h *Harness) {
			h.Parallel("sql", h.Scale(2400, 50000), logLevelCase)
			h.Parallel("gate", h.Scale(1500, 30000), gateCase)
		},
	}
	checks["C22"] = &Check{
		Rule: "under the Go race detector: 2..12 jobs (data files and redo logs, shared and own dictionaries) run at once on their own parsers in one process, the multiset of printed lines must be the union of what the tool prints for each alone; and one after another, also sharing one dictionary parser, each output must be the tool's, statement by statement; any race report is a violation; non-trivial: at least two jobs that print; distinct by job mix",
		Run: func(h *Harness) {
			h.Parallel("inst", h.Scale(2000, 60000), instanceCase)
		},
	}
	checks["C23"] = &Check{
		Rule: "one request (plain, damaged, unservable) run 3..6 times under other GOMAXPROCS, GOGC, locale, user, working directory, file names, file times and log levels, with files that come through named pipes in pieces, and with a slowly read, also non-blocking, standard output; stdout and exit code must be byte for byte the same; non-trivial: something was printed; distinct by request",
		Run: func(h *Harness) {
			h.Parallel("again", h.Scale(3000, 80000), againCase)
		},
	}
	checks["C24"] = &Check{
		Rule: "any request (plain, damaged, unservable); content, size, mode, inode and mtime of every input file and the listing of the input, working, home and temporary directories are compared before and after; the log directory may only get the tool's log files; non-trivial: every case; distinct by request",
		Run: func(h *Harness) {
			h.Parallel("inputs", h.Scale(7000, 150000), inputsCase)
		},
	}
}

// JobSpec is one request, with its files written under the case's directory.
type JobSpec struct {
	Redo      bool
	Sys       string
	Files     []string
	DB, Table string
	Recover   bool
	Ext       bool // rows may have off-page values
	What      string
}

func (j *JobSpec) args() []string {
	if j.Redo {
		a := []string{"recovery", "FromRedoFile", "--SysDataFile=" + j.Sys, "--RedoFile=" + strings.Join(j.Files, ",")}
		if j.DB != "" {
			a = append(a, "--DBName="+j.DB)
		}
		if j.Table != "" {
			a = append(a, "--TableName="+j.Table)
		}
		return a
	}
	a := []string{"recovery", "FromDataFile", "--SysDataFile=" + j.Sys, "--TableDataFile=" + j.Files[0], "--DBName=" + j.DB, "--TableName=" + j.Table}
	if j.Recover {
		a = append(a, "--OpType=RecoveryData")
	}
	return a
}

// genJobs makes requests on one dictionary; hostile allows damage and absence.
func genJobs(c *Case, dir string, n int, hostile bool) []*JobSpec {
	r := c.R
	o := &GenOpt{Kinds: nil, MinCols: 2, MaxCols: r.Pick(3, 8), NullPct: 40, MaxLen: r.Pick(60, 300), PKMode: 1}
	d := plainDict(r)
	if r.P(50) {
		d = randDictOpt(r)
	}
	s := redoTables(c, o, r.Range(1, 5), d, r.P(50))
	sys := c.Write(dir+"/ibdata1", s.Dict.Bytes)
	var jobs []*JobSpec
	for i := 0; i < n; i++ {
		t := s.Tables[r.N(len(s.Tables))]
		j := &JobSpec{Sys: sys, DB: t.DB, Table: t.Name, Redo: r.P(50) || t.Zip != 0}
		j.What = "data file"
		var bufs [][]byte
		if j.Redo {
			j.What = "redo log"
			sc := &RedoScenario{Tables: s.Tables, Dict: s.Dict}
			for k := 0; k < r.Pick(1, 5, 20); k++ {
				sc.addNoise(c, r.N(3), noiseTypes())
				sc.addUndo(r, sc.genUpd(r, s.Tables[r.N(len(s.Tables))], undoUpdExist, 400))
			}
			sc.finish()
			switch r.N(4) {
			case 0:
			case 1:
				j.DB = ""
			case 2:
				j.Table = ""
			default:
				j.DB, j.Table = "", ""
			}
			bufs, _ = BuildLog(r, sc.Stream, sc.starts(), randLogOpt(r))
		} else {
			j.Recover = r.P(40)
			free := r.Pick(0, 50)
			if j.Recover {
				free = r.Pick(50, 100)
				j.What += ", RecoveryData"
			}
			j.Ext = t.ExtPct > 0
			rows, per := r.Pick(1, 5, 30), r.Pick(2, 10, 1000)
			if hostile && r.P(10) {
				// a file of many pages
				rows, per = r.Range(100, 300), r.Range(1, 2)
				j.What += ", many pages"
			}
			f := BuildIbd(r, t, SplitLeaves(r, t, t.genRows(r, rows, 800), per, 10, free), randIbdOpt(r))
			bufs = [][]byte{f.Bytes}
			if hostile && r.P(15) && len(f.Leaves) > 0 {
				spoilLeaves(r, f)
				j.What += ", spoiled leaf pages"
			}
		}
		if hostile && r.P(35) {
			b := bufs[r.N(len(bufs))]
			switch r.N(4) {
			case 0:
				k := r.N(len(bufs))
				bufs[k] = b[:r.N(len(b)+1)]
				bufs[k] = append([]byte{}, bufs[k]...)
				j.What += ", cut off"
			case 1:
				j.Table += "_absent"
				j.What += ", absent table"
			default:
				garbage(r, b, r.Range(1, 6))
				j.What += ", damaged"
			}
		}
		for k, b := range bufs {
			j.Files = append(j.Files, c.Write(fmt.Sprintf("%s/f%d.%d", dir, i, k), b))
		}
		if hostile && r.P(5) {
			j.Files[len(j.Files)-1] += ".missing"
			j.What += ", missing file"
		}
		c.Desc("job %d: %s on %s.%s", i, j.What, j.DB, j.Table)
		jobs = append(jobs, j)
	}
	return jobs
}

// spoilLeaves makes leaf pages of the file unreadable from their first record
// on, while their headers stay as they are.
func spoilLeaves(r *Rng, f *Ibd) {
	pct := r.Pick(20, 100)
	for _, l := range f.Leaves {
		b := f.Bytes[int(l.No)*pageSize:][:pageSize]
		if !r.P(pct) {
			continue
		}
		switch r.N(4) {
		case 0:
			b[97], b[98] = byte(r.N(256)), byte(r.N(256)) // where the infimum of COMPACT pages points to
		case 1:
			copy(b[94:pageSize-8], r.Bytes(pageSize-8-94))
		case 2:
			for i := 120; i < pageSize-8; i++ {
				b[i] = 0xff
			}
		default:
			for i := 94; i < pageSize-8; i++ {
				b[i] = 0
			}
		}
	}
}

func jobKey(j *JobSpec, out []byte) string {
	return fmt.Sprintf("%s %x", j.What, sha256.Sum256(out))[:40+len(j.What)]
}

var levelNames = []string{"fatal", "error", "warn", "info", "debug", "trace"}

// mangle writes a level name in another case.
func mangle(r *Rng, s string) string {
	switch r.N(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.P(50) && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 'a' - 'A'
			}
		}
		return string(b)
	}
	return s
}

var oddLevels = []string{"verbose", "INFORMATION", "0", "5", "-1", "debu", "debugs", " debug", "warning", "none"}

func logLevelCase(c *Case) error {
	r := c.R
	j := genJobs(c, "in", 1, true)[0]
	ls := append([]string{}, levelNames...)
	ls = append(ls, oddLevels[r.N(len(oddLevels))])
	var first *Result
	fl := ""
	p := r.Perm(len(ls))
	for k := 0; k < len(p) && k < r.Range(3, 7); k++ {
		lv := mangle(r, ls[p[k]])
		res := c.Run(RunOpt{Level: lv, LogDir: filepath.Join(c.Dir, "log"+fmt.Sprint(r.N(2)))}, j.args()...)
		if res.Watchdog {
			return nil
		}
		if res.CPUOut || res.Crashed() {
			return fmt.Errorf("at level %s the run did not end normally: %s", lv, res.Status())
		}
		c.Shape("levels", strings.ToLower(lv))
		c.Count("runs", 1)
		if first == nil {
			first, fl = res, lv
			continue
		}
		if !bytes.Equal(first.Out, res.Out) {
			return fmt.Errorf("at level %s the tool prints something else than at level %s: %s", lv, fl, diffLine(first.Out, res.Out))
		}
		if first.Exit != res.Exit {
			return fmt.Errorf("at level %s the tool exits with %d, at level %s with %d", lv, res.Exit, fl, first.Exit)
		}
	}
	n := len(splitLines(first.Out))
	c.Count("sql_lines_compared", n)
	if n > 0 {
		c.Key = jobKey(j, first.Out)
	}
	return nil
}

func diffLine(a, b []byte) string {
	x, y := splitLines(a), splitLines(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		switch {
		case i >= len(x):
			return fmt.Sprintf("line %d only in the second: %s", i+1, cut(y[i]))
		case i >= len(y):
			return fmt.Sprintf("line %d only in the first: %s", i+1, cut(x[i]))
		case !bytes.Equal(x[i], y[i]):
			return fmt.Sprintf("line %d: %s and %s", i+1, cut(x[i]), cut(y[i]))
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(a), len(b))
}

// runInproc runs the in-process driver.
func (c *Case) runInproc(env []string, args ...string) *Result {
	bin := os.Getenv("VERIF_INPROC")
	home := filepath.Join(c.Dir, "home")
	os.MkdirAll(home, 0755)
	for try := 0; ; try++ {
		cmd := exec.Command("/bin/sh", append([]string{"-c", "ulimit -t 200; ulimit -c 0; exec \"$@\"", "sh", bin}, args...)...)
		cmd.Dir = home
		cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + home, "TMPDIR=" + home, "TZ=UTC", "USER=verif"}, env...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Start(); err != nil {
			fatal(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		r := &Result{Cmd: "inproc " + strings.Join(args, " ")}
		select {
		case err := <-done:
			if ee, ok := err.(*exec.ExitError); ok {
				ws := ee.Sys().(syscall.WaitStatus)
				if ws.Signaled() {
					r.Signal = ws.Signal()
				}
				r.Exit = ee.ExitCode()
			} else if err != nil {
				fatal(err)
			}
		case <-time.After(250 * time.Second):
			cmd.Process.Kill()
			<-done
			r.Watchdog = true
			if try < 1 {
				continue
			}
			c.H.mu.Lock()
			c.H.inconcl = append(c.H.inconcl, fmt.Sprintf("case %d: the wall-clock watchdog fired", c.N))
			c.H.mu.Unlock()
		}
		r.Out, r.Err = so.Bytes(), se.Bytes()
		c.runs = append(c.runs, r)
		return r
	}
}

// gateCase: which messages reach the log files.
func gateCase(c *Case) error {
	r := c.R
	names := []string{"trace", "debug", "debugf", "info", "infof", "warn", "warnf", "error", "errorf"}
	rank := map[string]int{"trace": 5, "debug": 4, "debugf": 4, "info": 3, "infof": 3, "warn": 2, "warnf": 2, "error": 1, "errorf": 1}
	k := r.N(len(levelNames) + 1)
	lv, thr := "", 3
	if k == len(levelNames) {
		lv = append(oddLevels, "")[r.N(len(oddLevels)+1)]
	} else {
		lv, thr = mangle(r, levelNames[k]), k
	}
	dir := filepath.Join(c.Dir, "logs")
	os.MkdirAll(dir, 0755)
	tag := fmt.Sprintf("m%d", r.N(1000000))
	if r.P(50) {
		// what looks like a verb or an escape stays as it is
		tag += r.PickS("100%done", "%d %s", "%!s(MISSING)", "%", "%%", "\\n\\", "\"quoted\"", "\t", "表", "%n%v")
	}
	n := r.Pick(1, 2, 20, 300)
	a := []string{"logs", lv, dir, tag, strconv.Itoa(n)}
	end := ""
	if r.P(20) {
		end = r.PickS("fatal", "fatalf")
		a = append(a, end)
	}
	res := c.runInproc(nil, a...)
	c.Desc("level %q, %d messages of each kind, ending %q", lv, n, end)
	if res.Watchdog {
		return nil
	}
	if end == "" && (res.Exit != 0 || string(res.Out) != "end\n") {
		return fmt.Errorf("level %q: logging ended with %s and wrote %s on stdout", lv, res.Status(), cut(res.Out))
	}
	if end != "" && (res.Exit == 0 || len(res.Out) != 0) {
		return fmt.Errorf("level %q: a fatal message did not end the process (exit %d, stdout %s)", lv, res.Exit, cut(res.Out))
	}
	// severity files
	sev := map[string]string{"warn": "WARNING", "warnf": "WARNING", "error": "ERROR", "errorf": "ERROR"}
	for _, file := range []string{"INFO", "WARNING", "ERROR"} {
		ms, _ := filepath.Glob(filepath.Join(dir, "*.log."+file+".*"))
		got := map[string]int{}
		for _, m := range ms {
			b, err := os.ReadFile(m)
			if err != nil {
				fatal(err)
			}
			for _, l := range strings.Split(string(b), "\n") {
				if i := strings.Index(l, "<"+tag+" "); i >= 0 {
					got[strings.TrimSpace(l[i:])]++
				}
			}
		}
		for _, nm := range names {
			in := rank[nm] <= thr
			if file == "WARNING" && rank[nm] > 2 || file == "ERROR" && rank[nm] > 1 {
				in = false
			}
			_ = sev
			for i := 0; i < n; i++ {
				msg := fmt.Sprintf("<%s %s %d >", tag, nm, i)
				want := 0
				if in {
					want = 1
				}
				if got[msg] != want {
					return fmt.Errorf("level %q: message %q is %d times in the %s log, %d expected", lv, msg, got[msg], file, want)
				}
				delete(got, msg)
				c.Count("messages_decided", 1)
			}
		}
		if end != "" {
			msg := fmt.Sprintf("<%s %s 0 >", tag, end)
			if got[msg] != 1 {
				return fmt.Errorf("level %q: message %q is %d times in the %s log", lv, msg, got[msg], file)
			}
			delete(got, msg)
		}
		for m := range got {
			return fmt.Errorf("level %q: unexpected message %q in the %s log", lv, m, file)
		}
	}
	c.Shape("gates", strings.ToLower(lv)+" "+end)
	c.Key = fmt.Sprint("gate ", lv, n, end)
	return nil
}

func codecCheck(h *Harness) {
	n := h.Scale(400000, 20000000)
	workers := 4
	if h.Tier == "thorough" {
		workers = 8
	}
	h.ParallelN(workers, "codec", workers, func(c *Case) error {
		res := c.runInproc(nil, "codec", fmt.Sprint(h.Seed*1000+c.N), fmt.Sprint(n/workers))
		if res.Watchdog {
			return nil
		}
		var st struct {
			Evals    int
			Counts   map[string]int
			Distinct int
			Failures []string
			Samples  []string
		}
		if res.Exit != 0 || json.Unmarshal(res.Out, &st) != nil {
			return fmt.Errorf("the codec driver ended with %s", res.Status())
		}
		h.mu.Lock()
		h.evals += st.Evals
		for i := 0; i < st.Distinct; i++ {
			h.nontriv[fmt.Sprint("shape", i)] = true
		}
		h.mu.Unlock()
		for k, v := range st.Counts {
			c.Count(k, v)
		}
		for _, s := range st.Samples {
			c.Desc("%s", s)
		}
		if len(st.Failures) > 0 {
			return fmt.Errorf("%s", strings.Join(st.Failures, "\n  "))
		}
		return nil
	})
}

type plan struct {
	LogDir, Level string
	Jobs          []*JobSpec
	Parallel      bool
	Rounds        int
	Shared        bool
	OutDir        string
}

func instanceCase(c *Case) error {
	r := c.R
	var jobs []*JobSpec
	if r.P(50) {
		// servers whose ids and names are the same
		c.IDSeed = 1 + r.N(1000)
	}
	for g := 0; g < r.Range(1, 3); g++ {
		jobs = append(jobs, genJobs(c, fmt.Sprintf("in%d", g), r.Range(1, 4), false)...)
	}
	alone := make([][]byte, len(jobs))
	lines := map[string]int{}
	total, printing := 0, 0
	for i, j := range jobs {
		res := c.Run(RunOpt{}, j.args()...)
		if res.Watchdog {
			return nil
		}
		if err := cleanRun(res); err != nil {
			return err
		}
		alone[i] = res.Out
		if len(res.Out) > 0 {
			printing++
		}
	}
	os.MkdirAll(filepath.Join(c.Dir, "plog"), 0755)
	p := plan{LogDir: filepath.Join(c.Dir, "plog"), Level: r.PickS("fatal", "fatal", "error", "debug"), Jobs: jobs, Parallel: true, Rounds: r.Pick(1, 2, 3)}
	for k := 0; k < p.Rounds; k++ {
		for i := range jobs {
			for _, l := range splitLines(alone[i]) {
				lines[string(l)]++
				total++
			}
		}
	}
	js, _ := json.Marshal(p)
	env := []string{"GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=" + fmt.Sprint(r.Pick(2, 4, 8, 16))}
	res := c.runInproc(env, "multi", c.Write("plan.json", js))
	if res.Watchdog {
		return nil
	}
	if bytes.Contains(res.Err, []byte("WARNING: DATA RACE")) {
		return fmt.Errorf("parsers used at once race: %s", cutS(string(res.Err)))
	}
	if res.Exit != 0 {
		return fmt.Errorf("parsers used at once did not end normally: %s", res.Status())
	}
	got := splitLines(res.Out)
	for _, l := range got {
		if lines[string(l)] == 0 {
			return fmt.Errorf("parsers used at once print a line that none prints alone (or more often): %s", cut(l))
		}
		lines[string(l)]--
	}
	if len(got) != total {
		return fmt.Errorf("parsers used at once print %d lines, alone %d", len(got), total)
	}
	c.Count("parallel_parsers", len(jobs)*p.Rounds)
	c.Count("parallel_lines", total)
	// the order the lines came in tells the interleavings apart
	var order []string
	owner := map[string]int{}
	for i := range alone {
		for _, l := range splitLines(alone[i]) {
			owner[string(l)] = i
		}
	}
	for _, l := range got {
		order = append(order, fmt.Sprint(owner[string(l)]))
	}
	if len(order) > 1 {
		sw := 0
		for i := 1; i < len(order); i++ {
			if order[i] != order[i-1] {
				sw++
			}
		}
		c.Count("interleaving_switches", sw)
		c.Shape("interleavings", fmt.Sprintf("%x", sha256.Sum256([]byte(strings.Join(order, " ")))))
	}
	// one after another, in some order, some twice
	var seq []*JobSpec
	var want [][]byte
	for k := 0; k < len(jobs)+r.N(4); k++ {
		i := r.N(len(jobs))
		seq = append(seq, jobs[i])
		want = append(want, alone[i])
	}
	out := filepath.Join(c.Dir, "out")
	os.MkdirAll(out, 0755)
	p = plan{LogDir: p.LogDir, Level: "fatal", Jobs: seq, Shared: r.P(60), OutDir: out}
	js, _ = json.Marshal(p)
	res = c.runInproc(env, "multi", c.Write("plan2.json", js))
	if res.Watchdog {
		return nil
	}
	if bytes.Contains(res.Err, []byte("WARNING: DATA RACE")) {
		return fmt.Errorf("parsers used one after another race: %s", cutS(string(res.Err)))
	}
	if res.Exit != 0 {
		return fmt.Errorf("parsers used one after another did not end normally: %s", res.Status())
	}
	for k := range seq {
		b, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("out%d", k)))
		if err != nil {
			fatal(err)
		}
		if !sameStmts(b, want[k]) {
			return fmt.Errorf("request %d of a process (%s, dictionary parser shared: %v) prints something else than alone: %s", k+1, seq[k].What, p.Shared, diffLine(want[k], b))
		}
	}
	c.Count("sequential_requests", len(seq))
	if printing >= 2 {
		var k []string
		for i, j := range jobs {
			k = append(k, jobKey(j, alone[i]))
		}
		c.Key = strings.Join(k, ";")
	}
	return nil
}

// sameStmts compares two outputs; NULL may be written as UNHEX(NULL).
func sameStmts(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	x, y := splitLines(a), splitLines(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if bytes.Equal(x[i], y[i]) {
			continue
		}
		p, err1 := ParseStmt(x[i])
		q, err2 := ParseStmt(y[i])
		if err1 != nil || err2 != nil || !reflect.DeepEqual(p, q) {
			return false
		}
	}
	return true
}

func againCase(c *Case) error {
	r := c.R
	j := genJobs(c, "in", 1, true)[0]
	if r.P(15) {
		// a damaged dictionary
		b, err := os.ReadFile(j.Sys)
		if err != nil {
			fatal(err)
		}
		garbage(r, b, r.Range(1, 8))
		c.Write("in/ibdata1", b)
		j.What += ", damaged dictionary"
	}
	var first *Result
	n := r.Range(3, 6)
	for k := 0; k < n; k++ {
		jj := *j
		if k > 0 && r.P(50) {
			// other names and times for the same contents
			mv := func(p string) string {
				b, err := os.ReadFile(p)
				if err != nil {
					return p
				}
				q := c.Write(fmt.Sprintf("copy%d/%s", k, r.PickS("a", "ibdata", "x.ibd", "log 1", "undo'")+fmt.Sprint(r.N(1000000))), b)
				t := time.Unix(int64(r.N(1<<31)), 0)
				os.Chtimes(q, t, t)
				return q
			}
			jj.Sys = mv(j.Sys)
			jj.Files = nil
			for _, f := range j.Files {
				jj.Files = append(jj.Files, mv(f))
			}
		}
		env := []string{"GOMAXPROCS=" + r.PickS("1", "2", "8", "32"), "GOGC=" + r.PickS("1", "10", "100", "off"), "LANG=" + r.PickS("C", "de_DE.UTF-8", "zh_CN.GBK"), "USER=" + r.PickS("root", "x", "mysql")}
		o := RunOpt{Env: env, Level: r.PickS("fatal", "error", "info")}
		var res *Result
		switch {
		case k > 0 && r.P(25):
			// the contents come through pipes, in pieces
			pj, end := c.pipes(&jj, k)
			res = c.run1(o, pj.args())
			end()
			c.runs = append(c.runs, res)
			c.Count("through_pipes", 1)
		case k > 0 && r.P(25):
			res = c.slowRun(o, jj.args()...)
			c.Count("slow_reader", 1)
		default:
			res = c.Run(o, jj.args()...)
		}
		if res.Watchdog {
			return nil
		}
		if res.CPUOut || res.Crashed() {
			return fmt.Errorf("the run did not end normally: %s", res.Status())
		}
		c.Count("runs", 1)
		if first == nil {
			first = res
			continue
		}
		if !bytes.Equal(first.Out, res.Out) {
			return fmt.Errorf("run %d prints something else than run 1: %s", k+1, diffLine(first.Out, res.Out))
		}
		if first.Exit != res.Exit {
			return fmt.Errorf("run %d exits with %d, run 1 with %d", k+1, res.Exit, first.Exit)
		}
	}
	c.Count("bytes_compared", len(first.Out)*n)
	c.Shape("requests", j.What)
	if len(first.Out) > 0 {
		c.Key = jobKey(j, first.Out)
	}
	return nil
}

type fileState struct {
	Sum        string
	Mode       os.FileMode
	Size       int64
	Mtime      time.Time
	Inode      uint64
	Links      uint64
	Uid, Gid   uint32
	Descriptor string
}

func snapshot(root string) map[string]fileState {
	m := map[string]fileState{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		s := fileState{Mode: fi.Mode(), Mtime: fi.ModTime(), Inode: st.Ino, Links: uint64(st.Nlink), Uid: st.Uid, Gid: st.Gid, Size: fi.Size()}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				fatal(err)
			}
			s.Sum = fmt.Sprintf("%x", sha256.Sum256(b))
		} else if fi.Mode()&os.ModeSymlink != 0 {
			s.Descriptor, _ = os.Readlink(p)
		}
		m[p] = s
		return nil
	})
	return m
}

func inputsCase(c *Case) error {
	r := c.R
	j := genJobs(c, "in", 1, true)[0]
	// neighbours that must stay too
	c.Write("in/other.ibd", r.Bytes(r.N(3000)))
	c.Write("home/my.cnf", []byte("[mysqld]\n"))
	if r.P(15) && len(j.Files) > 0 {
		// an input given as a link
		l := filepath.Join(c.Dir, "in", "link")
		if os.Symlink(j.Files[0], l) == nil {
			j.Files[0] = l
			j.What += ", by link"
		}
	}
	for _, p := range append([]string{j.Sys}, j.Files...) {
		t := time.Unix(1500000000+int64(r.N(100000000)), int64(r.N(1000000000)))
		os.Chtimes(p, t, t)
		if r.P(30) {
			os.Chmod(p, os.FileMode(r.Pick(0444, 0640, 0600)))
		}
	}
	log := filepath.Join(c.Dir, "thelog")
	os.MkdirAll(log, 0755)
	switch r.N(4) {
	case 0:
		// a log directory others use too
		for _, n := range []string{"mysqld.log", "app.log.INFO.20190101-000000.1", "ib_logfile0", "sub/x.log"} {
			c.Write("thelog/"+n, r.Bytes(r.N(200)))
		}
		if r.P(50) {
			for k := r.Range(5, 120); k > 0; k-- {
				c.Write(fmt.Sprintf("thelog/%s.host.user.log.%s.2019%04d-000000.%d", r.PickS("app", "recovery", "mysqld"), r.PickS("INFO", "WARNING", "ERROR"), k, r.N(9999)), r.Bytes(r.N(20)))
			}
		}
		j.What += ", used log directory"
	case 1:
		log = filepath.Join(c.Dir, "in")
		j.What += ", log directory with the inputs"
	}
	before := snapshot(c.Dir)
	delete(before, log)
	res := c.Run(RunOpt{Level: r.PickS("fatal", "error", "info", "debug", "trace"), LogDir: log}, j.args()...)
	if res.Watchdog {
		return nil
	}
	after := snapshot(c.Dir)
	delete(after, log)
	var names []string
	for p := range before {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		a, ok := after[p]
		if !ok {
			return fmt.Errorf("%s is gone after the run", strings.TrimPrefix(p, c.Dir))
		}
		if a != before[p] {
			return fmt.Errorf("%s is changed by the run: %+v, then %+v", strings.TrimPrefix(p, c.Dir), before[p], a)
		}
		delete(after, p)
	}
	nlogs := 0
	for p := range after {
		if filepath.Dir(p) == log && strings.HasPrefix(filepath.Base(p), "db-recovery.") {
			nlogs++
			continue
		}
		return fmt.Errorf("the run leaves %s", strings.TrimPrefix(p, c.Dir))
	}
	c.Count("files_watched", len(before))
	c.Count("log_files", nlogs)
	c.Shape("requests", j.What)
	c.Key = fmt.Sprint(j.What, before[j.Sys].Sum)
	return nil
}
