package main

// Failures of input and output, and other ways to connect them.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

func init() {
	checks["C27"] = &Check{
		Rule: "one request (mostly plain ones) run undisturbed and then several times with a fault: standard output full, not writable, hung up or at a file size limit; the K-th write to it failing (ENOSPC, EIO, EDQUOT, EFBIG); the K-th read or the open of one of the inputs failing (EIO, ESTALE, ENOMEM, EMFILE); reads and writes interrupted by signals (EINTR, has to be invisible); the process killed after K bytes of output. What was written has to be a prefix of the undisturbed output, and when a statement was lost or an input not read to its end the exit code has to be non-zero with a message; faults of single system calls are injected by strace, which tells whether the fault happened; non-trivial: the fault happened and there are statements to lose; distinct by request and fault",
		Run: func(h *Harness) {
			h.Parallel("fault", h.Scale(2200, 40000), faultCase)
		},
	}
}

var straceOnce sync.Once
var straceOK bool

// canInject tells whether strace can run a process here.
func canInject() bool {
	straceOnce.Do(func() {
		out, err := exec.Command("strace", "-f", "-q", "-o", "/dev/null", "-e", "trace=read", "/bin/echo", "ok").Output()
		straceOK = err == nil && string(out) == "ok\n"
	})
	return straceOK
}

// hungUp gives the slave of a pseudo-terminal whose other side is closed.
func hungUp() *os.File {
	// a process which is just being started would hold the other side for a moment
	syscall.ForkLock.RLock()
	defer syscall.ForkLock.RUnlock()
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil
	}
	defer m.Close()
	var n, zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		return nil
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil
	}
	return s
}

func faultCase(c *Case) error {
	r := c.R
	j := genJobs(c, "in", 1, r.P(15))[0]
	ref := c.Run(RunOpt{}, j.args()...)
	if ref.Watchdog {
		return nil
	}
	if ref.CPUOut || ref.Crashed() {
		return fmt.Errorf("the undisturbed run did not end normally: %s", ref.Status())
	}
	lines := bytes.Count(ref.Out, []byte("\n"))
	for k := r.Range(2, 5); k > 0; k-- {
		if err := c.fault(j, ref, lines); err != nil {
			return err
		}
	}
	return nil
}

// fault runs the request with one fault.
func (c *Case) fault(j *JobSpec, ref *Result, lines int) error {
	r := c.R
	kind := r.PickS("full", "read only", "hung up", "size limit", "write", "write", "write", "read", "read", "read", "open", "interrupted", "kill", "kill")
	switch kind {
	case "write", "read", "open", "interrupted":
		if !canInject() {
			c.Count("not_injected_no_strace", 1)
			return nil
		}
	}
	outPath := filepath.Join(c.Dir, fmt.Sprintf("out%d", r.N(1000000)))
	create := func() *os.File {
		f, err := os.Create(outPath)
		if err != nil {
			fatal(err)
		}
		return f
	}
	trace := outPath + ".trace"
	o := RunOpt{}
	// the output is in this file
	toFile := false
	what := kind
	under := func(call, path, inject string) {
		o.Under = []string{"strace", "-f", "-q", "-o", trace, "-e", "trace=" + call, "-e", "inject=" + call + ":" + inject, "-P", path}
		o.Env = append(o.Env, "GOMAXPROCS=1")
		what = fmt.Sprintf("%s of %s: %s", call, filepath.Base(path), inject)
	}
	files := append([]string{j.Sys}, j.Files...)
	file := files[r.N(len(files))]
	if j.Redo && r.P(60) {
		file = j.Files[r.N(len(j.Files))]
	}
	reads := func() int {
		fi, err := os.Stat(file)
		if err != nil {
			return 3
		}
		if j.Redo && file != j.Sys {
			return int(fi.Size())/512 + 1
		}
		return int(fi.Size())/pageSize + 1
	}
	switch kind {
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return nil
		}
		defer f.Close()
		o.Stdout = f
	case "read only":
		create().Close()
		f, err := os.Open(outPath)
		if err != nil {
			fatal(err)
		}
		defer f.Close()
		o.Stdout, toFile = f, true
	case "hung up":
		f := hungUp()
		if f == nil {
			c.Count("no_pty", 1)
			return nil
		}
		defer f.Close()
		o.Stdout = f
	case "size limit":
		f := create()
		defer f.Close()
		o.Stdout, toFile = f, true
		// in blocks of 512 bytes
		n := r.N(len(ref.Out)/512 + 1)
		o.Limit = fmt.Sprintf("-f %d", n)
		what = fmt.Sprintf("size limit of %d bytes", n*512)
	case "write":
		f := create()
		defer f.Close()
		o.Stdout, toFile = f, true
		when := fmt.Sprint(r.Range(1, lines+1))
		if r.P(30) {
			when += "+"
		}
		under("write", outPath, "error="+r.PickS("ENOSPC", "EIO", "EDQUOT", "EFBIG")+":when="+when)
	case "read":
		f := create()
		defer f.Close()
		o.Stdout, toFile = f, true
		when := fmt.Sprint(r.Range(1, reads()))
		if r.P(50) {
			when += "+"
		}
		under("read", file, "error="+r.PickS("EIO", "EIO", "ESTALE", "ENOMEM")+":when="+when)
	case "open":
		f := create()
		defer f.Close()
		o.Stdout, toFile = f, true
		under("openat", file, "error="+r.PickS("EMFILE", "ENFILE", "EACCES", "EIO", "ENOMEM")+":when=1+")
	case "interrupted":
		f := create()
		defer f.Close()
		o.Stdout, toFile = f, true
		if r.P(50) {
			under("read", file, fmt.Sprintf("error=EINTR:when=%d+%d", r.Range(1, reads()), r.Range(2, 9)))
		} else {
			under("write", outPath, fmt.Sprintf("error=EINTR:when=%d+%d", r.Range(1, lines+1), r.Range(2, 9)))
		}
	case "kill":
		return c.killed(j, ref)
	}
	res := c.Run(o, j.args()...)
	if res.Watchdog {
		return nil
	}
	c.Count("faults", 1)
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s: %s (%s); undisturbed: %s, %d lines", what, fmt.Sprintf(f, a...), res.Status(), ref.Status(), lines)
	}
	if res.CPUOut {
		return fail("the run does not end")
	}
	out := ref.Out[:0]
	if toFile {
		b, err := os.ReadFile(outPath)
		if err != nil {
			fatal(err)
		}
		out = b
		// a request that can not be served may fail earlier or later
		unserved := kind == "read" && ref.Exit != 0 && lines == 0 && j.Redo
		if !bytes.HasPrefix(ref.Out, out) && !unserved && !(kind == "read" && j.Ext && cutValues(ref.Out, out)) {
			return fail("what was written is not a beginning of the undisturbed output: %s", diffLine(ref.Out, out))
		}
	}
	happened := lines > 0
	switch kind {
	case "size limit":
		happened = len(out) < len(ref.Out)
		// the signal SIGXFSZ ends the run, which says so
	case "write", "read", "open", "interrupted":
		b, err := os.ReadFile(trace)
		if err != nil {
			// strace itself did not run, as when there is no memory for it
			c.Count("not_traced", 1)
			return nil
		}
		happened = bytes.Contains(b, []byte("(INJECTED)"))
		os.Remove(trace)
		fallthrough
	default:
		if res.Crashed() {
			return fail("the run crashed")
		}
	}
	os.Remove(outPath)
	if kind == "interrupted" {
		if len(out) != len(ref.Out) || res.Exit != ref.Exit {
			return fail("an interrupted call changed the result")
		}
		if happened {
			c.Count("interrupted", 1)
			c.Key = jobKey(j, append([]byte(what), ref.Out...))
		}
		return nil
	}
	if !happened {
		c.Count("fault_did_not_happen", 1)
		if (toFile && len(out) != len(ref.Out)) || res.Exit != ref.Exit {
			return fail("another result though nothing failed")
		}
		return nil
	}
	c.Count("happened_"+strings.Replace(kind, " ", "_", -1), 1)
	c.Shape("faults", kind+", "+strings.SplitN(what[strings.LastIndex(what, ":")+1:], "=", 2)[0])
	if res.Exit == 0 {
		return fail("the failure is not in the exit code, %d of %d bytes were written", len(out), len(ref.Out))
	}
	if len(bytes.TrimSpace(res.Err)) == 0 {
		return fail("the failure is not explained")
	}
	if len(ref.Out) > 0 {
		c.Key = jobKey(j, append([]byte(what), ref.Out...))
	}
	return nil
}

// cutValues tells whether out is a beginning of ref except that values are cut
// off: the rest of an off-page value is on a page which was not read.
func cutValues(ref, out []byte) bool {
	x, y := splitLines(ref), splitLines(out)
	if len(y) > len(x) {
		return false
	}
	for i := range y {
		if bytes.Equal(x[i], y[i]) {
			continue
		}
		p, err1 := ParseStmt(x[i])
		q, err2 := ParseStmt(y[i])
		if err1 != nil || err2 != nil || p.DB != q.DB || p.Table != q.Table || len(p.Vals) != len(q.Vals) {
			return false
		}
		for k := range p.Vals {
			v, w := p.Vals[k], q.Vals[k]
			if v.Type != w.Type || v.Text != w.Text && v.Type == LNum || !bytes.HasPrefix(v.B, w.B) {
				return false
			}
		}
	}
	return true
}

// killed ends the process after some of its output.
func (c *Case) killed(j *JobSpec, ref *Result) error {
	r := c.R
	rd, wr, err := os.Pipe()
	if err != nil {
		fatal(err)
	}
	sig := []os.Signal{syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, nil}[r.N(5)]
	after := r.N(len(ref.Out) + 1)
	delay := time.Duration(r.Pick(0, 0, 100, 1000, 5000)) * time.Microsecond
	var got bytes.Buffer
	done := make(chan bool)
	o := RunOpt{Stdout: wr, Started: func(p *os.Process) {
		wr.Close()
		go func() {
			defer close(done)
			io.CopyN(&got, rd, int64(after))
			time.Sleep(delay)
			if sig == nil {
				// nobody reads on
				rd.Close()
				return
			}
			p.Signal(sig)
			io.Copy(&got, rd)
			rd.Close()
		}()
	}}
	// not repeated by a watchdog: the pipe is used up
	res := c.run1(o, j.args())
	c.runs = append(c.runs, res)
	<-done
	if res.Watchdog {
		return nil
	}
	if res.CPUOut {
		return fmt.Errorf("the run does not end after signal %v", sig)
	}
	if !bytes.HasPrefix(ref.Out, got.Bytes()) {
		return fmt.Errorf("ended by %v after %d bytes, it had printed something else than in full: %s", sig, after, diffLine(ref.Out, got.Bytes()))
	}
	if res.Exit == 0 && sig != nil && got.Len() != len(ref.Out) {
		return fmt.Errorf("it printed %d of %d bytes and exits with 0 after %v", got.Len(), len(ref.Out), sig)
	}
	c.Count("ended_early", 1)
	if got.Len() < len(ref.Out) {
		c.Count("cut_short", 1)
	}
	return nil
}

// pipes puts the files of a request into named pipes; the returned function
// has to be called after the run.
func (c *Case) pipes(j *JobSpec, n int) (*JobSpec, func()) {
	r := c.R
	jj := *j
	var ends []func()
	put := func(p string, k int) string {
		b, err := os.ReadFile(p)
		if err != nil {
			return p
		}
		q := filepath.Join(c.Dir, fmt.Sprintf("pipe%d.%d", n, k))
		if err := syscall.Mkfifo(q, 0600); err != nil {
			return p
		}
		// the parts in which the bytes arrive
		var parts []int
		max := r.Pick(17, 512, 5000, 70000)
		if max < len(b)/300 {
			max = len(b) / 300
		}
		for left := len(b); left > 0; {
			k := r.Range(1, max)
			if k > left {
				k = left
			}
			parts = append(parts, k)
			left -= k
		}
		done := make(chan bool)
		go func() {
			defer close(done)
			f, err := os.OpenFile(q, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer f.Close()
			for _, k := range parts {
				if _, err := f.Write(b[:k]); err != nil {
					return
				}
				b = b[k:]
			}
		}()
		ends = append(ends, func() {
			// when the tool did not open it or did not read it all
			f, err := os.OpenFile(q, os.O_RDONLY|syscall.O_NONBLOCK, 0)
			if err == nil {
				time.Sleep(100 * time.Microsecond)
				for again := true; again; {
					select {
					case <-done:
						again = false
					default:
						io.CopyN(io.Discard, f, 1<<16)
					}
				}
				f.Close()
			}
			os.Remove(q)
		})
		return q
	}
	jj.Sys = put(j.Sys, 0)
	jj.Files = nil
	for k, f := range j.Files {
		jj.Files = append(jj.Files, put(f, k+1))
	}
	return &jj, func() {
		for _, f := range ends {
			f()
		}
	}
}

// slowRun runs a request with a standard output which is read slowly and in
// small pieces, and which may be in non-blocking mode.
func (c *Case) slowRun(o RunOpt, args ...string) *Result {
	r := c.R
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		fatal(err)
	}
	// F_SETPIPE_SZ
	syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), 1031, 4096)
	if r.P(50) {
		syscall.SetNonblock(fds[1], true)
	}
	rd, wr := os.NewFile(uintptr(fds[0]), "pipe"), os.NewFile(uintptr(fds[1]), "pipe")
	size := r.Pick(1, 100, 4096)
	pause := r.Pick(0, 10, 200)
	done := make(chan bool)
	var got bytes.Buffer
	o.Stdout = wr
	o.Started = func(p *os.Process) {
		wr.Close()
		go func() {
			defer close(done)
			b := make([]byte, 65536)
			for i := 0; ; i++ {
				// the first ones are slow
				n := size
				if i > 500 {
					n = len(b)
				} else if pause > 0 && i%10 == 0 {
					time.Sleep(time.Duration(pause) * time.Microsecond)
				}
				k, err := rd.Read(b[:n])
				got.Write(b[:k])
				if err != nil {
					rd.Close()
					return
				}
			}
		}()
	}
	res := c.run1(o, args)
	<-done
	res.Out = got.Bytes()
	c.runs = append(c.runs, res)
	return res
}
