// The in-process driver: it is overlaid into /repo as ./cmd/verifinproc (never
// written there) and uses the exported packages of the tool directly.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"sync"
	"syscall"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/logs"
	"github.com/zbdba/db-recovery/recovery/redo"
)

func main() {
	if len(os.Args) < 2 {
		os.Exit(3)
	}
	mode, args := os.Args[1], os.Args[2:]
	// the flag package is glog's only
	os.Args = os.Args[:1]
	flag.Parse()
	switch mode {
	case "logs":
		logMode(args)
	case "multi":
		multiMode(args)
	case "codec":
		codecMode(args)
	default:
		os.Exit(3)
	}
}

// logMode LEVEL DIR: one tagged message by every logging function.
func logMode(a []string) {
	if err := logs.InitLogs(a[1], a[0]); err != nil {
		fmt.Println("init:", err)
		os.Exit(4)
	}
	tag := a[2]
	n, err := strconv.Atoi(a[3])
	if err != nil {
		os.Exit(3)
	}
	for i := 0; i < n; i++ {
		logs.Trace("<"+tag, "trace", i, ">")
		logs.Debug("<"+tag, "debug", i, ">")
		logs.Debugf("<%s debugf %d >", tag, i)
		logs.Info("<"+tag, "info", i, ">")
		logs.Infof("<%s infof %d >", tag, i)
		logs.Warn("<"+tag, "warn", i, ">")
		logs.Warnf("<%s warnf %d >", tag, i)
		logs.Error("<"+tag, "error", i, ">")
		logs.Errorf("<%s errorf %d >", tag, i)
	}
	logs.FlushLogs()
	if len(a) > 4 {
		switch a[4] {
		case "fatal":
			logs.Fatal("<"+tag, "fatal", 0, ">")
		case "fatalf":
			logs.Fatalf("<%s fatalf %d >", tag, 0)
		}
	}
	fmt.Println("end")
}

// Job is one parser's work.
type Job struct {
	Redo      bool
	Sys       string
	Files     []string
	DB, Table string
	Recover   bool
}

// Plan of multiMode.
type Plan struct {
	LogDir, Level string
	Jobs          []Job
	Parallel      bool
	Rounds        int
	Shared        bool // jobs on the same dictionary use one parser, one after another
	OutDir        string
}

// multiMode runs the jobs; with Parallel all at once on their own parsers
// (output mixed on stdout), otherwise one after another with the output of
// each in a file of its own.
func multiMode(a []string) {
	js, err := os.ReadFile(a[0])
	if err != nil {
		os.Exit(3)
	}
	var p Plan
	if json.Unmarshal(js, &p) != nil {
		os.Exit(3)
	}
	if err := logs.InitLogs(p.LogDir, p.Level); err != nil {
		os.Exit(3)
	}
	if p.Parallel {
		for r := 0; r < p.Rounds; r++ {
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for i := range p.Jobs {
				wg.Add(1)
				go func(j Job) {
					defer wg.Done()
					<-gate
					if err := runJob(j, nil); err != nil {
						fmt.Fprintln(os.Stderr, "job error:", err)
						os.Exit(5)
					}
				}(p.Jobs[i])
			}
			close(gate)
			wg.Wait()
		}
		logs.FlushLogs()
		return
	}
	shared := map[string]*ibdata.Parse{}
	for i, j := range p.Jobs {
		f, err := os.Create(fmt.Sprintf("%s/out%d", p.OutDir, i))
		if err != nil {
			os.Exit(3)
		}
		// what this job prints goes to its file
		if err := syscall.Dup2(int(f.Fd()), 1); err != nil {
			os.Exit(3)
		}
		var ip *ibdata.Parse
		if p.Shared && !j.Redo {
			ip = shared[j.Sys]
			if ip == nil {
				ip = ibdata.NewParse()
				if err := ip.ParseDictPage(j.Sys); err != nil {
					fmt.Fprintln(os.Stderr, "job error:", err)
					os.Exit(5)
				}
				shared[j.Sys] = ip
			}
		}
		if err := runJob(j, ip); err != nil {
			fmt.Fprintln(os.Stderr, "job error:", err)
			os.Exit(5)
		}
		f.Close()
	}
	logs.FlushLogs()
}

func runJob(j Job, ip *ibdata.Parse) error {
	if j.Redo {
		p := redo.NewParse(j.Table, j.DB)
		if err := p.ParseDictPage(j.Sys); err != nil {
			return err
		}
		return p.ParseRedoLogs(j.Files)
	}
	if ip == nil {
		ip = ibdata.NewParse()
		if err := ip.ParseDictPage(j.Sys); err != nil {
			return err
		}
	}
	return ip.ParseDataPage(j.Files[0], j.DB, j.Table, j.Recover)
}
