package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	Rule   string
	Assume []string
	Run    func(h *Harness)
	Race   bool // needs the race-detector build
}

var checks = map[string]*Check{}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness PROPERTY")
	}
	prop := os.Args[1]
	ck := checks[prop]
	if ck == nil {
		fatal("no such property: " + prop)
	}
	h := &Harness{Prop: prop, Seed: 1, Tier: "quick", CLI: os.Getenv("VERIF_CLI"), CLIRace: os.Getenv("VERIF_CLI_RACE"),
		Scratch: os.Getenv("VERIF_SCRATCH"), Root: os.Getenv("VERIF_ROOT"), counts: map[string]int{}, shapes: map[string]map[string]bool{},
		nontriv: map[string]bool{}, known: map[string]string{}, knownHit: map[string]bool{}, start: time.Now(), rule: ck.Rule, assume: ck.Assume}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			fatal("VERIF_SEED is not a number")
		}
		h.Seed = n
	}
	if t := os.Getenv("VERIF_TIER"); t != "" {
		h.Tier = t
	}
	if h.Tier != "quick" && h.Tier != "thorough" {
		h.Tier = "quick"
	}
	if h.CLI == "" || h.Scratch == "" || h.Root == "" {
		fatal("run through check.sh")
	}
	os.RemoveAll(filepath.Join(h.Root, "replay", prop))
	h.loadKnown()
	ck.Run(h)
	os.Exit(h.Finish())
}

// loadKnown reads the known findings: lines "known: property=<id> key=<key> <text>".
func (h *Harness) loadKnown() {
	f, err := os.Open(filepath.Join(h.Root, "KNOWN_FINDINGS"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.SplitN(sc.Text(), " ", 4)
		if len(w) == 4 && w[0] == "known:" && w[1] == "property="+h.Prop && strings.HasPrefix(w[2], "key=") {
			h.known[strings.TrimPrefix(w[2], "key=")] = w[3]
		}
	}
}

// Scale gives the number of cases for the tier.
func (h *Harness) Scale(quick, thorough int) int {
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n := 0
		fmt.Sscan(s, &n)
		return n
	}
	if h.Tier == "thorough" {
		return thorough
	}
	return quick
}
