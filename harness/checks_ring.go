package main

// Redo log groups that were written over in a circle, as on every server
// which has logged more than the group holds.

import (
	"encoding/binary"
	"fmt"
	"strings"
)

func init() {
	checks["C26"] = &Check{
		Rule: "a stream of record groups cut into numbered blocks and written in a circle over a group of 1..25 log files, so that only the newest blocks are there, the oldest one begins inside a record, and never-written blocks may follow the newest; files given in order, permuted or some left out; the groups which are wholly in an uninterrupted run of blocks have to be printed exactly and in log order; distinct by layout; non-trivial: the log wrapped and at least two statements are expected",
		Run: func(h *Harness) {
			h.Parallel("ring", h.Scale(8000, 120000), ringCase)
		},
	}
}

func ringCase(c *Case) error {
	r := c.R
	o := &GenOpt{Kinds: []Kind{KInt, KVarMB, KBlob, KVarL1}, MinCols: 2, MaxCols: 5, NullPct: 30, MaxLen: 300, PKMode: 1}
	s := redoTables(c, o, r.Range(1, 3), plainDict(r), false)
	noise := noiseTypes()
	n := r.Pick(4, 10, 30, 80)
	maxB := r.Pick(60, 100, 600, 2500)
	for i := 0; i < n; i++ {
		s.addNoise(c, r.Pick(0, 0, 1, 3), noise)
		s.addUndo(r, s.genUpd(r, s.Tables[r.N(len(s.Tables))], r.Pick(undoUpdExist, undoUpdExist, undoUpdExist, undoInsertRec), maxB))
	}
	// mini-transactions of several records
	if r.P(50) {
		for i, left := 0, 0; i < len(s.Items); i++ {
			if left > 0 && s.Items[i].Typ != mCheckpoint {
				s.Items[i].InGroup = true
				left--
			} else if r.P(40) {
				left = r.N(4)
			} else {
				left = 0
			}
		}
	}
	s.finish()

	var sh LogShape
	v57 := r.P(60)
	first := uint32(r.Range(1, 1<<29))
	switch r.N(8) {
	case 0:
		first = 1
	case 1:
		first = 1<<30 - uint32(r.N(40)) // the block numbers wrap
	}
	lay := layBlocks(r, s.Stream, s.starts(), LogOpt{FirstNo: first, V57: v57}, &sh)
	nb := len(lay.blocks)
	nf := r.Range(1, 4)
	if r.P(8) {
		nf = r.Range(5, 25)
	}
	// blocks a file holds
	per := nb/nf + 2
	if r.P(85) && nb > 1 {
		per = r.Range(1, nb/nf+1)
	}
	cap := per * nf
	// write them in a circle; the group's place 0 has block k with k%cap == shift
	shift := r.N(cap)
	if nb <= cap && r.P(50) {
		shift = 0
	}
	slot := make([]int, cap)
	for i := range slot {
		slot[i] = -1
	}
	for k := 0; k < nb; k++ {
		slot[(k+shift)%cap] = k
	}
	pad := 0
	if r.P(40) {
		// innodb_log_write_ahead_size
		pad = r.N(16)
		for i := 0; i < pad && i < cap-1; i++ {
			slot[(nb+i+shift)%cap] = -1
		}
	}
	var paths []string
	var keep []int
	for f := 0; f < nf; f++ {
		no := uint32(1)
		if k := slot[f*per]; k >= 0 {
			no = binary.BigEndian.Uint32(lay.blocks[k]) &^ (1 << 31)
		}
		b := logHeader(r, v57, no, "")
		for i := f * per; i < (f+1)*per; i++ {
			if slot[i] < 0 {
				b = append(b, make([]byte, 512)...)
			} else {
				b = append(b, lay.blocks[slot[i]]...)
			}
		}
		if r.P(5) {
			b = append(b, r.Bytes(r.N(512))...)
		}
		paths = append(paths, c.Write(fmt.Sprintf("ib_logfile%d", f), b))
		keep = append(keep, f)
	}
	how := "in order"
	if nf > 1 && r.P(30) {
		how = "permuted"
		p := r.Perm(nf)
		for i := range keep {
			keep[i] = p[i]
		}
	}
	if nf > 1 && r.P(25) {
		how += ", one left out"
		keep = keep[1:]
		if r.P(50) {
			keep = append(keep[:0:0], keep...)
		}
	}
	var args []string
	here := make([]bool, nb)
	for _, f := range keep {
		args = append(args, paths[f])
		for i := f * per; i < (f+1)*per; i++ {
			if slot[i] >= 0 {
				here[slot[i]] = true
			}
		}
	}
	// the runs of consecutive blocks that are there, as ranges of the stream
	type span struct{ lo, hi int }
	var runs []span
	for k := 0; k < nb; k++ {
		if !here[k] {
			continue
		}
		if len(runs) > 0 && runs[len(runs)-1].hi == lay.at[k] {
			runs[len(runs)-1].hi = lay.at[k+1]
		} else {
			runs = append(runs, span{lay.at[k], lay.at[k+1]})
		}
	}
	// a group counts when all of it is there; the whole records of one whose end is missing may be printed
	type exp struct {
		u   *UndoUpd
		opt bool
	}
	var want []exp
	must, dropped := 0, 0
	for i := 0; i < len(s.Items); {
		j := i + 1
		for j < len(s.Items) && s.Items[j].InGroup {
			j++
		}
		lo, hi := s.Items[i].Start, s.Items[j-1].End
		for _, it := range s.Items[i:j] {
			if it.U == nil || it.U.Type != undoUpdExist || it.U.inLog() == 0 {
				continue
			}
			for _, sp := range runs {
				if lo >= sp.lo && lo < sp.hi && it.End <= sp.hi {
					want = append(want, exp{it.U, hi > sp.hi})
					if hi <= sp.hi {
						must++
					}
				}
			}
			if len(want) == 0 || want[len(want)-1].u != it.U {
				dropped++
			}
		}
		i = j
	}
	sys := c.Write("ibdata1", s.Dict.Bytes)
	res := c.runRedo(sys, strings.Join(args, ","), "", "", RunOpt{Level: r.PickS("fatal", "fatal", "error")})
	c.Desc("%d blocks of %d log bytes, first number %#x, on %d files of %d blocks, first block at %d, %d unwritten blocks behind the newest, files %s %v, %d runs %v, %d statements expected",
		nb, len(s.Stream), first, nf, per, shift, pad, how, keep, len(runs), runs, must)
	for _, t := range s.Tables {
		c.Desc("%s", t.Describe())
	}
	if res.Watchdog {
		return nil
	}
	if res.CPUOut || res.Crashed() || res.Exit != 0 && (res.Exit != 1 || len(runs) == 1 && runs[0].hi == len(s.Stream)) {
		return fmt.Errorf("the run did not end normally: %s", res.Status())
	}
	sts, err := updateStmts(res.Out)
	if err != nil {
		return err
	}
	k := 0
	for i, st := range sts {
		for {
			if k >= len(want) {
				return fmt.Errorf("statement %d of %d is extra or out of order: %v", i+1, len(sts), st)
			}
			err := matchUpdate(want[k].u, st, zoneUTC)
			k++
			if err == nil {
				break
			}
			if !want[k-1].opt {
				return fmt.Errorf("statement %d: %v; expected: %s", i+1, err, want[k-1].u)
			}
		}
		c.Count("set_values_compared", len(st.Set))
	}
	for ; k < len(want); k++ {
		if !want[k].opt {
			return fmt.Errorf("a statement is missing (%d printed): %s", len(sts), want[k].u)
		}
	}
	c.Count("update_statements_compared", len(sts))
	c.Count("updates_not_in_the_files", dropped)
	c.Count("runs_of_blocks", len(runs))
	c.Shape("layouts", fmt.Sprintf("files=%d per=%d blocks=%d shift=%d pad=%d %s", nf, per, nb, shift, pad, how))
	c.Shape("runs", fmt.Sprint(len(runs), " ", how))
	if nb > cap && must >= 2 {
		c.Key = fmt.Sprint(nf, per, nb, shift, pad, keep, must)
	}
	return nil
}
