package main

import (
	"bytes"
	"fmt"
	"strings"
)

func init() {
	checks["C28"] = &Check{
		Rule: "dictionaries of 5..60 tables on many pages; leaf pages of the dictionary's trees are zeroed, filled with junk, given another type or level, or their record lists are broken, and inner pages are filled with junk; tables all of whose definition is on undamaged pages have to be read exactly from their data files, and all their updates in a redo log have to be printed exactly and in order; other tables have to be refused or, when records are only missing, be read exactly; distinct by damage; non-trivial: a damaged page holds definitions and an untouched table was asked for",
		Run: func(h *Harness) {
			h.Parallel("data", h.Scale(3000, 60000), func(c *Case) error { return dictDamageCase(c, false) })
			h.Parallel("redo", h.Scale(3000, 60000), func(c *Case) error { return dictDamageCase(c, true) })
		},
	}
}

// spoilDict damages pages of the dictionary. It returns the leaf pages that are
// damaged and whether records are only missing, never replaced by others.
func spoilDict(r *Rng, d *Dict, b []byte) (hit map[uint32]bool, loss bool, what []string) {
	hit, loss = map[uint32]bool{}, true
	junk := r.P(50)
	n := r.Pick(1, 1, 2, 4)
	for ; n > 0; n-- {
		no := d.LeafNos[r.N(len(d.LeafNos))]
		p := b[int(no)*pageSize:][:pageSize]
		if hit[no] {
			continue
		}
		hit[no] = true
		root := false
		for _, k := range d.rootPage {
			root = root || k == no
		}
		how := r.PickS("zero", "type", "level", "empty", "cut", "cut", "cut")
		if junk {
			how = r.PickS("junk", "junk", "ff", "next", "next", "first", "nulls")
			loss = false
		}
		if root && (how == "zero" || how == "type") {
			how = "level" // the rest of the tree is reached from its root
		}
		offs := chain(p, false, false)
		switch how {
		case "zero":
			copy(p, make([]byte, pageSize))
		case "type":
			be16(p, 24, r.Pick(0, 2, 10, 0xffff))
		case "level":
			be16(p, 38+26, r.Range(1, 3))
		case "empty":
			be16(p, 99, 116)
		case "cut", "next":
			if len(offs) == 0 {
				continue
			}
			k := r.N(len(offs))
			to := 0
			switch r.N(4) {
			case 1: // back
				to = offs[r.N(k+1)]
			case 2: // out of the page
				to = r.Pick(16384, 16383, 16380, 20000, 40000, 65535)
			case 3:
				to = 116
			}
			if how == "next" && r.P(60) {
				to = r.N(16384)
			}
			be16(p, offs[k]-2, to)
			how += fmt.Sprintf("(%d of %d -> %d)", k, len(offs), to)
		case "first":
			be16(p, 99, r.Pick(0, 1, 50, 99, 20000, 65535, r.N(16384)))
		case "junk":
			copy(p[101:pageSize-8], r.Bytes(pageSize-8-101))
		case "ff":
			for i := 120; i < pageSize-8; i++ {
				p[i] = 0xff
			}
		case "nulls":
			// every field of some records is NULL
			for _, at := range offs {
				if r.P(50) {
					nf := int(p[at-4])<<8 | int(p[at-3])
					nf = nf >> 1 & 0x3ff
					for k := 0; k < nf && at-7-k > 94; k++ {
						p[at-7-k] |= 0x80
					}
				}
			}
		}
		what = append(what, fmt.Sprintf("page %d %s", no, how))
	}
	for _, no := range d.Inner {
		if r.P(20) {
			copy(b[int(no)*pageSize+101:][:pageSize-109], r.Bytes(pageSize-109))
			what = append(what, fmt.Sprintf("inner page %d junk", no))
		}
	}
	return hit, loss, what
}

func dictDamageCase(c *Case, redo bool) error {
	r := c.R
	o := &GenOpt{Kinds: []Kind{KInt, KInt, KVarMB, KDate, KDouble, KVarL1, KBlob}, MinCols: 2, MaxCols: r.Pick(3, 6, 15), NullPct: r.Pick(0, 40), MaxLen: 60, PKMode: r.Pick(1, 1, 3)}
	do := randDictOpt(r)
	do.Per = r.Pick(1, 3, 8, 20)
	c.NoZip = !redo
	c.NoParts = true
	s := redoTables(c, o, r.Pick(5, 12, 30, 60), do, r.P(40))
	d := s.Dict
	b := append([]byte{}, d.Bytes...)
	hit, loss, what := spoilDict(r, d, b)
	sys := c.Write("ibdata1", b)
	c.Desc("%d tables, dictionary %s, %+v; damage: %s", len(s.Tables), d.Shape(), do, strings.Join(what, ", "))
	intact := map[*Table]bool{}
	var in, out []*Table
	for _, t := range s.Tables {
		intact[t] = true
		for no := range d.On[t.ID] {
			if hit[no] {
				intact[t] = false
			}
		}
		if intact[t] {
			in = append(in, t)
		} else {
			out = append(out, t)
		}
	}
	c.Count("tables_intact", len(in))
	c.Count("tables_hit", len(out))
	if len(out) > 0 && len(in) > 0 {
		c.Key = fmt.Sprint(what, d.Shape(), redo)
	}
	for _, w := range what {
		c.Shape("damage", strings.SplitN(strings.SplitN(w, " ", 3)[2], "(", 2)[0])
	}
	opt := RunOpt{Level: r.PickS("fatal", "fatal", "error", "debug")}
	if redo {
		return dictDamageRedo(c, s, intact, sys, opt)
	}
	var ask []*Table
	for i := 0; i < 3 && len(in) > 0; i++ {
		ask = append(ask, in[r.N(len(in))])
	}
	for i := 0; i < 2 && len(out) > 0; i++ {
		ask = append(ask, out[r.N(len(out))])
	}
	for k, t := range ask {
		rows := t.genRows(r, r.Pick(1, 3, 10), 1500)
		f := BuildIbd(r, t, SplitLeaves(r, t, rows, 1000, 0, 0), IbdOpt{})
		res := c.runData(t, sys, c.Write(fmt.Sprintf("t%d.ibd", k), f.Bytes), false, opt)
		if res.Watchdog {
			return nil
		}
		c.Desc("intact=%v: %s", intact[t], t.Describe())
		if res.CPUOut || res.Crashed() {
			return fmt.Errorf("the run did not end normally: %s", res.Status())
		}
		if !intact[t] {
			if res.Exit != 0 {
				if len(bytes.TrimSpace(res.Err)) == 0 || len(res.Out) > 0 {
					return fmt.Errorf("`%s`.`%s`: exit %d, %d bytes of output, message %q", t.DB, t.Name, res.Exit, len(res.Out), cut(res.Err))
				}
				c.Count("hit_tables_refused", 1)
				continue
			}
			c.Count("hit_tables_read", 1)
			if !loss {
				for i, l := range splitLines(res.Out) {
					if _, err := ParseStmt(l); err != nil {
						return fmt.Errorf("line %d is not a statement (%v): %s", i+1, err, cut(l))
					}
				}
				continue
			}
		} else if err := cleanRun(res); err != nil {
			return fmt.Errorf("`%s`.`%s`: %v", t.DB, t.Name, err)
		}
		sts, err := replaceStmts(t, res.Out)
		if err != nil {
			return err
		}
		if err := c.compareRows(t, f.PrintRows(), sts, zoneUTC, nil); err != nil {
			return fmt.Errorf("`%s`.`%s`: %v", t.DB, t.Name, err)
		}
		if intact[t] {
			c.Count("intact_tables_read", 1)
		}
	}
	return nil
}

func dictDamageRedo(c *Case, s *RedoScenario, intact map[*Table]bool, sys string, opt RunOpt) error {
	r := c.R
	for k := r.Pick(3, 10, 40); k > 0; k-- {
		s.addNoise(c, r.N(2), noiseTypes())
		s.addUndo(r, s.genUpd(r, s.Tables[r.N(len(s.Tables))], undoUpdExist, 400))
	}
	s.finish()
	files, _ := BuildLog(r, s.Stream, s.starts(), randLogOpt(r))
	db, name := "", ""
	if r.P(30) {
		t := s.Tables[r.N(len(s.Tables))]
		db, name = t.DB, t.Name
	}
	res := c.runRedo(sys, c.writeLogs(files), db, name, opt)
	if res.Watchdog {
		return nil
	}
	c.Desc("redo log of %d updates, filter %q.%q", len(s.Updates(nil)), db, name)
	if res.CPUOut || res.Crashed() {
		return fmt.Errorf("the run did not end normally: %s", res.Status())
	}
	if res.Exit != 0 && len(bytes.TrimSpace(res.Err)) == 0 {
		return fmt.Errorf("exit %d without a message", res.Exit)
	}
	sts, err := updateStmts(res.Out)
	if err != nil {
		return err
	}
	names := map[string]bool{}
	for t, ok := range intact {
		if ok {
			names[t.DB+"\x00"+t.SQLName()] = true
		}
	}
	var got []*Stmt
	for _, st := range sts {
		if names[st.DB+"\x00"+st.Table] {
			got = append(got, st)
		}
	}
	c.Count("statements_of_hit_tables", len(sts)-len(got))
	want := s.Updates(func(it *RedoItem) bool {
		return intact[it.U.T] && (db == "" || it.U.T.DB == db && it.U.T.Name == name)
	})
	if err := c.compareUpdates(want, got, zoneUTC); err != nil {
		return err
	}
	return nil
}
