package main

// C09 statement structure, C10 dictionary, C11 column order, C12 failures,
// C13 damaged pages, C19 damaged logs.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C09"] = &Check{
		Rule: "tables of every column type with odd column names (keywords, spaces, quotes, backticks, semicolons, non-ASCII) and rows full of SQL metacharacters, control characters and look-alikes of SQL, printed as REPLACE (chain and free list) and as UPDATE (redo); every output line has to parse, as MySQL reads it, as exactly one statement of the right table with one value per column, and the number of lines is the number of records; distinct by table and output size; non-trivial: at least one line holding a metacharacter in a value",
		Run: func(h *Harness) {
			h.Parallel("stmt", h.Scale(10000, 150000), structureCase)
		},
	}
	checks["C10"] = &Check{
		Rule: "dictionaries of 1..150 tables with up to 60 columns and 4 indexes each, REDUNDANT B-trees of 1..3 levels, leaf pages in any order, shuffled heaps, doublewrite copies and stale copies, foreign pages with the numbers or contents of dictionary pages, 5.6 and 5.7 SYS_INDEXES formats, relocated roots; up to 4 tables of each are read through it from data files and all values compared; distinct by tree shape; non-trivial: some tree has more than one leaf",
		Run: func(h *Harness) {
			h.Parallel("dict", h.Scale(5000, 60000), dictCase)
		},
	}
	checks["C11"] = &Check{
		Rule: "tables whose clustered key is any subset of columns in any order (PRIMARY, promoted unique, none) with secondary indexes around it; every value of every column is compared at its position in the definition; distinct by column types, key and format; non-trivial: the key is not a prefix of the columns in order, or there is no key",
		Run: func(h *Harness) {
			h.Parallel("order", h.Scale(9000, 120000), orderCase)
		},
	}
	checks["C12"] = &Check{
		Rule: "requests that cannot be served: absent tables (similar names, other databases), missing, empty, garbage, truncated and directory files in each place, short redo headers, missing flags, and dictionaries with random damage; each has to end with a message and a non-zero exit and print no SQL (damaged dictionaries: no crash and no hang); distinct by kind and shape; all cases are non-trivial",
		Run: func(h *Harness) {
			h.Parallel("fail", h.Scale(12000, 150000), failCase)
		},
	}
	checks["C13"] = &Check{
		Rule: "tablespaces of 2..30 leaf pages, a random subset damaged (garbage, zeroed, torn, header fields, next pointers, cycles, lengths, directory, page type); the rows of the intact pages and the rows before a broken next pointer have to be printed completely, in order and exactly, no crash, no hang, only well-formed lines; distinct by damage list; non-trivial: at least one damaged and one intact page with rows",
		Run: func(h *Harness) {
			h.Parallel("damage", h.Scale(9000, 120000), damageCase)
		},
	}
	checks["C19"] = &Check{
		Rule: "redo logs truncated at every kind of place (inside a record, a block, a header, between files) or overwritten with garbage from a point on or at a point; the statements of the records before the damage have to be printed completely and first, after truncation nothing else, no crash, no hang; distinct by damage and stream; non-trivial: at least one sentinel before and one behind the damage",
		Run: func(h *Harness) {
			h.Parallel("logdamage", h.Scale(12000, 150000), logDamageCase)
		},
	}
}

// hostile rows: replace text values by metacharacter soup.
func hostileVals(r *Rng, t *Table, rows []*Row) {
	for _, row := range rows {
		for i, c := range t.Cols {
			v := &row.Vals[i]
			if v.Null {
				continue
			}
			switch c.Kind {
			case KCharL1, KCharMB, KVarL1, KVarMB, KText, KBlob, KVarbinary, KBinary:
				if len(v.B) == 0 || r.P(30) {
					continue
				}
				b := make([]byte, 0, len(v.B))
				for len(b) < len(v.B) {
					b = append(b, r.PickS("'", "\\", "\"", "\n", "\x00", "\x1a", "\r", ",", ")", "(", ";", "`", " ", "\t", "a", "%", "_", "0", "n", "Z", "N", "\\'", "'');", "--", "\\\\'", "\n'")...)
				}
				b = b[:len(v.B)]
				if c.Kind == KCharL1 || c.Kind == KCharMB {
					// a CHAR value does not end in a space
					for i := len(b) - 1; i >= 0 && b[i] == ' '; i-- {
						b[i] = ';'
					}
				}
				v.B = b
			}
		}
	}
}

func structureCase(c *Case) error {
	r := c.R
	o := &GenOpt{MinCols: 2, MaxCols: r.Pick(3, 8, 20), NullPct: r.Pick(0, 40), MaxLen: r.Pick(40, 300, 2000), OddNames: true, NoSecs: r.P(60), PKMode: r.Pick(1, 1, 3)}
	if r.P(60) {
		o.Kinds = []Kind{KVarL1, KVarMB, KCharL1, KCharMB, KText, KBlob, KVarbinary, KBinary, KInt}
	}
	soup := func(out []byte) int {
		n := 0
		for _, l := range splitLines(out) {
			if bytes.ContainsAny(l, "\\\"") {
				n++
			}
		}
		return n
	}
	if r.P(35) {
		// redo
		s := redoTables(c, o, r.Range(1, 2), plainDict(r), false)
		for i := 0; i < r.Pick(1, 5, 20); i++ {
			t := s.Tables[r.N(len(s.Tables))]
			u := genUpd(r, t, undoUpdExist, 1500)
			hostileVals(r, t, []*Row{u.Row})
			for j, k := range u.Cols {
				row := &Row{Vals: make([]Value, len(t.Cols))}
				for x := range row.Vals {
					row.Vals[x].Null = true
				}
				row.Vals[k] = u.Old[j]
				hostileVals(r, t, []*Row{row})
				u.Old[j] = row.Vals[k]
			}
			BuildUndo(r, u)
			s.addUndo(r, u)
		}
		s.finish()
		files, sh := BuildLog(r, s.Stream, s.starts(), randLogOpt(r))
		s.describe(c, sh)
		res := c.runRedo(c.Write("ibdata1", s.Dict.Bytes), c.writeLogs(files), "", "", RunOpt{})
		if res.Watchdog {
			return nil
		}
		if err := cleanRun(res); err != nil {
			return err
		}
		sts, err := updateStmts(res.Out)
		if err != nil {
			return err
		}
		want := s.Updates(nil)
		if len(sts) != len(want) {
			return fmt.Errorf("%d lines printed for %d undo records", len(sts), len(want))
		}
		for i, st := range sts {
			if !sameTarget(want[i], st) {
				return fmt.Errorf("line %d does not have the table and columns of its record (%s): %v", i+1, want[i], st)
			}
			if want[i].T.HasPK() {
				keys := map[string]bool{}
				for _, k := range want[i].T.PK {
					keys[want[i].T.Cols[k].Name] = true
				}
				if len(st.Where) != len(keys) {
					return fmt.Errorf("line %d has %d conditions for a key of %d columns", i+1, len(st.Where), len(keys))
				}
				for _, a := range st.Where {
					if !keys[a.Col] {
						return fmt.Errorf("line %d: condition on %q, which is not a key column", i+1, a.Col)
					}
				}
			}
		}
		c.Count("update_lines", len(sts))
		if n := soup(res.Out); n > 0 {
			c.Count("lines_with_escapes", n)
			c.Key = fmt.Sprint("redo", s.Tables[0].Describe(), len(res.Out))
		}
		return nil
	}
	t := fitTable(r, o)
	c.nameTable(t)
	d, _ := c.schema(t, plainDict(r), r.N(2))
	rows := t.genRows(r, r.Pick(1, 5, 20, 60), r.Pick(300, 2000, 6000))
	hostileVals(r, t, rows)
	recover := r.P(40)
	free := 0
	if recover {
		free = r.Pick(50, 100)
	}
	leaves := SplitLeaves(r, t, rows, r.Pick(3, 1000), 10, free)
	io := IbdOpt{Shuffle: r.P(50)}
	if r.P(50) {
		io = randIbdOpt(r)
	}
	f := BuildIbd(r, t, leaves, io)
	want := f.PrintRows()
	if recover {
		want = f.FreeRows()
	}
	res := c.runData(t, c.Write("ibdata1", d.Bytes), c.Write("t.ibd", f.Bytes), recover, RunOpt{})
	c.Desc("%s; %d records expected, recover=%v", t.Describe(), len(want), recover)
	if res.Watchdog {
		return nil
	}
	if err := cleanRun(res); err != nil {
		return err
	}
	sts, err := replaceStmts(t, res.Out)
	if err != nil {
		return err
	}
	if len(sts) != len(want) {
		return fmt.Errorf("%d lines printed for %d records", len(sts), len(want))
	}
	if len(res.Out) > 0 && res.Out[len(res.Out)-1] != '\n' {
		return fmt.Errorf("the last line is not terminated")
	}
	c.Count("replace_lines", len(sts))
	if n := soup(res.Out); n > 0 {
		c.Count("lines_with_escapes", n)
		c.Key = fmt.Sprint("data", t.Describe(), len(res.Out))
	}
	return nil
}

func dictCase(c *Case) error {
	r := c.R
	var ts []*Table
	used := map[string]bool{}
	n := r.Pick(1, 2, 5, 15, 40)
	if r.P(5) {
		n = 150
	}
	for i := 0; i < n; i++ {
		o := &GenOpt{Kinds: []Kind{KInt, KVarMB, KDate, KDouble, KVarL1, KBlob}, MinCols: 1, MaxCols: r.Pick(2, 6, 20, 60), NullPct: r.Pick(0, 40), MaxLen: 60, PKMode: 0}
		if i == 0 && r.P(8) {
			o.wide(r)
		}
		t := fitTable(r, o)
		c.nameTable(t)
		if len(ts) > 0 && r.P(40) {
			c.relatedName(ts[r.N(len(ts))], t)
		}
		for used[t.DB+"/"+t.Name] {
			t.Name += fmt.Sprint(i)
		}
		used[t.DB+"/"+t.Name] = true
		ts = append(ts, t)
	}
	NewSchema(r, ts)
	do := randDictOpt(r)
	picks := r.Perm(n)
	if r.P(20) {
		// a dropped table is still there as long as nothing is purged
		do.Dropped = ts[picks[0]]
		c.Desc("`%s`.`%s` was dropped", do.Dropped.DB, do.Dropped.Name)
		c.Count("dropped_tables_resolved", 1)
	} else if n > 4 && r.P(20) {
		do.Dropped = ts[picks[4]]
		do.Purged = r.N(len(do.Dropped.Cols) + 3)
		c.Desc("`%s`.`%s` was dropped, %d rows are purged", do.Dropped.DB, do.Dropped.Name, do.Purged)
	}
	if c.OddPct > 0 && len(picks) > 5 && r.P(60) {
		// a name with letters which MySQL has codes of two characters for
		code := string("01234ghijkxyz@"[r.N(14)]) + string("ghyzGZ05@a"[r.N(10)])
		ts[picks[5]].Stored = r.PickS("", "x", "caf") + "@" + code + r.PickS("", "", "r", "e_x")
		c.Count("neighbours_with_two_letter_codes", 1)
	}
	d := BuildDict(r, ts, do)
	sys := c.Write("ibdata1", d.Bytes)
	do.Dropped = nil
	c.Desc("%d tables, %d pages, dictionary %s, %+v", n, d.NPages, d.Shape(), do)
	if len(picks) > 4 {
		picks = picks[:4]
	}
	for _, k := range picks {
		t := ts[k]
		rows := t.genRows(r, r.Pick(1, 3, 10), 1500)
		f := BuildIbd(r, t, SplitLeaves(r, t, rows, 1000, 0, 0), IbdOpt{})
		res := c.runData(t, sys, c.Write(fmt.Sprintf("t%d.ibd", k), f.Bytes), false, RunOpt{})
		if res.Watchdog {
			return nil
		}
		c.Desc("%s", t.Describe())
		if err := cleanRun(res); err != nil {
			return err
		}
		sts, err := replaceStmts(t, res.Out)
		if err != nil {
			return err
		}
		if err := c.compareRows(t, f.PrintRows(), sts, zoneUTC, nil); err != nil {
			return fmt.Errorf("`%s`.`%s`: %v", t.DB, t.Name, err)
		}
		c.Count("tables_resolved", 1)
	}
	c.Shape("tree_shapes", d.Shape())
	c.Count("doublewrite_copies", d.Dblwr)
	c.Count("pages_of_other_indexes", d.Foreign)
	c.Count("rows_of_the_past", d.Old)
	if c.OddPct > 0 {
		for _, k := range picks {
			c.seeName(ts[k])
		}
	}
	if d.Leaves["SYS_TABLES"]+d.Leaves["SYS_COLUMNS"]+d.Leaves["SYS_INDEXES"]+d.Leaves["SYS_FIELDS"] > 4 {
		c.Key = d.Shape() + fmt.Sprintf("%+v", do)
	}
	return nil
}

func orderCase(c *Case) error {
	r := c.R
	o := &GenOpt{MinCols: 1, MaxCols: r.Pick(2, 4, 8, 25), NullPct: r.Pick(0, 40, 90), MaxLen: r.Pick(30, 300), NoSecs: r.P(30)}
	if r.P(50) {
		// columns of one type: a swapped value is still a plausible one
		o.Kinds = []Kind{allKinds[r.N(len(allKinds))]}
		if r.P(50) {
			o.Kinds = []Kind{r2kind(r), r2kind(r)}
		}
	}
	if r.P(5) {
		o.wide(r)
	}
	t := fitTable(r, o)
	c.nameTable(t)
	d, _ := c.schema(t, randOrPlain(r), r.N(4))
	rows := t.genRows(r, r.Pick(1, 4, 15), 5000)
	recover := r.P(30)
	free := 0
	if recover {
		free = 100
	}
	leaves := SplitLeaves(r, t, rows, r.Pick(3, 1000), 10, free)
	f := BuildIbd(r, t, leaves, IbdOpt{Shuffle: r.P(50), SecPages: r.P(30)})
	want := f.PrintRows()
	if recover {
		want = f.FreeRows()
	}
	zone, loc := c.zone()
	res := c.runData(t, c.Write("ibdata1", d.Bytes), c.Write("t.ibd", f.Bytes), recover, RunOpt{TZ: zone})
	c.Desc("%s; %d records expected, recover=%v", t.Describe(), len(want), recover)
	if res.Watchdog {
		return nil
	}
	if err := cleanRun(res); err != nil {
		return err
	}
	sts, err := replaceStmts(t, res.Out)
	if err != nil {
		return err
	}
	if err := c.compareRows(t, want, sts, loc, nil); err != nil {
		return err
	}
	prefix := len(t.PK) > 0
	for i, k := range t.PK {
		if k != i {
			prefix = false
		}
	}
	c.Shape("keys", fmt.Sprintf("%d columns, key %v", len(t.Cols), t.PK))
	if t.hasPrefix() && len(want) > 0 {
		c.Count("tables_with_key_prefixes", 1)
	}
	if !prefix && len(want) > 0 {
		var l []string
		for _, col := range t.Cols {
			l = append(l, col.Decl())
		}
		c.Key = strings.Join(l, ",") + fmt.Sprint(t.PK, t.PKName, t.Redundant)
	}
	return nil
}

func r2kind(r *Rng) Kind { return allKinds[r.N(len(allKinds))] }

func randOrPlain(r *Rng) DictOpt {
	if r.P(30) {
		return randDictOpt(r)
	}
	return plainDict(r)
}

func hasSQL(out []byte) string {
	for _, l := range splitLines(out) {
		low := strings.ToLower(string(l))
		if strings.Contains(low, "replace into") || strings.HasPrefix(low, "update ") {
			return cut(l)
		}
	}
	return ""
}

// garbage overwrites parts of a buffer.
func garbage(r *Rng, b []byte, n int) string {
	var what []string
	for i := 0; i < n; i++ {
		off := r.N(len(b))
		if r.P(40) {
			// the structure of pages and blocks rather than their contents
			k := off/16384*16384 + r.Pick(r.N(38), 38+r.N(56), 94+r.N(40), 120+r.N(400), 16376+r.N(8))
			if r.P(30) {
				k = off/512*512 + r.N(14)
			}
			if k < len(b) {
				off = k
			}
		}
		l := r.Pick(1, 1, 2, 4, 16, 200, 5000)
		if off+l > len(b) {
			l = len(b) - off
		}
		switch r.N(4) {
		case 0:
			b[off] ^= 1 << uint(r.N(8))
			l = 1
		case 1:
			for k := off; k < off+l; k++ {
				b[k] = 0
			}
		case 2:
			for k := off; k < off+l; k++ {
				b[k] = 0xff
			}
		default:
			copy(b[off:off+l], r.Bytes(l))
		}
		what = append(what, fmt.Sprintf("%d+%d", off, l))
	}
	return strings.Join(what, ",")
}

func failCase(c *Case) error {
	r := c.R
	t := fitTable(r, &GenOpt{Kinds: simpleKinds, MinCols: 2, MaxCols: 6, NullPct: 30, MaxLen: 60, PKMode: 1})
	c.nameTable(t)
	do := randOrPlain(r)
	if r.P(10) {
		do.Dropped = t
	} else if !t.Redundant && r.P(5) {
		t.Zip = r.Range(1, 5)
	}
	if do.Dropped != nil {
		// how many rows the purge has done; never all of them
		do.Purged = r.Range(1, len(t.Cols)+len(t.PK))
	}
	d, others := c.schema(t, do, r.N(4))
	leaves := SplitLeaves(r, t, t.genRows(r, r.Range(1, 10), 500), 1000, 0, 0)
	f := BuildIbd(r, t, leaves, IbdOpt{})
	s := &RedoScenario{Tables: []*Table{t}, Dict: d}
	for i := 0; i < r.Range(1, 4); i++ {
		if len(t.nonKey()) > 0 {
			s.addUndo(r, s.genUpd(r, t, undoUpdExist, 300))
		}
	}
	s.finish()
	logs, _ := BuildLog(r, s.Stream, s.starts(), LogOpt{Files: r.Pick(1, 2)})
	sys := c.Write("ibdata1", d.Bytes)
	data := c.Write("t.ibd", f.Bytes)
	logFiles := strings.Split(c.writeLogs(logs), ",")
	kind := r.PickS("table", "database", "both", "sys-missing", "sys-empty", "sys-garbage", "sys-truncated", "sys-directory", "sys-small",
		"data-missing", "data-directory", "redo-missing", "redo-short", "redo-second-missing", "redo-directory", "flags", "dict-damage", "dict-damage", "sys-is-data", "sys-rows-only", "sys-tree-lost", "operation", "pages-unreadable")
	if do.Dropped != nil {
		kind = "partly-purged"
	} else if t.Zip != 0 {
		kind = "compressed"
	}
	redo := r.P(40)
	recover := r.P(40)
	db, name := t.DB, t.Name
	exists := func(db, n string) bool {
		for _, u := range append(others, t) {
			if u.DB == db && u.Name == n {
				return true
			}
		}
		return false
	}
	lenient := false
	missing := func(name string) string {
		if r.P(30) {
			return filepath.Join(c.Dir, "no", "such", name)
		}
		return filepath.Join(c.Dir, name+".absent")
	}
	switch kind {
	case "table":
		redo = false
		name = r.PickS(t.Name+"x", t.Name+"1", t.Name+" ", "x"+t.Name, "nosuch", "", t.Name[:len(t.Name)-1], t.DB, t.DB+"/"+t.Name, "SYS_NOTHING", "%", t.Name+"\x01")
	case "database":
		redo = false
		db = r.PickS(t.DB+"x", t.DB+"1", "x"+t.DB, "nosuch", "", t.DB[:len(t.DB)-1], t.Name, "%", t.DB+"/")
	case "both":
		redo = false
		db, name = name+"_", db+"_"
	case "partly-purged":
		redo = false
	case "compressed":
		redo = false
		data = c.Write("t.ibd", zipPages(f.Bytes, 512<<t.Zip))
	case "pages-unreadable":
		redo = false
		how := r.Pick(14, 15, 16)
		c.Desc("page type %d", how)
		data = c.Write("t.ibd", hidePages(r, f.Bytes, how))
	case "sys-missing":
		sys = missing("ibdata1")
	case "sys-empty":
		sys = c.Write("ibdata1", nil)
	case "sys-garbage":
		// text or random bytes; never a page number 7 followed by plausible pages
		b := r.Bytes(r.Pick(1, 100, 16383, 16384, 16385, 200000))
		if r.P(30) {
			b = bytes.Repeat([]byte("not a tablespace\n"), len(b)/10+1)
		}
		sys = c.Write("ibdata1", b)
	case "sys-truncated":
		// the dictionary header or root pages are missing
		n := r.Pick(1, 100, 16384, 7*16384, 7*16384+100, 8*16384-1, r.N(8*16384))
		sys = c.Write("ibdata1", d.Bytes[:n])
	case "sys-small":
		// cut anywhere: either an error or an answer from what is there
		sys = c.Write("ibdata1", d.Bytes[:r.N(len(d.Bytes))])
		lenient = true
	case "sys-directory":
		sys = filepath.Join(c.Dir, "d.d")
		os.Mkdir(sys, 0755)
	case "sys-is-data":
		sys = data
	case "sys-rows-only":
		// without page 7 there is no dictionary
		b := append([]byte{}, d.Bytes...)
		for off := 0; off+16384 <= len(b); off += 16384 {
			if off == 7*16384 || bytes.Equal(b[off+4:off+8], []byte{0, 0, 0, 7}) {
				copy(b[off:off+16384], make([]byte, 16384))
			}
		}
		sys = c.Write("ibdata1", b)
	case "sys-tree-lost":
		// every page of one of the four trees is gone, copies included
		b := append([]byte{}, d.Bytes...)
		id := byte(r.Range(1, 4))
		how := r.N(3)
		for off := 0; off+16384 <= len(b); off += 16384 {
			p := b[off : off+16384]
			if !bytes.Equal(p[24:26], []byte{0x45, 0xbf}) || !bytes.Equal(p[66:74], []byte{0, 0, 0, 0, 0, 0, 0, id}) {
				continue
			}
			switch how {
			case 0:
				copy(p, make([]byte, 16384))
			case 1:
				copy(p[24:26], r.PickS("\x00\x00", "\x00\x02", "\x00\x0a"))
			default:
				copy(p, r.Bytes(16384))
				p[24] = 0
			}
		}
		c.Desc("tree %d", id)
		sys = c.Write("ibdata1", b)
	case "operation":
		redo = false
	case "data-missing":
		redo = false
		data = missing("t.ibd")
	case "data-directory":
		redo = false
		data = filepath.Join(c.Dir, "e.d")
		os.Mkdir(data, 0755)
	case "redo-missing":
		redo = true
		logFiles[0] = missing("ib_logfile0")
	case "redo-short":
		redo = true
		k := r.N(len(logFiles))
		logFiles[k] = c.Write("short", logs[k][:r.Pick(0, 1, 100, 511, 512, 513, 1000, 1535, 1536, 2047, r.N(2048))])
	case "redo-second-missing":
		redo = true
		logFiles = append(logFiles, missing("ib_logfile9"))
		if r.P(30) {
			p := r.Perm(len(logFiles))
			q := append([]string{}, logFiles...)
			for i := range p {
				q[i] = logFiles[p[i]]
			}
			logFiles = q
		}
	case "redo-directory":
		redo = true
		k := r.N(len(logFiles))
		logFiles[k] = filepath.Join(c.Dir, "f.d")
		os.Mkdir(logFiles[k], 0755)
	case "dict-damage":
		b := append([]byte{}, d.Bytes...)
		what := ""
		if r.P(50) {
			// inside the dictionary pages
			for i := 0; i < r.Range(1, 5); i++ {
				no := int(d.LeafNos[r.N(len(d.LeafNos))])
				if r.P(10) {
					no = 7
				}
				end := 16384
				if r.P(60) {
					end = 3000
				}
				what += fmt.Sprintf(" page %d:", no) + garbage(r, b[no*16384:no*16384+end], r.Range(1, 3))
			}
		} else {
			what = garbage(r, b, r.Range(1, 30))
		}
		c.Desc("damage %s", what)
		sys = c.Write("ibdata1", b)
		lenient = true
	}
	if !lenient && kind != "flags" && (kind == "table" || kind == "database" || kind == "both") && exists(db, name) {
		c.Desc("%s.%s exists", db, name)
		return nil
	}
	var args []string
	if redo {
		args = []string{"recovery", "FromRedoFile", "--SysDataFile=" + sys, "--RedoFile=" + strings.Join(logFiles, ",")}
		if r.P(30) {
			args = append(args, "--DBName="+db, "--TableName="+name)
		}
	} else {
		args = []string{"recovery", "FromDataFile", "--SysDataFile=" + sys, "--TableDataFile=" + data, "--DBName=" + db, "--TableName=" + name}
		if recover {
			args = append(args, "--OpType=RecoveryData")
		}
		if kind == "operation" {
			op := r.PickS("RecoveryStruct", "recoverydata", "RECOVERYDATA", "Recovery", "RecoverData", "RecoveryDatas", "Print", "printdata", "PrintDat", "PrintData ", "RecoveryData,PrintData", "PrintStruct", "0", "-")
			c.Desc("OpType %q", op)
			args = append(args, "--OpType="+op)
		}
	}
	if kind == "flags" {
		k := 2 + r.N(2)
		if !redo {
			k = 2 + r.N(4)
		}
		c.Desc("without %s", strings.Split(args[k], "=")[0])
		args = append(append([]string{}, args[:k]...), args[k+1:]...)
	}
	res := c.Run(RunOpt{Level: r.PickS("fatal", "fatal", "error", "debug")}, args...)
	c.Desc("%s, redo=%v recover=%v, asked for %q.%q, dictionary %s", kind, redo, recover, db, name, d.Shape())
	if res.Watchdog {
		return nil
	}
	c.Shape("kinds", fmt.Sprintf("%s redo=%v", kind, redo))
	if kind != "flags" && (res.CPUOut || res.Crashed()) {
		return fmt.Errorf("%s: %s", kind, res.Status())
	}
	if res.CPUOut || res.Signal != 0 {
		return fmt.Errorf("%s: %s", kind, res.Status())
	}
	if lenient {
		if res.Exit != 0 {
			if len(bytes.TrimSpace(res.Err)) == 0 {
				return fmt.Errorf("%s: exit %d without a message", kind, res.Exit)
			}
			// the updates of tables whose definition is intact are printed
			if l := hasSQL(res.Out); l != "" && !redo {
				return fmt.Errorf("%s: exit %d, but SQL is printed: %s", kind, res.Exit, l)
			}
			c.Count("damaged_refused", 1)
		} else {
			c.Count("damaged_answered", 1)
		}
	} else {
		if res.Exit == 0 {
			return fmt.Errorf("%s: exit 0 for a request which can not be served; %d bytes printed", kind, len(res.Out))
		}
		if len(bytes.TrimSpace(res.Err)) == 0 {
			return fmt.Errorf("%s: exit %d without a message", kind, res.Exit)
		}
		if l := hasSQL(res.Out); l != "" {
			return fmt.Errorf("%s: SQL is printed: %s", kind, l)
		}
		c.Count("refusals_seen", 1)
	}
	c.Key = fmt.Sprintf("%s redo=%v recover=%v %s %q %q %v", kind, redo, recover, d.Shape(), db, name, c.desc)
	return nil
}

// zipPages makes the pages ones of a table with ROW_FORMAT=COMPRESSED: the page
// header as it is, then the rest as a zlib stream.
func zipPages(b []byte, size int) []byte {
	var out []byte
	for ; len(b) >= 16384; b = b[16384:] {
		p := make([]byte, size)
		if b[24] != 0x45 || b[25] != 0xbf {
			copy(p, b)
		} else {
			copy(p, b[:94])
			var z bytes.Buffer
			w := zlib.NewWriter(&z)
			w.Write(b[94:16384])
			w.Close()
			copy(p[94:], z.Bytes())
		}
		out = append(out, p...)
	}
	return out
}

// hidePages makes all pages but the first ones with page compression (14),
// encryption (15) or both (16). The header but for the type stays.
func hidePages(r *Rng, b []byte, how int) []byte {
	b = append([]byte{}, b...)
	for off := 16384; off+16384 <= len(b); off += 16384 {
		p := b[off : off+16384]
		if p[24] == 0 && p[25] == 0 {
			continue // never written
		}
		if how != 15 {
			// FIL_PAGE_VERSION, _ALGORITHM_V1, _ORIGINAL_TYPE_V1, _ORIGINAL_SIZE_V1, _COMPRESS_SIZE_V1
			var z bytes.Buffer
			w := zlib.NewWriter(&z)
			w.Write(p[38:])
			w.Close()
			if z.Len() > 16000 {
				continue
			}
			copy(p[26:], []byte{1, 1, p[24], p[25], 0x3f, 0xda, byte(z.Len() >> 8), byte(z.Len())})
			copy(p[38:], make([]byte, 16384-38))
			copy(p[38:], z.Bytes())
		} else {
			copy(p[26:], p[24:26])
		}
		if how != 14 {
			copy(p[38:], r.Bytes(16384-38-8))
		}
		p[24], p[25] = 0, byte(how)
	}
	return b
}

// hasUnreadable tells whether pages have the type of compressed or encrypted ones.
func hasUnreadable(b []byte) bool {
	for ; len(b) >= 16384; b = b[16384:] {
		if b[24] == 0 && b[25] >= 14 && b[25] <= 16 {
			return true
		}
	}
	return false
}

// chain gives the offsets of the records of a page, by its record list.
func chain(p []byte, compact bool, free bool) []int {
	inf, sup := redundInf, redundSup
	if compact {
		inf, sup = compactInf, compactSup
	}
	at := inf
	if free {
		at = int(p[44])<<8 | int(p[45])
		if at == 0 {
			return nil
		}
	} else {
		at = nextRec(p, at, compact)
	}
	var out []int
	for at != 0 && at != sup && len(out) < 20000 {
		out = append(out, at)
		at = nextRec(p, at, compact)
	}
	return out
}

func nextRec(p []byte, at int, compact bool) int {
	n := int(p[at-2])<<8 | int(p[at-1])
	if !compact {
		return n
	}
	if n == 0 {
		return 0
	}
	return (at + n) & 0xffff
}

func damageCase(c *Case) error {
	r := c.R
	o := &GenOpt{Kinds: []Kind{KInt, KInt, KVarMB, KBlob, KDate, KVarbinary}, MinCols: 1, MaxCols: r.Pick(2, 5, 12), NullPct: r.Pick(0, 40), MaxLen: r.Pick(30, 300), PKMode: r.Pick(1, 1, 2, 3), NoSecs: r.P(50)}
	t := fitTable(r, o)
	addUIDKeepKey(r, t, false)
	c.nameTable(t)
	d, _ := c.schema(t, plainDict(r), r.N(2))
	n := r.Pick(4, 10, 40, 100)
	rows := t.genRows(r, n, r.Pick(100, 400, 2000))
	recover := r.P(35)
	free := 0
	if recover {
		free = r.Pick(50, 100)
	}
	leaves := SplitLeaves(r, t, rows, r.Pick(1, 3, 8, 20), 10, free)
	f := BuildIbd(r, t, leaves, IbdOpt{Shuffle: r.P(60), Gaps: r.P(30), PermPages: r.P(30), NonLeaf: r.P(30), OtherPages: r.P(20)})
	b := append([]byte{}, f.Bytes...)
	type part struct {
		rows []*Row
		all  bool
	}
	var must []part
	var what []string
	damaged, intact := 0, 0
	pct := r.Pick(10, 30, 60)
	force := r.N(len(f.Leaves) + 1)
	for li, l := range f.Leaves {
		rows := l.Rows
		if recover {
			rows = l.Free
		}
		if !r.P(pct) && li != force {
			must = append(must, part{rows, true})
			if len(rows) > 0 {
				intact++
			}
			continue
		}
		p := b[int(l.No)*pageSize : (int(l.No)+1)*pageSize]
		compact := !t.Redundant
		offs := chain(p, compact, recover)
		if len(offs) != len(rows) {
			return fmt.Errorf("harness: %d records in the chain, %d rows", len(offs), len(rows))
		}
		damaged++
		how := r.PickS("random", "zero", "torn", "header", "next", "next", "next", "bytes", "bytes", "type", "lens", "directory", "allff")
		keep := 0
		switch how {
		case "random":
			copy(p, r.Bytes(pageSize))
			be32(p, 4, l.No)
		case "zero":
			copy(p, make([]byte, pageSize))
		case "allff":
			for i := range p {
				p[i] = 0xff
			}
			be32(p, 4, l.No)
		case "torn":
			// only the first sectors were written, the rest is older or junk
			at := 512 * r.Range(1, 31)
			if r.P(50) {
				copy(p[at:], make([]byte, pageSize))
			} else {
				copy(p[at:], r.Bytes(pageSize-at))
			}
		case "header":
			off := r.Pick(38, 40, 42, 44, 46, 48, 54, 64)
			be16(p, off, r.Pick(0, 1, 0xffff, 0x8000, 16384, 16383, r.N(65536)))
		case "type":
			be16(p, 24, r.Pick(0, 2, 3, 10, 14, 15, 0xffff))
		case "next":
			if len(offs) == 0 {
				break
			}
			k := r.N(len(offs))
			keep = k + 1
			at := offs[k]
			to := 0
			switch r.N(6) {
			case 0:
				to = 0
			case 1: // to itself
				to = at
			case 2: // back
				to = offs[r.N(k+1)]
			case 3: // out of the page
				to = r.Pick(16384, 16383, 16380, 20000, 40000, 65535)
			case 4: // anywhere
				to = r.N(16384)
			case 5: // into the page header
				to = r.N(100)
			}
			if compact {
				be16(p, at-2, (to-at)&0xffff)
				if to == 0 {
					be16(p, at-2, 0)
				}
			} else {
				be16(p, at-2, to)
			}
			how += fmt.Sprintf("(%d of %d -> %d)", k, len(offs), to)
			if keep < len(rows) {
				// a jump over records is no cut
				for j := k + 1; j < len(offs); j++ {
					if offs[j] == to {
						how += "(skip)"
					}
				}
			}
		case "bytes":
			garbage(r, p[38:], r.Range(1, 20))
		case "lens":
			for i := 0; i < r.Range(1, 4) && len(offs) > 0; i++ {
				at := offs[r.N(len(offs))]
				p[at-r.Range(1, 14)] = byte(r.U64())
			}
		case "directory":
			slots := int(p[38])<<8 | int(p[39])
			for i := 0; i < 10; i++ {
				p[pageSize-8-1-r.N(2*slots)] = byte(r.U64())
			}
		}
		if how == "directory" {
			// records are found by their list, not by the directory
			keep = len(rows)
		}
		if r.P(50) {
			Seal(p)
			be32(p, 4, l.No)
		}
		what = append(what, fmt.Sprintf("page %d: %s", l.No, how))
		must = append(must, part{rows[:keep], false})
	}
	res := c.runData(t, c.Write("ibdata1", d.Bytes), c.Write("t.ibd", b), recover, RunOpt{Level: r.PickS("fatal", "fatal", "error")})
	c.Desc("%s; %d leaf pages, recover=%v; damage: %s", t.Describe(), len(f.Leaves), recover, strings.Join(what, "; "))
	if res.Watchdog {
		return nil
	}
	// Pages which look compressed or encrypted are reported.
	if res.Exit == 1 && len(bytes.TrimSpace(res.Err)) > 0 && hasUnreadable(b) {
		c.Count("unreadable_pages_reported", 1)
		res.Exit = 0
	}
	if res.CPUOut || res.Crashed() || res.Exit != 0 {
		return fmt.Errorf("the run did not end normally: %s", res.Status())
	}
	sts, err := replaceStmts(t, res.Out)
	if err != nil {
		return err
	}
	id := t.idCol()
	uid := func(st *Stmt) string {
		l := st.Vals[id]
		if l.Type == LStr {
			return string(l.B)
		}
		return l.Text
	}
	at := 0
	nRows := 0
	for pi, p := range must {
		if len(p.rows) == 0 {
			continue
		}
		// a damaged page may print a line with the same row_uid by chance,
		// so a place counts when every value fits
		found := -1
		var near error
		for s := at; s+len(p.rows) <= len(sts) && found < 0; s++ {
			ok := true
			for k, row := range p.rows {
				if uid(sts[s+k]) != fmt.Sprint(row.Vals[id].U) {
					ok = false
					break
				}
			}
			for k := 0; ok && k < len(p.rows); k++ {
				for ci, col := range t.Cols {
					if err := col.Match(p.rows[k].Vals[ci], sts[s+k].Vals[ci], zoneUTC); err != nil {
						near = fmt.Errorf("page %d (intact=%v) record %d: %v", f.Leaves[pi].No, p.all, k+1, err)
						ok = false
						break
					}
				}
			}
			if ok {
				found = s
			}
		}
		if found < 0 && near != nil {
			return near
		}
		if found < 0 {
			return fmt.Errorf("the %d records of page %d (intact=%v) are not printed together, in order and behind those of the earlier pages; %d lines printed", len(p.rows), f.Leaves[pi].No, p.all, len(sts))
		}
		nRows += len(p.rows)
		at = found + len(p.rows)
	}
	if damaged == 0 {
		if err := compareIDs(t, append([]*Row{}, pick(f, recover)...), sts); err != nil {
			return err
		}
	}
	c.Count("damaged_pages", damaged)
	c.Count("intact_pages_with_rows", intact)
	c.Count("rows_required_and_seen", nRows)
	c.Count("extra_lines_from_damaged_pages", len(sts)-nRows)
	for _, w := range what {
		k := strings.SplitN(strings.SplitN(w, ": ", 2)[1], "(", 2)[0]
		c.Shape("damage_kinds", k)
	}
	if damaged > 0 && intact > 0 {
		c.Key = strings.Join(what, ";") + fmt.Sprint(recover, t.Redundant, n)
	}
	return nil
}

func pick(f *Ibd, recover bool) []*Row {
	if recover {
		return f.FreeRows()
	}
	return f.PrintRows()
}

func logDamageCase(c *Case) error {
	r := c.R
	o := &GenOpt{Kinds: []Kind{KInt, KVarMB, KBlob}, MinCols: 2, MaxCols: 5, NullPct: 30, MaxLen: 100, PKMode: 1}
	s := redoTables(c, o, r.Range(1, 3), plainDict(r), false)
	noise := noiseTypes()
	for i := 0; i < r.Pick(2, 6, 20, 50); i++ {
		s.addNoise(c, r.Pick(0, 0, 1, 2), noise)
		s.addUndo(r, s.genUpd(r, s.Tables[r.N(len(s.Tables))], undoUpdExist, r.Pick(60, 300, 1500)))
	}
	s.addNoise(c, r.N(2), noise)
	s.finish()
	lo := LogOpt{Files: r.Pick(1, 1, 2), V57: r.P(50), BlockPct: r.Pick(0, 0, 30, 100)}
	kind := r.PickS("cut-stream", "cut-stream", "cut-file", "junk-tail", "junk-spot", "junk-spot", "block-header", "zero-tail", "cut-in-undo")
	var files [][]byte
	exact, atLeast := -1, 0 // number of stream bytes that count
	what := kind
	var sh LogShape
	cutAt := func(at int) {
		st := append([]byte{}, s.Stream[:at]...)
		files, sh = BuildLog(r, st, s.starts(), lo)
		exact = at
		what += fmt.Sprintf(" at %d of %d", at, len(s.Stream))
	}
	var dataOff func(fi, off int) int // stream bytes before a file offset
	build := func() {
		files, sh = BuildLog(r, s.Stream, s.starts(), lo)
		dataOff = func(fi, off int) int {
			n := 0
			for i, f := range files {
				for p := 2048; p+512 <= len(f); p += 512 {
					if i > fi || i == fi && p+512 > off {
						return n
					}
					dl := int(f[p+4])<<8 | int(f[p+5])
					if dl == 512 {
						dl = 508
					}
					n += dl - 12
				}
			}
			return n
		}
	}
	switch kind {
	case "cut-stream":
		cutAt(r.N(len(s.Stream) + 1))
	case "cut-in-undo":
		var us []*RedoItem
		for _, it := range s.Items {
			if it.U != nil {
				us = append(us, it)
			}
		}
		it := us[r.N(len(us))]
		cutAt(r.Range(it.Start, it.End))
	case "cut-file":
		// the last file ends in the middle: only whole blocks are there
		build()
		fi := len(files) - 1
		if len(files[fi]) <= 2048 {
			fi = 0
		}
		at := r.Range(2048, len(files[fi]))
		files = files[:fi+1]
		files[fi] = files[fi][:at]
		atLeast = dataOff(fi, at)
		what += fmt.Sprintf(" file %d at %d: %d of %d stream bytes in whole blocks", fi, at, atLeast, len(s.Stream))
		// the torn block itself may be used or not
		exact = -2
	case "junk-tail", "junk-spot", "zero-tail":
		at := r.N(len(s.Stream))
		st := append([]byte{}, s.Stream...)
		switch kind {
		case "junk-tail":
			copy(st[at:], r.Bytes(len(st)-at))
		case "zero-tail":
			copy(st[at:], make([]byte, len(st)-at))
		default:
			n := r.Pick(1, 1, 2, 5, 50)
			if at+n > len(st) {
				n = len(st) - at
			}
			copy(st[at:], redoBytes(r, n))
		}
		files, sh = BuildLog(r, st, s.starts(), lo)
		atLeast = at
		what += fmt.Sprintf(" at %d of %d", at, len(s.Stream))
	case "block-header":
		build()
		fi := r.N(len(files))
		if len(files[fi]) < 2560 {
			fi = 0
		}
		if len(files[fi]) < 2560 {
			return nil
		}
		k := r.N((len(files[fi]) - 2048) / 512)
		p := 2048 + 512*k
		be16(files[fi], p+4, r.Pick(0, 1, 11, 12, 13, 513, 600, 0x7fff, 0xffff, 508, 509, 511))
		atLeast = dataOff(fi, p)
		what += fmt.Sprintf(" of block %d of file %d: %d stream bytes before it", k, fi, atLeast)
	}
	res := c.runRedo(c.Write("ibdata1", s.Dict.Bytes), c.writeLogs(files), "", "", RunOpt{Level: r.PickS("fatal", "fatal", "error")})
	s.describe(c, sh)
	c.Desc("damage: %s", what)
	if res.Watchdog {
		return nil
	}
	if res.CPUOut || res.Crashed() || res.Exit != 0 && res.Exit != 1 {
		return fmt.Errorf("%s: the run did not end normally: %s", what, res.Status())
	}
	upTo := func(n int) []*UndoUpd {
		return s.Updates(func(it *RedoItem) bool { return it.End <= n })
	}
	var want []*UndoUpd
	lines := splitLines(res.Out)
	if exact >= 0 {
		want = upTo(exact)
		if len(lines) != len(want) {
			return fmt.Errorf("%s: %d statements printed, %d expected", what, len(lines), len(want))
		}
	} else {
		want = upTo(atLeast)
		if len(lines) < len(want) {
			return fmt.Errorf("%s: %d statements printed, at least %d expected", what, len(lines), len(want))
		}
	}
	// also the lines made of junk are statements
	if _, err := updateStmts(res.Out); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	var head []byte
	for _, l := range lines[:len(want)] {
		head = append(append(head, l...), '\n')
	}
	sts, err := updateStmts(head)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if err := c.compareUpdates(want, sts, zoneUTC); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if kind == "cut-file" {
		// at most the records that are really there
		all := s.Updates(nil)
		rest, err := updateStmts(res.Out)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if len(rest) > len(all) {
			return fmt.Errorf("%s: %d statements of %d records", what, len(rest), len(all))
		}
		for i := range rest {
			if err := matchUpdate(all[i], rest[i], zoneUTC); err != nil {
				return fmt.Errorf("%s: statement %d: %v", what, i+1, err)
			}
		}
	}
	c.Count("extra_lines_behind_damage", len(lines)-len(want))
	c.Shape("damage_kinds", kind)
	if len(want) > 0 && len(want) < len(s.Updates(nil)) {
		c.Key = what + fmt.Sprint(sh)
	}
	return nil
}
