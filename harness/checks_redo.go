package main

// Redo-log scenarios: a stream of log records with undo records of known
// content in it, and the oracle over the printed UPDATE statements.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// RedoItem is one log record of a stream.
type RedoItem struct {
	Typ   int
	B     []byte
	U     *UndoUpd // the undo record of an MLOG_UNDO_INSERT
	Start int      // offsets in the stream
	End   int
	// in a group of records which begins with an earlier one
	InGroup bool
}

// RedoScenario is a stream of log records and the tables it is about.
type RedoScenario struct {
	Tables []*Table
	Dict   *Dict
	Items  []*RedoItem
	Stream []byte
}

func (s *RedoScenario) finish() {
	s.Stream = nil
	for _, it := range s.Items {
		it.Start = len(s.Stream)
		s.Stream = append(s.Stream, it.B...)
		it.End = len(s.Stream)
	}
}

// starts gives the offsets at which record groups start.
func (s *RedoScenario) starts() []int {
	var out []int
	for _, it := range s.Items {
		if !it.InGroup {
			out = append(out, it.Start)
		}
	}
	return out
}

func (s *RedoScenario) add(typ int, b []byte) { s.Items = append(s.Items, &RedoItem{Typ: typ, B: b}) }

// Updates gives the undo records which have to appear as UPDATE statements.
func (s *RedoScenario) Updates(sel func(*RedoItem) bool) []*UndoUpd {
	var out []*UndoUpd
	for _, it := range s.Items {
		if it.U != nil && it.U.Type == undoUpdExist && it.U.T != nil && it.U.T.DB != "\x00" && it.U.inLog() > 0 && (sel == nil || sel(it)) {
			out = append(out, it.U)
		}
	}
	return out
}

// redoTables makes n tables with a dictionary.
func redoTables(c *Case, o *GenOpt, n int, d DictOpt, sameNames bool) *RedoScenario {
	r := c.R
	s := &RedoScenario{}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		oo := *o
		t := fitTable(r, &oo)
		c.nameTable(t)
		if sameNames && i > 0 {
			u := s.Tables[r.N(len(s.Tables))]
			c.relatedName(u, t)
		}
		for used[t.DB+"/"+t.Name] {
			t.Name += fmt.Sprint(i)
		}
		used[t.DB+"/"+t.Name] = true
		t.genExt(r, 0, 0, 0, 30)
		if !t.Redundant && !c.NoZip && r.P(8) {
			// the undo log of such a table is as that of the others
			t.Zip = r.Range(1, 5)
		}
		// the update of a table whose every column is in the key is not possible
		if len(t.nonKey()) == 0 {
			t.Cols = append(t.Cols, &Column{Name: "extra_v", Kind: KInt, Size: 4, Nullable: r.P(50)})
		}
		s.Tables = append(s.Tables, t)
	}
	ids := r
	if c.IDSeed != 0 {
		ids = NewRng("ids", c.IDSeed)
	}
	NewSchema(ids, s.Tables)
	s.Dict = BuildDict(r, s.Tables, d)
	return s
}

// shown tells whether an old value can be given back by an UPDATE.
func (u *UndoUpd) shown(i int) bool { return !u.Old[i].Ext && !u.T.Cols[u.Cols[i]].Hidden }

// inLog counts the updated columns whose old value is in the record.
func (u *UndoUpd) inLog() int {
	n := 0
	for i := range u.Old {
		if u.shown(i) {
			n++
		}
	}
	return n
}

func (t *Table) nonKey() []int {
	in := map[int]bool{}
	for i, k := range t.PK {
		// what is behind the prefix which the key has may change
		switch t.Cols[k].Kind {
		case KVarL1, KVarMB, KVarbinary, KText, KBlob:
			in[k] = t.pre(i) == 0
		default:
			in[k] = true
		}
	}
	var out []int
	for i := range t.Cols {
		if !in[i] {
			out = append(out, i)
		}
	}
	return out
}

// genUpd makes an undo record of the given type.
func genUpd(r *Rng, t *Table, typ int, maxBytes int) *UndoUpd {
	return genUpdOf(r, t, typ, maxBytes, nil)
}

// genUpd makes an undo record of the table; some are of a row which the log
// has undo records of already, and may say the same as one of them.
func (s *RedoScenario) genUpd(r *Rng, t *Table, typ int, maxBytes int) *UndoUpd {
	if len(s.Items) > 0 && r.P(30) {
		for k, try := r.N(len(s.Items)), 0; k >= 0 && try < 40; k, try = k-1, try+1 {
			u := s.Items[k].U
			if u == nil || u.T != t {
				continue
			}
			if u.Type == typ && r.P(40) {
				v := *u
				BuildUndo(r, &v)
				return &v
			}
			return genUpdOf(r, t, typ, maxBytes, u.Row)
		}
	}
	return genUpdOf(r, t, typ, maxBytes, nil)
}

func genUpdOf(r *Rng, t *Table, typ int, maxBytes int, row *Row) *UndoUpd {
	if row == nil {
		row = t.GenRow(r, maxBytes, uint64(1+r.N(1<<30)))
	}
	u := &UndoUpd{T: t, Type: typ, Row: row}
	if typ == undoUpdExist || typ == undoUpdDel {
		nk := t.nonKey()
		n := r.Pick(1, 1, 2, 3, len(nk))
		if n > len(nk) {
			n = len(nk)
		}
		p := r.Perm(len(nk))
		left := maxBytes
		for i := 0; i < n; i++ {
			col := t.Cols[nk[p[i]]]
			v, ok := Value{}, false
			if t.ExtPct > 0 && r.P(t.ExtPct) && t.mayExt(nk[p[i]]) {
				v, ok = t.extValue(r, nk[p[i]], left)
			}
			if ok {
				u.Ext = true
			} else {
				v = GenValue(r, col, left)
			}
			left -= len(v.B)
			u.Cols = append(u.Cols, nk[p[i]])
			u.Old = append(u.Old, v)
		}
		// the order of the update vector is the order of the columns for most statements
		if r.P(60) {
			idx := make([]int, n)
			for i := range idx {
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool { return u.Cols[idx[a]] < u.Cols[idx[b]] })
			var cs []int
			var os []Value
			for _, i := range idx {
				cs = append(cs, u.Cols[i])
				os = append(os, u.Old[i])
			}
			u.Cols, u.Old = cs, os
		}
	}
	BuildUndo(r, u)
	return u
}

func (s *RedoScenario) addUndo(r *Rng, u *UndoUpd) {
	s.Items = append(s.Items, &RedoItem{Typ: mUndoInsert, B: UndoRedoRec(r, u.Bytes), U: u})
}

// foreign makes an undo record of a table which the dictionary does not have,
// or of one of InnoDB's own, which no statement can update.
func foreign(r *Rng, s *RedoScenario) *UndoUpd {
	if r.P(30) {
		l := sysTables()
		t := l[r.N(len(l))]
		t.DB = "\x00"
		for _, c := range t.Cols {
			if c.Kind == KVarL1 {
				c.Size, c.Chars = 60, 60
			}
		}
		return genUpd(r, t, undoUpdExist, 500)
	}
	t := *s.Tables[r.N(len(s.Tables))]
	t.DB = "\x00"
	t.ID = uint64(900000 + r.N(100000))
	if r.P(20) {
		t.ID = uint64(r.Pick(0, 1<<32+5, 1<<31))
	}
	if r.P(20) {
		// almost the id of a known table
		t.ID = s.Tables[r.N(len(s.Tables))].ID ^ 1<<uint(r.Pick(8, 16, 24, 31, 32, 33, 40, 47, 56, 63, r.N(64)))
	}
	for s.Dict.IDs[t.ID] || t.ID > 0 && t.ID < 20 {
		t.ID = uint64(900000 + r.N(100000))
	}
	return genUpd(r, &t, r.Pick(undoUpdExist, undoUpdExist, undoInsertRec, undoDelMark), 500)
}

func (c *Case) writeLogs(files [][]byte) string {
	var ps []string
	for i, f := range files {
		ps = append(ps, c.Write(fmt.Sprintf("ib_logfile%d", i), f))
	}
	return strings.Join(ps, ",")
}

func (c *Case) runRedo(sys, logs, db, table string, o RunOpt) *Result {
	args := []string{"recovery", "FromRedoFile", "--SysDataFile=" + sys, "--RedoFile=" + logs}
	if db != "" || c.R.P(10) {
		args = append(args, "--DBName="+db)
	}
	if table != "" || c.R.P(10) {
		args = append(args, "--TableName="+table)
	}
	return c.Run(o, args...)
}

// updateStmts parses the output as UPDATE statements.
func updateStmts(out []byte) ([]*Stmt, error) {
	var sts []*Stmt
	for i, l := range splitLines(out) {
		st, err := ParseStmt(l)
		if err != nil {
			return nil, fmt.Errorf("line %d is not a statement (%v): %s", i+1, err, cut(l))
		}
		if st.Verb != "update" {
			return nil, fmt.Errorf("line %d is not an UPDATE: %s", i+1, cut(l))
		}
		sts = append(sts, st)
	}
	return sts, nil
}

// matchUpdate decides whether a statement undoes the update.
func matchUpdate(u *UndoUpd, st *Stmt, loc *time.Location) error {
	t := u.T
	if st.DB != t.DB || st.Table != t.SQLName() {
		return fmt.Errorf("statement on `%s`.`%s`, the record is of `%s`.`%s`", st.DB, st.Table, t.DB, t.Name)
	}
	check := func(what string, as []Assign, cols []int, vals []Value) error {
		if len(as) != len(cols) {
			return fmt.Errorf("%s has %d columns, %d expected (%v)", what, len(as), len(cols), as)
		}
		seen := map[string]bool{}
		for _, a := range as {
			if seen[a.Col] {
				return fmt.Errorf("%s has column %s twice", what, a.Col)
			}
			seen[a.Col] = true
			k := -1
			for i, c := range cols {
				if t.Cols[c].Name == a.Col {
					k = i
				}
			}
			if k < 0 {
				return fmt.Errorf("%s has column %q, which is not expected there", what, a.Col)
			}
			if err := t.Cols[cols[k]].Match(vals[k], a.Val, loc); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		}
		return nil
	}
	var cols []int
	var old []Value
	for i, v := range u.Old {
		if u.shown(i) {
			cols, old = append(cols, u.Cols[i]), append(old, v)
		}
	}
	if err := check("SET", st.Set, cols, old); err != nil {
		return err
	}
	if !t.HasPK() {
		return nil
	}
	if len(st.Where) != len(t.PK) {
		return fmt.Errorf("WHERE has %d columns, %d expected (%v)", len(st.Where), len(t.PK), st.Where)
	}
	seen := map[string]bool{}
	for _, a := range st.Where {
		k := -1
		for i, c := range t.PK {
			if t.Cols[c].Name == a.Col {
				k = i
			}
		}
		if k < 0 || seen[a.Col] {
			return fmt.Errorf("WHERE has column %q, which is not expected there or is twice", a.Col)
		}
		seen[a.Col] = true
		col, v, cut := t.keyValue(k, u.Row)
		if err := col.Match(v, a.Val, loc); err != nil {
			return fmt.Errorf("WHERE: %v", err)
		}
		// a FLOAT is compared as a DOUBLE
		if f, err := strconv.ParseFloat(a.Val.text(), 64); col.Kind == KFloat && (err != nil || f != float64(float32(v.F))) {
			return fmt.Errorf("WHERE: column %s %s: no row with %s is found by %s", col.Name, col.Decl(), col.Show(v), a.Val)
		}
		// the row is found by a part of the value only if the part is compared
		if a.Left != 0 && a.Left != t.pre(k) || a.Left == 0 && cut {
			return fmt.Errorf("WHERE compares left(%s,%d), the key has %d characters", a.Col, a.Left, t.pre(k))
		}
	}
	return nil
}

// sameTarget decides table and column names only.
func sameTarget(u *UndoUpd, st *Stmt) bool {
	if st.DB != u.T.DB || st.Table != u.T.SQLName() || len(st.Set) != u.inLog() {
		return false
	}
	want := map[string]bool{}
	for i, c := range u.Cols {
		if u.shown(i) {
			want[u.T.Cols[c].Name] = true
		}
	}
	for _, a := range st.Set {
		if !want[a.Col] {
			return false
		}
	}
	return true
}

func (u *UndoUpd) String() string {
	var p []string
	for i, c := range u.Cols {
		p = append(p, fmt.Sprintf("%s=%s", u.T.Cols[c].Name, u.T.Cols[c].Show(u.Old[i])))
	}
	var k []string
	for _, c := range u.T.PK {
		k = append(k, fmt.Sprintf("%s=%s", u.T.Cols[c].Name, u.T.Cols[c].Show(u.Row.Vals[c])))
	}
	return fmt.Sprintf("undo type %d of `%s`.`%s` (table id %d): set %s where %s", u.Type, u.T.DB, u.T.Name, u.T.ID, strings.Join(p, ", "), strings.Join(k, " and "))
}

// compareUpdates demands exactly these statements in this order.
func (c *Case) compareUpdates(want []*UndoUpd, sts []*Stmt, loc *time.Location) error {
	for i := 0; i < len(want) || i < len(sts); i++ {
		switch {
		case i >= len(sts):
			return fmt.Errorf("statement %d of %d is missing (%d printed): %s", i+1, len(want), len(sts), want[i])
		case i >= len(want):
			return fmt.Errorf("an extra statement is printed (%d expected, %d printed): %v", len(want), len(sts), sts[i])
		}
		if err := matchUpdate(want[i], sts[i], loc); err != nil {
			return fmt.Errorf("statement %d of %d: %v; record: %s", i+1, len(want), err, want[i])
		}
		c.Count("set_values_compared", len(want[i].Cols))
		c.Count("where_values_compared", len(want[i].T.PK))
		if want[i].Virtual > 0 {
			c.Count("virtual_columns_skipped", want[i].Virtual)
		}
	}
	c.Count("update_statements_compared", len(want))
	return nil
}

// noiseTypes are the record types which may stand between undo records.
func noiseTypes() []int {
	var out []int
	for _, t := range allRedoTypes {
		if t != mUndoInsert {
			out = append(out, t)
		}
	}
	return out
}

// addNoise adds n records of other types.
func (s *RedoScenario) addNoise(c *Case, n int, types []int) {
	for i := 0; i < n; i++ {
		t := types[c.R.N(len(types))]
		s.add(t, RedoRec(c.R, t))
	}
}

func (s *RedoScenario) shapes(c *Case) {
	prev := "start"
	for _, it := range s.Items {
		n := redoNames[it.Typ]
		if it.U != nil {
			n = fmt.Sprintf("UNDO_INSERT/%d", it.U.Type)
		}
		c.Shape("record_types", n)
		c.Shape("adjacent_types", prev+">"+n)
		prev = n
	}
}

func randLogOpt(r *Rng) LogOpt {
	o := LogOpt{Files: r.Pick(1, 1, 2, 3), V57: r.P(60), BlockPct: r.Pick(0, 0, 10, 60, 100), EndMark: r.P(50)}
	if o.EndMark {
		o.Stale = r.N(3)
	}
	return o
}

// padStream makes sure that no record at the end is short of the tool's look-ahead.
func (s *RedoScenario) describe(c *Case, sh LogShape) {
	for _, t := range s.Tables {
		c.Desc("%s", t.Describe())
	}
	c.Desc("%d log records, %d bytes, %v", len(s.Items), len(s.Stream), sh)
	n := 0
	for _, it := range s.Items {
		if it.U != nil && n < 8 {
			c.Desc("at %d: %s", it.Start, cutS(it.U.String()))
			n++
		}
	}
}

func cutS(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func init() {
	checks["C14"] = &Check{
		Rule: "random log of 0..80 undo records of all four undo types over 1..6 tables, with records of unknown tables and records of every other redo type between them; the printed statements are matched one to one and in order with the TRX_UNDO_UPD_EXIST_REC records; non-trivial: at least two expected statements and one record which must not print; distinct by the sequence of record kinds",
		Run: func(h *Harness) {
			h.Parallel("log", h.Scale(10000, 150000), func(c *Case) error { return redoCase(c, "C14") })
		},
	}
	checks["C15"] = &Check{
		Rule: "undo records of updates on tables with 1..3 key columns anywhere in the definition and 1..all non-key columns updated, every column type, NULLs, COMPACT and REDUNDANT; the SET list has to be exactly the old values and WHERE exactly the key; distinct by table shape and updated columns; non-trivial: at least one statement compared",
		Run: func(h *Harness) {
			h.Parallel("update", h.Scale(10000, 150000), func(c *Case) error { return redoCase(c, "C15") })
			h.Parallel("prefix", h.Scale(2500, 40000), func(c *Case) error { return redoCase(c, "C15p") })
		},
	}
	checks["C16"] = &Check{
		Rule: "logs in which runs of 1..3 records of every one of the 54 other redo types, with boundary lengths and hostile payload (bytes that look like record headers and undo records), stand between sentinel undo records; every sentinel has to be printed and nothing else; distinct by the sequence of record types; shapes count ordered pairs of adjacent types",
		Run: func(h *Harness) {
			h.Parallel("framing", h.Scale(10000, 150000), func(c *Case) error { return redoCase(c, "C16") })
		},
	}
	checks["C17"] = &Check{
		Rule: "one byte stream laid out in 2..4 ways over log blocks (full, partial down to 1 byte) and 1..4 files; every layout has to give exactly the expected statements, so record and value boundaries fall on every kind of block and file boundary; non-trivial: a sentinel record spans a block boundary in one layout; distinct by layouts",
		Run: func(h *Harness) {
			h.Parallel("layout", h.Scale(4000, 60000), func(c *Case) error { return segmentCase(c, false) })
			h.Parallel("large", h.Scale(8, 300), func(c *Case) error { return segmentCase(c, true) })
		},
	}
	checks["C18"] = &Check{
		Rule: "2..7 tables with equal, similar and swapped database and table names, updates on all of them; the same log is read with no filter, by database, by table, by both, and by names that match nothing; each output has to be exactly the selected subsequence; non-trivial: a filter that selects a proper non-empty subset; distinct by names and filters",
		Run: func(h *Harness) {
			h.Parallel("filter", h.Scale(3000, 40000), filterCase)
		},
	}
}

func redoCase(c *Case, id string) error {
	r := c.R
	kinds := []Kind{KInt, KInt, KVarMB, KDouble, KVarL1, KDate, KBlob}
	o := &GenOpt{Kinds: kinds, MinCols: 2, MaxCols: 6, NullPct: 40, MaxLen: 100, PKMode: r.Pick(1, 1, 3), NoSecs: r.P(50)}
	nt, nu := r.Range(1, 6), r.Pick(0, 1, 3, 10, 30, 80)
	maxB := 800
	d := plainDict(r)
	switch id {
	case "C15":
		o.Kinds = nil
		if r.P(40) {
			o.Kinds = []Kind{allKinds[r.N(len(allKinds))], allKinds[r.N(len(allKinds))]}
		}
		o.MaxCols = r.Pick(2, 5, 12, 30)
		o.MaxLen = r.Pick(0, 300, 1000)
		o.PKFirst = r.P(30)
		o.NullPct = r.Pick(0, 40, 90)
		nt = r.Range(1, 2)
		nu = r.Pick(1, 3, 10, 20)
		maxB = r.Pick(300, 2000, 6000)
		if r.P(6) {
			o.wide(r)
		}
	case "C15p":
		// keys of prefixes, in all character sets
		id = "C15"
		o.Kinds = []Kind{KVarMB, KVarMB, KCharMB, KVarL1, KInt, KText}
		o.MaxCols = 4
		o.MaxLen = r.Pick(20, 100)
		o.PKMode, o.Prefix = 1, true
		nt, nu = r.Range(2, 4), r.Pick(4, 10)
		maxB = 1000
	case "C16":
		nt = r.Range(1, 2)
		nu = r.Pick(3, 10, 30)
		maxB = 300
	case "C14":
		if r.P(20) {
			o.PKMode = 0
		}
		if r.P(20) {
			d = randDictOpt(r)
		}
	}
	s := redoTables(c, o, nt, d, false)
	noise := noiseTypes()
	hidden := 0
	var focus []int
	for i := 0; i < r.Range(1, 6); i++ {
		focus = append(focus, noise[r.N(len(noise))])
	}
	for i := 0; i < nu; i++ {
		switch id {
		case "C16":
			l := noise
			if r.P(60) {
				l = focus
			}
			s.addNoise(c, r.Range(1, 3), l)
			s.addUndo(r, s.genUpd(r, s.Tables[r.N(nt)], undoUpdExist, maxB))
			continue
		case "C14":
			if r.P(30) {
				s.addNoise(c, r.N(3), noise)
				hidden++
			}
			switch r.N(10) {
			case 0:
				s.addUndo(r, foreign(r, s))
				hidden++
			case 1, 2, 3:
				s.addUndo(r, s.genUpd(r, s.Tables[r.N(nt)], r.Pick(undoInsertRec, undoUpdDel, undoDelMark), maxB))
				hidden++
			}
		case "C15":
			if r.P(10) {
				s.addNoise(c, 1, noise)
			}
		}
		s.addUndo(r, s.genUpd(r, s.Tables[r.N(nt)], undoUpdExist, maxB))
	}
	// the log goes on
	s.addNoise(c, r.N(3), noise)
	s.finish()
	lo := randLogOpt(r)
	files, sh := BuildLog(r, s.Stream, s.starts(), lo)
	s.describe(c, sh)
	zone, loc := "UTC", zoneUTC
	if id == "C15" {
		zone, loc = c.zone()
	}
	sys := c.Write("ibdata1", s.Dict.Bytes)
	res := c.runRedo(sys, c.writeLogs(files), "", "", RunOpt{TZ: zone, Level: r.PickS("fatal", "fatal", "fatal", "debug")})
	if res.Watchdog {
		return nil
	}
	if err := cleanRun(res); err != nil {
		return err
	}
	sts, err := updateStmts(res.Out)
	if err != nil {
		return err
	}
	want := s.Updates(nil)
	if err := c.compareUpdates(want, sts, loc); err != nil {
		return err
	}
	s.shapes(c)
	var kinds2 []string
	for _, it := range s.Items {
		k := fmt.Sprint(it.Typ)
		if it.U != nil {
			k = fmt.Sprintf("u%d", it.U.Type)
			for i, col := range it.U.Cols {
				if !it.U.shown(i) {
					c.Count("off_page_old_values", 1)
					continue
				}
				c.Shape("set_columns", it.U.T.Cols[col].Decl())
				if it.U.Old[i].Null {
					c.Count("null_old_values", 1)
				}
			}
			for i, col := range it.U.T.PK {
				c.Shape("key_columns", it.U.T.Cols[col].Decl())
				if it.U.T.pre(i) > 0 {
					c.Count("key_prefixes", 1)
					c.Shape("collations_of_key_prefixes", fmt.Sprint(it.U.T.Cols[col].Coll))
				}
			}
		}
		kinds2 = append(kinds2, k)
	}
	c.Shape("layouts", sh.String())
	switch {
	case id == "C14" && len(want) >= 2 && hidden > 0, id == "C16" && len(want) > 0:
		c.Key = strings.Join(kinds2, " ")
	case id == "C15" && len(want) > 0:
		var ks []string
		for _, u := range want {
			ks = append(ks, fmt.Sprint(u.T.PK, u.Cols))
		}
		c.Key = strings.Join(ks, ";") + s.Tables[0].Describe()
	}
	return nil
}

func segmentCase(c *Case, large bool) error {
	r := c.R
	o := &GenOpt{Kinds: []Kind{KInt, KVarMB, KBlob, KVarL1}, MinCols: 2, MaxCols: 5, NullPct: 30, MaxLen: 300, PKMode: 1}
	s := redoTables(c, o, r.Range(1, 3), plainDict(r), false)
	noise := noiseTypes()
	n := r.Pick(2, 6, 20, 60)
	maxB := r.Pick(100, 600, 3000)
	per := 3
	if large {
		n, per, maxB = r.Pick(1000, 4000, 20000), r.Pick(3, 10, 30), 3000
	}
	for i := 0; i < n; i++ {
		s.addNoise(c, r.N(per), noise)
		s.addUndo(r, s.genUpd(r, s.Tables[r.N(len(s.Tables))], undoUpdExist, maxB))
		if large && c.N%8 == 0 {
			// a log of 40 MB and more
			for k := 0; k < 42000/n; k++ {
				s.addNoise(c, 1, []int{mZipComp, mWriteString, mListCopy, mWriteString})
			}
		}
	}
	s.addNoise(c, r.N(2), noise)
	s.finish()
	c.Shape("log_megabytes", fmt.Sprint(len(s.Stream)>>20))
	sys := c.Write("ibdata1", s.Dict.Bytes)
	want := s.Updates(nil)
	var first []byte
	var key []string
	span := 0
	for k := 0; k < r.Range(2, 4); k++ {
		lo := LogOpt{Files: r.Pick(1, 1, 2, 3, 4), V57: r.P(50), BlockPct: r.Pick(0, 0, 5, 50, 100), EndMark: r.P(50), Stale: r.N(3)}
		if r.P(10) {
			lo.Files = r.Range(5, 30)
		}
		if large {
			lo.BlockPct = r.Pick(0, 1)
		}
		if k == 0 {
			lo = LogOpt{Files: 1}
		}
		files, sh := BuildLog(r, s.Stream, s.starts(), lo)
		if k == 0 {
			s.describe(c, sh)
		} else {
			c.Desc("layout %d: %v", k, sh)
		}
		var ps []string
		for i, f := range files {
			ps = append(ps, c.Write(fmt.Sprintf("lay%d/ib_logfile%d", k, i), f))
		}
		res := c.runRedo(sys, strings.Join(ps, ","), "", "", RunOpt{})
		if res.Watchdog {
			return nil
		}
		if err := cleanRun(res); err != nil {
			return fmt.Errorf("layout %v: %v", sh, err)
		}
		sts, err := updateStmts(res.Out)
		if err != nil {
			return fmt.Errorf("layout %v: %v", sh, err)
		}
		if err := c.compareUpdates(want, sts, zoneUTC); err != nil {
			return fmt.Errorf("layout %v: %v", sh, err)
		}
		if k == 0 {
			first = res.Out
			for _, it := range s.Items {
				if it.U != nil && it.Start/496 != it.End/496 {
					span++
				}
			}
		} else if string(first) != string(res.Out) {
			return fmt.Errorf("layout %v prints something else than one file of full blocks", sh)
		}
		c.Shape("layouts", sh.String())
		c.Count("layouts_run", 1)
		key = append(key, sh.String())
	}
	c.Count("undo_records_spanning_blocks", span)
	if span > 0 {
		c.Key = strings.Join(key, ";") + fmt.Sprint(len(s.Stream))
	}
	return nil
}

func filterCase(c *Case) error {
	r := c.R
	o := &GenOpt{Kinds: []Kind{KInt, KVarMB}, MinCols: 2, MaxCols: 4, NullPct: 20, MaxLen: 60, PKMode: 1}
	s := redoTables(c, o, r.Range(2, 7), plainDict(r), true)
	n := r.Pick(3, 10, 30)
	for i := 0; i < n; i++ {
		if r.P(20) {
			s.addNoise(c, 1, noiseTypes())
		}
		if r.P(10) {
			s.addUndo(r, foreign(r, s))
		}
		s.addUndo(r, s.genUpd(r, s.Tables[r.N(len(s.Tables))], undoUpdExist, 200))
	}
	s.finish()
	files, sh := BuildLog(r, s.Stream, s.starts(), randLogOpt(r))
	s.describe(c, sh)
	sys := c.Write("ibdata1", s.Dict.Bytes)
	lf := c.writeLogs(files)
	t, u := s.Tables[r.N(len(s.Tables))], s.Tables[r.N(len(s.Tables))]
	filters := [][2]string{{"", ""}, {t.DB, ""}, {"", t.Name}, {t.DB, t.Name}, {t.DB, u.Name}, {u.DB, t.Name}, {"", t.SQLName()}, {t.DB, t.SQLName()}, {storedName(t.DB), ""}, {t.DB, storedName(t.Name)},
		{t.Name, t.DB}, {"nosuchdb", t.Name}, {t.DB, "nosuchtable"}, {t.DB + "x", ""}, {"", strings.ToUpper(t.Name) + "_"}, {"nosuchdb", ""}, {"", "nosuchtable"},
		{t.DB, "%"}, {"%", t.Name}, {"*", "*"}, {t.DB, t.Name[:1] + r.PickS("%", "*", ".*", "")}, {t.DB, t.Name + r.PickS(" ", "/", "'", ".")}, {t.DB + t.Name, ""}, {"", t.DB + "." + t.Name}, {"", t.DB + "/" + t.Name}}
	seen := map[[2]string]bool{}
	proper := false
	for _, f := range filters {
		if seen[f] || (f[0] != "" || f[1] != "") && r.P(35) {
			continue
		}
		seen[f] = true
		res := c.runRedo(sys, lf, f[0], f[1], RunOpt{})
		if res.Watchdog {
			return nil
		}
		if err := cleanRun(res); err != nil {
			return fmt.Errorf("DBName=%q TableName=%q: %v", f[0], f[1], err)
		}
		sts, err := updateStmts(res.Out)
		if err != nil {
			return err
		}
		want := s.Updates(func(it *RedoItem) bool {
			return (f[0] == "" || it.U.T.DB == f[0]) && (f[1] == "" || it.U.T.Name == f[1] || it.U.T.SQLName() == f[1])
		})
		if err := c.compareUpdates(want, sts, zoneUTC); err != nil {
			return fmt.Errorf("DBName=%q TableName=%q: %v", f[0], f[1], err)
		}
		c.Count("filters_run", 1)
		if len(want) > 0 && len(want) < len(s.Updates(nil)) {
			proper = true
			c.Count("proper_subsets_seen", 1)
		}
		if len(want) == 0 {
			c.Count("empty_selections_seen", 1)
		}
	}
	if c.OddPct > 0 {
		for _, t := range s.Tables {
			c.seeName(t)
		}
	}
	if proper {
		var k []string
		for _, t := range s.Tables {
			k = append(k, t.DB+"."+t.Name)
		}
		c.Key = strings.Join(k, " ") + fmt.Sprint(len(seen), n)
	}
	return nil
}
