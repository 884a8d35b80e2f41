package main

// The data-file scenario and its oracles.

import (
	"bytes"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"
)

// Scenario is a dictionary plus one table's data file.
type Scenario struct {
	T     *Table
	Dict  *Dict
	Ibd   *Ibd
	Sys   string // paths
	Data  string
	Other []*Table
}

var zones = []string{"UTC", "Asia/Shanghai", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia"}

func (c *Case) zone() (string, *time.Location) {
	for i := 0; i < 8; i++ {
		z := zones[c.R.N(len(zones))]
		if l, err := time.LoadLocation(z); err == nil {
			return z, l
		}
	}
	return "UTC", time.UTC
}

func randDictOpt(r *Rng) DictOpt {
	return DictOpt{V57: r.P(50), Per: r.Pick(0, 0, 1, 3, 10), PermPages: r.P(40), Shuffle: r.P(50), Noise: r.P(40), Level2: r.P(15), Dblwr: r.P(20), BlobLike: r.P(30), History: r.P(30)}
}

// plainDict is the shape a small server has: everything in root pages.
func plainDict(r *Rng) DictOpt { return DictOpt{V57: r.P(50), Shuffle: r.P(30)} }

func randIbdOpt(r *Rng) IbdOpt {
	return IbdOpt{Shuffle: r.P(60), Gaps: r.P(50), PermPages: r.P(40), SecPages: r.P(50), NonLeaf: r.P(50), OtherPages: r.P(40), ZeroTail: r.Pick(0, 0, 1, 3), TailBytes: r.Pick(0, 0, 0, 100, 16383)}
}

var dbNames = []string{"test", "db1", "Shop", "type_test", "a", "d_2019", "shop$eu", "a_database_name_that_is_about_as_long_as_they_may_be_in_mysql_64"}
var tableNames = []string{"t", "test5", "orders", "T1", "user_info", "x9", "t#P#p0", "log$2019", "2020", "a_table_name_of_the_greatest_length_that_is_allowed_in_mysql_064"}

// fit regenerates a table until a row of it fits in a page.
func fitTable(r *Rng, o *GenOpt) *Table {
	oo := *o
	for try := 0; ; try++ {
		t := GenTable(r, &oo)
		need := 60
		for _, c := range t.Cols {
			if c.Kind == KVarL1 || c.Kind == KVarMB || c.Kind == KVarbinary || c.Kind == KText || c.Kind == KBlob {
				need += 4
			} else {
				need += c.FixedSize() + 4
			}
		}
		for i := range t.PKPre {
			need += t.pre(i)*t.Cols[t.PK[i]].mbMaxLen() + 2
		}
		if need < 6000 {
			return t
		}
		if oo.MaxLen == 0 {
			oo.MaxLen = 2000
		}
		oo.MaxLen /= 2
		if oo.MaxLen < 20 {
			oo.MaxLen = 20
			oo.MaxCols--
			if oo.MaxCols < oo.MinCols {
				oo.MinCols = oo.MaxCols
			}
		}
	}
}

// withID puts a unique BIGINT column in the table, so that every row is identifiable.
func withID(r *Rng) *Column {
	return &Column{Kind: KInt, Size: 8, Unsigned: true}
}

func (t *Table) idCol() int {
	for i, c := range t.Cols {
		if c.Name == "row_uid" {
			return i
		}
	}
	return -1
}

// genRows makes n rows; the row_uid column, when there is one, is unique.
func (t *Table) genRows(r *Rng, n int, maxBytes int) []*Row {
	var rows []*Row
	id := t.idCol()
	uid := uint64(1000 + r.N(1000000))
	for i := 0; i < n; i++ {
		row := t.GenRow(r, maxBytes, uint64(i+1)+uint64(r.N(1))<<8)
		if id >= 0 {
			uid += uint64(1 + r.N(5))
			row.Vals[id] = Value{U: uid}
		}
		if len(rows) > 0 && r.P(t.DupPct) {
			// the same once more
			if row.copyVals(rows[r.Pick(len(rows)-1, r.N(len(rows)))]); id >= 0 {
				uid = row.Vals[id].U
			}
		}
		rows = append(rows, row)
	}
	return rows
}

func (row *Row) copyVals(from *Row) {
	row.Vals = append([]Value{}, from.Vals...)
	for i := range row.Vals {
		row.Vals[i].B = append([]byte{}, row.Vals[i].B...)
	}
}

// addUID adds a NOT NULL BIGINT UNSIGNED column named row_uid at a random place.
func addUID(r *Rng, t *Table) {
	at := r.N(len(t.Cols) + 1)
	c := &Column{Name: "row_uid", Kind: KInt, Size: 8, Unsigned: true}
	t.Cols = append(t.Cols[:at], append([]*Column{c}, t.Cols[at:]...)...)
	for i := range t.PK {
		if t.PK[i] >= at {
			t.PK[i]++
		}
	}
	for i := range t.Secs {
		for j := range t.Secs[i].Cols {
			if t.Secs[i].Cols[j] >= at {
				t.Secs[i].Cols[j]++
			}
		}
	}
}

// schema makes the other tables around t and the dictionary file.
func (c *Case) schema(t *Table, o DictOpt, nOther int) (*Dict, []*Table) {
	r := c.R
	var others []*Table
	used := map[string]bool{t.DB + "/" + t.Name: true}
	for i := 0; i < nOther; i++ {
		u := fitTable(r, &GenOpt{MinCols: 1, MaxCols: 6, NullPct: 40, MaxLen: 100})
		c.nameTable(u)
		if r.P(75) {
			c.relatedName(t, u)
		}
		for used[u.DB+"/"+u.Name] {
			u.Name += fmt.Sprint(i)
		}
		used[u.DB+"/"+u.Name] = true
		if !u.Redundant && r.P(8) {
			u.Zip = r.Range(1, 5)
		}
		others = append(others, u)
	}
	all := append([]*Table{}, others...)
	at := r.N(len(all) + 1)
	all = append(all[:at], append([]*Table{t}, all[at:]...)...)
	NewSchema(r, all)
	return BuildDict(r, all, o), others
}

// relatedName gives u a name which a careless comparison takes for that of t.
func (c *Case) relatedName(t, u *Table) {
	relatedName(c.R, t, u)
	ok := func(s string) bool {
		base := t.SQLName2(s)
		return base != "" && utf8.ValidString(s) && utf8.RuneCountInString(s) <= 64 && !strings.HasSuffix(s, " ") && !strings.HasSuffix(base, " ") &&
			(base == s || !c.NoParts)
	}
	if !ok(u.DB) || !ok(u.Name) || u.DB != u.SQLName2(u.DB) {
		c.nameTable(u)
	}
}

func relatedName(r *Rng, t, u *Table) {
	split := func(s string, at int) (string, string) { return s[:at], s[at:] }
	switch r.N(11) {
	case 0:
		u.DB, u.Name = t.DB, t.Name+r.PickS("2", "_old", "x", "1", "s", "_a")
	case 1:
		u.DB, u.Name = t.DB+r.PickS("2", "_x", "b", "x", "_old", "1", "s"), t.Name
	case 2:
		if len(t.Name) > 1 {
			u.DB, u.Name = t.DB, t.Name[:len(t.Name)-1]
		} else {
			u.DB, u.Name = t.DB, "q"
		}
	case 3:
		u.Name = t.Name
	case 4:
		u.DB = t.DB
	case 5:
		// A partition and the like can not be a database.
		if !strings.Contains(t.Name, "#") {
			u.DB, u.Name = t.Name, t.DB
		}
	case 6, 7:
		// The same letters.
		all := t.DB + t.Name
		for try := 0; try < 5; try++ {
			u.DB, u.Name = split(all, r.Range(1, len(all)-1))
			if u.DB != t.DB && !strings.Contains(u.DB, "#") && len(u.DB) <= 64 && len(u.Name) <= 64 {
				return
			}
		}
		u.DB, u.Name = t.DB, "q"
	case 8:
		// The same with a separator between them.
		sep := r.PickS("_", "$")
		if strings.Contains(t.Name, sep) {
			k := strings.Index(t.Name, sep)
			if k > 0 && k+1 < len(t.Name) && !strings.Contains(t.Name[:k], "#") {
				u.DB, u.Name = t.DB+sep+t.Name[:k], t.Name[k+1:]
			}
		} else if k := strings.LastIndex(t.DB, sep); k > 0 {
			u.DB, u.Name = t.DB[:k], t.DB[k+1:]+sep+t.Name
		}
	case 10:
		// One that t matches as a pattern.
		u.DB, u.Name = t.DB, strings.Replace(t.Name, r.PickS("_", t.Name[len(t.Name)-1:]), "x", -1)
		if u.Name == t.Name {
			u.DB, u.Name = strings.Replace(t.DB, "_", "x", -1), t.Name
		}
	case 9:
		fold := func(s string) string {
			b := []byte(s)
			k := r.N(len(b))
			for i := range b {
				if b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z' && b[i] >= 'A' && (i >= k || s == t.DB) {
					b[i] ^= 0x20
				}
			}
			return string(b)
		}
		u.DB, u.Name = t.DB, t.Name
		if r.P(70) {
			u.Name = fold(t.Name)
		} else {
			u.DB = fold(t.DB)
		}
	}
}

func (c *Case) nameTable(t *Table) {
	r := c.R
	t.DB = dbNames[r.N(len(dbNames))]
	t.Name = tableNames[r.N(len(tableNames))]
	odd := c.OddPct
	if odd == 0 {
		odd = 4
	}
	if r.P(odd) {
		t.DB = oddName(r)
	}
	if r.P(odd) {
		t.Name = oddName(r)
		if r.P(20) && len(t.Name) < 40 {
			t.Name += r.PickS("#P#", "#P#", "#p#") + r.PickS("p0", "p2019", "max#SP#maxsp0", "2020", "p-1")
		}
	}
	if c.NoParts {
		t.Name = t.SQLName()
	}
	if c.IDSeed != 0 {
		t.DB, t.Name = dbNames[0], tableNames[r.N(3)]
	}
}

// oddName makes a name with characters which InnoDB stores as an @ and four digits.
func oddName(r *Rng) string {
	if r.P(20) {
		return r.PickS("my-table", "2019-01", "a b", "a.b", "订单", "order-items", "x@002dy", "@", "@@", "@0041", "a@", "a@00", "$", "a/b", "a\\b", "b`q", "``", "it's", "a;b", "#", "a#b", "日志-2019", "c(1)", "50%", "\u20ac", "-", "--", "/* */", "p#x", "#mysql50", "@002", "\uffe5x", "\ufb01")
	}
	s := ""
	for n := r.Pick(1, 2, 3, 5, 10, 12, 30, 64); n > 0; n-- {
		switch {
		case r.P(40):
			s += string(rune("azAZ09_bcdef"[r.N(12)]))
		case r.P(60):
			s += string(rune("!\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~ "[r.N(32)]))
		default:
			s += string(rune(r.Pick(0x4e00+r.N(20000), 0x3042+r.N(80), 0xac00+r.N(11000), 0x20ac, 0x2190+r.N(300), 0x0e01+r.N(40), 0x05d0+r.N(27), 0x0628, 0xfffd, 0xabcd)))
		}
	}
	if strings.HasSuffix(s, " ") || strings.Contains(strings.ToUpper(s), "#P#") || strings.HasPrefix(s, "#") {
		return oddName(r)
	}
	return s
}

// SQLName is the name of the table that t is, or is a partition of.
func (t *Table) SQLName() string { return t.SQLName2(t.Name) }

func (t *Table) SQLName2(s string) string {
	for _, p := range []string{"#P#", "#p#"} {
		if k := strings.Index(s, p); k >= 0 {
			return s[:k]
		}
	}
	return s
}

// storedName writes a name the way the data dictionary has it.
func storedName(s string) string {
	if strings.HasPrefix(s, "#sql-") {
		return s
	}
	b := ""
	enc := func(s, plain string) {
		for _, x := range s {
			if x < 0x80 && (x|0x20 >= 'a' && x|0x20 <= 'z' || x >= '0' && x <= '9' || x == '_' || strings.ContainsRune(plain, x)) {
				b += string(x)
			} else {
				b += fmt.Sprintf("@%04x", x)
			}
		}
	}
	base := (*Table)(nil).SQLName2(s)
	enc(base, "")
	enc(s[len(base):], "#")
	return b
}

// key is the name of the table in the data dictionary.
func (t *Table) key() string {
	if t.DB == "" {
		return t.Name
	}
	if t.Stored != "" {
		return storedName(t.DB) + "/" + t.Stored
	}
	return storedName(t.DB) + "/" + storedName(t.Name)
}

// runData runs the tool on a data file.
func (c *Case) runData(t *Table, sys, data string, recover bool, o RunOpt) *Result {
	args := []string{"recovery", "FromDataFile", "--SysDataFile=" + sys, "--TableDataFile=" + data, "--DBName=" + t.DB, "--TableName=" + t.Name}
	if recover {
		args = append(args, "--OpType=RecoveryData")
	} else if c.R.P(50) {
		args = append(args, "--OpType=PrintData")
	}
	return c.Run(o, args...)
}

func splitLines(out []byte) [][]byte {
	if len(out) == 0 {
		return nil
	}
	ls := bytes.Split(out, []byte("\n"))
	if len(ls[len(ls)-1]) == 0 {
		ls = ls[:len(ls)-1]
	}
	return ls
}

func cut(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q...(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// cleanRun demands a normal ending.
func cleanRun(r *Result) error {
	if r.Watchdog {
		return nil
	}
	if r.CPUOut || r.Crashed() || r.Exit != 0 {
		return fmt.Errorf("the run did not end normally: %s", r.Status())
	}
	return nil
}

// replaceStmts parses the output as REPLACE statements on the table.
func replaceStmts(t *Table, out []byte) ([]*Stmt, error) {
	var sts []*Stmt
	for i, l := range splitLines(out) {
		st, err := ParseStmt(l)
		if err != nil {
			return nil, fmt.Errorf("line %d is not a statement (%v): %s", i+1, err, cut(l))
		}
		if st.Verb != "replace" || st.DB != t.DB || st.Table != t.SQLName() {
			return nil, fmt.Errorf("line %d is not a REPLACE into `%s`.`%s`: %s", i+1, t.DB, t.Name, cut(l))
		}
		n := t.shownCols()
		if err := st.dropVirtual(t); err != nil {
			return nil, fmt.Errorf("line %d: %v: %s", i+1, err, cut(l))
		}
		if len(st.Vals) != n && st.Cols == nil || st.Cols != nil && len(st.Vals) != len(st.Cols) {
			return nil, fmt.Errorf("line %d has %d values for a table of %d columns: %s", i+1, len(st.Vals), n, cut(l))
		}
		if st.Cols != nil {
			// put the values in definition order
			vals := make([]Lit, n)
			seen := map[string]bool{}
			for k, nm := range st.Cols {
				found := false
				for j, c := range t.Cols {
					if c.Name == nm && !c.Hidden {
						vals[j] = st.Vals[k]
						found = true
					}
				}
				if !found || seen[nm] {
					return nil, fmt.Errorf("line %d: column list does not fit the table: %s", i+1, cut(l))
				}
				seen[nm] = true
			}
			if len(seen) != n {
				return nil, fmt.Errorf("line %d: %d of %d columns: %s", i+1, len(seen), n, cut(l))
			}
			st.Vals = vals
		}
		for len(st.Vals) < len(t.Cols) {
			st.Vals = append(st.Vals, Lit{})
		}
		sts = append(sts, st)
	}
	return sts, nil
}

// dropVirtual takes the values of the virtual columns out: only DEFAULT is
// allowed there, and nowhere else.
func (st *Stmt) dropVirtual(t *Table) error {
	if st.Cols == nil && len(t.Virtual) > 0 && len(st.Vals) != t.shownCols()+len(t.Virtual) {
		return fmt.Errorf("%d values for a table of %d columns, %d of them virtual", len(st.Vals), t.shownCols()+len(t.Virtual), len(t.Virtual))
	}
	virtual := map[string]bool{}
	at := map[int]bool{}
	for _, v := range t.Virtual {
		virtual[v.Col.Name] = true
		at[v.Pos] = true
	}
	var vals []Lit
	var cols []string
	for i, l := range st.Vals {
		v := at[i]
		if st.Cols != nil {
			v = i < len(st.Cols) && virtual[st.Cols[i]]
		}
		if v != (l.Type == LDefault) {
			return fmt.Errorf("value %d is %v (virtual column: %v)", i+1, l, v)
		}
		if !v {
			vals = append(vals, l)
			if st.Cols != nil {
				cols = append(cols, st.Cols[i])
			}
		}
	}
	st.Vals, st.Cols = vals, cols
	return nil
}

// shownCols counts the columns of the SQL table; the hidden one is the last.
func (t *Table) shownCols() int {
	n := len(t.Cols)
	if n > 0 && t.Cols[n-1].Hidden {
		n--
	}
	return n
}

// compareRows demands exactly these rows in this order, every value exact for
// the selected columns.
func (c *Case) compareRows(t *Table, rows []*Row, sts []*Stmt, loc *time.Location, sel func(*Column) bool) error {
	if len(sts) != len(rows) {
		return fmt.Errorf("%d statements printed, %d records expected", len(sts), len(rows))
	}
	n := 0
	for i, st := range sts {
		for k, col := range t.Cols {
			if sel != nil && !sel(col) || col.Hidden {
				continue
			}
			if err := col.Match(rows[i].Vals[k], st.Vals[k], loc); err != nil {
				return fmt.Errorf("record %d of %d: %v", i+1, len(rows), err)
			}
			n++
		}
	}
	if len(t.Virtual) > 0 && len(rows) > 0 {
		c.Count("tables_with_virtual_columns", 1)
	}
	c.Count("values_compared", n)
	c.Count("rows_compared", len(rows))
	return nil
}

// compareIDs demands exactly these rows, identified by row_uid, in this order.
func compareIDs(t *Table, rows []*Row, sts []*Stmt) error {
	id := t.idCol()
	var want, got []string
	for _, r := range rows {
		want = append(want, fmt.Sprint(r.Vals[id].U))
	}
	for _, st := range sts {
		l := st.Vals[id]
		s := l.Text
		if l.Type == LStr {
			s = string(l.B)
		}
		got = append(got, s)
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("record %d of %d (row_uid %s) is missing: %d printed", i+1, len(want), want[i], len(got))
		case i >= len(want):
			return fmt.Errorf("an extra record is printed (row_uid %s): %d expected, %d printed", got[i], len(want), len(got))
		case want[i] != got[i]:
			return fmt.Errorf("record %d: row_uid %s expected, %s printed (%d expected, %d printed)", i+1, want[i], got[i], len(want), len(got))
		}
	}
	return nil
}

var zoneUTC = time.UTC
