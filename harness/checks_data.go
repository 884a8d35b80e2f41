package main

import (
	"fmt"
	"strings"
)

var simpleKinds = []Kind{KInt, KInt, KVarMB, KDouble, KBlob, KDecimal}

func init() {
	checks["C01"] = &Check{
		Rule: "random table (COMPACT or REDUNDANT, any key), random .ibd with 0..60 leaf pages of shuffled heaps, gaps, delete-marked and free-listed records; the multiset and order of row_uid values printed by PrintData is compared with the record chains; non-trivial: at least two leaf records; distinct by layout",
		Run: func(h *Harness) {
			h.Parallel("chain", h.Scale(8000, 300000), func(c *Case) error { return rowSetCase(c, false, false, false) })
			h.Parallel("far", h.Scale(40, 2000), func(c *Case) error { return rowSetCase(c, false, false, true) })
		},
	}
	checks["C02"] = &Check{
		Rule: "as C01, with free lists of 0..n records on every leaf page (including pages whose every record is free, and pages with fragmented garbage); row_uid values printed by RecoveryData are compared with the free lists; non-trivial: at least one free record",
		Run: func(h *Harness) {
			h.Parallel("free", h.Scale(8000, 300000), func(c *Case) error { return rowSetCase(c, true, false, false) })
			h.Parallel("far", h.Scale(40, 2000), func(c *Case) error { return rowSetCase(c, true, false, true) })
		},
	}
	checks["C03"] = &Check{
		Rule: "as C01/C02, with secondary-index leaf pages, node-pointer pages with and without free lists, BLOB pages whose bytes look like a clustered leaf, undo, allocated, zero and partial pages mixed in; both operations; non-trivial: at least one page of another kind that carries records of the table",
		Run: func(h *Harness) {
			h.Parallel("pages", h.Scale(8000, 300000), func(c *Case) error { return rowSetCase(c, c.N%2 == 1, true, false) })
			h.Parallel("far", h.Scale(40, 2000), func(c *Case) error { return rowSetCase(c, c.N%2 == 1, true, true) })
		},
	}
}

// farPages gives page numbers in a large, mostly empty file.
func farPages(r *Rng) []uint32 {
	var out []uint32
	for _, n := range []int{255, 1023, 16382, 32766, 65534} {
		if n < 20000 && r.P(60) || r.P(15) || n == 65534 && r.P(25) {
			out = append(out, uint32(n+r.N(4)))
		}
	}
	if r.P(40) {
		out = out[len(out)/2:]
	}
	if len(out) == 0 {
		out = append(out, uint32(r.Range(1000, 5000)))
	}
	return out
}

func rowSetCase(c *Case, recover, others, far bool) error {
	r := c.R
	o := &GenOpt{Kinds: simpleKinds, MinCols: 0, MaxCols: r.Pick(1, 3, 8, 20), NullPct: r.Pick(0, 40), MaxLen: r.Pick(20, 300, 2000), NoSecs: !others}
	o.MinCols = 1
	o.PKFirst = !others || r.P(50)
	t := fitTable(r, o)
	addUIDKeepKey(r, t, o.PKFirst)
	t.genExt(r, 0, 0, 0, 25)
	c.nameTable(t)
	if others && len(t.Secs) == 0 {
		t.Secs = append(t.Secs, SecIndex{Name: "idx_uid", Cols: []int{t.idCol()}})
	}
	d, _ := c.schema(t, plainDict(r), r.N(3))
	n := r.Pick(0, 1, 2, 5, 20, 60, 200, r.N(400), r.N(400))
	if r.P(3) {
		n = r.Range(500, 1500)
	}
	maxB := r.Pick(80, 200, 800, 3000, 7000)
	freePct := r.Pick(0, 10, 50, 100)
	if recover && r.P(80) {
		freePct = r.Pick(10, 50, 100)
	}
	if !t.HasPK() || freePct == 100 {
		t.DupPct = r.Pick(0, 30)
	}
	rows := t.genRows(r, n, maxB)
	per := r.Pick(1, 2, 7, 30, 1000)
	if far {
		per = r.Pick(1, 2, 7)
	}
	leaves := SplitLeaves(r, t, rows, per, r.Pick(0, 20), freePct)
	io := IbdOpt{Shuffle: r.P(70), Gaps: r.P(50), PermPages: r.P(50), NonLeaf: r.P(30)}
	if others {
		io = randIbdOpt(r)
		io.SecPages = true
		io.NonLeaf = true
		io.OtherPages = r.P(80)
	}
	if far {
		io.Far = farPages(r)
	}
	f := BuildIbd(r, t, leaves, io)
	sys := c.Write("ibdata1", d.Bytes)
	data := c.WriteIbd("t.ibd", f)
	res := c.runData(t, sys, data, recover, RunOpt{Level: r.PickS("fatal", "fatal", "fatal", "info")})
	want := f.PrintRows()
	if recover {
		want = f.FreeRows()
	}
	c.Desc("%s; %d rows on %d leaf pages (%v), recover=%v, %d records expected", t.Describe(), n, len(leaves), f.Kinds, recover, len(want))
	if err := cleanRun(res); err != nil {
		return err
	}
	if res.Watchdog {
		return nil
	}
	sts, err := replaceStmts(t, res.Out)
	if err != nil {
		return err
	}
	if err := compareIDs(t, want, sts); err != nil {
		return err
	}
	c.Count("records_expected_and_seen", len(want))
	c.Count("leaf_pages", len(leaves))
	if far && len(f.Leaves) > 0 {
		c.Shape("last_leaf_page", fmt.Sprint(f.Leaves[len(f.Leaves)-1].No))
	}
	for _, l := range f.Leaves {
		c.Shape("records_on_a_page", fmt.Sprint(len(l.Rows)+len(l.Free)))
	}
	for k, v := range f.Kinds {
		c.Count("pages."+k, v)
	}
	nd, nf := 0, len(f.FreeRows())
	for _, row := range f.PrintRows() {
		if row.Deleted {
			nd++
		}
	}
	c.Count("delete_marked_in_chain", nd)
	c.Count("free_list_records", nf)
	c.Shape("layout", fmt.Sprintf("red=%v leaves=%d rows=%d free=%d shuffle=%v gaps=%v perm=%v", t.Redundant, len(leaves), n, nf, io.Shuffle, io.Gaps, io.PermPages))
	nt := len(want) >= 2
	if recover && !others {
		nt = len(want) >= 1
	}
	if others {
		nt = f.Kinds["secondary-leaf"]+f.Kinds["clustered-nonleaf"]+f.Kinds["blob-index-like"] > 0 && n > 0
	}
	if nt {
		c.Key = fmt.Sprintf("%v %d %d %d %v %v", t.Redundant, len(leaves), len(want), n, io, f.Kinds)
	}
	return nil
}

func addUIDKeepKey(r *Rng, t *Table, keyFirst bool) {
	if !keyFirst {
		addUID(r, t)
		return
	}
	// behind the key columns
	c := &Column{Name: "row_uid", Kind: KInt, Size: 8, Unsigned: true}
	at := len(t.PK) + r.N(len(t.Cols)-len(t.PK)+1)
	t.Cols = append(t.Cols[:at], append([]*Column{c}, t.Cols[at:]...)...)
	for i := range t.Secs {
		for j := range t.Secs[i].Cols {
			if t.Secs[i].Cols[j] >= at {
				t.Secs[i].Cols[j]++
			}
		}
	}
}

// ---- values ----

type valueFamily struct {
	kinds []Kind
	null  int
	pkOK  bool
}

var families = map[string]valueFamily{
	"C04": {intKinds, 20, true},
	"C05": {timeKinds, 20, true},
	"C06": {[]Kind{KFloat, KDouble}, 20, true},
	"C07": {[]Kind{KCharL1, KCharMB, KVarL1, KVarMB, KBinary, KVarbinary, KText, KBlob}, 20, true},
	"C08": {allKinds, 90, true},
	"C25": {[]Kind{KVarL1, KVarMB, KVarbinary, KText, KBlob}, 20, true},
}

var familyRule = map[string]string{
	"C04": "TINYINT..BIGINT signed and unsigned, ENUM, SET, BIT(1..64), YEAR columns",
	"C05": "DATE, TIME, DATETIME and TIMESTAMP columns, under several process time zones",
	"C06": "FLOAT and DOUBLE columns (boundaries, subnormals, random bit patterns)",
	"C07": "CHAR, VARCHAR (latin1 and multi-byte), BINARY, VARBINARY, TEXT and BLOB columns, lengths around 0, 127/128, 255/256 and the column maximum, hostile bytes",
	"C25": "VARCHAR, VARBINARY, TEXT and BLOB columns of which up to all values are stored off-page (no local part or 768 bytes of it; 1 to 5 off-page pages, lengths at the page boundaries, pages in any order, freed values in free-listed records),",
	"C08": "nullable columns of every type, up to 40 of them, NULL and NULL-like values",
}

func init() {
	for id := range families {
		id := id
		checks[id] = &Check{
			Rule: "random table with " + familyRule[id] + "; random rows printed with PrintData (chain) and RecoveryData (free list), COMPACT and REDUNDANT; each printed literal is read as MySQL reads it and compared with the stored value; distinct by column declarations; non-trivial: at least one value of the family compared",
			Run: func(h *Harness) {
				h.Parallel("values", h.Scale(10000, 300000), func(c *Case) error { return valueCase(c, id, "") })
				if id == "C25" {
					h.Parallel("far", h.Scale(30, 1500), func(c *Case) error { return valueCase(c, id, "far") })
					h.Parallel("huge", h.Scale(6, 60), func(c *Case) error { return valueCase(c, id, "huge") })
				}
			},
		}
	}
}

func valueCase(c *Case, id, special string) error {
	r := c.R
	fam := families[id]
	o := &GenOpt{Kinds: fam.kinds, MinCols: 1, MaxCols: r.Pick(1, 3, 6, 12, 40), NullPct: fam.null, MaxLen: r.Pick(0, 0, 100, 300, 4000, 65535), NoSecs: r.P(70), PKFirst: true}
	o.PKMode = r.Pick(1, 1, 2)
	if r.P(30) && id != "C08" {
		o.Kinds = append(append([]Kind{}, fam.kinds...), KInt, KVarMB, KDouble)
	}
	if id == "C25" {
		o.MaxCols = r.Pick(1, 2, 3, 6)
		o.MaxLen = r.Pick(0, 1000, 4000, 65535, 65535)
	}
	if special == "huge" {
		o.MaxCols = 2
		o.ForceColumns = append(o.ForceColumns, &Column{Kind: Kind(r.Pick(int(KText), int(KBlob))), Size: 12})
	}
	if id == "C08" && r.P(6) {
		o.wide(r)
	}
	if id == "C07" && r.P(30) {
		// all collations in turn
		n := len(oneByteColls)
		at := (int(c.N)*2 + r.N(2)) % n
		for i := 0; i < 2; i++ {
			size := r.Pick(1, 10, 255)
			o.ForceColumns = append(o.ForceColumns, &Column{Kind: KCharL1, Size: size, Chars: size, Coll: oneByteColls[(at+i*n/2)%n]})
		}
		for w := 2; w <= 4; w++ {
			ids := multiByteColls[w]
			chars := r.Pick(1, 10, 60)
			id := ids[(c.N+r.N(2))%len(ids)]
			o.ForceColumns = append(o.ForceColumns, &Column{Kind: KCharMB, MB: w, Size: w * chars, Chars: chars, Coll: id})
			if ids = wideColls[w]; ids != nil {
				x := &Column{Kind: KCharMB, MB: w, Size: w * chars, Chars: chars, Coll: ids[(c.N/3+r.N(2))%len(ids)]}
				if x.unit() == w {
					x.Kind = KCharL1
				}
				o.ForceColumns = append(o.ForceColumns, x)
			}
		}
	}
	t := fitTable(r, o)
	if id == "C25" {
		t.genExt(r, 30, 60, 100)
	} else {
		t.genExt(r, 0, 0, 0, 20)
	}
	n := r.Pick(1, 5, 20, 60)
	if special == "huge" {
		t.ExtPct, t.ExtMax, n = 100, r.Pick(200000, 1<<20, 17<<20), r.Pick(1, 2)
	}
	c.nameTable(t)
	d, _ := c.schema(t, plainDict(r), r.N(2))
	rows := t.genRows(r, n, r.Pick(300, 2000, 7000, 8000))
	recover := r.P(40)
	free := 0
	if recover {
		free = r.Pick(50, 100)
	}
	leaves := SplitLeaves(r, t, rows, r.Pick(3, 1000), 10, free)
	io := IbdOpt{Shuffle: r.P(50), PermPages: r.P(30), OtherPages: id == "C25" && r.P(30)}
	if special == "far" {
		io.Far = farPages(r)
	}
	f := BuildIbd(r, t, leaves, io)
	want := f.PrintRows()
	if recover {
		want = f.FreeRows()
	}
	sys := c.Write("ibdata1", d.Bytes)
	data := c.WriteIbd("t.ibd", f)
	zone, loc := "UTC", zoneUTC
	if id == "C05" {
		zone, loc = c.zone()
		c.Shape("time_zones", zone)
	}
	res := c.runData(t, sys, data, recover, RunOpt{TZ: zone})
	c.Desc("%s; %d records expected, recover=%v, TZ=%s", t.Describe(), len(want), recover, zone)
	if len(want) > 0 {
		c.Desc("first row: %s", t.ShowRow(want[0]))
	}
	if err := cleanRun(res); err != nil {
		return err
	}
	if res.Watchdog {
		return nil
	}
	sts, err := replaceStmts(t, res.Out)
	if err != nil {
		return err
	}
	in := map[Kind]bool{}
	for _, k := range fam.kinds {
		in[k] = true
	}
	sel := func(col *Column) bool { return in[col.Kind] }
	if id == "C08" {
		// NULL-ness only: which values are NULL, and that no other value reads as NULL
		if len(sts) != len(want) {
			return fmt.Errorf("%d statements printed, %d records expected", len(sts), len(want))
		}
		for i, st := range sts {
			for k, col := range t.Cols {
				v := want[i].Vals[k]
				if col.Hidden {
					continue
				}
				if v.Null != (st.Vals[k].Type == LNull) {
					return fmt.Errorf("record %d: column %s %s: stored %s, printed %s", i+1, col.Name, col.Decl(), col.Show(v), st.Vals[k])
				}
				if v.Null {
					c.Count("nulls_seen", 1)
				} else {
					c.Count("non_nulls_seen", 1)
				}
			}
		}
	} else if err := c.compareRows(t, want, sts, loc, sel); err != nil {
		return err
	}
	decls := map[string]bool{}
	nn, ext := 0, 0
	for k, col := range t.Cols {
		c.Shape("declarations", col.Decl())
		if col.Hidden {
			c.Count("tables_with_hidden_columns", 1)
			continue
		}
		c.Shape("kinds", col.Kind.String())
		decls[col.Decl()] = true
		for _, row := range want {
			v := row.Vals[k]
			if col.Nullable {
				c.Count("nullable_values", 1)
			}
			if !v.Null && col.VarLen() {
				c.Shape("lengths", fmt.Sprintf("%v big=%v red=%v %d", col.Kind, col.Big(), t.Redundant, len(v.B)))
			}
			if v.Ext && !v.Gone {
				c.Count("off_page_values_compared", 1)
				c.Shape("off_page_shapes", fmt.Sprintf("%v red=%v local=%d pages=%d", col.Kind, t.Redundant, len(v.B)-20, (len(v.Full)-len(v.B)+20+blobPart-1)/blobPart))
				ext++
			}
			if v.Gone {
				c.Count("freed_values_skipped", 1)
			}
			if !v.Null && in[col.Kind] {
				c.Shape("values", col.Decl()+col.Show(v))
				nn++
			}
		}
	}
	if id == "C25" && ext == 0 {
		return nil
	}
	if nn > 0 || id == "C08" && len(want) > 0 {
		var l []string
		for _, col := range t.Cols {
			l = append(l, col.Decl())
		}
		c.Key = strings.Join(l, ",") + fmt.Sprint(t.Redundant, recover, len(want))
	}
	return nil
}
