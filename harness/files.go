package main

// Whole data files: .ibd tablespaces and the ibdata1 data dictionary.

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// ---- .ibd ----

// LeafSpec is a clustered leaf page of a tablespace.
type LeafSpec struct {
	Rows []*Row // in chain order
	Free []*Row // in free-list order
	No   uint32
}

type IbdOpt struct {
	Shuffle    bool // heap order unrelated to key order
	Gaps       bool
	PermPages  bool // leaf page numbers unrelated to key order
	SecPages   bool
	NonLeaf    bool
	OtherPages bool
	TailBytes  int // trailing partial page
	ZeroTail   int // trailing all-zero (allocated, never written) pages
	// Far: page numbers at which the numbering goes on; the pages between are
	// never-written ones, and the file is kept as a sparse one.
	Far []uint32
}

type Ibd struct {
	Bytes  []byte
	Sparse map[uint32][]byte // with Far, instead of Bytes
	NPages uint32
	Leaves []*LeafSpec // in page-number order
	Kinds  map[string]int
	PageOf map[uint32]string
}

// PrintRows gives the rows a full print has to show, in order.
func (f *Ibd) PrintRows() []*Row {
	var out []*Row
	for _, l := range f.Leaves {
		out = append(out, l.Rows...)
	}
	return out
}

// FreeRows gives the rows on the free lists, in order.
func (f *Ibd) FreeRows() []*Row {
	var out []*Row
	for _, l := range f.Leaves {
		out = append(out, l.Free...)
	}
	return out
}

// BuildIbd lays out a tablespace with the given clustered leaves (in key order).
func BuildIbd(r *Rng, t *Table, leaves []*LeafSpec, o IbdOpt) *Ibd {
	f := &Ibd{Kinds: map[string]int{}, PageOf: map[uint32]string{}}
	pages := map[uint32][]byte{}
	lsn := uint64(1000000 + r.N(1<<30))
	nextNo := uint32(4 + len(t.Secs))
	addPlain := func(no uint32, typ int, name string, fill func([]byte)) {
		pages[no] = PlainPage(t.Space, no, typ, lsn+uint64(r.N(10000)), fill)
		f.Kinds[name]++
		f.PageOf[no] = name
	}
	addPlain(0, filFspHdr, "fsp", func(b []byte) { be32(b, 0, t.Space); be32(b, 8, 6); be32(b, 12, 64) })
	addPlain(1, filIbufBmp, "ibuf-bitmap", nil)
	addPlain(2, filInode, "inode", func(b []byte) {
		be32(b, 0, 0xffffffff)
		be32(b, 6, 0xffffffff)
		be64(b, 12, 1)
	})

	jump := func() {
		if len(o.Far) > 0 && r.P(60) {
			if o.Far[0] > nextNo {
				nextNo = o.Far[0]
			}
			o.Far = o.Far[1:]
		}
	}
	sparse := len(o.Far) > 0
	multi := len(leaves) > 1 || (o.NonLeaf && len(leaves) > 0)
	var nos []uint32
	if !multi {
		nos = []uint32{3}
	} else {
		for range leaves {
			// leave holes for other pages
			if o.OtherPages && r.P(30) {
				nextNo += uint32(1 + r.N(2))
			}
			jump()
			nos = append(nos, nextNo)
			nextNo++
		}
		if o.PermPages {
			p := r.Perm(len(nos))
			q := make([]uint32, len(nos))
			for i := range p {
				q[i] = nos[p[i]]
			}
			nos = q
		}
	}
	// the off-page values
	type part struct {
		ref  []byte // where the page number goes: in the record, or in the page before
		data []byte
	}
	var parts []part
	for _, l := range leaves {
		for i, row := range append(append([]*Row{}, l.Rows...), l.Free...) {
			for k := range row.Vals {
				v := &row.Vals[k]
				if !v.Ext {
					continue
				}
				ref := v.B[len(v.B)-20:]
				rest := v.Full[len(v.B)-20:]
				be32(ref, 0, t.Space)
				be32(ref, 8, 38)
				be32(ref, 16, uint32(len(rest)))
				ref[12] = byte(r.Pick(0, 0, 0x40, 0x80))
				if i >= len(l.Rows) && r.P(50) {
					// purged: the pages are free and the reference is cleared
					v.Gone = true
					be32(ref, 4, uint32(r.Pick(0xffffffff, 0xffffffff, r.N(100))))
					be32(ref, 16, 0)
					f.Kinds["off-page-freed"]++
					continue
				}
				f.Kinds["off-page-values"]++
				parts = append(parts, part{ref[4:], nil})
				for {
					n := len(rest)
					if n > blobPart {
						n = blobPart
					}
					b := make([]byte, 8+n)
					be32(b, 0, uint32(n))
					be32(b, 4, 0xffffffff)
					copy(b[8:], rest[:n])
					parts[len(parts)-1].data = b
					rest = rest[n:]
					if len(rest) == 0 {
						break
					}
					parts = append(parts, part{b[4:], nil})
				}
			}
		}
	}
	if len(parts) > 0 {
		var bnos []uint32
		for range parts {
			if o.OtherPages && r.P(10) {
				nextNo++
			}
			jump()
			bnos = append(bnos, nextNo)
			nextNo++
		}
		if o.PermPages {
			p := r.Perm(len(bnos))
			q := make([]uint32, len(bnos))
			for i := range p {
				q[i] = bnos[p[i]]
			}
			bnos = q
		}
		for i, p := range parts {
			be32(p.ref, 0, bnos[i])
		}
		for i, p := range parts {
			addPlain(bnos[i], filBlob, "blob-off-page", func(b []byte) { copy(b, p.data) })
		}
	}

	mkRecs := func(rows []*Row) []*Rec {
		var out []*Rec
		for _, row := range rows {
			rec := t.LeafRec(row)
			if o.Gaps && r.P(30) {
				rec.Slack = r.N(20)
			}
			out = append(out, rec)
		}
		return out
	}
	heap := func(n int) []int {
		if o.Shuffle {
			return r.Perm(n)
		}
		return nil
	}
	for i, l := range leaves {
		l.No = nos[i]
		p := &IndexPage{Compact: !t.Redundant, Space: t.Space, No: nos[i], Prev: 0xffffffff, Next: 0xffffffff,
			LSN: lsn + uint64(r.N(100000)), IndexID: t.PKID, Recs: mkRecs(l.Rows), Free: mkRecs(l.Free)}
		if i > 0 {
			p.Prev = nos[i-1]
		}
		if i < len(leaves)-1 {
			p.Next = nos[i+1]
		}
		p.Insert = r.Pick(0, 0, r.N(100), -1)
		p.Round256 = r.P(20)
		if o.Gaps {
			p.Lost = r.N(50)
			if len(p.Free) == 0 && r.P(50) {
				p.Lost = 0
			}
			if n := len(p.Recs) + len(p.Free); n > 0 && r.P(40) {
				// a full page: the heap reaches the directory
				p.FillAt = 1 + r.N(n)
				p.FillGap = r.N(20)
			}
		}
		p.HeapPerm = heap(len(p.Recs) + len(p.Free))
		pages[nos[i]] = p.Build()
		f.Kinds["clustered-leaf"]++
		f.PageOf[nos[i]] = "clustered-leaf"
		f.Leaves = append(f.Leaves, l)
	}
	if multi {
		var recs []*Rec
		for i, l := range leaves {
			key := &Row{}
			if len(l.Rows) > 0 {
				key = l.Rows[0]
			} else if len(l.Free) > 0 {
				key = l.Free[0]
			} else {
				key = t.GenRow(r, 1000, 1)
			}
			recs = append(recs, t.NodeRec(key, nos[i], i == 0))
		}
		room := pageRoom(!t.Redundant)
		for i, rec := range recs {
			if room -= rec.Size(!t.Redundant) + 1; room < 0 {
				recs = recs[:i]
				break
			}
		}
		p := &IndexPage{Compact: !t.Redundant, Space: t.Space, No: 3, Prev: 0xffffffff, Next: 0xffffffff,
			LSN: lsn, IndexID: t.PKID, Level: 1, Recs: recs}
		if len(recs) > 3 && r.P(30) {
			// node pointers removed by a merge
			p.Free = recs[len(recs)-1:]
			p.Recs = recs[:len(recs)-1]
		}
		p.HeapPerm = heap(len(recs))
		pages[3] = p.Build()
		f.Kinds["clustered-nonleaf"]++
		f.PageOf[3] = "clustered-nonleaf"
	}
	if len(leaves) == 0 {
		pages[3] = (&IndexPage{Compact: !t.Redundant, Space: t.Space, No: 3, Prev: 0xffffffff, Next: 0xffffffff,
			LSN: lsn, IndexID: t.PKID}).Build()
		f.Kinds["clustered-empty"]++
	}
	// secondary indexes
	for i, s := range t.Secs {
		no := uint32(4 + i)
		p := &IndexPage{Compact: !t.Redundant, Space: t.Space, No: no, Prev: 0xffffffff, Next: 0xffffffff,
			LSN: lsn, IndexID: s.ID, MaxTrx: uint64(r.N(1<<40) + 1)}
		switch r.N(6) {
		case 0:
			p.MaxTrx = uint64(1 + r.N(3))
		case 1:
			p.MaxTrx = uint64(1) << uint(r.N(48))
		case 2:
			p.MaxTrx = uint64(1+r.N(200)) << 32
		}
		if o.SecPages {
			room := pageRoom(!t.Redundant) / 2
			for _, l := range leaves {
				for _, row := range append(append([]*Row{}, l.Rows...), l.Free...) {
					rec := t.SecRec(s, row)
					if room -= rec.Size(!t.Redundant) + 1; room < 0 {
						break
					}
					if row.Deleted && r.P(50) {
						p.Free = append(p.Free, rec)
					} else {
						p.Recs = append(p.Recs, rec)
					}
				}
			}
			p.HeapPerm = heap(len(p.Recs) + len(p.Free))
		}
		pages[no] = p.Build()
		f.Kinds["secondary-leaf"]++
		f.PageOf[no] = "secondary-leaf"
	}
	max := uint32(0)
	for no := range pages {
		if no > max {
			max = no
		}
	}
	if o.OtherPages {
		max += uint32(r.N(3))
	}
	sort.Slice(f.Leaves, func(i, j int) bool { return f.Leaves[i].No < f.Leaves[j].No })
	if sparse {
		for no := uint32(16384); no <= max; no += 16384 {
			if pages[no] == nil {
				addPlain(no, filXdes, "xdes", func(b []byte) { copy(b, r.Bytes(1000)) })
			}
		}
		f.Sparse, f.NPages = pages, max+1+uint32(o.ZeroTail)
		return f
	}
	for no := uint32(0); no <= max; no++ {
		if pages[no] != nil {
			continue
		}
		switch r.N(5) {
		case 0:
			pages[no] = make([]byte, pageSize)
			f.Kinds["zero"]++
			f.PageOf[no] = "zero"
		case 1:
			addPlain(no, filBlob, "blob", func(b []byte) {
				copy(b, r.Bytes(len(b)))
				be32(b, 0, uint32(len(b)-8))
				be32(b, 4, 0xffffffff)
			})
		case 2:
			addPlain(no, filBlob, "blob-index-like", func(b []byte) {
				// user data that looks like an index page body
				src := pages[leafOr3(leaves)]
				copy(b, src[38:])
			})
		case 3:
			addPlain(no, filAllocated, "allocated", nil)
		case 4:
			addPlain(no, filUndo, "undo", func(b []byte) { copy(b, r.Bytes(200)) })
		}
	}
	var buf bytes.Buffer
	for no := uint32(0); no <= max; no++ {
		buf.Write(pages[no])
	}
	for i := 0; i < o.ZeroTail; i++ {
		buf.Write(make([]byte, pageSize))
		f.Kinds["zero"]++
	}
	if o.TailBytes > 0 {
		buf.Write(r.Bytes(o.TailBytes % pageSize))
	}
	f.Bytes = buf.Bytes()
	return f
}

func leafOr3(ls []*LeafSpec) uint32 {
	if len(ls) > 0 {
		return ls[0].No
	}
	return 3
}

// SplitLeaves distributes rows over leaves; at most per rows a page, bounded by room.
func SplitLeaves(r *Rng, t *Table, rows []*Row, per int, delPct, freePct int) []*LeafSpec {
	var out []*LeafSpec
	cur := &LeafSpec{}
	room := pageRoom(!t.Redundant)
	n := 0
	lim := r.Range(1, per)
	for _, row := range rows {
		switch {
		case r.P(freePct):
			row.Deleted = true
			row.Vals = append([]Value{}, row.Vals...)
		case r.P(delPct):
			row.Deleted = true
		}
		sz := t.LeafRec(row).Size(!t.Redundant) + 20
		if n >= lim || sz > room {
			out = append(out, cur)
			cur = &LeafSpec{}
			room = pageRoom(!t.Redundant)
			n = 0
			lim = r.Range(1, per)
		}
		if sz > room {
			panic(fmt.Sprintf("row too large: %d", sz))
		}
		room -= sz
		n++
		if row.Deleted && freePct > 0 && r.P(60) {
			if r.P(30) {
				// the old version of a row that was moved by an update or a page split
				row.Deleted = false
			}
			if r.P(50) {
				cur.Free = append(cur.Free, row)
			} else {
				cur.Free = append([]*Row{row}, cur.Free...)
			}
		} else {
			cur.Rows = append(cur.Rows, row)
		}
	}
	if n > 0 {
		out = append(out, cur)
	}
	return out
}

// ---- ibdata1 ----

type DictOpt struct {
	V57       bool // SYS_INDEXES has MERGE_THRESHOLD
	Per       int  // rows per dictionary leaf page at most (0: fill)
	Level2    bool // three-level trees where possible
	PermPages bool // leaf pages in an order unrelated to their keys
	Shuffle   bool
	Dblwr     bool // doublewrite copies (also stale) of dictionary pages
	Noise     bool // undo, blob and other pages
	BlobLike  bool // BLOB pages whose bytes look like dictionary pages
	Tail      int
	History   bool   // traces of dropped, renamed and truncated tables that are not purged yet
	Dropped   *Table // this table was dropped: its rows are delete-marked
	Purged    int    // so many of its rows are purged already: index fields, indexes, columns
}

type dictRow struct {
	key    string
	fields []Field
	nkey   int
	del    bool // delete-marked
	free   bool // on the free list: an old version, or purged
	gone   bool
}

func fb(b []byte) Field          { return Field{B: b} }
func f4(v uint32) Field          { return fb(beBytes(uint64(v), 4)) }
func f8(v uint64) Field          { return fb(beBytes(v, 8)) }
func fs(s string) Field          { return fb([]byte(s)) }
func fnull() Field               { return Field{Null: true} }
func sysTrx(r *Rng) (a, b Field) { return fb(beBytes(uint64(r.N(1<<30)), 6)), fb(r.Bytes(7)) }

func sysTables() []*Table {
	ch := func(n string) *Column { return &Column{Name: n, Kind: KVarL1, Size: 0} }
	in := func(n string) *Column { return &Column{Name: n, Kind: KInt, Size: 4, Unsigned: true} }
	return []*Table{
		{ID: 11, Name: "SYS_FOREIGN", Redundant: true, Cols: []*Column{ch("ID"), ch("FOR_NAME"), ch("REF_NAME"), in("N_COLS")}, PK: []int{0}, PKName: "ID_IND", PKID: 11},
		{ID: 12, Name: "SYS_FOREIGN_COLS", Redundant: true, Cols: []*Column{ch("ID"), in("POS"), ch("FOR_COL_NAME"), ch("REF_COL_NAME")}, PK: []int{0, 1}, PKName: "ID_IND", PKID: 14},
		{ID: 13, Name: "SYS_TABLESPACES", Redundant: true, Cols: []*Column{in("SPACE"), ch("NAME"), in("FLAGS")}, PK: []int{0}, PKName: "SYS_TABLESPACES_SPACE", PKID: 15},
		{ID: 14, Name: "SYS_DATAFILES", Redundant: true, Cols: []*Column{in("SPACE"), ch("PATH")}, PK: []int{0}, PKName: "SYS_DATAFILES_SPACE", PKID: 16},
		{ID: 15, Name: "SYS_VIRTUAL", Redundant: true, Cols: []*Column{{Name: "TABLE_ID", Kind: KInt, Size: 8, Unsigned: true}, in("POS"), in("BASE_POS")}, PK: []int{0, 1, 2}, PKName: "BASE_IDX", PKID: 17},
	}
}

type Dict struct {
	Bytes     []byte
	Tables    []*Table
	Leaves    map[string]int
	Levels    map[string]int
	Dblwr     int
	Old       int      // rows of dropped, renamed and older things
	Purgeable int      // rows of the dropped table but its SYS_TABLES row
	LeafNos   []uint32 // page numbers of dictionary leaf pages
	NPages    int
	rootPage  map[string]uint32
	IDs       map[uint64]bool            // all table ids, also of dropped tables
	Foreign   int                        // index pages of other indexes
	On        map[uint64]map[uint32]bool // per table id, the leaf pages that hold its records
	Inner     []uint32                   // other pages of the trees but the roots
}

// NewSchema assigns ids and spaces to tables.
func NewSchema(r *Rng, ts []*Table) {
	id := uint64(20 + r.N(1000))
	if r.P(10) {
		id = 1<<32 + uint64(r.N(1000))
	}
	idx := uint64(30 + r.N(2000))
	if r.P(10) {
		idx = 1<<32 + uint64(r.N(1000))
	}
	space := uint32(2 + r.N(500))
	far := r.P(15)
	for _, t := range ts {
		t.assign(id, &idx, space)
		id += uint64(1 + r.N(3))
		if far {
			// ids that have their low or high parts in common
			id += 1 << uint(r.Pick(8, 16, 24, 31, 32, 40)) * uint64(r.N(3))
			if r.P(30) {
				id -= uint64(1 + r.N(3))
			}
			for k := 0; k < len(ts); k++ {
				if id == ts[k].ID {
					id, k = id+1, -1
				}
			}
			idx += 1 << uint(r.Pick(8, 16, 24, 31, 32, 40)) * uint64(r.N(3))
		}
		space += uint32(1 + r.N(3))
	}
}

// BuildDict makes an ibdata1 holding the dictionary of the tables.
func BuildDict(r *Rng, user []*Table, o DictOpt) *Dict {
	tables := append(sysTables(), user...)
	var st, sc, si, sf []dictRow
	for _, t := range tables {
		name := t.key()
		trx, roll := sysTrx(r)
		ncols := uint32(len(t.Cols) + len(t.Virtual)<<16)
		typ := uint32(1)
		if !t.Redundant {
			ncols |= 0x80000000
			if r.P(50) {
				typ = 33 // DYNAMIC
			}
			if t.Zip != 0 {
				typ = 33 | uint32(t.Zip)<<1
			}
		}
		if r.P(10) && t.DB != "" {
			typ |= 64 // DATA DIRECTORY
		}
		st = append(st, dictRow{key: name, nkey: 1, fields: []Field{fs(name), trx, roll, f8(t.ID), f4(ncols), f4(typ), f8(0), f4(uint32(r.Pick(0, 64, 80))), fnull(), f4(t.Space)}})
		for i, c := range t.Cols {
			m, p, l := c.Dict()
			trx, roll := sysTrx(r)
			sc = append(sc, dictRow{key: string(beBytes(t.ID, 8)) + string(beBytes(uint64(i), 4)), nkey: 2,
				fields: []Field{f8(t.ID), f4(uint32(i)), trx, roll, fs(c.Name), f4(m), f4(p), f4(l), f4(0)}})
		}
		for i, v := range t.Virtual {
			// dict_create_v_col_pos
			m, p, l := v.Col.Dict()
			trx, roll := sysTrx(r)
			pos := uint32((i+1)<<16 + v.Pos)
			sc = append(sc, dictRow{key: string(beBytes(t.ID, 8)) + string(beBytes(uint64(pos), 4)), nkey: 2,
				fields: []Field{f8(t.ID), f4(pos), trx, roll, fs(v.Col.Name), f4(m), f4(p | prVirtual), f4(l), f4(uint32(1 + v.Pos%2))}})
		}
		type ix struct {
			id   uint64
			name string
			cols []int
			typ  uint32
			pre  []int
		}
		var ixs []ix
		switch {
		case !t.HasPK():
			ixs = append(ixs, ix{t.PKID, "GEN_CLUST_INDEX", nil, 1, nil})
		default:
			ixs = append(ixs, ix{t.PKID, t.PKName, t.PK, 3, t.PKPre})
		}
		for _, s := range t.Secs {
			ty := uint32(0)
			if s.Unique {
				ty = 2
			}
			ixs = append(ixs, ix{s.ID, s.Name, s.Cols, ty, s.Pre})
		}
		for i, v := range t.Virtual {
			if v.Index != 0 {
				// 128: DICT_VIRTUAL
				ixs = append(ixs, ix{v.Index, "v" + fmt.Sprint(i), []int{len(t.Cols) + i}, 128, nil})
			}
		}
		for j, x := range ixs {
			trx, roll := sysTrx(r)
			fl := []Field{f8(t.ID), f8(x.id), trx, roll, fs(x.name), f4(uint32(len(x.cols))), f4(x.typ), f4(t.Space), f4(uint32(3 + j))}
			if o.V57 {
				fl = append(fl, f4(50))
			}
			si = append(si, dictRow{key: string(beBytes(t.ID, 8)) + string(beBytes(x.id, 8)), nkey: 2, fields: fl})
			any := false
			for _, n := range x.pre {
				any = any || n > 0
			}
			for k, c := range x.cols {
				trx, roll := sysTrx(r)
				pos := uint32(k)
				if any {
					// dict_create_sys_fields_tuple
					pos = pos<<16 + uint32(x.pre[k]*t.Cols[c].mbMaxLen())
				}
				name := ""
				if c < len(t.Cols) {
					name = t.Cols[c].Name
				} else {
					name = t.Virtual[c-len(t.Cols)].Col.Name
				}
				sf = append(sf, dictRow{key: string(beBytes(x.id, 8)) + string(beBytes(uint64(pos), 4)), nkey: 2,
					fields: []Field{f8(x.id), f4(pos), trx, roll, fs(name)}})
			}
		}
	}
	d := &Dict{Tables: user, Leaves: map[string]int{}, Levels: map[string]int{}}
	if o.Dropped != nil {
		d.drop(r, o.Dropped, o.Purged, &st, &sc, &si, &sf)
	}
	if o.History {
		d.history(r, user, o, &st, &sc, &si, &sf)
	}
	d.IDs = map[uint64]bool{}
	for _, rows := range [][]dictRow{st, sc, si} {
		for _, row := range rows {
			for i, f := range row.fields {
				if i == 0 || i == 3 && len(row.fields) == 10 {
					if len(f.B) == 8 {
						d.IDs[u64(f.B)] = true
					}
				}
			}
		}
	}
	pages := map[uint32][]byte{}
	lsn := uint64(5000000 + r.N(1<<20))
	put := func(no uint32, b []byte) { pages[no] = b }
	put(0, PlainPage(0, 0, filFspHdr, lsn, func(b []byte) { be32(b, 8, 768); be32(b, 12, 704) }))
	put(1, PlainPage(0, 1, filIbufBmp, lsn, nil))
	put(2, PlainPage(0, 2, filInode, lsn, nil))
	put(3, PlainPage(0, 3, filSys, lsn, nil))
	put(4, (&IndexPage{Space: 0, No: 4, Prev: 0xffffffff, Next: 0xffffffff, LSN: lsn, IndexID: 0xffffffff00000000}).Build())
	put(5, PlainPage(0, 5, filTrxSys, lsn, nil))
	put(6, PlainPage(0, 6, filSys, lsn, nil))
	hdr := map[string]uint32{"SYS_TABLES": 8, "SYS_TABLE_IDS": 9, "SYS_COLUMNS": 10, "SYS_INDEXES": 11, "SYS_FIELDS": 12}
	if r.P(20) {
		// the header says where the roots are; do not depend on the usual numbers
		p := r.Perm(5)
		i := 0
		for _, k := range []string{"SYS_TABLES", "SYS_TABLE_IDS", "SYS_COLUMNS", "SYS_INDEXES", "SYS_FIELDS"} {
			hdr[k] = uint32(8 + p[i])
			i++
		}
	}
	d.rootPage = hdr
	put(7, PlainPage(0, 7, filSys, lsn, func(b []byte) {
		be64(b, 0, 0x200)
		be64(b, 8, 1000)
		be64(b, 16, 2000)
		be32(b, 24, 600)
		be32(b, 28, 10)
		be32(b, 32, hdr["SYS_TABLES"])
		be32(b, 36, hdr["SYS_TABLE_IDS"])
		be32(b, 40, hdr["SYS_COLUMNS"])
		be32(b, 44, hdr["SYS_INDEXES"])
		be32(b, 48, hdr["SYS_FIELDS"])
	}))
	// SYS_TABLES secondary index on ID: index 5, a normal secondary page
	{
		p := &IndexPage{No: hdr["SYS_TABLE_IDS"], Prev: 0xffffffff, Next: 0xffffffff, LSN: lsn, IndexID: 5, MaxTrx: 77}
		room := 12000
		for _, row := range st {
			if row.free {
				continue
			}
			rec := &Rec{Fields: []Field{row.fields[3], row.fields[0]}, Deleted: row.del}
			if room -= rec.Size(false); room < 0 {
				break
			}
			p.Recs = append(p.Recs, rec)
		}
		put(hdr["SYS_TABLE_IDS"], p.Build())
	}
	// pages of the trees, beyond the doublewrite area when there is one
	base := uint32(13)
	if o.Dblwr {
		base = 30
	}
	type pending struct {
		no   uint32
		p    *IndexPage
		rows []dictRow
	}
	d.On = map[uint64]map[uint32]bool{}
	owner := map[uint64]uint64{} // of index ids
	for _, t := range user {
		owner[t.PKID] = t.ID
		for _, s := range t.Secs {
			owner[s.ID] = t.ID
		}
	}
	// where notes that the rows of a dictionary table are on a page
	where := func(idx uint64, no uint32, rows []dictRow) {
		for _, row := range rows {
			if row.free {
				continue
			}
			f := row.fields[0]
			if idx == 1 {
				f = row.fields[3]
			}
			id := u64(f.B)
			if idx == 4 {
				id = owner[id]
			}
			if d.On[id] == nil {
				d.On[id] = map[uint32]bool{}
			}
			d.On[id][no] = true
		}
	}
	var leaves []pending
	build := func(name string, idx uint64, rows []dictRow) {
		sort.SliceStable(rows, func(i, j int) bool { return rows[i].key < rows[j].key })
		var groups [][]dictRow
		var g []dictRow
		room := pageRoom(false)
		lim := 1 << 30
		if o.Per > 0 {
			lim = r.Range(1, o.Per)
		}
		for _, row := range rows {
			sz := (&Rec{Fields: row.fields}).Size(false)
			if sz > room || len(g) >= lim {
				groups = append(groups, g)
				g = nil
				room = pageRoom(false)
				if o.Per > 0 {
					lim = r.Range(1, o.Per)
				}
			}
			room -= sz
			g = append(g, row)
		}
		groups = append(groups, g)
		d.Leaves[name] = len(groups)
		mk := func(no uint32, level int, rows []dictRow, recs []*Rec) *IndexPage {
			p := &IndexPage{No: no, Prev: 0xffffffff, Next: 0xffffffff, LSN: lsn + uint64(r.N(10000)), IndexID: idx, Level: level, Recs: recs}
			for _, row := range rows {
				rec := &Rec{Fields: row.fields, Deleted: row.del || row.free}
				if row.free {
					p.Free = append(p.Free, rec)
				} else {
					p.Recs = append(p.Recs, rec)
				}
			}
			if o.Shuffle {
				p.HeapPerm = r.Perm(len(p.Recs) + len(p.Free))
			}
			return p
		}
		if len(groups) == 1 {
			d.Levels[name] = 0
			p := mk(hdr[name], 0, groups[0], nil)
			put(hdr[name], p.Build())
			d.LeafNos = append(d.LeafNos, hdr[name])
			where(idx, hdr[name], groups[0])
			return
		}
		node := func(row dictRow, child uint32, min bool) *Rec {
			rec := &Rec{Status: 1, MinRec: min}
			rec.Fields = append(rec.Fields, row.fields[:row.nkey]...)
			rec.Fields = append(rec.Fields, f4(child))
			return rec
		}
		type child struct {
			row dictRow
			no  uint32
		}
		var kids []child
		var prev *IndexPage
		for _, g := range groups {
			leaves = append(leaves, pending{0, mk(0, 0, g, nil), g})
			kids = append(kids, child{g[0], uint32(len(leaves) - 1)})
			_ = prev
		}
		// page numbers are assigned below; node pointers hold indices until then
		levels := 1
		for (o.Level2 && levels == 1 && len(kids) > 3) || len(kids) > 150 {
			per := 100
			if levels == 1 && o.Level2 && len(kids) <= 150 {
				per = (len(kids) + 1) / 2
			}
			var up []child
			for i := 0; i < len(kids); i += per {
				j := i + per
				if j > len(kids) {
					j = len(kids)
				}
				var recs []*Rec
				for k := i; k < j; k++ {
					recs = append(recs, node(kids[k].row, kids[k].no, k == 0))
				}
				leaves = append(leaves, pending{0, mk(0, levels, nil, recs), nil})
				up = append(up, child{kids[i].row, uint32(len(leaves) - 1)})
			}
			kids = up
			levels++
		}
		var recs []*Rec
		for k := range kids {
			recs = append(recs, node(kids[k].row, kids[k].no, k == 0))
		}
		d.Levels[name] = levels
		root := mk(hdr[name], levels, nil, recs)
		leaves = append(leaves, pending{hdr[name], root, nil})
	}
	build("SYS_TABLES", 1, st)
	build("SYS_COLUMNS", 2, sc)
	build("SYS_INDEXES", 3, si)
	build("SYS_FIELDS", 4, sf)

	// assign page numbers
	var idxs []int
	for i, l := range leaves {
		if l.no == 0 {
			idxs = append(idxs, i)
		}
	}
	order := idxs
	if o.PermPages {
		p := r.Perm(len(idxs))
		order = make([]int, len(idxs))
		for i := range p {
			order[i] = idxs[p[i]]
		}
	}
	no := base
	for _, i := range order {
		if o.Noise && r.P(25) {
			no += uint32(1 + r.N(2))
		}
		leaves[i].no = no
		no++
	}
	for i := range leaves {
		p := leaves[i].p
		p.No = leaves[i].no
		if p.Level > 0 {
			for _, rec := range p.Recs {
				last := &rec.Fields[len(rec.Fields)-1]
				k := uint32(last.B[0])<<24 | uint32(last.B[1])<<16 | uint32(last.B[2])<<8 | uint32(last.B[3])
				*last = f4(leaves[k].no)
			}
		} else {
			d.LeafNos = append(d.LeafNos, p.No)
			where(p.IndexID, p.No, leaves[i].rows)
		}
		if p.Level > 0 && p.No >= base {
			d.Inner = append(d.Inner, p.No)
		}
		put(p.No, p.Build())
	}
	max := no
	if o.Noise {
		max += uint32(r.N(4))
	}
	if o.Dblwr {
		// The doublewrite area holds whole page images with their own header:
		// copies and older versions of dictionary pages, and pages of tables.
		nos := make([]uint32, 0, len(pages))
		for k := range pages {
			if k >= 7 {
				nos = append(nos, k)
			}
		}
		sort.Slice(nos, func(i, j int) bool { return nos[i] < nos[j] })
		for k := uint32(13); k < base; k++ {
			switch r.N(4) {
			case 0: // an identical copy
				put(k, append([]byte{}, pages[nos[r.N(len(nos))]]...))
				d.Dblwr++
			case 1: // an older version of a leaf page: some records missing
				if len(leaves) > 0 {
					l := leaves[r.N(len(leaves))]
					q := *l.p
					q.LSN--
					if len(q.Recs) > 0 {
						q.Recs = append([]*Rec{}, q.Recs[:r.N(len(q.Recs))]...)
					}
					q.HeapPerm = nil
					q.Free = nil
					put(k, q.Build())
					d.Dblwr++
				}
			case 2: // a page of a user tablespace that has the number of a dictionary page
				t := user[r.N(len(user))]
				p := &IndexPage{Compact: !t.Redundant, Space: t.Space, No: nos[r.N(len(nos))], IndexID: t.PKID, LSN: lsn}
				row := t.GenRow(r, 3000, 5)
				p.Recs = []*Rec{t.LeafRec(row)}
				put(k, p.Build())
				d.Dblwr++
			}
		}
	}
	for k := uint32(0); k < max; k++ {
		if pages[k] != nil {
			continue
		}
		switch r.N(5) {
		case 4:
			// of another index in the system tablespace
			p := &IndexPage{No: k, Prev: 0xffffffff, Next: 0xffffffff, LSN: lsn, IndexID: d.otherIndex(r)}
			if len(leaves) > 0 && r.P(30) {
				l := leaves[r.N(len(leaves))].p
				p.Recs, p.Free, p.Level = l.Recs, l.Free, l.Level
			} else {
				t := user[r.N(len(user))]
				p.Compact = !t.Redundant
				for n := r.N(3); n >= 0; n-- {
					p.Recs = append(p.Recs, t.LeafRec(t.GenRow(r, 2000, 5)))
				}
			}
			pages[k] = p.Build()
			d.Foreign++
		case 0:
			pages[k] = make([]byte, pageSize)
		case 1:
			pages[k] = PlainPage(0, k, filUndo, lsn, func(b []byte) {
				copy(b, r.Bytes(2000))
				// undo page and segment headers: never index-like at the index id
				be64(b, 28, 0xfffffffffffffff0)
			})
		case 2:
			pages[k] = PlainPage(0, k, filBlob, lsn, func(b []byte) {
				copy(b, r.Bytes(len(b)))
				be64(b, 28, 0xfffffffffffffff0)
				if o.BlobLike {
					be64(b, 28, uint64(r.Range(1, 4)))
				}
			})
		default:
			pages[k] = PlainPage(0, k, filIbufFree, lsn, nil)
		}
	}
	var buf bytes.Buffer
	for k := uint32(0); k < max; k++ {
		buf.Write(pages[k])
	}
	if o.Tail > 0 {
		buf.Write(make([]byte, o.Tail%pageSize))
	}
	d.Bytes = buf.Bytes()
	d.NPages = int(max)
	return d
}

// otherIndex gives an index id which is not one of the dictionary's, however similar.
func (d *Dict) otherIndex(r *Rng) uint64 {
	id := uint64(r.Pick(1, 2, 3, 4))
	switch r.N(4) {
	case 0:
		return uint64(r.Pick(0, 5, 6, 11, 12, 13, 14, 15, 16))
	case 1:
		return id | 1<<uint(r.Pick(8, 16, 31, 32, 40, 63, 3+r.N(61)))
	case 2:
		return 0xffffffff00000000 | id
	default:
		return id | uint64(1+r.N(1<<30))<<uint(r.Pick(3, 16, 32))
	}
}

// drop delete-marks the rows of a table and purges some, in the order in which DROP TABLE deletes them.
func (d *Dict) drop(r *Rng, t *Table, purged int, st, sc, si, sf *[]dictRow) {
	mine := func(rows *[]dictRow, key []byte) (out []*dictRow) {
		for i := range *rows {
			if strings.HasPrefix((*rows)[i].key, string(key)) {
				out = append(out, &(*rows)[i])
			}
		}
		return
	}
	var all []*dictRow
	ixs := []uint64{t.PKID}
	for _, s := range t.Secs {
		ixs = append(ixs, s.ID)
	}
	for _, id := range ixs {
		all = append(all, mine(sf, beBytes(id, 8))...)
		all = append(all, mine(si, append(beBytes(t.ID, 8), beBytes(id, 8)...))...)
	}
	all = append(all, mine(sc, beBytes(t.ID, 8))...)
	for i := range *st {
		if (*st)[i].key == t.key() {
			all = append(all, &(*st)[i])
		}
	}
	d.Purgeable = len(all) - 1
	for i, row := range all {
		row.del = true
		if i < purged {
			row.del = false
			row.free = true
			row.gone = r.P(30)
		}
	}
	for _, rows := range []*[]dictRow{sc, si, sf} {
		var left []dictRow
		for _, row := range *rows {
			if !row.gone {
				left = append(left, row)
			}
		}
		*rows = left
	}
}

// history adds what DROP, CREATE, RENAME, TRUNCATE and ALTER leave behind until
// (and after) the purge: delete-marked rows in the trees and records on free lists.
func (d *Dict) history(r *Rng, user []*Table, o DictOpt, st, sc, si, sf *[]dictRow) {
	ids := map[uint64]bool{}
	names := map[string]bool{}
	ixids := map[uint64]bool{}
	for _, t := range user {
		ids[t.ID] = true
		names[t.key()] = true
		ixids[t.PKID] = true
		for _, s := range t.Secs {
			ixids[s.ID] = true
		}
	}
	newID := func(used map[uint64]bool, near uint64) uint64 {
		for {
			id := near + uint64(r.N(60)) - 25
			if id < 16 || int64(id) < 0 || r.P(10) {
				id = 16 + uint64(r.N(5000))
			}
			if !used[id] {
				used[id] = true
				return id
			}
		}
	}
	add := func(rows *[]dictRow, row dictRow) {
		switch {
		case r.P(60):
			row.del = true
		case r.P(70):
			row.free = true
		default:
			return // purged without a trace
		}
		*rows = append(*rows, row)
		d.Old++
	}
	sysRow := func(name string, t *Table, id uint64) dictRow {
		trx, roll := sysTrx(r)
		n := uint32(len(t.Cols))
		if !t.Redundant {
			n |= 0x80000000
		}
		return dictRow{key: name, nkey: 1, fields: []Field{fs(name), trx, roll, f8(id), f4(n), f4(1), f8(0), f4(80), fnull(), f4(t.Space + 1000)}}
	}
	parts := func(t *Table, id uint64) {
		// columns, indexes and index fields of a table that is gone
		for i, c := range t.Cols {
			m, p, l := c.Dict()
			trx, roll := sysTrx(r)
			add(sc, dictRow{key: string(beBytes(id, 8)) + string(beBytes(uint64(i), 4)), nkey: 2,
				fields: []Field{f8(id), f4(uint32(i)), trx, roll, fs(c.Name), f4(m), f4(p), f4(l), f4(0)}})
		}
		oldIndex(r, t, id, newID(ixids, t.PKID), "PRIMARY", t.PK, 3, o, si, sf, add)
	}
	for _, t := range user {
		k := r.N(6)
		if t == o.Dropped && k < 2 {
			continue
		}
		switch k {
		case 0: // renamed, perhaps by an ALTER that copied the table
			old := storedName(t.DB) + "/" + storedName(r.PickS("#sql-ib21", "#sql-1a2_3", "a", "zz_old", t.Name+"_new", "A"+t.Name))
			if r.P(20) {
				old = "zz/" + storedName(t.Name)
			}
			if !names[old] {
				names[old] = true
				add(st, sysRow(old, t, t.ID))
			}
		case 1: // dropped and created again, or truncated: the name is reused, the parts of the old id are left
			u := t
			if r.P(50) {
				u = fitTable(r, &GenOpt{MinCols: 1, MaxCols: 5, NullPct: 40, MaxLen: 60})
			}
			parts(u, newID(ids, t.ID))
		case 2: // a dropped neighbour
			nm := storedName(t.DB) + "/" + storedName(r.PickS("b", "y", t.Name+"_bak", "gone"))
			if names[nm] {
				break
			}
			names[nm] = true
			u := fitTable(r, &GenOpt{MinCols: 1, MaxCols: 5, NullPct: 40, MaxLen: 60})
			id := newID(ids, t.ID)
			add(st, sysRow(nm, u, id))
			parts(u, id)
		case 3: // a dropped secondary index
			oldIndex(r, t, t.ID, newID(ixids, t.PKID), r.PickS("old_idx", "k", "\xffidx"), []int{r.N(len(t.Cols))}, uint32(r.Pick(0, 2)), o, si, sf, add)
		case 4: // older versions of rows, on the free lists
			for i := range t.Cols {
				if r.P(50) {
					c := GenColumn(r, allKinds[r.N(len(allKinds))], &GenOpt{MaxLen: 60})
					m, p, l := c.Dict()
					trx, roll := sysTrx(r)
					*sc = append(*sc, dictRow{key: string(beBytes(t.ID, 8)) + string(beBytes(uint64(i), 4)) + "x", nkey: 2, free: true,
						fields: []Field{f8(t.ID), f4(uint32(i)), trx, roll, fs("old_name"), f4(m), f4(p), f4(l), f4(0)}})
					d.Old++
				}
			}
		}
	}
}

func oldIndex(r *Rng, t *Table, tid, iid uint64, name string, cols []int, typ uint32, o DictOpt, si, sf *[]dictRow, add func(*[]dictRow, dictRow)) {
	trx, roll := sysTrx(r)
	fl := []Field{f8(tid), f8(iid), trx, roll, fs(name), f4(uint32(len(cols))), f4(typ), f4(t.Space), f4(3)}
	if o.V57 {
		fl = append(fl, f4(50))
	}
	add(si, dictRow{key: string(beBytes(tid, 8)) + string(beBytes(iid, 8)), nkey: 2, fields: fl})
	for k, c := range cols {
		trx, roll := sysTrx(r)
		add(sf, dictRow{key: string(beBytes(iid, 8)) + string(beBytes(uint64(k), 4)), nkey: 2,
			fields: []Field{f8(iid), f4(uint32(k)), trx, roll, fs(t.Cols[c].Name)}})
	}
}

func (d *Dict) Shape() string {
	var k []string
	for _, n := range []string{"SYS_TABLES", "SYS_COLUMNS", "SYS_INDEXES", "SYS_FIELDS"} {
		k = append(k, fmt.Sprintf("%s=%d/%d", n[4:], d.Leaves[n], d.Levels[n]))
	}
	return strings.Join(k, " ")
}
