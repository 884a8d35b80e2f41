package main

// Tables, rows and random generation of both.

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

type SecIndex struct {
	Name   string
	Cols   []int
	Pre    []int // as PKPre
	Unique bool
	ID     uint64
}

type Table struct {
	ID        uint64
	DB, Name  string
	Stored    string // not "": the name as the dictionary has it
	Zip       int    // not 0: ROW_FORMAT=COMPRESSED with a KEY_BLOCK_SIZE of 1<<(Zip-1) KB
	Cols      []*Column
	PK        []int  // columns of the clustered index in key order; nil: GEN_CLUST_INDEX
	PKPre     []int  // beside PK: the key has only so many characters of the column, 0 all
	PKName    string // "PRIMARY", or the name of the promoted unique index
	PKID      uint64
	Space     uint32
	Redundant bool
	Secs      []SecIndex
	Virtual   []VirtualCol // in the order of the definition
	ExtPct    int          // percentage of the off-page values among the columns which may have them
	DupPct    int          // percentage of rows which are the same as an earlier one
	ExtMax    int          // length of the longest ones, 0: 70000
	ExtLocal  int          // bytes of them in the record: 768, or 0 in a DYNAMIC table
}

// VirtualCol is a generated column of which nothing is stored.
type VirtualCol struct {
	Col   *Column
	Pos   int    // its place among all the columns of the SQL table
	Index uint64 // id of the secondary index it is in, 0: none
}

func (t *Table) HasPK() bool { return len(t.PK) > 0 }

func (t *Table) Describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "table `%s`.`%s` id=%d space=%d redundant=%v (", t.DB, t.Name, t.ID, t.Space, t.Redundant)
	for i, c := range t.Cols {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "`%s` %s", c.Name, c.Decl())
	}
	b.WriteString(")")
	if t.HasPK() {
		fmt.Fprintf(&b, " clustered %s(", t.PKName)
		for i, k := range t.PK {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(t.Cols[k].Name)
			if t.pre(i) > 0 {
				fmt.Fprintf(&b, "(%d)", t.pre(i))
			}
		}
		b.WriteString(")")
	} else {
		b.WriteString(" GEN_CLUST_INDEX")
	}
	for _, s := range t.Secs {
		fmt.Fprintf(&b, " key %s%v", s.Name, s.Cols)
	}
	return b.String()
}

// pre gives the length of the prefix which the key has of its i-th column, 0 if it has all of it.
func (t *Table) pre(i int) int {
	if i < len(t.PKPre) {
		return t.PKPre[i]
	}
	return 0
}

func (t *Table) hasPrefix() bool {
	for i := range t.PK {
		if t.pre(i) > 0 {
			return true
		}
	}
	return false
}

// mbMaxLen of the character set of the column.
func (c *Column) mbMaxLen() int {
	if c.Kind != KCharMB && c.Kind != KVarMB && c.Kind != KText && c.Kind != KCharL1 && c.Kind != KVarL1 {
		return 1
	}
	c.Dict()
	for _, m := range []map[int][]int{multiByteColls, wideColls} {
		for n, l := range m {
			for _, x := range l {
				if x == c.Coll {
					return n
				}
			}
		}
	}
	return 1
}

// splitChars cuts the first n characters off.
func (c *Column) splitChars(b []byte, n int) []byte {
	w, at := c.mbMaxLen(), 0
	for i := 0; i < n && at < len(b); i++ {
		switch {
		case c.unit() > 1:
			n := c.unit()
			if w == 4 && n == 2 {
				hi := at
				if c.utf16le() {
					hi++
				}
				if hi < len(b) && b[hi]&0xFC == 0xD8 {
					n = 4
				}
			}
			at += n
		case w == 1 || b[at] < 0x80:
			at++
		case w == 2 || c.Coll >= 248 && c.Coll <= 250:
			at += 2
		default:
			_, k := utf8.DecodeRune(b[at:])
			if k > w {
				k = w
			}
			at += k
		}
		if at > len(b) {
			at = len(b)
		}
	}
	return b[:at]
}

// prefixField is the field of the first n characters of a column.
func (t *Table) prefixField(i int, v Value, n int) Field {
	v2 := v
	if v.Ext {
		v2 = Value{B: v.Full}
	}
	f := t.colField(i, v2)
	if n > 0 {
		f.B = t.Cols[i].splitChars(f.B, n)
	}
	return f
}

// keyValue is the value of the i-th key field of the row, and whether it is less than the column's.
func (t *Table) keyValue(i int, row *Row) (*Column, Value, bool) {
	c, v := t.Cols[t.PK[i]], row.Vals[t.PK[i]]
	if t.pre(i) == 0 {
		return c, v, false
	}
	full := v.B
	if v.Ext {
		full = v.Full
	}
	short := *c
	if c.Kind == KBinary {
		short.Size = t.pre(i)
	}
	b := t.prefixField(t.PK[i], v, t.pre(i)).B
	cut := len(b) < len(full)
	if c.Kind == KCharL1 || c.Kind == KCharMB {
		cut = len(c.trimPad(b)) < len(c.trimPad(full))
	}
	return &short, Value{B: b}, cut
}

// ClusterOrder gives, for each clustered-index field, the column number, or
// -1 DB_ROW_ID, -2 DB_TRX_ID, -3 DB_ROLL_PTR, -10-i the prefix of the i-th key column.
func (t *Table) ClusterOrder() []int {
	var o []int
	in := map[int]bool{}
	if t.HasPK() {
		for i, k := range t.PK {
			if t.pre(i) > 0 {
				o = append(o, -10-i)
				continue
			}
			o = append(o, k)
			in[k] = true
		}
	} else {
		o = append(o, -1)
	}
	o = append(o, -2, -3)
	for i := range t.Cols {
		if !in[i] {
			o = append(o, i)
		}
	}
	return o
}

// FieldNo gives the clustered-index field number of a column.
func (t *Table) FieldNo(col int) int {
	for i, c := range t.ClusterOrder() {
		if c == col {
			return i
		}
	}
	panic("FieldNo")
}

type Row struct {
	Vals    []Value
	RowID   uint64
	TrxID   uint64
	RollPtr uint64
	Deleted bool
}

func (t *Table) ShowRow(r *Row) string {
	var p []string
	for i, c := range t.Cols {
		p = append(p, c.Name+"="+c.Show(r.Vals[i]))
	}
	return strings.Join(p, ", ")
}

func (t *Table) colField(i int, v Value) Field {
	c := t.Cols[i]
	f := Field{Null: v.Null, Ext: v.Ext, Var: c.VarLen(), Big: c.Big(), MayNull: c.Nullable}
	if !v.Null {
		f.B = c.Store(v, t.Redundant)
	} else {
		switch c.Kind {
		case KVarL1, KVarMB, KVarbinary, KText, KBlob:
		default:
			f.NullLen = c.FixedSize()
		}
	}
	return f
}

// LeafRec gives the clustered leaf record of a row.
func (t *Table) LeafRec(r *Row) *Rec {
	rec := &Rec{Deleted: r.Deleted}
	for _, c := range t.ClusterOrder() {
		switch c {
		case -1:
			rec.Fields = append(rec.Fields, Field{B: beBytes(r.RowID, 6)})
		case -2:
			rec.Fields = append(rec.Fields, Field{B: beBytes(r.TrxID, 6)})
		case -3:
			rec.Fields = append(rec.Fields, Field{B: beBytes(r.RollPtr, 7)})
		default:
			if c <= -10 {
				k := t.PK[-10-c]
				rec.Fields = append(rec.Fields, t.prefixField(k, r.Vals[k], t.pre(-10-c)))
				continue
			}
			rec.Fields = append(rec.Fields, t.colField(c, r.Vals[c]))
		}
	}
	return rec
}

// NodeRec gives a node pointer record for a child page.
func (t *Table) NodeRec(r *Row, child uint32, minRec bool) *Rec {
	rec := &Rec{Status: 1, MinRec: minRec}
	if t.HasPK() {
		for i, c := range t.PK {
			rec.Fields = append(rec.Fields, t.prefixField(c, r.Vals[c], t.pre(i)))
		}
	} else {
		rec.Fields = append(rec.Fields, Field{B: beBytes(r.RowID, 6)})
	}
	rec.Fields = append(rec.Fields, Field{B: beBytes(uint64(child), 4)})
	return rec
}

// SecRec gives the secondary index record of a row.
func (t *Table) SecRec(s SecIndex, r *Row) *Rec {
	rec := &Rec{Deleted: r.Deleted}
	in := map[int]bool{}
	for i, c := range s.Cols {
		if s.Pre != nil && s.Pre[i] > 0 && !r.Vals[c].Null {
			rec.Fields = append(rec.Fields, t.prefixField(c, r.Vals[c], s.Pre[i]))
			continue
		}
		rec.Fields = append(rec.Fields, t.colField(c, r.Vals[c]))
		in[c] = true
	}
	if t.HasPK() {
		for i, c := range t.PK {
			if !in[c] {
				rec.Fields = append(rec.Fields, t.prefixField(c, r.Vals[c], t.pre(i)))
			}
		}
	} else {
		rec.Fields = append(rec.Fields, Field{B: beBytes(r.RowID, 6)})
	}
	return rec
}

// ---- generation ----

type GenOpt struct {
	Kinds        []Kind // column kinds to draw from
	MinCols      int
	MaxCols      int
	PKMode       int  // 0 any, 1 PRIMARY KEY, 2 GEN_CLUST_INDEX, 3 unique index promoted
	Prefix       bool // the key has prefixes of strings
	PKFirst      bool // the key is a prefix of the columns, in order
	Redundant    int  // 0 any, 1 compact, 2 redundant
	NullPct      int  // percentage of nullable columns
	MaxLen       int  // cap on declared lengths
	NoSecs       bool
	OddNames     bool
	AllKeyKinds  bool
	ForceColumns []*Column
}

var intKinds = []Kind{KInt, KInt, KInt, KEnum, KSet, KBit, KYear}
var timeKinds = []Kind{KDate, KTime, KDateTime, KTimestamp}
var charKinds = []Kind{KCharL1, KCharMB, KVarL1, KVarMB}
var binKinds = []Kind{KBinary, KVarbinary, KBlob, KText}
var allKinds = []Kind{KInt, KInt, KEnum, KSet, KBit, KYear, KFloat, KDouble, KDate, KTime, KDateTime, KTimestamp,
	KCharL1, KCharMB, KVarL1, KVarMB, KBinary, KVarbinary, KText, KBlob, KDecimal}

var nameParts = []string{"a", "id", "col", "name", "ts", "Value", "x", "user_id", "data", "k", "qty", "addr"}
var oddNames = []string{"DB_TRX_ID_old", "DB_ROW_ID2", "DB_ROLL_PTR_x", "xDB_TRX_ID", "DB_ROW", "FTS_DOC", "b`q", "``", "a\\b", "quo\"te", "set x=1 where", "select", "my col", "DB_TRX", "c-1", "ключ", "名前", "1st", "a.b", "order", "c'q", "NULL", "values(", "x;y"}

func GenColumn(r *Rng, k Kind, o *GenOpt) *Column {
	c := &Column{Kind: k}
	maxLen := o.MaxLen
	if maxLen == 0 {
		maxLen = 2000
	}
	lim := func(xs ...int) int {
		for i := 0; i < 20; i++ {
			x := xs[r.N(len(xs))]
			if x <= maxLen {
				return x
			}
		}
		return 1
	}
	switch k {
	case KInt:
		c.Size = r.Pick(1, 2, 3, 4, 8)
		c.Unsigned = r.P(50)
	case KEnum:
		c.Size = r.Pick(1, 1, 2)
	case KSet:
		c.Size = r.Pick(1, 2, 3, 4, 8)
	case KBit:
		c.Bits = r.Pick(1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 55, 56, 57, 63, 64)
		c.Size = (c.Bits + 7) / 8
	case KYear:
		c.Size = 1
	case KCharL1:
		c.Chars = lim(1, 2, 3, 8, 20, 100, 127, 128, 129, 254, 255)
		c.Size = c.Chars
	case KCharMB:
		c.MB = r.Pick(2, 3, 4)
		c.Chars = lim(1, 2, 3, 8, 20, 31, 42, 43, 63, 64, 85, 86, 100)
		c.Size = c.Chars * c.MB
	case KVarL1:
		c.Chars = lim(1, 5, 20, 100, 127, 128, 200, 254, 255, 256, 257, 300, 1000, 4000, 8000, 32767, 65532)
		c.Size = c.Chars
	case KVarMB:
		c.MB = r.Pick(2, 3, 4)
		c.Chars = lim(1, 5, 20, 42, 63, 64, 84, 85, 86, 100, 127, 128, 200, 255, 256, 300, 1000, 2000, 8192, 16383)
		c.Size = c.Chars * c.MB
	case KBinary:
		c.Size = lim(1, 2, 8, 16, 20, 100, 127, 128, 200, 254, 255)
	case KVarbinary:
		c.Size = lim(1, 5, 16, 100, 127, 128, 200, 254, 255, 256, 257, 300, 1000, 4000, 8000, 32768, 65532)
	case KText, KBlob:
		c.Size = r.Pick(9, 10, 11, 12) // length-of-length + 8
	case KDecimal:
		c.Size = r.Pick(1, 2, 3, 4, 5, 8, 9, 13)
	case KTime, KDateTime, KTimestamp:
		if r.P(40) {
			c.Fsp = r.Range(1, 6)
		} else if r.P(25) {
			c.Old = true
			c.Unsigned = r.P(30)
		}
	}
	switch {
	case k == KCharL1 || k == KVarL1:
		c.Coll = 8
		if r.P(40) {
			c.Coll = oneByteColls[r.N(len(oneByteColls))]
		}
	case k == KText:
		c.Coll = r.Pick(8, 8, 33, 45, 47, 11, 28)
	case c.MB == 2:
		c.Coll = multiByteColls[2][r.N(len(multiByteColls[2]))]
	case c.MB == 3:
		c.Coll = 33
		if r.P(60) {
			c.Coll = multiByteColls[3][r.N(len(multiByteColls[3]))]
		}
	case c.MB == 4:
		c.Coll = 45
		if r.P(60) {
			c.Coll = multiByteColls[4][r.N(len(multiByteColls[4]))]
		}
	}
	if c.MB != 0 && c.MB != 3 && r.P(15) {
		c.Coll = wideColls[c.MB][r.N(len(wideColls[c.MB]))]
		if c.Kind == KCharMB && c.unit() == c.MB {
			c.Kind = KCharL1 // the same length in any case
		}
	}
	c.Nullable = r.P(o.NullPct)
	return c
}

// collations of the one-byte character sets, apart from latin1_swedish_ci
var oneByteColls = []int{2, 9, 21, 27, 77, 3, 69, 4, 80, 5, 15, 31, 47, 48, 49, 94, 6, 72, 7, 74, 10, 82, 11, 65,
	14, 23, 50, 51, 52, 16, 71, 18, 89, 20, 41, 42, 79, 22, 75, 25, 70, 26, 34, 44, 66, 99, 29, 58, 59, 30, 78,
	32, 64, 36, 68, 37, 73, 38, 43, 39, 53, 40, 81, 57, 67, 92, 93, 47, 47, 11, 51, 26}

// collations of the character sets with characters of 1 to 2, 3 or 4 bytes
var multiByteColls = map[int][]int{
	2: {28, 87, 1, 84, 19, 85, 24, 86, 13, 88, 95, 96},
	3: append(append([]int{33, 83, 76, 12, 91, 97, 98, 223}, seq(192, 211)...), 212, 213, 214, 215),
	4: append(append([]int{45, 46}, seq(224, 247)...), 248, 249, 250),
}

// collations of the character sets without one-byte characters, by the bytes of their longest character
var wideColls = map[int][]int{
	2: append(append([]int{35, 90, 159}, seq(128, 149)...), 150, 151),                                    // ucs2
	4: append(append(append(append([]int{54, 55}, seq(101, 124)...), 56, 62), 60, 61), seq(160, 183)...), // utf16, utf16le, utf32
}

// unit is what the shortest character of the column takes.
func (c *Column) unit() int {
	switch x := c.Coll; {
	case c.Kind != KCharMB && c.Kind != KVarMB && c.Kind != KText && c.Kind != KCharL1 && c.Kind != KVarL1:
	case x == 60, x == 61, x >= 160 && x <= 183:
		return 4
	case x == 35, x == 90, x == 159, x >= 128 && x <= 151, x == 54, x == 55, x == 56, x == 62, x >= 101 && x <= 124:
		return 2
	}
	return 1
}

func (c *Column) utf16le() bool { return c.Coll == 56 || c.Coll == 62 }

// pad is the space which a CHAR value is filled up with.
func (c *Column) pad() []byte {
	switch {
	case c.unit() == 4:
		return []byte{0, 0, 0, ' '}
	case c.unit() == 2 && c.utf16le():
		return []byte{' ', 0}
	case c.unit() == 2:
		return []byte{0, ' '}
	}
	return []byte{' '}
}

// trimPad takes the spaces at the end of a CHAR value off.
func (c *Column) trimPad(b []byte) []byte {
	p := c.pad()
	for len(b)%len(p) == 0 && bytes.HasSuffix(b, p) {
		b = b[:len(b)-len(p)]
	}
	return b
}

// padTo fills a CHAR value up.
func (c *Column) padTo(b []byte, n int) []byte {
	r := append([]byte{}, b...)
	for len(r) < n {
		r = append(r, c.pad()...)
	}
	return r
}

// wideText makes a value of a character set without one-byte characters.
func (c *Column) wideText(r *Rng, max int) []byte {
	b := []byte{}
	n := 0
	add := func(x rune) {
		var e []byte
		switch {
		case c.unit() == 4:
			e = beBytes(uint64(x), 4)
		case x >= 0x10000 && c.Coll >= 54 && c.mbMaxLen() == 4:
			hi, lo := utf16.EncodeRune(x)
			e = append(beBytes(uint64(hi), 2), beBytes(uint64(lo), 2)...)
		default:
			e = beBytes(uint64(x&0xFFFF), 2)
		}
		if c.utf16le() {
			for i := 0; i+1 < len(e); i += 2 {
				e[i], e[i+1] = e[i+1], e[i]
			}
		}
		if n < c.Chars && len(b)+len(e) <= max {
			b = append(b, e...)
			n++
		}
	}
	for _, x := range string(genText(r, max, c.Chars, 4)) {
		switch r.N(12) {
		case 0:
			// characters with the bytes of spaces and of what SQL has a meaning for
			x = rune(r.Pick(0x2020, 0x2000, 0x20, 0x4120, 0x2027, 0x5C5C, 0x275C, 0x5C27, 0x2041, 0x0A00, 0x1A1A, 0x22, 0x1F620, 0x10020, 0x12020))
		}
		add(x)
	}
	if r.P(15) {
		// the longest value, or one short of it
		k := c.Chars - r.N(2)
		for n < k && len(b)+4 <= max {
			add(rune(r.Pick(0x2020, 0x41, 0x1F620, 0x2000, 0x20)))
		}
	}
	return b
}

// wide makes tables of more columns than a byte counts.
func (o *GenOpt) wide(r *Rng) {
	o.Kinds = []Kind{KInt, KInt, KYear, KEnum, KDate, KBit, KVarL1, KVarMB}
	o.MinCols = r.Pick(126, 130, 254, 300)
	o.MaxCols = o.MinCols + r.Pick(0, 4, 150)
	o.MaxLen = 20
	o.NullPct = r.Pick(10, 50, 100)
}

func seq(a, b int) (s []int) {
	for ; a <= b; a++ {
		s = append(s, a)
	}
	return
}

func keyable(k Kind) bool { return k != KText && k != KBlob }

// maxPrefix is the length in characters of the longest proper prefix of the column that an index may have.
func (c *Column) maxPrefix() int {
	n := 0
	switch c.Kind {
	case KCharL1, KCharMB, KVarL1, KVarMB:
		n = c.Chars - 1
	case KBinary, KVarbinary:
		n = c.Size - 1
	case KText, KBlob:
		n = 767
	default:
		return 0
	}
	if m := 767 / c.mbMaxLen(); n > m {
		n = m
	}
	return n
}

var idSeq uint64

func GenTable(r *Rng, o *GenOpt) *Table {
	t := &Table{}
	n := r.Range(o.MinCols, o.MaxCols)
	kinds := o.Kinds
	if kinds == nil {
		kinds = allKinds
	}
	for i := 0; i < n; i++ {
		t.Cols = append(t.Cols, GenColumn(r, kinds[r.N(len(kinds))], o))
	}
	for _, fc := range o.ForceColumns {
		c := *fc
		at := r.N(len(t.Cols) + 1)
		t.Cols = append(t.Cols[:at], append([]*Column{&c}, t.Cols[at:]...)...)
	}
	used := map[string]bool{}
	for i, c := range t.Cols {
		for {
			nm := fmt.Sprintf("%s%d", nameParts[r.N(len(nameParts))], i)
			if o.OddNames && r.P(30) || r.P(3) {
				nm = oddNames[r.N(len(oddNames))]
			}
			if i > 0 && r.P(5) {
				// a name that a careless comparison takes for that of another column
				nm = t.Cols[r.N(i)].Name
				if len(nm) < 60 && r.P(60) || len(nm) < 2 {
					nm += r.PickS("1", "0", "_", "_id", "x", "2")
				} else if nm[len(nm)-1] < 0x80 {
					nm = nm[:len(nm)-1]
				}
				switch strings.ToUpper(nm) {
				case "DB_ROW_ID", "DB_TRX_ID", "DB_ROLL_PTR", "FTS_DOC_ID", "ROW_UID":
					continue // not allowed, or of a meaning of its own
				}
				if strings.HasSuffix(nm, " ") {
					continue
				}
			}
			if !used[strings.ToLower(nm)] {
				used[strings.ToLower(nm)] = true
				c.Name = nm
				break
			}
		}
	}
	mode := o.PKMode
	if mode == 0 {
		mode = r.Pick(1, 1, 1, 2, 3)
	}
	var cand []int
	// a key may have a prefix of a string, and only that of a long one
	prefixes := mode == 1 && !o.PKFirst && (o.Prefix || r.P(25))
	left := 767
	for i, c := range t.Cols {
		if keyable(c.Kind) && c.Size <= 767 || prefixes && c.maxPrefix() > 0 {
			cand = append(cand, i)
		}
	}
	if mode != 2 && len(cand) == 0 {
		c := &Column{Kind: KInt, Size: 4, Name: "pk_auto"}
		at := r.N(len(t.Cols) + 1)
		t.Cols = append(t.Cols[:at], append([]*Column{c}, t.Cols[at:]...)...)
		cand = []int{at}
	}
	if mode != 2 {
		k := r.Pick(1, 1, 2, 3)
		if r.P(10) {
			k = r.Range(4, 16)
		}
		if k > len(cand) {
			k = len(cand)
		}
		total := 0
		p := r.Perm(len(cand))
		for i := 0; i < k; i++ {
			c := t.Cols[cand[p[i]]]
			n := 0
			if must := !keyable(c.Kind) || c.Size > 767; prefixes && c.maxPrefix() > 0 && (must || o.Prefix || r.P(50)) {
				n = r.Pick(1, 2, 3, 5, 10, 20, 42, 63, 100, 127, 128, 191, 254, 255, 256, 300, 766, 767)
				for n > c.maxPrefix() || n*c.mbMaxLen() > left {
					n /= 2
				}
				if n < 1 {
					if must {
						continue
					}
					n = 0
				}
				left -= n * c.mbMaxLen()
			}
			if sz := c.Size; n == 0 {
				if total += sz; i > 0 && total > 2500 {
					total -= sz
					continue
				}
			}
			t.PK = append(t.PK, cand[p[i]])
			t.PKPre = append(t.PKPre, n)
		}
		if o.PKFirst {
			// make the key a prefix of the columns
			var cols []*Column
			in := map[int]bool{}
			for _, i := range t.PK {
				cols = append(cols, t.Cols[i])
				in[i] = true
			}
			for i, c := range t.Cols {
				if !in[i] {
					cols = append(cols, c)
				}
			}
			t.Cols = cols
			for i := range t.PK {
				t.PK[i] = i
			}
		}
		for _, i := range t.PK {
			t.Cols[i].Nullable = false
		}
		t.PKName = "PRIMARY"
		if mode == 3 {
			t.PKName = r.PickS("uk", "id_unique", "a_key", "Primary_x")
		}
	}
	switch o.Redundant {
	case 0:
		t.Redundant = r.P(25)
	case 2:
		t.Redundant = true
	}
	if !o.NoSecs {
		for i := 0; i < r.N(4); i++ {
			s := SecIndex{Name: fmt.Sprintf("idx_%d", i), Unique: r.P(30)}
			in := map[int]bool{}
			for j := 0; j < r.Range(1, 3); j++ {
				c := r.N(len(t.Cols))
				pre := 0
				if m := t.Cols[c].maxPrefix(); m > 0 && prefixes {
					if pre = r.Pick(1, 5, 20, 100); pre > m {
						pre = m
					}
				}
				if in[c] || pre == 0 && (!keyable(t.Cols[c].Kind) || t.Cols[c].Size > 400) {
					continue
				}
				in[c] = true
				s.Cols = append(s.Cols, c)
				s.Pre = append(s.Pre, pre)
			}
			if len(s.Cols) > 0 {
				t.Secs = append(t.Secs, s)
			}
		}
	}
	return t
}

// identity for standalone use: ids and spaces assigned by the dictionary.
func (t *Table) assign(id uint64, indexID *uint64, space uint32) {
	t.ID = id
	t.Space = space
	*indexID++
	t.PKID = *indexID
	t.addDocID(id)
	t.addVirtual(id, indexID)
	t.addSpecial(id)
	for i := range t.Secs {
		*indexID++
		t.Secs[i].ID = *indexID
	}
}

// addVirtual gives some tables, depending on the id, virtual columns.
func (t *Table) addVirtual(id uint64, indexID *uint64) {
	r := NewRng("virtual", int(id))
	t.Virtual = nil
	if !r.P(12) {
		return
	}
	n := r.Pick(1, 1, 1, 2, 3, 20)
	shown := t.shownCols()
	used := map[string]bool{}
	for _, c := range t.Cols {
		used[strings.ToLower(c.Name)] = true
	}
	var at []int
	for _, k := range r.Perm(shown + n)[:n] {
		at = append(at, k)
	}
	sort.Ints(at)
	for i, pos := range at {
		c := GenColumn(r, allKinds[r.N(len(allKinds))], &GenOpt{MaxLen: 300, NullPct: 50})
		for c.Name = r.PickS("gen", "total", "full_name", "v", "q`v"); used[strings.ToLower(c.Name)]; {
			c.Name += fmt.Sprint(i)
		}
		used[strings.ToLower(c.Name)] = true
		v := VirtualCol{Col: c, Pos: pos}
		if r.P(40) {
			*indexID++
			v.Index = *indexID
		}
		t.Virtual = append(t.Virtual, v)
	}
}

// addSpecial makes some BLOB columns GEOMETRY or JSON ones, which are stored the same.
func (t *Table) addSpecial(id uint64) {
	r := NewRng("special", int(id))
	in := map[int]bool{}
	for _, k := range t.PK {
		in[k] = true
	}
	for _, s := range t.Secs {
		for _, k := range s.Cols {
			in[k] = true
		}
	}
	for i, c := range t.Cols {
		if c.Kind == KBlob && !in[i] {
			c.Special = r.Pick(0, 0, 0, 0, 0, 0, 1, 1, 2, 3)
		}
	}
}

// addDocID makes it a table with a FULLTEXT index: in some tables, depending on the id.
func (t *Table) addDocID(id uint64) {
	for _, c := range t.Cols {
		if strings.EqualFold(c.Name, "FTS_DOC_ID") {
			return
		}
	}
	if (id*2654435761>>7)%8 != 0 {
		return
	}
	t.Cols = append(t.Cols, &Column{Name: "FTS_DOC_ID", Kind: KInt, Size: 8, Unsigned: true, Hidden: true})
	if id%2 == 0 {
		t.Secs = append(t.Secs, SecIndex{Name: "FTS_DOC_ID_INDEX", Cols: []int{len(t.Cols) - 1}, Unique: true})
	}
}

var hostileStrings = []string{"", "NULL", "null", "'", "\\", "\\'", "''", "a'b\"c", "line1\nline2", "\r\n", "\x00", "a\x00b", "\x1a",
	"0001-01-01T00:00:00Z", "');drop table t;-- ", "`", "%s%d", "a,b", "(1,2)", ";", "b'1'", "unhex('41')", "\t tab", "x\\", "\\0", "\\N", "--", "/* */", "\"",
	"<nil>", "0", "-1", "true", "\b", "%", "_", "\\%", "\\_"}

// genText makes len bytes-ish of text.
func genText(r *Rng, maxBytes, maxChars int, mb int) []byte {
	target := 0
	lens := []int{0, 1, 2, 3, 10, 30, 62, 63, 64, 65, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 511, 512, 1000, 4000, 4095, 4096, 4097, 6000, maxBytes, maxBytes - 1}
	for try := 0; try < 30; try++ {
		target = lens[r.N(len(lens))]
		if target >= 0 && target <= maxBytes {
			break
		}
		target = r.N(maxBytes + 1)
	}
	mode := r.N(10)
	if mode < 2 {
		s := hostileStrings[r.N(len(hostileStrings))]
		if len(s) <= maxBytes && len(s) <= maxChars {
			return []byte(s)
		}
	}
	var b []byte
	chars := 0
	for len(b) < target && chars < maxChars {
		var s string
		switch {
		case mb > 1 && r.P(40):
			s = r.PickS("é", "ß", "Ж", "中", "文", "…", "\u00a0", "\u3000", "\u2028", "ñ", "\u0085")
			if mb == 4 && r.P(30) {
				s = r.PickS("😀", "𝒳")
			}
			if mb == 2 && len(s) > 2 {
				s = "é"
			}
		case mode < 6:
			s = string(rune(r.Range(32, 126)))
		case mode < 8:
			s = r.PickS("'", "\\", "\"", "\n", "\x00", "\x1a", "\r", ",", ")", "(", ";", "`", " ", "\t", "a", "%", "_", "0", "n", "Z")
		default:
			if mb <= 1 {
				s = string([]byte{byte(r.U64())})
			} else {
				s = string(rune(r.N(128)))
			}
		}
		if len(b)+len(s) > target {
			s = "z"
		}
		b = append(b, s...)
		chars++
	}
	if len(b) == 0 {
		b = []byte{}
	}
	return b
}

func genBin(r *Rng, max int) []byte {
	lens := []int{0, 1, 2, 16, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 7000, max, max - 1}
	n := 0
	for try := 0; try < 30; try++ {
		n = lens[r.N(len(lens))]
		if n >= 0 && n <= max {
			break
		}
		n = r.N(max + 1)
	}
	switch r.N(5) {
	case 0:
		return make([]byte, n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2:
		b := make([]byte, n)
		for i := range b {
			b[i] = r.PickS("'", "\\", "\n", "\x00", " ", "N", "U", "L")[0]
		}
		return b
	}
	return r.Bytes(n)
}

func bound(r *Rng, bits uint) uint64 {
	max := uint64(math.MaxUint64)
	if bits < 64 {
		max = 1<<bits - 1
	}
	var u uint64
	switch r.N(6) {
	case 0:
		u = uint64(r.N(3))
	case 1:
		u = max - uint64(r.N(3))
	case 2:
		u = uint64(1) << uint(r.N(int(bits)))
	case 3:
		u = uint64(1)<<uint(r.N(int(bits))) - 1
	case 4:
		u = r.U64() >> uint(r.N(64))
	default:
		u = r.U64()
	}
	return u & max
}

// GenValue makes a value for the column; budget limits variable-length values.
func GenValue(r *Rng, c *Column, budget int) Value {
	if c.Nullable && r.P(30) {
		return Value{Null: true}
	}
	var v Value
	capn := func(n int) int {
		if n > budget {
			n = budget
		}
		if n < 0 {
			n = 0
		}
		return n
	}
	switch c.Kind {
	case KInt:
		u := bound(r, uint(c.Size)*8)
		if c.Unsigned {
			v.U = u
		} else {
			sh := uint(64 - c.Size*8)
			v.I = int64(u<<sh) >> sh
		}
	case KEnum:
		v.U = bound(r, uint(c.Size)*8)
	case KSet:
		v.U = bound(r, uint(c.Size)*8)
	case KBit:
		v.U = bound(r, uint(c.Bits))
	case KYear:
		switch r.N(5) {
		case 0:
			v.U = 0
		case 1:
			v.U = uint64(r.Pick(1901, 2155, 1970, 2000))
		default:
			v.U = uint64(r.Range(1901, 2155))
		}
	case KFloat:
		for {
			switch r.N(4) {
			case 0:
				v.F = float64(float32([]float64{0, 1, -1, 0.1, 1e10, 1e21, 1e-7, 3.4028234e38, 1.17549435e-38, 1e-45, 16777216, 16777217, 123456.789, -2.5, -math.MaxFloat32, 7.038530691851889e-26}[r.N(16)]))
			case 1:
				v.F = float64(float32(r.N(1000000)) / 100)
			default:
				v.F = float64(math.Float32frombits(uint32(r.U64())))
			}
			if !math.IsNaN(v.F) && !math.IsInf(v.F, 0) {
				break
			}
		}
	case KDouble:
		for {
			switch r.N(4) {
			case 0:
				v.F = []float64{0, 1, -1, 0.1, 1e10, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 9007199254740993, 1e15, 123456789.123456789, -2.5, 1e22, 1e23}[r.N(16)]
			case 1:
				v.F = float64(r.N(100000000)) / 100
			default:
				v.F = math.Float64frombits(r.U64())
			}
			if !math.IsNaN(v.F) && !math.IsInf(v.F, 0) {
				break
			}
		}
	case KDate:
		v.Y, v.Mo, v.D = genDate(r)
	case KTime:
		v.H, v.Mi, v.S = r.Pick(0, 0, 1, 23, 24, 99, 100, 838, r.N(839)), r.N(60), r.N(60)
		if r.P(10) {
			v.H, v.Mi, v.S = 0, 0, 0
		}
		v.Us = genFrac(r, c.Fsp)
		v.Neg = r.P(40) && v.H|v.Mi|v.S|v.Us != 0
	case KDateTime:
		v.Y, v.Mo, v.D = genDate(r)
		v.H, v.Mi, v.S = r.N(24), r.N(60), r.N(60)
		if r.P(10) {
			v.H, v.Mi, v.S = 0, 0, 0
		}
		v.Us = genFrac(r, c.Fsp)
	case KTimestamp:
		switch r.N(5) {
		case 0:
			v.U = uint64(r.Pick(0, 1, 59, 86399, 86400, 1<<31-1, 1<<31-2, 1000000000))
		default:
			v.U = uint64(r.N(1 << 31))
		}
		if v.U != 0 {
			v.Us = genFrac(r, c.Fsp)
		}
	case KCharL1:
		if c.unit() > 1 {
			v.B = c.trimPad(c.wideText(r, capn(c.Size)))
			break
		}
		v.B = genText(r, capn(c.Chars), c.Chars, 1)
		v.B = []byte(strings.TrimRight(string(v.B), " "))
	case KCharMB:
		if c.unit() > 1 {
			v.B = c.trimPad(c.wideText(r, capn(c.Size)))
			break
		}
		v.B = genText(r, capn(c.Size), c.Chars, c.MB)
		v.B = []byte(strings.TrimRight(string(v.B), " "))
	case KVarL1:
		v.B = genText(r, capn(c.Chars), c.Chars, 1)
	case KVarMB:
		if c.unit() > 1 {
			v.B = c.wideText(r, capn(c.Size))
			break
		}
		v.B = genText(r, capn(c.Size), c.Chars, c.MB)
	case KText:
		m := 8000
		if c.Size == 9 {
			m = 255
		}
		v.B = genText(r, capn(m), m, r.Pick(1, 3))
	case KBinary:
		v.B = genBin(r, c.Size)
		for len(v.B) < c.Size {
			v.B = append(v.B, 0)
		}
	case KVarbinary:
		v.B = genBin(r, capn(c.Size))
	case KBlob:
		m := 8000
		if c.Size == 9 {
			m = 255
		}
		v.B = genBin(r, capn(m))
	case KDecimal:
		v.B = r.Bytes(c.Size)
	}
	return v
}

// genFrac makes the microseconds of a value of a column with fsp fractional digits.
func genFrac(r *Rng, fsp int) int {
	unit := 1
	for i := fsp; i < 6; i++ {
		unit *= 10
	}
	n := 1000000 / unit // 10^fsp
	switch r.N(5) {
	case 0:
		return r.Pick(0, 1, n-1, n/2, n/10) % n * unit
	}
	return r.N(n) * unit
}

func genDate(r *Rng) (int, int, int) {
	switch r.N(6) {
	case 0:
		return 0, 0, 0
	case 1:
		return r.Pick(1000, 9999, 1, 99, 100, 999, 1970, 1990, 1991, 2099, 2100), r.Range(1, 12), r.Range(1, 28)
	case 2:
		return r.N(10000), r.N(13), r.N(32)
	}
	return r.Range(1000, 9999), r.Range(1, 12), r.Range(1, 31)
}

// mayExt: may a value of the column be stored off-page?
func (t *Table) mayExt(col int) bool {
	c := t.Cols[col]
	switch c.Kind {
	case KVarL1, KVarMB, KVarbinary, KText, KBlob:
	default:
		return false
	}
	if !c.Big() {
		return false
	}
	for i, k := range t.PK {
		if k == col && t.pre(i) == 0 {
			return false
		}
	}
	for _, s := range t.Secs {
		for i, k := range s.Cols {
			if k == col && (s.Pre == nil || s.Pre[i] == 0) {
				return false
			}
		}
	}
	return true
}

// genExt lets the table have off-page values.
func (t *Table) genExt(r *Rng, pct ...int) {
	t.ExtPct = pct[r.N(len(pct))]
	t.ExtLocal = r.Pick(0, 768)
}

const blobPart = pageSize - 38 - 8 - 8

// extValue makes an off-page value; the reference is filled in by BuildIbd.
func (t *Table) extValue(r *Rng, col int, left int) (Value, bool) {
	c := t.Cols[col]
	local := t.ExtLocal
	if t.Redundant && local == 0 {
		local = 768
	}
	max := 70000
	switch c.Kind {
	case KVarL1, KVarbinary:
		max = c.Size
	case KVarMB:
		max = c.Chars
	default:
		if c.Size == 9 {
			max = 255
		} else if c.Size == 12 && t.ExtMax > 0 {
			max = t.ExtMax
		}
	}
	min := local + 1
	if min < 41 {
		min = 41
	}
	if max < min || left < local+20 {
		return Value{}, false
	}
	n := r.Pick(min, min+1, 100, 768, 769, 787, 788, 789, 1000, 8000, local+blobPart-1, local+blobPart, local+blobPart+1, local+2*blobPart-1,
		local+2*blobPart, local+2*blobPart+1, local+3*blobPart, 16383, 16384, 32768, 65535, max, r.Range(min, max), r.Range(min, max))
	if max == t.ExtMax {
		n = r.Range(max/2, max)
	}
	if n < min {
		n = min
	}
	if n > max {
		n = max
	}
	v := Value{Ext: true, Full: make([]byte, 0, n)}
	for len(v.Full) < n {
		var p []byte
		switch {
		case c.Kind == KBlob || c.Kind == KVarbinary:
			p = genBin(r, 9000)
		case r.P(30):
			p = genText(r, 700, 700, 1)
		default:
			p = bytes.Repeat([]byte(fmt.Sprintf("%d,", len(v.Full))), r.Range(1, 2000))
		}
		if len(v.Full)+len(p) > n {
			p = p[:n-len(v.Full)]
		}
		v.Full = append(v.Full, p...)
	}
	v.B = append(append([]byte{}, v.Full[:local]...), make([]byte, 20)...)
	return v, true
}

// GenRow makes a row whose leaf record takes at most maxBytes.
func (t *Table) GenRow(r *Rng, maxBytes int, rowID uint64) *Row {
	row := &Row{RowID: rowID, TrxID: uint64(r.N(1<<40)) + 256, RollPtr: r.U64() & (1<<56 - 1)}
	var big []int
	fixed := 40
	for i, c := range t.Cols {
		row.Vals = append(row.Vals, Value{})
		switch {
		case c.Kind == KText || c.Kind == KBlob || c.VarLen():
			big = append(big, i)
			fixed += 4
			if c.Kind == KCharMB {
				fixed += c.Size
			}
		default:
			fixed += c.FixedSize() + 3
		}
	}
	for i := range t.PKPre {
		fixed += t.pre(i)*t.Cols[t.PK[i]].mbMaxLen() + 2
	}
	left := maxBytes - fixed
	for _, k := range r.Perm(len(t.Cols)) {
		c := t.Cols[k]
		if t.ExtPct > 0 && r.P(t.ExtPct) && t.mayExt(k) {
			if v, ok := t.extValue(r, k, left); ok {
				row.Vals[k] = v
				left -= len(v.B)
				continue
			}
		}
		b := left
		if c.VarLen() && r.P(60) && b > 40 {
			b = 40
		}
		v := GenValue(r, c, b)
		row.Vals[k] = v
		if c.VarLen() && c.Kind != KCharMB {
			left -= len(v.B)
		}
	}
	return row
}
