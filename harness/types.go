package main

// Column types and values: how a value of each supported MySQL 5.6/5.7 column
// type is stored by InnoDB (written from the InnoDB/MySQL format definitions,
// not from the code under test), and when an SQL literal denotes that value.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
)

type Kind int

const (
	KInt Kind = iota
	KEnum
	KSet
	KBit
	KYear
	KFloat
	KDouble
	KDate
	KTime
	KDateTime
	KTimestamp
	KCharL1    // CHAR(n), latin1: fixed length
	KCharMB    // CHAR(n), multi-byte charset: variable length in COMPACT
	KVarL1     // VARCHAR(n), latin1
	KVarMB     // VARCHAR(n), other charsets
	KBinary    // BINARY(n)
	KVarbinary // VARBINARY(n)
	KText      // *TEXT
	KBlob      // *BLOB
	KDecimal   // DECIMAL: stored, value not decodable from the dictionary
	nKinds
)

var kindNames = []string{"INT", "ENUM", "SET", "BIT", "YEAR", "FLOAT", "DOUBLE", "DATE", "TIME", "DATETIME", "TIMESTAMP",
	"CHAR-latin1", "CHAR-mb", "VARCHAR-latin1", "VARCHAR-mb", "BINARY", "VARBINARY", "TEXT", "BLOB", "DECIMAL"}

func (k Kind) String() string { return kindNames[k] }

// InnoDB main types and MySQL types (data0type.h, mysql_com.h).
const (
	mtVarchar, mtChar, mtFixbinary, mtBinary, mtBlob, mtInt = 1, 2, 3, 4, 5, 6
	mtSys, mtFloat, mtDouble                                = 8, 9, 10
	mtVarMysql, mtMysql, mtGeometry                         = 12, 13, 14

	tyTiny, tyShort, tyLong, tyFloat, tyDouble, tyTimestamp = 1, 2, 3, 4, 5, 7
	tyLonglong, tyInt24, tyDate, tyTime, tyDatetime, tyYear = 8, 9, 10, 11, 12, 13
	tyVarchar, tyBit, tyNewdecimal, tyBlob, tyString        = 15, 16, 246, 252, 254
	tyJSON, tyGeometry                                      = 245, 255

	prNotNull, prUnsigned, prBinary, prLongTrueVarchar, prVirtual = 256, 512, 1024, 4096, 8192
)

type Column struct {
	Name     string
	Kind     Kind
	Size     int // bytes: ints, enum, set, bit, binary; for strings the declared maximum in bytes
	Chars    int // CHAR/VARCHAR: declared length in characters
	Bits     int // BIT(n)
	MB       int // CHAR-mb/VARCHAR-mb: mbmaxlen of the charset
	Coll     int // strings: collation id
	Fsp      int
	Unsigned bool
	Old      bool // TIME, DATETIME, TIMESTAMP as stored before 5.6.4
	Special  int  // BLOB columns: 0 BLOB, 1 GEOMETRY in 5.7, 2 GEOMETRY in 5.6, 3 JSON
	Nullable bool
	Hidden   bool // the FTS_DOC_ID column InnoDB adds for FULLTEXT indexes: not part of the SQL table
}

func (c *Column) Decl() string {
	s := c.Kind.String()
	switch c.Kind {
	case KInt:
		s = fmt.Sprintf("INT%d", c.Size*8)
		if c.Unsigned {
			s += "U"
		}
	case KBit:
		s = fmt.Sprintf("BIT(%d)", c.Bits)
	case KCharL1, KCharMB, KVarL1, KVarMB:
		s += fmt.Sprintf("(%d)", c.Chars)
		if c.Coll != 0 && c.Coll != 8 && c.Coll != 33 {
			s += fmt.Sprintf(" coll=%d", c.Coll)
		}
	case KBinary, KVarbinary, KEnum, KSet:
		s += fmt.Sprintf("(%d)", c.Size)
	case KTime, KDateTime, KTimestamp:
		if c.Fsp > 0 {
			s += fmt.Sprintf("(%d)", c.Fsp)
		}
		if c.Old {
			s += " old"
		}
	}
	if c.Special > 0 {
		s = []string{"", "GEOMETRY", "GEOMETRY-5.6", "JSON"}[c.Special]
	}
	if !c.Nullable {
		s += " NOT NULL"
	}
	if c.Hidden {
		s += " hidden"
	}
	return s
}

// Dict gives the SYS_COLUMNS MTYPE, PRTYPE and LEN of the column.
func (c *Column) Dict() (mtype, prtype, length uint32) {
	var pr uint32
	if !c.Nullable {
		pr |= prNotNull
	}
	fix := func(base, fsp int) uint32 { return uint32(base + (fsp+1)/2) }
	const binCS = 63 << 16
	if c.Coll == 0 {
		c.Coll = 8
		if c.Kind == KCharMB || c.Kind == KVarMB {
			c.Coll = 33
		}
	}
	coll := uint32(c.Coll) << 16
	switch c.Kind {
	case KInt:
		t := map[int]uint32{1: tyTiny, 2: tyShort, 3: tyInt24, 4: tyLong, 8: tyLonglong}[c.Size]
		if c.Unsigned {
			pr |= prUnsigned
		}
		if c.Hidden {
			t = 3 // DATA_FTS_DOC_ID
		}
		return mtInt, pr | t | prBinary, uint32(c.Size)
	case KEnum, KSet:
		return mtInt, pr | tyString | prUnsigned, uint32(c.Size)
	case KBit:
		return mtFixbinary, pr | tyBit | prBinary | prUnsigned | binCS, uint32(c.Size)
	case KYear:
		return mtInt, pr | tyYear | prUnsigned | prBinary, 1
	case KFloat:
		return mtFloat, pr | tyFloat | prBinary, 4
	case KDouble:
		return mtDouble, pr | tyDouble | prBinary, 8
	case KDate:
		return mtInt, pr | tyDate | prBinary, 3
	case KTime:
		if c.Old {
			return mtInt, pr | tyTime | prBinary, 3
		}
		return mtFixbinary, pr | tyTime | prBinary, fix(3, c.Fsp)
	case KDateTime:
		if c.Old {
			if c.Unsigned {
				pr |= prUnsigned
			}
			return mtInt, pr | tyDatetime | prBinary, 8
		}
		return mtFixbinary, pr | tyDatetime | prBinary, fix(5, c.Fsp)
	case KTimestamp:
		if c.Old {
			return mtInt, pr | tyTimestamp | prBinary | prUnsigned, 4
		}
		return mtFixbinary, pr | tyTimestamp | prBinary | prUnsigned, fix(4, c.Fsp)
	case KCharL1:
		// latin1_swedish_ci has main types of its own
		if c.Coll != 8 {
			return mtMysql, pr | tyString | coll, uint32(c.Size)
		}
		return mtChar, pr | tyString | coll, uint32(c.Size)
	case KCharMB:
		return mtMysql, pr | tyString | coll, uint32(c.Size)
	case KVarL1, KVarMB:
		if c.Size > 255 {
			pr |= prLongTrueVarchar
		}
		if c.Coll == 8 {
			return mtVarchar, pr | tyVarchar | coll, uint32(c.Size)
		}
		return mtVarMysql, pr | tyVarchar | coll, uint32(c.Size)
	case KBinary:
		return mtFixbinary, pr | tyString | prBinary | binCS, uint32(c.Size)
	case KVarbinary:
		if c.Size > 255 {
			pr |= prLongTrueVarchar
		}
		return mtBinary, pr | tyVarchar | prBinary | binCS, uint32(c.Size)
	case KText:
		return mtBlob, pr | tyBlob | coll, uint32(c.Size)
	case KBlob:
		switch c.Special {
		case 1:
			return mtGeometry, pr | tyGeometry | prBinary | binCS, 12
		case 2:
			return mtBlob, pr | tyGeometry | prBinary | binCS, 12
		case 3:
			return mtBlob, pr | tyJSON | prBinary | binCS, 12
		}
		return mtBlob, pr | tyBlob | prBinary | binCS, uint32(c.Size)
	case KDecimal:
		return mtFixbinary, pr | tyNewdecimal | prBinary, uint32(c.Size)
	}
	panic("kind")
}

// VarLen: is the column variable-length in a COMPACT record?
func (c *Column) VarLen() bool {
	switch c.Kind {
	case KCharMB, KVarL1, KVarMB, KVarbinary, KText, KBlob:
		return true
	}
	return false
}

// Big: may the COMPACT length take two bytes?
func (c *Column) Big() bool {
	return c.Kind == KText || c.Kind == KBlob || c.Size > 255
}

// FixedSize is the stored size of a fixed-length column.
func (c *Column) FixedSize() int {
	_, _, l := c.Dict()
	return int(l)
}

type Value struct {
	Null bool
	Ext  bool // stored off-page: B is what is stored in the record, Full the value
	Gone bool // off-page and freed
	Full []byte
	I    int64
	U    uint64
	F    float64
	B    []byte
	// temporal fields
	Neg                    bool
	Y, Mo, D, H, Mi, S, Us int
}

func (c *Column) Show(v Value) string {
	if v.Null {
		return "NULL"
	}
	if v.Ext {
		return fmt.Sprintf("off-page(%d bytes, %d of them local, freed=%v, %s)", len(v.Full), len(v.B)-20, v.Gone, c.Show(Value{B: v.Full}))
	}
	switch c.Kind {
	case KInt:
		if c.Unsigned {
			return fmt.Sprint(v.U)
		}
		return fmt.Sprint(v.I)
	case KTimestamp:
		return fmt.Sprintf("%d.%06d", v.U, v.Us)
	case KEnum, KSet, KBit, KYear:
		return fmt.Sprint(v.U)
	case KFloat, KDouble:
		return strconv.FormatFloat(v.F, 'g', -1, 64)
	case KDate:
		return fmt.Sprintf("%04d-%02d-%02d", v.Y, v.Mo, v.D)
	case KTime:
		s := ""
		if v.Neg {
			s = "-"
		}
		return fmt.Sprintf("%s%02d:%02d:%02d.%06d", s, v.H, v.Mi, v.S, v.Us)
	case KDateTime:
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d.%06d", v.Y, v.Mo, v.D, v.H, v.Mi, v.S, v.Us)
	}
	if len(v.B) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", v.B[:120], len(v.B))
	}
	return fmt.Sprintf("%q", v.B)
}

func beBytes(u uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, u)
	return append([]byte{}, b[8-n:]...)
}

// Store gives the field bytes as stored by InnoDB.
func (c *Column) Store(v Value, redundant bool) []byte {
	if v.Ext {
		return v.B
	}
	switch c.Kind {
	case KInt:
		if c.Unsigned {
			return beBytes(v.U, c.Size)
		}
		return beBytes(uint64(v.I)^(1<<(uint(c.Size)*8-1)), c.Size)
	case KEnum, KSet, KBit:
		return beBytes(v.U, c.Size)
	case KYear:
		if v.U == 0 {
			return []byte{0}
		}
		return []byte{byte(v.U - 1900)}
	case KFloat:
		return binary.LittleEndian.AppendUint32(nil, math.Float32bits(float32(v.F)))
	case KDouble:
		return binary.LittleEndian.AppendUint64(nil, math.Float64bits(v.F))
	case KDate:
		return beBytes(uint64(v.Y*16*32+v.Mo*32+v.D)|1<<23, 3)
	case KTime:
		if c.Old {
			n := int64(v.H*10000 + v.Mi*100 + v.S)
			if v.Neg {
				n = -n
			}
			return beBytes(uint64(n)^1<<23, 3)
		}
		// my_time_packed_to_binary
		hms := int64(v.H<<12 | v.Mi<<6 | v.S)
		packed := hms<<24 + int64(v.Us)
		if v.Neg {
			packed = -packed
		}
		nb := (c.Fsp + 1) / 2
		ip := packed >> 24
		frac := packed % (1 << 24) // sign follows packed, as in C
		switch nb {
		case 0:
			return beBytes(uint64(0x800000+ip), 3)
		case 1:
			b := beBytes(uint64(0x800000+ip), 3)
			return append(b, byte(int8(frac/10000)))
		case 2:
			b := beBytes(uint64(0x800000+ip), 3)
			f := int16(frac / 100)
			return append(b, byte(uint16(f)>>8), byte(f))
		default:
			return beBytes(uint64(packed+0x800000000000), 6)
		}
	case KDateTime:
		if c.Old {
			n := uint64((v.Y*10000+v.Mo*100+v.D)*1000000 + v.H*10000 + v.Mi*100 + v.S)
			if !c.Unsigned {
				n ^= 1 << 63
			}
			return beBytes(n, 8)
		}
		ymd := int64(v.Y*13+v.Mo)<<5 | int64(v.D)
		hms := int64(v.H<<12 | v.Mi<<6 | v.S)
		b := beBytes(uint64((ymd<<17|hms)+0x8000000000), 5)
		return append(b, fracBytes(v.Us, c.Fsp)...)
	case KTimestamp:
		return append(beBytes(v.U, 4), fracBytes(v.Us, c.Fsp)...)
	case KCharL1:
		return c.padTo(v.B, c.Size)
	case KCharMB:
		if redundant || c.unit() > 1 {
			return c.padTo(v.B, c.Size)
		}
		return c.padTo(v.B, c.Chars)
	case KBinary:
		b := append([]byte{}, v.B...)
		for len(b) < c.Size {
			b = append(b, 0)
		}
		return b
	}
	return v.B
}

func fracBytes(us, fsp int) []byte {
	switch (fsp + 1) / 2 {
	case 0:
		return nil
	case 1:
		return []byte{byte(us / 10000)}
	case 2:
		return beBytes(uint64(us/100), 2)
	}
	return beBytes(uint64(us), 3)
}

var (
	reDate = regexp.MustCompile(`^(\d{4})-(\d{1,2})-(\d{1,2})$`)
	reTime = regexp.MustCompile(`^(-?)(\d{1,3}):(\d{1,2}):(\d{1,2})(?:\.(\d{1,6}))?$`)
	reDT   = regexp.MustCompile(`^(\d{4})-(\d{1,2})-(\d{1,2})[ T](\d{1,2}):(\d{1,2}):(\d{1,2})(?:\.(\d{1,6}))?$`)
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func usOf(s string) int {
	for len(s) < 6 {
		s += "0"
	}
	return atoi(s)
}

// text is what a number or a string reads.
func (l Lit) text() string {
	switch l.Type {
	case LStr:
		return string(l.B)
	case LNum:
		return l.Text
	}
	return ""
}

// Match decides whether an SQL literal assigned to the column stores v.
func (c *Column) Match(v Value, l Lit, loc *time.Location) error {
	bad := func() error {
		return fmt.Errorf("column %s %s: stored %s, printed %s", c.Name, c.Decl(), c.Show(v), l)
	}
	if v.Gone || c.Hidden || (c.Kind == KDecimal || c.Kind == KBlob && c.Special == 3) && !v.Null {
		return nil // value not specified
	}
	if v.Ext {
		return c.Match(Value{B: v.Full}, l, loc)
	}
	if v.Null || l.Type == LNull {
		if v.Null && l.Type == LNull {
			return nil
		}
		return bad()
	}
	text := l.text()
	ok := false
	switch c.Kind {
	case KInt, KEnum, KSet, KYear:
		if text == "" || (c.Kind == KEnum || c.Kind == KSet) && l.Type != LNum {
			// in quotes a number may be the name of a member, in a condition it always is
			return bad()
		}
		n, good := new(big.Int).SetString(text, 10)
		if !good {
			return bad()
		}
		if c.Kind == KYear && l.Type == LStr && len(text) <= 2 {
			// a one- or two-digit string is a year of 1970..2069
			y := int64(2000)
			if n.Int64() >= 70 {
				y = 1900
			}
			n = big.NewInt(y + n.Int64())
		}
		want := new(big.Int).SetUint64(v.U)
		if c.Kind == KInt && !c.Unsigned {
			want = big.NewInt(v.I)
		}
		ok = n.Cmp(want) == 0
	case KBit:
		want := new(big.Int).SetUint64(v.U)
		switch l.Type {
		case LStr, LHex, LBit:
			ok = new(big.Int).SetBytes(l.B).Cmp(want) == 0
		case LNum:
			n, good := new(big.Int).SetString(text, 10)
			ok = good && n.Cmp(want) == 0
		}
	case KFloat:
		// MySQL reads a DOUBLE, which has to be in the range of a FLOAT, and rounds that
		f, err := strconv.ParseFloat(text, 64)
		ok = err == nil && float32(f) == float32(v.F) && math.Abs(f) <= math.MaxFloat32
	case KDouble:
		f, err := strconv.ParseFloat(text, 64)
		ok = err == nil && f == v.F
	case KDate:
		m := reDate.FindStringSubmatch(text)
		ok = m != nil && l.Type == LStr && atoi(m[1]) == v.Y && atoi(m[2]) == v.Mo && atoi(m[3]) == v.D
	case KTime:
		m := reTime.FindStringSubmatch(text)
		ok = m != nil && l.Type == LStr && atoi(m[2]) == v.H && atoi(m[3]) == v.Mi && atoi(m[4]) == v.S &&
			usOf(m[5]) == v.Us && ((m[1] == "-") == v.Neg || v.H|v.Mi|v.S|v.Us == 0)
	case KDateTime, KTimestamp:
		m := reDT.FindStringSubmatch(text)
		if m == nil || l.Type != LStr {
			return bad()
		}
		g := [7]int{atoi(m[1]), atoi(m[2]), atoi(m[3]), atoi(m[4]), atoi(m[5]), atoi(m[6]), usOf(m[7])}
		w := [7]int{v.Y, v.Mo, v.D, v.H, v.Mi, v.S, v.Us}
		if c.Kind == KTimestamp {
			if v.U == 0 && v.Us == 0 {
				w = [7]int{}
			} else {
				t := time.Unix(int64(v.U), 0).In(loc)
				w = [7]int{t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), v.Us}
			}
		}
		ok = g == w
	case KCharL1, KCharMB:
		ok = (l.Type == LStr || l.Type == LHex) &&
			bytes.Equal(c.trimPad(l.B), c.trimPad(v.B))
	case KBinary:
		ok = (l.Type == LStr || l.Type == LHex) && bytes.Equal(l.B, c.Store(v, false))
	case KVarL1, KVarMB, KVarbinary, KText, KBlob:
		ok = (l.Type == LStr || l.Type == LHex) && bytes.Equal(l.B, v.B)
	}
	if !ok {
		return bad()
	}
	return nil
}

func isAny(s string, list ...string) bool {
	for _, x := range list {
		if strings.EqualFold(s, x) {
			return true
		}
	}
	return false
}
