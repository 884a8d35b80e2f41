package main

// A small parser for the SQL subset the tool prints, with MySQL's lexical
// rules (default sql_mode): what a MySQL server would take the line to mean.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

type LitType int

const (
	LNull LitType = iota
	LStr
	LNum
	LBit
	LHex
	LDefault // DEFAULT: of a generated column
)

type Lit struct {
	Type LitType
	B    []byte
	Text string
}

func (l Lit) String() string {
	b := l.B
	tail := ""
	if len(b) > 120 {
		tail = fmt.Sprintf("...(%d bytes)", len(b))
		b = b[:120]
	}
	switch l.Type {
	case LNull:
		return "NULL"
	case LDefault:
		return "DEFAULT"
	case LStr:
		return fmt.Sprintf("'%q'%s", b, tail)
	case LNum:
		return l.Text
	case LBit:
		return fmt.Sprintf("b'..'=%x", b)
	}
	return fmt.Sprintf("hex(%x%s)", b, tail)
}

type Assign struct {
	Col  string
	Val  Lit
	Left int // left(`Col`, Left) = Val: what a key on a prefix is compared with
}

type Stmt struct {
	Verb      string // "replace" or "update"
	DB, Table string
	Cols      []string // explicit column list, nil when absent
	Vals      []Lit
	Set       []Assign
	Where     []Assign
}

type tok struct {
	kind byte // 'i' ident/keyword, 'q' quoted ident, 's' string, 'n' number, 'p' punctuation, 'b' bit, 'x' hex, 0 end
	s    string
	b    []byte
}

type lexer struct {
	in  []byte
	pos int
}

func isIdent(c byte) bool {
	return c == '_' || c == '$' || c >= 0x80 || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (lx *lexer) next() (tok, error) {
	in := lx.in
	for lx.pos < len(in) && (in[lx.pos] == ' ' || in[lx.pos] == '\t') {
		lx.pos++
	}
	if lx.pos >= len(in) {
		return tok{}, nil
	}
	c := in[lx.pos]
	switch {
	case c == '`':
		var b []byte
		i := lx.pos + 1
		for {
			if i >= len(in) {
				return tok{}, fmt.Errorf("unterminated quoted identifier")
			}
			if in[i] == '`' {
				if i+1 < len(in) && in[i+1] == '`' {
					b = append(b, '`')
					i += 2
					continue
				}
				break
			}
			b = append(b, in[i])
			i++
		}
		lx.pos = i + 1
		if len(b) == 0 {
			return tok{}, fmt.Errorf("empty quoted identifier")
		}
		return tok{kind: 'q', s: string(b)}, nil
	case c == '\'' || c == '"':
		b, n, err := lexString(in[lx.pos:])
		if err != nil {
			return tok{}, err
		}
		lx.pos += n
		return tok{kind: 's', b: b}, nil
	case (c == 'b' || c == 'B' || c == 'x' || c == 'X') && lx.pos+1 < len(in) && in[lx.pos+1] == '\'':
		end := bytes.IndexByte(in[lx.pos+2:], '\'')
		if end < 0 {
			return tok{}, fmt.Errorf("unterminated bit or hex literal")
		}
		body := string(in[lx.pos+2 : lx.pos+2+end])
		lx.pos += 3 + end
		if c == 'x' || c == 'X' {
			h, err := hex.DecodeString(body)
			if err != nil {
				return tok{}, fmt.Errorf("bad hex literal x'%s'", body)
			}
			return tok{kind: 'x', b: h}, nil
		}
		b, err := bits(body)
		if err != nil {
			return tok{}, err
		}
		return tok{kind: 'b', b: b}, nil
	case c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' && lx.pos+1 < len(in) && in[lx.pos+1] >= '0' && in[lx.pos+1] <= '9':
		i := lx.pos + 1
		for i < len(in) && (isIdent(in[i]) || in[i] == '.' || (in[i] == '-' || in[i] == '+') && (in[i-1] == 'e' || in[i-1] == 'E')) {
			i++
		}
		s := string(in[lx.pos:i])
		lx.pos = i
		if strings.HasPrefix(s, "0x") {
			h := s[2:]
			if len(h)%2 == 1 {
				h = "0" + h
			}
			b, err := hex.DecodeString(h)
			if err != nil {
				return tok{}, fmt.Errorf("bad hex literal %s", s)
			}
			return tok{kind: 'x', b: b}, nil
		}
		if strings.HasPrefix(s, "0b") {
			b, err := bits(s[2:])
			if err != nil {
				return tok{}, err
			}
			return tok{kind: 'b', b: b}, nil
		}
		return tok{kind: 'n', s: s}, nil
	case isIdent(c):
		i := lx.pos
		for i < len(in) && isIdent(in[i]) {
			i++
		}
		s := string(in[lx.pos:i])
		lx.pos = i
		return tok{kind: 'i', s: s}, nil
	case strings.IndexByte("(),.;=", c) >= 0:
		lx.pos++
		return tok{kind: 'p', s: string(c)}, nil
	}
	return tok{}, fmt.Errorf("unexpected byte %q", c)
}

func bits(s string) ([]byte, error) {
	for len(s)%8 != 0 {
		s = "0" + s
	}
	var out []byte
	for i := 0; i < len(s); i += 8 {
		var v byte
		for _, ch := range []byte(s[i : i+8]) {
			if ch != '0' && ch != '1' {
				return nil, fmt.Errorf("bad digit %q in a bit literal", ch)
			}
			v = v<<1 | (ch - '0')
		}
		out = append(out, v)
	}
	return out, nil
}

func lexString(in []byte) ([]byte, int, error) {
	q := in[0]
	b := []byte{}
	i := 1
	for {
		if i >= len(in) {
			return nil, 0, fmt.Errorf("unterminated string")
		}
		c := in[i]
		if c == '\\' {
			if i+1 >= len(in) {
				return nil, 0, fmt.Errorf("string ends in a backslash")
			}
			switch e := in[i+1]; e {
			case '0':
				b = append(b, 0)
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'b':
				b = append(b, 8)
			case 'Z':
				b = append(b, 26)
			case '%', '_':
				b = append(b, '\\', e)
			default:
				b = append(b, e)
			}
			i += 2
			continue
		}
		if c == q {
			if i+1 < len(in) && in[i+1] == q {
				b = append(b, q)
				i += 2
				continue
			}
			return b, i + 1, nil
		}
		// The mysql client reads the statements in text mode: NUL ends the
		// input, CR LF becomes LF, and on Windows ^Z is the end of the file.
		if c == 0 || c == 26 || c == '\r' {
			return nil, 0, fmt.Errorf("unescaped byte 0x%02X in a string", c)
		}
		b = append(b, c)
		i++
	}
}

type parser struct {
	lx  lexer
	cur tok
	err error
}

func (p *parser) adv() {
	if p.err != nil {
		return
	}
	p.cur, p.err = p.lx.next()
}

func (p *parser) fail(format string, a ...interface{}) {
	if p.err == nil {
		p.err = fmt.Errorf(format, a...)
	}
}

func (p *parser) kw(s string) {
	if p.err == nil && !(p.cur.kind == 'i' && strings.EqualFold(p.cur.s, s)) {
		p.fail("expected %q near byte %d", s, p.lx.pos)
		return
	}
	p.adv()
}

func (p *parser) isKw(s string) bool {
	return p.err == nil && p.cur.kind == 'i' && strings.EqualFold(p.cur.s, s)
}

func (p *parser) isP(s string) bool { return p.err == nil && p.cur.kind == 'p' && p.cur.s == s }

func (p *parser) punct(s string) {
	if p.err == nil && !p.isP(s) {
		p.fail("expected %q near byte %d", s, p.lx.pos)
		return
	}
	p.adv()
}

func (p *parser) ident() string {
	if p.err == nil && p.cur.kind != 'q' && p.cur.kind != 'i' {
		p.fail("expected an identifier near byte %d", p.lx.pos)
		return ""
	}
	s := p.cur.s
	p.adv()
	return s
}

// value is a literal or DEFAULT.
func (p *parser) value() Lit {
	if p.err == nil && p.cur.kind == 'i' && strings.EqualFold(p.cur.s, "default") {
		p.adv()
		return Lit{Type: LDefault}
	}
	return p.lit()
}

func (p *parser) lit() Lit {
	if p.err != nil {
		return Lit{}
	}
	t := p.cur
	switch t.kind {
	case 's':
		p.adv()
		return Lit{Type: LStr, B: t.b}
	case 'n':
		p.adv()
		return Lit{Type: LNum, Text: t.s}
	case 'b':
		p.adv()
		return Lit{Type: LBit, B: t.b}
	case 'x':
		p.adv()
		return Lit{Type: LHex, B: t.b}
	case 'i':
		if strings.EqualFold(t.s, "null") {
			p.adv()
			return Lit{Type: LNull}
		}
		if strings.EqualFold(t.s, "unhex") {
			p.adv()
			p.punct("(")
			in := p.lit()
			p.punct(")")
			if p.err != nil || in.Type == LNull {
				return Lit{Type: LNull}
			}
			if in.Type != LStr {
				p.fail("unhex of a non-string")
				return Lit{}
			}
			s := string(in.B)
			if len(s)%2 == 1 {
				s = "0" + s
			}
			b, err := hex.DecodeString(s)
			if err != nil {
				// MySQL returns NULL for a malformed argument.
				return Lit{Type: LNull}
			}
			return Lit{Type: LHex, B: b}
		}
	}
	p.fail("expected a literal near byte %d", p.lx.pos)
	return Lit{}
}

// ParseStmt parses one output line.
func ParseStmt(line []byte) (*Stmt, error) {
	p := &parser{lx: lexer{in: line}}
	p.adv()
	st := &Stmt{}
	switch {
	case p.isKw("replace"):
		st.Verb = "replace"
		p.adv()
		p.kw("into")
		st.DB = p.ident()
		p.punct(".")
		st.Table = p.ident()
		if p.isP("(") {
			p.adv()
			st.Cols = append(st.Cols, p.ident())
			for p.isP(",") {
				p.adv()
				st.Cols = append(st.Cols, p.ident())
			}
			p.punct(")")
		}
		if p.isKw("value") {
			p.adv()
		} else {
			p.kw("values")
		}
		p.punct("(")
		st.Vals = append(st.Vals, p.value())
		for p.isP(",") {
			p.adv()
			st.Vals = append(st.Vals, p.value())
		}
		p.punct(")")
	case p.isKw("update"):
		st.Verb = "update"
		p.adv()
		st.DB = p.ident()
		p.punct(".")
		st.Table = p.ident()
		p.kw("set")
		st.Set = append(st.Set, p.assign())
		for p.isP(",") {
			p.adv()
			st.Set = append(st.Set, p.assign())
		}
		if p.isKw("and") || p.isKw("or") {
			p.fail("SET list continues with %q: it is a boolean expression, not a second assignment", p.cur.s)
		}
		p.kw("where")
		st.Where = append(st.Where, p.cond())
		for p.isKw("and") {
			p.adv()
			st.Where = append(st.Where, p.cond())
		}
	default:
		p.fail("not a replace or update statement")
	}
	p.punct(";")
	if p.err == nil && p.cur.kind != 0 {
		p.fail("text after the statement")
	}
	if p.err != nil {
		return nil, p.err
	}
	return st, nil
}

func (p *parser) assign() Assign {
	c := p.ident()
	p.punct("=")
	return Assign{Col: c, Val: p.lit()}
}

// cond is an equation of a WHERE clause: column or left(column, n).
func (p *parser) cond() Assign {
	if !p.isKw("left") {
		return p.assign()
	}
	p.adv()
	p.punct("(")
	c := p.ident()
	p.punct(",")
	l := p.lit()
	p.punct(")")
	p.punct("=")
	n, err := strconv.Atoi(l.Text)
	if l.Type != LNum || err != nil || n < 1 {
		p.fail("left() of %v characters", l)
	}
	return Assign{Col: c, Val: p.lit(), Left: n}
}
