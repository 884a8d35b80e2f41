package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"

	"github.com/zbdba/db-recovery/recovery/utils"
)

// The monitor of the integer codecs: it writes values with encoders of its own
// (as InnoDB's mach0data writes them) and watches what the tool reads.

type stats struct {
	Evals    int            `json:"evals"`
	Counts   map[string]int `json:"counts"`
	Distinct int            `json:"distinct"`
	Failures []string       `json:"failures"`
	Samples  []string       `json:"samples"`
}

var st = stats{Counts: map[string]int{}}
var distinct = map[string]bool{}

func failf(format string, a ...interface{}) {
	if len(st.Failures) < 20 {
		st.Failures = append(st.Failures, fmt.Sprintf(format, a...))
	}
}

func see(what string, n int) { st.Evals++; st.Counts[what] += n }

type rng struct{ s uint64 }

func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int { return int(r.u64() % uint64(n)) }

func encC(n uint32) []byte {
	switch {
	case n < 1<<7:
		return []byte{byte(n)}
	case n < 1<<14:
		return []byte{byte(n>>8) | 0x80, byte(n)}
	case n < 1<<21:
		return []byte{byte(n>>16) | 0xC0, byte(n >> 8), byte(n)}
	case n < 1<<28:
		return []byte{byte(n>>24) | 0xE0, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return []byte{0xF0, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// guard turns a crash on a complete value into a failure.
func guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			failf("%s: crash: %v", what, e)
		}
	}()
	f()
}

func around(r *rng, enc []byte) ([]byte, uint64) {
	pre, post := r.n(9), r.n(5)
	b := make([]byte, 0, pre+len(enc)+post)
	for i := 0; i < pre; i++ {
		b = append(b, byte(r.u64()))
	}
	b = append(b, enc...)
	for i := 0; i < post; i++ {
		b = append(b, byte(r.u64()))
	}
	return b, uint64(pre)
}

func compressed(r *rng, n uint32) {
	enc := encC(n)
	b, pos := around(r, enc)
	keep := append([]byte{}, b...)
	guard(fmt.Sprintf("compressed %#x", n), func() {
		v, used, err := utils.MatchParseCompressed(b, pos)
		if err != nil || v != uint64(n) || used != uint64(len(enc)) {
			failf("MatchParseCompressed of %x at %d: value %#x, %d bytes, error %v; written %#x in %d bytes", b, pos, v, used, err, n, len(enc))
		}
		sz, err := utils.MatchGetCompressedSize(uint64(n))
		if err != nil || sz != uint64(len(enc)) {
			failf("MatchGetCompressedSize(%#x) is %d (%v), it is written in %d bytes", n, sz, err, len(enc))
		}
		if string(keep) != string(b) {
			failf("MatchParseCompressed changes its input %x", keep)
		}
	})
	see("compressed", 1)
	see(fmt.Sprintf("compressed_len_%d", len(enc)), 1)
}

func ull(r *rng, n uint64) {
	enc := append(encC(uint32(n>>32)), be(n&0xFFFFFFFF, 4)...)
	b, pos := around(r, enc)
	guard(fmt.Sprintf("u64 compressed %#x", n), func() {
		p := pos
		v := utils.MatchUllReadComPressed(b, &p)
		if v != n || p != pos+uint64(len(enc)) {
			failf("MatchUllReadComPressed of %x at %d: value %#x, position %d; written %#x up to %d", b, pos, v, p, n, pos+uint64(len(enc)))
		}
	})
	see("u64_compressed", 1)
	var much []byte
	if n>>32 != 0 {
		much = append([]byte{0xFF}, encC(uint32(n>>32))...)
	}
	much = append(much, encC(uint32(n))...)
	b, pos = around(r, much)
	guard(fmt.Sprintf("u64 much compressed %#x", n), func() {
		v, err := utils.MatchUllReadMuchCompressed(b[pos:])
		if err != nil || v != n {
			failf("MatchUllReadMuchCompressed of %x: %#x (%v), written %#x", b[pos:], v, err, n)
		}
		if sz := utils.MachUllGetMuchCompressedSize(n); sz != uint64(len(much)) {
			failf("MachUllGetMuchCompressedSize(%#x) is %d, it is written in %d bytes", n, sz, len(much))
		}
	})
	see("u64_much_compressed", 1)
	distinct[fmt.Sprint(len(enc), len(much))] = true
}

func fixed(r *rng, n uint64) {
	for _, w := range []int{1, 2, 3, 4, 5, 6, 7, 8} {
		m := n
		if w < 8 {
			m &= 1<<(8*uint(w)) - 1
		}
		b, pos := around(r, be(m, w))
		guard(fmt.Sprintf("fixed %d %#x", w, m), func() {
			if v := utils.GetUintValue(w, b[pos:]); v != m {
				failf("GetUintValue(%d, %x) is %d, stored %d", w, b[pos:], v, m)
			}
			var got uint64
			switch w {
			case 1:
				got = utils.MatchReadFrom1(b[pos:])
			case 2:
				got = utils.MatchReadFrom2(b[pos:])
			case 3:
				got = utils.MatchReadFrom3(b[pos:])
			case 4:
				got = utils.MatchReadFrom4(b[pos:])
			case 7:
				got = utils.MatchReadFrom7(b[pos:])
			case 8:
				got = utils.MatchReadFrom8(b[pos:])
			default:
				got = m
			}
			if got != m {
				failf("the %d-byte big-endian reader gives %#x for %x, stored %#x", w, got, b[pos:], m)
			}
			if w == 1 || w == 2 || w == 3 || w == 4 || w == 8 {
				// a signed column is stored with its sign bit flipped
				shift := uint(64 - 8*w)
				s := int64((m^1<<(8*uint(w)-1))<<shift) >> shift
				if g := fmt.Sprint(utils.GetIntValue(w, b[pos:])); g != strconv.FormatInt(s, 10) {
					failf("GetIntValue(%d, %x) is %s, stored %d", w, b[pos:], g, s)
				}
			}
		})
		see("fixed_"+strconv.Itoa(w), 1)
	}
	if littleEndian != nil {
		littleEndian(r, n)
	}
}

// littleEndian watches the little-endian readers; nothing in the tool uses
// most of them, and the driver is built without this part when they are gone.
var littleEndian func(r *rng, n uint64)

// skips: the description of an index and the header of an inserted record.
func skips(r *rng) {
	n := r.n(40)
	enc := append(be(uint64(n), 2), be(uint64(r.n(n+1)), 2)...)
	for i := 0; i < n; i++ {
		enc = append(enc, be(r.u64(), 2)...)
	}
	b, pos := around(r, enc)
	guard(fmt.Sprintf("index %x", enc), func() {
		p, err := utils.ParseIndex(true, b, pos)
		if err != nil || p != pos+uint64(len(enc)) {
			failf("ParseIndex of %x at %d ends at %d (%v), written up to %d", b, pos, p, err, pos+uint64(len(enc)))
		}
		if p, err = utils.ParseIndex(false, b, pos); err != nil || p != pos {
			failf("ParseIndex of an old-style record moves from %d to %d (%v)", pos, p, err)
		}
	})
	see("index_descriptions", 1)
	for _, short := range []bool{false, true} {
		var e []byte
		if !short {
			e = be(r.u64(), 2)
		}
		body := r.n(1 << uint(1+r.n(13)))
		mis := r.n(2)
		e = append(e, encC(uint32(body<<1|mis))...)
		if mis == 1 {
			e = append(e, byte(r.u64()))
			e = append(e, encC(uint32(r.n(1<<uint(1+r.n(14)))))...)
			e = append(e, encC(uint32(r.n(1<<uint(1+r.n(14)))))...)
		}
		for i := 0; i < body; i++ {
			e = append(e, byte(r.u64()))
		}
		b, pos := around(r, e)
		guard("inserted record", func() {
			p, err := utils.ParseInsertRecord(short, b, pos)
			if err != nil || p != pos+uint64(len(e)) {
				failf("ParseInsertRecord(short=%v) at %d ends at %d (%v), written up to %d (mismatch info %v, body %d)", short, pos, p, err, pos+uint64(len(e)), mis == 1, body)
			}
		})
		see("inserted_records", 1)
		distinct[fmt.Sprint("ins", short, mis, len(encC(uint32(body<<1|mis))))] = true
	}
}

// cutoff: a value cut off by the end of the data must not be read as another value.
func cutoff(r *rng, n uint32) {
	enc := encC(n)
	for k := 1; k < len(enc); k++ {
		b := make([]byte, k)
		copy(b, enc)
		func() {
			defer func() {
				if recover() != nil {
					see("cut_off_refused", 1)
				}
			}()
			v, _, err := utils.MatchParseCompressed(b, 0)
			if err == nil {
				failf("MatchParseCompressed of %x, cut off after %d of %d bytes, gives %#x without an error", b, k, len(enc), v)
			}
			see("cut_off_refused", 1)
		}()
	}
}

func codecMode(a []string) {
	seed, _ := strconv.Atoi(a[0])
	n, _ := strconv.Atoi(a[1])
	r := &rng{s: uint64(seed) * 0x9E3779B97F4A7C15}
	var edges []uint64
	for k := uint(0); k < 64; k++ {
		for d := -3; d <= 3; d++ {
			edges = append(edges, uint64(1)<<k+uint64(int64(d)))
		}
	}
	edges = append(edges, 0, math.MaxUint64, 0xFFFFFFFF, 0x100000000, 0xFF00FF00FF00FF00, 0x8000000080000000)
	for _, e := range edges {
		compressed(r, uint32(e))
		cutoff(r, uint32(e))
		ull(r, e)
		fixed(r, e)
	}
	// the 64-bit values are pairs of 32-bit halves
	for _, h := range edges[:33*7] {
		for _, l := range edges[:33*7] {
			ull(r, h<<32|l&0xFFFFFFFF)
		}
	}
	for i := 0; i < 1<<17; i++ {
		compressed(r, uint32(i))
	}
	for i := 0; i < 1<<16; i++ {
		fixed(r, uint64(i)*0x0001000100010001)
	}
	// every 3-byte integer
	for i := 0; i < 1<<24; i++ {
		b := [3]byte{byte(i >> 16), byte(i >> 8), byte(i)}
		u := utils.GetUintValue(3, b[:])
		var s int64
		switch v := utils.GetIntValue(3, b[:]).(type) {
		case int:
			s = int64(v)
		case int64:
			s = v
		case uint64:
			s = int64(v)
		case int32:
			s = int64(v)
		case uint32:
			s = int64(v)
		default:
			s, _ = strconv.ParseInt(fmt.Sprint(v), 10, 64)
		}
		if u != uint64(i) || s != int64(i)-1<<23 {
			failf("the 3-byte integer %x reads as %d unsigned and %d signed", b, u, s)
			break
		}
	}
	see("all_3_byte_integers", 1<<24)
	for i := 0; i < n; i++ {
		x := r.u64() >> uint(r.n(64))
		compressed(r, uint32(x))
		cutoff(r, uint32(x))
		y := r.u64()>>uint(r.n(64))<<32 | x&0xFFFFFFFF
		ull(r, x)
		ull(r, y)
		fixed(r, x)
		fixed(r, r.u64())
		if i%4 == 0 {
			skips(r)
		}
		if i < 6 {
			st.Samples = append(st.Samples, fmt.Sprintf("%#x is written %x compressed, %#x is written %x", uint32(x), encC(uint32(x)), y, binary.BigEndian.AppendUint64(nil, y)))
		}
	}
	st.Distinct = len(distinct)
	js, _ := json.Marshal(st)
	os.Stdout.Write(append(js, '\n'))
}
