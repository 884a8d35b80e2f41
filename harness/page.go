package main

// InnoDB index pages: records in COMPACT/DYNAMIC and REDUNDANT format, record
// heap, record chain, free list, page directory, checksums.

import (
	"encoding/binary"
	"hash/crc32"
)

const pageSize = 16384

const (
	filIndex     = 17855
	filUndo      = 2
	filInode     = 3
	filIbufFree  = 4
	filAllocated = 0
	filIbufBmp   = 5
	filSys       = 6
	filTrxSys    = 7
	filFspHdr    = 8
	filXdes      = 9
	filBlob      = 10
)

// Field is one stored field of a record, in clustered-index order.
type Field struct {
	B       []byte
	Null    bool
	Ext     bool
	Var     bool // variable length (COMPACT)
	Big     bool // COMPACT length may take two bytes
	MayNull bool
	NullLen int // REDUNDANT: bytes an SQL NULL of this field occupies
}

// Rec is a record to be placed on a page.
type Rec struct {
	Fields  []Field
	Deleted bool
	MinRec  bool
	Status  int // 0 ordinary, 1 node pointer
	off     int // set by placement: origin offset
	Slack   int // unused heap bytes left in front of the record
}

// extra gives the bytes in front of the origin, excluding the fixed header, and the data.
func (r *Rec) encodeCompact() (extra, data []byte) {
	var lens []byte // in order of increasing distance from the header
	var nulls []byte
	nbit := 0
	for _, f := range r.Fields {
		if f.MayNull {
			if nbit%8 == 0 {
				nulls = append(nulls, 0)
			}
			if f.Null {
				nulls[nbit/8] |= 1 << uint(nbit%8)
			}
			nbit++
		}
		if f.Null {
			continue
		}
		if f.Var {
			n := len(f.B)
			if f.Big && (n > 127 || f.Ext) {
				hi := byte(n>>8) | 0x80
				if f.Ext {
					hi |= 0x40
				}
				lens = append(lens, hi, byte(n))
			} else {
				lens = append(lens, byte(n))
			}
		}
		data = append(data, f.B...)
	}
	all := append(append([]byte{}, nulls...), lens...)
	for i := len(all) - 1; i >= 0; i-- {
		extra = append(extra, all[i])
	}
	return
}

func (r *Rec) encodeRedundant() (extra, data []byte, short bool) {
	anyExt := false
	for _, f := range r.Fields {
		if f.Null {
			data = append(data, make([]byte, f.NullLen)...)
		} else {
			data = append(data, f.B...)
		}
		anyExt = anyExt || f.Ext
	}
	short = len(data) <= 127 && !anyExt
	end := 0
	var offs []byte
	for _, f := range r.Fields {
		if f.Null {
			end += f.NullLen
		} else {
			end += len(f.B)
		}
		if short {
			b := byte(end)
			if f.Null {
				b |= 0x80
			}
			offs = append(offs, b)
		} else {
			v := uint16(end)
			if f.Null {
				v |= 0x8000
			}
			if f.Ext {
				v |= 0x4000
			}
			// the two bytes are big-endian in the page, which we emit backwards
			offs = append(offs, byte(v), byte(v>>8))
		}
	}
	for i := len(offs) - 1; i >= 0; i-- {
		extra = append(extra, offs[i])
	}
	return
}

// Size is the heap space the record takes.
func (r *Rec) Size(compact bool) int {
	if compact {
		e, d := r.encodeCompact()
		return len(e) + 5 + len(d)
	}
	e, d, _ := r.encodeRedundant()
	return len(e) + 6 + len(d)
}

// IndexPage describes an index page to be built.
type IndexPage struct {
	Compact  bool
	Space    uint32
	No       uint32
	Prev     uint32
	Next     uint32
	LSN      uint64
	IndexID  uint64
	Level    int
	MaxTrx   uint64
	Recs     []*Rec // record chain order
	Free     []*Rec // free list order
	Lost     int    // extra PAGE_GARBAGE bytes not on the list
	Round256 bool   // PAGE_GARBAGE is a multiple of 256
	Insert   int    // selects the PAGE_LAST_INSERT record; -1: none
	HeapPerm []int  // order of placement of Recs then Free in the heap; nil = in order
	FillAt   int    // 1+k: an unused gap in front of the k-th placed record pushes the heap to the directory
	FillGap  int    // bytes left between the heap and the directory then

	// results
	Order []*Rec
}

const (
	compactInf, compactSup = 99, 112
	redundInf, redundSup   = 101, 116
)

func be16(b []byte, off int, v int) { binary.BigEndian.PutUint16(b[off:], uint16(v)) }
func be32(b []byte, off int, v uint32) {
	binary.BigEndian.PutUint32(b[off:], v)
}
func be64(b []byte, off int, v uint64) { binary.BigEndian.PutUint64(b[off:], v) }

func (p *IndexPage) heapStart() int {
	if p.Compact {
		return 120
	}
	return 125
}

// Room is what fits in the heap of a page, leaving space for the directory.
func pageRoom(compact bool) int { return pageSize - 125 - 8 - 2*((pageSize/12)/4+4) }

// Build lays out the page.
func (p *IndexPage) Build() []byte {
	b := make([]byte, pageSize)
	be32(b, 4, p.No)
	be32(b, 8, p.Prev)
	be32(b, 12, p.Next)
	be64(b, 16, p.LSN)
	be16(b, 24, filIndex)
	be32(b, 34, p.Space)

	all := append(append([]*Rec{}, p.Recs...), p.Free...)
	perm := p.HeapPerm
	if perm == nil {
		perm = make([]int, len(all))
		for i := range perm {
			perm[i] = i
		}
	}
	pos := p.heapStart()
	hdr := 6
	if p.Compact {
		hdr = 5
	}
	garbage := p.Lost
	heapNo := 2
	dirEnd := pageSize - 8 - 2*(len(p.Recs)/4+4)
	fill := 0
	if p.FillAt > 0 {
		fill = dirEnd - pos - p.FillGap
		for _, k := range perm {
			fill -= all[k].Slack + all[k].Size(p.Compact)
		}
		if fill < 0 {
			fill = 0
		}
	}
	for i, k := range perm {
		r := all[k]
		pos += r.Slack
		if i+1 == p.FillAt {
			pos += fill
			garbage += fill
		}
		var extra, data []byte
		short := false
		if p.Compact {
			extra, data = r.encodeCompact()
		} else {
			extra, data, short = r.encodeRedundant()
		}
		if pos+len(extra)+hdr+len(data) > dirEnd {
			panic("page overflow")
		}
		copy(b[pos:], extra)
		pos += len(extra) + hdr
		r.off = pos
		copy(b[pos:], data)
		pos += len(data)
		if k >= len(p.Recs) {
			garbage += len(extra) + hdr + len(data)
		}
		info := 0
		if r.Deleted {
			info |= 0x20
		}
		if r.MinRec {
			info |= 0x10
		}
		b[r.off-hdr] = byte(info)
		if p.Compact {
			be16(b, r.off-4, heapNo<<3|r.Status)
		} else {
			v := heapNo<<11 | len(r.Fields)<<1
			if short {
				v |= 1
			}
			b[r.off-5] = byte(v >> 16)
			b[r.off-4] = byte(v >> 8)
			b[r.off-3] = byte(v)
		}
		heapNo++
	}
	heapTop := pos

	inf, sup := redundInf, redundSup
	if p.Compact {
		inf, sup = compactInf, compactSup
		copy(b[94:], []byte{1, 0, 2, 0, 0})
		copy(b[99:], "infimum\x00")
		copy(b[107:], []byte{1, 0, 0x0b, 0, 0})
		copy(b[112:], "supremum")
	} else {
		copy(b[94:], []byte{8, 1, 0, 0, 3, 0, 0})
		copy(b[101:], "infimum\x00")
		copy(b[109:], []byte{9, 1, 0, 8, 3, 0, 0})
		copy(b[116:], "supremum\x00")
	}
	next := func(from, to int) {
		if p.Compact {
			if to == 0 {
				be16(b, from-2, 0)
			} else {
				be16(b, from-2, to-from)
			}
		} else {
			be16(b, from-2, to)
		}
	}
	cur := inf
	for _, r := range p.Recs {
		next(cur, r.off)
		cur = r.off
	}
	next(cur, sup)
	next(sup, 0)
	free := 0
	for i, r := range p.Free {
		if i == 0 {
			free = r.off
		} else {
			next(p.Free[i-1].off, r.off)
		}
		if i == len(p.Free)-1 {
			next(r.off, 0)
		}
	}

	// page directory: infimum, every 6th record, supremum
	var slots []int
	slots = append(slots, inf)
	own := func(off, n int) { b[off-hdr] = b[off-hdr]&0xf0 | byte(n) }
	own(inf, 1)
	count := 0
	for i, r := range p.Recs {
		count++
		if count == 6 && len(p.Recs)-i-1 >= 4 {
			slots = append(slots, r.off)
			own(r.off, count)
			count = 0
		}
	}
	slots = append(slots, sup)
	own(sup, count+1)
	for i, s := range slots {
		be16(b, pageSize-8-2*(i+1), s)
	}

	h := 38
	be16(b, h, len(slots))
	be16(b, h+2, heapTop)
	nh := heapNo
	if p.Compact {
		nh |= 0x8000
	}
	be16(b, h+4, nh)
	be16(b, h+6, free)
	if p.Round256 && garbage > 0 {
		// a reused record leaves what its successor does not need as garbage
		garbage = (garbage + 255) &^ 255
	}
	be16(b, h+8, garbage)
	if n := len(p.Recs); n > 0 && p.Insert >= 0 {
		// PAGE_LEFT, PAGE_RIGHT or PAGE_NO_DIRECTION
		be16(b, h+10, p.Recs[(n-1+p.Insert)%n].off)
		be16(b, h+12, []int{2, 1, 5}[p.Insert%3])
		be16(b, h+14, []int{n, 1, 0}[p.Insert%3])
	} else {
		// a delete resets them
		be16(b, h+12, 5)
	}
	be16(b, h+16, len(p.Recs))
	be64(b, h+18, p.MaxTrx)
	be16(b, h+26, p.Level)
	be64(b, h+28, p.IndexID)
	if p.Level > 0 || p.No == 3 {
		be32(b, h+36, p.Space)
		be32(b, h+40, 2)
		be16(b, h+44, 242)
		be32(b, h+46, p.Space)
		be32(b, h+50, 2)
		be16(b, h+54, 50)
	}
	p.Order = append([]*Rec{}, p.Recs...)
	Seal(b)
	return b
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// Seal writes the page checksum and trailer.
func Seal(b []byte) {
	c := crc32.Checksum(b[4:26], castagnoli) ^ crc32.Checksum(b[38:pageSize-8], castagnoli)
	be32(b, 0, c)
	be32(b, pageSize-8, c)
	copy(b[pageSize-4:], b[20:24])
}

// PlainPage gives a non-index page of a type with the body filled by fill.
func PlainPage(space, no uint32, typ int, lsn uint64, fill func(body []byte)) []byte {
	b := make([]byte, pageSize)
	be32(b, 4, no)
	be32(b, 8, 0xffffffff)
	be32(b, 12, 0xffffffff)
	be64(b, 16, lsn)
	be16(b, 24, typ)
	be32(b, 34, space)
	if fill != nil {
		fill(b[38 : pageSize-8])
	}
	Seal(b)
	return b
}

func u64(b []byte) uint64 { return binary.BigEndian.Uint64(b) }
