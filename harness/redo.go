package main

// Redo logs: MySQL 5.6/5.7 log records of every type, undo records, blocks
// and files.

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"sort"
)

func compressed(n uint32) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x4000:
		return beBytes(uint64(n|0x8000), 2)
	case n < 0x200000:
		return beBytes(uint64(n|0xC00000), 3)
	case n < 0x10000000:
		return beBytes(uint64(n|0xE0000000), 4)
	}
	return append([]byte{0xF0}, beBytes(uint64(n), 4)...)
}

func u64Compressed(n uint64) []byte {
	return append(compressed(uint32(n>>32)), beBytes(n&0xffffffff, 4)...)
}

func u64MuchCompressed(n uint64) []byte {
	if n>>32 == 0 {
		return compressed(uint32(n))
	}
	return append(append([]byte{0xff}, compressed(uint32(n>>32))...), compressed(uint32(n))...)
}

const sqlNull = 0xFFFFFFFF
const extStorage = sqlNull - 16384

// redo record types
const (
	m1B, m2B, m4B, m8B                                     = 1, 2, 4, 8
	mRecInsert, mRecClustDel, mRecSecDel                   = 9, 10, 11
	mRecUpd, mRecDel, mListEndDel, mListStartDel           = 13, 14, 15, 16
	mListCopy, mReorg, mPageCreate                         = 17, 18, 19
	mUndoInsert, mUndoErase, mUndoInit, mUndoDiscard       = 20, 21, 22, 23
	mUndoReuse, mUndoCreate, mMinMark, mIbufInit           = 24, 25, 26, 27
	mInitPage, mWriteString, mMultiEnd, mDummy             = 29, 30, 31, 32
	mFileCreate, mFileRename, mFileDelete                  = 33, 34, 35
	mCMinMark, mCPageCreate, mCRecInsert, mCClustDel       = 36, 37, 38, 39
	mCSecDel, mCUpd, mCDel, mCListEnd, mCListStart, mCCopy = 40, 41, 42, 43, 44, 45
	mCReorg, mFileCreate2, mZipNode, mZipBlob, mZipHdr     = 46, 47, 48, 49, 50
	mZipComp, mZipCompNo, mZipReorg, mFileRename2          = 51, 52, 53, 54
	mFileName, mCheckpoint, mRtree, mCRtree, mInitPage2    = 55, 56, 57, 58, 59
	mTruncate, mIndexLoad                                  = 60, 61
)

var allRedoTypes = []int{m1B, m2B, m4B, m8B, mRecInsert, mRecClustDel, mRecSecDel, mRecUpd, mRecDel, mListEndDel, mListStartDel, mListCopy,
	mReorg, mPageCreate, mUndoInsert, mUndoErase, mUndoInit, mUndoDiscard, mUndoReuse, mUndoCreate, mMinMark, mIbufInit, mInitPage, mWriteString,
	mMultiEnd, mDummy, mFileCreate, mFileRename, mFileDelete, mCMinMark, mCPageCreate, mCRecInsert, mCClustDel, mCSecDel, mCUpd, mCDel,
	mCListEnd, mCListStart, mCCopy, mCReorg, mFileCreate2, mZipNode, mZipBlob, mZipHdr, mZipComp, mZipCompNo, mZipReorg, mFileRename2,
	mFileName, mCheckpoint, mRtree, mCRtree, mInitPage2, mTruncate, mIndexLoad}

var redoNames = map[int]string{m1B: "1BYTE", m2B: "2BYTES", m4B: "4BYTES", m8B: "8BYTES", mRecInsert: "REC_INSERT", mRecClustDel: "REC_CLUST_DELETE_MARK",
	mRecSecDel: "REC_SEC_DELETE_MARK", mRecUpd: "REC_UPDATE_IN_PLACE", mRecDel: "REC_DELETE", mListEndDel: "LIST_END_DELETE", mListStartDel: "LIST_START_DELETE",
	mListCopy: "LIST_END_COPY_CREATED", mReorg: "PAGE_REORGANIZE", mPageCreate: "PAGE_CREATE", mUndoInsert: "UNDO_INSERT", mUndoErase: "UNDO_ERASE_END",
	mUndoInit: "UNDO_INIT", mUndoDiscard: "UNDO_HDR_DISCARD", mUndoReuse: "UNDO_HDR_REUSE", mUndoCreate: "UNDO_HDR_CREATE", mMinMark: "REC_MIN_MARK",
	mIbufInit: "IBUF_BITMAP_INIT", mInitPage: "INIT_FILE_PAGE", mWriteString: "WRITE_STRING", mMultiEnd: "MULTI_REC_END", mDummy: "DUMMY_RECORD",
	mFileCreate: "FILE_CREATE", mFileRename: "FILE_RENAME", mFileDelete: "FILE_DELETE", mCMinMark: "COMP_REC_MIN_MARK", mCPageCreate: "COMP_PAGE_CREATE",
	mCRecInsert: "COMP_REC_INSERT", mCClustDel: "COMP_REC_CLUST_DELETE_MARK", mCSecDel: "COMP_REC_SEC_DELETE_MARK", mCUpd: "COMP_REC_UPDATE_IN_PLACE",
	mCDel: "COMP_REC_DELETE", mCListEnd: "COMP_LIST_END_DELETE", mCListStart: "COMP_LIST_START_DELETE", mCCopy: "COMP_LIST_END_COPY_CREATED",
	mCReorg: "COMP_PAGE_REORGANIZE", mFileCreate2: "FILE_CREATE2", mZipNode: "ZIP_WRITE_NODE_PTR", mZipBlob: "ZIP_WRITE_BLOB_PTR", mZipHdr: "ZIP_WRITE_HEADER",
	mZipComp: "ZIP_PAGE_COMPRESS", mZipCompNo: "ZIP_PAGE_COMPRESS_NO_DATA", mZipReorg: "ZIP_PAGE_REORGANIZE", mFileRename2: "FILE_RENAME2",
	mFileName: "FILE_NAME", mCheckpoint: "CHECKPOINT", mRtree: "PAGE_CREATE_RTREE", mCRtree: "COMP_PAGE_CREATE_RTREE", mInitPage2: "INIT_FILE_PAGE2",
	mTruncate: "TRUNCATE", mIndexLoad: "INDEX_LOAD"}

// interesting numbers for the compressed integer encodings
func genU32(r *Rng) uint32 {
	switch r.N(8) {
	case 0:
		return uint32(r.N(4))
	case 1:
		return []uint32{0x7f, 0x80, 0x81, 0xff, 0x100, 0x3fff, 0x4000, 0x4001, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x200001, 0xfffffff, 0x10000000, 0x10000001, 0xfffffffe, 0x7fffffff, 0x80000000}[r.N(19)]
	case 2:
		return uint32(r.N(0x80))
	case 3:
		return uint32(r.N(0x4000))
	case 4:
		return uint32(r.N(0x200000))
	case 5:
		return uint32(r.N(0x10000000))
	}
	return uint32(r.U64())
}

func genU48(r *Rng) uint64 {
	hi := uint64(0)
	switch r.N(4) {
	case 0:
	case 1:
		hi = uint64(r.N(0x80))
	case 2:
		hi = uint64([]int{0x7f, 0x80, 0x3fff, 0x4000, 0xffff}[r.N(5)])
	case 3:
		hi = uint64(r.N(0x10000))
	}
	return hi<<32 | uint64(genU32(r))
}

func redoIndex(r *Rng) []byte {
	n := r.Pick(0, 1, 2, 3, 5, 10, 40)
	if r.P(4) {
		n = r.Pick(127, 128, 255, 256, 257, 1019)
	}
	b := beBytes(uint64(n), 2)
	b = append(b, beBytes(uint64(r.N(n+1)), 2)...)
	for i := 0; i < n; i++ {
		b = append(b, beBytes(uint64(r.Pick(4, 0x8004, 0x7fff, 0, 0xffff, 6|0x8000, r.N(65536))), 2)...)
	}
	return b
}

// hostile record payload: bytes that look like record types or undo records
func redoBytes(r *Rng, n int) []byte {
	switch r.N(5) {
	case 0:
		return make([]byte, n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = 0x94 // UNDO_INSERT | SINGLE
		}
		return b
	case 2:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Pick(0x14, 0x1f, 0x20, 0xff, 0x38, 0x0c, 1))
		}
		return b
	}
	return r.Bytes(n)
}

func insertRec(r *Rng, short bool) []byte {
	var b []byte
	if !short {
		b = append(b, beBytes(uint64(r.N(65536)), 2)...)
	}
	n := r.Pick(0, 1, 5, 63, 64, 127, 128, 300, 8191, 8192, r.N(700))
	if r.P(60) {
		n = r.N(40)
	}
	if r.P(60) {
		b = append(b, compressed(uint32(n<<1|1))...)
		b = append(b, byte(r.U64()))
		b = append(b, compressed(uint32(r.Pick(0, 5, 12, 127, 128, 200, 16383)))...)
		b = append(b, compressed(uint32(r.Pick(0, 5, 12, 127, 128, 200, 8000)))...)
	} else {
		b = append(b, compressed(uint32(n<<1))...)
	}
	return append(b, redoBytes(r, n)...)
}

func sysVals(r *Rng) []byte {
	b := compressed(uint32(r.Pick(0, 1, 2, 5, 127, 128, 1000)))
	b = append(b, r.Bytes(7)...)
	return append(b, u64Compressed(genU48(r))...)
}

func fileName(r *Rng) []byte {
	s := r.PickS("./test/t1.ibd", "./db/very_long_table_name_0123456789.ibd", "test/x", "./a/b#P#p0.ibd", "./d/t"+string(redoBytes(r, r.N(60))))
	b := []byte(s)
	if r.P(10) {
		b = append(b, redoBytes(r, r.Pick(255-len(b), 256-len(b), 512, 1020, 4000-len(b), r.N(4000-len(b))))...)
	}
	for i := range b {
		if b[i] == 0 {
			b[i] = '_'
		}
	}
	return append(b, 0)
}

// RedoRec makes a complete log record of a type with hostile contents.
func RedoRec(r *Rng, typ int) []byte {
	switch typ {
	case mMultiEnd, mDummy:
		return []byte{byte(typ)}
	case mCheckpoint:
		return append([]byte{byte(typ)}, r.Bytes(8)...)
	}
	b := []byte{byte(typ)}
	if r.P(50) {
		b[0] |= 0x80
	}
	b = append(b, compressed(genU32(r))...)
	b = append(b, compressed(genU32(r))...)
	u16 := func() []byte { return beBytes(uint64(r.N(65536)), 2) }
	idx := func(on bool) {
		if on {
			b = append(b, redoIndex(r)...)
		}
	}
	switch typ {
	case m1B, m2B, m4B:
		b = append(b, u16()...)
		v := genU32(r)
		if typ == m1B {
			v &= 0xff
		} else if typ == m2B {
			v &= 0xffff
		}
		b = append(b, compressed(v)...)
	case m8B:
		b = append(b, u16()...)
		b = append(b, u64Compressed(uint64(genU32(r))<<32|uint64(genU32(r)))...)
	case mRecInsert, mCRecInsert:
		idx(typ == mCRecInsert)
		b = append(b, insertRec(r, false)...)
	case mRecClustDel, mCClustDel:
		idx(typ == mCClustDel)
		b = append(b, byte(r.N(8)), byte(r.N(2)))
		b = append(b, sysVals(r)...)
		b = append(b, u16()...)
	case mRecSecDel:
		b = append(b, byte(r.N(2)))
		b = append(b, u16()...)
	case mCSecDel:
		idx(true)
		b = append(b, byte(r.N(2)))
		b = append(b, u16()...)
	case mRecUpd, mCUpd:
		idx(typ == mCUpd)
		b = append(b, byte(r.N(8)))
		b = append(b, sysVals(r)...)
		b = append(b, u16()...)
		b = append(b, byte(r.U64()))
		n := r.Pick(0, 1, 2, 3, 8)
		if r.P(3) {
			n = r.Pick(127, 128, 129, 300)
		}
		b = append(b, compressed(uint32(n))...)
		for i := 0; i < n; i++ {
			b = append(b, compressed(uint32(r.Pick(0, 1, 5, 20, 127, 128, 1000)))...)
			if r.P(25) {
				b = append(b, compressed(sqlNull)...)
			} else {
				l := r.Pick(0, 1, 8, 50, 127, 128, 200, 600)
				if n > 100 {
					l = r.N(20)
				} else if r.P(4) {
					l = r.Pick(255, 256, 3072, 8000)
				}
				b = append(b, compressed(uint32(l))...)
				b = append(b, redoBytes(r, l)...)
			}
		}
	case mRecDel, mCDel, mListEndDel, mListStartDel, mCListEnd, mCListStart:
		idx(typ == mCDel || typ == mCListEnd || typ == mCListStart)
		b = append(b, u16()...)
	case mListCopy, mCCopy:
		idx(typ == mCCopy)
		var body []byte
		n := r.N(5)
		if r.P(5) {
			n = r.N(60)
		}
		for i := 0; i < n; i++ {
			body = append(body, insertRec(r, true)...)
		}
		b = append(b, beBytes(uint64(len(body)), 4)...)
		b = append(b, body...)
	case mCReorg:
		idx(true)
	case mZipReorg, mZipCompNo:
		idx(true)
		b = append(b, byte(r.N(10)))
	case mUndoInsert:
		panic("use UndoRec")
	case mUndoInit:
		b = append(b, compressed(uint32(r.Pick(1, 2)))...)
	case mUndoReuse, mUndoCreate:
		b = append(b, u64Compressed(genU48(r))...)
	case mMinMark, mCMinMark:
		b = append(b, u16()...)
	case mWriteString:
		l := r.Pick(0, 1, 4, 10, 100, 500, 2000, r.N(300))
		if r.P(5) {
			// as for off-page values
			l = r.Pick(255, 256, 8192, 16330, 16384-38)
		}
		b = append(b, u16()...)
		b = append(b, beBytes(uint64(l), 2)...)
		b = append(b, redoBytes(r, l)...)
	case mFileCreate, mFileDelete, mFileName, mFileCreate2, mFileRename, mFileRename2:
		if typ == mFileCreate2 {
			b = append(b, r.Bytes(4)...)
		}
		n := fileName(r)
		b = append(b, beBytes(uint64(len(n)), 2)...)
		b = append(b, n...)
		if typ == mFileRename || typ == mFileRename2 {
			n := fileName(r)
			b = append(b, beBytes(uint64(len(n)), 2)...)
			b = append(b, n...)
		}
	case mZipNode:
		b = append(b, r.Bytes(8)...)
	case mZipBlob:
		b = append(b, r.Bytes(24)...)
	case mZipHdr:
		n := r.Pick(0, 1, 8, 38)
		b = append(b, byte(r.U64()), byte(n))
		b = append(b, redoBytes(r, n)...)
	case mZipComp:
		s, t := r.Pick(0, 10, 200, 3000), r.Pick(0, 4, 20, 100)
		if r.P(5) {
			s, t = r.Pick(255, 256, 8000, 16000), r.Pick(255, 256, 300, 4096, 8192, 9000, 16383)
		}
		b = append(b, beBytes(uint64(s), 2)...)
		b = append(b, beBytes(uint64(t), 2)...)
		b = append(b, r.Bytes(8)...)
		b = append(b, redoBytes(r, s+t)...)
	case mTruncate, mIndexLoad:
		b = append(b, r.Bytes(8)...)
	}
	return b
}

// UndoUpd is an undo record with its ground truth.
type UndoUpd struct {
	T       *Table
	Type    int // 11..14
	Row     *Row
	Cols    []int   // updated columns
	Old     []Value // their old values
	Ext     bool
	Virtual int    // virtual columns in the record
	Bytes   []byte // the undo record without the page-level pointers
}

const (
	undoInsertRec, undoUpdExist, undoUpdDel, undoDelMark = 11, 12, 13, 14
)

// BuildUndo encodes the undo record.
func BuildUndo(r *Rng, u *UndoUpd) []byte {
	t := u.T
	tc := u.Type
	cmpl := 0
	if u.Type != undoInsertRec {
		cmpl = r.Pick(0, 0, 1, 2, 3)
	}
	tc |= cmpl << 4
	if u.Ext {
		tc |= 0x80
	}
	b := []byte{byte(tc)}
	b = append(b, u64MuchCompressed(genUndoNo(r))...)
	b = append(b, u64MuchCompressed(t.ID)...)
	if u.Type != undoInsertRec {
		b = append(b, byte(r.Pick(0, 0x20)))
		b = append(b, u64Compressed(genU48(r))...)
		b = append(b, u64Compressed(r.U64()&(1<<56-1))...)
	}
	field := func(f Field) {
		if f.Null {
			b = append(b, compressed(sqlNull)...)
			return
		}
		if f.Ext {
			// trx_undo_page_report_modify_ext; a column which orders another index has a longer prefix
			if r.P(30) {
				b = append(b, compressed(extStorage)...)
				b = append(b, compressed(uint32(len(f.B)))...)
				f.B = append(r.Bytes(r.Pick(0, 1, 100, 747, 748)), f.B...)
				b = append(b, compressed(uint32(len(f.B)))...)
			} else {
				b = append(b, compressed(extStorage+uint32(len(f.B)))...)
			}
			b = append(b, f.B...)
			return
		}
		b = append(b, compressed(uint32(len(f.B)))...)
		b = append(b, f.B...)
	}
	if t.HasPK() {
		for i, c := range t.PK {
			field(t.prefixField(c, u.Row.Vals[c], t.pre(i)))
		}
	} else {
		field(Field{B: beBytes(u.Row.RowID, 6)})
	}
	if u.Type == undoUpdExist || u.Type == undoUpdDel {
		// trx_undo_page_report_modify: of the virtual columns those in an index
		var vs []int
		for i, v := range t.Virtual {
			if v.Index != 0 && r.P(60) {
				vs = append(vs, i)
			}
		}
		b = append(b, compressed(uint32(len(u.Cols)+len(vs)))...)
		lists, first := len(t.Virtual) > 0 && r.P(85), true
		virtual := func() {
			k := vs[0]
			vs = vs[1:]
			u.Virtual++
			b = append(b, compressed(uint32(1023+k))...)
			if lists {
				if first {
					b = append(b, 0xF1)
				}
				first = false
				l := compressed(1)
				l = append(l, compressed(uint32(t.Virtual[k].Index))...)
				l = append(l, 0)
				b = append(b, beBytes(uint64(len(l)+2), 2)...)
				b = append(b, l...)
			}
			for i := 0; i < 2; i++ {
				v := Field{Null: r.P(30)}
				if !v.Null {
					v.B = r.Bytes(r.Pick(0, 1, 4, 8, 30, 127, 128, 300))
				}
				field(v)
			}
		}
		for i, c := range u.Cols {
			for len(vs) > 0 && r.P(40) {
				virtual()
			}
			b = append(b, compressed(uint32(t.FieldNo(c)))...)
			field(t.colField(c, u.Old[i]))
		}
		for len(vs) > 0 {
			virtual()
		}
	}
	// the columns of the other indexes, when an ordering column may change
	if u.Type != undoInsertRec && (u.Type != undoUpdExist || cmpl&1 == 0) {
		var tail []byte
		for c := range t.Cols {
			if r.P(30) {
				tail = append(tail, compressed(uint32(t.FieldNo(c)))...)
				f := t.colField(c, u.Row.Vals[c])
				if f.Null {
					tail = append(tail, compressed(sqlNull)...)
				} else {
					tail = append(tail, compressed(uint32(len(f.B)))...)
					tail = append(tail, f.B...)
				}
			}
		}
		b = append(b, beBytes(uint64(len(tail)+2), 2)...)
		b = append(b, tail...)
	}
	u.Bytes = b
	return b
}

func genUndoNo(r *Rng) uint64 {
	if r.P(10) {
		return uint64(genU32(r))<<32 | uint64(genU32(r))
	}
	return uint64(genU32(r))
}

// UndoRedoRec wraps an undo record in an MLOG_UNDO_INSERT record.
func UndoRedoRec(r *Rng, undo []byte) []byte {
	b := []byte{mUndoInsert}
	if r.P(50) {
		b[0] |= 0x80
	}
	b = append(b, compressed(uint32(r.N(128)))...)
	b = append(b, compressed(genU32(r))...)
	b = append(b, beBytes(uint64(len(undo)), 2)...)
	return append(b, undo...)
}

// LogFile is how a part of the log byte stream is stored.
type LogOpt struct {
	Files    int
	V57      bool
	BlockPct int // percentage of blocks that are not full
	DataLens []int
	EndMark  bool // 1+Stale blocks which were never written follow the last one
	Stale    int
	FirstNo  uint32 // number of the first block, 0: any
	Creator  string
}

// logSum returns the checksum of a log block: CRC-32C, or that of 5.6.
func logSum(v57 bool, b []byte) uint32 {
	if v57 {
		return crc32.Checksum(b[:508], castagnoli)
	}
	sum, sh := uint64(1), uint(0)
	for _, c := range b[:508] {
		sum &= 0x7FFFFFFF
		sum += uint64(c)
		sum += uint64(c) << sh
		if sh++; sh > 24 {
			sh = 0
		}
	}
	return uint32(sum)
}

// logHeader returns the header of a log file whose first block is number no.
// The checkpoints are somewhere in the blocks which follow it.
func logHeader(r *Rng, v57 bool, no uint32, creator string) []byte {
	if no == 0 {
		no = 1
	}
	startLSN := (uint64(no-1) + uint64(r.N(4))<<30) * 512
	b := make([]byte, 2048)
	if v57 {
		// that of MySQL 5.7 and 8.0, MariaDB from 10.3, with encryption
		be32(b, 0, []uint32{1, 1, 1, 2, 3, 4, 6, 103, 103 | 1<<31, 0x50485953}[r.N(10)])
		be32(b, 4, uint32(r.Pick(0, 0, r.N(1<<31))))
		be64(b, 8, startLSN)
		if creator == "" {
			creator = "MySQL 5.7.30"
		}
		copy(b[16:48], creator)
		be32(b, 508, logSum(true, b))
	} else {
		be32(b, 0, uint32(r.Pick(0, 0, 0, 1, 7)))
		be64(b, 4, startLSN)
		be32(b, 12, 0)
		// LOG_FILE_WAS_CREATED_BY_HOT_BACKUP
		if creator == "" {
			creator = "    "
		}
		copy(b[16:48], creator)
	}
	ck := uint64(r.N(1000))
	if !r.P(10) {
		// as in the first file of a group
		for _, o := range []int{512, 1536} {
			off := uint64(2048 + r.Pick(0, 12, r.N(4<<20)))
			be64(b, o, ck)
			be64(b, o+8, startLSN+off-2048)
			if v57 {
				be64(b, o+16, off)
				be64(b, o+24, 8<<20)
				be32(b, o+508, logSum(true, b[o:o+512]))
			} else {
				be32(b, o+16, uint32(off))
				be32(b, o+20, 8<<20)
				be64(b, o+24, ^uint64(0))
			}
			ck++
		}
	}
	return b
}

func logBlock(v57 bool, no, checkpoint uint32, payload []byte, dataLen int, first int) []byte {
	b := make([]byte, 512)
	be32(b, 0, no)
	be16(b, 4, dataLen)
	be16(b, 6, first)
	be32(b, 8, checkpoint)
	copy(b[12:508], payload)
	be32(b, 508, logSum(v57, b))
	return b
}

// LogShape tells how a stream was laid out.
type LogShape struct {
	Blocks, Full, Partial, Files int
}

func (s LogShape) String() string {
	return fmt.Sprintf("files=%d blocks=%d full=%d partial=%d", s.Files, s.Blocks, s.Full, s.Partial)
}

// logLayout is a stream cut into blocks.
type logLayout struct {
	blocks [][]byte
	at     []int // stream offset of each block, and the end
}

// layBlocks cuts the stream into blocks; starts are the offsets of the record groups.
func layBlocks(r *Rng, stream []byte, starts []int, o LogOpt, sh *LogShape) *logLayout {
	l := &logLayout{}
	no := o.FirstNo
	if no == 0 {
		no = uint32(1 + r.N(1<<20))
	}
	pos := 0
	// the next checkpoint's number: 0 until the first one, its low 32 bits
	ck := uint32(r.Pick(0, 0, 1, 1<<31-1, 1<<32-1, r.N(1<<20)))
	for pos < len(stream) {
		if r.P(10) {
			ck++
		}
		n := 496
		if r.P(o.BlockPct) {
			n = r.Pick(1, 2, 5, 100, 250, 494, 495, r.Range(1, 495))
		}
		if n > len(stream)-pos {
			n = len(stream) - pos
		}
		dl := n + 12
		if n == 496 {
			dl = 512
			sh.Full++
		} else {
			sh.Partial++
		}
		first := 0
		if k := sort.SearchInts(starts, pos); k < len(starts) && starts[k] < pos+n {
			first = 12 + starts[k] - pos
		}
		hdr := no
		if r.P(20) {
			hdr |= 1 << 31 // the first block of a flush
		}
		l.blocks = append(l.blocks, logBlock(o.V57, hdr, ck, stream[pos:pos+n], dl, first))
		l.at = append(l.at, pos)
		pos += n
		no = no%(1<<30) + 1
	}
	l.at = append(l.at, pos)
	sh.Blocks = len(l.blocks)
	return l
}

// BuildLog lays the byte stream out in blocks and files. The last file may
// have blocks which were never written behind it.
func BuildLog(r *Rng, stream []byte, starts []int, o LogOpt) ([][]byte, LogShape) {
	if o.Files < 1 {
		o.Files = 1
	}
	sh := LogShape{Files: o.Files}
	blocks := layBlocks(r, stream, starts, o, &sh).blocks
	var files [][]byte
	per := (len(blocks) + o.Files - 1) / o.Files
	for f := 0; f < o.Files; f++ {
		lo, hi := f*per, (f+1)*per
		if o.Files > 1 && f < o.Files-1 && len(blocks) > 0 {
			// an uneven split
			hi = lo + r.N(per+1)
		}
		if lo > len(blocks) {
			lo = len(blocks)
		}
		if hi > len(blocks) || f == o.Files-1 {
			hi = len(blocks)
		}
		start := 0
		for _, g := range files {
			start += (len(g) - 2048) / 512
		}
		no := uint32(1)
		if start < len(blocks) {
			no = uint32(binary.BigEndian.Uint32(blocks[start])) &^ (1 << 31)
		}
		b := logHeader(r, o.V57, no, o.Creator)
		lo = start
		if hi < lo {
			hi = lo
		}
		for _, blk := range blocks[lo:hi] {
			b = append(b, blk...)
		}
		files = append(files, b)
	}
	if o.EndMark {
		last := len(files) - 1
		files[last] = append(files[last], make([]byte, 512*(1+o.Stale))...)
	}
	return files, sh
}
