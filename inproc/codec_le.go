package main

import (
	"fmt"
	"math"

	"github.com/zbdba/db-recovery/recovery/utils"
)

func init() { littleEndian = readLE }

func readLE(r *rng, n uint64) {
	l := append(le(n, 8), byte(r.u64()))
	guard(fmt.Sprintf("little-endian %#x", n), func() {
		s24 := int32(uint32(n)<<8) >> 8
		ok := utils.ParseBinaryInt8(l) == int8(n) && utils.ParseBinaryUint8(l) == uint8(n) &&
			utils.ParseBinaryInt16(l) == int16(n) && utils.ParseBinaryUint16(l) == uint16(n) &&
			utils.ParseBinaryInt24(l) == s24 && utils.ParseBinaryUint24(l) == uint32(n)&0xFFFFFF &&
			utils.ParseBinaryInt32(l) == int32(n) && utils.ParseBinaryUint32(l) == uint32(n) &&
			utils.ParseBinaryInt64(l) == int64(n) && utils.ParseBinaryUint64(l) == n &&
			math.Float32bits(utils.ParseBinaryFloat32(l)) == math.Float32bits(math.Float32frombits(uint32(n))) &&
			math.Float64bits(utils.ParseBinaryFloat64(l)) == math.Float64bits(math.Float64frombits(n))
		for w := 0; w <= 8; w++ {
			m := n
			if w < 8 {
				m &= 1<<(8*uint(w)) - 1
			}
			ok = ok && utils.FixedLengthInt(l[:w]) == m
		}
		if !ok {
			failf("a little-endian reader misreads %x", l)
		}
	})
	see("little_endian", 1)
}
