package api

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
)

// EncFn is a block encoder. Lanes is 8, 4, or 0 for "up to four, as told".
type EncFn struct {
	Name   string
	Lanes  int
	Delta  bool
	Scalar bool
	F      func(in []uint32, out []byte, prev uint32, count int) uint16
}

// DecFn is a block decoder; F returns the bytes consumed, or -1 if the
// function does not report them.
type DecFn struct {
	Name   string
	Lanes  int
	Delta  bool
	Scalar bool
	F      func(in []byte, out []uint32, ctrl uint16, prev uint32, count int) int
}

func e8(f func([]uint32, []byte) uint16) func([]uint32, []byte, uint32, int) uint16 {
	return func(in []uint32, out []byte, _ uint32, _ int) uint16 { return f(in, out) }
}
func e8d(f func([]uint32, []byte, uint32) uint16) func([]uint32, []byte, uint32, int) uint16 {
	return func(in []uint32, out []byte, p uint32, _ int) uint16 { return f(in, out, p) }
}
func d8(f func([]byte, []uint32, uint16)) func([]byte, []uint32, uint16, uint32, int) int {
	return func(in []byte, out []uint32, c uint16, _ uint32, _ int) int { f(in, out, c); return -1 }
}
func d8d(f func([]byte, []uint32, uint16, uint32)) func([]byte, []uint32, uint16, uint32, int) int {
	return func(in []byte, out []uint32, c uint16, p uint32, _ int) int { f(in, out, c, p); return -1 }
}

var Encoders = []EncFn{
	{"Put8uint32", 8, false, false, e8(encode.Put8uint32)},
	{"Put8uint32Delta", 8, true, false, e8d(encode.Put8uint32Delta)},
	{"Put8uint32Scalar", 8, false, true, e8(encode.Put8uint32Scalar)},
	{"Put8uint32DeltaScalar", 8, true, true, e8d(encode.Put8uint32DeltaScalar)},
	{"Put4uint32Scalar", 4, false, true, func(in []uint32, out []byte, _ uint32, _ int) uint16 {
		return uint16(encode.Put4uint32Scalar(in, out))
	}},
	{"Put4uint32DeltaScalar", 4, true, true, func(in []uint32, out []byte, p uint32, _ int) uint16 {
		return uint16(encode.Put4uint32DeltaScalar(in, out, p))
	}},
	{"PutUint32Scalar", 0, false, true, func(in []uint32, out []byte, _ uint32, n int) uint16 {
		return uint16(encode.PutUint32Scalar(in, out, n))
	}},
	{"PutUint32DeltaScalar", 0, true, true, func(in []uint32, out []byte, p uint32, n int) uint16 {
		return uint16(encode.PutUint32DeltaScalar(in, out, n, p))
	}},
}

var Decoders = []DecFn{
	{"Get8uint32", 8, false, false, d8(decode.Get8uint32)},
	{"Get8uint32Delta", 8, true, false, d8d(decode.Get8uint32Delta)},
	{"Get8uint32Scalar", 8, false, true, d8(decode.Get8uint32Scalar)},
	{"Get8uint32DeltaScalar", 8, true, true, d8d(decode.Get8uint32DeltaScalar)},
	{"Get4uint32Scalar", 4, false, true, func(in []byte, out []uint32, c uint16, _ uint32, _ int) int {
		decode.Get4uint32Scalar(in, out, uint8(c))
		return -1
	}},
	{"Get4uint32DeltaScalar", 4, true, true, func(in []byte, out []uint32, c uint16, p uint32, _ int) int {
		decode.Get4uint32DeltaScalar(in, out, uint8(c), p)
		return -1
	}},
	{"GetUint32Scalar", 0, false, true, func(in []byte, out []uint32, c uint16, _ uint32, n int) int {
		return decode.GetUint32Scalar(in, out, uint8(c), n)
	}},
	{"GetUint32DeltaScalar", 0, true, true, func(in []byte, out []uint32, c uint16, p uint32, n int) int {
		return decode.GetUint32DeltaScalar(in, out, uint8(c), n, p)
	}},
}

func init() {
	if encode.GetMode() == shared.Fast {
		Encoders = append(Encoders,
			EncFn{"Put8uint32Fast", 8, false, false, e8(encode.Put8uint32Fast)},
			EncFn{"Put8uint32DeltaFast", 8, true, false, e8d(encode.Put8uint32DeltaFast)})
	}
	if decode.GetMode() == shared.Fast {
		Decoders = append(Decoders,
			DecFn{"Get8uint32Fast", 8, false, false, d8(decode.Get8uint32Fast)},
			DecFn{"Get8uint32DeltaFast", 8, true, false, d8d(decode.Get8uint32DeltaFast)})
	}
}

// Lanes is the number of integers a function handles for a requested count.
func Lanes(l, count int) int {
	if l != 0 {
		return l
	}
	if count > 4 {
		return 4
	}
	return count
}
