// Package api lists the stream functions of the library under test.
package api

import (
	"fmt"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

type Writer struct {
	Name string
	F    func(in []uint32) []byte
}
type DeltaWriter struct {
	Name string
	F    func(in []uint32, prev uint32) []byte
}
type Reader struct {
	Name string
	F    func(count int, stream []byte, out []uint32)
}
type DeltaReader struct {
	Name string
	F    func(count int, stream []byte, out []uint32, prev uint32)
}

var (
	Writers      = []Writer{{"WriteAll", writer.WriteAll}, {"WriteAllScalar", writer.WriteAllScalar}}
	DeltaWriters = []DeltaWriter{{"WriteAllDelta", writer.WriteAllDelta}, {"WriteAllDeltaScalar", writer.WriteAllDeltaScalar}}
	Readers      = []Reader{{"ReadAll", reader.ReadAll}, {"ReadAllScalar", reader.ReadAllScalar}}
	DeltaReaders = []DeltaReader{{"ReadAllDelta", reader.ReadAllDelta}, {"ReadAllDeltaScalar", reader.ReadAllDeltaScalar}}
)

// FastEncode and FastDecode say whether the library reports its accelerated
// code to be usable here; only then may the accelerated functions be called.
var (
	FastEncode = encode.GetMode() == shared.Fast
	FastDecode = decode.GetMode() == shared.Fast
)

func init() {
	if FastEncode {
		Writers = append(Writers, Writer{"WriteAllFast", writer.WriteAllFast})
		DeltaWriters = append(DeltaWriters, DeltaWriter{"WriteAllDeltaFast", writer.WriteAllDeltaFast})
	}
	if FastDecode {
		Readers = append(Readers, Reader{"ReadAllFast", reader.ReadAllFast})
		DeltaReaders = append(DeltaReaders, DeltaReader{"ReadAllDeltaFast", reader.ReadAllDeltaFast})
	}
}

// Diff compares got with want and describes the first difference.
func Diff(got, want []uint32) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d integers, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("integer %d of %d is %#x, want %#x", i, len(want), got[i], want[i])
		}
	}
	return nil
}

// DiffBytes compares got with want and describes the first difference.
func DiffBytes(got, want []byte) error {
	for i := range got {
		if i < len(want) && got[i] != want[i] {
			return fmt.Errorf("byte %d is %#x, want %#x (%d bytes, want %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d bytes, want %d", len(got), len(want))
	}
	return nil
}
