// Command tables decides C14: the published tables and size helpers.
package main

import (
	"fmt"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type tabCase struct {
	Ctrl uint16  `json:"ctrl"`
	Vec  gen.Hex `json:"vector"` // 16 bytes run through the masks of the low control byte
}

// shuffle is the byte shuffle of the CPU: an index with its top bit set gives
// zero, any other index its low four bits name a source byte.
func shuffle(v []byte, mask []uint8) []byte {
	out := make([]byte, 16)
	for i := range out {
		if m := mask[i]; m < 0x80 {
			out[i] = v[m&15]
		}
	}
	return out
}

func main() {
	reps := pbt.Scale(400, 8000)
	pbt.Main(&pbt.Suite{Prop: "C14",
		Rule: "All 65536 two-byte control values (hence all 256 control bytes) go through the length tables and size helpers, and generated 16-byte vectors through the compaction and expansion mask of every control byte, by the CPU's byte shuffle rule, against the reference model. A case is non-trivial when its two control bytes are not both zero; distinct (control, vector) pairs are counted by a 64-bit hash. The control values are enumerated completely, the vectors are sampled (vectors of 16 different bytes identify a mask completely).",
		Sections: []pbt.Section{
			{Name: "every-two-byte-control", N: 65536, Make: func(r *pbt.Rand, i int) any {
				return &tabCase{Ctrl: uint16(i), Vec: distinct(r)}
			}},
			{Name: "vectors", N: 256 * reps, Make: func(r *pbt.Rand, i int) any {
				return &tabCase{Ctrl: uint16(i&255) | uint16(r.Byte())<<8, Vec: gen.Bytes(r, 16)}
			}},
		},
		New: func() any { return &tabCase{} },
		Hash: func(c any) uint64 {
			t := c.(*tabCase)
			return uint64(pbt.NewHash().U64(uint64(t.Ctrl)).Bytes(t.Vec))
		},
		Nontrivial: func(c any) bool { return c.(*tabCase).Ctrl != 0 },
		Shrink: func(c any, try func(any) bool) {
			t := c.(*tabCase)
			for _, v := range []uint16{0, t.Ctrl & 0xff, t.Ctrl &^ 0xff} {
				if v < t.Ctrl && try(&tabCase{v, t.Vec}) {
					return
				}
			}
			for j := 0; j < 16; j++ {
				if v := t.Ctrl &^ (1 << uint(j)); v < t.Ctrl && try(&tabCase{v, t.Vec}) {
					return
				}
			}
			for i, b := range t.Vec {
				if b != 0 {
					d := &tabCase{t.Ctrl, append(gen.Hex{}, t.Vec...)}
					d.Vec[i] = 0
					if try(d) {
						return
					}
				}
			}
		},
		Check: func(w *pbt.Worker, c any) error {
			t := c.(*tabCase)
			w.Calls += 2
			b := []byte{byte(t.Ctrl), byte(t.Ctrl >> 8)}
			lo, hi := ref.DataLen(b[:1], 4), ref.DataLen(b[1:], 4)
			for k, v := range b {
				total := 0
				for j := 0; j < 4; j++ {
					l := ref.CtrlLen(b[k:], j)
					total += l
					if got := int(shared.PerNumLenTable[v][j]); got != l {
						return fmt.Errorf("PerNumLenTable[%#x][%d] is %d, want %d", v, j, got, l)
					}
				}
				if got := int(shared.PerControlLenTable[v]); got != total {
					return fmt.Errorf("PerControlLenTable[%#x] is %d, want %d", v, got, total)
				}
				if got := int(shared.ControlByteToSize(v)); got != total {
					return fmt.Errorf("ControlByteToSize(%#x) is %d, want %d", v, got, total)
				}
			}
			if got := int(shared.ControlByteToSizeTwo(t.Ctrl)); got != lo+hi {
				return fmt.Errorf("ControlByteToSizeTwo(%#x) is %d, want %d", t.Ctrl, got, lo+hi)
			}
			// compaction: four 4-byte lanes to the bytes the format keeps
			enc := shared.EncodeShuffleTable[b[0]]
			want := make([]byte, 0, 16)
			for j := 0; j < 4; j++ {
				want = append(want, t.Vec[4*j:4*j+ref.CtrlLen(b, j)]...)
			}
			want = append(want, make([]byte, 16-len(want))...)
			for i, x := range shuffle(t.Vec, enc[:]) {
				if x != want[i] {
					return fmt.Errorf("compaction mask of %#x: byte %d of % x is %#x, want %#x", b[0], i, []byte(t.Vec), x, want[i])
				}
			}
			// expansion: packed bytes to four lanes
			dec := shared.DecodeShuffleTable[b[0]]
			got := shuffle(t.Vec, dec[:])
			nums, _ := ref.Decode(b[:1], t.Vec, 4)
			for j, x := range nums {
				for k := 0; k < 4; k++ {
					if got[4*j+k] != byte(x>>uint(8*k)) {
						return fmt.Errorf("expansion mask of %#x: byte %d of lane %d of % x is %#x, want %#x", b[0], k, j, []byte(t.Vec), got[4*j+k], byte(x>>uint(8*k)))
					}
				}
			}
			return nil
		}})
}

// distinct returns 16 different non-zero bytes.
func distinct(r *pbt.Rand) []byte {
	v := make([]byte, 16)
	off := r.N(200)
	for i := range v {
		v[i] = byte(1 + (off+i*13)%251)
	}
	return v
}
