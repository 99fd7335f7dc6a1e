// codeccmd monitors compression, conversions, serialization, digests, base58, helpers and the byte buffer.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"verifharness/vh"
)

func main() {
	vh.Helpers["tz"] = tzHelper
	vh.Main(map[string]func(*vh.Run){"U01": u01, "U02": u02, "U03": u03, "U04": u04, "U05": u05, "U06": u06, "U07": u07, "U08": u08, "B01": b01})
}

var words = []string{"gofer", "the quick brown fox ", "\x00\x00\x00", "aaaaaaaaaaaaaaaa", "abcabcabc", "日本語", "0123456789", "\xff\xfe"}

// data makes a byte string of the given length and texture.
func data(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(6) {
	case 0: // zero
	case 1: // incompressible
		fill(r, b)
	case 2: // words
		for i := 0; i < n; {
			i += copy(b[i:], words[r.IntN(len(words))])
		}
	case 3: // long period, far matches
		p := 1 + r.IntN(70000)
		fill(r, b[:min(n, p)])
		for i := p; i < n; i++ {
			b[i] = b[i-p]
		}
	case 4: // runs
		for i := 0; i < n; {
			v := byte(r.IntN(256))
			for k := 1 + r.IntN(300); k > 0 && i < n; k-- {
				b[i] = v
				i++
			}
		}
	case 5: // half compressible
		fill(r, b)
		for i := range b {
			if i%97 < 60 {
				b[i] = byte(i / 97)
			}
		}
	}
	return b
}

func fill(r *rand.Rand, b []byte) {
	i := 0
	for ; i+8 <= len(b); i += 8 {
		v := r.Uint64()
		for k := 0; k < 8; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	for ; i < len(b); i++ {
		b[i] = byte(r.Uint32())
	}
}

// size picks lengths around the block and window sizes of the formats.
func size(r *rand.Rand, big bool) int {
	edge := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2048, 4096, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072}
	switch k := r.IntN(10); {
	case k < 4:
		return edge[r.IntN(len(edge))]
	case k < 7:
		return r.IntN(300)
	case k < 9:
		return 1024 * r.IntN(40)
	}
	if big {
		return r.IntN(1 << 20)
	}
	return r.IntN(40000)
}

func brief(b []byte) string {
	if len(b) <= 48 {
		return fmt.Sprintf("%d bytes %x", len(b), b)
	}
	return fmt.Sprintf("%d bytes %x...%x", len(b), b[:24], b[len(b)-8:])
}

// guarded returns a copy of b inside a larger array and a check that neither it nor its surroundings changed.
func guarded(b []byte) ([]byte, func() bool) {
	a := make([]byte, len(b)+40)
	for i := range a {
		a[i] = 0xA5
	}
	copy(a[8:], b)
	want := append([]byte{}, a...)
	return a[8 : 8+len(b) : len(a)], func() bool { return bytes.Equal(a, want) }
}
