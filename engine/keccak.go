package main

import "math/bits"

var kRC = [24]uint64{0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008}

func keccakF(a *[25]uint64) {
	rot := [24]int{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
	pil := [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for i := 0; i < 5; i++ {
			c[i] = a[i] ^ a[i+5] ^ a[i+10] ^ a[i+15] ^ a[i+20]
		}
		for i := 0; i < 5; i++ {
			t := c[(i+4)%5] ^ bits.RotateLeft64(c[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				a[j+i] ^= t
			}
		}
		t := a[1]
		for i := 0; i < 24; i++ {
			j := pil[i]
			t, a[j] = a[j], bits.RotateLeft64(t, rot[i])
		}
		for j := 0; j < 25; j += 5 {
			var b [5]uint64
			copy(b[:], a[j:j+5])
			for i := 0; i < 5; i++ {
				a[j+i] = b[i] ^ (^b[(i+1)%5] & b[(i+2)%5])
			}
		}
		a[0] ^= kRC[r]
	}
}

// keccak256 is the legacy Keccak hash used by Ethereum.
func keccak256(in []byte) []byte {
	const rate = 136
	p := append([]byte(nil), in...)
	p = append(p, 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var s [25]uint64
	for off := 0; off < len(p); off += rate {
		for i := 0; i < rate/8; i++ {
			var w uint64
			for b := 7; b >= 0; b-- {
				w = w<<8 | uint64(p[off+8*i+b])
			}
			s[i] ^= w
		}
		keccakF(&s)
	}
	out := make([]byte, 32)
	for i := range out {
		out[i] = byte(s[i/8] >> (8 * (i % 8)))
	}
	return out
}
