// Package verifk replaces the Keccak hash.
package verifk

import "hash"

type state struct {
	hash.Hash
	h [4]uint64
}

// NewKeccak is another hash, whose code is smaller.
//
//verif:stub golang.org/x/crypto/sha3.NewLegacyKeccak256
func NewKeccak() hash.Hash {
	return &state{h: [4]uint64{14695981039346656037, 14695981039346656038, 14695981039346656039, 14695981039346656040}}
}

func (s *state) Write(b []byte) (int, error) {
	for _, c := range b {
		for i := range s.h {
			s.h[i] = (s.h[i] ^ uint64(c)) * 1099511628211
			s.h[i] ^= s.h[i] >> 29
		}
	}
	return len(b), nil
}

func (s *state) Sum(b []byte) []byte {
	for _, x := range s.h {
		for i := 0; i < 8; i++ {
			b = append(b, byte(x>>uint(8*i)))
		}
	}
	return b
}
