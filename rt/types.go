// Package verifrt is the harness interface of the solver-based checks. The
// symbolic engine interprets calls to it; this native implementation replays
// one concrete execution (inputs, schedule, map orders) of the real code.
package verifrt

// RuntimeErr is a Go run-time panic in the symbolic engine.
type RuntimeErr string

func (e RuntimeErr) Error() string { return string(e) }

// RuntimeError marks the type as a runtime error.
func (e RuntimeErr) RuntimeError() {}

// ErrString is the error value of modelled library calls.
type ErrString struct {
	s       string
	wrapped error
}

func (e *ErrString) Error() string { return e.s }

// Unwrap returns the wrapped error.
func (e *ErrString) Unwrap() error { return e.wrapped }

// GCM stands for an AES block cipher and its GCM mode in the symbolic engine.
type GCM struct{ key []byte }

func (g *GCM) BlockSize() int                                 { return 16 }
func (g *GCM) Encrypt(dst, src []byte)                        {}
func (g *GCM) Decrypt(dst, src []byte)                        {}
func (g *GCM) NonceSize() int                                 { return 12 }
func (g *GCM) Overhead() int                                  { return 16 }
func (g *GCM) Seal(dst, nonce, plaintext, ad []byte) []byte   { return nil }
func (g *GCM) Open(dst, nonce, ct, ad []byte) ([]byte, error) { return nil, nil }

// readFull is crypto/rand.Read with a source of random bytes of the harness.
func readFull(r interface{ Read([]byte) (int, error) }, b []byte) (n int, err error) {
	for n < len(b) && err == nil {
		var k int
		k, err = r.Read(b[n:])
		n += k
	}
	if n == len(b) {
		err = nil
	}
	return n, err
}

// Tuple keeps the types above reachable.
var keep = []interface{}{RuntimeErr(""), &ErrString{}, &GCM{}, readFull}
