// Package simcrand replaces crypto/rand in the code under test: bytes come from the run's environment PRNG.
package simcrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"vsim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.EnvU64() >> 11)
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }

func Text() string {
	const base32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = base32[b[i]%32]
	}
	return string(b)
}
