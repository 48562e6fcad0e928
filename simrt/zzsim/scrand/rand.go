// Package scrand replaces crypto/rand in the instrumented build.
package scrand

import (
	"io"
	"math/big"

	sim "github.com/adamcolton/parlex/zzsim"
)

type src struct{}

func (src) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(sim.Rand64() >> 11)
	}
	return len(p), nil
}

// Reader is the simulated source.
var Reader io.Reader = src{}

func Read(p []byte) (int, error) { return Reader.Read(p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, max), nil
}

func Text() string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = al[sim.Rand64()>>9&31]
	}
	return string(b)
}
