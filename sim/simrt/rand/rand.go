// Package rand replaces crypto/rand inside the instrumented tree: every byte
// of entropy the code under test consumes comes from the simulator.
package rand

import (
	"errors"
	"io"
	"math/big"
)

// Source serves one read of the simulated operating-system entropy device.
type Source func(p []byte) (int, error)

var src Source = func(p []byte) (int, error) { return 0, errors.New("simulated entropy: no source installed") }

// Install sets the entropy source (harness side).
func Install(s Source) { src = s }

type reader struct{}

func (reader) Read(p []byte) (int, error) { return src(p) }

// Reader is the simulated crypto/rand.Reader.
var Reader io.Reader = reader{}

// Read behaves like crypto/rand.Read of the Go versions this module declares
// support for (go 1.13 in go.mod): it may return an error.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Int is crypto/rand.Int over an explicit reader.
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n := new(big.Int).Sub(max, big.NewInt(1))
	bitLen := n.BitLen()
	if bitLen == 0 {
		return n, nil
	}
	k := (bitLen + 7) / 8
	b := uint(bitLen % 8)
	if b == 0 {
		b = 8
	}
	bytes := make([]byte, k)
	for {
		if _, err := io.ReadFull(r, bytes); err != nil {
			return nil, err
		}
		bytes[0] &= uint8(int(1<<b) - 1)
		n.SetBytes(bytes)
		if n.Cmp(max) < 0 {
			return n, nil
		}
	}
}

// Text is crypto/rand.Text.
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	if _, err := Read(b); err != nil {
		panic(err)
	}
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}

// Prime is crypto/rand.Prime.
func Prime(r io.Reader, bits int) (*big.Int, error) {
	if bits < 2 {
		return nil, errors.New("crypto/rand: prime size must be at least 2-bit")
	}
	b := uint(bits % 8)
	if b == 0 {
		b = 8
	}
	bytes := make([]byte, (bits+7)/8)
	p := new(big.Int)
	for {
		if _, err := io.ReadFull(r, bytes); err != nil {
			return nil, err
		}
		bytes[0] &= uint8(int(1<<b) - 1)
		if b >= 2 {
			bytes[0] |= 3 << (b - 2)
		} else {
			bytes[0] |= 1
			if len(bytes) > 1 {
				bytes[1] |= 0x80
			}
		}
		bytes[len(bytes)-1] |= 1
		p.SetBytes(bytes)
		if p.ProbablyPrime(20) {
			return p, nil
		}
	}
}
