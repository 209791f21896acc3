// Package scrand stands in for crypto/rand.
package scrand

import (
	"errors"
	"io"
	"math/big"

	"github.com/jart/gosip/zsim/rt"
)

type reader struct{}

var Reader io.Reader = reader{}

// FailRand makes the source fail, if set, for the run.
var FailRand func() bool

// Good counts the reads that succeeded in this run, Bad the ones that failed.
var Good, Bad int

// Reset prepares for another run.
func Reset() { FailRand, Good, Bad = nil, 0, 0 }

func (reader) Read(b []byte) (int, error) {
	if FailRand != nil && FailRand() {
		rt.Stat("fault.random_source")
		Bad++
		n := rt.Choose(rt.NET, len(b)+1)
		if n == len(b) {
			n = 0
		}
		for i := range b[:n] {
			b[i] = byte(rt.S.Ident.Next() >> 32)
		}
		return n, errors.New("simulated: getrandom failed")
	}
	Good++
	for i := range b {
		b[i] = byte(rt.S.Ident.Next() >> 32)
	}
	return len(b), nil
}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n := max.BitLen()/8 + 9
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	v := new(big.Int).SetBytes(b)
	v.Mod(v, max)
	if max.BitLen() <= 20 {
		// The ends of a small range come up as often as they need to for
		// someone to notice.
		switch rt.S.Ident.Next() >> 60 {
		case 0:
			v.SetInt64(0)
		case 1:
			v.Sub(max, big.NewInt(1))
		}
	}
	return v, nil
}

func Text() string {
	b := make([]byte, 16)
	Read(b)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
	}
	return string(b)
}
