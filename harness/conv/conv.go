// Package conv moves values between math/big and the simulator's 256-bit
// integers limb by limb, without using any of the simulator's own conversions.
package conv

import (
	"fmt"
	"math/big"

	ui "uniswap-simulator/uint256"
)

var (
	B256 = new(big.Int).Lsh(big.NewInt(1), 256)
	B255 = new(big.Int).Lsh(big.NewInt(1), 255)
	M64  = new(big.Int).SetUint64(^uint64(0))
)

// U converts b mod 2^256 (negative: two's complement).
func U(b *big.Int) *ui.Int {
	x := new(big.Int).Mod(b, B256)
	z := new(ui.Int)
	for i := 0; i < 4; i++ {
		(*z)[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), M64).Uint64()
	}
	return z
}

// B converts to the unsigned value.
func B(x *ui.Int) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64((*x)[i]))
	}
	return r
}

// S converts to the two's-complement value.
func S(x *ui.Int) *big.Int {
	r := B(x)
	if r.Cmp(B255) >= 0 {
		r.Sub(r, B256)
	}
	return r
}

// Eq compares an unsigned simulator value with a big integer mod 2^256.
func Eq(name string, got *ui.Int, want *big.Int) error {
	if got == nil {
		return fmt.Errorf("%s: got nil, want %v", name, want)
	}
	w := new(big.Int).Mod(want, B256)
	if B(got).Cmp(w) != 0 {
		return fmt.Errorf("%s: got %v, want %v", name, B(got), w)
	}
	return nil
}

// EqS is Eq with signed display.
func EqS(name string, got *ui.Int, want *big.Int) error {
	if got == nil {
		return fmt.Errorf("%s: got nil, want %v", name, want)
	}
	if S(got).Cmp(want) != 0 {
		return fmt.Errorf("%s: got %v, want %v", name, S(got), want)
	}
	return nil
}
