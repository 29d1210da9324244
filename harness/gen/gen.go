// Package gen has the generators shared by the checks.
package gen

import (
	"math/big"

	"pgregory.net/rapid"

	"verifharness/model"
)

var one = big.NewInt(1)

// Limb draws a 64-bit limb biased to boundary patterns.
func Limb(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 9).Draw(t, "lk") {
	case 0, 1:
		return 0
	case 2:
		return 1
	case 3:
		return 1 << 63
	case 4, 5:
		return ^uint64(0)
	case 6:
		return ^uint64(0) - uint64(rapid.IntRange(0, 3).Draw(t, "ld"))
	case 7:
		return uint64(1) << uint(rapid.IntRange(0, 63).Draw(t, "lb"))
	}
	return rapid.Uint64().Draw(t, "lr")
}

// U256 draws a 256-bit value biased to limb boundaries.
func U256(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 7).Draw(t, "uk") {
	case 0:
		return LogU(t, 256)
	case 1: // 2^k +- d
		k := rapid.IntRange(0, 256).Draw(t, "k")
		d := rapid.IntRange(-3, 3).Draw(t, "d")
		r := new(big.Int).Add(new(big.Int).Lsh(one, uint(k)), big.NewInt(int64(d)))
		return model.Mod256(r)
	case 2: // fully random limbs
		r := new(big.Int)
		n := rapid.IntRange(1, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			r.Or(r.Lsh(r, 64), new(big.Int).SetUint64(rapid.Uint64().Draw(t, "l")))
		}
		return r
	}
	n := rapid.IntRange(0, 4).Draw(t, "n")
	r := new(big.Int)
	for i := 0; i < n; i++ {
		r.Or(r.Lsh(r, 64), new(big.Int).SetUint64(Limb(t)))
	}
	return r
}

// LogU draws log-uniformly below 2^bits.
func LogU(t *rapid.T, bits int) *big.Int {
	n := rapid.IntRange(0, bits).Draw(t, "bits")
	if n == 0 {
		return new(big.Int)
	}
	r := new(big.Int)
	for i := 0; i < (n+63)/64; i++ {
		r.Or(r.Lsh(r, 64), new(big.Int).SetUint64(rapid.Uint64().Draw(t, "w")))
	}
	r.Mod(r, new(big.Int).Lsh(one, uint(n)))
	r.SetBit(r, n-1, 1)
	return r
}

// PosLogU is LogU but at least 1.
func PosLogU(t *rapid.T, bits int) *big.Int {
	r := LogU(t, bits)
	if r.Sign() == 0 {
		return big.NewInt(1)
	}
	return r
}

// Below draws below m (m>0), biased to both ends.
func Below(t *rapid.T, m *big.Int) *big.Int {
	switch rapid.IntRange(0, 4).Draw(t, "bk") {
	case 0:
		r := big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "s")))
		return r.Mod(r, m)
	case 1:
		r := new(big.Int).Sub(m, big.NewInt(int64(rapid.IntRange(1, 4).Draw(t, "e"))))
		if r.Sign() < 0 {
			r.SetInt64(0)
		}
		return r
	}
	r := new(big.Int)
	for i := 0; i < (m.BitLen()+63)/64+1; i++ {
		r.Or(r.Lsh(r, 64), new(big.Int).SetUint64(rapid.Uint64().Draw(t, "w")))
	}
	return r.Mod(r, m)
}

// Fee draws a supported fee tier.
func Fee(t *rapid.T) int { return rapid.SampledFrom([]int{500, 3000, 10000}).Draw(t, "fee") }

// Tick draws a tick: near the realistic USDC/WETH price, near zero, negative,
// anywhere, or near an end of the range.
func Tick(t *rapid.T) int {
	switch rapid.IntRange(0, 9).Draw(t, "tk") {
	case 0, 1:
		return rapid.IntRange(185000, 205000).Draw(t, "tick")
	case 2, 3:
		return rapid.IntRange(-600, 600).Draw(t, "tick")
	case 4, 5:
		return rapid.IntRange(-205000, -1000).Draw(t, "tick")
	case 6:
		return rapid.IntRange(model.MinTick, model.MinTick+5000).Draw(t, "tick")
	case 7:
		return rapid.IntRange(model.MaxTick-5000, model.MaxTick-1).Draw(t, "tick")
	}
	return rapid.IntRange(model.MinTick, model.MaxTick-1).Draw(t, "tick")
}

// PriceAt returns the price at fraction frac/2^16 between tick and tick+1
// (frac 0: exactly on the tick; frac 65535: one unit below the next tick).
func PriceAt(tick int, frac int) *big.Int {
	a := model.SqrtRatioAtTick(tick)
	b := model.SqrtRatioAtTick(tick + 1)
	if frac >= 65535 {
		return new(big.Int).Sub(b, one)
	}
	d := new(big.Int).Mul(new(big.Int).Sub(b, a), big.NewInt(int64(frac)))
	return new(big.Int).Add(a, d.Rsh(d, 16))
}

// Frac draws a fraction for PriceAt with bias to the boundaries.
func Frac(t *rapid.T) int {
	switch rapid.IntRange(0, 4).Draw(t, "fk") {
	case 0, 1:
		return 0
	case 2:
		return 65535
	}
	return rapid.IntRange(0, 65535).Draw(t, "frac")
}

// SqrtPrice draws a price in [MinSqrt, MaxSqrt).
func SqrtPrice(t *rapid.T) *big.Int {
	if rapid.IntRange(0, 9).Draw(t, "pk") == 0 {
		// log-uniform over the whole range
		r := model.Add(model.MinSqrt, LogU(t, 161))
		return model.Add(model.MinSqrt, r.Mod(r, model.Sub(model.MaxSqrt, model.MinSqrt)))
	}
	return PriceAt(Tick(t), Frac(t))
}
