// Package model is an independent big-integer reference model of the Uniswap
// v3 core pool contract (and the periphery's liquidity formulas), written from
// the contract's definitions with exact integer arithmetic.
package model

import (
	"errors"
	"math/big"
)

var (
	One        = big.NewInt(1)
	Q96        = new(big.Int).Lsh(One, 96)
	Q128       = new(big.Int).Lsh(One, 128)
	Q160       = new(big.Int).Lsh(One, 160)
	Q192       = new(big.Int).Lsh(One, 192)
	Q256       = new(big.Int).Lsh(One, 256)
	Max256     = new(big.Int).Sub(Q256, One)
	MaxI       = new(big.Int).Sub(new(big.Int).Lsh(One, 255), One)
	E6         = big.NewInt(1000000)
	MinTick    = -887272
	MaxTick    = 887272
	MinSqrt    = big.NewInt(4295128739)
	MaxSqrt, _ = new(big.Int).SetString("1461446703485210103287273052203988822378723970342", 10)
)

func hexb(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return b
}

// factors[i] = 2^128 / sqrt(1.0001)^(2^i), as fixed in the contract.
var factors = []*big.Int{
	hexb("fffcb933bd6fad37aa2d162d1a594001"), hexb("fff97272373d413259a46990580e213a"),
	hexb("fff2e50f5f656932ef12357cf3c7fdcc"), hexb("ffe5caca7e10e4e61c3624eaa0941cd0"),
	hexb("ffcb9843d60f6159c9db58835c926644"), hexb("ff973b41fa98c081472e6896dfb254c0"),
	hexb("ff2ea16466c96a3843ec78b326b52861"), hexb("fe5dee046a99a2a811c461f1969c3053"),
	hexb("fcbe86c7900a88aedcffc83b479aa3a4"), hexb("f987a7253ac413176f2b074cf7815e54"),
	hexb("f3392b0822b70005940c7a398e4b70f3"), hexb("e7159475a2c29b7443b29c7fa6e889d9"),
	hexb("d097f3bdfd2022b8845ad8f792aa5825"), hexb("a9f746462d870fdf8a65dc1f90e061e5"),
	hexb("70d869a156d2a1b890bb3df62baf32f7"), hexb("31be135f97d08fd981231505542fcfa6"),
	hexb("9aa508b5b7a84e1c677de54f3e99bc9"), hexb("5d6af8dedb81196699c329225ee604"),
	hexb("2216e584f5fa1ea926041bedfe98"), hexb("48a170391f7dc42444e8fa2"),
}

var ratioMemo [887272*2 + 1]*big.Int

// SqrtRatioAtTick is the contract's getSqrtRatioAtTick. Do not modify the result.
func SqrtRatioAtTick(tick int) *big.Int {
	if tick < MinTick || tick > MaxTick {
		panic("model: tick out of range")
	}
	if r := ratioMemo[tick+MaxTick]; r != nil {
		return r
	}
	abs := tick
	if abs < 0 {
		abs = -abs
	}
	r := new(big.Int).Set(Q128)
	for i := 0; i < 20; i++ {
		if abs&(1<<uint(i)) != 0 {
			r.Mul(r, factors[i])
			r.Rsh(r, 128)
		}
	}
	if tick > 0 {
		r.Div(Max256, r)
	}
	q, m := new(big.Int).DivMod(r, new(big.Int).Lsh(One, 32), new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, One)
	}
	ratioMemo[tick+MaxTick] = q
	return q
}

// TickAtSqrtRatio is the greatest tick whose ratio does not exceed p.
func TickAtSqrtRatio(p *big.Int) int {
	lo, hi := MinTick, MaxTick
	for lo < hi {
		mid := lo + (hi-lo+1)/2
		if SqrtRatioAtTick(mid).Cmp(p) <= 0 {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	return lo
}

func Floor(a, b *big.Int) *big.Int { return new(big.Int).Div(a, b) }
func Ceil(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, One)
	}
	return q
}
func Mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func Add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func Sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func Neg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }
func Mod256(a *big.Int) *big.Int { return new(big.Int).Mod(a, Q256) }
func Cp(a *big.Int) *big.Int     { return new(big.Int).Set(a) }
func Zero() *big.Int             { return new(big.Int) }

// Amount0 between two prices for liquidity l: l*2^96*(b-a)/(a*b).
func Amount0(a, b, l *big.Int, up bool) *big.Int {
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	n := Mul(new(big.Int).Lsh(l, 96), Sub(b, a))
	d := Mul(a, b)
	if up {
		return Ceil(n, d)
	}
	return Floor(n, d)
}

// Amount1 between two prices for liquidity l: l*(b-a)/2^96.
func Amount1(a, b, l *big.Int, up bool) *big.Int {
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	n := Mul(l, Sub(b, a))
	if up {
		return Ceil(n, Q96)
	}
	return Floor(n, Q96)
}

var ErrRevert = errors.New("revert")

// Next0 is getNextSqrtPriceFromAmount0RoundingUp.
func Next0(p, l, amt *big.Int, add bool) (*big.Int, error) {
	if amt.Sign() == 0 {
		return Cp(p), nil
	}
	n1 := new(big.Int).Lsh(l, 96)
	prod := Mul(amt, p)
	if add {
		if prod.Cmp(Q256) < 0 {
			den := Add(n1, prod)
			if den.Cmp(Q256) < 0 {
				return Ceil(Mul(n1, p), den), nil
			}
		}
		return Ceil(n1, Add(Floor(n1, p), amt)), nil
	}
	if prod.Cmp(Q256) >= 0 || n1.Cmp(prod) <= 0 {
		return nil, ErrRevert
	}
	r := Ceil(Mul(n1, p), Sub(n1, prod))
	if r.Cmp(Q160) >= 0 {
		return nil, ErrRevert
	}
	return r, nil
}

// Next1 is getNextSqrtPriceFromAmount1RoundingDown.
func Next1(p, l, amt *big.Int, add bool) (*big.Int, error) {
	if add {
		r := Add(p, Floor(new(big.Int).Lsh(amt, 96), l))
		if r.Cmp(Q160) >= 0 {
			return nil, ErrRevert
		}
		return r, nil
	}
	q := Ceil(new(big.Int).Lsh(amt, 96), l)
	if p.Cmp(q) <= 0 {
		return nil, ErrRevert
	}
	return Sub(p, q), nil
}

// NextFromInput is getNextSqrtPriceFromInput.
func NextFromInput(p, l, amt *big.Int, zeroForOne bool) (*big.Int, error) {
	if p.Sign() <= 0 || l.Sign() <= 0 {
		return nil, ErrRevert
	}
	if zeroForOne {
		return Next0(p, l, amt, true)
	}
	return Next1(p, l, amt, true)
}

// NextFromOutput is getNextSqrtPriceFromOutput.
func NextFromOutput(p, l, amt *big.Int, zeroForOne bool) (*big.Int, error) {
	if p.Sign() <= 0 || l.Sign() <= 0 {
		return nil, ErrRevert
	}
	if zeroForOne {
		return Next1(p, l, amt, false)
	}
	return Next0(p, l, amt, false)
}

// Step is the result of one swap step.
type Step struct{ Next, In, Out, Fee *big.Int }

// ComputeStep is the contract's computeSwapStep. rem >= 0: exact input.
func ComputeStep(cur, tgt, l, rem *big.Int, fee int) (Step, error) {
	zfo := cur.Cmp(tgt) >= 0
	f := big.NewInt(int64(fee))
	cf := Sub(E6, f)
	in := func(n *big.Int) *big.Int {
		if zfo {
			return Amount0(n, cur, l, true)
		}
		return Amount1(n, cur, l, true)
	}
	outp := func(n *big.Int) *big.Int {
		if zfo {
			return Amount1(n, cur, l, false)
		}
		return Amount0(n, cur, l, false)
	}
	var s Step
	var err error
	if rem.Sign() >= 0 {
		less := Floor(Mul(rem, cf), E6)
		if less.Cmp(in(tgt)) >= 0 {
			s.Next = Cp(tgt)
		} else if s.Next, err = NextFromInput(cur, l, less, zfo); err != nil {
			return s, err
		}
		s.In, s.Out = in(s.Next), outp(s.Next)
		if s.Next.Cmp(tgt) != 0 {
			s.Fee = Sub(rem, s.In)
		} else {
			s.Fee = Ceil(Mul(s.In, f), cf)
		}
		return s, nil
	}
	want := Neg(rem)
	if want.Cmp(outp(tgt)) >= 0 {
		s.Next = Cp(tgt)
	} else if s.Next, err = NextFromOutput(cur, l, want, zfo); err != nil {
		return s, err
	}
	s.In, s.Out = in(s.Next), outp(s.Next)
	if s.Out.Cmp(want) > 0 {
		s.Out = want
	}
	s.Fee = Ceil(Mul(s.In, f), cf)
	return s, nil
}

// LiquidityForAmounts is the periphery's getLiquidityForAmounts.
func LiquidityForAmounts(p, a, b, amt0, amt1 *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	l0 := func(x, y *big.Int) *big.Int { return Floor(Mul(amt0, Floor(Mul(x, y), Q96)), Sub(y, x)) }
	l1 := func(x, y *big.Int) *big.Int { return Floor(Mul(amt1, Q96), Sub(y, x)) }
	if p.Cmp(a) <= 0 {
		return l0(a, b)
	}
	if p.Cmp(b) < 0 {
		x, y := l0(p, b), l1(a, p)
		if x.Cmp(y) < 0 {
			return x
		}
		return y
	}
	return l1(a, b)
}

// AmountsForLiquidity is the periphery's getAmountsForLiquidity (rounded down).
func AmountsForLiquidity(p, a, b, l *big.Int) (*big.Int, *big.Int) {
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	// the periphery's amount0 divides twice; both floors compose to one
	if p.Cmp(a) <= 0 {
		return Amount0(a, b, l, false), Zero()
	}
	if p.Cmp(b) < 0 {
		return Amount0(p, b, l, false), Amount1(a, p, l, false)
	}
	return Zero(), Amount1(a, b, l, false)
}

// FloorDiv divides rounding toward negative infinity.
func FloorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// FloorTick, CeilTick, RoundTick: to multiples of s.
func FloorTick(t, s int) int { return FloorDiv(t, s) * s }
func CeilTick(t, s int) int  { return -FloorDiv(-t, s) * s }
func RoundTick(t, s int) int { // ties away from zero
	n := t
	if n < 0 {
		n = -n
	}
	r := (2*n + s) / (2 * s) * s
	if t < 0 {
		return -r
	}
	return r
}

// FactorForTest exposes the oracle constants for their self-check.
func FactorForTest(i int) *big.Int { return factors[i] }
