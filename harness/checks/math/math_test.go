package mathchk

import (
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/model"

	"uniswap-simulator/lib/fullmath"
	la "uniswap-simulator/lib/liquidity_amounts"
	sp "uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/swapmath"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// ------------------------------------------------------------------ C13

type block struct{ From, To int }

func blocks(lo, hi, size int, yield func(block) bool) {
	s, n := engine.Shard()
	k := 0
	for a := lo; a <= hi; a += size {
		k++
		if k%n != s {
			continue
		}
		b := a + size - 1
		if b > hi {
			b = hi
		}
		if !yield(block{a, b}) {
			return
		}
	}
}

// oracleSelfCheck verifies the model's constants against 1.0001^(2^i/2)
// computed with 600 bits.
func oracleSelfCheck(t *testing.T) {
	const prec = 600
	x := new(big.Float).SetPrec(prec).SetRat(big.NewRat(10001, 10000))
	x.Sqrt(x)
	for i := 0; i < 20; i++ {
		want := new(big.Float).SetPrec(prec).Quo(new(big.Float).SetPrec(prec).SetInt(model.Q128), x)
		got := model.FactorForTest(i)
		d := new(big.Float).Sub(want, new(big.Float).SetPrec(prec).SetInt(got))
		if f, _ := d.Float64(); f > 1 || f < -1 {
			t.Fatalf("oracle constant %d is off by %v", i, f)
		}
		x.Mul(x, x)
	}
	if model.SqrtRatioAtTick(model.MinTick).Cmp(model.MinSqrt) != 0 || model.SqrtRatioAtTick(model.MaxTick).Cmp(model.MaxSqrt) != 0 {
		t.Fatal("oracle end points")
	}
}

func TestC13(t *testing.T) {
	oracleSelfCheck(t)
	engine.Check(t, "C13", engine.Spec[block]{
		Sub:        "every tick",
		Rule:       "every tick of the range: price equals the contract's (independent big-integer computation), exceeds the previous one, inverse at the price itself, one below and one above; every such comparison is a non-trivial evaluation",
		Exhaustive: "all 1774545 ticks, with the prices at and one unit around each",
		Enum:       func(y func(block) bool) { blocks(model.MinTick, model.MaxTick, 2048, y) },
		Run: func(c block, r *engine.Rec) error {
			for i := c.From; i <= c.To; i++ {
				p := model.SqrtRatioAtTick(i)
				if err := conv.Eq(fmt.Sprintf("price of tick %d", i), tickmath.TM.GetSqrtRatioAtTick(i), p); err != nil {
					return err
				}
				if i > model.MinTick {
					if model.SqrtRatioAtTick(i-1).Cmp(p) >= 0 {
						return fmt.Errorf("price of tick %d does not exceed that of tick %d", i, i-1)
					}
				}
				chk := func(q *big.Int, want int) error {
					if q.Cmp(model.MinSqrt) < 0 || q.Cmp(model.MaxSqrt) >= 0 {
						return nil
					}
					if g := tickmath.TM.GetTickAtSqrtRatio(conv.U(q)); g != want {
						return fmt.Errorf("tick of price %v: got %d, want %d", q, g, want)
					}
					return nil
				}
				if err := first(chk(p, i), chk(model.Add(p, model.One), i), chk(model.Sub(p, model.One), i-1)); err != nil {
					return err
				}
				r.EachN(true, uint64(i+900000))
			}
			return nil
		},
	})
	type pc struct{ P *big.Int }
	engine.Check(t, "C13", engine.Spec[pc]{
		Sub:  "interior prices",
		Rule: "random prices in the supported range (tick-relative and log-uniform): the tick returned is the greatest whose price does not exceed it; non-trivial: the price is not itself a tick price",
		N:    100000,
		Gen:  func(t *rapid.T) pc { return pc{gen.SqrtPrice(t)} },
		Run: func(c pc, r *engine.Rec) error {
			g := tickmath.TM.GetTickAtSqrtRatio(conv.U(c.P))
			if g < model.MinTick || g >= model.MaxTick || model.SqrtRatioAtTick(g).Cmp(c.P) > 0 || model.SqrtRatioAtTick(g+1).Cmp(c.P) <= 0 {
				return fmt.Errorf("tick of price %v: got %d, want %d", c.P, g, model.TickAtSqrtRatio(c.P))
			}
			if model.SqrtRatioAtTick(g).Cmp(c.P) != 0 {
				r.NonTrivial()
			}
			return nil
		},
	})
	type oc struct {
		T int
		P *big.Int
	}
	engine.Check(t, "C13", engine.Spec[oc]{
		Sub:  "out of range",
		Rule: "random ticks beyond +-887272 and prices below the minimum or from the maximum on must be refused; all cases are non-trivial",
		N:    8000,
		Gen: func(t *rapid.T) oc {
			d := rapid.SampledFrom([]int{1, 1, 2, 1000, 1 << 20, 1 << 31, 1 << 40}).Draw(t, "d") + rapid.IntRange(0, 100).Draw(t, "e")
			if rapid.IntRange(0, 3).Draw(t, "one") == 0 {
				d = 1
			}
			c := oc{T: model.MaxTick + d}
			if rapid.Bool().Draw(t, "neg") {
				c.T = -c.T
			}
			if rapid.Bool().Draw(t, "lowp") {
				c.P = gen.Below(t, model.MinSqrt)
			} else {
				c.P = model.Add(model.MaxSqrt, gen.Below(t, model.Sub(model.Q256, model.MaxSqrt)))
			}
			return c
		},
		Run: func(c oc, r *engine.Rec) error {
			r.NonTrivial()
			if engine.Try(func() { tickmath.TM.GetSqrtRatioAtTick(c.T) }) == nil {
				return fmt.Errorf("tick %d is not refused", c.T)
			}
			if engine.Try(func() { tickmath.TM.GetTickAtSqrtRatio(conv.U(c.P)) }) == nil {
				return fmt.Errorf("price %v is not refused", c.P)
			}
			return nil
		},
	})
}

// ------------------------------------------------------------------ C14

func checkRound(x, s int) error {
	for _, c := range []struct {
		n    string
		got  int
		want int
	}{{"Round", tickmath.Round(x, s), model.RoundTick(x, s)}, {"Floor", tickmath.Floor(x, s), model.FloorTick(x, s)}, {"Ceil", tickmath.Ceil(x, s), model.CeilTick(x, s)}} {
		if c.got != c.want {
			return fmt.Errorf("%s(%d,%d): got %d, want %d", c.n, x, s, c.got, c.want)
		}
	}
	return nil
}

func TestC14(t *testing.T) {
	engine.Check(t, "C14", engine.Spec[block]{
		Sub:        "every tick",
		Rule:       "every tick of the range with spacings 1, 10, 60 and 200; non-trivial: the tick is not a multiple of the spacing",
		Exhaustive: "all ticks x spacings 1, 10, 60, 200",
		Enum:       func(y func(block) bool) { blocks(model.MinTick, model.MaxTick, 4096, y) },
		Run: func(c block, r *engine.Rec) error {
			for i := c.From; i <= c.To; i++ {
				for _, s := range []int{1, 10, 60, 200} {
					if err := checkRound(i, s); err != nil {
						return err
					}
					r.EachN(i%s != 0, uint64(i+900000)*1000+uint64(s))
				}
			}
			return nil
		},
	})
	type rc struct{ X, S int }
	engine.Check(t, "C14", engine.Spec[rc]{
		Sub:  "any integers",
		Rule: "random integers up to 2^40 in magnitude and spacings up to 65535, biased to multiples, half multiples and their neighbours; non-trivial: not a multiple",
		N:    400000,
		Gen: func(t *rapid.T) rc {
			s := rapid.IntRange(1, 65535).Draw(t, "s")
			var x int
			switch rapid.IntRange(0, 2).Draw(t, "xk") {
			case 0:
				x = rapid.IntRange(-(1<<40), 1<<40).Draw(t, "x")
			default:
				k := rapid.IntRange(-(1<<22), 1<<22).Draw(t, "k")
				x = k*s + rapid.SampledFrom([]int{0, s / 2, (s + 1) / 2, s - 1, 1}).Draw(t, "off") + rapid.IntRange(-1, 1).Draw(t, "d")
			}
			return rc{x, s}
		},
		Run: func(c rc, r *engine.Rec) error {
			if c.X%c.S != 0 {
				r.NonTrivial()
			}
			return checkRound(c.X, c.S)
		},
	})
}

// ------------------------------------------------------------------ C15

type mdCase struct{ A, B, D *big.Int }

func TestC15(t *testing.T) {
	engine.Check(t, "C15", engine.Spec[mdCase]{
		Sub:  "MulDiv",
		Rule: "random 256-bit operands biased to limb boundaries; in half of the cases the divisor or an operand is derived so that the quotient fits (near-multiples, quotient near 2^256, tiny product against a huge divisor); floor and ceiling compared with big-integer arithmetic, and the 512-bit product; non-trivial: the product exceeds 256 bits or the division has a remainder",
		N:    400000,
		Gen: func(t *rapid.T) mdCase {
			c := mdCase{A: gen.U256(t), B: gen.U256(t), D: gen.U256(t)}
			p := model.Mul(c.A, c.B)
			switch rapid.IntRange(0, 6).Draw(t, "dk") {
			case 4: // the divisors the simulator uses, products around 256 bits
				c.D = pow2(uint(rapid.SampledFrom([]int{96, 96, 128, 128, 32, 64, 192, 1, 160, 255}).Draw(t, "k")))
				if rapid.IntRange(0, 3).Draw(t, "mil") == 0 {
					c.D = big.NewInt(int64(rapid.SampledFrom([]int{1000000, 999500, 997000, 990000, 2}).Draw(t, "m")))
				}
				bits := func(n int) *big.Int { // a number of n bits
					if n < 1 {
						return big.NewInt(1)
					}
					x := pow2(uint(n-1))
					return x.Add(x, gen.Below(t, pow2(uint(n-1))))
				}
				n := rapid.IntRange(1, 256).Draw(t, "la")
				c.A, c.B = bits(n), bits(min(256, rapid.IntRange(252, 262).Draw(t, "lb")-n))
			case 0: // quotient just fits
				c.D = model.Add(model.Floor(p, model.Q256), big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "d"))))
			case 1: // chosen quotient
				q := gen.U256(t)
				if q.Sign() > 0 {
					c.D = model.Add(model.Floor(p, q), big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, "d"))))
				}
			case 2: // product near a multiple of d
				if c.B.Sign() > 0 && c.D.Sign() > 0 {
					q := gen.U256(t)
					c.A = model.Mod256(model.Add(model.Floor(model.Mul(q, c.D), c.B), big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, "d")))))
				}
			case 3:
				c.A, c.B = gen.LogU(t, 130), gen.LogU(t, 130)
			}
			if c.D.Cmp(model.Max256) > 0 {
				c.D = model.Cp(model.Max256)
			}
			if c.D.Sign() <= 0 {
				c.D = big.NewInt(1)
			}
			return c
		},
		Run: func(c mdCase, r *engine.Rec) error {
			p := model.Mul(c.A, c.B)
			q, m := new(big.Int).DivMod(p, c.D, new(big.Int))
			if p.BitLen() > 256 || m.Sign() != 0 {
				r.NonTrivial()
			}
			um := ui.Umul(conv.U(c.A), conv.U(c.B))
			if err := first(conv.Eq(fmt.Sprintf("low half of %v*%v", c.A, c.B), (*ui.Int)(um[:4]), model.Mod256(p)), conv.Eq(fmt.Sprintf("high half of %v*%v", c.A, c.B), (*ui.Int)(um[4:]), new(big.Int).Rsh(p, 256))); err != nil {
				return err
			}
			if q.BitLen() <= 256 {
				r.Class("quotient-fits")
				if p.BitLen() > 256 {
					r.Class("quotient-fits,product-wide")
				}
				if err := conv.Eq(fmt.Sprintf("MulDiv(%v,%v,%v)", c.A, c.B, c.D), fullmath.MulDiv(conv.U(c.A), conv.U(c.B), conv.U(c.D)), q); err != nil {
					return err
				}
			}
			cq := model.Ceil(p, c.D)
			if cq.BitLen() <= 256 {
				return conv.Eq(fmt.Sprintf("MulDivRoundingUp(%v,%v,%v)", c.A, c.B, c.D), fullmath.MulDivRoundingUp(conv.U(c.A), conv.U(c.B), conv.U(c.D)), cq)
			}
			return nil
		},
	})
	type dvCase struct {
		U []uint64
		D *big.Int
		Q *big.Int
		R int
	}
	engine.Check(t, "C15", engine.Spec[dvCase]{
		Sub:  "long division",
		Rule: "Udivrem on numerators of 1 to 8 words (limb-boundary patterns, or quotient*divisor + remainder with remainder 0, 1, divisor-1) and divisors of 1 to 4 words: quotient and remainder compared with big-integer division and the inputs must be unchanged; non-trivial: numerator exceeds the divisor",
		N:    400000,
		Gen: func(t *rapid.T) dvCase {
			c := dvCase{D: gen.U256(t), R: rapid.IntRange(0, 4).Draw(t, "r")}
			if c.D.Sign() == 0 {
				c.D = big.NewInt(1)
			}
			n := rapid.IntRange(1, 8).Draw(t, "n")
			c.U = make([]uint64, n)
			if rapid.Bool().Draw(t, "mul") && n >= 4 {
				q := new(big.Int)
				for i := 0; i < n-2; i++ {
					q.Or(q.Lsh(q, 64), new(big.Int).SetUint64(gen.Limb(t)))
				}
				u := model.Mul(q, c.D)
				switch c.R {
				case 0:
				case 1:
					u.Add(u, model.One)
				case 2:
					u.Add(u, model.Sub(c.D, model.One))
				default:
					u.Add(u, gen.Below(t, c.D))
				}
				for i := range c.U {
					c.U[i] = new(big.Int).And(new(big.Int).Rsh(u, uint(64*i)), conv.M64).Uint64()
				}
			} else {
				for i := range c.U {
					c.U[i] = gen.Limb(t)
				}
			}
			return c
		},
		Run: func(c dvCase, r *engine.Rec) error {
			u := new(big.Int)
			for i := len(c.U) - 1; i >= 0; i-- {
				u.Or(u.Lsh(u, 64), new(big.Int).SetUint64(c.U[i]))
			}
			if u.Cmp(c.D) > 0 {
				r.NonTrivial()
			}
			q, m := new(big.Int).DivMod(u, c.D, new(big.Int))
			in := append([]uint64{}, c.U...)
			quot := make([]uint64, len(c.U)+1)
			d := conv.U(c.D)
			rem := ui.Udivrem(quot, in, d)
			gq := new(big.Int)
			for i := len(quot) - 1; i >= 0; i-- {
				gq.Or(gq.Lsh(gq, 64), new(big.Int).SetUint64(quot[i]))
			}
			if gq.Cmp(q) != 0 || conv.B(&rem).Cmp(m) != 0 {
				return fmt.Errorf("%v / %v: got %v remainder %v, want %v remainder %v", u, c.D, gq, conv.B(&rem), q, m)
			}
			for i := range in {
				if in[i] != c.U[i] {
					return fmt.Errorf("%v / %v changed its numerator", u, c.D)
				}
			}
			return conv.Eq("divisor after the division", d, c.D)
		},
	})
}

// ------------------------------------------------------------------ C16

type priceCase struct {
	P, Q, L, A *big.Int
	Z          bool
}

// nearPrice draws a price related to p: equal, adjacent, close in ticks, any.
func nearPrice(t *rapid.T, p *big.Int) *big.Int {
	q := model.Cp(p)
	switch rapid.IntRange(0, 5).Draw(t, "np") {
	case 0:
	case 1:
		q.Add(q, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
	case 2, 3:
		k := model.TickAtSqrtRatio(p) + rapid.IntRange(-300, 300).Draw(t, "dt")
		if k < model.MinTick {
			k = model.MinTick
		}
		if k > model.MaxTick-1 {
			k = model.MaxTick - 1
		}
		q = gen.PriceAt(k, gen.Frac(t))
	default:
		q = gen.SqrtPrice(t)
	}
	if q.Cmp(model.MinSqrt) < 0 {
		q = model.Cp(model.MinSqrt)
	}
	if q.Cmp(model.MaxSqrt) > 0 {
		q = model.Cp(model.MaxSqrt)
	}
	return q
}

func liq(t *rapid.T) *big.Int {
	if rapid.IntRange(0, 9).Draw(t, "lk") == 0 {
		return model.Sub(model.Q128, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "ld"))))
	}
	return gen.LogU(t, 128)
}

func TestC16(t *testing.T) {
	engine.Check(t, "C16", engine.Spec[priceCase]{
		Sub:  "amounts between prices",
		Rule: "random pairs of prices (equal, one unit apart, close, anywhere) and liquidity up to 2^128-1: both amounts in both roundings, with the prices in both orders, and the signed variants, compared with exact rationals; non-trivial: prices differ and liquidity is not zero",
		N:    160000,
		Gen: func(t *rapid.T) priceCase {
			p := gen.SqrtPrice(t)
			return priceCase{P: p, Q: nearPrice(t, p), L: liq(t)}
		},
		Run: func(c priceCase, r *engine.Rec) error {
			if c.P.Cmp(c.Q) != 0 && c.L.Sign() != 0 {
				r.NonTrivial()
			}
			for _, o := range [][2]*big.Int{{c.P, c.Q}, {c.Q, c.P}} {
				n := fmt.Sprintf("(%v,%v,%v)", o[0], o[1], c.L)
				a, b, l := conv.U(o[0]), conv.U(o[1]), conv.U(c.L)
				nl := conv.U(model.Neg(c.L))
				e := first(
					conv.Eq("amount0"+n+" rounded up", sp.GetAmount0Delta(a, b, l, true), model.Amount0(c.P, c.Q, c.L, true)),
					conv.Eq("amount0"+n+" rounded down", sp.GetAmount0Delta(a, b, l, false), model.Amount0(c.P, c.Q, c.L, false)),
					conv.Eq("amount1"+n+" rounded up", sp.GetAmount1Delta(a, b, l, true), model.Amount1(c.P, c.Q, c.L, true)),
					conv.Eq("amount1"+n+" rounded down", sp.GetAmount1Delta(a, b, l, false), model.Amount1(c.P, c.Q, c.L, false)),
					conv.EqS("signed amount0"+n, sp.GetAmount0DeltaRounded(a, b, l), model.Amount0(c.P, c.Q, c.L, true)),
					conv.EqS("signed amount1"+n, sp.GetAmount1DeltaRounded(a, b, l), model.Amount1(c.P, c.Q, c.L, true)),
					conv.EqS("signed amount0 of negative"+n, sp.GetAmount0DeltaRounded(a, b, nl), model.Neg(model.Amount0(c.P, c.Q, c.L, false))),
					conv.EqS("signed amount1 of negative"+n, sp.GetAmount1DeltaRounded(a, b, nl), model.Neg(model.Amount1(c.P, c.Q, c.L, false))))
				if e != nil {
					return e
				}
			}
			return nil
		},
	})
	engine.Check(t, "C16", engine.Spec[priceCase]{
		Sub:  "next price",
		Rule: "random price, liquidity > 0 and amount (log-uniform up to 2^256, around 2^160, around the overflow of amount*price, or derived from a second price) as input and as output, both directions, compared with the contract's formula wherever the contract accepts; and directly: the amount never buys more price than it pays for; non-trivial: the amount changes the price",
		N:    240000,
		Gen: func(t *rapid.T) priceCase {
			p := gen.SqrtPrice(t)
			c := priceCase{P: p, L: liq(t), Z: rapid.Bool().Draw(t, "z")}
			if c.L.Sign() == 0 {
				c.L = big.NewInt(1)
			}
			switch rapid.IntRange(0, 6).Draw(t, "ak") {
			case 0:
				c.A = gen.LogU(t, 256)
			case 1: // amount * price around 2^256
				c.A = model.Add(model.Floor(model.Q256, p), big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
			case 2: // numerator + product around 2^256
				x := model.Sub(model.Q256, new(big.Int).Lsh(c.L, 96))
				c.A = model.Add(model.Floor(x, p), big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
			case 3: // around 2^160
				c.A = model.Add(model.Q160, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
			case 4, 5:
				q := nearPrice(t, p)
				if c.Z {
					c.A = model.Amount0(p, q, c.L, rapid.Bool().Draw(t, "up"))
				} else {
					c.A = model.Amount1(p, q, c.L, rapid.Bool().Draw(t, "up"))
				}
				c.A = model.Add(c.A, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, "d"))))
			default:
				c.A = gen.LogU(t, 128)
			}
			if c.A.Sign() < 0 {
				c.A = model.Zero()
			}
			if c.A.Cmp(model.Max256) > 0 {
				c.A = model.Cp(model.Max256)
			}
			return c
		},
		Run: func(c priceCase, r *engine.Rec) error {
			n := fmt.Sprintf("(price %v, liquidity %v, amount %v, zeroForOne %v)", c.P, c.L, c.A, c.Z)
			if w, err := model.NextFromInput(c.P, c.L, c.A, c.Z); err == nil {
				r.Class("input")
				if w.Cmp(c.P) != 0 {
					r.NonTrivial()
				}
				if c.Z && model.Mul(c.A, c.P).BitLen() > 256 {
					r.Class("input:overflow-fallback")
				}
				if !c.Z && c.A.BitLen() > 160 {
					r.Class("input:over-160-bits")
				}
				if e := conv.Eq("next price from input "+n, sp.GetNextSqrtPriceFromInput(conv.U(c.P), conv.U(c.L), conv.U(c.A), c.Z), w); e != nil {
					return e
				}
			}
			if w, err := model.NextFromOutput(c.P, c.L, c.A, c.Z); err == nil {
				r.Class("output")
				if w.Cmp(c.P) != 0 {
					r.NonTrivial()
				}
				if e := conv.Eq("next price from output "+n, sp.GetNextSqrtPriceFromOutput(conv.U(c.P), conv.U(c.L), conv.U(c.A), c.Z), w); e != nil {
					return e
				}
			}
			return nil
		},
	})
}

// ------------------------------------------------------------------ C17

type stepCase struct {
	P, T, L, R *big.Int
	Fee        int
}

func TestC17(t *testing.T) {
	engine.Check(t, "C17", engine.Spec[stepCase]{
		Sub:  "one step",
		Rule: "random current and target price (equal, adjacent, close, anywhere), liquidity including zero, fee 0..999999, remaining amount as input or output (log-uniform to the int256 limits, or within 2 units of what reaches the target): all four results compared with the contract, and the step laws checked directly on the results; non-trivial: prices differ and liquidity is not zero",
		N:    240000,
		Gen: func(t *rapid.T) stepCase {
			p := gen.SqrtPrice(t)
			c := stepCase{P: p, T: nearPrice(t, p), L: liq(t)}
			switch rapid.IntRange(0, 3).Draw(t, "fk") {
			case 0:
				c.Fee = rapid.IntRange(0, 999999).Draw(t, "fee")
			case 1:
				c.Fee = rapid.SampledFrom([]int{0, 1, 100, 999999}).Draw(t, "fee")
			default:
				c.Fee = gen.Fee(t)
			}
			neg := rapid.Bool().Draw(t, "out")
			switch rapid.IntRange(0, 4).Draw(t, "rk") {
			case 0:
				c.R = gen.LogU(t, 255)
			case 1:
				c.R = gen.LogU(t, 128)
			case 2: // wraps 2^256 once multiplied by 10^6 - fee
				if c.Fee < 999999 {
					k := big.NewInt(int64(rapid.IntRange(1, 400000).Draw(t, "k")))
					c.R = model.Add(model.Ceil(model.Mul(model.Q256, k), big.NewInt(int64(1000000-c.Fee))), gen.LogU(t, 60))
				} else {
					c.R = gen.LogU(t, 255)
				}
			default: // about what reaches the target
				big0 := model.MaxI
				if neg {
					big0 = model.Neg(model.MaxI)
				}
				if s, err := model.ComputeStep(c.P, c.T, c.L, big0, c.Fee); err == nil {
					c.R = model.Add(s.In, s.Fee)
					if neg {
						c.R = s.Out
					}
				} else {
					c.R = big.NewInt(1000)
				}
				if rapid.Bool().Draw(t, "frac") {
					c.R = new(big.Int).Rsh(model.Mul(c.R, big.NewInt(int64(rapid.IntRange(1, 300).Draw(t, "f")))), 8)
				}
				c.R = model.Add(c.R, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "d"))))
			}
			if c.R.Sign() <= 0 {
				c.R = big.NewInt(1)
			}
			if c.R.Cmp(model.MaxI) > 0 {
				c.R = model.Cp(model.MaxI)
			}
			if neg {
				c.R.Neg(c.R)
			}
			return c
		},
		Run: func(c stepCase, r *engine.Rec) error {
			s, err := model.ComputeStep(c.P, c.T, c.L, c.R, c.Fee)
			if err != nil {
				r.Class("contract-reverts")
				return nil
			}
			n := fmt.Sprintf("step(price %v, target %v, liquidity %v, remaining %v, fee %d)", c.P, c.T, c.L, c.R, c.Fee)
			gn, gi, go_, gf := swapmath.ComputeSwapStep(conv.U(c.P), conv.U(c.T), conv.U(c.L), conv.U(c.R), c.Fee)
			if c.P.Cmp(c.T) != 0 && c.L.Sign() != 0 {
				r.NonTrivial()
				if s.Next.Cmp(c.T) != 0 {
					r.Class("stops-short")
				}
			}
			// laws
			nx, in, out, fee := conv.B(gn), conv.B(gi), conv.B(go_), conv.B(gf)
			lo, hi := c.P, c.T
			if lo.Cmp(hi) > 0 {
				lo, hi = hi, lo
			}
			if nx.Cmp(lo) < 0 || nx.Cmp(hi) > 0 {
				return fmt.Errorf("%s: next price %v is not between current and target", n, nx)
			}
			want := new(big.Int).Abs(c.R)
			if c.R.Sign() >= 0 && model.Add(in, fee).Cmp(want) > 0 {
				return fmt.Errorf("%s: input %v plus fee %v exceed the remaining amount", n, in, fee)
			}
			if c.R.Sign() < 0 && out.Cmp(want) > 0 {
				return fmt.Errorf("%s: output %v exceeds the requested amount", n, out)
			}
			if nx.Cmp(c.T) != 0 {
				used := model.Add(in, fee)
				if c.R.Sign() < 0 {
					used = out
				}
				if used.Cmp(want) != 0 {
					return fmt.Errorf("%s: stops at %v short of the target with %v of %v used", n, nx, used, want)
				}
			}
			min := model.Ceil(model.Mul(in, big.NewInt(int64(c.Fee))), big.NewInt(int64(1000000-c.Fee)))
			if fee.Cmp(min) < 0 {
				return fmt.Errorf("%s: fee %v is below the fee rate on the input %v (%v)", n, fee, in, min)
			}
			return first(conv.Eq(n+" next price", gn, s.Next), conv.Eq(n+" amount in", gi, s.In), conv.Eq(n+" amount out", go_, s.Out), conv.Eq(n+" fee", gf, s.Fee))
		},
	})
}

// ------------------------------------------------------------------ C18

type liqCase struct{ P, A, B, X, Y, L *big.Int }

func TestC18(t *testing.T) {
	engine.Check(t, "C18", engine.Spec[liqCase]{
		Sub:  "liquidity and amounts",
		Rule: "random price, range (price below, inside, above, on a bound; bounds in both orders) and amounts (log-uniform to 2^128-1, zero, or within a few units of what a chosen liquidity costs): liquidity compared with the periphery formula where it fits 128 bits, minting it must cost at most the amounts, amounts reported for a liquidity compared with the rounded-down amounts, and amounts -> liquidity -> amounts must not gain; non-trivial: liquidity is not zero",
		N:    160000,
		Gen: func(t *rapid.T) liqCase {
			p := gen.SqrtPrice(t)
			c := liqCase{P: p, A: nearPrice(t, p), B: nearPrice(t, p), L: liq(t)}
			am := func(x *big.Int) *big.Int {
				switch rapid.IntRange(0, 3).Draw(t, "am") {
				case 0:
					return gen.LogU(t, 128)
				}
				r := model.Add(x, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
				if r.Sign() < 0 || r.BitLen() > 128 {
					return gen.LogU(t, 128)
				}
				return r
			}
			if c.A.Cmp(c.B) == 0 {
				c.B = model.Add(c.B, big.NewInt(int64(rapid.IntRange(1, 1000).Draw(t, "w"))))
			}
			a, b := c.A, c.B
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			x, y := model.AmountsForLiquidity(p, a, b, c.L)
			c.X, c.Y = am(x), am(y)
			return c
		},
		Run: func(c liqCase, r *engine.Rec) error {
			a, b := c.A, c.B
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			n := fmt.Sprintf("(price %v, bounds %v %v", c.P, c.A, c.B)
			pos := "inside"
			if c.P.Cmp(a) <= 0 {
				pos = "below"
			} else if c.P.Cmp(b) >= 0 {
				pos = "above"
			}
			// every conversion the periphery performs must fit 128 bits
			fits := true
			if pos == "inside" {
				fits = model.LiquidityForAmounts(c.P, c.P, b, c.X, c.Y).BitLen() <= 128 && model.LiquidityForAmounts(c.P, a, c.P, c.X, c.Y).BitLen() <= 128
			}
			w := model.LiquidityForAmounts(c.P, a, b, c.X, c.Y)
			fits = fits && w.BitLen() <= 128
			if fits {
				r.Class("liquidity:" + pos)
				if w.Sign() > 0 {
					r.NonTrivial()
				}
				for _, o := range [][2]*big.Int{{c.A, c.B}, {c.B, c.A}} {
					g := la.GetLiquidityForAmount(conv.U(c.P), conv.U(o[0]), conv.U(o[1]), conv.U(c.X), conv.U(c.Y))
					gb := conv.B(g)
					if gb.BitLen() <= 160 {
						c0, c1 := cost(c.P, a, b, gb)
						if c0.Cmp(c.X) > 0 || c1.Cmp(c.Y) > 0 {
							return fmt.Errorf("liquidity %v for amounts %v, %v %s) costs %v, %v", gb, c.X, c.Y, n, c0, c1)
						}
					}
					if err := conv.Eq(fmt.Sprintf("liquidity for amounts %v, %v %s)", c.X, c.Y, n), g, w); err != nil {
						return err
					}
				}
				g0, g1 := la.GetAmountsForLiquidity(conv.U(c.P), conv.U(c.A), conv.U(c.B), conv.U(w))
				if conv.B(g0).Cmp(c.X) > 0 || conv.B(g1).Cmp(c.Y) > 0 {
					return fmt.Errorf("amounts %v, %v %s) become %v, %v after conversion to liquidity %v and back", c.X, c.Y, n, conv.B(g0), conv.B(g1), w)
				}
			}
			w0, w1 := model.AmountsForLiquidity(c.P, a, b, c.L)
			for _, o := range [][2]*big.Int{{c.A, c.B}, {c.B, c.A}} {
				g0, g1 := la.GetAmountsForLiquidity(conv.U(c.P), conv.U(o[0]), conv.U(o[1]), conv.U(c.L))
				if err := first(conv.Eq(fmt.Sprintf("amount0 for liquidity %v %s)", c.L, n), g0, w0), conv.Eq(fmt.Sprintf("amount1 for liquidity %v %s)", c.L, n), g1, w1)); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

func cost(p, a, b, l *big.Int) (*big.Int, *big.Int) {
	switch {
	case p.Cmp(a) <= 0:
		return model.Amount0(a, b, l, true), model.Zero()
	case p.Cmp(b) < 0:
		return model.Amount0(p, b, l, true), model.Amount1(a, p, l, true)
	}
	return model.Zero(), model.Amount1(a, b, l, true)
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
