package priceschk

import (
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/model"

	"uniswap-simulator/lib/prices"
)

var lim = new(big.Int).Lsh(big.NewInt(1), 230)

type histCase struct {
	N   int        `json:"n"`
	Obs []*big.Int `json:"obs"`
	Ask []int      `json:"ask"` // positions in the sequence after which the statistics are read
}

// genPrice draws a square root price of the supported domain (square below
// 2^230), or one that must be refused.
func genPrice(t *rapid.T, base *big.Int, mode int) *big.Int {
	max := new(big.Int).Lsh(big.NewInt(1), 115)
	switch mode {
	case 0: // constant
		return model.Cp(base)
	case 1: // nearly constant
		d := big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d")))
		return d.Mod(d.Add(base, d), max)
	case 2: // moves of up to some percent
		f := big.NewInt(int64(rapid.IntRange(9000, 11000).Draw(t, "f")))
		f.Mul(f, base)
		f.Div(f, big.NewInt(10000))
		return f.Mod(f, max)
	case 3: // two far apart levels
		if rapid.Bool().Draw(t, "lv") {
			return gen.Below(t, big.NewInt(1<<40))
		}
		return model.Sub(max, gen.PosLogU(t, 20))
	}
	switch rapid.IntRange(0, 2).Draw(t, "pk") {
	case 0:
		return gen.Below(t, max)
	case 1:
		return gen.LogU(t, 115)
	}
	return new(big.Int).Mod(gen.SqrtPrice(t), max)
}

// unusable draws a price whose square needs more than 230 bits.
func unusable(t *rapid.T) *big.Int {
	lo := new(big.Int).Lsh(big.NewInt(1), 115)
	switch rapid.IntRange(0, 5).Draw(t, "xk") {
	case 0:
		return model.Add(lo, gen.LogU(t, 60))
	case 1: // squares that wrap around to something small
		k := rapid.IntRange(128, 255).Draw(t, "k")
		return model.Add(new(big.Int).Lsh(big.NewInt(1), uint(k)), gen.LogU(t, rapid.SampledFrom([]int{0, 1, 30, 100}).Draw(t, "kb")))
	case 2: // multiples of a high power of two
		k := rapid.IntRange(116, 160).Draw(t, "k")
		x := new(big.Int).Lsh(gen.PosLogU(t, 256-k), uint(k))
		return model.Mod256(x)
	case 3:
		return model.Sub(model.Q256, gen.PosLogU(t, 100)) // (-x)^2 = x^2
	case 4:
		return model.Sub(model.MaxSqrt, gen.LogU(t, 100))
	}
	x := gen.LogU(t, 256)
	if x.Cmp(lo) < 0 {
		x.Add(x, lo)
	}
	return x
}

// stats is the definition: mean of the squares rounded down and the sample
// standard deviation about that mean, rounded down.
func stats(sq []*big.Int) (*big.Int, *big.Int) {
	s := new(big.Int)
	for _, x := range sq {
		s.Add(s, x)
	}
	mean := s.Div(s, big.NewInt(int64(len(sq))))
	v := new(big.Int)
	for _, x := range sq {
		d := model.Sub(x, mean)
		v.Add(v, d.Mul(d, d))
	}
	v.Div(v, big.NewInt(int64(len(sq)-1)))
	return mean, v.Sqrt(v)
}

func TestC28(t *testing.T) {
	engine.Check(t, "C28", engine.Spec[histCase]{
		Sub:  "windows",
		Rule: "windows of 2 to 120 observations (one in 40 up to 1100) and sequences of one to four windows of prices (constant, nearly constant, trending, two far apart levels, anywhere below 2^115) mixed with prices whose square exceeds 230 bits (including those whose square wraps around 256 bits to a small value); after each full window at random points average and volatility compared with the definition over the last n accepted observations; unusable prices must be refused and leave the statistics as they were; non-trivial: at least one comparison of a window with two different prices after older observations were dropped, or a refusal",
		N:    16000,
		Gen: func(t *rapid.T) histCase {
			c := histCase{N: rapid.SampledFrom([]int{2, 2, 3, 4, 5, 7, 10, 10, 24, 50, 100, 120}).Draw(t, "n")}
			if rapid.IntRange(0, 39).Draw(t, "long") == 0 {
				c.N = rapid.IntRange(121, 1100).Draw(t, "n2")
			}
			mode := rapid.IntRange(0, 5).Draw(t, "mode")
			base := new(big.Int).Mod(gen.SqrtPrice(t), new(big.Int).Lsh(big.NewInt(1), 115))
			if rapid.IntRange(0, 3).Draw(t, "usd") == 0 {
				base = gen.PriceAt(rapid.IntRange(185000, 205000).Draw(t, "bt"), 0)
			}
			l := rapid.IntRange(c.N, 4*c.N).Draw(t, "l")
			bad := rapid.IntRange(0, 2).Draw(t, "bad") == 0
			for i := 0; i < l; i++ {
				if bad && rapid.IntRange(0, 9).Draw(t, "x") == 0 {
					c.Obs = append(c.Obs, unusable(t))
				} else {
					c.Obs = append(c.Obs, genPrice(t, base, mode))
				}
			}
			c.Ask = rapid.SliceOfN(rapid.IntRange(0, l), 1, 6).Draw(t, "ask")
			return c
		},
		Run: func(c histCase, r *engine.Rec) error {
			p := prices.NewPrices(c.N)
			ask := map[int]bool{len(c.Obs): true}
			for _, i := range c.Ask {
				ask[i] = true
			}
			var sq []*big.Int
			accepted := 0
			compare := func(when string) error {
				if len(sq) < c.N {
					return nil
				}
				m, v := stats(sq)
				if err := conv.Eq(when+": Average", p.Average(), m); err != nil {
					return err
				}
				if err := conv.Eq(when+": Volatility", p.Volatility(), v); err != nil {
					return err
				}
				if accepted > c.N {
					for _, x := range sq[1:] {
						if x.Cmp(sq[0]) != 0 {
							r.NonTrivial()
							r.Class("window-compared-after-wrap")
							break
						}
					}
				}
				return nil
			}
			for i, o := range c.Obs {
				s := model.Mul(o, o)
				refused := engine.Try(func() { p.Add(conv.U(o)) }) != nil
				if want := s.Cmp(lim) >= 0; refused != want {
					return fmt.Errorf("observation %d, price %v (square of %d bits): refused=%v, want %v", i, o, s.BitLen(), refused, want)
				}
				if refused {
					r.NonTrivial()
					r.Class("refused")
					if s.Cmp(model.Q256) >= 0 {
						r.Class("refused-square-over-256-bits")
					}
					if err := compare("after a refused observation"); err != nil {
						return err
					}
					continue
				}
				accepted++
				sq = append(sq, s)
				if len(sq) > c.N {
					sq = sq[1:]
				}
				if ask[i+1] {
					if err := compare(fmt.Sprintf("after %d observations", i+1)); err != nil {
						return err
					}
				}
			}
			return compare("at the end")
		},
	})
	engine.Check(t, "C28", engine.Spec[histCase]{
		Sub:  "order and forgetting",
		Rule: "two histories with different pasts (older observations, window phase and reading of the statistics in between) and the same last n observations in different orders give the same average and volatility; non-trivial: window with two different prices",
		N:    8000,
		Gen: func(t *rapid.T) histCase {
			c := histCase{N: rapid.IntRange(2, 40).Draw(t, "n")}
			mode := rapid.IntRange(1, 5).Draw(t, "mode")
			base := new(big.Int).Mod(gen.SqrtPrice(t), new(big.Int).Lsh(big.NewInt(1), 115))
			for i := 0; i < 2*c.N; i++ {
				c.Obs = append(c.Obs, genPrice(t, base, mode))
			}
			perm := make([]int, c.N)
			for i := range perm {
				perm[i] = i
			}
			c.Ask = append(rapid.Permutation(perm).Draw(t, "perm"), rapid.IntRange(0, c.N).Draw(t, "phase"))
			return c
		},
		Run: func(c histCase, r *engine.Rec) error {
			a, b := prices.NewPrices(c.N), prices.NewPrices(c.N)
			past, last := c.Obs[:c.N], c.Obs[c.N:]
			perm, phase := c.Ask[:c.N], c.Ask[c.N]
			for i := 0; i < phase; i++ {
				a.Add(conv.U(past[i]))
				a.Average()
				a.Volatility()
			}
			for i := 0; i < c.N; i++ {
				a.Add(conv.U(last[i]))
			}
			for i := 0; i < c.N; i++ {
				b.Add(conv.U(last[perm[i]]))
				if i < c.N-1 && i%3 == 0 {
					b.Average()
				}
			}
			for i := 1; i < c.N; i++ {
				if last[i].Cmp(last[0]) != 0 {
					r.NonTrivial()
				}
			}
			for k := 0; k < 2; k++ { // reading twice changes nothing
				if err := conv.Eq("Average", b.Average(), conv.B(a.Average())); err != nil {
					return err
				}
				if err := conv.Eq("Volatility", b.Volatility(), conv.B(a.Volatility())); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
