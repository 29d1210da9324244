package stratchk

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	g "verifharness/gen"
	"verifharness/hist"
	"verifharness/model"
	"verifharness/sref"

	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
)

// ------------------------------------------------- C10 strategies' own pools

type privOp struct {
	W int      `json:"w"` // 0: the starting pool, 1..: a strategy
	K string   `json:"k"` // mkt swap go close snap amounts
	O *hist.Op `json:"o,omitempty"`
	A *big.Int `json:"a,omitempty"`
	Z bool     `json:"z,omitempty"`
}

type privCase struct {
	H   hist.Case     `json:"h"`
	P   []sref.Params `json:"p"`
	Ops []privOp      `json:"ops"`
}

func TestC10(t *testing.T) {
	engine.Check(t, "C10", engine.Spec[privCase]{
		Sub:  "private pools of strategies",
		Rule: "two or three strategies of any kind are built on one starting pool (after a random history); strategy operations, trades on the strategies' pools and market operations on the starting pool are interleaved at random; every amount returned and the state of the pool concerned after every operation must be those of a run with that strategy (or the starting pool) alone; non-trivial: several operations on at least two of the pools",
		N:    1200,
		Gen: func(t *rapid.T) privCase {
			c := privCase{H: hist.Gen(t, preW)}
			n := rapid.IntRange(2, 3).Draw(t, "ns")
			for i := 0; i < n; i++ {
				p := genParams(t, sref.Kinds)
				if p.NeedsPrices() && c.H.Tick > 255000 {
					c.H.Tick %= 255000
				}
				p.Match(t, c.H.Tick)
				p.N = min(p.N, 4)
				c.P = append(c.P, p)
			}
			if rapid.IntRange(0, 1).Draw(t, "bg") == 0 {
				o := hist.Op{K: "mint", W: -1, A: new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(20, 100).Draw(t, "bgl")))}
				c.H.Ops = append([]hist.Op{o}, c.H.Ops...)
			}
			if rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
				c.H.Ops = nil // as the program does
			}
			m := rapid.IntRange(3, 25).Draw(t, "nops")
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) privOp {
				o := privOp{W: rapid.IntRange(0, n).Draw(t, "w"), Z: rapid.Bool().Draw(t, "z")}
				if o.W == 0 {
					o.K = rapid.SampledFrom([]string{"mkt", "mkt", "swap"}).Draw(t, "k")
				} else {
					o.K = rapid.SampledFrom([]string{"go", "go", "go", "swap", "swap", "snap", "close", "amounts"}).Draw(t, "k")
				}
				switch o.K {
				case "mkt":
					o.O = genMkt(t)
				case "swap":
					o.A = g.PosLogU(t, 90)
				}
				return o
			}), m, 25).Draw(t, "ops")
			return c
		},
		Run: runPrivate,
	})
}

// poolText is what can be seen of a pool, cheaply.
func poolText(p *pool.Pool) string {
	s := fmt.Sprintf("price %v tick %d liquidity %v fees %v/%v positions", conv.B(p.SqrtRatioX96), p.TickCurrent, conv.S(p.Liquidity), conv.B(p.FeeGrowthGlobal0X128), conv.B(p.FeeGrowthGlobal1X128))
	var k []string
	for n := range p.Positions {
		k = append(k, n)
	}
	sort.Strings(k)
	for _, n := range k {
		x := p.Positions[n]
		s += fmt.Sprint(" ", conv.B(x.Liquidity), conv.B(x.FeeGrowthInside0LastX128), conv.B(x.FeeGrowthInside1LastX128), conv.B(x.TokensOwed0), conv.B(x.TokensOwed1))
	}
	t := p.TickCurrent
	for _, down := range []bool{true, false} {
		engine.Try(func() {
			n, i := p.TickData.NextInitializedTickWithinOneWord(t, down)
			s += fmt.Sprint(" next ", n, i)
			if i {
				x := p.TickData.GetTick(n)
				s += fmt.Sprint(" ", conv.S(x.LiquidityNet), conv.B(x.LiquidityGross), conv.B(x.FeeGrowthOutside0X128), conv.B(x.FeeGrowthOutside1X128))
			}
		})
	}
	return s
}

// usable: the liquidity of the pool and its positions is that of a real pool.
func usablePool(p *pool.Pool) bool {
	if l := conv.S(p.Liquidity); l.Sign() < 0 || l.BitLen() > 126 {
		return false
	}
	for _, x := range p.Positions {
		if conv.B(x.Liquidity).BitLen() > 120 {
			return false
		}
	}
	return true
}

func runPrivate(c privCase, r *engine.Rec) error {
	pv := func(f func() (*ui.Int, *ui.Int)) (s string, ok bool) {
		x := engine.Try(func() {
			a, b := f()
			if a != nil && b != nil {
				s = fmt.Sprint(conv.S(a), "/", conv.S(b))
			}
		})
		if x != nil {
			return fmt.Sprint("panic ", x), false
		}
		return s, true
	}
	// run performs the operations on the pool `only` (all for -1).
	run := func(only int) (log [][]string, ok bool) {
		log = make([][]string, len(c.P)+1)
		base := hist.New(&c.H, engine.Discard())
		base.Loose = true
		for i := range c.H.Ops {
			if base.Apply(&c.H.Ops[i]) != nil || base.Broken {
				return nil, false
			}
		}
		pools := []*pool.Pool{base.S}
		S := []strategy.Strategy{nil}
		for i, p := range c.P {
			if only >= 0 && only != i+1 {
				S, pools = append(S, nil), append(pools, nil)
				continue
			}
			s := p.Real(base.S)
			S, pools = append(S, s), append(pools, s.GetPool())
			log[i+1] = append(log[i+1], poolText(s.GetPool()))
		}
		log[0] = append(log[0], poolText(base.S))
		dead, started := make([]bool, len(S)), make([]bool, len(S))
		for _, o := range c.Ops {
			w := o.W % len(S)
			if only >= 0 && only != w || dead[w] {
				continue
			}
			var out string
			ok := true
			s := S[w]
			switch o.K {
			case "mkt":
				if base.Apply(o.O) != nil || base.Broken {
					ok = false
				}
			case "swap":
				t0, t := hist.Names(c.H.Tok)
				if o.Z {
					t = t0
				}
				out, _ = pv(func() (*ui.Int, *ui.Int) { return pools[w].ExactInputSwap(conv.U(o.A), t, new(ui.Int)) })
			case "go":
				f := s.Init
				if started[w] {
					f = s.Rebalance
				}
				started[w] = true
				out, ok = pv(f)
			case "close":
				out, ok = pv(s.BurnAll)
			case "amounts":
				out, ok = pv(s.GetAmounts)
			case "snap":
				out, ok = pv(func() (*ui.Int, *ui.Int) { s.MakeSnapshot(); return nil, nil })
			}
			if s != nil {
				pools[w] = s.GetPool()
			}
			log[w] = append(log[w], o.K+" "+out+" "+poolText(pools[w]))
			dead[w] = !ok || !usablePool(pools[w])
		}
		for w, p := range pools {
			if p == nil || dead[w] {
				continue
			}
			// what a sale of everything does shows every tick
			for _, z := range []bool{true, false, true} {
				t0, t := hist.Names(c.H.Tok)
				if z {
					t = t0
				}
				out, _ := pv(func() (*ui.Int, *ui.Int) { return p.ExactInputSwap(conv.U(model.MaxI), t, new(ui.Int)) })
				log[w] = append(log[w], "final swap "+out+" "+poolText(p))
			}
		}
		return log, true
	}
	all, ok := run(-1)
	if !ok {
		r.Class("market-diverged")
		return nil
	}
	busy := 0
	for w := range all {
		alone, _ := run(w)
		name := "the starting pool"
		if w > 0 {
			name = "strategy " + fmt.Sprint(w) + " (" + c.P[w-1].Kind + ")"
			r.Class("strategy:" + c.P[w-1].Kind)
		}
		for i := range all[w] {
			if i >= len(alone[w]) || all[w][i] != alone[w][i] {
				x := "nothing"
				if i < len(alone[w]) {
					x = alone[w][i]
				}
				return fmt.Errorf("%s, operation %d: together with the others %s; alone %s", name, i, all[w][i], x)
			}
		}
		if len(all[w]) > 5 {
			busy++
		}
	}
	if busy > 1 {
		r.NonTrivial()
	}
	return nil
}
