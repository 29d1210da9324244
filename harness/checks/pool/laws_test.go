package poolchk

import (
	"fmt"
	"math/big"
	"strconv"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	g "verifharness/gen"
	"verifharness/hist"
	"verifharness/model"

	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
)

// ---------------------------------------------------------------- C05 flash

type flashCase struct {
	H      hist.Case `json:"h"`
	A0, A1 *big.Int
	Repeat int `json:"rep"`
}

func bigAmount(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 5).Draw(t, "fa") {
	case 0: // around the rounding of the fee
		return big.NewInt(int64(rapid.IntRange(0, 4100).Draw(t, "small")))
	case 1:
		return g.LogU(t, 160)
	case 2: // as wide as the liquidity allows (see fits)
		return g.LogU(t, 256)
	}
	return g.LogU(t, 120)
}

func TestC05(t *testing.T) {
	w := &hist.Weights{Kinds: []string{"smint", "smint", "smint", "mint", "burn", "sburn", "collect", "swap", "swap", "flash"}, Max: 9, Out: 20}
	engine.Check(t, "C05", engine.Spec[flashCase]{
		Sub:  "flash after history",
		Rule: "a random history, every position settled, then 1-3 flashes of random amounts (0..2^256, cut to what the growth accumulator can hold): global fee growth must rise by floor(ceil(amount*fee/10^6)*2^128/liquidity) exactly, price, tick, liquidity, every tick and every position principal stay, in-range positions then collect floor(growth*liquidity/2^128) and out-of-range positions nothing; without liquidity the flash must be refused without effect; non-trivial: a flash with a non-zero amount on a pool with an in-range position",
		N:    16000,
		Gen: func(t *rapid.T) flashCase {
			c := flashCase{H: hist.Gen(t, w), A0: bigAmount(t), A1: bigAmount(t), Repeat: rapid.IntRange(1, 3).Draw(t, "rep")}
			if rapid.IntRange(0, 7).Draw(t, "deep") == 0 { // so deep that the fee's product is wider than 256 bits
				c.H.Ops = append(c.H.Ops, hist.Op{K: "smint", W: -1, A: pow2(uint(rapid.IntRange(100, 125).Draw(t, "dl")))})
				a := model.Sub(model.Max256, g.LogU(t, 256))
				if c.Repeat = 1; rapid.Bool().Draw(t, "d1") {
					c.A0 = a
				} else {
					c.A1 = a
				}
			}
			return c
		},
		Run: runFlash,
	})
}

func runFlash(c flashCase, r *engine.Rec) error {
	p := hist.New(&c.H, r)
	p.Loose = true
	for i := range c.H.Ops {
		if err := p.Apply(&c.H.Ops[i]); err != nil {
			return err
		}
	}
	if p.Broken {
		r.Class("history-diverged")
		return nil
	}
	s := p.S
	// settle every position so that what is owed afterwards stems from the flash
	settle := func() (map[model.Range][2]*big.Int, error) {
		o := map[model.Range][2]*big.Int{}
		for _, x := range p.Live {
			if p.M.Pos[x].L.Sign() > 0 {
				if _, pv := hist.Exec(s, hist.ROp{K: "sburn", R: x, A: model.Zero()}); pv != nil {
					return nil, fmt.Errorf("poke of %v: %v", x, pv)
				}
			}
			a, pv := hist.Exec(s, hist.ROp{K: "collect", R: x})
			if pv != nil {
				return nil, fmt.Errorf("collect of %v: %v", x, pv)
			}
			o[x] = a
		}
		return o, nil
	}
	if _, err := settle(); err != nil {
		r.Class("history-diverged")
		return nil
	}
	before := snapshot(p)
	if s.Liquidity.Sign() <= 0 {
		r.Class("flash-without-liquidity")
		if pv := engine.Try(func() { s.Flash(conv.U(c.A0), conv.U(c.A1)) }); pv == nil {
			return fmt.Errorf("flash(%v,%v) accepted without active liquidity", c.A0, c.A1)
		}
		if d := diffSnap(before, snapshot(p), true); d != "" {
			return fmt.Errorf("refused flash changed the pool: %s", d)
		}
		return nil
	}
	l := conv.B(s.Liquidity)
	a0, a1 := c.A0, c.A1
	fits := func(a *big.Int) *big.Int { // the growth must fit 256 bits, as the contract requires
		for model.Ceil(model.Mul(a, big.NewInt(int64(c.H.Fee))), model.E6).Cmp(model.Mul(l, model.Q128)) >= 0 {
			a = new(big.Int).Rsh(a, 1)
		}
		return a
	}
	a0, a1 = fits(a0), fits(a1)
	exp := [2]*big.Int{conv.B(s.FeeGrowthGlobal0X128), conv.B(s.FeeGrowthGlobal1X128)}
	gain := [2]*big.Int{new(big.Int), new(big.Int)}
	for k := 0; k < c.Repeat; k++ {
		if pv := engine.Try(func() { s.Flash(conv.U(a0), conv.U(a1)) }); pv != nil {
			return fmt.Errorf("flash(%v,%v) with liquidity %v refused: %v", a0, a1, l, pv)
		}
		for i, a := range []*big.Int{a0, a1} {
			fee := model.Ceil(model.Mul(a, big.NewInt(int64(c.H.Fee))), model.E6)
			d := model.Floor(model.Mul(fee, model.Q128), l)
			gain[i] = model.Mod256(model.Add(gain[i], d))
			exp[i] = model.Mod256(model.Add(exp[i], d))
		}
		for i, got := range []*big.Int{conv.B(s.FeeGrowthGlobal0X128), conv.B(s.FeeGrowthGlobal1X128)} {
			if got.Cmp(exp[i]) != 0 {
				return fmt.Errorf("flash %d of (%v,%v) at fee %d liquidity %v: fee growth of token%d is %v, want %v", k+1, a0, a1, c.H.Fee, l, i, got, exp[i])
			}
		}
	}
	if d := diffSnap(before, snapshot(p), false); d != "" {
		return fmt.Errorf("flash changed more than fee growth: %s", d)
	}
	tick := s.TickCurrent
	paid, err := settle()
	if err != nil {
		return fmt.Errorf("after flash: %w", err)
	}
	inrange := false
	for x, got := range paid {
		want := [2]*big.Int{new(big.Int), new(big.Int)}
		pl := p.M.Pos[x].L
		if x.Lo <= tick && tick < x.Hi && pl.Sign() > 0 {
			inrange = true
			for i := range want {
				want[i] = model.Floor(model.Mul(gain[i], pl), model.Q128)
			}
		}
		for i := range want {
			if got[i].Cmp(want[i]) != 0 {
				return fmt.Errorf("after flash at tick %d: position %v with liquidity %v collects %v of token%d, want %v", tick, x, pl, got[i], i, want[i])
			}
		}
	}
	if inrange && (a0.Sign() > 0 || a1.Sign() > 0) {
		r.NonTrivial()
	}
	return nil
}

type snap struct {
	Static             string
	Price, L, FG0, FG1 string
	Tick               int
	Ticks              map[int]string
	Words              string
}

// ticksOf lists all range bounds ever used in the history.
func ticksOf(log []hist.ROp) map[int]bool {
	m := map[int]bool{}
	for _, o := range log {
		if o.K == "mint" || o.K == "smint" {
			m[o.R.Lo], m[o.R.Hi] = true, true
		}
	}
	return m
}

func tickString(s *pool.Pool, i int) (r string) {
	pv := engine.Try(func() {
		t := s.TickData.GetTick(i)
		r = fmt.Sprint(conv.S(t.LiquidityNet), conv.B(t.LiquidityGross), conv.B(t.FeeGrowthOutside0X128), conv.B(t.FeeGrowthOutside1X128))
	})
	if pv != nil {
		return "-"
	}
	return
}

func snapOf(s *pool.Pool, ticks map[int]bool) snap {
	o := snap{Static: fmt.Sprint(s.Token0, " ", s.Token1, " fee ", s.Fee, " spacing ", s.TickSpacing), Price: conv.B(s.SqrtRatioX96).String(), L: conv.S(s.Liquidity).String(), FG0: conv.B(s.FeeGrowthGlobal0X128).String(),
		FG1: conv.B(s.FeeGrowthGlobal1X128).String(), Tick: s.TickCurrent, Ticks: map[int]string{}}
	for i := range ticks {
		o.Ticks[i] = tickString(s, i)
	}
	t := model.MinTick
	for n := 0; t < model.MaxTick && n < 3000; n++ {
		var nx int
		var init bool
		if engine.Try(func() { nx, init = s.TickData.NextInitializedTickWithinOneWord(t, false) }) != nil || nx <= t {
			o.Words += "!"
			break
		}
		if init {
			o.Words += fmt.Sprint(nx, " ")
		}
		t = nx
	}
	return o
}

func snapshot(p *hist.Pair) snap { return snapOf(p.S, ticksOf(p.Log)) }

func diffSnap(a, b snap, growth bool) string {
	switch {
	case a.Static != b.Static:
		return "description " + a.Static + " vs " + b.Static
	case a.Price != b.Price:
		return "price " + a.Price + " vs " + b.Price
	case a.Tick != b.Tick:
		return fmt.Sprintf("tick %d vs %d", a.Tick, b.Tick)
	case a.L != b.L:
		return "liquidity " + a.L + " vs " + b.L
	case growth && (a.FG0 != b.FG0 || a.FG1 != b.FG1):
		return "fee growth"
	case a.Words != b.Words:
		return "initialised ticks " + a.Words + " vs " + b.Words
	}
	for k, v := range a.Ticks {
		if b.Ticks[k] != v {
			return fmt.Sprintf("tick %d (net, gross, outside0, outside1): %s vs %s", k, v, b.Ticks[k])
		}
	}
	return ""
}

// ------------------------------------------------------------- C06 solvency

type solvCase struct {
	H     hist.Case `json:"h"`
	Order int       `json:"order"` // rotation and direction of the close-out
}

func TestC06(t *testing.T) {
	w := &hist.Weights{Kinds: []string{"smint", "smint", "smint", "sburn", "sburn", "poke", "collect", "swap", "swap", "swap", "swap", "swap", "flash"}, Max: 18, Out: 35, Long: 300}
	engine.Check(t, "C06", engine.Spec[solvCase]{
		Sub:  "balance of the pool",
		Rule: "random histories in which every range is a collecting position; the pool's balance (mints + swap inputs + flash fees - swap outputs - collects, from the values the real pool returned) must stay >= 0 after every operation and after closing everything in a random order, and what remains then must not exceed one unit per rounding (operation, price step) plus, per exact-output swap, the value of one unit of price; non-trivial: a swap that paid out and a position closed after it",
		N:    16000,
		Gen: func(t *rapid.T) solvCase {
			return solvCase{H: hist.Gen(t, w), Order: rapid.IntRange(-5, 5).Draw(t, "order")}
		},
		Run: runSolvency,
	})
}

func runSolvency(c solvCase, r *engine.Rec) error {
	p := hist.New(&c.H, r)
	p.Loose = true
	bal := [2]*big.Int{new(big.Int), new(big.Int)}
	ltot := new(big.Int)    // upper bound of any active liquidity
	pmin := model.Cp(p.M.P) // lowest price
	outSwaps, paidOut := 0, false
	step := 0
	account := func() error {
		for ; step < len(p.Log); step++ {
			o := p.Log[step]
			var d [2]*big.Int
			switch o.K {
			case "smint", "swap":
				d = p.Real
				if o.K == "smint" {
					ltot.Add(ltot, o.A)
				} else {
					if o.Out {
						outSwaps++
					}
					if d[0].Sign() < 0 || d[1].Sign() < 0 {
						paidOut = true
					}
				}
			case "collect":
				d = [2]*big.Int{model.Neg(p.Real[0]), model.Neg(p.Real[1])}
			case "flash":
				f := big.NewInt(int64(c.H.Fee))
				d = [2]*big.Int{model.Ceil(model.Mul(o.A, f), model.E6), model.Ceil(model.Mul(o.A2, f), model.E6)}
			default:
				continue
			}
			for i := range bal {
				bal[i].Add(bal[i], d[i])
				if bal[i].Sign() < 0 {
					return fmt.Errorf("operation %d (%s %v %v): the pool has paid out %v more of token%d than was ever paid in", step, o.K, o.R, o.A, model.Neg(bal[i]), i)
				}
			}
		}
		if x := conv.B(p.S.SqrtRatioX96); x.Cmp(pmin) < 0 {
			pmin = x
		}
		return nil
	}
	for i := range c.H.Ops {
		if err := p.Apply(&c.H.Ops[i]); err != nil {
			return err
		}
		if err := account(); err != nil {
			return err
		}
	}
	live := append([]model.Range{}, p.Live...)
	n := len(live)
	nops := len(p.Log) + 3*n
	for k := 0; k < n; k++ {
		i := (k + c.Order + 10*n) % n
		if c.Order < 0 {
			i = n - 1 - i
		}
		x := live[i]
		if p.Broken {
			break
		}
		if p.M.Pos[x].L.Sign() > 0 {
			if err := p.BurnPos(x, model.Cp(p.M.Pos[x].L)); err != nil {
				return err
			}
			if err := account(); err != nil {
				return err
			}
		}
		if err := p.Collect(x); err != nil {
			return err
		}
		if err := account(); err != nil {
			return fmt.Errorf("closing %v: %w", x, err)
		}
	}
	if p.Broken {
		r.Class("history-diverged")
		return nil
	}
	// rounding: per price step one unit for the input, one for the output, one
	// for the fee growth; per operation and position one unit each for
	// principal and fees
	units := int64(3*p.M.Steps + 3*nops + 3)
	b0 := model.Add(big.NewInt(units), model.Mul(big.NewInt(int64(outSwaps)), model.Ceil(new(big.Int).Lsh(ltot, 96), model.Mul(pmin, pmin))))
	b1 := model.Add(big.NewInt(units), model.Mul(big.NewInt(int64(outSwaps)), model.Ceil(ltot, model.Q96)))
	for i, b := range []*big.Int{b0, b1} {
		if bal[i].Cmp(b) > 0 {
			return fmt.Errorf("after closing everything %v of token%d is stuck in the pool; %d operations, %d price steps and %d exact-output swaps explain at most %v", bal[i], i, nops, p.M.Steps, outSwaps, b)
		}
		if bal[i].Sign() > 0 {
			r.Class(fmt.Sprintf("dust-left-token%d", i))
		}
	}
	if paidOut && n > 0 {
		r.NonTrivial()
	}
	return nil
}

// ----------------------------------------------------------------- C07 laws

type lawCase struct {
	H   hist.Case `json:"h"`
	Z   bool      `json:"z"`
	A   hist.Op   `json:"a"`   // amount of the examined swap
	Cut int       `json:"cut"` // split point /256
	Inc *big.Int  `json:"inc"` // how much more for monotonicity
	Out bool      `json:"out"`
}

func TestC07(t *testing.T) {
	w := &hist.Weights{Kinds: []string{"swap", "swap", "swap", "mint", "mint", "mint", "smint", "burn", "sburn", "flash"}, Max: 9, Out: 25}
	engine.Check(t, "C07", engine.Spec[lawCase]{
		Sub:  "swap laws",
		Rule: "after a random history: every swap of the history and an examined swap obey direction, limit, input bound and signs; after every operation tick and price agree; on pools rebuilt by replaying the history: paying more never yields less (taking more never costs less), two part swaps never yield more than one, selling and buying back never returns more; non-trivial: the examined swap moves the price and pays out",
		N:    12000,
		Gen: func(t *rapid.T) lawCase {
			o := hist.GenSwap(t, 0)
			o.LM = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "alm")
			return lawCase{H: hist.Gen(t, w), Z: rapid.Bool().Draw(t, "z"), A: o, Cut: rapid.IntRange(1, 255).Draw(t, "cut"), Inc: g.LogU(t, 100), Out: rapid.Bool().Draw(t, "out")}
		},
		Run: runLaws,
	})
}

func checkSwapResult(o hist.ROp, before, after *big.Int, d [2]*big.Int) error {
	in, out := d[0], d[1]
	if !o.Z {
		in, out = d[1], d[0]
	}
	name := fmt.Sprintf("swap(zeroForOne=%v exactOutput=%v amount=%v limit=%v) from price %v to %v, deltas %v %v", o.Z, o.Out, o.A, o.Lim, before, after, d[0], d[1])
	if o.Z && after.Cmp(before) > 0 || !o.Z && after.Cmp(before) < 0 {
		return fmt.Errorf("%s: price moved the wrong way", name)
	}
	if o.Lim.Sign() != 0 && (o.Z && after.Cmp(o.Lim) < 0 || !o.Z && after.Cmp(o.Lim) > 0) {
		return fmt.Errorf("%s: price passed the limit", name)
	}
	if in.Sign() < 0 || out.Sign() > 0 {
		return fmt.Errorf("%s: the pool pays the token that is sold or charges the token that is bought", name)
	}
	if !o.Out && in.Cmp(o.A) > 0 {
		return fmt.Errorf("%s: took more than the specified input", name)
	}
	if o.Out && new(big.Int).Neg(out).Cmp(o.A) > 0 {
		return fmt.Errorf("%s: paid more than the requested output", name)
	}
	atEnd := after.Cmp(model.Add(model.MinSqrt, model.One)) <= 0 || after.Cmp(model.Sub(model.MaxSqrt, model.One)) >= 0
	if o.Lim.Sign() != 0 {
		atEnd = after.Cmp(o.Lim) == 0
	}
	if !atEnd && (!o.Out && in.Cmp(o.A) != 0 || o.Out && new(big.Int).Neg(out).Cmp(o.A) != 0) {
		return fmt.Errorf("%s: stopped before the specified amount was used although the limit was not reached", name)
	}
	return nil
}

// tickAgrees: dir is the direction of the last swap that changed the price
// (true: downward).
func tickAgrees(s *pool.Pool, down bool) error {
	pr := conv.B(s.SqrtRatioX96)
	t := model.TickAtSqrtRatio(pr)
	if s.TickCurrent == t || down && s.TickCurrent == t-1 && pr.Cmp(model.SqrtRatioAtTick(t)) == 0 {
		return nil
	}
	return fmt.Errorf("price %v belongs to tick %d but the current tick is %d (last move downward: %v)", pr, t, s.TickCurrent, down)
}

func runLaws(c lawCase, r *engine.Rec) error {
	p := hist.New(&c.H, r)
	p.Loose = true
	down := false
	if err := tickAgrees(p.S, down); err != nil {
		return err
	}
	for i := range c.H.Ops {
		before, n := conv.B(p.S.SqrtRatioX96), len(p.Log)
		if err := p.Apply(&c.H.Ops[i]); err != nil {
			return err
		}
		if p.Broken || len(p.Log) == n {
			continue
		}
		after := conv.B(p.S.SqrtRatioX96)
		if o := p.Log[n]; o.K == "swap" {
			if err := checkSwapResult(o, before, after, p.Real); err != nil {
				return err
			}
			// a swap that ends on its start price may still have crossed it
			if after.Cmp(before) != 0 {
				down = o.Z
			} else {
				down = down || o.Z
			}
		}
		if err := tickAgrees(p.S, down); err != nil {
			return fmt.Errorf("after operation %d (%s): %w", i, c.H.Ops[i].K, err)
		}
	}
	if p.Broken {
		r.Class("history-diverged")
		return nil
	}
	c.A.Z = c.Z
	c.A.Out = false
	amt, lim := p.Amount(&c.A), p.Limit(&c.A)
	if amt.BitLen() > 200 && c.A.AM != 0 { // keep sums inside the contract's domain
		amt = model.Cp(new(big.Int).Rsh(amt, 60))
	}
	start := conv.B(p.S.SqrtRatioX96)
	type res struct {
		in, out, price *big.Int
	}
	do := func(s *pool.Pool, z, ex bool, a, lim *big.Int) (*res, error) {
		before := conv.B(s.SqrtRatioX96)
		o := hist.ROp{Tok: p.Tok, K: "swap", Z: z, Out: ex, A: a, Lim: lim}
		d, pv := hist.Exec(s, o)
		if pv != nil {
			return nil, nil
		}
		after := conv.B(s.SqrtRatioX96)
		if err := checkSwapResult(o, before, after, d); err != nil {
			return nil, err
		}
		q := &res{d[0], new(big.Int).Neg(d[1]), after}
		if !z {
			q = &res{d[1], new(big.Int).Neg(d[0]), after}
		}
		return q, nil
	}
	mk := func() *pool.Pool { return hist.Rebuild(&c.H, p.Log) }
	base := mk()
	if base == nil {
		return nil
	}
	full, err := do(base, c.Z, false, amt, lim)
	if err != nil || full == nil {
		return err
	}
	// monotone in the input
	more, err := do(mk(), c.Z, false, model.Add(amt, c.Inc), lim)
	if err != nil {
		return err
	}
	if more != nil {
		r.Class("law:monotone")
		if more.out.Cmp(full.out) < 0 || more.in.Cmp(full.in) < 0 {
			return fmt.Errorf("paying %v yields %v (takes %v) but paying %v yields %v (takes %v); zeroForOne=%v limit=%v", amt, full.out, full.in, model.Add(amt, c.Inc), more.out, more.in, c.Z, lim)
		}
	}
	// monotone in the output
	if full.out.Sign() > 0 {
		w1 := full.out
		w0 := new(big.Int).Rsh(model.Mul(w1, big.NewInt(int64(c.Cut))), 8)
		if w0.Sign() > 0 {
			x0, err := do(mk(), c.Z, true, w0, lim)
			if err != nil {
				return err
			}
			x1, err := do(mk(), c.Z, true, w1, lim)
			if err != nil {
				return err
			}
			if x0 != nil && x1 != nil {
				r.Class("law:monotone-output")
				if x1.in.Cmp(x0.in) < 0 || x1.out.Cmp(x0.out) < 0 {
					return fmt.Errorf("taking %v costs %v but taking %v costs %v; zeroForOne=%v limit=%v", w0, x0.in, w1, x1.in, c.Z, lim)
				}
			}
		}
	}
	// split: the contract's overflow fallback of the token0 formula loses up
	// to one unit of input, so stay below it
	a1 := new(big.Int).Rsh(model.Mul(amt, big.NewInt(int64(c.Cut))), 8)
	a2 := model.Sub(amt, a1)
	noFallback := !c.Z || model.Mul(amt, start).BitLen() < 255
	if a1.Sign() > 0 && a2.Sign() > 0 && noFallback {
		s := mk()
		x1, err := do(s, c.Z, false, a1, lim)
		if err != nil {
			return err
		}
		if x1 != nil && (lim.Sign() == 0 || x1.price.Cmp(lim) != 0) {
			x2, err := do(s, c.Z, false, a2, lim)
			if err != nil {
				return err
			}
			if x2 != nil {
				r.Class("law:split")
				if o := model.Add(x1.out, x2.out); o.Cmp(full.out) > 0 {
					return fmt.Errorf("paying %v at once yields %v, but %v then %v yields %v; zeroForOne=%v limit=%v", amt, full.out, a1, a2, o, c.Z, lim)
				}
			}
		}
	}
	// round trip
	if full.out.Sign() > 0 {
		back, err := do(base, !c.Z, false, full.out, model.Zero())
		if err != nil {
			return err
		}
		if back != nil {
			r.Class("law:round-trip")
			if back.out.Cmp(full.in) > 0 {
				return fmt.Errorf("selling %v for %v and selling that back returns %v; zeroForOne=%v limit=%v", full.in, full.out, back.out, c.Z, lim)
			}
		}
		if full.price.Cmp(start) != 0 {
			r.NonTrivial()
		}
	}
	return nil
}

// ------------------------------------------------------------ C09 isolation

type isoCase struct {
	H hist.Case `json:"h"`
}

func TestC09(t *testing.T) {
	w := &hist.Weights{Kinds: []string{"smint", "smint", "smint", "smint", "mint", "sburn", "poke", "collect", "swap", "swap", "swap", "flash"}, Max: 16, Out: 20, Long: 120}
	engine.Check(t, "C09", engine.Spec[isoCase]{
		Sub:  "positions in isolation",
		Rule: "random histories with several collecting positions over distinct ranges (negative, zero and positive bounds, also pairs of ranges with the same digits side by side, the same sum, width, absolute values, low bits (in ticks or in spacings) or a shared bound); for every range the history is run again with all other positions held by someone else (external liquidity): everything the range is charged and paid, operation by operation and at the close-out, must be identical, and the pool must hold one record per range; non-trivial: at least two ranges of which one collects something",
		N:    10000,
		Gen:  func(t *rapid.T) isoCase { return isoCase{H: genIso(t, w)} },
		Run:  func(c isoCase, r *engine.Rec) error { return runIso(c.H, r) },
	})
}

// genIso adds ranges built from numerals that a careless key could confuse
// (a small offset, the same digits in other places) around the current price.
func genIso(t *rapid.T, w *hist.Weights) hist.Case {
	c := hist.Gen(t, w)
	switch rapid.IntRange(0, 3).Draw(t, "conf") {
	case 0:
	case 1, 2: // two ranges a lossy key would confuse
		x, y, near := confusable(t, map[int]int{500: 10, 3000: 60, 10000: 200}[c.Fee])
		var pre []hist.Op
		for _, r := range [][2]int{x, y} {
			pre = append(pre, hist.Op{K: "smint", Abs: true, Lo: r[0], W: r[1], A: g.PosLogU(t, 70)})
		}
		c.Ops = append(pre, c.Ops...)
		if rapid.IntRange(0, 3).Draw(t, "near") > 0 {
			c.Tick = max(model.MinTick, min(model.MaxTick-1, near+rapid.IntRange(-300, 300).Draw(t, "nt")))
		}
	default:
		n := rapid.IntRange(2, 5).Draw(t, "nconf")
		var pre []hist.Op
		for i := 0; i < n; i++ {
			pre = append(pre, hist.Op{K: "smint", Abs: true, Lo: rapid.SampledFrom(confLo).Draw(t, "lo"), W: rapid.SampledFrom(confHi).Draw(t, "hi"), A: g.PosLogU(t, 70)})
		}
		c.Ops = append(pre, c.Ops...)
		if rapid.Bool().Draw(t, "near0") {
			c.Tick = rapid.IntRange(-2000, 2000).Draw(t, "t0")
		}
	}
	return c
}

// confusable draws two distinct ranges that share what a lossy identification
// of ranges could be built from: their numerals side by side, their sum, their
// width, their absolute values, their low bits, one of their bounds.
func confusable(t *rapid.T, sp int) (x, y [2]int, near int) {
	lim := model.MaxTick / sp
	k := func(n string, lo, hi int) int { return sp * rapid.IntRange(lo, hi).Draw(t, n) }
	bad := func(r [2]int) bool { return r[0] >= r[1] || r[0] < -lim*sp || r[1] > lim*sp }
	kind := rapid.IntRange(0, 5).Draw(t, "ck")
	if kind == 0 { // the same digits, cut elsewhere: a|bc and ab|c
		for i := 0; i < 8; i++ {
			if rapid.IntRange(0, 2).Draw(t, "negs") == 0 { // below zero
				b, c := k("nb", 1, 90/sp+1), k("nc", 0, 99/sp+1)
				bc := atoi(b, c)
				a := k("na", bc/sp+1, max(bc/sp+1, 8870/sp))
				x, y = [2]int{-a, -bc}, [2]int{-atoi(a, b), -c}
				if !bad(x) && !bad(y) && y[0]%sp == 0 && x[1]%sp == 0 {
					return x, y, rapid.SampledFrom([]int{x[0], x[1], y[0], y[1], 0}).Draw(t, "nat")
				}
				continue
			}
			neg := rapid.Bool().Draw(t, "neg")
			a, b := k("a", 1, 9), k("b", 1, 9)
			if sp == 200 {
				a, b = 200, 200
			}
			lo1, lo2 := a, atoi(a, b)
			if neg {
				lo1, lo2 = -lo1, -lo2
			}
			c := k("c", max(0, lo2/sp+1), max(0, lo2/sp+1)+rapid.SampledFrom([]int{9, 99, 300}).Draw(t, "cr"))
			x, y = [2]int{lo1, atoi(b, c)}, [2]int{lo2, c}
			if !bad(x) && !bad(y) && x != y {
				return x, y, rapid.SampledFrom([]int{x[0], x[1], y[0], y[1], 0}).Draw(t, "at")
			}
		}
		kind = 1
	}
	lo := k("lo", -lim, lim-1)
	if rapid.Bool().Draw(t, "small") {
		lo = k("slo", -40, 40)
	}
	x = [2]int{lo, lo + k("w", 1, 60)}
	if rapid.IntRange(0, 2).Draw(t, "wide") == 0 {
		x[1] = k("hi", min(lo/sp+1, lim), lim)
	}
	d := k("d", 1, 40)
	switch kind {
	case 1: // the same sum
		y = [2]int{x[0] - d, x[1] + d}
	case 2: // the same width
		y = [2]int{x[0] + d, x[1] + d}
	case 3: // mirrored, or one sign changed
		y = rapid.SampledFrom([][2]int{{-x[1], -x[0]}, {-x[0], x[1]}, {x[0], -x[1]}}).Draw(t, "mir")
	case 4: // the same low bits of one bound, in ticks or in spacings
		l := map[int]int{10: 327680, 60: 983040, 200: 1638400}[sp]
		if rapid.Bool().Draw(t, "cmp") {
			l = sp << rapid.SampledFrom([]int{7, 8, 8, 10, 12, 15, 16, 16}).Draw(t, "lb")
		}
		y = rapid.SampledFrom([][2]int{{x[0] + l, x[1] + l}, {x[0] - l, x[1]}, {x[0], x[1] + l}, {x[0] - l, x[1] - l}, {x[0] - l, x[1] + l}}).Draw(t, "low")
	default: // one bound shared
		y = rapid.SampledFrom([][2]int{{x[0], x[1] + d}, {x[0] - d, x[1]}, {x[1], x[1] + d}, {x[0] - d, x[0]}}).Draw(t, "shr")
	}
	if bad(x) {
		x = [2]int{-sp, sp}
	}
	if bad(y) || x == y {
		y = [2]int{max(x[0]-sp, -lim*sp), min(x[1]+sp, lim*sp)}
	}
	return x, y, rapid.SampledFrom([]int{x[0], x[1], y[0], y[1], 0}).Draw(t, "at")
}

func atoi(a, b int) int {
	n, _ := strconv.Atoi(fmt.Sprint(a) + fmt.Sprint(b))
	return n
}

var confLo = []int{-887200, -60000, -12000, -6000, -1200, -600, -60, 0, 60, 600, 1200, 6000, 12000, 60000}
var confHi = []int{-60000, -12000, -6000, -1200, -600, -60, 0, 60, 600, 1200, 6000, 12000, 60000, 120000, 600000, 887200}

func runIso(h hist.Case, r *engine.Rec) error {
	p := hist.New(&h, r)
	p.Loose = true
	type evt struct {
		i int
		r [2]*big.Int
	}
	got := map[model.Range][]evt{}
	note := func() {
		i := len(p.Log) - 1
		if o := p.Log[i]; o.K == "smint" || o.K == "sburn" || o.K == "collect" {
			got[o.R] = append(got[o.R], evt{i, p.Real})
		}
	}
	for i := range h.Ops {
		n := len(p.Log)
		if err := p.Apply(&h.Ops[i]); err != nil {
			return err
		}
		if len(p.Log) > n {
			note()
		}
	}
	if p.Broken {
		r.Class("history-diverged")
		return nil
	}
	if n := len(p.S.Positions); n != len(p.Live) {
		return fmt.Errorf("%d distinct ranges were minted but the pool holds %d position records", len(p.Live), n)
	}
	some := false
	for _, x := range p.Live {
		if p.M.Pos[x].L.Sign() > 0 {
			if err := p.BurnPos(x, model.Cp(p.M.Pos[x].L)); err != nil {
				return err
			}
			if p.Broken {
				return fmt.Errorf("closing %v was refused", x)
			}
			note()
		}
		if err := p.Collect(x); err != nil {
			return err
		}
		note()
		some = some || p.Real[0].Sign() != 0 || p.Real[1].Sign() != 0
	}
	for _, x := range p.Live {
		s := hist.Fresh(&h)
		k := 0
		for i, o := range p.Log {
			own := o.R == x
			if !own {
				switch o.K {
				case "smint":
					o.K = "mint"
				case "sburn":
					if o.A.Sign() == 0 {
						continue
					}
					o.K = "burn"
				case "collect":
					continue
				}
			}
			d, pv := hist.Exec(s, o)
			if pv != nil {
				return fmt.Errorf("operation %d (%s %v) is accepted with all positions but refused (%v) when only %v is held", i, o.K, o.R, pv, x)
			}
			if own && (o.K == "smint" || o.K == "sburn" || o.K == "collect") {
				e := got[x][k]
				k++
				if e.i != i || e.r[0].Cmp(d[0]) != 0 || e.r[1].Cmp(d[1]) != 0 {
					return fmt.Errorf("operation %d (%s %v): amounts %v %v with the other positions held alongside, %v %v when others hold them", i, o.K, x, e.r[0], e.r[1], d[0], d[1])
				}
			}
		}
	}
	if len(p.Live) >= 2 && some {
		r.NonTrivial()
	}
	return nil
}

// ----------------------------------------------------------------- C10 clone

type cloneCase struct {
	H     hist.Case `json:"h"` // op.B selects the branch after the clone points
	C1    int       `json:"c1"`
	C2    int       `json:"c2"`
	Close []int     `json:"close"`
}

func TestC10(t *testing.T) {
	w := &hist.Weights{Kinds: []string{"smint", "smint", "mint", "burn", "sburn", "sburn", "poke", "collect", "swap", "swap", "swap", "flash"}, Max: 20, Out: 25, Clone: true, Long: 200}
	engine.Check(t, "C10", engine.Spec[cloneCase]{
		Sub:  "clone branches",
		Rule: "a random history is cloned at a random point, the clone is cloned again later, and generated operations are applied to the three pools in an arbitrary interleaving; every returned amount, the pool fields, all ticks and the amounts of a final close-out must equal those of a separate pool that replays only that branch's own operations; non-trivial: operations on at least two branches after the clone, with ticks present at the clone point",
		N:    8000,
		Gen: func(t *rapid.T) cloneCase {
			h := hist.Gen(t, w)
			n := len(h.Ops)
			c1 := rapid.IntRange(0, n).Draw(t, "c1")
			return cloneCase{H: h, C1: c1, C2: rapid.IntRange(c1, n).Draw(t, "c2")}
		},
		Run: runClone,
	})
}

func runClone(c cloneCase, r *engine.Rec) error {
	type branch struct {
		p    *hist.Pair
		rets [][2]*big.Int
		ops  int
	}
	a := &branch{p: hist.New(&c.H, r)}
	a.p.Loose = true
	br := []*branch{a}
	fork := func(b *branch) *branch {
		p := *b.p
		p.S, p.M = b.p.S.Clone(), b.p.M.Clone()
		p.Log = append([]hist.ROp{}, b.p.Log...)
		p.Live = append([]model.Range{}, b.p.Live...)
		p.LiveExt = append([]model.Range{}, b.p.LiveExt...)
		return &branch{p: &p, rets: append([][2]*big.Int{}, b.rets...)}
	}
	apply := func(b *branch, f func(p *hist.Pair) error) error {
		n := len(b.p.Log)
		if err := f(b.p); err != nil {
			return err
		}
		if len(b.p.Log) > n {
			b.rets = append(b.rets, b.p.Real)
			b.ops++
		}
		return nil
	}
	hadTicks := false
	for i := 0; i <= len(c.H.Ops); i++ {
		if i == c.C1 {
			hadTicks = len(a.p.M.Ticks) > 0
			br = append(br, fork(a))
			for _, b := range br {
				b.ops = 0
			}
		}
		if i == c.C2 && i >= c.C1 {
			br = append(br, fork(br[1]))
		}
		if i == len(c.H.Ops) {
			break
		}
		b := br[c.H.Ops[i].B%len(br)]
		if err := apply(b, func(p *hist.Pair) error { return p.Apply(&c.H.Ops[i]) }); err != nil {
			return err
		}
	}
	// close everything, interleaved
	for k := 0; ; k++ {
		any := false
		for _, b := range br {
			if k < len(b.p.Live) {
				any = true
				x := b.p.Live[k]
				if !b.p.Broken && b.p.M.Pos[x].L.Sign() > 0 {
					if err := apply(b, func(p *hist.Pair) error { return p.BurnPos(x, model.Cp(p.M.Pos[x].L)) }); err != nil {
						return err
					}
				}
				if !b.p.Broken {
					if err := apply(b, func(p *hist.Pair) error { return p.Collect(x) }); err != nil {
						return err
					}
				}
			}
		}
		if !any {
			break
		}
	}
	names := []string{"original", "clone", "clone of the clone"}
	active := 0
	for i, b := range br {
		if b.ops > 0 {
			active++
		}
		s := hist.Fresh(&c.H)
		for k, o := range b.p.Log {
			d, pv := hist.Exec(s, o)
			if pv != nil {
				return fmt.Errorf("%s: operation %d (%s) was accepted, but a pool of its own refuses it: %v", names[i], k, o.K, pv)
			}
			if d[0].Cmp(b.rets[k][0]) != 0 || d[1].Cmp(b.rets[k][1]) != 0 {
				return fmt.Errorf("%s: operation %d (%s %v) returned %v %v, a pool of its own returns %v %v", names[i], k, o.K, o.R, b.rets[k][0], b.rets[k][1], d[0], d[1])
			}
		}
		if b.p.Broken {
			// the refused operation must be refused by a pool of its own too:
			// then the disagreement is with the model, not between the pools
			r.Class("history-diverged")
			if o := b.p.BrokenOp; o != nil {
				if _, pv := hist.Exec(s, *o); (pv != nil) != b.p.BrokenPanic {
					return fmt.Errorf("%s: operation %s %v refused: %v, by a pool of its own: %v (%v)", names[i], o.K, o.R, b.p.BrokenPanic, pv != nil, pv)
				}
			}
			continue
		}
		ticks := ticksOf(b.p.Log)
		if d := diffSnap(snapOf(s, ticks), snapOf(b.p.S, ticks), true); d != "" {
			return fmt.Errorf("%s: final state differs from a pool of its own: %s", names[i], d)
		}
	}
	if active >= 2 && hadTicks {
		r.NonTrivial()
	}
	return nil
}

// ------------------------------------------- C12 callers reuse their objects

func TestC12Reuse(t *testing.T) {
	engine.Check(t, "C12", engine.Spec[hist.Case]{
		Sub:  "reused argument objects",
		Rule: "random pool histories whose caller overwrites the amount and limit objects of every operation as soon as it returns (a few objects are used for everything); every returned amount, the pool fields, all ticks and the amounts of a final close-out must equal those of a separate pool that was given separate objects; non-trivial: a swap crossed a tick or a position was closed",
		N:    6000,
		Gen: func(t *rapid.T) hist.Case {
			return hist.Gen(t, &hist.Weights{Kinds: []string{"smint", "smint", "mint", "burn", "sburn", "poke", "collect", "swap", "swap", "swap", "flash", "bad-swap-limit", "bad-mint-amount"}, Max: 16, Out: 30})
		},
		Run: runReuse,
	})
}

func runReuse(c hist.Case, r *engine.Rec) error {
	p := hist.New(&c, r)
	p.Loose = true
	objs := []*ui.Int{}
	used := 0
	p.ArgF = func(b *big.Int) *ui.Int {
		if used == len(objs) {
			objs = append(objs, new(ui.Int))
		}
		x := objs[used]
		used++
		return x.Set(conv.U(b))
	}
	step := 0
	rets := [][2]*big.Int{}
	apply := func(f func() error) error {
		n := len(p.Log)
		used = 0
		if err := f(); err != nil {
			return err
		}
		for i := 0; i < used; i++ { // the caller has other uses for them
			switch (step + i) % 4 {
			case 0:
				objs[i].Clear()
			case 1:
				objs[i].SetAllOne()
			case 2:
				objs[i].AddUint64(objs[i], 1)
			default:
				objs[i].Lsh(ui.NewInt(uint64(step)+77), 100)
			}
		}
		step++
		if len(p.Log) > n {
			rets = append(rets, p.Real)
		}
		return nil
	}
	for i := range c.Ops {
		if err := apply(func() error { return p.Apply(&c.Ops[i]) }); err != nil {
			return err
		}
	}
	for _, x := range p.Live {
		x := x
		if !p.Broken && p.M.Pos[x].L.Sign() > 0 {
			if err := apply(func() error { return p.BurnPos(x, model.Cp(p.M.Pos[x].L)) }); err != nil {
				return err
			}
			r.NonTrivial()
		}
		if !p.Broken {
			if err := apply(func() error { return p.Collect(x) }); err != nil {
				return err
			}
		}
	}
	if p.CrossSw > 0 {
		r.NonTrivial()
	}
	s := hist.Fresh(&c)
	for k, o := range p.Log {
		d, pv := hist.Exec(s, o)
		if pv != nil {
			return fmt.Errorf("operation %d (%s) was accepted with reused objects, but is refused with separate ones: %v", k, o.K, pv)
		}
		if d[0].Cmp(rets[k][0]) != 0 || d[1].Cmp(rets[k][1]) != 0 {
			return fmt.Errorf("operation %d (%s %v) returned %v %v when the caller reuses its objects, %v %v otherwise", k, o.K, o.R, rets[k][0], rets[k][1], d[0], d[1])
		}
	}
	if p.Broken {
		r.Class("history-diverged")
		if o := p.BrokenOp; o != nil {
			if _, pv := hist.Exec(s, *o); (pv != nil) != p.BrokenPanic {
				return fmt.Errorf("operation %s %v refused with reused objects: %v, with separate ones: %v (%v)", o.K, o.R, p.BrokenPanic, pv != nil, pv)
			}
		}
		return nil
	}
	ticks := ticksOf(p.Log)
	if d := diffSnap(snapOf(s, ticks), snapOf(p.S, ticks), true); d != "" {
		return fmt.Errorf("final state with separate objects differs from that with reused ones: %s", d)
	}
	return nil
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
