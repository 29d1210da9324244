package execchk

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	g "verifharness/gen"
	"verifharness/hist"
	"verifharness/market"
	"verifharness/model"
	"verifharness/sref"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

// act is what the recording strategy does to its own pool when called.
type act struct {
	K int      `json:"k"` // 0 nothing, 1 position over the whole range, 2 swap
	Z bool     `json:"z"`
	A *big.Int `json:"a"`
}

type tcase struct {
	M    market.Market `json:"m"`
	P    market.Plan   `json:"p"`
	Acts []act         `json:"acts"`
	Vals [][2]*big.Int `json:"vals"`
}

// fingerprint of everything observable of a pool.
func fingerprint(p *pool.Pool, ticks []int) string {
	s := fmt.Sprintf("price %v tick %d liquidity %v fees %v/%v", conv.B(p.SqrtRatioX96), p.TickCurrent, conv.B(p.Liquidity), conv.B(p.FeeGrowthGlobal0X128), conv.B(p.FeeGrowthGlobal1X128))
	for _, t := range ticks {
		engine.Try(func() {
			k := p.TickData.GetTick(t)
			s += fmt.Sprintf(" [%d: net %v gross %v out %v/%v]", t, conv.S(k.LiquidityNet), conv.B(k.LiquidityGross), conv.B(k.FeeGrowthOutside0X128), conv.B(k.FeeGrowthOutside1X128))
		})
	}
	return s
}

// script decides the holdings reported at a state; the value fits 256 bits.
func (c *tcase) script(calls int, p *pool.Pool) (*big.Int, *big.Int) {
	if len(c.Vals) == 0 {
		return model.Zero(), model.Zero()
	}
	h := fnv.New32a()
	fmt.Fprint(h, calls, conv.B(p.SqrtRatioX96))
	v := c.Vals[int(h.Sum32())%len(c.Vals)]
	a0, a1 := model.Cp(v[0]), model.Cp(v[1])
	for market.Value(model.Zero(), a1, conv.B(p.SqrtRatioX96)).BitLen() > 255 {
		a1.Rsh(a1, 3)
	}
	return a0, a1
}

// do performs an action of the recording strategy.
func (c *tcase) do(n int, p *pool.Pool) {
	if len(c.Acts) == 0 {
		return
	}
	a := c.Acts[n%len(c.Acts)]
	engine.Try(func() {
		switch a.K {
		case 1:
			sp := p.TickSpacing
			p.MintStrategy(model.CeilTick(model.MinTick, sp), model.FloorTick(model.MaxTick, sp), conv.U(a.A))
		case 2:
			t0, t := hist.Names(c.M.H.Tok)
			if a.Z {
				t = t0
			}
			p.ExactInputSwap(conv.U(a.A), t, new(ui.Int))
		}
	})
}

type logged struct {
	K     string
	State string
}

// recorder is a strategy that records how it is driven.
type recorder struct {
	c     *tcase
	mark  bool // report holdings that identify the state they were asked in
	p     *pool.Pool
	ticks []int
	n     int
	log   []logged
}

func (m *recorder) note(k string) {
	m.log = append(m.log, logged{k, fingerprint(m.p, m.ticks)})
	m.n++
	if k == "init" || k == "rebalance" {
		m.c.do(m.n, m.p)
	}
}
func (m *recorder) report() (*ui.Int, *ui.Int) {
	if m.mark {
		h := fnv.New64a()
		fmt.Fprint(h, m.n, fingerprint(m.p, m.ticks))
		return new(ui.Int).SetUint64(h.Sum64()), new(ui.Int)
	}
	a, b := m.c.script(m.n, m.p)
	return conv.U(a), conv.U(b)
}
func (m *recorder) Init() (*ui.Int, *ui.Int)       { m.note("init"); return m.report() }
func (m *recorder) Rebalance() (*ui.Int, *ui.Int)  { m.note("rebalance"); return m.report() }
func (m *recorder) BurnAll() (*ui.Int, *ui.Int)    { m.note("close"); return m.report() }
func (m *recorder) GetPool() *pool.Pool            { return m.p }
func (m *recorder) GetAmounts() (*ui.Int, *ui.Int) { return m.report() }
func (m *recorder) MakeSnapshot()                  { m.note("price") }

func touched(c *tcase, b *market.Built) []int {
	set := map[int]bool{}
	for _, t := range b.Pre.M.SortedTicks() {
		set[t] = true
	}
	for _, e := range b.Txs {
		set[e.TickLower], set[e.TickUpper] = true, true
	}
	s := b.Pre.M.Spacing
	set[model.CeilTick(model.MinTick, s)], set[model.FloorTick(model.MaxTick, s)] = true, true
	var ts []int
	for t := range set {
		ts = append(ts, t)
	}
	sort.Ints(ts)
	return ts
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// drive runs the executor on the recording strategy and judges calls (C25)
// or recorded values (C26).
func drive(c tcase, r *engine.Rec, values bool) error {
	b := c.M.Build(r)
	if b == nil || len(b.Txs) == 0 {
		return nil
	}
	ticks := touched(&c, b)
	atCalls := ticks
	if c.M.Rep > 1 && len(ticks) > 16 { // all of them only at the end
		atCalls = nil
		for i := 0; i < 16; i++ {
			atCalls = append(atCalls, ticks[i*len(ticks)/16])
		}
	}
	start, end := c.M.T+c.P.Start, c.M.T+c.P.End
	calls, applied := market.Timeline(b.Txs, start, end, c.P.Update, c.P.Snap, c.P.Price)
	// what should happen
	ref := &recorder{c: &c, mark: !values, p: hist.Rebuild(&c.M.H, b.Pre.Log), ticks: atCalls}
	var want []*big.Int
	value := func(x, y *ui.Int) {
		want = append(want, market.Value(conv.B(x), conv.B(y), conv.B(ref.p.SqrtRatioX96)))
	}
	k := 0
	catchup := map[string]int{}
	for i := 0; i <= applied; i++ {
		for k < len(calls) && calls[k].I == i {
			catchup[calls[k].K]++
			switch calls[k].K {
			case "init":
				value(ref.Init())
			case "price":
				ref.MakeSnapshot()
			case "value":
				value(ref.GetAmounts())
			case "rebalance":
				ref.Rebalance()
			case "close":
				value(ref.BurnAll())
			}
			k++
		}
		if i < applied {
			if pv := market.ApplyReal(ref.p, c.M.H.Tok, &b.Txs[i]); pv != nil {
				r.Class("event-refused")
				return nil
			}
		}
	}
	// what does happen
	got := &recorder{c: &c, mark: !values, p: hist.Rebuild(&c.M.H, b.Pre.Log), ticks: atCalls}
	txs := market.CloneTxs(b.Txs)
	var ex *executor.Execution
	if pv := engine.Try(func() {
		ex = executor.CreateExecution(got, start, end, c.P.Update, c.P.Snap, c.P.Price, txs)
	}); pv != nil {
		return fmt.Errorf("CreateExecution(start %d, end %d, %+v) on %d events panicked: %v", start, end, c.P, len(txs), pv)
	}
	if pv := engine.Try(ex.Run); pv != nil {
		return fmt.Errorf("Run (start %d, end %d, %+v) panicked: %v", start, end, c.P, pv)
	}
	r.Class(fmt.Sprintf("values:%d", min(len(want), 5)))
	if start > b.Txs[len(b.Txs)-1].Timestamp {
		r.Class("start-after-last-event")
	}
	if applied < len(b.Txs) {
		r.Class("events-after-end")
	}
	if catchup["rebalance"] > 0 {
		r.Class("rebalanced")
	}
	if !values {
		if catchup["init"] > 0 && catchup["price"] > 1 && (catchup["value"] > 0 || catchup["rebalance"] > 0) {
			r.NonTrivial()
		}
		for i := 0; i < len(ref.log) || i < len(got.log); i++ {
			var w, h logged
			if i < len(ref.log) {
				w = ref.log[i]
			}
			if i < len(got.log) {
				h = got.log[i]
			}
			if w != h {
				return fmt.Errorf("call %d: got %q on a pool with %s; want %q on %s (calls got %v, want %v; times %v start %d end %d plan %+v)", i, h.K, short(h.State), w.K, short(w.State), names(got.log), names(ref.log), times(b.Txs), start, end, c.P)
			}
		}
		if x, y := fingerprint(got.p, ticks), fingerprint(ref.p, ticks); x != y {
			return fmt.Errorf("final pool: %s, want %s", x, y)
		}
		if err := eqValues(ex.AmountUSDSnapshots, want); err != nil {
			return fmt.Errorf("value snapshots, each marking the state it was taken in: %w", err)
		}
		return nil
	}
	nz := 0
	for _, v := range want {
		if v.Sign() > 0 {
			nz++
		}
	}
	if nz > 1 {
		r.NonTrivial()
	}
	return eqValues(ex.AmountUSDSnapshots, want)
}

func eqValues(got []*ui.Int, want []*big.Int) error {
	var g []string
	for _, x := range got {
		if x == nil {
			g = append(g, "nil")
			continue
		}
		g = append(g, conv.B(x).String())
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d values recorded (%v), want %d (%v)", len(got), g, len(want), want)
	}
	for i := range want {
		if g[i] != want[i].String() {
			return fmt.Errorf("value %d of %d: got %s, want %v", i, len(want), g[i], want[i])
		}
	}
	return nil
}

func names(l []logged) (s []string) {
	for _, x := range l {
		s = append(s, x.K)
	}
	return
}
func times(txs []ent.Transaction) (s []int) {
	for _, x := range txs {
		s = append(s, x.Timestamp)
	}
	return
}

func genT(max int, low bool, long int) func(t *rapid.T) tcase {
	return func(t *rapid.T) tcase {
		c := tcase{M: market.Gen(t, max, low)}
		if long > 0 {
			c.M.Lengthen(t, 200, long)
		}
		c.P = market.GenPlan(t, &c.M)
		if rapid.Bool().Draw(t, "acts") {
			c.Acts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) act {
				return act{K: rapid.IntRange(0, 2).Draw(t, "k"), Z: rapid.Bool().Draw(t, "z"), A: g.PosLogU(t, 70)}
			}), 1, 4).Draw(t, "al")
		}
		c.Vals = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [2]*big.Int {
			b := rapid.SampledFrom([]int{40, 84, 128, 255}).Draw(t, "vb")
			return [2]*big.Int{g.LogU(t, b), g.LogU(t, b)}
		}), 1, 5).Draw(t, "vals")
		return c
	}
}

const marketRule = "random recorded markets (pool history, then up to %d events: swaps in both directions across ticks, mints, burns, flashes; equal times, grids, bursts, gaps; start times at 0, a Unix time, around 2^31 and 2^32) and timelines (start and end before, at, between, after events; intervals from 1 s to beyond the whole record)"

func TestC25(t *testing.T) {
	engine.Check(t, "C25", engine.Spec[tcase]{
		Sub:  "timeline",
		Rule: fmt.Sprintf(marketRule, 40) + "; one in 200 repeated to up to 1500 events;" + " run with a recording strategy that reports scripted holdings and may mint or swap in its pool; the calls it receives, everything observable of the pool at each call and at the end, and the moment of every value snapshot (reported holdings identify the state they were asked in), compared with the documented timeline replayed on a second pool; non-trivial: started, at least 2 price snapshots, and at least one value snapshot or rebalance",
		N:    9000,
		Gen:  genT(40, false, 1500),
		Run:  func(c tcase, r *engine.Rec) error { return drive(c, r, false) },
	})
	engine.Check(t, "C25", engine.Spec[rcase]{
		Sub:  "market path",
		Rule: fmt.Sprintf(marketRule, 40) + "; one in 200 repeated to up to 1500 events;" + " run with the strategy that provides nothing: afterwards its pool is the recorded market replayed event by event on a second pool, and events after the end time leave no trace; non-trivial: at least 5 events applied, one a price-moving swap",
		N:    4000,
		Gen: func(t *rapid.T) rcase {
			c := rcase{M: market.Gen(t, 40, false)}
			c.M.Lengthen(t, 200, 1500)
			c.P = market.GenPlan(t, &c.M)
			c.S = sref.Params{Kind: "none", A0: g.LogU(t, 80), A1: g.LogU(t, 80)}
			return c
		},
		Run: path,
	})
}

func path(c rcase, r *engine.Rec) error {
	b := c.M.Build(r)
	if b == nil || len(b.Txs) == 0 {
		return nil
	}
	ref := hist.Rebuild(&c.M.H, b.Pre.Log)
	ticks := touched(nil, b)
	p0 := fingerprint(ref, nil)
	n := 0
	for i := range b.Txs {
		if b.Txs[i].Timestamp > c.M.T+c.P.End {
			break
		}
		if pv := market.ApplyReal(ref, c.M.H.Tok, &b.Txs[i]); pv != nil {
			r.Class("event-refused")
			return nil
		}
		n++
	}
	S := c.S.Real(b.Pre.S)
	if pv := engine.Try(func() {
		executor.CreateExecution(S, c.M.T+c.P.Start, c.M.T+c.P.End, c.P.Update, c.P.Snap, c.P.Price, market.CloneTxs(b.Txs)).Run()
	}); pv != nil {
		return fmt.Errorf("run of %d events (%+v) panicked: %v", len(b.Txs), c.P, pv)
	}
	if x, y := fingerprint(S.GetPool(), ticks), fingerprint(ref, ticks); x != y {
		return fmt.Errorf("pool after the run: %s; replaying the %d events up to the end time gives %s", x, n, y)
	}
	if n >= 5 && p0 != fingerprint(ref, nil) {
		r.NonTrivial()
	}
	return nil
}

type rcase struct {
	M market.Market `json:"m"`
	P market.Plan   `json:"p"`
	S sref.Params   `json:"s"`
}

func genParams(t *rapid.T) sref.Params {
	kinds := append([]string{"average", "bollinger", "bollfill", "bollfill", "volatility"}, sref.Kinds...)
	p := sref.Params{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), W: rapid.IntRange(5, 3000).Draw(t, "w"), B: rapid.IntRange(5, 3000).Draw(t, "b"), N: rapid.IntRange(2, 5).Draw(t, "n"), Mul: rapid.IntRange(1, 65535).Draw(t, "mul")}
	if rapid.Bool().Draw(t, "usual") {
		p.A0, p.A1 = big.NewInt(1000000), big.NewInt(366874042000000)
	} else {
		p.A0, p.A1 = g.LogU(t, 84), g.LogU(t, 84)
	}
	if rapid.IntRange(0, 2).Draw(t, "mk") == 0 {
		p.Mul = rapid.IntRange(1, 3000).Draw(t, "mul2")
	}
	return p
}

func e2e(c rcase, r *engine.Rec) error {
	b := c.M.Build(r)
	if b == nil || len(b.Txs) == 0 {
		return nil
	}
	start, end := c.M.T+c.P.Start, c.M.T+c.P.End
	want, ref, err := market.RefRun(b, b.Txs, c.S, start, end, c.P.Update, c.P.Snap, c.P.Price)
	if err != nil {
		if errors.Is(err, market.ErrOut) || errors.Is(err, sref.ErrDomain) || errors.Is(err, model.ErrRevert) {
			r.Class("outside-domain")
			return nil
		}
		return err
	}
	S := c.S.Real(b.Pre.S)
	var ex *executor.Execution
	if pv := engine.Try(func() {
		ex = executor.CreateExecution(S, start, end, c.P.Update, c.P.Snap, c.P.Price, market.CloneTxs(b.Txs))
		ex.Run()
	}); pv != nil {
		return fmt.Errorf("%s: run (%+v) panicked: %v", c.S.Kind, c.P, pv)
	}
	r.Class("run:" + c.S.Kind)
	if ref.Opened > 1 && len(want) > 2 {
		r.NonTrivial()
		r.Class("reopened:" + c.S.Kind)
	}
	if err := eqValues(ex.AmountUSDSnapshots, want); err != nil {
		return fmt.Errorf("%s (%+v, plan %+v, %d events): %w", c.S.Kind, c.S, c.P, len(b.Txs), err)
	}
	return nil
}

func TestC26(t *testing.T) {
	engine.Check(t, "C26", engine.Spec[tcase]{
		Sub:  "valuation",
		Rule: fmt.Sprintf(marketRule, 15) + " at prices over the whole range, run with a recording strategy that reports scripted holdings up to 255 bits (zero, one-sided, huge; such that the value fits 256 bits) and may mint or swap when called; every recorded value compared with token0 + floor(token1 * 2^192 / price^2); non-trivial: at least 2 non-zero values",
		N:    12000,
		Gen:  genT(15, false, 0),
		Run:  func(c tcase, r *engine.Rec) error { return drive(c, r, true) },
	})
	engine.Check(t, "C26", engine.Spec[rcase]{
		Sub:  "strategies end to end",
		Rule: fmt.Sprintf(marketRule, 40) + ", and one of the twelve strategies with random parameters: the recorded values compared with a reference execution (reference timeline, strategy, pool and valuation); non-trivial: positions opened more than once and at least 3 values recorded",
		N:    9000,
		Gen: func(t *rapid.T) rcase {
			c := rcase{M: market.Gen(t, 40, true), S: genParams(t)}
			if rapid.Bool().Draw(t, "matched") {
				c.S.Match(t, c.M.H.Tick)
			}
			c.P = market.GenPlan(t, &c.M)
			if c.S.NeedsPrices() { // fill the price window before the start
				span := c.M.Span()
				if rapid.IntRange(0, 9).Draw(t, "fill") > 0 {
					c.P.Price = rapid.IntRange(1, span/16+1).Draw(t, "pi")
					c.P.Start = rapid.IntRange(span/3, 2*span/3+1).Draw(t, "ps")
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "dense") > 0 {
				span := c.M.Span()
				c.P.End = 1 << 40
				if !c.S.NeedsPrices() {
					c.P.Start = rapid.IntRange(0, span/3+1).Draw(t, "ps2")
				}
				c.P.Update = rapid.IntRange(1, span/5+1).Draw(t, "ui")
				c.P.Snap = rapid.IntRange(1, span/5+1).Draw(t, "si")
			}
			return c
		},
		Run: e2e,
	})
}
