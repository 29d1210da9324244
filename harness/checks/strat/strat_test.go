package stratchk

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	g "verifharness/gen"
	"verifharness/hist"
	"verifharness/model"
	"verifharness/sref"

	"uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
)

type sop struct {
	K string   `json:"k"` // mkt to snap go close amounts edge
	O *hist.Op `json:"o,omitempty"`
	I int      `json:"i,omitempty"`
	D int      `json:"d,omitempty"`
	Z bool     `json:"z,omitempty"`
}

type scase struct {
	H   hist.Case   `json:"h"`
	P   sref.Params `json:"p"`
	Ops []sop       `json:"ops"`
	// the operations contain the start themselves
	Late bool `json:"late,omitempty"`
	// the swapping strategy starts with as much left over of one token as of the other
	Tie bool `json:"tie,omitempty"`
}

var preW = &hist.Weights{Kinds: []string{"mint", "mint", "mint", "burn", "swap", "swap", "flash"}, Max: 5, Out: 20, NoFG: false}

// market operations while a strategy runs: mostly swaps of moderate size
func genMkt(t *rapid.T) *hist.Op {
	var o hist.Op
	switch rapid.IntRange(0, 9).Draw(t, "mk") {
	case 0:
		o = hist.Op{K: "mint", Lo: rapid.IntRange(-20, 20).Draw(t, "lo"), W: rapid.IntRange(1, 25).Draw(t, "w"), Cur: rapid.Bool().Draw(t, "c"), A: g.PosLogU(t, 90)}
	case 1:
		o = hist.Op{K: "burn", I: rapid.IntRange(0, 7).Draw(t, "i"), F: rapid.SampledFrom([]int{256, 1, 128, 255}).Draw(t, "f")}
	case 2:
		o = hist.Op{K: "flash", A: g.LogU(t, 100), A2: g.LogU(t, 100)}
	default:
		o = hist.GenSwap(t, 20)
		if o.AM == 3 || (o.AM == 0 && rapid.IntRange(0, 1).Draw(t, "mod") == 0) {
			o.A, o.AK, o.F = nil, rapid.IntRange(1, 4).Draw(t, "ak"), rapid.IntRange(1, 400).Draw(t, "f")
			o.AM = 2
		}
	}
	return &o
}

func genAmount(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 9).Draw(t, "amk") {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(rapid.IntRange(1, 50).Draw(t, "am")))
	case 2, 3:
		return big.NewInt(1000000)
	case 4, 5:
		return big.NewInt(366874042000000)
	}
	return g.LogU(t, 84)
}

func genWidth(t *rapid.T) int {
	switch rapid.IntRange(0, 11).Draw(t, "wk") {
	case 0:
		return rapid.IntRange(0, 130).Draw(t, "w") // around half a spacing
	case 1:
		return rapid.IntRange(0, 8).Draw(t, "w")
	case 2:
		return rapid.SampledFrom([]int{887272, 1000000, 2000000, 400000, -5, -1000, 5, 30, 100, 10, 60, 200}).Draw(t, "w")
	case 3, 4, 5:
		return rapid.IntRange(100, 20000).Draw(t, "w")
	}
	return rapid.IntRange(5, 3000).Draw(t, "w")
}

func genParams(t *rapid.T, kinds []string) sref.Params {
	p := sref.Params{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), A0: genAmount(t), A1: genAmount(t), W: genWidth(t), B: genWidth(t), Mul: 1024}
	p.N = rapid.IntRange(2, 6).Draw(t, "n")
	if p.Kind == "average" && rapid.IntRange(0, 4).Draw(t, "n1") == 0 {
		p.N = 1
	}
	if p.NeedsPrices() && rapid.IntRange(0, 29).Draw(t, "nlong") == 0 {
		p.N = rapid.IntRange(7, 130).Draw(t, "n3")
	}
	switch rapid.IntRange(0, 3).Draw(t, "mulk") {
	case 0:
		p.Mul = rapid.IntRange(1, 65535).Draw(t, "mul")
	case 1:
		p.Mul = 1 << rapid.IntRange(0, 16).Draw(t, "mul")
	case 2:
		p.Mul = rapid.IntRange(1, 1200).Draw(t, "mul")
	}
	return p
}

func gen(t *rapid.T, kinds []string, opKinds []string, most int) scase {
	c := scase{H: hist.Gen(t, preW), P: genParams(t, kinds)}
	if c.P.NeedsPrices() && c.H.Tick > 255000 { // recorded prices are squared into 230 bits
		c.H.Tick %= 255000
	}
	if rapid.IntRange(0, 7).Draw(t, "grid") == 0 { // the price on a usable tick, widths of about half and one spacing
		s := map[int]int{500: 10, 3000: 60, 10000: 200}[c.H.Fee]
		if rapid.IntRange(0, 2).Draw(t, "glow") == 0 { // where amounts are coarse against liquidity
			c.H.Tick = -rapid.IntRange(450000, 870000).Draw(t, "gt")
		}
		c.H.Tick -= c.H.Tick % s
		c.P.W, c.P.B = s/2+rapid.SampledFrom([]int{0, 0, 0, -1, 1, s / 2}).Draw(t, "gw"), s+rapid.SampledFrom([]int{0, 0, -1, 1, -s / 2}).Draw(t, "gb")
		if rapid.Bool().Draw(t, "gf") {
			c.H.Frac = 0
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "matched") > 0 { // both tokens count at the price
		c.P.Match(t, c.H.Tick)
	}
	if c.P.Kind == "swaphalf" || rapid.IntRange(0, 1).Draw(t, "bg") == 0 {
		// background liquidity across the whole range
		o := hist.Op{K: "mint", W: -1, A: new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(20, 100).Draw(t, "bgl")))}
		c.H.Ops = append([]hist.Op{o}, c.H.Ops...)
	}
	c.Tie = c.P.Kind == "swaphalf" && rapid.IntRange(0, 3).Draw(t, "tie") == 0
	n := rapid.IntRange(1, most).Draw(t, "nops")
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sop {
		k := rapid.SampledFrom(opKinds).Draw(t, "k")
		if k == "mkt" {
			return sop{K: k, O: genMkt(t)}
		}
		if k == "to" {
			return sop{K: k, I: rapid.IntRange(0, 17).Draw(t, "i"), D: rapid.SampledFrom([]int{0, 0, 1, -1, 1000000}).Draw(t, "d")}
		}
		return sop{K: k}
	}), n, most).Draw(t, "ops")
	if rapid.IntRange(1, 150).Draw(t, "long") == 1 { // a long run
		one, stride := c.Ops, rapid.IntRange(-9, 9).Draw(t, "stride")
		for k, n := 1, rapid.IntRange(2, max(3, 300/len(one))).Draw(t, "rep"); k < n; k++ {
			for _, o := range one {
				if o.O != nil {
					x := *o.O
					o.O = &x
					x.Lo += k * stride
					x.I += k
					x.Z = x.Z != (k%2 == 1)
				}
				o.I += k
				c.Ops = append(c.Ops, o)
			}
		}
	}
	if c.P.NeedsPrices() && rapid.IntRange(0, 2).Draw(t, "volatile") > 0 { // a history that moves
		pre := []sop{{K: "snap"}}
		var moves []*hist.Op
		for i := 1; i < c.P.N; i++ {
			if i < 12 {
				moves = append(moves, genMkt(t))
			}
			pre = append(pre, sop{K: "mkt", O: moves[(i-1)%len(moves)]}, sop{K: "snap"})
		}
		c.Ops, c.Late = append(append(pre, sop{K: "go"}), c.Ops...), true
	}
	if rapid.IntRange(0, 2).Draw(t, "tour") == 0 { // fees of both tokens, then out of the range on one side
		k := rapid.IntRange(0, 3).Draw(t, "tk")
		tour := []sop{{K: "go"}, {K: "to", I: 3}, {K: "to", I: k}, {K: "to", I: 2}, {K: "to", I: 1 - k&1, D: 1}}
		if rapid.Bool().Draw(t, "tf") {
			tour = append(tour, sop{K: "to", I: rapid.IntRange(0, 15).Draw(t, "ti"), D: rapid.SampledFrom([]int{-1, 0, 1, 1000000000}).Draw(t, "td")})
		}
		if rapid.Bool().Draw(t, "tb") {
			tour = append(tour, sop{K: "mkt", O: genMkt(t)})
		}
		if c.P.NeedsPrices() && rapid.Bool().Draw(t, "ts") { // the history records the edges
			var x []sop
			for _, o := range tour {
				if x = append(x, o); o.K == "to" {
					x = append(x, sop{K: "snap"})
				}
			}
			tour = append(x, sop{K: "go"})
		}
		c.Ops = append(c.Ops, tour...)
	}
	return c
}

// world is a real strategy and its reference in lockstep.
type world struct {
	c       *scase
	r       *engine.Rec
	S       strategy.Strategy
	Ref     *sref.Ref
	mk      *hist.Pair // the market side of the strategy's pool
	started bool
	stop    bool // outside the domain, or the market itself diverged
	trades  int
	moved   int // market operations since the last (re)start that changed the price
	// amounts returned by the last strategy operation
	got, want [2]*big.Int
	gotNil    bool
	wantNil   bool
	name      string
}

func begin(c *scase, r *engine.Rec) *world {
	pre := hist.New(&c.H, r)
	pre.Rec = r
	w := &world{c: c, r: r}
	for i := range c.H.Ops {
		if err := pre.Apply(&c.H.Ops[i]); err != nil {
			r.Class("market-diverged")
			w.stop = true
			return w
		}
	}
	if c.Tie {
		c.P.TieAt(pre.M)
	}
	w.S = c.P.Real(pre.S)
	w.Ref = sref.New(c.P, pre.M)
	w.mk = &hist.Pair{S: w.S.GetPool(), M: w.Ref.M, T0: pre.T0, Tok: pre.Tok, Rec: r, LiveExt: append([]model.Range{}, pre.LiveExt...)}
	return w
}

// call runs one operation on the reference and on the real strategy.
func (w *world) call(name string, ref func() (*big.Int, *big.Int, error), real func() (*ui.Int, *ui.Int)) error {
	before := fmt.Sprintf("%s (%s) with cash %v/%v at tick %d price %v", name, w.c.P.Kind, w.Ref.C0, w.Ref.C1, w.Ref.M.Tick, w.Ref.M.P)
	w.name = before
	a, b, err := ref()
	if err != nil {
		if errors.Is(err, sref.ErrDomain) || errors.Is(err, model.ErrRevert) {
			w.stop = true
			w.r.Class("outside-domain")
			return nil
		}
		return err
	}
	var x, y *ui.Int
	if pv := engine.Try(func() { x, y = real() }); pv != nil {
		return fmt.Errorf("%s panicked: %v", before, pv)
	}
	w.wantNil, w.gotNil = a == nil, x == nil || y == nil
	w.got, w.want = [2]*big.Int{}, [2]*big.Int{a, b}
	if !w.gotNil {
		w.got = [2]*big.Int{conv.S(x), conv.S(y)}
	}
	return nil
}

func (w *world) retEq() error {
	if w.wantNil {
		return nil // the strategy that provides nothing reports nothing when rebalancing
	}
	if w.gotNil {
		return fmt.Errorf("%s returned nothing, want %v/%v", w.name, w.want[0], w.want[1])
	}
	for i := 0; i < 2; i++ {
		if w.got[i].Cmp(w.want[i]) != 0 {
			return fmt.Errorf("%s returned %v/%v, want %v/%v", w.name, w.got[0], w.got[1], w.want[0], w.want[1])
		}
	}
	return nil
}

// cash reads the exported Amount0/Amount1 fields, if the strategy has them.
func (w *world) cash() (x, y *big.Int, ok bool) {
	v := reflect.Indirect(reflect.ValueOf(w.S))
	if v.Kind() != reflect.Struct {
		return
	}
	f := func(n string) *big.Int {
		a := v.FieldByName(n)
		if !a.IsValid() || !a.CanInterface() {
			return nil
		}
		if u, k := a.Interface().(*ui.Int); k && u != nil {
			return conv.S(u)
		}
		return nil
	}
	x, y = f("Amount0"), f("Amount1")
	return x, y, x != nil && y != nil
}

func (w *world) cashEq() error {
	x, y, ok := w.cash()
	if ok && (x.Cmp(w.Ref.C0) != 0 || y.Cmp(w.Ref.C1) != 0) {
		return fmt.Errorf("after %s: cash is %v/%v, want %v/%v", w.name, x, y, w.Ref.C0, w.Ref.C1)
	}
	return nil
}

func (w *world) amounts() (*big.Int, *big.Int, error) {
	var x, y *ui.Int
	if pv := engine.Try(func() { x, y = w.S.GetAmounts() }); pv != nil {
		return nil, nil, fmt.Errorf("GetAmounts after %s panicked: %v", w.name, pv)
	}
	return conv.S(x), conv.S(y), nil
}

func (w *world) amountsEq() error {
	x, y, err := w.amounts()
	if err != nil {
		return err
	}
	a, b := w.Ref.Amounts()
	if x.Cmp(a) != 0 || y.Cmp(b) != 0 {
		return fmt.Errorf("after %s: reported amounts %v/%v, want %v/%v (cash %v/%v plus what burning the positions %v releases)", w.name, x, y, a, b, w.Ref.C0, w.Ref.C1, w.Ref.Pos)
	}
	return nil
}

// step runs one operation; strategy tells whether it was one of the strategy's.
func (w *world) step(o sop) (strat bool, err error) {
	switch o.K {
	case "mkt":
		p := model.Cp(w.Ref.M.P)
		w.mk.S = w.S.GetPool()
		if e := w.mk.Apply(o.O); e != nil {
			w.r.Class("market-diverged")
			w.stop = true
			return false, nil
		}
		if w.Ref.M.P.Cmp(p) != 0 {
			w.trades++
			w.moved++
		}
		w.name = "market operation " + o.O.K
		return false, nil
	case "edge": // move the price to where a volatility band just reaches an end of the price range
		if !w.c.P.NeedsVol() || !w.Ref.Filled() {
			return false, nil
		}
		sv := w.Ref.BandWidth()
		lim := model.Add(model.Sub(model.MaxSqrt, sv), big.NewInt(int64(o.D)))
		if o.Z {
			lim = model.Add(model.Add(model.MinSqrt, sv), big.NewInt(int64(o.D)))
		}
		w.mk.S = w.S.GetPool()
		if _, ok := w.Ref.M.ResolveLimit(o.Z, lim); ok && lim.Sign() > 0 {
			if e := w.mk.Swap(o.Z, false, model.Cp(model.MaxI), lim); e != nil {
				w.r.Class("market-diverged")
				w.stop = true
			} else if w.Ref.M.P.Cmp(lim) == 0 {
				w.r.Class("price-at-band-edge")
			}
		}
		return false, nil
	case "to": // trade to an edge of one of the strategy's ranges, or just beyond it
		if len(w.Ref.Pos) == 0 && o.I%18 < 16 {
			return false, nil
		}
		var n int
		if s := w.Ref.M.Spacing; o.I%18 < 16 {
			rg := w.Ref.Pos[(o.I/4)%len(w.Ref.Pos)].R
			n = []int{rg.Lo, rg.Hi, (rg.Lo + rg.Hi) / 2, w.Ref.M.Tick + 1}[o.I%4]
		} else if n = model.FloorTick(w.Ref.M.Tick, s); o.I%18 == 17 { // a usable tick
			n += s
		}
		if n < model.MinTick || n > model.MaxTick {
			return false, nil
		}
		lim := model.Add(model.SqrtRatioAtTick(n), big.NewInt(int64(o.D)))
		z := lim.Cmp(w.Ref.M.P) < 0
		if _, ok := w.Ref.M.ResolveLimit(z, lim); !ok || lim.Sign() <= 0 {
			return false, nil
		}
		p := model.Cp(w.Ref.M.P)
		w.mk.S = w.S.GetPool()
		if e := w.mk.Swap(z, false, model.Cp(model.MaxI), lim); e != nil {
			w.r.Class("market-diverged")
			w.stop = true
			return false, nil
		}
		if w.Ref.M.P.Cmp(p) != 0 {
			w.trades++
			w.moved++
			w.r.Class("traded-to-range-edge")
		}
		w.name = "trade to a range edge"
		return false, nil
	case "snap":
		return false, w.snap()
	case "amounts":
		_, _, err := w.amounts()
		return false, err
	case "go": // start, later rebalance
		w.moved = 0
		if !w.started {
			for w.c.P.NeedsPrices() && !w.Ref.Filled() && !w.stop {
				if err := w.snap(); err != nil {
					return false, err
				}
			}
			if w.stop {
				return false, nil
			}
			w.started = true
			w.r.Class("init:" + w.c.P.Kind)
			return true, w.call("Init", w.Ref.Init, w.S.Init)
		}
		w.r.Class("rebalance:" + w.c.P.Kind)
		return true, w.call("Rebalance", w.Ref.Rebalance, w.S.Rebalance)
	case "close":
		if !w.started {
			return false, nil
		}
		w.r.Class("close:" + w.c.P.Kind)
		return true, w.call("BurnAll", w.Ref.BurnAll, w.S.BurnAll)
	}
	return false, fmt.Errorf("harness: unknown op %q", o.K)
}

func (w *world) snap() error {
	if err := w.Ref.Snapshot(); err != nil {
		w.stop = true
		w.r.Class("outside-domain")
		return nil
	}
	if pv := engine.Try(w.S.MakeSnapshot); pv != nil {
		return fmt.Errorf("MakeSnapshot at price %v panicked: %v", w.Ref.M.P, pv)
	}
	w.name = "snapshot"
	return nil
}

func (w *world) poolEq(scan bool) error {
	w.mk.S = w.S.GetPool()
	if err := w.mk.Compare(); err != nil {
		return fmt.Errorf("pool after %s: %w", w.name, err)
	}
	if err := w.mk.TickState(); err != nil {
		return fmt.Errorf("pool after %s: %w", w.name, err)
	}
	if scan {
		if err := w.mk.NoExtraTicks(); err != nil {
			return fmt.Errorf("pool after %s: %w", w.name, err)
		}
	}
	return nil
}

func stratClasses(w *world) {
	if w.Ref == nil {
		return
	}
	if len(w.Ref.Pos) > 1 {
		w.r.Class("several-positions")
		seen := map[model.Range]bool{}
		for _, q := range w.Ref.Pos {
			if seen[q.R] {
				w.r.Class("one-range-twice:" + w.c.P.Kind)
			}
			seen[q.R] = true
		}
	}
	if w.Ref.Held > 0 {
		w.r.Class("held-tokens")
	}
	if w.Ref.Swaps > 0 {
		w.r.Class("strategy-swapped")
	}
}

// ------------------------------------------------------------- C22 tokens

var allOps = []string{"mkt", "mkt", "mkt", "to", "to", "go", "go", "snap", "close", "amounts"}

func TestC22(t *testing.T) {
	engine.Check(t, "C22", engine.Spec[scase]{
		Sub:  "holdings after every operation",
		Rule: "a random market, one of the twelve strategies with random parameters and starting amounts (also zero, one-sided, 1 USDC/1 USD of WETH), then 1-14 (one in 150: up to 300) random market operations, trades to the edges of the ranges (exactly, one unit before or after), starts/rebalances, price snapshots, valuations and closings; after each operation the strategy's cash, its reported amounts and the amounts it returned must equal those of the reference strategy on the reference pool and be non-negative; non-trivial: a position was open while the price moved and the strategy acted afterwards",
		N:    14000,
		Gen:  func(t *rapid.T) scase { return gen(t, sref.Kinds, allOps, 14) },
		Run:  runC22,
	})
	engine.Check(t, "C22", engine.Spec[scase]{
		Sub:  "closed market round trip",
		Rule: "the same without trades between the strategy's own operations: start, 0-5 rebalances, close; the total returned is at most what it started with and short of it by at most one unit of each token per position opened (for the strategy that swaps: not more of both tokens than at the start); judged from the code's own numbers; non-trivial: at least one position was opened",
		N:    6000,
		Gen: func(t *rapid.T) scase {
			c := gen(t, sref.Kinds, []string{"go"}, 6)
			c.Ops = c.Ops[:1+rapid.IntRange(0, 5).Draw(t, "cut")%len(c.Ops)]
			c.Late = true
			for i := range c.Ops {
				c.Ops[i] = sop{K: "go"}
			}
			return c
		},
		Run: runClosed,
	})
}

func runC22(c scase, r *engine.Rec) error {
	w := begin(&c, r)
	nt := false
	for _, o := range c.Ops {
		if w.stop {
			break
		}
		open := w.started && len(w.Ref.Pos) > 0 && w.moved > 0
		st, err := w.step(o)
		if err != nil {
			return err
		}
		if w.stop {
			break
		}
		if st {
			nt = nt || open
			if err := w.retEq(); err != nil {
				return err
			}
			if !w.gotNil {
				for i := 0; i < 2; i++ {
					if w.got[i].Sign() < 0 {
						return fmt.Errorf("%s returned a negative amount: %v/%v", w.name, w.got[0], w.got[1])
					}
				}
			}
		}
		if err := w.cashEq(); err != nil {
			return err
		}
		if err := w.amountsEq(); err != nil {
			return err
		}
		x, y, _ := w.amounts()
		if x.Sign() < 0 || y.Sign() < 0 {
			return fmt.Errorf("after %s: negative holdings %v/%v", w.name, x, y)
		}
	}
	stratClasses(w)
	if nt {
		r.NonTrivial()
	}
	return nil
}

func runClosed(c scase, r *engine.Rec) error {
	w := begin(&c, r)
	for _, o := range append(append([]sop{}, c.Ops...), sop{K: "close"}) {
		if w.stop {
			return nil
		}
		if _, err := w.step(o); err != nil {
			return err
		}
	}
	if w.stop || w.gotNil {
		return nil
	}
	stratClasses(w)
	if w.Ref.Opened > 0 {
		r.NonTrivial()
	}
	start := [2]*big.Int{c.P.A0, c.P.A1}
	if w.Ref.Swaps > 0 {
		if w.got[0].Cmp(start[0]) > 0 && w.got[1].Cmp(start[1]) > 0 {
			return fmt.Errorf("%s swapped and ended with more of both tokens: %v/%v from %v/%v", c.P.Kind, w.got[0], w.got[1], start[0], start[1])
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		lost := model.Sub(start[i], w.got[i])
		if lost.Sign() < 0 || lost.Cmp(big.NewInt(int64(w.Ref.Opened))) > 0 {
			return fmt.Errorf("%s without trades: started with %v/%v, ended with %v/%v after opening %d positions", c.P.Kind, start[0], start[1], w.got[0], w.got[1], w.Ref.Opened)
		}
	}
	return nil
}

// ------------------------------------------------------------- C23 ranges

func TestC23(t *testing.T) {
	for _, k := range sref.Kinds {
		k := k
		engine.Check(t, "C23", engine.Spec[scase]{
			Sub:  "ranges of " + k,
			Rule: "random market, parameters and operations (as C22) for this strategy; after every start, rebalance and closing, the pool's price, active liquidity, set of initialised ticks and each tick's net and gross liquidity must be those of the reference rule on the reference pool (so exactly the prescribed ranges with the largest affordable liquidity, and no other liquidity of the strategy); non-trivial: the strategy opened a position, except the one that never does: market moved",
			N:    1100,
			Gen: func(t *rapid.T) scase {
				return gen(t, []string{k}, []string{"mkt", "mkt", "to", "go", "go", "snap", "close"}, 10)
			},
			Run: runC23,
		})
	}
}

type limits interface {
	GetCurrentLimitTick() int
	GetDirections() bool
}

func runC23(c scase, r *engine.Rec) error {
	w := begin(&c, r)
	for i, o := range append([]sop{{K: "go"}}, c.Ops...) {
		if w.stop {
			break
		}
		if i == 0 && (len(c.Ops)%2 == 0 || c.Late) {
			continue // half of the time the market moves first
		}
		st, err := w.step(o)
		if err != nil {
			return err
		}
		if w.stop {
			break
		}
		if st {
			if err := w.poolEq(w.Ref.Opened > 0); err != nil {
				return err
			}
			if l, ok := w.S.(limits); ok && w.Ref.LimitSet && o.K == "go" {
				if l.GetCurrentLimitTick() != w.Ref.Limit || l.GetDirections() != w.Ref.Dir {
					return fmt.Errorf("after %s: limit order reported at tick %d (token0 %v), want %d (%v)", w.name, l.GetCurrentLimitTick(), l.GetDirections(), w.Ref.Limit, w.Ref.Dir)
				}
				if d, ok := w.S.(interface{ GetDirection() bool }); ok && d.GetDirection() != w.Ref.Dir {
					return fmt.Errorf("after %s: limit order's direction reported as %v, want %v", w.name, d.GetDirection(), w.Ref.Dir)
				}
			}
		}
	}
	stratClasses(w)
	if w.Ref != nil && (w.Ref.Opened > 0 || (c.P.Kind == "none" && w.trades > 0)) {
		r.NonTrivial()
	}
	return nil
}

// ------------------------------------------------------------- C24 closing

func TestC24(t *testing.T) {
	engine.Check(t, "C24", engine.Spec[scase]{
		Sub:  "closing",
		Rule: "random market, strategy and operations, then a closing: it must return the reference's cash, principal and fees, at least the amounts reported just before, leave no tick, liquidity or uncollected token of the strategy in the pool; valuing and closing again must report the same amounts, and a later rebalance must start from them; non-trivial: at least one position was open at the closing",
		N:    9000,
		Gen:  func(t *rapid.T) scase { return gen(t, sref.Kinds, allOps, 10) },
		Run:  runC24,
	})
	engine.Check(t, "C24", engine.Spec[scase]{
		Sub:  "rebalance reports the closing amounts",
		Rule: "two copies of one strategy history; at the same moment one rebalances and the other closes: the amounts returned must be equal (not applicable to the strategy that provides nothing); non-trivial: a position was open",
		N:    5000,
		Gen:  func(t *rapid.T) scase { return gen(t, sref.Kinds[1:], allOps, 10) },
		Run:  runTwin,
	})
}

func (w *world) run(ops []sop) error {
	if !w.stop && !w.c.Late {
		if _, err := w.step(sop{K: "go"}); err != nil {
			return err
		}
	}
	for _, o := range ops {
		if w.stop {
			return nil
		}
		if _, err := w.step(o); err != nil {
			return err
		}
	}
	return nil
}

func runTwin(c scase, r *engine.Rec) error {
	a, b := begin(&c, r), begin(&c, r)
	if err := a.run(c.Ops); err != nil {
		return err
	}
	if err := b.run(c.Ops); err != nil {
		return err
	}
	if a.stop || b.stop {
		return nil
	}
	stratClasses(a)
	n := len(a.Ref.Pos)
	if _, err := a.step(sop{K: "go"}); err != nil {
		return err
	}
	if _, err := b.step(sop{K: "close"}); err != nil {
		return err
	}
	if a.stop || b.stop {
		return nil
	}
	if n > 0 {
		r.NonTrivial()
	}
	if a.gotNil || b.gotNil {
		return fmt.Errorf("%s or %s returned nothing", a.name, b.name)
	}
	for i := 0; i < 2; i++ {
		if a.got[i].Cmp(b.got[i]) != 0 {
			return fmt.Errorf("%s reported %v/%v, but closing at the same moment returns %v/%v", a.name, a.got[0], a.got[1], b.got[0], b.got[1])
		}
	}
	return nil
}

func runC24(c scase, r *engine.Rec) error {
	w := begin(&c, r)
	if err := w.run(c.Ops); err != nil {
		return err
	}
	if w.stop {
		return nil
	}
	stratClasses(w)
	x, y, err := w.amounts()
	if err != nil {
		return err
	}
	n := len(w.Ref.Pos)
	if n > 0 {
		r.NonTrivial()
	}
	before := []*big.Int{x, y}
	for round := 0; round < 2; round++ {
		if _, err := w.step(sop{K: "close"}); err != nil {
			return err
		}
		if w.stop {
			return nil
		}
		if round == 1 {
			w.name += " (closing again)"
		}
		if err := w.retEq(); err != nil {
			return err
		}
		if err := w.cashEq(); err != nil {
			return err
		}
		for i := 0; i < 2; i++ {
			if w.got[i].Cmp(before[i]) < 0 {
				return fmt.Errorf("%s returned %v/%v, less than the %v/%v reported just before", w.name, w.got[0], w.got[1], before[0], before[1])
			}
		}
		if w.got[0].Cmp(before[0]) > 0 || w.got[1].Cmp(before[1]) > 0 {
			r.Class("fees-collected")
		}
		if err := w.poolEq(true); err != nil { // no tick, liquidity of the strategy is left
			return err
		}
		// nothing uncollected
		cl := w.S.GetPool().Clone()
		for rg := range w.Ref.Ever {
			var a, b *ui.Int
			if pv := engine.Try(func() { a, b = cl.CollectStrategy(rg.Lo, rg.Hi) }); pv == nil && a != nil && b != nil && (!a.IsZero() || !b.IsZero()) {
				return fmt.Errorf("%s left %v/%v uncollected in [%d,%d]", w.name, conv.S(a), conv.S(b), rg.Lo, rg.Hi)
			}
		}
		if err := w.amountsEq(); err != nil {
			return err
		}
		a, b, err := w.amounts()
		if err != nil {
			return err
		}
		if a.Cmp(w.got[0]) != 0 || b.Cmp(w.got[1]) != 0 {
			return fmt.Errorf("%s returned %v/%v, but is valued at %v/%v afterwards", w.name, w.got[0], w.got[1], a, b)
		}
		before = []*big.Int{w.got[0], w.got[1]}
	}
	if c.P.Kind == "none" {
		return nil
	}
	if _, err := w.step(sop{K: "go"}); err != nil {
		return err
	}
	if w.stop {
		return nil
	}
	w.name += " (after closing)"
	if err := w.retEq(); err != nil {
		return err
	}
	return w.poolEq(false)
}

// ------------------------------------------------------------- C32 valid positions

func TestC32(t *testing.T) {
	for _, k := range sref.Kinds[1:] {
		k := k
		engine.Check(t, "C32", engine.Spec[scase]{
			Sub:  "positions of " + k,
			Rule: "random market (prices anywhere, also at the ends of the range, with and without liquidity, 0-4 volatile or constant snapshots), random parameters including widths below half a spacing, huge and negative widths, and zero or tiny amounts; no start, rebalance, valuation or closing may fail, and afterwards every initialised tick lies inside the range and is a multiple of the spacing, the net liquidity sums to zero and the liquidity of the pool is that of valid positions only (below 2^128, never negative); non-trivial: the strategy opened a position or had to hold its tokens",
			N:    1000,
			Gen: func(t *rapid.T) scase {
				c := gen(t, []string{k}, []string{"mkt", "mkt", "to", "go", "go", "snap", "close", "amounts"}, 8)
				if rapid.IntRange(0, 2).Draw(t, "edge") == 0 && !c.P.NeedsPrices() {
					if rapid.Bool().Draw(t, "side") {
						c.H.Tick = rapid.IntRange(model.MinTick, model.MinTick+300).Draw(t, "et")
					} else {
						c.H.Tick = rapid.IntRange(model.MaxTick-300, model.MaxTick-1).Draw(t, "et")
					}
				}
				if k == "volatility" && rapid.IntRange(0, 3).Draw(t, "bandedge") == 0 {
					c.H.Tick = rapid.IntRange(-800000, 200000).Draw(t, "bt")
					e := []sop{{K: "snap"}, {K: "mkt", O: genMkt(t)}, {K: "snap"}, {K: "mkt", O: genMkt(t)}, {K: "go"}, {K: "edge", Z: rapid.Bool().Draw(t, "bz"), D: rapid.IntRange(-1, 1).Draw(t, "bd")}, {K: "go"}}
					c.Ops = append(e, c.Ops...)
				}
				if rapid.IntRange(0, 3).Draw(t, "narrow") == 0 {
					c.P.W = rapid.IntRange(0, 110).Draw(t, "nw")
				}
				return c
			},
			Run: runC32,
		})
	}
}

func runC32(c scase, r *engine.Rec) error {
	w := begin(&c, r)
	for i, o := range append([]sop{{K: "go"}}, c.Ops...) {
		if w.stop {
			break
		}
		if i == 0 && (len(c.Ops)%2 == 0 || c.Late) {
			continue
		}
		st, err := w.step(o)
		if err != nil {
			return err
		}
		if w.stop || !st {
			continue
		}
		if err := w.validTicks(); err != nil {
			return err
		}
	}
	stratClasses(w)
	if w.Ref != nil && w.Ref.Opened+w.Ref.Held > 0 {
		r.NonTrivial()
	}
	return nil
}

// validTicks inspects the real pool's ticks.
func (w *world) validTicks() error {
	p := w.S.GetPool()
	s := w.Ref.M.Spacing
	sum := new(big.Int)
	t := model.MinTick
	check := func(n int) error {
		if n < model.MinTick || n > model.MaxTick || n%s != 0 {
			return fmt.Errorf("after %s: a position is bounded by tick %d, which no pool of spacing %d accepts", w.name, n, s)
		}
		var net, gross *ui.Int
		if pv := engine.Try(func() { x := p.TickData.GetTick(n); net, gross = x.LiquidityNet, x.LiquidityGross }); pv != nil {
			return fmt.Errorf("after %s: tick %d: %v", w.name, n, pv)
		}
		if conv.S(gross).Sign() <= 0 || conv.S(gross).BitLen() > 128 {
			return fmt.Errorf("after %s: tick %d has gross liquidity %v", w.name, n, conv.S(gross))
		}
		sum.Add(sum, conv.S(net))
		return nil
	}
	// the lowest tick itself is not found by a search upwards from it
	if n, init := p.TickData.NextInitializedTickWithinOneWord(t, true); init && n == t {
		if err := check(n); err != nil {
			return err
		}
	}
	for t < model.MaxTick {
		n, init := p.TickData.NextInitializedTickWithinOneWord(t, false)
		if n <= t {
			return fmt.Errorf("tick search upward from %d returned %d", t, n)
		}
		if init {
			if err := check(n); err != nil {
				return err
			}
		}
		t = n
	}
	if sum.Sign() != 0 {
		return fmt.Errorf("after %s: the net liquidity of all ticks sums to %v: a position's bound lies outside the usable ticks", w.name, sum)
	}
	l := conv.S(p.Liquidity)
	if l.Sign() < 0 || l.BitLen() > 128 {
		return fmt.Errorf("after %s: active liquidity %v", w.name, l)
	}
	return nil
}
