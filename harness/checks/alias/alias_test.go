package aliaschk

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	g "verifharness/gen"
	"verifharness/hist"
	"verifharness/model"
	"verifharness/sref"

	cons "uniswap-simulator/lib/constants"
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/fullmath"
	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/position"
	"uniswap-simulator/lib/prices"
	sm "uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/strategy"
	"uniswap-simulator/lib/swapmath"
	"uniswap-simulator/lib/tickdata"
	"uniswap-simulator/lib/tickmath"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

// ---- package-level constants and tables

type watched struct {
	name string
	x    *ui.Int
	v    ui.Int
}

var consts []watched
var spaces = map[int]int{}
var table [][4]uint64 // every tick's price, as found at the start
var tablePtr []*ui.Int
var tableShared bool // the table hands out shared numbers

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func init() {
	e := func(b int64, n int64) *big.Int { return new(big.Int).Exp(big.NewInt(b), big.NewInt(n), nil) }
	for _, c := range []struct {
		n string
		x *ui.Int
		v *big.Int
	}{
		{"constants.NegativeOne", cons.NegativeOne, model.Max256},
		{"constants.Zero", cons.Zero, big.NewInt(0)},
		{"constants.One", cons.One, big.NewInt(1)},
		{"constants.MaxUint256", cons.MaxUint256, model.Max256},
		{"constants.Q128", cons.Q128, pow2(128)},
		{"constants.Q96", cons.Q96, pow2(96)},
		{"constants.Q192", cons.Q192, pow2(192)},
		{"constants.E6", cons.E6, e(10, 6)},
		{"constants.E18", cons.E18, e(10, 18)},
		{"tickmath.Q32", tickmath.Q32, pow2(32)},
		{"tickmath.MinSqrtRatio", tickmath.MinSqrtRatio, model.MinSqrt},
		{"tickmath.MaxSqrtRatio", tickmath.MaxSqrtRatio, model.MaxSqrt},
		{"swapmath.MaxFee", swapmath.MaxFee, e(10, 6)},
		{"sqrtprice_math.MaxUint160", sm.MaxUint160, model.Sub(pow2(160), big.NewInt(1))},
	} {
		consts = append(consts, watched{c.n, c.x, *conv.U(c.v)})
	}
	for k, v := range cons.TickSpaces {
		spaces[k] = v
	}
}

func loadTable() {
	if table != nil {
		return
	}
	n := model.MaxTick - model.MinTick + 1
	table = make([][4]uint64, n)
	tablePtr = make([]*ui.Int, n)
	for i := 0; i < n; i++ {
		x := tickmath.TM.GetSqrtRatioAtTick(model.MinTick + i)
		table[i] = *x
		tablePtr[i] = x
	}
	tableShared = tickmath.TM.GetSqrtRatioAtTick(5) == tablePtr[5-model.MinTick]
	if !tableShared {
		tablePtr = nil
	}
}

// constantsHold checks every package-level constant and table, and puts
// corrupted ones right so that later cases (and shrinking) start clean.
func constantsHold(after string) (err error) {
	for i := range consts {
		c := &consts[i]
		if *c.x != c.v {
			got := conv.B(c.x)
			*c.x = c.v
			err = fmt.Errorf("after %s: %s was changed from %v to %v", after, c.name, conv.B(&c.v), got)
		}
	}
	bad := len(cons.TickSpaces) != len(spaces)
	for k, v := range spaces {
		bad = bad || cons.TickSpaces[k] != v
	}
	if bad {
		err = fmt.Errorf("after %s: constants.TickSpaces was changed from %v to %v", after, spaces, cons.TickSpaces)
		for k := range cons.TickSpaces {
			delete(cons.TickSpaces, k)
		}
		for k, v := range spaces {
			cons.TickSpaces[k] = v
		}
	}
	return
}

func tableHolds(after string) (err error) {
	loadTable()
	for i, p := range tablePtr {
		if *p != table[i] {
			got := conv.B(p)
			*p = table[i]
			err = fmt.Errorf("after %s: the price table entry of tick %d was changed from %v to %v", after, model.MinTick+i, conv.B((*ui.Int)(&table[i])), got)
		}
	}
	if err == nil && tablePtr == nil { // copies are handed out: sample
		for i := 0; i < len(table); i += 997 {
			if x := tickmath.TM.GetSqrtRatioAtTick(model.MinTick + i); *x != table[i] {
				return fmt.Errorf("after %s: the price of tick %d changed", after, model.MinTick+i)
			}
		}
	}
	return
}

// ---- numbers passed in and handed out

type registry struct {
	ws  []watched
	in  map[string]*ui.Int // one object per value: reused between calls and positions
	r   *engine.Rec
	cur string
}

func newReg(r *engine.Rec) *registry { return &registry{in: map[string]*ui.Int{}, r: r} }

func (g *registry) watch(name string, x *ui.Int) {
	if x != nil {
		g.ws = append(g.ws, watched{name, x, *x})
	}
}

// arg returns the object of this value, the same one every time.
func (g *registry) arg(b *big.Int) *ui.Int {
	k := new(big.Int).Mod(b, conv.B256).Text(62)
	x, ok := g.in[k]
	if ok {
		g.r.Class("argument-object-reused")
		return x
	}
	x = conv.U(b)
	if x.IsZero() { // callers pass the constants themselves
		x = cons.Zero
	}
	g.in[k] = x
	g.watch("argument of "+g.cur, x)
	return x
}

func (g *registry) holds(after string) error {
	for _, w := range g.ws {
		if *w.x != w.v {
			return fmt.Errorf("after %s: the %s changed from %v to %v", after, w.name, conv.B(&w.v), conv.B(w.x))
		}
	}
	return constantsHold(after)
}

// ---- pool histories

func poolCase(c hist.Case, r *engine.Rec) error {
	reg := newReg(r)
	loadTable()
	price := g.PriceAt(c.Tick, c.Frac)
	reg.cur = "NewPool"
	t0, t1 := hist.Names(c.Tok)
	s := pool.NewPool(t0, t1, c.Fee, reg.arg(price))
	if c.FG0 != nil {
		s.FeeGrowthGlobal0X128, s.FeeGrowthGlobal1X128 = conv.U(c.FG0), conv.U(c.FG1)
	}
	pr := &hist.Pair{S: s, M: model.NewPool(c.Fee, price), Rec: r, Tok: c.Tok, Loose: true}
	if c.FG0 != nil {
		pr.M.FG0, pr.M.FG1 = model.Cp(c.FG0), model.Cp(c.FG1)
	}
	pr.T0 = pr.M.Tick
	pr.ArgF = reg.arg
	pr.Rets = func(x *ui.Int) { reg.watch("amount returned by "+reg.cur, x) }
	for i := range c.Ops {
		reg.cur = fmt.Sprintf("operation %d (%s)", i, c.Ops[i].K)
		if err := pr.Apply(&c.Ops[i]); err != nil {
			return err
		}
		if err := reg.holds(reg.cur); err != nil {
			return err
		}
		if pr.Broken {
			r.Class("market-diverged")
			break
		}
	}
	if pr.Swaps > 0 && pr.CrossSw > 0 || pr.PosOps > 1 {
		r.NonTrivial()
	}
	return tableHolds("the history")
}

// ---- strategies

type scase struct {
	H   hist.Case   `json:"h"`
	P   sref.Params `json:"p"`
	Ops []sop       `json:"ops"`
}
type sop struct {
	K string   `json:"k"`
	O *hist.Op `json:"o,omitempty"`
}

func genStrat(t *rapid.T) scase {
	c := scase{H: hist.Gen(t, &hist.Weights{Kinds: []string{"mint", "mint", "swap"}, Max: 4, Out: 10})}
	c.H.Ops = append([]hist.Op{{K: "mint", W: -1, A: g.PosLogU(t, 90)}}, c.H.Ops...)
	c.P = sref.Params{Kind: rapid.SampledFrom(sref.Kinds).Draw(t, "kind"), A0: g.LogU(t, 80), A1: g.LogU(t, 80), W: rapid.IntRange(10, 3000).Draw(t, "w"), B: rapid.IntRange(10, 3000).Draw(t, "b"), N: rapid.IntRange(2, 4).Draw(t, "n"), Mul: rapid.IntRange(1, 65535).Draw(t, "mul")}
	if rapid.IntRange(0, 3).Draw(t, "usual") == 0 {
		c.P.A0, c.P.A1 = big.NewInt(1000000), big.NewInt(366874042000000)
	}
	if c.P.NeedsPrices() && c.H.Tick > 255000 {
		c.H.Tick %= 255000
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sop {
		k := rapid.SampledFrom([]string{"mkt", "mkt", "mkt", "go", "go", "snap", "close", "amounts"}).Draw(t, "k")
		if k != "mkt" {
			return sop{K: k}
		}
		if rapid.IntRange(0, 5).Draw(t, "f") == 0 {
			return sop{K: k, O: &hist.Op{K: "flash", A: g.LogU(t, 60), A2: g.LogU(t, 60)}}
		}
		o := hist.GenSwap(t, 20)
		if o.AM == 3 {
			o.AM, o.AK, o.F = 2, 2, 130
		}
		return sop{K: k, O: &o}
	}), rapid.IntRange(2, 10).Draw(t, "nops"), 12).Draw(t, "ops")
	return c
}

func stratCase(c scase, r *engine.Rec) error {
	reg := newReg(r)
	loadTable()
	pre := hist.New(&c.H, r)
	pre.Loose = true
	for i := range c.H.Ops {
		if err := pre.Apply(&c.H.Ops[i]); err != nil {
			return err
		}
	}
	if pre.Broken {
		r.Class("market-diverged")
		return nil
	}
	// the numbers of the shared starting pool
	for n, x := range map[string]*ui.Int{"SqrtRatioX96": pre.S.SqrtRatioX96, "Liquidity": pre.S.Liquidity, "FeeGrowthGlobal0X128": pre.S.FeeGrowthGlobal0X128, "FeeGrowthGlobal1X128": pre.S.FeeGrowthGlobal1X128} {
		reg.watch("starting pool's "+n, x)
	}
	reg.cur = "strategy constructor"
	S := c.P.RealWith(pre.S, reg.arg)
	mk := &hist.Pair{S: S.GetPool(), M: pre.M.Clone(), T0: pre.T0, Tok: pre.Tok, Rec: r, Loose: true, LiveExt: append([]model.Range{}, pre.LiveExt...)}
	mk.ArgF = reg.arg
	mk.Rets = func(x *ui.Int) { reg.watch("amount returned by "+reg.cur, x) }
	ret := func(f func() (*ui.Int, *ui.Int)) {
		var a, b *ui.Int
		if engine.Try(func() { a, b = f() }) != nil {
			r.Class("strategy-refused")
			return
		}
		reg.watch("amount0 returned by "+reg.cur, a)
		reg.watch("amount1 returned by "+reg.cur, b)
		if a != nil && (!a.IsZero() || !b.IsZero()) {
			r.NonTrivial()
		}
	}
	started := false
	for i, o := range c.Ops {
		reg.cur = fmt.Sprintf("step %d (%s %s)", i, c.P.Kind, o.K)
		switch o.K {
		case "mkt":
			if mk.Broken {
				continue
			}
			if err := mk.Apply(o.O); err != nil {
				return err
			}
		case "snap":
			engine.Try(S.MakeSnapshot)
		case "amounts":
			ret(S.GetAmounts)
		case "close":
			if started {
				ret(S.BurnAll)
			}
		case "go":
			if !started {
				for k := 0; k < c.P.N; k++ {
					engine.Try(S.MakeSnapshot)
				}
				ret(S.Init)
				started = true
			} else {
				ret(S.Rebalance)
			}
		}
		if err := reg.holds(reg.cur); err != nil {
			return err
		}
	}
	if started {
		r.Class("strategy:" + c.P.Kind)
	}
	return tableHolds("the strategy run")
}

// ---- executions

type exCase struct {
	C      scase `json:"c"`
	Update int   `json:"u"`
	Snap   int   `json:"s"`
	Price  int   `json:"p"`
	Start  int   `json:"st"`
}

func exRun(c exCase, r *engine.Rec) error {
	reg := newReg(r)
	loadTable()
	pre := hist.New(&c.C.H, r)
	pre.Loose = true
	for i := range c.C.H.Ops {
		if err := pre.Apply(&c.C.H.Ops[i]); err != nil {
			return err
		}
	}
	if pre.Broken {
		r.Class("market-diverged")
		return nil
	}
	reg.cur = "event list"
	m := pre.M.Clone()
	mk := &hist.Pair{S: pre.S.Clone(), M: m, T0: pre.T0, Tok: pre.Tok, Rec: r, Loose: true, LiveExt: append([]model.Range{}, pre.LiveExt...)}
	var evs []ent.Transaction
	z := func(b *big.Int) *ui.Int { return reg.arg(b) }
	ts := 100
	for i := range c.C.Ops {
		o := c.C.Ops[i]
		ts += 1 + i%3
		if o.O == nil {
			o.O = &hist.Op{K: "mint", Lo: -5 - i, W: 10 + i, A: big.NewInt(int64(1000003 + i))}
		}
		k := len(mk.Log)
		if err := mk.Apply(o.O); err != nil {
			return err
		}
		if mk.Broken {
			break
		}
		if len(mk.Log) == k {
			continue
		}
		l := mk.Log[k]
		e := ent.Transaction{Timestamp: ts, ID: fmt.Sprint(i), Amount: z(model.Zero()), Amount0: z(model.Zero()), Amount1: z(model.Zero()), SqrtPriceX96: z(model.Zero())}
		switch l.K {
		case "mint", "burn":
			e.Type = map[string]string{"mint": "Mint", "burn": "Burn"}[l.K]
			e.Amount, e.TickLower, e.TickUpper = z(l.A), l.R.Lo, l.R.Hi
		case "flash":
			e.Type, e.Amount0, e.Amount1 = "Flash", z(l.A), z(l.A2)
		case "swap":
			e.Type, e.Amount0, e.Amount1 = "Swap", z(mk.Real[0]), z(mk.Real[1])
		default:
			continue
		}
		evs = append(evs, e)
	}
	if len(evs) == 0 {
		return nil
	}
	keep := append([]ent.Transaction{}, evs...)
	reg.cur = "strategy constructor"
	S := c.C.P.RealWith(pre.S, reg.arg)
	reg.cur = "the run"
	var ex *executor.Execution
	if engine.Try(func() {
		ex = executor.CreateExecution(&watching{S, reg}, 100+c.Start, 1<<40, c.Update, c.Snap, c.Price, evs)
		ex.Run()
	}) != nil {
		r.Class("run-refused")
	} else {
		r.Class("run:" + c.C.P.Kind)
		if len(evs) > 2 {
			r.NonTrivial()
		}
	}
	for i := range evs {
		if evs[i] != keep[i] {
			return fmt.Errorf("after the run: event %d of the list was replaced: %+v, was %+v", i, evs[i], keep[i])
		}
	}
	if err := reg.holds("the run"); err != nil {
		return err
	}
	return tableHolds("the run")
}

// watching is a strategy whose returned amounts are watched.
type watching struct {
	strategy.Strategy
	g *registry
}

func (w *watching) seen(name string, a, b *ui.Int) (*ui.Int, *ui.Int) {
	if len(w.g.ws) < 3000 {
		w.g.watch("amount0 returned by "+name, a)
		w.g.watch("amount1 returned by "+name, b)
	}
	return a, b
}
func (w *watching) Init() (*ui.Int, *ui.Int) {
	a, b := w.Strategy.Init()
	return w.seen("Init", a, b)
}
func (w *watching) Rebalance() (*ui.Int, *ui.Int) {
	a, b := w.Strategy.Rebalance()
	return w.seen("Rebalance", a, b)
}
func (w *watching) BurnAll() (*ui.Int, *ui.Int) {
	a, b := w.Strategy.BurnAll()
	return w.seen("BurnAll", a, b)
}
func (w *watching) GetAmounts() (*ui.Int, *ui.Int) {
	a, b := w.Strategy.GetAmounts()
	return w.seen("GetAmounts", a, b)
}

// ---- functions on numbers

type fn struct {
	name string
	n    int
	call func(a []*ui.Int, f int, b bool) []*ui.Int
}

func two(a, b *ui.Int) []*ui.Int { return []*ui.Int{a, b} }

var fns = []fn{
	{"ComputeSwapStep", 4, func(a []*ui.Int, f int, b bool) []*ui.Int {
		w, x, y, z := swapmath.ComputeSwapStep(a[0], a[1], a[2], a[3], f)
		return []*ui.Int{w, x, y, z}
	}},
	{"GetAmount0Delta", 3, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{sm.GetAmount0Delta(a[0], a[1], a[2], b)}
	}},
	{"GetAmount1Delta", 3, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{sm.GetAmount1Delta(a[0], a[1], a[2], b)}
	}},
	{"GetAmount0DeltaRounded", 3, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{sm.GetAmount0DeltaRounded(a[0], a[1], a[2])}
	}},
	{"GetAmount1DeltaRounded", 3, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{sm.GetAmount1DeltaRounded(a[0], a[1], a[2])}
	}},
	{"GetNextSqrtPriceFromInput", 3, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{sm.GetNextSqrtPriceFromInput(a[0], a[1], a[2], b)}
	}},
	{"GetNextSqrtPriceFromOutput", 3, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{sm.GetNextSqrtPriceFromOutput(a[0], a[1], a[2], b)}
	}},
	{"GetLiquidityForAmount", 5, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{la.GetLiquidityForAmount(a[0], a[1], a[2], a[3], a[4])}
	}},
	{"GetAmountsForLiquidity", 4, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return two(la.GetAmountsForLiquidity(a[0], a[1], a[2], a[3]))
	}},
	{"MulDiv", 3, func(a []*ui.Int, f int, b bool) []*ui.Int { return []*ui.Int{fullmath.MulDiv(a[0], a[1], a[2])} }},
	{"MulDivRoundingUp", 3, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{fullmath.MulDivRoundingUp(a[0], a[1], a[2])}
	}},
	{"GetTickAtSqrtRatio", 1, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{conv.U(big.NewInt(int64(tickmath.TM.GetTickAtSqrtRatio(a[0]))))}
	}},
	{"MostSignificantBit", 1, func(a []*ui.Int, f int, b bool) []*ui.Int {
		return []*ui.Int{ui.NewInt(tickmath.MostSignificantBit(a[0]))}
	}},
	{"Info.Update", 4, func(a []*ui.Int, f int, b bool) []*ui.Int {
		p := position.NewPosition()
		p.Update(a[0], a[1], a[2])
		p.Update(a[3], a[2], a[1])
		q := p.Clone()
		q.Update(a[0], a[3], a[3])
		return []*ui.Int{p.Liquidity, p.TokensOwed0, p.TokensOwed1, q.TokensOwed0, q.TokensOwed1}
	}},
	{"TickData", 4, func(a []*ui.Int, f int, b bool) []*ui.Int {
		td := tickdata.NewTickData(10)
		td.UpdateTick(-10, f%50, a[0], a[1], a[2], false)
		td.UpdateTick(20, f%50, a[0], a[1], a[2], true)
		td.UpdateTick(20, f%50, a[3], a[2], a[1], b)
		n := td.Cross(20, a[1], a[3])
		x, y := td.GetFeeGrowthInside(-10, 20, f%50, a[2], a[3])
		td.Cross(-10, a[2], a[2])
		return []*ui.Int{n.Clone(), x, y}
	}},
	{"Prices", 4, func(a []*ui.Int, f int, b bool) []*ui.Int {
		p := prices.NewPrices(3)
		for _, x := range a {
			p.Add(x)
		}
		av, v := p.Average(), p.Volatility()
		p.Add(a[0])
		p.Volatility()
		return two(av, v)
	}},
}

type fnCase struct {
	F    int        `json:"f"`
	Vals []*big.Int `json:"v"`
	Idx  []int      `json:"i"` // which value (object) each argument is
	Fee  int        `json:"fee"`
	B    bool       `json:"b"`
}

func genFn(t *rapid.T) fnCase {
	c := fnCase{F: rapid.IntRange(0, len(fns)-1).Draw(t, "f"), Fee: g.Fee(t), B: rapid.Bool().Draw(t, "b")}
	f := fns[c.F]
	n := rapid.IntRange(1, f.n).Draw(t, "nv")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 6).Draw(t, "vk") {
		case 0:
			c.Vals = append(c.Vals, g.U256(t))
		case 1:
			c.Vals = append(c.Vals, model.Zero())
		case 2:
			c.Vals = append(c.Vals, g.LogU(t, 115))
		case 3, 4:
			c.Vals = append(c.Vals, g.SqrtPrice(t))
		case 5:
			c.Vals = append(c.Vals, g.PriceAt(rapid.IntRange(-200, 200).Draw(t, "tk"), 0))
		default:
			c.Vals = append(c.Vals, new(big.Int).SetBit(new(big.Int), rapid.SampledFrom([]int{0, 32, 96, 128, 192}).Draw(t, "q"), 1))
		}
	}
	if n == 1 {
		c.Idx = make([]int, f.n)
	} else {
		c.Idx = rapid.SliceOfN(rapid.IntRange(0, n-1), f.n, f.n).Draw(t, "ix")
	}
	return c
}

func outcome(f func() []*ui.Int) (vals []*big.Int, pv interface{}) {
	pv = engine.Try(func() {
		for _, x := range f() {
			if x != nil {
				vals = append(vals, conv.B(x))
			} else {
				vals = append(vals, nil)
			}
		}
	})
	return
}

func fnRun(c fnCase, r *engine.Rec) error {
	f := fns[c.F]
	if len(c.Idx) < f.n {
		return nil
	}
	// one object per distinct value; constants are passed as the constants themselves
	objs := make([]*ui.Int, len(c.Vals))
	shared := map[string]*ui.Int{}
	for _, k := range consts {
		if _, ok := shared[conv.B(k.x).String()]; !ok {
			shared[conv.B(k.x).String()] = k.x
		}
	}
	reg := newReg(r)
	for i, v := range c.Vals {
		x := shared[new(big.Int).Mod(v, conv.B256).String()]
		if x == nil {
			x = conv.U(v)
		} else {
			r.Class("constant-passed")
		}
		objs[i] = x
		reg.watch(fmt.Sprintf("argument %d of %s", i, f.name), x)
	}
	fresh := make([]*ui.Int, f.n)
	same := make([]*ui.Int, f.n)
	use := map[int]int{}
	for i := 0; i < f.n; i++ {
		fresh[i] = conv.U(c.Vals[c.Idx[i]])
		same[i] = objs[c.Idx[i]]
		use[c.Idx[i]]++
		reg.watch(fmt.Sprintf("argument %d of %s", i, f.name), fresh[i])
	}
	want, wp := outcome(func() []*ui.Int { return f.call(fresh, c.Fee, c.B) })
	if err := reg.holds(f.name + " with separate numbers"); err != nil {
		return err
	}
	got, gp := outcome(func() []*ui.Int { return f.call(same, c.Fee, c.B) })
	if err := reg.holds(f.name + " with shared numbers"); err != nil {
		return err
	}
	if (wp != nil) != (gp != nil) {
		return fmt.Errorf("%s of %v: refused %v with separate numbers, %v with shared ones", f.name, c.Vals, wp, gp)
	}
	for i := range want {
		if fmt.Sprint(got[i]) != fmt.Sprint(want[i]) {
			return fmt.Errorf("%s of %v (arguments %v): result %d is %v with shared numbers, %v with separate ones", f.name, c.Vals, c.Idx, i, got[i], want[i])
		}
	}
	r.Class("fn:" + f.name)
	for _, n := range use {
		if n > 1 && wp == nil {
			r.NonTrivial()
		}
	}
	return nil
}

func TestC12(t *testing.T) {
	if os.Getenv("HARNESS_REPLAY") == "" {
		loadTable()
	}
	sort.Slice(consts, func(i, j int) bool { return consts[i].name < consts[j].name })
	engine.Check(t, "C12", engine.Spec[hist.Case]{
		Sub:  "pool histories",
		Rule: "random pool histories in which equal amounts, limits and prices are always the same number object (zero is the package's own constant); after every operation all numbers passed in so far, all amounts returned so far and all package-level constants are compared with their original values, and at the end the price table of all ticks; non-trivial: a swap crossed a tick or two position operations ran",
		N:    6000,
		Gen: func(t *rapid.T) hist.Case {
			c := hist.Gen(t, &hist.Weights{Kinds: []string{"mint", "smint", "smint", "burn", "sburn", "poke", "collect", "swap", "swap", "swap", "swap", "flash"}, Max: 14, Out: 25})
			if rapid.IntRange(0, 2).Draw(t, "same") == 0 { // the same amounts over and over
				a := g.PosLogU(t, 70)
				for i := range c.Ops {
					if c.Ops[i].A != nil && c.Ops[i].AM == 0 {
						c.Ops[i].A = a
					}
					if c.Ops[i].A2 != nil {
						c.Ops[i].A2 = a
					}
				}
			}
			return c
		},
		Run: poolCase,
	})
	engine.Check(t, "C12", engine.Spec[scase]{
		Sub:  "strategies",
		Rule: "every strategy built on a shared starting pool, started, rebalanced, valued and closed among trades; the starting amounts, the starting pool's numbers, all amounts returned earlier and all constants keep their values after every step, and the price table at the end; non-trivial: the strategy reported a non-zero amount",
		N:    6000,
		Gen:  genStrat,
		Run:  stratCase,
	})
	engine.Check(t, "C12", engine.Spec[exCase]{
		Sub:  "runs",
		Rule: "executions of every strategy over generated event lists whose equal amounts are the same object; events, amounts, everything the strategy returned and constants keep their values; non-trivial: more than two events ran",
		N:    3000,
		Gen: func(t *rapid.T) exCase {
			return exCase{C: genStrat(t), Update: rapid.IntRange(1, 10).Draw(t, "u"), Snap: rapid.IntRange(1, 10).Draw(t, "s"), Price: rapid.IntRange(1, 10).Draw(t, "p"), Start: rapid.IntRange(0, 15).Draw(t, "st")}
		},
		Run: exRun,
	})
	engine.Check(t, "C12", engine.Spec[fnCase]{
		Sub:  "functions",
		Rule: "every exported function on numbers called with separate objects and with the same object in several positions (constants passed as the package's own objects): same outcome, arguments and constants unchanged; non-trivial: an object is used in two positions and the call is accepted",
		N:    30000,
		Gen:  genFn,
		Run:  fnRun,
	})
}
