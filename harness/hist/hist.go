// Package hist generates pool histories and runs them in lockstep on the real
// pool and on the reference model.
package hist

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/model"

	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
)

// Op is one pool operation; positions, amounts and limits are relative to the
// state in which it runs, so that histories stay meaningful while shrinking.
type Op struct {
	K   string   `json:"k"`            // mint burn smint sburn poke collect swap flash + invalid kinds
	I   int      `json:"i,omitempty"`  // which live range (burn, sburn, poke, collect)
	Lo  int      `json:"lo,omitempty"` // lower bound: spacings from the anchor
	W   int      `json:"w,omitempty"`  // width in spacings; -1 full range
	Cur bool     `json:"c,omitempty"`  // anchor at the current tick instead of the initial one
	Wd  bool     `json:"wd,omitempty"` // anchor at the nearest bitmap word boundary
	A   *big.Int `json:"a,omitempty"`  // amount / liquidity
	A2  *big.Int `json:"a2,omitempty"`
	F   int      `json:"f,omitempty"` // fraction in 1/256
	Z   bool     `json:"z,omitempty"` // zero for one
	Out bool     `json:"o,omitempty"` // exact output
	AM  int      `json:"am,omitempty"`
	AK  int      `json:"ak,omitempty"`
	AD  int      `json:"ad,omitempty"`
	LM  int      `json:"lm,omitempty"`
	LK  int      `json:"lk,omitempty"`
	B   int      `json:"b,omitempty"`   // branch (clone checks)
	Abs bool     `json:"abs,omitempty"` // Lo and W are absolute bounds, rounded to the spacing
}

// Case is a history.
type Case struct {
	Fee  int      `json:"fee"`
	Tick int      `json:"tick"`
	Frac int      `json:"frac"`
	FG0  *big.Int `json:"fg0,omitempty"`
	FG1  *big.Int `json:"fg1,omitempty"`
	Tok  int      `json:"tok,omitempty"` // which names the tokens have
	Ops  []Op     `json:"ops"`
}

// Weights of operation kinds.
type Weights struct {
	Kinds []string // drawn uniformly: repeat to weight
	Max   int      // maximum number of operations
	Out   int      // percentage of exact-output swaps
	NoFG  bool     // start the accumulators at zero
	Clone bool
	Long  int // one history in 150 is repeated to up to this many operations
}

func genOp(t *rapid.T, w *Weights) Op {
	k := rapid.SampledFrom(w.Kinds).Draw(t, "k")
	o := Op{K: k}
	switch k {
	case "mint", "smint":
		switch rapid.IntRange(0, 11).Draw(t, "rk") {
		case 0:
			o.W = -1
		case 1, 2:
			o.Wd = true
			o.Lo = rapid.IntRange(-3, 2).Draw(t, "lo")
			o.W = rapid.SampledFrom([]int{1, 2, 255, 256, 257, 300, 600}).Draw(t, "w")
		case 3:
			o.Lo = rapid.IntRange(-1500, 1500).Draw(t, "lo")
			o.W = rapid.IntRange(1, 1500).Draw(t, "w")
		case 4:
			o.Cur = true
			o.Lo = rapid.IntRange(-3, 3).Draw(t, "lo")
			o.W = rapid.IntRange(1, 6).Draw(t, "w")
		default:
			o.Lo = rapid.IntRange(-20, 20).Draw(t, "lo")
			o.W = rapid.IntRange(1, 25).Draw(t, "w")
		}
		bits := 104
		if rapid.IntRange(0, 14).Draw(t, "hl") == 0 {
			bits = 120
		}
		o.A = gen.PosLogU(t, bits)
	case "burn", "sburn":
		o.I = rapid.IntRange(0, 7).Draw(t, "i")
		o.F = rapid.SampledFrom([]int{256, 256, 0, 1, 128, 255}).Draw(t, "f")
	case "poke", "collect":
		o.I = rapid.IntRange(0, 7).Draw(t, "i")
	case "flash":
		o.A, o.A2 = gen.LogU(t, 128), gen.LogU(t, 128)
	case "swap":
		b := o.B
		o = GenSwap(t, w.Out)
		o.B = b
	default: // invalid operations
		o.Z = rapid.Bool().Draw(t, "z")
		o.Out = rapid.Bool().Draw(t, "o")
		o.LK = rapid.IntRange(0, 6).Draw(t, "lk")
		o.Lo = rapid.IntRange(-20, 20).Draw(t, "lo")
		o.W = rapid.IntRange(1, 25).Draw(t, "w")
		o.A = gen.PosLogU(t, 100)
	}
	if w.Clone {
		o.B = rapid.IntRange(0, 2).Draw(t, "b")
	}
	return o
}

// GenSwap draws a swap; out is the percentage of exact-output swaps.
func GenSwap(t *rapid.T, out int) Op {
	o := Op{K: "swap"}
	o.Z = rapid.Bool().Draw(t, "z")
	o.Out = rapid.IntRange(0, 99).Draw(t, "o") < out
	{
		switch rapid.IntRange(0, 9).Draw(t, "am") {
		case 0, 1, 2:
			o.A = gen.PosLogU(t, 120)
		case 3, 4, 5:
			o.AM, o.AK, o.AD = 1, rapid.IntRange(1, 6).Draw(t, "ak"), rapid.IntRange(-2, 2).Draw(t, "ad")
		case 6, 7, 8:
			o.AM, o.AK, o.F = 2, rapid.IntRange(1, 6).Draw(t, "ak"), rapid.IntRange(1, 400).Draw(t, "f")
		default:
			o.AM = 3
			switch rapid.IntRange(0, 3).Draw(t, "big") {
			case 0: // the largest amount the contract accepts
				o.A = model.Cp(model.MaxI)
			case 1: // just above a multiple of 2^256 once multiplied by 10^6 - fee
				o.AK, o.A = rapid.IntRange(1, 400000).Draw(t, "wrapk"), gen.PosLogU(t, 40)
			default:
				o.A = gen.PosLogU(t, 255)
			}
		}
		switch rapid.IntRange(0, 9).Draw(t, "lm") {
		case 0, 1, 2, 3, 4:
		case 5, 6:
			o.LM, o.LK = 1, rapid.IntRange(0, 300).Draw(t, "lk")
		case 7, 8:
			o.LM, o.LK = 2, rapid.IntRange(1, 6).Draw(t, "lk")
		default:
			o.LM, o.LK = 3, rapid.IntRange(1, 1000).Draw(t, "lk")
		}
		if o.AM == 3 && o.LM == 0 && rapid.IntRange(0, 3).Draw(t, "end") != 0 {
			o.LM, o.LK = 1, rapid.IntRange(0, 3000).Draw(t, "lk")
		}
	}
	return o
}

// Gen draws a history.
func Gen(t *rapid.T, w *Weights) Case {
	c := Case{Fee: gen.Fee(t), Tick: gen.Tick(t), Frac: gen.Frac(t), Tok: rapid.IntRange(0, len(names)-1).Draw(t, "tok")}
	if !w.NoFG {
		switch rapid.IntRange(0, 3).Draw(t, "fg") {
		case 0:
			c.FG0, c.FG1 = gen.U256(t), gen.U256(t)
		case 1: // about to wrap around
			c.FG0, c.FG1 = model.Sub(model.Max256, gen.LogU(t, 150)), model.Sub(model.Max256, gen.LogU(t, 150))
		}
	}
	// start with some liquidity most of the time
	if rapid.IntRange(0, 9).Draw(t, "seedliq") > 0 {
		has := map[string]bool{}
		for _, k := range w.Kinds {
			has[k] = true
		}
		kinds := []string{}
		for _, k := range []string{"mint", "smint"} {
			if has[k] {
				kinds = append(kinds, k)
			}
		}
		if len(kinds) > 0 {
			o := Op{K: rapid.SampledFrom(kinds).Draw(t, "sk"), Lo: rapid.IntRange(-15, 0).Draw(t, "slo"), W: rapid.IntRange(16, 60).Draw(t, "sw"), A: gen.PosLogU(t, 100)}
			c.Ops = append(c.Ops, o)
			if rapid.IntRange(0, 9).Draw(t, "wide") < 4 {
				c.Ops = append(c.Ops, Op{K: rapid.SampledFrom(kinds).Draw(t, "wk"), W: -1, A: gen.PosLogU(t, 80)})
			}
		}
	}
	// a minimum length, because generated slices are short on average
	min := rapid.IntRange(1, w.Max).Draw(t, "minops")
	c.Ops = append(c.Ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(t, w) }), min, w.Max).Draw(t, "ops")...)
	if w.Long > 0 && rapid.IntRange(1, 150).Draw(t, "long") == 1 {
		c.Ops = Repeat(c.Ops, rapid.IntRange(2, max(3, w.Long/len(c.Ops))).Draw(t, "rep"), rapid.IntRange(-9, 9).Draw(t, "stride"))
	}
	return c
}

// Repeat makes a long history: each time the ranges move on by stride
// spacings, other positions are meant, and swaps go the other way.
func Repeat(ops []Op, n, stride int) (out []Op) {
	for k := 0; k < n; k++ {
		for _, o := range ops {
			if o.W >= 0 && !o.Abs {
				o.Lo += k * stride
			}
			o.I += k
			if k > 0 && (o.K == "mint" || o.K == "smint") && o.A.BitLen() > 104 {
				o.A = new(big.Int).Rsh(o.A, 16) // the sum stays below 2^128
			}
			o.Z = o.Z != (k%2 == 1)
			out = append(out, o)
		}
	}
	return
}

// Pair is the real pool and the reference model in lockstep.
type Pair struct {
	S    *pool.Pool
	M    *model.Pool
	T0   int // initial tick
	Tok  int // which names the tokens have
	Rec  *engine.Rec
	Args func(x *ui.Int)        // called on every number passed in, if set
	Rets func(x *ui.Int)        // called on every number returned, if set
	ArgF func(*big.Int) *ui.Int // makes the argument objects, if set

	Live    []model.Range // strategy ranges ever minted, in order
	LiveExt []model.Range
	Swaps   int
	CrossSw int // swaps crossing at least one initialised tick
	Partial int // swaps stopping on a limit
	PosOps  int
	Last    [2]*big.Int // deltas returned by the last operation (model)

	// Loose runs the real pool for its own sake: the model only resolves
	// operations, nothing is compared with it, and the history ends (Broken)
	// when the two disagree about whether an operation is accepted.
	Loose       bool
	Broken      bool
	BrokenOp    *ROp        // the operation on which they disagreed
	BrokenPanic bool        // whether the real pool refused it
	Log         []ROp       // operations performed on the real pool, resolved
	Real        [2]*big.Int // amounts returned by the last operation (real, signed)
}

// ROp is a resolved operation.
type ROp struct {
	K      string // mint burn smint sburn collect flash swap
	R      model.Range
	A, A2  *big.Int
	Z, Out bool
	Lim    *big.Int
	Tok    int
}

// Exec performs a resolved operation on a pool; ok is false if it panicked.
func Exec(s *pool.Pool, o ROp) (r [2]*big.Int, pv interface{}) {
	r = [2]*big.Int{new(big.Int), new(big.Int)}
	pv = engine.Try(func() {
		var g0, g1 *ui.Int
		switch o.K {
		case "mint":
			s.Mint(o.R.Lo, o.R.Hi, conv.U(o.A))
		case "burn":
			s.Burn(o.R.Lo, o.R.Hi, conv.U(o.A))
		case "smint":
			g0, g1 = s.MintStrategy(o.R.Lo, o.R.Hi, conv.U(o.A))
		case "sburn":
			g0, g1 = s.BurnStrategy(o.R.Lo, o.R.Hi, conv.U(o.A))
		case "collect":
			g0, g1 = s.CollectStrategy(o.R.Lo, o.R.Hi)
		case "flash":
			s.Flash(conv.U(o.A), conv.U(o.A2))
		case "swap":
			out, in := Names(o.Tok)
			if o.Z {
				in, out = out, in
			}
			if o.Out {
				g0, g1 = s.ExactOutputSwap(conv.U(o.A), out, conv.U(o.Lim))
			} else {
				g0, g1 = s.ExactInputSwap(conv.U(o.A), in, conv.U(o.Lim))
			}
		default:
			panic("harness: unknown resolved op " + o.K)
		}
		if g0 != nil {
			r = [2]*big.Int{conv.S(g0), conv.S(g1)}
		}
	})
	return
}

// Fresh builds the initial real pool of a case.
func Fresh(c *Case) *pool.Pool {
	tok0, tok1 := Names(c.Tok)
	s := pool.NewPool(tok0, tok1, c.Fee, conv.U(gen.PriceAt(c.Tick, c.Frac)))
	if c.FG0 != nil {
		s.FeeGrowthGlobal0X128, s.FeeGrowthGlobal1X128 = conv.U(c.FG0), conv.U(c.FG1)
	}
	return s
}

// Rebuild replays a resolved log on a fresh pool (nil if an operation panics).
func Rebuild(c *Case, log []ROp) *pool.Pool {
	s := Fresh(c)
	for _, o := range log {
		if _, pv := Exec(s, o); pv != nil {
			return nil
		}
	}
	return s
}

// cmp judges comparisons with the model, unless the pair is loose.
func (p *Pair) cmp(errs ...error) error {
	if p.Loose {
		return nil
	}
	return first(errs...)
}

func (p *Pair) log(o ROp, g ...*ui.Int) {
	o.Tok = p.Tok
	if p.Broken {
		p.BrokenOp = &o
		return
	}
	p.Log = append(p.Log, o)
	p.Real = [2]*big.Int{new(big.Int), new(big.Int)}
	if len(g) == 2 && g[0] != nil && g[1] != nil {
		p.Real = [2]*big.Int{conv.S(g[0]), conv.S(g[1])}
	}
}

// Names are the names of the two tokens.
func Names(i int) (string, string) {
	n := names[i%len(names)]
	return n[0], n[1]
}

var names = [][2]string{{"USDC", "WETH"}, {"USDC", "WETH"}, {"WETH", "USDC"}, {"token", "token0"}, {"ETHx", "ETH"}, {"B", "A"}, {"0x", "0xa"}}

// New builds both pools for a case.
func New(c *Case, r *engine.Rec) *Pair {
	p := gen.PriceAt(c.Tick, c.Frac)
	pr := &Pair{S: Fresh(c), M: model.NewPool(c.Fee, p), Rec: r, Tok: c.Tok}
	pr.T0 = pr.M.Tick
	if c.FG0 != nil {
		pr.M.FG0, pr.M.FG1 = model.Cp(c.FG0), model.Cp(c.FG1)
	}
	return pr
}

func (p *Pair) arg(b *big.Int) *ui.Int {
	if p.ArgF != nil {
		return p.ArgF(b)
	}
	x := conv.U(b)
	if p.Args != nil {
		p.Args(x)
	}
	return x
}

func (p *Pair) ret(xs ...*ui.Int) {
	if p.Rets != nil {
		for _, x := range xs {
			if x != nil {
				p.Rets(x)
			}
		}
	}
}

// Range resolves the range of a mint.
func (p *Pair) Range(o *Op) model.Range {
	s := p.M.Spacing
	min, max := model.CeilTick(model.MinTick, s), model.FloorTick(model.MaxTick, s)
	if o.Abs {
		lo, hi := model.FloorTick(o.Lo, s), model.FloorTick(o.W, s)
		if lo < min {
			lo = min
		}
		if hi > max {
			hi = max
		}
		if lo >= hi {
			lo, hi = hi, lo
		}
		if lo == hi {
			hi = lo + s
		}
		return model.Range{Lo: lo, Hi: hi}
	}
	if o.W < 0 {
		return model.Range{Lo: min, Hi: max}
	}
	anchor := p.T0
	if o.Cur {
		anchor = p.M.Tick
	}
	lo := model.FloorTick(anchor, s)
	if o.Wd {
		w := s * 256
		lo = model.FloorDiv(anchor+w/2, w) * w
	}
	lo += o.Lo * s
	w := o.W
	if w < 1 {
		w = 1
	}
	if lo < min {
		lo = min
	}
	if lo > max-s {
		lo = max - s
	}
	hi := lo + w*s
	if hi > max {
		hi = max
	}
	return model.Range{Lo: lo, Hi: hi}
}

// stopPrice is the price of the k-th place where a swap would stop.
func (p *Pair) stopPrice(zfo bool, k int) *big.Int {
	tick := p.M.Tick
	all := k > 3 // also stop at uninitialised word boundaries
	if all {
		k -= 3
	}
	for i := 0; ; i++ {
		n, init := p.M.NextTick(tick, zfo)
		if n <= model.MinTick || n >= model.MaxTick {
			return nil
		}
		pr := model.SqrtRatioAtTick(n)
		if pr.Cmp(p.M.P) != 0 && (all || init || i > 12) {
			k--
		}
		if k <= 0 {
			return pr
		}
		tick = n
		if zfo {
			tick = n - 1
		}
		if i > 30 {
			return pr
		}
	}
}

// Limit resolves the price limit of a swap (0: none).
func (p *Pair) Limit(o *Op) *big.Int {
	lim := big.NewInt(0)
	switch o.LM {
	case 1:
		t := p.M.Tick + 1 + o.LK
		if o.Z {
			t = p.M.Tick - o.LK
		}
		if t > model.MinTick && t < model.MaxTick {
			lim = model.Cp(model.SqrtRatioAtTick(t))
		}
	case 2:
		if s := p.stopPrice(o.Z, o.LK); s != nil {
			lim = model.Cp(s)
		}
	case 3:
		if o.Z {
			lim = model.Sub(p.M.P, big.NewInt(int64(o.LK)))
		} else {
			lim = model.Add(p.M.P, big.NewInt(int64(o.LK)))
		}
	}
	if _, ok := p.M.ResolveLimit(o.Z, lim); !ok {
		return big.NewInt(0)
	}
	return lim
}

// Amount resolves the (positive) specified amount of a swap.
func (p *Pair) Amount(o *Op) *big.Int {
	if o.AM == 0 || o.AM == 3 {
		if o.A == nil || o.A.Sign() == 0 {
			return big.NewInt(1)
		}
		if o.AM == 3 && o.AK > 0 {
			return model.Add(model.Ceil(model.Mul(model.Q256, big.NewInt(int64(o.AK))), big.NewInt(int64(1000000-p.M.Fee))), o.A)
		}
		if o.A.Cmp(model.MaxI) > 0 {
			return model.Cp(model.MaxI)
		}
		return model.Cp(o.A)
	}
	res := big.NewInt(1000)
	if s := p.stopPrice(o.Z, o.AK); s != nil {
		if _, ok := p.M.ResolveLimit(o.Z, s); ok {
			m := p.M.Clone()
			amt := model.Cp(model.MaxI)
			if o.Out {
				amt.Neg(amt)
			}
			a0, a1, err := m.Swap(o.Z, amt, s)
			if err == nil {
				if o.Z != o.Out { // specified token is token0 iff zfo==exactIn
					res = a0
				} else {
					res = a1
				}
				res = new(big.Int).Abs(res)
			}
		}
	}
	if o.AM == 1 {
		res = model.Add(res, big.NewInt(int64(o.AD)))
	} else {
		res = model.Mul(res, big.NewInt(int64(o.F)))
		res.Rsh(res, 8)
	}
	if res.Sign() <= 0 {
		res = big.NewInt(1)
	}
	return res
}

func (p *Pair) pick(l []model.Range, i int) (model.Range, bool) {
	if len(l) == 0 {
		return model.Range{}, false
	}
	return l[i%len(l)], true
}

// both runs the model and the real operation; an error of the model must be a
// refusal (panic) of the real pool, and the other way round.
func (p *Pair) both(name string, merr error, f func()) error {
	pv := engine.Try(f)
	if p.Loose {
		p.Broken = p.Broken || (merr != nil) != (pv != nil)
		p.BrokenPanic = pv != nil
		return nil
	}
	if merr != nil && pv == nil {
		return fmt.Errorf("%s: accepted although the contract refuses it", name)
	}
	if merr == nil && pv != nil {
		return fmt.Errorf("%s: refused a valid operation: panic %v", name, pv)
	}
	return nil
}

func addUnique(l []model.Range, r model.Range) []model.Range {
	for _, x := range l {
		if x == r {
			return l
		}
	}
	return append(l, r)
}

func desc(o *Op, extra string) string { return fmt.Sprintf("%s %s", o.K, extra) }

// ExtRanges lists ranges with liquidity owned by others, in order of first mint.
func (p *Pair) ExtRanges() []model.Range {
	var l []model.Range
	for _, r := range p.LiveExt {
		if p.M.Ext[r] != nil {
			l = append(l, r)
		}
	}
	return l
}

// Apply runs one operation on both and compares results and state.
func (p *Pair) Apply(o *Op) error {
	if p.Broken {
		return nil
	}
	p.Last = [2]*big.Int{big.NewInt(0), big.NewInt(0)}
	p.Real = [2]*big.Int{big.NewInt(0), big.NewInt(0)}
	switch o.K {
	case "mint":
		r := p.Range(o)
		err := p.both(fmt.Sprintf("Mint(%d,%d,%v)", r.Lo, r.Hi, o.A), p.M.Mint(r, o.A), func() { p.S.Mint(r.Lo, r.Hi, p.arg(o.A)) })
		if err != nil {
			return err
		}
		p.LiveExt = addUnique(p.LiveExt, r)
		p.log(ROp{K: "mint", R: r, A: model.Cp(o.A)})
	case "burn":
		r, ok := p.pick(p.ExtRanges(), o.I)
		if !ok {
			return nil
		}
		l := new(big.Int).Rsh(model.Mul(p.M.Ext[r], big.NewInt(int64(o.F))), 8)
		if err := p.both(fmt.Sprintf("Burn(%d,%d,%v)", r.Lo, r.Hi, l), p.M.Burn(r, l), func() { p.S.Burn(r.Lo, r.Hi, p.arg(l)) }); err != nil {
			return err
		}
		p.log(ROp{K: "burn", R: r, A: l})
	case "smint":
		return p.MintPos(p.Range(o), o.A)
	case "sburn", "poke":
		r, ok := p.pick(p.Live, o.I)
		if !ok || p.M.Pos[r].L.Sign() == 0 {
			return nil
		}
		f := int64(o.F)
		if o.K == "poke" {
			f = 0
		}
		return p.BurnPos(r, new(big.Int).Rsh(model.Mul(p.M.Pos[r].L, big.NewInt(f)), 8))
	case "collect":
		r, ok := p.pick(p.Live, o.I)
		if !ok {
			return nil
		}
		return p.Collect(r)
	case "flash":
		name := fmt.Sprintf("Flash(%v,%v)", o.A, o.A2)
		if err := p.both(name, p.M.Flash(o.A, o.A2), func() { p.S.Flash(p.arg(o.A), p.arg(o.A2)) }); err != nil {
			return err
		}
		if p.M.L.Sign() > 0 {
			p.log(ROp{K: "flash", A: model.Cp(o.A), A2: model.Cp(o.A2)})
		}
	case "swap":
		if err := p.Swap(o.Z, o.Out, p.Amount(o), p.Limit(o)); err != nil {
			return err
		}
		return nil
	default:
		return p.invalid(o)
	}
	return p.cmp(p.Compare())
}

// MintPos mints a strategy position on both.
func (p *Pair) MintPos(r model.Range, l *big.Int) error {
	name := fmt.Sprintf("MintStrategy(%d,%d,%v)", r.Lo, r.Hi, l)
	w0, w1, merr := p.M.MintPos(r, l)
	var g0, g1 *ui.Int
	if err := p.both(name, merr, func() { g0, g1 = p.S.MintStrategy(r.Lo, r.Hi, p.arg(l)) }); err != nil {
		return err
	}
	if merr == nil || p.Broken {
		p.log(ROp{K: "smint", R: r, A: model.Cp(l)}, g0, g1)
	}
	if merr != nil || p.Broken {
		return p.cmp(p.Compare())
	}
	p.ret(g0, g1)
	p.PosOps++
	p.Live = addUnique(p.Live, r)
	p.Last = [2]*big.Int{w0, w1}
	if err := p.cmp(conv.EqS(name+" amount0", g0, w0), conv.EqS(name+" amount1", g1, w1), p.Compare()); err != nil {
		return err
	}
	return p.cmp(p.TickState())
}

// BurnPos burns from a strategy position on both.
func (p *Pair) BurnPos(r model.Range, l *big.Int) error {
	name := fmt.Sprintf("BurnStrategy(%d,%d,%v)", r.Lo, r.Hi, l)
	w0, w1, merr := p.M.BurnPos(r, l)
	var g0, g1 *ui.Int
	if err := p.both(name, merr, func() { g0, g1 = p.S.BurnStrategy(r.Lo, r.Hi, p.arg(l)) }); err != nil {
		return err
	}
	if merr == nil || p.Broken {
		p.log(ROp{K: "sburn", R: r, A: model.Cp(l)}, g0, g1)
	}
	if merr != nil || p.Broken {
		return p.cmp(p.Compare())
	}
	p.ret(g0, g1)
	p.PosOps++
	if err := p.cmp(conv.EqS(name+" amount0", g0, w0), conv.EqS(name+" amount1", g1, w1), p.Compare()); err != nil {
		return err
	}
	return p.cmp(p.TickState())
}

// Collect collects a strategy position on both.
func (p *Pair) Collect(r model.Range) error {
	name := fmt.Sprintf("CollectStrategy(%d,%d)", r.Lo, r.Hi)
	w0, w1, merr := p.M.Collect(r)
	var g0, g1 *ui.Int
	if err := p.both(name, merr, func() { g0, g1 = p.S.CollectStrategy(r.Lo, r.Hi) }); err != nil {
		return err
	}
	if merr == nil || p.Broken {
		p.log(ROp{K: "collect", R: r}, g0, g1)
	}
	if merr != nil || p.Broken {
		return nil
	}
	p.ret(g0, g1)
	p.PosOps++
	if w0.Sign() != 0 || w1.Sign() != 0 {
		p.Rec.Class("collect>0")
	}
	p.Last = [2]*big.Int{model.Neg(w0), model.Neg(w1)}
	return p.cmp(conv.EqS(name+" amount0", g0, w0), conv.EqS(name+" amount1", g1, w1), p.Compare())
}

// Swap swaps on both. amt is positive; out selects the exact-output entry.
func (p *Pair) Swap(zfo, out bool, amt, lim *big.Int) error {
	spec := model.Cp(amt)
	if out {
		spec.Neg(spec)
	}
	tokOut, tokIn := Names(p.Tok)
	if zfo {
		tokIn, tokOut = tokOut, tokIn
	}
	p0, c0, s0 := model.Cp(p.M.P), p.M.Crossed, p.M.Steps
	name := fmt.Sprintf("swap(zeroForOne=%v exactOutput=%v amount=%v limit=%v) at price %v tick %d liquidity %v", zfo, out, amt, lim, p.M.P, p.M.Tick, p.M.L)
	w0, w1, merr := p.M.Swap(zfo, spec, lim)
	var g0, g1 *ui.Int
	if err := p.both(name, merr, func() {
		if out {
			a := amt
			if p.Swaps%2 == 1 { // the output amount may also be given negated, as the contract does
				a = spec
			}
			g0, g1 = p.S.ExactOutputSwap(p.arg(a), tokOut, p.arg(lim))
		} else {
			g0, g1 = p.S.ExactInputSwap(p.arg(amt), tokIn, p.arg(lim))
		}
	}); err != nil {
		return err
	}
	if merr == nil || p.Broken {
		p.log(ROp{K: "swap", A: model.Cp(amt), Z: zfo, Out: out, Lim: model.Cp(lim)}, g0, g1)
	}
	if p.Broken {
		return nil
	}
	if merr != nil {
		p.Rec.Class("swap:refused")
		return p.cmp(p.Compare())
	}
	p.ret(g0, g1)
	p.Swaps++
	p.Rec.Class("swap")
	if out {
		p.Rec.Class("swap:exact-output")
	}
	if p.M.Crossed > c0 {
		p.CrossSw++
		p.Rec.Class("swap:crossing")
	}
	if p.M.Crossed > c0+1 {
		p.Rec.Class("swap:crossing>=2")
	}
	if p.M.Steps > s0+1 {
		p.Rec.Class("swap:multi-step")
	}
	if lim.Sign() != 0 && p.M.P.Cmp(lim) == 0 {
		p.Partial++
		p.Rec.Class("swap:stopped-at-limit")
	}
	if p.M.P.Cmp(p0) == 0 {
		p.Rec.Class("swap:price-unchanged")
	}
	if p.M.Tick < model.MaxTick && (p.M.P.Cmp(model.SqrtRatioAtTick(p.M.Tick)) == 0 || p.M.P.Cmp(model.SqrtRatioAtTick(p.M.Tick+1)) == 0) {
		p.Rec.Class("swap:ends-exactly-on-tick")
	}
	if p.M.Tick < 0 {
		p.Rec.Class("swap:negative-tick")
	}
	if p.M.L.Sign() == 0 {
		p.Rec.Class("swap:ends-without-liquidity")
	}
	p.Last = [2]*big.Int{w0, w1}
	return p.cmp(conv.EqS(name+" delta0", g0, w0), conv.EqS(name+" delta1", g1, w1), wrap(name, p.Compare()))
}

func wrap(n string, err error) error {
	if err != nil {
		return fmt.Errorf("after %s: %w", n, err)
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// Compare compares the pool-level state.
func (p *Pair) Compare() error {
	if p.S.TickCurrent != p.M.Tick {
		return fmt.Errorf("current tick: got %d, want %d (price got %v want %v)", p.S.TickCurrent, p.M.Tick, conv.B(p.S.SqrtRatioX96), p.M.P)
	}
	return first(
		conv.Eq("sqrt price", p.S.SqrtRatioX96, p.M.P),
		conv.Eq("active liquidity", p.S.Liquidity, p.M.L),
		conv.Eq("fee growth global 0", p.S.FeeGrowthGlobal0X128, p.M.FG0),
		conv.Eq("fee growth global 1", p.S.FeeGrowthGlobal1X128, p.M.FG1))
}

// TickState compares every initialised tick.
func (p *Pair) TickState() error {
	for _, i := range p.M.SortedTicks() {
		var net, gross *ui.Int
		if pv := engine.Try(func() { t := p.S.TickData.GetTick(i); net, gross = t.LiquidityNet, t.LiquidityGross }); pv != nil {
			return fmt.Errorf("tick %d should be initialised: %v", i, pv)
		}
		t := p.M.Ticks[i]
		if err := first(conv.EqS(fmt.Sprintf("tick %d liquidity net", i), net, t.Net), conv.EqS(fmt.Sprintf("tick %d liquidity gross", i), gross, t.Gross)); err != nil {
			return err
		}
	}
	return nil
}

// NoExtraTicks walks the real pool's ticks and compares the set.
func (p *Pair) NoExtraTicks() error {
	var got []int
	t := model.MinTick
	for t < model.MaxTick {
		n, init := p.S.TickData.NextInitializedTickWithinOneWord(t, false)
		if n <= t {
			return fmt.Errorf("tick search upward from %d returned %d", t, n)
		}
		if init {
			got = append(got, n)
		}
		t = n
	}
	want := p.M.SortedTicks()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("initialised ticks: got %v, want %v", got, want)
	}
	return nil
}

// FeeInside compares the fee growth inside every live range.
func (p *Pair) FeeInside() error {
	chk := func(r model.Range) error {
		if p.M.Ticks[r.Lo] == nil || p.M.Ticks[r.Hi] == nil {
			return nil
		}
		w0, w1 := p.M.FeeGrowthInside(r)
		g0, g1 := p.S.TickData.GetFeeGrowthInside(r.Lo, r.Hi, p.S.TickCurrent, p.S.FeeGrowthGlobal0X128, p.S.FeeGrowthGlobal1X128)
		return first(conv.Eq(fmt.Sprintf("fee growth inside0 %v", r), g0, w0), conv.Eq(fmt.Sprintf("fee growth inside1 %v", r), g1, w1))
	}
	for _, r := range p.Live {
		if err := chk(r); err != nil {
			return err
		}
	}
	for _, r := range p.ExtRanges() {
		if err := chk(r); err != nil {
			return err
		}
	}
	return nil
}

// Invariants of the model itself (guards the oracle).
func (p *Pair) ModelSelfCheck() error {
	sum := model.Zero()
	for r, l := range p.M.Ext {
		if r.Lo <= p.M.Tick && p.M.Tick < r.Hi {
			sum.Add(sum, l)
		}
	}
	for r, x := range p.M.Pos {
		if r.Lo <= p.M.Tick && p.M.Tick < r.Hi {
			sum.Add(sum, x.L)
		}
	}
	if sum.Cmp(p.M.L) != 0 {
		return fmt.Errorf("active liquidity %v is not the sum of the ranges containing the tick (%v)", p.M.L, sum)
	}
	return nil
}

// Close collects and closes every strategy position, comparing each step.
func (p *Pair) Close() error {
	for _, r := range p.Live {
		if p.M.Pos[r].L.Sign() > 0 {
			if err := p.BurnPos(r, model.Cp(p.M.Pos[r].L)); err != nil {
				return err
			}
		}
		if err := p.Collect(r); err != nil {
			return err
		}
		if err := p.Collect(r); err != nil { // second collect pays zero
			return err
		}
	}
	return nil
}

// Final runs all end-of-history comparisons.
func (p *Pair) Final() error {
	return first(p.ModelSelfCheck(), p.TickState(), p.FeeInside(), p.NoExtraTicks(), p.Close(), p.NoExtraTicks())
}

// owed tells what collecting positions would give.
func (p *Pair) owed(rs []model.Range) (s string) {
	for _, r := range rs {
		cl := p.S.Clone()
		var a, b *ui.Int
		if pv := engine.Try(func() { a, b = cl.CollectStrategy(r.Lo, r.Hi) }); pv != nil {
			s += "no such position;"
		} else if a != nil && b != nil {
			s += fmt.Sprint(conv.S(a), "/", conv.S(b), ";")
		}
	}
	return
}

// invalid attempts an operation the contract refuses.
func (p *Pair) invalid(o *Op) error {
	var f func()
	name := o.K
	neg := new(big.Int).Neg(o.A)
	r := p.Range(o)
	ranges := []model.Range{r}
	mintFn := func(lo, hi int, a *big.Int) func() {
		if o.Out {
			return func() { p.S.MintStrategy(lo, hi, p.arg(a)) }
		}
		return func() { p.S.Mint(lo, hi, p.arg(a)) }
	}
	swapFn := func(a, l *big.Int) func() {
		ot, tk := Names(p.Tok)
		if o.Z {
			tk, ot = ot, tk
		}
		if o.Out {
			return func() { p.S.ExactOutputSwap(p.arg(a), ot, p.arg(l)) }
		}
		return func() { p.S.ExactInputSwap(p.arg(a), tk, p.arg(l)) }
	}
	switch o.K {
	case "bad-swap-zero":
		f = swapFn(big.NewInt(0), p.Limit(o))
	case "bad-swap-limit":
		lim := model.Cp(p.M.P) // equal to the current price
		d := int64(o.LK)
		switch o.LK {
		case 1, 2: // wrong side
			if o.Z {
				lim.Add(lim, big.NewInt(d))
			} else {
				lim.Sub(lim, big.NewInt(d))
			}
		case 3:
			if o.Z {
				lim = model.Cp(model.MinSqrt)
			} else {
				lim = model.Cp(model.MaxSqrt)
			}
		case 4:
			if o.Z {
				lim = model.Sub(model.MinSqrt, big.NewInt(int64(1+o.W)))
			} else {
				lim = model.Add(model.MaxSqrt, big.NewInt(int64(1+o.W)))
			}
		case 5:
			if o.Z {
				lim = big.NewInt(1)
			} else {
				lim = model.Cp(model.Max256)
			}
		case 6: // far on the wrong side
			if o.Z {
				lim = model.Sub(model.MaxSqrt, big.NewInt(2))
			} else {
				lim = model.Add(model.MinSqrt, big.NewInt(2))
			}
		}
		if _, ok := p.M.ResolveLimit(o.Z, lim); ok {
			return nil
		}
		name = fmt.Sprintf("%s zeroForOne=%v limit=%v price=%v", o.K, o.Z, lim, p.M.P)
		f = swapFn(o.A, lim)
	case "bad-mint-amount":
		if o.Z {
			f = mintFn(r.Lo, r.Hi, big.NewInt(0))
		} else {
			f = mintFn(r.Lo, r.Hi, neg)
		}
	case "bad-range":
		s := p.M.Spacing
		lo, hi := r.Lo, r.Hi
		switch o.LK {
		case 0:
			hi = lo
		case 1:
			lo, hi = hi, lo
		case 2:
			lo = model.CeilTick(model.MinTick, s) - s
		case 3:
			hi = model.FloorTick(model.MaxTick, s) + s
		case 4:
			lo = model.MinTick - 1
		case 5:
			hi = model.MaxTick + 1
		case 6:
			lo, hi = -2000000, 2000000
		}
		name = fmt.Sprintf("bad-range [%d,%d]", lo, hi)
		ranges = append(ranges, model.Range{Lo: lo, Hi: hi})
		f = mintFn(lo, hi, o.A)
	case "bad-burn-range":
		lo, hi := r.Lo, r.Lo
		if o.LK%3 == 1 {
			lo, hi = r.Hi, r.Lo
		} else if o.LK%3 == 2 {
			hi = model.MaxTick + 1
		}
		a := o.A
		if o.Z && o.LK >= 3 {
			a = big.NewInt(0)
		}
		name = fmt.Sprintf("bad-burn-range [%d,%d] of %v", lo, hi, a)
		ranges = append(ranges, model.Range{Lo: lo, Hi: hi})
		if o.Out {
			f = func() { p.S.BurnStrategy(lo, hi, p.arg(a)) }
		} else {
			f = func() { p.S.Burn(lo, hi, p.arg(a)) }
		}
	case "bad-flash":
		if p.M.L.Sign() > 0 {
			return nil
		}
		f = func() { p.S.Flash(p.arg(o.A), p.arg(o.A)) }
	default:
		return fmt.Errorf("harness: unknown op %q", o.K)
	}
	p.Rec.Class(o.K)
	was := p.owed(ranges)
	if pv := engine.Try(f); pv == nil {
		return fmt.Errorf("%s: accepted although the contract refuses it", name)
	}
	if is := p.owed(ranges); is != was {
		return fmt.Errorf("refused %s: it changed what collecting the position gives: %s, was %s", name, is, was)
	}
	return wrap("refused "+name, first(p.Compare(), p.TickState()))
}
