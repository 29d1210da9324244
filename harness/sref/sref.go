// Package sref has reference implementations of the twelve strategies on the
// reference pool, and builds the real ones.
package sref

import (
	"errors"
	"math/big"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/model"

	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
)

// Kinds lists the strategies.
var Kinds = []string{"none", "v2", "constant", "price", "average", "fillup", "limit", "two", "swaphalf", "bollinger", "bollfill", "volatility"}

// ErrDomain: the operation lies outside what the properties speak about.
var ErrDomain = errors.New("outside the domain")

// Params configures a strategy.
type Params struct {
	Kind   string   `json:"kind"`
	A0, A1 *big.Int // starting amounts
	W      int      `json:"w"`   // interval width (a)
	B      int      `json:"b"`   // second width
	N      int      `json:"n"`   // price window
	Mul    int      `json:"mul"` // multiplier Q6.10
}

// NeedsPrices tells whether the rule uses recorded prices.
func (p Params) NeedsPrices() bool {
	return p.Kind == "average" || p.NeedsVol()
}

// NeedsVol tells whether the rule uses the volatility.
func (p Params) NeedsVol() bool {
	return p.Kind == "bollinger" || p.Kind == "bollfill" || p.Kind == "volatility"
}

// Real builds the simulator's strategy.
func (p Params) Real(pl *pool.Pool) strategy.Strategy { return p.RealWith(pl, conv.U) }

// RealWith is Real with the starting amounts made by num.
func (p Params) RealWith(pl *pool.Pool, num func(*big.Int) *ui.Int) strategy.Strategy {
	a0, a1 := num(p.A0), num(p.A1)
	switch p.Kind {
	case "none":
		return strategy.NewNoProvisionStrategy(a0, a1, pl)
	case "v2":
		return strategy.NewV2Strategy(a0, a1, pl)
	case "constant":
		return strategy.NewConstantIntervalStrategy(a0, a1, pl, p.W)
	case "price":
		return strategy.NewIntervalAroundPriceStrategy(a0, a1, pl, p.W)
	case "average":
		return strategy.NewIntervalAroundAverageStrategy(a0, a1, pl, p.W, p.N)
	case "fillup":
		return strategy.NewFillUpStrategy(a0, a1, pl, p.W)
	case "limit":
		return strategy.NewLimitOrderStrategy(a0, a1, pl, p.W)
	case "two":
		return strategy.NewTwoIntervalAroundPriceStrategy(a0, a1, pl, p.W, p.B)
	case "swaphalf":
		return strategy.NewIntervalAroundPriceAndSwapStrategy(a0, a1, pl, p.W)
	case "bollinger":
		return strategy.NewBollingerBandsStrategy(a0, a1, pl, p.N, p.Mul)
	case "bollfill":
		return strategy.NewBollingerBandsFillUpStrategy(a0, a1, pl, p.N, p.Mul)
	case "volatility":
		return strategy.NewVolatilitySizedIntervalStrategy(a0, a1, pl, p.N, p.Mul)
	}
	panic("harness: unknown strategy " + p.Kind)
}

// Position of a strategy.
type Position struct {
	R model.Range
	L *big.Int
}

// Ref is the reference strategy.
type Ref struct {
	P        Params
	M        *model.Pool
	C0, C1   *big.Int
	Pos      []Position
	Ever     map[model.Range]bool
	Opened   int // positions opened so far
	Held     int // ranges that could not be opened
	Swaps    int // swaps made by the strategy
	fixed    model.Range
	isFixed  bool
	Limit    int // last limit tick, valid if LimitSet
	Dir      bool
	LimitSet bool
	window   []*big.Int // squares of the recorded prices, newest last
}

// TieAt sets the amount of token1 so that, starting at this moment, the swapping
// strategy finds exactly as much left over of one token as of the other.
func (p *Params) TieAt(m *model.Pool) {
	r := New(*p, m)
	lo, hi := r.around(m.Tick)
	rg := Usable(lo, hi, m.Spacing)
	if rg.Lo >= rg.Hi {
		return
	}
	a, b := model.SqrtRatioAtTick(rg.Lo), model.SqrtRatioAtTick(rg.Hi)
	a1 := new(big.Int).Lsh(big.NewInt(1), 120)
	for i := 0; i < 4; i++ {
		r.C1 = a1
		l, err := r.affordable(a, b)
		if err != nil {
			return
		}
		u0, u1 := model.AmountsForLiquidity(m.P, a, b, l)
		a1 = model.Add(u1, new(big.Int).Lsh(model.Sub(r.C0, u0), 9))
	}
	p.A1 = a1
}

// New builds the reference on its own copy of the pool.
func New(p Params, m *model.Pool) *Ref {
	return &Ref{P: p, M: m.Clone(), C0: model.Cp(p.A0), C1: model.Cp(p.A1), Ever: map[model.Range]bool{}}
}

// Clone copies the reference with its pool.
func (r *Ref) Clone() *Ref {
	n := *r
	n.M = r.M.Clone()
	n.C0, n.C1 = model.Cp(r.C0), model.Cp(r.C1)
	n.Pos = append([]Position{}, r.Pos...)
	n.window = append([]*big.Int{}, r.window...)
	n.Ever = map[model.Range]bool{}
	for k := range r.Ever {
		n.Ever[k] = true
	}
	return &n
}

// Filled tells whether the price window is full.
func (r *Ref) Filled() bool { return len(r.window) >= r.P.N }

var sq230 = new(big.Int).Lsh(big.NewInt(1), 230)

// Snapshot records the current price.
func (r *Ref) Snapshot() error {
	if !r.P.NeedsPrices() {
		return nil
	}
	sq := model.Mul(r.M.P, r.M.P)
	if sq.Cmp(sq230) >= 0 {
		return ErrDomain
	}
	r.window = append(r.window, sq)
	if len(r.window) > r.P.N {
		r.window = r.window[len(r.window)-r.P.N:]
	}
	return nil
}

// Average of the window, rounded down.
func (r *Ref) Average() *big.Int { return Mean(r.window) }

// Mean rounded down.
func Mean(w []*big.Int) *big.Int {
	s := new(big.Int)
	for _, x := range w {
		s.Add(s, x)
	}
	return s.Div(s, big.NewInt(int64(len(w))))
}

// Volatility is the sample standard deviation about the rounded mean, rounded down.
func Volatility(w []*big.Int) *big.Int {
	avg := Mean(w)
	s := new(big.Int)
	for _, x := range w {
		d := model.Sub(x, avg)
		s.Add(s, d.Mul(d, d))
	}
	s.Div(s, big.NewInt(int64(len(w)-1)))
	return s.Sqrt(s)
}

var (
	two64  = new(big.Int).Lsh(big.NewInt(1), 126)
	big240 = new(big.Int).Lsh(big.NewInt(1), 200)
)

// Usable rounds a range to the spacing and clamps it to the usable ticks.
func Usable(lo, hi, s int) model.Range {
	lo, hi = model.RoundTick(lo, s), model.RoundTick(hi, s)
	if m := model.CeilTick(model.MinTick, s); lo < m {
		lo = m
	}
	if m := model.FloorTick(model.MaxTick, s); hi > m {
		hi = m
	}
	return model.Range{Lo: lo, Hi: hi}
}

// affordable is the liquidity the cash affords. What either token alone would
// afford has to fit 256 bits (128 in the periphery, which refuses otherwise).
func (r *Ref) affordable(a, b *big.Int) (*big.Int, error) {
	p := r.M.P
	if p.Cmp(a) > 0 && p.Cmp(b) < 0 {
		if model.LiquidityForAmounts(p, p, b, r.C0, r.C1).BitLen() > 256 || model.LiquidityForAmounts(p, a, p, r.C0, r.C1).BitLen() > 256 {
			return nil, ErrDomain
		}
	}
	return model.LiquidityForAmounts(p, a, b, r.C0, r.C1), nil
}

// mint opens a range with the largest liquidity the cash affords (or half of it).
func (r *Ref) mint(lo, hi int, half bool) (bool, error) {
	rg := Usable(lo, hi, r.M.Spacing)
	if rg.Lo >= rg.Hi {
		r.Held++
		return false, nil
	}
	l, err := r.affordable(model.SqrtRatioAtTick(rg.Lo), model.SqrtRatioAtTick(rg.Hi))
	if err != nil {
		return false, err
	}
	if half {
		l.Rsh(l, 1)
	}
	if l.Sign() == 0 {
		r.Held++
		return false, nil
	}
	for _, t := range []int{rg.Lo, rg.Hi} {
		g := l
		if x := r.M.Ticks[t]; x != nil {
			g = model.Add(g, x.Gross)
		}
		if g.Cmp(two64) >= 0 {
			return false, ErrDomain
		}
	}
	if model.Add(r.M.L, l).Cmp(two64) >= 0 {
		return false, ErrDomain
	}
	a0, a1, err := r.M.MintPos(rg, l)
	if err != nil {
		return false, err
	}
	r.C0, r.C1 = model.Sub(r.C0, a0), model.Sub(r.C1, a1)
	if r.C0.Sign() < 0 || r.C1.Sign() < 0 {
		return false, errors.New("harness: the reference strategy overspent")
	}
	r.Pos = append(r.Pos, Position{rg, l})
	r.Ever[rg] = true
	r.Opened++
	return true, nil
}

func (r *Ref) around(t int) (int, int) {
	return model.RoundTick(t-r.P.W, r.M.Spacing), model.RoundTick(t+r.P.W, r.M.Spacing)
}

func tickOf(p *big.Int) (int, error) {
	if p.Cmp(model.MinSqrt) < 0 || p.Cmp(model.MaxSqrt) >= 0 {
		return 0, ErrDomain
	}
	return model.TickAtSqrtRatio(p), nil
}

// BandWidth is the half width of the volatility bands, in square root price.
func (r *Ref) BandWidth() *big.Int {
	sv := Volatility(r.window)
	sv.Mul(sv, big.NewInt(int64(r.P.Mul)))
	sv.Rsh(sv, 10)
	return sv.Sqrt(sv)
}

// bands returns the range of the volatility strategies around a square root price.
func (r *Ref) bands(sp *big.Int) model.Range {
	sv := r.BandWidth()
	lo, hi := model.MinTick, model.MaxTick
	if x := model.Sub(sp, sv); x.Cmp(model.MinSqrt) >= 0 {
		lo = model.TickAtSqrtRatio(x)
	}
	if x := model.Add(sp, sv); x.Cmp(model.MaxSqrt) < 0 {
		hi = model.TickAtSqrtRatio(x)
	}
	return Usable(lo, hi, r.M.Spacing)
}

// open provides liquidity by the strategy's rule.
func (r *Ref) open(init bool) error {
	m, s := r.M, r.M.Spacing
	if r.P.NeedsPrices() && (!r.Filled() || (r.P.NeedsVol() && r.P.N < 2)) {
		return ErrDomain
	}
	r.LimitSet = false
	one := func(lo, hi int) error { _, err := r.mint(lo, hi, false); return err }
	// fill puts what is left on one side of the current tick
	fill := func(rg model.Range) error {
		if r.C0.Sign() != 0 {
			if lo := model.CeilTick(m.Tick, s); lo < rg.Hi {
				return one(lo, rg.Hi)
			}
		} else if r.C1.Sign() != 0 {
			if hi := model.FloorTick(m.Tick, s); rg.Lo < hi {
				return one(rg.Lo, hi)
			}
		}
		return nil
	}
	switch r.P.Kind {
	case "none":
		return nil
	case "v2":
		return one(model.CeilTick(model.MinTick, s), model.FloorTick(model.MaxTick, s))
	case "constant":
		if !r.isFixed {
			r.fixed.Lo, r.fixed.Hi = r.around(m.Tick)
			r.isFixed = true
		}
		return one(r.fixed.Lo, r.fixed.Hi)
	case "price":
		return one(r.around(m.Tick))
	case "average":
		t, err := tickOf(new(big.Int).Sqrt(r.Average()))
		if err != nil {
			return err
		}
		return one(r.around(t))
	case "fillup":
		lo, hi := r.around(m.Tick)
		if err := one(lo, hi); err != nil {
			return err
		}
		return fill(model.Range{Lo: lo, Hi: hi})
	case "limit", "two":
		if err := one(r.around(m.Tick)); err != nil {
			return err
		}
		w, half := r.P.B, false
		if r.P.Kind == "limit" {
			w, half = s, true
		}
		if r.C0.Sign() != 0 {
			lo := model.CeilTick(m.Tick, s)
			ok, err := r.mint(lo, lo+w, half)
			if err != nil {
				return err
			}
			if ok {
				r.Limit, r.Dir, r.LimitSet = lo+w, true, true
			}
		}
		if r.C1.Sign() != 0 {
			hi := model.FloorTick(m.Tick, s)
			ok, err := r.mint(hi-w, hi, half)
			if err != nil {
				return err
			}
			if ok {
				r.Limit, r.Dir, r.LimitSet = hi-w, false, true
			} else {
				r.LimitSet = false // whether a range that was not opened is reported is open
			}
		}
		return nil
	case "swaphalf":
		lo, hi := r.around(m.Tick)
		rg := Usable(lo, hi, s)
		if rg.Lo >= rg.Hi {
			r.Held++
			return nil
		}
		if r.C0.Cmp(big240) >= 0 || r.C1.Cmp(big240) >= 0 {
			return ErrDomain
		}
		a, b := model.SqrtRatioAtTick(rg.Lo), model.SqrtRatioAtTick(rg.Hi)
		l, err := r.affordable(a, b)
		if err != nil {
			return err
		}
		if l.Cmp(two64) >= 0 {
			return ErrDomain
		}
		u0, u1 := model.AmountsForLiquidity(m.P, a, b, l)
		d0, d1 := model.Sub(r.C0, u0), model.Sub(r.C1, u1)
		zfo := new(big.Int).Lsh(d0, 9).Cmp(d1) > 0
		half := new(big.Int).Rsh(d1, 1)
		if zfo {
			half.Rsh(d0, 1)
		}
		if half.Sign() > 0 {
			x0, x1, err := m.Swap(zfo, half, new(big.Int))
			if err != nil {
				return ErrDomain
			}
			r.C0, r.C1 = model.Sub(r.C0, x0), model.Sub(r.C1, x1)
			r.Swaps++
		}
		return one(rg.Lo, rg.Hi)
	case "bollinger", "bollfill":
		sp := new(big.Int).Sqrt(r.Average())
		if _, err := tickOf(sp); err != nil {
			return err
		}
		rg := r.bands(sp)
		if err := one(rg.Lo, rg.Hi); err != nil {
			return err
		}
		if r.P.Kind == "bollfill" && !init && rg.Lo <= m.Tick && m.Tick <= rg.Hi {
			return fill(rg)
		}
		return nil
	case "volatility":
		rg := r.bands(m.P)
		return one(rg.Lo, rg.Hi)
	}
	panic("harness: unknown strategy " + r.P.Kind)
}

// Init starts the strategy; returns the cash before.
func (r *Ref) Init() (*big.Int, *big.Int, error) {
	a, b := model.Cp(r.C0), model.Cp(r.C1)
	return a, b, r.open(true)
}

// Rebalance closes and opens again; returns the holdings in between (nil for
// the strategy that provides nothing).
func (r *Ref) Rebalance() (*big.Int, *big.Int, error) {
	if r.P.Kind == "none" {
		return nil, nil, nil
	}
	a, b, err := r.BurnAll()
	if err != nil {
		return nil, nil, err
	}
	return a, b, r.open(false)
}

// BurnAll closes everything; returns the holdings.
func (r *Ref) BurnAll() (*big.Int, *big.Int, error) {
	for _, p := range r.Pos {
		if _, _, err := r.M.BurnPos(p.R, p.L); err != nil {
			return nil, nil, err
		}
		a0, a1, err := r.M.Collect(p.R)
		if err != nil {
			return nil, nil, err
		}
		r.C0, r.C1 = model.Add(r.C0, a0), model.Add(r.C1, a1)
	}
	r.Pos = nil
	return model.Cp(r.C0), model.Cp(r.C1), nil
}

// Amounts is cash plus what burning the positions would release (without fees).
func (r *Ref) Amounts() (*big.Int, *big.Int) {
	a, b := model.Cp(r.C0), model.Cp(r.C1)
	for _, p := range r.Pos {
		x, y := r.M.AmountsForDelta(p.R, model.Neg(p.L))
		a, b = model.Sub(a, x), model.Sub(b, y)
	}
	return a, b
}

// Match draws starting amounts of comparable value at a price.
func (p *Params) Match(t *rapid.T, tick int) {
	l := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(14, 90).Draw(t, "ml")))
	sp := model.SqrtRatioAtTick(tick)
	p.A0 = new(big.Int).Div(new(big.Int).Lsh(l, 96), sp)
	p.A1 = new(big.Int).Rsh(new(big.Int).Mul(l, sp), 96)
	k := rapid.IntRange(0, 8).Draw(t, "mr")
	p.A0.Mul(p.A0, big.NewInt(int64(1+k%3)))
	p.A1.Mul(p.A1, big.NewInt(int64(1+k/3)))
	max := new(big.Int).Lsh(big.NewInt(1), 120)
	if p.A0.Cmp(max) > 0 {
		p.A0 = max
	}
	if p.A1.Cmp(max) > 0 {
		p.A1 = new(big.Int).Set(max)
	}
}
