package model

import (
	"math/big"
	"sort"
)

// Spacing per fee tier.
var Spacing = map[int]int{500: 10, 3000: 60, 10000: 200}

type Tick struct {
	Net, Gross *big.Int
	Out0, Out1 *big.Int // fee growth outside, mod 2^256
}

type Position struct {
	L            *big.Int
	Last0, Last1 *big.Int
	Owed0, Owed1 *big.Int
}

type Range struct{ Lo, Hi int }

// Pool is the reference pool.
type Pool struct {
	Fee, Spacing int
	P            *big.Int
	Tick         int
	L            *big.Int
	FG0, FG1     *big.Int
	Ticks        map[int]*Tick
	Pos          map[Range]*Position // strategy-owned, fee-collecting positions
	Ext          map[Range]*big.Int  // liquidity owned by others (history)
	Steps        int                 // swap steps executed so far
	Crossed      int                 // initialised ticks crossed so far
	sorted       []int
	dirty        bool
}

func NewPool(fee int, p *big.Int) *Pool {
	return &Pool{Fee: fee, Spacing: Spacing[fee], P: Cp(p), Tick: TickAtSqrtRatio(p), L: Zero(), FG0: Zero(), FG1: Zero(),
		Ticks: map[int]*Tick{}, Pos: map[Range]*Position{}, Ext: map[Range]*big.Int{}, dirty: true}
}

func (m *Pool) Clone() *Pool {
	n := *m
	n.P, n.L, n.FG0, n.FG1 = Cp(m.P), Cp(m.L), Cp(m.FG0), Cp(m.FG1)
	n.Ticks = map[int]*Tick{}
	for k, t := range m.Ticks {
		n.Ticks[k] = &Tick{Cp(t.Net), Cp(t.Gross), Cp(t.Out0), Cp(t.Out1)}
	}
	n.Pos = map[Range]*Position{}
	for k, p := range m.Pos {
		n.Pos[k] = &Position{Cp(p.L), Cp(p.Last0), Cp(p.Last1), Cp(p.Owed0), Cp(p.Owed1)}
	}
	n.Ext = map[Range]*big.Int{}
	for k, p := range m.Ext {
		n.Ext[k] = Cp(p)
	}
	n.sorted, n.dirty = nil, true
	return &n
}

// SortedTicks lists initialised ticks in ascending order.
func (m *Pool) SortedTicks() []int {
	if m.dirty {
		s := make([]int, 0, len(m.Ticks))
		for k := range m.Ticks {
			s = append(s, k)
		}
		sort.Ints(s)
		m.sorted, m.dirty = s, false
	}
	return m.sorted
}

func (m *Pool) updateTick(i int, delta *big.Int, upper bool) (cleared bool) {
	t := m.Ticks[i]
	if t == nil {
		t = &Tick{Zero(), Zero(), Zero(), Zero()}
		if i <= m.Tick {
			t.Out0, t.Out1 = Cp(m.FG0), Cp(m.FG1)
		}
		m.Ticks[i] = t
		m.dirty = true
	}
	t.Gross.Add(t.Gross, delta)
	if upper {
		t.Net.Sub(t.Net, delta)
	} else {
		t.Net.Add(t.Net, delta)
	}
	return t.Gross.Sign() == 0
}

// FeeGrowthInside of a range whose ticks are initialised.
func (m *Pool) FeeGrowthInside(r Range) (*big.Int, *big.Int) {
	lo, hi := m.Ticks[r.Lo], m.Ticks[r.Hi]
	f := func(g, l, h *big.Int) *big.Int {
		below, above := l, h
		if m.Tick < r.Lo {
			below = Sub(g, l)
		}
		if m.Tick >= r.Hi {
			above = Sub(g, h)
		}
		return Mod256(Sub(Sub(g, below), above))
	}
	return f(m.FG0, lo.Out0, hi.Out0), f(m.FG1, lo.Out1, hi.Out1)
}

func CheckRange(r Range) error {
	if r.Lo >= r.Hi || r.Lo < MinTick || r.Hi > MaxTick {
		return ErrRevert
	}
	return nil
}

// AmountsForDelta: amounts the pool charges (delta>0, rounded up) or owes
// (delta<0, negative, rounded toward zero) for a liquidity change.
func (m *Pool) AmountsForDelta(r Range, delta *big.Int) (*big.Int, *big.Int) {
	up := delta.Sign() > 0
	l := new(big.Int).Abs(delta)
	a, b := SqrtRatioAtTick(r.Lo), SqrtRatioAtTick(r.Hi)
	a0, a1 := Zero(), Zero()
	switch {
	case m.Tick < r.Lo:
		a0 = Amount0(a, b, l, up)
	case m.Tick < r.Hi:
		a0, a1 = Amount0(m.P, b, l, up), Amount1(a, m.P, l, up)
	default:
		a1 = Amount1(a, b, l, up)
	}
	if !up {
		a0.Neg(a0)
		a1.Neg(a1)
	}
	return a0, a1
}

func (m *Pool) modify(r Range, delta *big.Int) (clLo, clHi bool) {
	if delta.Sign() != 0 {
		clLo = m.updateTick(r.Lo, delta, false)
		clHi = m.updateTick(r.Hi, delta, true)
		if m.Tick >= r.Lo && m.Tick < r.Hi {
			m.L.Add(m.L, delta)
		}
	}
	return
}

func (m *Pool) clear(i int, c bool) {
	if c {
		delete(m.Ticks, i)
		m.dirty = true
	}
}

// Mint adds liquidity owned by others.
func (m *Pool) Mint(r Range, l *big.Int) error {
	if err := CheckRange(r); err != nil || l.Sign() <= 0 {
		return ErrRevert
	}
	m.modify(r, l)
	if m.Ext[r] == nil {
		m.Ext[r] = Zero()
	}
	m.Ext[r].Add(m.Ext[r], l)
	return nil
}

// Burn removes liquidity owned by others.
func (m *Pool) Burn(r Range, l *big.Int) error {
	if err := CheckRange(r); err != nil {
		return err
	}
	e := m.Ext[r]
	if e == nil || e.Cmp(l) < 0 || l.Sign() < 0 {
		return ErrRevert
	}
	a, b := m.modify(r, Neg(l))
	m.clear(r.Lo, a)
	m.clear(r.Hi, b)
	e.Sub(e, l)
	if e.Sign() == 0 {
		delete(m.Ext, r)
	}
	return nil
}

func (m *Pool) position(r Range, delta *big.Int) *Position {
	p := m.Pos[r]
	if p == nil {
		p = &Position{Zero(), Zero(), Zero(), Zero(), Zero()}
		m.Pos[r] = p
	}
	i0, i1 := m.FeeGrowthInside(r)
	p.Owed0.Add(p.Owed0, Floor(Mul(Mod256(Sub(i0, p.Last0)), p.L), Q128))
	p.Owed1.Add(p.Owed1, Floor(Mul(Mod256(Sub(i1, p.Last1)), p.L), Q128))
	p.Last0, p.Last1 = i0, i1
	p.L.Add(p.L, delta)
	return p
}

// MintPos adds liquidity to the collecting position of the range.
func (m *Pool) MintPos(r Range, l *big.Int) (*big.Int, *big.Int, error) {
	if err := CheckRange(r); err != nil || l.Sign() <= 0 {
		return nil, nil, ErrRevert
	}
	a0, a1 := m.AmountsForDelta(r, l)
	m.modify(r, l)
	m.position(r, l)
	return a0, a1, nil
}

// BurnPos removes liquidity from the collecting position; returns released amounts.
func (m *Pool) BurnPos(r Range, l *big.Int) (*big.Int, *big.Int, error) {
	p := m.Pos[r]
	if err := CheckRange(r); err != nil || p == nil || p.L.Cmp(l) < 0 || p.L.Sign() == 0 || l.Sign() < 0 {
		return nil, nil, ErrRevert
	}
	a0, a1 := Zero(), Zero()
	if l.Sign() > 0 {
		a0, a1 = m.AmountsForDelta(r, Neg(l))
		a0.Neg(a0)
		a1.Neg(a1)
	}
	x, y := m.modify(r, Neg(l))
	m.position(r, Neg(l))
	m.clear(r.Lo, x)
	m.clear(r.Hi, y)
	p.Owed0.Add(p.Owed0, a0)
	p.Owed1.Add(p.Owed1, a1)
	return a0, a1, nil
}

// Collect pays everything owed to the position.
func (m *Pool) Collect(r Range) (*big.Int, *big.Int, error) {
	p := m.Pos[r]
	if p == nil {
		return nil, nil, ErrRevert
	}
	a, b := p.Owed0, p.Owed1
	p.Owed0, p.Owed1 = Zero(), Zero()
	return a, b, nil
}

// Flash credits the fee on the amounts.
func (m *Pool) Flash(a0, a1 *big.Int) error {
	if m.L.Sign() <= 0 {
		return ErrRevert
	}
	f := big.NewInt(int64(m.Fee))
	m.FG0 = Mod256(Add(m.FG0, Floor(new(big.Int).Lsh(Ceil(Mul(a0, f), E6), 128), m.L)))
	m.FG1 = Mod256(Add(m.FG1, Floor(new(big.Int).Lsh(Ceil(Mul(a1, f), E6), 128), m.L)))
	return nil
}

// NextTick is the contract's nextInitializedTickWithinOneWord (also defined
// for initialised ticks that are not multiples of the spacing).
func (m *Pool) NextTick(tick int, lte bool) (int, bool) {
	ts := m.SortedTicks()
	c := FloorDiv(tick, m.Spacing)
	if lte {
		lo := FloorDiv(c, 256) * 256 * m.Spacing
		i := sort.SearchInts(ts, tick+1) - 1
		if i >= 0 && ts[i] >= lo {
			return ts[i], true
		}
		return lo, false
	}
	hi := (FloorDiv(c+1, 256)*256 + 255) * m.Spacing
	i := sort.SearchInts(ts, tick+1)
	if i < len(ts) && ts[i] <= hi {
		return ts[i], true
	}
	return hi, false
}

// ValidLimit tells whether the contract accepts the price limit (0 = none).
func (m *Pool) ResolveLimit(zfo bool, limit *big.Int) (*big.Int, bool) {
	lim := Cp(limit)
	if lim.Sign() == 0 {
		if zfo {
			lim = Add(MinSqrt, One)
		} else {
			lim = Sub(MaxSqrt, One)
		}
	}
	if zfo {
		return lim, lim.Cmp(m.P) < 0 && lim.Cmp(MinSqrt) > 0
	}
	return lim, lim.Cmp(m.P) > 0 && lim.Cmp(MaxSqrt) < 0
}

// Swap: amt > 0 exact input, amt < 0 exact output. Returns signed deltas
// (positive: paid to the pool).
func (m *Pool) Swap(zfo bool, amt, limit *big.Int) (*big.Int, *big.Int, error) {
	lim, ok := m.ResolveLimit(zfo, limit)
	if !ok || amt.Sign() == 0 {
		return nil, nil, ErrRevert
	}
	exactIn := amt.Sign() > 0
	rem, calc := Cp(amt), Zero()
	p, tick, l := Cp(m.P), m.Tick, Cp(m.L)
	fg := Cp(m.FG1)
	if zfo {
		fg = Cp(m.FG0)
	}
	for rem.Sign() != 0 && p.Cmp(lim) != 0 {
		m.Steps++
		start := p
		next, init := m.NextTick(tick, zfo)
		if next < MinTick {
			next = MinTick
		} else if next > MaxTick {
			next = MaxTick
		}
		pn := SqrtRatioAtTick(next)
		tgt := pn
		if (zfo && pn.Cmp(lim) < 0) || (!zfo && pn.Cmp(lim) > 0) {
			tgt = lim
		}
		s, err := ComputeStep(p, tgt, l, rem, m.Fee)
		if err != nil {
			return nil, nil, err
		}
		p = s.Next
		if exactIn {
			rem = Sub(rem, Add(s.In, s.Fee))
			calc = Sub(calc, s.Out)
		} else {
			rem = Add(rem, s.Out)
			calc = Add(calc, Add(s.In, s.Fee))
		}
		if l.Sign() > 0 {
			fg = Mod256(Add(fg, Floor(new(big.Int).Lsh(s.Fee, 128), l)))
		}
		if p.Cmp(pn) == 0 {
			if init {
				m.Crossed++
				t := m.Ticks[next]
				g0, g1 := m.FG0, m.FG1
				if zfo {
					g0 = fg
				} else {
					g1 = fg
				}
				t.Out0, t.Out1 = Mod256(Sub(g0, t.Out0)), Mod256(Sub(g1, t.Out1))
				if zfo {
					l = Sub(l, t.Net)
				} else {
					l = Add(l, t.Net)
				}
			}
			tick = next
			if zfo {
				tick--
			}
		} else if p.Cmp(start) != 0 {
			tick = TickAtSqrtRatio(p)
		}
	}
	m.P, m.Tick, m.L = p, tick, l
	if zfo {
		m.FG0 = fg
	} else {
		m.FG1 = fg
	}
	used := Sub(amt, rem)
	if zfo == exactIn {
		return used, calc, nil
	}
	return calc, used, nil
}
