// Package market makes recorded markets (a starting pool and a list of
// events) and has the reference executor.
package market

import (
	"errors"
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	g "verifharness/gen"
	"verifharness/hist"
	"verifharness/model"
	"verifharness/sref"

	"uniswap-simulator/lib/pool"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

// Ev is one event, at D seconds after the one before.
type Ev struct {
	D int     `json:"d"`
	O hist.Op `json:"o"`
	// the same operation as the event before, at the same time
	Again bool `json:"again,omitempty"`
	// recorded under the identifier of the event before
	Same bool `json:"same,omitempty"`
}

// Market is a starting pool and what happened on it.
type Market struct {
	H  hist.Case `json:"h"`
	T  int       `json:"t"` // time of the first event
	Ev []Ev      `json:"ev"`
	// the list of events happens this many times in all (0: once), every
	// other time with the swaps in the opposite direction
	Rep int `json:"rep,omitempty"`
}

func (m *Market) len() int { return len(m.Ev) * max(m.Rep, 1) }

// Lengthen makes one market in about `in` a long one, of up to n events.
func (m *Market) Lengthen(t *rapid.T, in, n int) {
	if rapid.IntRange(1, in).Draw(t, "long") == 1 {
		m.Rep = rapid.IntRange(2, max(3, n/len(m.Ev))).Draw(t, "rep")
	}
}

// Plan is the timeline of a run.
type Plan struct {
	Start  int `json:"start"` // relative to the first event
	End    int `json:"end"`   // relative to the first event
	Update int `json:"update"`
	Snap   int `json:"snap"`
	Price  int `json:"price"`
}

// GenOp draws one market event.
func GenOp(t *rapid.T) hist.Op {
	switch rapid.IntRange(0, 11).Draw(t, "ek") {
	case 0, 1:
		return hist.Op{K: "mint", Lo: rapid.IntRange(-20, 20).Draw(t, "lo"), W: rapid.IntRange(1, 25).Draw(t, "w"), Cur: rapid.Bool().Draw(t, "c"), A: g.PosLogU(t, 90)}
	case 2:
		return hist.Op{K: "burn", I: rapid.IntRange(0, 7).Draw(t, "i"), F: rapid.SampledFrom([]int{256, 1, 128, 255, 0}).Draw(t, "f")}
	case 3:
		return hist.Op{K: "flash", A: g.LogU(t, 100), A2: g.LogU(t, 100)}
	}
	o := hist.GenSwap(t, 20)
	o.LM, o.LK = 0, 0
	if o.AM == 3 || (o.AM == 0 && rapid.IntRange(0, 1).Draw(t, "mod") == 0) {
		o.A, o.AK, o.F = nil, rapid.IntRange(1, 4).Draw(t, "ak"), rapid.IntRange(1, 400).Draw(t, "f")
		o.AM = 2
	}
	return o
}

// Gen draws a market with up to max events.
func Gen(t *rapid.T, max int, low bool) Market {
	m := Market{H: hist.Gen(t, &hist.Weights{Kinds: []string{"mint", "mint", "mint", "burn", "swap", "flash"}, Max: 4, Out: 20})}
	if low && m.H.Tick > 250000 {
		m.H.Tick %= 250000
	}
	if rapid.IntRange(0, 4).Draw(t, "bg") > 0 {
		o := hist.Op{K: "mint", W: -1, A: new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(30, 100).Draw(t, "bgl")))}
		m.H.Ops = append([]hist.Op{o}, m.H.Ops...)
	}
	m.T = rapid.SampledFrom([]int{0, 1, 100, 1620158974, 1620158974, 1620158974, 1<<31 - 100, 1<<32 - 100, 1 << 33}).Draw(t, "t0")
	grid := rapid.SampledFrom([]int{1, 1, 5, 60, 3600}).Draw(t, "grid")
	n := rapid.IntRange(1, max).Draw(t, "nev")
	m.Ev = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Ev {
		e := Ev{O: GenOp(t)}
		switch rapid.IntRange(0, 9).Draw(t, "dk") {
		case 0, 1, 2:
			e.D = 0
		case 3, 4, 5:
			e.D = grid
		case 6, 7:
			e.D = rapid.IntRange(0, 3).Draw(t, "d") * grid
		case 8:
			e.D = rapid.IntRange(0, 3*grid+2).Draw(t, "d")
		default:
			e.D = rapid.IntRange(1, 40).Draw(t, "d") * grid
		}
		e.Same = rapid.IntRange(0, 3).Draw(t, "same") == 0
		if rapid.IntRange(0, 19).Draw(t, "again") == 0 {
			e.D, e.Again, e.Same = 0, true, rapid.Bool().Draw(t, "same2")
		}
		return e
	}), n, max).Draw(t, "evs")
	return m
}

// Span is the time between the first and the last event.
func (m *Market) Span() int {
	return m.at(m.len() - 1)
}

// at is the time of event i relative to the first.
func (m *Market) at(i int) int {
	s := 0
	for k := 1; k <= i && k < m.len(); k++ {
		s += m.Ev[k%len(m.Ev)].D
	}
	return s
}

// GenPlan draws a timeline for a market.
func GenPlan(t *rapid.T, m *Market) Plan {
	span := m.Span()
	when := func(n string) int {
		switch rapid.IntRange(0, 7).Draw(t, n+"k") {
		case 0:
			return -rapid.IntRange(0, 5).Draw(t, n)
		case 1:
			return span + rapid.IntRange(-2, 5).Draw(t, n)
		case 2, 3, 4:
			return m.at(rapid.IntRange(0, m.len()-1).Draw(t, n)) + rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(t, n+"o")
		}
		return rapid.IntRange(0, span+1).Draw(t, n)
	}
	iv := func(n string) int {
		switch rapid.IntRange(0, 5).Draw(t, n+"k") {
		case 0:
			return 1
		case 1:
			return rapid.IntRange(1, 10).Draw(t, n)
		case 2:
			return rapid.SampledFrom([]int{60, 864, 3600, 86400, 20000000000 * 3600}).Draw(t, n)
		}
		return rapid.IntRange(1, span/3+2).Draw(t, n)
	}
	p := Plan{Start: when("start"), Update: iv("update"), Snap: iv("snap"), Price: iv("price")}
	if m.Rep > 1 { // the simulator reserves room for as many values as intervals fit
		p.Update = max(p.Update, span/100000+1)
	}
	if rapid.IntRange(0, 2).Draw(t, "endk") == 0 {
		p.End = when("end")
	} else {
		p.End = 1 << 40
	}
	return p
}

// Built is a market made concrete.
type Built struct {
	Pre *hist.Pair // starting pool
	Txs []ent.Transaction
}

// Build makes the starting pool and the event list; nil when the simulator
// and the reference disagree about it (other properties judge that).
func (m *Market) Build(r *engine.Rec) *Built {
	pre := hist.New(&m.H, engine.Discard())
	pre.Loose = true
	for i := range m.H.Ops {
		if pre.Apply(&m.H.Ops[i]) != nil || pre.Broken {
			r.Class("market-diverged")
			return nil
		}
	}
	b := &Built{Pre: pre}
	mk := &hist.Pair{S: hist.Rebuild(&m.H, pre.Log), M: pre.M.Clone(), T0: pre.T0, Tok: pre.Tok, Rec: engine.Discard(), Loose: true, LiveExt: append([]model.Range{}, pre.LiveExt...)}
	if mk.S == nil {
		r.Class("market-diverged")
		return nil
	}
	ts, id := m.T, ""
	var op *hist.Op
	for i := 0; i < m.len(); i++ {
		ev := &m.Ev[i%len(m.Ev)]
		if i > 0 {
			ts += ev.D
		}
		if !ev.Same || id == "" {
			id = fmt.Sprint(i)
		}
		n := len(mk.Log)
		if !ev.Again || i == 0 {
			o := ev.O
			if i/len(m.Ev)%2 == 1 && o.K == "swap" {
				o.Z = !o.Z
			}
			op = &o
		}
		if mk.Apply(op) != nil || mk.Broken {
			r.Class("market-diverged")
			return nil
		}
		if len(mk.Log) == n {
			continue // refused by both
		}
		b.Txs = append(b.Txs, Tx(mk.Log[n], mk, ts, id))
	}
	return b
}

// Tx is the recorded form of a resolved operation that mk just did.
func Tx(l hist.ROp, mk *hist.Pair, ts int, id string) ent.Transaction {
	real := mk.Real
	e := ent.Transaction{Timestamp: ts, ID: id, Amount: new(ui.Int), Amount0: new(ui.Int), Amount1: new(ui.Int), SqrtPriceX96: new(ui.Int)}
	switch l.K {
	case "mint":
		e.Type, e.Amount, e.TickLower, e.TickUpper = "Mint", conv.U(l.A), l.R.Lo, l.R.Hi
		e.Amount0, e.Amount1 = held(l, mk)
	case "burn":
		e.Type, e.Amount, e.TickLower, e.TickUpper = "Burn", conv.U(l.A), l.R.Lo, l.R.Hi
		e.Amount0, e.Amount1 = held(l, mk)
	case "flash":
		e.Type, e.Amount0, e.Amount1 = "Flash", conv.U(l.A), conv.U(l.A2)
	case "swap":
		e.Type, e.Amount0, e.Amount1 = "Swap", conv.U(real[0]), conv.U(real[1])
		e.SqrtPriceX96, e.Tick = conv.U(mk.M.P), mk.M.Tick
	default:
		panic("harness: no event for " + l.K)
	}
	return e
}

// held is what the range holds: recorded with mints and burns.
func held(l hist.ROp, mk *hist.Pair) (*ui.Int, *ui.Int) {
	x, y := model.AmountsForLiquidity(mk.M.P, model.SqrtRatioAtTick(l.R.Lo), model.SqrtRatioAtTick(l.R.Hi), l.A)
	return conv.U(x), conv.U(y)
}

// CloneTxs copies an event list.
func CloneTxs(in []ent.Transaction) []ent.Transaction {
	cp := func(x *ui.Int) *ui.Int {
		y := *x
		return &y
	}
	out := append([]ent.Transaction{}, in...)
	for i := range out {
		e := &out[i]
		e.Amount, e.Amount0, e.Amount1, e.SqrtPriceX96 = cp(e.Amount), cp(e.Amount0), cp(e.Amount1), cp(e.SqrtPriceX96)
	}
	return out
}

// SameTxs compares event lists by value.
func SameTxs(a, b []ent.Transaction) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d events, were %d", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Type != y.Type || x.ID != y.ID || x.Tick != y.Tick || x.TickLower != y.TickLower || x.TickUpper != y.TickUpper || x.Timestamp != y.Timestamp || x.UseX96 != y.UseX96 ||
			*x.Amount != *y.Amount || *x.Amount0 != *y.Amount0 || *x.Amount1 != *y.Amount1 || *x.SqrtPriceX96 != *y.SqrtPriceX96 {
			return fmt.Errorf("event %d is %+v, was %+v", i, x, y)
		}
	}
	return nil
}

// ApplyReal applies a recorded event to a pool as the documentation says.
func ApplyReal(p *pool.Pool, tok int, e *ent.Transaction) (pv interface{}) {
	zero := new(ui.Int)
	tok0, tok1 := hist.Names(tok)
	return engine.Try(func() {
		switch e.Type {
		case "Mint":
			p.Mint(e.TickLower, e.TickUpper, conv.U(conv.B(e.Amount)))
		case "Burn":
			p.Burn(e.TickLower, e.TickUpper, conv.U(conv.B(e.Amount)))
		case "Flash":
			p.Flash(conv.U(conv.B(e.Amount0)), conv.U(conv.B(e.Amount1)))
		case "Swap":
			if conv.S(e.Amount0).Sign() > 0 {
				p.ExactInputSwap(conv.U(conv.B(e.Amount0)), tok0, zero)
			} else if conv.S(e.Amount1).Sign() > 0 {
				p.ExactInputSwap(conv.U(conv.B(e.Amount1)), tok1, zero)
			}
		}
	})
}

// ApplyModel applies a recorded event to the reference pool.
func ApplyModel(m *model.Pool, e *ent.Transaction) error {
	r := model.Range{Lo: e.TickLower, Hi: e.TickUpper}
	switch e.Type {
	case "Mint":
		return m.Mint(r, conv.B(e.Amount))
	case "Burn":
		return m.Burn(r, conv.B(e.Amount))
	case "Flash":
		return m.Flash(conv.B(e.Amount0), conv.B(e.Amount1))
	case "Swap":
		var err error
		if a := conv.S(e.Amount0); a.Sign() > 0 {
			_, _, err = m.Swap(true, a, model.Zero())
		} else if a := conv.S(e.Amount1); a.Sign() > 0 {
			_, _, err = m.Swap(false, a, model.Zero())
		}
		return err
	}
	return nil
}

// Call is one thing the executor does.
type Call struct {
	K string // init price value rebalance close
	I int    // events applied before it
}

// Timeline is the sequence of calls a plan prescribes on an event list. When
// several due times have passed, one is made up at each following event.
func Timeline(txs []ent.Transaction, start, end, update, snap, price int) (calls []Call, applied int) {
	started := false
	var nu, ns, np int
	for i := range txs {
		now := txs[i].Timestamp
		if now > end {
			break
		}
		if !started && now >= start {
			started = true
			nu, ns = now+update, now+snap
			calls = append(calls, Call{"init", i})
		}
		if i == 0 {
			np = now
		}
		if now >= np {
			calls = append(calls, Call{"price", i})
			np += price
		}
		if started && now >= ns {
			calls = append(calls, Call{"value", i})
			ns += snap
		}
		if started && now >= nu {
			calls = append(calls, Call{"rebalance", i})
			nu += update
		}
		applied = i + 1
	}
	return append(calls, Call{"close", applied}), applied
}

// Value prices holdings at a square root price, rounded down.
func Value(a0, a1, p *big.Int) *big.Int {
	n := new(big.Int).Lsh(a1, 192)
	return n.Add(n.Div(n, model.Mul(p, p)), a0)
}

// ErrOut: the run leaves what the properties speak about.
var ErrOut = errors.New("outside the domain")

// RefRun is the reference execution of a strategy: the values it records.
func RefRun(b *Built, txs []ent.Transaction, p sref.Params, start, end, update, snap, price int) ([]*big.Int, *sref.Ref, error) {
	ref := sref.New(p, b.Pre.M)
	calls, applied := Timeline(txs, start, end, update, snap, price)
	var vals []*big.Int
	rec := func(x, y *big.Int) error {
		v := Value(x, y, ref.M.P)
		if v.BitLen() > 256 {
			return ErrOut
		}
		vals = append(vals, v)
		return nil
	}
	k := 0
	do := func(i int) error {
		for k < len(calls) && calls[k].I == i {
			var err error
			var x, y *big.Int
			switch calls[k].K {
			case "init":
				if x, y, err = ref.Init(); err == nil {
					err = rec(x, y)
				}
			case "price":
				err = ref.Snapshot()
			case "value":
				x, y = ref.Amounts()
				err = rec(x, y)
			case "rebalance":
				_, _, err = ref.Rebalance()
			case "close":
				if x, y, err = ref.BurnAll(); err == nil {
					err = rec(x, y)
				}
			}
			if err != nil {
				return err
			}
			k++
		}
		return nil
	}
	for i := 0; i < applied; i++ {
		if err := do(i); err != nil {
			return nil, nil, err
		}
		if err := ApplyModel(ref.M, &txs[i]); err != nil {
			return nil, nil, err
		}
	}
	return vals, ref, do(applied)
}
