package execchk

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/hist"
	"verifharness/market"
	"verifharness/sref"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

type run struct {
	S sref.Params `json:"s"`
	P market.Plan `json:"p"`
}

type pcase struct {
	M     market.Market `json:"m"`
	Runs  []run         `json:"runs"`
	Yield int           `json:"yield"` // when goroutines start: 0 as they are built, 1 together, 2 with pauses
}

// outcome of one execution: its values, its final pool, or how it failed.
type outcome struct {
	Vals []string
	Pool string
	Fail string
}

func execute(S strategy.Strategy, p market.Plan, t0 int, txs []ent.Transaction, ticks []int) (o outcome) {
	if pv := engine.Try(func() {
		ex := executor.CreateExecution(S, t0+p.Start, t0+p.End, p.Update, p.Snap, p.Price, txs)
		ex.Run()
		for _, v := range ex.AmountUSDSnapshots {
			o.Vals = append(o.Vals, conv.B(v).String())
		}
	}); pv != nil {
		o.Fail = fmt.Sprint(pv)
	}
	o.Pool = fingerprint(S.GetPool(), ticks)
	return
}

func parallel(c pcase, r *engine.Rec) error {
	b := c.M.Build(r)
	if b == nil || len(b.Txs) == 0 {
		return nil
	}
	ticks := touched(nil, b)
	// each alone, on its own pool and event list
	want := make([]outcome, len(c.Runs))
	for i, x := range c.Runs {
		want[i] = execute(x.S.Real(hist.Rebuild(&c.M.H, b.Pre.Log)), x.P, c.M.T, market.CloneTxs(b.Txs), ticks)
	}
	// all at once, from one pool and one event list
	var shared *pool.Pool = hist.Rebuild(&c.M.H, b.Pre.Log)
	txs := market.CloneTxs(b.Txs)
	amounts := map[string]*ui.Int{} // one number per starting amount, as the program shares them
	num := func(b *big.Int) *ui.Int {
		if amounts[b.String()] == nil {
			amounts[b.String()] = conv.U(b)
		}
		return amounts[b.String()]
	}
	got := make([]outcome, len(c.Runs))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	if c.Yield != 1 {
		close(gate)
	}
	for i := range c.Runs {
		S := c.Runs[i].S.RealWith(shared, num)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			got[i] = execute(S, c.Runs[i].P, c.M.T, txs, ticks)
		}(i)
		if c.Yield == 2 {
			runtime.Gosched()
		}
	}
	if c.Yield == 1 {
		close(gate)
	}
	wg.Wait()
	long := 0
	for i := range want {
		if !reflect.DeepEqual(got[i], want[i]) {
			return fmt.Errorf("execution %d of %d (%+v, plan %+v) gives %+v among the others, %+v alone", i, len(want), c.Runs[i].S, c.Runs[i].P, got[i], want[i])
		}
		if len(want[i].Vals) > 1 && want[i].Fail == "" {
			long++
			r.Class("parallel:" + c.Runs[i].S.Kind)
		}
	}
	if long > 1 {
		r.NonTrivial()
	}
	for k, v := range amounts {
		if conv.B(v).String() != k {
			return fmt.Errorf("the shared starting amount %s is now %v", k, conv.B(v))
		}
	}
	if err := market.SameTxs(txs, b.Txs); err != nil {
		return fmt.Errorf("the shared event list changed: %w", err)
	}
	if x, y := fingerprint(shared, ticks), fingerprint(hist.Rebuild(&c.M.H, b.Pre.Log), ticks); x != y {
		return fmt.Errorf("the shared starting pool changed: %s, was %s", x, y)
	}
	return nil
}

func TestC27(t *testing.T) {
	engine.Check(t, "C27", engine.Spec[pcase]{
		Sub:   "parallel runs",
		Rule:  fmt.Sprintf(marketRule, 30) + "; 2 to 12 executions (strategies, parameters and timelines drawn per execution) run first alone on private pools and event lists, then concurrently on one shared starting pool, event list and (mostly) starting amounts, built while earlier ones already run; values and final pools compared, the shared pool, events and amounts compared with their originals, under the race detector; non-trivial: at least two executions recorded two values or more",
		N:     4000,
		Fatal: true,
		Gen: func(t *rapid.T) pcase {
			c := pcase{M: market.Gen(t, 30, true), Yield: rapid.IntRange(0, 2).Draw(t, "y")}
			n := rapid.IntRange(2, 12).Draw(t, "runs")
			common := rapid.IntRange(0, 3).Draw(t, "common") > 0 // the same starting amounts for all
			for i := 0; i < n; i++ {
				x := run{S: genParams(t)}
				if i > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 { // same strategy, other parameter
					m := x.S.Mul
					x.S = c.Runs[0].S
					x.S.Mul = m
				}
				if common && i > 0 {
					x.S.A0, x.S.A1 = c.Runs[0].S.A0, c.Runs[0].S.A1
				}
				x.P = market.GenPlan(t, &c.M)
				if rapid.IntRange(0, 3).Draw(t, "early") > 0 {
					span := c.M.Span()
					x.P.Start, x.P.End = span/4, 1<<40
					x.P.Price, x.P.Update, x.P.Snap = 1+span/20, 1+span/8, 1+span/6
				}
				c.Runs = append(c.Runs, x)
			}
			return c
		},
		Run: parallel,
	})
}
