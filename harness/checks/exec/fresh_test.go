package execchk

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/hist"
	"verifharness/market"

	ent "uniswap-simulator/lib/transaction"
)

// The second part of C27: "what it gives when run alone" is measured in a
// process of its own, which has never run anything else. Whatever the code
// keeps beyond an execution (caches, once-only initialisation, pools of
// objects) is empty there, and full of other executions here.

// ev is an event in a form that does not depend on the code's own encoding.
type ev struct {
	Type, ID         string
	A, A0, A1, SP    *big.Int
	Tick, Lo, Hi, Ts int
	X96              bool
}

// alone is all one execution needs.
type alone struct {
	H     hist.Case
	Log   []hist.ROp
	Evs   []ev
	Run   run
	T     int
	Ticks []int
}

func toEvs(txs []ent.Transaction) (l []ev) {
	for _, e := range txs {
		l = append(l, ev{e.Type, e.ID, conv.B(e.Amount), conv.B(e.Amount0), conv.B(e.Amount1), conv.B(e.SqrtPriceX96), e.Tick, e.TickLower, e.TickUpper, e.Timestamp, e.UseX96})
	}
	return
}

func fromEvs(l []ev) (txs []ent.Transaction) {
	for _, e := range l {
		txs = append(txs, ent.Transaction{Type: e.Type, ID: e.ID, Amount: conv.U(e.A), Amount0: conv.U(e.A0), Amount1: conv.U(e.A1), SqrtPriceX96: conv.U(e.SP), Tick: e.Tick, TickLower: e.Lo, TickUpper: e.Hi, Timestamp: e.Ts, UseX96: e.X96})
	}
	return
}

// TestC27Alone is the other process.
func TestC27Alone(t *testing.T) {
	in := os.Getenv("C27_ALONE")
	if in == "" {
		t.Skip("only run by TestC27Fresh")
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var a alone
	if err := json.Unmarshal(b, &a); err != nil {
		t.Fatal(err)
	}
	o := execute(a.Run.S.Real(hist.Rebuild(&a.H, a.Log)), a.Run.P, a.T, fromEvs(a.Evs), a.Ticks)
	b, _ = json.Marshal(o)
	if err := os.WriteFile(in+".tmp", b, 0o644); err != nil {
		t.Fatal(err)
	}
	os.Rename(in+".tmp", in+".out")
}

// inOwnProcess runs one execution in a new process; ok is false if it gave no answer.
func inOwnProcess(a alone) (o outcome, ok bool) {
	b, err := json.Marshal(a)
	if err != nil {
		return
	}
	f, err := os.CreateTemp(".", "alone")
	if err != nil {
		return
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	defer os.Remove(f.Name() + ".out")
	for try := 0; try < 2 && !ok; try++ {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestC27Alone$", "-test.timeout", "120s")
		for _, v := range os.Environ() {
			if !strings.HasPrefix(v, "HARNESS_") {
				cmd.Env = append(cmd.Env, v)
			}
		}
		cmd.Env = append(cmd.Env, "C27_ALONE="+f.Name(), "GOMAXPROCS=2")
		if cmd.Start() != nil {
			continue
		}
		tm := time.AfterFunc(150*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		tm.Stop()
		if b, err := os.ReadFile(f.Name() + ".out"); err == nil {
			ok = json.Unmarshal(b, &o) == nil
		}
	}
	return
}

type fcase struct {
	Cs   []pcase `json:"cs"`   // mixes on different markets, run one after another
	Pick []int   `json:"pick"` // which executions, from the last, are also run alone
}

func fresh(c fcase, r *engine.Rec) error {
	type one struct {
		a   alone
		got outcome
	}
	var all []one
	for k := range c.Cs {
		p := &c.Cs[k]
		b := p.M.Build(engine.Discard())
		if b == nil || len(b.Txs) == 0 {
			continue
		}
		ticks := touched(nil, b)
		shared := hist.Rebuild(&p.M.H, b.Pre.Log)
		txs, evs := market.CloneTxs(b.Txs), toEvs(b.Txs)
		got := make([]outcome, len(p.Runs))
		var wg sync.WaitGroup
		for i := range p.Runs {
			S := p.Runs[i].S.Real(shared)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				got[i] = execute(S, p.Runs[i].P, p.M.T, txs, ticks)
			}(i)
		}
		wg.Wait()
		for i := range p.Runs {
			all = append(all, one{alone{p.M.H, b.Pre.Log, evs, p.Runs[i], p.M.T, ticks}, got[i]})
		}
	}
	if len(all) < 2 {
		return nil
	}
	var wg sync.WaitGroup
	res, long := make([]error, len(c.Pick)), make([]bool, len(c.Pick))
	for n, k := range c.Pick {
		wg.Add(1)
		go func(n int, x one) {
			defer wg.Done()
			want, ok := inOwnProcess(x.a)
			if !ok {
				return
			}
			if !reflect.DeepEqual(x.got, want) {
				res[n] = fmt.Errorf("an execution (%+v, plan %+v) gives %+v among others, %+v in a process of its own", x.a.Run.S, x.a.Run.P, x.got, want)
			}
			long[n] = len(want.Vals) > 1 && want.Fail == ""
		}(n, all[len(all)-1-k%len(all)])
		if n%2 == 1 {
			wg.Wait()
		}
	}
	wg.Wait()
	for n, err := range res {
		if err != nil {
			return err
		}
		if long[n] {
			r.NonTrivial()
		}
	}
	return nil
}

func genMix(t *rapid.T, max int) pcase {
	c := pcase{M: market.Gen(t, 30, true)}
	n := rapid.IntRange(2, max).Draw(t, "runs")
	for i := 0; i < n; i++ {
		x := run{S: genParams(t), P: market.GenPlan(t, &c.M)}
		if rapid.IntRange(0, 3).Draw(t, "early") > 0 {
			span := c.M.Span()
			x.P.Start, x.P.End = span/4, 1<<40
			x.P.Price, x.P.Update, x.P.Snap = 1+span/20, 1+span/8, 1+span/6
		}
		c.Runs = append(c.Runs, x)
	}
	return c
}

func TestC27Fresh(t *testing.T) {
	engine.Check(t, "C27", engine.Spec[fcase]{
		Sub:  "own process",
		Rule: fmt.Sprintf(marketRule, 30) + "; two or three mixes of 2 to 8 executions on different markets (mostly the same strategies at the same tick, with other fees) run in one process, one mix after another and each mix concurrently; some of the executions run again, each in a new process that has run nothing else; values and final pools compared; non-trivial: an execution compared recorded two values or more",
		N:    32,
		Gen: func(t *rapid.T) fcase {
			var c fcase
			for i, n := 0, rapid.IntRange(2, 3).Draw(t, "mixes"); i < n; i++ {
				m := genMix(t, 8)
				if i > 0 && rapid.IntRange(0, 3).Draw(t, "like") > 0 { // like the first mix, in another market
					a := c.Cs[0]
					m.M.H.Tick, m.M.H.Frac = a.M.H.Tick, a.M.H.Frac
					m.M.H.Fee = rapid.SampledFrom([]int{500, 3000, 10000}).Draw(t, "fee")
					for j := range m.Runs {
						if j < len(a.Runs) {
							m.Runs[j].S = a.Runs[j].S
						}
					}
				}
				c.Cs = append(c.Cs, m)
			}
			// counted from the end: the last ones have most behind them
			c.Pick = []int{rapid.IntRange(0, 5).Draw(t, "pick"), rapid.IntRange(0, 30).Draw(t, "pick")}
			return c
		},
		Run: fresh,
	})
}
