package e2echk

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/hist"
	"verifharness/market"
	"verifharness/metrics"
	"verifharness/model"
	"verifharness/sref"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/result"
	"uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
)

// The program's fixed configuration, as documented in main.go and the README.
const (
	fee       = 500
	spacing   = 10
	window    = 100
	day       = 24 * 60 * 60
	delay     = 30 * day
	endTime   = 90000000000000
	snapEvery = 60 * 60
	lastMul   = 65535
	startText = "2000000"
)

var (
	startPrice, _ = new(big.Int).SetString("1350174849792634181862360983626536", 10)
	amount0       = big.NewInt(1000000)
	amount1, _    = new(big.Int).SetString("366874042000000", 10)
)

// data describes a recorded market; the events follow from the seed.
type data struct {
	Seed  uint64 `json:"seed"`
	Pre   int    `json:"pre"`   // events before the start
	Post  int    `json:"post"`  // events after the start
	Step  int    `json:"step"`  // usual time between events after the start
	Busy  int    `json:"busy"`  // out of 8: how often an event is a swap, mint or burn and not a flash
	Hours int    `json:"hours"` // the -n flag
	Name  string `json:"name"`  // the -file flag
	Old   int    `json:"old"`   // 0 no results folder, 1 empty, 2 an older, longer file of the name
	Even  bool   `json:"even"`  // every step after the start is the usual one
	Sub   bool   `json:"sub"`   // odd identifiers, optional fields left out
	Dense bool   `json:"dense"` // before the start, some events come before the next price observation is due
}

type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int { return int(r.next() % uint64(k)) }
func (r *rng) upTo(x *big.Int) *big.Int {
	f := big.NewInt(int64(r.n(1 << 30)))
	f.Mul(f, x)
	f.Rsh(f, 30)
	return f.Add(f, big.NewInt(1))
}

// build makes a well-formed event list on the reference pool.
func (d *data) build() (evs []metrics.Event, txs []ent.Transaction) {
	r := rng(d.Seed)
	m := model.NewPool(fee, startPrice)
	full := model.Range{Lo: model.CeilTick(model.MinTick, spacing), Hi: model.FloorTick(model.MaxTick, spacing)}
	t := 1620158974 + r.n(1000)
	t0 := t
	var live []model.Range
	add := func(e metrics.Event) bool {
		e.Timestamp = t
		e.ID = fmt.Sprintf("0x%016x#%d", r.next(), len(evs))
		if d.Sub {
			e.ID = []string{"\"", "\\u0000", "<&>", "ключ", "{}],", e.ID}[r.n(6)]
		}
		for _, x := range []**big.Int{&e.Amount, &e.Amount0, &e.Amount1, &e.SqrtPriceX96} {
			if *x == nil {
				*x = new(big.Int)
			}
		}
		x := e.Tx()
		n := m.Clone()
		if market.ApplyModel(n, &x) != nil {
			return false
		}
		if e.Type == "Swap" && n.Tick < 100000 || n.Tick > 280000 {
			return false
		}
		m = n
		if e.Type == "Swap" {
			e.Tick, e.SqrtPriceX96 = m.Tick, model.Cp(m.P)
			x = e.Tx()
		}
		evs, txs = append(evs, e), append(txs, x)
		return true
	}
	base := new(big.Int).Lsh(big.NewInt(1), uint(50+r.n(16)))
	add(metrics.Event{Type: "Mint", Amount: base, TickLower: full.Lo, TickUpper: full.Hi})
	live = append(live, full)
	gap := []int{800, 1100, 1400}[r.n(3)]
	seen, due := 1, t0+day/window // price observations so far, and when the next is due
	for i := 1; i < d.Pre+d.Post; i++ {
		switch {
		case i < d.Pre && d.Dense:
			t += 60 + r.n(gap)
			if d.Pre-i <= window+1-seen && t < due {
				t = due
			}
			if left := t0 + delay - 1 - t; left < 0 {
				t = t0 + delay - 1
			}
			if t >= due {
				seen, due = seen+1, due+day/window
			}
		case i < d.Pre:
			// at least one event for every price observation of the window
			t += 864 + r.n(800)
			if left := t0 + delay - 1 - t; left < 0 {
				t = t0 + delay - 1
			}
		case i == d.Pre:
			t = t0 + delay + []int{0, 0, 1, 5000}[r.n(4)]
		default:
			switch k := r.n(8); {
			case d.Even || k > 1:
				t += d.Step
			case k == 1:
				t += r.n(3*d.Step + 1)
			}
		}
		if r.n(8) >= d.Busy {
			add(metrics.Event{Type: "Flash", Amount0: r.upTo(amount0), Amount1: r.upTo(amount1)})
			continue
		}
		done := false
		switch k := r.n(10); {
		case k == 0:
			c := model.FloorTick(m.Tick, spacing)
			x := model.Range{Lo: c - spacing*r.n(200), Hi: c + spacing*(1+r.n(200))}
			done = add(metrics.Event{Type: "Mint", Amount: r.upTo(base), TickLower: x.Lo, TickUpper: x.Hi, Amount0: r.upTo(amount0), Amount1: r.upTo(amount1)})
			if done {
				live = append(live, x)
			}
		case k == 1 && len(live) > 1:
			x := live[1+r.n(len(live)-1)]
			if k := m.Ext[x]; k != nil && k.Sign() > 0 {
				done = add(metrics.Event{Type: "Burn", Amount: r.upTo(new(big.Int).Sub(k, big.NewInt(1))), TickLower: x.Lo, TickUpper: x.Hi})
			}
		case k%2 == 0: // token0 in
			v := new(big.Int).Div(new(big.Int).Lsh(m.L, 96), m.P) // virtual reserve
			a := r.upTo(v.Div(v, big.NewInt([]int64{8, 40, 400}[r.n(3)])))
			done = add(metrics.Event{Type: "Swap", Amount0: a, Amount1: new(big.Int).Neg(r.upTo(amount1))})
		default:
			v := new(big.Int).Rsh(new(big.Int).Mul(m.L, m.P), 96)
			a := r.upTo(v.Div(v, big.NewInt([]int64{8, 40, 400}[r.n(3)])))
			done = add(metrics.Event{Type: "Swap", Amount0: new(big.Int).Neg(r.upTo(amount0)), Amount1: a})
		}
		if !done {
			add(metrics.Event{Type: "Flash", Amount0: r.upTo(amount0), Amount1: new(big.Int)})
		}
	}
	return
}

// run starts the program in dir.
func run(dir string, d *data) (string, error) {
	bin := os.Getenv("HARNESS_MAIN")
	if bin == "" {
		return "", fmt.Errorf("harness: HARNESS_MAIN is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 500*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "bash", "-c", `ulimit -t 1500; exec "$0" "$@"`, bin, "-n", fmt.Sprint(d.Hours), "-file", d.Name)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOMAXPROCS=8", "GOTRACEBACK=single")
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	if err := c.Run(); err != nil {
		if ctx.Err() != nil {
			panic("harness: the program did not end within 500 s")
		}
		s := o.String()
		if len(s) > 1500 {
			s = s[:700] + " ... " + s[len(s)-700:]
		}
		return "", fmt.Errorf("the program failed: %v\n%s", err, s)
	}
	b, err := os.ReadFile(filepath.Join(dir, "results", d.Name))
	if err != nil {
		return "", fmt.Errorf("no results file: %v", err)
	}
	return string(b), nil
}

// alone simulates one multiplier on its own pool.
func alone(txs []ent.Transaction, mul, hours int) []*big.Int {
	p := pool.NewPool("USDC", "WETH", fee, conv.U(startPrice))
	s := strategy.NewBollingerBandsFillUpStrategy(conv.U(amount0), conv.U(amount1), p, window, mul)
	e := executor.CreateExecution(s, txs[0].Timestamp+delay, endTime, hours*3600, snapEvery, day/window, market.CloneTxs(txs))
	e.Run()
	var v []*big.Int
	for _, x := range e.AmountUSDSnapshots {
		v = append(v, conv.B(x))
	}
	return v
}

// check runs the program on d and judges the file: every how many multipliers
// one is simulated on its own, how many by the reference, and whether the
// program is run a second time.
func check(d data, every, refs int, twice bool, r *engine.Rec) error {
	if d.Pre < 1 || d.Post < 1 || d.Hours < 1 || d.Step < 0 || d.Name == "" {
		return nil
	}
	evs, txs := d.build()
	dir, err := os.MkdirTemp("", "e2e")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var parts []string
	for i := range evs {
		if d.Sub {
			parts = append(parts, evs[i].RawJSON())
		} else {
			parts = append(parts, evs[i].FullJSON())
		}
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.Mkdir(filepath.Join(dir, "data"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "data", "transactions_insample.json"), []byte("["+strings.Join(parts, ",\n")+"]"), 0o644))
	if d.Old > 0 {
		must(os.Mkdir(filepath.Join(dir, "results"), 0o755))
	}
	if d.Old > 1 {
		must(os.WriteFile(filepath.Join(dir, "results", d.Name), bytes.Repeat([]byte("old results "), 10000000), 0o644))
	}
	text, err := run(dir, &d)
	if err != nil {
		return err
	}
	var got result.Save
	dec := json.NewDecoder(strings.NewReader(text))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&got); err != nil {
		return fmt.Errorf("the results file cannot be read: %v", err)
	}
	if rest := strings.TrimSpace(text[dec.InputOffset():]); rest != "" {
		return fmt.Errorf("the results file has %d characters after the results", len(rest))
	}
	if got.StartAmount != startText || got.StartTime != txs[0].Timestamp || got.EndTime != txs[len(txs)-1].Timestamp {
		return fmt.Errorf("start amount %s, times %d..%d, want %s, %d..%d", got.StartAmount, got.StartTime, got.EndTime, startText, txs[0].Timestamp, txs[len(txs)-1].Timestamp)
	}
	if len(got.Results) != lastMul {
		return fmt.Errorf("%d results, want one for each multiplier from 1 to %d", len(got.Results), lastMul)
	}
	for i, x := range got.Results {
		if x.MultiplierX10 != i+1 || x.HistoryWindow != day || x.UpdateInterval != d.Hours*3600 {
			return fmt.Errorf("result %d has multiplier %d, window %d, interval %d; want %d, %d, %d", i, x.MultiplierX10, x.HistoryWindow, x.UpdateInterval, i+1, day, d.Hours*3600)
		}
	}
	// each on its own, sampled
	pick := map[int]bool{}
	for _, m := range []int{1, 2, 3, 4, 5, 10, 100, 1000, 1023, 1024, 1025, 4999, 5000, 5001, 5002, 9999, 10000, 10001, 32767, 32768, 60000, 60001, 65000, 65001, 65534, 65535} {
		pick[m] = true
	}
	off := rng(d.Seed ^ 77)
	for m := 1 + off.n(every); m <= lastMul; m += every {
		pick[m] = true
	}
	var muls []int
	for m := range pick {
		muls = append(muls, m)
	}
	var mu sync.Mutex
	var fail error
	var wg sync.WaitGroup
	next := make(chan int)
	distinct := map[string]bool{}
	longest := 0
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range next {
				var v []*big.Int
				var err error
				if pv := engine.Try(func() { v = alone(txs, m, d.Hours) }); pv != nil {
					err = fmt.Errorf("multiplier %d: simulated alone it fails: %v", m, pv)
				} else if err = metrics.CheckResult(v, got.Results[m-1], m, day, d.Hours*3600); err != nil {
					err = fmt.Errorf("multiplier %d: the file differs from simulating it alone: %w", m, err)
				}
				mu.Lock()
				if err != nil && fail == nil {
					fail = err
				}
				distinct[got.Results[m-1].EndAmount] = true
				if len(v) > longest {
					longest = len(v)
				}
				mu.Unlock()
			}
		}()
	}
	for _, m := range muls {
		next <- m
	}
	close(next)
	wg.Wait()
	if fail != nil {
		return fail
	}
	r.Class(fmt.Sprintf("values-%s", map[bool]string{true: "weekly", false: "daily-or-less"}[longest > 337]))
	if len(distinct) > 10 {
		r.NonTrivial()
	} else {
		r.Class("few-distinct-results")
	}
	// some by the reference
	pre := &hist.Pair{M: model.NewPool(fee, startPrice)}
	b := &market.Built{Pre: pre, Txs: txs}
	for i := 0; i < refs; i++ {
		m := 1 + off.n(lastMul)
		if i%2 == 0 {
			m = 1 + off.n(4000)
		}
		par := sref.Params{Kind: "bollfill", A0: amount0, A1: amount1, N: window, Mul: m}
		vals, _, err := market.RefRun(b, txs, par, txs[0].Timestamp+delay, endTime, d.Hours*3600, snapEvery, day/window)
		if err != nil {
			r.Class("reference-out-of-domain")
			continue
		}
		r.Class("reference-compared")
		if err := metrics.CheckResult(vals, got.Results[m-1], m, day, d.Hours*3600); err != nil {
			return fmt.Errorf("multiplier %d: the file differs from the reference simulation: %w", m, err)
		}
	}
	if twice {
		again, err := run(dir, &d)
		if err != nil {
			return fmt.Errorf("second run: %w", err)
		}
		if again != text {
			n := 0
			for n < len(again) && n < len(text) && again[n] == text[n] {
				n++
			}
			return fmt.Errorf("a second run writes a different file (first difference at character %d of %d/%d)", n, len(text), len(again))
		}
	}
	return nil
}

func gen(t *rapid.T) data {
	return data{
		Seed:  rapid.Uint64().Draw(t, "seed"),
		Pre:   window + rapid.IntRange(1, 25).Draw(t, "pre"),
		Post:  rapid.IntRange(1, 60).Draw(t, "post"),
		Step:  rapid.SampledFrom([]int{3600, 600, 3601, 7200, 86400}).Draw(t, "step"),
		Busy:  rapid.IntRange(3, 8).Draw(t, "busy"),
		Hours: rapid.SampledFrom([]int{24, 1, 2, 6, 12, 168, 7, 720, 20000000000}).Draw(t, "hours"),
		Name:  rapid.SampledFrom([]string{"1_day.json", "r", "a b.json"}).Draw(t, "name"),
		Old:   rapid.IntRange(0, 2).Draw(t, "old"),
		Sub:   rapid.Bool().Draw(t, "sub"),
		Dense: rapid.Bool().Draw(t, "dense"),
	}
}

const rule = "well-formed data files (a full-range position, then swaps, mints, burns and flashes made on the reference pool; more events than the price window before the start), update intervals, file names and leftover results"

func TestC31(t *testing.T) {
	kind := func(sub string, twice bool, g func(t *rapid.T, d *data)) {
		engine.Check(t, "C31", engine.Spec[data]{
			Sub:  sub,
			Rule: rule + "; the results file against every multiplier's own simulation (sampled), the reference simulation (a few), and (first part) a second run; non-trivial: more than ten different final values",
			N:    1,
			Gen: func(t *rapid.T) data {
				d := gen(t)
				g(t, &d)
				return d
			},
			Run: func(d data, r *engine.Rec) error {
				if engine.Thorough() {
					return check(d, 1, 12, true, r)
				}
				return check(d, 1, 6, twice, r)
			},
		})
	}
	kind("short intervals over older results", true, func(t *rapid.T, d *data) {
		d.Dense, d.Pre = true, window+rapid.IntRange(40, 60).Draw(t, "dense")
		d.Old, d.Hours = 2, rapid.SampledFrom([]int{1, 2, 7}).Draw(t, "sh")
		d.Step, d.Post = rapid.SampledFrom([]int{3600, 3601, 7200}).Draw(t, "ss"), rapid.IntRange(20, 45).Draw(t, "sp")
	})
	kind("long intervals", false, func(t *rapid.T, d *data) {
		d.Old, d.Hours = rapid.IntRange(0, 1).Draw(t, "lo"), rapid.SampledFrom([]int{12, 24, 48, 168, 720, 20000000000}).Draw(t, "lh")
		d.Step, d.Post = rapid.SampledFrom([]int{7200, 43200, 86400}).Draw(t, "ls"), rapid.IntRange(25, 50).Draw(t, "lp")
	})
	if engine.Thorough() {
		kind("any file", true, func(t *rapid.T, d *data) {})
	}
}

// TestC29E2E is the form of C29 that needs no access to unexported functions.
func TestC29E2E(t *testing.T) {
	engine.Check(t, "C29", engine.Spec[data]{
		Sub:  "metrics in the results file",
		Rule: rule + "; up to 365 hourly values, so that weekly metrics exist; the metrics in the results file against their definitions on the values each multiplier's own simulation gives",
		N:    2,
		Gen: func(t *rapid.T) data {
			d := gen(t)
			d.Step, d.Busy, d.Old, d.Hours, d.Even = 3600, 2, 0, 168, true
			if rapid.Bool().Draw(t, "long") {
				d.Post = rapid.IntRange(340, 365).Draw(t, "weeks")
			} else {
				d.Post = rapid.IntRange(22, 150).Draw(t, "days")
			}
			d.Pre = window + 2
			return d
		},
		Run: func(d data, r *engine.Rec) error { return check(d, 61, 2, false, r) },
	})
}

// TestC30E2E is the form of C30's loading that needs no unexported functions.
func TestC30E2E(t *testing.T) {
	engine.Check(t, "C30", engine.Spec[data]{
		Sub:  "data files read by the program",
		Rule: rule + "; the results against the simulation of the events as they were recorded",
		N:    2,
		Gen: func(t *rapid.T) data {
			d := gen(t)
			d.Old, d.Busy = 0, 7
			return d
		},
		Run: func(d data, r *engine.Rec) error { return check(d, 331, 8, false, r) },
	})
}
