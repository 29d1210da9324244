// Package metrics has the definitions of the result metrics and generated
// series and events.
package metrics

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/gen"

	"uniswap-simulator/lib/result"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

// SeriesRule says what GenSeries makes.
const SeriesRule = "series of positive values up to 256 bits: constant, geometric, nearly constant at every magnitude, linear, random walks, jumps between extremes, single and double values"

func pos(x *big.Int) *big.Int {
	if x.Sign() <= 0 {
		return big.NewInt(1)
	}
	if x.BitLen() > 256 {
		return new(big.Int).Sub(conv.B256, big.NewInt(1))
	}
	return x
}

// GenSeries draws a series of at most max values.
func GenSeries(t *rapid.T, max int) []*big.Int {
	n := rapid.IntRange(1, max).Draw(t, "n")
	switch rapid.IntRange(0, 6).Draw(t, "nk") {
	case 0:
		n = rapid.IntRange(1, 5).Draw(t, "n2")
		if n > max {
			n = max
		}
	case 1:
		n = max
	}
	base := gen.PosLogU(t, rapid.SampledFrom([]int{4, 21, 21, 40, 64, 128, 256}).Draw(t, "bits"))
	kind := rapid.IntRange(0, 7).Draw(t, "kind")
	num, den := big.NewInt(int64(rapid.IntRange(1, 1000000).Draw(t, "num"))), big.NewInt(1000000)
	if rapid.Bool().Draw(t, "near1") {
		num = big.NewInt(int64(1000000 + rapid.IntRange(-300, 300).Draw(t, "near")))
	}
	step := gen.PosLogU(t, base.BitLen())
	// cheap deterministic noise from one drawn number, so that long series stay cheap to draw
	seed := rapid.Uint64().Draw(t, "seed")
	next := func() uint64 {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	amp := int64(rapid.SampledFrom([]int{1, 100, 20000, 700000}).Draw(t, "amp"))
	v := make([]*big.Int, n)
	cur := new(big.Int).Set(base)
	for i := range v {
		v[i] = new(big.Int).Set(pos(cur))
		switch kind {
		case 0: // constant
		case 1: // geometric
			cur = new(big.Int).Div(new(big.Int).Mul(v[i], num), den)
			if i%2 == 1 && amp == 1 {
				cur = new(big.Int).Set(v[i])
			}
		case 2: // nearly constant
			cur = new(big.Int).Add(base, big.NewInt(int64(next()%3)-1))
		case 3: // linear
			cur = new(big.Int).Add(v[i], step)
		case 4, 5: // random walk, relative steps
			d := int64(next()%uint64(2*amp+1)) - amp
			cur = new(big.Int).Div(new(big.Int).Mul(v[i], big.NewInt(1000000+d)), den)
		case 6: // jumps
			if next()%2 == 0 {
				cur = big.NewInt(int64(next()%5) + 1)
			} else {
				cur = new(big.Int).Sub(conv.B256, big.NewInt(int64(next()%100)+1))
			}
		default: // anything of the base's size
			x := new(big.Int).SetUint64(next())
			cur = x.Mod(x, base)
		}
	}
	return v
}

// Classify counts a series.
func Classify(v []*big.Int, r *engine.Rec) {
	same := true
	for _, x := range v {
		same = same && x.Cmp(v[0]) == 0
	}
	switch {
	case len(v) <= 2:
		r.Class("at-most-2-values")
	case same:
		r.Class("constant")
	case len(v) >= 4:
		r.NonTrivial()
	}
}

// ratio is b/a-1 as the nearest float.
func rel(a, b *big.Int) float64 {
	f, _ := new(big.Rat).SetFrac(new(big.Int).Sub(b, a), a).Float64()
	return f
}

// Returns are the log returns.
func Returns(v []*big.Int) []float64 {
	var o []float64
	for i := 1; i < len(v); i++ {
		if d := rel(v[i-1], v[i]); math.Abs(d) < 0.5 {
			o = append(o, math.Log1p(d))
		} else {
			f, _ := new(big.Rat).SetFrac(v[i], v[i-1]).Float64()
			o = append(o, math.Log(f))
		}
	}
	return o
}

// Std is the sample standard deviation of the returns.
func Std(v []*big.Int) float64 {
	if len(v) <= 2 {
		return 0
	}
	r := Returns(v)
	m := 0.0
	for _, x := range r {
		m += x / float64(len(r))
	}
	s := 0.0
	for _, x := range r {
		s += (x - m) * (x - m)
	}
	return math.Sqrt(s / float64(len(r)-1))
}

// Down is the downside deviation of the returns about zero.
func Down(v []*big.Int) float64 {
	if len(v) <= 2 {
		return 0
	}
	r := Returns(v)
	s := 0.0
	for _, x := range r {
		if x < 0 {
			s += x * x
		}
	}
	return math.Sqrt(s / float64(len(r)))
}

// VaR is the 5% quantile of the returns.
func VaR(v []*big.Int) float64 {
	if len(v) <= 2 {
		return 0
	}
	r := Returns(v)
	sort.Float64s(r)
	return r[len(r)/20]
}

// Drawdown is the largest relative fall below an earlier value (at most 0).
func Drawdown(v []*big.Int) float64 {
	d := 0.0
	max := v[0]
	for _, x := range v {
		if x.Cmp(max) > 0 {
			max = x
		}
		if e := rel(max, x); e < d {
			d = e
		}
	}
	return d
}

// Near compares floats.
func Near(got, want, abs, relt float64) bool {
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	return math.Abs(got-want) <= abs+relt*math.Abs(want)
}

// Cmp compares a metric of a series.
func Cmp(name string, v []*big.Int, got, want float64) error {
	m := 1.0
	for _, x := range Returns(v) {
		m = math.Max(m, math.Abs(x))
	}
	if Near(got, want, 1e-12*m, 1e-9) {
		return nil
	}
	s := fmt.Sprint(v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return fmt.Errorf("%s of %s (%d values): got %v, want %v", name, s, len(v), got, want)
}

func every(v []*big.Int, n int) (o []*big.Int) {
	for i := 0; i < len(v); i += n {
		o = append(o, v[i])
	}
	return
}

// CheckResult compares a result with the definitions on its series.
func CheckResult(v []*big.Int, g result.RunResult, mul, window, update int) error {
	if g.EndAmount != v[len(v)-1].String() {
		return fmt.Errorf("end amount %s, want %v", g.EndAmount, v[len(v)-1])
	}
	if g.MultiplierX10 != mul || g.HistoryWindow != window || g.UpdateInterval != update {
		return fmt.Errorf("multiplier, window, interval %d/%d/%d, want %d/%d/%d", g.MultiplierX10, g.HistoryWindow, g.UpdateInterval, mul, window, update)
	}
	d, w := every(v, 24), every(v, 168)
	if !Near(g.Return, rel(v[0], v[len(v)-1]), 1e-12, 1e-12) {
		return fmt.Errorf("return %v from %v to %v, want %v", g.Return, v[0], v[len(v)-1], rel(v[0], v[len(v)-1]))
	}
	for _, c := range []struct {
		n string
		v []*big.Int
		g float64
		f func([]*big.Int) float64
	}{
		{"maximum drawdown", v, g.MaxDrawdown, Drawdown},
		{"hourly standard deviation", v, g.StandardDeviationHourly, Std},
		{"daily standard deviation", d, g.StandardDeviationDaily, Std},
		{"weekly standard deviation", w, g.StandardDeviationWeekly, Std},
		{"hourly downside deviation", v, g.DownwardDeviationHourly, Down},
		{"daily downside deviation", d, g.DownwardDeviationDaily, Down},
		{"weekly downside deviation", w, g.DownwardDeviationWeekly, Down},
		{"hourly value at risk", v, g.VaR95Hourly, VaR},
		{"daily value at risk", d, g.VaR95Daily, VaR},
		{"weekly value at risk", w, g.VaR95Weekly, VaR},
	} {
		if err := Cmp(c.n, c.v, c.g, c.f(c.v)); err != nil {
			return err
		}
	}
	return nil
}

// ---- events

// EventRule says what GenEvent makes.
const EventRule = "events of every kind with signed amounts up to the ends of 256 bits, liquidity and prices in the contract's ranges, any ticks and timestamps, identifiers of arbitrary text (short and long, quotes, control characters, non-ASCII)"

// Event is a recorded event.
type Event struct {
	Type         string   `json:"type"`
	ID           string   `json:"id"`
	Amount       *big.Int `json:"amount"`
	Amount0      *big.Int `json:"amount0"`
	Amount1      *big.Int `json:"amount1"`
	SqrtPriceX96 *big.Int `json:"price"`
	Tick         int      `json:"tick"`
	TickLower    int      `json:"lo"`
	TickUpper    int      `json:"hi"`
	Timestamp    int      `json:"ts"`
	UseX96       bool     `json:"use"`
}

func signed(t *rapid.T, n string) *big.Int {
	b := rapid.SampledFrom([]int{0, 8, 64, 128, 255, 255, 256}).Draw(t, n+"b")
	if b == 256 { // the ends of the signed range
		x := new(big.Int).Lsh(big.NewInt(1), 255)
		if rapid.Bool().Draw(t, n+"neg") {
			return x.Neg(x)
		}
		return x.Sub(x, big.NewInt(1))
	}
	x := gen.LogU(t, b)
	if rapid.Bool().Draw(t, n+"neg") {
		x = new(big.Int).Neg(x)
	}
	return x
}

// GenEvent draws an event with the fields of its kind.
func GenEvent(t *rapid.T) Event {
	e := Event{Type: rapid.SampledFrom([]string{"Swap", "Mint", "Burn", "Flash"}).Draw(t, "type"), Amount: new(big.Int), SqrtPriceX96: new(big.Int)}
	switch rapid.IntRange(0, 2).Draw(t, "idk") {
	case 0:
		e.ID = rapid.StringMatching(`0x[0-9a-f]{8,64}#[0-9]{1,6}`).Draw(t, "id")
	case 1:
		e.ID = rapid.String().Draw(t, "id")
	default:
		e.ID = rapid.SampledFrom([]string{"", "\"", "\\", "<&>", "\u2028\u0000\n", "ключ", "null", "a,b]"}).Draw(t, "id")
	}
	if rapid.IntRange(0, 11).Draw(t, "idl") == 0 {
		e.ID = strings.Repeat(e.ID, rapid.IntRange(2, 40).Draw(t, "idrep"))
	}
	if !utf8.ValidString(e.ID) {
		e.ID = strings.ToValidUTF8(e.ID, "?")
	}
	e.Amount0, e.Amount1 = signed(t, "a0"), signed(t, "a1")
	tick := func(n string) int {
		return rapid.SampledFrom([]int{0, rapid.IntRange(-887272, 887272).Draw(t, n), -887272, 887272}).Draw(t, n+"k")
	}
	e.Timestamp = rapid.SampledFrom([]int{0, 1620158974, rapid.IntRange(0, 1<<40).Draw(t, "ts")}).Draw(t, "tsk")
	switch e.Type {
	case "Swap":
		if rapid.IntRange(0, 9).Draw(t, "noprice") > 0 {
			e.SqrtPriceX96 = gen.SqrtPrice(t)
		}
		e.Tick = tick("tick")
		e.UseX96 = rapid.Bool().Draw(t, "use")
	case "Mint", "Burn":
		e.Amount = gen.LogU(t, 128)
		e.TickLower, e.TickUpper = tick("lo"), tick("hi")
	}
	return e
}

// Tx is the simulator's event.
func (e *Event) Tx() ent.Transaction {
	return ent.Transaction{Type: e.Type, ID: e.ID, Amount: conv.U(e.Amount), Amount0: conv.U(e.Amount0), Amount1: conv.U(e.Amount1), SqrtPriceX96: conv.U(e.SqrtPriceX96), Tick: e.Tick, TickLower: e.TickLower, TickUpper: e.TickUpper, Timestamp: e.Timestamp, UseX96: e.UseX96}
}

// RawJSON writes the recorded form without the simulator's code; zero fields
// that may be absent are left out.
func (e *Event) RawJSON() string {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	f := []string{`"type":` + q(e.Type), `"id":` + q(e.ID), fmt.Sprintf(`"timestamp":%d`, e.Timestamp), `"amount0":` + q(e.Amount0.String()), `"amount1":` + q(e.Amount1.String())}
	if e.Amount.Sign() != 0 {
		f = append(f, `"amount":`+q(e.Amount.String()))
	}
	if e.SqrtPriceX96.Sign() != 0 {
		f = append(f, `"sqrtPriceX96":`+q(e.SqrtPriceX96.String()))
	}
	for _, x := range []struct {
		n string
		v int
	}{{"tick", e.Tick}, {"tickLower", e.TickLower}, {"tickUpper", e.TickUpper}} {
		if x.v != 0 {
			f = append(f, fmt.Sprintf(`%q:%d`, x.n, x.v))
		}
	}
	if e.UseX96 {
		f = append(f, `"useX96":"true"`)
	}
	return "{" + strings.Join(f, ",") + "}"
}

func num(n string, got *ui.Int, want *big.Int) error { return conv.Eq(n, got, want) }

// Same compares a loaded event.
func (e *Event) Same(g *ent.Transaction) error {
	if g.Type != e.Type || g.ID != e.ID || g.Tick != e.Tick || g.TickLower != e.TickLower || g.TickUpper != e.TickUpper || g.Timestamp != e.Timestamp || g.UseX96 != e.UseX96 {
		return fmt.Errorf("read type %q id %q tick %d range %d..%d time %d flag %v, want %q %q %d %d..%d %d %v", g.Type, g.ID, g.Tick, g.TickLower, g.TickUpper, g.Timestamp, g.UseX96, e.Type, e.ID, e.Tick, e.TickLower, e.TickUpper, e.Timestamp, e.UseX96)
	}
	for _, err := range []error{num("amount", g.Amount, e.Amount), num("amount0", g.Amount0, e.Amount0), num("amount1", g.Amount1, e.Amount1), num("sqrtPriceX96", g.SqrtPriceX96, e.SqrtPriceX96)} {
		if err != nil {
			return err
		}
	}
	return nil
}

// FullJSON writes the recorded form with every field of the event's kind.
func (e *Event) FullJSON() string {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	f := []string{`"type":` + q(e.Type), `"id":` + q(e.ID), fmt.Sprintf(`"timestamp":%d`, e.Timestamp), `"amount0":` + q(e.Amount0.String()), `"amount1":` + q(e.Amount1.String())}
	switch e.Type {
	case "Swap":
		f = append(f, `"sqrtPriceX96":`+q(e.SqrtPriceX96.String()), fmt.Sprintf(`"tick":%d`, e.Tick), fmt.Sprintf(`"useX96":"%v"`, e.UseX96))
	case "Mint", "Burn":
		f = append(f, `"amount":`+q(e.Amount.String()), fmt.Sprintf(`"tickLower":%d,"tickUpper":%d`, e.TickLower, e.TickUpper))
	}
	return "{" + strings.Join(f, ",") + "}"
}
