package tickchk

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/model"

	"uniswap-simulator/lib/tickdata"
)

// bitmap is the contract's TickBitmap.
type bitmap struct {
	words   map[int]*big.Int
	spacing int
}

func (b *bitmap) flip(tick int) {
	c := tick / b.spacing
	w := b.words[c>>8]
	if w == nil {
		w = new(big.Int)
		b.words[c>>8] = w
	}
	w.SetBit(w, c&255, w.Bit(c&255)^1)
}

func (b *bitmap) next(tick int, lte bool) (int, bool) {
	c := tick / b.spacing
	if tick < 0 && tick%b.spacing != 0 {
		c--
	}
	if !lte {
		c++
	}
	w := b.words[c>>8]
	if w == nil {
		w = new(big.Int)
	}
	bit := c & 255
	if lte {
		mask := model.Sub(new(big.Int).Lsh(model.One, uint(bit)+1), model.One)
		m := new(big.Int).And(w, mask)
		if m.Sign() != 0 {
			return (c - (bit - (m.BitLen() - 1))) * b.spacing, true
		}
		return (c - bit) * b.spacing, false
	}
	m := new(big.Int).Rsh(w, uint(bit))
	if m.Sign() != 0 {
		return (c + int(m.TrailingZeroBits())) * b.spacing, true
	}
	return (c + 255 - bit) * b.spacing, false
}

type tickOp struct {
	K int      `json:"k"` // 0 add, 1 remove, 2 partial change, 3 query, 4 cross, 5 absent lookup
	T int      `json:"t"` // spacing units
	I int      `json:"i"` // index of an existing tick
	D int      `json:"d"` // offset of a query
	U bool     `json:"u"` // upper bound / direction
	A *big.Int `json:"a,omitempty"`
}

type tickCase struct {
	Spacing int      `json:"s"`
	Base    int      `json:"base"`
	Cur     int      `json:"cur"`
	Bulk    int      `json:"bulk,omitempty"` // ticks present from the start
	Stride  int      `json:"stride,omitempty"`
	Ops     []tickOp `json:"ops"`
}

type mtick struct{ net, gross, o0, o1 *big.Int }

func TestC08(t *testing.T) {
	engine.Check(t, "C08", engine.Spec[tickCase]{
		Sub:  "tick search",
		Rule: "random sequences of adding, changing, removing and crossing ticks (dense, sparse, around word boundaries, powers of two apart, around zero, at both ends; several spacings), with searches in both directions from ticks, their neighbours, word boundaries and arbitrary unaligned places after every change, compared with the contract's 256-bit-word bitmap; lookups compared with a map and refused for absent ticks; non-trivial: at least 2 ticks present at some point and a removal or a search that found an initialised tick",
		N:    24000,
		Gen: func(t *rapid.T) tickCase {
			c := tickCase{Spacing: rapid.SampledFrom([]int{10, 60, 200, 10, 60, 200, 1, 2, 7}).Draw(t, "s")}
			max := model.MaxTick / c.Spacing
			switch rapid.IntRange(0, 5).Draw(t, "base") {
			case 0:
				c.Base = 0
			case 1:
				c.Base = -max
			case 2:
				c.Base = max
			case 3:
				c.Base = rapid.IntRange(-max/256-1, max/256).Draw(t, "bw") * 256
			default:
				c.Base = rapid.IntRange(-max, max).Draw(t, "b")
			}
			c.Cur = rapid.IntRange(model.MinTick, model.MaxTick-1).Draw(t, "cur")
			n := rapid.IntRange(1, 30).Draw(t, "n")
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tickOp {
				o := tickOp{K: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3, 3, 3, 3, 3, 4, 5}).Draw(t, "k"), U: rapid.Bool().Draw(t, "u")}
				switch rapid.IntRange(0, 4).Draw(t, "tk") {
				case 4: // the same low bits
					o.T = rapid.IntRange(-1, 1).Draw(t, "td") + rapid.SampledFrom([]int{1, -1}).Draw(t, "ts")<<rapid.IntRange(7, 20).Draw(t, "tb")
				case 0:
					o.T = rapid.IntRange(-6, 6).Draw(t, "t")
				case 1:
					o.T = rapid.IntRange(-300, 300).Draw(t, "t")
				case 2:
					o.T = rapid.IntRange(-3, 3).Draw(t, "tw")*256 + rapid.IntRange(-2, 1).Draw(t, "td")
				default:
					o.T = rapid.IntRange(-max, max).Draw(t, "t")
				}
				o.I = rapid.IntRange(0, 40).Draw(t, "i")
				o.D = rapid.IntRange(-2*c.Spacing, 2*c.Spacing).Draw(t, "d")
				o.A = gen.PosLogU(t, 120)
				return o
			}), n, 60).Draw(t, "ops")
			return c
		},
		Run: runTick,
	})
	engine.Check(t, "C08", engine.Spec[tickCase]{
		Sub:  "many ticks",
		Rule: "the same with 50 to 1200 ticks present from the start (evenly spread, from one to forty spacings apart), removals preferring the lowest and highest ticks; non-trivial: the same",
		N:    400,
		Gen: func(t *rapid.T) tickCase {
			c := tickCase{Spacing: rapid.SampledFrom([]int{10, 60, 200}).Draw(t, "s"), Bulk: rapid.IntRange(50, 1200).Draw(t, "bulk"), Stride: rapid.SampledFrom([]int{1, 2, 3, 7, 40, 255, 257}).Draw(t, "stride")}
			max := model.MaxTick / c.Spacing
			if c.Bulk*c.Stride > 2*max {
				c.Stride = 1
			}
			c.Base = rapid.IntRange(-max, max-c.Bulk*c.Stride).Draw(t, "b")
			if rapid.IntRange(0, 3).Draw(t, "mid") == 0 && c.Bulk*c.Stride/2 < max {
				c.Base = -c.Bulk * c.Stride / 2
			}
			c.Cur = rapid.IntRange(model.MinTick, model.MaxTick-1).Draw(t, "cur")
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) tickOp {
				o := tickOp{K: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 3, 3, 3, 4, 5}).Draw(t, "k"), U: rapid.Bool().Draw(t, "u")}
				o.T = rapid.IntRange(-c.Stride, c.Bulk*c.Stride+c.Stride).Draw(t, "t")
				o.I = rapid.SampledFrom([]int{0, 0, -1, -1, -2, 1, rapid.IntRange(0, c.Bulk).Draw(t, "i")}).Draw(t, "ik")
				o.D = rapid.IntRange(-2*c.Spacing, 2*c.Spacing).Draw(t, "d")
				o.A = gen.PosLogU(t, 120)
				return o
			}), 1, 25).Draw(t, "ops")
			return c
		},
		Run: runTick,
	})
}

func runTick(c tickCase, r *engine.Rec) error {
	td := tickdata.NewTickData(c.Spacing)
	bm := &bitmap{map[int]*big.Int{}, c.Spacing}
	m := map[int]*mtick{}
	max := model.MaxTick / c.Spacing
	keys := func() []int {
		var k []int
		for i := range m {
			k = append(k, i)
		}
		sort.Ints(k)
		return k
	}
	fg0, fg1 := big.NewInt(12345), new(big.Int).Lsh(model.One, 200)
	many, found := false, false
	query := func(tick int) error {
		if tick < model.MinTick {
			tick = model.MinTick
		}
		if tick > model.MaxTick {
			tick = model.MaxTick
		}
		for _, lte := range []bool{true, false} {
			wn, wi := bm.next(tick, lte)
			var gn int
			var gi bool
			if pv := engine.Try(func() { gn, gi = td.NextInitializedTickWithinOneWord(tick, lte) }); pv != nil {
				return fmt.Errorf("search from %d (down=%v) with ticks %v spacing %d panics: %v", tick, lte, keys(), c.Spacing, pv)
			}
			if gn != wn || gi != wi {
				return fmt.Errorf("search from %d (down=%v) with ticks %v spacing %d: got %d initialised=%v, want %d initialised=%v", tick, lte, keys(), c.Spacing, gn, gi, wn, wi)
			}
			if wi {
				found = true
				r.Class("search:initialised")
			} else {
				r.Class("search:word-boundary")
			}
		}
		return nil
	}
	lookup := func(i int) error {
		x := m[i]
		var err error
		pv := engine.Try(func() {
			g := td.GetTick(i)
			if x == nil {
				return
			}
			if g.Index != i {
				err = fmt.Errorf("GetTick(%d) returned tick %d", i, g.Index)
				return
			}
			for _, e := range []error{conv.EqS("net", g.LiquidityNet, x.net), conv.EqS("gross", g.LiquidityGross, x.gross),
				conv.Eq("outside0", g.FeeGrowthOutside0X128, x.o0), conv.Eq("outside1", g.FeeGrowthOutside1X128, x.o1)} {
				if e != nil {
					err = fmt.Errorf("tick %d: %w", i, e)
					return
				}
			}
		})
		if err != nil {
			return err
		}
		if (pv == nil) != (x != nil) {
			return fmt.Errorf("tick %d present: %v, but GetTick: %v (ticks %v)", i, x != nil, pv, keys())
		}
		return nil
	}
	change := func(i int, d *big.Int, upper bool) error {
		x := m[i]
		if x == nil {
			x = &mtick{model.Zero(), model.Zero(), model.Zero(), model.Zero()}
			if i <= c.Cur {
				x.o0, x.o1 = model.Cp(fg0), model.Cp(fg1)
			}
			m[i] = x
			bm.flip(i)
		}
		x.gross.Add(x.gross, d)
		if upper {
			x.net.Sub(x.net, d)
		} else {
			x.net.Add(x.net, d)
		}
		clear := td.UpdateTick(i, c.Cur, conv.U(d), conv.U(fg0), conv.U(fg1), upper)
		if clear != (x.gross.Sign() == 0) {
			return fmt.Errorf("UpdateTick(%d,%v) reports cleared=%v, gross liquidity is %v", i, d, clear, x.gross)
		}
		if clear {
			td.ClearTick(i)
			delete(m, i)
			bm.flip(i)
			found = true
			r.Class("removed")
		}
		return nil
	}
	for k := 0; k < c.Bulk; k++ {
		i := c.Base + k*c.Stride
		if i < -max || i > max {
			continue
		}
		if err := change(i*c.Spacing, big.NewInt(int64(k+1)), k%2 == 1); err != nil {
			return err
		}
	}
	for _, o := range c.Ops {
		i := c.Base + o.T
		if i > max {
			i = max
		}
		if i < -max {
			i = -max
		}
		i *= c.Spacing
		ks := keys()
		if o.K != 0 && len(ks) > 0 && o.K != 3 && o.K != 5 {
			i = ks[((o.I%len(ks))+len(ks))%len(ks)]
		}
		var err error
		switch o.K {
		case 0:
			err = change(i, o.A, o.U)
		case 1:
			if x := m[i]; x != nil {
				err = change(i, model.Neg(x.gross), o.U)
			}
		case 2:
			if x := m[i]; x != nil {
				err = change(i, model.Neg(new(big.Int).Rsh(x.gross, 1)), o.U)
			}
		case 3:
			if o.U && len(ks) > 0 {
				i = ks[((o.I%len(ks))+len(ks))%len(ks)]
			}
			err = query(i + o.D)
		case 4:
			if x := m[i]; x != nil {
				fg0, fg1 = model.Mod256(model.Add(fg0, o.A)), model.Mod256(model.Sub(fg1, o.A))
				x.o0, x.o1 = model.Mod256(model.Sub(fg0, x.o0)), model.Mod256(model.Sub(fg1, x.o1))
				n := td.Cross(i, conv.U(fg0), conv.U(fg1))
				err = conv.EqS(fmt.Sprintf("net liquidity crossing %d", i), n, x.net)
			}
		case 5:
			err = lookup(i)
		}
		if err != nil {
			return err
		}
		if len(m) >= 2 {
			many = true
		}
		if o.K < 3 || o.K == 4 {
			for _, d := range []int{0, 1, -1} {
				if err := query(i + d); err != nil {
					return err
				}
			}
			if err := lookup(i); err != nil {
				return err
			}
		}
	}
	for _, i := range keys() {
		if err := lookup(i); err != nil {
			return err
		}
		if err := query(i + c.Spacing); err != nil {
			return err
		}
	}
	if many && found {
		r.NonTrivial()
	}
	return nil
}
