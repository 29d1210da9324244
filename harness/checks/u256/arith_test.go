package u256chk

import (
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/model"

	ui "uniswap-simulator/uint256"
)

// Ops is one operand tuple; every operation runs on it under every aliasing.
type Ops struct {
	X, Y, M *big.Int
	N       uint64
}

var big1 = big.NewInt(1)

func mod(b *big.Int) *big.Int { return new(big.Int).Mod(b, conv.B256) }
func sgn(b *big.Int) *big.Int {
	if b.Cmp(conv.B255) >= 0 {
		return new(big.Int).Sub(b, conv.B256)
	}
	return new(big.Int).Set(b)
}

func small(t *rapid.T) *big.Int { return big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))) }

// next draws a value related to the ones already drawn.
func next(t *rapid.T, prev ...*big.Int) *big.Int {
	k := rapid.IntRange(0, 9).Draw(t, "rel")
	p := prev[rapid.IntRange(0, len(prev)-1).Draw(t, "which")]
	switch k {
	case 0: // equal or nearly
		return mod(new(big.Int).Add(p, small(t)))
	case 1: // negated
		return mod(new(big.Int).Add(new(big.Int).Neg(p), small(t)))
	case 2: // a near-divisor
		q := gen.PosLogU(t, p.BitLen())
		return mod(new(big.Int).Add(new(big.Int).Div(p, q), small(t)))
	case 3: // a near-multiple
		return mod(new(big.Int).Add(new(big.Int).Mul(p, gen.U256(t)), small(t)))
	case 4: // a limb changed
		i := uint(rapid.IntRange(0, 3).Draw(t, "limb")) * 64
		return mod(new(big.Int).Xor(p, new(big.Int).Lsh(new(big.Int).SetUint64(gen.Limb(t)), i)))
	case 5: // a prefix of it
		return new(big.Int).Rsh(p, uint(rapid.IntRange(0, 255).Draw(t, "sh")))
	}
	return gen.U256(t)
}

func genOps(t *rapid.T) Ops {
	o := Ops{X: gen.U256(t)}
	o.Y = next(t, o.X)
	if rapid.IntRange(0, 5).Draw(t, "topd") == 0 { // normalised divisors whose top words make quotient estimates too large
		d := new(big.Int).Lsh(new(big.Int).SetUint64(1<<63|rapid.Uint64Range(0, 5).Draw(t, "dh")), 64)
		d.Or(d, new(big.Int).SetUint64(gen.Limb(t)))
		if rapid.Bool().Draw(t, "d3") {
			d.Or(d.Lsh(d, 64), new(big.Int).SetUint64(gen.Limb(t)))
		}
		o.Y = new(big.Int).Rsh(d, uint(rapid.IntRange(0, 63).Draw(t, "dsh")))
	}
	o.M = next(t, o.X, o.Y)
	switch rapid.IntRange(0, 5).Draw(t, "mk") {
	case 0: // powers of two
		o.M = new(big.Int).Lsh(big1, uint(rapid.IntRange(0, 255).Draw(t, "mb")))
	case 1: // large moduli
		o.M = mod(new(big.Int).Neg(gen.PosLogU(t, 200)))
	case 2: // just above 192 bits, where reciprocals are largest
		o.M = new(big.Int).Add(new(big.Int).Lsh(big1, uint(rapid.IntRange(190, 255).Draw(t, "mb"))), gen.LogU(t, 190))
	}
	switch rapid.IntRange(0, 5).Draw(t, "nk") {
	case 0:
		o.N = gen.Limb(t)
	case 5: // counts that a narrower type would take for a small one
		o.N = uint64(1)<<uint(rapid.IntRange(8, 63).Draw(t, "np")) + uint64(rapid.IntRange(0, 330).Draw(t, "nb"))
	case 1:
		o.N = uint64(64 * rapid.IntRange(0, 9).Draw(t, "nw"))
	case 2:
		o.N = uint64(rapid.IntRange(0, 40).Draw(t, "nb"))
	default:
		o.N = uint64(rapid.IntRange(0, 330).Draw(t, "n"))
	}
	return o
}

// partitions of {z, a0..} into objects: entry i is the object of element i.
func partitions(n int) [][]int {
	var res [][]int
	var rec func(p []int, max int)
	rec = func(p []int, max int) {
		if len(p) == n {
			res = append(res, append([]int(nil), p...))
			return
		}
		for k := 0; k <= max; k++ {
			m := max
			if k == max {
				m++
			}
			rec(append(p, k), m)
		}
	}
	rec([]int{0}, 1)
	return res
}

var parts = map[int][][]int{1: partitions(2), 2: partitions(3), 3: partitions(4)}

// op describes an operation writing to a receiver.
type op struct {
	name string
	f    func(z *ui.Int, a []*ui.Int) (*ui.Int, interface{})
	want func(a []*big.Int) (*big.Int, interface{}) // unsigned operands; result reduced mod 2^256 afterwards
}

var dirt = conv.U(new(big.Int).Sub(conv.B256, big.NewInt(987654321)))

// aliased runs o on vals under every aliasing pattern of receiver and operands.
func aliased(o *op, vals ...*big.Int) error {
	n := len(vals)
	for _, p := range parts[n] {
		objs := make([]*ui.Int, n+1)
		bv := make([]*big.Int, n)
		args := make([]*ui.Int, n)
		own := make([]*big.Int, n+1)
		for i := 0; i < n; i++ {
			k := p[i+1]
			if objs[k] == nil {
				objs[k] = conv.U(vals[i])
				own[k] = vals[i]
			}
			args[i], bv[i] = objs[k], own[k]
		}
		z := objs[0]
		if z == nil { // fresh receiver holding something else
			z = new(ui.Int)
			*z = *dirt
		}
		w, wf := o.want(bv)
		g, gf := o.f(z, args)
		if g == nil {
			return fmt.Errorf("%s%v (objects %v): returned nil", o.name, bv, p)
		}
		if g != z {
			return fmt.Errorf("%s%v (objects %v): does not return its receiver", o.name, bv, p)
		}
		if err := conv.Eq(fmt.Sprintf("%s%v (receiver and operands are objects %v)", o.name, bv, p), z, w); err != nil {
			return err
		}
		if gf != wf {
			return fmt.Errorf("%s%v (objects %v): flag got %v, want %v", o.name, bv, p, gf, wf)
		}
		for i := 0; i < n; i++ {
			if p[i+1] != 0 && conv.B(args[i]).Cmp(bv[i]) != 0 {
				return fmt.Errorf("%s%v (objects %v): operand %d became %v", o.name, bv, p, i, conv.B(args[i]))
			}
		}
	}
	return nil
}

type I = *ui.Int
type B = *big.Int

func ops1(name string, f func(z, x I) I, w func(x B) B) *op {
	return &op{name, func(z I, a []I) (I, interface{}) { return f(z, a[0]), nil }, func(a []B) (B, interface{}) { return w(a[0]), nil }}
}
func ops2(name string, f func(z, x, y I) I, w func(x, y B) B) *op {
	return &op{name, func(z I, a []I) (I, interface{}) { return f(z, a[0], a[1]), nil }, func(a []B) (B, interface{}) { return w(a[0], a[1]), nil }}
}
func ops3(name string, f func(z, x, y, m I) I, w func(x, y, m B) B) *op {
	return &op{name, func(z I, a []I) (I, interface{}) { return f(z, a[0], a[1], a[2]), nil }, func(a []B) (B, interface{}) { return w(a[0], a[1], a[2]), nil }}
}
func ops2f(name string, f func(z, x, y I) (I, bool), w func(x, y B) B) *op {
	return &op{name, func(z I, a []I) (I, interface{}) { r, o := f(z, a[0], a[1]); return r, o },
		func(a []B) (B, interface{}) {
			r := w(a[0], a[1])
			return r, r.Sign() < 0 || r.Cmp(conv.B256) >= 0
		}}
}

func nb() B { return new(big.Int) }

func zdiv(x, y B) B {
	if y.Sign() == 0 {
		return nb()
	}
	return nb().Div(x, y)
}
func zmod(x, y B) B {
	if y.Sign() == 0 {
		return nb()
	}
	return nb().Mod(x, y)
}

var arith1 = []*op{
	ops1("Neg", func(z, x I) I { return z.Neg(x) }, func(x B) B { return nb().Neg(x) }),
	ops1("Sqrt", func(z, x I) I { return z.Sqrt(x) }, func(x B) B { return nb().Sqrt(x) }),
	ops1("Set", func(z, x I) I { return z.Set(x) }, func(x B) B { return x }),
}
var arith2 = []*op{
	ops2("Add", func(z, x, y I) I { return z.Add(x, y) }, func(x, y B) B { return nb().Add(x, y) }),
	ops2("Sub", func(z, x, y I) I { return z.Sub(x, y) }, func(x, y B) B { return nb().Sub(x, y) }),
	ops2("Mul", func(z, x, y I) I { return z.Mul(x, y) }, func(x, y B) B { return nb().Mul(x, y) }),
	ops2("Div", func(z, x, y I) I { return z.Div(x, y) }, zdiv),
	ops2("Mod", func(z, x, y I) I { return z.Mod(x, y) }, zmod),
	ops2f("AddOverflow", func(z, x, y I) (I, bool) { return z.AddOverflow(x, y) }, func(x, y B) B { return nb().Add(x, y) }),
	ops2f("SubOverflow", func(z, x, y I) (I, bool) { return z.SubOverflow(x, y) }, func(x, y B) B { return nb().Sub(x, y) }),
	ops2f("MulOverflow", func(z, x, y I) (I, bool) { return z.MulOverflow(x, y) }, func(x, y B) B { return nb().Mul(x, y) }),
}
var arith3 = []*op{
	ops3("AddMod", func(z, x, y, m I) I { return z.AddMod(x, y, m) }, func(x, y, m B) B { return zmod(nb().Add(x, y), m) }),
	ops3("MulMod", func(z, x, y, m I) I { return z.MulMod(x, y, m) }, func(x, y, m B) B { return zmod(nb().Mul(x, y), m) }),
	ops3("MulModWithReciprocal", func(z, x, y, m I) I {
		mu := ui.Reciprocal(m)
		keep := mu
		r := z.MulModWithReciprocal(x, y, m, &mu)
		if mu != keep {
			panic("MulModWithReciprocal changed the reciprocal passed to it")
		}
		return r
	}, func(x, y, m B) B { return zmod(nb().Mul(x, y), m) }),
}
var expOp = ops2("Exp", func(z, x, y I) I { return z.Exp(x, y) }, func(x, y B) B { return nb().Exp(x, y, conv.B256) })

func runArith(c Ops, r *engine.Rec) error {
	for _, o := range arith1 {
		for _, v := range []B{c.X, c.Y} {
			if err := aliased(o, v); err != nil {
				return err
			}
		}
	}
	for _, o := range arith2 {
		if err := aliased(o, c.X, c.Y); err != nil {
			return err
		}
		if err := aliased(o, c.Y, c.X); err != nil {
			return err
		}
	}
	for _, o := range arith3 {
		if err := aliased(o, c.X, c.Y, c.M); err != nil {
			return err
		}
	}
	nB := nb().SetUint64(c.N)
	if err := aliased(ops1("AddUint64", func(z, x I) I { return z.AddUint64(x, c.N) }, func(x B) B { return nb().Add(x, nB) }), c.X); err != nil {
		return err
	}
	if err := aliased(ops1("SubUint64", func(z, x I) I { return z.SubUint64(x, c.N) }, func(x B) B { return nb().Sub(x, nB) }), c.X); err != nil {
		return err
	}
	// helpers exported for the wide operations
	x, y := conv.U(c.X), conv.U(c.Y)
	for i := 0; i < 4; i++ {
		hi, lo := ui.UmulHop(x[0], x[i], y[i])
		w := nb().Add(u64(x[0]), nb().Mul(u64(x[i]), u64(y[i])))
		if got := nb().Add(nb().Lsh(u64(hi), 64), u64(lo)); got.Cmp(w) != 0 {
			return fmt.Errorf("UmulHop(%d,%d,%d): got %v want %v", x[0], x[i], y[i], got, w)
		}
		hi, lo = ui.UmulStep(x[0], x[i], y[i], y[0])
		w.Add(w, u64(y[0]))
		if got := nb().Add(nb().Lsh(u64(hi), 64), u64(lo)); got.Cmp(w) != 0 {
			return fmt.Errorf("UmulStep(%d,%d,%d,%d): got %v want %v", x[0], x[i], y[i], y[0], got, w)
		}
	}
	words := func(b B) int { return (b.BitLen() + 63) / 64 }
	r.Class(fmt.Sprintf("div:%dby%d-words", words(c.X), words(c.Y)), fmt.Sprintf("mod:%d-words", words(c.M)))
	if words(c.X) >= 2 && words(c.Y) >= 2 && c.M.Cmp(big1) > 0 {
		r.NonTrivial()
	}
	return nil
}

func u64(x uint64) B { return nb().SetUint64(x) }

type expCase struct{ X, Y *big.Int }

func TestC19(t *testing.T) {
	engine.Check(t, "C19", engine.Spec[Ops]{
		Sub: "arithmetic", N: 120000,
		Rule: "operand triples biased to limb boundaries, near-equal, near-quotient and near-multiple pairs, divisors with maximal quotient-estimate error, moduli of every size; every arithmetic operation runs on them under every partition of receiver and operands into shared objects and is compared with math/big; non-trivial: both operands have at least two words and the modulus exceeds 1",
		Gen:  genOps, Run: runArith,
	})
	engine.Check(t, "C19", engine.Spec[expCase]{
		Sub: "exp", N: 12000,
		Rule: "base and exponent of every size, all aliasings, compared with math/big; non-trivial: base > 1 and exponent > 1",
		Gen: func(t *rapid.T) expCase {
			x := gen.U256(t)
			y := next(t, x)
			if rapid.Bool().Draw(t, "smallexp") {
				y = big.NewInt(int64(rapid.IntRange(0, 300).Draw(t, "e")))
			}
			return expCase{x, y}
		},
		Run: func(c expCase, r *engine.Rec) error {
			if c.X.Cmp(big1) > 0 && c.Y.Cmp(big1) > 0 {
				r.NonTrivial()
			}
			return aliased(expOp, c.X, c.Y)
		},
	})
}

// --- C20

func cmpSign(b B) int { return b.Sign() }

var bit1 = []*op{
	ops1("Not", func(z, x I) I { return z.Not(x) }, func(x B) B { return nb().Sub(nb().Neg(x), big1) }),
	ops1("Abs", func(z, x I) I { return z.Abs(x) }, func(x B) B { return nb().Abs(sgn(x)) }),
}
var bit2 = []*op{
	ops2("And", func(z, x, y I) I { return z.And(x, y) }, func(x, y B) B { return nb().And(x, y) }),
	ops2("Or", func(z, x, y I) I { return z.Or(x, y) }, func(x, y B) B { return nb().Or(x, y) }),
	ops2("Xor", func(z, x, y I) I { return z.Xor(x, y) }, func(x, y B) B { return nb().Xor(x, y) }),
	ops2("SDiv", func(z, x, y I) I { return z.SDiv(x, y) }, func(x, y B) B {
		if y.Sign() == 0 {
			return nb()
		}
		return nb().Quo(sgn(x), sgn(y))
	}),
	ops2("SMod", func(z, x, y I) I { return z.SMod(x, y) }, func(x, y B) B {
		if y.Sign() == 0 {
			return nb()
		}
		return nb().Rem(sgn(x), sgn(y))
	}),
	ops2("ExtendSign", func(z, x, y I) I { return z.ExtendSign(x, y) }, extend),
}

func extend(x, k B) B {
	if k.Cmp(big.NewInt(31)) >= 0 {
		return x
	}
	bits := uint(8*k.Int64() + 8)
	r := nb().Mod(x, nb().Lsh(big1, bits))
	if r.Bit(int(bits-1)) == 1 {
		r.Sub(r, nb().Lsh(big1, bits))
	}
	return r
}

func shiftOps(n uint64) []*op {
	s := n
	if s > 600 {
		s = 600
	}
	k := uint(s)
	return []*op{
		ops1(fmt.Sprintf("Lsh %d ", n), func(z, x I) I { return z.Lsh(x, uint(n)) }, func(x B) B { return nb().Lsh(x, k) }),
		ops1(fmt.Sprintf("Rsh %d ", n), func(z, x I) I { return z.Rsh(x, uint(n)) }, func(x B) B { return nb().Rsh(x, k) }),
		ops1(fmt.Sprintf("SRsh %d ", n), func(z, x I) I { return z.SRsh(x, uint(n)) }, func(x B) B { return nb().Rsh(sgn(x), k) }),
	}
}

func runBits(c Ops, r *engine.Rec) error {
	nB := u64(c.N)
	for _, o := range bit1 {
		for _, v := range []B{c.X, c.Y} {
			if err := aliased(o, v); err != nil {
				return err
			}
		}
	}
	for _, o := range bit2 {
		for _, p := range [][2]B{{c.X, c.Y}, {c.Y, c.X}, {c.X, nB}} {
			if err := aliased(o, p[0], p[1]); err != nil {
				return err
			}
		}
	}
	for _, o := range shiftOps(c.N) {
		for _, v := range []B{c.X, c.Y} {
			if err := aliased(o, v); err != nil {
				return err
			}
		}
	}
	// Byte: the receiver is the word, the operand the index
	for _, ix := range []B{nB, c.Y} {
		want := func(x, k B) B {
			if k.Cmp(big.NewInt(32)) >= 0 {
				return nb()
			}
			return nb().And(nb().Rsh(x, uint(8*(31-k.Int64()))), big.NewInt(255))
		}
		z, k := conv.U(c.X), conv.U(ix)
		if z.Byte(k) != z {
			return fmt.Errorf("Byte does not return its receiver")
		}
		if err := conv.Eq(fmt.Sprintf("Byte(%v) of %v", ix, c.X), z, want(c.X, ix)); err != nil {
			return err
		}
		if conv.B(k).Cmp(ix) != 0 {
			return fmt.Errorf("Byte changed its index")
		}
		z = conv.U(ix)
		z.Byte(z)
		if err := conv.Eq(fmt.Sprintf("Byte(itself) of %v", ix), z, want(ix, ix)); err != nil {
			return err
		}
	}
	// predicates
	for _, p := range [][2]B{{c.X, c.Y}, {c.Y, c.X}, {c.X, c.X}} {
		x, y := conv.U(p[0]), conv.U(p[1])
		u, s := p[0].Cmp(p[1]), sgn(p[0]).Cmp(sgn(p[1]))
		same := conv.B(x).Cmp(conv.B(y)) == 0
		ps := []struct {
			n string
			g interface{}
			w interface{}
		}{
			{"Cmp", x.Cmp(y), u}, {"Lt", x.Lt(y), u < 0}, {"Gt", x.Gt(y), u > 0}, {"Eq", x.Eq(y), same},
			{"Slt", x.Slt(y), s < 0}, {"Sgt", x.Sgt(y), s > 0},
			{"Cmp with itself", x.Cmp(x), 0}, {"Lt itself", x.Lt(x), false}, {"Eq itself", x.Eq(x), true}, {"Slt itself", x.Slt(x), false},
			{"Sign", x.Sign(), sgn(p[0]).Sign()}, {"IsZero", x.IsZero(), p[0].Sign() == 0},
			{"BitLen", x.BitLen(), p[0].BitLen()}, {"ByteLen", x.ByteLen(), (p[0].BitLen() + 7) / 8},
			{"IsUint64", x.IsUint64(), p[0].IsUint64()},
			{"LtUint64", x.LtUint64(c.N), p[0].Cmp(nB) < 0}, {"GtUint64", x.GtUint64(c.N), p[0].Cmp(nB) > 0},
			{"Uint64", x.Uint64(), nb().And(p[0], conv.M64).Uint64()},
		}
		lo, ov := x.Uint64WithOverflow()
		if lo != nb().And(p[0], conv.M64).Uint64() || ov != !p[0].IsUint64() {
			return fmt.Errorf("Uint64WithOverflow(%v): got %d %v", p[0], lo, ov)
		}
		for _, q := range ps {
			if q.g != q.w {
				return fmt.Errorf("%s on %v, %v (n=%d): got %v, want %v", q.n, p[0], p[1], c.N, q.g, q.w)
			}
		}
		if conv.B(x).Cmp(p[0]) != 0 || conv.B(y).Cmp(p[1]) != 0 {
			return fmt.Errorf("a predicate on %v, %v changed its operands", p[0], p[1])
		}
	}
	// constructors and setters
	z := conv.U(c.X)
	d := z.Clone()
	if d == z || conv.B(d).Cmp(c.X) != 0 {
		return fmt.Errorf("Clone of %v: got %v", c.X, conv.B(d))
	}
	d.SetAllOne()
	if conv.B(z).Cmp(c.X) != 0 {
		return fmt.Errorf("changing a clone changed the original")
	}
	for _, q := range []struct {
		n string
		g *ui.Int
		w B
	}{
		{"SetAllOne", d, model.Max256}, {"SetUint64", conv.U(c.X).SetUint64(c.N), nB}, {"NewInt", ui.NewInt(c.N), nB},
		{"SetOne", conv.U(c.X).SetOne(), big1}, {"Clear", conv.U(c.X).Clear(), nb()},
	} {
		if err := conv.Eq(q.n, q.g, q.w); err != nil {
			return err
		}
	}
	if c.N < 256 && c.X.Sign() != 0 && c.Y.Sign() != 0 {
		r.NonTrivial()
	}
	if c.N%64 == 0 {
		r.Class("shift:multiple-of-64")
	}
	if c.N >= 256 {
		r.Class("shift:>=256")
	}
	r.Class(fmt.Sprintf("signs:%d%d", sgn(c.X).Sign()+1, sgn(c.Y).Sign()+1))
	return nil
}

func TestC20(t *testing.T) {
	engine.Check(t, "C20", engine.Spec[Ops]{
		Sub: "bits", N: 150000,
		Rule: "operand pairs biased to limb and sign boundaries and near-equal or negated pairs, shift counts and byte indexes 0..330, multiples of 64 and arbitrary 64-bit values; every comparison, sign and bit operation runs on them under every aliasing and is compared with its definition in math/big; non-trivial: both operands non-zero and the count below 256",
		Gen:  genOps, Run: runBits,
	})
	// every shift count 0..320 on fixed dense patterns, split over the shards
	type shiftCase struct{ N int }
	idx, cnt := engine.Shard()
	engine.Check(t, "C20", engine.Spec[shiftCase]{
		Sub:  "every-shift",
		Rule: "every shift count 0..320, every byte index and sign-extension index 0..40, on sixteen dense bit patterns",
		Enum: func(yield func(shiftCase) bool) {
			for n := idx; n <= 320; n += cnt {
				if !yield(shiftCase{n}) {
					return
				}
			}
		},
		Run: func(c shiftCase, r *engine.Rec) error {
			pat := []uint64{0x8000000000000001, 0x7fffffffffffffff, 0xa5a5a5a55a5a5a5a, 0xfedcba9876543210, 1, ^uint64(0)}
			for i := 0; i < 16; i++ {
				x := nb()
				for j := 0; j < 4; j++ {
					x.Or(x.Lsh(x, 64), u64(pat[(i*(j+1)+j*j)%len(pat)]))
				}
				if err := runBits(Ops{X: x, Y: mod(nb().Neg(x)), M: big1, N: uint64(c.N)}, r); err != nil {
					return err
				}
			}
			r.NonTrivial()
			return nil
		},
	})
}
