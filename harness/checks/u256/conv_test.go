package u256chk

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/conv"
	"verifharness/engine"
	"verifharness/gen"

	ui "uniswap-simulator/uint256"
)

type valCase struct {
	X     *big.Int
	Dirty *big.Int // what the receiver held before
	N     int      // buffer length
}

func canonHex(x B) string { return "0x" + x.Text(16) }

func low(x B, n int) []byte { // low n bytes, big endian
	r := make([]byte, n)
	v := nb().Mod(x, nb().Lsh(big1, uint(8*n)))
	return v.FillBytes(r)
}

var fmts = []string{"%d", "%x", "%X", "%#x", "%o", "%b", "%O", "%v", "%+d", "%80d", "%-80d|", "%080d", "% d", "%s", "%.80d"}

func runVal(c valCase, r *engine.Rec) error {
	x := conv.U(c.X)
	same := func(n string, g []byte, w []byte) error {
		if !bytes.Equal(g, w) {
			return fmt.Errorf("%s(%v): got %x, want %x", n, c.X, g, w)
		}
		return nil
	}
	b32 := x.Bytes32()
	if err := same("Bytes32", b32[:], low(c.X, 32)); err != nil {
		return err
	}
	b20 := x.Bytes20()
	if err := same("Bytes20", b20[:], low(c.X, 20)); err != nil {
		return err
	}
	if err := same("Bytes", x.Bytes(), c.X.Bytes()); err != nil {
		return err
	}
	if err := same(fmt.Sprintf("PaddedBytes %d", c.N), x.PaddedBytes(c.N), func() []byte {
		if c.N >= 32 {
			return append(make([]byte, c.N-32), low(c.X, 32)...)
		}
		return low(c.X, c.N)
	}()); err != nil {
		return err
	}
	dst := bytes.Repeat([]byte{0xa7}, c.N)
	x.WriteToSlice(dst)
	want := bytes.Repeat([]byte{0xa7}, c.N)
	if c.N >= 32 {
		copy(want, low(c.X, 32))
	} else {
		copy(want, low(c.X, c.N))
	}
	if err := same(fmt.Sprintf("WriteToSlice %d", c.N), dst, want); err != nil {
		return err
	}
	var a32 [32]byte
	var a20 [20]byte
	for i := range a32 {
		a32[i] = 0x5c
	}
	for i := range a20 {
		a20[i] = 0x5c
	}
	x.WriteToArray32(&a32)
	x.WriteToArray20(&a20)
	if err := same("WriteToArray32", a32[:], low(c.X, 32)); err != nil {
		return err
	}
	if err := same("WriteToArray20", a20[:], low(c.X, 20)); err != nil {
		return err
	}
	// big integers
	if g := x.ToBig(); g.Cmp(c.X) != 0 {
		return fmt.Errorf("ToBig(%v): got %v", c.X, g)
	}
	if g := x.SToBig(); g.Cmp(sgn(c.X)) != 0 {
		return fmt.Errorf("SToBig(%v): got %v, want %v", c.X, g, sgn(c.X))
	}
	{ // the big integer must not share memory with the number
		g := x.ToBig()
		g.Add(g, big.NewInt(12345))
		g.Lsh(g, 3)
		h := x.SToBig()
		h.Sub(h, big.NewInt(54321))
		if conv.B(x).Cmp(c.X) != 0 {
			return fmt.Errorf("changing the result of ToBig(%v) changed the number", c.X)
		}
	}
	// text
	hx := x.Hex()
	if hx != canonHex(c.X) {
		return fmt.Errorf("Hex(%v): got %q, want %q", c.X, hx, canonHex(c.X))
	}
	if x.String() != hx {
		return fmt.Errorf("String(%v): got %q, want %q", c.X, x.String(), hx)
	}
	tx, err := x.MarshalText()
	if err != nil || string(tx) != hx {
		return fmt.Errorf("MarshalText(%v): got %q, %v", c.X, tx, err)
	}
	back, err := ui.FromHex(hx)
	if err != nil {
		return fmt.Errorf("FromHex(%q): %v", hx, err)
	}
	if err := conv.Eq("FromHex(Hex)", back, c.X); err != nil {
		return err
	}
	for _, d := range []B{c.Dirty, nb()} {
		z := conv.U(d)
		if err := z.UnmarshalText(tx); err != nil {
			return fmt.Errorf("UnmarshalText(%q): %v", tx, err)
		}
		if err := conv.Eq(fmt.Sprintf("UnmarshalText(%q) into a number that held %v", tx, d), z, c.X); err != nil {
			return err
		}
	}
	// JSON, inside a structure, into used receivers
	type rec struct {
		A ui.Int
		B *ui.Int
		C []*ui.Int
	}
	js, err := json.Marshal(&rec{*x, x, []*ui.Int{x, x}}) // by address: the methods have pointer receivers
	if err != nil {
		return fmt.Errorf("JSON of %v: %v", c.X, err)
	}
	var rr rec
	rr.A, rr.B = *conv.U(c.Dirty), conv.U(c.Dirty)
	if err := json.Unmarshal(js, &rr); err != nil {
		return fmt.Errorf("reading JSON %s: %v", js, err)
	}
	for i, g := range []*ui.Int{&rr.A, rr.B, rr.C[0], rr.C[1]} {
		if err := conv.Eq(fmt.Sprintf("JSON round trip (field %d, receiver held %v)", i, c.Dirty), g, c.X); err != nil {
			return err
		}
	}
	jd, _ := json.Marshal(x)
	if string(jd) != `"`+canonHex(c.X)+`"` {
		// the encoding of a pointer uses MarshalText
		return fmt.Errorf("JSON of %v: got %s", c.X, jd)
	}
	// decimal and other formats follow the signed value
	for _, f := range fmts {
		g, w := fmt.Sprintf(f, x), fmt.Sprintf(f, sgn(c.X))
		if g != w {
			return fmt.Errorf("Sprintf(%q, %v): got %q, want %q", f, c.X, g, w)
		}
	}
	// RLP
	var buf bytes.Buffer
	if err := x.EncodeRLP(&buf); err != nil {
		return err
	}
	wr := []byte{0x80}
	if bs := c.X.Bytes(); len(bs) == 1 && bs[0] < 0x80 {
		wr = bs
	} else if len(bs) > 0 {
		wr = append([]byte{0x80 + byte(len(bs))}, bs...)
	}
	if err := same("EncodeRLP", buf.Bytes(), wr); err != nil {
		return err
	}
	for n := 0; n < len(wr); n++ {
		if err := x.EncodeRLP(&full{n}); err == nil {
			return fmt.Errorf("EncodeRLP of %v into a writer that takes %d of %d bytes reports success", c.X, n, len(wr))
		}
	}
	buf.Reset()
	if err := (*ui.Int)(nil).EncodeRLP(&buf); err != nil || buf.String() != "\x80" {
		return fmt.Errorf("EncodeRLP of no number: %x, %v", buf.Bytes(), err)
	}
	if conv.B(x).Cmp(c.X) != 0 {
		return fmt.Errorf("a conversion changed its number from %v to %v", c.X, conv.B(x))
	}
	if c.X.Sign() != 0 && c.Dirty.Sign() != 0 {
		r.NonTrivial()
	}
	return nil
}

// full is a writer that fails after n bytes.
type full struct{ n int }

func (f *full) Write(b []byte) (int, error) {
	if len(b) > f.n {
		n := f.n
		f.n = 0
		return n, errors.New("full")
	}
	f.n -= len(b)
	return len(b), nil
}

type bytesCase struct {
	In    []byte
	Dirty *big.Int
}

func setN(z *ui.Int, n int, in []byte) *ui.Int {
	f := []func([]byte) *ui.Int{nil, z.SetBytes1, z.SetBytes2, z.SetBytes3, z.SetBytes4, z.SetBytes5, z.SetBytes6, z.SetBytes7, z.SetBytes8,
		z.SetBytes9, z.SetBytes10, z.SetBytes11, z.SetBytes12, z.SetBytes13, z.SetBytes14, z.SetBytes15, z.SetBytes16, z.SetBytes17, z.SetBytes18,
		z.SetBytes19, z.SetBytes20, z.SetBytes21, z.SetBytes22, z.SetBytes23, z.SetBytes24, z.SetBytes25, z.SetBytes26, z.SetBytes27, z.SetBytes28,
		z.SetBytes29, z.SetBytes30, z.SetBytes31, z.SetBytes32}
	return f[n](in)
}

func runBytes(c bytesCase, r *engine.Rec) error {
	in := append([]byte(nil), c.In...)
	z := conv.U(c.Dirty)
	if z.SetBytes(in) != z {
		return fmt.Errorf("SetBytes does not return its receiver")
	}
	w := c.In
	if len(w) > 32 {
		w = w[len(w)-32:]
	}
	if err := conv.Eq(fmt.Sprintf("SetBytes(%x) into %v", c.In, c.Dirty), z, nb().SetBytes(w)); err != nil {
		return err
	}
	if !bytes.Equal(in, c.In) {
		return fmt.Errorf("SetBytes changed its input")
	}
	for n := 1; n <= 32 && n <= len(c.In); n++ {
		z := conv.U(c.Dirty)
		g := setN(z, n, in)
		if g != z {
			return fmt.Errorf("SetBytes%d does not return its receiver", n)
		}
		if err := conv.Eq(fmt.Sprintf("SetBytes%d(%x)", n, c.In), z, nb().SetBytes(c.In[:n])); err != nil {
			return err
		}
	}
	if len(c.In) > 8 {
		r.NonTrivial()
	}
	return nil
}

type bigCase struct {
	V     *big.Int
	Dirty *big.Int
}

func runBig(c bigCase, r *engine.Rec) error {
	v := nb().Set(c.V)
	z, ov := ui.FromBig(v)
	wov := nb().Abs(c.V).Cmp(conv.B256) >= 0
	if err := conv.Eq(fmt.Sprintf("FromBig(%v)", c.V), z, c.V); err != nil {
		return err
	}
	if ov != wov {
		return fmt.Errorf("FromBig(%v): overflow %v, want %v", c.V, ov, wov)
	}
	d := conv.U(c.Dirty)
	if ov := d.SetFromBig(v); ov != wov {
		return fmt.Errorf("SetFromBig(%v): overflow %v, want %v", c.V, ov, wov)
	}
	if err := conv.Eq(fmt.Sprintf("SetFromBig(%v) into %v", c.V, c.Dirty), d, c.V); err != nil {
		return err
	}
	if v.Cmp(c.V) != 0 {
		return fmt.Errorf("FromBig changed its argument")
	}
	d.SetAllOne()
	if v.Cmp(c.V) != 0 {
		return fmt.Errorf("FromBig shares memory with its argument")
	}
	if c.V.Sign() >= 0 && !wov {
		if g := z.ToBig(); g.Cmp(c.V) != 0 {
			return fmt.Errorf("FromBig then ToBig of %v: %v", c.V, g)
		}
	}
	if c.V.Cmp(conv.B255) < 0 && nb().Neg(c.V).Cmp(conv.B255) <= 0 {
		if g := z.SToBig(); g.Cmp(c.V) != 0 {
			return fmt.Errorf("FromBig then SToBig of %v: %v", c.V, g)
		}
	}
	if wov {
		r.Class("overflowing")
	}
	if c.V.Sign() < 0 {
		r.Class("negative")
	}
	if c.V.BitLen() > 64 {
		r.NonTrivial()
	}
	return nil
}

type textCase struct {
	S     string
	Dirty *big.Int
}

var hexRE = regexp.MustCompile(`^0[xX](0|[1-9a-fA-F][0-9a-fA-F]*)$`)

// parseHex is the oracle of hexadecimal input.
func parseHex(s string) (B, bool) {
	if !hexRE.MatchString(s) || len(s) > 66 || strings.HasSuffix(s, "\n") {
		return nil, false
	}
	v, ok := nb().SetString(s[2:], 16)
	return v, ok
}

func runText(c textCase, r *engine.Rec) error {
	want, ok := parseHex(c.S)
	judge := func(n string, z *ui.Int, err error) error {
		if ok && err != nil {
			return fmt.Errorf("%s(%q): refused valid input: %v", n, c.S, err)
		}
		if !ok && err == nil {
			return fmt.Errorf("%s(%q): accepted malformed input as %v", n, c.S, conv.B(z))
		}
		if ok {
			return conv.Eq(fmt.Sprintf("%s(%q) into a number that held %v", n, c.S, c.Dirty), z, want)
		}
		return nil
	}
	z, err := ui.FromHex(c.S)
	if e := judge("FromHex", z, err); e != nil {
		return e
	}
	d := conv.U(c.Dirty)
	err = d.UnmarshalText([]byte(c.S))
	if e := judge("UnmarshalText", d, err); e != nil {
		return e
	}
	d = conv.U(c.Dirty)
	err = d.UnmarshalJSON([]byte(`"` + c.S + `"`))
	if e := judge("UnmarshalJSON", d, err); e != nil {
		return e
	}
	// a JSON value that is not a string is refused
	quoted := len(c.S) >= 2 && c.S[0] == '"' && c.S[len(c.S)-1] == '"'
	if !quoted {
		if err := conv.U(c.Dirty).UnmarshalJSON([]byte(c.S)); err == nil {
			return fmt.Errorf("UnmarshalJSON(%q): accepted a non-string", c.S)
		}
	}
	if ok {
		r.Class("text:valid")
	} else {
		r.Class("text:malformed")
	}
	if strings.HasPrefix(c.S, "0x") || strings.HasPrefix(c.S, "0X") {
		r.NonTrivial()
	}
	return nil
}

func genText(t *rapid.T) textCase {
	c := textCase{Dirty: gen.U256(t)}
	s := canonHex(gen.U256(t))
	switch rapid.IntRange(0, 9).Draw(t, "sk") {
	case 0:
		c.S = s
	case 1:
		c.S = strings.ToUpper(s)
	case 2: // random characters
		c.S = rapid.StringOfN(rapid.SampledFrom([]rune("0xX19afAFgG -+_.\"")), 0, 8, -1).Draw(t, "s")
	case 3: // any string
		c.S = rapid.StringN(0, 12, -1).Draw(t, "s")
	case 4: // leading zeros
		c.S = "0x" + strings.Repeat("0", rapid.IntRange(1, 4).Draw(t, "z")) + s[2:]
	case 5: // 62 to 68 digits
		c.S = "0x" + rapid.StringOfN(rapid.SampledFrom([]rune("0123456789abcdefABCDEF")), 62, 68, -1).Draw(t, "s")
	case 6: // mixed case digits
		c.S = "0X" + rapid.StringOfN(rapid.SampledFrom([]rune("123456789abcdefABCDEF0")), 1, 64, -1).Draw(t, "s")
	default: // one character replaced, inserted or removed
		i := rapid.IntRange(0, len(s)-1).Draw(t, "i")
		ch := rapid.SampledFrom([]string{"0", "f", "F", "g", "G", "x", "/", ":", "@", "`", " ", "\x00", "\xff", "é", "-", "_", ""}).Draw(t, "c")
		switch rapid.IntRange(0, 1).Draw(t, "m") {
		case 0:
			c.S = s[:i] + ch + s[i+1:]
		default:
			c.S = s[:i] + ch + s[i:]
		}
	}
	return c
}

func TestC21(t *testing.T) {
	engine.Check(t, "C21", engine.Spec[valCase]{
		Sub: "values", N: 60000,
		Rule: "256-bit values biased to limb and byte boundaries; every conversion out (bytes, padded bytes, slices, big integers, hexadecimal, text, JSON, formats, RLP) equals its definition and, where there is a way back, restores the value into a receiver that held something else; non-trivial: value and previous receiver content are both non-zero",
		Gen: func(t *rapid.T) valCase {
			c := valCase{X: gen.U256(t), Dirty: gen.U256(t), N: rapid.IntRange(0, 70).Draw(t, "n")}
			if rapid.IntRange(0, 3).Draw(t, "byteb") == 0 { // byte boundary
				c.X = mod(nb().Add(nb().Lsh(big1, uint(8*rapid.IntRange(0, 32).Draw(t, "k"))), small(t)))
			}
			return c
		},
		Run: runVal,
	})
	engine.Check(t, "C21", engine.Spec[bytesCase]{
		Sub: "bytes", N: 40000,
		Rule: "byte strings of length 0..70 read by SetBytes and every SetBytesN that fits; non-trivial: more than 8 bytes",
		Gen: func(t *rapid.T) bytesCase {
			n := rapid.IntRange(0, 40).Draw(t, "n")
			if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
				n = rapid.IntRange(40, 70).Draw(t, "n2")
			}
			return bytesCase{rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "b"), gen.U256(t)}
		},
		Run: runBytes,
	})
	engine.Check(t, "C21", engine.Spec[bigCase]{
		Sub: "big", N: 80000,
		Rule: "big integers of up to 600 bits, both signs, biased to the 256-bit boundary; value kept modulo 2^256, overflow reported exactly when the magnitude needs more than 256 bits; non-trivial: more than 64 bits",
		Gen: func(t *rapid.T) bigCase {
			v := gen.LogU(t, 600)
			switch rapid.IntRange(0, 3).Draw(t, "vk") {
			case 0:
				v = gen.U256(t)
			case 1:
				v = nb().Add(nb().Lsh(big1, uint(rapid.SampledFrom([]int{63, 64, 127, 128, 191, 192, 255, 256, 257, 320}).Draw(t, "p"))), small(t))
			}
			if rapid.Bool().Draw(t, "neg") {
				v.Neg(v)
			}
			return bigCase{v, gen.U256(t)}
		},
		Run: runBig,
	})
	engine.Check(t, "C21", engine.Spec[textCase]{
		Sub: "text", N: 80000,
		Rule: "valid, mutated and arbitrary strings given to FromHex, UnmarshalText and UnmarshalJSON, judged by an independent grammar (0x, no leading zeros, at most 64 digits); non-trivial: the input has the 0x prefix",
		Gen:  genText, Run: runText,
	})
}
