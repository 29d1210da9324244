package poolchk

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/hist"
)

func gen(w *hist.Weights) func(t *rapid.T) hist.Case {
	return func(t *rapid.T) hist.Case { return hist.Gen(t, w) }
}

// runDiff runs a history in lockstep with the model; nontrivial judges it.
func runDiff(nontrivial func(p *hist.Pair) bool) func(c hist.Case, r *engine.Rec) error {
	return func(c hist.Case, r *engine.Rec) error {
		p := hist.New(&c, r)
		for i := range c.Ops {
			if err := p.Apply(&c.Ops[i]); err != nil {
				return err
			}
		}
		if nontrivial(p) {
			r.NonTrivial()
		}
		return p.Final()
	}
}

func TestC01(t *testing.T) {
	engine.Check(t, "C01", engine.Spec[hist.Case]{
		Sub:  "exact-input histories",
		Rule: "random histories (one in 150 of hundreds of operations) of mints, burns, flashes and exact-input swaps (amounts absolute, or computed to reach a stop +-2 units, or fractions of it, up to max int256; limits none, tick-relative, exactly on the next stop, or a few units away) in lockstep with the reference contract; non-trivial: at least one swap crosses an initialised tick or stops at its limit",
		N:    20000,
		Gen:  gen(&hist.Weights{Kinds: []string{"swap", "swap", "swap", "swap", "swap", "swap", "mint", "mint", "smint", "burn", "sburn", "flash"}, Max: 14, Long: 400}),
		Run:  runDiff(func(p *hist.Pair) bool { return p.CrossSw > 0 || p.Partial > 0 }),
	})
}

func TestC02(t *testing.T) {
	engine.Check(t, "C02", engine.Spec[hist.Case]{
		Sub:  "exact-output histories",
		Rule: "as C01 with 85% exact-output swaps; every exact-output swap that does not stop at its limit is also checked to deliver exactly the requested amount; non-trivial: at least one swap crosses an initialised tick or stops at its limit",
		N:    20000,
		Gen:  gen(&hist.Weights{Kinds: []string{"swap", "swap", "swap", "swap", "swap", "swap", "mint", "mint", "smint", "burn", "sburn", "flash"}, Max: 14, Out: 85, Long: 400}),
		Run:  runDiff(func(p *hist.Pair) bool { return p.CrossSw > 0 || p.Partial > 0 }),
	})
}

func TestC03(t *testing.T) {
	engine.Check(t, "C03", engine.Spec[hist.Case]{
		Sub:  "liquidity histories",
		Rule: "random histories (one in 150 of hundreds of operations) dominated by mints, burns (full, partial, zero) of overlapping, nested, adjacent, identical, word-boundary and full-range positions, with swaps that end on or across their boundaries; every tick's net and gross liquidity, the tick set and all amounts compared with the reference contract; non-trivial: at least 3 liquidity changes and one swap",
		N:    20000,
		Gen:  gen(&hist.Weights{Kinds: []string{"mint", "mint", "mint", "smint", "smint", "smint", "burn", "burn", "sburn", "sburn", "poke", "collect", "swap", "swap", "swap", "flash"}, Max: 18, Out: 20, Long: 400}),
		Run:  runDiff(func(p *hist.Pair) bool { return p.PosOps >= 3 && p.Swaps > 0 }),
	})
}

func TestC04(t *testing.T) {
	engine.Check(t, "C04", engine.Spec[hist.Case]{
		Sub:  "fee accounting histories",
		Rule: "random histories (one in 150 of hundreds of operations) with several collecting positions, pokes, partial burns, re-mints, collects, swaps in both directions and flashes, accumulators starting anywhere including just below the wrap-around; every collect compared with the reference contract, and repeated at once to pay zero; non-trivial: at least two position operations and a swap that crosses a tick",
		N:    20000,
		Gen:  gen(&hist.Weights{Kinds: []string{"smint", "smint", "smint", "mint", "burn", "sburn", "sburn", "poke", "collect", "collect", "swap", "swap", "swap", "swap", "flash"}, Max: 20, Out: 20, Long: 400}),
		Run:  runDiff(func(p *hist.Pair) bool { return p.PosOps >= 2 && p.CrossSw > 0 }),
	})
}

func TestC11(t *testing.T) {
	engine.Check(t, "C11", engine.Spec[hist.Case]{
		Sub:  "invalid operations",
		Rule: "random histories (one in 150 of hundreds of operations) with invalid operations (zero swaps, wrong-side/equal/out-of-range limits, zero or negative mints, empty/inverted/out-of-bounds ranges, flash without liquidity) interleaved; each must be refused (panic) with the state as before, and all valid operations must be accepted and still agree with the reference contract; non-trivial: at least one refused operation followed by a swap or position operation",
		N:    20000,
		Gen: gen(&hist.Weights{Kinds: []string{"swap", "swap", "swap", "mint", "smint", "burn", "sburn", "collect", "flash",
			"bad-swap-zero", "bad-swap-limit", "bad-swap-limit", "bad-swap-limit", "bad-mint-amount", "bad-range", "bad-range", "bad-burn-range", "bad-flash"}, Max: 18, Out: 25, Long: 250}),
		Run: func(c hist.Case, r *engine.Rec) error {
			bad, after := false, false
			err := runDiff(func(p *hist.Pair) bool {
				for i := range c.Ops {
					if len(c.Ops[i].K) > 4 && c.Ops[i].K[:4] == "bad-" {
						bad = true
					} else if bad && (c.Ops[i].K == "swap" || c.Ops[i].K == "sburn" || c.Ops[i].K == "smint") {
						after = true
					}
				}
				return after
			})(c, r)
			return err
		},
	})
}
