package eventschk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"testing"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/metrics"

	ent "uniswap-simulator/lib/transaction"
)

type ecase struct {
	E []metrics.Event `json:"e"`
}

func dec(n, s string, want *big.Int, optional bool) error {
	if s == "" && optional && want.Sign() == 0 {
		return nil
	}
	x, ok := new(big.Int).SetString(s, 10)
	if !ok || x.Cmp(want) != 0 || x.String() != s {
		return fmt.Errorf("%s is written as %q, want %v", n, s, want)
	}
	return nil
}

// judge checks the JSON text of one event without the simulator's code.
func judge(b []byte, e *metrics.Event) error {
	var m map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		return fmt.Errorf("not JSON: %v: %s", err, b)
	}
	str := func(k string) string { s, _ := m[k].(string); return s }
	num := func(k string) int {
		x, _ := m[k].(json.Number)
		if x == "" {
			return 0
		}
		n, err := strconv.Atoi(string(x))
		if err != nil {
			return -1 << 62
		}
		return n
	}
	if str("type") != e.Type || str("id") != e.ID || num("timestamp") != e.Timestamp || num("tick") != e.Tick || num("tickLower") != e.TickLower || num("tickUpper") != e.TickUpper || (str("useX96") == "true") != e.UseX96 {
		return fmt.Errorf("written as %s, the event is %+v", b, *e)
	}
	for _, err := range []error{dec("amount0", str("amount0"), e.Amount0, false), dec("amount1", str("amount1"), e.Amount1, false), dec("amount", str("amount"), e.Amount, true), dec("sqrtPriceX96", str("sqrtPriceX96"), e.SqrtPriceX96, true)} {
		if err != nil {
			return err
		}
	}
	// the type the files are read with restores it
	var in ent.TransactionInput
	if err := json.Unmarshal(b, &in); err != nil {
		return fmt.Errorf("cannot be read back: %v: %s", err, b)
	}
	flag, _ := strconv.ParseBool(in.UseX96)
	if in.Type != e.Type || in.ID != e.ID || in.Timestamp != e.Timestamp || in.Tick != e.Tick || in.TickLower != e.TickLower || in.TickUpper != e.TickUpper || flag != e.UseX96 {
		return fmt.Errorf("read back as %+v, the event is %+v", in, *e)
	}
	for _, err := range []error{dec("amount0", in.Amount0, e.Amount0, false), dec("amount1", in.Amount1, e.Amount1, false), dec("amount", in.Amount, e.Amount, true), dec("sqrtPriceX96", in.SqrtPriceX96, e.SqrtPriceX96, true)} {
		if err != nil {
			return err
		}
	}
	return nil
}

func TestC30(t *testing.T) {
	engine.Check(t, "C30", engine.Spec[ecase]{
		Sub:  "saving",
		Rule: metrics.EventRule + "; the JSON of each event, of a pointer to it and of the list, against the event field by field and read back with the input type, the event unchanged, hand-written files with optional fields left out read with the input type; non-trivial: at least two kinds of events",
		N:    24000,
		Gen: func(t *rapid.T) ecase {
			return ecase{rapid.SliceOfN(rapid.Custom(metrics.GenEvent), 1, 6).Draw(t, "e")}
		},
		Run: func(c ecase, r *engine.Rec) error {
			kinds := map[string]bool{}
			list := []ent.Transaction{}
			for i := range c.E {
				e := &c.E[i]
				kinds[e.Type] = true
				tx := e.Tx()
				for k, v := range []interface{}{tx, &tx} {
					b, err := json.Marshal(v)
					if err != nil {
						return fmt.Errorf("%s event cannot be written: %v", e.Type, err)
					}
					if err := judge(b, e); err != nil {
						return fmt.Errorf("%s event (form %d): %w", e.Type, k, err)
					}
				}
				if err := e.Same(&tx); err != nil {
					return fmt.Errorf("writing changed the event: %w", err)
				}
				list = append(list, e.Tx())
				var in ent.TransactionInput
				raw := e.RawJSON()
				if err := json.Unmarshal([]byte(raw), &in); err != nil {
					return fmt.Errorf("%s cannot be read: %v", raw, err)
				}
				flag, _ := strconv.ParseBool(in.UseX96)
				if in.Type != e.Type || in.ID != e.ID || in.Timestamp != e.Timestamp || in.Tick != e.Tick || in.TickLower != e.TickLower || in.TickUpper != e.TickUpper || flag != e.UseX96 {
					return fmt.Errorf("%s is read as %+v", raw, in)
				}
				for _, err := range []error{dec("amount0", in.Amount0, e.Amount0, false), dec("amount1", in.Amount1, e.Amount1, false), dec("amount", in.Amount, e.Amount, true), dec("sqrtPriceX96", in.SqrtPriceX96, e.SqrtPriceX96, true)} {
					if err != nil {
						return fmt.Errorf("%s: %w", raw, err)
					}
				}
			}
			b, err := json.Marshal(list)
			if err != nil {
				return fmt.Errorf("the list cannot be written: %v", err)
			}
			var parts []json.RawMessage
			if err := json.Unmarshal(b, &parts); err != nil || len(parts) != len(c.E) {
				return fmt.Errorf("the list of %d events is written as %d (%v)", len(c.E), len(parts), err)
			}
			for i := range parts {
				if err := judge(parts[i], &c.E[i]); err != nil {
					return fmt.Errorf("event %d of the list: %w", i, err)
				}
			}
			if len(kinds) > 1 {
				r.NonTrivial()
			}
			return nil
		},
	})
}
