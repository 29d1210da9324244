From f44b4ee5b0a9d1cc0ad3afd87df3801b7938484a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 01/20] fix: search ticks in a pool without initialised ticks

A swap on a pool that has no liquidity yet panicked with "TickData is empty";
the contract just moves the price through the empty words.
---
 lib/tickdata/tickdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..c260bc8 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -169,7 +169,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-		if t.isBelowSmallest(tick) {
+		if len(t.ticks) == 0 || t.isBelowSmallest(tick) {
 			return minimum, false
 		}
 
@@ -179,7 +179,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	} else {
 		wordPos := (compressed + 1) >> 8
 		maximum := (((wordPos + 1) << 8) - 1) * t.tickSpacing
-		if t.isAtOrAboveLargest(tick) {
+		if len(t.ticks) == 0 || t.isAtOrAboveLargest(tick) {
 			return maximum, false
 		}
 		index := t.nextInitializedTick(tick, lte).Index
-- 
2.43.0


From 1961b7f68c8b7eb9a12fc5cbfc37bda40c44403c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/20] fix: round towards negative infinity when compressing
 negative ticks

Integer division truncates towards zero, so for negative ticks that are not
multiples of the tick spacing the next tick was searched in the wrong word;
swaps took wrong steps or did not terminate.
---
 lib/tickdata/tickdata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index c260bc8..fb08991 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -166,6 +166,9 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		compressed-- // round towards negative infinity
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From b6524305ba33ec77da6fc0d4a9b37027d22a025b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 03/20] fix: divide a numerator that has fewer words than the
 divisor

Udivrem indexed out of range when the numerator was at least two 64-bit words
shorter than the divisor, e.g. MulDiv(1, 1, 2^200) or a swap of one unit at
high prices.
---
 uint256/uint256.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..d597f7b 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,12 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	if uLen < dLen {
+		// numerator below divisor: quotient zero, remainder u
+		copy(rem[:], u[:uLen])
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From d022235ef2b6b14d478e0d4f858c89c339786d54 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 04/20] fix: key positions by the decimal value of their ticks

string(int) yields the UTF-8 encoding of a code point: every negative tick (and
every tick that is not a valid code point) mapped to the same string, so
different ranges shared one position.
---
 lib/pool/pool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..9ae58b1 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -97,7 +98,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -167,7 +168,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From aaf2bc9087dff272d6f10d7da96d09dbeb3c5723 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 05/20] fix: use full precision for token1 amounts above 160
 bits

amount*2^96 was reduced modulo 2^256, so the next price of such a swap step was
far too low; the contract uses mulDiv here.
---
 lib/sqrtprice_math/sqrtprice_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index abce49d..fa44c4f 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -98,7 +98,7 @@ func getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount *ui.Int
 		if amount.Cmp(MaxUint160) <= 0 {
 			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
 		} else {
-			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
+			quotient = fm.MulDiv(amount, cons.Q96, liquidity)
 		}
 		return new(ui.Int).Add(sqrtPX96, quotient)
 	}
-- 
2.43.0


From 5c24e53c1b787740659546c077634f7a09239f54 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 06/20] fix: deduct the fee of a swap step at full precision

amountRemaining*(10^6-fee) was reduced modulo 2^256, so very large exact-input
amounts swapped an arbitrary smaller amount or panicked; the contract uses
mulDiv here.
---
 lib/swapmath/swapmath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/swapmath/swapmath.go b/lib/swapmath/swapmath.go
index d2c177c..828e83b 100644
--- a/lib/swapmath/swapmath.go
+++ b/lib/swapmath/swapmath.go
@@ -15,7 +15,7 @@ func ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountR
 	amountRemainingINeg := new(ui.Int).Neg(amountRemainingI)
 
 	if exactIn {
-		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
+		amountRemainingLessFee := fm.MulDiv(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))), MaxFee)
 		if zeroForOne {
 			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioTargetX96, sqrtRatioCurrentX96, liquidity, true)
 		} else {
-- 
2.43.0


From 1f4921f1cc4891a720f36d4f0bb24e97ec114a39 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 07/20] fix: ExactOutputSwap swaps for the given output amount

A positive output amount was passed on as an exact input amount of the other
token. Amounts that are already negative keep working.
---
 lib/pool/pool.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index 9ae58b1..a4e3981 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -199,7 +199,12 @@ func (p *Pool) ExactInputSwap(inputAmount *ui.Int, token string, sqrtPriceLimitX
 
 func (p *Pool) ExactOutputSwap(outputAmount *ui.Int, token string, sqrtPriceLimitX96 *ui.Int) (*ui.Int, *ui.Int) {
 	zeroForOne := token == p.Token1
-	return p.swap(zeroForOne, outputAmount, sqrtPriceLimitX96)
+	// swap expects a negative amount for exact output
+	amount := outputAmount.Clone()
+	if amount.Sign() > 0 {
+		amount.Neg(amount)
+	}
+	return p.swap(zeroForOne, amount, sqrtPriceLimitX96)
 }
 
 func (p *Pool) modifyPosition(lower int, upper int, amount *ui.Int) {
-- 
2.43.0


From 3531b4d57ec8b27e093d2563536e01091bbf39b3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 08/20] fix: TickData.Clone copies the numbers of every tick

---
 lib/tickdata/tickdata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index fb08991..227996f 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -25,7 +25,15 @@ func (t *TickData) Clone() *TickData {
 		ticks:       make([]Tick, len(t.ticks)),
 		tickSpacing: t.tickSpacing,
 	}
-	copy(newTickData.ticks, t.ticks)
+	for i, tick := range t.ticks {
+		newTickData.ticks[i] = Tick{
+			Index:                 tick.Index,
+			LiquidityNet:          tick.LiquidityNet.Clone(),
+			LiquidityGross:        tick.LiquidityGross.Clone(),
+			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
+			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
+		}
+	}
 	return newTickData
 }
 
-- 
2.43.0


From 9aa423559a95f5deb6d599da51513d7a027db7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 09/20] fix: Info.Clone copies TokensOwed0

---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From cbb0036ca7833a9e82f9d93b7593e897067ea67e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 10/20] fix: parse hexadecimal into a number that already holds
 a value

---
 uint256/conversion.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index c0e6655..1b2606d 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -79,6 +79,7 @@ func (z *Int) fromHex(hex string) error {
 	if len(hex) > 66 {
 		return ErrBig256Range
 	}
+	z.Clear()
 	end := len(hex)
 	for i := 0; i < 4; i++ {
 		start := end - 16
-- 
2.43.0


From 2c05f3f83db38d37ba89973dff947f33117967e8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 11/20] fix: strategies hold their tokens when they buy no
 liquidity

---
 lib/strategy/constant_intervall_strategy.go               | 3 +++
 lib/strategy/interval_around_current_price.go             | 3 +++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..3587f63 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -73,6 +73,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..286abb1 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -74,6 +74,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index bd2b717..c223bbe 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -94,6 +94,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 		}
 	}
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
-- 
2.43.0


From d5da40f2cb1ed727f1cdc8802ff8fdd1ff4e842c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 12/20] fix: closing a strategy forgets the positions it burned

---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 3587f63..352900b 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 286abb1..12b1fea 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From 0e5d3ec44495873c8294ee7a5397982be03f56fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 13/20] fix: strategies only open non-empty, aligned ranges
 inside the tick range

---
 lib/strategy/2_interval_around_price.go           |  4 ++++
 lib/strategy/bollinger_bands.go                   |  5 +++++
 lib/strategy/bollinger_fill_up.go                 |  5 +++++
 lib/strategy/constant_intervall_strategy.go       |  7 +++++++
 lib/strategy/fill_up.go                           |  4 ++++
 lib/strategy/interval_around_average.go           |  4 ++++
 lib/strategy/interval_around_current_price.go     |  8 ++++++++
 lib/strategy/limit_order.go                       |  8 ++++++++
 lib/strategy/strategy.go                          | 15 +++++++++++++++
 .../swap_half_constant_interval_current_price.go  |  4 ++++
 lib/strategy/v2_strategy.go                       |  5 +++++
 lib/strategy/volatility_sized_intervals.go        |  5 +++++
 12 files changed, 74 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index a48413a..72aec25 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -68,6 +68,10 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 }
 
 func (s *TwoIntervalAroundPriceStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index efb4516..aff1829 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -1,6 +1,7 @@
 package strategy
 
 import (
+	cons "uniswap-simulator/lib/constants"
 	la "uniswap-simulator/lib/liquidity_amounts"
 	"uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/prices"
@@ -98,6 +99,10 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index 434172d..c5e7bf9 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -95,10 +95,15 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
 	}
 
+	tickLower, tickUpper, _ = usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
 	return
 }
 
 func (s *BollingerBandsFillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 352900b..129d912 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -70,7 +70,11 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, tickSpacing)
 	s.tickLower, s.tickUpper = tickLower, tickUpper
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
@@ -103,6 +107,9 @@ func (s *ConstantIntervalStrategy) Rebalance() (currAmount0, currAmount1 *ui.Int
 	// New Positions
 	tickLower := s.tickLower
 	tickUpper := s.tickUpper
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
diff --git a/lib/strategy/fill_up.go b/lib/strategy/fill_up.go
index 62fd952..f068ad1 100644
--- a/lib/strategy/fill_up.go
+++ b/lib/strategy/fill_up.go
@@ -60,6 +60,10 @@ func (s *FillUpStrategy) BurnAll() (retAmount0, retAmount1 *ui.Int) {
 }
 
 func (s *FillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/interval_around_average.go b/lib/strategy/interval_around_average.go
index 561091e..146891a 100644
--- a/lib/strategy/interval_around_average.go
+++ b/lib/strategy/interval_around_average.go
@@ -80,6 +80,10 @@ func (s *IntervalAroundAverageStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *IntervalAroundAverageStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 12b1fea..8584341 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -70,6 +70,10 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, tickSpacing)
+	if !usable {
+		return
+	}
 
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
@@ -106,6 +110,10 @@ func (s *IntervalAroundPriceStrategy) Rebalance() (currAmount0, currAmount1 *ui.
 	tickSpacing := cons.TickSpaces[s.Pool.Fee]
 	tickLower := tickmath.Round(s.Pool.TickCurrent-s.IntervalWidth, tickSpacing)
 	tickUpper := tickmath.Round(s.Pool.TickCurrent+s.IntervalWidth, tickSpacing)
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, tickSpacing)
+	if !usable {
+		return
+	}
 
 	// New Positions
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
diff --git a/lib/strategy/limit_order.go b/lib/strategy/limit_order.go
index d3de10b..d74db52 100644
--- a/lib/strategy/limit_order.go
+++ b/lib/strategy/limit_order.go
@@ -63,6 +63,10 @@ func (s *LimitOrderStrategy) GetDirection() bool {
 }
 
 func (s *LimitOrderStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
@@ -86,6 +90,10 @@ func (s *LimitOrderStrategy) mintAmount(tickLower, tickUpper int, amount *ui.Int
 }
 
 func (s *LimitOrderStrategy) mintHalf(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/strategy.go b/lib/strategy/strategy.go
index 8736267..2286791 100644
--- a/lib/strategy/strategy.go
+++ b/lib/strategy/strategy.go
@@ -2,6 +2,7 @@ package strategy
 
 import (
 	"uniswap-simulator/lib/pool"
+	"uniswap-simulator/lib/tickmath"
 	ui "uniswap-simulator/uint256"
 )
 
@@ -21,3 +22,17 @@ type Strategy interface {
 	//GetCurrentLimitTick() int
 	//GetDirections() bool
 }
+
+// usableRange rounds a range to the tick spacing, limits it to the ticks a pool accepts
+// and reports whether a position can be opened in it.
+func usableRange(tickLower, tickUpper, tickSpacing int) (int, int, bool) {
+	tickLower = tickmath.Round(tickLower, tickSpacing)
+	tickUpper = tickmath.Round(tickUpper, tickSpacing)
+	if minTick := tickmath.Ceil(tickmath.MinTick, tickSpacing); tickLower < minTick {
+		tickLower = minTick
+	}
+	if maxTick := tickmath.Floor(tickmath.MaxTick, tickSpacing); tickUpper > maxTick {
+		tickUpper = maxTick
+	}
+	return tickLower, tickUpper, tickLower < tickUpper
+}
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index c223bbe..fa4f903 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -64,6 +64,10 @@ func (s *IntervalAroundPriceAndSwapStrategy) BurnAll() (retamount0, retamount1 *
 }
 
 func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/v2_strategy.go b/lib/strategy/v2_strategy.go
index 678f65a..5dd1e1a 100644
--- a/lib/strategy/v2_strategy.go
+++ b/lib/strategy/v2_strategy.go
@@ -1,6 +1,7 @@
 package strategy
 
 import (
+	cons "uniswap-simulator/lib/constants"
 	la "uniswap-simulator/lib/liquidity_amounts"
 	"uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/tickmath"
@@ -69,6 +70,10 @@ func (s *V2Strategy) BurnAll() (amount0, amount1 *ui.Int) {
 }
 
 func (s *V2Strategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 288a35a..2cb4ffd 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -1,6 +1,7 @@
 package strategy
 
 import (
+	cons "uniswap-simulator/lib/constants"
 	la "uniswap-simulator/lib/liquidity_amounts"
 	"uniswap-simulator/lib/pool"
 	"uniswap-simulator/lib/prices"
@@ -96,6 +97,10 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 }
 
 func (s *VolatilitySizedIntervalStrategy) mintPosition(tickLower, tickUpper int) {
+	tickLower, tickUpper, usable := usableRange(tickLower, tickUpper, cons.TickSpaces[s.Pool.Fee])
+	if !usable {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
-- 
2.43.0


From f93100bed0fd5f4e9b785fe56bd94d380a413928 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 14/20] fix: limit orders are one tick spacing wide

---
 lib/strategy/limit_order.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/strategy/limit_order.go b/lib/strategy/limit_order.go
index d74db52..70670a4 100644
--- a/lib/strategy/limit_order.go
+++ b/lib/strategy/limit_order.go
@@ -126,7 +126,7 @@ func (s *LimitOrderStrategy) setPositions() {
 	// Secondary position
 	if !s.Amount0.IsZero() {
 		tickLower = tickmath.Ceil(s.Pool.TickCurrent, tickSpacing)
-		tickUpper = tickLower + 10
+		tickUpper = tickLower + tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickUpper
 		s.Direction = true
@@ -134,7 +134,7 @@ func (s *LimitOrderStrategy) setPositions() {
 
 	if !s.Amount1.IsZero() {
 		tickUpper = tickmath.Floor(s.Pool.TickCurrent, tickSpacing)
-		tickLower = tickUpper - 10
+		tickLower = tickUpper - tickSpacing
 		s.mintHalf(tickLower, tickUpper)
 		s.CurrentLimitTick = tickLower
 		s.Direction = false
-- 
2.43.0


From cf975dda0cb92ef78a804462ae877afaef5817f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 15/20] fix: a volatility band may end exactly at the maximum
 price

---
 lib/strategy/bollinger_bands.go            | 2 +-
 lib/strategy/bollinger_fill_up.go          | 2 +-
 lib/strategy/volatility_sized_intervals.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index aff1829..a4ae304 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -89,7 +89,7 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index c5e7bf9..b76abac 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -89,7 +89,7 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 2cb4ffd..ee2270e 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -87,7 +87,7 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 		tickLower = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioAX96)
 	}
 
-	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) == 1 {
+	if overflow1 || sqrtRatioBX96.Cmp(tickmath.MaxSqrtRatio) >= 0 {
 		tickUpper = tickmath.MaxTick
 	} else {
 		tickUpper = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioBX96)
-- 
2.43.0


From a497badaf19e6ef7b51efca8265646690d12c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 16/20] fix: refuse prices whose square wraps around 256 bits

---
 lib/prices/prices.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prices/prices.go b/lib/prices/prices.go
index 5c4b512..8055466 100644
--- a/lib/prices/prices.go
+++ b/lib/prices/prices.go
@@ -24,10 +24,10 @@ func (p *Prices) Add(price *ui.Int) {
 	//Square the price
 	// For USDC - ETH Pool this never overflows. Absolutely not guaranteed otherwise.
 	// Todo Fix this so it never overflows
-	priceSquareX192 := new(ui.Int).Mul(price, price)
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(price, price)
 
 	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
-	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
+	invariant.Invariant(!overflow && shifted.IsZero(), "Price square should not overflow")
 
 	p.prices[p.index] = priceSquareX192
 	p.index = (p.index + 1) % p.length
-- 
2.43.0


From dd5668cdca1b1d34a71c0e6436634c32276a9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 17/20] fix: create executions that start after the last
 transaction

---
 lib/executor/executor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e2999f5..c3308ee 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -24,6 +24,9 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 	maxTime := transactions[len(transactions)-1].Timestamp
 	length := (maxTime - startTime) / updateInterval
+	if length < 0 {
+		length = 0
+	}
 	snapshots := make([]*ui.Int, 0, length)
 
 	return &Execution{
-- 
2.43.0


From 6ab949b1d245c7eb659ace463f2998a4d432f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 18/20] fix: take price snapshots at the configured interval
 from the first transaction on

---
 lib/executor/executor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index c3308ee..e036351 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -53,6 +53,9 @@ func (e *Execution) Run() {
 	nextSnapshot := math.MaxInt64
 	// We need some Snapshots for Init(), the easiest way is to get Snapshots from the first transaction
 	nextPriceSnapshot := 0
+	if len(transactions) > 0 {
+		nextPriceSnapshot = transactions[0].Timestamp
+	}
 	//limitRebalance := false
 	for _, trans := range transactions {
 
@@ -86,7 +89,7 @@ func (e *Execution) Run() {
 		//	limitRebalance = false
 		//}
 		//Price Snapshot
-		if trans.Timestamp > nextPriceSnapshot {
+		if trans.Timestamp >= nextPriceSnapshot {
 			e.Strategy.MakeSnapshot()
 			nextPriceSnapshot += e.PricesSnapshotsInterval
 		}
-- 
2.43.0


From f7f56db87e7e520b3cefec0617b9b6d0f709c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 19/20] fix: value amounts at prices whose square exceeds 256
 bits

---
 lib/executor/executor.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e036351..dc87391 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -2,8 +2,8 @@ package executor
 
 import (
 	"math"
+	"math/big"
 	cons "uniswap-simulator/lib/constants"
-	"uniswap-simulator/lib/fullmath"
 	strat "uniswap-simulator/lib/strategy"
 	ent "uniswap-simulator/lib/transaction"
 	ui "uniswap-simulator/uint256"
@@ -42,6 +42,16 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 }
 
+// amountInToken0 values both amounts in token0 at the given price.
+// The square of the price needs up to 320 bits.
+func amountInToken0(amount0, amount1, sqrtPriceX96 *ui.Int) *ui.Int {
+	sqrtPrice := sqrtPriceX96.ToBig()
+	priceSquareX192 := new(big.Int).Mul(sqrtPrice, sqrtPrice)
+	amount1X192 := new(big.Int).Lsh(amount1.ToBig(), 192)
+	amount1to0, _ := ui.FromBig(amount1X192.Div(amount1X192, priceSquareX192))
+	return amount1to0.Add(amount1to0, amount0)
+}
+
 func (e *Execution) Run() {
 	//
 	strategy := e.Strategy
@@ -67,11 +77,7 @@ func (e *Execution) Run() {
 		if !started && trans.Timestamp >= e.StartTime {
 
 			amount0, amount1 := strategy.Init()
-			// Not Precise
-			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
-			amountUSD := new(ui.Int).Add(amount1to0, amount0)
+			amountUSD := amountInToken0(amount0, amount1, strategy.GetPool().SqrtRatioX96)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
 			nextUpdate = trans.Timestamp + e.UpdateInterval
@@ -97,10 +103,7 @@ func (e *Execution) Run() {
 		// Snapshot
 		if trans.Timestamp >= nextSnapshot {
 			amount0, amount1 := strategy.GetAmounts()
-			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
-			amountUSD := new(ui.Int).Add(amount1to0, amount0)
+			amountUSD := amountInToken0(amount0, amount1, strategy.GetPool().SqrtRatioX96)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 			nextSnapshot += e.SnapShotInterval
 		}
@@ -127,10 +130,7 @@ func (e *Execution) Run() {
 	}
 
 	amount0, amount1 := strategy.BurnAll()
-	x96 := strategy.GetPool().SqrtRatioX96
-	priceSquareX192 := new(ui.Int).Mul(x96, x96)
-	amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
-	amountUSD := new(ui.Int).Add(amount1to0, amount0)
+	amountUSD := amountInToken0(amount0, amount1, strategy.GetPool().SqrtRatioX96)
 	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
 }
-- 
2.43.0


From 92898660cd751030ad7cc4c7af1ba1b32f2df4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 20/20] fix: the standard deviation of returns is never the
 root of a negative number

---
 main.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/main.go b/main.go
index de5b2ab..7812bbf 100644
--- a/main.go
+++ b/main.go
@@ -162,20 +162,16 @@ func calculateStd(prices []*ui.Int) float64 {
 	}
 	returns := getReturns(prices)
 	n := len(returns)
-	sum1 := 0.0
+	mean := 0.0
 	for _, r := range returns {
-		sum1 += r * r
+		mean += r
 	}
-	sum1 = sum1 / float64(n-1)
-	sum2 := 0.0
+	mean = mean / float64(n)
+	variance := 0.0
 	for _, r := range returns {
-		sum2 += r
+		variance += (r - mean) * (r - mean)
 	}
-	sum2 = sum2 * sum2
-	quotient := n * (n - 1)
-	sum2 = sum2 / float64(quotient)
-
-	variance := sum1 - sum2
+	variance = variance / float64(n-1)
 	standardDeviation := math.Sqrt(variance)
 
 	return standardDeviation
-- 
2.43.0

