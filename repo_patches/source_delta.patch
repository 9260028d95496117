From b06d459ffeafd4dfe424fc7bbdfd9786a94c97b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 01/11] fix: do not rename the columns of the caller's data
 frame

---
 tti/utils/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 2d61032..6ee3d5a 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -64,7 +64,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
     # Make columns case insensitive
-    input_data.columns = [c.lower() for c in input_data.columns]
+    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis=1)
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From 9847915e561da881e05d1ebf35de3f90d8161802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 02/11] fix: MedianPrice signal with a single row and period 1
 is hold

---
 tti/indicators/_median_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_median_price.py b/tti/indicators/_median_price.py
index 49cf782..0a698b5 100644
--- a/tti/indicators/_median_price.py
+++ b/tti/indicators/_median_price.py
@@ -101,7 +101,7 @@ class MedianPrice(TechnicalIndicator):
         """
 
         # Not enough data for calculating trading signal
-        if len(self._ti_data.index) < self._period:
+        if len(self._ti_data.index) < max(self._period, 2):
             return TRADE_SIGNALS["hold"]
 
         # Indicator value goes below Moving Average
-- 
2.43.0


From 62beeb8e28728e42d00743377b37e472c613285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 03/11] fix: RangeIndicator signal is hold when the indicator
 was never below 20

---
 tti/indicators/_range_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_range_indicator.py b/tti/indicators/_range_indicator.py
index f5fa64c..e8c0ba2 100644
--- a/tti/indicators/_range_indicator.py
+++ b/tti/indicators/_range_indicator.py
@@ -189,7 +189,7 @@ class RangeIndicator(TechnicalIndicator):
                     return TRADE_SIGNALS["sell"]
                 else:
                     return TRADE_SIGNALS["buy"]
-            except KeyError:
+            except (KeyError, IndexError):
                 return TRADE_SIGNALS["hold"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From cf8916df4e6e12790b4e3d0811c7d66763589ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 04/11] fix: AverageTrueRange signal compares with the close
 averages whatever the column order

---
 tti/indicators/_average_true_range.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index bf9d2d2..8349c28 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -111,15 +111,15 @@ class AverageTrueRange(TechnicalIndicator):
         # Assumption on what high volatility means
         if self._ti_data["atr"].values[-1] > 0.01 * self._input_data["close"].values[-1]:
             # Price falling is expected or secondary rally
-            if self._input_data["close"].iat[-1] > sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] > sma_05["close"].iat[-1]:
                 # Assuming long term upward rally
-                if self._input_data["close"].iat[-1] > sma_10.iat[-1, 0]:
+                if self._input_data["close"].iat[-1] > sma_10["close"].iat[-1]:
                     return TRADE_SIGNALS["buy"]
                 else:
                     return TRADE_SIGNALS["sell"]
 
             # Price raise is expected
-            if self._input_data["close"].iat[-1] < sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] < sma_05["close"].iat[-1]:
                 return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 9f519c6a0e59d3d9094b0a7e5f2280ae9c792b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 05/11] fix: TypicalPrice signal compares with the close
 average whatever the column order

---
 tti/indicators/_typical_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index 29bc690..298db0f 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -99,7 +99,7 @@ class TypicalPrice(TechnicalIndicator):
         ma = self._input_data.rolling(window=self._period, min_periods=self._period).mean()
 
         # Indicator goes above Moving Average
-        if self._ti_data["tp"].iat[-1] > ma.iat[-1, 0]:
+        if self._ti_data["tp"].iat[-1] > ma["close"].iat[-1]:
             return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From a793105a9060c34e55282f5ca86fe786fbc80c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 06/11] fix: RelativeMomentumIndex is 100 when there were no
 down moves

---
 tti/indicators/_relative_momentum_index.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tti/indicators/_relative_momentum_index.py b/tti/indicators/_relative_momentum_index.py
index 1b6727e..bca9cb5 100644
--- a/tti/indicators/_relative_momentum_index.py
+++ b/tti/indicators/_relative_momentum_index.py
@@ -139,9 +139,7 @@ class RelativeMomentumIndex(TechnicalIndicator):
 
         # Calculate indicator
         rmi["rmi"] = (
-            100
-            * (rmi["smoothed_upc"] / rmi["smoothed_dpc"])
-            / (1 + rmi["smoothed_upc"] / rmi["smoothed_dpc"])
+            100 * rmi["smoothed_upc"] / (rmi["smoothed_upc"] + rmi["smoothed_dpc"])
         )
 
         return rmi[["rmi"]].round(4)
-- 
2.43.0


From 9a3b799640ed148e53ebb08c6d0c77cff1026308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 07/11] fix: refuse not-a-number exposure limit and short
 factor

---
 tti/utils/trading_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/utils/trading_simulation.py b/tti/utils/trading_simulation.py
index e3d30b1..3ad498b 100644
--- a/tti/utils/trading_simulation.py
+++ b/tti/utils/trading_simulation.py
@@ -260,7 +260,7 @@ class TradingSimulation:
 
         # Validate max_exposure
         if isinstance(self._max_exposure, (int, float)):
-            if self._max_exposure <= 0:
+            if not self._max_exposure > 0:
                 raise WrongValueForInputParameter(self._max_exposure, "max_exposure", ">0 or None")
         elif self._max_exposure is None:
             pass
@@ -271,7 +271,7 @@ class TradingSimulation:
 
         # Validate short_exposure_factor
         if isinstance(self._short_exposure_factor, (int, float)):
-            if self._short_exposure_factor < 1.0:
+            if not self._short_exposure_factor >= 1.0:
                 raise WrongValueForInputParameter(
                     self._short_exposure_factor, "short_exposure_factor", ">=1.0"
                 )
-- 
2.43.0


From 952da6fffdaa132ca07cfd739ae068018101b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 08/11] fix: MassIndex reversal bulge requires the indicator
 below 26.5

---
 tti/indicators/_mass_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_mass_index.py b/tti/indicators/_mass_index.py
index 1c8e26b..c2832eb 100644
--- a/tti/indicators/_mass_index.py
+++ b/tti/indicators/_mass_index.py
@@ -107,7 +107,7 @@ class MassIndex(TechnicalIndicator):
         # below 26.5. Specific values for 25-Mass Index.
         reversal_bulge = False
 
-        if True or self._ti_data["mi"].iat[-1] < 26.5:
+        if self._ti_data["mi"].iat[-1] < 26.5:
             for i in range(-2, -len(self._ti_data.index) - 1, -1):
                 if self._ti_data["mi"].iat[i] < 26.5:
                     break
-- 
2.43.0


From db9662dd146fd143cbf8ee1288b4838c01761737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 09/11] fix: UltimateOscillator signal uses the lowest and
 highest value of the period

---
 tti/indicators/_ultimate_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ultimate_oscillator.py b/tti/indicators/_ultimate_oscillator.py
index 574dce6..e2f1842 100644
--- a/tti/indicators/_ultimate_oscillator.py
+++ b/tti/indicators/_ultimate_oscillator.py
@@ -138,10 +138,10 @@ class UltimateOscillator(TechnicalIndicator):
 
         if close_low_index != uosc_low_index:
             # Check if indicator falls below 30 during the bullish period
-            if self._ti_data["uosc"].iloc[-span_period:].all() < 30:
+            if (self._ti_data["uosc"].iloc[-span_period:] < 30).any():
                 # Buy when indicator makes a highest high during this period
                 if (
-                    self._ti_data["uosc"].iloc[-span_period:-1].all()
+                    self._ti_data["uosc"].iloc[-span_period:-1].max()
                     < self._ti_data["uosc"].iat[-1]
                 ):
                     return TRADE_SIGNALS["buy"]
-- 
2.43.0


From 5b196749ffc1144107d89eb8103d53e6193efdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 10/11] fix: IchimokuCloud gives no signal without a cloud,
 values on its edge are inside it

---
 tti/indicators/_ichimoku_cloud.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 037b6bf..6144026 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -107,10 +107,13 @@ class IchimokuCloud(TechnicalIndicator):
                 is above the cloud, -1 means that value is below the cloud.
         """
 
-        ordered_values = cloud + [value]
-        ordered_values.sort()
+        if value > max(cloud):
+            return 1
 
-        return ordered_values.index(value) - 1
+        if value < min(cloud):
+            return -1
+
+        return 0
 
     def getTiSignal(self):
         """
-- 
2.43.0


From 53171719ae2fbf9c314c667be5ee9a171aecb285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 11/11] fix: additional columns with a label that is not a
 string are ignored

---
 tti/utils/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 6ee3d5a..a5bdd85 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -64,7 +64,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
     # Make columns case insensitive
-    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis=1)
+    input_data = input_data.set_axis([c.lower() if isinstance(c, str) else c for c in input_data.columns], axis=1)
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0

