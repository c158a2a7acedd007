From 122c24dcf19e0e16fcbb11e40e176138e39efa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 01/75] fix: a refused Points edit no longer leaves an update
 open

append, set and replace announced the update before validating the points, so a
refused edit left the curve updating for ever and later edits were never published.
---
 curvepy/points.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..8ccccec 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,10 +76,11 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+        self.begin_update(domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
@@ -91,17 +92,17 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
+        nearest_i = int(math.ceil(self.x_index(point[0])))
+        nearest_p = self._points[nearest_i]
+        if point[0] != nearest_p[0] and self._force_equally_spaced:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
         update_domain = Interval.point(point[0])
         self.begin_update(update_domain)
 
-        nearest_i = int(math.ceil(self.x_index(point[0])))
-        nearest_p = self._points[nearest_i]
         if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
-                self._points.insert(nearest_i, point)
-                self._is_equally_spaced = False
+            self._points.insert(nearest_i, point)
+            self._is_equally_spaced = False
         else:
             self._points[nearest_i] = point
 
@@ -166,10 +167,11 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
+        self.begin_update(update_domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points = list(points)
         self._did_change_points()
         self.end_update(update_domain)
-- 
2.43.0


From ae65f1f68afb4ea4131d2cfbd463be654dce1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 02/75] fix: Points returns the stored value at every one of
 its points

The spacing test looked at the last point only, so unevenly spaced points could be
indexed as if they were evenly spaced, and rounding could select the neighbour.
---
 curvepy/points.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 8ccccec..fb17065 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -208,6 +208,8 @@ class Points(Curve):
         new_points_len = len(new_points)
         if new_points_len == 0 or old_points_len + new_points_len < 2:
             return True
+        if old_points_len > 1 and not self.is_uniform:
+            return False
 
         if old_points_len != 0:
             start = old_points[-1][0]
@@ -216,13 +218,18 @@ class Points(Curve):
             start = new_points[0][0]
             steps = new_points_len - 1
 
-        if self.interval is not None:
+        if self.interval is not None and (old_points_len != 0 or self._force_equally_spaced):
             interval = self.interval
         elif old_points_len == 1:
             interval = new_points[0][0] - old_points[-1][0]
         else:
             interval = new_points[1][0] - new_points[0][0]
 
+        tolerance = abs(interval) * 1e-9 + abs(start) * 1e-15
+        for i, point in enumerate(reversed(new_points)):
+            if abs(point[0] - (start + interval * (steps - i))) > tolerance:
+                return False
+
         expected_last_x = start + interval * steps
         return new_points[-1][0] == expected_last_x
 
@@ -287,7 +294,12 @@ class Points(Curve):
         if self.is_uniform:
             if self.interval is None:
                 return 0
-            return (x - self._points[0][0]) / self.interval
+            i = (x - self._points[0][0]) / self.interval
+            nearest_i = round(i) if math.isfinite(i) else -1
+            if 0 <= nearest_i < len(self._points) and self._points[nearest_i][0] == x:
+                # Avoid rounding errors at existing points
+                return nearest_i
+            return i
         else:
             i1 = _bisect_points(self._points, x)
             i0 = i1 - 1
-- 
2.43.0


From dfa59f0f4768687d3c711e2e43458e464760afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 03/75] fix: Quotes.append encodes the quote once

append_list encodes its quotes already, so a quote appended through an encoder was
encoded twice.
---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..2dc5fb3 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From 9e45f638f1931277c723981d006fb7b1c6ddf58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 04/75] fix: Quotes.get_range reads the documented [o, h, l, c,
 v] quotes

---
 curvepy/quotes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 2dc5fb3..033ef39 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
-- 
2.43.0


From 3ea6e4c2177ba693ea9c7b9e6f2d786cfbb537d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 05/75] fix: Quotes.trailing_low is the trailing minimum of the
 lows

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 033ef39..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
-- 
2.43.0


From 492d33776d4c63a77dc10fabdaac6741dd9e98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 06/75] fix: @date converts string values only

As documented: numbers below @date were parsed as timestamps and lost their fraction.
---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..104b8c1 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1036,7 +1036,7 @@ class Curve:
                     fragment=True,
                     decorators=decorators
                 ) for v in d]
-            elif 'date' in decorators:
+            elif 'date' in decorators and isinstance(d, str):
                 return arrow.get(d).timestamp
             elif isinstance(d, Number):
                 if 'log' in decorators:
-- 
2.43.0


From 40bb653fccfb1e0df61bd820bbbf9e3760a1f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 07/75] fix: a Constant has no value outside its domain

---
 curvepy/constant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index 2efa67b..1472843 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -39,6 +39,8 @@ class Constant(Curve):
             return super().__repr__() + f'({e})'
 
     def y(self, x):
+        if not self._const_interval.contains(x):
+            return None
         return self.value
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-- 
2.43.0


From bad6ec6f8b6d4bb1fee7f8b90992e6c3f52a224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 08/75] fix: a refused Sin.set changes nothing

The update was announced and fields were assigned before the arguments were validated.
---
 curvepy/sin.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9af1e9a..856750d 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -20,20 +20,21 @@ class Sin(Curve):
         self.set(amplitude=amplitude, frequency=frequency, period=period, phase=phase, phase_x=phase_x)
     
     def set(self, amplitude=None, frequency=None, period=None, phase=0, phase_x=None):
-        self.begin_update(self.domain)
-        self.amplitude = amplitude
-        self.phase = phase
-
-        self.x_coef = None
+        x_coef = None
         if period is not None:
             frequency = 1.0 / period
         if frequency is not None:
-            self.x_coef = frequency * math.pi * 2.0
+            x_coef = frequency * math.pi * 2.0
         if phase_x is not None:
-            self.phase = phase_x * self.x_coef
+            phase = phase_x * x_coef
 
-        if self.amplitude is None or self.x_coef is None or self.phase is None:
+        if amplitude is None or x_coef is None or phase is None:
             raise Exception("Invalid sin function description")
+
+        self.begin_update(self.domain)
+        self.amplitude = amplitude
+        self.x_coef = x_coef
+        self.phase = phase
         self.end_update(self.domain)
 
     def y(self, x):
-- 
2.43.0


From ea962603fea3e40b4e5659ca26ffa55692a6c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 09/75] fix: Sin.d_y is the slope of the sine with respect to x

The derivative ignored the x coefficient.
---
 curvepy/sin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 856750d..2736ce9 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -41,5 +41,5 @@ class Sin(Curve):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-        return self.amplitude * math.cos(self.x_coef * x + self.phase)
+        return self.amplitude * self.x_coef * math.cos(self.x_coef * x + self.phase)
         
\ No newline at end of file
-- 
2.43.0


From 93b5efe6ebe014b0409897d075bc7208e6cbc896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 10/75] fix: an extension follows every update of the function
 it extends

Only updates lying in the extension refreshed it, so replaced or first points were
missed, and begin and end announced different intervals, leaving updates open.
---
 curvepy/extension/extension.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..309fbc5 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -1,3 +1,4 @@
+import math
 from ..curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -118,18 +119,23 @@ class Extension(Curve):
             (self.end and domain >= self.extension_interval)
 
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(self._update_domain(domain))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
+        self._extension_stale = True
+        self._extension_interval_stale = True
+        self.end_update(self._update_domain(domain))
+
+    def _update_domain(self, domain):
+        """
+        A change anywhere in the extended function may change its extensions.
+        """
+        return Interval(
+            -math.inf if self.start else domain.start,
+            math.inf if self.end else domain.end,
+            start_open=self.start or domain.start_open,
+            end_open=self.end or domain.end_open
+        )
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
-- 
2.43.0


From 7d17d44d8a47d78d561fbbd4851f2ec766ae88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 11/75] fix: extensions of empty and short functions

A one-ended constant extension of an empty function raised, an empty function got an
infinite domain, and a regression degree beyond the available points raised.
---
 curvepy/extension/constant.py |  3 +--
 curvepy/extension/tangent.py  | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..c37a4e8 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -11,9 +11,8 @@ class ConstantExtension(Extension):
     name = "constant"
 
     def update_extension(self):
+        self.start_valid = self.end_valid = not self.curve.domain.is_empty
         if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
             return
 
         if self.start:
diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..846a0df 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -23,6 +23,10 @@ class TangentExtension(Extension):
         super().__init__(func, **kwargs)
 
     def update_extension(self):
+        self.start_valid = self.end_valid = not self.curve.domain.is_empty
+        if self.curve.domain.is_empty:
+            return
+
         if self.start:
             x = self.curve.domain.start
             if x is not None and self.curve.domain.start_open and self.curve.domain.contains(x + self.min_step):
@@ -32,7 +36,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x1 = x
                 for i in range(self.regression_degree):
-                    x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    x_step = self.curve.x_next(x1, min_step=self.min_step)
+                    if x_step is None:
+                        break
+                    x1 = x_step
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -61,7 +68,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x0 = x
                 for i in range(self.regression_degree):
-                    x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    x_step = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x_step is None:
+                        break
+                    x0 = x_step
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From b6230b4b11d71b658c7305155213dfbb0e1a07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 12/75] fix: reading an extension announces no update

The extension is recomputed lazily, so announcing its helper functions' changes told
observers about an update while a value was merely read.
---
 curvepy/extension/extension.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 309fbc5..8850c66 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -37,10 +37,8 @@ class Extension(Curve):
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
-- 
2.43.0


From bc03eeea1b01fa9a3f2f728e69593ca74d785af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 13/75] fix: values scanned during an update do not outlive it

A derived curve read from a begin callback kept the values it had cached from the
old points, because its cache was only reset when the update began.
---
 curvepy/scan.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..99f29cc 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -97,6 +97,16 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._reset_stale_scan(domain)
+        self.begin_update(domain)
+
+    def end_scan_update(self, domain):
+        domain = self._update_interval(domain)
+        # Values may have been scanned while the update was in progress
+        self._reset_stale_scan(domain)
+        self.end_update(domain)
+
+    def _reset_stale_scan(self, domain):
         if self.current is not None:
             if domain.start < self.current or (domain.start == self.current and not domain.start_open):
                 self.reset_scan()
@@ -104,11 +114,5 @@ class Scan(Curve):
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
-
-    def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
-        self.end_update(domain)
-
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 44952caac3e4d5afbf88d031537d81f8cc8444f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 14/75] fix: Extremas forgets every extrema and candidate an
 update invalidates

The candidate survived when no extrema was left, an extrema confirmed by a changed
point stayed, a retained extrema was listed twice, and updates of the reference only
discarded extremas inside the updated domain.
---
 curvepy/extremas.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..a9403be 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,7 +17,7 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
         self.ref_func.remove_observer(self._ref_observer_token)
@@ -62,8 +62,7 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
+    def _reset_stale_scan(self, domain):
         # remove stale points
         for i in reversed(range(len(self.extremas))):
             x = self.extrema_xs[i]
@@ -75,9 +74,12 @@ class Extremas(Scan):
         # scan from last extrema
         extrema_count = len(self.extremas)
         if extrema_count == 0:
-            self.current = None
+            self.reset_scan()
+            self._did_update_extremas()
         else:
+            # The point which confirmed the last extrema may be stale
             last_extrema = self.extremas[-1]
+            self._remove_extrema_index(extrema_count - 1)
             x = last_extrema[0]
             self.current = x
             self.possible_extrema = last_extrema
-- 
2.43.0


From b4d689be6373136c8e501653254ed81bfff64135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 15/75] fix: Extremas accepts a reference value of zero

---
 curvepy/extremas.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index a9403be..ee8d0aa 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -95,8 +95,7 @@ class Extremas(Scan):
         y0 = self.ref_func(x)
         if y0 is None:
             return
-        div = y / y0 - 1
-        if abs(div) <= self.min_deviation:
+        if abs(y - y0) <= self.min_deviation * abs(y0):
             # function is too close to reference function
             return
         phase = y - y0
-- 
2.43.0


From 7b543ae87ad5ccca98eb3be0488e391d8d8ce371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 16/75] fix: an EMA follows updates of the curve which
 initialises it

---
 curvepy/ema.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/curvepy/ema.py b/curvepy/ema.py
index 1a6479c..240f09d 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -19,6 +19,17 @@ class EMA(Accumulator):
         else:
             self.alpha = degree
         super().__init__(func, self._ema_scan, min_step=min_step, uniform=uniform)
+        self._init_observer_token = None
+        if self.init_func is not None:
+            self._init_observer_token = self.init_func.add_observer(
+                begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
+
+    def __del__(self):
+        super().__del__()
+        try:
+            self.init_func.remove_observer(self._init_observer_token)
+        except Exception:
+            pass
 
     def __repr__(self):
         try:
-- 
2.43.0


From 56f7167d2de7265c29f44f218a068d36a9db44f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 17/75] fix: observers may be removed while an update is
 announced

Removing an observer from a begin callback skipped the next observer, and from an
end callback it raised KeyError.
---
 curvepy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 104b8c1..5fcbc6c 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -434,7 +434,10 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
+        for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by a preceding callback
+                continue
             _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
             if callback_interval is None or domain.intersects(callback_interval):
                 if callback is not None:
@@ -457,6 +460,9 @@ class Curve:
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by a preceding callback
+                continue
             _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
             if callback_interval is None or update_interval.intersects(callback_interval):
                 if callback is not None:
-- 
2.43.0


From 11df003aa45a57b720535d396dc348331341133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 18/75] fix: sample_points respects open domain ends

The end of a half-open domain was sampled, and a domain open at its start without a
further point raised IndexError.
---
 curvepy/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 5fcbc6c..dffde11 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -202,11 +202,14 @@ class Curve:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
 
+        if domain.end_open and len(points) != 0 and points[-1][0] == x_end:
+            del points[-1]
+
         return points
 
     def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
-- 
2.43.0


From ac8016f9cb988812980d1bd1d2badfbeddc839c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 19/75] fix: a Generic curve keeps its domain and follows the
 curve it wraps

Its domain became None after its first update, and a subset of a curve never
published the updates of that curve.
---
 curvepy/generic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index 6d85f5f..d0b5710 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -4,12 +4,19 @@ from intervalpy import Interval
 class Generic(Curve):
 
     def get_domain(self):
-        return self._domain
+        return self._func_domain
 
     def __init__(self, y_func, domain=None, min_step=MIN_STEP):
         super().__init__(min_step=min_step)
         self.y_func = y_func
-        self._domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._func_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._observer_token = None
+        if isinstance(y_func, Curve):
+            self._observer_token = y_func.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
+
+    def __del__(self):
+        if self._observer_token is not None:
+            self.y_func.remove_observer(self._observer_token)
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From b8dfdb3b5e777b96bb2e044434c8093c3fb6638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 20/75] fix: unevenly spaced points are resampled with any step

A step equal to the average spacing returned the stored points.
---
 curvepy/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index fb17065..499d91c 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -182,7 +182,7 @@ class Points(Curve):
         if self.domain.is_empty:
             return []
 
-        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and step != self.interval)):
+        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and (step != self.interval or not self.is_uniform))):
             # Irregular sampling
             return super().sample_points(domain=domain, min_step=min_step, step=step)
 
-- 
2.43.0


From c235d333537b59fee7df294548c0a12ec1df3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 21/75] fix: Piecewise.x_next and x_previous return the
 neighbour they found

---
 curvepy/piecewise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..6801d63 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -47,11 +47,12 @@ class Piecewise(Curve):
         x1 = z[0] if z is not None else None
         if x1 is None and self.domains[0].contains(x):
             return self.domains[0].start
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_end=False):
+        if not self.domain.contains(x + min_step, enforce_start=False):
             return None
         x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
         x_map_d = zip(x_map, self.domains)
@@ -62,3 +63,4 @@ class Piecewise(Curve):
         x1 = z[0] if z is not None else None
         if x1 is None and self.domains[-1].contains(x):
             return self.domains[-1].end
+        return x1
-- 
2.43.0


From 484ad410e21d704c375aa16694278475395c13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 22/75] fix: replacing a point announces the whole region whose
 values change

Only the replaced position was announced, so observers of a region between points
were not told that the interpolated values had changed.
---
 curvepy/points.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 499d91c..fb8e6d3 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -97,7 +97,16 @@ class Points(Curve):
         if point[0] != nearest_p[0] and self._force_equally_spaced:
             raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
 
-        update_domain = Interval.point(point[0])
+        # The interpolated values up to the neighbouring points change as well
+        next_i = nearest_i + 1 if point[0] == nearest_p[0] else nearest_i
+        has_previous = nearest_i > 0
+        has_next = next_i < len(self._points)
+        update_domain = Interval(
+            self._points[nearest_i - 1][0] if has_previous else point[0],
+            self._points[next_i][0] if has_next else point[0],
+            start_open=has_previous,
+            end_open=has_next
+        )
         self.begin_update(update_domain)
 
         if point[0] != nearest_p[0]:
-- 
2.43.0


From 8536692349cb6d8420eb26d947b5eebdab064423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 23/75] fix: an offset curve can be offset again

The offset attribute hid the offset method of the curve.
---
 curvepy/offset.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..bd43a93 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -16,11 +16,11 @@ class Offset(Curve):
     def __init__(self, func, offset, duration=None):
         super().__init__()
         self.curve = Curve.parse(func)
-        self.offset = offset
+        self.x_offset = offset
         self.duration = None
         if duration is not None:
             self.duration = Duration.parse(duration)
-            if type(self.offset) != int:
+            if type(self.x_offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
@@ -30,7 +30,7 @@ class Offset(Curve):
 
     def __repr__(self):
         try:
-            return f'{self.curve}.offset({self.offset})'
+            return f'{self.curve}.offset({self.x_offset})'
         except Exception as e:
             return super().__repr__() + f'({e})'
 
@@ -93,17 +93,17 @@ class Offset(Curve):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x + self.offset
+            return x + self.x_offset
         else:
-            return self._res_step(x, self.offset, floor=floor)
+            return self._res_step(x, self.x_offset, floor=floor)
 
     def _unoffset_x(self, x, floor=False):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x - self.offset
+            return x - self.x_offset
         else:
-            return self._res_step(x, -self.offset, floor=floor)
+            return self._res_step(x, -self.x_offset, floor=floor)
 
     def _res_step(self, x, count, floor=False):
         if count == 0:
-- 
2.43.0


From b097ced096b21619e33bc8156216dd57e1ac5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 24/75] fix: scanned curves do not depend on the positions they
 are read at

Over a sum or maximum with a constant, reading an integral or average between points
inserted a step there, changing later values or raising for uneven spacing.
---
 curvepy/scan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 99f29cc..f5a3556 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -58,7 +58,11 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                # Do not step to the requested position unless there is no other step,
+                # otherwise the scanned points would depend on where values are read.
+                current = self.x_next(self.current, min_step=self.min_step)
+                if current is None or math.isinf(current):
+                    current = self.x_next(self.current, min_step=self.min_step, limit=x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
-- 
2.43.0


From 0e9b4cbbb4fee47a4beb9dfb72087d657f92c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 25/75] fix: curves derived from a differential follow its
 neighbouring slopes

An update changes the slope at the neighbouring points as well; only the updated
domain was announced, so averages and integrals of a slope went stale.
---
 curvepy/curve.py |  6 ++----
 curvepy/map.py   | 27 +++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index dffde11..694220c 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -678,10 +678,8 @@ class Curve:
         )
 
     def differential(self, forward=False):
-        from .map import Map
-        d = Map(self, lambda x, y: self.d_y(x, forward=forward))
-        d.name = 'diff'
-        return d
+        from .map import Differential
+        return Differential(self, forward=forward)
 
     def subset(self, domain):
         from .generic import Generic
diff --git a/curvepy/map.py b/curvepy/map.py
index cda4fbd..d1dc701 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -20,7 +21,7 @@ class Map(Curve):
         self._map_tfm_with_x = tfm_ags > 1
         self.map_tfm = tfm
 
-        self._observer_token = self.curve.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
+        self._observer_token = self.curve.add_observer(begin=self.begin_map_update, end=self.end_map_update, prioritize=True)
     
     def __repr__(self):
         try:
@@ -50,4 +51,26 @@ class Map(Curve):
         if self._map_tfm_with_x:
             return self.map_tfm(x, y)
         else:
-            return self.map_tfm(y)
\ No newline at end of file
+            return self.map_tfm(y)
+
+    def begin_map_update(self, domain):
+        self.begin_update(self._map_update_domain(domain))
+
+    def end_map_update(self, domain):
+        self.end_update(self._map_update_domain(domain))
+
+    def _map_update_domain(self, domain):
+        return domain
+
+
+class Differential(Map):
+
+    def __init__(self, func, forward=False):
+        super().__init__(func, lambda x, y: self.curve.d_y(x, forward=forward), name='diff')
+        self.forward = forward
+
+    def _map_update_domain(self, domain):
+        # The slope also changes on the neighbouring points of the updated domain
+        if self.forward:
+            return Interval(-math.inf, domain.end, start_open=True, end_open=domain.end_open)
+        return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 29596d1682c5740f92abb67e458cbebfb6c9604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 26/75] fix: Extremas announces the extrema an update may move

---
 curvepy/extremas.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index ee8d0aa..b116102 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -1,4 +1,5 @@
 import bisect
+import math
 from .scan import Scan
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
@@ -15,6 +16,7 @@ class Extremas(Scan):
         self.extrema_interval = Interval.empty()
         self.possible_extrema = None
         self.possible_extrema_phase = None
+        self._update_start = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
         self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
@@ -62,6 +64,29 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
+    def begin_scan_update(self, domain):
+        start = self._first_stale_x(domain)
+        if self._update_start is None or start < self._update_start:
+            self._update_start = start
+        super().begin_scan_update(domain)
+
+    def end_scan_update(self, domain):
+        super().end_scan_update(domain)
+        if not self.is_updating:
+            self._update_start = None
+
+    def _update_interval(self, domain):
+        start = self._update_start
+        if start is None:
+            start = self._first_stale_x(domain)
+        return Interval.open(start, math.inf)
+
+    def _first_stale_x(self, domain):
+        # The last extrema before the domain may move and
+        # with it the line from the extrema preceding it
+        i = bisect.bisect_left(self.extrema_xs, domain.start)
+        return self.extrema_xs[i - 2] if i > 1 else -math.inf
+
     def _reset_stale_scan(self, domain):
         # remove stale points
         for i in reversed(range(len(self.extremas))):
-- 
2.43.0


From 10f8710763f413eaf24dc870402a6c850a67cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 27/75] fix: SMA between points and on uneven spacing; first
 period announced

---
 curvepy/sma.py | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..b3cf8f6 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -73,7 +73,7 @@ class SMA(Integral):
         # Get step
         x0 = self._sma_start(x)
         x1 = self._sma_end(x0)
-        if x0 == x or x0 == x1:
+        if x0 >= x or x0 == x1:
             # SMA step is smaller than or equal to the underlying step
             return self.curve.y(x)
 
@@ -90,26 +90,28 @@ class SMA(Integral):
             return sma1
 
         # Handle offset
-        if x > x1:
-            x2 = self.curve.x_next(x1, min_step=self.min_step)
-            if x2 == x:
-                return sma1
-            sma2 = self.y(x2)
-            if sma2 is None:
-                return None
-            u = (x - x1) / (x2 - x1)
-            sma = u * sma2 + (1 - u) * sma1
-        else:
-            x01 = self.curve.x_previous(x1, min_step=self.min_step)
-            if x01 == x:
-                return sma1
-            sma01 = self.y(x01)
-            if sma01 is None:
-                return None
-            u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
-            return sma
-        return sma
+        x01 = self.curve.x_previous(x, min_step=self.min_step)
+        x2 = self.curve.x_next(x01, min_step=self.min_step) if x01 is not None else None
+        if x2 is None:
+            return None
+        if x2 == x:
+            # Unevenly spaced points: the period ends at the point
+            return (super().y(x) - y0) / (x - x0)
+        sma01 = self.y(x01)
+        sma2 = self.y(x2)
+        if sma01 is None or sma2 is None:
+            return None
+        u = (x - x01) / (x2 - x01)
+        return u * sma2 + (1 - u) * sma01
+
+    def _update_interval(self, domain):
+        domain = super()._update_interval(domain)
+        start = self.curve.domain.start if not self.curve.domain.is_empty else -math.inf
+        if self.period is not None and not math.isinf(start):
+            if start <= domain.start <= start + self.period:
+                # The first period defines where the averages start
+                domain = Interval(start, domain.end, start_open=False, end_open=domain.end_open)
+        return domain
 
     def _sma_start(self, x):
         if self.period is not None:
-- 
2.43.0


From 74e20c281eb8174fe3326a65f564e768e726bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 28/75] fix: accumulators announce the line leading to the
 updated domain

---
 curvepy/accumulator.py |  9 +++++++++
 curvepy/extremas.py    | 20 +-------------------
 curvepy/scan.py        |  9 +++++++++
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..a8c0f78 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -37,6 +37,15 @@ class Accumulator(Scan):
         self.accumulated_points.reset(domain)
         super().begin_update(domain)
 
+    def _update_interval(self, domain):
+        # The line which leads from the preceding point to the updated domain also changes
+        domain = super()._update_interval(domain)
+        if not domain.start_open and not math.isinf(domain.start):
+            x = self.curve.x_previous(domain.start, min_step=self.min_step)
+            if x is not None:
+                domain = Interval(x, domain.end, start_open=True, end_open=domain.end_open)
+        return domain
+
     def _accumulate(self, x, y):
         if self.accumulated_points.domain.is_empty:
             last_y = None
diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index b116102..916f32e 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -16,7 +16,6 @@ class Extremas(Scan):
         self.extrema_interval = Interval.empty()
         self.possible_extrema = None
         self.possible_extrema_phase = None
-        self._update_start = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
         self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
@@ -64,28 +63,11 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-    def begin_scan_update(self, domain):
-        start = self._first_stale_x(domain)
-        if self._update_start is None or start < self._update_start:
-            self._update_start = start
-        super().begin_scan_update(domain)
-
-    def end_scan_update(self, domain):
-        super().end_scan_update(domain)
-        if not self.is_updating:
-            self._update_start = None
-
     def _update_interval(self, domain):
-        start = self._update_start
-        if start is None:
-            start = self._first_stale_x(domain)
-        return Interval.open(start, math.inf)
-
-    def _first_stale_x(self, domain):
         # The last extrema before the domain may move and
         # with it the line from the extrema preceding it
         i = bisect.bisect_left(self.extrema_xs, domain.start)
-        return self.extrema_xs[i - 2] if i > 1 else -math.inf
+        return Interval.open(self.extrema_xs[i - 2] if i > 1 else -math.inf, math.inf)
 
     def _reset_stale_scan(self, domain):
         # remove stale points
diff --git a/curvepy/scan.py b/curvepy/scan.py
index f5a3556..411e2b6 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -14,6 +14,7 @@ class Scan(Curve):
         self.tfm = tfm
         self.scan_start = None
         self.current = None
+        self._update_intervals = {}
         self._observer_token = self.curve.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
@@ -100,15 +101,23 @@ class Scan(Curve):
         self.end_update(Interval.infinite())
 
     def begin_scan_update(self, domain):
+        key = (domain.start, domain.start_open)
         domain = self._update_interval(domain)
+        self._update_intervals[key] = Interval.union([self._update_intervals.get(key, domain), domain])
         self._reset_stale_scan(domain)
         self.begin_update(domain)
 
     def end_scan_update(self, domain):
+        # The end must cover what was announced at the beginning
+        begun = self._update_intervals.pop((domain.start, domain.start_open), None)
         domain = self._update_interval(domain)
+        if begun is not None:
+            domain = Interval.union([begun, domain])
         # Values may have been scanned while the update was in progress
         self._reset_stale_scan(domain)
         self.end_update(domain)
+        if not self.is_updating:
+            self._update_intervals.clear()
 
     def _reset_stale_scan(self, domain):
         if self.current is not None:
-- 
2.43.0


From 9925a5c158c2e948208791199232163b322ba933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 29/75] fix: sample_points_from_x includes the point it starts
 from

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 694220c..fb036ab 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -228,6 +228,8 @@ class Curve:
             y = self.y(x)
             if y is None:
                 return points
+            if i < limit:
+                points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From 12fa4d7af41d5fa4def350051bf0ddf2faac105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 30/75] fix: sample_points of a single position and at half
 steps

---
 curvepy/curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index fb036ab..f210cf0 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -188,7 +188,7 @@ class Curve:
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
-            x = self.x_next(x_start, min_step=min_step, limit=x_end)
+            x = self.x_next(x_start, min_step=min_step, limit=x_end) if x_start < x_end else None
             while x is not None and x <= x_end:
                 y = self.y(x)
                 points.append((x, y))
@@ -197,8 +197,7 @@ class Curve:
                     break
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
                 if x1 is not None:
-                    x1_bin = round(x1 / min_step) if min_step is not None else x1
-                    if x1_bin <= x_bin:
+                    if x1 <= x:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-- 
2.43.0


From 46124fdfea0431ca11594d13b716c38535b6f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 31/75] fix: an offset curve offsets the limit of its next and
 previous points

---
 curvepy/offset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index bd43a93..145d6b2 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -66,7 +66,10 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+            x_limit = self._unoffset_x(limit)
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=x_limit)
+            if x1 is not None and x1 == x_limit:
+                return limit
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -78,7 +81,10 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+            x_limit = self._unoffset_x(limit)
+            x1 = self.curve.x_next(x, min_step=min_step, limit=x_limit)
+            if x1 is not None and x1 == x_limit:
+                return limit
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
-- 
2.43.0


From 5f512906262aafa9e27fa17df012266fd8e37c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 32/75] fix: neighbouring points of an aggregate stay within
 its domain

---
 curvepy/aggregate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 74ecb87..78fa3a6 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -56,10 +56,16 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        return max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        if x1 is None or not self.domain.contains(x1, enforce_end=False):
+            return None
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        return min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        if x1 is None or not self.domain.contains(x1, enforce_start=False):
+            return None
+        return x1
 
 
 def min_or_none(iterable, gt):
-- 
2.43.0


From 47165de912237056faae585d7bba6b88488572c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 33/75] fix: the area below a line is not lost in rounding at
 large positions

---
 curvepy/line.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/curvepy/line.py b/curvepy/line.py
index e576585..e1f7b06 100644
--- a/curvepy/line.py
+++ b/curvepy/line.py
@@ -73,12 +73,7 @@ class Line(Curve):
         return self.ref_point[0] + (y - self.ref_point[1]) / self.slope
 
     def partial_integration(self, a, b):
-        # f(x) = slope / 2 * x ^ 2 + const * x + K
-        # integral = f(b) - f(a)
+        # The area of a trapezoid
         if a is not None and a == b:
             return 0
-        const = self.const
-        slope = self.slope
-        ia = slope * 0.5 * a ** 2 + const * a
-        ib = slope * 0.5 * b ** 2 + const * b
-        return ib - ia
+        return (self.y(a) + self.y(b)) * 0.5 * (b - a)
-- 
2.43.0


From ff43130b8e6488a8544a5dd213e7656ffaf144da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 34/75] fix: averages over a period longer than an aggregate

---
 curvepy/sma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index b3cf8f6..61952f9 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -19,7 +19,7 @@ class SMA(Integral):
             if x is None:
                 p = self.period
             else:
-                p = x - d.start
+                p = min(x, d.end) - d.start
         elif self.degree is not None:
             x = d.start
             for _ in range(self.degree - 1):
-- 
2.43.0


From 99ea7dd4d860a78ed6faaaa27e0b30982f55257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 35/75] fix: an aggregate's neighbours beyond its domain are
 its ends

---
 curvepy/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 78fa3a6..8fd9aed 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -59,13 +59,13 @@ class Aggregate(Curve):
         x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
         if x1 is None or not self.domain.contains(x1, enforce_end=False):
             return None
-        return x1
+        return min(x1, self.domain.end)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
         if x1 is None or not self.domain.contains(x1, enforce_start=False):
             return None
-        return x1
+        return max(x1, self.domain.start)
 
 
 def min_or_none(iterable, gt):
-- 
2.43.0


From 94f57244f1281770a5670ddf2c6885970769989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 36/75] fix: a sine extension keeps its slope where its value
 is zero

---
 curvepy/extension/sin.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/curvepy/extension/sin.py b/curvepy/extension/sin.py
index fb3264c..5f16728 100644
--- a/curvepy/extension/sin.py
+++ b/curvepy/extension/sin.py
@@ -29,9 +29,6 @@ class SinExtension(TangentExtension):
         phase = math.atan2(num, den)
 
         # amplitude
-        if (angle + phase) % math.pi != 0:
-            amplitude = y / math.sin(angle + phase)
-        else:
-            amplitude = dy / (x_coef * math.cos(angle + phase))
+        amplitude = math.hypot(y, dy / x_coef)
 
         sin.set(amplitude=amplitude, period=self.period, phase=phase)
-- 
2.43.0


From 2b2f10037f973cc9eaf82c147131bbfc0463b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 37/75] fix: a curve offset by durations keeps its domain and
 updates between boundaries

The end of the domain was moved past the last value and updates between
boundaries missed the values which are interpolated from them.
---
 curvepy/offset.py | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 145d6b2..438f1bb 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -90,10 +90,10 @@ class Offset(Curve):
         return self._offset_x(x1, floor=True)
 
     def begin_offset_update(self, domain):
-        self.begin_update(self._offset_interval(domain))
+        self.begin_update(self._offset_interval(domain, outward=True))
 
     def end_offset_update(self, domain):
-        self.end_update(self._offset_interval(domain))
+        self.end_update(self._offset_interval(domain, outward=True))
 
     def _offset_x(self, x, floor=False):
         if x is None or math.isinf(x):
@@ -120,14 +120,31 @@ class Offset(Curve):
             x = self.duration.ceil(x)
         return self.duration.step(x, count=count)
 
-    def _offset_interval(self, domain, floor=False):
-        start = self._offset_x(domain.start, floor=floor)
-        end = self._offset_x(domain.end, floor=floor)
-        if start is None and end is None:
+    def _offset_interval(self, domain, outward=False):
+        """
+        Returns the offset `domain`. With a duration, limits between boundaries
+        are moved to the nearest boundaries inside the domain. Use `outward` to
+        get the domain in which values are interpolated from inside of `domain`.
+        """
+        if domain.is_empty:
             return Interval.empty()
-        elif start is None:
-            return Interval(start, end, start_open=False, end_open=domain.end_open)
-        elif end is None:
-            return Interval(start, end, start_open=domain.start_open, end_open=False)
-        else:
-            return Interval(start, end, start_open=domain.start_open, end_open=domain.end_open)
+        start = self._offset_x(domain.start, floor=outward)
+        end = self._offset_x(domain.end, floor=not outward)
+        if start > end:
+            return Interval.empty()
+        start_open = domain.start_open
+        end_open = domain.end_open
+        if self.duration is not None and self.x_offset != 0:
+            start_moved = self._unoffset_x(start) != domain.start
+            end_moved = self._unoffset_x(end) != domain.end
+            if not outward:
+                start_open = start_open and not start_moved
+                end_open = end_open and not end_moved
+            else:
+                if not start_open and not start_moved and not math.isinf(start):
+                    start = self.duration.previous(start)
+                if not end_open and not end_moved and not math.isinf(end):
+                    end = self.duration.next(end)
+                start_open = True
+                end_open = True
+        return Interval(start, end, start_open=start_open, end_open=end_open)
-- 
2.43.0


From 888cdd500fb01cd0adf348e234212ec14f9f4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 38/75] fix: a blend has no value where one of its curves has
 none

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index f210cf0..344ba69 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -543,6 +543,8 @@ class Curve:
         
         x_blend_period = x_blend_stop - x_blend_start
         def blend_f(x, ys):
+            if ys[0] is None or ys[1] is None:
+                return None
             u = (x - x_blend_start) / x_blend_period
             return (1.0 - u) * ys[0] + u * ys[1]
         c = Aggregate([self, func], tfm=blend_f, name='blend')
-- 
2.43.0


From 9629908bfc05bdfda0bbd0d8bd38f035b55e9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 39/75] fix: a blend which starts or stops outside of a curve's
 domain raised an exception

---
 curvepy/curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 344ba69..7906441 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -550,7 +550,11 @@ class Curve:
         c = Aggregate([self, func], tfm=blend_f, name='blend')
 
         funcs = [self, c, func]
-        domains = self.domain.partition([x_blend_start, x_blend_stop])
+        domains = [Interval.intersection([self.domain, d]) for d in (
+            Interval.lt(x_blend_start),
+            Interval.closed_open(x_blend_start, x_blend_stop),
+            Interval.gte(x_blend_stop)
+        )]
         return Piecewise(funcs, domains)
 
     def extension(self, name, start=False, end=True, raise_on_empty=False, **kwds):
-- 
2.43.0


From ae9a96182beda97b3ce4aa0b1307b628ec3bb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 40/75] fix: parse the values of @args only once

Inside of a @log decorator the numbers in @args were converted to log
space twice.
---
 curvepy/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 7906441..0c48dd1 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1025,7 +1025,10 @@ class Curve:
                 if current_func is not None:
                     raise Exception(f'Unexpected key after a function: {k}')
 
-                if isinstance(v, Mapping):
+                if k == '@args':
+                    # The arguments were already parsed above
+                    fragment_vals[k] = v
+                elif isinstance(v, Mapping):
                     fragment_vals[k] = cls.parse_descriptor(v,
                         fragment=True,
                         decorators=decorators
-- 
2.43.0


From 02d47eacd571ed1d2d6db0211ef1fd5855a915d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 41/75] fix: dates without a GMT offset are in the local time
 zone

The documentation of @date says so, but they were taken for UTC.
---
 curvepy/curve.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 0c48dd1..894ce4a 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -2,6 +2,8 @@ import math
 import weakref
 import inspect
 import arrow
+import arrow.parser
+import arrow.util
 import numpy as np
 from numbers import Number
 from collections.abc import Sequence, Mapping
@@ -1054,7 +1056,7 @@ class Curve:
                     decorators=decorators
                 ) for v in d]
             elif 'date' in decorators and isinstance(d, str):
-                return arrow.get(d).timestamp
+                return _parse_date(d).timestamp
             elif isinstance(d, Number):
                 if 'log' in decorators:
                     return math.log(d)
@@ -1143,6 +1145,15 @@ def _abs(x, y):
         return None
     return abs(y)
 
+def _parse_date(value):
+    date = arrow.get(value)
+    if arrow.util.is_timestamp(value) or value.upper().endswith('Z'):
+        return date
+    if arrow.parser.DateTimeParser().parse_iso(value).tzinfo is None:
+        # No GMT offset given, use the local time zone
+        date = date.replace(tzinfo='local')
+    return date
+
 def _callable_arg_len(f, vararg_ret_val):
     args, varargs, _, _ = inspect.getargspec(f)
     if varargs is not None:
-- 
2.43.0


From 9df5e66a105159af796e4a6a9df3fe666eeb67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 42/75] fix: use a base given by position in $log

It was dropped silently: { '$log': [16, 2] } was the natural logarithm.
---
 curvepy/curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 894ce4a..3638adf 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -987,7 +987,9 @@ class Curve:
                         base_str = fname[3:]
                         base = int(base_str) if bool(base_str) else math.e
                         def _dot_log(*args, **kwargs):
-                            return current_func.log(**util.extend({ "base": base }, kwargs))
+                            if not args:
+                                kwargs = util.extend({ "base": base }, kwargs)
+                            return current_func.log(*args, **kwargs)
                         fconstructor = _dot_log
                         fconstructor_from_instance = True
                     else:
-- 
2.43.0


From 2a66b6a621f3a12f05f436b2a8eb13ee6bf1e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 43/75] fix: steps of extremas do not depend on what was read
 before

Before its extreme points were scanned, Extremas stepped through the
points of the curve.
---
 curvepy/extremas.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 916f32e..66eb608 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -16,6 +16,7 @@ class Extremas(Scan):
         self.extrema_interval = Interval.empty()
         self.possible_extrema = None
         self.possible_extrema_phase = None
+        self._is_scanning = False
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
         self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
@@ -45,6 +46,7 @@ class Extremas(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self._scan_extremas(x - min_step)
         if self.extrema_interval.contains(x - min_step):
             i = bisect.bisect_left(self.extrema_xs, x - min_step)
             x1 = self.extremas[i][0]
@@ -55,6 +57,7 @@ class Extremas(Scan):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self._scan_extremas(x + min_step)
         if self.extrema_interval.contains(x + min_step):
             i = bisect.bisect_left(self.extrema_xs, x + min_step)
             x1 = self.extremas[i][0]
@@ -63,6 +66,18 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
+    def scan(self, x0):
+        self._is_scanning = True
+        try:
+            super().scan(x0)
+        finally:
+            self._is_scanning = False
+
+    def _scan_extremas(self, x):
+        # Steps inside of the extrema interval do not depend on what was scanned
+        if not self._is_scanning and self.domain.contains(x):
+            self.scan(x)
+
     def _update_interval(self, domain):
         # The last extrema before the domain may move and
         # with it the line from the extrema preceding it
-- 
2.43.0


From b0575d5c23212be4de8e6c2b9422b0a2e337a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 44/75] fix: a trend kept lines and points of before when its
 scan started over

---
 curvepy/trend.py | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..d01d4b2 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -90,34 +90,12 @@ class Trend(Scan):
 
         return is_empty
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
-
-        # remove stale points
-        for i in reversed(range(len(self.points))):
-            p = self.points[i]
-            if domain.contains(p[0]):
-                del self.points[i]
-            elif p[0] < domain.start:
-                break
-
-        def update_nested_line_array(nested_lines):
-            for i in reversed(range(len(nested_lines))):
-                lines = nested_lines[i]
-                update_line_array(lines)
-                if i != 0 and len(lines) == 0:
-                    del nested_lines[i]
-
-        def update_line_array(lines):
-            for i in reversed(range(len(lines))):
-                line = lines[i]
-                line.begin_update(domain, self.points)
-                if line.is_empty:
-                    del lines[i]
-
-        # update_line_array(self.lines)
-        update_nested_line_array(self.nested_upper_lines)
-        update_nested_line_array(self.nested_lower_lines)
+    def reset_scan(self):
+        super().reset_scan()
+        # The scan starts over, forget what it has found
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
 
     def _scanned_upper(self, x):
         filtered_lines = []
-- 
2.43.0


From ea954034958d50cbb937e6e5a0f0b78961bab069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 45/75] fix: touches of a trend line were counted again with
 every point

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index d01d4b2..bb3231d 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -721,7 +721,7 @@ class TrendLine(Sequence):
             return
 
         for p in points:
-            if self._prediction_x_processed is not None and p[0] < self._prediction_x_processed:
+            if self._prediction_x_processed is not None and p[0] <= self._prediction_x_processed:
                 continue
             point_type = p[2]
             clean_point = (p[0], p[1])
-- 
2.43.0


From 58ca13c7a3cea2b75617c2ce0463dca4160d4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 46/75] fix: relative tolerance of trends with negative values

---
 curvepy/trend.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index bb3231d..1de324f 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -820,7 +820,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_min = y - self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_min_rel = y * (1 - self.y_tol_rel)
+            y_min_rel = y - abs(y) * self.y_tol_rel
             if y_min is None:
                 y_min = y_min_rel
             else:
@@ -834,7 +834,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_max = y + self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_max_rel = y * (1 + self.y_tol_rel)
+            y_max_rel = y + abs(y) * self.y_tol_rel
             if y_max is None:
                 y_max = y_max_rel
             else:
@@ -968,13 +968,9 @@ def _is_strictly_convex_points(points, y_tol_rel=None, y_tol_abs=None):
     y = points[1][1]
     y0 = _line_y((points[0], points[2]), x)
     
-    if y0 is None:
+    if y0 is None or _is_value_within_tolerance(y, y0, y_tol_rel=y_tol_rel, y_tol_abs=y_tol_abs):
         return False
-    if y_tol_abs is not None and y0 - y < y_tol_abs:
-        return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and y0 / y - 1 < y_tol_rel:
-        return False
-    return True
+    return y < y0
 
 def _is_coincident_points(points, y_tol_rel=None, y_tol_abs=None):
     if len(points) != 3:
-- 
2.43.0


From 0b658d7719be83e15e4641293e1c80f815886cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 47/75] fix: any point was on a trend line where the line
 crosses zero

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 1de324f..9eac242 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -988,7 +988,7 @@ def _is_value_within_tolerance(y, y0, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and abs(y - y0) > y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and abs(y / y0 - 1) > y_tol_rel:
+    if y_tol_rel is not None and abs(y - y0) > abs(y0) * y_tol_rel + EPSILON_ZERO:
         return False
     return True
 
-- 
2.43.0


From 10c21734fc4f2c7b13cb80fd75a7c5bcd6bce586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 48/75] fix: points of a trend line were not in order

---
 curvepy/trend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 9eac242..cc3dcbb 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -425,12 +425,10 @@ class TrendLine(Sequence):
                 return line
             elif line_len > 2:
                 raise Exception("Expected line")
-            resulting_points = []
+            resulting_points = list(line)
             for p in coincident_points:
                 if _is_point_on_line(line, p, y_tol_rel=self.y_tol_rel, y_tol_abs=self.y_tol_abs):
-                    resulting_points.append(p)
-            resulting_points.insert(0, line[0])
-            resulting_points.append(line[1])
+                    _insort_point_left(resulting_points, p, no_repeat=True)
             return resulting_points
 
         final_points = add_coincident_points(final_line, coincident_points)
-- 
2.43.0


From afb140330eed5f6b1c3f1f52ef776d461686adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 49/75] fix: min_point_distance of a trend had no effect

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index cc3dcbb..da03a6d 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -200,6 +200,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance,
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From e0a51842f9451e4ada55e32053ba207ff486f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 50/75] fix: one touch of a trend line was counted twice

---
 curvepy/trend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index da03a6d..b763028 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -594,6 +594,9 @@ class TrendLine(Sequence):
         for i in reversed(range(len(underlying_points))):
             p = underlying_points[i]
             if not update_interval.contains(p[0]):
+                if self.is_point_on_trend(p):
+                    # The trend line was touched just before, these points belong to the same touch
+                    points_on_trend = []
                 break
             
             if self.is_point_on_trend(p):
-- 
2.43.0


From f538aa11dc8e6e2a99010e23ee6fc2a36bc416e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 51/75] fix: steps of accumulators do not depend on what was
 read before

x_previous returned the last scanned point where later points of the curve
were not scanned yet.
---
 curvepy/accumulator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index a8c0f78..bcc5961 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -16,6 +16,7 @@ class Accumulator(Scan):
         assert callable(tfm)
         self.accumulated_points = Points([], interpolation=interpolation, uniform=uniform)
         self.accumulator_transform = tfm
+        self._is_scanning = False
         super().__init__(func, self._accumulate, min_step=min_step)
 
     def scanned_y(self, x):
@@ -27,12 +28,27 @@ class Accumulator(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self._scan_steps(x - min_step)
         return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self._scan_steps(x + min_step)
         return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
 
+    def scan(self, x0):
+        was_scanning = self._is_scanning
+        self._is_scanning = True
+        try:
+            super().scan(x0)
+        finally:
+            self._is_scanning = was_scanning
+
+    def _scan_steps(self, x):
+        # Steps do not depend on how far the curve was scanned
+        if not self._is_scanning and self.domain.contains(x) and not math.isinf(self.domain.start):
+            self.scan(x)
+
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
         super().begin_update(domain)
-- 
2.43.0


From 0e51e8190b99ec9f121d539a65c8a3d6709f37fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 52/75] fix: sampling a scan over a half infinite domain raises

It scanned forever. Other curves raise.
---
 curvepy/scan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 411e2b6..2986a71 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -79,7 +79,7 @@ class Scan(Curve):
             domain = Interval.intersection([self.domain, domain])
         if domain.is_empty:
             return []
-        elif domain.is_infinite:
+        elif not domain.is_finite:
             raise Exception("Cannot sample points on an infinite domain. Specify a finite domain.")
         self.scan(domain.start)
         self.scan(domain.end)
-- 
2.43.0


From 7d12486ff72950d8bf9f93777aa3d150369224e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 53/75] fix: steps of moving averages do not depend on what was
 read before

The scan of a moving average begins where it is read, and steps before
that position led to the start of the scan.
---
 curvepy/sma.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 61952f9..fbd03f1 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -104,6 +104,15 @@ class SMA(Integral):
         u = (x - x01) / (x2 - x01)
         return u * sma2 + (1 - u) * sma01
 
+    def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        # The scan does not always begin where the curve begins
+        min_step = self.resolve_min_step(min_step)
+        return self.curve.x_previous(x, min_step=min_step, limit=limit)
+
+    def x_next(self, x, min_step=MIN_STEP, limit=None):
+        min_step = self.resolve_min_step(min_step)
+        return self.curve.x_next(x, min_step=min_step, limit=limit)
+
     def _update_interval(self, domain):
         domain = super()._update_interval(domain)
         start = self.curve.domain.start if not self.curve.domain.is_empty else -math.inf
-- 
2.43.0


From c15a1fe4d4b9f5346d341305ecb93d3b18b0a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 54/75] fix: steps of accumulators back from beyond the end do
 not depend on what was read

x_previous beyond the end of the domain returned the last scanned point.
---
 curvepy/accumulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index bcc5961..09e991c 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -46,7 +46,11 @@ class Accumulator(Scan):
 
     def _scan_steps(self, x):
         # Steps do not depend on how far the curve was scanned
-        if not self._is_scanning and self.domain.contains(x) and not math.isinf(self.domain.start):
+        domain = self.domain
+        if self._is_scanning or domain.is_empty or domain.is_negative_infinite or x < domain.start:
+            return
+        x = min(x, domain.end)
+        if not math.isinf(x):
             self.scan(x)
 
     def begin_update(self, domain):
-- 
2.43.0


From 775636d875bd86e440a75da0d7935433183748ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 55/75] fix: an extension recovers from a failure of the curve
 it extends

It stayed at the initial value of its extension when the curve raised
while the extension was computed.
---
 curvepy/extension/extension.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 8850c66..3b668d7 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -140,7 +140,11 @@ class Extension(Curve):
             return
         self._extension_interval_stale = False
         if self._extension_stale:
-            self._update_extension_if_needed()
+            try:
+                self._update_extension_if_needed()
+            except Exception:
+                self._extension_interval_stale = True
+                raise
 
         if self.start and self.start_valid and self.end and self.end_valid:
             self.extension_interval = Interval.union([self.start_func.domain, self.end_func.domain])
@@ -161,7 +165,11 @@ class Extension(Curve):
         self._extension_stale = False
         self._extension_interval_stale = True
 
-        self.update_extension()
+        try:
+            self.update_extension()
+        except Exception:
+            self._extension_stale = True
+            raise
         if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
             if self.raise_on_empty:
                 raise Exception('Unable to extend func')
-- 
2.43.0


From 76b146cb0663687cf02957c3e16a5b946b67d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 56/75] fix: stepping an empty curve to a limit

It raised a TypeError, also where an empty curve is one of several.
---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3638adf..4e34784 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -117,6 +117,8 @@ class Curve:
         raise Exception("Not implemented")
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        if self.domain.is_empty:
+            return None
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.end
@@ -129,6 +131,8 @@ class Curve:
         return x1
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        if self.domain.is_empty:
+            return None
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.start
-- 
2.43.0


From 62b96f65144653e40ec7bd86b05daae45f780a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 57/75] fix: regression far away from zero

The slope of points at timestamps a minute apart was lost to rounding.
---
 curvepy/curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 4e34784..f625b01 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -380,7 +380,9 @@ class Curve:
         if count == 2:
             return Line(p1=points[0], p2=points[1])
         xy = np.vstack(points)
-        x = xy[:,0]
+        # Avoid losing precision far away from zero
+        x0 = points[0][0]
+        x = xy[:,0] - x0
         y = xy[:,1]
         A = np.array([x, np.ones(count)])
 
@@ -389,7 +391,7 @@ class Curve:
         m = w[0]
         c = w[1]
 
-        return Line(const=c, slope=m)
+        return Line(p1=(x0, c), slope=m)
 
     def add_observer(self, *obj, domain=None, begin=None, end=None, autoremove=False, prioritize=False):
         if begin is None and end is None:
-- 
2.43.0


From b1d16f05c80e77cb26cbd698c90bfa09df7b823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 58/75] fix: the slope of an offset curve up to a limit

The limit was not moved along with the position.
---
 curvepy/offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 438f1bb..d01e194 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -37,8 +37,8 @@ class Offset(Curve):
     def y(self, x):
         return self._interpolated_func(self.curve.y, x)
 
-    def d_y(self, x, **kwargs):
-        return self._interpolated_func(self.curve.d_y, x, **kwargs)
+    def d_y(self, x, limit=None, **kwargs):
+        return self._interpolated_func(self.curve.d_y, x, limit=self._unoffset_x(limit), **kwargs)
 
     def _interpolated_func(self, f, x, **kwargs):
         x0 = self._unoffset_x(x, floor=True)
-- 
2.43.0


From b8ff04dc6e734b9299320b21a6bc8e09d9cd3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 59/75] fix: samples from a position have a least step unless
 another is given

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index f625b01..f17e35c 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -217,7 +217,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
-- 
2.43.0


From 889a702893102cb0d622f82ed335c1d33c2e7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 60/75] fix: an extension which must not be empty could never
 be read

---
 curvepy/extension/extension.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 3b668d7..dede5c7 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -167,10 +167,8 @@ class Extension(Curve):
 
         try:
             self.update_extension()
+            self._update_extension_interval()
         except Exception:
             self._extension_stale = True
+            self._extension_interval_stale = True
             raise
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
-        self._update_extension_interval()
-- 
2.43.0


From fa2dd628a3aed2532fdb54e775182298d154f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 61/75] fix: which positions are in an extension

---
 curvepy/extension/extension.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index dede5c7..4f7a424 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -113,8 +113,9 @@ class Extension(Curve):
 
     def is_in_extension(self, x):
         domain = Interval.parse(x)
-        return (self.start and domain <= self.extension_interval) or \
-            (self.end and domain >= self.extension_interval)
+        self._update_extension_interval()
+        return (self.start and self.start_valid and self.curve.domain.get_lt().is_superset_of(domain)) or \
+            (self.end and self.end_valid and self.curve.domain.get_gt().is_superset_of(domain))
 
     def begin_extension_update(self, domain):
         self.begin_update(self._update_domain(domain))
-- 
2.43.0


From 7599285c307a3d297e68a6ac1bac6705e9e5650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 62/75] fix: the range of a curve which misses values

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index f17e35c..e1c98ca 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -257,6 +257,8 @@ class Curve:
         low = None
         high = None
         for p in points:
+            if p[1] is None:
+                continue
             if low is None or p[1] < low:
                 low = p[1]
             if high is None or p[1] > high:
-- 
2.43.0


From f6af041d5327d5ac28c3f51612e1b8f51ee20cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:40 +0000
Subject: [PATCH 63/75] fix: steps of accumulators to the position zero

---
 curvepy/accumulator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 09e991c..b0650c1 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -29,12 +29,18 @@ class Accumulator(Scan):
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
         self._scan_steps(x - min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
+        x1 = self.accumulated_points.x_previous(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
         self._scan_steps(x + min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
+        x1 = self.accumulated_points.x_next(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+        return x1
 
     def scan(self, x0):
         was_scanning = self._is_scanning
-- 
2.43.0


From 459bc1baffabb7cf68ad41431bc31978eed1ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 64/75] fix: a running curve with a smallest step announced too
 little

---
 curvepy/accumulator.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index b0650c1..f1d23d7 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -66,11 +66,23 @@ class Accumulator(Scan):
     def _update_interval(self, domain):
         # The line which leads from the preceding point to the updated domain also changes
         domain = super()._update_interval(domain)
-        if not domain.start_open and not math.isinf(domain.start):
-            x = self.curve.x_previous(domain.start, min_step=self.min_step)
-            if x is not None:
-                domain = Interval(x, domain.end, start_open=True, end_open=domain.end_open)
-        return domain
+        if math.isinf(domain.start):
+            return domain
+        steps_over = self.min_step is not None and self.min_step > MIN_STEP
+        x = domain.start
+        if not domain.start_open:
+            x = self.curve.x_previous(x)
+        elif not steps_over:
+            return domain
+        x1 = self.curve.x_previous(x) if x is not None and steps_over else None
+        if x1 is not None and x - x1 < self.min_step:
+            # The preceding point may not be one of the steps, but one is less than a step before it
+            x = self.curve.x_previous(x, min_step=self.min_step)
+            if x is None:
+                return Interval(self.curve.domain.start, domain.end, start_open=False, end_open=domain.end_open)
+        elif x is None or domain.start_open:
+            return domain
+        return Interval(x, domain.end, start_open=True, end_open=domain.end_open)
 
     def _accumulate(self, x, y):
         if self.accumulated_points.domain.is_empty:
-- 
2.43.0


From f76746fe082c6ee65e7bed7d59603100adb1b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:39 +0000
Subject: [PATCH 65/75] fix: a constant extension of an end without a value is
 not possible

---
 curvepy/extension/constant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index c37a4e8..7465b00 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -18,11 +18,13 @@ class ConstantExtension(Extension):
         if self.start:
             x = self.curve.domain.start
             y = self.curve.y(x)
+            self.start_valid = y is not None
             self.start_func.value = y
 
         if self.end:
             x = self.curve.domain.end
             y = self.curve.y(x)
+            self.end_valid = y is not None
             self.end_func.value = y
 
     def create_extension_func(self, start=False):
-- 
2.43.0


From 5a02b0cde51715241bfb8da69e6a7caa8bf3c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 66/75] fix: steps of points go no further than the limit

---
 curvepy/points.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index fb8e6d3..22f2b40 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -285,7 +285,10 @@ class Points(Curve):
             return self.domain.start
         # i = max(0, int(math.floor(self.x_index(x))) + 1)
         i = max(0, int(math.ceil(self.x_index(x + min_step))))
-        return self._points[i][0]
+        x1 = self._points[i][0]
+        if limit is not None and x1 > limit:
+            x1 = limit
+        return x1
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         if self.domain.is_empty:
@@ -297,7 +300,10 @@ class Points(Curve):
             return self.domain.end
         # i = min(len(self._points) - 1, int(math.ceil(self.x_index(x))) - 1)
         i = min(len(self._points) - 1, int(math.floor(self.x_index(x - min_step))))
-        return self._points[i][0]
+        x1 = self._points[i][0]
+        if limit is not None and x1 < limit:
+            x1 = limit
+        return x1
 
     def x_index(self, x):
         if self.is_uniform:
-- 
2.43.0


From a29398b86d6057525d13881a70ba9bfd5120953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 67/75] fix: stepping and sampling an extended function beyond
 its end

---
 curvepy/extension/extension.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 4f7a424..f9f271e 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -93,22 +93,26 @@ class Extension(Curve):
         x1 = self.curve.x_previous(x, min_step=min_step)
         if x1 is None and self.start:
             # Keep returning extension with same step
-            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step, limit=limit)
+            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step)
             if x0 is None:
                 return None
             step = x0 - self.curve.domain.start
             x1 = x - step
+        if limit is not None and x1 is not None and x1 < limit:
+            x1 = limit
         return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         x1 = self.curve.x_next(x, min_step=min_step)
         if x1 is None and self.end:
             # Keep returning extension with same step
-            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step, limit=limit)
+            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step)
             if x0 is None:
                 return None
             step = self.curve.domain.end - x0
             x1 = x + step
+        if limit is not None and x1 is not None and x1 > limit:
+            x1 = limit
         return x1
 
     def is_in_extension(self, x):
-- 
2.43.0


From 13b607d874bf1b1e2aabaa35a1bbcd6e08c973f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:01 +0000
Subject: [PATCH 68/75] fix: next and previous extremas honour the limit

---
 curvepy/extremas.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 66eb608..89b9ce9 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -52,6 +52,8 @@ class Extremas(Scan):
             x1 = self.extremas[i][0]
             if x1 > x - min_step:
                 x1 = self.extremas[i - 1][0]
+            if limit is not None and x1 < limit:
+                x1 = limit
             return x1
         return self.curve.x_previous(x, min_step=min_step, limit=limit)
 
@@ -63,6 +65,8 @@ class Extremas(Scan):
             x1 = self.extremas[i][0]
             if x1 < x + min_step:
                 x1 = self.extremas[i + 1][0]
+            if limit is not None and x1 > limit:
+                x1 = limit
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-- 
2.43.0


From 6b3166e6c727660ca71fc4a1c00203152cc37acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:01 +0000
Subject: [PATCH 69/75] fix: the borders of a piecewise function honour the
 limit of a step

---
 curvepy/piecewise.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index 6801d63..6a2b681 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -46,7 +46,9 @@ class Piecewise(Curve):
         z = max(filter(x_previous_f, x_map_d), default=None)
         x1 = z[0] if z is not None else None
         if x1 is None and self.domains[0].contains(x):
-            return self.domains[0].start
+            x1 = self.domains[0].start
+            if limit is not None and x1 < limit:
+                x1 = limit
         return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
@@ -62,5 +64,7 @@ class Piecewise(Curve):
         z = min(filter(x_next_f, x_map_d), default=None)
         x1 = z[0] if z is not None else None
         if x1 is None and self.domains[-1].contains(x):
-            return self.domains[-1].end
+            x1 = self.domains[-1].end
+            if limit is not None and x1 > limit:
+                x1 = limit
         return x1
-- 
2.43.0


From 4e882686be2d36df220948d4d8047d5b1c0a5801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:01 +0000
Subject: [PATCH 70/75] fix: steps along a curve moved by durations honour the
 smallest step and the limit

---
 curvepy/offset.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index d01e194..06744e0 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -60,11 +60,14 @@ class Offset(Curve):
         return y
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        x_max = x - min_step if min_step is not None else x
         x = self._unoffset_x(x, floor=False)
         if x is None:
             return None
         if self.duration:
             x1 = self.duration.previous(x)
+            if self._offset_x(x1, floor=False) > x_max and not math.isinf(x_max):
+                x1 = self.duration.floor(self._unoffset_x(x_max, floor=True))
         else:
             x_limit = self._unoffset_x(limit)
             x1 = self.curve.x_previous(x, min_step=min_step, limit=x_limit)
@@ -72,14 +75,20 @@ class Offset(Curve):
                 return limit
         if x1 is None or not self.curve.domain.contains(x1):
             return None
-        return self._offset_x(x1, floor=False)
+        x1 = self._offset_x(x1, floor=False)
+        if limit is not None and x1 < limit:
+            x1 = limit
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        x_min = x + min_step if min_step is not None else x
         x = self._unoffset_x(x, floor=True)
         if x is None:
             return None
         if self.duration:
             x1 = self.duration.next(x)
+            if self._offset_x(x1, floor=True) < x_min and not math.isinf(x_min):
+                x1 = self.duration.ceil(self._unoffset_x(x_min, floor=False))
         else:
             x_limit = self._unoffset_x(limit)
             x1 = self.curve.x_next(x, min_step=min_step, limit=x_limit)
@@ -87,7 +96,10 @@ class Offset(Curve):
                 return limit
         if x1 is None or not self.curve.domain.contains(x1):
             return None
-        return self._offset_x(x1, floor=True)
+        x1 = self._offset_x(x1, floor=True)
+        if limit is not None and x1 > limit:
+            x1 = limit
+        return x1
 
     def begin_offset_update(self, domain):
         self.begin_update(self._offset_interval(domain, outward=True))
-- 
2.43.0


From d9836a50a24e3b5f2c87611bc1a1136ebe0e7418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:01 +0000
Subject: [PATCH 71/75] fix: a copy of a trend line includes its tolerance,
 extremas and prediction

---
 curvepy/trend.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index b763028..bd523e1 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -341,12 +341,13 @@ class TrendLine(Sequence):
             x_tol_abs=self.x_tol_abs, 
             y_tol_rel=self.y_tol_rel, 
             y_tol_abs=self.y_tol_abs)
-        line.trend_points = list(self.trend_points)
-        line._boundary_points = list(self._boundary_points)
-        line._line = tuple(self._line)
-        line.search_interval = self.search_interval.copy()
-        line.intersections = list(self.intersections)
-        line.tangent_points = list(self.tangent_points)
+        # Include what was found by the line, its tolerance and its prediction
+        for name, value in vars(self).items():
+            if isinstance(value, list):
+                value = list(value)
+            elif isinstance(value, Interval):
+                value = value.copy()
+            setattr(line, name, value)
         return line
 
     def copy(self):
-- 
2.43.0


From 121c2d96189d04c3108b5162d238a0e32dc8e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:33 +0000
Subject: [PATCH 72/75] fix: unevenly spaced points are sampled at least the
 minimum step apart

---
 curvepy/points.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 22f2b40..0694f54 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -191,7 +191,7 @@ class Points(Curve):
         if self.domain.is_empty:
             return []
 
-        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and (step != self.interval or not self.is_uniform))):
+        if self.interval is not None and ((min_step is not None and min_step > self._min_interval()) or (step is not None and (step != self.interval or not self.is_uniform))):
             # Irregular sampling
             return super().sample_points(domain=domain, min_step=min_step, step=step)
 
@@ -206,6 +206,11 @@ class Points(Curve):
         i0, i1 = self._domain_indexes(domain)
         return self._points[i0:i1]
 
+    def _min_interval(self):
+        if self.is_uniform:
+            return self.interval
+        return min(p1[0] - p0[0] for p0, p1 in zip(self._points, self._points[1:]))
+
     def _did_change_points(self):
         self.interval = None
         len_points = len(self._points)
-- 
2.43.0


From 7503044f14c254bb170f309b1591e328f99a75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 73/75] fix: an update announced in several parts leaves no
 running curve updating

---
 curvepy/scan.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 2986a71..8e00b62 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -14,7 +14,7 @@ class Scan(Curve):
         self.tfm = tfm
         self.scan_start = None
         self.current = None
-        self._update_intervals = {}
+        self._update_intervals = []
         self._observer_token = self.curve.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
@@ -101,18 +101,16 @@ class Scan(Curve):
         self.end_update(Interval.infinite())
 
     def begin_scan_update(self, domain):
-        key = (domain.start, domain.start_open)
-        domain = self._update_interval(domain)
-        self._update_intervals[key] = Interval.union([self._update_intervals.get(key, domain), domain])
-        self._reset_stale_scan(domain)
-        self.begin_update(domain)
+        update_domain = self._update_interval(domain)
+        self._update_intervals.append((domain, update_domain))
+        self._reset_stale_scan(update_domain)
+        self.begin_update(update_domain)
 
     def end_scan_update(self, domain):
-        # The end must cover what was announced at the beginning
-        begun = self._update_intervals.pop((domain.start, domain.start_open), None)
-        domain = self._update_interval(domain)
-        if begun is not None:
-            domain = Interval.union([begun, domain])
+        # The end must cover what was announced at the beginning, possibly in several parts
+        begun = [update for d, update in self._update_intervals if domain.is_superset_of(d)]
+        self._update_intervals = [(d, update) for d, update in self._update_intervals if not domain.is_superset_of(d)]
+        domain = Interval.union([self._update_interval(domain)] + begun)
         # Values may have been scanned while the update was in progress
         self._reset_stale_scan(domain)
         self.end_update(domain)
-- 
2.43.0


From 9eef53cf4b1dfde55c7d1a80d1133806d543033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 74/75] fix: the last step of a running curve does not depend
 on where it is read

---
 curvepy/scan.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 8e00b62..b63683a 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -59,11 +59,13 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                # Do not step to the requested position unless there is no other step,
+                # Do not step to the requested position unless there is no other step and no end,
                 # otherwise the scanned points would depend on where values are read.
                 current = self.x_next(self.current, min_step=self.min_step)
                 if current is None or math.isinf(current):
-                    current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                    domain = self.curve.domain
+                    has_end = domain.is_finite and not domain.end_open
+                    current = self.x_next(self.current, min_step=self.min_step, limit=domain.end if has_end else x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
-- 
2.43.0


From 814cb64a17bd8d0926a73b0e5126514b6de2f766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 75/75] fix: moving averages between points do not skip a point
 just before the position

---
 curvepy/sma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index fbd03f1..d6e5ad8 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -92,6 +92,10 @@ class SMA(Integral):
         # Handle offset
         x01 = self.curve.x_previous(x, min_step=self.min_step)
         x2 = self.curve.x_next(x01, min_step=self.min_step) if x01 is not None else None
+        while x2 is not None and x2 < x:
+            # The previous point may be less than a step behind the position
+            x01 = x2
+            x2 = self.curve.x_next(x01, min_step=self.min_step)
         if x2 is None:
             return None
         if x2 == x:
-- 
2.43.0

