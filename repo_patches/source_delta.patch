From a74831728abf281f1e173018b2d132e6fa881041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 01/52] fix: comparing a condition no longer changes the
 condition it was made from

---
 rocketry/core/condition/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1c0cc50..f409855 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -337,7 +337,8 @@ class BaseComparable(BaseCondition):
 
     def _set_comparison(self, key, val):
         obj = copy(self)
-        obj._comps[key] = val
+        # The comparisons are copied as well: self must not change
+        obj._comps = {**self._comps, key: val}
         return obj
 
     @classmethod
-- 
2.43.0


From b77f3ec4b5f94064512ce007fdcf78764dbfb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 02/52] fix: a list command no longer collects the arguments of
 the earlier runs

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..9fd16ae 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,7 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command += [param] + [val]
+                command = command + [param, val]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From fc100a1b7e9c1f1d32de5d433f2934183ffa3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 03/52] fix: read milliseconds and microseconds from time delta
 strings

---
 rocketry/pybox/time/convert.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/pybox/time/convert.py b/rocketry/pybox/time/convert.py
index d65f19c..4d32c09 100644
--- a/rocketry/pybox/time/convert.py
+++ b/rocketry/pybox/time/convert.py
@@ -262,6 +262,11 @@ def string_to_timedelta(s:str):
 
     # https://github.com/pandas-dev/pandas/blob/e8093ba372f9adfe79439d90fe74b0b5b6dea9d6/pandas/_libs/tslibs/timedeltas.pyx#L296
     abbrs = {
+        'microseconds': 'microsecond',
+        'microsecond': 'microsecond',
+        'μs': 'microsecond',
+
+        'milliseconds': 'millisecond',
         'millisecond': 'millisecond',
         'ms': 'millisecond',
 
-- 
2.43.0


From 13cbc2087dba027229e45c0b4440e012ddfa2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 04/52] fix: runtime of a task log record is in seconds

---
 rocketry/log/log_record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/log/log_record.py b/rocketry/log/log_record.py
index da321e9..82b01dd 100644
--- a/rocketry/log/log_record.py
+++ b/rocketry/log/log_record.py
@@ -60,7 +60,8 @@ class TaskLogRecord(MinimalRecord):
     @validator("runtime", pre=True)
     def format_runtime(cls, value):
         if value is not None:
-            value = to_timedelta(value)
+            # Runtime is logged in seconds
+            value = to_timedelta(value, unit="s")
         return value
 
 class MinimalRunRecord(MinimalRecord):
-- 
2.43.0


From c900233e8848066cd6154525af8799fa665ab60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 05/52] fix: union of periods rolls over all of the joined
 intervals

The search stopped at the first interval that did not extend the union even
though the ones after it could.
---
 rocketry/core/time/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..faf3ffa 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -441,8 +441,6 @@ class Any(TimePeriod):
             extends = interv.left < curr_interval.left
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             curr_interval.left,
@@ -470,8 +468,6 @@ class Any(TimePeriod):
             extends = interv.right > curr_interval.right
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             start_interval.left,
-- 
2.43.0


From ab6f2b007e931e11597643d8145742515a73ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:02 +0000
Subject: [PATCH 06/52] fix: intersection of periods that never meet ended in a
 recursion error

---
 rocketry/core/time/base.py | 107 ++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 48 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index faf3ffa..4030026 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -274,6 +274,10 @@ class All(TimePeriod):
 
     periods: FrozenSet[TimePeriod]
 
+    # Number of intervals to look through before the periods
+    # are considered to never overlap
+    _max_rolls: ClassVar[int] = 10_000
+
     def __init__(self, *args):
         if any(not isinstance(arg, TimePeriod) for arg in args):
             raise TypeError("Only TimePeriods supported")
@@ -302,31 +306,32 @@ class All(TimePeriod):
         # 3. If not overlaps, take max and check again
         # 4. If overlaps, get the period that overlaps
 
-        intervals = [
-            period.rollback(dt)
-            for period in self.periods
-        ]
-        all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
-        if all_overlaps:
-            return reduce(lambda a, b: a & b, intervals)
-        # Not found, trying again with next period
-        # Example:
-        # Current:                     |
-        # A:         <-------------->
-        # B:         <---> <--->
-        # C:         <------>
-        # Next try:         |
-        next_dt = min(intervals, key=lambda x: x.right).right
-
-        opened = any(
-            interv.closed not in ('right', 'both')
-            for interv in intervals
-            if interv.right == next_dt
-        )
-        # TODO: If
-        if dt == next_dt:
-            next_dt -= self.resolution
-        return self.rollback(next_dt)
+        for _ in range(self._max_rolls):
+            intervals = [
+                period.rollback(dt)
+                for period in self.periods
+            ]
+            all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
+            if all_overlaps:
+                return reduce(lambda a, b: a & b, intervals)
+            # Not found, trying again with next period
+            # Example:
+            # Current:                     |
+            # A:         <-------------->
+            # B:         <---> <--->
+            # C:         <------>
+            # Next try:         |
+            next_dt = min(intervals, key=lambda x: x.right).right
+
+            # TODO: If
+            if dt == next_dt:
+                next_dt -= self.resolution
+            dt = next_dt
+            if dt < to_datetime(self.min, timezone=dt.tzinfo):
+                break
+        # The periods never overlap
+        never = to_datetime(self.min, timezone=dt.tzinfo)
+        return Interval(never, never)
 
     def rollforward(self, dt):
         # We solve this iteratively
@@ -335,29 +340,35 @@ class All(TimePeriod):
         # 3. If not overlaps, take max and check again
         # 4. If overlaps, get the period that overlaps
 
-        intervals = [
-            period.rollforward(dt)
-            for period in self.periods
-        ]
-        all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
-        if all_overlaps:
-            return reduce(lambda a, b: a & b, intervals)
-        # Not found, trying again with next period
-        # Example:
-        # Current: |
-        # A:         <-------------->
-        # B:         <---> <--->
-        # C:                 <------>
-        # Next try:          |
-        next_dt = max(intervals, key=lambda x: x.left).left
-        opened = any(
-            interv.closed not in ('left', 'both')
-            for interv in intervals
-            if interv.left == next_dt
-        )
-        if opened:
-            next_dt -= self.resolution
-        return self.rollforward(next_dt)
+        for _ in range(self._max_rolls):
+            intervals = [
+                period.rollforward(dt)
+                for period in self.periods
+            ]
+            all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
+            if all_overlaps:
+                return reduce(lambda a, b: a & b, intervals)
+            # Not found, trying again with next period
+            # Example:
+            # Current: |
+            # A:         <-------------->
+            # B:         <---> <--->
+            # C:                 <------>
+            # Next try:          |
+            next_dt = max(intervals, key=lambda x: x.left).left
+            opened = any(
+                interv.closed not in ('left', 'both')
+                for interv in intervals
+                if interv.left == next_dt
+            )
+            if opened:
+                next_dt -= self.resolution
+            dt = next_dt
+            if dt >= to_datetime(self.max, timezone=dt.tzinfo):
+                break
+        # The periods never overlap
+        never = to_datetime(self.max, timezone=dt.tzinfo)
+        return Interval(never, never)
 
     def __eq__(self, other):
         # self | other
-- 
2.43.0


From 9940527cb16a8c144a292e0267e8708df1d3b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:09 +0000
Subject: [PATCH 07/52] fix: rolling month and year intervals follows the
 lengths of the months

---
 rocketry/core/time/base.py |  4 +++
 rocketry/time/interval.py  | 67 ++++++++++++++++++++++++++++++++------
 2 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 4030026..518efc7 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -165,6 +165,10 @@ class TimeInterval(TimePeriod):
             end = self.rollend(dt)
             start = self.prev_start(dt)
             if start == end:
+                if dt not in self:
+                    # The interval did not exist on the cycle
+                    # (ie. 31st on February). We look for another one
+                    return self.rollback(start - self.resolution)
                 # The interval is left closed but the start
                 # is included in the interval. Therefore
                 # we include a single point (both sides closed)
diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..1072c59 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -1,6 +1,7 @@
 import calendar
 import datetime
 import re
+from abc import abstractmethod
 from dataclasses import dataclass
 from typing import ClassVar, List
 
@@ -216,8 +217,45 @@ class TimeOfWeek(AnchoredInterval):
         return to_microseconds(**d) + dayofweek * to_microseconds(day=1)
 
 
+class _CalendarMixin:
+    """Mixin for the intervals of which the length of the
+    cycle varies (months and years)
+
+    The time points that do not exist on a given cycle
+    (ie. 31st on February) are considered to be the
+    end of the month."""
+
+    @abstractmethod
+    def get_cycle_point(self, dt, ms, offset=0):
+        "Get the time point (as microseconds) on dt's cycle or on a cycle relative to that"
+
+    def _get_next(self, dt, ms):
+        points = (self.get_cycle_point(dt, ms, offset=i) for i in (0, 1))
+        return next(point for point in points if point > dt)
+
+    def _get_prev(self, dt, ms):
+        points = (self.get_cycle_point(dt, ms, offset=i) for i in (0, -1))
+        return next(point for point in points if point <= dt)
+
+    def next_start(self, dt):
+        "Get next start point of the period"
+        return self._get_next(dt, self._start)
+
+    def next_end(self, dt):
+        "Get next end point of the period"
+        return self._get_next(dt, self._end)
+
+    def prev_start(self, dt):
+        "Get previous start point of the period"
+        return self._get_prev(dt, self._start)
+
+    def prev_end(self, dt):
+        "Get pervious end point of the period"
+        return self._get_prev(dt, self._end)
+
+
 @dataclass(frozen=True, init=False)
-class TimeOfMonth(AnchoredInterval):
+class TimeOfMonth(_CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: first day of month, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -286,18 +324,18 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
-    def get_scope_forward(self, dt):
-        n_days = calendar.monthrange(dt.year, dt.month)[1]
-        return to_microseconds(day=1) * n_days
-
-    def get_scope_back(self, dt):
-        month = 12 if dt.month == 1 else dt.month - 1
-        year = dt.year - 1 if dt.month == 1 else dt.year
+    def get_cycle_point(self, dt, ms, offset=0):
+        "Get the time point (as microseconds) on dt's month or on a month relative to that"
+        n_months = dt.year * 12 + (dt.month - 1) + offset
+        year, month = n_months // 12, n_months % 12 + 1
+        # All months don't have all of the days (ie. 31st)
         n_days = calendar.monthrange(year, month)[1]
-        return to_microseconds(day=1) * n_days
+        ms = min(ms, to_microseconds(day=1) * n_days)
+        month_start = dt.replace(year=year, month=month, day=1, hour=0, minute=0, second=0, microsecond=0)
+        return month_start + datetime.timedelta(microseconds=int(ms))
 
 @dataclass(frozen=True, init=False)
-class TimeOfYear(AnchoredInterval):
+class TimeOfYear(_CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: 1st Jan, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -401,6 +439,15 @@ class TimeOfYear(AnchoredInterval):
             d["day"] = d["day"] - 1
         return self._month_start_mapping[nth_month] + to_microseconds(**d)
 
+    def get_cycle_point(self, dt, ms, offset=0):
+        "Get the time point (as microseconds) on dt's year or on a year relative to that"
+        year_start = dt.replace(year=dt.year + offset, month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
+        nth_month = max(i for i, start in self._month_start_mapping.items() if start <= ms)
+        # The microseconds are for leap years: turning to month and to the time in the month
+        n_months = year_start.year * 12 + nth_month
+        month_start = year_start.replace(year=n_months // 12, month=n_months % 12 + 1)
+        return TimeOfMonth().get_cycle_point(month_start, ms - self._month_start_mapping[nth_month])
+
 
 @dataclass(frozen=True, init=False)
 class RelativeDay(TimeInterval):
-- 
2.43.0


From 31f2e4f0e8c4f016e3934e370fdd9f0563a365d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:07 +0000
Subject: [PATCH 08/52] fix: steps of cron fields follow the numbering of
 crontab

---
 rocketry/time/cron.py | 67 +++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..33561ce 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -1,7 +1,7 @@
-from typing import Callable
+from typing import Callable, ClassVar, Dict
 from dataclasses import dataclass
 
-from rocketry.core.time.base import TimePeriod, always
+from rocketry.core.time.base import Any, TimePeriod, always
 
 from .interval import TimeOfHour, TimeOfDay, TimeOfMinute, TimeOfWeek, TimeOfMonth, TimeOfYear
 
@@ -14,6 +14,15 @@ class Cron(TimePeriod):
     month: str = "*"
     day_of_week: str = "*"
 
+    # First and last values of the fields in Cron
+    _field_ranges: ClassVar[Dict] = {
+        TimeOfHour: (0, 59),
+        TimeOfDay: (0, 23),
+        TimeOfMonth: (1, 31),
+        TimeOfYear: (1, 12),
+        TimeOfWeek: (0, 6),
+    }
+
     def __init__(self, minute="*", hour="*", day_of_month="*", month="*", day_of_week="*"):
         object.__setattr__(self, "minute", minute)
         object.__setattr__(self, "hour", hour)
@@ -44,38 +53,21 @@ class Cron(TimePeriod):
                 # Any
                 continue
             if "/" in expr:
+                # Steps
                 expr, step = expr.split("/")
-                step_period = cls.create_range(step=int(step))
-            else:
-                step = None
-
-            if "-" in expr:
+                period = self._get_step_period(cls, expr, int(step), conv=conv)
+            elif "-" in expr:
                 # From to
                 start, end = expr.split("-")
                 if start.isdigit():
                     start = conv(int(start))
                 if end.isdigit():
                     end = conv(int(end))
-
-                if step is not None:
-                    # Unlike in traditional Python ranges,
-                    # cron includes also the endpoint thus
-                    # we convert to int (if needed) and add
-                    # one
-                    if isinstance(end, str):
-                        end = cls._unit_mapping[end.lower()]
-                    end += 1
-                    period = cls.create_range(start, end, step=int(step))
-                else:
-                    period = cls(start, end)
+                period = cls(start, end)
             else:
                 # At
-                step_period = cls.create_range(step=int(step)) if step is not None else always
                 value = conv(int(expr)) if expr.isdigit() else expr
-                if value == "*":
-                    period = always & step_period
-                else:
-                    period = cls.at(value) & step_period
+                period = cls.at(value)
 
             if full_period is None:
                 full_period = period
@@ -86,6 +78,33 @@ class Cron(TimePeriod):
             return default
         return full_period
 
+    def _get_step_period(self, cls, expr:str, step:int, conv:Callable):
+        "Get period for 'start-end/step', 'start/step' or '*/step'"
+        first, last = self._field_ranges[cls]
+        if expr == "*":
+            start, end = first, last
+        elif "-" in expr:
+            start, end = expr.split("-")
+        else:
+            # Crontab: without the end it's till the last value
+            start, end = expr, last
+
+        start = self._get_field_value(cls, start)
+        end = self._get_field_value(cls, end)
+        if cls is TimeOfWeek and start == 7:
+            # Sunday is both zero and seven
+            start = 0
+        # Unlike in traditional Python ranges, cron
+        # includes also the endpoint
+        return Any(*(cls.at(conv(i)) for i in range(start, end + 1, step)))
+
+    def _get_field_value(self, cls, value) -> int:
+        "Get the number of the value in Cron, ie. 'Jan' --> 1"
+        if isinstance(value, str) and not value.isdigit():
+            # The mappings start from zero (Monday and January)
+            return cls._unit_mapping[value.lower()] + 1
+        return int(value)
+
     def _convert_day_of_week(self, i:int):
         # In cron, 0 is Sunday but DayOfWeek don't allow zero
         return 7 if i == 0 else i
-- 
2.43.0


From 6c3f26f9837bcdda0412736d02df3eb4a19a57d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 09/52] fix: failure before the execution of a task is logged
 for its run

---
 rocketry/core/task.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..0418151 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -583,14 +583,23 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution != "async":
+                raise
+            # Task crashed before actually running the execute.
+            # There is nothing to raise it to
+            self.log_failure(task_run)
+            return
 
         try:
             if inspect.iscoroutinefunction(self.execute):
@@ -603,7 +612,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
@@ -683,7 +692,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -697,7 +706,7 @@ class Task(RedBase, BaseModel):
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -776,7 +785,7 @@ class Task(RedBase, BaseModel):
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From 28e64084e468dd9051281a6e3dcb34459acab31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 10/52] fix: finished runs are not logged terminated

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 0418151..ae71d22 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1027,7 +1027,8 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
-- 
2.43.0


From ead49adb9c8add4b0fed59fe923a5ec79e3043a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:41 +0000
Subject: [PATCH 11/52] fix: finish records carry the start of their own run

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index ae71d22..5bda69b 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1171,7 +1171,7 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From b91ace03a8b3b8f6cf953350062501a0aa4008c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:41 +0000
Subject: [PATCH 12/52] fix: a run that finished on the same tick it started is
 not a crash

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5bda69b..3af9f7e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -936,7 +936,9 @@ class Task(RedBase, BaseModel):
 
         times = {
             name: getattr(self, f"_last_{name}")
-            for name in ('run', 'success', 'fail', 'terminate', 'inaction', 'crash')
+            # NOTE: run is last as if the run and the finish were logged
+            # at the same time, the run has finished
+            for name in ('success', 'fail', 'terminate', 'inaction', 'crash', 'run')
             if getattr(self, f"_last_{name}") is not None
         }
         if times:
-- 
2.43.0


From b4c5ea7bc545aafb9798327cbd87e759c310ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:41 +0000
Subject: [PATCH 13/52] fix: a forced shut down no longer affects the later
 sessions

---
 rocketry/core/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..672e090 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -110,6 +110,7 @@ class Scheduler(RedBase):
         session."""
         # Unsetting some flags
         self._flag_shutdown.clear()
+        self._flag_force_exit.clear()
         self._flag_restart.clear()
         self._flag_enabled.set()
 
-- 
2.43.0


From adf1c20a97b634c838f9b8dbe604d54b0487a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:43 +0000
Subject: [PATCH 14/52] fix: estimating the period of a task failed if it was
 bound to a task status

---
 rocketry/core/task.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 3af9f7e..50359ee 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1364,14 +1364,18 @@ class Task(RedBase, BaseModel):
         cond = self.start_cond
         session = self.session
 
+        def has_own_period(cond):
+            is_own = cond.task is None or session[cond.task] is self
+            return is_own and cond.period is not None
+
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if has_own_period(cond):
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
+                if isinstance(sub_stmt, (TaskSucceeded, TaskFinished)) and has_own_period(sub_stmt):
                     task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
-- 
2.43.0


From 3057bc595528fd66c75f4d99ff2cd05c742ce01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:45 +0000
Subject: [PATCH 15/52] fix: open-ended periods failed on sessions with time
 zone

---
 rocketry/core/time/base.py  | 11 +++++++----
 rocketry/core/time/utils.py |  4 +++-
 rocketry/time/delta.py      | 10 +++++-----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 518efc7..164c807 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -520,18 +520,21 @@ class StaticInterval(TimePeriod):
         start = to_datetime(self.start, timezone=tz)
         if start > dt:
             # The actual interval is in the future
-            return Interval(self.min, self.min)
+            never = to_datetime(self.min, timezone=tz)
+            return Interval(never, never)
         end = to_datetime(self.end, timezone=tz)
         end = min(end, dt)
         return Interval(start, end)
 
     def rollforward(self, dt):
         dt = to_datetime(dt)
-        end = to_datetime(self.end)
+        tz = dt.tzinfo
+        end = to_datetime(self.end, timezone=tz)
         if end < dt:
             # The actual interval is already gone
-            return Interval(self.max, self.max)
-        start = max(self.start, dt)
+            never = to_datetime(self.max, timezone=tz)
+            return Interval(never, never)
+        start = max(to_datetime(self.start, timezone=tz), dt)
         return Interval(start, end)
 
     @property
diff --git a/rocketry/core/time/utils.py b/rocketry/core/time/utils.py
index b27e6c4..0b64c6e 100644
--- a/rocketry/core/time/utils.py
+++ b/rocketry/core/time/utils.py
@@ -3,6 +3,7 @@ import time
 import datetime
 from typing import Tuple
 
+from rocketry.pybox.time import to_datetime
 from .base import TimePeriod
 
 def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetime, datetime.datetime]:
@@ -11,7 +12,8 @@ def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetim
     from rocketry.parse import parse_time
 
     if period is None:
-        return TimePeriod.min, TimePeriod.max
+        tz = session.config.timezone if session is not None else None
+        return to_datetime(TimePeriod.min, timezone=tz), to_datetime(TimePeriod.max, timezone=tz)
     if isinstance(period, str):
         period = parse_time(period)
 
diff --git a/rocketry/time/delta.py b/rocketry/time/delta.py
index 12ce7b5..69749e4 100644
--- a/rocketry/time/delta.py
+++ b/rocketry/time/delta.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass, field
 from typing import Callable, Union
 
 from rocketry.core.time import TimeDelta
-from rocketry.pybox.time import to_timedelta, Interval
+from rocketry.pybox.time import to_datetime, to_timedelta, Interval
 
 @dataclass(frozen=True, init=False)
 class TimeSpanDelta(TimeDelta):
@@ -27,23 +27,23 @@ class TimeSpanDelta(TimeDelta):
         "Check whether the dt is period"
         reference = self.get_reference()
         if reference >= dt:
-            start = reference - self.far if self.far is not None else self.min
+            start = reference - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
             end = reference - self.near
         else:
             start = reference + self.near
-            end = reference + self.far if self.far is not None else self.max
+            end = reference + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return start <= dt <= end
 
     def rollback(self, dt):
         "Get previous interval (including currently ongoing)"
-        start = dt - self.far if self.far is not None else self.min
+        start = dt - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
         end = dt - self.near
         return Interval(start, end)
 
     def rollforward(self, dt):
         "Get next interval (including currently ongoing)"
         start = dt + self.near
-        end = dt + self.far if self.far is not None else self.max
+        end = dt + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return Interval(start, end)
 
     def __eq__(self, other):
-- 
2.43.0


From 821b8a1bc315c57f5a97a3fb8bbbf96490f656de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:01 +0000
Subject: [PATCH 16/52] fix: parameter conditions were never true when observed
 by the scheduler

---
 rocketry/conditions/parameter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index 326bee2..64001b8 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -83,7 +83,10 @@ class ParamExists(BaseCondition):
         self.param_values = kwargs
 
     def __bool__(self):
-        params = self.session.parameters
+        return self.observe(session=self.session)
+
+    def get_state(self, session=Session()):
+        params = session.parameters
         for key in self.param_keys:
             if key not in params:
                 return False
@@ -96,7 +99,10 @@ class ParamExists(BaseCondition):
         return True
 
     @classmethod
-    def _from_list(cls, l:Union[tuple, list]):
+    def _from_list(cls, l:Union[str, tuple, list]):
+        if isinstance(l, str):
+            # Parsed from string: names are separated with ', '
+            l = l.split("', '")
         return cls(*l)
 
     @classmethod
-- 
2.43.0


From 5651714cc9b615fb912bb9418c49b908fc46ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:18 +0000
Subject: [PATCH 17/52] fix: parsing conditions always and never

---
 rocketry/parse/_setup_cond_parsers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rocketry/parse/_setup_cond_parsers.py b/rocketry/parse/_setup_cond_parsers.py
index 856e21d..adf0054 100644
--- a/rocketry/parse/_setup_cond_parsers.py
+++ b/rocketry/parse/_setup_cond_parsers.py
@@ -11,6 +11,7 @@ from rocketry.time import TimeDelta
 
 from rocketry.session import Session
 from rocketry.core.condition import Not
+from rocketry.core.time import TimePeriod
 
 from rocketry.conds import (
     secondly, minutely, hourly, daily, weekly, monthly, every,
@@ -43,7 +44,11 @@ def _from_period_task_has(cls, span_type=None, inverse=False, **kwargs):
 def _set_is_period_parsing():
 
     def _get_is_period(period_constructor, *args, **kwargs):
-        period = period_constructor(*args, **kwargs)
+        if isinstance(period_constructor, TimePeriod):
+            # Static period, ie. "always"
+            period = period_constructor
+        else:
+            period = period_constructor(*args, **kwargs)
         return IsPeriod(period=period)
 
     cond_parsers = Session._cls_cond_parsers
-- 
2.43.0


From 3a8566adb0f802799c1ca9d194abe5e53278b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:08 +0000
Subject: [PATCH 18/52] fix: task conditions use the config of the session they
 are observed in

---
 rocketry/conditions/task/task.py  | 2 +-
 rocketry/conditions/task/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..a6e2268 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -167,7 +167,7 @@ class TaskRunning(BaseComparable):
     def get_measurement(self, task=Task(default=None), session=Session()):
         task = session[self.task] if self.task is not None else task
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
         start, end = get_period_span(self.period, session=session)
         if allow_optimization:
             task = session[self.task] if self.task is not None else task
diff --git a/rocketry/conditions/task/utils.py b/rocketry/conditions/task/utils.py
index 637e424..9439526 100644
--- a/rocketry/conditions/task/utils.py
+++ b/rocketry/conditions/task/utils.py
@@ -63,7 +63,7 @@ class TaskStatusMixin(BaseComparable):
         task = session[self.task] if self.task is not None else task
         _start_, _end_ = get_period_span(self.period if self.period is not None else task.period, session=session)
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
 
         if allow_optimization:
 
-- 
2.43.0


From 7722d82ca34c3f0ebb8fa390bd01fcc6fa086502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:21 +0000
Subject: [PATCH 19/52] fix: running condition read from the logs considers the
 finishes after the period and crashes

---
 rocketry/conditions/task/task.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index a6e2268..aeb563c 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -178,10 +178,13 @@ class TaskRunning(BaseComparable):
             ]
             return runs
 
+        # NOTE: the run must have started on the period but it
+        # may have finished also after the end of the period
         records = task.logger.get_records(
-            created=between(to_timestamp(start), to_timestamp(end)),
+            created=greater_equal(to_timestamp(start)),
         )
         records = sorted(records, key=lambda x: get_field_value(x, "created"))
+        end = to_timestamp(end)
         runs = []
         has_run_id = True
         try:
@@ -201,8 +204,12 @@ class TaskRunning(BaseComparable):
 
         for record in records:
             action = get_field_value(record, "action")
+            if action == "crash":
+                # The scheduler died and so did the runs before it
+                runs.clear()
+                continue
             is_run = action == "run"
-            if not is_run:
+            if not is_run or get_field_value(record, "created") > end:
                 continue
             if has_run_id:
                 run_id = get_field_value(record, "run_id")
-- 
2.43.0


From ece95a4d5f5661ee7b1d3f78952a276db7f65e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:55 +0000
Subject: [PATCH 20/52] fix: spaces around parentheses in condition strings

---
 rocketry/pybox/string/parse/closure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/pybox/string/parse/closure.py b/rocketry/pybox/string/parse/closure.py
index f4560f3..f368279 100644
--- a/rocketry/pybox/string/parse/closure.py
+++ b/rocketry/pybox/string/parse/closure.py
@@ -33,7 +33,7 @@ class ClosureParser:
             start, end = self.find_outer_indices(string)
 
             # Add left residual
-            if string[:start]:
+            if string[:start].strip():
                 res.append(string[:start])
 
             substr = string[slice(start + len_open, end)]
@@ -42,7 +42,7 @@ class ClosureParser:
             string = string[end+len_close:]
 
         # Add residual
-        if string:
+        if string.strip() or (string and not res):
             res.append(string)
         return res
 
-- 
2.43.0


From 15ef62fd989a8fe026b8e247b8a0722a20431945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:51 +0000
Subject: [PATCH 21/52] fix: return value of a process finished while another
 is starting is stored

---
 rocketry/core/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 50359ee..1d2f3a1 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1072,6 +1072,10 @@ class Task(RedBase, BaseModel):
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
                 task = self.session[record.task_name]
                 try:
+                    if hasattr(record, "__return__"):
+                        # Another task (as process) finished in the meantime
+                        task._handle_return(record.__return__)
+                        del record.__return__
                     task.log_record(record)
                 except Exception as exc:
                     # It must be made sure the task is set running
-- 
2.43.0


From 82bb7c608855e6e6ba7725ff56a040f752f01ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:54 +0000
Subject: [PATCH 22/52] fix: session arguments are materialized with the task
 on all task types

---
 rocketry/core/utils/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/utils/meta.py b/rocketry/core/utils/meta.py
index 30b5b2b..4057879 100644
--- a/rocketry/core/utils/meta.py
+++ b/rocketry/core/utils/meta.py
@@ -7,7 +7,8 @@ def filter_keyword_args(_func, _params:dict=None, **kwargs):
     """Filter only keyword arguments that the
     function requires."""
     if _params:
-        kwargs.update(_params)
+        # NOTE: items are used in order not to materialize the arguments
+        kwargs.update(_params.items())
     sig = inspect.signature(_func)
 
     kw_args = [
-- 
2.43.0


From eed803df3df5e349fb1d06e6e4f68642050ef262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:54 +0000
Subject: [PATCH 23/52] fix: asking a missing return value raised an unrelated
 error

---
 rocketry/args/builtin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index 90b53b2..da671e2 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -179,7 +179,7 @@ class Return(BaseArgument):
             return session.returns[input_task]
         except KeyError:
             if self.default is NOTSET:
-                raise KeyError(f"Return value not found for {repr(task)}")
+                raise KeyError(f"Return value not found for {repr(self.task_name)}")
             return self.default
 
     def __repr__(self):
-- 
2.43.0


From 68722255e80ab8d4f6958e05100cf854c7d9afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:54 +0000
Subject: [PATCH 24/52] fix: a batch that failed before its execution is not
 run over and over again

---
 rocketry/core/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1d2f3a1..695a80a 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -810,9 +810,11 @@ class Task(RedBase, BaseModel):
         return params
 
     def _get_direct_params(self):
+        # NOTE: the batch is used even if getting the other parameters fails
+        batch = self.batches.pop(0) if self.batches else None
         direct_params = self.get_task_params()
-        if self.batches:
-            direct_params.update(self.batches.pop(0))
+        if batch is not None:
+            direct_params.update(batch)
         return direct_params
 
     def get_task_params(self):
-- 
2.43.0


From b9c932f8ab008c7196e6147f24339a3a36910c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 25/52] fix: overridden session parameters are not materialized
 for threads and processes

---
 rocketry/core/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 695a80a..8c3d7cd 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -481,6 +481,11 @@ class Task(RedBase, BaseModel):
             self.force_run = False
             params = self.get_extra_params(params, execution=execution)
             direct_params = self._get_direct_params()
+            # Overridden parameters are not used and should not be materialized
+            params = Parameters({
+                key: val for key, val in params.items()
+                if key not in direct_params.keys()
+            })
 
             task_run.run_id = self.get_run_id(task_run, params=params | direct_params)
 
-- 
2.43.0


From 519136284f31274b090fde880188b057d69c622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:31 +0000
Subject: [PATCH 26/52] fix: failing before the start of a parallel run logs
 also the start of the run

---
 rocketry/core/task.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 8c3d7cd..ea40901 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -50,6 +50,7 @@ class TaskRun:
     start: float
     task: Union[asyncio.Task, threading.Thread, multiprocessing.Process, None]
     run_id: str = None
+    is_logged: bool = False # Whether the start of the run is logged (in this process)
 
     # Thread related
     event_terminate: Optional[threading.Event] = None
@@ -536,7 +537,8 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            # NOTE: status may also be run due to another (parallel) run
+            if self.status != "run" or (self.is_alive() and not task_run.is_logged):
                 self.log_running(task_run)
             self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
@@ -1097,6 +1099,8 @@ class Task(RedBase, BaseModel):
     def log_running(self, task_run:TaskRun=None):
         """Make a log that the task is currently running."""
         self._set_status("run", task_run)
+        if task_run is not None:
+            task_run.is_logged = True
 
     def log_failure(self, task_run:TaskRun=None):
         """Log that the task failed."""
-- 
2.43.0


From e07b478df9fd3f72b2836c3f1fced90314168b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:46 +0000
Subject: [PATCH 27/52] fix: forced shut down while waiting the tasks to finish
 terminates them

---
 rocketry/core/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 672e090..5ab15ad 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -369,6 +369,10 @@ class Scheduler(RedBase):
                     await self._hibernate() # This is the time async tasks can continue
 
                     self.handle_logs()
+                    if self._flag_force_exit.is_set():
+                        # Forced to shut down while waiting
+                        await self.terminate_all(reason="Forced shutdown of the scheduler")
+                        break
                     for task in self.tasks:
                         if task.permanent:
                             # Would never "finish" anyways
-- 
2.43.0


From 06354be33a2fec1fd392e442162a8dac83adf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:55 +0000
Subject: [PATCH 28/52] fix: task init hooks are those of the session the task
 is created to

---
 rocketry/core/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index ea40901..cae305d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -305,8 +305,11 @@ class Task(RedBase, BaseModel):
 
     def __init__(self, **kwargs):
 
-        hooker = _Hooker(self.session.hooks.task_init)
-        hooker.prerun(task=self)
+        session = kwargs.get("session")
+        if session is None:
+            session = self.session
+        hooker = _Hooker(session.hooks.task_init)
+        hooker.prerun(task=self, session=session)
 
         if kwargs.get("session") is None:
             warnings.warn("Task's session not defined. Creating new.", UserWarning)
-- 
2.43.0


From a84313b617c613e85c6ef71410058c89173c7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:38 +0000
Subject: [PATCH 29/52] fix: start condition of a group can be a string

---
 rocketry/application.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/application.py b/rocketry/application.py
index 4ebfefd..5b99877 100644
--- a/rocketry/application.py
+++ b/rocketry/application.py
@@ -9,6 +9,7 @@ from rocketry.log.log_record import LogRecord
 
 from rocketry.conditions import FuncCond
 from rocketry.parameters import FuncParam
+from rocketry.parse import parse_condition
 from rocketry import Session
 
 class _AppMixin:
@@ -36,7 +37,7 @@ class _AppMixin:
             if group.prefix:
                 task.name = group.prefix + task.name
             if group.start_cond is not None:
-                task.start_cond &= group.start_cond
+                task.start_cond &= parse_condition(group.start_cond, session=group.session)
             task.execution = group.execution if task.execution is None else task.execution
 
             self.session.add_task(task)
-- 
2.43.0


From 2d331bda241e48c28f751290860979227c40b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:38 +0000
Subject: [PATCH 30/52] fix: tasks of a group are logged to the task logger of
 the session they are included to

---
 rocketry/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/application.py b/rocketry/application.py
index 5b99877..9f5ec53 100644
--- a/rocketry/application.py
+++ b/rocketry/application.py
@@ -40,6 +40,10 @@ class _AppMixin:
                 task.start_cond &= parse_condition(group.start_cond, session=group.session)
             task.execution = group.execution if task.execution is None else task.execution
 
+            if task.logger_name == group.session.config.task_logger_basename:
+                # Not set by the user: log where the tasks of this session are logged
+                task.logger_name = self.session.config.task_logger_basename
+
             self.session.add_task(task)
         self.session.parameters.update(group.session.parameters)
 
-- 
2.43.0


From 79c485b3a1290f560ac93fd443edfa5ba910a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:38 +0000
Subject: [PATCH 31/52] fix: a task of a group is renamed if its name is taken
 and renaming is set

---
 rocketry/session.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..e383c04 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -424,6 +424,10 @@ class Session(RedBase):
             if if_exists == 'replace':
                 self.tasks.remove(task)
                 self.tasks.add(task)
+            elif if_exists == 'rename':
+                task.session = self
+                task.name = task.name # The validation sets a free name
+                self.tasks.add(task)
             elif if_exists == 'raise':
                 raise KeyError(f"Task '{task.name}' already exists")
         else:
-- 
2.43.0


From 7641ab642239a4af64daf312a82ec27351f304db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:21 +0000
Subject: [PATCH 32/52] fix: tasks can be created or renamed while running
 selected tasks

---
 rocketry/session.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index e383c04..eacb6c2 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -290,7 +290,7 @@ class Session(RedBase):
         orig_vals = {}
         for task in self.tasks:
             name = task.name
-            orig_vals[name] = {
+            orig_vals[task] = {
                 attr: val for attr, val in task.__dict__.items()
                 if attr not in ("status", "last_run", "last_success", "last_fail", "last_terminate")
             }
@@ -309,8 +309,9 @@ class Session(RedBase):
         finally:
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
-            for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+            # (the run may have created or renamed tasks)
+            for task, vals in orig_vals.items():
+                task.__dict__.update(vals)
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From a1b80ae551d6c23a6dd893e815d965fa80609a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:03 +0000
Subject: [PATCH 33/52] fix: condition that runs as a task can be used with
 different parameters

---
 rocketry/conditions/meta.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/meta.py b/rocketry/conditions/meta.py
index d12c585..10ca25b 100644
--- a/rocketry/conditions/meta.py
+++ b/rocketry/conditions/meta.py
@@ -101,10 +101,17 @@ class TaskCond(BaseCondition):
         "Recreate the condition using args and kwargs"
         new_self = copy.copy(self)
 
+        # There is one task for each set of parameters
+        basename = f"_condition-{self._get_func_name(self.func)}"
+        name = basename
+        num = 0
+        while name in self.session:
+            num += 1
+            name = f"{basename} - {num}"
+
         new_self.task = _FuncTaskCondWrapper(
             func=self.func,
-            #on_exists="rename",
-            name=f"_condition-{self._get_func_name(self.func)}",
+            name=name,
             parameters=kwargs,
             session=self.session,
             **self.kwds_task
-- 
2.43.0


From 9afe55fe15c5472fc6d6919ef4177f8aa153f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:12 +0000
Subject: [PATCH 34/52] fix: arguments given to a custom condition override the
 argument defaults of its function

---
 rocketry/conditions/func.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/conditions/func.py b/rocketry/conditions/func.py
index 213f12b..36acdde 100644
--- a/rocketry/conditions/func.py
+++ b/rocketry/conditions/func.py
@@ -1,5 +1,6 @@
 
 import copy
+import inspect
 from typing import Callable, List, Optional, Pattern, Union
 from rocketry.core.parameters.parameters import Parameters
 from rocketry.core.condition import BaseCondition
@@ -100,6 +101,9 @@ class FuncCond(BaseCondition):
 
     def observe(self, **kwargs) -> bool:
         func_params = Parameters._from_signature(self.func, **kwargs)
+        # Arguments given to the condition override the defaults of the function
+        given = inspect.signature(self.func).bind_partial(*self.args, **self.kwargs).arguments
+        func_params = Parameters({key: val for key, val in func_params._params.items() if key not in given})
         param_dict = func_params.materialize(**kwargs)
         return self.get_state(*self.args, **self.kwargs, **param_dict)
 
-- 
2.43.0


From 053720b53ee7c2975187a1b658c98be20cd1645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:45 +0000
Subject: [PATCH 35/52] fix: command task with parameters failed if the form of
 the arguments was not given

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 9fd16ae..2c639d6 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -58,7 +58,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
-- 
2.43.0


From 76609d688880105b85b478ce50e823d3306da82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:45 +0000
Subject: [PATCH 36/52] fix: parameters of a list command can be other than
 strings

---
 rocketry/tasks/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 2c639d6..ebc8595 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import os
 import subprocess
 from typing import List, Optional, Union
 
@@ -79,6 +80,8 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
+                if not isinstance(val, (str, bytes, os.PathLike)):
+                    val = str(val)
                 command = command + [param, val]
 
         # https://stackoverflow.com/a/5469427/13696660
-- 
2.43.0


From e429bd5b25c191399acd69cfa8314eb0cb168d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:45 +0000
Subject: [PATCH 37/52] fix: command task with a timeout always failed

---
 rocketry/tasks/command.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index ebc8595..dff1aed 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import os
 import subprocess
 from typing import List, Optional, Union
@@ -86,8 +87,12 @@ class CommandTask(Task):
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
+        timeout = self.timeout
+        if timeout is not None:
+            is_never = timeout == datetime.timedelta.max
+            timeout = timeout.total_seconds() if not is_never else None
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=timeout)
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
-- 
2.43.0


From ac0b2b9f2d0bb8ddf29de5d4323a4500f2b0445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:29 +0000
Subject: [PATCH 38/52] fix: make the sys_paths of a function task importable

---
 rocketry/tasks/func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 101912f..86e4bf2 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -237,7 +237,7 @@ class FuncTask(Task):
             root = str(Path(self.path).parent.absolute()) if not pkg_path else str(pkg_path)
 
             # _task_func is cached to faster performance
-            with TempSysPath([root] + self.sys_paths):
+            with TempSysPath([root] + [str(path) for path in self.sys_paths]):
                 task_module = get_module(self.path, pkg_path=pkg_path)
             task_func = getattr(task_module, self.func_name)
 
-- 
2.43.0


From 1cd1a9c219026da04ad936a0b4f6af905159937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:25 +0000
Subject: [PATCH 39/52] fix: retrying a task works if the log records are
 dictionaries

---
 rocketry/conditions/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index aeb563c..5ed7074 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -481,7 +481,7 @@ class Retry(BaseCondition):
             action=in_(['success', 'crash', 'inaction', 'terminate'])
         ).last()
 
-        last_non_fail_created = 0 if last_non_fail is None else last_non_fail.created
+        last_non_fail_created = 0 if last_non_fail is None else get_field_value(last_non_fail, "created")
 
         n_failed_in_row = task.logger.filter_by(
             created=greater_equal(last_non_fail_created),
-- 
2.43.0


From 155fb97a02624b3de29650c60c2ca12d02ec80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 40/52] fix: task logs use the time of the session that logs
 them

The custom time function was taken from the first session that used the logger
even if another session with another time function was started later.
---
 rocketry/session.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index eacb6c2..5fd4582 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -373,11 +373,15 @@ class Session(RedBase):
         if logger is None:
             logger = logging.getLogger(self.config.task_logger_basename)
         attr = '__rocketry_wrapped__'
-        is_wrapped = getattr(logger, attr, False)
-        wrap_logger = self.config.time_func is not None and not is_wrapped
-        if wrap_logger:
+        orig_method = getattr(logger, attr, None)
+        if orig_method is not None:
+            # The time was from another session (which may have been
+            # before this in the same process)
+            logger.makeRecord = orig_method
+            setattr(logger, attr, None)
+        if self.config.time_func is not None:
+            setattr(logger, attr, logger.makeRecord)
             logger.makeRecord = TaskAdapter._modify_record(logger.makeRecord, session=self)
-            setattr(logger, attr, True)
 
     def get_tasks(self) -> list:
         """Get session tasks as list.
-- 
2.43.0


From 9d40d4bc214422a2d63bdb64010204b513072b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:47 +0000
Subject: [PATCH 41/52] fix: tasks and their functions can be given to
 Session.run as documented

---
 rocketry/session.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index 5fd4582..9232e60 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -287,6 +287,12 @@ class Session(RedBase):
         # To prevent circular import
         from rocketry.conditions.scheduler import SchedulerCycles
 
+        # The tasks may also be given as tasks or functions
+        task_names = [
+            self._get_task_name(task) if callable(task) else task
+            for task in task_names
+        ]
+
         orig_vals = {}
         for task in self.tasks:
             name = task.name
-- 
2.43.0


From 8c7ad2707deb0d55b869724e4da80765a53eb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:47 +0000
Subject: [PATCH 42/52] fix: conditions can be observed with the function of a
 task as documented

---
 rocketry/args/builtin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index da671e2..5e3f39f 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -102,6 +102,9 @@ class Task(BaseArgument):
             is_task_cls = isinstance(task, BaseTask)
             if is_task_cls:
                 return task
+            elif hasattr(task, "__rocketry__") and session is not None:
+                # The function of the task
+                return session[task]
             elif self.default is not NOTSET:
                 return self.default
             raise TypeError(f"Expected {BaseTask}, got {type(task)}")
-- 
2.43.0


From 784f5b717ac887d78f65461805a1f91be8638c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:53 +0000
Subject: [PATCH 43/52] fix: concurrent assignments to a task are not lost

---
 rocketry/core/task.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index cae305d..4ba2e22 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -20,7 +20,7 @@ try:
 except ImportError: # pragma: no cover
     from typing_extensions import Literal
 
-from pydantic import BaseModel, Field, PrivateAttr, validator
+from pydantic import BaseModel, Field, PrivateAttr, ValidationError, validator
 
 from rocketry._base import RedBase
 from rocketry.core.condition import BaseCondition, AlwaysFalse, All
@@ -391,6 +391,22 @@ class Task(RedBase, BaseModel):
     def __hash__(self):
         return id(self)
 
+    def __setattr__(self, name, value):
+        field = self.__fields__.get(name)
+        if field is None or self.__pre_root_validators__ or self.__post_root_validators__:
+            super().__setattr__(name, value)
+            return
+        # NOTE: Pydantic would replace the whole __dict__ and
+        # what another thread sets at the same time (ie. the
+        # status of a threaded task) would be lost
+        others = self.__dict__.copy()
+        others.pop(name, None)
+        value, error = field.validate(value, others, loc=name, cls=type(self))
+        if error:
+            raise ValidationError([error], type(self))
+        self.__dict__[name] = value
+        self.__fields_set__.add(name)
+
     def run(self, _params:Union[Parameters, Dict]=None, **kwargs):
         """Set the task running (with given parameters)
 
-- 
2.43.0


From 577b6c2aa21975f657004ec81c98a5f7289d1ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:06 +0000
Subject: [PATCH 44/52] fix: restarting fresh starts the program again on Linux

---
 rocketry/core/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 5ab15ad..2729d71 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -9,6 +9,7 @@ import subprocess
 import logging
 import datetime
 import platform
+import shlex
 from queue import Empty
 
 from rocketry._base import RedBase
@@ -465,7 +466,8 @@ class Scheduler(RedBase):
                 subprocess.Popen([python, *sys.argv], shell=False, close_fds=True, creationflags=subprocess.CREATE_NEW_CONSOLE)
             else:
                 # Linux does not have CREATE_NEW_CONSOLE creation flag but shell=True is pretty close
-                subprocess.Popen([python, *sys.argv], shell=True, close_fds=True)
+                # (the shell takes only the first item of a list as the command)
+                subprocess.Popen(shlex.join([python, *sys.argv]), shell=True, close_fds=True)
         elif restarting == "recall":
             # Mostly useful for testing.
             # Restart by calling the self.__call__ again
-- 
2.43.0


From 1ec58e079263843e8d9135eaf58e4e5fe9155816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:11 +0000
Subject: [PATCH 45/52] fix: terminating a process that is writing a log record
 does not lock the log queue

---
 rocketry/core/task.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 4ba2e22..cbcb69d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1,4 +1,5 @@
 import asyncio
+from contextlib import contextmanager
 from dataclasses import dataclass
 import inspect
 from pickle import PicklingError
@@ -64,13 +65,17 @@ class TaskRun:
             return not self.task.done()
         return self.task.is_alive()
 
-    async def terminate(self):
+    async def terminate(self, log_lock):
         task = self.task
         if self.is_async:
             task.cancel()
             await task
         elif self.is_process:
-            task.terminate()
+            # If killed while writing a log record, the log queue
+            # would be left locked for all of the other processes
+            with log_lock:
+                task.terminate()
+                task.join(timeout=1)
             # Waiting till the termination is finished.
             # Otherwise may try to terminate it many times as the process is alive for a brief moment
             task.join()
@@ -1063,10 +1068,29 @@ class Task(RedBase, BaseModel):
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
 
+    @contextmanager
+    def _hold_log_queue(self):
+        "Prevent the processes from writing to the log queue"
+        scheduler = self.session.scheduler
+        lock = getattr(scheduler._log_queue, "_wlock", None) # None in Windows
+        is_held = False
+        if lock is not None:
+            for _ in range(100):
+                is_held = lock.acquire(timeout=0.1)
+                if is_held:
+                    break
+                # A process may be waiting for the queue to be read
+                scheduler.handle_logs()
+        try:
+            yield
+        finally:
+            if is_held:
+                lock.release()
+
     async def _terminate_run(self, run:TaskRun, reason=None):
         "Terminate the whole run stack"
         try:
-            await run.terminate()
+            await run.terminate(log_lock=self._hold_log_queue())
         except asyncio.CancelledError:
             # Async tasks raise CancelledError if terminated
             self.log_termination(reason=reason, task_run=run)
-- 
2.43.0


From 17bd7909df80f2d79d0c88284d26182a808538fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:10 +0000
Subject: [PATCH 46/52] fix: file tasks running at the same time do not break
 the imports of each other

---
 rocketry/tasks/func.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 86e4bf2..8b71c80 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -1,8 +1,10 @@
+import os
 import sys
 import inspect
 import importlib
 from pathlib import Path
 from typing import Callable, List, Optional
+import threading
 import warnings
 
 from pydantic import Field, PrivateAttr, validator
@@ -33,20 +35,36 @@ def get_module(path, pkg_path=None):
 
 class TempSysPath:
     # TODO: To utils.
-    sys_path = sys.path
+
+    # NOTE: Other threads may be importing at the same time. Thus the list
+    # is replaced: removing from it could make them to skip some of the paths
+    _lock = threading.Lock()
+
     def __init__(self, paths:list):
         self.paths = paths
 
     def __enter__(self):
-        for path in self.paths:
-            sys.path.append(path)
+        with self._lock:
+            sys.path = [*sys.path, *self.paths]
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        for path in self.paths:
-            try:
-                self.sys_path.remove(path)
-            except ValueError:
-                pass
+        with self._lock:
+            # The paths may have been there already: removing the ones added
+            sys_path = sys.path[::-1]
+            for path in self.paths:
+                try:
+                    sys_path.remove(path)
+                except ValueError:
+                    pass
+            sys.path = sys_path[::-1]
+
+    @classmethod
+    def _reset_lock(cls):
+        # A forked process does not have the thread that may be holding the lock
+        cls._lock = threading.Lock()
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=TempSysPath._reset_lock)
 
 class FuncTask(Task):
     """Task that executes a function or callable.
-- 
2.43.0


From 722406e98b46ef18e7291bed3df1f7f4abfae5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:18 +0000
Subject: [PATCH 47/52] fix: a task that exits with SystemExit or is
 interrupted gets its end to the log

---
 rocketry/core/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index cbcb69d..b3cf71f 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -665,7 +665,7 @@ class Task(RedBase, BaseModel):
             status = "termination"
             exc_info = sys.exc_info()
 
-        except Exception:
+        except (Exception, SystemExit, KeyboardInterrupt) as exc:
             # All the other exceptions (failures)
             try:
                 self.process_failure(*sys.exc_info())
@@ -678,7 +678,8 @@ class Task(RedBase, BaseModel):
             #self.logger.error(f'Task {self.name} failed', exc_info=True, extra={"action": "fail"})
 
             exc_info = sys.exc_info()
-            if execution is None:
+            if execution is None or not isinstance(exc, Exception):
+                # Exits and interrupts are logged but never silenced
                 raise
 
         else:
-- 
2.43.0


From 3db243a8d613d35dfe77e3e40f55901f6ced4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:53 +0000
Subject: [PATCH 48/52] fix: raising SchedulerExit or SchedulerRestart in a
 thread or process task logs one end

---
 rocketry/core/task.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b3cf71f..26209a8 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -735,6 +735,9 @@ class Task(RedBase, BaseModel):
 
         try:
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="thread")
+        except (SchedulerRestart, SchedulerExit):
+            # The run is already logged (as success)
+            pass
         except Exception:
             # Task crashed before actually running the execute.
             try:
@@ -815,6 +818,9 @@ class Task(RedBase, BaseModel):
             # NOTE: The parameters are "materialized"
             # here in the actual process that runs the task
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
+        except (SchedulerRestart, SchedulerExit):
+            # The run is already logged (as success)
+            pass
         except Exception as exc:
             # Task crashed before running execute (silence=True)
             self.log_failure(task_run)
-- 
2.43.0


From ff4d25198acf3c7894c82c87ef7819dfa5630660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:30 +0000
Subject: [PATCH 49/52] fix: a main or async task is not run if logging its
 start failed

---
 rocketry/core/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 26209a8..8c77241 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -516,6 +516,10 @@ class Task(RedBase, BaseModel):
 
             # Run the actual task
             if execution in ("main", "async"):
+                self._run_stack.append(task_run)
+                self.log_running(task_run)
+                # NOTE: not created before it is logged as running
+                # (would be run even if the logging failed)
                 async_task = asyncio.create_task(
                     self._run_as_async(
                         params=params,
@@ -526,8 +530,6 @@ class Task(RedBase, BaseModel):
                 )
                 if execution == "async":
                     task_run.task = async_task
-                self._run_stack.append(task_run)
-                self.log_running(task_run)
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
-- 
2.43.0


From 40d0139f7d9c70ae216ca10a4b98bab45d33acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:00 +0000
Subject: [PATCH 50/52] fix: logging errors of async tasks reach the scheduler

---
 rocketry/core/task.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 8c77241..a347e2e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -65,6 +65,11 @@ class TaskRun:
             return not self.task.done()
         return self.task.is_alive()
 
+    def set_async_error(self, task: asyncio.Task):
+        "Store the logging error of an async task (for the scheduler to raise)"
+        if not task.cancelled() and isinstance(task.exception(), TaskLoggingError):
+            self.exception = task.exception()
+
     async def terminate(self, log_lock):
         task = self.task
         if self.is_async:
@@ -530,6 +535,7 @@ class Task(RedBase, BaseModel):
                 )
                 if execution == "async":
                     task_run.task = async_task
+                    async_task.add_done_callback(task_run.set_async_error)
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
-- 
2.43.0


From 57c8db7412829d2a49276d598905110e579b0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:30 +0000
Subject: [PATCH 51/52] fix: failing to log a termination does not stop a
 scheduler that silences logging errors nor the terminations of others

---
 rocketry/core/task.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a347e2e..a19d7fd 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1105,14 +1105,20 @@ class Task(RedBase, BaseModel):
     async def _terminate_run(self, run:TaskRun, reason=None):
         "Terminate the whole run stack"
         try:
-            await run.terminate(log_lock=self._hold_log_queue())
-        except asyncio.CancelledError:
-            # Async tasks raise CancelledError if terminated
-            self.log_termination(reason=reason, task_run=run)
-        else:
-            if run.is_process:
-                # Threaded tasks handle their termination themselves
+            try:
+                await run.terminate(log_lock=self._hold_log_queue())
+            except asyncio.CancelledError:
+                # Async tasks raise CancelledError if terminated
                 self.log_termination(reason=reason, task_run=run)
+            else:
+                if run.is_process:
+                    # Threaded tasks handle their termination themselves
+                    self.log_termination(reason=reason, task_run=run)
+        except TaskLoggingError as exc:
+            # The scheduler raises this (if not silenced) after also
+            # the other runs have been terminated
+            self.session.scheduler.logger.exception(f"Logging failed for task '{self.name}'")
+            run.exception = exc
 
 # Logging
     def _lock_to_run_log(self, log_queue):
@@ -1173,10 +1179,11 @@ class Task(RedBase, BaseModel):
         """Make a log that the task was terminated."""
         reason = reason or "unknown reason"
         msg = self.fmt_log_message.format(action="terminate", task=self.name)
-        self._set_status("terminate", task_run, message=msg + f" ({reason})")
-
-        # Reset event and force_termination (for threads)
-        self.force_termination = False
+        try:
+            self._set_status("terminate", task_run, message=msg + f" ({reason})")
+        finally:
+            # Reset event and force_termination (for threads)
+            self.force_termination = False
 
     def log_inaction(self, task_run:TaskRun=None):
         """Make a log that the task did nothing."""
-- 
2.43.0


From 4eb646cabbd872cdc361accad323acd714173617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:29 +0000
Subject: [PATCH 52/52] fix: a record that cannot be logged does not lose the
 other records of the log queue

---
 rocketry/core/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 2729d71..7a8a2b8 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -258,6 +258,7 @@ class Scheduler(RedBase):
         """Handle the status queue and carries the logging on their behalf."""
         # TODO: This could be maybe done in the tasks
         queue = self._log_queue
+        error = None
         while True:
             try:
                 record = queue.get(block=False)
@@ -286,7 +287,13 @@ class Scheduler(RedBase):
                     return_value = record.__return__
                     task._handle_return(return_value)
                     del record.__return__
-                self._log_task(task, "log_record", record)
+                try:
+                    self._log_task(task, "log_record", record)
+                except TaskLoggingError as exc:
+                    # The other records still need to be handled
+                    error = error or exc
+        if error is not None:
+            raise error
 
     async def _hibernate(self):
         """Go to sleep and wake up when next task can be executed."""
-- 
2.43.0

