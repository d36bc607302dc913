"""Calendar reference of the time periods (independent of rocketry's microsecond axis).

A ``Spec`` describes an anchored period the way the documentation does ("from Tue to Fri 10:00",
"on 31st", ...). ``Spec.build()`` makes the rocketry object out of it, everything else here is
plain datetime arithmetic: every cycle (second, minute, hour, day, week, month, year) has one
window, start and end points are clamped to the end of the month where they do not exist.
"""
import calendar
import datetime
import itertools

from rocketry.time import TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeOfYear
from rocketry.time.interval import TimeOfSecond

D = datetime.datetime
TD = datetime.timedelta
US = TD(microseconds=1)
DAY = TD(days=1)

CLASSES = {
    "second": TimeOfSecond, "minute": TimeOfMinute, "hour": TimeOfHour, "day": TimeOfDay,
    "week": TimeOfWeek, "month": TimeOfMonth, "year": TimeOfYear,
}
UNITS = {
    "second": TD(milliseconds=1), "minute": TD(seconds=1), "hour": TD(minutes=1), "day": TD(hours=1),
    "week": DAY, "month": DAY, "year": None,
}
WEEKDAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September",
          "October", "November", "December"]


# ------------------------------------------------------------------ cycles

def cycle_start(scope, dt):
    if scope == "second":
        return dt.replace(microsecond=0)
    if scope == "minute":
        return dt.replace(second=0, microsecond=0)
    if scope == "hour":
        return dt.replace(minute=0, second=0, microsecond=0)
    day = dt.replace(hour=0, minute=0, second=0, microsecond=0)
    if scope == "day":
        return day
    if scope == "week":
        return day - TD(days=day.weekday())
    if scope == "month":
        return day.replace(day=1)
    return day.replace(month=1, day=1)


_FIXED = {"second": TD(seconds=1), "minute": TD(minutes=1), "hour": TD(hours=1), "day": DAY, "week": TD(days=7)}


def cycle_shift(scope, cs, n):
    if scope in _FIXED:
        return cs + n * _FIXED[scope]
    if scope == "month":
        m = cs.year * 12 + cs.month - 1 + n
        return cs.replace(year=m // 12, month=m % 12 + 1)
    return cs.replace(year=cs.year + n)


# ------------------------------------------------------------------ points
# A point is a function cycle start -> datetime

def _fixed_point(delta):
    return lambda cs: cs + delta


def _month_point(day_index, tod):
    "day_index from 0; clamped to the end of the month"
    def point(cs):
        n_days = calendar.monthrange(cs.year, cs.month)[1]
        off = TD(days=day_index) + tod
        return cs + min(off, TD(days=n_days))
    return point


def _year_point(month_index, day_index, tod):
    def point(cs):
        if month_index == 12:
            return cs.replace(year=cs.year + 1)
        return _month_point(day_index, tod)(cs.replace(month=month_index + 1))
    return point


class Pt:
    "A point of a cycle: what is given to rocketry + what it means"
    def __init__(self, value, point, order, unit_only=False):
        self.value = value      # str/int/float passed to rocketry
        self.point = point      # cycle start -> datetime
        self.order = order      # comparable position in the cycle
        self.unit_only = unit_only

    def __repr__(self):
        return repr(self.value)


def _frac(rng, us):
    "Microseconds as the fraction digits of a string"
    s = f"{us:06d}"
    while s.endswith("0") and len(s) > 1 and rng.random() < 0.7:
        s = s[:-1]
    return s


def rand_tod(rng, coarse=0.6):
    h, m = rng.randrange(24), 0
    if rng.random() > coarse * 0.5:
        m = rng.choice([0, 15, 30, 45, 59, rng.randrange(60)])
    s = rng.randrange(60) if rng.random() > coarse else 0
    us = rng.choice([0, 0, 1, 999999, 500000, rng.randrange(10**6)]) if s or rng.random() < 0.1 else 0
    text = f"{h:02d}:{m:02d}"
    if s or us or rng.random() < 0.3:
        text += f":{s:02d}"
        if us:
            text += "." + _frac(rng, us)
    elif rng.random() < 0.05:
        text = rng.choice([f"{(h % 12) or 12}:{m:02d} {'AM' if h < 12 else 'PM'}", text])
    return text, TD(hours=h, minutes=m, seconds=s, microseconds=us)


def _suffix(n):
    if 10 <= n % 100 <= 20:
        return "th"
    return {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


def _case(rng, name):
    name = rng.choice([name, name[:3]])
    return rng.choice([name, name, name.lower(), name.upper()])


def rand_point(rng, scope, side):
    """A random start or end point. ``side`` is start, end or at"""
    end = side == "end"
    if scope == "second":
        ms = rng.choice([0, 1, 250, 500, 998, 999, rng.randrange(1000)])
        kind = rng.choice(["int", "float", "str"])
        if kind == "int":
            d = TD(milliseconds=ms + (1 if end else 0))
            return Pt(ms, _fixed_point(d), d, True)
        us = ms * 1000 + rng.choice([0, 0, 125, 250, 500, 875])
        val = us / 1000
        d = TD(microseconds=us)
        return Pt(val if kind == "float" else str(val), _fixed_point(d), d)
    if scope == "minute":
        s = rng.choice([0, 1, 15, 30, 45, 58, 59, rng.randrange(60)])
        kind = rng.choice(["int", "str", "str"])
        if kind == "int":
            d = TD(seconds=s + (1 if end else 0))
            return Pt(s, _fixed_point(d), d, True)
        us = rng.choice([0, 0, 1, 500000, 999999, rng.randrange(10**6)])
        text = f"{s:02d}" + ("." + _frac(rng, us) if us else "")
        d = TD(seconds=s, microseconds=us)
        return Pt(text, _fixed_point(d), d)
    if scope == "hour":
        m = rng.choice([0, 1, 15, 30, 45, 58, 59, rng.randrange(60)])
        kind = rng.choice(["int", "str", "str"])
        if kind == "int":
            d = TD(minutes=m + (1 if end else 0))
            return Pt(m, _fixed_point(d), d, True)
        s = rng.choice([0, 0, 0, rng.randrange(60)])
        us = rng.choice([0, 0, 0, 1, 500000, 999999, rng.randrange(10**6)])
        text = f"{m:02d}:{s:02d}" + ("." + _frac(rng, us) if us else "")
        d = TD(minutes=m, seconds=s, microseconds=us)
        return Pt(text, _fixed_point(d), d)
    if scope == "day":
        if rng.random() < 0.25:
            h = rng.choice([0, 1, 10, 12, 22, 23, rng.randrange(24)])
            d = TD(hours=h + (1 if end else 0))
            return Pt(h, _fixed_point(d), d, True)
        text, d = rand_tod(rng)
        return Pt(text, _fixed_point(d), d)
    if scope == "week":
        i = rng.randrange(7)
        r = rng.random()
        if r < 0.2:
            d = TD(days=i + (1 if end else 0))
            return Pt(i + 1, _fixed_point(d), d, True)
        if r < 0.6:
            d = TD(days=i + (1 if end else 0))
            return Pt(_case(rng, WEEKDAYS[i]), _fixed_point(d), d, True)
        text, tod = rand_tod(rng)
        d = TD(days=i) + tod
        return Pt(f"{_case(rng, WEEKDAYS[i])} {text}", _fixed_point(d), d)
    if scope == "month":
        i = rng.choice([0, 1, 4, 14, 26, 27, 28, 29, 30, rng.randrange(31)])
        r = rng.random()
        if r < 0.25:
            d = i + (1 if end else 0)
            return Pt(i + 1, _month_point(d, TD()), TD(days=d), True)
        label = rng.choice([f"{i+1}{_suffix(i+1)}", f"{i+1}{_suffix(i+1)}", f"{i+1}."])
        if r < 0.7:
            d = i + (1 if end else 0)
            return Pt(label, _month_point(d, TD()), TD(days=d), True)
        text, tod = rand_tod(rng)
        return Pt(f"{label} {text}", _month_point(i, tod), TD(days=i) + tod)
    # year
    i = rng.randrange(12)
    r = rng.random()
    if r < 0.25:
        m = i + (1 if end else 0)
        return Pt(i + 1, _year_point(m, 0, TD()), (m, TD()), True)
    if r < 0.7:
        m = i + (1 if end else 0)
        return Pt(_case(rng, MONTHS[i]), _year_point(m, 0, TD()), (m, TD()), True)
    n_days = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][i]
    day = rng.choice([1, 2, 15, 28, n_days, rng.randrange(1, n_days + 1)])
    if end or rng.random() < 0.6:
        text, tod = rand_tod(rng)
        label = f"{_case(rng, MONTHS[i])} {day}{_suffix(day)} {text}"
    else:
        tod = TD()
        label = f"{_case(rng, MONTHS[i])} {day}{_suffix(day)}"
    return Pt(label, _year_point(i, day - 1, tod), (i, TD(days=day - 1) + tod))


# ------------------------------------------------------------------ specs

class Spec:
    """kind: full, between, after, before, at, starting"""

    def __init__(self, scope, kind, start=None, end=None):
        self.scope, self.kind, self.start, self.end = scope, kind, start, end
        zero = (lambda cs: cs)
        if kind == "full":
            self.p_start, self.p_end, self.wraps, self.is_full = zero, zero, True, True
        elif kind == "starting":
            self.p_start = self.p_end = start.point
            self.wraps, self.is_full = True, True
        else:
            self.p_start = start.point if start is not None else zero
            if kind == "at":
                self.p_end, order_end = self._at_end()
            elif end is None:
                self.p_end = lambda cs: cycle_shift(scope, cs, 1)
                order_end = None          # end of the cycle
            else:
                self.p_end, order_end = end.point, end.order
            order_start = start.order if start is not None else self._zero_order()
            self.is_full = order_end is not None and order_start == order_end or (
                order_start == self._zero_order() and (order_end is None or order_end == self._max_order()))
            self.wraps = order_end is not None and order_end <= order_start

    def _zero_order(self):
        return (0, TD()) if self.scope == "year" else TD()

    def _max_order(self):
        return {
            "second": TD(seconds=1), "minute": TD(minutes=1), "hour": TD(hours=1), "day": DAY,
            "week": TD(days=7), "month": TD(days=31), "year": (12, TD()),
        }[self.scope]

    def _at_end(self):
        if self.scope == "year":
            m = self.start.order[0] + 1
            order = (m, TD())
            if m == 12:
                return (lambda cs: cycle_shift("year", cs, 1)), None
            return _year_point(m, 0, TD()), order
        off = self.start.order + UNITS[self.scope]
        mx = self._max_order()
        if self.scope == "month":
            if off >= mx:
                off -= mx
                return _month_point(off.days, off - TD(days=off.days)), off
            return _month_point(off.days, off - TD(days=off.days)), off
        if off >= mx:
            off -= mx
        return _fixed_point(off), off

    @property
    def month_ended(self):
        "A year window that ends with a month (see known finding on the last microsecond)"
        if self.scope != "year":
            return False
        if self.kind == "at":
            return True
        return self.kind in ("between", "before") and self.end is not None and self.end.unit_only

    def build(self):
        cls = CLASSES[self.scope]
        if self.kind == "full":
            return cls()
        if self.kind == "at":
            return cls.at(self.start.value)
        if self.kind == "starting":
            return cls.starting(self.start.value)
        return cls(self.start.value if self.start else None, self.end.value if self.end else None)

    def window(self, cs):
        "The window that belongs to the cycle starting at cs (left, right)"
        left = self.p_start(cs)
        right = self.p_end(cycle_shift(self.scope, cs, 1) if self.wraps else cs)
        return left, right

    def windows(self, dt, back=3, forward=3):
        "Windows around dt in order (empty ones left out)"
        cs = cycle_start(self.scope, dt)
        out = []
        for i in range(-back, forward + 1):
            left, right = self.window(cycle_shift(self.scope, cs, i))
            if left < right:
                out.append((left, right))
        return out

    def contains(self, dt):
        if self.is_full:
            return True
        return any(left <= dt < right for left, right in self.windows(dt, 1, 0))

    def next_boundary(self, dt):
        return min(w[0] for w in self.windows(dt) if w[0] > dt)

    def prev_boundary(self, dt):
        return max(w[0] for w in self.windows(dt) if w[0] < dt)

    def forward(self, dt):
        "Expected (left, right) of rollforward"
        if self.is_full:
            return dt, self.next_boundary(dt)
        for left, right in self.windows(dt, 2, 4):
            if left <= dt < right:
                return dt, right
            if left > dt:
                return left, right
        raise AssertionError("no window")

    def back(self, dt):
        "Expected (left, right) of rollback: the running window till dt or the previous one"
        if self.is_full:
            return self.prev_boundary(dt), dt
        for left, right in reversed(self.windows(dt, 4, 1)):
            if left <= dt < right:
                return left, dt
            if right <= dt:
                return left, right
        raise AssertionError("no window")

    def edges(self, dt):
        return sorted({e for w in self.windows(dt) for e in w})

    def __repr__(self):
        cls = CLASSES[self.scope].__name__
        if self.kind == "full":
            return f"{cls}()"
        if self.kind in ("at", "starting"):
            return f"{cls}.{self.kind}({self.start!r})"
        return f"{cls}({self.start!r}, {self.end!r})"


SCOPES = ["second", "minute", "hour", "day", "week", "month", "year"]


def rand_spec(rng, scopes=SCOPES, kinds=("between",) * 4 + ("after", "before", "at", "at", "full", "starting")):
    for _ in range(200):
        scope = rng.choice(scopes)
        kind = rng.choice(kinds)
        start = end = None
        if kind in ("between", "after", "at", "starting"):
            start = rand_point(rng, scope, "start")
        if kind in ("between", "before"):
            end = rand_point(rng, scope, "end")
        if kind == "at" and scope == "year" and not start.unit_only:
            continue
        if kind == "between" and scope in ("month", "year") and start.order == end.order:
            continue
        if kind in ("after",) and start.order == {"second": TD(seconds=1)}.get(scope):
            continue
        if end is not None and kind == "before" and end.order in (TD(), (0, TD())):
            continue    # empty/full window: "before 00:00"
        return Spec(scope, kind, start, end)
    raise AssertionError("no spec")


def rand_dt(rng, lo=2019, hi=2027):
    "A datetime with a bias to awkward dates"
    r = rng.random()
    y = rng.randrange(lo, hi)
    if r < 0.25:
        m, d = rng.choice([(2, 28), (2, 29), (3, 1), (12, 31), (1, 1), (1, 31), (4, 30), (5, 31), (3, 31), (2, 1)])
        if (m, d) == (2, 29):
            y = rng.choice([2020, 2024])
    else:
        m = rng.randrange(1, 13)
        d = rng.randrange(1, calendar.monthrange(y, m)[1] + 1)
    us = rng.choice([0, 0, 1, 999999, rng.randrange(10**6)])
    hms = rng.choice([(0, 0, 0), (23, 59, 59), None, None, None])
    if hms is None:
        hms = rng.randrange(24), rng.randrange(60), rng.randrange(60)
    return D(y, m, d, *hms, us)


def rand_dts(rng, spec, n):
    "Instants: random ones and ones at/next to the edges of the windows"
    out = []
    for _ in range(n):
        dt = rand_dt(rng)
        if rng.random() < 0.6:
            edges = spec.edges(dt)
            if edges:
                e = rng.choice(edges)
                dt = e + rng.choice([TD(), -US, US, TD(seconds=-1), TD(seconds=1), TD(hours=rng.randrange(-30, 30))])
        out.append(dt)
    return out


def month_end_quirk(spec, dt):
    "Known finding: year windows ending with a month miss the last microsecond of the month"
    return spec.month_ended and any(dt + US == right for _, right in spec.windows(dt))


# ------------------------------------------------------------------ compositions

FAR = D(2260, 1, 1)
EARLY = D(1970, 1, 3, 2)


class Leaf:
    def __init__(self, spec):
        self.spec = spec

    def build(self):
        return self.spec.build()

    def contains(self, t):
        return self.spec.contains(t)

    def first_in(self, t):
        "First instant >= t in the set"
        return self.spec.forward(t)[0]

    def forward(self, t):
        return self.spec.forward(t)

    def first_out(self, t):
        "First instant > t (t in the set) that is not in the set"
        if self.spec.is_full:
            return FAR
        for _ in range(40):
            right = next(r for l, r in self.spec.windows(t, 2, 1) if l <= t < r)
            if not self.spec.contains(right):
                return right
            t = right
        return FAR

    def window_before(self, t):
        "Window (left, right cut at t) with points right before t, or the closest earlier one"
        if self.spec.is_full:
            return max(l for l, _ in self.spec.windows(t, 3, 1) if l < t), t
        left, right = next((l, r) for l, r in reversed(self.spec.windows(t, 14 if self.spec.scope in ("month", "year") else 4, 1)) if l < t)
        return left, min(right, t)

    def last_out(self, t):
        "Start of the contiguous part of the set that ends at t"
        if self.spec.is_full:
            return EARLY
        for _ in range(40):
            left, right = self.window_before(t)
            if right != t:
                return t
            t = left
        return EARLY

    def leaves(self):
        return [self.spec]

    def __repr__(self):
        return repr(self.spec)


class Static:
    def __init__(self, start=None, end=None, name=None):
        self.start, self.end, self.name = start, end, name

    def build(self):
        from rocketry.core.time import StaticInterval, always, never
        if self.name:
            return {"always": always, "never": never}[self.name]
        return StaticInterval(self.start, self.end)

    @property
    def span(self):
        if self.name == "always":
            return EARLY, FAR
        if self.name == "never":
            return FAR, FAR
        return self.start, self.end

    def contains(self, t):
        l, r = self.span
        return l <= t < r

    def first_in(self, t):
        l, r = self.span
        return max(l, t) if t < r else FAR

    def forward(self, t):
        l, r = self.span
        return (max(l, t), r) if t < r else (FAR, FAR)

    def first_out(self, t):
        return self.span[1]

    def window_before(self, t):
        l, r = self.span
        if l < t:
            return l, min(r, t)
        return EARLY, EARLY

    def last_out(self, t):
        return self.span[0]

    def leaves(self):
        return []

    def __repr__(self):
        return self.name or f"StaticInterval({self.start}, {self.end})"


class TooFar(Exception):
    "The reference gave up searching: nothing is claimed"


class Node:
    def __init__(self, op, *subs):
        self.op, self.subs = op, subs

    def build(self):
        out = self.subs[0].build()
        for sub in self.subs[1:]:
            out = (out & sub.build()) if self.op == "&" else (out | sub.build())
        return out

    def contains(self, t):
        return (all if self.op == "&" else any)(s.contains(t) for s in self.subs)

    def first_in(self, t):
        if self.op == "|":
            return min(s.first_in(t) for s in self.subs)
        for _ in range(500):
            m = max(s.first_in(t) for s in self.subs)
            if m >= FAR:
                return FAR
            if all(s.contains(m) for s in self.subs):
                return m
            t = m
        raise TooFar()

    def first_out(self, t):
        if self.op == "&":
            return min(s.first_out(t) for s in self.subs)
        for _ in range(60):
            nxt = max(s.first_out(t) for s in self.subs if s.contains(t))
            if nxt >= FAR or not self.contains(nxt):
                return nxt
            t = nxt
        return FAR

    def last_in(self, t):
        "Supremum of the points of the set before t (exclusive)"
        if self.op == "|":
            return max(_last_in(s, t) for s in self.subs)
        for _ in range(500):
            m = min(_last_in(s, t) for s in self.subs)
            if m <= EARLY:
                return EARLY
            if all(_last_in(s, m) == m for s in self.subs):
                return m
            t = m
        raise TooFar()

    def last_out(self, t):
        if self.op == "&":
            return max(s.last_out(t) for s in self.subs)
        for _ in range(60):
            nxt = min(s.last_out(t) for s in self.subs if _last_in(s, t) == t)
            if nxt <= EARLY or self.last_in(nxt) != nxt:
                return nxt
            t = nxt
        return EARLY

    def leaves(self):
        return [l for s in self.subs for l in s.leaves()]

    def __repr__(self):
        return "(" + f" {self.op} ".join(map(repr, self.subs)) + ")"


def _last_in(s, t):
    return s.last_in(t) if isinstance(s, Node) else s.window_before(t)[1]


def rand_tree(rng, depth=2, scopes=("minute", "hour", "day", "week", "month", "year"), statics=True):
    if depth == 0 or rng.random() < 0.15:
        if statics and rng.random() < 0.12:
            r = rng.random()
            if r < 0.3:
                return Static(name="always")
            if r < 0.4:
                return Static(name="never")
            a = rand_dt(rng)
            return Static(a, a + TD(hours=rng.randrange(1, 20000)))
        return Leaf(rand_spec(rng, scopes, ("between",) * 5 + ("after", "before", "at", "at")))
    n = rng.choice([2, 2, 2, 3])
    return Node(rng.choice("&|"), *(rand_tree(rng, depth - 1, scopes, statics) for _ in range(n)))
