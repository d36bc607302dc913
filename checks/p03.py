import datetime

from rocketry.pybox.time import Interval
from rvm import ref_time as R

ID = "P03"
RULE = ("random trees of & and | over anchored periods, fixed intervals, always and never, probed at random instants and at/beside "
        "the edges of the members; membership is compared with pointwise logic, rolls with the first/last instant of the combined "
        "set; the spans given by the rolls are checked as sets of instants; non-trivial: the tree is neither empty nor everything around the instant; distinct: (shape, member scopes, inside, moved)")
ASSUMES = ["dates 2019-2026", "rolling back exactly from an edge of a member is not judged",
           "rollback of a combination may end a microsecond early"]


def shape(t):
    if isinstance(t, R.Node):
        return t.op + "(" + ",".join(sorted(shape(s) for s in t.subs)) + ")"
    if isinstance(t, R.Leaf):
        return t.spec.scope[0] + ("w" if t.spec.wraps else "")
    return "S"


def probes(rng, tree, n):
    out = []
    leaves = tree.leaves()
    for _ in range(n):
        dt = R.rand_dt(rng)
        if leaves and rng.random() < 0.6:
            e = rng.choice(leaves).edges(dt)
            if e:
                dt = rng.choice(e) + rng.choice([R.TD(), -R.US, R.US, R.TD(seconds=rng.randrange(-5, 5)), R.TD(minutes=rng.randrange(-90, 90))])
        out.append(dt)
    return out


def rand_tree(rng):
    # fast cycles only together with each other: a minute window against a year one is a long search
    scopes = rng.choice([("minute", "hour", "day"), ("hour", "day", "week"), ("day", "week", "month"), ("day", "month", "year"), ("week", "month", "year")])
    while True:
        tree = R.rand_tree(rng, rng.choice([1, 1, 2]), scopes)
        # the known finding on the last microsecond of year windows is P01's and P02's
        if not any(l.month_ended for l in tree.leaves()):
            return tree


def membership(ctx):
    rng = ctx.rng
    tree = rand_tree(rng)
    period = tree.build()
    ctx.sample(repr(tree))
    for dt in probes(rng, tree, 12):
        want = tree.contains(dt)
        got = dt in period
        ctx.check(got == want, "membership-" + (tree.op if isinstance(tree, R.Node) else "leaf"),
                  "membership of a combined period is not the logical combination of its members", tree=tree, dt=dt, got=got, want=want)
        ctx.saw("inside" if want else "outside")
        ctx.sig(shape(tree), want)


def _is_edge(tree, dt):
    if any(dt in l.edges(dt) for l in tree.leaves()):
        return True
    return False


def judge(ctx, tree, period, dt):
    # forward
    try:
        left = tree.first_in(dt)
    except R.TooFar:
        ctx.saw("too_far")
        return
    got = period.rollforward(dt)
    if left >= R.FAR:
        ctx.saw("never_again")
        if got.left < R.FAR:
            ctx.check(False, "forward-never", "rolled to a window although there is none", tree=tree, dt=dt, got=got)
    else:
        ok = ctx.check(got.left == left, "forward-left-" + tree.op, "rollforward did not give the first instant of the combined period",
                  tree=tree, dt=dt, got=got, want=left)
        if ok:
            out = tree.first_out(left)
            ctx.check(got.left < got.right <= out, "forward-right-" + tree.op, "rollforward gave a window with instants that are not in the period",
                      tree=tree, dt=dt, got=got, want_right_at_most=out)
            if tree.op == "&" and all(not isinstance(s, R.Node) for s in tree.subs):
                right = min(s.forward(left)[1] for s in tree.subs)
                ctx.check(got.right == right, "forward-right-exact-&", "the window of the intersection ends elsewhere than the first of its members",
                          tree=tree, dt=dt, got=got, want=right)
            if tree.op == "|" and all(not isinstance(s, R.Node) for s in tree.subs):
                least = max(s.forward(left)[1] for s in tree.subs if s.contains(left))
                ctx.check(got.right >= least, "forward-right-least-|", "the window of the union ends before its member does",
                          tree=tree, dt=dt, got=got, want_at_least=least)
                # the next windows of the members that overlap are one stretch of the union
                end, steps = least, 0
                for l, r in sorted(s.forward(dt) for s in tree.subs):
                    if l < end < r:
                        end, steps = r, steps + 1
                ctx.check(got.right >= end, "forward-chain-|", "the window of the union ends before the overlapping window of its member does",
                          tree=tree, dt=dt, got=got, want_at_least=end)
                if steps > 1:
                    ctx.saw("chains")
        ctx.saw("forward")
        ctx.sig("f", shape(tree), left == dt)
    # back
    if _is_edge(tree, dt):
        return
    try:
        right = tree.last_in(dt)
    except R.TooFar:
        ctx.saw("too_far")
        return
    got = period.rollback(dt)
    if right <= R.EARLY + R.TD(days=800):
        ctx.saw("never_before")
        return
    # an intersection searches backwards in steps of a microsecond: one may be lost there
    ok = ctx.check(got.right == right or right - got.right == R.US, "back-right-" + tree.op, "rollback did not give the latest part of the combined period",
                   tree=tree, dt=dt, got=got, want=right)
    if ok:
        out = tree.last_out(right)
        ctx.check(out <= got.left <= got.right, "back-left-" + tree.op, "rollback gave a window with instants that are not in the period",
                  tree=tree, dt=dt, got=got, want_left_at_least=out)
        if all(not isinstance(s, R.Node) for s in tree.subs):
            if tree.op == "&":
                left = max(s.window_before(right)[0] for s in tree.subs)
                ctx.check(got.left == left, "back-left-exact-&", "the window of the intersection starts elsewhere than the last of its members",
                          tree=tree, dt=dt, got=got, want=left)
            else:
                most = min(s.window_before(right)[0] for s in tree.subs if s.window_before(right)[1] == right)
                ctx.check(got.left <= most, "back-left-most-|", "the window of the union starts after its member does", tree=tree, dt=dt, got=got, want=most)
                start, steps = most, 0
                for r, l in sorted((s.window_before(dt)[::-1] for s in tree.subs), reverse=True):
                    if l < start < r:
                        start, steps = l, steps + 1
                ctx.check(got.left <= start, "back-chain-|", "the window of the union starts after the overlapping window of its member does",
                          tree=tree, dt=dt, got=got, want_at_most=start)
                if steps > 1:
                    ctx.saw("chains")
    ctx.saw("back")
    ctx.sig("b", shape(tree), right == dt)


def roll(ctx):
    rng = ctx.rng
    tree = rand_tree(rng)
    if not isinstance(tree, R.Node):
        return
    period = tree.build()
    ctx.sample(repr(tree))
    for dt in probes(rng, tree, 6):
        judge(ctx, tree, period, dt)


def chain(ctx):
    "Unions of staggered members: each window reaches over to the next one"
    rng = ctx.rng
    at = start = R.rand_dt(rng)
    subs = []
    for _ in range(rng.randrange(3, 6)):
        length = R.TD(minutes=rng.randrange(60, 6000))
        subs.append(R.Static(at, at + length))
        at += rng.choice([length * rng.uniform(0.1, 0.95), length, length * rng.uniform(1.01, 1.5)])
        at = at.replace(microsecond=rng.choice([0, 0, at.microsecond]))
    if rng.random() < 0.3:
        subs.append(R.Leaf(R.rand_spec(rng, ("day", "week"), ("between", "after", "before"))))
    rng.shuffle(subs)
    tree = R.Node("|", *subs)
    period = tree.build()
    ctx.sample(repr(tree))
    for _ in range(6):
        dt = start + (at - start) * rng.choice([rng.uniform(-0.1, 0), rng.uniform(0, 1), rng.uniform(1, 1.2)])
        if any(dt in s.span for s in tree.subs if isinstance(s, R.Static)):
            continue
        judge(ctx, tree, period, dt)


def algebra(ctx):
    "always and never behave as the neutral/absorbing elements, operators do not change their operands"
    from rocketry.core.time import always, never
    rng = ctx.rng
    t = R.rand_tree(rng, 1, ("hour", "day", "week", "month"))
    p = t.build()
    combos = {
        "p & always": (p & always, t.contains), "always & p": (always & p, t.contains),
        "p | always": (p | always, lambda d: True), "always | p": (always | p, lambda d: True),
        "p | never": (p | never, t.contains), "p & never": (p & never, lambda d: False),
        "p & p": (p & p, t.contains), "p | p": (p | p, t.contains), "p": (p, t.contains),
    }
    for dt in probes(rng, t, 6):
        for name, (comb, want) in combos.items():
            ctx.check((dt in comb) == want(dt), "algebra-" + name.replace(" ", ""), f"{name} is not what it should be", tree=t, dt=dt)
            ctx.saw("algebra")


def spans(ctx):
    "The stretches of time the rolls give (Interval) are sets of instants: intersection, overlap, emptiness"
    rng = ctx.rng
    day = datetime.datetime(2022, 1, 1)
    points = [day + datetime.timedelta(hours=x / 2) for x in range(-1, 14)]

    def rand():
        a, b = sorted(rng.randrange(0, 7) for _ in range(2))
        closed = rng.choice(["left", "right", "both", "neither"])
        return Interval(day + datetime.timedelta(hours=a), day + datetime.timedelta(hours=b), closed=closed)
    for _ in range(40):
        a, b = rand(), rand()
        in_a, in_b = [p for p in points if p in a], [p for p in points if p in b]
        for i in (a, b):
            want = [p for p in points if (i.left < p or (i.left == p and i.closed in ("left", "both"))) and (p < i.right or (p == i.right and i.closed in ("right", "both")))]
            ctx.eq([p for p in points if p in i], want, "span-membership", "membership of a span", span=i)
            ctx.eq(i.is_empty, not want, "span-empty", "emptiness of a span", span=i)
        both = [p for p in in_a if p in in_b]
        if in_a and in_b:
            ctx.eq(a.overlaps(b), bool(both), "span-overlap", "overlapping of two spans", a=a, b=b)
            ctx.saw("span_pairs")
        if both:
            ctx.eq([p for p in points if p in (a & b)], both, "span-and", "intersection of two spans", a=a, b=b)
            ctx.saw("span_meet")
        ctx.sig("span", a.closed, b.closed, len(both) > 1, bool(both), a.left == b.left, a.right == b.right, a.right == b.left)


KINDS = {"membership": (membership, 600, 15000), "roll": (roll, 2500, 60000), "chain": (chain, 500, 10000), "algebra": (algebra, 500, 5000), "spans": (spans, 60, 600)}
FLOORS = {"inside": 1200, "outside": 1200, "forward": 3000, "back": 2000, "algebra": 5000, "never_again": 10, "chains": 300, "span_pairs": 1000, "span_meet": 500}
