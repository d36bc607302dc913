import operator

from rvm.sim import App, Clock

ID = "P06"
RULE = ("random trees of &, |, ~ over custom conditions (functions with and without arguments, classes, measurements with comparisons, constants) whose truth "
        "the harness flips between observations; the observed truth is compared with Boolean logic over what the leaves answered, also as the "
        "start condition of a running task; values built from shared sub-conditions and comparisons are re-observed later to expose mutation; "
        "distinct: (tree shape, truth) and (comparisons, measurement, kind of measurement)")
ASSUMES = ["leaf conditions themselves do not raise (see P19)"]

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}


class World:
    "Truth values the leaves read"
    def __init__(self, rng):
        self.rng = rng
        self.bits = {}
        self.nums = {}

    def flip(self):
        for k in self.bits:
            self.bits[k] = self.rng.random() < 0.5
        for k in self.nums:
            self.nums[k] = self.rng.randrange(5)


def make_leaf(rng, world, n):
    "-> (condition, reference function, label)"
    from rocketry.conditions import FuncCond
    from rocketry.core import BaseCondition
    from rocketry.core.condition import BaseComparable
    from rocketry.conds import true, false, condition
    from rocketry.args import Session as SessionArg
    kind = rng.choice(["func", "funcargs", "decor", "class", "class_args", "comp", "comp", "comp_len", "true", "false"])
    if kind == "true":
        return true, (lambda: True), "T"
    if kind == "false":
        return false, (lambda: False), "F"
    key = f"k{n}"
    if kind in ("func", "decor", "funcargs", "class", "class_args"):
        world.bits[key] = rng.random() < 0.5
        if kind == "func":
            return FuncCond(lambda: world.bits[key]), (lambda: world.bits[key]), "f"
        if kind == "decor":
            @condition()
            def cond():
                return world.bits[key]
            return cond, (lambda: world.bits[key]), "d"
        if kind == "funcargs":
            @condition()
            def cond2(which, negate=False):
                return world.bits[which] != negate
            neg = rng.random() < 0.5
            other = cond2("nothere")   # re-creating must not touch the others
            made = cond2(key, negate=neg)
            cond2("nothere", negate=not neg)
            return made, (lambda: world.bits[key] != neg), "a"
        if kind == "class":
            class MyCond(BaseCondition):
                def get_state(self):
                    return world.bits[key]
            return MyCond(), (lambda: world.bits[key]), "c"

        class MyCondArgs(BaseCondition):
            def get_state(self, session=SessionArg()):
                assert session is not None
                return world.bits[key]
        return MyCondArgs(), (lambda: world.bits[key]), "C"
    world.nums[key] = rng.randrange(5)
    as_len = kind == "comp_len"

    class Measure(BaseComparable):
        def get_measurement(self):
            return ["x"] * world.nums[key] if as_len else world.nums[key]
    base = Measure()
    cond, ref, label = compare(rng, base, lambda: world.nums[key])
    return cond, ref, ("L" if as_len else "m") + label


def compare(rng, base, value):
    n = rng.choice([0, 1, 1, 1, 2])
    if n == 0:
        return base, (lambda: value() > 0), "-"
    ops = rng.sample(sorted(OPS), n)
    vals = [rng.randrange(5) for _ in ops]
    cond = base
    for op, val in zip(ops, vals):
        cond = OPS[op](cond, val)
    return cond, (lambda: all(OPS[op](value(), val) for op, val in zip(ops, vals))), "".join(ops)


def make_tree(rng, leaves, depth, nodes=None):
    "Random tree; what is built on the way is put to the nodes, of which some are used in the trees to come"
    node = _make_tree(rng, leaves, depth, nodes)
    if nodes is not None and not any(node is n for n in nodes) and not any(node is n for n in leaves):
        nodes.append(node)
    return node


def _make_tree(rng, leaves, depth, nodes):
    if nodes and len(nodes) < 40 and rng.random() < 0.25:
        return rng.choice(nodes)
    if depth == 0 or rng.random() < 0.2:
        return rng.choice(leaves)
    r = rng.random()
    if r < 0.2:
        c, f, s = make_tree(rng, leaves, depth - 1, nodes)
        return ~c, (lambda: not f()), f"~{s}"
    from rocketry.conditions import All, Any
    subs = [make_tree(rng, leaves, depth - 1, nodes) for _ in range(rng.choice([2, 2, 3]))]
    conds, funcs = [s[0] for s in subs], [s[1] for s in subs]
    shape = "".join(s[2] for s in subs)
    if r < 0.6:
        cond = conds[0]
        if rng.random() < 0.3:
            cond = All(*conds)
        else:
            for c in conds[1:]:
                cond = cond & c
        return cond, (lambda: all(f() for f in funcs)), f"&({shape})"
    cond = conds[0]
    if rng.random() < 0.3:
        cond = Any(*conds)
    else:
        for c in conds[1:]:
            cond = cond | c
    return cond, (lambda: any(f() for f in funcs)), f"|({shape})"


def tree(ctx):
    rng = ctx.rng
    app = App(Clock())
    world = World(rng)
    leaves = [make_leaf(rng, world, i) for i in range(rng.randint(2, 5))]
    nodes = []
    trees = [make_tree(rng, leaves, rng.choice([1, 2, 3]), nodes) for _ in range(3)]
    # Leaves and nodes are shared by the trees and must stay as they were
    task = app.add(lambda: None, "t")
    for i in range(8):
        world.flip()
        if i in (2, 5):
            made = make_tree(rng, leaves, rng.choice([1, 2]), nodes)
            # also joined to the ones that have been observed
            old = rng.choice(nodes or leaves)
            nodes.append((old[0] | made[0], lambda a=old[1], b=made[1]: a() or b(), f"|({old[2]}{made[2]})") if rng.random() < 0.5 else
                         (old[0] & made[0], lambda a=old[1], b=made[1]: a() and b(), f"&({old[2]}{made[2]})"))
        every = nodes + leaves
        for cond, ref, shape in rng.sample(every, len(every)):
            want = ref()
            got = cond.observe(session=app.session, task=task) if rng.random() < 0.7 else None
            if got is None:
                # without any context a condition falls back to the default session
                app.session.set_as_default()
                if "C" in shape:
                    continue
                got = bool(cond)
            ctx.check(bool(got) == want, "truth", "the condition is not the Boolean combination of its parts", shape=shape, got=got, want=want,
                      bits=world.bits, nums=world.nums)
            ctx.saw("true" if want else "false")
            ctx.sig("t", shape[:60], want)
            ctx.saw("shared_nodes")
    ctx.sample(trees[0][2])
    app.close()


def scheduled(ctx):
    "A task starts on a cycle if and only if its start condition is true then"
    rng = ctx.rng
    clock = Clock()
    app = App(clock, execution="main")
    world = World(rng)
    leaves = [make_leaf(rng, world, i) for i in range(rng.randint(2, 4))]
    tasks = []
    ran = []

    def make(i):
        def body():
            ran.append(i)
        return body
    nodes = []
    for i in range(3):
        cond, ref, shape = make_tree(rng, leaves, rng.choice([1, 2, 3]), nodes)
        app.add(make(i), f"t{i}", start_cond=cond, execution="main")
        tasks.append((ref, shape))
    log = []

    def before(n):
        world.flip()
        ran.clear()

    def after(n):
        log.append((n, [ref() for ref, _ in tasks], sorted(ran)))
    app.at_cycle(before)
    app.after_cycle(after)
    app.stop_after(cycles=25)
    out = app.serve()
    app.close()
    if out.exception:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    for n, want, got in log:
        want_ids = [i for i, w in enumerate(want) if w]
        ctx.check(got == want_ids, "start-iff-true", "the tasks started on the cycle are not those whose condition was true", cycle=n, got=got, want=want_ids,
                  shapes=[s for _, s in tasks])
        ctx.saw("cycles")
        ctx.saw("starts", len(got))
    for (_, shape), i in zip(tasks, range(9)):
        ctx.sig("s", shape, i)


def comparable(ctx):
    "Comparisons make new conditions and leave the one compared alone"
    from rocketry.core.condition import BaseComparable
    rng = ctx.rng
    box = [0]

    class Measure(BaseComparable):
        def get_measurement(self):
            return box[0]
    base = Measure()
    made = [(base, lambda: box[0] > 0, "-")]
    for _ in range(6):
        src, ref, label = rng.choice(made)
        op = rng.choice(sorted(OPS))
        val = rng.randrange(-2, 6)
        comps = dict(src.__dict__.get("_comps", {})) if False else None
        # the same operator again replaces its value
        if op in label:
            continue
        first = label == "-"

        def newref(ref=ref, op=op, val=val, first=first):
            return OPS[op](box[0], val) and (True if first else ref())
        made.append((OPS[op](src, val), newref, ("" if first else label) + op))
    order = made[:]
    for v in range(-2, 7):
        box[0] = v
        rng.shuffle(order)
        for cond, ref, label in order:
            got = cond.observe()
            ctx.check(got == ref(), "comparison", "the comparison is not what the measurement gives", label=label, value=v, got=got, want=ref())
            ctx.saw("comparisons")
            ctx.sig("c", label, got)


KINDS = {"tree": (tree, 1200, 20000), "scheduled": (scheduled, 250, 4000), "comparable": (comparable, 500, 10000)}
FLOORS = {"true": 5000, "false": 5000, "starts": 1000, "comparisons": 5000}
