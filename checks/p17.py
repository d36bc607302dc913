import threading

from rocketry.args import FuncArg, SimpleArg
from rocketry.conditions import FuncCond
from rocketry.core import Parameters
from rvm.runs import Bench, PlannedError

ID = "P17"
RULE = ("runs asked with random parameters (as keywords, dict or parameter set) from cycle hooks, from inside other tasks, from threads and before the start, on tasks that are enabled or disabled, with "
        "false or flipping start conditions, idle or running, of every execution type, some with arguments that cannot be formed; the log must show them once each in the order of the calls, the function "
        "must have got the parameters of that call on top of the task's own, and a waiting run must start on the next cycle it can; distinct: (execution, disabled, condition, form of the call, outcome)")
ASSUMES = ["the calls that ask for a run of the same task do not race with each other"]


def boom():
    raise PlannedError("planned argument failure")


def mixed(ctx, execs, n_tasks, n_cycles):
    rng = ctx.rng
    with Bench(ctx, config={"multilaunch": rng.random() < 0.3, "max_process_count": 50, "silence_task_prerun": True, "silence_cond_check": True, "param_materialize": rng.choice(["pre", "post"])}) as b:
        names, trigger, multi, calls_extra = [], {}, {}, {}
        base = {"token": "auto", "outcome": "success", "p": "base", "q": 0}
        b.open.add("auto")
        b.tokens["auto"] = {"task": None}
        b.gate("auto").set()
        open(f"{b.dir}/gate-auto", "w").close()
        for i in range(n_tasks):
            e, name = rng.choice(execs), f"t{i}"
            names.append(name)
            trigger[name] = False
            kw = {"disabled": rng.random() < 0.4, "parameters": dict(base), "priority": rng.randrange(3)}
            cond = rng.choice(["none", "none", "flip", "false", "raise"])
            if cond == "flip":
                kw["start_cond"] = FuncCond(lambda name=name: trigger[name])
            elif cond == "false":
                kw["start_cond"] = rng.choice(["false", FuncCond(lambda: False)])
            elif cond == "raise":
                kw["start_cond"] = FuncCond(boom)
            if rng.random() < 0.3:
                kw["multilaunch"] = rng.random() < 0.5
            t = b.add(name, e, **kw)
            multi[name] = b.session.config.multilaunch if t.multilaunch is None else t.multilaunch
            calls_extra[name] = cond
        order, expect, bad, form_of = {n: [] for n in names}, {}, set(), {}
        held = []

        def ask(name, n):
            token = f"{name}-{b.n}"
            b.n += 1
            gated = rng.random() < 0.5 and b.execution[name] != "main"
            outcome = rng.choice(["success", "success", "fail", "inaction", "ret-none"])
            b.tokens[token] = {"task": name, "outcome": outcome}
            given = {"token": token, "outcome": outcome}
            for k in ("p", "q", "r", "s"):
                if rng.random() < 0.4:
                    v = rng.choice([f"{k}{b.n}", b.n, None, 0, "", [b.n], {"x": b.n}])
                    given[k] = v
            expect[token] = {k: v for k, v in {**base, **given}.items() if k not in ("token", "outcome")}
            if rng.random() < 0.1:
                given["r"] = FuncArg(boom)
                bad.add(token)
            elif rng.random() < 0.2:
                given["p"] = SimpleArg(given.get("p", "sa"))
                expect[token]["p"] = given["p"].get_value()
            form = rng.choice(["kwargs", "dict", "params", "both"])
            form_of[token] = form
            if not gated:
                b.release(token)
            else:
                held.append(token)
            order[name].append(token)
            task = b.session[name]
            if form == "kwargs":
                task.run(**given)
            elif form == "dict":
                d = dict(given)
                task.run(d)
                d.clear()
            elif form == "params":
                d = Parameters(given)
                task.run(d)
                d.clear()
            else:
                ks = list(given)
                first = {k: given[k] for k in ks[:len(ks) // 2]}
                rest = {k: given[k] for k in ks[len(ks) // 2:]}
                if rng.random() < 0.5 and rest:
                    # keywords win
                    first[list(rest)[0]] = "overridden"
                d = dict(first)
                task.run(d, **rest)
                d["p"] = "late"
            ctx.saw("asked")

        # a task that asks others to run
        def asker():
            if b.app.cycles < n_cycles - 3:
                for _ in range(rng.randint(0, 2)):
                    ask(rng.choice(names), None)
                    ctx.saw("asked_in_task")
        b.app.add(asker, "asker", execution="main", start_cond=FuncCond(lambda: b.app.cycles % 3 == 0), priority=rng.choice([-1, 0, 5]))
        snap = {}
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 4)):
                ask(rng.choice(names), 0)

        def before(n):
            ending = n > n_cycles - 3
            if not ending:
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    if rng.random() < 0.2:
                        th = threading.Thread(target=ask, args=(rng.choice(names), n))
                        th.start()
                        th.join()
                    else:
                        ask(rng.choice(names), n)
            for name in names:
                trigger[name] = not ending and rng.random() < 0.4
                if rng.random() < 0.1:
                    b.session[name].disabled = not b.session[name].disabled
            while held and (rng.random() < 0.4 or ending):
                b.release(held.pop(rng.randrange(len(held))))
            snap["left"] = {n: len(b.session[n].batches) for n in names}
            snap["alive"] = {n: len(b.alive(n)) for n in names}
            snap["seen"] = len(b.app.tap.recs)
            snap["auto"] = {n: calls_extra[n] == "flip" and trigger[n] and not b.session[n].disabled for n in names}

        def after(n):
            new = [r for r in b.app.tap.recs[snap["seen"]:] if r.action == "run"]
            for name in names:
                mine = [r for r in new if r.task == name]
                if snap["left"][name] and (multi[name] or not snap["alive"][name]):
                    ctx.check(len(mine) == 1, "not-started", "a run had been asked and the task could run but it was not started", task=name, execution=b.execution[name],
                              disabled=b.session[name].disabled, cond=calls_extra[name])
                    ctx.saw("started_when_could")
                    ctx.saw("started_disabled", b.session[name].disabled)
                for r in mine:
                    if r.run_id == "auto":
                        ctx.check(snap["auto"][name], "not-asked", "a task was run although its condition was false (or it was disabled) and no run was asked", task=name,
                                  execution=b.execution[name], disabled=b.session[name].disabled, cond=calls_extra[name])
                        ctx.check(not snap["left"][name], "asked-passed", "the task was run by its condition before the run that was asked", task=name)
                        ctx.saw("condition_runs")
        b.app.at_cycle(before)
        b.app.after_cycle(after)
        out = b.serve(n_cycles + 30)
        ctx.sample({n: (b.execution[n], calls_extra[n], len(order[n])) for n in names})
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        got_args = {}
        for task, token, kw in b.calls:
            got_args.setdefault(token, []).append((task, kw))
        for name in names:
            e = b.execution[name]
            ran = [r.run_id for r in b.recs if r.task == name and r.action == "run" and r.run_id != "auto"]
            left = len(b.session[name].batches)
            ctx.check(ran == order[name][:len(order[name]) - left], "order", "the runs are not the ones asked, once each in the order of the calls", execution=e, ran=ran, asked=order[name], recs=[r for r in b.recs if r.task == name], left=left)
            ctx.saw("all_ran", left == 0)
            for token in ran:
                calls = got_args.get(token, [])
                ends = [r.action for r in b.recs if r.run_id == token and r.action != "run"]
                if token in bad:
                    ctx.check(not calls, "called-bad", "the function was called although its argument failed", token=token)
                    ctx.check(ends == ["fail"], "bad-outcome", "a run whose argument could not be formed should fail once", token=token, ends=ends, execution=e)
                    ctx.saw("bad_arguments")
                elif ctx.check(len(calls) == 1, "calls", f"the function was called {len(calls)} times for one asked run", token=token, execution=e, ends=ends):
                    ctx.check(calls[0] == (name, expect[token]), "parameters", "a run did not get the parameters it was asked with (on top of the task's own)", token=token, execution=e,
                              got=calls[0], want=(name, expect[token]), form=form_of[token])
                    ctx.saw("runs_" + e)
                ctx.sig(e, calls_extra[name], form_of[token], ends[:1], token in bad)
        for task, kw in got_args.get("auto", []):
            ctx.check(kw == {"p": "base", "q": 0}, "leak", "parameters of an asked run leaked to another run", task=task, got=kw, execution=b.execution[task])


def local(ctx):
    mixed(ctx, ["async", "async", "main"], ctx.rng.randint(1, 4), 14)


def threads(ctx):
    mixed(ctx, ["thread", "thread", "async", "main"], ctx.rng.randint(1, 4), 14)


def processes(ctx):
    mixed(ctx, ["process", "process", "async"], ctx.rng.randint(1, 3), 8)


KINDS = {"local": (local, 500, 6000), "threads": (threads, 200, 3000), "processes": (processes, 60, 800)}
FLOORS = {"runs_async": 2500, "runs_main": 1200, "runs_thread": 600, "runs_process": 100, "asked_in_task": 700, "bad_arguments": 400, "condition_runs": 120, "started_disabled": 2000,
          "started_when_could": 5000, "all_ran": 1000}
