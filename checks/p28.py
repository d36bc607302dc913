import os
import pathlib
import pkgutil
import shutil
import stat
import sys
import tempfile
import time

from rocketry.conditions import SchedulerCycles
from rocketry.tasks import CodeTask, CommandTask, FuncTask
from rvm.sim import App, Clock

ID = "P28"
RULE = ("sessions of command tasks (lists and shell strings, argument forms, parameters of every kind and odd texts, batches, working directory, exit codes and signals, large outputs, timeouts), code tasks (random programs on their "
        "parameters, output variables, failures, nothing left over from earlier runs) and tasks of functions in files that are rewritten, broken, repaired and removed between the runs, on every execution; the command is a script that "
        "writes down what it was given, everything is compared with what was asked; distinct: (form, execution, value kinds, outcome)")
ASSUMES = ["values in shell strings have no characters special to the shell between double quotes", "a rewritten file differs in size (byte code caches are not written)"]

TEXTS = ["x", "two words", "", " lead", "a'b", 'say "hi"', "$HOME", "`id`", "*", "åäö-ß", "-dash", "--opt", "semi;colon", "a\nb", "back\\slash", "&& true", "=", "{}", "%s"]
SAFE = ["x", "two words", "", " lead", "a'b", "*", "åäö-ß", "-dash", "--opt", "semi;colon", "&& true", "=", "{}", "%s", "a|b", "(p)"]


class Bench:
    def __init__(self, ctx):
        rng = ctx.rng
        self.ctx, self.rng = ctx, rng
        self.procs = rng.random() < 0.15
        self.modes = ["main", "async", "thread"] + (["process"] * 2 if self.procs else [])
        self.dir = tempfile.mkdtemp(prefix="rvm-")
        self.app = App(Clock(), execution=rng.choice(self.modes), cycle_sleep=0.001, max_process_count=20, silence_task_prerun=True)
        self.session = self.app.session
        self.session.parameters["sess"] = "session value"
        self.session.config.shut_cond = SchedulerCycles() >= 1

    def run(self):
        "Run the tasks that were set to run, wait for them"
        n = len(self.app.tap.recs)
        out = self.app.serve(real_yield=0.0005)
        if out.exception:
            raise out.exception
        if out.stopped:
            self.ctx.inconclusive(out.stopped)
        return self.app.tap.recs[n:]

    def outcome(self, task, recs):
        "-> (action, returned, error text)"
        mine = [r for r in recs if r.task == task.name]
        self.ctx.check([r.action for r in mine][:1] == ["run"] and len(mine) == 2, "records", "a run should give a start and an end record", recs=[r.action for r in mine], task=task.name)
        if len(mine) != 2:
            return "?", None, ""
        value = self.session.returns.get(task)
        return mine[1].action, value, mine[1].exc_text or ""

    def close(self):
        self.app.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def mode(task, session):
    return task.execution or session.config.execution


def command(ctx):
    rng = ctx.rng
    b = Bench(ctx)
    try:
        tasks = []
        for i in range(rng.randint(1, 3)):
            script = os.path.join(b.dir, f"cmd{i}.sh")
            shell = rng.random() < 0.3
            base = [rng.choice(SAFE if shell else TEXTS) for _ in range(rng.randint(0, 3))]
            if shell:
                base = [x for x in base if x not in ("",)]
                cmd = script + "".join(f' "{x}"' for x in base)
            else:
                cmd = [script, *base]
            cwd = rng.choice([None, None, b.dir, os.path.join(b.dir, "sub dir")])
            os.makedirs(os.path.join(b.dir, "sub dir"), exist_ok=True)
            argform = rng.choice([None, None, "-", "--", "short", "long", "absent"])

            def value(safe):
                kind = rng.choice(["text", "text", "text", "int", "float", "bool", "none", "path"])
                v = {"text": lambda: rng.choice(SAFE if safe else TEXTS), "int": lambda: rng.randrange(-9, 999), "float": lambda: rng.choice([0.5, 1e9, -2.25]), "bool": lambda: rng.random() < 0.5, "none": lambda: None,
                     "path": lambda: pathlib.Path(rng.choice(["/some/where", "rel dir/x"]))}[kind]()
                kinds.add(kind)
                return v
            kinds = set()
            names = ["a", "long_name", "-x", "--flag-y", "Z", "num"]
            params = {k: value(shell) for k in rng.sample(names, rng.choice([0, 0, 1, 2, 4]))}
            env = {"RVM_X": f"v{rng.randrange(99)}"} if rng.random() < 0.3 else None
            kw = {} if argform == "absent" else {"argform": argform}
            task = CommandTask(command=cmd, shell=shell, cwd=cwd, parameters=params, name=f"cmd{i}", session=b.session, execution=rng.choice([None] + b.modes),
                               timeout=rng.choice([None, None, "10 minutes", 1000, "never"]), kwds_popen={"env": {**os.environ, **env}} if env else {}, **kw)
            tasks.append(dict(task=task, script=script, base=base, cwd=cwd, params=params, shell=shell, value=value, names=names, kinds=kinds, prefix={"-": "-", "short": "-"}.get(argform, "--"), env=env))
        for step in range(rng.randint(2, 5)):
            todo = []
            for d in tasks:
                if rng.random() < 0.2:
                    continue
                code = rng.choice([0, 0, 0, 1, 2, 77, 127, 255, "signal"])
                outs, errs = (rng.choice(["", "text", "two\nlines\n", "ä\n", "x" * 200_000 if rng.random() < 0.2 else "z", "\\x"]) for _ in range(2))
                if code in (0, "signal") and rng.random() < 0.2:
                    errs = "warning only"
                opath, epath, rec = (os.path.join(b.dir, f"{d['task'].name}.{k}") for k in ("out", "err", "rec"))
                open(opath, "w").write(outs)
                open(epath, "w").write(errs)
                if os.path.exists(rec):
                    os.unlink(rec)
                stdin = rng.random() < 0.3
                with open(d["script"] + ".new", "w") as f:
                    f.write("#!/bin/sh\n"
                            f"{{ pwd; printf '%s\\0' \"$RVM_X\"; printf '%s\\0' \"$@\"; printf END; }} >> '{rec}'\n"
                            + ("cat > /dev/null\n" if stdin else "")
                            + f"cat '{epath}' >&2\ncat '{opath}'\n"
                            + ("kill -9 $$\n" if code == "signal" else f"exit {code}\n"))
                os.chmod(d["script"] + ".new", stat.S_IRWXU)
                os.rename(d["script"] + ".new", d["script"])
                batch = {}
                if rng.random() < 0.5:
                    batch = {k: d["value"](d["shell"]) for k in rng.sample(d["names"], rng.randint(1, 3))}
                d["task"].run(batch) if batch and rng.random() < 0.5 else d["task"].run(**batch)
                todo.append((d, code, outs, errs, batch, rec))
            recs = b.run()
            for d, code, outs, errs, batch, rec in todo:
                task = d["task"]
                action, value, exc = b.outcome(task, recs)
                params = {**d["params"], **batch}
                want = list(d["base"])
                for k, v in params.items():
                    want += [k if k.startswith("-") else d["prefix"] + k, str(v)]
                raw = open(rec).read() if os.path.exists(rec) else ""
                how = dict(command=task.command, shell=d["shell"], params=params, code=code, execution=mode(task, b.session), status=action, error=exc[-300:], step=step)
                if not ctx.check(raw.count("END") == 1, "invocations", "the command should have been run exactly once", times=raw.count("END"), **how):
                    continue
                cwd, rest = raw.split("\n", 1)
                got = rest[:-3].split("\0")
                ctx.check(os.path.realpath(cwd) == os.path.realpath(d["cwd"] or os.getcwd()), "cwd", "the command was run in another directory", got=cwd, want=d["cwd"], **how)
                ctx.check(got[0] == (d["env"] or {"RVM_X": ""})["RVM_X"], "environment", "the command got another environment", got=got[0], **how)
                got = got[1:-1]
                if not want:
                    got = [] if got == [""] else got        # ("$@" of nothing)
                ctx.check(got == want, "arguments", "the command got other arguments", got=got, want=want, **how)
                ok = code == 0
                ctx.check(action == ("success" if ok else "fail"), "status", "the status of a command task does not follow the exit code", **how)
                if ok:
                    ctx.check(value == outs.encode(), "output", "the return value of a command task is not its output", got=repr(value)[:200], want=outs[:200], **how)
                else:
                    ctx.check(errs.strip() in exc and any(f"({c})" in exc for c in ((-9, 137) if code == "signal" else (code,))), "error", "the failure does not tell the exit code and the error output", want=errs[:100], **how)
                ctx.saw("commands_ok" if ok else "commands_failed")
                ctx.saw(f"command_{mode(task, b.session)}")
                ctx.saw("command_arguments", len(want))
                ctx.sig("command", d["shell"], mode(task, b.session), code, sorted(d["kinds"]), bool(batch), len(outs) > 1000)
        ctx.sample({d["task"].name: str(d["task"].command)[:80] for d in tasks})
    finally:
        b.close()


def code(ctx):
    rng = ctx.rng
    b = Bench(ctx)
    try:
        for i in range(rng.randint(1, 3)):
            params = {k: rng.choice([rng.randrange(50), 2.5, "text", [1, 2, 3]]) for k in rng.sample(["x", "y", "z"], rng.randint(0, 3))}
            var = rng.choice([None, "return_value", "output", "x"])
            out = var or "return_value"
            names = sorted(params)
            form = rng.choice(["sum", "loop", "nothing", "raise", "import", "leak", "global", "indent", "overwrite", "mutate"])
            expr = "(" + "".join(f"{n}, " for n in names) + ")"
            if form == "sum":
                text, ref = f"{out} = {expr}\n", lambda p: tuple(p[n] for n in names)
            elif form == "loop":
                n = rng.randrange(6)
                text, ref = f"acc = []\nfor i in range({n}):\n    if i % 2:\n        continue\n    acc.append((i, {expr}))\n{out} = acc\n", lambda p, n=n: [(i, tuple(p[k] for k in names)) for i in range(n) if not i % 2]
            elif form == "nothing":
                text, ref = "other = 1\n", lambda p: p.get(out)
            elif form == "raise":
                text, ref = f"{out} = 5\nraise KeyError('code {i}')\n", lambda p: KeyError
            elif form == "import":
                text, ref = f"import math\nfrom os.path import join\n{out} = (math.gcd(12, 18), join('a', 'b'))\n", lambda p: (6, "a/b")
            elif form == "leak":
                text, ref = f"try:\n    before\nexcept NameError:\n    before = None\n{out} = before\nbefore = 7\n", lambda p: None
            elif form == "global":
                text, ref = f"global counter_\ntry:\n    counter_ += 1\nexcept NameError:\n    counter_ = 1\n{out} = counter_\n", lambda p: 1
            elif form == "indent":
                text, ref = f"if True:\n\t{out} = 'tab'\nelse:\n\t{out} = 'no'\n", lambda p: "tab"
            elif form == "mutate":
                text, ref = f"for v in [{', '.join(names)}]:\n    if isinstance(v, list):\n        v = v + [1]\n{out} = {expr}\n", lambda p: tuple(p[n] for n in names)
            else:
                text, ref = "".join(f"{n} = 'over'\n" for n in names) + f"{out} = {expr}\n", lambda p: tuple("over" for _ in names)
            if out == "x" and form in ("sum", "loop") and "x" in names:
                pass    # reading and then setting the parameter
            kw = {} if var is None else {"output_variable": var}
            task = CodeTask(code=text, name=f"code{i}", parameters=params, session=b.session, execution=rng.choice([None] + b.modes), **kw)
            for step in range(rng.randint(1, 3)):
                batch = {k: rng.choice([rng.randrange(100, 200), "batch"]) for k in rng.sample(names, rng.randint(0, len(names)))} if rng.random() < 0.4 else {}
                task.run(**batch)
                recs = b.run()
                action, value, exc = b.outcome(task, recs)
                want = ref({**params, **batch})
                how = dict(code=text, params=params, batch=batch, execution=mode(task, b.session), status=action, error=exc[-300:], step=step)
                if want is KeyError:
                    ctx.check(action == "fail" and f"KeyError: 'code {i}'" in exc, "code-failure", "a failing code should fail with its error", **how)
                    ctx.saw("code_failed")
                else:
                    ctx.check(action == "success", "code-status", "a code that did not fail should succeed", **how)
                    ctx.check(value == want, "code-output", "the return value is not the output variable of the code", got=repr(value), want=repr(want), **how)
                    ctx.saw("code_ok")
                ctx.saw(f"code_{mode(task, b.session)}")
                ctx.sig("code", form, mode(task, b.session), var, len(params), bool(batch))
            ctx.sample(text)
    finally:
        b.close()


def path(ctx):
    rng = ctx.rng
    b = Bench(ctx)
    before = list(sys.path)
    try:
        tasks = []
        uniq = os.path.basename(b.dir).replace("-", "_")
        for i in range(rng.randint(1, 4)):
            pkg = rng.random() < 0.3
            folder = os.path.join(b.dir, f"pkg_{uniq}_{i}" if pkg else f"dir{i}")
            os.makedirs(folder)
            if pkg:
                open(os.path.join(folder, "__init__.py"), "w").close()
            helper = f"helper_{uniq}_{i}"
            open(os.path.join(folder, helper + ".py"), "w").write(f"VALUE = 'helper {i}'\n")
            libs = None
            if rng.random() < 0.4:
                libs = os.path.join(b.dir, f"libs{i}")
                os.makedirs(libs)
                open(os.path.join(libs, f"lib_{uniq}_{i}.py"), "w").write(f"VALUE = 'lib {i}'\n")
            file = os.path.join(folder, rng.choice(["script.py", "my_tasks.py"]))
            fname = rng.choice([None, "main", "do_things"])
            kw = {} if fname is None else {"func_name": fname}
            if libs:
                kw["sys_paths"] = [libs]
            d = dict(file=file, fname=fname or "main", helper=helper if not pkg else f"{os.path.basename(folder)}.{helper}", lib=f"lib_{uniq}_{i}" if libs else None, i=i)
            write(rng, d, 0)
            d["params"] = {k: rng.randrange(9) for k in ("p", "q", "r")}
            d["task"] = FuncTask(path=file if rng.random() < 0.5 else pathlib.Path(file), name=f"path{i}", parameters=d["params"], session=b.session, execution=rng.choice([None] + b.modes), **kw)
            tasks.append(d)
        if rng.random() < 0.3:
            # is on the import path of the program already
            sys.path.insert(rng.randrange(3), os.path.dirname(rng.choice(tasks)["file"]))
        if rng.random() < 0.3:
            for d in tasks:
                slow_dir(os.path.dirname(d["file"]))
        paths = list(sys.path)
        for step in range(1, rng.randint(3, 6)):
            todo = []
            for d in tasks:
                if rng.random() < 0.7:
                    write(rng, d, step)
                batch = {"p": rng.randrange(10, 99)} if rng.random() < 0.4 else {}
                d["task"].run(**batch)
                todo.append((d, batch))
            recs = b.run()
            for d, batch in todo:
                task = d["task"]
                action, value, exc = b.outcome(task, recs)
                how = dict(source=d["text"], state=d["state"], batch=batch, execution=mode(task, b.session), status=action, error=exc[-400:], step=step, got=repr(value))
                p = {**d["params"], **batch}
                if d["state"] == "ok":
                    want = d["ref"](p)
                    ctx.check(action == "success", "path-status", "the function of the file should have succeeded", **how)
                    ctx.check(value == want, "path-output", "another function than that of the file was run (or with other parameters)", want=repr(want), **how)
                    ctx.saw("path_ok")
                else:
                    ctx.check(action == "fail", "path-failure", "a function that cannot be found or fails should fail", **how)
                    ctx.saw(f"path_{d['state']}")
                ctx.saw(f"path_{mode(task, b.session)}")
                ctx.sig("path", mode(task, b.session), d["state"], d["form"], d["lib"] is not None, bool(batch), d["last"])
                d["last"] = d["state"]
            ctx.check(sys.path == paths, "sys-path", "the import path was not put back", got=sys.path, want=paths)
        ctx.sample([d["text"] for d in tasks])
    finally:
        for name in list(sys.modules):
            if uniq in name:
                del sys.modules[name]
        sys.path[:] = before
        b.close()


class SlowFinder:
    "It takes a while to look in the directory"

    def __init__(self, finder):
        self.finder = finder

    def find_spec(self, name, target=None):
        time.sleep(0.002)
        return self.finder.find_spec(name, target)

    def invalidate_caches(self):
        self.finder.invalidate_caches()


def slow_dir(path):
    sys.path_importer_cache[path] = SlowFinder(pkgutil.get_importer(path))


def write(rng, d, version):
    d.setdefault("last", None)
    state = rng.choice(["ok"] * 6 + ["broken", "missing", "nofunc", "raises"]) if version else "ok"
    args = rng.sample(["p", "q", "r"], 3)
    extra = rng.choice([[], ["more=4"], ["*", "more=4"], ["**kwargs"]])
    # arguments the session gives: not in all of the versions
    given, required = list(args), list(args)
    if rng.random() < 0.4:
        required.insert(rng.randrange(4), "sess")
        given.append("sess")
    if rng.random() < 0.4:
        extra = ["given=Arg('sess')"] + extra
        given.append("given")
    is_async = rng.random() < 0.3
    imports = rng.random() < 0.5
    use_lib = d["lib"] and rng.random() < 0.6
    lines = [f"# version {version}" + "#" * (version * 7)]
    if imports:
        lines.append(f"from {d['helper']} import VALUE" if "." not in d["helper"] or rng.random() < 0.7 else f"import {d['helper']} as h; VALUE = h.VALUE")
    else:
        lines.append("VALUE = None")
    lines.append("from rocketry.args import Arg")
    lines.append(f"from {d['lib']} import VALUE as LIB" if use_lib else "LIB = None")
    name = d["fname"] if state != "nofunc" else "something_else"
    lines.append(f"{'async ' if is_async else ''}def {name}({', '.join(required + extra)}):")
    if state == "raises":
        lines.append("    raise ValueError('from file')")
    lines.append(f"    return ({version}, VALUE, LIB, [{', '.join(given)}])")
    if state == "broken":
        lines.append("this is not Python")
    text = "\n".join(lines) + "\n"
    if state == "missing":
        if os.path.exists(d["file"]):
            os.unlink(d["file"])
    else:
        with open(d["file"], "w") as f:
            f.write(text)
    i = d["i"]
    d.update(text=text, state=state, form=(is_async, imports, tuple(extra)), ref=lambda p: (version, f"helper {i}" if imports else None, f"lib {i}" if use_lib else None, [{**p, 'given': 'session value', 'sess': 'session value'}[a] for a in given]))


KINDS = {"command": (command, 120, 2500), "code": (code, 120, 2500), "path": (path, 120, 2500)}
FLOORS = {"commands_ok": 100, "commands_failed": 150, "command_arguments": 1500, "command_process": 8, "code_ok": 150, "code_failed": 12, "code_process": 8,
          "path_ok": 150, "path_broken": 15, "path_missing": 20, "path_nofunc": 15, "path_raises": 12, "path_process": 12}
