"""Runs one property: every harness instance symbolically in its own process,
then concrete replays on the real package, then verdict and evidence."""
import importlib
import json
import math
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

SCRATCH = None
VALIDATE_LOOSE = 300.0       # tolerance factor for runs that only validate


class Concrete:
    """Client of the replay server."""

    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "symx", "conc.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def ask(self, **q):
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            return {"status": "error", "why": "replay server ended", "failures": [], "nfail": 0, "checked": 0, "values": {}}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def model_values(engine, model):
    """Input values of a z3 model (trigonometric atoms inverted)."""
    from . import poly as P
    import z3
    if model is None:
        return {}
    sp = engine.sp
    byid = {}

    def val(i):
        zv = engine.solver.zv.get(i)
        if zv is None:
            return None
        x = model.eval(zv)
        try:
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            if z3.is_rational_value(x) or z3.is_int_value(x):
                return float(x.as_fraction())
        except Exception:
            return None
        return None
    ids = {v: k for k, v in engine.inputs.items()}
    for i, name in ids.items():
        x = val(i)
        if x is not None and math.isfinite(x):
            byid[i] = x
    for V in sp.vars:
        if V.func == "sin" and V.args and len(V.args) == 3:
            arg = V.args[2]
            ins = [i for i in P.rvars(arg.r) if i in ids]
            oth = [i for i in P.rvars(arg.r) if i not in ids and sp.vars[i].func != "pi"]
            if len(ins) == 1 and not oth and len(arg.r.n) == 1:
                c = sp.byname.get("cos#%s" % V.name.split("#")[1])
                cs = [W for W in sp.vars if W.func == "cos" and W.args[:2] == V.args[:2]]
                sv = val(V.id)
                cv = val(cs[0].id) if cs else None
                if sv is None and cv is None:
                    continue
                ang = math.atan2(sv if sv is not None else 0.0, cv if cv is not None else 1.0)
                (m, k), = arg.r.n.items()
                if m not in (((ins[0], 1),),) and len(m) == 2:
                    coef = k / arg.r.d * math.pi
                    byid[ins[0]] = ang / coef
    return {ids[i]: x for i, x in byid.items() if i in ids}


def with_alias(engine, vals, alias, seed=0):
    """Values for the inputs that others determine on this run."""
    if not alias or vals is None:
        return vals
    sp, rnd = engine.sp, random.Random(seed)
    names = {v: k for k, v in engine.inputs.items()}
    vals = dict(vals)

    def value(i):
        name = names.get(i, sp.vars[i].name)
        if i in alias:
            r = alias[i]
            x = 0.0
            for m, c in r.n.items():
                t = float(c) / r.d
                for v, e in m:
                    t *= value(v) ** e
                x += t
            vals[name] = x
        elif name not in vals:
            lo, hi = sp.vars[i].typ or (1, 2)
            vals[name] = rnd.uniform(lo, hi)
        return vals[name]
    for i in alias:
        value(i)
    return vals


def functions_monitor():
    seen = {}
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "verif")
    except ValueError:
        return seen
    prefix = os.path.join(REPO, "weac")

    def start(code, off):
        if code.co_filename.startswith(prefix) and not code.co_name.startswith("<"):
            seen["%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname)] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def run_instance(prop, inst, tier, seed, deadline, q):
    out = {"name": inst["name"], "status": "ok", "seconds": 0.0}
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="i-", dir=SCRATCH)      # plot folders of the code under test
    os.chdir(scratch)
    try:
        _run_instance(prop, inst, tier, seed, deadline, out)
    except BaseException as e:
        out["status"] = "error"
        out["why"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-1500:]
    os.chdir(HERE)
    shutil.rmtree(scratch, ignore_errors=True)
    out["seconds"] = round(time.time() - t0, 2)
    q.put(json.dumps(out, default=repr))


def _run_instance(prop, inst, tier, seed, deadline, out):
    conc = Concrete()
    from . import engine as E
    from .ctx_sym import SymCtx
    from .loader import Loader
    funcs = functions_monitor()
    sys.setrecursionlimit(20000)
    opts = dict(inst.get("opts") or {})
    opts["deadline"] = deadline
    if tier == "thorough":
        opts.setdefault("obl_timeout", 60000)
    eng = E.Engine(opts)
    mod = importlib.import_module("props." + prop.lower())
    params = inst.get("params") or {}
    fn = getattr(mod, inst["fn"])

    def body():
        ctx = SymCtx(eng, Loader(), params)
        fn(ctx, **params)
    limit = None
    try:
        eng.run(body)
    except E.Enough:
        pass
    except (E.Limit, E.Inconclusive) as e:
        limit = "%s: %s" % (type(e).__name__, e)
    out["stats"] = eng.stats
    out["queries"] = eng.solver.q
    out["samples"] = eng.samples[:3]
    out["functions"] = sorted(funcs)
    out["vars"] = len(eng.sp.vars)
    base = dict(prop=prop, fn=inst["fn"], params=params)
    tried = 0

    def bad(r):
        return r["failures"] or (r["status"] == "exception" and r.get("exc") != "Discard")

    def violation(r, label, why):
        out["status"] = "violation"
        out["violation"] = {
            "property": prop, "instance": inst["name"], "claim": label, "found_by": why,
            "concrete": {k: r.get(k) for k in ("status", "failures", "exc", "msg", "where")},
            "replay": dict(base, values=r["values"], seed=0)}

    cands = [(c["label"], with_alias(eng, model_values(eng, c.get("model")), c["alias"]), "solver: claim refuted") for c in eng.failures]
    cands += [(c["label"], with_alias(eng, {}, c["alias"]) or None, "solver: claim not provable") for c in eng.undecided]
    cands += [("no exception (%s at %s)" % (c["exc"], c["where"]), (path_models(eng, 1, [c]) or [None])[0],
               "symbolic run: exception") for c in eng.crashes]
    out["candidates"] = [{"label": l, "by": w} for l, _, w in cands][:12]
    out["undecided_why"] = [u["why"] for u in eng.undecided][:5]
    out["crashes"] = [{k: c[k] for k in ("exc", "msg", "where", "trace")} for c in eng.crashes][:3]
    n = inst.get("samples", 40)
    if cands:
        for l, m, w in cands:
            vals = m if isinstance(m, dict) else model_values(eng, m)
            for k in range(3 if vals else 0):
                # the model's inputs; then the model relaxed input by input
                r = conc.ask(**base, values=vals if k == 0 else dict(random.Random(k).sample(sorted(vals.items()), max(1, len(vals) // 2))), seed=seed + k)
                tried += 1
                if bad(r):
                    violation(r, l, w)
                    break
            if out["status"] == "violation":
                break
        # inputs driving the failing paths, equal ones kept apart
        paths = {}
        for c in eng.failures + eng.undecided + eng.crashes:
            if c["path"]:
                paths.setdefault(tuple(id(p) for p in c["path"]), c)
        t1 = time.time()
        for c in list(paths.values())[:12]:
            for k in range(3):
                if out["status"] == "violation" or time.time() - t1 > 45:
                    break
                vals = with_alias(eng, spread_model(eng, c["path"], seed * 100 + k), c["alias"], k)
                if vals:
                    r = conc.ask(**base, values=vals, seed=seed + k)
                    tried += 1
                    if bad(r):
                        violation(r, cands[0][0], cands[0][2])
        k = 0
        while out["status"] != "violation" and k < n:
            r = conc.ask(**base, values={}, seed=seed * 1000 + k)
            k += 1
            tried += 1
            if bad(r):
                violation(r, cands[0][0], cands[0][2])
        k = 0
        seen = set()
        while out["status"] != "violation" and k < 2 * n:
            # unusual inputs; rounding may be larger there (the same claim has
            # to fail twice), errors may be due to the inputs
            r = conc.ask(**base, values={}, seed=seed * 1000 + k, loose=VALIDATE_LOOSE, wide=True)
            k += 1
            tried += 1
            if r["failures"] and r["status"] == "ok":
                if r["failures"][0]["label"] in seen:
                    violation(r, cands[0][0], cands[0][2])
                seen.add(r["failures"][0]["label"])
        if out["status"] != "violation":
            out["status"] = "undecided"
            out["why"] = "not proved and not reproduced in %d concrete runs: %s" % (tried, cands[0][0])
    # validation of the encoding: concrete runs of the same harness
    wit = passed = 0
    if out["status"] == "ok":
        want = inst.get("witnesses", 4 if tier == "quick" else 12)
        seeds = [seed * 1000 + 500 + k for k in range(8 * want)]
        vals = [({}, s) for s in seeds]
        if eng.stats["paths"] > 1:
            pm = path_models(eng, 6 if tier == "quick" else 30)
            vals = [(v, seed) for v in pm] + vals
            want += len(pm)
        errs = []
        t1 = time.time()
        for v, s in vals:
            if passed >= want or time.time() - t1 > inst.get("witness_time", 20):
                break
            r = conc.ask(**base, values=v, seed=s, loose=VALIDATE_LOOSE)
            tried += 1
            if r["status"] == "discard":
                continue
            wit += 1
            if r["status"] == "error":
                errs.append(r["why"])
                continue
            if bad(r):
                violation(r, "concrete run contradicts the claim", "validation run")
                break
            if r["checked"]:
                passed += 1
        out["witness_errors"] = errs[:3]
        if out["status"] == "ok" and passed == 0:
            out["status"] = "undecided"
            out["why"] = "vacuous: no concrete run satisfies the assumptions (%s)" % (errs[:1],)
    if out["status"] == "ok" and limit:
        out["status"] = "undecided"
        out["why"] = limit
    if limit:
        out["limit"] = limit
    out["witnesses"] = wit
    out["witness_passed"] = passed
    out["replays"] = tried
    conc.close()


def path_models(eng, n, ws=None):
    """Concrete inputs driving single paths (typical ranges where possible)."""
    import z3
    out = []
    sp = eng.sp
    rnd = random.Random(1)
    ws = eng.witnesses if ws is None else ws
    if len(ws) > n:
        ws = rnd.sample(ws, n)
    for w in ws:
        cons = [c for c in w["path"] if c.trig is None]
        z = [eng.solver.zbool(c) for c in cons]
        vs = set()
        for c in cons:
            vs |= eng.solver._bv(c)
        z += eng.solver.domain(vs)
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*z)
        typ = []
        for i in eng.inputs.values():
            V = sp.vars[i]
            if i in vs and V.typ:
                x = eng.solver.zvar(i)
                typ += [x >= z3.RealVal(str(V.typ[0])), x <= z3.RealVal(str(V.typ[1]))]
        s.push()
        s.add(*typ)
        try:
            if s.check() != z3.sat:
                s.pop()
                if s.check() != z3.sat:
                    continue
            out.append(with_alias(eng, model_values(eng, s.model()), w.get("alias")))
        except z3.Z3Exception:
            continue
    return out


def spread_model(eng, path, seed):
    """Inputs driving one path: typical values, no two of a kind equal where
    the path leaves a choice (in decreasing steps: 1/10 of the range ...)."""
    import z3
    sp, rnd = eng.sp, random.Random(seed)
    cons, vs, seen = [], set(), set()
    for c in list(path) + eng.defs:
        # only what says something about the inputs themselves
        v = eng.solver._bv(c)
        if id(c) not in seen and (c.trig is None or any(sp.vars[i].func for i in v)):
            if all(sp.vars[i].kind == "input" or sp.vars[i].func in ("floor", "max", "min", "abs", "pi") for i in v):
                cons.append(c)
                vs |= v
            seen.add(id(c))
    s = z3.Solver()
    s.set("timeout", 1000)
    try:
        s.add(*[eng.solver.zbool(c) for c in cons])
        s.add(*eng.solver.domain(vs))
        ids = [i for i in eng.inputs.values() if i in vs]

        def soft(*cs):
            s.push()
            s.add(*cs)
            if s.check() == z3.sat:
                return True
            s.pop()
            return False

        def at(i, q):
            lo, hi = sp.vars[i].typ
            return z3.RealVal(repr(round(lo + q * (hi - lo), 6)))
        if s.check() != z3.sat:
            return {}
        for i in ids:
            if sp.vars[i].typ:
                x, a = eng.solver.zvar(i), rnd.random()
                soft(x >= at(i, max(0, a - .1)), x <= at(i, min(1, a + .1))) or soft(x >= at(i, 0), x <= at(i, 1))
        t0 = time.time()
        for k, i in enumerate(ids):
            for j in ids[k + 1:]:
                if sp.vars[i].typ and sp.vars[i].typ == sp.vars[j].typ and time.time() - t0 < 10:
                    w = sp.vars[i].typ[1] - sp.vars[i].typ[0]
                    x, y = eng.solver.zvar(i), eng.solver.zvar(j)
                    for e in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5):
                        d = z3.RealVal(repr(e * w))
                        if soft(z3.Or(x - y >= d, y - x >= d)):
                            break
        if s.check() != z3.sat:
            return {}
        out, model = {}, s.model()
        for i in ids:
            x = model.eval(eng.solver.zvar(i))
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            if z3.is_rational_value(x) or z3.is_int_value(x):
                out[[n for n, v in eng.inputs.items() if v == i][0]] = float(x.as_fraction())
        return out
    except (z3.Z3Exception, AttributeError, OverflowError):
        return {}


def run_property(prop, tier, seed, only=None, verbose=False):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="verif-")
    try:
        return _run_property(prop, tier, seed, only, verbose)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _run_property(prop, tier, seed, only, verbose):
    t0 = time.time()
    mod = importlib.import_module("props." + prop.lower())
    insts = mod.instances(tier)
    if only:
        insts = [i for i in insts if only in i["name"]]
    budget = getattr(mod, "BUDGET", {}).get(tier, 780)
    deadline = t0 + budget
    ctx = get_context("fork")
    jobs = sorted(range(len(insts)), key=lambda i: -insts[i].get("weight", 1))
    running = {}
    results = {}
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    stop = False
    while jobs or running:
        while jobs and len(running) < nproc and not stop:
            i = jobs.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_instance, args=(prop, insts[i], tier, seed, deadline, q))
            p.start()
            running[i] = (p, q)
        if stop:
            jobs = []
        time.sleep(0.03)
        for i in list(running):
            p, q = running[i]
            if not q.empty():
                r = json.loads(q.get())
                p.join(5)
                if p.is_alive():
                    p.kill()
                results[i] = r
                del running[i]
                if verbose:
                    print("%-34s %-10s %6.1fs paths %d obl %d/%d queries %d witness %d/%d %s" % (
                        r["name"], r["status"], r["seconds"], r.get("stats", {}).get("paths", 0),
                        r.get("stats", {}).get("discharged", 0), r.get("stats", {}).get("obligations", 0),
                        r.get("queries", {}).get("queries", 0), r.get("witness_passed", 0), r.get("witnesses", 0),
                        r.get("why", "")), flush=True)
                    for c in r.get("candidates", [])[:6]:
                        print("     candidate:", c["by"], "|", c["label"])
                    for c in r.get("crashes", []):
                        print("     crash:", c["exc"], c["msg"][:200], c["where"])
                        if verbose > 1:
                            print(c["trace"])
                    if r["status"] == "error":
                        print(r.get("trace", ""))
                    if r["status"] == "violation":
                        print("     ", json.dumps(r["violation"]["concrete"])[:600])
                if r["status"] == "violation" and not os.environ.get("VERIF_ALL"):
                    stop = True
            elif not p.is_alive():
                if not q.empty():
                    continue        # answered between the two questions
                p.join()
                results[i] = {"name": insts[i]["name"], "status": "error", "why": "process ended (%s)" % p.exitcode, "seconds": 0}
                del running[i]
            elif time.time() > deadline + 45 or stop and time.time() > deadline:
                p.kill()
                results[i] = {"name": insts[i]["name"], "status": "undecided", "why": "time budget", "seconds": budget}
                del running[i]
        if stop and running:
            for i, (p, q) in running.items():
                p.kill()
                results[i] = {"name": insts[i]["name"], "status": "stopped", "seconds": 0}
            running = {}
    for i, inst in enumerate(insts):
        results.setdefault(i, {"name": inst["name"], "status": "stopped", "seconds": 0})
    return insts, [results[i] for i in range(len(insts))], time.time() - t0
