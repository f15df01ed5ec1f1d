"""Path exploration (DFS by re-execution), path conditions, obligations."""
import time
from fractions import Fraction

from . import poly as P
from . import sym as S
from .sym import Sym, SymBool, bnot, rel_raw, tobool
from .solve import Solver


class PathAbort(BaseException):
    """Path condition became infeasible (or was cut by an assumption)."""


class Inconclusive(Exception):
    pass


class Limit(Exception):
    pass


class Enough(BaseException):
    """Enough candidate violations of this instance: go and replay them."""


class Engine:
    """One harness instance."""

    def __init__(self, opts=None):
        self.opts = {"max_paths": 400, "max_decisions": 400, "deadline": None,
                     "obl_timeout": 20000, "branch_timeout": 1500}
        self.opts.update(opts or {})
        self.sp = P.reset()
        S.ENGINE = self
        self.solver = Solver(self)
        self.defs = []            # global axioms (BExpr), about atoms
        self.lazy = {}            # var id -> thunk giving sign axioms
        self.lazy_done = {}
        self.pows = []
        self.inputs = {}          # name -> Var
        self.stats = dict(paths=0, branches=0, obligations=0, discharged=0,
                          aborted=0, decisions=0, maxterms=0)
        self.failures = []        # candidate violations
        self.undecided = []
        self.crashes = []
        self.witnesses = []       # per-path data for concrete replay
        self.samples = []
        self.allowed_exc = ()
        self.memo_global = {}

    # --- axioms ------------------------------------------------------------

    def axiom(self, b, trig=None):
        """Axiom about an atom; used for goals that mention the atom."""
        if trig is None:
            vs = Solver.bvars(b, set())
            at = [v for v in vs if self.sp.vars[v].kind == "atom" and self.sp.vars[v].func != "pi"]
            trig = {max(at)} if at else None
        b.trig = frozenset(trig) if trig else None
        self.defs.append(b)

    def fact(self, b, trig=None):
        """Contract of a stub (solve, eig, ...), part of the path condition."""
        b.trig = frozenset(trig) if trig else None
        self.path.append(b)

    def lazy_axiom(self, r, thunk):
        (m, _), = r.n.items()
        self.lazy[m[0][0]] = thunk

    def intvar(self, s):
        (m, _), = s.r.n.items()
        self.solver.ints.add(m[0][0])

    def pow_created(self, a, base, yb, q):
        """pow atoms: positivity is the variable's sign; monotonicity with
        earlier atoms of the same exponent on request (see mono_axioms)."""
        self.pows.append((a, base, yb, q))

    def pow_axioms(self):
        """a_i = b_i**(y/q): strict monotonicity in the base for y > 0."""
        out = []
        for i, (a, b, y, q) in enumerate(self.pows):
            for a2, b2, y2, q2 in self.pows[:i]:
                if y.key() == y2.key() and q == q2 and P.rsign(y) == "+":
                    d = P.rsub(b, b2)
                    e = (a - a2).r
                    out.append(S.bor(rel_raw("<=", d), rel_raw("<", P.rneg(e))))
                    out.append(S.bor(rel_raw("<=", P.rneg(d)), rel_raw("<", e)))
                    out.append(S.bor(rel_raw("!=", d), rel_raw("==", e)))
            if P.rsign(y) == "+":
                one = S.lift(1)
                d = P.rsub(b, one.r)
                e = (a - one).r
                out.append(S.bor(rel_raw("<=", d), rel_raw("<", P.rneg(e))))
                out.append(S.bor(rel_raw("<=", P.rneg(d)), rel_raw("<", e)))
        return out

    # --- paths -------------------------------------------------------------

    def run(self, fn):
        """Explore all paths of fn(); fn must be deterministic."""
        stack = [({}, [])]
        self.worlds = set()
        while stack:
            if self.opts["deadline"] and time.time() > self.opts["deadline"]:
                raise Limit("time budget exhausted with %d paths open" % len(stack))
            if self.stats["paths"] >= self.opts["max_paths"]:
                raise Limit("path bound %d reached" % self.opts["max_paths"])
            self.alias, prefix = stack.pop()
            self.prefix = prefix
            self.newworlds = []
            self.trace = []           # decisions taken
            self.path = []            # BExpr constraints of this path
            self.known = {}
            self.open = []            # alternatives found on this path
            self.fresh_count = 0
            self.memo = {}
            self.path_inputs = []
            self.events = []
            self.solve_hook = None
            outcome = "ok"
            try:
                fn()
            except PathAbort:
                outcome = "abort"
            except (Enough, Limit, Inconclusive):
                raise
            except P.Budget as x:
                raise Limit("term budget: %s" % x)
            except Exception as x:
                outcome = "exception"
                self.crash(x)
            if outcome != "abort":
                self.stats["paths"] += 1
                self.end_of_path()
            else:
                self.stats["aborted"] += 1
            stack.extend((self.alias, t) for t in self.open)
            stack.extend((w, []) for w in self.newworlds)

    def crash(self, x):
        """An exception left the harness: a candidate violation."""
        import os
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        repo = os.environ.get("VERIF_REPO", "/repo")
        inrepo = [f for f in tb if f.filename.startswith(os.path.join(repo, "weac"))]
        w = (inrepo or tb)[-1]
        self.crashes.append({"alias": self.alias, "exc": type(x).__name__, "msg": str(x)[:300], "inrepo": bool(inrepo),
                             "where": "%s:%s in %s" % (os.path.basename(w.filename), w.lineno, w.name),
                             "trace": "".join(traceback.format_tb(x.__traceback__)[-6:]),
                             "path": list(self.path)})
        if len(self.crashes) >= 4:
            raise Enough()

    def end_of_path(self):
        self.witnesses.append({"path": list(self.path), "trace": list(self.trace), "alias": self.alias})

    def decide(self, b):
        b = tobool(b)
        if b.kind == "const":
            return b.args
        k = b.key()
        v = self.known.get(k)
        if v is not None:
            return v
        nk = bnot(b).key()
        v = self.known.get(nk)
        if v is not None:
            return not v
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trace.append(val)
        else:
            if i > self.opts["max_decisions"]:
                raise Limit("decision bound reached")
            t = self.solver.feasible(self.path, b)
            f = self.solver.feasible(self.path, bnot(b)) if t or self.solver.ints else True
            if not (t or f):
                raise PathAbort()
            if (t and b.kind == "rel" and b.args[0] == "==" or f and b.kind == "rel" and b.args[0] == "!=") and self.world(b):
                # the side where the inputs are related is explored with the
                # relation substituted, from the start
                if not (f if b.args[0] == "==" else t):
                    raise PathAbort()
                t, f = b.args[0] != "==", b.args[0] == "=="
                self.stats["branches"] += 1
            if t and f:
                self.stats["branches"] += 2
                self.open.append(self.trace + [False])
                val = True
            elif t or f:
                self.stats["branches"] += 1
                val = bool(t)
            self.trace.append(val)
            self.stats["decisions"] += 1
        self.known[k] = val
        self.path.append(b if val else bnot(b))
        return val

    def world(self, b):
        """b equates inputs (x == y, x == 0, x + y == z ...): queue the run in
        which one of them is an expression in the others.  All its paths are
        explored, so it covers every path on which b holds."""
        n = b.args[1].n
        com = None
        for m in n:
            d = dict(m)
            com = d if com is None else {v: min(e, d[v]) for v, e in com.items() if v in d}
        if any(self.sp.vars[v].sign not in ("pos", "neg", "nonzero") and self.sp.vars[v].func != "pi" for v in com):
            com = {}
        n = {tuple((v, e - com.get(v, 0)) for v, e in m if e > com.get(v, 0)): c for m, c in n.items()}
        if len(n) > 6:
            return False
        vs = {v for m in n for v, _ in m}
        if not vs or any(self.sp.vars[v].kind != "input" for v in vs):
            return False
        for v in sorted(vs, reverse=True):
            ms = [m for m in n if any(x == v for x, _ in m)]
            if ms == [((v, 1),)]:
                c = n[ms[0]]
                r = P.rmul(S.Rat({m: k for m, k in n.items() if m != ms[0]}), P.rconst(Fraction(-1, c)))
                break
        else:
            return False
        w = dict(self.alias)
        w[v] = r
        key = frozenset((i, x.key()) for i, x in w.items())
        if key not in self.worlds:
            if len(self.worlds) >= self.opts.get("max_worlds", 48):
                return False
            self.worlds.add(key)
            self.newworlds.append(w)
        return True

    def resolve(self, r):
        """An expression in inputs with the relations of this run applied."""
        if not any(v in self.alias for m in r.n for v, _ in m):
            return Sym(r)
        out = S.lift(0)
        for m, c in r.n.items():
            t = S.lift(Fraction(c, r.d))
            for v, e in m:
                x = Sym(P.rvar(self.sp.vars[v])) if v not in self.alias else self.resolve(self.alias[v])
                t = t * x ** e
            out = out + t
        return out

    def assume(self, b, check=True):
        b = tobool(b)
        if b.kind == "const":
            if not b.args:
                raise PathAbort()
            return
        if b.kind == "and":
            for a in b.args:
                self.assume(a, check=False)
        else:
            self.known[b.key()] = True
            self.path.append(b)
        if check and len(self.trace) >= len(self.prefix):
            if not self.solver.feasible(self.path, b, cheap=True):
                raise PathAbort()

    def nonzero(self, r):
        """Division by r: zero divisors are outside the claim."""
        n = S.Rat(r.n)
        b = rel_raw("!=", n)
        k = b.key()
        if k not in self.known:
            self.known[k] = True
            self.path.append(b)

    def fresh(self, name, sign="any", kind="fresh"):
        """Fresh real, deterministic name on re-execution."""
        v = self.sp.byname.get(name)
        if v is not None and v.sign != sign:
            name = name + "~" + sign
        v = self.sp.var(name, sign, kind)
        return Sym(P.rvar(v))

    def concretise(self, s):
        """Fork over the integer values of s."""
        if not isinstance(s, Sym):
            return int(s)
        if s.r.is_const():
            f = s.r.const()
            if f.denominator != 1:
                raise TypeError("non-integer index")
            return int(f)
        lim = self.opts.get("int_limit", 40)
        lo = 0 if self.decide(tobool(s >= 0)) else None
        if lo is None:
            k = -1
            while k > -lim:
                if self.decide(tobool(s >= k)):
                    return k
                k -= 1
            raise Limit("integer bound")
        for k in range(0, lim):
            if self.decide(tobool(s <= k)):
                return k
        raise Limit("integer value above %d" % lim)

    # --- obligations -----------------------------------------------------------

    def check(self, label, b, info=None):
        b = tobool(b)
        if b.kind == "and":
            for a in b.args:
                self.check(label, a, info)
            return
        if len(self.trace) < len(self.prefix):
            return            # already discharged on the parent path
        self.stats["obligations"] += 1
        if len(self.samples) < 6:
            self.samples.append({"label": label, "path_len": len(self.path),
                                 "goal": S.show(b.args[1].__class__ and b.args[1], 4) if b.kind == "rel" else b.kind})
        res = self.solver.prove(self.path, b)
        self.record(label, res)

    def check_eq(self, label, a, b):
        """a == b as rational functions."""
        if len(self.trace) < len(self.prefix):
            return
        self.stats["obligations"] += 1
        if len(self.samples) < 6:
            self.samples.append({"label": label, "path_len": len(self.path),
                                 "lhs": S.show(a.r, 4), "rhs": S.show(b.r, 4)})
        res = self.solver.prove_eq(self.path, a.r, b.r)
        self.record(label, res)

    def record(self, label, res):
        if res[0] == "proved":
            self.stats["discharged"] += 1
        elif res[0] == "refuted":
            self.failures.append({"label": label, "path": list(self.path),
                                  "model": res[1], "goal": res[2], "trace": list(self.trace), "alias": self.alias})
        else:
            self.undecided.append({"label": label, "path": list(self.path), "model": None,
                                   "goal": res[2], "why": res[1], "trace": list(self.trace), "alias": self.alias})
        if len(self.failures) + len(self.undecided) >= self.opts.get("enough", 5):
            raise Enough()
