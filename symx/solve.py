"""Deciding: everything here is a query to z3."""
import os
import time
from fractions import Fraction
import z3

from . import poly as P
from . import sym as S
from .poly import ONE

SLOW = os.environ.get("VERIF_SLOW")      # report proofs that come close to their limit


class Solver:
    def __init__(self, engine):
        self.e = engine
        self.zv = {}
        self.ints = set()
        self.q = dict(queries=0, unsat=0, sat=0, unknown=0, seconds=0.0,
                      linear=0, nonlinear=0)
        self.zmono = {}

    # --- translation ----------------------------------------------------------

    def zvar(self, i):
        v = self.zv.get(i)
        if v is None:
            name = "v%d_%s" % (i, P.space().vars[i].name)
            v = z3.Int(name) if i in self.ints else z3.Real(name)
            if i in self.ints:
                v = z3.ToReal(v)
            self.zv[i] = v
        return v

    def zpoly(self, p, lin=False):
        """z3 term of a polynomial; lin: monomials become variables."""
        terms = []
        for m, c in p.items():
            if m == ONE:
                terms.append(z3.RealVal(c))
                continue
            if lin:
                t = self.mono(m)
            else:
                t = None
                for v, e in m:
                    x = self.zvar(v)
                    for _ in range(e):
                        t = x if t is None else t * x
            terms.append(t if c == 1 else z3.RealVal(c) * t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.zvar(m[0][0])
        t = self.zmono.get(m)
        if t is None:
            t = z3.Real("m" + "_".join("%d^%d" % x for x in m))
            self.zmono[m] = t
        return t

    def clear(self, r, op):
        """Polynomial with the same sign relation as the Rat (f != 0)."""
        n = r.n
        if op in ("==", "!="):
            return n, False
        flip = False
        for fid, e in r.f:
            if e & 1:
                s = P.factor_sign(fid)
                if s in ("+", "0+"):
                    continue
                if s in ("-", "0-"):
                    flip = not flip
                    continue
                n = P.pmul(n, P.space().factors[fid])
        return n, flip

    def zbool(self, b, lin=False, monos=None):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args)
        if k == "rel":
            op, r = b.args
            n, flip = self.clear(r, op)
            if monos is not None:
                monos.update(n)
            t = self.zpoly(n, lin)
            if op == "==":
                return t == 0
            if op == "!=":
                return t != 0
            if flip:
                return t > 0 if op == "<" else t >= 0
            return t < 0 if op == "<" else t <= 0
        parts = [self.zbool(a, lin, monos) for a in b.args]
        return z3.And(*parts) if k == "and" else z3.Or(*parts)

    @staticmethod
    def bvars(b, out):
        if b.kind == "rel":
            for m in b.args[1].n:
                for v, _ in m:
                    out.add(v)
            for fid, _ in b.args[1].f:
                for m in P.space().factors[fid]:
                    for v, _ in m:
                        out.add(v)
        elif b.kind != "const":
            for a in b.args:
                Solver.bvars(a, out)
        return out

    # --- context -------------------------------------------------------------

    def relevant(self, seeds, path, hops=3):
        """Axioms, domain bounds and path facts connected to the seeds."""
        e = self.e
        pool = [(b, self._bv(b)) for b in list(path) + e.defs + (e.pow_axioms() if e.pows else [])]
        vs = set(seeds)
        # integer atoms decided on this path (ceil, floor) constrain their arguments
        ints = set().union(*[self._bv(b) for b in path]) & self.ints if self.ints else set()
        chosen = []
        used = set()
        lazied = set()
        for _ in range(hops):
            added = []
            for i, (b, bv) in enumerate(pool):
                if i in used or not (b.trig & vs or b.trig & ints and bv & vs if b.trig else bv & vs):
                    continue
                used.add(i)
                added.append(b)
            # lazy sign axioms of the atoms involved
            for v in sorted(vs - lazied):
                lazied.add(v)
                if v in e.lazy:
                    if v not in e.lazy_done:
                        e.lazy_done[v] = e.lazy[v]()
                    added += e.lazy_done[v]
            if not _:
                ex = sorted(v for v in seeds if P.space().vars[v].func == "exp")
                if 2 <= len(ex) <= 12:
                    for i, v in enumerate(ex):
                        for w in ex[:i]:
                            added += self.exp_pair(v, w)
            chosen += added
            new = set()
            for b in added:
                new |= self._bv(b)
            if not added or new <= vs:
                break
            vs |= new
        return chosen, vs

    def exp_pair(self, v, w):
        """Strict monotonicity of exp between two atoms."""
        c = self.__dict__.setdefault("_exppair", {})
        r = c.get((v, w))
        if r is None:
            V, W = P.space().vars[v], P.space().vars[w]
            d = P.rsub(V.args[2].r, W.args[2].r)
            e = P.rsub(P.rvar(V), P.rvar(W))
            r = c[(v, w)] = [S.bor(S.rel_raw("<", d), S.rel_raw("<=", P.rneg(e))),
                             S.bor(S.rel_raw("<", P.rneg(d)), S.rel_raw("<=", e))]
        return r

    def _bv(self, b):
        c = self.__dict__.setdefault("_bvc", {})
        k = id(b)
        r = c.get(k)
        if r is None or r[0] is not b:
            r = c[k] = (b, frozenset(self.bvars(b, set())))
        return r[1]

    def domain(self, vs, lin=False):
        out = []
        for i in sorted(vs):
            V = P.space().vars[i]
            x = self.zvar(i)
            if V.sign == "pos":
                out.append(x > 0)
            elif V.sign == "neg":
                out.append(x < 0)
            elif V.sign == "nonneg":
                out.append(x >= 0)
            elif V.sign == "nonpos":
                out.append(x <= 0)
            elif V.sign == "nonzero":
                out.append(x != 0)
            if V.lo is not None:
                out.append(x >= z3.RealVal(str(V.lo)))
            if V.hi is not None:
                out.append(x <= z3.RealVal(str(V.hi)))
        return out

    def monosigns(self, monos):
        out = []
        for m in monos:
            if m == ONE or (len(m) == 1 and m[0][1] == 1):
                continue
            s = P.msign(m)
            t = self.mono(m)
            if s == "+":
                out.append(t > 0)
            elif s == "-":
                out.append(t < 0)
            elif s == "0+":
                out.append(t >= 0)
            elif s == "0-":
                out.append(t <= 0)
        return out

    # --- queries -----------------------------------------------------------------

    def _run(self, asserts, timeout, linear, logic=None):
        t0 = time.time()
        limit = int(timeout)
        while True:
            t1, c1 = time.time(), time.process_time()
            s = z3.SolverFor("QF_LRA") if linear and not self.ints else z3.Solver()
            s.set("timeout", limit)
            s.add(*asserts)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            w, c = time.time() - t1, time.process_time() - c1
            # the limit is meant as time of the solver, not of a busy machine
            if r != z3.unknown or w < 0.9 * limit / 1000 or c > 0.7 * w or limit > timeout or timeout < 4000:
                break
            limit = int(limit * min(4, max(1.5, w / max(c, 1e-3))))
        dt = time.time() - t0
        if SLOW and r == z3.unsat and c > 0.15 * timeout / 1000 and timeout >= 4000:
            print("SLOW %.2f s of %.1f s" % (c, timeout / 1000), flush=True)
        q = self.q
        q["queries"] += 1
        q["seconds"] += dt
        q["linear" if linear else "nonlinear"] += 1
        name = str(r)
        q[name] += 1
        return name, (s.model() if name == "sat" else None)

    def linear_query(self, cons, vs, timeout=20000):
        monos = set()
        z = [self.zbool(b, True, monos) for b in cons]
        mv = set()
        for m in monos:
            for v, _ in m:
                mv.add(v)
        z += self.monosigns(monos)
        z += self.domain(mv)
        return self._run(z, timeout, True)

    def nonlinear_query(self, cons, vs, timeout):
        z = [self.zbool(b) for b in cons]
        mv = set()
        for b in cons:
            mv |= self._bv(b)
        z += self.domain(mv)
        return self._run(z, timeout, False)

    def islinear(self, cons):
        for b in cons:
            stack = [b]
            while stack:
                x = stack.pop()
                if x.kind == "rel":
                    if x.args[1].f:
                        return False
                    for m in x.args[1].n:
                        if len(m) > 1 or (m and m[0][1] > 1):
                            return False
                elif x.kind != "const":
                    stack.extend(x.args)
        return True

    def feasible(self, path, b, cheap=False):
        """Can b hold on this path? (True also when undecided)"""
        if b.kind == "const" and not b.args:
            return False
        if b.kind == "const":
            seeds = set()
            for c in path:
                seeds |= self._bv(c)
        else:
            seeds = self._bv(b)
        cons, vs = self.relevant(seeds, path, hops=4 if self.ints else 2)
        cons = cons + [b]
        r, m = self.linear_query(cons, vs, self.e.opts["branch_timeout"])
        if r == "unsat":
            return False
        if r == "sat" and self.islinear(cons):
            return True
        if cheap:
            cons = [c for c in cons if c.kind != "rel" or len(c.args[1].n) <= 12 and len(self._bv(c)) <= 8]
            r, m = self.nonlinear_query(cons, vs, 300)
            return r != "unsat"
        small = sum(len(c.args[1].n) for c in cons if c.kind == "rel")
        if small > 3000:
            return True
        r, m = self.nonlinear_query(cons, vs, self.e.opts["branch_timeout"])
        return r != "unsat"

    def multiply(self, cons, goalmonos, limit=300):
        """Products of equational facts with cofactors that hit goal monomials."""
        facts = [c for c in cons if c.kind == "rel" and c.args[0] == "==" and 1 < len(c.args[1].n) < 400]
        target = set(goalmonos)
        out = []
        seen = set()
        for rnd in range(2):
            new = set()
            for f in facts:
                n = f.args[1].n
                lead = sorted(n, key=lambda m: -sum(e for _, e in m))[:4]
                for m in list(target):
                    for t in lead:
                        q = P.mdiv(m, t)
                        if q is None or q == ONE:
                            continue
                        k = (id(f), q)
                        if k in seen:
                            continue
                        seen.add(k)
                        pp = P.pmul(n, {q: 1})
                        out.append(S.SymBool("rel", ("==", S.Rat(pp))))
                        new |= set(pp)
                        if len(out) >= limit:
                            return out
            target = new - target
        return out

    # --- equalities over stub unknowns --------------------------------------

    def opaque(self, facts, goals, unknowns):
        """Goals (Rat == 0) from facts (Rat == 0), linear over products of
        unknowns with coefficients abstracted to one symbol per canonical
        rational function.  Sound: unsat carries over to the real theory."""
        ids = {}

        def term(r):
            groups = {}
            for m, c in r.n.items():
                mu = tuple(x for x in m if x[0] in unknowns)
                mo = tuple(x for x in m if x[0] not in unknowns)
                groups.setdefault(mu, {})[mo] = c
            ts = []
            for mu, n in groups.items():
                n, f = P._cancel(n, r.f)
                g = P.pcontent(n)
                if n[P.pmin(n)] < 0:
                    g = -g
                key = (mu, frozenset((m, c // g) for m, c in n.items()), f)
                v = ids.get(key)
                if v is None:
                    v = ids[key] = z3.Real("o%d" % len(ids))
                ts.append(z3.RealVal(str(Fraction(g, r.d))) * v)
            return z3.Sum(ts) if ts else z3.RealVal(0)
        fz = [term(f) == 0 for f in facts]
        for g in goals:
            r, _ = self._run(fz + [term(g) != 0], 10000, True)
            if r != "unsat":
                return False
        return True

    def prove_by_stub(self, path, goal):
        """Equality goal from the contracts of stubs (linear solve, eig, root)."""
        gv = self._bv(goal)
        facts = [b for b in path if b.trig and b.kind == "rel" and b.args[0] == "==" and (b.trig & gv)]
        if not facts:
            return False
        U = set()
        for b in facts:
            U |= b.trig
        fr = [P.live(b.args[1]) for b in facts]
        r = P.live(goal.args[1])
        # a goal "== 0" may drop denominators (all nonzero); keep those the
        # facts have, so that coefficients get the same canonical form
        ff = {fid for x in fr for fid, _ in x.f}
        r = S.Rat(r.n, r.d, tuple(x for x in r.f if x[0] in ff))
        if self.opaque(fr, [r], U):
            return True
        fv = set()
        for b in facts:
            fv |= self._bv(b)
        groups = {}
        for m, c in r.n.items():
            mo = tuple(x for x in m if x[0] not in fv)
            mi = tuple(x for x in m if x[0] in fv)
            groups.setdefault(mo, {})[mi] = c
        if len(groups) > 1:
            gs = []
            for n in groups.values():
                n, f = P._cancel(n, r.f)
                gs.append(P._norm(n, r.d, f))
            if self.opaque(fr, gs, U):
                return True
        return False

    SIZE = 4000

    def prove(self, path, goal):
        """goal must hold: ('proved',), ('refuted', model, cons), ('unknown', why, cons)."""
        ng = S.bnot(goal)
        if goal.kind == "const":
            # still a (trivial) query, so that every verdict is the solver's
            r, _ = self._run([z3.BoolVal(not goal.args)], 1000, True)
            if r == "unsat":
                return ("proved",)
            return ("refuted", None, ng)
        seeds = self._bv(goal)
        if goal.kind == "rel" and goal.args[0] == "==" and self.prove_by_stub(path, goal):
            return ("proved",)
        cons, vs = self.relevant(seeds, path)
        ck = (goal.key(), frozenset(c.key() for c in cons))
        cache = self.__dict__.setdefault("_proved", set())
        if ck in cache:
            return ("proved",)
        # first with the few constraints closest to the goal
        near = [c for c in cons if c.kind != "rel" or len(c.args[1].n) <= 12]
        near = [c for c in near if len(self._bv(c)) <= 8]
        if len(near) < len(cons):
            full = near + [ng]
            r, _ = self.linear_query(full, vs, 2000)
            if r != "unsat":
                r, _ = self.nonlinear_query(full, vs, 1000)
            if r == "unsat":
                cache.add(ck)
                return ("proved",)
        res = self._prove(cons, vs, goal, ng)
        if res[0] == "proved":
            cache.add(ck)
        return res

    def _prove(self, cons, vs, goal, ng):
        full = cons + [ng]
        r, m = self.linear_query(full, vs)
        if r == "unsat":
            return ("proved",)
        if r == "sat" and self.islinear(full):
            return ("refuted", m, ng)
        size = sum(len(c.args[1].n) for c in full if c.kind == "rel")
        r2 = "skipped"
        if size < self.SIZE:
            r2, m2 = self.nonlinear_query(full, vs, min(4000, self.e.opts["obl_timeout"]))
            if r2 == "unsat":
                return ("proved",)
            if r2 == "sat":
                return ("refuted", m2, ng)
        gm = set()
        self.zbool(goal, True, gm)
        extra = self.multiply(cons, gm)
        if extra:
            r3, m3 = self.linear_query(full + extra, vs)
            if r3 == "unsat":
                return ("proved",)
        r4 = "skipped"
        if size < self.SIZE:
            r4, m4 = self.nonlinear_query(full + extra[:60], vs, self.e.opts["obl_timeout"])
            if r4 == "unsat":
                return ("proved",)
            if r4 == "sat":
                return ("refuted", m4, ng)
        return ("unknown", "z3: linear %s, nonlinear %s/%s" % (r, r2, r4), ng)

    def prove_eq(self, path, a, b):
        """a == b: the query is num(a)*den(b) != num(b)*den(a)."""
        a, b = P.live(a), P.live(b)
        d = P.rsub(a, b)
        if not d.n:
            # identical normal forms; let z3 refute the disequality of the
            # cross-multiplied terms
            high = max((abs(k) for x in (a, b) for p in (x.n,) for m in p for _, k in m), default=0) > 24
            if len(a.n) + len(b.n) < 1500 and not high:
                l = self.zpoly(a.n) * a_den(self, b)
                r_ = self.zpoly(b.n) * a_den(self, a)
                cons = []
                if P.space().sinvars and a.key() != b.key():
                    vs = P.rvars(a) | P.rvars(b)
                    cons = [self.zbool(x) for x in self.e.defs if self._bv(x) <= vs and x.args[0] == "=="]
                r, _ = self._run(cons + [l != r_], 5000, False)
                if r == "unsat":
                    return ("proved",)
            # large terms: the normalised difference
            r, _ = self._run([self.zpoly(d.n, True) != 0], 5000, True)
            return ("proved",) if r == "unsat" else ("unknown", "z3", S.rel_raw("!=", d))
        if literal_noise(d, a) or literal_noise(d, b):
            self.e.stats["literal_noise"] = self.e.stats.get("literal_noise", 0) + 1
            return ("proved",)
        return self.prove(path, S.SymBool("rel", ("==", d)))


def a_den(s, r):
    t = z3.RealVal(r.d)
    for fid, e in r.f:
        p = s.zpoly(P.space().factors[fid])
        for _ in range(e):
            t = t * p
    return t


def literal_noise(d, a):
    """d differs from zero only by the rounding of float literals combined at
    run time (coefficients below 1e-12 of those of the compared value)."""
    if not a.n or d.f != a.f:
        return False
    for m, c in d.n.items():
        ca = a.n.get(m)
        if ca is None or abs(Fraction(c, d.d)) > Fraction(1, 10 ** 12) * abs(Fraction(ca, a.d)):
            return False
    return True
