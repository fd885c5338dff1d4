"""Symbolic execution of LLVM IR, by re-execution.

A run executes one harness function from its entry with every input a solver
variable.  Each branch whose condition the path condition leaves open is a
decision; the explorer enumerates all feasible decision sequences depth first,
so that on completion every value of every input is covered by some explored
path.  Assertions are discharged per path: `pc and not assertion` must be
unsatisfiable."""

import os
import sys
import time
import z3

import expr as X
from expr import E, MASK
from ll import Mod, Unsupported

sys.setrecursionlimit(100000)


class PathEnd(BaseException):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Incomplete(Exception):
    pass


class SpecAbort(BaseException):
    """The arms of a branch cannot be merged."""


# a branch is merged from this many forks of it on one path onwards
MERGE_AFTER = int(os.environ.get("LLSYM_MERGE_AFTER", "2"))


class Engine:
    def __init__(self, mod, query_ms=60000):
        self.mod = mod
        self.query_ms = query_ms
        self.thorough = 0
        self.fcache = {}
        self.dbg = {}
        self.cov = set()
        self.ns = {}
        self.solver = None
        self.stats = dict(queries=0, sat=0, unsat=0, solver_s=0.0, paths=0, decisions=0, checks=0,
                          checks_trivial=0, infeasible=0, panics=0, merged=0)
        self.dump = None
        self.spec = 0
        self.nss = {}        # function -> namespace of its code
        self.nblk = {}       # function -> number of its blocks
        self.arms = {}       # merged branch -> code of its arms
        self.nomerge = {}    # branch -> failed attempts
        self._setup_ns()

    # ------------------------------------------------------------ solver
    def reset_solver(self):
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", self.query_ms)
        self.stack = []

    def query(self, extra):
        """Is pc and extra satisfiable?  Returns a model (dict) or None."""
        st = self.stats
        # align solver stack with the path's constraints
        cons = self.cons
        k = 0
        sk = self.stack
        n = min(len(sk), len(cons))
        while k < n and sk[k] is cons[k]:
            k += 1
        if len(sk) > k:
            self.solver.pop(len(sk) - k)
            del sk[k:]
        for c in cons[k:]:
            self.solver.push()
            self.solver.add(X.to_z3b(c, z3), *X.divisions(c, z3))
            sk.append(c)
        t = time.time()
        self.solver.push()
        self.solver.add(X.to_z3b(extra, z3), *X.divisions(extra, z3))
        r = self.solver.check()
        st["queries"] += 1
        if r == z3.unknown:
            # fresh, non-incremental bit-blasting solver
            s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "bit-blast", "sat").solver()
            s2.set("timeout", self.query_ms)
            for c in cons:
                s2.add(X.to_z3b(c, z3), *X.divisions(c, z3))
            s2.add(X.to_z3b(extra, z3), *X.divisions(extra, z3))
            r = s2.check()
            st["queries"] += 1
            ms = s2
        else:
            ms = self.solver
        model = None
        if r == z3.sat:
            m = ms.model()
            model = {}
            for d in m.decls():
                if "!" not in d.name():
                    model[d.name()] = m[d].as_long()
            st["sat"] += 1
        elif r == z3.unsat:
            st["unsat"] += 1
            if self.dump is not None:
                self.dump(cons, extra)
        self.solver.pop()
        st["solver_s"] += time.time() - t
        if r == z3.unknown:
            raise Incomplete("solver gave no answer within %d ms" % self.query_ms)
        return model

    # ------------------------------------------------------------ decisions
    def holds(self, c):
        """Known truth of c on this path, or None."""
        if type(c) is int:
            return bool(c)
        r = self.known.get(c.id)
        if r is not None:
            return r
        if c.op == "not":
            r = self.holds(c.a[0])
            return None if r is None else not r
        return self.by_range(c)

    # what is known of the range of a term: rng[signed?][term] = least, largest
    def range_of(self, x, w, signed):
        if type(x) is int:
            if signed:
                x = X.sg(x, w)
            return x, x
        h = 1 << (w - 1)
        r = self.rng[signed].get(x.id)
        if r is None:
            r = (-h, h - 1) if signed else (X.umin_(x, w), X.umax(x, w))
        if x.op == "add" and type(x.a[1]) is int:
            q = self.rng[signed].get(x.a[0].id)
            if q is not None:
                k = X.sg(x.a[1], w)
                lo, hi = q[0] + k, q[1] + k
                if (-h if signed else 0) <= lo and hi < (h if signed else 2 * h):
                    return max(lo, r[0]), min(hi, r[1])
        return r

    def by_range(self, c):
        """The truth of c as far as the ranges of terms settle it."""
        op = c.op
        if op == "slt" or op == "ult":
            signed = op == "slt"
            a, b = c.a
            w = b.w if type(a) is int else a.w
            la, ha = self.range_of(a, w, signed)
            lb, hb = self.range_of(b, w, signed)
            if ha < lb:
                return True
            if la >= hb:
                return False
            if type(a) is not int and type(b) is not int:
                x, j = (a.a[0], a.a[1]) if a.op == "add" and type(a.a[1]) is int else (a, 0)
                y, k = (b.a[0], b.a[1]) if b.op == "add" and type(b.a[1]) is int else (b, 0)
                if x is y:
                    lo, hi = self.range_of(x, w, signed)
                    j, k = X.sg(j, w), X.sg(k, w)
                    h = 1 << (w - 1)
                    if lo + min(j, k) >= (-h if signed else 0) and hi + max(j, k) < (h if signed else 2 * h):
                        return j < k
        elif op == "eq":
            a, b = c.a
            if type(b) is int:
                for signed in (0, 1):
                    lo, hi = self.range_of(a, a.w, signed)
                    if not lo <= (X.sg(b, a.w) if signed else b) <= hi:
                        return False
        elif op == "ext" and c.w == 1 and c.a[1] == c.a[0].w - 1:
            lo, hi = self.range_of(c.a[0], c.a[0].w, 1)
            if hi < 0:
                return True
            if lo >= 0:
                return False
        return None

    def narrow(self, x, w, signed, lo, hi):
        if type(x) is int:
            return
        a, b = self.range_of(x, w, signed)
        if lo > a or hi < b:
            d = self.rng[signed]
            if self.spec:
                self.kjournal.append((d, x.id, d.get(x.id)))
            d[x.id] = max(lo, a), min(hi, b)

    def learn(self, c, val):
        if self.spec:
            self.kjournal.append((self.known, c.id, self.known.get(c.id)))
        self.known[c.id] = val
        op = c.op
        if op == "slt" or op == "ult":
            signed = op == "slt"
            a, b = c.a
            w = b.w if type(a) is int else a.w
            la, ha = self.range_of(a, w, signed)
            lb, hb = self.range_of(b, w, signed)
            if val:  # a < b
                self.narrow(a, w, signed, la, hb - 1)
                self.narrow(b, w, signed, la + 1, hb)
            else:
                self.narrow(a, w, signed, lb, ha)
                self.narrow(b, w, signed, lb, ha)
        elif op == "eq" and val and type(c.a[1]) is int:
            w = c.a[0].w
            self.narrow(c.a[0], w, 0, c.a[1], c.a[1])
            self.narrow(c.a[0], w, 1, X.sg(c.a[1], w), X.sg(c.a[1], w))
        elif op == "eq" and type(c.a[1]) is int:
            w = c.a[0].w
            for signed, k in ((0, c.a[1]), (1, X.sg(c.a[1], w))):
                lo, hi = self.range_of(c.a[0], w, signed)
                if k == lo:
                    self.narrow(c.a[0], w, signed, lo + 1, hi)
                elif k == hi:
                    self.narrow(c.a[0], w, signed, lo, hi - 1)
        elif op == "ext" and c.w == 1 and c.a[1] == c.a[0].w - 1:
            h = 1 << (c.a[0].w - 1)
            if val:
                self.narrow(c.a[0], c.a[0].w, 1, -h, -1)
            else:
                self.narrow(c.a[0], c.a[0].w, 1, 0, h - 1)
        if c.op == "not":
            self.learn(c.a[0], not val)
        elif c.op == "and" and c.w == 1 and val:
            for x in c.a:
                if type(x) is not int:
                    self.learn(x, True)
        elif c.op == "or" and c.w == 1 and not val:
            for x in c.a:
                if type(x) is not int:
                    self.learn(x, False)

    def ev(self, c):
        return X.ev(c, self.model, self.memo)

    def set_model(self, m):
        self.model = m
        self.memo = {}

    def assume_true(self, c):
        self.cons.append(c)
        self.learn(c, True)

    def decide(self, c):
        if type(c) is int:
            return bool(c)
        k = self.holds(c)
        if k is not None:
            return k
        if self.ti < len(self.trace):
            kind, val = self.trace[self.ti]
            self.ti += 1
            if kind == "b":
                self.assume_true(c if val else X.not_(c))
            else:
                self.learn(c, val)
            return val
        self.stats["decisions"] += 1
        nc = X.not_(c)
        if self.model is None:
            m = self.query(1 and c)
            if m is None:
                self.trace.append(("f", False))
                self.ti += 1
                self.learn(c, False)
                return False
            self.set_model(m)
        cur = bool(self.ev(c))
        other = self.query(nc if cur else c)
        if other is None:
            self.trace.append(("f", cur))
            self.ti += 1
            self.learn(c, cur)
            return cur
        if self.spec:
            raise SpecAbort()
        # fork: continue with cur, queue the other side
        self.work.append((self.trace[:] + [("b", not cur)], other))
        self.trace.append(("b", cur))
        self.ti += 1
        self.assume_true(c if cur else nc)
        return cur

    # ------------------------------------------------------------ merging
    def branch(self, c, site, ins):
        """A two-way branch whose arms may be merged: the truth of c, or the
        tuple of the join's phi values if both arms have been executed."""
        k = self.holds(c)
        if k is not None:
            return k
        forks = self.forks
        if self.ti < len(self.trace):
            e = self.trace[self.ti]
            if e[0] == "m":
                self.ti += 1
                return self.merge(c, site, ins, None)
            if e[0] == "b":
                forks[site] = forks.get(site, 0) + 1
            return self.decide(c)
        if not self.spec and forks.get(site, 0) < MERGE_AFTER or self.nomerge.get(site, 0) > 3:
            r = self.decide(c)
            if self.trace[-1][0] == "b":
                forks[site] = forks.get(site, 0) + 1
            return r
        self.stats["decisions"] += 1
        nc = X.not_(c)
        if self.model is None:
            m = self.query(c)
            if m is None:
                self.trace.append(("f", False))
                self.ti += 1
                self.learn(c, False)
                return False
            self.set_model(m)
        cur = bool(self.ev(c))
        other = self.query(nc if cur else c)
        if other is None:
            self.trace.append(("f", cur))
            self.ti += 1
            self.learn(c, cur)
            return cur
        pos = self.ti
        nextid = self.nextid
        self.trace.append(("m", True))
        self.ti += 1
        try:
            r = self.merge(c, site, ins, (self.model, other) if cur else (other, self.model))
            self.stats["merged"] += 1
            return r
        except SpecAbort:
            del self.trace[pos:]
            self.ti = pos
            self.nextid = nextid
            self.nomerge[site] = self.nomerge.get(site, 0) + 1
            if self.spec:
                raise
        self.work.append((self.trace[:] + [("b", not cur)], other))
        self.trace.append(("b", cur))
        self.ti += 1
        self.assume_true(c if cur else nc)
        forks[site] = forks.get(site, 0) + 1
        return cur

    def merge(self, c, site, ins, models):
        """Execute both arms up to the join, each under its side of c, undo
        their effects, and make the two outcomes one, as functions of c."""
        arm = self.arms.get(site)
        if arm is None:
            src, types = self.mod.arms[site]
            ns = self.nss[site[0]]
            exec(compile(src, site[0], "exec"), ns)
            arm = self.arms[site] = (ns.pop("M"), types, self.nblk[site[0]])
        f, types, nb = arm
        saved = self.model, self.memo, self.log, self.kjournal
        ncons = len(self.cons)
        self.spec += 1
        outs = []
        try:
            for k, g in ((0, c), (1, X.not_(c))):
                self.log = []
                self.kjournal = []
                fx = self.fixed
                self.fixed = dict(fx)
                try:
                    self.cons.append(g)
                    self.learn(g, True)
                    if models is not None:
                        if models[k] is saved[0]:
                            self.model, self.memo = saved[:2]
                        else:
                            self.set_model(models[k])
                    r = f(nb + k, *ins)
                    eff = {}
                    for i, o, at, old in self.log:
                        if self.objs.get(i) is o:
                            ks = eff.setdefault(i, (o, {}))[1]
                            for x in range(at, at + len(old)):
                                ks[x] = o[x]
                    outs.append((r, eff))
                except (PathEnd, Incomplete):
                    raise SpecAbort()
                finally:
                    for i, o, at, old in reversed(self.log):
                        o[at:at + len(old)] = old
                    del self.cons[ncons:]
                    for d, i, v in reversed(self.kjournal):
                        if v is None:
                            d.pop(i, None)
                        else:
                            d[i] = v
                    self.fixed = fx
        finally:
            self.spec -= 1
            self.model, self.memo, self.log, self.kjournal = saved
        (ra, ea), (rb, eb) = outs
        res = tuple(self.mix(c, a, b, t) for a, b, t in zip(ra, rb, types))
        todo = []
        for i in sorted(set(ea) | set(eb)):
            o = (ea.get(i) or eb.get(i))[0]
            da = ea[i][1] if i in ea else {}
            db = eb[i][1] if i in eb else {}
            by = {}
            for x in set(da) | set(db):
                by.setdefault(x >> 3, []).append(x)
            for xs in by.values():
                xs.sort()
                while xs:
                    n = 1
                    while n < len(xs) and xs[n] == xs[0] + n:
                        n += 1
                    run, xs = xs[:n], xs[n:]
                    a = [da.get(x, o[x]) for x in run]
                    b = [db.get(x, o[x]) for x in run]
                    if all(p is q or p == q for p, q in zip(a, b)):
                        v = a
                    else:
                        v = self.mix_int(c, X.cat([(p, 8) for p in reversed(a)]), X.cat([(p, 8) for p in reversed(b)]), 8 * n)
                        v = [v >> 8 * k & 255 for k in range(n)] if type(v) is int else X.split(v, n)
                    todo.append((i, o, run[0], v))
        for i, o, at, v in todo:
            if self.spec:
                self.log.append((i, o, at, o[at:at + len(v)]))
            o[at:at + len(v)] = v
        return res

    def mix_int(self, c, a, b, w):
        if type(a) is int and type(b) is int and w == 64 and a >> 32 != b >> 32 and (a >> 32 in self.objs or b >> 32 in self.objs):
            # different objects
            raise SpecAbort()
        return X.ite_segs(c, a, b, w)

    def mix(self, c, a, b, ty):
        if a is b:
            return a
        k = ty[0]
        if k == "i":
            return self.mix_int(c, a, b, ty[1])
        if k == "ptr":
            return self.mix_int(c, a, b, 64)
        if k == "st":
            return tuple(self.mix(c, x, y, t) for x, y, t in zip(a, b, ty[1]))
        if a == b:
            return a
        raise SpecAbort()

    def get_model(self):
        if self.model is None:
            m = self.query(1)
            if m is None:
                raise Incomplete("path condition unsatisfiable")
            self.set_model(m)
        return self.model

    def values(self, e, w, limit, what):
        """All feasible values of e, each with a model."""
        vals = []
        c = 1
        m = self.model
        while True:
            if m is None:
                m = self.query(c)
            if m is None:
                break
            v = X.ev(e, m, {})
            vals.append((v, m))
            if len(vals) > limit:
                raise Incomplete("more than %d values for a %s" % (limit, what))
            c = X.and_(c, X.not_(X.eq(e, v, w)), 1)
            m = None
        return vals

    def conc(self, e, w, what="value"):
        """Fork until e has one value; complete, by enumeration of the feasible values."""
        if type(e) is int:
            return e
        k = self.fixed.get(e.id)
        if k is not None:
            return k
        if self.ti < len(self.trace):
            kind, v, forced = self.trace[self.ti]
            assert kind == "v"
            self.ti += 1
        else:
            self.stats["decisions"] += 1
            vals = self.values(e, w, 4096, what)
            if not vals:
                raise Incomplete("path condition unsatisfiable")
            forced = len(vals) == 1
            if self.spec and not forced:
                raise SpecAbort()
            for v, m in vals[:0:-1]:
                self.work.append((self.trace[:] + [("v", v, False)], m))
            v, m = vals[0]
            self.set_model(m)
            self.trace.append(("v", v, forced))
            self.ti += 1
        c = X.eq(e, v, w)
        if type(c) is not int:
            if forced:
                self.learn(c, True)
            else:
                self.assume_true(c)
        self.fixed[e.id] = v
        return v

    def choose(self, v, w, lo, hi):
        """Fork on each value lo..hi of the fresh variable v: all are feasible."""
        self.nospec()
        if self.ti < len(self.trace):
            kind, k, _ = self.trace[self.ti]
            assert kind == "v"
            self.ti += 1
        else:
            self.stats["decisions"] += 1
            m = dict(self.get_model())
            for k in range(hi, lo, -1):
                mk = dict(m)
                mk[v.a[0]] = k
                self.work.append((self.trace[:] + [("v", k, False)], mk))
            k = lo
            m[v.a[0]] = k
            self.set_model(m)
            self.trace.append(("v", k, False))
            self.ti += 1
        self.assume_true(X.eq(v, k, w))
        self.fixed[v.id] = k
        return k

    def get_model_sync(self):
        """A model of the current constraints (the cached one satisfies them)."""
        return self.get_model()

    # ------------------------------------------------------------ assertions
    def nospec(self):
        if self.spec:
            raise SpecAbort()

    def check(self, c, cid):
        self.nospec()
        self.stats["checks"] += 1
        self.checks_seen[cid] = self.checks_seen.get(cid, 0) + 1
        if type(c) is int:
            self.stats["checks_trivial"] += 1
            if c:
                return
            self.violation("check", cid, self.get_model())
            raise PathEnd("violation")
        k = self.holds(c)
        if k is True:
            self.stats["checks_trivial"] += 1
            return
        if self.ti < len(self.trace):
            # replayed prefix: already discharged on the sibling path
            kind, val = self.trace[self.ti]
            assert kind == "c"
            self.ti += 1
            self.assume_or_learn(c, val)
            return
        nc = X.not_(c)
        m = None
        if self.model is not None and not self.ev(c):
            m = self.model
        else:
            m = self.query(nc)
        if m is None:
            self.trace.append(("c", "L"))
            self.ti += 1
            self.learn(c, True)
            return
        self.violation("check", cid, m)
        # carry on with the values for which it holds
        ok = self.query(c)
        if ok is None:
            raise PathEnd("violation")
        self.trace.append(("c", "A"))
        self.ti += 1
        self.set_model(ok)
        self.assume_true(c)

    def assume_or_learn(self, c, how):
        if how == "A":
            self.assume_true(c)
        else:
            self.learn(c, True)

    def assume(self, c):
        self.nospec()
        if type(c) is int:
            if not c:
                raise PathEnd("assume")
            return
        k = self.holds(c)
        if k is not None:
            if not k:
                raise PathEnd("assume")
            return
        if self.ti < len(self.trace):
            kind, val = self.trace[self.ti]
            assert kind == "a"
            self.ti += 1
            self.assume_true(c)
            return
        if self.model is None or not self.ev(c):
            m = self.query(c)
            if m is None:
                raise PathEnd("assume")
            self.set_model(m)
        self.trace.append(("a", True))
        self.ti += 1
        self.assume_true(c)

    def violation(self, kind, what, model):
        self.violations.append(dict(kind=kind, what=what, inputs=self.inputs_of(model)))
        if len(self.violations) >= self.max_violations:
            raise PathEnd("stop")

    def inputs_of(self, model):
        memo = {}
        return [X.ev(v, model, memo) if type(v) is not int else v for v, w in self.inputs]

    # ------------------------------------------------------------ memory
    def _setup_ns(self):
        eng = self
        ns = self.ns
        for k in dir(X):
            if not k.startswith("__"):
                ns[k] = getattr(X, k)
        objs = {}
        self.objs = objs
        mod = self.mod
        from_bytes = int.from_bytes
        ext, cat, ite = X.ext, X.cat, X.ite
        SH = 32
        OFF = (1 << 32) - 1

        def fault(msg):
            eng.memfault(msg)

        def getobj(a):
            o = objs.get(a >> SH)
            if o is None:
                nm = mod.gnames.get(a >> SH)
                if nm is not None and nm in mod.globs:
                    cached = eng.gcache.get(nm)
                    if cached is None:
                        cached = mod.global_bytes(nm)
                        eng.gcache[nm] = cached
                    o = cached[0] if cached[1] else list(cached[0])
                    objs[a >> SH] = o
                    return o
                fault("access to address %#x outside every live allocation" % a)
            return o

        self.gcache = {}
        self.getobj = getobj

        def ld(a, n):
            if a.__class__ is not int:
                return ldsym(a, n)
            o = objs.get(a >> SH)
            if o is None:
                o = getobj(a)
            f = a & OFF
            if f + n > len(o):
                fault("read of %d bytes at offset %d of a %d-byte object" % (n, f, len(o)))
            try:
                return from_bytes(o[f:f + n], "little")
            except TypeError:
                return X.norm(cat([(b, 8) for b in reversed(o[f:f + n])]))

        def ldsym(a, n):
            # all feasible addresses, as an if-then-else over the loaded values
            if eng.ti < len(eng.trace) and eng.trace[eng.ti][0] == "l":
                vals = eng.trace[eng.ti][1]
                eng.ti += 1
            else:
                vals = [v for v, _ in eng.values(a, 64, 512, "load address")]
                vals.sort()
                eng.trace.append(("l", vals))
                eng.ti += 1
            # an out-of-bounds candidate must be reported with a model choosing it
            good = []
            for v in vals:
                o = objs.get(v >> SH)
                if o is None and mod.gnames.get(v >> SH) in mod.globs:
                    o = getobj(v)
                if o is None or (v & OFF) + n > len(o):
                    if eng.decide(X.eq(a, v, 64)):
                        return ld(v, n)
                else:
                    good.append(v)
            r = ld(good[-1], n)
            for v in good[:-1]:
                r = ite(X.eq(a, v, 64), ld(v, n), r, n * 8)
            return r

        def st(a, n, v):
            if a.__class__ is not int:
                if v.__class__ is int and v.to_bytes(n, "little") == bytes([v & 255]) * n:
                    # what is stored is already there, wherever it goes (or nothing is)
                    i = X.ev(a, eng.get_model(), {}) >> SH
                    o = objs.get(i)
                    if o is not None and n <= len(o):
                        b = v & 255
                        if all([x.__class__ is int and (x == b or x == 0xAA) for x in o]):
                            out = X.ult(len(o) - n, X.sub(a, i << SH, 64), 64)
                            if (out if out.__class__ is int else eng.query(out) is not None) == 0:
                                if eng.spec:
                                    eng.log.append((i, o, 0, o[:]))
                                o[:] = [b] * len(o)
                                return
                a = eng.conc(a, 64, "store address")
            o = objs.get(a >> SH)
            if o is None:
                o = getobj(a)
            f = a & OFF
            if eng.spec:
                eng.log.append((a >> SH, o, f, o[f:f + n]))
            if f + n > len(o):
                fault("write of %d bytes at offset %d of a %d-byte object" % (n, f, len(o)))
            if v.__class__ is int:
                o[f:f + n] = v.to_bytes(n, "little")
            else:
                o[f:f + n] = X.split(v, n)

        def upto(n, room, what):
            """The most bytes a symbolic length n can cover, no more than there is room for."""
            m = min(eng.range_of(n, 64, 0)[1], 1 << 40)
            if m > room:
                if eng.decide(X.ult(room, n, 64)):
                    fault("%s of more than the %d bytes there are" % (what, room))
                m = room
            return m

        def fill(i, do, df, m, n, new):
            """The first n of m bytes at df become those of new; n is symbolic."""
            old = do[df:df + m]
            if eng.spec:
                eng.log.append((i, do, df, list(old)))
            if all([x.__class__ is int and x == 0xAA for x in old]):
                # nothing was written there yet, so what follows the n bytes can be anything
                do[df:df + m] = new
                return
            for j in range(m):
                a, b = old[j], new[j]
                if a is not b and not (a.__class__ is int and b.__class__ is int and a == b):
                    old[j] = ite(X.ult(j, n, 64), b, a, 8)
            do[df:df + m] = old

        def memmove(d, s, n):
            if n.__class__ is not int:
                d = eng.conc(d, 64, "copy destination")
                s = eng.conc(s, 64, "copy source")
                if (eng.range_of(n, 64, 0)[0] == 0 and (s >> SH not in objs or d >> SH not in objs)
                        and eng.decide(X.eq(n, 0, 64))):
                    return
                so, do = objs.get(s >> SH) or getobj(s), objs.get(d >> SH) or getobj(d)
                sf, df = s & OFF, d & OFF
                m = upto(n, min(len(so) - sf, len(do) - df), "copy")
                if m <= 4096 or all([x.__class__ is int and x == 0xAA for x in do[df:df + m]]):
                    fill(d >> SH, do, df, m, n, so[sf:sf + m])
                    return
                n = eng.conc(n, 64, "copy length")
            if n == 0:
                return
            if d.__class__ is not int:
                d = eng.conc(d, 64, "copy destination")
            if s.__class__ is not int:
                s = eng.conc(s, 64, "copy source")
            so = objs.get(s >> SH) or getobj(s)
            do = objs.get(d >> SH) or getobj(d)
            sf, df = s & OFF, d & OFF
            if sf + n > len(so):
                fault("copy of %d bytes from offset %d of a %d-byte object" % (n, sf, len(so)))
            if df + n > len(do):
                fault("copy of %d bytes to offset %d of a %d-byte object" % (n, df, len(do)))
            if eng.spec:
                eng.log.append((d >> SH, do, df, do[df:df + n]))
            do[df:df + n] = so[sf:sf + n]

        def memset(d, v, n):
            if n.__class__ is not int:
                d = eng.conc(d, 64, "memset destination")
                if eng.range_of(n, 64, 0)[0] == 0 and d >> SH not in objs and eng.decide(X.eq(n, 0, 64)):
                    return
                do = objs.get(d >> SH) or getobj(d)
                df = d & OFF
                m = upto(n, len(do) - df, "memset")
                if m <= 4096 or all([x.__class__ is int and (x == 0xAA or x == v) for x in do[df:df + m]]):
                    fill(d >> SH, do, df, m, n, [v] * m)
                    return
                n = eng.conc(n, 64, "memset length")
            if n == 0:
                return
            if d.__class__ is not int:
                d = eng.conc(d, 64, "memset destination")
            do = objs.get(d >> SH) or getobj(d)
            df = d & OFF
            if df + n > len(do):
                fault("memset of %d bytes at offset %d of a %d-byte object" % (n, df, len(do)))
            if eng.spec:
                eng.log.append((d >> SH, do, df, do[df:df + n]))
            do[df:df + n] = [v] * n

        def alloca(sp, n):
            i = eng.nextid
            eng.nextid = i + 1
            objs[i] = [0xAA] * n
            sp.append(i)
            return i << SH

        def popstack(sp):
            for i in sp:
                objs.pop(i, None)

        def heap(n, zero=False):
            i = eng.nextid
            eng.nextid = i + 1
            objs[i] = [0 if zero else 0xAA] * n
            eng.live_heap[i] = n
            return i << SH

        def malloc(n, zero=False):
            eng.nospec()
            if n.__class__ is not int:
                eng.alloc_check(n)
                m = X.umax(n, 64)
                if m <= (1 << 20):
                    # one object of the largest size stands for all sizes
                    eng.alloc_total = X.add(eng.alloc_total, n, 64)
                    return heap(m, zero)
                n = eng.conc(n, 64, "allocation size")
            eng.alloc_check(n)
            eng.alloc_total = X.add(eng.alloc_total, n, 64)
            if n > (1 << 26):
                raise PathEnd("alloc", n)
            return heap(n, zero)

        def free(a):
            eng.nospec()
            a = eng.conc(a, 64) if a.__class__ is not int else a
            if a == 0:
                return
            i = a >> SH
            if a & OFF or i not in eng.live_heap:
                fault("free of %#x, which is not a live heap block" % a)
            del eng.live_heap[i]
            objs.pop(i, None)

        def realloc(a, n):
            a = eng.conc(a, 64) if a.__class__ is not int else a
            if a == 0:
                return malloc(n)
            b = malloc(n)
            n = len(objs[b >> SH])
            o = objs[a >> SH]
            k = min(len(o), n)
            objs[b >> SH][:k] = o[:k]
            free(a)
            return b

        def posix_memalign(pp, al, n):
            st(pp, 8, malloc(n))
            return 0

        def calloc(a, b):
            return malloc(X.mul(a, b, 64), True)

        def rd(a, n):
            """byte list"""
            if n == 0:
                return []
            o = objs.get(a >> SH) or getobj(a)
            f = a & OFF
            if f + n > len(o):
                fault("compare of %d bytes at offset %d of a %d-byte object" % (n, f, len(o)))
            return o[f:f + n]

        def bcmp(a, b, n):
            n = eng.conc(n, 64, "compare length")
            a = eng.conc(a, 64)
            b = eng.conc(b, 64)
            x, y = rd(a, n), rd(b, n)
            r = 1
            for p, q in zip(x, y):
                r = X.and_(r, X.eq(p, q, 8), 1)
            return X.zext(X.not_(r), 1, 32)

        def memcmp(a, b, n):
            n = eng.conc(n, 64, "compare length")
            a = eng.conc(a, 64)
            b = eng.conc(b, 64)
            x, y = rd(a, n), rd(b, n)
            r = 0
            for p, q in zip(reversed(x), reversed(y)):
                r = X.ite(X.eq(p, q, 8), r, X.ite(X.ult(p, q, 8), MASK[32], 1, 32), 32)
            return r

        def strlen(a):
            o = getobj(a)
            f = a & OFF
            return o.index(0, f) - f

        def switch(v, w, tab, default):
            by = {}
            for c, t in tab.items():
                by.setdefault(t, []).append(c)
            for t, cs in by.items():
                if t == default:
                    continue
                e = 0
                for c in cs:
                    e = X.or_(e, X.eq(v, c, w), 1)
                if eng.decide(e):
                    return t
            return default

        def callptr(a, *args):
            a = eng.conc(a, 64, "call target")
            nm = mod.fnames.get(a)
            if nm is None:
                fault("call of %#x, which is no function" % a)
            return fn(nm)(*args)

        def fn(nm):
            f = eng.hooks.get(nm)
            if f is None:
                if nm in mod.funcs:
                    return fun[nm]
                raise Incomplete("call of unmodelled external function " + nm)
            return f

        class Funs(dict):
            def __missing__(self, nm):
                h = eng.hook_for(nm)
                f = h if h is not None else eng.compile(nm)
                self[nm] = f
                return f

        fun = Funs()
        self.fun = fun

        def unsupported(msg):
            raise Incomplete("unsupported IR: " + msg)

        def unreachable():
            eng.memfault("unreachable code reached")

        def trap():
            raise PathEnd("panic", "abort")

        def insval(a, e, idx):
            l = list(a)
            l[idx[0]] = e if len(idx) == 1 else insval(l[idx[0]], e, idx[1:])
            return tuple(l)

        def cmpxchg(a, c, n, w):
            o = ld(a, w // 8)
            e = X.eq(o, c, w)
            if (e if e.__class__ is int else eng.decide(e)):
                st(a, w // 8, n)
                return (o, 1)
            return (o, 0)

        def same(v, w):
            return v

        def vmap2(f, a, b, w):
            return tuple(f(x, y, w) for x, y in zip(a, b))

        def vcast(f, a, w, w2):
            return tuple(f(x, w, w2) for x in a)

        holds = self.holds

        def cmp(f):
            # a comparison the path has settled is a constant
            def g(a, b, w):
                r = f(a, b, w)
                if r.__class__ is not int:
                    k = holds(r)
                    if k is not None:
                        return 1 if k else 0
                return r
            return g

        for p in "eq ne ult ule ugt uge slt sle sgt sge".split():
            ns[p + "_"] = cmp(getattr(X, p))

        def sel(c, a, b, w):
            if c.__class__ is int:
                return a if c else b
            k = self.holds(c)
            return ite(c, a, b, w) if k is None else a if k else b

        def vselect(c, a, b, w):
            return tuple(ite(x, y, z, w) for x, y, z in zip(c, a, b))

        def vpack(a, w):
            return cat([(x, w) for x in reversed(a)])

        def vunpack(x, n, w):
            return tuple(ext(x, i * w, w) for i in range(n))

        def vshuffle(a, b, mask):
            ab = tuple(a) + tuple(b)
            return tuple(ab[i] for i in mask)

        def vreduce(f, a, w):
            r = a[0]
            for x in a[1:]:
                r = f(r, x, w)
            return r

        def fop(op, a, b, w):
            import struct
            if a.__class__ is not int or b.__class__ is not int:
                raise Incomplete("floating point on symbolic values")
            fm = ("<f", "<I") if w == 32 else ("<d", "<Q")
            x = struct.unpack(fm[0], struct.pack(fm[1], a))[0]
            y = struct.unpack(fm[0], struct.pack(fm[1], b))[0]
            r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
            return struct.unpack(fm[1], struct.pack(fm[0], r))[0]

        def dz(f):
            def g(a, b, w):
                z = X.eq(b, 0, w)
                if (z if z.__class__ is int else eng.decide(z)):
                    eng.memfault("division by zero")
                return f(a, b, w)
            return g

        def fshl(a, b, c, w):
            if c.__class__ is int:
                c %= w
                return X.ext(cat(((a, w), (b, w))), w - c, w)
            raise Incomplete("funnel shift by a symbolic amount")

        def fshr(a, b, c, w):
            if c.__class__ is int:
                c %= w
                return X.ext(cat(((a, w), (b, w))), c, w)
            raise Incomplete("funnel shift by a symbolic amount")

        add, sub, mul, ult, slt = X.add, X.sub, X.mul, X.ult, X.slt

        def uadd_ov(a, b, w):
            r = add(a, b, w)
            if b.__class__ is int:
                return (r, ult(MASK[w] - b, a, w))
            if a.__class__ is int:
                return (r, ult(MASK[w] - a, b, w))
            if X.umax(a, w) + X.umax(b, w) <= MASK[w]:
                return (r, 0)
            return (r, ult(r, a, w))

        def usub_ov(a, b, w):
            return (sub(a, b, w), ult(a, b, w))

        def umul_ov(a, b, w):
            r = mul(a, b, w)
            if X.umax(a, w) * X.umax(b, w) <= MASK[w]:
                return (r, 0)
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                return (r, ult(MASK[w] // b, a, w) if b else 0)
            full = mul(X.zext(a, w, 2 * w), X.zext(b, w, 2 * w), 2 * w)
            return (r, X.ne(ext(full, w, w), 0, w))

        def sadd_ov(a, b, w):
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int and a.__class__ is not int:
                h = 1 << (w - 1)
                return (add(a, b, w), slt(h - 1 - b, a, w) if b < h else slt(a, (h - b) & MASK[w], w))
            f = add(X.sext(a, w, w + 1), X.sext(b, w, w + 1), w + 1)
            return (add(a, b, w), X.xor(ext(f, w, 1), ext(f, w - 1, 1), 1))

        def ssub_ov(a, b, w):
            if b.__class__ is int and a.__class__ is not int:
                # a - b < MIN, or a - b > MAX with b < 0
                h = 1 << (w - 1)
                return (sub(a, b, w), slt(a, (h + b) & MASK[w], w) if b < h else slt(X.add(h - 1, b, w), a, w))
            f = sub(X.sext(a, w, w + 1), X.sext(b, w, w + 1), w + 1)
            return (sub(a, b, w), X.xor(ext(f, w, 1), ext(f, w - 1, 1), 1))

        def smul_ov(a, b, w):
            f = mul(X.sext(a, w, 2 * w), X.sext(b, w, 2 * w), 2 * w)
            return (mul(a, b, w), X.ne(ext(f, w - 1, w + 1), X.sext(ext(f, w - 1, 1), 1, w + 1), w + 1))

        def uadd_sat(a, b, w):
            r, o = uadd_ov(a, b, w)
            return ite(o, MASK[w], r, w)

        def usub_sat(a, b, w):
            r, o = usub_ov(a, b, w)
            return ite(o, 0, r, w)

        def sadd_sat(a, b, w):
            r, o = sadd_ov(a, b, w)
            return ite(o, ite(ext(a, w - 1, 1), 1 << (w - 1), MASK[w - 1], w), r, w)

        def ssub_sat(a, b, w):
            r, o = ssub_ov(a, b, w)
            return ite(o, ite(ext(a, w - 1, 1), 1 << (w - 1), MASK[w - 1], w), r, w)

        def asm_stmt():
            pass

        def cov(i):
            pass

        ns.update(
            ld=ld, st=st, memmove=memmove, memset=memset, alloca=alloca, popstack=popstack, switch=switch,
            callptr=callptr, fn=fn, fun=fun, unsupported=unsupported, unreachable=unreachable, trap=trap,
            insval=insval, cmpxchg=cmpxchg, same=same, vmap2=vmap2, vcast=vcast, vselect=vselect, sel=sel, vpack=vpack,
            vunpack=vunpack, vshuffle=vshuffle, vreduce=vreduce, fop=fop, fshl=fshl, fshr=fshr, decide=self.decide,
            conc=self.conc, udiv_=dz(X.udiv), urem_=dz(X.urem), sdiv_=dz(X.sdiv), srem_=dz(X.srem),
            uadd_ov=uadd_ov, usub_ov=usub_ov, umul_ov=umul_ov, sadd_ov=sadd_ov, ssub_ov=ssub_ov, smul_ov=smul_ov,
            uadd_sat=uadd_sat, usub_sat=usub_sat, sadd_sat=sadd_sat, ssub_sat=ssub_sat, asm_stmt=asm_stmt,
        )

        # ---------------- externals
        def sym(w):
            def f():
                eng.nospec()
                v = X.var("x%d_%d" % (len(eng.inputs), w), w)
                eng.inputs.append((v, w))
                return v
            return f

        def sym_choice(lo, hi):
            eng.nospec()
            # a value in lo..=hi that the path holds concretely
            v = X.var("x%d_%d" % (len(eng.inputs), 32), 32)
            eng.inputs.append((v, 32))
            return eng.choose(v, 32, eng.conc(lo, 32), eng.conc(hi, 32))

        def sym_assume(c):
            eng.assume(c)

        def sym_check(c, i):
            eng.check(c, i)

        def sym_cover(i):
            eng.nospec()
            eng.path_covers.add(i)

        def sym_observe(v):
            eng.nospec()
            eng.observed.append(v)

        def sym_concrete(v):
            return eng.conc(v, 64)

        def noreturn():
            raise SpecAbort()

        ns.update(noreturn=noreturn, branch=self.branch)

        def alloc_limit(n):
            eng.nospec()
            eng.alloc_max = n
            eng.alloc_total = 0

        def alloc_total():
            return eng.alloc_total

        def errno():
            i = objs.get(7)
            if i is None:
                objs[7] = [0] * 16
            return 7 << SH

        def absent(*a):
            raise Incomplete("call of an unmodelled operating-system function")

        def getenv(a):
            return 0

        self.hooks = dict(
            malloc=malloc, calloc=calloc, realloc=realloc, free=free, posix_memalign=posix_memalign,
            bcmp=bcmp, memcmp=memcmp, strlen=strlen, sym_u8=sym(8), sym_u16=sym(16), sym_u32=sym(32),
            sym_u64=sym(64), sym_choice=sym_choice, sym_assume=sym_assume, sym_check=sym_check,
            sym_cover=sym_cover, sym_observe=sym_observe, sym_concrete=sym_concrete,
            sym_alloc_limit=alloc_limit, sym_thorough=lambda: eng.thorough, sym_alloc_total=alloc_total, abort=trap, __errno_location=errno,
            getenv=getenv, memcpy=lambda d, s, n: (memmove(d, s, n), d)[1],
        )
        self.ldf, self.stf = ld, st

    def alloc_check(self, n):
        if self.alloc_max is None:
            return
        self.check(X.ule(n, self.alloc_max, 64), 9000)

    def memfault(self, msg):
        raise PathEnd("fault", msg)

    # ------------------------------------------------------------ functions
    def hook_for(self, nm):
        """Replacements for defined functions: panics and formatting."""
        if "core9panicking" in nm and ("9panic_fmt" in nm or "18panic_nounwind_fmt" in nm):
            def p(*a):
                raise PathEnd("panic", nm)
            return p
        if any(x in nm for x in ("17rust_begin_unwind", "9panicking11begin_panic", "15panic_with_hook",
                                 "20rust_panic_with_hook", "11resume_unwind")):
            def p(*a):
                raise PathEnd("panic", nm)
            return p
        if "alloc3fmt6format12format_inner" in nm:
            return lambda out, *a: self.fun["stub_empty_string"](out)
        if "5alloc18handle_alloc_error" in nm or "8alloc_errorNt" in nm:
            def p(*a):
                raise PathEnd("panic", nm)
            return p
        return None

    def compile(self, nm):
        src, dbg = self.mod.compile(nm)
        fid = len(self.dbg)
        self.dbg[fid] = (nm, dbg)
        seen = self.cov

        base = fid << 20

        def cov(i):
            seen.add(base | i)

        ns = dict(self.ns)
        ns["cov"] = cov
        if os.environ.get("LLSYM_SRC"):
            print(nm)
            print(src)
        exec(compile(src, nm, "exec"), ns)
        self.nss[nm] = ns
        self.nblk[nm] = len(dbg)
        return ns["F"]

    # ------------------------------------------------------------ runs
    def run_path(self, entry, trace, model):
        self.trace = trace
        self.ti = 0
        self.cons = []
        self.known = {}
        self.rng = ({}, {})
        self.fixed = {}
        self.forks = {}
        self.spec = 0
        self.log = self.kjournal = None
        self.model = model
        self.memo = {}
        self.inputs = []
        self.objs.clear()
        self.nextid = 1 << 24
        self.live_heap = {}
        self.alloc_total = 0
        self.alloc_max = None
        self.path_covers = set()
        self.observed = []
        try:
            self.fun[entry]()
            return "done", None
        except PathEnd as e:
            if e.kind in ("panic", "fault"):
                tb = sys.exc_info()[2]
                names = []
                while tb is not None:
                    f = tb.tb_frame.f_code
                    if f.co_name == "F":
                        names.append(f.co_filename)
                    tb = tb.tb_next
                e.info = (e.info, names)
            return e.kind, e.info

    def explore(self, entry, work=None, deadline=None, max_violations=1, on_path=None):
        """Explore the paths below the given work items (the whole tree by
        default).  What the deadline leaves unexplored stays in self.work."""
        self.max_violations = max_violations
        self.violations = []
        self.checks_seen = {}
        self.covers = {}
        self.reset_solver()
        self.work = [([], None)] if work is None else list(work)
        st = self.stats
        ends = {}
        self.ends = ends
        while self.work:
            if deadline is not None and time.time() > deadline:
                break
            trace, model = self.work.pop()
            kind, info = self.run_path(entry, trace, model)
            ends[kind] = ends.get(kind, 0) + 1
            if kind == "assume":
                st["infeasible"] += 1
                continue
            st["paths"] += 1
            for c in self.path_covers:
                self.covers[c] = self.covers.get(c, 0) + 1
            if kind == "panic":
                st["panics"] += 1
                self.violations.append(dict(kind="panic", what=info[1][-6:], inputs=self.inputs_of(self.get_model())))
            elif kind == "fault":
                self.violations.append(
                    dict(kind="fault", what=[info[0]] + info[1][-6:], inputs=self.inputs_of(self.get_model())))
            elif kind == "alloc":
                self.violations.append(dict(kind="alloc", what=info, inputs=self.inputs_of(self.get_model())))
            elif kind == "done" and on_path is not None:
                m = self.get_model()
                memo = {}
                on_path(self.inputs_of(m), [X.ev(v, m, memo) for v in self.observed])
            if len(self.violations) >= max_violations:
                break
        return self.violations

    def covered_subprograms(self, want):
        """Names of the source functions (inlined ones included) whose code was
        symbolically executed; `want` filters on the file name."""
        md = self.mod.md
        import re
        res = set()
        memo = {}

        def scope_of(x):
            # walk lexical blocks up to the subprogram
            n = 0
            while x is not None and n < 60:
                s = md.get(x, "")
                if s.startswith("distinct !DISubprogram") or s.startswith("!DISubprogram"):
                    return x
                m = re.search(r"scope: (!\d+)", s)
                x = m.group(1) if m else None
                n += 1
            return None

        def walk(d):
            while d is not None and d not in memo:
                memo[d] = True
                s = md.get(d, "")
                m = re.search(r"scope: (!\d+)", s)
                if m:
                    sp = scope_of(m.group(1))
                    if sp:
                        res.add(sp)
                m = re.search(r"inlinedAt: (!\d+)", s)
                d = m.group(1) if m else None

        for fid, (nm, dbg) in self.dbg.items():
            for i, ds in enumerate(dbg):
                if (fid << 20 | i) in self.cov:
                    for d in ds:
                        walk(d)
        out = set()
        for sp in res:
            s = md[sp]
            m = re.search(r"file: (!\d+)", s)
            fn = ""
            if m:
                mm = re.search(r'filename: "([^"]*)"', md.get(m.group(1), ""))
                md_dir = re.search(r'directory: "([^"]*)"', md.get(m.group(1), ""))
                fn = (mm.group(1) if mm else "")
                if md_dir and not fn.startswith("/"):
                    fn = md_dir.group(1) + "/" + fn
            nm = re.search(r'name: "([^"]*)"', s)
            ln = re.search(r'linkageName: "([^"]*)"', s)
            if want(fn):
                out.add((fn, nm.group(1) if nm else "?", ln.group(1) if ln else ""))
        return out
