"""Finite-model search by grounding to SAT (the system's libpicosat, through ctypes), and z3 entailment.

Oracles only: nothing here comes from the code under test.
"""
import ctypes
import itertools

from . import fol

_lib = None


def _pico():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL("libpicosat.so.1")
        _lib.picosat_init.restype = ctypes.c_void_p
        for f, a in (("picosat_reset", [ctypes.c_void_p]), ("picosat_add", [ctypes.c_void_p, ctypes.c_int]),
                     ("picosat_assume", [ctypes.c_void_p, ctypes.c_int]),
                     ("picosat_sat", [ctypes.c_void_p, ctypes.c_int]),
                     ("picosat_set_propagation_limit", [ctypes.c_void_p, ctypes.c_ulonglong]),
                     ("picosat_deref", [ctypes.c_void_p, ctypes.c_int])):
            getattr(_lib, f).argtypes = a
    return _lib


class TooBig(Exception):
    pass


class Ground:
    """Incremental finite-domain encoding: domain size n, formulas asserted or named by a literal."""

    def __init__(self, n, limit=400000):
        self.n = n
        self.lib = _pico()
        self.s = self.lib.picosat_init()
        self.nv = 0
        self.size = 0
        self.work = 0
        self.limit = limit
        self.I = None
        self.memo = {}
        self.ftab = {}
        self.ptab = {}
        self.T = self.new()
        self.add(self.T)
        self.D = [tuple(self.T if i == d else -self.T for i in range(n)) for d in range(n)]

    def close(self):
        if self.s:
            self.lib.picosat_reset(self.s)
            self.s = None

    __del__ = close

    def new(self):
        self.nv += 1
        return self.nv

    def add(self, *lits):
        self.size += len(lits) + 1
        if self.size > self.limit:
            raise TooBig()
        a = self.lib.picosat_add
        s = self.s
        for l in lits:
            a(s, l)
        a(s, 0)

    def func(self, f, k):
        """Table: args tuple -> tuple of n literals (one-hot)."""
        t = self.ftab.get((f, k))
        if t is None:
            t = {}
            if self.I is not None and f in self.I.f and len(self.I.f[f]) == self.n ** k:
                for args in itertools.product(range(self.n), repeat=k):
                    t[args] = self.D[self.I.f[f][sum(a * self.n ** j for j, a in enumerate(args))]]
                self.ftab[(f, k)] = t
                return t
            for args in itertools.product(range(self.n), repeat=k):
                lits = tuple(self.new() for _ in range(self.n)) if self.n > 1 else (self.T,)
                if self.n > 1:
                    self.add(*lits)
                    for a, b in itertools.combinations(lits, 2):
                        self.add(-a, -b)
                t[args] = lits
            self.ftab[(f, k)] = t
        return t

    def pred(self, p, k):
        t = self.ptab.get((p, k))
        if t is None:
            if self.I is not None and p in self.I.p and len(self.I.p[p]) == self.n ** k:
                t = {}
                for args in itertools.product(range(self.n), repeat=k):
                    t[args] = self.T if self.I.p[p][sum(a * self.n ** j for j, a in enumerate(args))] else -self.T
                self.ptab[(p, k)] = t
                return t
            t = {args: self.new() for args in itertools.product(range(self.n), repeat=k)}
            self.ptab[(p, k)] = t
        return t

    def term(self, t, env):
        """One-hot literals of a term's value."""
        if fol.isvar(t):
            return self.D[env[t]]
        args = tuple(self.term(a, env) for a in t[1:])
        tab = self.func(t[0], len(args))
        consts = self._consts(args)
        if consts is not None:
            return tab[consts]
        key = (t[0], args)
        r = self.memo.get(key)
        if r is None:
            r = tuple(self.new() for _ in range(self.n))
            self.add(*r)
            for a, b in itertools.combinations(r, 2):
                self.add(-a, -b)
            for combo in itertools.product(range(self.n), repeat=len(args)):
                pre = self._pre(args, combo)
                if pre is None:
                    continue
                for d in range(self.n):
                    self.add(*(pre + (-tab[combo][d], r[d])))
            self.memo[key] = r
        return r

    def _consts(self, args):
        out = []
        for a in args:
            for d in range(self.n):
                if a is self.D[d] or a[d] == self.T:
                    out.append(d)
                    break
            else:
                return None
        return tuple(out)

    def _pre(self, args, combo):
        """Negated literals of (arg_i = combo_i), None if trivially false."""
        pre = ()
        for a, d in zip(args, combo):
            l = a[d]
            if l == -self.T:
                return None
            if l != self.T:
                pre += (-l,)
        return pre

    def atom(self, a, env):
        if a[0] == "=":
            x, y = self.term(a[1], env), self.term(a[2], env)
            if x == y:
                return self.T
            c = self._consts((x,))
            if c:
                return y[c[0]]
            c = self._consts((y,))
            if c:
                return x[c[0]]
            key = ("=",) + tuple(sorted((x, y)))
            r = self.memo.get(key)
            if r is None:
                r = self.new()
                for d in range(self.n):
                    self.add(-r, -x[d], y[d])
                    self.add(r, -x[d], -y[d])
                self.memo[key] = r
            return r
        if a[0] == "$true":
            return self.T
        args = tuple(self.term(t, env) for t in a[2:])
        tab = self.pred(a[1], len(args))
        c = self._consts(args)
        if c is not None:
            return tab[c]
        key = ("@" + a[1], args)
        r = self.memo.get(key)
        if r is None:
            r = self.new()
            for combo in itertools.product(range(self.n), repeat=len(args)):
                pre = self._pre(args, combo)
                if pre is None:
                    continue
                self.add(*(pre + (-tab[combo], r)))
                self.add(*(pre + (tab[combo], -r)))
            self.memo[key] = r
        return r

    def _and(self, ls):
        ls = sorted(set(l for l in ls if l != self.T))
        if -self.T in ls:
            return -self.T
        if not ls:
            return self.T
        if len(ls) == 1:
            return ls[0]
        key = ("&", tuple(ls))
        r = self.memo.get(key)
        if r is None:
            r = self.new()
            for l in ls:
                self.add(-r, l)
            self.add(*([r] + [-l for l in ls]))
            self.memo[key] = r
        return r

    def _iff(self, a, b):
        if a == self.T:
            return b
        if b == self.T:
            return a
        if a == -self.T:
            return -b
        if b == -self.T:
            return -a
        if abs(a) > abs(b):
            a, b = b, a
        key = ("<=>", a, b)
        r = self.memo.get(key)
        if r is None:
            r = self.new()
            self.add(-r, -a, b)
            self.add(-r, a, -b)
            self.add(r, a, b)
            self.add(r, -a, -b)
            self.memo[key] = r
        return r

    def lit(self, f, env):
        o = f[0]
        self.work += 1
        if self.work > self.limit:
            raise TooBig()
        if o in ("=", "@"):
            return self.atom(f, env)
        if o == "~":
            return -self.lit(f[1], env)
        if o == "&":
            return self._and([self.lit(g, env) for g in f[1:]])
        if o == "|":
            return -self._and([-self.lit(g, env) for g in f[1:]])
        if o == "=>":
            return -self._and([self.lit(f[1], env), -self.lit(f[2], env)])
        if o == "<=":
            return -self._and([self.lit(f[2], env), -self.lit(f[1], env)])
        if o == "<=>":
            return self._iff(self.lit(f[1], env), self.lit(f[2], env))
        if o == "<~>":
            return -self._iff(self.lit(f[1], env), self.lit(f[2], env))
        if o == "~|":
            return self._and([-self.lit(f[1], env), -self.lit(f[2], env)])
        if o == "~&":
            return -self._and([self.lit(f[1], env), self.lit(f[2], env)])
        if o == "$true":
            return self.T
        if o == "$false":
            return -self.T
        e2 = dict(env)
        ls = []
        for vals in itertools.product(range(self.n), repeat=len(f[1])):
            for v, d in zip(f[1], vals):
                e2[v] = d
            l = self.lit(f[2], e2)
            ls.append(l if o == "!" else -l)
        r = self._and(ls)
        return r if o == "!" else -r

    def assert_f(self, f):
        """Asserts the universal closure of f."""
        vs = fol.freevars(f)
        for vals in itertools.product(range(self.n), repeat=len(vs)):
            env = dict(zip(vs, vals))
            self._assert(f, env)

    def _assert(self, f, env):
        o = f[0]
        if o == "&":
            for g in f[1:]:
                self._assert(g, env)
        elif o == "!":
            e2 = dict(env)
            for vals in itertools.product(range(self.n), repeat=len(f[1])):
                for v, d in zip(f[1], vals):
                    e2[v] = d
                self._assert(f[2], e2)
        elif o == "|":
            ls = [self.lit(g, env) for g in f[1:]]
            if self.T not in ls:
                self.add(*[l for l in ls if l != -self.T])
        else:
            self.add(self.lit(f, env))

    def assert_clause(self, c):
        vs = fol.cvars(c)
        for vals in itertools.product(range(self.n), repeat=len(vs)):
            env = dict(zip(vs, vals))
            self.work += len(c) + 1
            if self.work > self.limit:
                raise TooBig()
            ls = [self.atom(a, env) if s else -self.atom(a, env) for s, a in c]
            if self.T not in ls:
                self.add(*[l for l in ls if l != -self.T])

    def name(self, f):
        """A literal equivalent to the closed formula f."""
        return self.lit(fol.close(f), {})

    def fixed(self, I):
        """The symbols of I are interpreted as in I (call before any formula mentions them)."""
        self.I = I

    def solve(self, *assume):
        """True / False / None."""
        for l in assume:
            self.lib.picosat_assume(self.s, l)
        self.lib.picosat_set_propagation_limit(self.s, 1500000)
        r = self.lib.picosat_sat(self.s, -1)
        return {10: True, 20: False}.get(r)

    def model(self):
        d = self.lib.picosat_deref
        I = fol.Interp(self.n, {}, {})
        for (f, k), t in self.ftab.items():
            tab = [0] * self.n ** k
            for args, lits in t.items():
                tab[sum(a * self.n ** j for j, a in enumerate(args))] = next((i for i, l in enumerate(lits) if d(self.s, l) == 1), 0)
            I.f[f] = tab
        for (p, k), t in self.ptab.items():
            tab = [0] * self.n ** k
            for args, l in t.items():
                tab[sum(a * self.n ** j for j, a in enumerate(args))] = 1 if d(self.s, l) == 1 else 0
            I.p[p] = tab
        return I


def find_model(formulas, sizes=(1, 2, 3), clauses=(), limit=400000):
    """An interpretation satisfying all formulas (closed under !) and clauses, or None."""
    for n in sizes:
        g = Ground(n, limit)
        try:
            for f in formulas:
                g.assert_f(f)
            for c in clauses:
                g.assert_clause(c)
            if g.solve():
                return g.model()
        except TooBig:
            return None
        finally:
            g.close()
    return None


# ------------------------------------------------------------------ z3

_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


class Z3:
    """Translates formulas over one uninterpreted sort."""

    def __init__(self):
        z = z3mod()
        self.z = z
        self.U = z.DeclareSort("U")
        self.decl = {}

    def fn(self, f, k, pred):
        key = (f, k, pred)
        d = self.decl.get(key)
        if d is None:
            z = self.z
            d = z.Function(("p_" if pred else "f_") + f + "_%d" % k, *([self.U] * k + [z.BoolSort() if pred else self.U]))
            self.decl[key] = d
        return d

    def term(self, t, env):
        if fol.isvar(t):
            return env[t]
        return self.fn(t[0], len(t) - 1, False)(*[self.term(a, env) for a in t[1:]])

    def f(self, f, env=None):
        env = env or {}
        z = self.z
        o = f[0]
        if o == "=":
            return self.term(f[1], env) == self.term(f[2], env)
        if o == "@":
            return self.fn(f[1], len(f) - 2, True)(*[self.term(a, env) for a in f[2:]])
        if o == "~":
            return z.Not(self.f(f[1], env))
        if o == "&":
            return z.And([self.f(g, env) for g in f[1:]])
        if o == "|":
            return z.Or([self.f(g, env) for g in f[1:]])
        if o == "=>":
            return z.Implies(self.f(f[1], env), self.f(f[2], env))
        if o == "<=":
            return z.Implies(self.f(f[2], env), self.f(f[1], env))
        if o == "<=>":
            return self.f(f[1], env) == self.f(f[2], env)
        if o == "<~>":
            return self.f(f[1], env) != self.f(f[2], env)
        if o == "~|":
            return z.Not(z.Or(self.f(f[1], env), self.f(f[2], env)))
        if o == "~&":
            return z.Not(z.And(self.f(f[1], env), self.f(f[2], env)))
        if o == "$true":
            return z.BoolVal(True)
        if o == "$false":
            return z.BoolVal(False)
        e2 = dict(env)
        vs = []
        for v in f[1]:
            c = z.Const("%s_%d" % (v, len(e2)), self.U)
            e2[v] = c
            vs.append(c)
        b = self.f(f[2], e2)
        return z.ForAll(vs, b) if o == "!" else z.Exists(vs, b)


def z3_check(formulas, rlimit=2000000):
    """'sat' / 'unsat' / 'unknown' of the closed formulas; deterministic resource limit."""
    t = Z3()
    z = t.z
    s = z.Solver()
    s.set("rlimit", rlimit)
    s.set("random_seed", 7)
    for f in formulas:
        s.add(t.f(fol.close(f)))
    try:
        return str(s.check())
    except z.Z3Exception:
        return "unknown"


def z3_entails(premises, concl, rlimit=1500000):
    """True / False / None."""
    r = z3_check(list(premises) + [("~", fol.close(concl))], rlimit)
    return {"unsat": True, "sat": False}.get(r)


def refute_entailment(premises, concl, sizes=(1, 2, 3), limit=150000):
    """A finite interpretation with all premises true and the conclusion false, or None."""
    return find_model(list(premises) + [("~", fol.close(concl))], sizes, limit=limit)


def herbrand_unsat(clauses, depth=2, maxterms=14, maxinst=3000):
    """True if ground instances of equality-free clauses over small terms are unsatisfiable (so the clauses are);
    False shows nothing, except for sets without proper functions whose instances were all used."""
    fs = {}
    for c in clauses:
        fol.csyms(c, fs, {})
    terms = [(f,) for f, k in sorted(fs.items()) if k == 0] or [("cc_",)]
    for _ in range(depth):
        new = list(terms)
        for f, k in sorted(fs.items()):
            if k:
                for args in itertools.product(terms, repeat=k):
                    x = (f,) + args
                    if x not in new:
                        new.append(x)
                    if len(new) >= maxterms:
                        break
        terms = new[:maxterms]
    lib = _pico()
    s = lib.picosat_init()
    try:
        atoms = {}
        for c in clauses:
            vs = sorted(fol.cvars(c))
            if len(terms) ** len(vs) > maxinst:
                continue
            for combo in itertools.product(terms, repeat=len(vs)):
                for sg, a in fol.csubst(c, dict(zip(vs, combo))):
                    if a == ("$true",) or a == ("$false",):
                        return None
                    v = atoms.setdefault(a, len(atoms) + 1)
                    lib.picosat_add(s, v if sg else -v)
                lib.picosat_add(s, 0)
        lib.picosat_set_propagation_limit(s, 1500000)
        return lib.picosat_sat(s, -1) == 20
    finally:
        lib.picosat_reset(s)
