"""Generators of signatures, interpretations, clauses, formulas and problems (all choices from a Tape)."""
import itertools

from . import fol
from .fol import Interp

VARS = ["X", "Y", "Z", "U", "V", "W"]


class Sig:
    __slots__ = ("f", "p", "eq")

    def __init__(self, f, p, eq=True):
        self.f, self.p, self.eq = f, p, eq      # name -> arity

    def consts(self):
        return [f for f, k in self.f.items() if k == 0]


FNAMES = {0: ["a", "b", "c", "d"], 1: ["f", "g", "h"], 2: ["m", "k"], 3: ["t"]}
PNAMES = {0: ["r", "s"], 1: ["p", "q"], 2: ["e", "l"], 3: ["w"]}


def signature(t, kind="full"):
    f, p = {}, {}
    for n in FNAMES[0][:t.rand(1, 4 if kind in ("epr",) else 3)]:
        f[n] = 0
    if kind not in ("epr", "prop"):
        for n in FNAMES[1][:t.weighted([(2, 1), (2, 0), (2, 2), (1, 3)])]:
            f[n] = 1
        for n in FNAMES[2][:t.weighted([(2, 0), (3, 1), (1, 2)])]:
            f[n] = 2
        if t.chance(1, 8):
            f["t"] = 3
    eq = kind in ("full", "ueq", "eq", "epr") and (kind in ("ueq", "eq") or not t.chance(1, 4))
    if kind != "ueq" and kind != "eq":
        for k, mx in ((0, 2), (1, 2), (2, 2), (3, 1)):
            if kind == "prop" and k > 0:
                break
            lo = 0
            hi = mx if k != 3 else (1 if t.chance(1, 5) else 0)
            for n in PNAMES[k][:t.rand(lo, hi)]:
                p[n] = k
        if kind == "prop":
            for n in ["r", "s", "p0", "q0", "u0", "v0"][:t.rand(2, 6)]:
                p[n] = 0
        if not p and not eq:
            p["p"] = 1
    return Sig(f, p, eq)


def interp(t, sig, n):
    """A random interpretation; table entries biased towards structured functions."""
    I = Interp(n, {}, {})
    for f, k in sig.f.items():
        style = t.below(8)
        size = n ** k
        if k == 1 and style == 1:
            I.f[f] = list(range(n))
        elif k == 2 and style in (1, 2):
            op = t.below(4)
            fn = [lambda x, y: (x + y) % n, lambda x, y: min(x, y), lambda x, y: max(x, y), lambda x, y: x][op]
            I.f[f] = [fn(i % n, i // n) for i in range(size)]
        else:
            I.f[f] = [t.below(n) for _ in range(size)]
    for p, k in sig.p.items():
        I.p[p] = [t.below(2) for _ in range(n ** k)]
    return I


def term(t, sig, vs, depth):
    """vs: usable variables (may be empty if there are constants)."""
    consts = sig.consts()
    fns = [(f, k) for f, k in sig.f.items() if k > 0]
    if depth > 0 and fns and t.chance(3, 5):
        f, k = t.choice(fns)
        return (f,) + tuple(term(t, sig, vs, depth - 1) for _ in range(k))
    if vs and (not consts or t.chance(3, 5)):
        return t.choice(vs)
    return (t.choice(consts),)


def atom(t, sig, vs, depth):
    if sig.p and not (sig.eq and t.chance(1, 2)):
        p = t.choice(list(sig.p))
        return ("@", p) + tuple(term(t, sig, vs, depth) for _ in range(sig.p[p]))
    if not sig.eq:
        p = t.choice(list(sig.p))
        return ("@", p) + tuple(term(t, sig, vs, depth) for _ in range(sig.p[p]))
    l = term(t, sig, vs, depth)
    return ("=", l, term(t, sig, vs, depth))


def clause(t, sig, maxlits=4, maxvars=3, depth=2, horn=False, unit=False):
    vs = VARS[:t.rand(0, maxvars)]
    n = 1 if unit else t.weighted([(3, 1), (5, 2), (4, 3), (2, 4)][:maxlits])
    lits = []
    pos = 0
    for _ in range(n):
        a = atom(t, sig, vs, depth)
        s = not t.chance(1, 2)
        if horn and s:
            if pos:
                s = False
            pos = 1
        lits.append((s, a))
    return tuple(lits)


def formula(t, sig, depth=3, vs=(), nest=0, fresh=None, tdepth=2):
    """A closed formula if vs is empty."""
    fresh = fresh if fresh is not None else [0]
    if depth == 0 or (vs and t.chance(1, 6)):
        if t.chance(1, 24):
            return t.choice([("$true",), ("$false",)])
        return atom(t, sig, list(vs), tdepth)
    c = t.below(12)
    sub = lambda v=vs, d=depth - 1: formula(t, sig, d, v, nest, fresh, tdepth)
    if c <= 3:
        k = t.weighted([(5, 1), (3, 2), (1, 3)])
        if len(vs) + k > 5:
            k = 1
        names = []
        for _ in range(k):
            if vs and t.chance(1, 8):
                names.append(t.choice(list(vs)))        # shadowing
            else:
                fresh[0] += 1
                names.append("%s%d" % (t.choice(["X", "Y", "Z"]), fresh[0]))
        names = list(dict.fromkeys(names))
        v2 = tuple(v for v in vs if v not in names) + tuple(names)
        if len(v2) > 5:
            return atom(t, sig, list(vs), tdepth)
        return (("!", "?")[t.below(2)], tuple(names), sub(v2))
    if c <= 5:
        return ("&",) + tuple(sub() for _ in range(t.rand(2, 3)))
    if c <= 7:
        return ("|",) + tuple(sub() for _ in range(t.rand(2, 3)))
    if c == 8:
        return ("~", sub())
    if c == 9:
        return ("=>", sub(), sub())
    if c == 10:
        return ("<=>", sub(), sub())
    return (t.choice(["<~>", "<=", "~|", "~&", "<=>"]), sub(), sub())


def quantifier_cost(f, n, mult=1):
    o = f[0]
    if o in ("=", "@", "$true", "$false"):
        return mult
    if o in ("!", "?"):
        return quantifier_cost(f[2], n, mult * n ** len(f[1]))
    return sum(quantifier_cost(g, n, mult) for g in f[1:])


def make_true(t, I, c, sig, tries=5):
    """Changes clause c until it holds in I; None if that fails."""
    for _ in range(tries):
        if I.ev_clause(c):
            return c
        k = t.below(4)
        if k <= 1:
            i = t.below(len(c))
            c = c[:i] + ((not c[i][0], c[i][1]),) + c[i + 1:]
        elif k == 2 and len(c) < 5:
            c = c + ((t.chance(1, 2), atom(t, sig, fol.cvars(c), 1)),)
        else:
            vs = fol.cvars(c)
            consts = sig.consts()
            if vs and consts:
                c = fol.csubst(c, {t.choice(vs): (t.choice(consts),)})
    return c if I.ev_clause(c) else None


# axiom schemes over a binary function / relation, kept only if true in the chosen interpretation
def schemes(sig):
    out = []
    V = ("X", "Y", "Z")
    X, Y, Z = V
    bins = [f for f, k in sig.f.items() if k == 2]
    uns = [f for f, k in sig.f.items() if k == 1]
    cs = sig.consts()
    eq = lambda a, b: ((True, ("=", a, b)),)
    for m in bins:
        M = lambda a, b, m=m: (m, a, b)
        out += [eq(M(X, Y), M(Y, X)), eq(M(M(X, Y), Z), M(X, M(Y, Z))), eq(M(X, X), X),
                eq(M(X, M(Y, Z)), M(Y, M(X, Z)))]
        for c in cs:
            out += [eq(M(X, (c,)), X), eq(M((c,), X), X), eq(M(X, (c,)), (c,))]
            for i in uns:
                out += [eq(M(X, (i, X)), (c,)), eq(M((i, X), X), (c,))]
        for i in uns:
            out += [eq((i, M(X, Y)), M((i, X), (i, Y))), eq((i, M(X, Y)), M((i, Y), (i, X)))]
            out.append(((False, ("=", M(X, Y), M(X, Z))), (True, ("=", Y, Z))))
        for k in bins:
            if k != m:
                out.append(eq(M(X, (k, Y, Z)), (k, M(X, Y), M(X, Z))))
                out.append(eq(M(X, (k, X, Y)), X))
    for i in uns:
        out += [eq((i, (i, X)), X), eq((i, (i, X)), (i, X)), ((False, ("=", (i, X), (i, Y))), (True, ("=", X, Y)))]
        for j in uns:
            if j != i:
                out += [eq((i, (j, X)), (j, (i, X))), eq((i, (j, X)), X)]
    for p, k in sig.p.items():
        A = lambda *a, p=p: ("@", p) + a
        if k == 2:
            out += [((True, A(X, X)),), ((False, A(X, Y)), (True, A(Y, X))),
                    ((False, A(X, Y)), (False, A(Y, Z)), (True, A(X, Z))),
                    ((True, A(X, Y)), (True, A(Y, X))), ((False, A(X, X)),)]
            if sig.eq:
                out += [((False, A(X, Y)), (False, A(Y, X)), (True, ("=", X, Y))),
                        ((False, A(X, Y)), (False, A(X, Z)), (True, ("=", Y, Z)))]
            for i in uns:
                out += [((True, A(X, (i, X))),), ((False, A(X, Y)), (True, A((i, X), (i, Y))))]
        if k == 1:
            for i in uns:
                out += [((False, A(X)), (True, A((i, X)))), ((True, A(X)), (True, A((i, X))))]
    return out


def context_lit(t, sig, cs):
    """An equation f(..l..) = f(..r..) around the sides of a (unit) equation l=r of cs, exact or spoilt in one more argument."""
    eqs = [a for c in cs for s, a in c if a[0] == "=" and s]
    fs = [(f, k) for f, k in sig.f.items() if k > 0]
    if not eqs or not fs:
        return None
    sym = [a for a in eqs if not isinstance(a[1], str) and not isinstance(a[2], str) and a[1] != a[2] and
           sorted(fol.tvars(a[1], {})) == sorted(fol.tvars(a[2], {})) and str(a[1]).count("(") == str(a[2]).count("(")]
    a = t.choice(sym) if sym and t.chance(3, 4) else t.choice(eqs)
    vs = sorted(fol.cvars(((True, a),)))
    if t.chance(1, 4) and vs:
        a = fol.asubst(a, {v: term(t, sig, vs, 1) for v in vs if t.chance(1, 3)})
    l, r = a[1:]
    if t.chance(1, 2):
        l, r = r, l
    for _ in range(t.rand(1, 2)):
        f, k = t.choice(fs)
        x, y = [], []
        for i in range(k):
            w = t.below(6)
            if w == 0:
                u = term(t, sig, vs, 1)
                x.append(u)
                y.append(u)
            elif w == 1:
                x.append(l)
                y.append(term(t, sig, vs, 1))
            elif w == 2:
                x.append(t.choice([l, r]))
                y.append(t.choice([l, r]))
            elif w == 3 and vs:
                x.append(t.choice(vs))
                y.append(x[-1])
            else:
                x.append(l)
                y.append(r)
        l, r = (f,) + tuple(x), (f,) + tuple(y)
    return ("=", l, r)


def sat_clauses(t, sig, I, n, **kw):
    """About n clauses true in I."""
    out = []
    if t.chance(1, 2):
        good = [c for c in schemes(sig) if I.ev_clause(c)]
        for _ in range(t.rand(1, 4)):
            if good:
                c = t.choice(good)
                if c not in out:
                    out.append(c)
    for _ in range(n):
        c = clause(t, sig, **kw)
        if sig.eq and out and t.chance(1, 8):
            a = context_lit(t, sig, out)
            if a and len(fol.cvars(c)) < 3:
                c = (c if t.chance(2, 3) else ()) + ((t.chance(1, 2), a),)
        c = make_true(t, I, c, sig)
        if c is not None and c not in out:
            out.append(c)
    return out


def context_problem(t):
    """(kind, sig, I, clauses true in I): unorientable unit equations, and clauses with literals around their sides."""
    sig = Sig({"a": 0, "c": 0, "m": 2}, {"p": 0, "q": t.rand(0, 1)}, True)
    for f, k in (("f", 2), ("g", 1), ("h", 3), ("k", 2)):
        if t.chance(1, 2):
            sig.f[f] = k
    n = t.rand(1, 3)
    I = interp(t, sig, n)
    I.f["m"] = [(i % n + i // n) % n for i in range(n * n)] if t.chance(1, 2) else [min(i % n, i // n) for i in range(n * n)]
    X, Y, Z = "X", "Y", "Z"
    units = [("=", ("m", X, Y), ("m", Y, X)), ("=", ("m", X, ("m", Y, Z)), ("m", Y, ("m", X, Z)))]
    if "k" in sig.f:
        I.f["k"] = [I.f["m"][i // n + i % n * n] for i in range(n * n)]
        units += [("=", ("m", X, Y), ("k", Y, X)), ("=", ("k", X, Y), ("m", X, Y)), ("=", ("k", X, ("k", Y, Z)), ("m", Y, ("m", X, Z)))]
    out = [((True, a),) for a in t.sample(units, t.rand(1, min(3, len(units))))]
    for _ in range(t.rand(2, 7)):
        c = ()
        for _ in range(t.rand(1, 2)):
            a = context_lit(t, sig, out[:3])
            if a is not None and len(fol.cvars(c + ((True, a),))) <= 4:
                c += ((t.chance(1, 2), a),)
        if t.chance(1, 2):
            c += clause(t, sig, maxlits=2, maxvars=1, depth=1)
        if t.chance(1, 4) and c:
            vs = fol.cvars(c)
            c = fol.csubst(c, {v: t.choice([("a",), ("c",)]) for v in vs if t.chance(1, 4)})
        c = make_true(t, I, c, sig) if c else None
        if c:
            out.append(c)
    return "context", sig, I, t.shuffle(out)


KINDS = ["full", "ueq", "eq", "noeq", "epr", "prop", "horn"]


def kind(t):
    return t.weighted([(5, "full"), (3, "ueq"), (2, "eq"), (3, "noeq"), (2, "epr"), (1, "prop"), (2, "horn")])


def sat_problem(t, kd=None, maxn=3, nmin=3, nmax=12):
    """(sig, I, clauses true in I)."""
    if kd is None and t.chance(1, 12):
        return context_problem(t)
    kd = kd or kind(t)
    sig = signature(t, "full" if kd == "horn" else kd)
    n = t.weighted([(1, 1), (5, 2), (3, 3)][:maxn])
    I = interp(t, sig, n)
    cs = sat_clauses(t, sig, I, t.rand(nmin, nmax), horn=kd == "horn", unit=kd == "ueq",
                     maxvars=3, depth=t.rand(1, 3) if kd not in ("epr", "prop") else 0)
    return kd, sig, I, cs


# ------------------------------------------------------------------ unsatisfiable by construction

def gterm(t, sig, depth):
    return term(t, sig, (), depth)


def _gsubterms(x, out):
    if not fol.isvar(x):
        out.append(x)
        for a in x[1:]:
            _gsubterms(a, out)


def clause_terms(c):
    out = []
    for _, a in c:
        for x in (a[1:] if a[0] == "=" else a[2:]):
            _gsubterms(x, out)
    return out


def _repl(x, old, new, pick):
    """Replaces the occurrences of old for which pick() says so."""
    if x == old and pick():
        return new
    if fol.isvar(x):
        return x
    return (x[0],) + tuple(_repl(a, old, new, pick) for a in x[1:])


def crepl(c, old, new, pick):
    out = []
    for s, a in c:
        if a[0] == "=":
            out.append((s, ("=", _repl(a[1], old, new, pick), _repl(a[2], old, new, pick))))
        else:
            out.append((s, a[:2] + tuple(_repl(x, old, new, pick) for x in a[2:])))
    return tuple(out)


def unsat_clauses(t, sig, steps, depth=2, maxlits=5):
    """Grows an unsatisfiable ground set from the empty clause by inverse inference steps, then generalises
    it clause by clause; both keep it unsatisfiable.  Returns the clauses."""
    cs = [()]
    for _ in range(steps):
        i = t.below(len(cs))
        c = cs[i]
        terms = clause_terms(c)
        k = t.below(10)
        if sig.eq and terms and k >= 5:
            s = t.choice(terms)
            s2 = gterm(t, sig, depth)
            if s2 == s:
                continue
            d = tuple(l for l in c if t.chance(1, 4))
            c2 = crepl(c, s, s2, lambda: not t.chance(1, 4))
            e = ("=", s, s2) if t.chance(1, 2) else ("=", s2, s)
            cs[i] = c2
            cs.append(((True, e),) + d)
        elif sig.eq and k == 4 and len(c) < maxlits:
            x = gterm(t, sig, depth)
            cs[i] = c + ((False, ("=", x, x)),)
        elif k == 3 and c and len(c) < maxlits:
            cs[i] = c + (t.choice(c),)
        else:
            if len(c) >= maxlits and len(c) > 1 and not t.chance(1, 3):
                continue
            a = None
            for _ in range(3):
                a = atom(t, sig, (), depth)
                if a[0] != "=" or a[1] != a[2]:
                    break
            c1, c2 = [], []
            for l in c:
                w = t.below(5)
                if w <= 2 or w == 4:
                    (c1 if w <= 1 or w == 4 else c2).append(l)
                if w >= 3:
                    c2.append(l)
            cs[i] = ((True, a),) + tuple(c1)
            cs.append(((False, a),) + tuple(c2))
    out = []
    gp = t.choice([3, 1, 5, 2, 0])
    for c in cs:
        n = 0
        while n < 3 and t.chance(gp, 8):
            terms = [x for x in clause_terms(c)]
            if not terms:
                break
            x = t.choice(terms)
            c = crepl(c, x, VARS[n], lambda: not t.chance(1, 8))
            n += 1
        if len(c) > 1:
            c = tuple(t.shuffle(c))
        out.append(tuple((s, ("=", a[2], a[1]) if a[0] == "=" and t.chance(1, 3) else a) for s, a in c))
    return out


def unsat_problem(t, nmin=3, nmax=18, noise=True):
    kd = t.weighted([(5, "full"), (3, "eq"), (3, "noeq"), (2, "epr"), (1, "prop")])
    sig = signature(t, kd)
    cs = unsat_clauses(t, sig, t.rand(nmin, nmax), depth=t.rand(1, 3) if kd not in ("epr", "prop") else 0)
    if noise and t.chance(1, 2):
        for _ in range(t.rand(1, 5)):
            cs.append(clause(t, sig, maxvars=3, depth=2 if kd not in ("epr", "prop") else 0))
    return kd, sig, t.shuffle(cs)


def unsat_fof(t):
    """Formulas F1..Fk that are unsatisfiable: random formulas whose conjunction is refuted, by replacing one of
    them with the negation of a weakening, or clauses unsatisfiable by construction dressed as formulas."""
    if t.chance(1, 2):
        kd, sig, cs = unsat_problem(t, nmin=3, nmax=10)
        fs = [fol.cl2f(c) for c in cs]
        # group some clauses into conjunctions, equivalences, with extra formulas around
        out = []
        i = 0
        while i < len(fs):
            k = t.rand(1, 3)
            g = fs[i:i + k]
            f = g[0] if len(g) == 1 else ("&",) + tuple(g)
            w = t.below(5)
            if w == 1:
                h = formula(t, sig, 2, tdepth=1 if kd not in ("epr", "prop") else 0)
                f = ("&", f, ("|", h, ("~", h)))
            elif w == 2:
                h = formula(t, sig, 1, tdepth=1 if kd not in ("epr", "prop") else 0)
                f = ("<=>", f, ("=>", h, h))
            elif w == 3:
                f = ("~", ("~", f))
            elif w == 4:
                f = ("<~>", f, ("~", f)) if t.chance(1, 4) else ("~", ("=>", f, ("$false",)))
            if w == 4 and f[0] == "<~>":
                f = ("&", f, g[0] if len(g) == 1 else ("&",) + tuple(g))
            out.append(f)
            i += k
        fs = out
    else:
        sig = signature(t, t.weighted([(4, "full"), (2, "noeq"), (1, "epr")]))
        kd = "random"
        f = formula(t, sig, t.rand(2, 4), tdepth=t.rand(0, 1) if any(sig.f.values()) else 0)
        g = formula(t, sig, t.rand(1, 3), tdepth=0)
        # f & (f => g) |- g  in several disguises
        fs = [f, t.choice([("=>", f, g), ("|", ("~", f), g), ("<=>", f, ("&", f, g)), ("~|", ("&", f, ("~", g)), ("$false",))]), ("~", g)]
    k = t.below(len(fs))
    conj = None
    if t.chance(3, 4):
        conj = fs.pop(k)
    lines = [fol.fof("f%d" % i, t.weighted([(5, "axiom"), (1, "hypothesis"), (1, "lemma")]), f) for i, f in enumerate(fs)]
    if conj is not None:
        lines.append(fol.fof("goal", "conjecture", conj[1] if conj[0] == "~" else ("~", conj)))
    return "fof-" + kd, "\n".join(lines) + "\n"


def dense_unsat(t, eq=None):
    """An unsatisfiable clause set over few ground atoms (so nearly minimal), with constants generalised to variables."""
    eq = t.chance(1, 3) if eq is None else eq
    ps = {p: t.weighted([(1, 0), (4, 1), (3, 2)]) for p in "pqr"[:t.rand(1, 3)]}
    consts = [("a",), ("b",)][:t.rand(1, 2)]
    fun = {"f": 1} if t.chance(1, 3) else {}
    gt = consts + [("f", c) for c in consts] if fun else consts
    k = t.rand(2, 5)
    atoms = []
    for _ in range(k):
        if eq and t.chance(1, 3):
            a = ("=", t.choice(gt), t.choice(gt))
        else:
            p = t.choice(sorted(ps))
            a = ("@", p) + tuple(t.choice(gt) for _ in range(ps[p]))
        if a not in atoms:
            atoms.append(a)
    k = len(atoms)
    alive = set(range(1 << k))
    cls = []
    for _ in range(40):
        if not alive:
            break
        m = t.choice(sorted(alive))
        c = [(not (m >> i & 1), i) for i in range(k) if t.chance(3, 5)]
        if c:
            cls.append(c)
            alive = {m for m in alive if any(s == bool(m >> i & 1) for s, i in c)}
    if alive:
        from . import pbt
        raise pbt.Discard()
    out = []
    for c in cls:
        c = tuple((s, atoms[i]) for s, i in c)
        n = t.rand(0, 2)
        for j in range(n):     # replace occurrences of a term by a variable
            old = t.choice(gt)
            mode = t.below(2)
            c = tuple((s, a[:1] + tuple(_gen1(t, x, old, "XY"[j], mode) for x in a[1:]) if a[0] == "=" else
                       a[:2] + tuple(_gen1(t, x, old, "XY"[j], mode) for x in a[2:])) for s, a in c)
        while t.chance(1, 3) and len(c) < 5:
            c += (t.choice(c),)
        out.append(tuple(t.shuffle(list(c))))
    sig = Sig({c[0]: 0 for c in consts}, ps, eq)
    sig.f.update(fun)
    return "dense", sig, t.shuffle(out)


def _gen1(t, x, old, v, mode):
    if x == old and (mode or t.chance(1, 2)):
        return v
    if isinstance(x, str):
        return x
    return (x[0],) + tuple(_gen1(t, y, old, v, mode) for y in x[1:])
