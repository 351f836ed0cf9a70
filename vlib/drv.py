"""Runs scripts on the library driver (harness/drv.c) and naive reference algorithms on terms."""
import itertools
import re

from . import erun, fol


class Crash(Exception):
    pass


def run(exe, script, n=None, timeout=30):
    """Answers (without '= ') of the commands; Crash if the driver died or an answer is missing."""
    r = erun.run(exe, [], script, timeout=timeout)
    if r.timeout:
        return None
    out = [l[2:] if len(l) > 1 else "" for l in r.out.splitlines() if l.startswith("=")]
    if r.rc != 0 or (n is not None and len(out) != n):
        raise Crash("the library driver ended with status %s after %d answers of %s: %s" % (r.rc, len(out), n, (r.out[-300:] + r.err[-1500:])))
    return out


_tok = re.compile(r"\s*([A-Za-z0-9_$]+|[(),])")


def pterm(s):
    """Parses a term into the tuple form of fol."""
    toks = _tok.findall(s)
    pos = 0

    def t():
        nonlocal pos
        n = toks[pos]
        pos += 1
        if n[0].isupper():
            return n
        if pos < len(toks) and toks[pos] == "(":
            pos += 1
            args = [t()]
            while toks[pos] == ",":
                pos += 1
                args.append(t())
            pos += 1
            return (n,) + tuple(args)
        return (n,)
    return t()


# ------------------------------------------------------------------ matching and unification

def match(s, t, sub=None):
    """A substitution with s sub == t, or None; the variables of t are constants."""
    sub = {} if sub is None else sub
    if isinstance(s, str):
        if s in sub:
            return sub if sub[s] == t else None
        sub = dict(sub)
        sub[s] = t
        return sub
    if isinstance(t, str) or s[0] != t[0] or len(s) != len(t):
        return None
    for a, b in zip(s[1:], t[1:]):
        sub = match(a, b, sub)
        if sub is None:
            return None
    return sub


def walk(t, sub):
    while isinstance(t, str) and t in sub:
        t = sub[t]
    return t


def deref(t, sub):
    t = walk(t, sub)
    if isinstance(t, str):
        return t
    return (t[0],) + tuple(deref(a, sub) for a in t[1:])


def occurs(v, t, sub):
    t = walk(t, sub)
    if isinstance(t, str):
        return t == v
    return any(occurs(v, a, sub) for a in t[1:])


def unify(s, t, sub=None):
    """A most general unifier as a triangular substitution, or None."""
    sub = {} if sub is None else sub
    todo = [(s, t)]
    while todo:
        a, b = todo.pop()
        a, b = walk(a, sub), walk(b, sub)
        if a == b:
            continue
        if isinstance(a, str) or isinstance(b, str):
            if not isinstance(a, str):
                a, b = b, a
            if occurs(a, b, sub):
                return None
            sub[a] = b
        elif a[0] != b[0] or len(a) != len(b):
            return None
        else:
            todo.extend(zip(a[1:], b[1:]))
    return sub


def variant(s, t):
    m = match(s, t)
    return m is not None and match(t, s) is not None


def rename(t, suffix):
    if isinstance(t, str):
        return t + suffix
    return (t[0],) + tuple(rename(a, suffix) for a in t[1:])


# ------------------------------------------------------------------ orderings

def vcount(t, acc=None):
    acc = {} if acc is None else acc
    if isinstance(t, str):
        acc[t] = acc.get(t, 0) + 1
    else:
        for a in t[1:]:
            vcount(a, acc)
    return acc


def subterm(x, t):
    return x == t or (not isinstance(t, str) and any(subterm(x, a) for a in t[1:]))


class Kbo:
    def __init__(self, weight, varw, prec):
        self.weight, self.varw, self.prec = weight, varw, prec   # prec(f, g): one of < > = #

    def w(self, t):
        if isinstance(t, str):
            return self.varw
        return self.weight[t[0]] + sum(self.w(a) for a in t[1:])

    def gt(self, s, t):
        if s == t or isinstance(s, str):
            return False
        vs, vt = vcount(s), vcount(t)
        if any(vs.get(x, 0) < n for x, n in vt.items()):
            return False
        if isinstance(t, str):
            return True
        ws, wt = self.w(s), self.w(t)
        if ws != wt:
            return ws > wt
        p = self.prec(s[0], t[0])
        if p == ">":
            return True
        if p == "=":
            for a, b in zip(s[1:], t[1:]):
                if a != b:
                    return self.gt(a, b)
        return False


class Lpo:
    def __init__(self, prec):
        self.prec = prec
        self.memo = {}

    def gt(self, s, t):
        if s == t or isinstance(s, str):
            return False
        if isinstance(t, str):
            return subterm(t, s)
        k = (s, t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._gt(s, t)
        return r

    def _gt(self, s, t):
        if any(a == t or self.gt(a, t) for a in s[1:]):
            return True
        p = self.prec(s[0], t[0])
        if p == ">":
            return all(self.gt(s, b) for b in t[1:])
        if p == "=":
            for a, b in zip(s[1:], t[1:]):
                if a != b:
                    return self.gt(a, b) and all(self.gt(s, x) for x in t[1:])
        return False


def rel(o, s, t):
    if s == t:
        return "="
    if o.gt(s, t):
        return ">"
    if o.gt(t, s):
        return "<"
    return "#"


def mgt(o, m, n):
    """Multiset extension of o on lists."""
    m, n = list(m), list(n)
    for x in list(n):
        if x in m:
            m.remove(x)
            n.remove(x)
    return bool(m) and all(any(o.gt(x, y) for x in m) for y in n)


class MulOrd:
    def __init__(self, o):
        self.o = o

    def gt(self, a, b):
        return sorted(map(str, a)) != sorted(map(str, b)) and mgt(self.o, a, b)


TRUE = ("$true",)


def litms(sign, l, r):
    return ((l,), (r,)) if sign else ((l, r),)


# ------------------------------------------------------------------ subsumption

def lit_sides(a):
    return (a[1], a[2]) if a[0] == "=" else ((a[1],) + tuple(a[2:]), TRUE)


def subsumes(c, d):
    """Multiset subsumption: an injective map of the literals of c to instances in d."""
    c = [(s, a[0] == "=") + lit_sides(a) for s, a in c]
    d = [(s, a[0] == "=") + lit_sides(a) for s, a in d]

    def go(i, sub, used):
        if i == len(c):
            return True
        s, e, l, r = c[i]
        for j, (s2, e2, l2, r2) in enumerate(d):
            if j in used or s != s2 or e != e2:
                continue
            for x, y in ((l2, r2), (r2, l2)) if e else ((l2, r2),):
                m = match(l, x, sub)
                if m is not None:
                    m = match(r, y, m)
                    if m is not None and go(i + 1, m, used | {j}):
                        return True
        return False
    return go(0, {}, frozenset())


def unit_subsumes(c, d, context=True):
    """Unit subsumption; a positive equation may be applied at one place inside an equation."""
    s, a = c[0]
    l, r = lit_sides(a)
    for s2, b in d:
        if context and s and s2 and b[0] == "=" and b[1] == b[2]:
            return True     # d is valid; E's argument-wise descent finds no difference
        if s != s2 or (a[0] == "=") != (b[0] == "="):
            if not (s and s2 and a[0] == "="):
                continue
        x, y = lit_sides(b)
        while True:
            for p, q in ((x, y), (y, x)):
                m = match(l, p)
                if m is not None and match(r, q, m) is not None:
                    return True
            if not (s and context) or isinstance(x, str) or isinstance(y, str) or x[0] != y[0] or len(x) != len(y):
                break
            diff = [(p, q) for p, q in zip(x[1:], y[1:]) if p != q]
            if len(diff) == 0 and len(x) > 1:
                return True
            if len(diff) != 1:
                break
            x, y = diff[0]
    return False
