"""First-order formulas: AST, TPTP printing and parsing, evaluation in finite interpretations.

Terms:    a variable is a str starting with an upper-case letter; anything else is a tuple (f, arg, ...).
Formulas: ("=", s, t)   ("@", p, arg, ...)   ("~", f)   ("&", f, ...)  ("|", f, ...)
          ("=>", a, b)  ("<=", a, b)  ("<=>", a, b)  ("<~>", a, b)  ("~|", a, b)  ("~&", a, b)
          ("!", (v, ...), f)  ("?", (v, ...), f)  ("$true",)  ("$false",)
Clauses:  tuple of literals (positive?, atom), atom = ("=", s, t) or ("@", p, ...).
"""
import itertools
import re


def isvar(t):
    return isinstance(t, str)


def tup(x):
    """Lists (from JSON) to tuples."""
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------ printing

def pt(t):
    if isvar(t):
        return t
    return t[0] if len(t) == 1 else "%s(%s)" % (t[0], ",".join(pt(a) for a in t[1:]))


def pa(a, pos=True):
    if a[0] == "=":
        return "%s%s%s" % (pt(a[1]), "=" if pos else "!=", pt(a[2]))
    s = a[1] if len(a) == 2 else "%s(%s)" % (a[1], ",".join(pt(x) for x in a[2:]))
    return s if pos else "~" + s


def pf(f):
    o = f[0]
    if o in ("=", "@"):
        return pa(f)
    if o in ("$true", "$false"):
        return o
    if o == "~":
        g = f[1]
        if g[0] == "=":
            return "(%s)" % pa(g, False) if False else pa(g, False)
        return "~(%s)" % pf(g) if g[0] not in ("@",) else "~" + pf(g)
    if o in ("&", "|"):
        if len(f) == 1:
            return "$true" if o == "&" else "$false"
        if len(f) == 2:
            return pf(f[1])
        return "(" + o.join(_sub(g) for g in f[1:]) + ")"
    if o in ("!", "?"):
        return "%s[%s]:%s" % (o, ",".join(f[1]), _par(f[2]))
    return "(%s%s%s)" % (_sub(f[1]), o, _sub(f[2]))


def _sub(f):
    s = pf(f)
    if f[0] in ("~", "!", "?", "=") or (f[0] in ("&", "|") and len(f) <= 2):
        return "(" + s + ")"
    return s


def _par(f):
    s = pf(f)
    return s if s.startswith("(") and f[0] in ("&", "|", "=>", "<=", "<=>", "<~>", "~|", "~&") and len(f) > 2 else "(" + s + ")"


def pcl(c):
    return "|".join(pa(a, s) for s, a in c) if c else "$false"


def fof(name, role, f):
    return "fof(%s,%s,%s)." % (name, role, _par(f))


def cnf(name, role, c):
    return "cnf(%s,%s,(%s))." % (name, role, pcl(c))


# ------------------------------------------------------------------ traversal

def tvars(t, acc):
    if isvar(t):
        acc.setdefault(t)
    else:
        for a in t[1:]:
            tvars(a, acc)
    return acc


def cvars(c):
    acc = {}
    for _, a in c:
        for t in (a[1:] if a[0] == "=" else a[2:]):
            tvars(t, acc)
    return list(acc)


def freevars(f, bound=frozenset(), acc=None):
    acc = {} if acc is None else acc
    o = f[0]
    if o in ("=", "@"):
        for t in (f[1:] if o == "=" else f[2:]):
            for v in tvars(t, {}):
                if v not in bound:
                    acc.setdefault(v)
    elif o in ("!", "?"):
        freevars(f[2], bound | set(f[1]), acc)
    elif o not in ("$true", "$false"):
        for g in f[1:]:
            freevars(g, bound, acc)
    return list(acc)


def close(f):
    vs = freevars(f)
    return ("!", tuple(vs), f) if vs else f


def cl2f(c):
    lits = tuple(a if s else ("~", a) for s, a in c)
    if not lits:
        return ("$false",)
    return close(lits[0] if len(lits) == 1 else ("|",) + lits)


def tsyms(t, fs):
    if not isvar(t):
        fs[t[0]] = len(t) - 1
        for a in t[1:]:
            tsyms(a, fs)


def syms(f, fs=None, ps=None):
    """(function symbols, predicate symbols) with arities."""
    fs = {} if fs is None else fs
    ps = {} if ps is None else ps
    o = f[0]
    if o == "=":
        tsyms(f[1], fs)
        tsyms(f[2], fs)
    elif o == "@":
        ps[f[1]] = len(f) - 2
        for t in f[2:]:
            tsyms(t, fs)
    elif o in ("!", "?"):
        syms(f[2], fs, ps)
    elif o not in ("$true", "$false"):
        for g in f[1:]:
            syms(g, fs, ps)
    return fs, ps


def csyms(c, fs=None, ps=None):
    fs = {} if fs is None else fs
    ps = {} if ps is None else ps
    for _, a in c:
        syms(a, fs, ps)
    return fs, ps


def subst(t, s):
    if isvar(t):
        return s.get(t, t)
    return (t[0],) + tuple(subst(a, s) for a in t[1:])


def asubst(a, s):
    if a[0] == "=":
        return ("=", subst(a[1], s), subst(a[2], s))
    return a[:2] + tuple(subst(x, s) for x in a[2:])


def csubst(c, s):
    return tuple((p, asubst(a, s)) for p, a in c)


def tsize(t):
    return 1 if isvar(t) else 1 + sum(tsize(a) for a in t[1:])


# ------------------------------------------------------------------ finite interpretations

class Interp:
    """Domain {0..n-1}; f[name], p[name]: flat tables, index = sum arg_i * n**i."""
    __slots__ = ("n", "f", "p")

    def __init__(self, n, f, p):
        self.n, self.f, self.p = n, f, p

    def ev_t(self, t, env):
        if isvar(t):
            return env[t]
        i, m = 0, 1
        n = self.n
        for a in t[1:]:
            i += m * self.ev_t(a, env)
            m *= n
        return self.f[t[0]][i]

    def ev_a(self, a, env):
        if a[0] == "=":
            return self.ev_t(a[1], env) == self.ev_t(a[2], env)
        i, m = 0, 1
        n = self.n
        for x in a[2:]:
            i += m * self.ev_t(x, env)
            m *= n
        return self.p[a[1]][i]

    def ev(self, f, env=None):
        env = {} if env is None else env
        o = f[0]
        if o in ("=", "@"):
            return bool(self.ev_a(f, env))
        if o == "~":
            return not self.ev(f[1], env)
        if o == "&":
            return all(self.ev(g, env) for g in f[1:])
        if o == "|":
            return any(self.ev(g, env) for g in f[1:])
        if o == "=>":
            return (not self.ev(f[1], env)) or self.ev(f[2], env)
        if o == "<=":
            return self.ev(f[1], env) or not self.ev(f[2], env)
        if o == "<=>":
            return self.ev(f[1], env) == self.ev(f[2], env)
        if o == "<~>":
            return self.ev(f[1], env) != self.ev(f[2], env)
        if o == "~|":
            return not (self.ev(f[1], env) or self.ev(f[2], env))
        if o == "~&":
            return not (self.ev(f[1], env) and self.ev(f[2], env))
        if o == "$true":
            return True
        if o == "$false":
            return False
        if o in ("!", "?"):
            vs = f[1]
            e2 = dict(env)
            want = o == "?"
            for vals in itertools.product(range(self.n), repeat=len(vs)):
                for v, d in zip(vs, vals):
                    e2[v] = d
                if self.ev(f[2], e2) == want:
                    return want
            return not want
        raise ValueError(o)

    def ev_clause(self, c):
        vs = cvars(c)
        env = {}
        for vals in itertools.product(range(self.n), repeat=len(vs)):
            for v, d in zip(vs, vals):
                env[v] = d
            for s, a in c:
                if bool(self.ev_a(a, env)) == s:
                    break
            else:
                return False
        return True


# ------------------------------------------------------------------ TPTP parsing (E's output dialects)

TOK = re.compile(r"""\s+|%[^\n]*|\#[^\n]*|/\*.*?\*/
 |(?P<str>"(?:[^"\\]|\\.)*")|(?P<q>'(?:[^'\\]|\\.)*')
 |(?P<num>[+-]?\d+(?:/\d+|(?:\.\d+)?(?:[eE][+-]?\d+)?))
 |(?P<id>\$?\$?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><=>|<~>|=>|<=|~\||~&|!=|\+\+|--|[=~|&!?():,.\[\]*><@^{};+-])""", re.X | re.S)


class ParseError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if not k or k.end() == i:
            raise ParseError("lexical error at %r" % s[i:i + 40])
        i = k.end()
        if k.lastgroup:
            out.append((k.lastgroup, k.group()))
    out.append(("eof", ""))
    return out


class Parser:
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0

    def peek(self):
        return self.t[self.i][1]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] not in ("str", "q"):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ParseError("expected %r, got %r (after %r)" % (s, self.t[self.i:self.i + 5], self.t[max(0, self.i - 6):self.i]))

    def term(self):
        k, v = self.next()
        if k == "id" and (v[0].isupper() or v[0] == "_"):
            return v
        if k not in ("id", "num", "str", "q"):
            raise ParseError("term expected, got %r" % v)
        if k == "q" and re.fullmatch(r"'[a-z][A-Za-z0-9_]*'", v):
            v = v[1:-1]
        if k in ("id", "q") and self.accept("("):
            args = [self.term()]
            while self.accept(","):
                args.append(self.term())
            self.expect(")")
            return (v,) + tuple(args)
        return (v,)

    def atom(self):
        if self.accept("("):
            f = self.formula()
            self.expect(")")
            return f
        t = self.term()
        if self.accept("="):
            return ("=", t, self.term())
        if self.accept("!="):
            return ("~", ("=", t, self.term()))
        if isvar(t):
            raise ParseError("variable as formula")
        if t in (("$true",), ("$false",)):
            return t
        return ("@",) + t

    def unary(self):
        p = self.peek()
        if p == "~":
            self.next()
            return ("~", self.unary())
        if p in ("!", "?"):
            q = self.next()[1]
            self.expect("[")
            vs = []
            while True:
                vs.append(self.next()[1])
                if self.accept(":"):
                    self.type_()
                if not self.accept(","):
                    break
            self.expect("]")
            self.expect(":")
            return (q, tuple(vs), self.unary())
        return self.atom()

    def type_(self):
        self.next()
        while self.accept(">") or self.accept("*"):
            self.next()

    def formula(self):
        f = self.unary()
        p = self.peek()
        if p in ("&", "|"):
            args = [f]
            while self.accept(p):
                args.append(self.unary())
            return (p,) + tuple(args)
        if p in ("=>", "<=", "<=>", "<~>", "~|", "~&"):
            self.next()
            return (p, f, self.unary())
        return f

    def raw(self):
        """An annotation: a general term, as nested tuples/lists of strings."""
        if self.accept("["):
            out = []
            if not self.accept("]"):
                out.append(self.raw())
                while self.accept(","):
                    out.append(self.raw())
                self.expect("]")
            return out
        k, v = self.next()
        if k == "op":
            raise ParseError("annotation: %r" % v)
        if k == "q":
            v = v[1:-1]
        r = v
        if k in ("id", "q") and self.accept("("):
            args = []
            if not self.accept(")"):
                args.append(self.raw_any())
                while self.accept(","):
                    args.append(self.raw_any())
                self.expect(")")
            r = (v,) + tuple(args)
        if self.accept(":"):
            r = (":", r, self.raw())
        return r

    def raw_any(self):
        save = self.i
        try:
            r = self.raw()
            if self.peek() in (",", ")"):
                return r
        except ParseError:
            pass
        self.i = save
        return ("$formula", self.formula())

    def annotated(self):
        """Yields (kind, name, role, formula, annotations list)."""
        while self.t[self.i][0] != "eof":
            kind = self.next()[1]
            if kind not in ("fof", "cnf", "tff", "tcf", "thf"):
                raise ParseError("not an annotated formula: %r" % (self.t[self.i - 1:self.i + 4],))
            self.expect("(")
            k, name = self.next()
            if k == "q":
                name = name[1:-1] if re.fullmatch(r"'[a-z][A-Za-z0-9_]*'", name) else name
            self.expect(",")
            role = self.next()[1]
            while self.accept("-"):
                role += "-" + self.next()[1]
            self.expect(",")
            if role == "type":
                depth = 0
                while True:
                    k, v = self.next()
                    if k == "eof":
                        raise ParseError("eof in type declaration")
                    if v == "(":
                        depth += 1
                    if v == ")":
                        if depth == 0:
                            break
                        depth -= 1
                self.expect(".")
                continue
            f = self.formula()
            ann = []
            while self.accept(","):
                ann.append(self.raw())
            self.expect(")")
            self.expect(".")
            yield kind, name, role, f, ann


def parse_formula(s):
    p = Parser(s)
    f = p.formula()
    if p.t[p.i][0] != "eof":
        raise ParseError("trailing input: %r" % (p.t[p.i:p.i + 5],))
    return f


def parse_all(s):
    return list(Parser(s).annotated())


def f2cl(f):
    """A disjunction of literals as a clause."""
    o = f[0]
    if o == "|":
        out = ()
        for g in f[1:]:
            out += f2cl(g)
        return out
    if o == "~":
        g = f[1]
        if g == ("$true",):
            return ()
        if g[0] in ("=", "@"):
            return ((False, g),)
        if g[0] == "~":
            return f2cl(g[1])
        if g == ("$false",):
            return ((True, ("$true",)),)
        raise ParseError("not a literal: %r" % (f,))
    if o == "$false":
        return ()
    if o in ("=", "@"):
        return ((True, f),)
    if o == "$true":
        return ((True, ("=", "X", "X")),)
    raise ParseError("not a clause: %r" % (f,))


def canon(f):
    """Canonical text of a formula up to variable names, order of equation sides and of &,| arguments is kept."""
    ren = {}

    def t(x, env):
        if isvar(x):
            return env.get(x) or ren.setdefault(x, "F%d" % len(ren))
        return pt((x[0],)) if len(x) == 1 else "%s(%s)" % (x[0], ",".join(t(a, env) for a in x[1:]))

    def g(f, env, depth):
        o = f[0]
        if o == "=":
            return "=(%s,%s)" % tuple([t(f[1], env), t(f[2], env)])
        if o == "@":
            return "%s(%s)" % (f[1], ",".join(t(a, env) for a in f[2:]))
        if o in ("!", "?"):
            e2 = dict(env)
            out = ""
            for i, v in enumerate(f[1]):
                e2[v] = "B%d" % (depth + i)
                out += o + e2[v] + "."
            return out + g(f[2], e2, depth + len(f[1]))
        if o in ("$true", "$false"):
            return o
        return "%s(%s)" % (o, ",".join(g(h, env, depth) for h in f[1:]))
    return g(f, {}, 0)
