"""C10: clause-level decisions: subsumption and its index, condensation, tautologies, literal selection."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, drv
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["d"] = build.Builder("fo").harness("drv")


def signature(t, ground=False):
    sig = gen.Sig({"a": 0}, {}, True)
    for i in range(t.rand(0, 2)):
        sig.f["bc"[i]] = 0
    for i in range(t.rand(1, 2)):
        sig.f["fg"[i]] = t.weighted([(3, 1), (4, 2)])
    for i in range(t.rand(1, 3)):
        sig.p["pqr"[i]] = t.weighted([(1, 0), (3, 1), (4, 2)])
    return sig


def decl(sig):
    return "vars 12\nP cnf(c,axiom,(%s)).\n" % "|".join(
        ["%s=a" % fol.pt((f,) + ("X1",) * k) for f, k in sorted(sig.f.items())] +
        [fol.pa(("@", p) + ("X1",) * k) for p, k in sorted(sig.p.items())])


def flip(t, c):
    out = []
    for s, a in c:
        if a[0] == "=" and t.chance(1, 2):
            a = ("=", a[2], a[1])
        out.append((s, a))
    return tuple(t.shuffle(out))


def instance(t, sig, c, extra=2):
    vs = sorted(fol.cvars(c))
    sub = {v: gen.term(t, sig, ["X1", "X2", "X3"], t.rand(0, 2)) for v in vs if t.chance(2, 3)}
    d = fol.csubst(c, sub)
    if t.chance(1, 4) and d:    # spoil it
        i = t.below(len(d))
        s, a = d[i]
        if t.chance(1, 2):
            s = not s
        else:
            a = gen.atom(t, sig, ["X1", "X2"], 2)
        d = d[:i] + ((s, a),) + d[i + 1:]
    if t.chance(1, 5) and len(d) > 1:
        d = d[:-1]
    for _ in range(t.rand(0, extra)):
        d += gen.clause(t, sig, maxlits=1, maxvars=2, depth=1)
    return flip(t, d)


def clause(t, sig, n=4, d=2):
    c = gen.clause(t, sig, maxlits=n, maxvars=3, depth=d)
    if t.chance(1, 3) and len(c) > 1:   # several literals with the same predicate
        s, a = c[0]
        vs = sorted(fol.cvars(c)) or ["X1"]
        if a[0] == "@" and len(a) > 2:
            c += ((s, a[:2] + tuple(gen.term(t, sig, vs, 1) for _ in a[2:])),)
    return c


def tc(c):
    return fol.cnf("c", "axiom", fol.tup(c)).replace("\n", " ")


def sides_triv(c):
    return any(a[0] == "=" and a[1] == a[2] for s, a in c)


def gen_subs(t):
    sig = signature(t)
    q = []
    for _ in range(t.rand(3, 25)):
        c = clause(t, sig)
        if not c:
            continue
        q.append((c, instance(t, sig, c) if t.chance(4, 5) else clause(t, sig)))
    q = [(c, d) for c, d in q if c and d]
    return {"decl": decl(sig), "q": q}


def run_subs(case):
    sc = case["decl"] + "".join("subs %s ; %s\n" % (tc(c), tc(d)) for c, d in case["q"])
    try:
        out = drv.run(E["d"], sc, len(case["q"]))
    except drv.Crash as e:
        return bad("%s\n%s" % (e, sc))
    if out is None:
        return unknown(["timeout"])
    labels = set()
    for (c, d), a in zip(case["q"], out):
        c, d = fol.tup(c), fol.tup(d)
        got = a == "1"
        if len(c) == 1:
            may = drv.unit_subsumes(c, d)
            must = drv.unit_subsumes(c, d, False) and c[0][1][0] != "="
            labels.add("unit+" if got else "unit-")
        else:
            may = must = drv.subsumes(c, d)
            labels.add("multi+" if got else "multi-")
        if got and not may:
            return bad("%s is said to subsume %s, but does not" % (fol.pcl(c), fol.pcl(d)))
        if must and not got:
            return bad("%s is said not to subsume %s, but does" % (fol.pcl(c), fol.pcl(d)))
    return ok(sorted(labels), nontrivial=len(labels) > 1, evals=len(case["q"]))


def gen_fvi(t):
    sig = signature(t)
    ty = t.below(9)
    ops = []
    pool = [c for c in (clause(t, sig, 3, 2) for _ in range(t.rand(2, 6))) if c]
    if not pool:
        raise pbt.Discard()
    prob = [flip(t, c) for c in pool if t.chance(1, 2)]
    live, n = [], 0
    for _ in range(t.rand(5, 40)):
        c = t.choice(pool) if t.chance(2, 3) else clause(t, sig, 3, 2)
        if not c:
            continue
        r = t.below(10)
        if r < 4:
            ops.append(("i", instance(t, sig, c, 1) if t.chance(1, 2) else c))
            if not ops[-1][1]:
                ops.pop()
                continue
            live.append(n)
            n += 1
        elif r == 4 and live:
            x = t.choice(live)
            live.remove(x)
            ops.append(("d", x))
        else:
            d = instance(t, sig, c) if t.chance(2, 3) else flip(t, c)
            if d:
                ops.append((t.choice("fbv" if ty else "fb"), d))
    # a valid clause (t=t) counts as subsumed by any positive unit; E removes such clauses before it asks
    ops = [(o, x if o == "d" else tuple(l for l in x if not sides_triv((l,))) or ((True, ("@", "p") + (("a",),) * sig.p["p"]),))
           for o, x in ops]
    return {"decl": decl(sig) + "".join("P %s\n" % tc(c) for c in prob), "ty": ty, "sy": t.choice([5, 30, 10, 100, 2]), "elim": t.below(2),
            "ops": ops, "ocb": t.chance(1, 2)}


def run_fvi(case):
    sc = case["decl"] + ("ocb KBO6;invfreq;constant;-1;;;-\n" if case["ocb"] else "") + "fvi n %d %d %d\n" % (case["ty"], case["sy"], case["elim"])
    for o, x in case["ops"]:
        sc += "fvi %s %s\n" % (o, x if o == "d" else tc(x))
    k = 1 + (1 if case["ocb"] else 0)
    try:
        out = drv.run(E["d"], sc, len(case["ops"]) + k)
    except drv.Crash as e:
        return bad("%s\n%s" % (e, sc))
    if out is None:
        return unknown(["timeout"])
    hits = 0
    live = {}
    n = 0
    for (o, x), a in zip(case["ops"], out[k:]):
        if o == "i":
            live[n] = fol.tup(x)
            n += 1
            continue
        if o == "d":
            live.pop(x)
            continue
        x = fol.tup(x)
        if o in "fv":
            i, naive = map(int, a.split())
            if (i >= 0) != (naive == 1):
                return bad("query %s %s: the index finds %s, a search of the set %s\n%s" % (o, fol.pcl(x), i, "something" if naive else "nothing", sc))
            if i >= 0:
                hits += 1
                if i not in live:
                    return bad("query %s %s returns a clause that is not in the set\n%s" % (o, fol.pcl(x), sc))
                c = live[i]
                if not (drv.unit_subsumes(c, x) if len(c) == 1 else drv.subsumes(c, x)):
                    return bad("query %s %s returns %s, which does not subsume it\n%s" % (o, fol.pcl(x), fol.pcl(c), sc))
        else:
            g, w = a.split(":")
            got, want = sorted(map(int, g.split())), sorted(map(int, w.split()))
            hits += len(want)
            if got != want:
                return bad("query %s %s: the index finds %s, a search of the set %s\n%s" % (o, fol.pcl(x), got, want, sc))
            for i in got:
                d = live.get(i)
                if d is None or not (drv.unit_subsumes(x, d) if len(x) == 1 else drv.subsumes(x, d)):
                    return bad("query %s %s returns %s, which it does not subsume\n%s" % (o, fol.pcl(x), d and fol.pcl(d), sc))
    return ok(["features%d" % case["ty"]], nontrivial=hits > 0, evals=len(case["ops"]))


# ------------------------------------------------------------------ one clause at a time

def cc_taut(c):
    """Is the clause valid?  Congruence closure with variables as constants; predicates are functions to $true."""
    terms = {}
    parent = []

    def add(t):
        if t in terms:
            return terms[t]
        if not isinstance(t, str):
            for a in t[1:]:
                add(a)
        terms[t] = len(parent)
        parent.append(len(parent))
        return terms[t]

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i
    eqs, neqs = [], []
    for s, a in c:
        l, r = drv.lit_sides(a)
        (neqs if s else eqs).append((add(l), add(r)))
    for i, j in eqs:
        parent[find(i)] = find(j)
    while True:
        seen = {}
        ch = False
        for t, i in terms.items():
            if isinstance(t, str):
                continue
            k = (t[0],) + tuple(find(terms[x]) for x in t[1:])
            j = seen.setdefault(k, i)
            if find(i) != find(j):
                parent[find(i)] = find(j)
                ch = True
        if not ch:
            break
    return any(find(i) == find(j) for i, j in neqs)


def gen_single(t):
    sig = signature(t)
    ops = []
    for _ in range(t.rand(3, 20)):
        k = t.weighted([(2, "cond"), (2, "taut"), (3, "sel")])
        c = clause(t, sig, 5, 2)
        if k == "cond" and c:
            c = flip(t, c + instance(t, sig, c, 0)[:t.rand(1, 3)])
        if k == "taut":
            c = tuple((s, a) for s, a in gen.clause(t, sig, maxlits=5, maxvars=2, depth=1))
            # equations over few terms, so that chains arise
            pool = [gen.term(t, sig, ["X1"], t.rand(0, 2)) for _ in range(3)]
            for _ in range(t.rand(1, 4)):
                c += ((t.chance(1, 3), ("=", t.choice(pool), t.choice(pool))),)
            if t.chance(1, 2):
                x, y = t.choice(pool), t.choice(pool)
                f, n = t.choice([(f, n) for f, n in sig.f.items() if n > 0])
                c += ((True, ("=", (f,) + (x,) * n, (f,) + (y,) * n)),)
        if k != "taut":     # trivial literals are gone before E condenses or selects
            c = tuple(l for l in c if not sides_triv((l,)))
        if c:
            ops.append((k, c, t.choice(erun.SELECT)))
    return {"decl": decl(sig), "ops": ops, "ocb": "%s;%s;%s;-1;;;-" % (
        t.choice(["KBO6", "KBO", "LPO4", "LPO"]), t.choice(erun.PGEN), t.choice(["constant", "firstmaximal0", "invarity"]))}


def norm(c):
    return sorted((s, str(sorted(map(str, drv.lit_sides(a))))) for s, a in c)


def run_single(case):
    sc = case["decl"] + "ocb %s\n" % case["ocb"]
    for k, c, f in case["ops"]:
        sc += "%s %s%s\n" % (k, f + ";" if k == "sel" else "", tc(c))
    try:
        out = drv.run(E["d"], sc, len(case["ops"]) + 1)
    except drv.Crash as e:
        return bad("%s\n%s" % (e, sc))
    if out is None:
        return unknown(["timeout"])
    labels = set()
    for (k, c, f), a in zip(case["ops"], out[1:]):
        c = fol.tup(c)
        if k == "cond":
            n, rest = a.split(" ", 1)
            d = fol.f2cl(fol.parse_all(rest)[0][3])
            if n == "0":
                continue
            labels.add("condensed")
            # the result is an instance of the clause with fewer (or equal) literals that is contained in it
            if not drv.subsumes(d, c):
                return bad("%s is condensed to %s, which does not subsume it" % (fol.pcl(c), fol.pcl(d)))
            if not set_subsumes(c, d):
                return bad("%s is condensed to %s, which it does not imply by instantiation" % (fol.pcl(c), fol.pcl(d)))
        elif k == "taut":
            want = cc_taut(c)
            if a == "1":
                labels.add("tautology")
                if not want:
                    return bad("%s is called a tautology, but is not one" % fol.pcl(c))
            elif want:
                labels.add("missed-tautology")
            else:
                labels.add("no-tautology")
        else:
            ls = []
            for x in a.split(" ; "):
                x = x.strip(" ;")
                if x:
                    fl, rest = x.split(" ", 1)
                    l, r = rest.split(" @ ")
                    ls.append((fl, drv.pterm(l), drv.pterm(r)))
            if len(ls) != len(c):
                return bad("selection %s changed the number of literals of %s: %s" % (f, fol.pcl(c), a))
            sel = [x for x in ls if x[0][1] == "1"]
            if f == "NoSelection" and sel:
                return bad("NoSelection selects a literal of %s: %s" % (fol.pcl(c), a))
            if sel:
                labels.add("selected")
                if all(x[0][0] == "1" for x in sel):
                    return bad("selection %s selects only positive literals of %s: %s\n%s" % (f, fol.pcl(c), a, sc))
    return ok(sorted(labels), nontrivial=bool(labels), evals=len(case["ops"]))


def set_subsumes(c, d):
    """Some substitution maps every literal of c into d (several may share an image) or to a false equation t!=t."""
    sk = {v: ("$" + v,) for v in fol.cvars(d)}
    c = sorted(((s, a[0] == "=") + drv.lit_sides(a) for s, a in c), key=lambda x: x[1] and not x[0])
    d = [(s, a[0] == "=") + drv.lit_sides(a) for s, a in fol.csubst(d, sk)]

    def go(i, sub):
        if i == len(c):
            return True
        s, e, l, r = c[i]
        for s2, e2, l2, r2 in d:
            if s == s2 and e == e2:
                for x, y in ((l2, r2), (r2, l2)) if e else ((l2, r2),):
                    m = drv.unify(l, x, dict(sub))
                    m = m if m is None else drv.unify(r, y, m)
                    if m is not None and go(i + 1, m):
                        return True
        if e and not s:
            m = drv.unify(l, r, dict(sub))
            return m is not None and go(i + 1, m)
        return False
    return go(0, {})


PARTS = [
    Part("subsumption", gen_subs, run_subs, 9000, 500000,
         "3 to 25 pairs of a clause and a shuffled, extended or spoilt instance; subsumption must be decided like the "
         "exhaustive reference (units: soundly, and completely for non-equations); non-trivial: both outcomes occur",
         show=lambda c: [(tc(x), tc(y)) for x, y in c["q"][:3]]),
    Part("index", gen_fvi, run_fvi, 9000, 400000,
         "5 to 40 insertions, deletions and forward, backward and variant queries on a clause set with one of nine kinds "
         "of feature vectors; the index must find what a search of the whole set finds, and that must subsume; "
         "non-trivial: something is to be found",
         show=lambda c: {"type": c["ty"], "ops": [(o, x if o == "d" else tc(x)) for o, x in c["ops"][:4]]}),
    Part("single", gen_single, run_single, 14000, 400000,
         "3 to 20 clauses: condensed (the result must subsume the clause and be implied by it), tested for being a "
         "tautology (against congruence closure), or put through a literal selection function (which must not select only "
         "positive literals); non-trivial: a condensation, tautology or selection occurred",
         show=lambda c: [(k, tc(x), f) for k, x, f in c["ops"][:4]]),
]

if __name__ == "__main__":
    sys.exit(pbt.main("C10", "exploration", PARTS, setup))
