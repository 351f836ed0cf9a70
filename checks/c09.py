"""C09: unification, matching and the term indices built on them."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, drv
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["d"] = build.Builder("fo").harness("drv")


def signature(t):
    sig = gen.Sig({"a": 0}, {}, True)
    for i in range(t.rand(0, 2)):
        sig.f["bc"[i]] = 0
    for i in range(t.rand(1, 4)):
        sig.f["fghk"[i]] = t.weighted([(5, 2), (3, 1), (2, 3)])
    return sig


def decl(sig):
    """One clause that mentions every symbol."""
    return "vars 12\nP cnf(c,axiom,(%s)).\n" % "|".join("%s=a" % fol.pt((f,) + ("X1",) * k) for f, k in sorted(sig.f.items()))


VS = ["X1", "X2", "X3", "X4"]


def abstract(t, s, sub, vs):
    """A generalization of s: some subterms become variables, mostly consistently."""
    if t.chance(1, 4):
        for v, x in sub:
            if x == s and t.chance(3, 4):
                return v
        v = t.choice(vs)
        sub.append((v, s))
        return v
    if isinstance(s, str):
        return s
    return (s[0],) + tuple(abstract(t, a, sub, vs) for a in s[1:])


def pair(t, sig, vs=VS):
    s = gen.term(t, sig, vs, t.rand(1, 4))
    r = t.below(5)
    if r == 0:
        return s, gen.term(t, sig, vs, t.rand(1, 3))
    if r == 1:
        return abstract(t, s, [], vs), s
    if r == 2:
        x, y = abstract(t, s, [], vs), abstract(t, s, [], vs)
        return x, y
    if r == 3:
        g = gen.term(t, sig, ["X5"], t.rand(1, 3))
        return abstract(t, g, [], vs), abstract(t, g, [], ["X6", "X7", "X1"])
    # linear chains with occurs-check traps
    f = [h for h, k in sig.f.items() if k == 2]
    if not f:
        return s, abstract(t, s, [], vs)
    f = f[0]
    x = y = "X1"
    for i in range(t.rand(1, 3)):
        x = (f, x, t.choice(vs))
        y = (f, y, gen.term(t, sig, vs, 1))
    return (x, y) if t.chance(1, 2) else ((f, x, t.choice(vs)), (f, t.choice(vs), y))


def gen_unify(t):
    sig = signature(t)
    return {"decl": decl(sig), "q": [(t.choice(["mgu", "match"]),) + pair(t, sig) for _ in range(t.rand(4, 40))]}


def sides(s):
    return [x.strip() for x in s.split(" ; ")]


def run_unify(case):
    sc = case["decl"] + "".join("%s %s ; %s\n" % (o, fol.pt(s), fol.pt(u)) for o, s, u in case["q"])
    try:
        out = drv.run(E["d"], sc, len(case["q"]))
    except drv.Crash as e:
        return bad("%s\n%s" % (e, sc))
    if out is None:
        return unknown(["timeout"])
    labels = set()
    for (op, s, u), a in zip(case["q"], out):
        s, u = fol.tup(s), fol.tup(u)
        what = "%s of %s and %s gives: %s" % (op, fol.pt(s), fol.pt(u), a)
        secs = a.split(" : ")
        got = a[0] == "1"
        if op == "mgu":
            m = drv.unify(s, u)
            want = m is not None
        else:
            m = drv.match(s, u)
            want = m is not None
        if got != want:
            return bad("%s\nexpected %s" % (what, "success: %s" % m if want else "failure"))
        labels.add(op + ("+" if want else "-"))
        back = sides(secs[-1])
        if [drv.pterm(x) for x in back] != [s, u]:
            return bad("after undoing the bindings the terms are %s\n%s" % (back, what))
        binds = [x for x in secs[0].split(" ; ")[1:]]
        if not got:
            if binds:
                return bad("bindings are left after a failure\n%s" % what)
            continue
        inst = sides(secs[1])
        x, y = drv.pterm(inst[0]), drv.pterm(inst[1])
        if op == "match":
            if x != u:
                return bad("the instance is not the target\n%s" % what)
            continue
        if x != y or inst[2] != "1":
            return bad("the instances differ (or are not shared)\n%s" % what)
        vs = sorted(set(drv.vcount(s)) | set(drv.vcount(u)))
        sub = {binds[i]: drv.pterm(binds[i + 1]) for i in range(0, len(binds), 2)}
        if any(v not in vs for v in sub):
            return bad("a foreign variable is bound\n%s" % what)
        # most general: the images of all variables are a variant of ours
        p = ("tuple",) + tuple(drv.deref(v, sub) for v in vs)
        q = ("tuple",) + tuple(drv.deref(v, m) for v in vs)
        if not drv.variant(p, q):
            return bad("not a most general unifier\n%s" % what)
    return ok(sorted(labels), nontrivial=len(labels) > 1, evals=len(case["q"]))


FPS = [f for f in erun.FP if f not in ("NPDT", "NoIndex")]


def gen_index(t):
    sig = signature(t)
    kind = t.weighted([(3, "fp"), (2, "pdt")])
    ops = []
    pool = [gen.term(t, sig, VS, t.rand(1, 3)) for _ in range(t.rand(2, 6))]
    n = 0
    live = []
    for _ in range(t.rand(5, 60)):
        r = t.below(10)
        if r < 4:
            s = t.choice(pool) if t.chance(1, 2) else gen.term(t, sig, VS, t.rand(0, 3))
            if t.chance(1, 2):
                s = abstract(t, s, [], VS)
            if kind == "fp":
                ops.append(("i", s))
                if s not in live:
                    live.append(s)
            else:
                r2 = gen.term(t, sig, VS, t.rand(0, 2))
                if not isinstance(s, str) and r2 != s:
                    ops.append(("i", (s, r2)))
                    live.append(n)
                    n += 1
        elif r < 6 and live:
            x = t.choice(live)
            live.remove(x)
            ops.append(("d", x))
        else:
            s = t.choice(pool) if t.chance(1, 2) else gen.term(t, sig, VS, t.rand(1, 4))
            k = t.below(3)
            if k == 0:
                s = abstract(t, s, [], VS)
            elif k == 1:
                s = drv.deref(s, {v: gen.term(t, sig, ["X5", "X6"], t.rand(0, 2)) for v in t.sample(VS, 2)})
            ops.append((t.choice("um") if kind == "fp" else "q", s))
    return {"decl": decl(sig), "kind": kind, "fp": t.choice(FPS) if kind == "fp" else
            "KBO6;%s;%s;-1;;;-" % (t.choice(erun.PGEN), t.choice(["firstmaximal0", "constant", "arity"])), "ops": ops}


def run_index(case):
    fp = case["kind"] == "fp"
    sc = case["decl"] + ("fp n %s\n" % case["fp"] if fp else "ocb %s\npdt n x\n" % case["fp"])
    for o, x in case["ops"]:
        if fp:
            sc += "fp %s %s\n" % (o, fol.pt(fol.tup(x)))
        elif o == "i":
            l, r = fol.tup(x)
            sc += "pdt i cnf(c,axiom,(%s=%s)).\n" % (fol.pt(l), fol.pt(r))
        elif o == "d":
            sc += "pdt d %d\n" % x
        else:
            sc += "pdt q %s\n" % fol.pt(fol.tup(x))
    try:
        out = drv.run(E["d"], sc, len(case["ops"]) + (1 if fp else 2))
    except drv.Crash as e:
        return bad("%s\n%s" % (e, sc))
    if out is None:
        return unknown(["timeout"])
    out = out[1 if fp else 2:]
    labels = {case["fp"] if fp else "pdt"}
    hits = 0
    if fp:
        live = set()
        for (o, x), a in zip(case["ops"], out):
            x = fol.tup(x)
            if o == "i":
                live.add(x)
            elif o == "d":
                if a != "1":
                    return bad("%s is stored but was not found for deletion\n%s" % (fol.pt(x), sc))
                live.discard(x)
            else:
                got = [drv.pterm(y) for y in a.split(";") if y.strip()]
                if len(got) != len(set(got)):
                    return bad("query %s %s returns a term twice: %s\n%s" % (o, fol.pt(x), a, sc))
                if not set(got) <= live:
                    return bad("query %s %s returns a term that is not stored: %s\n%s" % (o, fol.pt(x), a, sc))
                for y in live:
                    if o == "u":
                        need = drv.unify(drv.rename(x, "a"), drv.rename(y, "b")) is not None
                    else:
                        need = drv.match(x, y) is not None
                    if need:
                        hits += 1
                        if y not in got:
                            return bad("query %s %s misses the stored term %s\n%s" % (o, fol.pt(x), fol.pt(y), sc))
    else:
        live = {}
        n = 0
        for (o, x), a in zip(case["ops"], out):
            if o == "i":
                i, orient, rest = a.split(" ", 2)
                l, r = [drv.pterm(y) for y in rest.split(" ; ")]
                live[int(i)] = [("L", l)] + ([] if orient == "1" else [("R", r)])
            elif o == "d":
                live.pop(x)
            else:
                x = fol.tup(x)
                got = set()
                for y in a.split(" ; "):
                    y = y.strip(" ;")
                    if y:
                        i, side, inst = y.split(" ", 2)
                        got.add((int(i), side))
                        if drv.pterm(inst) != x:
                            return bad("query %s returns %s, whose instance is not the query\n%s" % (fol.pt(x), y, sc))
                want = {(i, s) for i, ls in live.items() for s, l in ls if drv.match(l, x) is not None}
                hits += len(want)
                if got != want:
                    return bad("query %s returns %s, expected %s\n%s" % (fol.pt(x), sorted(got), sorted(want), sc))
    return ok(sorted(labels), nontrivial=hits > 0, evals=len(case["ops"]))


def show_u(c):
    return [(o, fol.pt(fol.tup(s)), fol.pt(fol.tup(u))) for o, s, u in c["q"][:4]]


def show_i(c):
    return {"index": c["fp"], "operations": [str(o) for o in c["ops"][:6]]}


PARTS = [
    Part("unify", gen_unify, run_unify, 20000, 800000,
         "4 to 40 pairs of related terms that share variables; unification and matching must succeed exactly if the "
         "reference does, yield a most general unifier (the match), shared instances, and leave nothing behind; "
         "non-trivial: at least two different outcomes", show=show_u),
    Part("index", gen_index, run_index, 20000, 500000,
         "5 to 60 insertions, deletions and queries on a fingerprint index (every fingerprint function) or on a perfect "
         "discrimination tree with equations; fingerprint queries must return all stored terms that unify with (are "
         "instances of) the query and only stored terms, tree queries exactly the matching sides; non-trivial: at least "
         "one stored term should be found", show=show_i),
]

if __name__ == "__main__":
    sys.exit(pbt.main("C09", "exploration", PARTS, setup))
