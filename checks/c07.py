"""C07: term orderings are what they claim to be."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, drv
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["d"] = build.Builder("fo").harness("drv")


PREC = [p for p in erun.PGEN]
WGT = [w for w in erun.WGEN if w != "none"]


def sig_and_problem(t):
    sig = gen.Sig({}, {}, True)
    for i in range(t.rand(1, 3)):
        sig.f["abc"[i]] = 0
    for i in range(t.rand(1, 4)):
        sig.f["fghk"[i]] = t.weighted([(4, 2), (4, 1), (1, 3)])
    for i in range(t.rand(1, 2)):
        sig.p["pq"[i]] = t.rand(0, 2)
    cs = []
    for f, k in list(sig.f.items()):    # every symbol occurs
        cs.append(((True, ("=", (f,) + ("X1",) * k, gen.term(t, sig, ["X1"], 1))),))
    for p, k in sig.p.items():
        cs.append(((t.chance(1, 2), ("@", p) + tuple(gen.term(t, sig, ["X1"], 1) for _ in range(k))),))
    for _ in range(t.rand(0, 4)):
        cs.append(gen.clause(t, sig, maxlits=3, maxvars=2, depth=2))
    cs = [c for c in t.shuffle(cs) if c]
    return sig, [fol.cnf("c", t.weighted([(3, "axiom"), (1, "negated_conjecture")]), c) for c in cs]


VS = ["X1", "X2", "X3", "X4"]


def mutate(t, sig, s, d=0):
    """A term close to s."""
    if isinstance(s, str) or t.chance(1, 3) or len(s) == 1:
        k = t.below(5)
        if k == 0:
            return t.choice(VS)
        if k == 1 and not isinstance(s, str) and len(s) > 1:
            return t.choice(s[1:])
        if k == 2 and not isinstance(s, str):
            same = [f for f, n in sig.f.items() if n == len(s) - 1]
            return (t.choice(same),) + tuple(s[1:]) if same else s
        if k == 3 and not isinstance(s, str) and len(s) > 2:
            return (s[0],) + tuple(t.shuffle(s[1:]))
        if k == 4:
            u = [f for f, n in sig.f.items() if n == 1]
            if u:
                return (t.choice(u), s)
        return gen.term(t, sig, VS, t.rand(0, 2))
    i = t.rand(1, len(s) - 1)
    return s[:i] + (mutate(t, sig, s[i], d + 1),) + s[i + 1:]


def pair(t, sig):
    s = gen.term(t, sig, VS, t.rand(1, 4))
    r = t.below(6)
    if r == 0:
        return s, gen.term(t, sig, VS, t.rand(0, 3))
    if r == 1:
        x = s
        while not isinstance(x, str) and len(x) > 1 and t.chance(2, 3):
            x = t.choice(x[1:])
        return s, x
    u = s
    for _ in range(t.rand(1, 3)):
        u = mutate(t, sig, u)
    return (s, u) if t.chance(1, 2) else (u, s)


def gen_case(t):
    sig, prob = sig_and_problem(t)
    ty = t.choice(["KBO6", "KBO", "LPO4", "LPO", "LPO4Copy", "LPOCopy"])
    prec = ""
    fs = [f for f in list(sig.f) + list(sig.p)]
    pg = t.choice(PREC)
    if t.chance(1, 4):
        o = t.sample(fs, t.rand(2, len(fs)))
        k = t.rand(0, len(o))
        prec = ",".join(x for x in (">".join(o[:k]), ">".join(o[k:])) if ">" in x)
        if t.chance(1, 2):
            pg = "none"
    w = ""
    if ty.startswith("KBO") and t.chance(1, 4):
        w = ",".join("%s:%d" % (f, t.rand(1, 4)) for f in t.sample(fs, t.rand(1, len(fs))))
    cw = t.weighted([(3, -1), (2, 1), (1, 2), (1, 3)])
    fl = ""
    if t.chance(1, 3):
        fl = t.choice("d v dv".split())
    if t.chance(1, 3):
        fl += "".join(x + str(t.rand(0, 5)) for x in t.sample("CBASP", t.rand(1, 3)))
    ocb = "ocb %s;%s;%s;%d;%s;%s;%s" % (ty, pg, t.choice(WGT) if ty.startswith("KBO") else "constant", cw, prec, w, fl or "-")
    q = []
    nv = t.weighted([(9, 12), (1, 150)])
    high = t.choice([60, 63, 64, 65, 100, 127, 128, 129, 140]) if nv > 12 else 0

    def up(x):
        """Moves the variables to higher codes."""
        if isinstance(x, str):
            return "X%d" % (int(x[1:]) + high) if int(x[1:]) % 2 else x
        return (x[0],) + tuple(up(y) for y in x[1:])
    for _ in range(t.rand(4, 30)):
        s, u = pair(t, sig)
        if t.chance(1, 3):
            sub = []
            for v in t.sample(VS, t.rand(1, 3)):
                # acyclic: only later variables, ground or fresh ones
                sub.append((v, gen.term(t, sig, ["X5", "X6"] if t.chance(2, 3) else [], t.rand(0, 2))))
            q.append((up(s), up(u), [(up(v), up(x)) for v, x in sub]))
        else:
            q.append((up(s), up(u), None))
    lits = []
    for _ in range(t.rand(1, 4)):
        c = gen.clause(t, sig, maxlits=4, maxvars=3, depth=2)
        if len(c) > 0:
            if t.chance(1, 2) and c[0][1][0] == "=":
                s, a = c[0]
                c += ((t.chance(1, 2), ("=", mutate(t, sig, a[1]), a[2])),)
            lits.append(c)
    return {"prob": prob, "ocb": ocb, "q": q, "c": lits, "nv": nv}


def admissible(ty, syms, varw, prec):
    """Why the ordering is no simplification ordering, or None."""
    names = list(syms)
    for f in names:
        for g in names:
            p = prec(f, g)
            if (f == g) != (p == "="):
                return "%s and %s are %s in the precedence" % (f, g, p)
            if {p, prec(g, f)} not in ({"<", ">"}, {"="}, {"#"}):
                return "the precedence of %s and %s is %s one way and %s the other" % (f, g, p, prec(g, f))
            if p == ">":
                for h in names:
                    if prec(g, h) == ">" and prec(f, h) != ">":
                        return "%s > %s > %s, but %s is not greater than %s" % (f, g, h, f, h)
    if ty.startswith("KBO"):
        if varw < 0:
            return "weights: the weight of variables is %d" % varw
        for f, (k, w, ispred) in syms.items():
            if f == "$true":
                continue
            if w < 0 or (k == 0 and w < max(varw, 1)):
                return "weights: %s/%d has weight %d, variables have %d" % (f, k, w, varw)
            if k == 1 and w == 0 and not ispred and any(prec(f, g) != ">" for g in names if g != f and g != "$true" and not syms[g][2]):
                return "weights: %s/1 has weight 0 but is not the greatest symbol" % f
    return None


def run(case):
    sc = "vars %d\n" % case["nv"] + "".join("P %s\n" % c.replace("\n", " ") for c in case["prob"]) + case["ocb"] + "\n"
    for s, u, sub in case["q"]:
        s, u = fol.pt(s), fol.pt(u)
        if sub:
            sc += "cmps %s ; %s ; %s\n" % (s, u, " ; ".join("%s ; %s" % (v, fol.pt(x)) for v, x in sub))
        else:
            sc += "cmp %s ; %s\n" % (s, u)
    for c in case["c"]:
        sc += "max %s\n" % fol.cnf("c", "axiom", c)
    try:
        out = drv.run(E["d"], sc, 1 + len(case["q"]) + len(case["c"]))
    except drv.Crash as e:
        return bad("%s\n%s" % (e, sc))
    if out is None:
        return unknown(["timeout"])
    ty = case["ocb"].split()[1].split(";")[0]
    parts = out[0].split(" | ")
    varw = int(parts[0].split()[1])
    syms, rows = {}, {}
    for p in parts[1:]:
        n, k, w, ip, code, row = p.split()
        syms[n] = (int(k), int(w), ip == "1")
        rows[n] = row
    names = list(syms)
    idx = {n: i for i, n in enumerate(names)}

    def prec(f, g):
        return rows[f][idx[g]]
    labels = [ty]
    user = case["ocb"].split(";")[4:6]
    if user[0]:
        labels.append("user-precedence")
    if user[1]:
        labels.append("user-weights")
    w = admissible(ty, syms, varw, prec)
    if w is not None and not (w.startswith("weights") and (user[0] or user[1])):
        return bad("%s\n%s" % (w, sc[:sc.index(case["ocb"])] + case["ocb"] + "\n" + out[0]))
    if w is not None:
        labels.append("user-inadmissible")
        return ok(labels, nontrivial=False)
    o = drv.Kbo({n: v[1] for n, v in syms.items()}, varw, prec) if ty.startswith("KBO") else drv.Lpo(prec)
    evals = 1
    kinds = set()
    for (s, u, sub), a in zip(case["q"], out[1:]):
        s, u = fol.tup(s), fol.tup(u)
        if sub:
            m = {v: fol.tup(x) for v, x in sub}
            s2, u2 = drv.deref(s, m), drv.deref(u, m)
        else:
            s2, u2 = s, u
        want = drv.rel(o, s2, u2)
        kinds.add(want)
        evals += 1
        inv = {">": "<", "<": ">"}.get(want, want)
        exp = "%s %s %d %d" % (want, inv, want == ">", want == "<")
        if a != exp:
            return bad("comparing %s and %s%s: expected %s, got %s (relation, converse, first greater, second greater)\n%s\n%s" % (
                fol.pt(s), fol.pt(u), " under %s" % [(v, fol.pt(fol.tup(x))) for v, x in sub] if sub else "", exp, a, case["ocb"], out[0]))
    mo = drv.MulOrd(o)
    for c, a in zip(case["c"], out[1 + len(case["q"]):]):
        ls = []
        for x in a.split(" ; "):
            x = x.strip(" ;")
            if not x:
                continue
            fl, rest = x.split(" ", 1)
            l, r = rest.split(" @ ")
            ls.append((fl, drv.pterm(l), drv.pterm(r)))
        evals += 1
        for i, (fl, l, r) in enumerate(ls):
            rr = drv.rel(o, l, r)
            if (fl[1] == "1") != (rr == ">") or rr == "<":
                return bad("literal %s @ %s of %s is marked oriented=%s, but the sides are %s\n%s\n%s" % (
                    fol.pt(l), fol.pt(r), fol.pcl(fol.tup(c)), fl[1], rr, case["ocb"], out[0]))
            m1 = drv.litms(fl[0] == "1", l, r)
            others = [drv.litms(f2[0] == "1", l2, r2) for j, (f2, l2, r2) in enumerate(ls) if j != i]
            mx = not any(drv.mgt(mo, x, m1) for x in others)
            if mx != (fl[2] == "1"):
                if mx:
                    return bad("literal %d of %s is maximal but not marked so: %s\n%s\n%s" % (i, fol.pcl(fol.tup(c)), a, case["ocb"], out[0]))
                labels.append("overmarked")
        labels.append("maximal")
    for k in kinds:
        labels.append({">": "greater", "<": "less", "=": "equal", "#": "incomparable"}[k])
    return ok(labels, nontrivial=len(kinds) > 1, evals=evals)


def show(c):
    return {"ordering": c["ocb"], "pairs": [(fol.pt(fol.tup(s)), fol.pt(fol.tup(u))) for s, u, x in c["q"][:4]]}


PARTS = [Part("definition", gen_case, run, 50000, 1000000,
              "a random signature and problem, an ordering from every generator of precedences and weights (or given by the "
              "user), 4 to 30 pairs of similar terms, a third of them under a substitution: the precedence must be a strict "
              "partial order and the weights admissible, every comparison must agree with the textbook definition, and no "
              "maximal literal may be left unmarked; non-trivial: at least two different outcomes among the pairs", show=show)]

if __name__ == "__main__":
    sys.exit(pbt.main("C07", "exploration", PARTS, setup, assumptions=[
        "terms have depth at most about 6; the reference definitions of KBO and LPO are in vlib/drv.py"]))
