"""C06: optional preprocessing keeps satisfiability."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, models, common, proof
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["x"] = build.Builder("fo").program("eprover")


def gate(t, sig, kd):
    """Definition-like clause groups, the targets of predicate elimination, plus uses of the predicate."""
    d = 0 if kd in ("epr", "prop") else 1
    ps = [p for p in sig.p]
    if not ps:
        return []
    p = t.choice(ps)
    vs = tuple("X%d" % i for i in range(sig.p[p]))
    head = ("@", p) + vs
    others = gen.Sig(sig.f, {q: k for q, k in sig.p.items() if q != p}, sig.eq)
    if not others.p and not others.eq:
        return []
    body = [(t.chance(1, 2), gen.atom(t, others, list(vs), d)) for _ in range(t.rand(1, 3))]
    if sig.eq and t.chance(1, 4) and (vs or sig.consts()):
        body[0] = (body[0][0], ("=", gen.term(t, sig, list(vs), 0), gen.term(t, sig, list(vs), d)))
    conj = [((True, head),) + tuple((not s, a) for s, a in body)] + [((False, head), l) for l in body]
    if t.chance(1, 2):
        conj = [tuple((not s, a) if a == head else (s, a) for s, a in c) for c in conj]
    if t.chance(1, 4):
        conj.pop(t.below(len(conj)))
    if t.chance(1, 4):      # almost a definition: a variable that is not in the head, or a head that is no pattern
        i = t.below(len(conj))
        c = conj[i]
        vsub = {v: "Y" for v in vs if t.chance(1, 2)}
        if t.chance(1, 2):
            return [tuple((s, a if a == head else fol.asubst(a, vsub)) for s, a in c) for c in conj]
        conj[i] = tuple((s, a if a == head else fol.asubst(a, vsub)) for s, a in c) if t.chance(1, 2) else \
            fol.csubst(c, {v: t.choice(list(vs) + [(k,) for k in sig.consts()]) for v in vs if t.chance(1, 2)} if vs else {})
    return conj


def eqdef(t, sig):
    """f(X1..Xn) = t, an unfoldable definition."""
    fs = [(f, k) for f, k in sig.f.items() if not f.startswith('"')]
    f, k = t.choice(fs)
    vs = tuple("X%d" % i for i in range(k))
    o = gen.Sig({g: j for g, j in sig.f.items() if g != f or t.chance(1, 8)}, {}, True)
    if not o.consts() and not vs:
        return []
    return [((True, ("=", (f,) + vs, gen.term(t, o, list(vs), 2)) if t.chance(1, 2) else ("=", gen.term(t, o, list(vs), 2), (f,) + vs)),)]


def gen_case(t):
    kd = t.weighted([(5, "full"), (4, "noeq"), (3, "epr"), (3, "prop"), (1, "eq")])
    sig = gen.signature(t, kd)
    dep = 0 if kd in ("epr", "prop") else t.rand(0, 1)
    w = t.below(6)
    if w < 2:
        kd, sig, cs = gen.dense_unsat(t)
        cs = list(cs)
    elif w < 4:
        kd2, sig, cs = gen.unsat_problem(t, nmin=3, nmax=9)
        kd, cs = kd2, list(cs)
    else:
        cs = [gen.clause(t, sig, maxlits=3, maxvars=2, depth=dep) for _ in range(t.rand(2, 9))]
    for _ in range(t.rand(0, 2)):
        cs += gate(t, sig, kd)
    if sig.eq and t.chance(1, 2):
        cs += eqdef(t, sig)
    if t.chance(1, 8):
        cs.append(((t.chance(1, 2), ("=", ('"o1"',), ('"o2"',))),) + t.choice(cs))
    cs = [c for c in t.shuffle(cs) if c]
    a = []
    for o in [t.choice(["bce", "pe"])] if kd == "dense" else t.sample(["bce", "pe", "goal", "unfold"], t.rand(1, 3)):
        if o == "bce":
            a.append("--bce=true")
            if t.chance(1, 3):
                a.append("--bce-max-occs=%d" % t.choice([1, 2, 4, 8]))
        elif o == "pe":
            a.append("--pred-elim=true")
            a += ["--pred-elim-recognize-gates=" + t.choice(["true", "false"])]
            if t.chance(1, 2):
                a.append("--pred-elim-tolerance=%d" % t.choice([0, 5, 50, 500]))
            if t.chance(1, 4):
                a.append("--pred-elim-force-mu-decrease=" + t.choice(["true", "false"]))
            if t.chance(1, 4):
                a.append("--pred-elim-ignore-conj-syms=" + t.choice(["true", "false"]))
            if t.chance(1, 4):
                a.append("--pred-elim-max-occs=%d" % t.choice([1, 2, 4, 8]))
        elif o == "goal":
            a.append("--goal-defs=" + t.choice(["All", "Neg"]))
            if t.chance(1, 2):
                a.append("--goal-subterm-defs")
        else:
            a.append(t.choice(["--eq-unfold-limit=100", "--eq-unfold-limit=1000", "--eq-unfold-limit=-100"]))
            if t.chance(1, 3):
                a.append("--eq-unfold-maxclauses=%d" % t.choice([2, 5, 100]))
    if not any("eq-unfold" in x for x in a) and t.chance(1, 2):
        a.append("--no-eq-unfolding")
    if t.chance(1, 3):
        a.append("--no-preprocessing")
    if t.chance(1, 2):
        text = "\n".join(fol.cnf("c%d" % i, t.weighted([(3, "axiom"), (2, "negated_conjecture")]), c) for i, c in enumerate(cs)) + "\n"
    else:
        k = t.rand(0, min(2, len(cs)))
        text = "\n".join([fol.cnf("c%d" % i, "axiom", c) for i, c in enumerate(cs[k:])] +
                         [fol.fof("g%d" % i, "negated_conjecture", fol.cl2f(c)) for i, c in enumerate(cs[:k])]) + "\n"
    return {"kind": kd, "text": text, "args": a, "unsat": w < 4}


def sat(cls, n, extra=()):
    g = models.Ground(n, 120000)
    try:
        for f in extra:
            g.assert_f(f)
        for c in cls:
            g.assert_clause(c)
        return g.solve()
    except models.TooBig:
        return None
    finally:
        g.close()


def sig(cls):
    fs, ps = {}, {}
    for c in cls:
        fol.csyms(c, fs, ps)
    return fs, ps


def run(case):
    r = erun.run(E["x"], ["-s", "--cnf", "--cpu-limit=5"] + case["args"], case["text"])
    if r.timeout or r.rc in (8, 9):
        return unknown(["timeout"])
    if r.rc != 0:
        return unknown(["rc%s" % r.rc])
    inp = []
    for k, n, role, f, a in fol.parse_all(case["text"]):
        inp.append(fol.f2cl(f if f[0] != "!" else f[2]))
    lines = common.clause_lines(r.out)
    try:
        out = [fol.f2cl(f) for k, n, role, f, a in fol.parse_all(lines)]
    except fol.ParseError as e:
        return bad("the printed clauses cannot be parsed: %s\n%s\n%s" % (e, case["text"], r.out[:3000]))
    labels = [case["kind"]]
    for w in ("BCE eliminated: ", "PE eliminated: "):
        i = r.out.find(w)
        if i >= 0 and r.out[i + len(w)].isdigit() and r.out[i + len(w)] != "0":
            labels.append(w.split()[0].lower())
    di = proof.distinct([fol.cl2f(c) for c in inp])
    do = proof.distinct([fol.cl2f(c) for c in out])
    if len(di) == 0 and "edef" in lines:
        labels.append("goal-defs")
    evals = 0
    res = []

    def fail(n, x, y):
        return bad("over %s elements the input is %s, the preprocessed clauses are %s\nargs: %s\n%s\nclauses:\n%s" % (
            n, x, y, " ".join(case["args"]), case["text"], lines[:4000]))
    # Without equality, elimination of clauses and predicates works on terms, not on elements: it keeps satisfiability,
    # but not the size of the models.
    elim = any(x in ("--bce=true", "--pred-elim=true") for x in case["args"])
    strict = not elim or (any(a[0] == "=" for c in out for s, a in c) and
                          not any(x.startswith("--goal") for x in case["args"]))    # these add equations afterwards
    grew = None
    for n in (1, 2, 3):
        x = sat(inp, n, di)
        y = sat(out, n, do)
        evals += 1
        res.append((x, y))
        if x and y is False:
            return fail(n, "satisfiable", "unsatisfiable")
        if y and x is False:
            if di and str(di) != str(do):
                continue    # distinct objects were eliminated together with their clauses
            if strict:
                return fail(n, "unsatisfiable", "satisfiable")
            grew = grew or n
    if grew:
        if case["unsat"]:
            u = True
        elif any(a[0] == "=" for c in inp for s, a in c):
            u = models.z3_check([fol.close(fol.cl2f(c)) for c in inp] + list(di), 400000) == "unsat"
        else:
            u = models.herbrand_unsat(inp)
        evals += 1
        labels.append("herbrand")
        if u:
            return fail(grew, "unsatisfiable (over any number)", "satisfiable")
    labels.append("sat" if any(x for x, y in res) else "unsat<=3")
    ch = len(inp) != len(out) or sig(inp) != sig(out)
    return ok(labels + (["changed"] if ch else []), nontrivial=ch, evals=evals)


def show(c):
    return {"args": " ".join(c["args"]), "problem": c["text"]}


PARTS = [Part("equisatisfiable", gen_case, run, 20000, 400000,
              "a random clause set with definition-like groups, preprocessed with a random mix of blocked clause "
              "elimination, predicate elimination, goal definitions and equational definition unfolding; for 1, 2 and 3 "
              "elements the result must be satisfiable if the input is, and (where equality is around, or nothing is "
              "eliminated) only then; otherwise a result with a model must not come from a set with unsatisfiable ground "
              "instances; non-trivial: the number of clauses or the signature changed",
              show=show)]

if __name__ == "__main__":
    sys.exit(pbt.main("C06", "exploration", PARTS, setup, assumptions=[
        "satisfiability is compared over domains with 1 to 3 elements"]))
