"""C04: clausification neither loses nor adds models."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, models, common, proof
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["x"] = build.Builder("fo").program("eprover")


def options(t):
    a = ["--no-eq-unfolding"]
    if t.chance(1, 2):
        a.append("--no-preprocessing")
    if t.chance(2, 3):
        a.append("--definitional-cnf=%d" % t.choice([24, 0, 1, 2, 3, 4, 8, 1000]))
    if t.chance(1, 3):
        a.append("--miniscope-limit=%d" % t.choice([0, 1, 5, 1048576]))
    if t.chance(1, 6):
        a.append("--fool-unroll=" + t.choice(["true", "false"]))
    return a


def big(t, sig, kd):
    """Formulas with the shapes that trigger definitions: nested equivalences and disjunctions of conjunctions."""
    td = t.rand(0, 1) if kd not in ("epr", "prop") else 0
    k = t.below(4)
    f = lambda d: gen.formula(t, sig, d, tdepth=td)
    if k == 0:
        out = f(1)
        for _ in range(t.rand(2, 4)):
            out = (t.choice(["<=>", "<~>"]), out, f(1)) if t.chance(2, 3) else (t.choice(["=>", "|", "&"]), out, f(2))
        return out
    if k == 1:
        return ("|",) + tuple(("&",) + tuple(f(1) for _ in range(t.rand(2, 4))) for _ in range(t.rand(2, 4)))
    if k == 2:
        x = "Q1"
        return (t.choice(["!", "?"]), (x,), ("|",) + tuple(
            ("&",) + tuple(gen.formula(t, sig, 1, vs=(x,), tdepth=td) for _ in range(t.rand(2, 3)))
            for _ in range(t.rand(2, 4))))
    return ("=>", big0(t, sig, td), f(3))


def big0(t, sig, td):
    vs = ()
    pre = []
    for i in range(t.rand(1, 4)):
        v = "Q%d" % i
        pre.append((t.choice(["!", "?"]), (v,)))
        vs += (v,)
    f = gen.formula(t, sig, 2, vs=vs, tdepth=td)
    for q, v in reversed(pre):
        f = (q, v, f)
    return f


def shared(t, sig, kd, pool):
    """Formulas that use the same subformulas several times and with different polarity."""
    td = 1 if kd not in ("epr", "prop") else 0
    op = lambda a, b: (t.weighted([(3, "&"), (3, "|"), (2, "=>"), (2, "<=>")]), a, b)
    if not pool:
        pool.extend(gen.formula(t, sig, t.rand(0, 1), vs=("Q0", "Q1"), tdepth=td) for _ in range(t.rand(2, 4)))
        for _ in range(t.rand(2, 4)):
            f = op(t.choice(pool), t.choice(pool))
            if t.chance(1, 4):
                f = ("~", f)
            if t.chance(1, 6):
                f = (t.choice(["!", "?"]), (t.choice(["Q0", "Q1"]),), f)
            pool.append(f)
    f = t.choice(pool[2:])
    for _ in range(t.rand(1, 3)):
        g = t.choice(pool[2:])
        if t.chance(1, 3):
            g = ("~", g)
        f = op(f, g) if t.chance(1, 2) else op(g, f)
    for v in t.shuffle(["Q0", "Q1"]):
        f = (t.weighted([(2, "!"), (1, "?")]), (v,), f)
    return f


def gen_case(t):
    kd = t.weighted([(4, "full"), (3, "noeq"), (2, "epr"), (2, "prop"), (1, "eq")])
    sig = gen.signature(t, kd)
    n = t.weighted([(5, 2), (1, 1), (2, 3)])
    I = gen.interp(t, sig, n)
    if t.chance(1, 6) and n > 1:
        for nm, v in zip(['"o1"', '"o2"'], t.shuffle(range(n))):
            sig.f[nm] = 0
            I.f[nm] = [v]
    fs = []
    pool = []
    sh = t.chance(1, 3)
    for i in range(t.weighted([(4, 1), (3, 2), (1, 3)])):
        if sh:
            f = shared(t, sig, kd, pool)
        elif t.chance(1, 2):
            f = big(t, sig, kd)
        else:
            f = gen.formula(t, sig, t.rand(1, 5), tdepth=t.rand(0, 2) if kd not in ("epr", "prop") else 0)
        if gen.quantifier_cost(f, 3) > 4000:
            continue
        role = t.weighted([(5, "axiom"), (2, "conjecture"), (1, "negated_conjecture"), (1, "hypothesis")])
        if role == "conjecture" and any(r == role for r, _ in fs):
            role = "axiom"
        v = I.ev(f)
        if v == (role == "conjecture"):
            f = ("~", f)
        fs.append((role, f))
    if not fs:
        raise pbt.Discard()
    text = "\n".join(fol.fof("f%d" % i, r, f) for i, (r, f) in enumerate(fs)) + "\n"
    return {"kind": kd, "text": text, "args": options(t) + (["--definitional-cnf=%d" % t.rand(0, 3)] if sh else []), "I": {"n": n, "f": I.f, "p": I.p}}


def run(case):
    r = erun.run(E["x"], ["-s", "--cnf", "--cpu-limit=5"] + case["args"], case["text"])
    if r.timeout or r.rc in (8, 9):
        return unknown(["timeout"])
    if r.rc != 0:
        return unknown(["rc%s" % r.rc])
    fs = []
    for k, n, role, f, a in fol.parse_all(case["text"]):
        f = fol.close(f)
        fs.append(("~", f) if role == "conjecture" else f)
    try:
        cls = [fol.f2cl(f) for k, n, role, f, a in fol.parse_all(common.clause_lines(r.out))]
    except fol.ParseError as e:
        return bad("the printed clauses cannot be parsed: %s\n%s\n%s" % (e, case["text"], r.out[:3000]))
    info = "\nargs: %s\n%s\nclauses:\n%s" % (" ".join(case["args"]), case["text"], common.clause_lines(r.out)[:4000])
    I = fol.Interp(case["I"]["n"], case["I"]["f"], case["I"]["p"])
    labels = [case["kind"]]
    evals = 0
    isyms = set()
    for f in fs:
        isyms |= proof.all_syms(f)
    new = set()
    for c in cls:
        a, b = fol.csyms(c)
        new |= {x for x in a if ("f", x) not in isyms} | {x for x in b if ("p", x) not in isyms}
    if any(x.startswith("esk") for x in new):
        labels.append("skolem")
    if any(x.startswith("epred") for x in new):
        labels.append("definitions")
    g = models.Ground(I.n, 250000)
    try:
        g.fixed(I)
        for c in cls:
            g.assert_clause(c)
        r1 = g.solve()
        evals += 1
        if r1 is False:
            return bad("a model of the formulas has no expansion to a model of the clauses\nmodel: %s%s" % (case["I"], info))
    except models.TooBig:
        labels.append("toobig")
    finally:
        g.close()
    neg = ("~", ("&",) + tuple(fs)) if len(fs) > 1 else ("~", fs[0])
    d = proof.distinct(fs)
    for n in (1, 2, 3):
        J = models.find_model(d + [neg], (n,), cls, limit=120000)
        evals += 1
        if J is not None:
            return bad("a model of the clauses is not a model of the formulas\nmodel: n=%d f=%s p=%s%s" % (J.n, J.f, J.p, info))
    return ok(labels, nontrivial=len(cls) > 0, evals=evals)


def show(c):
    return {"args": " ".join(c["args"]), "problem": c["text"]}


PARTS = [Part("models", gen_case, run, 9000, 200000,
              "1 to 3 random formulas clausified under random options; the clauses must hold in some expansion of a "
              "given model, and no structure with 1 to 3 elements may satisfy the clauses and falsify the formulas; "
              "non-trivial: at least one clause results", show=show)]

if __name__ == "__main__":
    sys.exit(pbt.main("C04", "exploration", PARTS, setup, assumptions=[
        "counter-models with more than 3 elements are not searched"]))
