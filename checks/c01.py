"""C01: refutations and derived clauses are sound (known finite model as oracle)."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, models, common
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["x"] = build.Builder("fo").program("eprover")
    E["strats"] = common.strategies(E["x"])


def objects(t, sig, I):
    """Adds distinct objects / numbers as constants with distinct values."""
    if I.n >= 2 and t.chance(1, 8):
        names = t.sample(['"o1"', '"o2"', '"o3"'], t.rand(2, I.n))
        vals = t.shuffle(range(I.n))
        for nm, v in zip(names, vals):
            sig.f[nm] = 0
            I.f[nm] = [v]
        return True
    return False


def limits(t):
    return ["--processed-clauses-limit=%d" % t.choice([30, 60, 120, 300]), "--generated-limit=%d" % t.choice([100, 300, 1000]), "--cpu-limit=3"]


def gen_cnf(t):
    kd = gen.kind(t)
    sig = gen.signature(t, "full" if kd == "horn" else kd)
    n = t.weighted([(1, 1), (5, 2), (3, 3)])
    I = gen.interp(t, sig, n)
    obj = objects(t, sig, I)
    if t.chance(1, 8):
        kd, sig, I, cs = gen.context_problem(t)
        n = I.n
    else:
        cs = gen.sat_clauses(t, sig, I, t.rand(3, 13), horn=kd == "horn", unit=kd == "ueq", maxvars=3,
                             depth=t.rand(1, 3) if kd not in ("epr", "prop") else 0)
    if not cs:
        raise pbt.Discard()
    roles = [t.weighted([(5, "axiom"), (2, "negated_conjecture"), (1, "hypothesis")]) for _ in cs]
    cfg = erun.config(t, strategies=E["strats"])
    text = "\n".join(fol.cnf("c%d" % i, r, c) for i, (r, c) in enumerate(zip(roles, cs))) + "\n"
    return {"kind": kd, "text": text, "args": cfg + limits(t), "I": {"n": n, "f": I.f, "p": I.p}}


def gen_fof(t):
    kd = t.weighted([(4, "full"), (2, "noeq"), (1, "epr"), (1, "prop"), (1, "eq")])
    sig = gen.signature(t, kd)
    n = t.weighted([(1, 1), (5, 2), (2, 3)])
    I = gen.interp(t, sig, n)
    objects(t, sig, I)
    out = []
    for i in range(t.rand(2, 7)):
        f = gen.formula(t, sig, t.rand(1, 4), tdepth=t.rand(0, 2) if kd not in ("epr", "prop") else 0)
        if gen.quantifier_cost(f, n) > 3000:
            continue
        if not I.ev(f):
            f = ("~", f)
        out.append((t.weighted([(5, "axiom"), (1, "hypothesis"), (1, "lemma")]), f))
    for c in gen.sat_clauses(t, sig, I, t.rand(0, 4), maxvars=3, depth=1 if kd not in ("epr", "prop") else 0):
        out.append(("axiom", fol.cl2f(c)))
    if t.chance(2, 3):
        f = gen.formula(t, sig, t.rand(1, 4), tdepth=1 if kd not in ("epr", "prop") else 0)
        if gen.quantifier_cost(f, n) > 3000:
            raise pbt.Discard()
        if I.ev(f):
            f = ("~", f)
        out.append(("conjecture", f))
    if not out:
        raise pbt.Discard()
    cfg = erun.config(t, strategies=E["strats"])
    text = "\n".join(fol.fof("f%d" % i, r, f) for i, (r, f) in enumerate(out)) + "\n"
    return {"kind": "fof-" + kd, "text": text, "args": cfg + limits(t), "I": {"n": n, "f": I.f, "p": I.p}}


def run(case):
    r = erun.run(E["x"], ["-s", "--print-saturated=eigEIG"] + case["args"], case["text"])
    if r.timeout:
        return unknown(["timeout"])
    if r.status in erun.PROVED or r.rc == 0:
        return bad("eprover claims %s (exit %s) for a problem that has a model\nargs: %s\n%s\nmodel: %s" % (
            r.status, r.rc, " ".join(case["args"]), case["text"], case["I"]))
    if r.rc not in (1, 8, 9, 10, 11):
        return unknown(["rc%s" % r.rc])
    I = fol.Interp(case["I"]["n"], case["I"]["f"], case["I"]["p"])
    lines, verdict = common.eval_clauses(I, r.out)
    i = verdict.find("F")
    if i >= 0:
        return bad("a derived clause is false in a model of the input: %s\nargs: %s\n%s\nmodel: %s" % (
            lines[i], " ".join(case["args"]), case["text"], case["I"]))
    n = verdict.count("T")
    try:
        new = [fol.f2cl(f) for k, nm, role, f, ann in fol.parse_all(
            "\n".join([l for l, v in zip(lines, verdict) if v == "N"][:150]))]
    except fol.ParseError:
        return unknown(["unparsed"])
    labels = [case["kind"], "szs:%s" % r.status]
    if new:
        # introduced symbols: some expansion of the model must satisfy all clauses
        labels.append("new-symbols")
        g = models.Ground(I.n, 200000)
        try:
            g.fixed(I)
            for c in new:
                if I.n ** len(fol.cvars(c)) <= 300:
                    g.assert_clause(c)
            if g.solve() is False:
                return bad("no interpretation of the introduced symbols satisfies the derived clauses\nargs: %s\n%s\nmodel: %s\noutput:\n%s" % (
                    " ".join(case["args"]), case["text"], case["I"], r.out[:3000]))
            n += len(new)
        except models.TooBig:
            labels.append("toobig")
        finally:
            g.close()
    if "U" in verdict:
        labels.append("unparsed")
    if n > 20:
        labels.append("derived>20")
    return ok(labels, nontrivial=n > 0, evals=1 + n)


def show(c):
    return {"args": " ".join(c["args"]), "problem": c["text"], "model": c["I"]}


RULE = ("a problem generated true in a random finite interpretation and a random configuration; non-trivial: "
        "eprover terminated normally and at least one printed clause was evaluated in the interpretation")
PARTS = [Part("cnf-model", gen_cnf, run, 11000, 300000, RULE, show=show),
         Part("fof-model", gen_fof, run, 7000, 200000, RULE, show=show)]

if __name__ == "__main__":
    sys.exit(pbt.main("C01", "exploration", PARTS, setup, assumptions=[
        "problems are small (at most ~17 clauses or formulas, finite models of size 1-3), runs bounded by clause limits"]))
