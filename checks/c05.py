"""C05: simplification and deletion of clauses lose nothing: what is left still implies the input."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, models, common, proof
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["x"] = build.Builder("fo").program("eprover")


def gen_case(t):
    kd = t.weighted([(5, "full"), (3, "ueq"), (2, "eq"), (3, "noeq"), (2, "epr"), (1, "prop"), (2, "horn")])
    if t.chance(1, 8):
        kd, sig, I, cs = gen.context_problem(t)
    elif t.chance(2, 3):
        kd, sig, I, cs = gen.sat_problem(t, kd, nmin=3, nmax=10)
    else:
        kd, sig, cs = gen.unsat_problem(t, nmin=3, nmax=12)
    # redundancy on purpose: instances, permutations, duplicates, weakenings
    for _ in range(t.rand(0, 5)):
        if not cs:
            break
        c = t.choice(cs)
        k = t.below(6)
        if k == 5:
            a = gen.context_lit(t, sig, cs) if kd not in ("epr", "prop") else None
            if a is None or len(fol.cvars(((True, a),))) > 3:
                continue
            c = (() if t.chance(1, 2) else c) + ((t.chance(2, 3), a),)
            if len(fol.cvars(c)) > 4:
                continue
        elif k == 0:
            c = tuple(t.shuffle(c))
        elif k == 1:
            vs = fol.cvars(c)
            if vs:
                c = fol.csubst(c, {t.choice(vs): gen.term(t, sig, vs, 1) if kd not in ("epr", "prop") else gen.term(t, sig, vs, 0)})
        elif k == 2:
            c = c + (c[t.below(len(c))],) if c else c
        elif k == 3:
            c = c + gen.clause(t, sig, maxlits=2, maxvars=2, depth=1 if kd not in ("epr", "prop") else 0)
        else:
            i = t.below(len(c))
            c = c[:i] + ((not c[i][0], c[i][1]),) + c[i + 1:]
        cs = list(cs)
        cs.insert(t.below(len(cs) + 1), c)
    cs = [c for c in cs if c]
    if not cs:
        raise pbt.Discard()
    a = erun.config(t, strategies=(), incomplete=False, preproc=False)
    a = [x for x in a if not x.startswith("--auto")]
    a.append("--no-eq-unfolding")
    if t.chance(1, 3):
        a.append("--no-preprocessing")
    a += ["--processed-clauses-limit=%d" % t.choice([2, 5, 10, 20, 40, 80]), "--generated-limit=400", "--cpu-limit=3"]
    text = "\n".join(fol.cnf("c%d" % i, t.weighted([(5, "axiom"), (2, "negated_conjecture")]), c) for i, c in enumerate(cs)) + "\n"
    return {"kind": kd, "text": text, "args": a}


def run(case):
    r = erun.run(E["x"], ["-s", "--print-saturated=eigEIG"] + case["args"], case["text"])
    if r.timeout:
        return unknown(["timeout"])
    if r.rc not in (1, 8, 9, 10, 11) or r.status in erun.PROVED:
        return ok(["szs:%s" % r.status], nontrivial=False)
    inp = [fol.f2cl(f) for k, n, role, f, a in fol.parse_all(case["text"])]
    lines = common.clause_lines(r.out)
    if not lines and r.rc != 1:
        return ok(["nothing-printed"], nontrivial=False)
    try:
        left = [fol.f2cl(f) for k, n, role, f, a in fol.parse_all(lines)]
    except fol.ParseError:
        return unknown(["unparsed"])
    if len(left) > 400:
        return unknown(["many"])
    labels = [case["kind"], "szs:%s" % r.status]
    seen = {fol.canon(fol.close(fol.cl2f(c))) for c in left}
    todo = [c for c in inp if fol.canon(fol.close(fol.cl2f(c))) not in seen]
    evals = 1
    if todo:
        labels.append("changed")
        neg = ("|",) + tuple(("~", fol.close(fol.cl2f(c))) for c in todo)
        if len(todo) == 1:
            neg = neg[1]
        for n in (1, 2, 3):
            small = [c for c in left if n ** len(fol.cvars(c)) <= 250]
            big = len(small) < len(left)
            J = models.find_model([neg], (n,), small, limit=60000)
            evals += 1
            if J is not None and big:
                if not all(J.ev_clause(c) for c in left if n ** len(fol.cvars(c)) <= 20000) or \
                        any(n ** len(fol.cvars(c)) > 20000 for c in left):
                    continue
            if J is not None:
                lost = [c for c in todo if not J.ev_clause(c)][0]
                return bad("the clauses that are left do not imply the input clause %s\nargs: %s\n%s\nleft:\n%s\ncounter-model: n=%d f=%s p=%s" % (
                    fol.pcl(lost), " ".join(case["args"]), case["text"], lines[:4000], J.n, J.f, J.p))
    return ok(labels, nontrivial=bool(todo), evals=evals)


def show(c):
    return {"args": " ".join(c["args"]), "problem": c["text"]}


PARTS = [Part("nothing-lost", gen_case, run, 7000, 300000,
              "a random clause set with added redundancy, saturated under a random configuration until a random limit; "
              "every structure with 1 to 3 elements that satisfies all remaining clauses must satisfy the input; "
              "non-trivial: some input clause is not literally among the remaining ones", show=show)]

if __name__ == "__main__":
    sys.exit(pbt.main("C05", "exploration", PARTS, setup, assumptions=[
        "counter-models with more than 3 elements are not searched; runs that find a proof are left to C01 and C03"]))
