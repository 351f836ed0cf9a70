"""C03: every printed proof object is a valid derivation of the claimed result from the input."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, models, common, proof
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["x"] = build.Builder("fo").program("eprover")
    E["strats"] = common.strategies(E["x"])


def limits(t):
    return ["--processed-clauses-limit=%d" % t.choice([100, 300]), "--generated-limit=2000", "--cpu-limit=3"]


def gen_cnf(t):
    kd, sig, cs = gen.unsat_problem(t, nmin=3, nmax=14)
    names = ["c%d" % i for i in range(len(cs))]
    roles = [t.weighted([(5, "axiom"), (2, "negated_conjecture"), (1, "hypothesis")]) for _ in cs]
    return {"kind": kd, "text": "\n".join(fol.cnf(n, r, c) for n, r, c in zip(names, roles, cs)) + "\n",
            "args": erun.config(t, strategies=E["strats"]) + limits(t)}


def gen_fof(t):
    kd, text = gen.unsat_fof(t)
    return {"kind": kd, "text": text,
            "args": erun.config(t, strategies=E["strats"]) + erun.preprocessing(t, True) + limits(t)}


def run(case):
    r = erun.run(E["x"], ["-s", "--proof-object=1"] + case["args"], case["text"])
    if r.timeout or r.status not in erun.PROVED:
        return ok(["szs:%s" % r.status], nontrivial=False)
    inputs = {n: (role, fol.close(f)) for k, n, role, f, a in fol.parse_all(case["text"])}
    text = proof.extract(r.out)
    if text is None:
        return bad("no proof object was printed\nargs: %s\n%s" % (" ".join(case["args"]), case["text"]))
    try:
        st = proof.check(text, inputs)
    except fol.ParseError as e:
        return bad("proof object cannot be parsed: %s\nargs: %s\n%s\n%s" % (e, " ".join(case["args"]), case["text"], text[:6000]))
    except proof.Bad as e:
        return bad("invalid proof object: %s\nargs: %s\n%s\n%s" % (e, " ".join(case["args"]), case["text"], text[:6000]))
    has_conj = any(role == "conjecture" for role, f in inputs.values())
    if not has_conj:
        want = ("Unsatisfiable",)
    elif st["conjecture"]:
        want = ("Theorem",)
    else:
        want = ("ContradictoryAxioms", "Theorem")
    if r.status not in want:
        return bad("status %s, but the proof object supports %s\nargs: %s\n%s\n%s" % (
            r.status, "/".join(want), " ".join(case["args"]), case["text"], text[:6000]))
    labels = [case["kind"], "szs:%s" % r.status]
    for k in ("esa", "defs"):
        if st[k]:
            labels.append(k)
    if st["checked"] > 10:
        labels.append("steps>10")
    return ok(labels, nontrivial=st["checked"] >= 2, evals=1 + st["checked"])


def show(c):
    return {"args": " ".join(c["args"]), "problem": c["text"]}


RULE = ("a refuted problem under a random configuration; non-trivial: the proof object has at least two inference "
        "steps, each searched for finite counter-models")
PARTS = [Part("cnf-proofs", gen_cnf, run, 6000, 120000, RULE, show=show),
         Part("fof-proofs", gen_fof, run, 6000, 120000, RULE, show=show)]

if __name__ == "__main__":
    sys.exit(pbt.main("C03", "exploration", PARTS, setup, assumptions=[
        "an inference step is judged by searching counter-models with 1 to 3 elements; a wrong step all of whose "
        "counter-models are larger would be missed"]))
