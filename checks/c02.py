"""C02: saturation claims (Satisfiable, CounterSatisfiable) are correct, under every configuration."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, models, common
from vlib.pbt import Part, ok, bad, unknown

E = {}


def setup():
    E["x"] = build.Builder("fo").program("eprover")
    E["strats"] = common.strategies(E["x"])


def limits(t):
    return ["--processed-clauses-limit=%d" % t.choice([60, 150, 400]), "--generated-limit=3000", "--cpu-limit=3"]


def to_text(t, cs):
    """As cnf, or as fof with a conjecture."""
    if t.chance(2, 3):
        return "\n".join(fol.cnf("c%d" % i, t.weighted([(5, "axiom"), (2, "negated_conjecture"), (1, "hypothesis")]), c)
                         for i, c in enumerate(cs)) + "\n"
    k = t.rand(0, min(3, len(cs)))
    conj = [fol.cl2f(c) for c in cs[:k]]
    out = [fol.fof("a%d" % i, "axiom", fol.cl2f(c)) for i, c in enumerate(cs[k:])]
    if conj:
        out.append(fol.fof("goal", "conjecture", ("~", ("&",) + tuple(conj) if len(conj) > 1 else conj[0])))
    return "\n".join(out) + "\n"


def gen_unsat(t):
    kd, sig, cs = gen.unsat_problem(t)
    text = to_text(t, cs)
    return {"kind": kd, "text": text, "configs": [erun.config(t, strategies=E["strats"]) + limits(t) for _ in range(3)]}


def run_unsat(case):
    labels, n, proved, sat = [case["kind"]], 0, 0, 0
    for cfg in case["configs"]:
        r = erun.run(E["x"], ["-s"] + cfg, case["text"])
        if r.timeout:
            labels.append("timeout")
            continue
        n += 1
        labels.append("szs:%s" % r.status)
        if r.status in erun.PROVED:
            proved += 1
        if r.status in erun.SATURATED or r.rc == 1:
            return bad("eprover claims %s (exit %s) for an unsatisfiable problem\nargs: %s\n%s" % (
                r.status, r.rc, " ".join(cfg), case["text"]))
    return ok(labels, nontrivial=n > 0, evals=n)


def gen_small(t):
    kd = t.weighted([(3, "epr"), (3, "prop"), (4, "full"), (3, "ueq"), (2, "noeq")])
    sig = gen.signature(t, kd)
    if kd == "prop":
        cs = [gen.clause(t, sig, depth=0) for _ in range(t.rand(3, 18))]
    elif kd == "epr":
        cs = [gen.clause(t, sig, depth=0, maxvars=2) for _ in range(t.rand(3, 14))]
    elif kd == "ueq":
        cs = [gen.clause(t, sig, depth=2, maxvars=2, unit=True) for _ in range(t.rand(2, 8))]
    else:
        cs = [gen.clause(t, sig, depth=t.rand(1, 2), maxvars=2) for _ in range(t.rand(3, 12))]
    text = to_text(t, cs)
    return {"kind": kd, "text": text, "clauses": cs, "nconst": len(sig.consts()),
            "configs": [erun.config(t, strategies=E["strats"]) + limits(t) for _ in range(4)]}


def run_small(case):
    cs = [fol.tup(c) for c in case["clauses"]]
    kd = case["kind"]
    truth = None
    model = None
    if kd in ("epr", "prop"):
        # finite model property: a model iff one with at most as many elements as constants
        for n in range(1, max(1, case["nconst"]) + 1) if kd == "epr" else (1,):
            model = models.find_model([], (n,), cs)
            if model:
                break
        truth = model is not None
    st = []
    labels = [kd]
    for cfg in case["configs"]:
        r = erun.run(E["x"], ["-s"] + cfg, case["text"])
        if r.timeout:
            labels.append("timeout")
            continue
        st.append((r, cfg))
    sats = [(r, c) for r, c in st if r.status in erun.SATURATED or r.rc == 1]
    prvd = [(r, c) for r, c in st if r.status in erun.PROVED or r.rc == 0]
    if truth is None and (sats or prvd):
        if prvd or not sats:
            model = models.find_model([], (1, 2), cs, limit=100000)
        if model is not None:
            truth = True
        elif sats:
            z = models.z3_check([fol.cl2f(c) for c in cs], 400000)
            truth = {"sat": True, "unsat": False}.get(z)
    labels.append("truth:%s" % truth)
    if truth is False and sats:
        return bad("eprover claims %s for an unsatisfiable problem\nargs: %s\n%s" % (
            sats[0][0].status, " ".join(sats[0][1]), case["text"]))
    if truth is True and prvd:
        return bad("eprover claims %s for a satisfiable problem\nargs: %s\n%s" % (
            prvd[0][0].status, " ".join(prvd[0][1]), case["text"]))
    if sats and prvd:
        return bad("two configurations contradict each other: %s with %s, %s with %s\n%s" % (
            sats[0][0].status, " ".join(sats[0][1]), prvd[0][0].status, " ".join(prvd[0][1]), case["text"]))
    labels += ["szs:%s" % r.status for r, _ in st]
    return ok(labels, nontrivial=bool(st) and (truth is not None or len(st) > 1 and bool(sats or prvd)), evals=len(st))


def gen_inc(t):
    """Restricted calculi: unsatisfiable problems with options that make the calculus incomplete."""
    kd, sig, cs = gen.unsat_problem(t, nmin=3, noise=False)
    text = to_text(t, cs)
    cfgs = []
    for _ in range(3):
        c = erun.config(t, strategies=(), incomplete=False, preproc=t.chance(1, 3))
        c += t.choice([["--disable-eq-factoring"], ["--disable-paramod-into-neg-units"], ["--literal-comparison=TFOEqMax"],
                       ["-WNoGeneration"], ["--no-generation"], ["--delete-bad-limit=%d" % t.choice([1, 5, 2000])],
                       ["--lift-lambdas=false"], ["--processed-clauses-limit=%d" % t.rand(0, 6)],
                       ["--processed-set-limit=%d" % t.rand(0, 6)], ["--unprocessed-limit=%d" % t.rand(0, 8)],
                       ["--total-clause-set-limit=%d" % t.rand(0, 8)], ["--generated-limit=%d" % t.rand(0, 10)],
                       ["--tb-insert-limit=%d" % t.rand(0, 60)], ["--answers=2"],
                       ["--sine=" + t.choice(["Auto", "gf120_h_gu_R02_F100_L20000", "gf120_gu_RUU_F100_L00100"])],
                       ["--rel-pruning-level=%d" % t.rand(1, 3)],
                       ["--ac-handling=DiscardAll"], ["--soft-cpu-limit=1"]])
        cfgs.append(c + ["--processed-clauses-limit=200", "--generated-limit=3000"][:0 if any("limit" in x for x in c[-1:]) else 2]
                    + ["--cpu-limit=3"])
    return {"kind": kd, "text": text, "configs": cfgs}


def gen_fof(t):
    """Unsatisfiable formula sets (or theorems), with clausification and preprocessing options."""
    kd, text = gen.unsat_fof(t)
    return {"kind": kd, "text": text,
            "configs": [erun.config(t, strategies=E["strats"]) + erun.preprocessing(t, True) + limits(t) for _ in range(2)]}


def gen_sel(t):
    """A propositionally unsatisfiable clause set with arbitrary atoms, run with the calculus options alone."""
    k = t.rand(2, 4)
    atoms = []
    for i in range(k):
        w = t.below(6)
        g = [("a",), ("b",), ("f", ("a",)), ("f", ("f", ("a",))), ("g", ("a",), ("b",))]
        if w < 2:
            atoms.append(("@", "pqrs"[i]))
        elif w < 4:
            atoms.append(("@", "uv"[t.below(2)], t.choice(g)))
        else:
            atoms.append(("=", t.choice(g), t.choice(g)))
    cls = []
    alive = set(range(1 << k))
    for _ in range(40):
        if not alive:
            break
        # a clause that is false in some assignment that is still possible
        m = t.choice(sorted(alive))
        c = [(not (m >> i & 1), i) for i in range(k) if t.chance(3, 5)]
        if not c:
            continue
        cls.append(c)
        alive = {m for m in alive if any(s == bool(m >> i & 1) for s, i in c)}
    if alive:
        raise pbt.Discard()
    cs = []
    for c in cls:
        ls = [(s, atoms[i]) for s, i in c]
        if t.chance(1, 2):
            ls.append((False, t.choice([("=", "X", "Y"), ("=", "X", ("a",)), ("=", "X", ("f", "Y")), ("=", ("f", "X"), "Y"),
                                        ("=", ("f", "X"), ("f", "Y")), ("=", ("g", "X", "Y"), ("g", "Y", "Z"))])))
        if t.chance(1, 3):
            ls.append(ls[0])
        cs.append(tuple(t.shuffle(ls)))
    cs = t.shuffle(cs)
    text = "\n".join(fol.cnf("c%d" % i, "axiom", c) for i, c in enumerate(cs)) + "\n"
    cfgs = []
    for _ in range(4):
        c = ["-W" + t.choice(erun.SELECT), "-t" + t.choice(["KBO6", "KBO", "LPO4", "LPO"]), "--no-preprocessing"]
        if t.chance(1, 2):
            c.append("-G" + t.choice(erun.PGEN[1:]))
        if t.chance(1, 5):
            c.append("--restrict-literal-comparisons")
        if t.chance(1, 4):
            c.append("--literal-comparison=" + t.choice(["None", "Normal", "TFOEqMin"]))
        if t.chance(1, 4):
            c.append("--select-on-processing-only")
        if t.chance(1, 4):
            c.append("-F%d" % t.rand(0, 2))
        if t.chance(1, 4):
            c.append("--selection-neg-%s=%d" % (t.choice(["min", "max"]), t.rand(0, 3)))
        if t.chance(1, 6):
            c.append("--selection-all-%s=%d" % (t.choice(["min", "max"]), t.rand(0, 3)))
        cfgs.append(c + ["--processed-clauses-limit=300", "--generated-limit=5000", "--cpu-limit=3"])
    return {"kind": "%d atoms" % k, "text": text, "configs": cfgs}


def show(c):
    return {"kind": c["kind"], "problem": c["text"], "configs": [" ".join(x) for x in c["configs"]]}


PARTS = [
    Part("unsat-by-construction", gen_unsat, run_unsat, 9500, 400000,
         "a clause set grown from the empty clause by inverse inferences and generalised, run under 3 random "
         "configurations; non-trivial: at least one run ended without a wall-clock timeout", show=show),
    Part("restricted", gen_inc, run_unsat, 4000, 200000,
         "as unsat-by-construction, under options that restrict the calculus or the search", show=show),
    Part("selection", gen_sel, run_unsat, 3000, 150000,
         "a propositionally unsatisfiable clause set over arbitrary ground atoms, with X!=Y-like literals and duplicates, "
         "under 4 combinations of literal selection, ordering and literal comparison without preprocessing", show=show),
    Part("unsat-formulas", gen_fof, run_unsat, 6000, 200000,
         "an unsatisfiable set of formulas with or without conjecture, under 2 random configurations with random "
         "clausification and preprocessing options", show=show),
    Part("small-exact", gen_small, run_small, 2300, 80000,
         "a random small clause set under 4 random configurations, compared with each other, with finite model "
         "search (exact for propositional and function-free problems) and z3; non-trivial: at least one side decided it",
         show=show),
]

if __name__ == "__main__":
    sys.exit(pbt.main("C02", "exploration", PARTS, setup, assumptions=[
        "problems are small; runs are bounded by clause limits, a run that hits a limit shows nothing"]))
