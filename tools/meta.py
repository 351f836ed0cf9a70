"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing: "
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=(), state=()):
    assert len(title) <= 80, title
    PROPS.append((
        {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None,
                     **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})}},
        {"property": id, "quick_cmd": "python3-vt checks/%s.py --tier quick" % id.lower(),
         "thorough_cmd": "python3-vt checks/%s.py --tier thorough" % id.lower(),
         "technique": TECH + technique, "level": "exploration", "level_note": note}))


BOUNDED = ("Generated cases only: a pass means that no counterexample was found among the cases counted in the "
           "evidence, not that none exists. ")

P("C01", "Proof claims are sound under every strategy",
  "Whenever the first-order prover reports a proof (Theorem, ContradictoryAxioms or Unsatisfiable, exit status 0), "
  "the input really is unsatisfiable together with the negated conjecture. A problem that has a model is never "
  "reported as proved, whatever combination of ordering, selection, simplification, indexing, splitting or "
  "preprocessing options is in force.",
  ["inputs", "configurations"],
  "all first-order problems with and without equality that have a finite model, times all option combinations",
  "The suite proves a handful of known theorems with the default strategy; soundness needs every satisfiable "
  "problem and every option combination, and an unsound step only shows on problems that should not be proved.",
  ["CONTROL/cco_proofproc.c", "CLAUSES/ccl_paramod.c", "CLAUSES/ccl_rewrite.c", "CLAUSES/ccl_clausecpos.c",
   "CLAUSES/ccl_factor.c", "CLAUSES/ccl_eqnresolution.c", "CLAUSES/ccl_context_sr.c", "CLAUSES/ccl_condensation.c",
   "CLAUSES/ccl_splitting.c", "PROVER/eprover.c"],
  [("saturation loop", "CONTROL/cco_proofproc.c:Saturate"), ("paramodulation", "CLAUSES/ccl_paramod.c"),
   ("rewriting", "CLAUSES/ccl_rewrite.c"), ("simplify-reflect, context simplify-reflect", "CLAUSES/ccl_unit_simplify.c"),
   ("splitting", "CLAUSES/ccl_splitting.c")],
  "planted-model generation",
  BOUNDED + "The oracle is exact: a finite interpretation is drawn first and every input clause or formula is made "
  "true in it, so any proof claim, and any printed clause over the input signature that is false in it, is wrong. "
  "Trusts the evaluator of finite interpretations (harness/oracle.c, vlib/fol.py).",
  ["exit status and SZS status of eprover", "clauses printed with --print-saturated"])

P("C02", "Saturation claims are right under every strategy",
  "Whenever the first-order prover reports Satisfiable or CounterSatisfiable (exit status 1), the input really has "
  "a model; an unsatisfiable input may end without an answer, but is never claimed to be satisfiable. In "
  "particular every option that makes the search incomplete (limits, restricted inferences, axiom pruning) turns "
  "an empty search space into GaveUp or ResourceOut instead of a claim, and two strategies never contradict each other.",
  ["inputs", "configurations"],
  "all unsatisfiable first-order problems times all option combinations, complete or not",
  "A lost clause (wrong subsumption, a missed index entry, an ordering that is not stable) only shows as a wrong "
  "Satisfiable on an unsatisfiable problem under a particular strategy; the tests have only a few expected results.",
  ["CONTROL/cco_proofproc.c", "CONTROL/cco_paramodulation.c", "CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_pred_elim.c",
   "CLAUSES/ccl_bce.c", "CLAUSES/ccl_rewrite.c", "ORDERINGS/cto_kbolin.c", "ORDERINGS/cto_lpo.c",
   "HEURISTICS/che_litselection.c", "PROVER/eprover.c"],
  [("completeness bookkeeping", "PROVER/eprover.c (state_is_complete, assume_complete)"),
   ("redundancy elimination", "CONTROL/cco_proofproc.c:ProcessClause"),
   ("generating inferences", "CONTROL/cco_paramodulation.c"), ("term orderings", "ORDERINGS/")],
  "unsatisfiable-by-construction problems",
  BOUNDED + "Unsatisfiability is known by construction (inverse inferences from the empty clause, or f, f=>g, ~g), "
  "or decided by exact finite model search and z3 on small problems. Runs that hit a limit show nothing.",
  ["exit status and SZS status of eprover"])

P("C03", "Every printed proof object is a valid derivation from the input",
  "Every proof object printed in TSTP form lists only input formulas that are in the input (same meaning, same "
  "role), explicit definitions of new symbols, and steps that follow from earlier steps (or preserve "
  "satisfiability where the step says so), and ends in the empty clause. It uses the conjecture only negated, and "
  "the reported SZS status agrees with whether the proof uses it.",
  ["inputs", "configurations"],
  "all refutable problems times all strategies that print a proof",
  "The tests do not check proofs; each inference and simplification has to record the right premises in every "
  "code path, and a wrong or missing premise shows only on proofs that use that path.",
  ["CLAUSES/ccl_derivation.c", "CLAUSES/ccl_inferencedoc.c", "CLAUSES/ccl_rewrite.c", "CLAUSES/ccl_unit_simplify.c",
   "CONTROL/cco_paramodulation.c", "CLAUSES/ccl_splitting.c", "CLAUSES/ccl_fcvindexing.c"],
  [("derivation stacks", "CLAUSES/ccl_derivation.c"), ("derivation extraction", "CLAUSES/ccl_derivation.c:DerivationExtract"),
   ("pushes at every inference", "grep ClausePushDerivation")],
  "independent proof checking with finite counter-models",
  BOUNDED + "Each step is checked by searching a counter-model with 1 to 3 elements; a wrong step with only larger "
  "counter-models is missed, a right one is never rejected.",
  ["the SZS output section of eprover --proof-object"])

NA = []


def main():
    import importlib.util
    extra = os.path.join(ROOT, "tools", "meta2.py")
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, "exec"), globals())
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
           "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the checks build /repo's sources as they are",
                     "source_commits": []},
           "checks": [c for _, c in PROPS], "not_applicable": NA,
           "notes": "All checks share vlib/pbt.py (choice tapes, shrinking, replay, evidence). "
                    "Replay a failure with: python3-vt checks/<id>.py --replay <path>."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
