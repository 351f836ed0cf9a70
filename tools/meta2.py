P("C04", "Clausification neither loses nor adds models",
  "The clauses that --cnf (and every proof search) derives from first-order formulas represent exactly the input: "
  "every model of the formulas (with the conjecture negated) extends, by interpreting only the new Skolem and "
  "definition symbols, to a model of the clauses, and every model of the clauses is a model of the formulas. This "
  "holds for every nesting of connectives and quantifiers, shadowed and unused variables, and every setting of "
  "definition introduction, miniscoping and preprocessing.",
  ["inputs", "configurations"],
  "all sets of first-order formulas times all settings of the clausifier",
  "Clausification has many interacting rewrites (miniscoping, definitions by polarity, Skolem functions of the right "
  "variables); a mistake needs a particular nesting and shows neither as a crash nor, usually, as a wrong test result.",
  ["CLAUSES/ccl_tcnf.c", "CLAUSES/ccl_formula_wrapper.c", "CLAUSES/ccl_formulasets.c", "CLAUSES/ccl_formulafunc.c",
   "CLAUSES/ccl_clausefunc.c"],
  [("simplification, NNF, miniscoping, Skolemization", "CLAUSES/ccl_tcnf.c"),
   ("definitions", "CLAUSES/ccl_tcnf.c:TFormulaCopyDef, CLAUSES/ccl_formulasets.c:FormulaSetIntroduceDefs")],
  "model-theoretic comparison of formulas and clauses",
  BOUNDED + "Exact for structures with 1 to 3 elements (SAT-based search); differences that need more elements are missed.",
  ["clauses printed by eprover --cnf"])

P("C05", "Simplification and redundancy elimination lose nothing",
  "At every moment of a saturation (at any limit, under any strategy that only simplifies), the clauses that remain "
  "in the processed and unprocessed sets imply every input clause: rewriting, subsumption, simplify-reflect, "
  "contextual literal cutting, condensation, tautology deletion and index-based deletion drop or change a clause "
  "only if what is kept implies it.",
  ["inputs", "configurations", "histories"],
  "all clause sets times all simplifying strategies times all points at which the search stops",
  "A clause that is wrongly deleted or over-simplified is noticed only if exactly that clause was needed; the tests "
  "look only at final results of a few problems.",
  ["CONTROL/cco_forward_contraction.c", "CONTROL/cco_proofproc.c", "CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_rewrite.c",
   "CLAUSES/ccl_unit_simplify.c", "CLAUSES/ccl_context_sr.c", "CLAUSES/ccl_condensation.c", "CLAUSES/ccl_tautologies.c"],
  [("forward contraction", "CONTROL/cco_forward_contraction.c"),
   ("backward simplification", "CONTROL/cco_proofproc.c:eliminate_backward_*"),
   ("subsumption", "CLAUSES/ccl_subsumption.c")],
  "finite counter-model search between the input and the remaining clauses",
  BOUNDED + "Counter-models with 1 to 3 elements; runs that end in a proof are left to C01 and C03.",
  ["clauses printed by eprover --print-saturated=eigEIG at a limit"])

P("C06", "Preprocessing eliminations keep satisfiability",
  "Blocked clause elimination, predicate elimination (with and without gates), goal definitions and unfolding of "
  "equational definitions turn a clause set into one that is satisfiable exactly if the original is, for every "
  "setting of their limits and with and without equality, distinct objects and conjectures.",
  ["inputs", "configurations"],
  "all clause sets times all combinations of preprocessing options",
  "Whether a clause is blocked, or a predicate can be resolved away, depends on all clauses of the set and on every "
  "unifier; a missed candidate makes an unsatisfiable set satisfiable only in special constellations.",
  ["CLAUSES/ccl_bce.c", "CLAUSES/ccl_pred_elim.c", "CLAUSES/ccl_def_handling.c", "CLAUSES/ccl_clausefunc.c",
   "CLAUSES/ccl_unfold_defs.c", "CLAUSES/ccl_g_lithash.c"],
  [("blocked clauses", "CLAUSES/ccl_bce.c"), ("predicate elimination", "CLAUSES/ccl_pred_elim.c"),
   ("unfolding", "CLAUSES/ccl_unfold_defs.c")],
  "equisatisfiability over small domains and ground instances",
  BOUNDED + "Satisfiability is compared over 1 to 3 elements; where equality-free elimination may change the sizes of "
  "models, an unsatisfiable finite set of ground instances of the input is looked for instead.",
  ["clauses printed by eprover --cnf with preprocessing options"])

P("C07", "Term orderings are the simplification orderings they are documented to be",
  "For every precedence, weight function and ordering (KBO, KBO6, LPO, LPO4), user-given or generated, comparing two "
  "terms gives exactly what the definition of the Knuth-Bendix or lexicographic path ordering gives: the same verdict in "
  "both directions, stable under variable bindings, monotone, with the subterm property, total on ground terms where "
  "the precedence is total; and literal comparison and maximality follow from it by the multiset extension.",
  ["inputs", "configurations"],
  "all pairs of terms times all precedences, weights and orderings",
  "Completeness of superposition and termination of rewriting rest on these relations; the linear-time "
  "implementations (counters instead of multisets, cached weights, dereferenced variables) differ from the definition "
  "only for particular term shapes, and such a difference is not visible in the result of a test problem.",
  ["ORDERINGS/cto_kbolin.c", "ORDERINGS/cto_kbo.c", "ORDERINGS/cto_lpo.c", "ORDERINGS/cto_orderings.c", "ORDERINGS/cto_ocb.c",
   "CLAUSES/ccl_eqn.c", "CLAUSES/ccl_eqnlist.c", "HEURISTICS/che_to_precgen.c", "HEURISTICS/che_to_weightgen.c"],
  [("KBO", "ORDERINGS/cto_kbolin.c, ORDERINGS/cto_kbo.c"), ("LPO", "ORDERINGS/cto_lpo.c"),
   ("precedence and weights", "HEURISTICS/che_to_precgen.c, HEURISTICS/che_to_weightgen.c"),
   ("literal ordering", "CLAUSES/ccl_eqn.c:EqnCompare, CLAUSES/ccl_eqnlist.c:EqnListMaximalLiterals")],
  "differential comparison with reference orderings",
  BOUNDED + "Terms up to depth 4 over up to 7 symbols; first-order orderings only.",
  ["E's libraries, called through harness/drv.c"])

P("C09", "Unification, matching and term indexing are exact",
  "For every pair of terms, unification finds a most general unifier exactly if one exists and matching a matcher "
  "exactly if one exists, and both leave no bindings behind on failure; every fingerprint index returns all terms that "
  "unify with (or are instances of) the query after any history of insertions and deletions; and the perfect "
  "discrimination trees return exactly the stored unit equations whose sides generalise the query, within the size and "
  "age constraints asked for.",
  ["inputs", "histories", "configurations"],
  "all pairs of terms, all histories of insertion, deletion and query, all fingerprint functions",
  "A missed unifier or an index that forgets a term loses inferences silently; it needs a particular arrangement of "
  "variables, depths and previous operations.",
  ["TERMS/cte_match_mgu_1-1.c", "TERMS/cte_subst.c", "TERMS/cte_fp_index.c", "TERMS/cte_idx_fp.c", "CLAUSES/ccl_pdtrees.c",
   "CLAUSES/ccl_overlap_index.c"],
  [("unification, matching", "TERMS/cte_match_mgu_1-1.c"), ("fingerprint indexing", "TERMS/cte_fp_index.c, TERMS/cte_idx_fp.c"),
   ("perfect discrimination trees", "CLAUSES/ccl_pdtrees.c")],
  "model-based testing of histories against naive search and reference unification",
  BOUNDED + "First-order terms up to depth 4; histories of up to 40 operations.",
  ["E's libraries, called through harness/drv.c"])

P("C10", "Clause-level decisions are exact",
  "For every pair of clauses, subsumption is decided as defined (multiset subsumption modulo symmetry of equality); "
  "the feature vector index finds every clause that a search of the whole set finds, for every kind of feature vector "
  "and after every history of insertions and deletions; condensation yields a clause equivalent to the original; only "
  "valid clauses are called tautologies; and every literal selection function that selects anything selects a "
  "negative literal.",
  ["inputs", "histories", "configurations"],
  "all clauses, all histories of clause insertion and deletion, all feature vector kinds and selection functions",
  "These decisions remove clauses and inferences; a wrong one costs soundness of a deletion or completeness, but only "
  "for special pairs of clauses (repeated literals, symmetric equations, shared variables).",
  ["CLAUSES/ccl_subsumption.c", "CLAUSES/ccl_fcvindexing.c", "CLAUSES/ccl_freqvectors.c", "CLAUSES/ccl_condensation.c",
   "CLAUSES/ccl_tautologies.c", "HEURISTICS/che_litselection.c"],
  [("subsumption", "CLAUSES/ccl_subsumption.c"), ("feature vectors", "CLAUSES/ccl_freqvectors.c, CLAUSES/ccl_fcvindexing.c"),
   ("condensation", "CLAUSES/ccl_condensation.c"), ("tautologies", "CLAUSES/ccl_tautologies.c"),
   ("selection", "HEURISTICS/che_litselection.c")],
  "differential testing against reference subsumption, congruence closure and naive search",
  BOUNDED + "Clauses of up to 8 literals; a subsumption that costs the reference too much is not generated.",
  ["E's libraries, called through harness/drv.c"])

P("C08", "No input or option crashes a program or corrupts its memory",
  "Whatever text it reads (valid, malformed, truncated, in any of the input languages, first-order or higher-order) and whatever "
  "options it is given, eprover (first-order and higher-order) and the accompanying tools end with one of the documented exit "
  "codes: malformed input is rejected with a syntax, type or usage error. They never die from a signal, and never read or "
  "write memory they do not own.",
  ["inputs", "configurations"],
  "all byte sequences as input files, all option strings",
  "The suite feeds a few well-formed files with default options; out-of-bounds and use-after-free accesses depend on odd token "
  "sequences, long names, unusual option values and on the order in which memory is reused, and often stay silent.",
  ["INOUT/cio_scanner.c", "INOUT/cio_streams.c", "INOUT/cio_commandline.c", "TERMS/cte_termbanks.c", "TERMS/cte_typecheck.c",
   "TERMS/cte_signature.c", "CLAUSES/ccl_tformulae.c", "CLAUSES/ccl_eqn.c", "CLAUSES/ccl_formula_wrapper.c", "PROVER/eprover.c",
   "HEURISTICS/che_hcbadmin.c", "PCL2/pcl_steps.c", "PROVER/eground.c", "PROVER/enormalizer.c", "PROVER/e_axfilter.c"],
  [("scanner", "INOUT/cio_scanner.c"), ("term and formula parsing", "TERMS/cte_termbanks.c, CLAUSES/ccl_tformulae.c"),
   ("type inference", "TERMS/cte_typecheck.c"), ("options", "INOUT/cio_commandline.c, PROVER/eprover.c:process_options")],
  "grammar-based generation with token mutations under AddressSanitizer",
  BOUNDED + "Built with AddressSanitizer and without the project's own free lists, so that every use after free and every access "
  "beyond a block is reported where it happens; uninitialised reads are seen only if they lead to such an access.",
  ["exit status and sanitizer report of eprover, eprover-ho, eground, enormalizer, e_axfilter, classify_problem, epclextract, epcllemma, CSSCPA_filter"])
