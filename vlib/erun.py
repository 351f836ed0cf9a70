"""Running eprover and generating configurations for it."""
import os
import re
import subprocess

EXIT = {0: "proof", 1: "satisfiable", 2: "memory", 3: "syntax", 4: "type", 5: "usage", 6: "file", 7: "sys", 8: "cpu",
        9: "resource", 10: "incomplete", 11: "other", 12: "semantic", 13: "interface", 14: "parent"}
PROVED = {"Theorem", "Unsatisfiable", "ContradictoryAxioms"}
SATURATED = {"Satisfiable", "CounterSatisfiable"}


class Res:
    __slots__ = ("rc", "out", "err", "szs", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout
        self.szs = re.findall(r"^[%#] SZS status (\w+)", out, re.M)

    @property
    def status(self):
        return self.szs[0] if self.szs else None


ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "TMPDIR": os.environ.get("TMPDIR", "/tmp"),
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"}


def run(exe, args, text=None, timeout=30, cwd=None, raw=False):
    """text goes to stdin; a wall-clock timeout is never a verdict."""
    data = None
    if text is not None:
        data = text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape")
    p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE if data is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=ENV)
    try:
        out, err = p.communicate(data, timeout=timeout)
        return Res(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return Res(None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), True)


CRASH = {-11: "SIGSEGV", -6: "SIGABRT", -8: "SIGFPE", -7: "SIGBUS", -4: "SIGILL", 99: "sanitizer report",
         134: "SIGABRT", 139: "SIGSEGV", 136: "SIGFPE"}

# ------------------------------------------------------------------ configurations

SELECT = """NoSelection SelectNegativeLiterals PSelectNegativeLiterals SelectPureVarNegLiterals PSelectPureVarNegLiterals
SelectLargestNegLit PSelectLargestNegLit SelectSmallestNegLit PSelectSmallestNegLit SelectLargestOrientable
PSelectLargestOrientable MSelectLargestOrientable SelectSmallestOrientable PSelectSmallestOrientable
MSelectSmallestOrientable SelectDiffNegLit PSelectDiffNegLit SelectGroundNegLit PSelectGroundNegLit SelectOptimalLit
PSelectOptimalLit SelectMinOptimalLit PSelectMinOptimalLit SelectMinOptimalNoTypePred SelectMinOptimalNoXTypePred
SelectMinOptimalNoRXTypePred SelectCondOptimalLit PSelectCondOptimalLit SelectAllCondOptimalLit
SelectOptimalRestrDepth2 SelectOptimalRestrPDepth2 SelectOptimalRestrNDepth2 SelectNonRROptimalLit
PSelectNonRROptimalLit SelectNonStrongRROptimalLit SelectAntiRROptimalLit SelectNonAntiRROptimalLit
SelectStrongRRNonRROptimalLit SelectUnlessUniqMax PSelectUnlessUniqMax SelectUnlessPosMax SelectUnlessUniqPosMax
SelectUnlessUniqMaxPos PSelectUnlessUniqMaxPos SelectComplex PSelectComplex SelectComplexExceptRRHorn SelectLComplex
SelectMaxLComplex PSelectMaxLComplex SelectMaxLComplexNoTypePred SelectMaxLComplexNoXTypePred SelectComplexPreferNEQ
SelectComplexPreferEQ SelectComplexExceptUniqMaxHorn PSelectComplexExceptUniqMaxHorn MSelectComplexExceptUniqMaxHorn
SelectNewComplex PSelectNewComplex SelectNewComplexExceptUniqMaxHorn SelectMinInfpos PSelectMinInfpos HSelectMinInfpos
GSelectMinInfpos SelectMinInfposNoTypePred SelectMin2Infpos PSelectMin2Infpos SelectComplexExceptUniqMaxPosHorn
SelectUnlessUniqMaxSmallestOrientable SelectDivLits SelectDivPreferIntoLits SelectMaxLComplexG
SelectMaxLComplexAvoidPosPred SelectMaxLComplexAPPNTNp SelectMaxLComplexAPPNoType SelectMaxLComplexAvoidPosUPred
SelectComplexG SelectComplexAHP PSelectComplexAHP SelectNewComplexAHP PSelectNewComplexAHP SelectComplexAHPExceptRRHorn
SelectNewComplexAHPExceptRRHorn SelectNewComplexAHPExceptUniqMaxHorn SelectNewComplexAHPNS SelectVGNonCR
SelectCQArEqLast SelectCQArEqFirst SelectCQIArEqLast SelectCQIArEqFirst SelectCQAr SelectCQIAr SelectCQArNpEqFirst
SelectCQIArNpEqFirst SelectGrCQArEqFirst SelectCQGrArEqFirst SelectCQArNTEqFirst SelectCQIArNTEqFirst
SelectCQArNTNpEqFirst SelectCQIArNTNpEqFirst SelectCQArNXTEqFirst SelectCQIArNXTEqFirst SelectCQArNTNp SelectCQIArNTNp
SelectCQArNT SelectCQIArNT SelectCQArNp SelectCQIArNp SelectCQArNpEqFirstUnlessPDom SelectCQArNTEqFirstUnlessPDom
SelectCQPrecW SelectCQIPrecW SelectCQPrecWNTNp SelectCQIPrecWNTNp""".split()

PRIO = """ConstPrio PreferGroundGoals PreferUnitGroundGoals PreferGround PreferNonGround PreferProcessed PreferNew
PreferGoals PreferNonGoals PreferMixed PreferPositive PreferNegative PreferUnits PreferNonEqUnits PreferDemods
PreferNonUnits ByLiteralNumber ByDerivationDepth ByDerivationSize ByNegLitDist ByGoalDifficulty SimulateSOS DeferSOS
PreferHorn PreferNonHorn PreferUnitAndNonEq DeferNonUnitMaxEq ByCreationDate ByPosLitNo ByHornDist""".split()

WFUN = ["Clauseweight(%s,1,1,1)", "Clauseweight(%s,2,1,1.5)", "Refinedweight(%s,2,1,1.5,1.1,1.2)", "Refinedweight2(%s,2,1,2,1,1)",
        "ClauseWeightAge(%s,1,1,1,3)", "Orientweight(%s,2,1,2,1,1)", "OrientLMaxWeight(%s,2,1,2,1,1)",
        "PNRefinedweight(%s,2,1,1,1,2,2,2)", "SymbolTypeweight(%s,7,20,0,50,2,1,1.5)", "Defaultweight(%s)",
        "StaggeredWeight(%s,2)", "Depthweight(%s,2,1,1,1,1,1.5)", "Diversityweight(%s,1,1,1.5,1,1,0.5,0.5,2,0.5)",
        "DAGweight(%s,1,2,1,0,true,true,true,true,false,false,false)",
        "ConjectureSymbolWeight(%s,10,10,5,5,5,1.5,1.5,1.5)", "ConjectureGeneralSymbolWeight(%s,200,100,200,50,50,1,100,1.5,1.5,1)",
        "ConjectureRelativeSymbolWeight(%s,0.5,100,100,100,100,1.5,1.5,1)",
        "RelevanceLevelWeight2(%s,0,2,1,2,100,100,100,400,1.5,1.5,1)", "RelevanceLevelWeight(%s,2,2,0,2,100,100,100,100,1.5,1.5,1)",
        "ConjectureTermPrefixWeight(%s,1,3,0.5,100,0,0.2,0.2,4)"]

WGEN = """none firstmaximal0 arity aritymax0 modarity modaritymax0 aritysquared aritysquaredmax0 invarity invaritymax0
invaritysquared invaritysquaredmax0 precedence invprecedence precrank5 precrank10 precrank20 freqcount invfreqcount
freqrank invfreqrank invconjfreqrank freqranksquare invfreqranksquare invmodfreqrank invmodfreqrankmax0 constant""".split()
PGEN = """none unary_first unary_freq arity invarity const_max const_min freq invfreq invconjfreq invfreqconjmax invfreqconjmin
invfreqconstmin invfreqhack arrayopt""".split()
FP = "FP0 FPfp FP1 FP2 FP3D FP3W FP4D FP4W FP4M FP5M FP6M FP7 FP7M FP4X2_2 FP3DFlex NPDT NoIndex".split()
GROUND = "PseudoVar FirstConst ConjMinMinFreq ConjMaxMinFreq ConjMinMaxFreq ConjMaxMaxFreq GlobalMax GlobalMin".split()


def heuristic(t):
    n = t.weighted([(4, 1), (3, 2), (2, 3)])
    parts = []
    for _ in range(n):
        w = t.choice(WFUN) % t.choice(PRIO)
        parts.append("%d.%s" % (t.rand(1, 5), w))
    parts.append("1.FIFOWeight(%s)" % t.choice(["ConstPrio", "PreferGoals", "PreferProcessed"]))
    return "(%s)" % ",".join(p.replace(".", "*", 1) for p in parts)


def config(t, splitting=True, incomplete=True, preproc=True, strategies=(), sat=True, ordering=True):
    """A list of command-line options."""
    a = []
    if strategies and t.chance(1, 8):
        a.append("--select-strategy=" + t.choice(strategies))
        if t.chance(1, 2):
            return a
    elif t.chance(1, 12):
        a.append("--auto")
        if t.chance(1, 2):
            return a
    if t.chance(2, 3):
        a.append("-W" + t.choice(SELECT))
    if t.chance(1, 2):
        a.append("-H" + heuristic(t))
    elif t.chance(1, 3):
        a.append("-x" + t.choice(["Weight", "StandardWeight", "RWeight", "FIFO", "Default"]))
    if ordering and t.chance(2, 3):
        a.append("-t" + t.choice(["KBO6", "KBO", "LPO4", "LPO"]))
        if t.chance(1, 2):
            a.append("-G" + t.choice(PGEN[1:]))
        if t.chance(1, 2):
            a.append("-w" + t.choice(WGEN[1:]))
        if t.chance(1, 6):
            a.append("-c%d" % t.rand(1, 3))
    if t.chance(1, 10):
        a.append("--restrict-literal-comparisons")
    if t.chance(1, 10):
        a.append("--literal-comparison=" + t.choice(["None", "Normal", "TFOEqMin"]))
    if t.chance(1, 3):
        a.append("-F%d" % t.rand(0, 2))
    for o, num, den in (("--condense", 1, 5), ("--condense-aggressive", 1, 6), ("--destructive-er", 1, 5),
                        ("--strong-destructive-er", 1, 6), ("--destructive-er-aggressive", 1, 7),
                        ("--forward-context-sr", 1, 5), ("--forward-context-sr-aggressive", 1, 6),
                        ("-g", 1, 8), ("--strong-rw-inst", 1, 8), ("-u", 1, 8),
                        ("--fw-subsumption-aggressive", 1, 6), ("--detsort-rw", 1, 8), ("--detsort-new", 1, 8),
                        ("--select-on-processing-only", 1, 10), ("--inherit-paramod-literals", 1, 10),
                        ("--inherit-goal-pm-literals", 1, 10), ("--inherit-conjecture-pm-literals", 1, 10),
                        ("--prefer-initial-clauses", 1, 8), ("--disable-given-clause-fw-contraction", 1, 14),
                        ("--pdt-no-size-constr", 1, 10), ("--pdt-no-age-constr", 1, 10), ("--fp-no-size-constr", 1, 10),
                        ("--sos-uses-input-types", 1, 14)):
        if t.chance(num, den):
            a.append(o)
    if "--forward-context-sr" in a and t.chance(1, 2):
        # on its own, --backward-context-sr returns its victims unsimplified and may never terminate
        a.append("--backward-context-sr")
    if t.chance(1, 4):
        a.append(t.choice(["--simul-paramod", "--oriented-simul-paramod", "--supersimul-paramod", "--oriented-supersimul-paramod"]))
    if t.chance(1, 4):
        a.append("--subsumption-indexing=" + t.choice(["None", "Direct", "Perm", "PermOpt"]))
        if t.chance(1, 2):
            a.append("--fvindex-featuretypes=" + t.choice(["AC", "SS", "All", "Bill", "BillPlus", "ACFold", "ACStagger"][:3]))
    if t.chance(1, 3):
        a.append("--fp-index=" + t.choice(FP))
    elif t.chance(1, 3):
        a.append("--pm-from-index=" + t.choice(FP))
        a.append("--pm-into-index=" + t.choice(FP))
        a.append("--rw-bw-index=" + t.choice(FP))
    if t.chance(1, 5):
        a.append("--ac-handling=" + t.choice(["None", "DiscardAll", "KeepUnits", "KeepOrientable"]))
        if t.chance(1, 3):
            a.append("--ac-non-aggressive")
    if splitting and t.chance(1, 4):
        a.append("--split-clauses=%d" % t.choice([7, 1, 2, 4, 8, 16, 31]))
        a.append("--split-method=%d" % t.rand(0, 2))
        if t.chance(1, 2):
            a.append("--split-aggressive")
        if t.chance(1, 2):
            a.append("--split-reuse-defs")
    if t.chance(1, 8):
        a.append("--disequality-decomposition=%d" % t.choice([1024, 1, 2]))
        if t.chance(1, 2):
            a.append("--disequality-decomp-maxarity=%d" % t.rand(1, 3))
    if sat and t.chance(1, 5):
        a.append("--satcheck=" + t.choice(GROUND))
        a.append("--satcheck-proc-interval=%d" % t.choice([1, 2, 5, 10]))
        if t.chance(1, 3):
            a.append("--satcheck-normalize-const")
        if t.chance(1, 3):
            a.append("--satcheck-normalize-unproc")
    if t.chance(1, 8):
        a.append("--filter-orphans-limit=%d" % t.choice([1, 5, 20]))
    if t.chance(1, 8):
        a.append("--forward-contract-limit=%d" % t.choice([1, 5, 20]))
    if t.chance(1, 10):
        a.append("--selection-%s-%s=%d" % (t.choice(["pos", "neg", "all"]), t.choice(["min", "max"]), t.rand(0, 3)))
    if preproc:
        a += preprocessing(t)
    if incomplete and t.chance(1, 14):
        a.append(t.choice(["--disable-eq-factoring", "--disable-paramod-into-neg-units", "--delete-bad-limit=2000",
                           "--literal-comparison=TFOEqMax", "-WNoGeneration", "--no-generation"]))
    if t.chance(1, 8):
        a.append("--presat-simplify")
    return a


def preprocessing(t, heavy=False):
    a = []
    d = 1 if heavy else 3
    if t.chance(1, 2 + d):
        a.append("--no-preprocessing")
    if t.chance(1, 2 + d):
        a.append(t.choice(["--no-eq-unfolding", "--eq-unfold-limit=100", "--eq-unfold-limit=0"]))
    if t.chance(1, 3 + d):
        a.append("--goal-defs=" + t.choice(["All", "Neg"]))
        if t.chance(1, 2):
            a.append("--goal-subterm-defs")
    if t.chance(1, 2 + d):
        a.append("--bce=true")
        if t.chance(1, 3):
            a.append("--bce-max-occs=%d" % t.choice([-1, 1, 2, 4]))
    if t.chance(1, 2 + d):
        a.append("--pred-elim=true")
        if t.chance(1, 2):
            a.append("--pred-elim-recognize-gates=" + t.choice(["true", "false"]))
        if t.chance(1, 3):
            a.append("--pred-elim-tolerance=%d" % t.choice([0, 5, 50, 500]))
        if t.chance(1, 3):
            a.append("--pred-elim-force-mu-decrease=" + t.choice(["true", "false"]))
        if t.chance(1, 3):
            a.append("--pred-elim-ignore-conj-syms=" + t.choice(["true", "false"]))
        if t.chance(1, 3):
            a.append("--pred-elim-max-occs=%d" % t.choice([-1, 1, 2, 4]))
    if t.chance(1, 3 + d):
        a.append("--definitional-cnf=%d" % t.choice([24, 0, 1, 2, 4, 1000]))
    if t.chance(1, 5 + d):
        a.append("--miniscope-limit=%d" % t.choice([0, 1, 1048576]))
    return a
