"""C08: no input and no option makes a program crash or read or write memory it does not own."""
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pbt, fol, gen, erun, build, common
from vlib.pbt import Part, ok, bad, unknown

E = {}
DOC = set(range(0, 15))


def setup():
    b = build.Builder("fo", "asan")
    for p in ("eprover", "eground", "enormalizer", "epclextract", "epcllemma", "e_axfilter",
              "classify_problem", "checkproof", "CSSCPA_filter"):
        E[p] = b.program(p)
    E["ho"] = build.Builder("ho", "asan").program("eprover")
    E["opts"], E["opts:ho"] = options(E["eprover"]), options(E["ho"])
    E["strategy"] = erun.run(E["eprover"], ["--print-strategy"], "cnf(a,axiom,p).", timeout=60).out


POOL = """( ) [ ] { } , . : ; | & ~ => <= <=> <~> ~| ~& ! ? ^ @ = != $true $false $i $o $tType $int $real $rat $distinct $ite
$let $quotient * > < + - / <- ?- := --> @+ @- !! ?? != ' " % /* */ # 0 1 -1 1/2 1.5 1e400 99999999999999999999 X Y a f cnf fof tff thf tcf
include type axiom conjecture negated_conjecture question definition hypothesis plain theory lemma input_clause
input_formula ++ -- 'a b' "obj" '\\'' "\\"" '' "" _ __ X_1 aA9_ $$sys $answer $less $sum answer watchlist equal <-- : $ @ \\ ` \x00 \xff
\n \t""".split(" ")
POOL = [x for w in POOL for x in (w.split("\n") if w not in ("\n",) else [w])] + ["\n", " ", "\t", "\r", "\x01", "x" * 300, "'" + "q" * 600 + "'",
        "1" * 40, "(" * 200, "[" * 50, "~" * 60, "f(" * 100]
TOK = re.compile(r"\s+|[A-Za-z_0-9$]+|'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|[<=>~|&!?-]+|.", re.S)


def tff_problem(t):
    s = ["tff(s0,type,s: $tType).", "tff(a0,type,a: s).", "tff(f0,type,f: (s * $i) > s).", "tff(g0,type,g: s > $i).",
         "tff(p0,type,p: (s * s) > $o).", "tff(c0,type,c: $i).", "tff(i0,type,h: $int > $int)."]
    s += ["tff(x,axiom,![X:s,Y]: (p(X,f(X,Y)) => f(a,c)=X)).", "tff(y,axiom,?[X:s]: (p(X,a) & g(X)!=c)).",
          "tff(z,conjecture,p(a,a)).", "tff(n,axiom,h(1)=2|h(-3)=4).", "tcf(w,plain,![X:s]: (p(X,X)|g(X)=c)).",
          "tff(o,axiom,$distinct(\"a\",\"b\")).", "tff(q,axiom,$ite(p(a,a),g(a)=c,c=c)).",
          "tff(r,axiom,![X:s]: (p($ite(p(X,X),X,a),a)))."]
    return "\n".join(t.sample(s, t.rand(3, len(s))) if t.chance(1, 3) else s[:7] + t.sample(s[7:], t.rand(1, 5))) + "\n"


THF = ["thf(s0,type,s: $tType).", "thf(a0,type,a: s).", "thf(f0,type,f: s > $i > s).", "thf(p0,type,p: s > s > $o).",
       "thf(q0,type,q: (s > $o) > $o).", "thf(c0,type,c: $i).", "thf(g0,type,g: (s > s) > s > s).",
       "thf(x,axiom,![X:s,Y:$i]: ((p @ X @ (f @ X @ Y)) => ((f @ a @ c)=X))).", "thf(y,axiom,(q @ (p @ a))).",
       "thf(z,axiom,(q @ (^[X:s]: (p @ X @ a)))).", "thf(e,axiom,?[P:s > $o]: ((q @ P) & ~(P @ a))).",
       "thf(w,conjecture,((g @ (^[X:s]: X) @ a) = a)).", "thf(i,axiom,![X:s]: ((g @ (g @ (^[Z:s]:Z)) @ X) != X)).",
       "thf(h,axiom,(p = (^[X:s,Y:s]: (p @ Y @ X)))).", "thf(k,axiom,((!! @ (p @ a)) | (q @ (p @ a)))).",
       "thf(j,axiom,![F:s>s]: ((F @ a) = a)).", "thf(l,axiom,( (^[X:s]: (p @ X @ X)) = (^[X:s]: $true))).",
       "thf(n,axiom,($ite @ (p @ a @ a) @ (a=a) @ (q @ (p @ a)))).", "thf(m,axiom,((&) @ (q @ (p @ a)) @ $true))."]


def thf_problem(t):
    return "\n".join(THF[:7] + t.sample(THF[7:], t.rand(1, 6))) + "\n"


def lop_clause(c):
    def a(x):
        return "equal(%s,%s)" % (fol.pt(x[1]), fol.pt(x[2])) if x[0] == "=" else fol.pt(x) if len(x) > 1 else x[0]
    h = [a(x) for s, x in c if s]
    b = [a(x) for s, x in c if not s]
    return ";".join(h) + "<-" + ",".join(b) + "."


def tptp2_clause(i, c):
    def a(s, x):
        return ("++" if s else "--") + ("equal(%s,%s)" % (fol.pt(x[1]), fol.pt(x[2])) if x[0] == "=" else fol.pt(x) if len(x) > 1 else x[0])
    return "input_clause(c%d,axiom,[%s])." % (i, ",".join(a(s, x) for s, x in c))


def problem(t, ho=False):
    k = t.below(8 if not ho else 12)
    if k >= 8:
        return thf_problem(t), "thf"
    if k == 7:
        return tff_problem(t), "tff"
    sig = gen.signature(t, t.choice(["full", "noeq", "eq"]))
    if k in (5, 6) or k < 2:
        cs = [gen.clause(t, sig) for _ in range(t.rand(1, 6))]
        cs = [c for c in cs if c]
        if k == 5:
            return "\n".join(lop_clause(c) for c in cs) + "\n", "lop"
        if k == 6:
            return "\n".join(tptp2_clause(i, c) for i, c in enumerate(cs)) + "\n", "tptp2"
        return "\n".join(fol.cnf("c%d" % i, t.choice(["axiom", "negated_conjecture", "watchlist"]), c) for i, c in enumerate(cs)) + "\n", "cnf"
    fs = [fol.close(gen.formula(t, sig, depth=t.rand(1, 3))) for _ in range(t.rand(1, 3))]
    return "\n".join(fol.fof("f%d" % i, t.choice(["axiom", "conjecture", "question", "definition", "negated_conjecture"]), f)
                     for i, f in enumerate(fs)) + "\n", "fof"


def mutate(t, text, n):
    toks = TOK.findall(text)
    for _ in range(n):
        if not toks:
            toks = [t.choice(POOL)]
        i = t.below(len(toks))
        k = t.below(9)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, t.choice(POOL))
        elif k == 2:
            toks[i] = t.choice(POOL)
        elif k == 3:
            toks.insert(i, toks[t.below(len(toks))])
        elif k == 4:
            j = t.below(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 5:
            j = i + t.rand(1, 12)
            toks[i:i] = toks[i:j]
        elif k == 6:
            del toks[i:i + t.rand(1, 12)]
        elif k == 7:
            s = toks[i]
            if s:
                p = t.below(len(s))
                toks[i] = s[:p] + chr(t.choice([0, 1, 9, 10, 32, 34, 39, 40, 41, 92, 127, 200, 255])) + s[p + t.below(2):]
        elif t.chance(1, 6):
            toks = toks[:i]
        else:
            toks[i] = t.choice(toks)
    return "".join(toks)


def report(name, args, r, text):
    if r.timeout:
        return unknown(["timeout"])
    if r.rc in DOC and "ERROR: AddressSanitizer" not in r.err:
        return None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+).*", r.err)
    if m and m.group(1) == "stack-overflow":
        pass
    fr = re.findall(r"#\d+ 0x\w+ in (\S+)", r.err)[:8]
    return bad("%s %s: %s%s\n%s\n--- input:\n%s" % (name, " ".join(args), erun.CRASH.get(r.rc, "exit status %s" % r.rc),
                                                  ": " + m.group(0) if m else "", " < ".join(fr), text[:3000]))


OUTS = ["--cnf", "--proof-object", "--print-saturated", "-l4", "--pcl-out", "--tstp-out", "--tptp-out", "--sine=Auto", "--print-statistics",
        "--resources-info", "--print-version", "-p", "--answers=3", "--conjectures-are-questions", "--free-numbers", "--free-objects"]


def gen_input(t):
    ho = t.chance(1, 3)
    text, kd = problem(t, ho)
    if not t.chance(1, 6):
        text = mutate(t, text, t.weighted([(6, 1), (3, 2), (1, 4), (1, 12)]))
    a = ["--cpu-limit=4", "--processed-clauses-limit=40", "--generated-limit=400"]
    f = {"lop": "--lop-in", "tptp2": "--tptp-in"}.get(kd, "--tstp-in")
    if t.chance(1, 8):
        f = t.choice(["--lop-in", "--tptp-in", "--tstp-in"])
    if t.chance(2, 3):
        a.append(f)
    for _ in range(t.below(3)):
        a.append(t.choice(OUTS))
    if t.chance(1, 5):
        a += [x for x in erun.config(t) if not x.startswith("--cpu")][:6]
    return {"prog": "ho" if ho else "eprover", "text": text, "args": a, "kind": kd}


def run_input(case):
    r = erun.run(E[case["prog"]], case["args"], case["text"].encode("latin-1", "replace"), timeout=25)
    b = report(case["prog"], case["args"], r, case["text"])
    if b is not None:
        return b
    return ok([case["kind"], "exit:%s" % erun.EXIT.get(r.rc)], nontrivial=True)


# ---------------------------------------------------------------- options

VALUES = ["0", "1", "2", "-1", "7", "1000", "99999999999999999999", "1.5", "true", "false", "None", "none", "Auto", "all", "x", "",
          "()", "(", "*", "1*", "1*f", "a>b", "a=2", "a=2,b=1", "f>g,g>f", "a>b>c", "p:3", "f:1,a:2", "a:b", "9" * 40, "q" * 400, "w.p", "s.txt"]
NOOPT = ("-h", "--help", "-m", "--memory-limit", "--auto-schedule", "--satauto-schedule", "--serialize-schedule", "--force-preproc-sched",
         "--cpu-limit", "--soft-cpu-limit", "--print-pid", "-V", "--version", "--select-strategy", "--pcl-shell-level")


def options(exe):
    out = []
    for l in erun.run(exe, ["--help"], timeout=60).out.splitlines():
        m = re.match(r"\s{1,3}(--?[a-zA-Z][\w-]*)(\[?)(=?)( ?)(<arg>)?", l)
        if m and m.group(1) not in NOOPT and "." not in l:
            out.append((m.group(1), bool(m.group(5)), m.group(2) == "["))
    return sorted(set(out))


def option_value(t, o):
    k = t.below(10)
    if k < 4:
        return t.choice(VALUES)
    if o in ("-W", "--literal-selection-strategy"):
        return t.choice(erun.SELECT)
    if o in ("-H", "--define-heuristic", "-D", "--define-weight-function", "-x", "--expert-heuristic"):
        h = erun.heuristic(t)
        if o in ("-D", "--define-weight-function"):
            h = "n=" + h[3:-1]
        return mutate(t, h, t.below(3))
    if o in ("-t", "--term-ordering"):
        return t.choice(["KBO", "KBO6", "LPO", "LPO4", "Auto", "RPO", "Empty", "LPOCopy", "LPO4Copy"])
    if o in ("-G", "--order-precedence-generation"):
        return t.choice(erun.PGEN)
    if o in ("-w", "--order-weight-generation"):
        return t.choice(erun.WGEN)
    if "index" in o:
        return t.choice(erun.FP)
    if o.startswith("--precedence"):
        return mutate(t, "a>b,f>g>m,p>q", t.below(3))
    if o == "--order-weights":
        return mutate(t, "a:1,f:2,p:3", t.below(3))
    if o == "--sine":
        return t.choice(["Auto", "gf120_h_gu_R02_F100_L20000", "threshold010000", mutate(t, "GSinE(CountTerms,hypos,1.4,,02,20000,1.0)", 1)])
    if o.startswith("--satcheck"):
        return t.choice(erun.GROUND + ["1", "0"])
    return t.choice(VALUES + ["%d" % t.rand(0, 40)])


def gen_options(t):
    ho = t.chance(1, 4)
    text, kd = problem(t, ho)
    a = []
    opts = E["opts:ho" if ho else "opts"]
    for _ in range(t.rand(1, 6)):
        o, arg, optional = t.choice(opts)
        v = option_value(t, o)
        if o == "--answers" and not v.isdigit():
            v = "2"
        if arg and not (optional and t.chance(1, 3)):
            if len(o) == 2:
                a += [o, v]
            else:
                a.append(o + "=" + v)
        else:
            a.append(o)
    if t.chance(1, 10):
        a.append(t.choice(["--nonsense", "-?", "--no", "-Z", "--auto=1", "nofile.p", "--", "---", "-", "-C", "--pre"]))
    a += ["--cpu-limit=4", "--processed-clauses-limit=40", "--generated-limit=400"]
    return {"prog": "ho" if ho else "eprover", "text": text, "args": a, "kind": kd,
            "files": {"s.txt": mutate(t, E["strategy"], t.rand(0, 3)) if "s.txt" in " ".join(a) else "",
                      "w.p": problem(t)[0] if "w.p" in " ".join(a) else ""}}


def in_scratch(fn):
    d = tempfile.mkdtemp(prefix="c08.")
    try:
        return fn(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(d, files):
    for n, x in files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(x.encode("latin-1", "replace"))


def run_options(case):
    def go(d):
        write(d, case["files"])
        args = [x.replace("\0", "") for x in case["args"]]
        r = erun.run(E[case["prog"]], args, case["text"], timeout=25, cwd=d)
        b = report(case["prog"], args, r, case["text"] + "".join("\n--- %s:\n%s" % x for x in case["files"].items() if x[1]))
        return b if b is not None else ok([case["kind"], "exit:%s" % erun.EXIT.get(r.rc)])
    return in_scratch(go)


# ---------------------------------------------------------------- the other programs

PCLOPS = ["pm", "spm", "rw", "sr", "cn", "er", "ef", "ar", "condense", "csr", "split", "evalgc"]


def pcl(t):
    sig = gen.signature(t, "full")
    out, ids = [], []
    for i in range(1, t.rand(2, 10)):
        c = gen.clause(t, sig)
        if t.chance(1, 8):
            c = ()
        lits = ",".join(("++" if s else "--") + ("equal(%s, %s)" % (fol.pt(x[1]), fol.pt(x[2])) if x[0] == "=" else fol.pt(x) if len(x) > 1 else x[0])
                        for s, x in c)
        nm = "%d" % i if not t.chance(1, 8) else "%d.%d" % (t.rand(0, 3), i)
        if not ids or t.chance(1, 3):
            e = t.choice(['initial("f.p", c%d)' % i, "initial", 'initial("x", unknown)', "introduced"])
        elif t.chance(1, 6):
            e = t.choice(ids)
        else:
            op = t.choice(PCLOPS)
            n = {"cn": 1, "er": 1, "ef": 1, "split": 1, "evalgc": 1, "condense": 1}.get(op, 2)
            e = "%s(%s)" % (op, ",".join(t.choice(ids) if not t.chance(1, 5) else "%s(%s,%s)" % (op, t.choice(ids), t.choice(ids)) for _ in range(n)))
        ty = t.choice(["", "", "neg", "conj", "lemma", "que", "neg,lemma"])
        x = "" if not t.chance(1, 4) else " : '%s'" % t.choice(["proof", "final", "extract", "lemma", "x y"])
        if t.chance(1, 5) and c:
            body = fol.pf(fol.close(fol.cl2f(c)))
        else:
            body = "[%s]" % lits
        out.append("%6s : %s:%s : %s%s" % (nm, ty, body, e, x))
        ids.append(nm)
    return "\n".join(out) + "\n"


def gen_tools(t):
    p = t.choice(["epclextract", "epcllemma", "eground", "enormalizer", "e_axfilter", "classify_problem", "CSSCPA_filter"])
    n = t.weighted([(2, 0), (3, 1), (2, 2), (1, 6)])
    files, a, text = {}, [], None
    if p in ("epclextract", "epcllemma"):
        text = mutate(t, pcl(t), n)
        if p == "epclextract":
            a = t.sample(["-f", "-C", "-c", "-n", "-s", "--tstp-out"], t.below(3))
        elif p == "epcllemma":
            a = t.sample(["-i", "-r", "-f", "--tptp-out", "--tstp-out", "--lop-out", "-A3", "-R0.5", "-q1", "-N", "-H2"], t.below(4))
    elif p == "enormalizer":
        sig = gen.signature(t, "eq")
        rules = [((True, ("=", gen.term(t, sig, ["X", "Y"], 2), gen.term(t, sig, ["X"], 0))),) for _ in range(t.rand(1, 4))]
        files = {"r.p": mutate(t, "\n".join(fol.cnf("r%d" % i, "axiom", c) for i, c in enumerate(rules)) + "\n", n),
                 "t.p": mutate(t, "\n".join("%s." % fol.pt(gen.term(t, sig, ["X", "Y"], 3)) for _ in range(3)) + "\n", t.below(3)),
                 "c.p": mutate(t, "\n".join(fol.cnf("c%d" % i, "axiom", gen.clause(t, sig) or rules[0]) for i in range(3)) + "\n", t.below(3))}
        a = ["--cpu-limit=3", "--tstp-in", t.choice(["-tt.p", "-cc.p", "-fc.p"]), "r.p"]
    elif p == "eground":
        kd = t.choice(["epr", "full"])
        sig = gen.signature(t, kd)
        cs = [c for c in (gen.clause(t, sig, depth=0 if kd == "epr" else 2) for _ in range(t.rand(1, 5))) if c]
        text = mutate(t, "\n".join(fol.cnf("c%d" % i, "axiom", c) for i, c in enumerate(cs)) + "\n", n)
        a = ["--tstp-in", "--cpu-limit=3"] + t.sample(["--dimacs", "--constraints", "--local-constraints", "--split-tries=1", "--fix-point", "--add-one-instance",
                                    "-U", "--resources-info", "--unit-subsumption", "--unit-resolution", "--garbage-collect=5"], t.below(4))
    elif p == "e_axfilter":
        files = {"p.p": mutate(t, problem(t)[0] + problem(t)[0], n)}
        a = ["p.p", "--tstp-in"]
        if t.chance(2, 3):
            files["f.txt"] = mutate(t, "a=GSinE(CountFormulas,hypos,1.4,,02,100,1.0)\nb=GSinE(CountTerms,,2,,,,)\nc=Threshold(10)\n", t.below(4))
            a.append("-ff.txt")
    elif p == "classify_problem":
        text = mutate(t, problem(t)[0], n)
        a = ["--tstp-in"] + t.sample(["-r", "--specsig", "-H", "--no-preprocessing", "--sine=Auto", "-cxxx", "--raw-mask=aa", "-a", "-f0.3", "-caaaaaaaaaaaaa"], t.below(4))
    else:
        sig = gen.signature(t, "full")
        for i in range(t.rand(1, 6)):
            c = gen.clause(t, sig)
            text = (text or "") + t.choice(["accept: ", "check: ", "accept from 3: ", "check from 1: ", "state: \n", "output_level 2\n"]) + \
                fol.cnf("c%d" % i, "axiom", c or ((True, ("p0",)),)) + "\n"
        text = mutate(t, text, n)
        a = ["--tstp-in"] if t.chance(3, 4) else []
    return {"prog": p, "text": text, "args": a, "kind": p, "files": files}


def run_tools(case):
    def go(d):
        write(d, case["files"])
        r = erun.run(E[case["prog"]], case["args"], case["text"].encode("latin-1", "replace") if case["text"] is not None else None, timeout=10, cwd=d)
        b = report(case["prog"], case["args"], r, (case["text"] or "") + "".join("\n--- %s:\n%s" % x for x in case["files"].items() if x[1]))
        return b if b is not None else ok([case["prog"], "%s:%s" % (case["prog"], erun.EXIT.get(r.rc))])
    return in_scratch(go)


def show(c):
    return {"program": c["prog"], "args": " ".join(c["args"]), "text": (c["text"] or "")[:500]}


PARTS = [Part("inputs", gen_input, run_input, 5000, 200000,
              "a generated problem in one of the input languages with 0 to 12 token-level mutations; every case is non-trivial", show=show),
         Part("options", gen_options, run_options, 2500, 100000,
              "a generated problem and 1 to 6 documented options with plausible or nonsensical values; every case is non-trivial", show=show),
         Part("tools", gen_tools, run_tools, 2000, 100000,
              "generated and mutated PCL protocols, rewrite systems, problems and filter specifications for the other programs; "
              "every case is non-trivial", show=show)]

if __name__ == "__main__":
    sys.exit(pbt.main("C08", "exploration", PARTS, setup, assumptions=[
        "a run that exceeds the wall-clock timeout shows nothing; leaks are not counted; only memory errors that happen on the executed paths are seen"]))
