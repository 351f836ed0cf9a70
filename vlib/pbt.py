"""A small property-based testing engine on choice tapes.

Every random choice of a generator is drawn from a Tape, which records it.  A case is a pure function of
its tape; case number i of part P under seed S draws its tape from Random("S/P/i"), so a run is a pure
function of the code and the seed, whatever the number of workers.  A failing case is shrunk by deleting,
zeroing and lowering choices of its tape and generating again, and the smallest failing case is written to
a replay file that stores both the tape and the generated input.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build

ROOT = build.ROOT
NPROC = os.cpu_count() or 8


class Discard(Exception):
    """The generated case is outside the property's domain."""


class CaseTimeout(BaseException):
    """A case took so long that nothing is concluded from it."""


def _alarm(sig, frm):
    raise CaseTimeout()


def timed(fn, arg, seconds=40):
    """fn(arg), or CaseTimeout; only a safety net, so the time is generous."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(arg)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Tape:
    __slots__ = ("rng", "data", "pos", "out", "limit")

    def __init__(self, seed=None, data=None, limit=200000):
        self.rng = random.Random(seed) if data is None else None
        self.data = data
        self.pos = 0
        self.out = []
        self.limit = limit

    def below(self, n):
        """An integer in [0, n); shrinks towards 0."""
        if n <= 1:
            return 0
        if len(self.out) >= self.limit:
            raise Discard("tape limit")
        if self.rng is not None:
            v = int(self.rng.random() * n) if n < (1 << 40) else self.rng.randrange(n)
        else:
            v = self.data[self.pos] if self.pos < len(self.data) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        self.out.append(v)
        return v

    def rand(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; put the simplest value first."""
        total = sum(w for w, _ in pairs)
        r = self.below(total)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def chance(self, num, den):
        """True with probability num/den; shrinks towards False."""
        return self.below(den) >= den - num

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


class Outcome:
    """What running one case showed."""
    __slots__ = ("status", "msg", "labels", "nontrivial", "detail", "evals")

    def __init__(self, status="ok", msg="", labels=(), nontrivial=True, detail=None, evals=1):
        self.status, self.msg, self.labels = status, msg, list(labels)
        self.nontrivial, self.detail, self.evals = nontrivial, detail, evals


def ok(labels=(), nontrivial=True, detail=None, evals=1):
    return Outcome("ok", "", labels, nontrivial, detail, evals)


def bad(msg, detail=None, labels=()):
    return Outcome("bad", msg, labels, True, detail)


def unknown(labels=(), evals=1):
    return Outcome("unknown", "", labels, False, None, evals)


class Part:
    """One generated check: gen(tape) -> JSON-able case; run(case) -> Outcome."""

    def __init__(self, name, gen, run, quick, thorough, rule, setup=None, show=None, maxtime=None):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.setup = setup
        self.show = show or (lambda c: c)
        self.maxtime = maxtime  # seconds, quick tier: safety net only

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough


class HPart:
    """One generated check done in process by a C harness (see harness/tape.h)."""

    def __init__(self, name, exe, mode, quick, thorough, rule, chunk=None, env=None, args=(), case_timeout=60):
        self.name, self.exe, self.mode = name, exe, mode   # exe: callable returning a path
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.chunk, self.env, self.args = chunk, env, list(args)
        self.case_timeout = case_timeout

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough


# ---------------------------------------------------------------------------------------------

def _case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).digest()[:8]


_W = {}


def _worker(part, seed, q_in, q_out, deadline):
    try:
        random.seed(0)
        while True:
            rng = q_in.get()
            if rng is None:
                break
            lo, hi = rng
            res = {"n": 0, "keys": [], "labels": {}, "samples": [], "bad": [], "unknown": 0,
                   "discard": 0, "timeout": 0, "evals": 0}
            for i in range(lo, hi):
                if time.time() > deadline:
                    res["timeout"] += hi - i
                    break
                tape = Tape("%s/%s/%d" % (seed, part.name, i))
                try:
                    case = part.gen(tape)
                except Discard:
                    res["discard"] += 1
                    continue
                try:
                    o = timed(part.run, case)
                except Discard:
                    res["discard"] += 1
                    continue
                except CaseTimeout:
                    o = unknown(["case-timeout"])
                res["n"] += 1
                res["evals"] += o.evals
                for l in o.labels:
                    res["labels"][l] = res["labels"].get(l, 0) + 1
                if o.status == "unknown":
                    res["unknown"] += 1
                if o.nontrivial:
                    res["keys"].append(_case_key(case))
                    if len(res["samples"]) < 2:
                        res["samples"].append(part.show(case))
                if o.status == "bad" and len(res["bad"]) < 5:
                    res["bad"].append({"index": i, "tape": tape.out, "msg": o.msg})
            q_out.put(res)
    except BaseException:
        q_out.put({"error": traceback.format_exc()})


def _run_part(part, seed, tier, wall, confirm):
    n = part.cases(tier)
    chunk = max(1, min(50, n // (NPROC * 8) or 1))
    q_in, q_out = mp.Queue(), mp.Queue()
    ranges = [(i, min(n, i + chunk)) for i in range(0, n, chunk)]
    for r in ranges:
        q_in.put(r)
    nw = min(NPROC, len(ranges))
    for _ in range(nw):
        q_in.put(None)
    deadline = time.time() + wall
    procs = [mp.Process(target=_worker, args=(part, seed, q_in, q_out, deadline), daemon=True) for _ in range(nw)]
    for p in procs:
        p.start()
    agg = {"n": 0, "keys": set(), "labels": {}, "samples": [], "bad": [], "unknown": 0, "discard": 0,
           "timeout": 0, "evals": 0}
    got = 0
    while got < len(ranges):
        try:
            r = q_out.get(timeout=30)
        except Exception:
            if not any(p.is_alive() for p in procs) and q_out.empty():
                raise RuntimeError("workers died")
            continue
        if "error" in r:
            for p in procs:
                p.terminate()
            raise RuntimeError("worker error:\n" + r["error"])
        got += 1
        for k in ("n", "unknown", "discard", "timeout", "evals"):
            agg[k] += r[k]
        agg["keys"].update(r["keys"])
        for l, c in r["labels"].items():
            agg["labels"][l] = agg["labels"].get(l, 0) + c
        if len(agg["samples"]) < 4:
            agg["samples"].extend(r["samples"][:4 - len(agg["samples"])])
        stop = False
        for b in r["bad"]:
            v = confirm(part, b) if len(agg["bad"]) < 40 else None
            agg["bad"].append((b, v))
            if v is not None and "path" in v:
                stop = True
                break
        if stop:
            break
    for p in procs:
        p.terminate()
    for p in procs:
        p.join(5)
    q_in.cancel_join_thread()
    q_out.cancel_join_thread()
    return agg


def shrink(tape, fails, budget_s=60, max_tries=3000):
    """Greedy tape shrinking; fails(tape) -> the tape actually consumed if the case still fails, else None."""
    best = list(tape)
    end = time.time() + budget_s
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        if tries >= max_tries or time.time() > end:
            return False
        tries += 1
        r = fails(cand)
        if r is not None and (len(r), sum(r)) < (len(best), sum(best)):
            best = list(r)
            return True
        return False

    improved = True
    while improved and time.time() < end and tries < max_tries:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end and tries < max_tries:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                elif any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or time.time() > end:
                break
            v = best[i]
            for c in (0, v // 2, v - 1):
                if 0 <= c < v and i < len(best) and attempt(best[:i] + [c] + best[i + 1:]):
                    improved = True
                    break
    return best


# ---------------------------------------------------------------------------------------------

def _harness_cmd(part, *a):
    return [part.exe(), part.mode] + [str(x) for x in a] + part.args


def _run_hchunk(args):
    part, seed, lo, hi, wall = args
    with tempfile.NamedTemporaryFile(prefix="tape", suffix=".txt", delete=False) as tf:
        tpath = tf.name
    try:
        env = dict(os.environ)
        env.update(part.env or {})
        try:
            r = subprocess.run(_harness_cmd(part, "gen", seed, lo, hi, tpath), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=wall)
            rc, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return {"timeout": hi - lo, "stats": None, "bad": None}
        lines = out.decode(errors="replace").splitlines()
        stats = None
        for l in lines:
            if l.startswith("STATS "):
                stats = json.loads(l[6:])
        if rc == 0 and stats is not None:
            return {"timeout": 0, "stats": stats, "bad": None}
        tape = [int(x) for x in open(tpath).read().split()]
        msg = "; ".join(l for l in lines if l.startswith("FAIL"))
        if not msg:
            msg = "harness ended with status %s: %s" % (rc, err.decode(errors="replace")[-1500:])
        return {"timeout": 0, "stats": stats, "bad": {"index": lo, "tape": tape, "msg": msg}}
    finally:
        os.unlink(tpath)


def _harness_replay(part, tape, timeout=60):
    """-> (failed, consumed tape, message)."""
    fd, tpath = tempfile.mkstemp(prefix="tape")
    with os.fdopen(fd, "w") as f:
        f.write(" ".join(map(str, tape)))
    opath = tpath + ".out"
    env = dict(os.environ)
    env.update(part.env or {})
    try:
        try:
            r = subprocess.run(_harness_cmd(part, "replay", tpath, opath), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return False, tape, "timeout"
        if r.returncode == 0:
            return False, tape, ""
        used = tape
        if os.path.exists(opath):
            used = [int(x) for x in open(opath).read().split()]
        out = r.stdout.decode(errors="replace")
        msg = "\n".join(l for l in out.splitlines() if l.startswith(("FAIL", "CASE")))
        if not msg:
            msg = "harness ended with status %s\n%s" % (r.returncode, r.stderr.decode(errors="replace")[-2500:])
        return True, used, msg
    finally:
        for p in (tpath, opath):
            if os.path.exists(p):
                os.unlink(p)


def _run_hpart(part, seed, tier, wall, confirm):
    n = part.cases(tier)
    chunk = part.chunk or max(1, n // (NPROC * 4))
    agg = {"n": 0, "keys": set(), "labels": {}, "samples": [], "bad": [], "unknown": 0, "discard": 0,
           "timeout": 0, "evals": 0}
    deadline = time.time() + wall
    jobs = [(part, seed, i, min(n, i + chunk), max(10, wall)) for i in range(0, n, chunk)]
    from concurrent.futures import ThreadPoolExecutor, as_completed
    distinct = 0
    with ThreadPoolExecutor(NPROC) as ex:
        futs = []
        for j in jobs:
            futs.append(ex.submit(lambda j=j: _run_hchunk(j) if time.time() < deadline else
                                  {"timeout": j[3] - j[2], "stats": None, "bad": None}))
        for f in as_completed(futs):
            r = f.result()
            agg["timeout"] += r["timeout"]
            if r["stats"]:
                s = r["stats"]
                agg["n"] += s["cases"]
                agg["evals"] += s.get("evals", s["cases"])
                agg["discard"] += s.get("discard", 0)
                agg["keys"].update(s.get("keys", []))
                distinct += s.get("distinct", 0)
                for l, c in s.get("labels", {}).items():
                    agg["labels"][l] = agg["labels"].get(l, 0) + c
                if len(agg["samples"]) < 4:
                    agg["samples"].extend(s.get("samples", [])[:2])
            if r["bad"] and len(agg["bad"]) < 40:
                v = confirm(part, r["bad"])
                agg["bad"].append((r["bad"], v))
                if v is not None and "path" in v:
                    for g in futs:
                        g.cancel()
                    break
    if distinct:
        agg["distinct"] = distinct
    return agg


# ---------------------------------------------------------------------------------------------

def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main(pid, level, parts, setup=None, assumptions=(), quick_wall=420, thorough_wall=3000, known=None):
    """Entry point of a check.  known(part, case, msg) -> finding id of known_findings.jsonl or None."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--part")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--show", type=int, help="print case number N of --part and run it")
    a = ap.parse_args()
    t0 = time.time()
    if setup:
        setup()
    if callable(parts):
        parts = parts()
    if a.replay:
        return _replay(pid, parts, a.replay)
    if a.show is not None:
        part = [p for p in parts if p.name == a.part][0]
        if getattr(part, "setup", None):
            part.setup()
        case = part.gen(Tape("%s/%s/%d" % (a.seed, part.name, a.show)))
        print(json.dumps(case, indent=1, default=str) if not isinstance(case, str) else case)
        o = part.run(case)
        print(o.status, o.msg, o.labels, o.detail)
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    wall = quick_wall if tier == "quick" else thorough_wall
    cov_parts, evals, distinct, samples, rules = [], 0, 0, [], []
    viols = []
    seen_known = set()
    flaky = 0
    tailed = []
    confirm = lambda part, b: _confirm(pid, part, b, known)
    for part in parts:
        if a.part and part.name != a.part:
            continue
        if a.cases:
            part.quick = part.thorough = a.cases
        ts = time.time()
        left = max(20, wall - (ts - t0))
        if isinstance(part, HPart):
            try:
                part.exe()
            except build.BuildError as e:
                # an internal interface the harness uses is gone: nothing can be said here
                print("note: part %s was not run: %s" % (part.name, str(e)[:600]))
                cov_parts.append({"part": part.name, "cases": 0, "not_run": "harness does not build"})
                continue
            agg = _run_hpart(part, a.seed, tier, left, confirm)
        else:
            if part.setup:
                part.setup()
            agg = _run_part(part, a.seed, tier, left, confirm)
        d = agg.get("distinct") or len(agg["keys"])
        evals += agg["evals"]
        distinct += d
        rules.append("%s: %s" % (part.name, part.rule))
        for s in agg["samples"][:2]:
            samples.append({"part": part.name, "case": s})
        cp = {"part": part.name, "cases": agg["n"], "evaluations": agg["evals"], "distinct_nontrivial": d,
              "inconclusive": agg["unknown"], "discarded": agg["discard"], "not_run_time_budget": agg["timeout"],
              "labels": dict(sorted(agg["labels"].items())), "wall_s": round(time.time() - ts, 1)}
        cov_parts.append(cp)
        print("part %-22s cases=%d nontrivial=%d unknown=%d discard=%d timeouts=%d %.1fs %s" % (
            part.name, agg["n"], d, agg["unknown"], agg["discard"], agg["timeout"], time.time() - ts,
            " ".join("%s=%d" % kv for kv in sorted(agg["labels"].items()))), flush=True)
        for b, v in agg["bad"]:
            if v is None:
                flaky += 1
                print("note: a failure of part %s case %d did not reproduce: %s" % (part.name, b["index"], b["msg"][:500]))
            elif v.get("known"):
                seen_known.add(v["known"])
            else:
                viols.append(v)
        if viols:
            break
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": level,
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": " | ".join(rules),
                       "samples": samples[:12] or ["none"], "parts": cov_parts, "unreproduced_failures": flaky},
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if not (a.part or a.cases):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for v in viols:
        print(v["msg"])
        print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
    print("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs" % (pid, evals, distinct, len(viols), time.time() - t0))
    return 1 if viols else 0


def _confirm(pid, part, b, known):
    tape = b["tape"]
    if isinstance(part, HPart):
        def fails(t):
            f, used, _ = _harness_replay(part, t, part.case_timeout)
            return used if f else None
        for _ in range(3):
            if fails(tape) is None:
                return None
        small = shrink(tape, fails, 40)
        _, _, msg = _harness_replay(part, small)
        case = {"harness": os.path.basename(part.exe()), "mode": part.mode, "tape": small}
    else:
        def fails(t):
            tp = Tape(data=t)
            try:
                case = part.gen(tp)
                o = timed(part.run, case)
            except (Discard, CaseTimeout):
                return None
            return tp.out if o.status == "bad" else None
        for _ in range(3):
            if fails(tape) is None:
                return None
        small = shrink(tape, fails, 40)
        case = part.gen(Tape(data=small))
        msg = part.run(case).msg
    msg = msg or b["msg"]
    if known:
        k = known(part, case, msg)
        if k:
            return {"known": k}
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, part.name, hashlib.sha1(json.dumps(case, default=str).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": pid, "part": part.name, "tape": small, "case": case, "message": msg}, f, indent=1, default=str)
    return {"path": path, "msg": msg[:4000]}


def _replay(pid, parts, path):
    d = json.load(open(path))
    part = [p for p in parts if p.name == d["part"]][0]
    if isinstance(part, HPart):
        f, _, msg = _harness_replay(part, d["tape"])
    else:
        if part.setup:
            part.setup()
        o = part.run(part.gen(Tape(data=d["tape"])))
        f, msg = o.status == "bad", o.msg
    print(msg)
    if f:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay: the property holds on this case")
    return 0
