"""Checks TSTP proof objects step by step against finite counter-models."""
import itertools
import re

from . import fol, models


class Bad(Exception):
    pass


def ann_parents(a, out, stats):
    """Collects the parent names and inference statuses of an annotation."""
    if isinstance(a, str):
        out.append(a)
        return
    if isinstance(a, tuple) and a[0] == "inference":
        if len(a) != 4:
            raise Bad("malformed inference record %r" % (a,))
        for x in a[2]:
            if isinstance(x, tuple) and x[0] == "status":
                stats.append(x[1])
        for x in a[3]:
            ann_parents(x, out, stats)
        return
    if isinstance(a, tuple) and a[0] == ":":
        ann_parents(a[1], out, stats)
        return
    if isinstance(a, tuple) and a[0] in ("theory", "assume_negation"):
        return
    raise Bad("unknown annotation %r" % (a,))


def distinct(fs):
    """Axioms for the distinct objects of the formulas."""
    names = set()
    for f in fs:
        names |= {x for x in fol.syms(f)[0] if x.startswith('"')}
    return [("~", ("=", (a,), (b,))) for a, b in itertools.combinations(sorted(names), 2)]


def new_syms(f, known):
    fs, ps = fol.syms(f)
    return {("f", x) for x in fs if ("f", x) not in known} | {("p", x) for x in ps if ("p", x) not in known}


def all_syms(f):
    fs, ps = fol.syms(f)
    return {("f", x) for x in fs} | {("p", x) for x in ps}


def equivalent(f, g):
    """False only if a small finite interpretation tells them apart."""
    f, g = fol.close(f), fol.close(g)
    if fol.canon(f) == fol.canon(g):
        return True
    d = distinct([f, g])
    for n in (1, 2):
        if models.find_model(d + [("<~>", f, g)], (n,), limit=60000) is not None:
            return False
    return True


def expandable(pars, concl, sizes=(1, 2)):
    """False if some finite model of pars has no expansion satisfying concl (symbols new in concl)."""
    for n in sizes:
        I = models.find_model(distinct(pars) + pars, (n,), limit=60000)
        if I is None:
            continue
        # every symbol of the parents is fixed by I
        g = models.Ground(n, 80000)
        try:
            g.fixed(I)
            g.assert_f(fol.close(concl))
            if g.solve() is False:
                # symbols common to both but left out of I cannot exist: I interprets all symbols of pars
                return False
        except models.TooBig:
            pass
        finally:
            g.close()
    return True


def order_definitions(steps, isyms):
    """The introduced formulas must be explicit definitions of new symbols in some order (they are not always
    printed in that order), each conservative over the symbols before it."""
    known = set(isyms)
    pending = []
    formulas = {}
    for kind, name, role, f, ann in steps:
        formulas[name] = f
        src = ann[0] if ann else None
        if isinstance(src, tuple) and src[0] == "introduced":
            pending.append((name, fol.close(f)))
        elif src is not None and not (isinstance(src, tuple) and src[0] == "file"):
            pars, st = [], []
            ann_parents(src, pars, st)
            if "esa" in st:
                old = set()
                for p in pars:
                    if p in formulas:
                        old |= all_syms(formulas[p])
                known |= all_syms(f) - old
    while pending:
        cand = [(len(new_syms(f, known)), i) for i, (n, f) in enumerate(pending)]
        k, i = min(cand)
        name, f = pending.pop(i)
        ns = new_syms(f, known)
        if not ns:
            raise Bad("step %s is introduced, but defines no new symbol: %s" % (name, fol.pf(f)))
        if not conservative(f, ns):
            raise Bad("the introduced formula of step %s is not conservative: %s" % (name, fol.pf(f)))
        known |= ns


def check(lines, inputs, sizes=(1, 2, 3), max_steps=120):
    """lines: text of the proof; inputs: name -> (role, formula).  Returns statistics, raises Bad."""
    steps = fol.parse_all(lines)
    seen = {}
    stats = {"steps": len(steps), "checked": 0, "leaves": 0, "esa": 0, "defs": 0, "toobig": 0, "conjecture": False}
    isyms = set()
    for r, f in inputs.values():
        isyms |= all_syms(f)
    order_definitions(steps, isyms)
    allsyms = set(isyms)
    final = False
    for kind, name, role, f, ann in steps:
        if kind == "cnf":
            fol.f2cl(f)
        if name in seen:
            raise Bad("step %s is listed twice" % name)
        if not ann:
            raise Bad("step %s has no source" % name)
        src = ann[0]
        f = fol.close(f)
        if isinstance(src, tuple) and src[0] == "file":
            stats["leaves"] += 1
            inm = src[2] if len(src) > 2 else None
            if inm not in inputs:
                raise Bad("step %s claims to be input formula %r, which does not exist" % (name, inm))
            irole, inf = inputs[inm]
            if not equivalent(inf, f):
                raise Bad("step %s is not the input formula %s:\n  %s\n  %s" % (name, inm, fol.pf(inf), fol.pf(f)))
            if (role == "conjecture") != (irole == "conjecture"):
                raise Bad("step %s has role %s, the input has role %s" % (name, role, irole))
            if irole == "conjecture":
                stats["conjecture"] = True
        elif isinstance(src, tuple) and src[0] == "introduced":
            stats["defs"] += 1
        else:
            pars, st = [], []
            ann_parents(src, pars, st)
            for p in pars:
                if p not in seen:
                    raise Bad("step %s refers to %s, which is not listed before it" % (name, p))
            pf = [seen[p][1] for p in pars]
            bad_st = [s for s in st if s not in ("thm", "esa", "cth")]
            if bad_st:
                raise Bad("step %s has status %r" % (name, bad_st))
            if "cth" in st:
                if len(pars) != 1 or seen[pars[0]][0] != "conjecture":
                    raise Bad("step %s negates something that is not the conjecture" % name)
                concl_pars = [("~", pf[0])]
            else:
                concl_pars = pf
                for p in pars:
                    if seen[p][0] == "conjecture" and role != "conjecture":
                        raise Bad("step %s uses the conjecture %s as a premise" % (name, p))
            stats["checked"] += 1
            if stats["checked"] <= max_steps:
                ns = new_syms(f, allsyms)
                if "esa" in st:
                    stats["esa"] += 1
                    if not expandable(concl_pars, f):
                        raise Bad("step %s (esa) is false in every expansion of a model of its premises:\n  %s\n  from %s" % (
                            name, fol.pf(f), "; ".join(fol.pf(x) for x in concl_pars)))
                elif ns:
                    raise Bad("step %s introduces symbols %s but claims to be a theorem" % (name, sorted(ns)))
                else:
                    I = models.refute_entailment(distinct(concl_pars + [f]) + concl_pars, f, sizes, 40000)
                    if I is not None:
                        raise Bad("step %s does not follow from its premises:\n  %s\n  from %s\n  counter-model: n=%d f=%s p=%s" % (
                            name, fol.pf(f), "; ".join(fol.pf(x) for x in concl_pars), I.n, I.f, I.p))
            if f == ("$false",) and role != "conjecture":
                final = True
        allsyms |= all_syms(f)
        seen[name] = (role if isinstance(src, tuple) and src[0] == "file" else
                      ("conjecture" if role == "conjecture" else "plain"), f)
    if not final:
        raise Bad("the proof object does not derive $false")
    return stats


def conservative(f, ns):
    """Some expansion to the new symbols exists for small random interpretations of the old ones: checked exactly
    for a few interpretations enumerated by SAT."""
    for n in (1, 2):
        for seed in range(3):
            import random
            rng = random.Random(seed)
            fs, ps = fol.syms(f)
            I = fol.Interp(n, {x: [rng.randrange(n) for _ in range(n ** k)] for x, k in fs.items() if ("f", x) not in ns},
                           {x: [rng.randrange(2) for _ in range(n ** k)] for x, k in ps.items() if ("p", x) not in ns})
            if len({tuple(v) for x, v in I.f.items() if x.startswith('"')}) != sum(x.startswith('"') for x in I.f):
                continue
            g = models.Ground(n, 60000)
            try:
                g.fixed(I)
                g.assert_f(f)
                if g.solve() is False:
                    return False
            except models.TooBig:
                pass
            finally:
                g.close()
    return True


def extract(out):
    m = re.search(r"SZS output start \w+[^\n]*\n(.*?)\n[%#] SZS output end", out, re.S)
    return m.group(1) if m else None
