"""Bits shared by the checks."""
import re

from . import erun

_ST = {}


def strategies(exe):
    if exe not in _ST:
        r = erun.run(exe, ["--print-strategy=>all-names<"], timeout=60)
        _ST[exe] = [l.strip() for l in r.out.splitlines() if re.fullmatch(r"\s*[A-Za-z][\w-]*\s*", l)]
    return _ST[exe]


def clause_lines(out):
    return "\n".join(l for l in out.splitlines() if l.startswith(("cnf(", "fof(", "tff(", "tcf(", "thf(")))


_SO = None


def eval_clauses(I, text, maxinst=2500):
    """(cnf lines of text, verdict string) - see harness/oracle.c."""
    import ctypes
    from . import build
    global _SO
    if _SO is None:
        _SO = ctypes.CDLL(build.oracle_so())
        _SO.eval_clauses.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_long]
    n = I.n
    ar = {n ** k: k for k in range(6, -1, -1)} if n > 1 else None
    out = [str(n)]
    for kind, tab in (("f", I.f), ("p", I.p)):
        for nm, t in tab.items():
            for k in ([ar[len(t)]] if n > 1 else range(5)):
                out.append("%s %s\t%d %s" % (kind, nm, k, " ".join("%d" % x for x in t)))
    lines = [l for l in text.splitlines() if l.startswith("cnf(")]
    buf = ctypes.create_string_buffer(len(lines) + 1)
    k = _SO.eval_clauses("\n".join(out).encode() + b"\n", "\n".join(lines).encode() + b"\n", buf, len(lines), maxinst)
    assert k == len(lines)
    return lines, buf.raw[:k].decode()
