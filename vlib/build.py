"""Builds eprover's libraries, programs and our C harnesses from /repo's working tree.

Objects are cached under /verif/.cache (git-ignored), keyed by the content of the source file, of every
header of the tree and of the compiler flags, so a stale object can never be used; a check in a fresh
sandbox simply rebuilds everything (about 10 s on 8 cores).
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, ".cache")
LIBDIRS = ["BASICS", "INOUT", "TERMS", "ORDERINGS", "CLAUSES", "PROPOSITIONAL", "LEARN", "PCL2",
           "HEURISTICS", "CONTROL"]
MAINDIRS = ["PROVER", "EXTERNAL", "SIMPLE_APPS"]
PROGRAMS = ["eprover", "e_axfilter", "eground", "enormalizer", "checkproof", "epclextract", "epclanalyse",
            "ekb_create", "ekb_ginsert", "ekb_insert", "ekb_delete", "e_stratpar", "e_server", "e_deduction_server",
            "e_ltb_runner", "direct_examples", "edpll", "epcllemma", "classify_problem"]
HDRDIRS = LIBDIRS + MAINDIRS

BASE = ["-std=gnu99", "-fno-common", "-DSTACK_SIZE=32768", "-DCLAUSE_PERM_IDENT",
        "-DMEMORY_RESERVE_PARANOID", "-DPRINT_SOMEERRORS_STDOUT", "-DPRINT_TSTP_STATUS",
        "-DTAGGED_POINTERS", "-DVERIF_HOOKS", "-w"]
FLAVOURS = {
    # the project's own configuration (asserts off), optimised a little less so that it builds faster
    "opt": ("gcc", ["-O2", "-fomit-frame-pointer", "-DNDEBUG", "-DFAST_EXIT"]),
    # sanitizers on, the project's free lists replaced by malloc/free so that they can see errors
    "asan": ("gcc", ["-O1", "-g", "-fno-omit-frame-pointer", "-DNDEBUG", "-DFAST_EXIT",
                      "-DUSE_SYSTEM_MEM", "-fsanitize=address"]),
}


class BuildError(Exception):
    pass


def _h(data):
    return hashlib.sha1(data).hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers():
    """(digest of all headers, list of (name, path))."""
    items = []
    for d in HDRDIRS:
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith((".h", ".vars", ".inc")):
                items.append((f, os.path.join(p, f)))
    items.append(("picosat.h", os.path.join(REPO, "CONTRIB/picosat-965/picosat.h")))
    m = hashlib.sha1()
    for n, p in items:
        m.update(p.encode() + b"\0" + _read(p) + b"\0")
    return m.hexdigest(), items


def _lib_sources():
    out = []
    for d in LIBDIRS:
        mk = os.path.join(REPO, d, "Makefile")
        objs = set(re.findall(r"([A-Za-z0-9_+-]+)\.o\b", _read(mk).decode(errors="replace")))
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c") and f[:-2] in objs:
                out.append(os.path.join(REPO, d, f))
    out += [os.path.join(REPO, "CONTRIB/picosat-965", f) for f in ("picosat.c",)]
    return out


class Builder:
    """One variant ('fo' or 'ho') in one flavour ('opt' or 'asan')."""

    def __init__(self, variant="fo", flavour="opt"):
        self.variant, self.flavour = variant, flavour
        self.cc, fl = FLAVOURS[flavour]
        self.flags = BASE + fl + (["-DENABLE_LFHO"] if variant == "ho" else [])
        self.ldflags = [f for f in fl if f.startswith("-fsanitize")]
        self.hdr, items = _headers()
        os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
        inc = os.path.join(CACHE, "inc-" + self.hdr)
        if not os.path.isdir(inc):
            tmp = inc + ".%d" % os.getpid()
            os.makedirs(tmp)
            for n, p in items:
                shutil.copy(p, os.path.join(tmp, n))
            try:
                os.rename(tmp, inc)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.inc = inc
        self.libobjs = None

    def _compile(self, src, extra=()):
        data = _read(src)
        # quotes-includes resolve against the source's own directory first: use only the copies
        pico = "picosat-965" in src
        flags = self.flags if not pico else [f for f in self.flags if not f.startswith("-std")] + ["-DTRACE"]
        key = _h(("%s|%s|%s|%s|" % (self.cc, flags, extra, self.hdr)).encode() + data)
        obj = os.path.join(CACHE, "obj", key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            cmd = [self.cc] + flags + list(extra) + ["-I" + self.inc, "-I" + os.path.dirname(src), "-c", src, "-o", tmp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("compile failed: %s\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
            os.rename(tmp, obj)
        else:
            os.utime(obj)
        return obj

    def libs(self):
        if self.libobjs is None:
            srcs = _lib_sources()
            srcs.sort(key=lambda p: -os.path.getsize(p))
            with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
                objs = list(ex.map(self._compile, srcs))
            ver = os.path.join(CACHE, "picover.c")
            with open(ver + ".%d" % os.getpid(), "w") as f:
                f.write('const char*picosat_version(void){return "965";}\n'
                        'const char*picosat_config(void){return "";}\n')
            os.rename(ver + ".%d" % os.getpid(), ver)
            objs.append(self._compile(ver))
            key = _h("".join(sorted(objs)).encode())
            ar = os.path.join(CACHE, "lib-%s.a" % key)
            if not os.path.exists(ar):
                tmp = ar + ".%d.tmp" % os.getpid()
                subprocess.run(["ar", "rcs", tmp] + objs, check=True)
                os.rename(tmp, ar)
            self.libobjs = ar
        return self.libobjs

    def _link(self, objs, name, extra=()):
        ar = self.libs()
        key = _h(("|".join(objs) + ar + "|".join(extra)).encode())
        d = os.path.join(CACHE, "bin", key)
        exe = os.path.join(d, name)
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            cmd = [self.cc] + self.ldflags + ["-o", tmp] + objs + [ar, "-lm"] + list(extra)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("link failed: %s\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
            os.rename(tmp, exe)
        return exe

    def program(self, name):
        """Builds one of the project's programs, e.g. 'eprover', 'eground', 'CSSCPA_filter'."""
        with _Lock():
            for d in MAINDIRS:
                src = os.path.join(REPO, d, name + ".c")
                if os.path.exists(src):
                    objs = [self._compile(src)]
                    if d == "EXTERNAL":
                        objs.append(self._compile(os.path.join(REPO, d, "cex_csscpa.c")))
                    return self._link(objs, name + ("-ho" if self.variant == "ho" else ""))
        raise BuildError("no such program " + name)

    def harness(self, name, extra=(), ldextra=()):
        """Builds /verif/harness/<name>.c against the libraries."""
        with _Lock():
            hdir = os.path.join(ROOT, "harness")
            hh = _h(b"".join(_read(os.path.join(hdir, f)) for f in sorted(os.listdir(hdir)) if f.endswith(".h")))
            obj = self._compile(os.path.join(hdir, name + ".c"), extra=tuple(extra) + ("-DHARNESS_HDRS=\"%s\"" % hh, "-I" + hdir))
            return self._link([obj], name, ldextra)


def oracle_so():
    """Our own clause evaluator (harness/oracle.c), as a shared library."""
    src = os.path.join(ROOT, "harness", "oracle.c")
    so = os.path.join(CACHE, "oracle-%s.so" % _h(_read(src)))
    with _Lock():
        if not os.path.exists(so):
            tmp = so + ".tmp"
            subprocess.run(["gcc", "-O2", "-std=gnu99", "-shared", "-fPIC", "-o", tmp, src], check=True)
            os.rename(tmp, so)
    return so


class _Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(max_bytes=600 << 20):
    """Keeps the cache small: drops the least recently used files."""
    files = []
    for base, _, names in os.walk(CACHE):
        for n in names:
            p = os.path.join(base, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in files)
    for mt, sz, p in sorted(files):
        if total <= max_bytes:
            break
        if "/inc-" in p:
            continue
        try:
            os.unlink(p)
            total -= sz
        except OSError:
            pass


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["fo"]:
        t = time.time()
        b = Builder(*v.split(":"))
        print(b.program("eprover"), "%.1fs" % (time.time() - t))
