"""Compiles the library's current sources (with the real build's language settings) to LLVM IR,
links everything into one module and loads it.  Everything happens in a scratch directory that is
removed afterwards; /repo is only read."""
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import tempfile

import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FNFT_REPO", "/repo")
CLANG = next((c for c in ("/usr/bin/clang-18", "/usr/lib/llvm-18/bin/clang", "/usr/bin/clang") if os.path.exists(c)), "clang")


class AnalysisBroken(Exception):
    """the analysis cannot give an answer (never a pass, never a violation)"""


def tool(n):
    for c in ("/usr/lib/llvm-18/bin/" + n, "/usr/bin/" + n + "-18", "/usr/bin/" + n):
        if os.path.exists(c):
            return c
    return n


def irdump(name="irdump"):
    p = os.path.join(VERIF, "build", name)
    src = os.path.join(VERIF, "tool", name + ".cpp")
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        subprocess.check_call(["sh", os.path.join(VERIF, "setup.sh")])
    return p


def make_config(repo, scratch, fftw):
    """include/fnft_config.h as CMake would generate it (the generated file itself is not part of the sources)"""
    t = open(os.path.join(repo, "include", "fnft_config.h.in")).read()
    cm = open(os.path.join(repo, "CMakeLists.txt")).read()
    for k in ("MAJOR", "MINOR", "PATCH", "SUFFIX"):
        g = re.search(r'set\(\s*FNFT_VERSION_%s\s+("[^"]*"|\S+?)\s*\)' % k, cm)
        t = t.replace("@FNFT_VERSION_%s@" % k, g.group(1).strip('"') if g else "0")
    on = {"HAVE___THREAD"} | ({"HAVE_FFTW3"} if fftw else set())
    out = []
    for line in t.split("\n"):
        g = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if g:
            line = "#define %s%s" % (g.group(1), g.group(2)) if g.group(1) in on else "/* #undef %s */" % g.group(1)
        out.append(line)
    open(os.path.join(scratch, "include", "fnft_config.h"), "w").write("\n".join(out))


class Build:
    """scratch copy + compiled module"""

    def __init__(self, repo=None, fftw=False, extra=(), debug=False):
        self.repo = repo or REPO
        self.scratch = tempfile.mkdtemp(prefix="fnftsa.")
        self.fftw = fftw
        self.units = []
        self.extra = list(extra)

    def __enter__(self):
        try:
            self.build()
        except BaseException:
            self.close()
            raise
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def build(self):
        s = self.scratch
        for d in ("src", "include"):
            shutil.copytree(os.path.join(self.repo, d), os.path.join(s, d))
        make_config(self.repo, s, self.fftw)
        inc = ["-Iinclude", "-Iinclude/private", "-Iinclude/3rd_party/kiss_fft", "-Iinclude/3rd_party/eiscor"]
        if self.fftw:
            inc.append("-I" + os.path.join(VERIF, "stubs"))
        self.inc = inc
        units = sorted(glob.glob(os.path.join(s, "src", "*.c")) + glob.glob(os.path.join(s, "src", "private", "*.c"))
                       + glob.glob(os.path.join(s, "src", "3rd_party", "kiss_fft", "*.c")))
        units = [os.path.relpath(u, s) for u in units if "testcases" not in os.path.basename(u)]
        self.units = units
        os.mkdir(os.path.join(s, "ll"))
        dump = irdump()

        def comp(u):
            o = os.path.join(s, "ll", u.replace("/", "_") + ".bc")
            p = subprocess.run([CLANG, "-std=c99", "-O0", "-fcx-limited-range", "-Xclang", "-disable-O0-optnone",
                                "-fno-discard-value-names", "-g", "-fdebug-prefix-map=" + s + "=/fnft", "-c", "-emit-llvm", "-w"] + inc + [u, "-o", o],
                               cwd=s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return u, o, p.returncode, p.stdout

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(comp, units))
        bad = [r for r in rs if r[2]]
        if bad:
            raise AnalysisBroken("does not compile: %s\n%s" % (bad[0][0], bad[0][3][:600]))

        def sh(*c, **k):
            p = subprocess.run(c, cwd=s, stdout=k.get("stdout", subprocess.PIPE), stderr=subprocess.PIPE, text=True)
            if p.returncode:
                raise AnalysisBroken("%s failed: %s" % (c[0], p.stderr[:600]))

        sh(tool("llvm-link"), *[r[1] for r in rs], "-o", "all.bc")
        sh(tool("opt"), "-passes=function-attrs", "all.bc", "-o", "all2.bc")
        with open(os.path.join(s, "all.json"), "w") as f:
            sh(dump, "all2.bc", stdout=f)
        self.mod = ir.Module(os.path.join(s, "all.json"))
        self.bc = os.path.join(s, "all2.bc")

    def header_texts(self):
        out = {}
        for r, _, fs in os.walk(os.path.join(self.scratch, "include")):
            for f in fs:
                p = os.path.join(r, f)
                out[os.path.relpath(p, self.scratch)] = open(p, errors="replace").read()
        return out
