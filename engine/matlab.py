"""C17: the MATLAB commands (matlab/mex_*.c) hand the caller's inputs to the library and the results back.
Constant propagation (cprop) through each command, once per documented optional input: what is passed to the library is
compared with what the command's help text promises (matlab_table.py)."""
import os
import re
import shutil
import subprocess

import absint
import config
import cprop
import ir
import matlab_table as mt
import pipeline
import scen
import scen_table
import tables

mkset = cprop.mkset
D, NG, NEWK = 8, 6, 3     # samples, initial guesses, spectrum points "found" by the library
DIMS = "elements"


def module(b):
    """the library together with the commands; mexFunction of mex_x.c is called mex_x"""
    s = b.scratch
    src = os.path.join(b.repo, "matlab")
    shutil.copytree(src, os.path.join(s, "matlab"), dirs_exist_ok=True)
    stubs = os.path.join(pipeline.VERIF, "stubs", "matlab")
    units = []
    for cmd in mt.COMMANDS:
        u = "matlab/mex_%s.c" % cmd
        if not os.path.exists(os.path.join(s, u)):
            raise pipeline.AnalysisBroken("%s not found" % u)
        o = os.path.join(s, "ll", "mex_%s.bc" % cmd)
        p = subprocess.run([pipeline.CLANG, "-std=c99", "-O0", "-fcx-limited-range", "-Xclang", "-disable-O0-optnone",
                            "-fno-discard-value-names", "-g", "-fdebug-prefix-map=" + s + "=/fnft", "-DmexFunction=mex_" + cmd,
                            "-c", "-emit-llvm", "-w", "-I" + stubs] + b.inc + [u, "-o", o],
                           cwd=s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise pipeline.AnalysisBroken("does not compile: %s\n%s" % (u, p.stdout[:600]))
        units.append(o)
    out = os.path.join(s, "mex.json")
    p = subprocess.run([pipeline.tool("llvm-link"), "all2.bc"] + units + ["-o", "mex.bc"], cwd=s, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise pipeline.AnalysisBroken("llvm-link failed: %s" % p.stderr[:300])
    with open(out, "w") as f:
        subprocess.check_call([pipeline.irdump(), "mex.bc"], cwd=s, stdout=f)
    return ir.Module(out)


def help_strings(b, cmd):
    """the optional inputs the help text lists: a quoted word at the beginning of a line of the comment block"""
    p = os.path.join(b.repo, "matlab", "mex_%s.m" % cmd)
    if not os.path.exists(p):
        raise pipeline.AnalysisBroken("%s not found" % p)
    t = open(p, errors="replace").read()
    g = re.search(r"OPTIONAL INPUTS\s*\n%\s+It is possible(.*?)% OUTPUTS", t, re.S)
    return set(re.findall(r"^%\s*'(\w+)'", g.group(1), re.M)) if g else set()


def mine(m, g):
    return not g.decl and absint.short(g.file).startswith("matlab/")


class Arr:
    """an input as seen by the command"""

    def __init__(self, kind, n=1, value=None):
        self.kind, self.n, self.value = kind, n, value


def inputs(kinds):
    out = []
    for k in kinds:
        if k.__class__ is Arr:
            out.append(k)
        elif k == "complex":
            out.append(Arr("complex", D))
        elif k == "real":
            out.append(Arr("double", D))
        elif k == "pair":
            out.append(Arr("double", 2))
        elif k == "empty":
            out.append(Arr("double", 0))
        elif k.__class__ in (int, float):
            out.append(Arr("double", 1, float(k)))
        else:
            raise AssertionError(k)
    return out


def given(row):
    """the inputs a documented optional input consists of"""
    if len(row.parts) > 1:
        return sum((given(r) for r in row.parts), [])
    out = [Arr("char", len(row.string), row.string)]
    for k in row.follow:
        if k == "scalar":
            out.append(Arr("double", 1, mt.SCALAR))
        elif k == "box":
            out.append(Arr("double", 4))
        elif k == "guesses":
            out.append(Arr("complex", NG))
        elif k == "samples":
            out.append(Arr("complex", D))
    return out


class Follow:
    def __init__(self, m, cmd, arrs, nlhs, status=0):
        self.m, self.cmd, self.arrs, self.nlhs, self.status = m, cmd, arrs, nlhs, status
        self.spec = mt.COMMANDS[cmd]
        self.calls, self.prints, self.allocs, self.sites = [], [], {}, 0
        c = self.c = cprop.Run(m, lambda g: bool(re.search(r"_default_opts$|_max_K$", g.name)) or config.Facts.cared(m, g) or mine(m, g), self.hook, limit=16)
        c.unroll["mex_" + cmd] = 12000
        for f in m.funcs.values():
            if mine(m, f):
                c.unroll[f.name] = 12000
        self.res = c.analyze("mex_" + cmd, {0: mkset(nlhs), 1: mkset(("P", ("A", 1), 0)), 2: mkset(len(arrs)), 3: mkset(("P", ("A", 3), 0))})

        if c.gave_up & set(c.unroll):
            raise pipeline.AnalysisBroken("mex_%s could not be followed path by path" % cmd)

    def index(self, v):
        if v is None or len(v) != 1:
            return None
        a = next(iter(v))
        if a.__class__ is tuple and a[0] == "ld" and a[1] == ("A", 3) and a[2] is not None and a[2] // 8 < len(self.arrs) and a[2] >= 0:
            return a[2] // 8
        return None

    def hook(self, c, g, I, name, h, av, mem):
        self.sites += 1
        if name == "fnft_errwarn_setprintf":
            self.prints.append((config.place(self.m, I, g), av[0]))
            return cprop.EMPTY, mem
        if name == self.spec.root:
            self.calls.append((config.place(self.m, I, g), av, dict(mem)))
            mem = dict(mem)
            f = self.m.funcs[name]
            for par, what in self.spec.results.items():
                v = av[scen.param_index(f, par)]
                if v is None:
                    continue
                for a in v:
                    if a.__class__ is not tuple or a[0] != "P" or a[1] == "NULL" or a[2] is None:
                        continue
                    if what == "count":
                        cells = dict(mem.get(a[1], ()))
                        cells[a[2]] = mkset(NEWK)
                        mem[a[1]] = cells
                    else:
                        mem[a[1]] = {8 * i: mkset(("out", par, i)) for i in range(0, 200)}
            return mkset(self.status), mem
        if h is not None and not h.decl or not name.startswith(("mx", "mex", "str")):
            return None
        i = self.index(av[0]) if av else None
        a = self.arrs[i] if i is not None else None
        if name in ("mxMalloc", "mxCalloc"):
            n = av[0] if name == "mxMalloc" else c.op2("mul", av[0], av[1])
            o = ("Z" if name == "mxCalloc" else "H", "mex", I[1], I[2], n)
            self.allocs[o] = n
            return mkset(("P", o, 0)), mem
        if name == "mxFree" or name == "mexPrintf" or name == "mexWarnMsgTxt":
            return cprop.EMPTY if I[6] == "void" else mkset(0), mem
        if name in ("mxCreateDoubleMatrix", "mxCreateDoubleScalar", "mxCreateString"):
            dims = tuple(av)
            return mkset(("P", ("X", "mat", name, dims, I[1]), 0)), mem
        if name in ("strcmp", "strcmpi", "strncmp"):
            x, y = self.text(av[0]), self.text(av[1])
            if x is None or y is None:
                return cprop.TOP, mem
            if name == "strncmp":
                n = av[2]
                if n is None or len(n) != 1 or next(iter(n)).__class__ is not int:
                    return cprop.TOP, mem
                n = next(iter(n))
                x, y = x[:n], y[:n]
            if name == "strcmpi":
                x, y = x.lower(), y.lower()
            return mkset(0 if x == y else -1 if x < y else 1), mem
        if name == "strlen":
            x = self.text(av[0])
            return (cprop.TOP if x is None else mkset(len(x))), mem
        if name in ("mxGetPr", "mxGetPi"):
            part = "re" if name == "mxGetPr" else "im"
            if a is not None:
                return mkset(("P", ("X", "in", i, part), 0)), mem
            v = av[0]
            if v is not None and len(v) == 1 and next(iter(v))[0] == "P" and next(iter(v))[1][:2] == ("X", "mat"):
                return mkset(("P", ("X", "out", next(iter(v))[1], part), 0)), mem
            return cprop.TOP, mem
        if a is None:
            return (mkset(0, 1) if I[6] == "i1" else cprop.TOP), mem
        if name == "mxIsChar":
            return mkset(int(a.kind == "char")), mem
        if name == "mxIsComplex":
            return mkset(int(a.kind == "complex")), mem
        if name == "mxIsDouble":
            return mkset(int(a.kind in ("double", "complex"))), mem
        if name == "mxIsNumeric":
            return mkset(int(a.kind in ("double", "complex"))), mem
        if name == "mxIsEmpty":
            return mkset(int(a.n == 0)), mem
        if name == "mxIsScalar":
            return mkset(int(a.n == 1)), mem
        if name == "mxGetM":
            return mkset(1 if a.n else 0), mem
        if name in ("mxGetN", "mxGetNumberOfElements"):
            return mkset(a.n), mem
        if name == "mxGetScalar":
            return (mkset(a.value) if a.value is not None and a.kind == "double" else mkset(("ld", ("X", "in", i, "re"), 0))), mem
        if name == "mxArrayToString":
            return (mkset(("P", ("X", "text", a.value), 0)) if a.kind == "char" else mkset(cprop.NULL)), mem
        return None

    def text(self, v):
        if v is None or len(v) != 1:
            return None
        a = next(iter(v))
        if a.__class__ is not tuple or a[0] != "P":
            return None
        if a[1][:2] == ("X", "text") and a[2] == 0:
            return a[1][2]
        if a[1][0] == "G" and a[2] == 0:
            g = self.m.globals.get(a[1][1])
            return g.get("str") if g and (g.get("str") or g.get("size") == 1) else None
        return None


def plain(e):
    """x + 0*y and the like, in finite arithmetic"""
    if e.__class__ is not tuple or e[0] != "e":
        return e
    e = e[:2] + tuple(plain(x) for x in e[2:])
    op = e[1]
    if op == "fmul":
        if e[2] == 0 and e[2].__class__ in (int, float) or e[3] == 0 and e[3].__class__ in (int, float):
            return 0.0
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if x.__class__ in (int, float) and x == 1:
                return y
    if op in ("fadd", "fsub"):
        if e[3].__class__ in (int, float) and e[3] == 0:
            return e[2]
        if op == "fadd" and e[2].__class__ in (int, float) and e[2] == 0:
            return e[3]
    return e


def bytes_of(o, allocs):
    n = allocs.get(o)
    return next(iter(n)) if n is not None and len(n) == 1 and next(iter(n)).__class__ is int else None


def one(v):
    return next(iter(v)) if v is not None and len(v) == 1 else None


class Judge:
    """compares one followed command with what is documented"""

    def __init__(self, m, R, cmd, name):
        self.m, self.R, self.cmd, self.name = m, R, cmd, name
        self.spec = mt.COMMANDS[cmd]
        self.n = 0

    def bad(self, rule, key, where, what):
        self.R.add(rule, "matlab|%s|%s|%s" % (self.cmd, self.name, key), where, "%s: %s" % (self.name, what), instance="mex_%s" % self.cmd)

    def entry(self):
        f = self.m.funcs["mex_" + self.cmd]
        return "%s:%d (mexFunction)" % (absint.short(f.file), f.line)

    def rejected(self, F, why):
        self.n += 1
        if F.calls:
            self.bad("invalid-input-rejected", "accepted", F.calls[0][0], "%s, but the library is called" % why)

    def accepted(self, F):
        self.n += 1
        if not F.calls:
            self.bad("documented-input-accepted", "rejected", self.entry(), "the documented call never reaches the library")
            return False
        return True

    def arguments(self, F, want, opts, base):
        f = self.m.funcs[self.spec.root]
        for where, av, mem in F.calls:
            for par, w in want.items():
                self.n += 1
                v = av[scen.param_index(f, par)]
                self.arg(F, where, par, one(v), w, mem)
            if self.spec.options is None:
                continue
            k = config.options_index(self.spec.root)
            a = one(av[k])
            if a is None or a.__class__ is not tuple or a[0] != "P" or a[1] == "NULL":
                self.bad("options-as-documented", "opts", where, "no options object is passed")
                continue
            for off, (fld, default) in base.items():
                self.n += 1
                w = opts.get(fld, default)
                v = one(F.c.load(mem, mkset(("P", a[1], a[2] + off)), 8))
                v, w = plain(v), plain(w)
                if not config.same_value(v, w) and not (v.__class__ in (int, float) and w.__class__ in (int, float) and v == w):
                    self.bad("options-as-documented", "opts." + fld, where, "option %s is %s in the call of %s, documented: %s" % (
                        fld, shown(v), self.spec.root, shown(w)))

    def arg(self, F, where, par, v, w, mem):
        ok, why = True, ""
        ptr = v.__class__ is tuple and v[0] == "P"
        if w == "null":
            ok, why = v == cprop.NULL, "should be absent"
        elif w.__class__ in (int, float):
            ok, why = v.__class__ in (int, float) and v == w, "is %s instead of %s" % (shown(v), w)
        elif w[0] == "input":
            ok, why = v == ("P", ("X", "in", w[1], "re"), 0), "is not input %d" % (w[1] + 1)
        elif w[0] == "announced":
            c = scen.param_index(self.m.funcs[self.spec.root], w[1])
            n = one(F.c.load(mem, F.calls[0][1][c], 8))
            have = bytes_of(v[1], F.allocs) if ptr else None
            if not ptr or v == cprop.NULL:
                ok, why = False, "is absent"
            elif have is None or n.__class__ is not int or have < 16 * n:
                ok, why = False, "is a buffer of %s bytes, but %s elements are announced" % (have, shown(n))
            elif w[2] is not None and n < w[2]:
                ok, why = False, "has room for %d elements, at least %d are needed" % (n, w[2])
        elif w[0] == "output":
            ok, why = ptr and v[1][:2] == ("X", "out") and [one(d) for d in v[1][2][3]][:2] == [1, w[1]], "is not the array of an output with %d elements" % w[1]
        elif w[0] == "value":
            ok, why = ptr and plain(one(F.c.load(mem, mkset(v), 8))) == w[1], "is not %s" % w[1]
        elif w[0] == "buffer":
            n = bytes_of(v[1], F.allocs) if ptr else None
            if not ptr or v == cprop.NULL:
                ok, why = False, "is absent"
            elif n is None or v[2] != 0:
                ok, why = False, "is not a buffer of known length"
            elif n < w[1]:
                ok, why = False, "is a buffer of %d bytes, %d are needed" % (n, w[1])
            elif len(w) > 2 and w[2] is not None:
                self.n += 1
                kind, i, count = w[2]
                for e in range(count):
                    re_ = plain(one(F.c.load(mem, mkset(("P", v[1], 16 * e)), 8)))
                    im = plain(one(F.c.load(mem, mkset(("P", v[1], 16 * e + 8)), 8)))
                    wr, wi = ("ld", ("X", "in", i, "re"), 8 * e), ("ld", ("X", "in", i, "im"), 8 * e) if kind == "complex" else 0
                    if re_ != wr or im != wi:
                        ok, why = False, "is not filled with the values of input %d (element %d: %s, %s)" % (i + 1, e + 1, shown(re_), shown(im))
                        break
        if not ok:
            self.bad("arguments-as-documented", "arg." + par, where, "argument %s of %s %s" % (par, self.spec.root, why))

    def outputs(self, F, outs, nlhs):
        """outs: list of (argument, number of elements) or None (empty)"""
        self.n += 1
        if F.res is None:
            self.bad("results-returned", "return", self.entry(), "the command does not return although the library succeeds")
            return
        mem = F.res[1]
        cells = mem.get(("A", 1), {})
        for off in cells:
            self.n += 1
            if off == "*" or off.__class__ is not int or off // 8 >= max(nlhs, 1):
                self.bad("results-returned", "plhs", self.entry(), "output %s is stored although only %d are requested" % (
                    off // 8 + 1 if off.__class__ is int else "?", nlhs))
        for i, w in enumerate(outs):
            if i >= max(nlhs, 1):
                break
            self.n += 1
            v = one(cells.get(8 * i))
            if v is None or v.__class__ is not tuple or v[0] != "P" or v[1][:2] != ("X", "mat"):
                self.bad("results-returned", "out%d" % i, self.entry(), "output %d is not set" % (i + 1))
                continue
            name, dims = v[1][2], [one(d) for d in v[1][3]]
            if w is None:
                if dims[:2] != [0, 0]:
                    self.bad("results-returned", "out%d" % i, self.entry(), "output %d should be empty" % (i + 1))
                continue
            par, n = w
            if dims[:2] != [1, n]:
                self.bad("results-returned", "out%d" % i, self.entry(), "output %d has %s elements instead of %d" % (i + 1, shown(dims[1]), n))
                continue
            for e in range(n):
                got = [one(F.c.load(mem, mkset(("P", ("X", "out", v[1], part), 8 * e)), 8)) for part in ("re", "im")]
                if [plain(x) for x in got] != [("out", par, 2 * e), ("out", par, 2 * e + 1)]:
                    self.bad("results-returned", "out%d" % i, self.entry(), "element %d of output %d is %s instead of the library's result" % (
                        e + 1, i + 1, ", ".join(shown(x) for x in got)))
                    break


def shown(v):
    if v.__class__ is tuple and v[0] == "ld":
        if v[1][:2] == ("X", "in"):
            return "%s part of element %d of input %d" % (v[1][3], v[2] // 8 + 1, v[1][2] + 1)
        return "an unset value"
    if v.__class__ is tuple and v[0] == "out":
        return "%s[%d]" % (v[1], v[2])
    if v is None:
        return "unknown"
    if v == cprop.NULL:
        return "NULL"
    return str(v)[:80]


def fields(m, root):
    """offset -> (field name, default) of the options of a routine, from the default-options routine itself"""
    f = m.funcs[root]
    t = m.pointee(absint.param_type(f, config.options_index(root)))
    r = cprop.Run(m, lambda g: config.is_options_maker(m, g))
    res = r.analyze(root + "_default_opts", {0: mkset(("P", ("A", 0), 0))})
    out = {}
    for nm, off, ft in m.types[m.strip(t)]["members"]:
        s = m.types[m.strip(ft)]
        n = 4 if nm == "bounding_box" else 2 if s["tag"] == "DW_TAG_array_type" else 1
        for i in range(n):
            out[off + 8 * i] = (nm if n == 1 else "%s[%d]" % (nm, i), one(r.load(res[1], mkset(("P", ("A", 0), off + 8 * i)), 8)))
    return out


def check(b, R):
    m = module(b)
    suffixes = config.setup(m)
    nrows = nobl = nrej = ncalls = 0
    for cmd, spec in mt.COMMANDS.items():
        if spec.root not in m.funcs or m.funcs[spec.root].decl:
            raise pipeline.AnalysisBroken("%s not found" % spec.root)
        fixed = inputs(spec.fixed)
        base = fields(m, spec.root if spec.options else "fnft_nsev_inverse")
        rows = mt.rows(cmd)
        doc = help_strings(b, cmd)
        for s in sorted(doc - {r.string for r in rows}):
            raise pipeline.AnalysisBroken("mex_%s.m documents '%s', which matlab_table.py does not know" % (cmd, s))

        def judge(name):
            return Judge(m, R, cmd, name)

        for row in [mt.Row("")] + rows + mt.pairs(rows):
            name = "input '%s'" % row.string if row.string else "no optional inputs"
            arrs = inputs(row.fixed or spec.fixed) + (given(row) if row.string else [])
            two = len(row.parts) > 1
            for nlhs in (row.other.get("nlhs", spec.nlhs) if not two else [max(row.other.get("nlhs", spec.nlhs))]):
                nrows += 1
                J = judge(name)
                F = Follow(m, cmd, arrs, nlhs)
                ncalls += F.sites
                if not J.accepted(F):
                    break
                want, opts, outs = mt.expect(cmd, row, nlhs, D, NG, NEWK, lambda e: config.enum_const(m, e), base, suffixes)
                J.arguments(F, want, opts, base)
                J.outputs(F, outs, nlhs)
                J.n += 1
                if spec.options:
                    last = F.prints[-1] if F.prints else (J.entry(), None)
                    quiet = row.quiet()
                    v = one(last[1])
                    if not quiet and (v is None or v.__class__ is not tuple or v[0] != "FN") or quiet and v != cprop.NULL:
                        J.bad("options-as-documented", "quiet", last[0], "messages of the library are %s" % (
                            "not printed in MATLAB's command window" if not quiet else "not turned off"))
                nobl += J.n
            # the value is missing, or is a string
            for k in range(len(row.follow) if not two else 0):
                nrej += 1
                F = Follow(m, cmd, arrs[:len(inputs(row.fixed or spec.fixed)) + 1 + k], max(spec.nlhs))
                judge(name).rejected(F, "a value is missing")
                cut = list(arrs)
                cut[len(inputs(row.fixed or spec.fixed)) + 1 + k] = Arr("char", 2, "ab")
                judge(name).rejected(Follow(m, cmd, cut, max(spec.nlhs)), "the value is a string")
        # failures of the library and undocumented inputs
        J = judge("failure of the library")
        for st in (1, -1, 7, -2):
            F = Follow(m, cmd, fixed, max(spec.nlhs), status=st)
            J.n += 1
            if F.res is not None:
                J.bad("failure-reported", "status", J.entry(), "%s returns %d, but the command ends normally" % (spec.root, st))
        nobl += J.n
        if spec.options:
            nrej += 2
            judge("undocumented input").rejected(Follow(m, cmd, fixed + [Arr("char", 5, "xyzzy")], max(spec.nlhs)), "an unknown string is given")
            judge("undocumented input").rejected(Follow(m, cmd, fixed + [Arr("double", 1, 3.0)], max(spec.nlhs)), "a number is given where a string is expected")
        for k in range(len(fixed)):
            nrej += 1
            judge("inputs missing").rejected(Follow(m, cmd, fixed[:k], max(spec.nlhs)), "only %d inputs are given" % k)
            bad = list(fixed)
            bad[k] = Arr("char", 3, "abc")
            judge("wrong input").rejected(Follow(m, cmd, bad, max(spec.nlhs)), "input %d is a string" % (k + 1))
    R.coverage.update(commands=len(mt.COMMANDS), documented_inputs_followed=nrows, obligations=nobl, invalid_calls=nrej, call_sites_followed=ncalls)
