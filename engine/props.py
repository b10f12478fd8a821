"""The properties: each function decides one property and returns a Result."""
import re

import absint
import pipeline
import runner
import scen_table

REGISTRY = {}

TRANSFORMS = ["fnft_nsev", "fnft_nsep", "fnft_kdvv", "fnft_manakovv", "fnft_nsev_inverse", "fnft_nsev_inverse_XI"]


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


class Result:
    last = None

    def __init__(self):
        Result.last = self
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.explanation = ""
        self.level = "other"
        self._seen = set()

    def add(self, rule, key, where, what, **kw):
        if key in self._seen:
            return
        self._seen.add(key)
        self.violations.append(dict(rule=rule, key=key, where=where, what=what, **kw))


class Context:
    def __init__(self, tier):
        self.tier = tier
        self.builds = {}
        self.incomplete = []

    def build(self, fftw=False):
        if fftw not in self.builds:
            b = pipeline.Build(fftw=fftw)
            self.builds[fftw] = b
            b.__enter__()
        return self.builds[fftw]

    def close(self):
        for b in self.builds.values():
            b.close()

    def engine(self, roots=None, fftw=False, **opt):
        m = self.build(fftw).mod
        opt = dict(opt)
        pub = runner.public_roots(m)
        for r in TRANSFORMS:
            if r not in pub:
                raise pipeline.AnalysisBroken("public routine %s not found" % r)
        return self.run([(r, opt) for r in (roots or pub)], fftw)

    def run(self, jobs, fftw=False):
        m = self.build(fftw).mod
        try:
            res = runner.run(m, jobs)
        except Exception as e:
            raise pipeline.AnalysisBroken("analysis did not finish: %r" % e)
        for r in res:
            if r["error"]:
                raise pipeline.AnalysisBroken("analysis of %s failed: %s" % (r["name"], r["error"]))
        self.incomplete += sorted({r["name"] for r in res if r["incomplete"]})
        return res


def norm(s):
    """message without positions, for keys that survive edits elsewhere"""
    return re.sub(r"(\.[ch]|\.inc):\d+", r"\1", s)


def add_events(R, res, kinds, rule, pred=None):
    n = 0
    for r in res:
        for e in r["events"]:
            if e["kind"] not in kinds or (pred and not pred(e)):
                continue
            n += 1
            R.add(rule % e if "%" in rule else rule, "%s|%s|%s|%s" % (e["kind"], e["file"], e["func"], norm(e["msg"])),
                  "%s:%d (%s)" % (e["file"], e["line"], e["func"]), e["msg"], entry=r["name"],
                  chain=" > ".join(e["chain"]), path=" ; ".join(e["trace"]))
    return n


def cover(R, res):
    """what the analysis covered, summed over the entry points"""
    funcs, allocs, frees, raises, derefs = set(), set(), set(), set(), set()
    c = dict(entry_points=len(res), exit_states=0, call_evaluations=0, block_evaluations=0, forks=0, abstract_steps=0)
    for r in res:
        s = r["sets"]
        funcs.update(s.get("funcs", ()))
        allocs.update(s.get("allocs", ()))
        frees.update(s.get("frees", ()))
        raises.update(s.get("raises", ()))
        derefs.update(s.get("derefs", ()))
        c["exit_states"] += len(r["exits"])
        c["call_evaluations"] += r["stats"].get("calls", 0)
        c["block_evaluations"] += r["stats"].get("blocks", 0)
        c["forks"] += r["stats"].get("forks", 0)
        c["abstract_steps"] += r["stats"].get("steps", 0)
    c.update(functions=len(funcs), allocation_sites=len(allocs), release_sites=len(frees), error_sites=len(raises),
             dereference_sites=len(derefs))
    R.coverage.update(c)
    R.coverage["entries"] = [r["name"] for r in res]
    return c


ENGINE_ASSUMPTIONS = [
    "the program analysed is the LLVM IR of /repo's C sources (clang -O0, the defines CMake generates for a Linux build "
    "with Kiss FFT); the Fortran eigenvalue solver is a black box that may write its array arguments and the status",
    "loops are summarised by joining the states of their iterations; a single allocation site inside a loop stands for "
    "one block per iteration only through the owning array",
    "distinct pointer arguments of a public call do not overlap",
]


def need(c, **mins):
    for k, v in mins.items():
        if c.get(k, 0) < v:
            raise pipeline.AnalysisBroken("only %d %s analysed (expected at least %d): the analysis lost its subject" % (c.get(k, 0), k, v))


@prop("C01")
def c01(ctx):
    R = Result()
    res = ctx.engine()
    add_events(R, res, ("leak", "doublefree", "uaf", "badfree"), "memory-ownership (%(kind)s)")
    c = cover(R, res)
    need(c, allocation_sites=25, release_sites=40, functions=60)
    R.explanation = (
        "Typestate analysis of every heap block (live -> released) on all paths from each public entry point, through all "
        "library functions, including every path on which an allocation or a called routine fails. Rule: at each function "
        "return no block may become unreachable while live (leak); no block is released twice, used after its release, or "
        "released although it was not obtained by the call.")
    R.assumptions = ENGINE_ASSUMPTIONS
    return R


def status_root(r):
    """routine that returns a status (int)"""
    return r["ret"] == "i32"


def rets(e):
    """set of values a path may return, or None if unknown"""
    r = e["ret"]
    if r.__class__ is int:
        return frozenset((r,))
    return r if r.__class__ is frozenset else None


def may_be_zero(e):
    r = rets(e)
    if r is not None:
        return 0 in r
    r = e["ret"]
    if r.__class__ is tuple and len(r) == 3:
        lo, hi, ex = r
        return not ((lo is not None and lo > 0) or (hi is not None and hi < 0) or 0 in ex)
    return True


def where_raised(e, r):
    ra = e["raised"]
    return "%s:%d (%s)" % (ra[0], ra[1], ra[2]) if ra else "%s" % r["name"]


def errmsg_returns_code(ctx, R):
    """the reporting routine hands its error code back unchanged, whatever the print function does"""
    m = ctx.build().mod
    if "fnft__errmsg_aux" not in m.funcs or m.funcs["fnft__errmsg_aux"].decl:
        raise pipeline.AnalysisBroken("error reporting routine fnft__errmsg_aux not found")
    n = 0
    an = absint.Analysis(m)
    an.raise_fn = "fnft__errmsg_aux (analysed itself)"
    for code in (1, 2, 8, -1, -7):
        f, a, out = an.analyze("fnft__errmsg_aux", assume_nonnull=True, fixed={0: code})
        for rv, s in out:
            n += 1
            if rv != code:
                R.add("status-of-report", "errmsg|%d" % code, "src/private/fnft__errwarn.c (fnft__errmsg_aux)",
                      "reporting error %d does not return that code (returns %r)" % (code, rv), path=" ; ".join(an.trace_of(s)))
    if not n:
        raise pipeline.AnalysisBroken("fnft__errmsg_aux has no exits")
    return n


@prop("C02")
def c02(ctx):
    R = Result()
    res = [r for r in ctx.engine() if status_root(r)]
    nfail = nok = 0
    for r in res:
        for e in r["exits"]:
            if e["raised"]:
                nfail += 1
                if may_be_zero(e):
                    R.add("failure-swallowed", "swallowed|%s|%s" % (r["name"], e["raised"][2]), where_raised(e, r),
                          "%s may return success after the error reported here" % r["name"], entry=r["name"],
                          path=" ; ".join(e["trace"]))
            elif e["oom"]:
                nfail += 1
                if may_be_zero(e):
                    R.add("failure-swallowed", "swallowed-oom|%s|%s" % (r["name"], e["oom"][2]), "%s:%d (%s)" % e["oom"][:3],
                          "%s may return success although the allocation here failed" % r["name"], entry=r["name"],
                          path=" ; ".join(e["trace"]))
            else:
                nok += 1
                if rets(e) != frozenset((0,)):
                    R.add("unannounced-failure", "unannounced|%s" % r["name"], r["name"],
                          "%s may return a status other than success (%s) although no error was reported" % (r["name"], e["ret"]),
                          entry=r["name"], path=" ; ".join(e["trace"]))
    c = cover(R, res)
    R.coverage.update(failing_exit_states=nfail, successful_exit_states=nok, report_exits=errmsg_returns_code(ctx, R))
    need(c, error_sites=60, functions=60)
    need(R.coverage, failing_exit_states=60, successful_exit_states=10)
    R.explanation = (
        "Interprocedural propagation of error states: every reported error, every failed allocation and every failure status "
        "of the external eigenvalue solver marks the path; at each exit of each public routine the set of possible return "
        "values is compared with the mark. Rule: marked => 0 is not among the values; unmarked => 0 is the only value.")
    R.assumptions = ENGINE_ASSUMPTIONS
    return R


@prop("C03")
def c03(ctx):
    R = Result()
    res = ctx.engine()
    n = 0
    for r in res:
        if status_root(r):
            for e in r["exits"]:
                if not e["oom"]:
                    continue
                n += 1
                if may_be_zero(e):
                    R.add("allocation-failure-ignored", "oom-ok|%s|%s" % (r["name"], e["oom"][2]), "%s:%d (%s)" % tuple(e["oom"][:3]),
                          "%s may return success although the allocation here failed" % r["name"], entry=r["name"],
                          path=" ; ".join(e["trace"]))
        for (fl, line, fn, code), oom in r["rsites"].items():
            if code != 1 and oom == {True}:
                R.add("allocation-failure-misreported", "oom-code|%s|%s|%d" % (fl, fn, code), "%s:%d (%s)" % (fl, line, fn),
                      "error %d is reported here only after a failed allocation (out of memory is error 1)" % code, entry=r["name"])
    add_events(R, res, ("nullderef",), "failed-allocation-used", lambda e: True in e["oomf"] and "argument" not in e["msg"])
    add_events(R, res, ("leak", "uninit", "badfree", "doublefree", "uaf"), "failed-allocation-cleanup (%(kind)s)",
               lambda e: e["oomf"] == {True})
    c = cover(R, res)
    R.coverage["exits_after_failed_allocation"] = n
    R.coverage["error_sites_classified"] = len({k for r in res for k in r["rsites"]})
    need(c, allocation_sites=25)
    need(R.coverage, exits_after_failed_allocation=10, error_sites_classified=40)
    R.explanation = (
        "Every allocation site forks the analysis into success and failure. On the failure branch: the missing block is never "
        "dereferenced, the public routine cannot return success, the error reported because of it carries the out-of-memory "
        "code, and everything obtained before is released and nothing that was never set is read.")
    R.assumptions = ENGINE_ASSUMPTIONS
    return R


@prop("C04")
def c04(ctx):
    R = Result()
    res = [r for r in ctx.engine() if status_root(r)]
    n = ext = 0
    m = ctx.build().mod
    home = {r["name"]: absint.short(m.funcs[r["name"]].file) for r in res}
    for r in res:
        for e in r["exits"]:
            ra = e["raised"]
            if not ra:
                continue
            code = ra[3]
            if code.__class__ is str:
                ext += 1
                want = {-5, -1}       # "other" or, if the solver ran out of memory, "out of memory"
                if may_be_zero(e):
                    continue
            else:
                k = abs(code)
                # an error found by a private helper of the same routine may be handed out with either sign
                if ra[4] == r["name"]:
                    want = {k}
                elif ra[0] == home[r["name"]]:
                    want = {k, -k}
                else:
                    want = {-k}
            n += 1
            got = rets(e)
            if got is None or not got <= want:
                if got is not None and got == {0}:
                    continue          # a swallowed failure: decided by its own property
                R.add("return-code", "code|%s|%s|%s" % (r["name"], ra[2], code), where_raised(e, r),
                      "the error reported here has code %s, but %s may return %s (expected %s)" %
                      (code, r["name"], sorted(got) if got is not None else e["ret"], sorted(want)), entry=r["name"], path=" ; ".join(e["trace"]))
    c = cover(R, res)
    R.coverage.update(error_exits=n, exits_after_solver_failure=ext, report_exits=errmsg_returns_code(ctx, R))
    need(c, error_sites=60)
    need(R.coverage, error_exits=60, exits_after_solver_failure=1)
    R.explanation = (
        "For every path on which an error is reported, the analysis keeps the code of the first report and the routine that "
        "reported it, and compares them with the value the public routine returns: magnitude equal to that code; positive if "
        "the public routine reported it itself, negative if a routine of another source file did.")
    R.assumptions = ENGINE_ASSUMPTIONS
    return R


# documented outputs (parameter positions) of the public routines; every other pointer argument is an input
OUTPUTS = {
    "fnft_nsev": {"contspec", "K_ptr", "bound_states", "normconsts_or_residues"},
    "fnft_kdvv": {"contspec", "K_ptr", "bound_states", "normconsts_or_residues"},
    "fnft_manakovv": {"contspec", "K_ptr", "bound_states", "normconsts_or_residues"},
    "fnft_nsep": {"K_ptr", "main_spec", "M_ptr", "aux_spec", "sheet_indices"},
    "fnft_nsev_inverse": {"q", "contspec"},
    "fnft_nsev_inverse_XI": {"XI"},
    "fnft_version": {"major", "minor", "patch", "suffix"},
}


@prop("C05")
def c05(ctx):
    R = Result()
    res = ctx.engine()
    n = 0
    for r in res:
        names = scen_table.PARAMS.get(r["name"])
        outs = OUTPUTS.get(r["name"], set())
        for (o, off), (fl, line, fn) in sorted(r["effects"].items(), key=str):
            n += 1
            if o[0] == "A":
                nm = names[o[1]] if names and o[1] < len(names) else r["params"][o[1]]
                if nm not in outs:
                    R.add("input-modified", "write|%s|%s" % (r["name"], nm), "%s:%d (%s)" % (fl, line, fn),
                          "%s stores through its argument '%s', which is an input" % (r["name"], nm), entry=r["name"])
            elif o[0] == "G" and (r["name"], o[1]) != ("fnft_errwarn_setprintf", "fnft__printf_ptr"):
                R.add("global-modified", "global|%s|%s" % (r["name"], o[1]), "%s:%d (%s)" % (fl, line, fn),
                      "%s stores to the variable '%s', which outlives the call" % (r["name"], o[1]), entry=r["name"])
    seen = {(r["name"], (scen_table.PARAMS.get(r["name"]) or r["params"])[o[1]]) for r in res for (o, _) in r["effects"] if o[0] == "A"}
    for nm, outs in OUTPUTS.items():
        if any(r["incomplete"] and r["name"] == nm for r in res):
            continue
        for o in outs - {"sheet_indices", "normconsts_or_residues" if nm == "fnft_manakovv" else ""}:
            if (nm, o) not in seen:
                R.add("output-never-written", "never|%s|%s" % (nm, o), nm, "%s never stores to its output '%s'" % (nm, o), entry=nm)
    c = cover(R, res)
    R.coverage["effects"] = n
    need(R.coverage, effects=25)
    R.explanation = (
        "Effect analysis: the set of objects each public routine may store to (directly, in helpers, by memory copies or by "
        "external routines), on all paths. Rule: only documented outputs; never an input array, the caller's options or a "
        "variable that outlives the call; and every documented output is stored to on some path.")
    R.assumptions = ENGINE_ASSUMPTIONS + ["blocks reached only through pointers kept in the heap structures of the inverse "
                                          "scattering recursion are the library's own work arrays"]
    return R


# arguments that may be NULL, per routine: combinations that must be able to succeed
OPTIONAL = {
    "fnft_nsev": [("opts",), ("contspec", "XI"), ("bound_states", "K_ptr", "normconsts_or_residues"), ("normconsts_or_residues",)],
    "fnft_kdvv": [("opts",), ("contspec", "XI"), ("bound_states", "K_ptr", "normconsts_or_residues"), ("normconsts_or_residues",)],
    "fnft_manakovv": [("opts",), ("contspec", "XI"), ("bound_states", "K_ptr", "normconsts_or_residues"), ("normconsts_or_residues",)],
    "fnft_nsep": [("opts",), ("main_spec",), ("aux_spec",), ("sheet_indices",)],
    "fnft_nsev_inverse": [("opts",), ("contspec", "XI"), ("bound_states", "normconsts_or_residues")],
    "fnft_nsev_inverse_XI": [],
    "fnft_version": [],
}


def null_facts(an, f, a, rv, s):
    return {i: s.facts.get(("null", ("A", i))) for i in range(len(f.params)) if f.params[i]["ty"] == "ptr"}


@prop("C07")
def c07(ctx):
    R = Result()
    res = ctx.engine(probe=null_facts, split_null=True)
    add_events(R, res, ("nullderef",), "null-dereference")
    n = 0
    for r in res:
        names = scen_table.PARAMS.get(r["name"], ())
        for combo in OPTIONAL.get(r["name"], ()) if not r["incomplete"] else ():
            n += 1
            idx = [names.index(x) for x in combo]
            if not any(rets(e) == frozenset((0,)) and all(e["probe"].get(i) is not False for i in idx) for e in r["exits"]):
                R.add("optional-argument-rejected", "optional|%s|%s" % (r["name"], "+".join(combo)), r["name"],
                      "%s has no successful path on which %s is NULL, although that is allowed" % (r["name"], " and ".join(combo)),
                      entry=r["name"])
    c = cover(R, res)
    R.coverage["optional_argument_combinations"] = n
    need(c, dereference_sites=800)
    R.explanation = (
        "Nullness analysis of every pointer argument of every public routine and of every allocation result, path-sensitive "
        "and through all callees: no dereference (load, store, memory copy, external call) without a preceding check on that "
        "path; and for every argument the documentation declares optional there is a successful path on which it is NULL.")
    R.assumptions = ENGINE_ASSUMPTIONS
    return R


CONCRETE = [(1.0, 0.0), (-0.5, -3.0)]


@prop("C08")
def c08(ctx):
    R = Result()
    m = ctx.build().mod
    jobs = []
    for root, l in scen_table.SCEN.items():
        for n, spec in l:
            jobs.append((root, dict(scen=spec, tag=n)))
        jobs.append((root, dict(tag="")))
    res = ctx.run(jobs)
    by = {}
    for r in res:
        by.setdefault(r["name"], []).append(r)
    bad = []
    nre = 0
    for root, rs in by.items():
        free = [r for r in rs if not r["tag"]]
        if not free or not any(rets(e) == frozenset((0,)) for e in free[0]["exits"]):
            raise pipeline.AnalysisBroken("%s has no successful path at all: nothing to contrast rejection with" % root)
        for r in rs:
            if r["tag"]:
                if not r["exits"]:
                    raise pipeline.AnalysisBroken("%s never returns in calls with: %s" % (root, r["tag"]))
                nre += len(r["exits"])
                if any(may_be_zero(e) for e in r["exits"]):
                    bad.append(r)
    # a reversed interval is first described symbolically; acceptance counts only if concrete end points are accepted, too
    again = {}
    for r in bad:
        spec = dict(scen_table.SCEN[r["name"]])[r["tag"]]
        if any(c[0] == "not-increasing" and c[1] is None for _, c in spec):
            again[(r["name"], r["tag"])] = [(r["name"], dict(tag=r["tag"], scen=[(p, ("not-increasing", v) if c[0] == "not-increasing" else c)
                                                                               for p, c in spec])) for v in CONCRETE]
    ok2 = set()
    if again:
        for r in ctx.run([j for js in again.values() for j in js]):
            if any(may_be_zero(e) for e in r["exits"]):
                ok2.add((r["name"], r["tag"]))
    for r in bad:
        k = (r["name"], r["tag"])
        if k in again and k not in ok2:
            continue
        e = next(e for e in r["exits"] if may_be_zero(e))
        R.add("invalid-call-accepted", "accepted|%s|%s" % k, r["name"],
              "%s may return success in calls with: %s" % k, entry=r["name"], path=" ; ".join(e["trace"]))
    add_events(R, [r for r in res if r["tag"]], ("nullderef",), "invalid-call-not-rejected-in-time")
    R.coverage.update(kinds_of_invalid_call=sum(len(l) for l in scen_table.SCEN.values()), exit_states=nre,
                      calls=["%s: %s" % (a, n) for a, l in scen_table.SCEN.items() for n, _ in l])
    need(R.coverage, kinds_of_invalid_call=90)
    R.explanation = (
        "For each kind of call the documentation rules out, the assumption (argument NULL, size too small, interval not "
        "increasing, option value outside its enumeration, ...) is put into the entry state and the routine is analysed on "
        "all paths. Rule: no exit may return success. Acceptance in the unconstrained analysis is required as a contrast.")
    R.assumptions = ENGINE_ASSUMPTIONS + ["interval end points are not NaN"]
    return R


@prop("C12")
def c12(ctx):
    R = Result()
    m = ctx.build(True).mod
    for n in ("fftw_malloc", "fftw_free", "fftw_destroy_plan"):
        if n not in m.funcs:
            raise pipeline.AnalysisBroken("the FFTW configuration does not refer to %s" % n)
    res = ctx.engine(fftw=True)
    kinds = ("mismatch", "leak", "doublefree", "uaf", "badfree", "uninit")
    add_events(R, res, kinds, "fftw-build (%(kind)s)")
    add_events(R, res, ("nullderef",), "fftw-build (failed request used)", lambda e: "argument" not in e["msg"])
    for r in res:
        if status_root(r):
            for e in r["exits"]:
                if e["oom"] and may_be_zero(e):
                    R.add("fftw-build (failed request ignored)", "oom-ok|%s|%s" % (r["name"], e["oom"][2]), "%s:%d (%s)" % tuple(e["oom"][:3]),
                          "%s may return success although the request here failed" % r["name"], entry=r["name"], path=" ; ".join(e["trace"]))
    c = cover(R, res)
    need(c, allocation_sites=25, functions=60)
    R.explanation = (
        "The analysis of memory ownership, repeated for the configuration in which FFTW replaces Kiss FFT: buffers and plans "
        "carry the family of the routine they come from (malloc, fftw_malloc, fftw_plan) and must be released exactly once, "
        "by the routine of that family, on all paths including failed requests.")
    R.assumptions = ENGINE_ASSUMPTIONS + ["FFTW itself is represented by its documented interface (stubs/fftw3.h)"]
    return R


@prop("C13")
def c13(ctx):
    R = Result()
    res = ctx.engine()
    add_events(R, res, ("uninit",), "uninitialised-read")
    c = cover(R, res)
    need(c, allocation_sites=25, functions=60)
    R.explanation = (
        "Definite-initialisation analysis of locals, structure members, result arguments and heap blocks on all paths: no "
        "branch, address, arithmetic result or stored value may depend on memory that was not set on that path. Arrays are "
        "tracked as a whole (an array counts as set once any element was).")
    R.assumptions = ENGINE_ASSUMPTIONS + ["element-wise initialisation of arrays is not decided"]
    return R


@prop("C06")
def c06(ctx):
    import process
    R = Result()
    m = ctx.build().mod
    process.state(ctx, R, runner.public_roots(m))
    need(R.coverage, functions=60, mutable_variables=4, external_call_sites=300, fortran_routines=15, stores_to_variables=1)
    R.explanation = (
        "Flow-insensitive effect analysis of every statically allocated writable variable of the library: every instruction "
        "that stores through its address (followed through locals, address arithmetic and callees' parameters) or lets the "
        "address escape. Rule: only the setter of the print function stores, and that setting is per thread. No routine of "
        "the C library or the Fortran run-time that keeps hidden state is called; the Fortran solver has no writable statics.")
    R.assumptions = ["external routines outside the list of stateful ones (names in engine/process.py) keep no state",
                     "the build provides thread-local storage (HAVE___THREAD, as CMake finds on Linux)"]
    return R


@prop("C10")
def c10(ctx):
    import config
    R = Result()
    config.discretizations(ctx.build().mod, R)
    need(R.coverage, tables=14, table_entries=480, configurations=120, stage_call_sites=120)
    R.explanation = (
        "For each of the 91 documented discretizations, constant propagation through the functions that classify discretizations "
        "(order, degree, samples per step, internal equivalent, slow counterpart, announced number of eigenvalues) is compared with "
        "the documented tables; and each public routine is followed once per discretization: every call that is passed a "
        "discretization must be passed the chosen one or its documented slow counterpart.")
    R.assumptions = ["the tables in engine/tables.py are those of the public headers",
                     "coefficients inside the splitting formulas are not examined"]
    return R


@prop("C14")
def c14(ctx):
    import config
    R = Result()
    config.defaults(ctx.build().mod, R)
    need(R.coverage, default_fields=45, routines=5, compared_call_sites=400)
    R.explanation = (
        "The structure returned by each default-options routine is compared field by field with the documented defaults; then each "
        "public routine is followed by constant propagation with null options and with the default options: the same calls must be "
        "reachable with the same constant arguments, the same outputs and the same status values.")
    R.assumptions = ["the documented defaults are those in engine/config.py (public headers)"]
    return R


@prop("C15")
def c15(ctx):
    import config
    R = Result()
    config.options(ctx.build().mod, R)
    need(R.coverage, option_rows=55, step_obligations=110, arguments_followed=120, configurations=60, bounding_box_sides=4)
    R.explanation = (
        "Each public routine is followed by constant propagation once per row of engine/option_table.py (an option value or an absent "
        "output). Steps the row requires must be reachable, steps it excludes must not be; and the sign of the equation, iteration "
        "limits, the normalization flag and the caller's bounding box must arrive unchanged at every internal step that takes them.")
    R.assumptions = ["steps are identified by the library's internal routines named in engine/option_table.py",
                     "reachability is over-approximated: a step counts as possible unless the constants exclude it"]
    return R


@prop("C17")
def c17(ctx):
    import matlab
    R = Result()
    matlab.check(ctx.build(), R)
    need(R.coverage, commands=6, documented_inputs_followed=400, obligations=10000, invalid_calls=50)
    R.explanation = (
        "Each MATLAB command is compiled together with the library against declarations of MATLAB's interface and followed by "
        "constant and origin propagation once per documented optional input and number of outputs. At the call of the library, every "
        "argument (value, source array element by element, size of work arrays) and every field of the options object is compared "
        "with the help text; after it, every output element is traced back to the library's result. Calls with missing, unknown or "
        "ill-typed inputs and failing library calls must not get through.")
    R.assumptions = ["the help texts are those tabulated in engine/matlab_table.py (the list of strings is compared with the .m files)",
                     "signals have 8 samples; mxMalloc does not return if it fails; mexErrMsgTxt does not return"]
    return R


@prop("C11")
def c11(ctx):
    import process
    R = Result()
    m = ctx.build().mod
    process.output(ctx, R, runner.public_roots(m))
    need(R.coverage, functions=60, external_call_sites=300, fortran_routines=15, calls_of_the_print_function=2)
    R.explanation = (
        "Call-graph closure of all public routines, including functions whose address is taken and the Fortran solver's "
        "objects. Rule: no routine that ends the process or writes/reads files or streams is reachable, except inside the "
        "default print function, which is reached only through the configured pointer; every call through that pointer is "
        "dominated by a check against NULL (path-sensitive).")
    R.assumptions = ["external routines outside the lists in engine/process.py neither end the process nor write"]
    return R


@prop("C16")
def c16(ctx):
    R = Result()
    m = ctx.build().mod
    frames = 0
    import stackuse
    frames = stackuse.check(m, R, runner.public_roots(m))
    R.coverage.update(frames)
    need(R.coverage, functions=60, stack_objects=300)
    R.explanation = (
        "Every stack allocation instruction of every function reachable from a public routine: its size must be a "
        "compile-time constant (no variable-length arrays, no alloca of computed size) and the sum per function is below 64 KiB.")
    return R


@prop("C09")
def c09(ctx):
    import termination
    R = Result()
    termination.check(ctx.build(), R)
    need(R.coverage, loops=150, functions_with_loops=60, functions_examined=120)
    R.explanation = (
        "Every natural loop of every library function (after promotion of scalars to SSA form): some exit that is tested in "
        "every iteration compares a counter with a value that the loop does not change, and the counter moves towards it by at "
        "least one (or is multiplied/divided by at least two) on every path through the body. Floating-point conditions never "
        "count. Recursive calls need an argument that shrinks under a check against a constant.")
    R.assumptions = ["counters do not wrap (sizes are below 2^63)", "the Fortran eigenvalue solver and the user's print function return",
                     "a callee changes a local variable of its caller only if the call passes its address",
                     "loops listed under not_decided (explicit recursion stack of the inverse scattering, third-party FFT planning)"]
    return R
