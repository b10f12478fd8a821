"""Properties about what the options select: the routines are followed by constant propagation (cprop) once per option value."""
import multiprocessing
import os
import re

import absint
import cprop
import pipeline
import scen
import scen_table
import tables
from cprop import NULL, mkset

ROOTS = {"fnft_nsev": "nse", "fnft_nsep": "nse", "fnft_nsev_inverse": "nse", "fnft_kdvv": "kdv", "fnft_manakovv": "manakov"}
_m = None
_en = None


def pidx(root, name):
    return scen_table.PARAMS[root].index(name)


def options_index(root):
    return pidx(root, "opts")


def is_options_maker(m, g):
    """a routine that returns an options structure"""
    return bool(g.params) and bool(g.params[0].get("sret")) and (g.dname.endswith("_default_opts") or tiny(m, g))


def tiny(m, g):
    return g.ninsts <= 60 and all(m.funcs.get(c) is None or m.funcs[c].decl for c in g.callees)


def takes_options(m, g, i):
    """parameter i of g points to an options structure (a null one is handled, and followed, inside g)"""
    t = absint.param_type(g, i) if i < len(g.params) else None
    return t is not None and g.params[i]["ty"] == "ptr" and re.search(r"opts_t", m.tdesc(t)) is not None


class Facts:
    """per-module caches"""
    fams, cares = {}, {}

    @classmethod
    def fam(cls, m, g):
        r = cls.fams.get(g.name)
        if r is None:
            r = cls.fams[g.name] = {i: tables.family(m, absint.param_type(g, i)) for i in range(len(g.params))}
        return r

    @classmethod
    def cared(cls, m, g):
        r = cls.cares.get(g.name)
        if r is None:
            r = any(cls.fam(m, g).values()) or is_options_maker(m, g)
            for i in range(len(g.params)):
                t = absint.param_type(g, i)
                if t is not None and re.search(r"opts_t|discretization_t", m.tdesc(t)):
                    r = True
            cls.cares[g.name] = r
        return r


def enum_const(m, name):
    for e in m.enums:
        for n, v in e["m"]:
            if n == name:
                return v
    raise pipeline.AnalysisBroken("enumerator %s not found" % name)


def opt_cells(m, root, values):
    """cells of the options object for field -> value"""
    f = m.funcs[root]
    out = {}
    for fld, v in values.items():
        idx = None
        g = re.match(r"(\w+)\[(\d+)\]$", fld)
        if g:
            fld, idx = g.group(1), int(g.group(2))
        off, ty = scen.field(m, f, options_index(root), fld)
        if idx is not None:
            off += 8 * idx
        out[off] = mkset(v)
    return out


def place(m, I, f):
    return "%s:%d (%s)" % (absint.short(m.fname(I[3])), I[2], f.dname)


def follow(m, root, opts=None, args=None, on_call=None, interest=None):
    """runs root; opts: None = null options, else dict offset -> value set"""
    k = options_index(root)
    a = {k: mkset(NULL) if opts is None else mkset(("P", ("A", k), 0))}
    mem = {} if opts is None else {("A", k): dict(opts)}
    for i, v in (args or {}).items():
        a[i] = v
    seen = []

    def hook(run, f, I, name, h, av, mm):
        if on_call is not None:
            on_call(run, f, I, name, h, av, mm)
        return None
    r = cprop.Run(m, interest or (lambda g: Facts.cared(m, g)), hook, symbolic=False, limit=3)
    res = r.analyze(root, a, mem)
    if r.stats["cut"]:
        raise pipeline.AnalysisBroken("call depth exceeded in %s" % root)
    return r, res


def allowed(fam, s, root_fam):
    """suffixes a stage of family fam may be given if the user chose s of root_fam"""
    sl = tables.slow(root_fam, s)
    if fam == root_fam:
        return {s, sl}
    if fam == "akns":
        return {tables.base(s), tables.base(sl)}
    return set()


def disc_job(j):
    root, s = j
    m, en = _m, _en
    fam0 = ROOTS[root]
    inv = {f: {v: k for k, v in d.items()} for f, d in en.items()}
    bad, sites, undecided = [], set(), 0
    und = set()

    def on_call(run, f, I, name, h, av, mm):
        if h is None or h.decl:
            return
        for i, fam in Facts.fam(m, h).items():
            if fam is None:
                continue
            v = av[i] if i < len(av) else None
            key = (absint.short(m.fname(I[3])), I[2], f.dname, h.dname, fam)
            if v is None:
                und.add(key)
                continue
            sites.add(key)
            ok = {en[fam][x] for x in allowed(fam, s, fam0) if x in en[fam]}
            if not v <= ok:
                bad.append((key, sorted(inv[fam].get(x, str(x)) for x in v if x not in ok)))
    cells = opt_cells(m, root, {"discretization": en[fam0][s]})
    r, res = follow(m, root, cells, on_call=on_call)
    return dict(root=root, s=s, bad=bad, sites=sites, und=und, stats={k: (len(v) if isinstance(v, set) else v) for k, v in r.stats.items()})


def pool(fn, jobs):
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(8, len(jobs), os.cpu_count() or 1)) as p:
        return p.map(fn, jobs, 1)


def setup(m):
    global _m, _en
    _m = m
    _en = tables.enumerators(m)
    Facts.fams, Facts.cares = {}, {}
    return _en


def discretizations(m, R):
    en = setup(m)
    tables.tables(m, R)
    jobs = [(root, s) for root, fam in ROOTS.items() for s in sorted(en[fam])
            if tables.expected(fam, s) is not None]
    sites, und, contexts = set(), set(), 0
    for r in pool(disc_job, jobs):
        contexts += r["stats"]["contexts"]
        sites |= r["sites"]
        und |= r["und"]
        for (file, line, f, h, fam), vals in r["bad"]:
            R.add("discretization-of-stage", "stage|%s|%s|%s|%s" % (r["root"], f, h, r["s"]), "%s:%d (%s)" % (file, line, f),
                  "with discretization %s, %s is called with %s%s (documented scheme: %s)" % (
                      r["s"], h, tables.FAMILIES[fam], "/".join(vals), " or ".join(sorted(allowed(fam, r["s"], ROOTS[r["root"]])))),
                  instance="%s, discretization %s" % (r["root"], r["s"]))
    R.coverage.update(configurations=len(jobs), stage_call_sites=len(sites), undecided_call_sites=len(und - sites), calling_contexts=contexts)
    R.coverage["undecided"] = sorted("%s:%d %s -> %s" % k[:4] for k in und - sites)[:20]


# ---- default options -------------------------------------------------------
NAN = "nan"
DEFAULTS = {
    "fnft_nsev": {"bound_state_filtering": "fnft_nsev_bsfilt_FULL", "bound_state_localization": "fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE",
                  "niter": 100, "tol": -1.0, "Dsub": 0, "discspec_type": "fnft_nsev_dstype_NORMING_CONSTANTS",
                  "contspec_type": "fnft_nsev_cstype_REFLECTION_COEFFICIENT", "normalization_flag": 1,
                  "discretization": "fnft_nse_discretization_2SPLIT4B", "richardson_extrapolation_flag": 0,
                  "bounding_box[0]": NAN, "bounding_box[1]": NAN, "bounding_box[2]": NAN, "bounding_box[3]": NAN},
    "fnft_nsep": {"localization": "fnft_nsep_loc_SUBSAMPLE_AND_REFINE", "filtering": "fnft_nsep_filt_AUTO", "max_evals": 50,
                  "bounding_box[0]": float("-inf"), "bounding_box[1]": float("inf"), "bounding_box[2]": float("-inf"), "bounding_box[3]": float("inf"),
                  "normalization_flag": 1, "discretization": "fnft_nse_discretization_2SPLIT2A", "floquet_range[0]": -1.0,
                  "floquet_range[1]": 1.0, "points_per_spine": 2, "Dsub": 0, "tol": -1.0},
    "fnft_kdvv": {"bound_state_localization": "fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE", "niter": 10,
                  "discspec_type": "fnft_kdvv_dstype_NORMING_CONSTANTS", "contspec_type": "fnft_kdvv_cstype_REFLECTION_COEFFICIENT",
                  "normalization_flag": 1, "discretization": "fnft_kdv_discretization_2SPLIT4B", "richardson_extrapolation_flag": 0,
                  "grid_spacing": 0.0},
    "fnft_manakovv": {"bound_state_filtering": "fnft_manakovv_bsfilt_FULL",
                      "bound_state_localization": "fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE", "niter": 10, "Dsub": 0,
                      "discspec_type": "fnft_manakovv_dstype_NORMING_CONSTANTS",
                      "contspec_type": "fnft_manakovv_cstype_REFLECTION_COEFFICIENT", "normalization_flag": 1,
                      "discretization": "fnft_manakov_discretization_2SPLIT4B", "richardson_extrapolation_flag": 0},
    "fnft_nsev_inverse": {"discretization": "fnft_nse_discretization_2SPLIT2A",
                          "contspec_type": "fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT",
                          "contspec_inversion_method": "fnft_nsev_inverse_csmethod_DEFAULT",
                          "discspec_type": "fnft_nsev_inverse_dstype_NORMING_CONSTANTS", "max_iter": 100, "oversampling_factor": 8},
}


def resolved_defaults(m, root):
    return {k: enum_const(m, v) if v.__class__ is str and v != NAN else v for k, v in DEFAULTS[root].items()}


def isnan(a):
    return a.__class__ is float and a != a or a == NAN


def same_value(a, b):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return a == b


def show(v):
    if v is None:
        return "unknown"
    return "/".join(sorted(map(str, v))) or "never set"


class Recorder:
    def __init__(self, m, k):
        self.m, self.k = m, k
        self.seen = {}

    def norm(self, v):
        if v is None:
            return None
        out = set()
        for a in v:
            if a.__class__ is tuple:
                if a[0] == "P":
                    a = "null" if a[1] == "NULL" else "object"
                else:
                    a = "other"
            elif isnan(a):
                a = NAN
            out.add(a)
        return frozenset(out)

    def __call__(self, run, f, I, name, h, av, mm):
        if name.startswith("llvm."):
            return
        if h is not None and not h.decl and is_options_maker(self.m, h):
            return
        if f is not None and is_options_maker(self.m, f):
            return
        key = (absint.short(self.m.fname(I[3])), I[2], I[1], f.dname, h.dname if h is not None and not h.decl else name,
               h is not None and not h.decl and tiny(self.m, h))
        args = tuple("options" if h is not None and not h.decl and takes_options(self.m, h, i) else self.norm(x) for i, x in enumerate(av))
        self.seen.setdefault(key, set()).add(args)


def default_job(j):
    m = _m
    root, with_opts = j
    k = options_index(root)
    rec = Recorder(m, k)
    opts = opt_cells(m, root, resolved_defaults(m, root)) if with_opts else None
    r, res = follow(m, root, opts, on_call=rec)
    out = {}
    if res is not None:
        for o, c in res[1].items():
            if o[0] == "A" and o != ("A", k):
                for off, v in c.items():
                    out[(o[1], off)] = rec.norm(v)
    return dict(root=root, seen=rec.seen, ret=rec.norm(res[0]) if res else None, out=out, contexts=r.stats["contexts"])


def defaults(m, R):
    setup(m)
    nf = 0
    for root in DEFAULTS:
        fn = root + "_default_opts"
        if fn not in m.funcs or m.funcs[fn].decl:
            raise pipeline.AnalysisBroken("%s not found" % fn)
        f = m.funcs[fn]
        r = cprop.Run(m, lambda g: False, symbolic=False)
        want = opt_cells(m, root, resolved_defaults(m, root))
        names = {}
        for fld in DEFAULTS[root]:
            for off in opt_cells(m, root, {fld: 0}):
                names[off] = fld
        if f.params and f.params[0].get("sret"):
            res = r.analyze(fn, {0: mkset(("P", ("A", 0), 0))})
            if res is None:
                raise pipeline.AnalysisBroken("%s does not return" % fn)

            def get(off):
                return r.load(res[1], mkset(("P", ("A", 0), off)), 8)
        else:
            raise pipeline.AnalysisBroken("%s does not return a structure" % fn)
        fl = m.funcs[fn]
        for off, w in sorted(want.items()):
            nf += 1
            v = get(off)
            if v is None or len(v) != 1 or not same_value(next(iter(v)), next(iter(w))):
                R.add("documented-default", "default|%s|%s" % (root, names[off]), "%s:%d (%s)" % (absint.short(fl.file), fl.line, fl.dname),
                      "default of option %s is %s, documented: %s" % (names[off], show(v), show(w)))
    # calls with null options against calls with the default options
    jobs = [(root, w) for root in DEFAULTS for w in (False, True)]
    res = {(r["root"], j[1]): r for j, r in zip(jobs, pool(default_job, jobs))}
    sites = 0
    for root in DEFAULTS:
        a, b = res[(root, False)], res[(root, True)]
        sites += len(b["seen"])
        for key in sorted(set(a["seen"]) | set(b["seen"])):
            x, y = a["seen"].get(key), b["seen"].get(key)
            where = "%s:%d (%s)" % (key[0], key[1], key[3])
            if x == y:
                continue
            if x is None or y is None:
                if key[5]:
                    continue
                what = "%s is called only %s" % (key[4], "with the default options, not with null options" if x is None else "with null options, not with the default options")
            else:
                dx = sorted({i for t in x for u in y for i in range(min(len(t), len(u))) if t[i] != u[i]})
                what = "%s is called with other arguments if the options are null than with the default options (argument %s)" % (
                    key[4], ", ".join(str(i + 1) for i in dx))
            R.add("null-options-are-default-options", "null|%s|%s|%s" % (root, key[3], key[4]), where, what, instance=root)
        if a["ret"] != b["ret"]:
            R.add("null-options-are-default-options", "null|%s|return" % root, root, "the status differs between null options and the default options")
        for k in sorted(set(a["out"]) | set(b["out"]), key=str):
            if a["out"].get(k) != b["out"].get(k):
                R.add("null-options-are-default-options", "null|%s|out%s" % (root, k), root,
                      "output argument %d differs between null options and the default options" % (k[0] + 1))
    # the announced number of eigenvalues
    for root, fam in (("fnft_nsev", "nse"), ("fnft_kdvv", "kdv"), ("fnft_manakovv", "manakov")):
        fn = root + "_max_K"
        if fn not in m.funcs or m.funcs[fn].decl:
            if root == "fnft_kdvv":
                continue
            raise pipeline.AnalysisBroken("%s not found" % fn)
        d = resolved_defaults(m, root)["discretization"]
        inv = {v: k for k, v in _en[fam].items()}
        want = 1000 * tables.expected(fam, inv[d])[1]
        r = cprop.Run(m, lambda g: Facts.cared(m, g), symbolic=False)
        v = r.analyze(fn, {0: mkset(1000), 1: mkset(NULL)})
        sites += 1
        if v is None or v[0] != mkset(want):
            f = m.funcs[fn]
            R.add("null-options-are-default-options", "null|%s" % fn, "%s:%d (%s)" % (absint.short(f.file), f.line, f.dname),
                  "with null options %s, with the default options %d (1000 samples)" % (show(v[0]) if v else "no value", want))
    R.coverage.update(default_fields=nf, routines=len(DEFAULTS), compared_call_sites=sites,
                      calling_contexts=sum(r["contexts"] for r in res.values()))


# ---- what the options select ------------------------------------------------
def closure(m, name, seen):
    todo = [name]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        g = m.funcs.get(n)
        if g is not None and not g.decl:
            todo.extend(g.callees)


def reach_job(j):
    m = _m
    root, opts, args = j
    reached, leaf, first = set(), set(), {}
    calls, boxes = [], []

    def on_call(run, f, I, name, h, av, mm):
        if h is not None and h.dname == "fnft__misc_filter" and len(av) > 3 and av[3]:
            boxes.append((place(m, I, f), [run.load(mm, frozenset(("P", a[1], a[2] + 8 * i) for a in av[3] if a[0] == "P" and a[2] is not None), 8)
                                           for i in range(4)]))
        if name not in reached:
            reached.add(name)
            first[name] = (place(m, I, f))
        if h is not None and not h.decl:
            if not run.interesting(h):
                closure(m, name, leaf)
            calls.append((name, place(m, I, f), f.dname, tuple(None if x is None else frozenset(
                (("null" if a[1] == "NULL" else "object") if a.__class__ is tuple and a[0] == "P" else a) for a in x) for x in av)))
    cells = opt_cells(m, root, {k: enum_const(m, v) if v.__class__ is str else v for k, v in opts.items()})
    a = {}
    for k, v in args.items():
        i = pidx(root, k)
        a[i] = mkset(NULL) if v == "null" else mkset(("P", ("A", i), 0)) if v == "given" else mkset(v)
    r, res = follow(m, root, cells, args=a, on_call=on_call)
    out = {}
    if res is not None:
        for o, c in res[1].items():
            if o[0] == "A":
                out[o[1]] = {k: (None if v is None else frozenset(v)) for k, v in c.items()}
    names = {}
    for n in reached | leaf:
        g = m.funcs.get(n)
        names[g.dname if g is not None and not g.decl else n] = first.get(n, "")
    return dict(names=names, boxes=boxes, calls=[(m.funcs[c[0]].dname,) + c[1:] for c in calls], out=out, contexts=r.stats["contexts"], returns=res is not None)


def options(m, R):
    import option_table as ot
    setup(m)
    jobs = []
    for root, rows in ot.ROWS.items():
        bo, ba = ot.BASE[root]
        for name, o, a, use, skip in rows:
            jobs.append((root, name, dict(bo, **o), dict(ba, **a), use, skip))
    steps = {n for j in jobs for n in j[4] + j[5]}
    for n in sorted(steps):
        if not any(f.dname == n and not f.decl for f in m.funcs.values()):
            raise pipeline.AnalysisBroken("internal routine %s not found" % n)
    # signs and iteration limits
    signs = [(root, k) for root in ROOTS if root != "fnft_kdvv" for k in (1, -1)]
    flags = []
    for root in ("fnft_nsev", "fnft_nsep", "fnft_kdvv", "fnft_manakovv"):
        opts = [(o, a) for _, o, a, _, _ in ot.ROWS[root] if any("localization" in k for k in o)] + [({}, {})]
        flags += [(root, v, o, a) for o, a in opts for v in (0, 1)]
    sj = [(root, ot.BASE[root][0], dict(ot.BASE[root][1], kappa=k, **({"K": 0} if root == "fnft_nsev_inverse" and k < 0 else {}))) for root, k in signs]
    fj = [(root, dict(ot.BASE[root][0], normalization_flag=v, **o), dict(ot.BASE[root][1], **a)) for root, v, o, a in flags]
    res = pool(reach_job, [(j[0], j[2], j[3]) for j in jobs] + sj + fj)
    nobl, contexts = 0, 0
    for (root, name, o, a, use, skip), r in zip(jobs, res):
        contexts += r["contexts"]
        if not r["returns"]:
            R.add("option-selects", "option|%s|%s|return" % (root, name), root, "%s: the call does not return" % name, instance=root)
        for n in use:
            nobl += 1
            if n not in r["names"]:
                R.add("option-selects", "option|%s|%s|%s" % (root, name, n), where_of(m, root), "%s: the step %s is never performed" % (name, n), instance="%s, %s" % (root, name))
        for n in skip:
            nobl += 1
            if n in r["names"]:
                R.add("option-selects", "option|%s|%s|%s" % (root, name, n), r["names"][n] or where_of(m, root),
                      "%s: the step %s can be performed" % (name, n), instance="%s, %s" % (root, name))
    npass = 0
    for (root, k), r in zip(signs, res[len(jobs):]):
        contexts += r["contexts"]
        for name, where, f, args in r["calls"]:
            for i, v in named(m, name, "kappa"):
                t = absint.param_type(m.by_dname[name][0], i)
                if t is None or m.tdesc(m.strip(t)) not in ("int", "FNFT_INT"):
                    continue
                if i >= len(args) or args[i] is None:
                    continue
                npass += 1
                if args[i] != mkset(k):
                    R.add("argument-arrives", "sign|%s|%s|%s" % (root, f, name), where,
                          "kappa is %d in the call of %s, but %s is given kappa = %s" % (k, root, name, show(args[i])), instance="%s, kappa=%d" % (root, k))
    for (root, v, _, _), r in zip(flags, res[len(jobs) + len(signs):]):
        contexts += r["contexts"]
        for name, where, f, args in r["calls"]:
            for pname in ("W_ptr", "W", "Ws"):
                for i, _ in named(m, name, pname):
                    t = absint.param_type(m.by_dname[name][0], i)
                    if "scatter" not in name or t is None or "*" not in m.tdesc(t) or i >= len(args) or args[i] is None:
                        continue
                    npass += 1
                    want = "object" if v else "null"
                    if args[i] != frozenset((want,)):
                        R.add("argument-arrives", "flag|%s|%s|%s" % (root, f, name), where,
                              "normalization_flag is %d, but %s is asked %s" % (v, name, "to normalize" if "object" in args[i] else "not to normalize"),
                              instance="%s, normalization_flag=%d" % (root, v))
    allruns = [(j[0], j[2].get("normalization_flag"), r) for j, r in zip(jobs, res)]
    allruns += [(f[0], f[1], r) for f, r in zip(flags, res[len(jobs) + len(signs):])]
    for root, v, r in allruns:
        for name, where, f, args in r["calls"]:
            for pname, by in ot.PASSED.items():
                if root not in by:
                    continue
                fld, val = by[root]
                if fld == "normalization_flag":
                    val = v
                for i, _ in named(m, name, pname):
                    if i >= len(args) or args[i] is None or "refine" not in name and not name.startswith("fnft__nse_") and pname == "tol":
                        continue
                    npass += 1
                    if args[i] != mkset(val):
                        R.add("argument-arrives", "limit|%s|%s|%s|%s" % (root, f, name, pname), where,
                              "option %s is %s, but %s is given %s" % (fld, val, name, show(args[i])), instance=root)
    # the bounding box of the caller
    bj = []
    for root, fld, man, loc in (("fnft_nsev", "bound_state_filtering", "fnft_nsev_bsfilt_MANUAL", {}),
                                ("fnft_nsep", "filtering", "fnft_nsep_filt_MANUAL", {})):
        bj.append((root, dict(ot.BASE[root][0], **{fld: man, "bounding_box[0]": -1.5, "bounding_box[1]": 2.5, "bounding_box[2]": 3.5, "bounding_box[3]": 4.5}), ot.BASE[root][1]))
    nbox = 0
    for (root, o, a), r in zip(bj, pool(reach_job, bj)):
        for where, cells in r["boxes"]:
            for v, w in zip(cells, (-1.5, 2.5, 3.5, 4.5)):
                if v is None:
                    continue
                nbox += 1
                if v != mkset(w):
                    R.add("argument-arrives", "box|%s|%s" % (root, w), where, "the bounding box of the caller contains %s, but %s is used for filtering" % (w, show(v)), instance=root)
    R.coverage.update(bounding_box_sides=nbox)
    R.coverage.update(option_rows=len(jobs), step_obligations=nobl, arguments_followed=npass, configurations=len(res), calling_contexts=contexts)


def where_of(m, root):
    f = m.funcs[root]
    return "%s:%d (%s)" % (absint.short(f.file), f.line, f.dname)


def named(m, dname, pname):
    for g in m.by_dname.get(dname, ()):
        for i, n, t in g.dparams:
            if n == pname:
                yield i - 1, t
        break
