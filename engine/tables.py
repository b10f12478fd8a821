"""C10: what the documentation says about each discretization, against what the code derives from it."""
import re

import absint
import cprop
import pipeline
import runner
import scen

FAST = {  # suffix: (order of the base method, degree), from the tables in include/fnft_*_discretization_t.h
    "2SPLIT2_MODAL": (2, 1), "2SPLIT1A": (2, 1), "2SPLIT1B": (2, 1), "2SPLIT2A": (2, 1), "2SPLIT2B": (2, 1), "2SPLIT2S": (2, 1),
    "2SPLIT3A": (2, 3), "2SPLIT3B": (2, 3), "2SPLIT3S": (2, 2), "2SPLIT4A": (2, 4), "2SPLIT4B": (2, 2), "2SPLIT5A": (2, 15),
    "2SPLIT5B": (2, 15), "2SPLIT6A": (2, 12), "2SPLIT6B": (2, 6), "2SPLIT7A": (2, 105), "2SPLIT7B": (2, 105), "2SPLIT8A": (2, 24),
    "2SPLIT8B": (2, 12), "4SPLIT4A": (4, 4), "4SPLIT4B": (4, 2)}
SLOW = {"BO": 2, "CF4_2": 4, "CF4_3": 4, "CF5_3": 5, "CF6_4": 6, "ES4": 4, "TES4": 4}
# samples of the (interpolated) signal and its derivatives that one step uses
UPS = dict({k: {2: 1, 4: 2}[v[0]] for k, v in FAST.items()}, BO=1, CF4_2=2, CF4_3=3, CF5_3=3, CF6_4=4, ES4=3, TES4=3)
MANAKOV = {"2SPLIT3A": (2, 6, 1), "2SPLIT3B": (2, 6, 1), "2SPLIT4A": (2, 8, 1), "2SPLIT4B": (2, 4, 1), "2SPLIT6B": (2, 12, 1),
           "4SPLIT4A": (4, 8, 2), "4SPLIT4B": (4, 4, 2), "4SPLIT6B": (4, 12, 2), "FTES4_4A": (4, 8, 1), "FTES4_4B": (4, 8, 1),
           "FTES4_suzuki": (4, 14, 1), "CF4_2": (4, 0, 2), "BO": (2, 0, 1)}
FAMILIES = {"nse": "fnft_nse_discretization_", "kdv": "fnft_kdv_discretization_", "akns": "fnft__akns_discretization_",
            "manakov": "fnft_manakov_discretization_"}


def enumerators(m):
    out = {k: {} for k in FAMILIES}
    for e in m.enums:
        for n, v in e["m"]:
            for fam, pre in FAMILIES.items():
                if n.startswith(pre):
                    out[fam][n[len(pre):]] = v
    for fam, d in out.items():
        if len(d) < 10:
            raise pipeline.AnalysisBroken("enumeration of the %s discretizations not found" % fam)
    return out


def base(suffix):
    return suffix[:-8] if suffix.endswith("_VANILLA") else suffix


def slow(fam, s):
    """the discretization without a fast algorithm that belongs to s"""
    b, van = base(s), s[len(base(s)):]
    if fam == "manakov":
        return s if MANAKOV[s][1] == 0 else {2: "BO", 4: "CF4_2"}[MANAKOV[s][0]]
    if b in SLOW:
        return s
    return {2: "BO", 4: "CF4_2"}[FAST[b][0]] + van


def expected(fam, s):
    """order, degree, upsampling"""
    if fam == "manakov":
        return MANAKOV.get(s)
    b = base(s)
    if b in FAST:
        return FAST[b][0], FAST[b][1], UPS[b]
    if b in SLOW:
        return SLOW[b], 0, UPS[b]
    return None


def consts(m, name, args, out=None, cells=None):
    """all values the function may return for constant arguments; with out: values left in that argument's object"""
    f = m.funcs[name]
    run = cprop.Run(m, lambda g: True, symbolic=False)
    a = {i: cprop.mkset(("P", ("A", i), 0)) for i, p in enumerate(f.params) if p["ty"] == "ptr"}
    a.update({i: cprop.mkset(v) for i, v in (args or {}).items()})
    r = run.analyze(name, a, {("A", i): {o: cprop.mkset(v) for o, v in c.items()} for i, c in (cells or {}).items()})
    if r is not None and not run.stats["cut"]:
        v, mem = r
        if out is not None:
            w = run.load(mem, cprop.mkset(("P", ("A", out), 0)), 8)
            v = None if v is None or w is None or len(v) > 1 and len(w) > 1 else {(x, y) for x in v for y in w}
        if v is not None and all(x.__class__ in (int, float) or x.__class__ is tuple and x[0].__class__ is int for x in v):
            return set(v)

    def fresh(an, f, a, st):
        for i, c in (cells or {}).items():
            o = ("A", i)
            st.mem[o] = st.mem[o].but(cells=dict(c))
    an = absint.Analysis(m)
    an.exact = True

    def setup(an, f, a, st):
        for i, p in enumerate(f.params):
            if p["ty"] == "ptr":
                st.facts[("null", ("A", i))] = False
        fresh(an, f, a, st)
    f, a, res = an.analyze(name, assume_nonnull=True, fixed=args, setup=setup)
    vals = set()
    for rv, s in res:
        v = rv
        if out is not None:
            x = s.mem.get(("A", out))
            v = (rv, x.cells.get(0) if x is not None else None)
        vals.add(v if v.__class__ in (int, float, tuple) else str(v))
    return vals


def where(m, fn):
    f = m.funcs[fn]
    return "%s:%d (%s)" % (absint.short(f.file), f.line, f.dname)


def tables(m, R):
    en = enumerators(m)
    n = 0

    def have(fn):
        if fn not in m.funcs or m.funcs[fn].decl:
            return False
        return True

    def compare(fn, fam, s, got, want, what):
        if got != {want}:
            R.add("discretization-table", "table|%s|%s" % (fn, s), where(m, fn),
                  "%s of %s%s: %s, documented: %s" % (what, FAMILIES[fam], s, sorted(map(str, got)), want))

    found = 0
    for fam in FAMILIES:
        for what, k in (("method_order", 0), ("degree", 1), ("upsampling_factor", 2)):
            fn = "fnft__%s_discretization_%s" % (fam, what)
            if not have(fn):
                continue
            found += 1
            for s, v in sorted(en[fam].items()):
                e = expected(fam, s)
                if e is None:
                    continue
                n += 1
                compare(fn, fam, s, consts(m, fn, {0: v}), e[k], what)
    for fam in ("nse", "kdv"):
        fn = "fnft__%s_discretization_to_akns_discretization" % fam
        if have(fn):
            found += 1
            for s, v in sorted(en[fam].items()):
                n += 1
                compare(fn, fam, s, consts(m, fn, {0: v}, out=1), (0, en["akns"].get(base(s), -1)), "AKNS discretization")
    fn = "fnft__kdv_discretization_vanilla_flag"
    if have(fn):
        found += 1
        for s, v in sorted(en["kdv"].items()):
            n += 1
            compare(fn, "kdv", s, consts(m, fn, {1: v}, out=0), (0, 1 if s.endswith("_VANILLA") else 0), "vanilla flag")
    fn = "fnft__kdv_slow_discretization"
    if have(fn):
        found += 1
        for s, v in sorted(en["kdv"].items()):
            n += 1

            compare(fn, "kdv", s, consts(m, fn, None, out=0, cells={0: {0: v}}), (0, en["kdv"][slow("kdv", s)]), "slow discretization")
    # number of eigenvalues announced to the user
    for fn, fam in (("fnft_nsev_max_K", "nse"), ("fnft_kdvv_max_K", "kdv"), ("fnft_manakovv_max_K", "manakov")):
        if not have(fn):
            continue
        found += 1
        f = m.funcs[fn]
        off, ty = scen.field(m, f, 1, "discretization")
        for s, v in sorted(en[fam].items()):
            e = expected(fam, s)
            if e is None:
                continue
            n += 1

            compare(fn, fam, s, consts(m, fn, {0: 1000}, cells={1: {off: v}}), 1000 * e[1], "number of eigenvalues for 1000 samples")
    R.coverage.update(tables=found, table_entries=n)
    return en


class Watch:
    """records the values passed to parameters that are discretizations"""

    def __init__(self, en):
        self.en = en
        self.seen = {}

    def on_return(self, an, f, st, rv, B):
        return None

    def on_call(self, an, f, st, I, name, args, g):
        if g is None:
            return None
        for i, a in enumerate(args):
            t = absint.param_type(g, i) if i < len(g.params) else None
            fam = family(an.m, t)
            if fam is None:
                continue
            vals = a
            if a.__class__ is tuple and a[0] == "L":
                r = an.rng_set(st.facts, a)
                vals = r if r.__class__ is frozenset else None
            vals = frozenset((vals,)) if vals.__class__ is int else vals
            k = (absint.short(an.m.fname(I[3])), I[2], f.dname, g.dname, fam)
            self.seen.setdefault(k, set()).add(vals)
        return None


def family(m, t):
    seen = 0
    while t is not None and t >= 0 and seen < 8:
        ty = m.types[t]
        nm = ty.get("name") or ""
        for fam in FAMILIES:
            if re.fullmatch(r"fnft_+%s_discretization_t" % fam, nm):
                return fam
        if ty["tag"] == "DW_TAG_enumeration_type":
            for n, _ in ty.get("members", ()):
                for fam, pre in FAMILIES.items():
                    if n.startswith(pre):
                        return fam
            return None
        if ty["tag"] == "DW_TAG_pointer_type":
            return None
        t = ty.get("base", -1)
        seen += 1
    return None
