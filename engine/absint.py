"""Path-sensitive interprocedural abstract interpreter over the resolved LLVM program.

Abstract state = memory (objects with ownership status and constant-offset cells), linear-interval
facts over immutable symbols, and two history bits (an error was raised / an allocation failed).
States are joined at CFG joins when they agree on everything structural (ownership, pointers,
history bits); integers are joined to fresh symbols; loops are widened at their headers.
No solver, no concrete execution: branch feasibility is decided by interval facts only."""
import heapq
import sys
import time

sys.setrecursionlimit(20000)

INF = None
TOP = ("T",)
UNINIT = ("U",)
NULL = ("P", "NULL", 0)
TOPF = ("F", None)

QK = ("q",)           # cell key: this object is an array of elements, value = element size
OWNED = ("FN", "own")
RELEASED = ("FN", "rel")

# ---------------------------------------------------------------- symbols
_sym_ids = {}
SYMS = []
SYMLO = []


def sym(key, lo=None):
    i = _sym_ids.get(key)
    if i is None:
        i = len(SYMS)
        _sym_ids[key] = i
        SYMS.append(key)
        SYMLO.append(lo)
    return i


def lin_sym(key, lo=None):
    return ("L", 0, ((sym(key, lo), 1),))


_intern = {}


def intern(x):
    i = _intern.get(x)
    if i is None:
        i = len(_intern)
        _intern[x] = i
    return i


def is_int(v):
    return v.__class__ is int


def is_lin(v):
    return v.__class__ is int or (v.__class__ is tuple and v[0] == "L")


def lin_add(a, b, k=1):
    """a + k*b for linear values"""
    if a.__class__ is int and b.__class__ is int:
        return a + k * b
    ca, ta = (a, ()) if a.__class__ is int else (a[1], a[2])
    cb, tb = (b, ()) if b.__class__ is int else (b[1], b[2])
    c = ca + k * cb
    if not tb:
        return ("L", c, ta) if ta else c
    d = dict(ta)
    for s, q in tb:
        n = d.get(s, 0) + k * q
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    if not d:
        return c
    return ("L", c, tuple(sorted(d.items())))


def lin_scale(a, k):
    if a.__class__ is int:
        return a * k
    if k == 0:
        return 0
    return ("L", a[1] * k, tuple((s, q * k) for s, q in a[2]))


_symdeps = {}


def sym_deps(i):
    """all symbol ids nested in symbol i (including itself)"""
    r = _symdeps.get(i)
    if r is None:
        acc = {i}

        def walk(x):
            if x.__class__ is tuple:
                if len(x) == 3 and x[0] == "L" and x[2].__class__ is tuple:
                    for s, _ in x[2]:
                        acc.update(sym_deps(s))
                    return
                if len(x) == 2 and x[0] == "F" and x[1].__class__ is int:
                    acc.update(sym_deps(x[1]))
                    return
                if len(x) == 2 and x[0] == "S" and x[1].__class__ is int:
                    acc.update(sym_deps(x[1]))
                    return
                for y in x:
                    walk(y)
        walk(SYMS[i])
        r = frozenset(acc)
        _symdeps[i] = r
    return r


_symobjs = {}


def sym_objs(i):
    """objects whose contents symbol i was loaded from (nested)"""
    r = _symobjs.get(i)
    if r is None:
        acc = set()
        for s in sym_deps(i):
            k = SYMS[s]
            if k.__class__ is tuple and k and k[0] == "ld":
                acc.add(k[1])
        r = frozenset(acc)
        _symobjs[i] = r
    return r


# ---------------------------------------------------------------- ranges
# a range is a frozenset of ints, or (lo, hi, excl)
FULL = (None, None, frozenset())
NOEX = frozenset()


def r_bounds(r):
    if r.__class__ is frozenset:
        return (min(r), max(r)) if r else (0, -1)
    return r[0], r[1]


def r_join(a, b):
    if a == b:
        return a
    if a.__class__ is frozenset and b.__class__ is frozenset:
        u = a | b
        if len(u) <= 80:
            return u
    al, ah = r_bounds(a)
    bl, bh = r_bounds(b)
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)

    def ex(r, v):
        if r.__class__ is frozenset:
            return v not in r
        return v in r[2] or (r[0] is not None and v < r[0]) or (r[1] is not None and v > r[1])
    ea = a[2] if a.__class__ is tuple else NOEX
    eb = b[2] if b.__class__ is tuple else NOEX
    x = frozenset(v for v in (ea | eb) if ex(a, v) and ex(b, v)
                  and (lo is None or v >= lo) and (hi is None or v <= hi))
    for v in (0,):
        if ex(a, v) and ex(b, v) and (lo is None or lo < v) and (hi is None or hi > v):
            x = x | {v}
    return (lo, hi, x)


def r_meet(a, b):
    """intersection or None when empty"""
    if a.__class__ is frozenset:
        if b.__class__ is frozenset:
            r = a & b
        else:
            lo, hi, ex = b
            r = frozenset(v for v in a if (lo is None or v >= lo) and (hi is None or v <= hi) and v not in ex)
        return r or None
    if b.__class__ is frozenset:
        return r_meet(b, a)
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    ex = a[2] | b[2]
    while lo is not None and lo in ex:
        lo += 1
    while hi is not None and hi in ex:
        hi -= 1
    if lo is not None and hi is not None:
        if lo > hi:
            return None
        if lo == hi:
            return frozenset((lo,))
    if ex:
        ex = frozenset(v for v in ex if (lo is None or v > lo) and (hi is None or v < hi))
    return (lo, hi, ex)


def norm_terms(terms):
    if terms[0][1] < 0:
        return tuple((s, -q) for s, q in terms), -1
    return terms, 1


# ---------------------------------------------------------------- objects
class Obj:
    """immutable by convention"""
    __slots__ = ("kind", "status", "dflt", "ver", "size", "cells", "fam", "site", "_f", "_s")

    def __init__(self, kind, status, dflt, ver, size, cells, fam, site):
        self.kind = kind      # stack heap arg glob ext
        self.status = status  # live freed
        self.dflt = dflt      # U uninit, S symbolic, Z zero, T unknown
        self.ver = ver
        self.size = size
        self.cells = cells
        self.fam = fam
        self.site = site
        self._f = None
        self._s = None

    def but(self, **kw):
        n = Obj(self.kind, self.status, self.dflt, self.ver, self.size, self.cells, self.fam, self.site)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def fkey(self):
        if self._f is None:
            self._f = intern((self.kind, self.status, self.dflt, self.ver, self.size, self.fam,
                              frozenset(self.cells.items())))
        return self._f

    def skey(self):
        if self._s is None and QK in self.cells:
            q = self.cells[QK]
            self._s = intern(("s", self.kind, self.status, self.dflt, self.fam, q, frozenset(
                (o if o.__class__ is tuple and o[0] == "own" else ((o if o.__class__ is int else o[1]) % q if q else 0), skel(v))
                for o, v in self.cells.items() if v.__class__ is tuple and v[0] in ("P", "FN"))))
        if self._s is None:
            self._s = intern(("s", self.kind, self.status, self.dflt, self.fam,
                              self.dflt == "U" and not self.cells,
                              frozenset((o, skel(v)) for o, v in self.cells.items()
                                        if v.__class__ is tuple and v[0] in ("P", "FN", "U"))))
        return self._s


def skel(v):
    if v.__class__ is tuple and v[0] in ("P", "FN", "U"):
        return ("P", v[1]) if v[0] == "P" else v
    return 0


CODES = 1      # keep paths with different kinds of first error apart


CUR = None     # function whose states are being joined
CURFILE = None


def rkey(raised):
    if raised is None or not CODES:
        return raised is not None
    c = raised[3]
    return (abs(c) if c.__class__ is int else "?", raised[4] == CUR, raised[0] == CURFILE)


class State:
    __slots__ = ("mem", "facts", "env", "raised", "oom", "trace", "back")

    def __init__(self):
        self.back = False        # arrived over the back edge of a loop
        self.mem = {}
        self.facts = {}
        self.env = {}
        self.raised = None
        self.oom = None
        self.trace = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.env = dict(self.env)
        s.raised = self.raised
        s.oom = self.oom
        s.trace = self.trace
        return s

    def fkey(self):
        return (frozenset((o, x.fkey()) for o, x in self.mem.items()),
                frozenset(self.env.items()) if self.env else 0,
                rkey(self.raised), self.oom is not None)

    def skey(self):
        return (frozenset((o, x.skey()) for o, x in self.mem.items()),
                frozenset((k, skel(v)) for k, v in self.env.items()) if self.env else 0,
                rkey(self.raised), self.oom is not None)


_root_fact = {}


def root_fact(k):
    """0: not about the call's arguments; 1: fact that may be a conclusion; 2: fact that may be a premise"""
    r = _root_fact.get(k)
    if r is None:
        r = 0
        if k[0] == "null":
            o = k[1]
            if o.__class__ is tuple and o[0] == "A":
                r = 2
        elif k[0].__class__ is tuple and len(k) == 1:
            sk = SYMS[k[0][0]]
            if sk[0] == "arg":
                r = 2
            elif sk[0] == "ld" and sk[1].__class__ is tuple and sk[1][0] == "A" and sk[2].__class__ is int:
                r = 1
        _root_fact[k] = r
    return r


def fact_meet(v, w):
    if v.__class__ is bool:
        return v if v == w else None
    return r_meet(v, w)


CL_MAX = 32
CL_LEN = 4


def lit_join(c, u):
    """clause c OR literal u; None when always true"""
    k, v = u
    m = dict(c)
    w = m.get(k)
    if w is None:
        m[k] = v
    elif w != v:
        if v.__class__ is bool:
            return None
        j = r_join(v, w)
        if j == FULL or j == (None, None, NOEX):
            return None
        # {x} or not-x is everything
        lo = SYMLO[k[0][0]]
        if j.__class__ is tuple and not j[2] and j[1] is None and (j[0] is None or (lo is not None and j[0] <= lo)):
            return None
        m[k] = j
    return frozenset(m.items())


def holds(facts, c):
    for k, v in c:
        w = facts.get(k)
        if w is not None and fact_meet(w, v) == w:
            return True
    return False


def implied(facts, c):
    """clause c follows from the facts or from one of their clauses"""
    if holds(facts, c):
        return True
    m = dict(c)
    for k in facts:
        if k[0] == "cl" and len(k[1]) <= len(c):
            for l, v in k[1]:
                w = m.get(l)
                if w is None or (w != v and fact_meet(v, w) != v):
                    break
            else:
                return True
    return False


def joined_clauses(a, b, out):
    """what only one side knows about the call's arguments survives a join as clauses (this OR that)"""
    n = 0
    ua = [(k, v) for k, v in a.items() if root_fact(k) and out.get(k) != v]
    ub = [(k, v) for k, v in b.items() if root_fact(k) and out.get(k) != v]
    for x, y, uy in ((a, b, ub), (b, a, ua)):
        for k, v in x.items():
            if k[0] != "cl" or k in out:
                continue
            if k in y or implied(y, k[1]):
                out[k] = True
                n += 1
                continue
            if len(k[1]) >= CL_LEN:
                continue
            for u in uy:
                c = lit_join(k[1], u)
                if c is not None and n < CL_MAX and not holds(out, c):
                    out[("cl", c)] = True
                    n += 1
    for u in ua:
        for w in ub:
            if root_fact(u[0]) == 1 and root_fact(w[0]) == 1:
                continue
            c = lit_join((u,), w)
            if c is not None and n < CL_MAX and len(c) > 1 and not holds(out, c):
                out[("cl", c)] = True
                n += 1


def join_facts(a, b):
    if a == b:
        return a
    out = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if v == w:
            out[k] = v
        elif v.__class__ is not bool and w.__class__ is not bool:
            r = r_join(v, w)
            if r != FULL:
                out[k] = r
    joined_clauses(a, b, out)
    return out


FPREDS = {"oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno"}
FNEG = {"ueq": "one", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt", "une": "oeq", "uno": "ord"}

PURE_EXT = {"cexp", "clog", "sqrt", "pow", "csqrt", "ccos", "cabs", "csin", "log2", "ccosh", "log", "atan",
            "carg", "csinh", "acos", "cpow", "nexttoward", "cos", "sin", "exp", "tan", "tanh", "cosh", "sinh",
            "asin", "atan2", "floor", "ceil", "round", "fabs", "fmax", "fmin", "fmod", "cimag", "creal", "conj",
            "hypot", "log10", "log1p", "expm1", "exp2", "cbrt", "trunc", "rint", "nearbyint", "lround",
            "isnan", "isinf", "ctan", "ctanh", "cacos", "casin", "catan", "cproj", "ldexp", "frexp_", "nextafter",
            "copysign", "labs", "abs", "llabs", "lrint", "llround", "logb", "scalbn", "erf", "tgamma", "lgamma_"}
HARMLESS = {"llvm.dbg.declare", "llvm.dbg.label", "llvm.dbg.value", "llvm.stacksave.p0", "llvm.stackrestore.p0",
            "llvm.va_start", "llvm.va_end", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0",
            "llvm.va_start.p0", "llvm.va_end.p0", "llvm.assume"}
IO_EXT = {"printf", "vfprintf", "fprintf", "puts", "putchar", "fputs", "fputc", "vprintf", "fwrite", "perror",
          "fflush", "fputc", "putc"}


# external routines that report failure through a status argument (0 = success)
STATUS_EXT = {"z_poly_roots_modified_": 3}


class Budget(Exception):
    """time is up: no answer, but what was reported before stands"""


class PathDead(Exception):
    """the current path cannot continue (it already crashed)"""


class Analysis:
    def __init__(self, mod, ec=None, raise_fn="fnft__errmsg_aux", verbose=False):
        self.m = mod
        self.raise_fn = raise_fn
        self.warn_fn = "fnft__warn_aux"
        self.ec = ec or {}
        self.events = {}
        self.cand = {}
        self.written = set()
        self.effects = {}
        self.exits = []
        self.ctxs = {}
        self.ctxinfo = [None]
        self.stack = []
        self.stats = dict(calls=0, inlined=0, shortcut=0, blocks=0, states=0, allocs=set(), frees=set(),
                          raises=set(), derefs=set(), funcs=set(), forks=0, vlas=set())
        self.assume_nonnull = False
        self._simple = {}
        self._valpure = {}
        self._closure = {}
        self.root = None
        self.hooks = []
        self.step_limit = 400_000_000
        self.deadline = float("inf")
        self.next_look = 0
        self.steps = 0
        self.alloc_may_fail = True
        self.bounds = None     # optional bounds checker
        self.join_limit = 6
        self.verbose = verbose
        self.use_summaries = True
        self.exact = False      # evaluate calls whose scalar arguments are all constants instead of abstracting them
        self.sum_min = 80
        self.no_summary = set()
        self.summaries = {}
        self.sumwrites = []
        self.use_memo = True
        self.memo = {}
        self.entry_hist = []
        self.rsites = {}      # error sites -> did an allocation fail before
        self.strides = {}

    # ---- call graph facts --------------------------------------------------
    assumed = ()
    calls_checked = False
    split_null = False

    def closure(self, name):
        r = self._closure.get(name)
        if r is None:
            seen, todo = set(), [name]
            ind = False
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                f = self.m.funcs.get(n)
                if f is None or f.decl or n in (self.raise_fn, self.warn_fn):
                    continue
                todo.extend(f.callees)
                for B in f.blocks:
                    for I in B.insts:
                        if I[0] == "call" and not isinstance(I[4], str):
                            ind = True
            if ind:
                seen.add("<indirect>")
            r = seen
            self._closure[name] = r
        return r

    ALLOCISH = {"malloc", "calloc", "realloc", "free", "fftw_malloc", "fftw_free", "fftw_plan_dft_1d",
                "fftw_destroy_plan", "<indirect>", "aligned_alloc", "strdup"}

    def simple(self, f):
        r = self._simple.get(f.name)
        if r is None:
            c = self.closure(f.name)
            r = not (c & self.ALLOCISH) and self.raise_fn not in c and f.ret != "ptr"
            if r:
                for n in c:
                    g = self.m.funcs.get(n)
                    if g is None or g.decl:
                        if n not in PURE_EXT and n not in HARMLESS and not n.startswith("llvm.") \
                                and n not in IO_EXT and n != "snprintf":
                            r = False
                            break
                    else:
                        for B in g.blocks:
                            for I in B.insts:
                                if I[0] == "store" and I[6] == "ptr" and not (I[4][0] == "v" and I[4][1] in g.allocas):
                                    r = False
            if r and self.has_loop(f) is False and f.ninsts <= 150:
                r = False
            self._simple[f.name] = r
        return r

    def has_loop(self, f):
        return any(B.loop >= 0 for B in f.blocks)

    def valpure(self, f):
        """result depends on the (non-pointer) argument values only; no outside memory touched"""
        r = self._valpure.get(f.name)
        if r is None:
            r = False
            if not f.decl and all(p["ty"] != "ptr" for p in f.params) and f.ret != "void" and f.ret != "ptr":
                r = True
                c = self.closure(f.name)
                if c & (self.ALLOCISH - {"<indirect>"}):
                    r = False
                for n in c:
                    g = self.m.funcs.get(n)
                    if g is None or g.decl or n in (self.raise_fn, self.warn_fn):
                        continue
                    for B in g.blocks:
                        for I in B.insts:
                            if I[0] == "load" and I[4][0] == "g":
                                gg = self.m.globals.get(I[4][1])
                                if gg is None or not gg["const"]:
                                    r = False
                            if I[0] == "store" and I[4][0] == "g":
                                r = False
            self._valpure[f.name] = r
        return r

    # ---- reporting ---------------------------------------------------------
    def site(self, I):
        return (self.m.fname(I[3]), I[2])

    def loc(self, I, f=None):
        f = f or self.stack[-1][0]
        return "%s:%d (%s)" % (short(self.m.fname(I[3])), I[2], f.dname)

    def event(self, kind, I, st, msg, key=None, f=None):
        f = f or self.stack[-1][0]
        fl = short(I[3] if I[3].__class__ is str else self.m.fname(I[3]))
        k = (kind, fl, I[2], f.dname, key)
        e = self.events.get(k)
        if e is None:
            e = dict(kind=kind, file=fl, line=I[2], func=f.dname, msg=msg, key=key,
                     roots=set(), oomf=set(), chain=[x[0].dname for x in self.stack], trace=self.trace_of(st),
                     raised=st.raised or self.hist(0), oom=st.oom or self.hist(1))
            self.events[k] = e
        e["roots"].add(self.root)
        e["oomf"].add(bool(st.oom or self.hist(1)))
        return e

    # an array (heap block or local array) read before any write on this path: whether a loop over it runs at
    # least once is not decided here, so the read counts only if no write to the array exists at all
    def candidate(self, msg, o, x, st, I):
        ev, self.events = self.events, self.cand
        e = self.event("uninit", I, st, msg % self.obj_desc(o, x, I), str(x.site))
        if e is not None:
            e["site"] = x.site
        self.events = ev

    def settle(self):
        for k, e in self.cand.items():
            if e["site"] not in self.written:
                self.events[k] = e
        self.cand = {}

    def hist(self, i):
        for h in reversed(self.entry_hist):
            if h[i]:
                return h[i]
        return None

    def trace_of(self, st, n=14):
        out = []
        t = st.trace
        while t is not None and len(out) < n:
            out.append("%s:%d:%s" % (t[1].rsplit("/", 1)[-1], t[2], t[3]))
            t = t[0]
        return list(reversed(out))

    # ---- facts -------------------------------------------------------------
    def rng_sym(self, st, s):
        r = st.facts.get(((s, 1),))
        if r is None:
            lo = SYMLO[s]
            return FULL if lo is None else (lo, None, NOEX)
        return r

    def rng(self, st, v):
        """(lo,hi) bounds of a linear value"""
        if v.__class__ is int:
            return v, v
        c, terms = v[1], v[2]
        lo = hi = c
        for s, q in terms:
            l, h = r_bounds(self.rng_sym(st, s))
            if q < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + q * l
            hi = None if hi is None or h is None else hi + q * h
        if len(terms) > 1:
            nt, sg = norm_terms(terms)
            r = st.facts.get(nt)
            if r is not None:
                l, h = r_bounds(r)
                if sg < 0:
                    l, h = (None if h is None else -h), (None if l is None else -l)
                if l is not None:
                    lo = c + l if lo is None else max(lo, c + l)
                if h is not None:
                    hi = c + h if hi is None else min(hi, c + h)
        return lo, hi

    def decide(self, st, p):
        """p = ('B', key, neg) -> True/False/None"""
        k = p[1]
        if k is None:
            return None
        r = self._decide(st, k)
        if r is None:
            return None
        return (not r) if p[2] else r

    def _decide(self, st, k):
        if k[0] == "==":
            lo, hi = self.rng(st, k[1])
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
            terms = k[1][2]
            nt, sg = norm_terms(terms)
            if len(terms) == 1:
                q = nt[0][1]
                c = k[1][1] * sg
                if c % q:
                    return False
                v = -c // q
                r = self.rng_sym(st, nt[0][0])
                if r.__class__ is frozenset:
                    if v not in r:
                        return False
                elif v in r[2]:
                    return False
            else:
                r = st.facts.get(nt)
                if r is not None:
                    v = -k[1][1] * sg
                    if r.__class__ is frozenset:
                        if v not in r:
                            return False
                    elif v in r[2]:
                        return False
            return None
        if k[0] == "<":
            lo, hi = self.rng(st, k[1])
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            if self.bounds is not None:
                return self.bounds.decide_lt(self, st, k[1])
            return None
        if k[0] == "null":
            o = k[1]
            if o == "NULL":
                return True
            r = st.facts.get(k)
            if r is not None:
                return r
            if o[0] in ("L", "H", "G", "B"):
                return False
            return None
        return st.facts.get(k)

    def assume(self, st, p, truth):
        """add a branch outcome; False when infeasible"""
        k = p[1]
        if k is None:
            return True
        if p[2]:
            truth = not truth
        if k[0] in ("==", "<"):
            lin = k[1]
            nt, sg = norm_terms(lin[2])
            c = lin[1] * sg
            if k[0] == "==":
                if len(nt) == 1:
                    q = nt[0][1]
                    if c % q:
                        return not truth
                    key, v = ((nt[0][0], 1),), -c // q
                else:
                    key, v = nt, -c
                new = frozenset((v,)) if truth else (None, None, frozenset((v,)))
            else:
                # lin < 0  <=> sg*(sum) + lin.c < 0
                if truth:
                    lo, hi = (None, -c - 1) if sg > 0 else (-c + 1, None)
                else:
                    lo, hi = (-c, None) if sg > 0 else (None, -c)
                key = nt
                if len(nt) == 1 and nt[0][1] != 1:
                    q = nt[0][1]
                    lo = None if lo is None else -((-lo) // q)
                    hi = None if hi is None else hi // q
                    key = ((nt[0][0], 1),)
                new = (lo, hi, NOEX)
            old = st.facts.get(key)
            if old is None:
                lo = SYMLO[key[0][0]] if len(key) == 1 else None
                old = FULL if lo is None else (lo, None, NOEX)
            r = r_meet(old, new)
            if r is None:
                return False
            st.facts[key] = r
            if len(key) == 1 and r != old:
                d = SYMS[key[0][0]]
                if d[0] == "op" and d[1] == "udiv":
                    # a / b >= l with l >= 1  =>  a >= l * max(b, 1)
                    l = r_bounds(r)[0]
                    a, b = d[2], d[3]
                    if l is not None and l >= 1 and a.__class__ is tuple and a[0] == "L":
                        bl = self.rng(st, b)[0] if is_lin(b) else None
                        if not self.assume(st, self.pred_int("ge", a, l * max(bl or 1, 1)), True):
                            return False
            if len(key) > 1 and r.__class__ is not frozenset and not self.tighten(st, key, r):
                return False
            if len(key) == 1:
                # a symbol got a value: facts on sums with this symbol must stay satisfiable
                s0 = key[0][0]
                for kk, r in st.facts.items():
                    if len(kk) < 2 or kk[0].__class__ is not tuple:
                        continue
                    if not any(s1 == s0 for s1, _ in kk):
                        continue
                    lo = hi = 0
                    for s1, q in kk:
                        l, h = r_bounds(self.rng_sym(st, s1))
                        if q < 0:
                            l, h = h, l
                        lo = None if lo is None or l is None else lo + q * l
                        hi = None if hi is None or h is None else hi + q * h
                    l, h = r_bounds(r)
                    if (lo is not None and h is not None and lo > h) or (hi is not None and l is not None and hi < l):
                        return False
                if root_fact(key) and not self.imply(st, key):
                    return False
            return True
        if k[0] == "null" and k[1][0] == "E":
            return True
        old = st.facts.get(k)
        if old is not None:
            return old == truth
        st.facts[k] = truth
        if k[0] == "null" and k[1][0] == "A":
            return self.imply(st, k)
        return True

    def imply(self, st, k):
        """a fact about the call's arguments was added: unit propagation in the clauses; False when contradictory"""
        facts = st.facts
        todo = [k]
        while todo:
            k = todo.pop()
            for kk in [kk for kk in facts if kk[0] == "cl"]:
                c = kk[1]
                if not any(q == k for q, _ in c):
                    continue
                left = []
                sat = False
                for q, v in c:
                    w = facts.get(q)
                    if w is None:
                        left.append((q, v))
                        continue
                    m = fact_meet(w, v)
                    if m == w:
                        sat = True
                        break
                    if m is not None:
                        left.append((q, v))
                if sat:
                    del facts[kk]
                    continue
                if not left:
                    return False
                if len(left) == 1:
                    q, v = left[0]
                    w = facts.get(q)
                    facts[q] = v if w is None else fact_meet(w, v)
                    del facts[kk]
                    todo.append(q)
        return True

    def tighten(self, st, key, r):
        """bounds of the single symbols of a sum that is known to lie in r"""
        l0, h0 = r_bounds(r)
        ex = []
        changed = []
        for s1, q in key:
            l, h = r_bounds(self.rng_sym(st, s1))
            ex.append((q * l if l is not None else None, q * h if h is not None else None) if q > 0 else
                      (q * h if h is not None else None, q * l if l is not None else None))
        for i, (s1, q) in enumerate(key):
            ol = oh = 0
            for j, (l, h) in enumerate(ex):
                if j != i:
                    ol = None if ol is None or l is None else ol + l
                    oh = None if oh is None or h is None else oh + h
            # q*s1 in [l0-oh, h0-ol]
            lo = l0 - oh if l0 is not None and oh is not None else None
            hi = h0 - ol if h0 is not None and ol is not None else None
            if lo is None and hi is None:
                continue
            if q < 0:
                lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            q = abs(q)
            lo = None if lo is None else -((-lo) // q)
            hi = None if hi is None else hi // q
            old = self.rng_sym(st, s1)
            n = r_meet(old, (lo, hi, NOEX))
            if n is None:
                return False
            if n != old:
                st.facts[((s1, 1),)] = n
                changed.append(((s1, 1),))
        for k in changed:
            if root_fact(k) and not self.imply(st, k):
                return False
        return True

    def purge_sym(self, st, s):
        """symbol s gets a new meaning: forget everything that mentions it"""
        for k in [k for k in st.facts if self._mentions(k, s)]:
            del st.facts[k]

    def _mentions(self, k, s):
        if k[0] == "cl":
            return any(self._mentions(q, s) for q, _ in k[1])
        if k[0].__class__ is tuple:
            for t, _ in k:
                if s in sym_deps(t):
                    return True
            return False
        if k[0] == "null":
            o = k[1]
            return o.__class__ is tuple and o[0] == "S" and s in sym_deps(o[1])
        if k[0] == "f":
            for x in k[2:]:
                if x.__class__ is tuple and x[0] == "F" and x[1] is not None and s in sym_deps(x[1]):
                    return True
        return False

    def _mentions_obj(self, k, obj):
        if k[0] == "cl":
            return any(self._mentions_obj(q, obj) for q, _ in k[1])
        if k[0].__class__ is tuple:
            for t, _ in k:
                if obj in sym_objs(t):
                    return True
            return False
        if k[0] == "null":
            o = k[1]
            return o.__class__ is tuple and o[0] == "S" and obj in sym_objs(o[1])
        if k[0] == "f":
            for x in k[2:]:
                if x.__class__ is tuple and x[0] == "F" and x[1] is not None and obj in sym_objs(x[1]):
                    return True
        return False

    # ---- memory -------------------------------------------------------------
    def new_ctx(self, ctx, inst):
        k = (ctx, inst)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxinfo)
            self.ctxs[k] = c
            self.ctxinfo.append(k)
        return c

    def global_written(self, name):
        """may a variable with static storage differ from its initial value when a public routine is entered?"""
        c = self.m.__dict__.setdefault("_gwritten", {})
        if name not in c:
            import graph
            c[name] = bool(graph.stores_to_global(self.m, name))
        return c[name]

    def get_obj(self, st, o):
        x = st.mem.get(o)
        if x is None:
            if o[0] == "G":
                g = self.m.globals.get(o[1])
                cells = {}
                wr = g and not g["const"] and self.global_written(o[1])
                if wr:
                    x = Obj("glob", "live", "S", 0, g["size"], {}, None, None)
                    st.mem[o] = x
                    return x
                if g:
                    for off, sz, v in g["init"]:
                        if v[0] == "c":
                            cells[off] = v[1]
                        elif v[0] == "f":
                            cells[off] = flt(v[1])
                        elif v[0] == "n":
                            cells[off] = NULL
                        elif v[0] == "fn":
                            cells[off] = ("FN", v[1])
                x = Obj("glob", "live", "S" if not g or g["str"] else ("Z" if g["init"] else "S"), 0,
                        g["size"] if g else None, cells, None, None)
            elif o[0] == "S":
                x = Obj("ext", "live", "S", 0, None, {}, None, None)
            else:
                x = Obj("gone", "live", "T", 0, None, {}, None, None)
            st.mem[o] = x
        return x

    def check_ptr(self, st, p, I, what, write=False):
        """validity of a dereference. Returns object or None if unusable"""
        if p.__class__ is not tuple or p[0] != "P":
            if p == UNINIT:
                self.event("uninit", I, st, "dereference of an uninitialised pointer (%s)" % what, "ptr")
            return None
        o = p[1]
        self.stats["derefs"].add((I[3], I[2]))
        if o == "NULL":
            self.event("nullderef", I, st, "NULL pointer dereferenced (%s)" % what, "null")
            raise PathDead()
        if o[0] in ("A", "S", "B"):
            nk = ("null", o)
            r = st.facts.get(nk)
            if r is True:
                self.event("nullderef", I, st, "%s dereferenced where it is NULL (%s)" % (self.oname(o), what), self.oname(o))
                raise PathDead()
            if r is None and not self.assume_nonnull and o[0] == "A":
                self.event("nullderef", I, st, "argument %s dereferenced without having been checked against NULL on this path (%s)" % (self.oname(o), what), self.oname(o))
                st.facts[nk] = False
        x = self.get_obj(st, o)
        if x.status == "freed":
            self.event("uaf", I, st, "use of memory after it was freed (allocated at %s; %s)" % (self.osite(x), what), str(x.site))
            return None
        return x

    def oname(self, o):
        if o[0] == "A":
            f = self.m.funcs[self.root]
            return "'" + param_name(f, o[1]) + "'"
        if o[0] == "S":
            return "pointer " + describe(self, o[1])
        if o[0] == "G":
            return "global '" + (self.m.globals.get(o[1], {}).get("dname") or o[1]) + "'"
        if o[0] == "L":
            return "local"
        if o[0] == "B":
            return "memory passed to %s" % o[1][0]
        return str(o[0])

    def osite(self, x):
        return "%s:%d" % (short(x.site[0]), x.site[1]) if x.site else "?"

    def load(self, st, p, size, ty, I, quiet=False):
        x = self.check_ptr(st, p, I, "read")
        if x is None:
            return self.unknown(st, ty, I)
        o, off = p[1], p[2]
        if self.bounds is not None:
            self.bounds.access(self, st, p, x, size, I, False)
        if QK in x.cells:
            v = x.cells.get(off) if is_lin(off) else None
            if v is not None and v != TOP and v != UNINIT:
                return v
            if ty == "ptr":
                return ("P", ("E", o, self.elem_class(x, off)), 0)
            return self.unknown(st, ty, I)
        if off.__class__ is int:
            v = x.cells.get(off)
            if v is not None:
                if v == UNINIT or v == TOP:
                    return self.unknown(st, ty, I)
                return v
        if x.dflt == "U":
            if not x.cells and x.site is not None:
                self.candidate("read of %s that is never written", o, x, st, I)
                return self.unknown(st, ty, I)
            if not x.cells:
                self.event("uninit", I, st, "read of %s that was never written" % self.obj_desc(o, x, I), str(x.site) if x.kind == "heap" else self.lname(o))
                return self.unknown(st, ty, I)
            if off.__class__ is int and x.kind == "stack":
                if x.site is not None:
                    self.candidate("read of an element of %s that is never written", o, x, st, I)
                else:
                    self.event("uninit", I, st, "read of uninitialised element of %s" % self.obj_desc(o, x, I), self.lname(o) + str(off))
            return self.unknown(st, ty, I)
        if x.dflt == "Z" and (x.kind != "glob" or True):
            if off.__class__ is int and not (x.kind == "glob" and x.cells):
                if ty == "ptr":
                    return NULL
                if ty.startswith("i"):
                    return 0
                if ty == "double":
                    return 0.0
            return self.unknown(st, ty, I)
        if x.dflt == "S" and (off.__class__ is int or off[0] == "L"):
            key = ("ld", o, off, x.ver)
            if ty == "ptr":
                return ("P", ("S", sym(key)), 0)
            if ty[0] == "i":
                return lin_sym(key, 0 if ty == "i64" else None)
            if ty in ("double", "float"):
                return ("F", sym(key))
        return self.unknown(st, ty, I)

    # an object indexed with varying subscripts is kept as one summary element: the only facts kept per
    # field are "holds pointers this object owns" / "those were released", plus the last exact store
    def elem_class(self, x, off):
        q = x.cells[QK]
        c = off if off.__class__ is int else (off[1] if is_lin(off) else 0)
        return c % q if q else 0

    def smash(self, st, o, x, q):
        c = {QK: q}
        n = x.but(cells=c, dflt="T")
        for k, v in x.cells.items():
            if v.__class__ is tuple and v[0] == "P" and v[1] != "NULL" and v[1][0] == "H":
                self.own(st, n, c, k, v)
        st.mem[o] = n
        return n

    def own(self, st, x, c, off, v):
        y = st.mem.get(v[1])
        if y is not None and y.status == "live" and v[2] == 0 and y is not x and QK not in y.cells:
            st.mem[v[1]] = y.but(status="arr")
            c[("own", self.elem_class(x, off))] = OWNED

    def smash_store(self, st, o, x, off, v):
        cls = self.elem_class(x, off)
        c = {}
        for k, w in x.cells.items():
            if k.__class__ is tuple and k[0] in ("q", "own"):
                c[k] = w
            elif self.elem_class(x, k) != cls:
                c[k] = w
        if is_lin(off):
            c[off] = v
        if v.__class__ is tuple and v[0] == "P" and v[1] != "NULL" and v[1][0] == "H":
            self.own(st, x, c, off, v)
        st.mem[o] = x.but(cells=c)

    def lname(self, o):
        if o[0] == "L":
            return o[3]
        return str(o[0])

    def obj_desc(self, o, x, I):
        if o[0] == "H":
            return "heap memory allocated at " + self.osite(x)
        if o[0] == "L":
            return "variable '%s'" % o[3]
        return self.oname(o)

    def unknown(self, st, ty, I):
        if ty[0] == "i" and ty != "i1":
            s = sym(("t", self.ctx, I[1]), 0 if ty == "i64" else None)
            self.purge_sym(st, s)
            return ("L", 0, ((s, 1),))
        if ty == "ptr":
            s = sym(("tp", self.ctx, I[1]))
            self.purge_sym(st, s)
            st.mem.pop(("S", s), None)
            return ("P", ("S", s), 0)
        if ty == "i1":
            return ("B", None, False)
        return TOPF if ty in ("double", "float") else TOP

    def note_write(self, st, o, off, I):
        if self.sumwrites:
            self.sumwrites[-1].add(o)
        if o[0] in ("H", "L"):
            x = st.mem.get(o)
            if x is not None and x.site is not None and (off.__class__ is not int or x.kind == "heap"):
                self.written.add(x.site)
        if o[0] in ("A", "G", "S"):
            e = self.effects.setdefault(self.root, {})
            k = (o, off if off.__class__ is int else "*")
            if k not in e:
                e[k] = (short(self.m.fname(I[3])), I[2], self.stack[-1][0].dname)

    def store(self, st, p, size, ty, v, I):
        x = self.check_ptr(st, p, I, "write", True)
        if x is None:
            if p == TOP or (p.__class__ is tuple and p[0] == "F"):
                pass
            return
        o, off = p[1], p[2]
        if self.bounds is not None:
            self.bounds.access(self, st, p, x, size, I, True)
        self.note_write(st, o, off, I)
        if QK in x.cells:
            self.smash_store(st, o, x, off, v)
            return
        if off.__class__ is not int and x.kind == "heap" and ty == "ptr" and is_lin(off) and len(off[2]) == 1:
            x = self.smash(st, o, x, off[2][0][1])
            self.smash_store(st, o, x, off, v)
            return
        if off.__class__ is int:
            c = dict(x.cells)
            for d in range(1, size):
                if off + d in c:
                    del c[off + d]
            if v == TOP and ty[0] == "i":
                v = self.unknown(st, ty, I)
            c[off] = v
            st.mem[o] = x.but(cells=c)
            if x.kind in ("arg", "ext", "heap", "glob"):
                pass
        else:
            lo = hi = None
            if is_lin(off):
                lo, hi = self.rng(st, off)
            self.havoc(st, o, x, ("st", self.ctx, I[1]), keep_ptrs=(ty != "ptr"), lo=lo, hi=None if hi is None else hi + size)

    def assume_range(self, st, s, hi):
        st.facts[((s, 1),)] = (0, hi, NOEX)

    def havoc(self, st, o, x, ver, keep_ptrs=False, lo=None, hi=None):
        c = {}
        if QK in x.cells:
            c = {k: v for k, v in x.cells.items() if k.__class__ is tuple and k[0] in ("q", "own")}
        elif keep_ptrs:
            c = {k: v for k, v in x.cells.items() if v.__class__ is tuple and v[0] in ("P", "FN")}
        if lo is not None and hi is not None and QK not in x.cells:
            for k, v in x.cells.items():
                if k.__class__ is int and (k + 8 <= lo or k >= hi):
                    c[k] = v
        d = x.dflt
        if d in ("U", "Z"):
            d = "T"
        st.mem[o] = x.but(cells=c, dflt=d, ver=ver)
        if x.dflt == "S" or True:
            dead = [k for k in st.facts if self._mentions_obj(k, o)]
            for k in dead:
                del st.facts[k]


    # ---- values -------------------------------------------------------------
    def val(self, fr, st, o):
        t = o[0]
        if t == "v":
            r = fr.env.get(o[1])
            if r is None:
                r = st.env.get(o[1])
                if r is None:
                    al = fr.f.alloca_names.get(o[1])
                    if al is not None:
                        return ("P", ("L", fr.ctx, o[1], al), 0)
                    return TOP
            return r
        if t == "a":
            return fr.args[o[1]]
        if t == "c":
            return o[1]
        if t == "n":
            return NULL
        if t == "f":
            return flt(o[1])
        if t == "g":
            return ("P", ("G", o[1]), o[2])
        if t == "fn":
            return ("FN", o[1])
        return TOP

    def as_lin(self, v):
        if v.__class__ is int:
            return v
        if v.__class__ is tuple and v[0] == "L":
            return v
        return None

    def pred_int(self, op, a, b, st=None):
        """predicate for a op b with linear a,b"""
        d = lin_add(a, b, -1)
        if d.__class__ is int:
            return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[op]
        if op in ("eq", "ne"):
            # canonical sign
            nt, sg = norm_terms(d[2])
            return ("B", ("==", ("L", d[1] * sg, nt)), op == "ne")
        if op == "lt":
            return ("B", ("<", d), False)
        if op == "ge":
            return ("B", ("<", d), True)
        nd = lin_scale(d, -1)
        return ("B", ("<", nd), op == "le")

    def icmp(self, st, op, a, b, w, I):
        o = op if op in ("eq", "ne") else op[1:]
        if a.__class__ is tuple and a[0] == "P" or b.__class__ is tuple and b[0] == "P":
            if not (a.__class__ is tuple and a[0] == "P" and b.__class__ is tuple and b[0] == "P"):
                return ("B", None, False)
            if a[1] == b[1]:
                la, lb = a[2], b[2]
                if is_lin(la) and is_lin(lb):
                    return self.pred_int(o, la, lb)
                return ("B", None, False)
            if o not in ("eq", "ne"):
                return ("B", None, False)
            if a[1] == "NULL" or b[1] == "NULL":
                q = b if a[1] == "NULL" else a
                if q[1][0] in ("H", "L", "G", "B"):
                    return o == "ne"
                return ("B", ("null", q[1]), o == "ne")
            if a[1][0] in ("H", "L", "G") and b[1][0] in ("H", "L", "G"):
                return o == "ne"
            if a[1][0] in ("H", "L", "G") and b[1][0] == "A" or b[1][0] in ("H", "L", "G") and a[1][0] == "A":
                return o == "ne"
            ks = sorted([repr(a), repr(b)])
            return ("B", ("peq", ks[0], ks[1]), o == "ne")
        if a.__class__ is bool:
            a = int(a)
        if b.__class__ is bool:
            b = int(b)
        # comparison of a truth value with a constant
        if a.__class__ is tuple and a[0] == "B" and b.__class__ is int:
            if o in ("eq", "ne") and b in (0, 1):
                neg = (o == "eq") == (b == 0)
                return ("B", a[1], a[2] != neg)
            return ("B", None, False)
        la, lb = self.as_lin(a), self.as_lin(b)
        if la is None or lb is None:
            return ("B", None, False)
        if op[0] == "u" and w == 64:
            # unsigned comparison with a (negative) constant means a huge constant
            if lb.__class__ is int and lb < 0:
                lb = lb + (1 << 64)
            if la.__class__ is int and la < 0:
                la = la + (1 << 64)
        elif op[0] == "u" and w == 32:
            if lb.__class__ is int and lb < 0:
                lb = lb + (1 << 32)
        return self.pred_int(o, la, lb)

    def fcmp(self, op, a, b):
        neg = False
        if a.__class__ is float and b.__class__ is float:
            import math
            un = math.isnan(a) or math.isnan(b)
            base = {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}
            if op == "ord":
                return not un
            if op == "uno":
                return un
            if op in ("true", "false"):
                return op == "true"
            k = op[1:]
            if op[0] == "o":
                return (not un) and (base[k] if k != "ne" else a != b)
            return un or base[k]
        for z in (a, b):
            if z.__class__ is float and z != z:
                # ordered comparison with NaN never holds
                if op in ("true",):
                    return True
                return op[0] == "u" and op != "uno" or op == "uno"
        if op in FNEG:
            op = FNEG[op]
            neg = True
        if op == "olt":
            op, a, b = "ogt", b, a
        elif op == "ole":
            op, a, b = "oge", b, a

        def known(z):
            return z.__class__ is float or (z.__class__ is tuple and z[0] == "F" and z[1] is not None)
        if known(a) and known(b):
            if op == "oeq" or op == "one":
                if repr(b) < repr(a):
                    a, b = b, a
            return ("B", ("f", op, a, b), neg)
        return ("B", None, False)

    def fop(self, op, *xs):
        if all(x.__class__ is float for x in xs):
            try:
                if op == "fadd":
                    return xs[0] + xs[1]
                if op == "fsub":
                    return xs[0] - xs[1]
                if op == "fmul":
                    return xs[0] * xs[1]
                if op == "fneg":
                    return -xs[0]
                if op == "fdiv":
                    if xs[1] == 0.0:
                        return float("nan") if xs[0] == 0 else TOPF
                    return xs[0] / xs[1]
            except OverflowError:
                return TOPF
        n = 0
        for x in xs:
            if x.__class__ is float:
                continue
            if x.__class__ is tuple and x[0] == "F" and x[1] is not None:
                k = SYMS[x[1]]
                n += k[1] if k[0] == "fo" else 1
            else:
                return TOPF
        if n > 8:
            return TOPF
        return ("F", sym(("fo", n, op) + xs))

    def iop(self, st, op, a, b, I, w):
        if a.__class__ is bool:
            a = int(a)
        if b.__class__ is bool:
            b = int(b)
        if op == "xor" and a.__class__ is tuple and a[0] == "B" and b in (1, -1):
            return ("B", a[1], not a[2])
        if op in ("and", "or") and (a.__class__ is tuple and a[0] == "B" or b.__class__ is tuple and b[0] == "B"):
            for x, y in ((a, b), (b, a)):
                if x.__class__ is int:
                    if op == "and":
                        return y if x & 1 else 0
                    return 1 if x & 1 else y
            return ("B", None, False)
        la, lb = self.as_lin(a), self.as_lin(b)
        if la is not None and lb is not None:
            if op == "add":
                return lin_add(la, lb)
            if op == "sub":
                return lin_add(la, lb, -1)
            if op == "mul":
                if la.__class__ is int:
                    return lin_scale(lb, la)
                if lb.__class__ is int:
                    return lin_scale(la, lb)
                return self.nlmul(la, lb)
            if op == "shl" and lb.__class__ is int:
                return lin_scale(la, 1 << lb)
            if la.__class__ is int and lb.__class__ is int:
                m = (1 << w) - 1
                try:
                    if op == "and":
                        return la & lb
                    if op == "or":
                        return la | lb
                    if op == "xor":
                        return la ^ lb
                    if op == "udiv":
                        return (la & m) // (lb & m)
                    if op == "urem":
                        return (la & m) % (lb & m)
                    if op == "sdiv":
                        q = abs(la) // abs(lb)
                        return q if (la < 0) == (lb < 0) else -q
                    if op == "srem":
                        q = abs(la) % abs(lb)
                        return q if la >= 0 else -q
                    if op == "lshr":
                        return (la & m) >> lb
                    if op == "ashr":
                        return la >> lb
                except ZeroDivisionError:
                    return self.unknown(st, "i%d" % w, I)
            if op == "udiv" and lb.__class__ is int and lb > 0 and la[1] % lb == 0 and all(q % lb == 0 for _, q in la[2]):
                return ("L", la[1] // lb, tuple((s, q // lb) for s, q in la[2]))
            if op == "lshr" and lb.__class__ is int:
                op, lb = "udiv", 1 << lb
            if op in ("udiv", "urem", "and", "or", "xor", "sdiv", "srem", "ashr", "shl"):
                s = sym(("op", op, la, lb), 0 if op in ("udiv", "urem") or w == 64 else None)
                return ("L", 0, ((s, 1),))
        return self.unknown(st, "i%d" % w, I)

    def nlmul(self, la, lb):
        """product of two non-constant linear values: distribute into monomials"""
        def mono(s):
            k = SYMS[s]
            return k[1] if k[0] == "mono" else (s,)
        res = 0
        ta = [((), la[1])] + [(mono(s), q) for s, q in la[2]]
        tb = [((), lb[1])] + [(mono(s), q) for s, q in lb[2]]
        for ma, qa in ta:
            for mb, qb in tb:
                q = qa * qb
                if not q:
                    continue
                mm = tuple(sorted(ma + mb))
                if not mm:
                    res = lin_add(res, q)
                elif len(mm) == 1:
                    res = lin_add(res, ("L", 0, ((mm[0], q),)))
                else:
                    lo = 0 if all(SYMLO[x] is not None and SYMLO[x] >= 0 for x in mm) else None
                    res = lin_add(res, ("L", 0, ((sym(("mono", mm), lo), q),)))
        return res

    # ---- execution -----------------------------------------------------------
    class Frame:
        __slots__ = ("f", "args", "ctx", "env")

    def run(self, f, args, st, ctx):
        """returns list of (retval, state)"""
        self.stats["funcs"].add(f.name)
        global CUR, CURFILE
        self.stack.append((f, args, ctx))
        CUR, CURFILE = f.dname, f.file
        saved_env = st.env
        saved_ctx = getattr(self, "ctx", 0)
        self.ctx = ctx
        st.env = {}
        pend = {0: [st]}
        heap = [0]
        seen = {}
        visits = {}
        exits = {}
        while heap:
            b = heapq.heappop(heap)
            lst = pend.pop(b, None)
            if not lst:
                continue
            B = f.blocks[b]
            tab = seen.get(b)
            if tab is None:
                tab = seen[b] = {}
            work = []
            for s in lst:
                self.prune(f, B, s, ctx)
                sk = (s.skey(), s.back) if B.is_header else s.skey()
                grp = tab.get(sk)
                if grp is None and B.is_header and len(tab) > 8:
                    if self.force_smash(s):
                        sk = (s.skey(), s.back)
                        grp = tab.get(sk)
                if grp is None:
                    grp = tab[sk] = {}
                fk = s.fkey()
                old = grp.get(fk)
                if old is not None:
                    jf = join_facts(old.facts, s.facts)
                    if jf == old.facts:
                        continue
                    vk = (b, sk, fk)
                    visits[vk] = visits.get(vk, 0) + 1
                    if visits[vk] > 12:
                        jf = {k: v for k, v in jf.items() if old.facts.get(k) == v}
                    old.facts = jf
                    if fk not in [w[1] for w in work if w[0] is grp]:
                        work.append((grp, fk))
                    continue
                lim = 1 if B.is_header else self.join_limit
                if len(grp) >= lim:
                    # join into one representative
                    rep = None
                    for k2 in list(grp):
                        o2 = grp.pop(k2)
                        rep = o2 if rep is None else self.join_states(rep, o2, ("j", ctx, b), False, f, B)
                    nw = self.join_states(rep, s, ("w" if B.is_header else "j", ctx, b), B.is_header, f, B)
                    nk = nw.fkey()
                    if rep.fkey() == nk and rep.facts == nw.facts and lim == 1:
                        grp[nk] = rep
                        continue
                    vk = (b, sk)
                    visits[vk] = visits.get(vk, 0) + 1
                    if visits[vk] > 12:
                        # accelerate convergence: keep only facts that are already stable
                        nw.facts = {k: v for k, v in nw.facts.items() if rep.facts.get(k) == v}
                        if rep.fkey() == nk and rep.facts == nw.facts:
                            grp[nk] = rep
                            continue
                    grp[nk] = nw
                    work.append((grp, nk))
                else:
                    grp[fk] = s
                    work.append((grp, fk))
            done = set()
            for grp, fk in work:
                if (id(grp), fk) in done:
                    continue
                done.add((id(grp), fk))
                s = grp.get(fk)
                if s is None:
                    continue
                self.stats["blocks"] += 1
                for nb, ns in self.exec_block(f, args, ctx, B, s.copy()):
                    if nb is None:
                        rv, rs = ns
                        self.pop_frame(f, rs, rv, ctx, B)
                        rs.env = {}
                        k = (rs.skey(), skel(rv) if rv.__class__ is tuple else (rv if rv.__class__ is int else 0))
                        g = exits.setdefault(k, {})
                        fk2 = (rs.fkey(), rv if not (rv.__class__ is float and rv != rv) else "nan")
                        o = g.get(fk2)
                        if o is None:
                            g[fk2] = (rv, rs)
                        else:
                            o[1].facts = join_facts(o[1].facts, rs.facts)
                    else:
                        ns.back = nb <= b
                        l = pend.get(nb)
                        if l is None:
                            pend[nb] = [ns]
                            heapq.heappush(heap, nb)
                        else:
                            l.append(ns)
        self.stack.pop()
        CUR, CURFILE = (self.stack[-1][0].dname, self.stack[-1][0].file) if self.stack else (None, None)
        self.ctx = saved_ctx
        out = []
        for k, g in exits.items():
            items = list(g.values())
            if len(items) > 4:
                rv, rs = items[0]
                for rv2, rs2 in items[1:]:
                    rs.env = {-1: 0 if rv is None else rv}
                    rs2.env = {-1: 0 if rv2 is None else rv2}
                    rs = self.join_states(rs, rs2, ("x", ctx, 0), False, f, None)
                    rv = None if rv is None else rs.env[-1]
                rs.env = {}
                items = [(rv, rs)]
            for rv, rs in items:
                rs.env = saved_env
                out.append((rv, rs))
        if self.valpure(f) and len(out) > 1 and f.ret[0] == "i":
            out = self.valpure_merge(f, args, out, saved_env)
        return out

    def force_smash(self, st):
        r = False
        for o, x in list(st.mem.items()):
            if x.kind == "heap" and QK not in x.cells and \
                    sum(1 for v in x.cells.values() if v.__class__ is tuple and v[0] == "P") > 12:
                self.smash(st, o, x, self.strides.get(o, 0))
                r = True
        return r

    def valpure_merge(self, f, args, out, env):
        groups = {}
        for rv, rs in out:
            groups.setdefault(rs.skey(), []).append((rv, rs))
        res = []
        for k, items in groups.items():
            if len(items) == 1:
                res += items
                continue
            vals = [rv for rv, _ in items]
            if not all(v.__class__ is int for v in vals):
                res += items
                continue
            rs = items[0][1]
            facts = rs.facts
            mem = rs.mem
            if any(r.mem != mem and r.fkey() != rs.fkey() for _, r in items[1:]):
                res += items
                continue
            for _, r in items[1:]:
                facts = join_facts(facts, r.facts)
            rs.facts = dict(facts)
            try:
                s = sym(("call", f.dname, tuple(args)), 0 if f.ret == "i64" else None)
            except TypeError:
                res += items
                continue
            r = rs.facts.get(((s, 1),), FULL)
            r = r_meet(r, frozenset(vals))
            if r is None:
                continue
            rs.facts[((s, 1),)] = r
            res.append((("L", 0, ((s, 1),)), rs))
        return res

    def prune(self, f, B, st, ctx):
        mem = st.mem
        dead = [o for o in mem if o[0] == "L" and o[1] == ctx and o[2] not in f.escaped and o[2] not in B.live_in
                and (mem[o].cells or mem[o].dflt != "U")]
        for o in dead:
            x = mem[o]
            mem[o] = Obj(x.kind, x.status, "U", 0, x.size, {}, None, None)
        if st.env:
            for k in [k for k in st.env if k not in B.env_in]:
                del st.env[k]
        if len(st.facts) > 40:
            keep = self.live_syms(st, None)
            for v in st.env.values():
                if v.__class__ is tuple and v[0] == "L":
                    for t, _ in v[2]:
                        keep.update(sym_deps(t))
            for k in list(st.facts):
                if self._local_fact(k) and not self._refs(k, keep):
                    del st.facts[k]

    def join_val(self, a, b, name, sa, sb, facts, widen, fa, fb):
        """join two cell values; updates facts (dict of the joined state)"""
        if a == b or (a.__class__ is float and b.__class__ is float and a != a and b != b):
            return a
        ca, cb = a.__class__, b.__class__
        if ca is tuple and a[0] == "P" and cb is tuple and b[0] == "P" and a[1] == b[1]:
            if not is_lin(a[2]) or not is_lin(b[2]):
                return ("P", a[1], TOP)
            off = self.join_val(a[2], b[2], name + ("off",), sa, sb, facts, widen, fa, fb)
            return ("P", a[1], off)
        la = a if ca is int else (a if ca is tuple and a[0] == "L" else None)
        lb = b if cb is int else (b if cb is tuple and b[0] == "L" else None)
        if la is not None and lb is not None:
            s = sym(name, None)
            ra = self.rng_set(fa, la)
            rb = self.rng_set(fb, lb)
            if not widen:
                r = r_join(ra, rb)
            else:
                l1, h1 = r_bounds(ra)
                l2, h2 = r_bounds(rb)
                lo = l1 if (l1 is not None and l2 is not None and l2 >= l1) else (0 if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0 else None)
                hi = h1 if (h1 is not None and h2 is not None and h2 <= h1) else None
                r = (lo, hi, NOEX)
                j = r_join(ra, rb)
                if j.__class__ is frozenset and len(j) <= 4 and min(j) < 0 and min(j) >= -8 and max(j) <= 8:
                    # status codes: few values, not a counter
                    r = lo = hi = j
                elif (lo is None or lo < 0) and (hi is None or hi > 0) and (
                        0 not in j if j.__class__ is frozenset else 0 in j[2]):
                    r = (lo, hi, frozenset((0,)))
            facts.append((s, r))
            return ("L", 0, ((s, 1),))
        if UNINIT in (a, b):
            return UNINIT
        fl = lambda v: v.__class__ is float or (v.__class__ is tuple and v[0] == "F")
        if fl(a) and fl(b):
            return TOPF
        bl = lambda v: v in (0, 1) or (v.__class__ is tuple and v[0] == "B")
        if bl(a) and bl(b):
            return ("B", None, False)
        return TOP

    def rng_f(self, facts, v):
        class T:
            pass
        t = T()
        t.facts = facts
        return self.rng(t, v)

    def rng_set(self, facts, v):
        """range of a linear value as a set, or bounds with excluded values"""
        if v.__class__ is int:
            return frozenset((v,))
        if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] in (1, -1):
            s, q = v[2][0]
            r = facts.get(((s, 1),))
            if r is not None:
                if q == 1:
                    return r
                if r.__class__ is frozenset:
                    return frozenset(-x for x in r)
                return (None if r[1] is None else -r[1], None if r[0] is None else -r[0], frozenset(-x for x in r[2]))
        lo, hi = self.rng_f(facts, v)
        return (lo, hi, NOEX)

    def join_states(self, a, b, tag, widen, f, B):
        """join of two states with equal structural key"""
        n = a.copy()
        newfacts = []
        fa, fb = a.facts, b.facts
        if self.bounds is not None:
            self.bounds.pre_join(self, a, b)
        pairs = []
        for o, x in a.mem.items():
            y = b.mem.get(o)
            if y is None or x is y or x.fkey() == y.fkey():
                continue
            if o[0] == "A" and self.split_null:
                # there is nothing behind a NULL argument: the other side's contents are kept
                if fa.get(("null", o)) is True:
                    n.mem[o] = y
                    continue
                if fb.get(("null", o)) is True:
                    continue
            c = {}
            for off in set(x.cells) | set(y.cells):
                v, w = x.cells.get(off), y.cells.get(off)
                if v is None or w is None:
                    # missing cell: only tolerable when default is unknown/symbolic
                    continue
                nm = tag + (o, off)
                c[off] = self.join_val(v, w, nm, a, b, newfacts, widen, fa, fb)
                if c[off] is not v or c[off] is not w:
                    pairs.append((c[off], v, w))
            ver = x.ver if x.ver == y.ver else tag + ("ver",)
            sz = x.size if x.size == y.size else None
            d = x.dflt
            if set(x.cells) != set(y.cells) and d in ("U", "Z", "S"):
                d = "T" if d != "S" else "S"
                if d == "S" and ver == x.ver:
                    ver = tag + ("ver",)
            n.mem[o] = x.but(cells=c, ver=ver, size=sz, dflt=d)
            if ver != x.ver or ver != y.ver:
                pass
        for o, y in b.mem.items():
            if o not in n.mem:
                n.mem[o] = y
        for k in list(n.env):
            v, w = a.env.get(k), b.env.get(k)
            if w is None:
                del n.env[k]
            elif v != w:
                n.env[k] = self.join_val(v, w, tag + ("env", k), a, b, newfacts, widen, fa, fb)
                pairs.append((n.env[k], v, w))
        renew = [s for s, _ in newfacts]
        if renew:
            rs = set(renew)
            ja = {k: v for k, v in fa.items() if not any(self._mentions(k, s) for s in rs)}
            jb = {k: v for k, v in fb.items() if not any(self._mentions(k, s) for s in rs)}
        else:
            ja, jb = fa, fb
        n.facts = dict(join_facts(ja, jb))
        if renew:
            for o, x in n.mem.items():
                if QK in x.cells:
                    bad = [k for k in x.cells if k.__class__ is tuple and k[0] == "L"
                           and any(s in sym_deps(t) for t, _ in k[2] for s in rs)]
                    if bad:
                        n.mem[o] = x.but(cells={k: v for k, v in x.cells.items() if k not in bad})
        acc = {}
        for s, r in newfacts:
            acc[s] = r if s not in acc else r_join(acc[s], r)
        for s, r in acc.items():
            if r != FULL and r != (None, None, NOEX):
                n.facts[((s, 1),)] = r
        if self.bounds is not None and pairs:
            self.bounds.relate(self, n, a, b, pairs, set(acc))
        if n.raised is None:
            n.raised = b.raised
        if n.oom is None:
            n.oom = b.oom
        return n

    def pop_frame(self, f, st, rv, ctx, B):
        mem = st.mem
        if self.hooks:
            for h in self.hooks:
                h.on_return(self, f, st, rv, B)
        for o in [o for o in mem if o[0] == "L" and o[1] == ctx]:
            del mem[o]
        heaps = [o for o in mem if o[0] == "H"]
        if heaps or len(mem) > 8:
            reach = set()
            todo = []

            def addv(v):
                if v.__class__ is tuple:
                    if v[0] == "P":
                        if v[1] not in reach:
                            reach.add(v[1])
                            todo.append(v[1])
                    elif v[0] == "A":
                        for z in v[1]:
                            addv(z)
            addv(rv)
            for fr in self.stack:
                for a in fr[1]:
                    addv(a)
            for o, x in mem.items():
                if o[0] in ("L", "A", "G", "B") and o not in reach:
                    reach.add(o)
                    todo.append(o)
            while todo:
                o = todo.pop()
                x = mem.get(o)
                if x is not None:
                    for v in x.cells.values():
                        addv(v)
            for o in heaps:
                if o not in reach:
                    x = mem[o]
                    if x.status == "live":
                        I = B.insts[-1]
                        self.event("leak", ["", 0, x.site[1], x.site[0], ""], st,
                                       "memory allocated at %s:%d in %s is not released when %s returns%s" % (
                                           short(x.site[0]), x.site[1], x.site[2], f.dname, self.ret_desc(rv, st)),
                                       (x.site[0], x.site[1]), f)
                    del mem[o]
            for o in [o for o in mem if o[0] == "S" and o not in reach]:
                del mem[o]
        # forget facts about symbols of the popped frame that nothing refers to any more
        if st.facts:
            keep = None
            for k in list(st.facts):
                if self._has_ctx(k, ctx):
                    if keep is None:
                        keep = self.live_syms(st, rv)
                    if not self._refs(k, keep):
                        del st.facts[k]

    def ret_desc(self, rv, st):
        d = " " + str(rv) if rv.__class__ is int else ""
        if st.oom:
            d += " after the allocation at %s:%d failed" % (short(st.oom[0]), st.oom[1])
        elif st.raised:
            d += " after the error raised at %s:%d" % (short(st.raised[0]), st.raised[1])
        return d

    _hasctx = {}

    def _sym_ctx(self, s):
        r = self._hasctx.get(s)
        if r is None:
            acc = set()
            for d in sym_deps(s):
                k = SYMS[d]
                if k[0] in ("t", "w", "j", "tp", "x", "hv"):
                    acc.add(k[1])
            r = self._hasctx[s] = frozenset(acc)
        return r

    def _local_fact(self, k):
        for s in self._fact_syms(k):
            if self._sym_ctx(s):
                return True
        return False

    def _fact_syms(self, k):
        if k[0].__class__ is tuple:
            return [t for t, _ in k]
        if k[0] == "null":
            o = k[1]
            return [o[1]] if o.__class__ is tuple and o[0] == "S" else []
        if k[0] == "f":
            return [x[1] for x in k[2:] if x.__class__ is tuple and x[0] == "F" and x[1] is not None]
        return []

    def _has_ctx(self, k, ctx):
        for s in self._fact_syms(k):
            if ctx in self._sym_ctx(s):
                return True
        return False

    def live_syms(self, st, rv):
        acc = set()

        def addv(v):
            if v.__class__ is tuple:
                if v[0] == "L":
                    for s, _ in v[2]:
                        acc.update(sym_deps(s))
                elif v[0] == "F" and v[1] is not None:
                    acc.update(sym_deps(v[1]))
                elif v[0] == "P":
                    if v[1].__class__ is tuple and v[1][0] == "S":
                        acc.update(sym_deps(v[1][1]))
                    addv(v[2])
                elif v[0] == "A":
                    for z in v[1]:
                        addv(z)
        addv(rv)
        for x in st.mem.values():
            for v in x.cells.values():
                addv(v)
            if x.size is not None:
                addv(x.size)
        return acc

    def _refs(self, k, keep):
        ss = self._fact_syms(k)
        return bool(ss) and all(s in keep for s in ss)

    def goto(self, f, st, fr, pred, succ):
        """transfer along an edge: evaluates phis, keeps cross-block values"""
        T = f.blocks[succ]
        new = {}
        for I in T.insts:
            if I[0] != "phi":
                break
            for pb, o in I[4]:
                if pb == pred:
                    new[I[1]] = self.val(fr, st, o)
                    break
        for v in f.blocks[pred].insts:
            if v[1] in f.xb and v[1] in fr.env:
                st.env[v[1]] = fr.env[v[1]]
        st.env.update(new)
        return (succ, st)

    def exec_block(self, f, args, ctx, B, st):
        out = []
        stack = [(0, {}, st)]
        insts = B.insts
        n = len(insts)
        while stack:
            i, env, st = stack.pop()
            fr = self.Frame()
            fr.f, fr.args, fr.ctx, fr.env = f, args, ctx, env
            val = self.val
            try:
                while i < n:
                    I = insts[i]
                    op = I[0]
                    i += 1
                    self.steps += 1
                    if op == "load":
                        env[I[1]] = self.load(st, val(fr, st, I[4]), I[5], I[6], I)
                    elif op == "store":
                        self.store(st, val(fr, st, I[4]), I[5], I[6], val(fr, st, I[7]), I)
                    elif op == "getelementptr":
                        b = val(fr, st, I[4])
                        if b.__class__ is tuple and b[0] == "P":
                            off = b[2]
                            if off == TOP:
                                env[I[1]] = b
                            else:
                                if I[5]:
                                    off = lin_add(off, I[5])
                                bad = False
                                for o, sc in I[6]:
                                    if sc >= 24 and b[1][0] == "H":
                                        self.strides[b[1]] = sc
                                    x = val(fr, st, o)
                                    x = self.as_lin(x)
                                    if x is None:
                                        bad = True
                                        break
                                    off = lin_add(off, x, sc)
                                if not bad and I[7] and off.__class__ is not int and b[1][0] != "H":
                                    lo, hi = self.rng(st, off)
                                    bad = lo is None or hi is None
                                if bad:
                                    off = self.unknown(st, "i64", I)
                                    if I[7] and b[2].__class__ is int:    # an index into an array of known length
                                        self.assume_range(st, off[2][0][0], I[7] - 1)
                                        off = lin_add(b[2] + I[5], off, I[6][0][1])
                                env[I[1]] = ("P", b[1], off)
                        else:
                            env[I[1]] = b if b == UNINIT else TOP
                    elif op in ("fmul", "fadd", "fsub", "fdiv"):
                        env[I[1]] = self.fop(op, val(fr, st, I[4]), val(fr, st, I[5]))
                    elif op == "fneg":
                        env[I[1]] = self.fop(op, val(fr, st, I[4]))
                    elif op == "br":
                        c = val(fr, st, I[4])
                        if c.__class__ is bool or c.__class__ is int:
                            out.append(self.goto(f, st, fr, B.idx, I[5] if c & 1 else I[6]))
                            break
                        if c.__class__ is not tuple or c[0] != "B":
                            c = ("B", None, False)
                        d = self.decide(st, c)
                        if d is not None:
                            out.append(self.goto(f, st, fr, B.idx, I[5] if d else I[6]))
                            break
                        self.stats["forks"] += 1
                        s2 = st.copy()
                        fl = self.m.fname(I[3])
                        if self.assume(st, c, True):
                            st.trace = (st.trace, fl, I[2], "T")
                            out.append(self.goto(f, st, fr, B.idx, I[5]))
                        if self.assume(s2, c, False):
                            s2.trace = (s2.trace, fl, I[2], "F")
                            out.append(self.goto(f, s2, fr, B.idx, I[6]))
                        break
                    elif op == "jmp":
                        out.append(self.goto(f, st, fr, B.idx, I[4]))
                        break
                    elif op == "icmp":
                        env[I[1]] = self.icmp(st, I[4], val(fr, st, I[5]), val(fr, st, I[6]), I[7], I)
                    elif op == "fcmp":
                        env[I[1]] = self.fcmp(I[4], val(fr, st, I[5]), val(fr, st, I[6]))
                    elif op == "call":
                        res = self.call(f, fr, st, I)
                        if not res:
                            break
                        if len(res) > 1:
                            for rv, s2 in res[1:]:
                                e2 = dict(env)
                                e2[I[1]] = rv
                                stack.append((i, e2, s2))
                        rv, st = res[0]
                        env[I[1]] = rv
                    elif op == "ret":
                        rv = val(fr, st, I[4]) if len(I) > 4 else None
                        out.append((None, (rv, st)))
                        break
                    elif op == "switch":
                        self.do_switch(f, fr, st, B, I, out)
                        break
                    elif op == "alloca":
                        sz = I[5]
                        cnt = val(fr, st, I[6])
                        if cnt.__class__ is not int:
                            self.stats["vlas"].add((short(self.m.fname(I[3])), I[2], f.dname, I[4]))
                            self.event("vla", I, st, "automatic array '%s' whose size depends on the call's arguments" % I[4], I[4])
                        size = lin_scale(cnt, sz) if is_lin(cnt) else None
                        o = ("L", ctx, I[1], I[4])
                        arr = size.__class__ is not int or (I[7][0] == "[" if len(I) > 7 else False)
                        st.mem[o] = Obj("stack", "live", "U", 0, size, {}, None,
                                        ("local %s of %s" % (I[4], f.dname), I[1]) if arr else None)
                    elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
                        w = 64
                        a, b = val(fr, st, I[4]), val(fr, st, I[5])
                        env[I[1]] = self.iop(st, op, a, b, I, w)
                    elif op in ("sext", "zext", "trunc", "bitcast"):
                        v = val(fr, st, I[4])
                        if op == "sext" and I[5] == "i1" and v.__class__ is int:
                            v = -v
                        if op == "trunc" and v.__class__ is tuple and v[0] == "L" and I[5] == "i64":
                            v = ("L", 0, ((sym(("op", "trunc", v)), 1),))
                        if v.__class__ is bool:
                            v = int(v)
                        env[I[1]] = v
                    elif op in ("sitofp", "uitofp"):
                        v = val(fr, st, I[4])
                        if v.__class__ is int:
                            env[I[1]] = float(v)
                        elif v.__class__ is tuple and v[0] == "L":
                            env[I[1]] = ("F", sym(("i2f", v)))
                        else:
                            env[I[1]] = TOPF
                    elif op in ("fptoui", "fptosi"):
                        v = val(fr, st, I[4])
                        if v.__class__ is float and v == v and abs(v) < 1e18:
                            env[I[1]] = int(v)
                        elif v.__class__ is tuple and v[0] == "F" and v[1] is not None:
                            env[I[1]] = lin_sym(("f2i", v), 0 if op == "fptoui" else None)
                        else:
                            env[I[1]] = self.unknown(st, I[6], I)
                    elif op in ("fpext", "fptrunc"):
                        env[I[1]] = val(fr, st, I[4])
                    elif op == "phi":
                        env[I[1]] = st.env.get(I[1], TOP)
                    elif op == "extractvalue":
                        v = val(fr, st, I[4])
                        if v.__class__ is tuple and v[0] == "A" and len(I[5]) == 1:
                            env[I[1]] = v[1][I[5][0]]
                        else:
                            env[I[1]] = TOPF
                    elif op == "insertvalue":
                        v = val(fr, st, I[4])
                        x = val(fr, st, I[5])
                        l = list(v[1]) if v.__class__ is tuple and v[0] == "A" else [TOPF, TOPF]
                        if len(I[6]) == 1 and I[6][0] < len(l):
                            l[I[6][0]] = x
                        env[I[1]] = ("A", tuple(l))
                    elif op == "select":
                        c = val(fr, st, I[4])
                        d = bool(c) if c.__class__ in (int, bool) else (self.decide(st, c) if c.__class__ is tuple and c[0] == "B" else None)
                        if d is None:
                            a, b = val(fr, st, I[5]), val(fr, st, I[6])
                            if a == b:
                                env[I[1]] = a
                            else:
                                s2 = st.copy()
                                ok1 = self.assume(st, c, True) if c.__class__ is tuple and c[0] == "B" else True
                                ok2 = self.assume(s2, c, False) if c.__class__ is tuple and c[0] == "B" else True
                                if ok2:
                                    e2 = dict(env)
                                    e2[I[1]] = b
                                    if ok1:
                                        stack.append((i, e2, s2))
                                    else:
                                        env, st = e2, s2
                                        fr.env = env
                                if ok1:
                                    env[I[1]] = a
                        else:
                            env[I[1]] = val(fr, st, I[5] if d else I[6])
                    elif op == "freeze":
                        env[I[1]] = val(fr, st, I[4])
                    elif op == "unreachable":
                        break
                    elif op in ("ptrtoint", "inttoptr"):
                        env[I[1]] = self.unknown(st, I[6], I)
                    else:
                        env[I[1]] = TOP
            except PathDead:
                pass
            if self.steps > self.next_look:
                self.next_look = self.steps + 20000
                if self.steps > self.step_limit or time.time() > self.deadline:
                    raise Budget("analysis budget exceeded in %s" % f.dname)
        return out

    def do_switch(self, f, fr, st, B, I, out):
        c = self.val(fr, st, I[4])
        cases = I[6]
        if c.__class__ is bool:
            c = int(c)
        if c.__class__ is int:
            for v, b in cases:
                if v == c:
                    out.append(self.goto(f, st, fr, B.idx, b))
                    return
            out.append(self.goto(f, st, fr, B.idx, I[5]))
            return
        lin = self.as_lin(c)
        if lin is None:
            for b in {x[1] for x in cases} | {I[5]}:
                out.append(self.goto(f, st.copy(), fr, B.idx, b))
            return
        fl = self.m.fname(I[3])
        bytarget = {}
        for v, b in cases:
            bytarget.setdefault(b, []).append(v)
        rem = st.copy()
        remok = True
        for b, vs in bytarget.items():
            facts = None
            for v in vs:
                p = self.pred_int("eq", lin, v)
                s2 = st.copy()
                if self.assume(s2, p, True) if p.__class__ is tuple else p:
                    facts = s2.facts if facts is None else join_facts(facts, s2.facts)
            if facts is not None:
                s2 = st.copy()
                s2.facts = dict(facts)
                s2.trace = (s2.trace, fl, I[2], "case %s" % vs[0])
                out.append(self.goto(f, s2, fr, B.idx, b))
            for v in vs:
                if remok:
                    p = self.pred_int("ne", lin, v)
                    if p.__class__ is tuple:
                        if self.decide(rem, p) is False:
                            remok = False
                        else:
                            remok = self.assume(rem, p, True)
                    elif not p:
                        remok = False
        if remok:
            rem.trace = (rem.trace, fl, I[2], "default")
            out.append(self.goto(f, rem, fr, B.idx, I[5]))

    # ---- calls -----------------------------------------------------------------
    def call(self, f, fr, st, I):
        name = I[4]
        self.stats["calls"] += 1
        args = [self.val(fr, st, a) for a in I[5]]
        if not isinstance(name, str):
            v = self.val(fr, st, name)
            if v.__class__ is tuple and v[0] == "FN":
                name = v[1]
            else:
                if self.calls_checked:
                    self.stats["indirect"] = self.stats.get("indirect", 0) + 1
                    if v == NULL or (v.__class__ is tuple and v[0] == "P" and st.facts.get(("null", v[1])) is not False):
                        self.event("nullcall", I, st, "call through a function pointer that was not found to be different from NULL", "call")
                return [(self.unknown(st, I[6], I) if I[6] != "void" else None, st)]
        for a in args:
            if a == UNINIT:
                self.event("uninit", I, st, "uninitialised value passed to %s" % name, name)
        if name == self.raise_fn:
            c = args[0] if args else None
            if c.__class__ is int and c > 0:
                self.rsites.setdefault((short(self.m.fname(I[3])), I[2], f.dname, c), set()).add(st.oom is not None)
            if st.raised is None:
                st.raised = (self.m.fname(I[3]), I[2], f.dname, c, f.dname)
            elif is_lin(c) and (self.rng(st, c)[1] is None or self.rng(st, c)[1] > 0):
                st.raised = st.raised[:4] + (f.dname,)
            self.stats["raises"].add((I[3], I[2]))
            return [(args[0], st)]
        if name == self.warn_fn:
            return [(None, st)]
        g = self.m.funcs.get(name)
        for h in self.hooks:
            r = h.on_call(self, f, st, I, name, args, g)
            if r is not None:
                return r
        if g is None or g.decl:
            return self.extern(f, fr, st, I, name, args)
        if any(fr2[0] is g for fr2 in self.stack):
            return self.recursive(f, st, I, g, args)
        if self.valpure(g) and g.memnone and g.ret[0] == "i" and g.ret != "i1" and not all(a.__class__ in (int, float) for a in args):
            try:
                return [(lin_sym(("call", g.dname, tuple(args)), 0 if g.ret == "i64" else None), st)]
            except TypeError:
                pass
        if self.exact and g.params and all(a.__class__ in (int, float) or a.__class__ is tuple and a[0] == "P" for a in args):
            ctx = self.new_ctx(fr.ctx, (f.name, I[1]))
            return self.run(g, args, st, ctx)
        if (g.ret != "i32" or g.memnone) and self.simple(g) and self.can_shortcut(st, g, args):
            self.stats["shortcut"] += 1
            return self.shortcut(st, I, g, args)
        key = self.summary_key(st, g, args)
        if key is not None and self.split_null:
            for a in args:
                if a.__class__ is tuple and a[0] == "P" and a[1][0] == "A" and st.facts.get(("null", a[1])) is None:
                    # NULL or not: the routine is looked at for both, each with what it entails about the other arguments
                    res = []
                    for t in (True, False):
                        s2 = st.copy()
                        if self.assume(s2, ("B", ("null", a[1]), False), t):
                            res += self.call(f, fr, s2, I)
                    return res
        if key is not None:
            sm = self.summaries.get(key)
            if sm is None:
                sm = self.make_summary(g, key, I)
            if sm != "no":
                return self.apply_summary(sm, g, st, args, I)
        ctx = self.new_ctx(fr.ctx, (f.name, I[1]))
        if self.use_memo and g.ninsts > 25:
            return self.memo_call(f, fr, st, I, g, args, ctx)
        self.stats["inlined"] += 1
        return self.run(g, args, st, ctx)

    # ---- frame rule: a call is analysed on the part of the state it can reach, once per distinct part
    def in_sub(self, c, ctx):
        while c:
            if c == ctx:
                return True
            c = self.ctxinfo[c][0]
        return False

    def memo_call(self, f, fr, st, I, g, args, ctx):
        mem = st.mem
        reach = set()
        todo = []

        def addv(v):
            if v.__class__ is tuple:
                if v[0] == "P":
                    if v[1] not in reach and v[1] != "NULL":
                        reach.add(v[1])
                        todo.append(v[1])
                        if v[1][0] == "E":
                            addv(("P", v[1][1], 0))
                elif v[0] == "A":
                    for z in v[1]:
                        addv(z)
        for a in args:
            addv(a)
        for o in mem:
            if o[0] == "G" or (o[0] == "H" and self.in_sub(o[1], ctx)):
                addv(("P", o, 0))
        while todo:
            x = mem.get(todo.pop())
            if x is not None:
                for v in x.cells.values():
                    addv(v)
        # objects of the reachable part that somebody else also refers to
        pinned = set()

        def pin(v):
            if v.__class__ is tuple:
                if v[0] == "P":
                    if v[1] in reach and v[1][0] == "H":
                        pinned.add(v[1])
                elif v[0] == "A":
                    for z in v[1]:
                        pin(z)
        for o, x in mem.items():
            if o not in reach:
                for v in x.cells.values():
                    pin(v)
        for v in st.env.values():
            pin(v)
        for v in fr.env.values():
            pin(v)
        for sf in self.stack:
            for v in sf[1]:
                pin(v)
        keep = set()

        def syms(v):
            if v.__class__ is tuple:
                if v[0] == "L":
                    for s, _ in v[2]:
                        keep.update(sym_deps(s))
                elif v[0] == "F" and v[1] is not None:
                    keep.update(sym_deps(v[1]))
                elif v[0] == "P":
                    if v[1].__class__ is tuple and v[1][0] == "S":
                        keep.update(sym_deps(v[1][1]))
                    syms(v[2])
                elif v[0] == "A":
                    for z in v[1]:
                        syms(z)
                elif v[0] == "B" and v[1] is not None:
                    for s in self._fact_syms(v[1]) if v[1][0] not in ("==", "<") else [t for t, _ in v[1][1][2]]:
                        keep.update(sym_deps(s))
        for a in args:
            syms(a)
        for o in reach:
            x = mem.get(o)
            if x is not None:
                for k, v in x.cells.items():
                    syms(v)
                    if k.__class__ is tuple:
                        syms(k)
                if x.size is not None:
                    syms(x.size)
        rel, rest = {}, {}
        for k, v in st.facts.items():
            if k[0] == "null":
                r = k[1] in reach or (k[1][0] == "S" and bool(sym_objs(k[1][1]) & reach))
            elif k[0] == "cl":
                # either-or facts travel along when they speak about pointers and numbers the routine is given
                r = len(k[1]) == 2 and any(q[0] == "null" for q, _ in k[1]) and all(
                    q[1] in reach if q[0] == "null" else
                    q[0].__class__ is tuple and any(s in keep or not reach.isdisjoint(sym_objs(s)) for s in self._fact_syms(q))
                    for q, _ in k[1])
            elif k[0] == "peq":
                r = True
            else:
                r = False
                for s in self._fact_syms(k):
                    if s in keep or not reach.isdisjoint(sym_objs(s)):
                        r = True
                        break
            (rel if r else rest)[k] = v
        pk = frozenset(pinned)
        try:
            key = (ctx, tuple(args), frozenset((o, mem[o].fkey()) for o in reach if o in mem), pk,
                   frozenset(rel.items()))
            m = self.memo.get(key)
        except TypeError:
            key = m = None
        if m is None:
            self.stats["inlined"] += 1
            s = State()
            s.mem = {o: mem[o] for o in reach if o in mem}
            if pinned:
                s.mem[("L", -1, "pin", "")] = Obj("stack", "live", "S", 0, None,
                                                  {i: ("P", o, 0) for i, o in enumerate(sorted(pinned, key=repr))},
                                                  None, None)
            s.facts = dict(rel)
            s.trace = st.trace
            self.sumwrites.append(set())
            entry = (st.raised, st.oom)
            self.entry_hist.append(entry)
            res = self.run(g, args, s, ctx)
            self.entry_hist.pop()
            wr = self.sumwrites.pop()
            m = ([(rv, rs) for rv, rs in res], wr)
            if key is not None:
                self.memo[key] = m
        else:
            self.stats["memo_hits"] = self.stats.get("memo_hits", 0) + 1
        res, wr = m
        if self.sumwrites:
            self.sumwrites[-1] |= wr
        if rest:
            rest = {k: v for k, v in rest.items()
                    if not any(self.in_sub(c, ctx) for s in self._fact_syms(k) for c in self._sym_ctx(s))}
        out = []
        for rv, rs in res:
            n = State()
            n.mem = {o: x for o, x in mem.items() if o not in reach}
            for o, x in rs.mem.items():
                if o[0] == "L" and o[1] == -1:
                    continue
                n.mem[o] = x
            n.facts = dict(rest)
            ch = {o for o in reach if o[0] == "A" and (o not in mem or o not in rs.mem or rs.mem[o].ver != mem[o].ver)}
            if ch:
                for k in rest:
                    if k[0] == "cl" and any(self._mentions_obj(k, o) for o in ch):
                        del n.facts[k]
            n.facts.update(rs.facts)
            n.env = st.env
            n.raised = (st.raised and rs.raised and st.raised[:4] + (rs.raised[4],)) or st.raised or rs.raised
            n.oom = st.oom or rs.oom
            n.trace = st.trace
            if rs.raised:
                n.trace = (n.trace, self.m.fname(I[3]), I[2], "%s fails" % g.dname)
            out.append((rv, n))
        if len(out) > 1:
            for _, n in out[1:]:
                n.env = dict(st.env)
        return out

    # ---- summaries of balanced library routines -----------------------------
    def closure_size(self, g):
        return sum(self.m.funcs[n].ninsts for n in self.closure(g.name)
                   if n in self.m.funcs and not self.m.funcs[n].decl)

    _checker = {}

    def checker(self, g):
        """straight-line tests of the arguments, split off into a routine: what they establish is needed by the caller"""
        r = self._checker.get(g.name)
        if r is None:
            r = g.ninsts <= 800 and self.raise_fn in g.callees
            for c in g.callees if r else ():
                h = self.m.funcs.get(c)
                if c != self.raise_fn and not c.startswith("llvm.") and (h is None or h.decl or h.ninsts > 80 or h.callees):
                    r = False
            r = r and not any(b.is_header for b in g.blocks)
            self._checker[g.name] = r
        return r

    _stores_ptr = {}

    def stores_ptr_out(self, g):
        """does g itself store a pointer through a parameter (out-parameter ownership transfer)?"""
        r = self._stores_ptr.get(g.name)
        if r is None:
            r = False
            for k in range(len(g.params)):
                t = param_type(g, k)
                p = self.m.pointee(t) if t is not None else None
                if p is not None and self.m.pointee(p) is not None:
                    r = True
                if p is not None and self.m.strip(p) is not None and self.m.strip(p) >= 0 and \
                        self.m.types[self.m.strip(p)]["tag"] == "DW_TAG_structure_type" and not g.name.startswith("kiss_fft") \
                        and not self.m.types[self.m.strip(p)]["name"].startswith(("kiss_fft", "fftw_plan")):
                    ms = self.m.struct_fields(p)
                    if not ms or any(ty == "ptr" for _, ty in flat_fields(self.m, ms)):
                        r = True
            self._stores_ptr[g.name] = r
        return r

    def summary_key(self, st, g, args):
        if not self.use_summaries or g.ret == "ptr" or g.name in self.no_summary:
            return None
        if self.closure_size(g) <= self.sum_min or self.stores_ptr_out(g) or self.checker(g):
            return None
        groups = {}
        key = [g.name]
        for k, a in enumerate(args):
            if g.params[k]["ty"] == "ptr":
                if a.__class__ is not tuple or a[0] != "P":
                    return self.declined(g, k, "not an object")
                o = a[1]
                if o == "NULL":
                    key.append("N")
                    continue
                mn = False
                if o[0] in ("A", "S", "B"):
                    nf = st.facts.get(("null", o))
                    if nf is True:
                        key.append("N")
                        continue
                    if nf is None and not (self.assume_nonnull and o[0] != "B"):
                        mn = True
                x = self.get_obj(st, o)
                if x.status == "freed":
                    return self.declined(g, k, "freed")
                if o in self.assumed:
                    return self.declined(g, k, "carries an assumption")
                for v in x.cells.values():
                    if v.__class__ is tuple and v[0] == "P":
                        return self.declined(g, k, "pointers inside")
                    if self.assumed and v.__class__ is tuple and v[0] == "L" and v[2] in self.assumed:
                        return self.declined(g, k, "carries an assumption")
                u = x.dflt == "U" and not x.cells
                if u and x.site is not None:
                    u = False
                gi = groups.setdefault(o, len(groups))
                key.append(("o", gi, u, mn))
            elif a.__class__ is int:
                key.append(a if abs(a) < 4096 else "s1" if a > 0 else "s")
            elif a.__class__ is tuple and a[0] == "L":
                lo, hi = self.rng(st, a)
                key.append("s1" if lo is not None and lo >= 1 else "s")
            else:
                key.append("s")
        return tuple(key)

    def declined(self, g, k, why):
        d = self.stats.setdefault("declined", {})
        d[(g.name, k, why)] = d.get((g.name, k, why), 0) + 1
        return None

    def make_summary(self, g, key, I):
        self.summaries[key] = "no"
        st = State()
        args = []
        for k, q in enumerate(key[1:]):
            ty = g.params[k]["ty"]
            if q == "N":
                args.append(NULL)
            elif q.__class__ is tuple:
                o = ("B", key, q[1])
                if o not in st.mem:
                    st.mem[o] = Obj("arg", "live", "U" if q[2] else "S", 0, None, {}, None, None)
                    if not q[3]:
                        st.facts[("null", o)] = False
                args.append(("P", o, 0))
            elif q.__class__ is int:
                args.append(q)
            elif ty[0] == "i":
                args.append(lin_sym(("sarg", key, k), 1 if q == "s1" else 0 if ty == "i64" else None))
            elif ty in ("double", "float"):
                args.append(("F", sym(("sarg", key, k))))
            else:
                args.append(TOP)
        ctx = self.new_ctx(0, ("sum", key))
        self.sumwrites.append(set())
        save = getattr(self, "ctx", 0)
        sb = self.bounds
        self.bounds = None
        events, self.events = self.events, {}
        try:
            res = self.run(g, args, st, ctx)
        except Budget:
            self.events = events
            raise
        self.bounds = sb
        self.ctx = save
        wr = self.sumwrites.pop()
        outs = {}
        ok = not self.events
        if not ok:
            self.stats.setdefault("sumfail", {})[(g.name, key)] = [(k[:4], e["msg"]) for k, e in self.events.items()][:3]
        self.events = events
        for rv, rs in res:
            for o, x in rs.mem.items():
                if o[0] == "H" or (o[0] == "B" and x.status != "live"):
                    ok = False
                if any(v.__class__ is tuple and v[0] == "P" and v[1] != "NULL" for v in x.cells.values()):
                    ok = False
            if rv.__class__ is int or rv is None:
                r = rv
            elif rv.__class__ is float:
                r = "nan" if rv != rv else rv
            elif rv.__class__ is tuple and rv[0] == "L":
                r = ("rng", self.rng_set(rs.facts, rv))
            else:
                r = "?"
            k = (r, rkey(rs.raised), rs.oom is not None)
            ar = {}
            for j, a in enumerate(args):
                if a.__class__ is tuple and a[0] == "L":
                    v = rs.facts.get(a[2])
                    if v is not None:
                        ar[j] = v
            if k not in outs:
                outs[k] = (rs.raised, rs.oom, ar)
            else:
                o = outs[k][2]
                for j in list(o):
                    if j in ar:
                        o[j] = r_join(o[j], ar[j])
                    else:
                        del o[j]
        if not ok:
            self.summaries[key] = "no"
            return "no"
        writes = {o[2] for o in wr if o[0] == "B" and o[1] == key}
        gw = {o for o in wr if o[0] == "G"}
        sm = (list(outs.items()), writes, gw, key)
        self.summaries[key] = sm
        return sm

    def apply_summary(self, sm, g, st, args, I):
        outs, writes, gw, key = sm
        self.stats["summarized"] = self.stats.get("summarized", 0) + 1
        for o in gw:
            self.note_write(st, o, "*", I)
        done = set()
        for k, q in enumerate(key[1:]):
            if q.__class__ is tuple and q[1] in writes and q[1] not in done:
                done.add(q[1])
                o = args[k][1]
                x = self.get_obj(st, o)
                self.note_write(st, o, "*", I)
                self.havoc_call(st, o, x, I)
        res = []
        live = []
        for e in outs:
            for j, v in e[1][2].items():
                a = args[j]
                if a.__class__ is int:
                    if r_meet(frozenset((a,)), v) is None:
                        break
                elif a.__class__ is tuple and a[0] == "L":
                    if r_meet(self.rng_set(st.facts, a), v) is None:
                        break
            else:
                live.append(e)
        for n, ((r, ra, om), (rsite, osite, ar)) in enumerate(live):
            s = st if n == len(live) - 1 else st.copy()
            ok = True
            for j, v in ar.items():
                a = args[j]
                if a.__class__ is tuple and a[0] == "L" and a[1] == 0 and len(a[2]) == 1 and a[2][0][1] == 1:
                    s.facts[a[2]] = r_meet(self.rng_set(s.facts, a), v)
                    if root_fact(a[2]) and not self.imply(s, a[2]):
                        ok = False
            if not ok:
                continue
            if ra:
                s.raised = s.raised[:4] + (rsite[4],) if s.raised else rsite
            if om and s.oom is None:
                s.oom = osite
            if ra:
                s.trace = (s.trace, self.m.fname(I[3]), I[2], "%s fails" % g.dname)
            if r is None or r.__class__ is int or r.__class__ is float:
                v = r
            elif r == "nan":
                v = float("nan")
            elif r == "?":
                v = self.unknown(s, g.ret, I)
            else:
                v = self.unknown(s, g.ret, I)
                if v.__class__ is tuple and v[0] == "L":
                    s.facts[v[2]] = r[1]
            res.append((v, s))
        return res

    def can_shortcut(self, st, g, args):
        if g.memnone and not any(a.__class__ is tuple and a[0] == "P" for a in args):
            return True
        for k, a in enumerate(args):
            if g.params[k]["ty"] == "ptr":
                if a.__class__ is not tuple or a[0] != "P" or a[1] == "NULL":
                    return False
                o = a[1]
                if o[0] in ("A", "S"):
                    if st.facts.get(("null", o)) is not False:
                        if not self.assume_nonnull:
                            return False
                        if st.facts.get(("null", o)) is True:
                            return False
                x = self.get_obj(st, o)
                if x.status == "freed":
                    return False
                if x.dflt == "U" and not x.cells and x.site is None and self.const_param(g, k):
                    return False
        return True

    def const_param(self, g, k):
        t = param_type(g, k)
        if t is None:
            return False
        p = self.m.pointee(t)
        if p is None:
            return False
        return self.m.is_const(p)

    def shortcut(self, st, I, g, args):
        for k, a in enumerate(args):
            if a.__class__ is tuple and a[0] == "P" and not self.const_param(g, k):
                if self.writes_param(g, k):
                    x = self.get_obj(st, a[1])
                    self.note_write(st, a[1], "*", I)
                    self.havoc_call(st, a[1], x, I)
        if g.ret == "void":
            return [(None, st)]
        if g.ret[0] == "i" and g.memnone:
            try:
                return [(lin_sym(("call", g.dname, tuple(args)), 0 if g.ret == "i64" else None), st)]
            except TypeError:
                pass
        return [(self.unknown(st, g.ret, I), st)]

    _wp = {}

    def writes_param(self, g, k):
        """may g store through its k-th parameter?  (flow-insensitive over address derivations)"""
        key = (g.name, k)
        if key in self._wp:
            return self._wp[key]
        self._wp[key] = True
        r = self._writes_param(g, k)
        self._wp[key] = r
        return r

    def _writes_param(self, g, k):
        derived = set()
        cells = set()
        changed = True
        while changed:
            changed = False
            for B in g.blocks:
                for I in B.insts:
                    op = I[0]

                    def is_d(o):
                        return (o[0] == "a" and o[1] == k) or (o[0] == "v" and o[1] in derived)
                    if op == "store" and I[6] == "ptr" and is_d(I[7]):
                        if I[4][0] == "v" and I[4][1] in g.allocas:
                            if I[4][1] not in cells:
                                cells.add(I[4][1])
                                changed = True
                        else:
                            return True
                    elif op == "load" and I[6] == "ptr" and I[4][0] == "v" and I[4][1] in cells:
                        if I[1] not in derived:
                            derived.add(I[1])
                            changed = True
                    elif op == "getelementptr" and is_d(I[4]) and I[1] not in derived:
                        derived.add(I[1])
                        changed = True
                    elif op in ("phi", "select"):
                        os = [x[1] for x in I[4]] if op == "phi" else I[5:7]
                        if any(is_d(o) for o in os) and I[1] not in derived:
                            derived.add(I[1])
                            changed = True
        for B in g.blocks:
            for I in B.insts:
                def is_d(o):
                    return (o[0] == "a" and o[1] == k) or (o[0] == "v" and o[1] in derived)
                if I[0] == "store" and is_d(I[4]):
                    return True
                if I[0] == "call":
                    for j, o in enumerate(I[5]):
                        if is_d(o):
                            if isinstance(I[4], str):
                                h = self.m.funcs.get(I[4])
                                if h is not None and not h.decl:
                                    if self.writes_param(h, j):
                                        return True
                                elif I[4].startswith("llvm.mem") and j == 0:
                                    return True
                                elif I[4].startswith("llvm.mem"):
                                    pass
                                else:
                                    return True
                            else:
                                return True
        return False

    def havoc_call(self, st, o, x, I):
        """callee may have written anything into o"""
        ver = ("hv", self.ctx, I[1])
        if x.kind == "stack" and x.size == 8 and len(x.cells) <= 1 and o[0] == "L":
            # scalar out-parameter
            v = x.cells.get(0)
            if v is None or v.__class__ is int or (v.__class__ is tuple and v[0] == "L"):
                s = sym(("hv", self.ctx, I[1], o), 0)
                self.purge_sym(st, s)
                # type unknown when uninitialised: use TOP
                st.mem[o] = x.but(cells={0: ("L", 0, ((s, 1),))} if v is not None else {}, dflt="T", ver=ver)
                return
        self.havoc(st, o, x, ver, keep_ptrs=True)

    def recursive(self, f, st, I, g, args):
        for k, a in enumerate(args):
            if a.__class__ is tuple and a[0] == "P" and a[1] != "NULL" and g.params[k]["ty"] == "ptr":
                x = self.check_ptr(st, a, I, "argument of recursive call") if False else self.get_obj(st, a[1])
                if not self.const_param(g, k) and self.writes_param(g, k):
                    self.note_write(st, a[1], "*", I)
                    self.havoc_call(st, a[1], x, I)
        if g.ret == "void":
            return [(None, st)]
        if g.ret == "i32" and self.raise_fn in self.closure(g.name):
            s2 = st.copy()
            if s2.raised is None:
                s2.raised = (self.m.fname(I[3]), I[2], f.dname, -2, g.dname)
            res = [(0, st), (-2, s2)]
            if self.closure(g.name) & {"malloc", "calloc"}:
                s3 = st.copy()
                s3.raised = s3.raised or (self.m.fname(I[3]), I[2], f.dname, -1, g.dname)
                s3.oom = s3.oom or (self.m.fname(I[3]), I[2], f.dname)
                res.append((-1, s3))
            return res
        return [(self.unknown(st, g.ret, I), st)]

    def do_alloc(self, f, fr, st, I, size, zero, fam):
        self.stats["allocs"].add((short(self.m.fname(I[3])), I[2]))
        res = []
        o = ("H", self.ctx, I[1], f.name, 0)
        g = 0
        while o in st.mem and g < 3:
            x = st.mem[o]
            if not self.referenced(st, o, fr):
                if x.status == "live":
                    self.event("leak", I, st, "memory allocated at %s is lost when it is allocated again" % self.osite(x), "again")
                break
            g += 1
            o = ("H", self.ctx, I[1], f.name, g)
        if self.alloc_may_fail:
            s2 = st.copy()
            if s2.oom is None:
                s2.oom = (self.m.fname(I[3]), I[2], f.dname)
            s2.trace = (s2.trace, self.m.fname(I[3]), I[2], "alloc fails")
            res.append((NULL, s2))
        st.mem[o] = Obj("heap", "live", "Z" if zero else "U", 0, size if is_lin(size) else None, {}, fam,
                        (self.m.fname(I[3]), I[2], f.dname))
        res.append((("P", o, 0), st))
        return res

    def referenced(self, st, o, fr):
        for x in st.mem.values():
            for v in x.cells.values():
                if v.__class__ is tuple and v[0] == "P" and v[1] == o:
                    return True
        for fx in self.stack:
            for v in fx[1]:
                if v.__class__ is tuple and v[0] == "P" and v[1] == o:
                    return True
        return False

    def do_free(self, f, st, I, p, fam):
        self.stats["frees"].add((short(self.m.fname(I[3])), I[2]))
        if p == UNINIT or p.__class__ is not tuple:
            return
        if p[0] != "P":
            return
        o = p[1]
        if o == "NULL":
            return
        x = self.get_obj(st, o)
        if o[0] == "H":
            if x.status == "freed":
                self.event("doublefree", I, st, "memory allocated at %s is released twice" % self.osite(x), str(x.site))
                return
            if p[2] != 0:
                self.event("badfree", I, st, "free of a pointer into the middle of the block allocated at %s" % self.osite(x), str(x.site))
            if x.status == "arr":
                for c, y in list(st.mem.items()):
                    if QK in y.cells:
                        for k, w in y.cells.items():
                            if w.__class__ is tuple and w[0] == "P" and w[1] == o:
                                d = dict(y.cells)
                                d[("own", self.elem_class(y, k))] = RELEASED
                                st.mem[c] = y.but(cells=d)
                                break
            for k, w in x.cells.items():
                if w == OWNED and k.__class__ is tuple and k[0] == "own":
                    self.event("leak", I, st, "the array allocated at %s is released but the blocks its elements own (field at byte %d) are not" % (self.osite(x), k[1]), ("elem", k[1]))
            if x.fam != fam:
                self.event("mismatch", I, st, "block allocated at %s with %s is released with %s" % (self.osite(x), x.fam, fam), str(x.site))
            st.mem[o] = Obj("heap", "freed", "T", 0, None, {}, x.fam, x.site)
        elif o[0] == "E":
            y = st.mem.get(o[1])
            if y is not None and QK in y.cells:
                d = dict(y.cells)
                d[("own", o[2])] = RELEASED
                st.mem[o[1]] = y.but(cells=d)
        elif o[0] in ("L", "G"):
            self.event("badfree", I, st, "free of memory that was not allocated (%s)" % self.obj_desc(o, x, I), str(o))
        elif o[0] == "A":
            if st.facts.get(("null", o)) is not True:
                self.event("badfree", I, st, "free of caller-owned argument %s" % self.oname(o), self.oname(o))

    def extern(self, f, fr, st, I, name, args):
        if name in HARMLESS:
            return [(self.unknown(st, I[6], I) if I[6] != "void" else None, st)]
        if name == "malloc":
            return self.do_alloc(f, fr, st, I, args[0], False, "malloc")
        if name == "calloc":
            a, b = self.as_lin(args[0]), self.as_lin(args[1])
            sz = self.iop(st, "mul", a, b, I, 64) if a is not None and b is not None else None
            return self.do_alloc(f, fr, st, I, sz, True, "malloc")
        if name == "free":
            self.do_free(f, st, I, args[0], "malloc")
            return [(None, st)]
        if name in ("fftw_malloc",):
            return self.do_alloc(f, fr, st, I, args[0], False, "fftw_malloc")
        if name == "fftw_free":
            self.do_free(f, st, I, args[0], "fftw_malloc")
            return [(None, st)]
        if name.startswith("fftw_plan_"):
            return self.do_alloc(f, fr, st, I, 8, True, "fftw_plan")
        if name == "fftw_destroy_plan":
            self.do_free(f, st, I, args[0], "fftw_plan")
            return [(None, st)]
        if name == "realloc":
            p = args[0]
            res = self.do_alloc(f, fr, st, I, args[1], False, "malloc")
            for rv, s in res:
                if rv != NULL:
                    if p.__class__ is tuple and p[0] == "P" and p[1] != "NULL":
                        self.do_free(f, s, I, p, "malloc")
                    s.mem[rv[1]] = s.mem[rv[1]].but(dflt="T")
            return res
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            self.memcpy(f, st, I, args)
            return [(args[0], st)]
        if name.startswith("llvm.memset") or name == "memset":
            self.memset(f, st, I, args)
            return [(args[0], st)]
        if name.startswith("llvm.threadlocal.address"):
            return [(args[0], st)]
        if name.startswith("llvm.abs") or name == "abs":
            v = args[0]
            if v.__class__ is int:
                return [(abs(v), st)]
            if v.__class__ is tuple and v[0] == "L":
                lo, hi = self.rng(st, v)
                if lo is not None and lo >= 0:
                    return [(v, st)]
                if hi is not None and hi <= 0:
                    return [(lin_scale(v, -1), st)]
                rs = self.rng_set(st.facts, v)
                s = sym(("op", "abs", v), 0)
                if rs.__class__ is frozenset:
                    rs = frozenset(abs(x) for x in rs)
                    if len(rs) == 1:
                        return [(next(iter(rs)), st)]
                    st.facts[((s, 1),)] = rs
                elif self.decide(st, self.pred_int("eq", v, 0)) is False:
                    st.facts[((s, 1),)] = (1, None, NOEX)
                return [(("L", 0, ((s, 1),)), st)]
            return [(self.unknown(st, I[6], I), st)]
        if name in PURE_EXT or name.startswith("llvm."):
            if I[6] in ("double", "float"):
                if len(args) <= 2 and not any(a.__class__ is tuple and a[0] != "F" for a in args):
                    if all(a.__class__ is float for a in args):
                        return [(constmath(name, args), st)]
                    return [(self.fop("fn:" + name, *args), st)]
                return [(TOPF, st)]
            if I[6][0] == "i":
                return [(self.unknown(st, I[6], I), st)]
            return [(("A", (TOPF, TOPF)), st)]
        # unknown external: may write through every pointer argument
        for k, a in enumerate(args):
            if a.__class__ is tuple and a[0] == "P":
                if a[1] == "NULL":
                    continue
                x = self.check_ptr(st, a, I, "argument of %s" % name)
                if x is not None and name not in IO_EXT:
                    if not (x.kind == "glob"):
                        self.note_write(st, a[1], "*", I)
                    self.havoc_call(st, a[1], x, I)
                    if st.mem[a[1]].dflt == "U":
                        st.mem[a[1]] = st.mem[a[1]].but(dflt="T")
        if name in STATUS_EXT and len(args) > STATUS_EXT[name]:
            a = args[STATUS_EXT[name]]
            if a.__class__ is tuple and a[0] == "P" and a[1] != "NULL" and a[2].__class__ is int:
                bad = st.copy()
                self.store(st, a, 4, "i32", 0, I)
                s = sym(("st", self.ctx, I[1]), None)
                self.purge_sym(bad, s)
                bad.facts[((s, 1),)] = (None, None, frozenset((0,)))
                self.store(bad, a, 4, "i32", ("L", 0, ((s, 1),)), I)
                if bad.raised is None:
                    bad.raised = (self.m.fname(I[3]), I[2], f.dname, name, f.dname)
                bad.trace = (bad.trace, self.m.fname(I[3]), I[2], "%s fails" % name)
                return [(None, st), (None, bad)]
        return [(self.unknown(st, I[6], I) if I[6] != "void" else None, st)]

    def memcpy(self, f, st, I, args):
        d, s, n = args[0], args[1], args[2]
        if n == 0:
            return
        xs = self.check_ptr(st, s, I, "source of memory copy")
        xd = self.check_ptr(st, d, I, "destination of memory copy", True)
        if self.bounds is not None and is_lin(n):
            if xs is not None:
                self.bounds.access(self, st, s, xs, n, I, False)
            if xd is not None:
                self.bounds.access(self, st, d, xd, n, I, True)
        if xs is not None and xs.kind == "heap" and xs.dflt == "U" and not xs.cells:
            self.candidate("copy from %s that is never written", s[1], xs, st, I)
        if xd is None:
            return
        self.note_write(st, d[1], d[2] if n.__class__ is int else "*", I)
        if n.__class__ is int and d[2].__class__ is int and QK not in xd.cells and (xs is None or QK not in xs.cells):
            c = {k: v for k, v in xd.cells.items() if not (d[2] <= k < d[2] + n)}
            dflt = xd.dflt
            if xs is not None and s[2].__class__ is int:
                for k, v in xs.cells.items():
                    if s[2] <= k < s[2] + n:
                        c[k - s[2] + d[2]] = v
                if xs.dflt == "S" and xd.kind == "stack" and d[2] == 0 and xd.size == n and s[1][0] in ("A", "S", "G"):
                    # whole-object snapshot: materialise the fields
                    for off, ty in self.fields_of(s[1], n):
                        k = off + d[2]
                        if k not in c:
                            c[k] = self.load(st, ("P", s[1], s[2] + off), 8, ty, I)
                if xs.dflt == "Z" and d[2] == 0 and xd.size == n:
                    dflt = "Z"
                elif xs.dflt != "U":
                    dflt = "T" if dflt in ("U", "Z") else dflt
            else:
                dflt = "T" if dflt in ("U", "Z") else dflt
            ver = ("cp", self.ctx, I[1])
            st.mem[d[1]] = xd.but(cells=c, dflt=dflt, ver=ver if dflt == "S" else xd.ver)
        else:
            self.havoc(st, d[1], xd, ("cp", self.ctx, I[1]))

    def fields_of(self, o, n):
        """(offset, irtype) of the scalar fields of the struct an argument points to"""
        if o[0] == "A":
            f = self.m.funcs[self.root]
            t = param_type(f, o[1])
            t = self.m.pointee(t) if t is not None else None
            ms = self.m.struct_fields(t) if t is not None else None
            if ms:
                return flat_fields(self.m, ms)
        return []

    def memset(self, f, st, I, args):
        d, c, n = args[0], args[1], args[2]
        if n == 0:
            return
        xd = self.check_ptr(st, d, I, "destination of memory fill", True)
        if xd is None:
            return
        if self.bounds is not None and is_lin(n):
            self.bounds.access(self, st, d, xd, n, I, True)
        self.note_write(st, d[1], d[2] if n.__class__ is int else "*", I)
        if d[2] == 0 and c == 0 and xd.size is not None and n == xd.size:
            st.mem[d[1]] = xd.but(cells={}, dflt="Z" if xd.kind in ("stack", "heap") else "T", ver=("ms", self.ctx, I[1]))
        else:
            self.havoc(st, d[1], xd, ("ms", self.ctx, I[1]))

    # ---- roots -----------------------------------------------------------------
    def make_root(self, f, assume_nonnull, fixed=None):
        st = State()
        args = []
        for i, p in enumerate(f.params):
            ty = p["ty"]
            if fixed and i in fixed:
                args.append(fixed[i])
                continue
            if ty == "ptr":
                if p.get("sret") or "byval" in p:
                    o = ("L", 0, -1 - i, "sret")
                    st.mem[o] = Obj("stack", "live", "U" if p.get("sret") else "S", 0, None, {}, None, None)
                    args.append(("P", o, 0))
                    continue
                o = ("A", i)
                st.mem[o] = Obj("arg", "live", "S", 0, None, {}, None, None)
                args.append(("P", o, 0))
            elif ty[0] == "i":
                args.append(lin_sym(("arg", i), 0 if ty == "i64" else None))
            elif ty in ("double", "float"):
                args.append(("F", sym(("arg", i))))
            else:
                args.append(TOP)
        return args, st

    def analyze(self, name, assume_nonnull=False, fixed=None, setup=None):
        f = self.m.funcs[name]
        self.root = name
        self.assume_nonnull = assume_nonnull
        args, st = self.make_root(f, assume_nonnull, fixed)
        if self.bounds is not None:
            self.bounds.root_setup(self, f, args, st)
        if setup is not None:
            setup(self, f, args, st)
        self.ctx = 0
        self.stack = []
        ctx = self.new_ctx(0, ("root", name))
        res = self.run(f, args, st, ctx)
        self.settle()
        return f, args, res


def constmath(name, a):
    import math
    try:
        if "fmuladd" in name:
            return a[0] * a[1] + a[2]
        if "round" in name:
            return float(math.floor(abs(a[0]) + 0.5)) * (1 if a[0] >= 0 else -1)
        if "floor" in name:
            return float(math.floor(a[0]))
        if "ceil" in name:
            return float(math.ceil(a[0]))
        if "fabs" in name:
            return abs(a[0])
        if name == "log2":
            return math.log2(a[0])
        if name == "sqrt":
            return math.sqrt(a[0])
        if name == "pow":
            return math.pow(a[0], a[1])
        if name == "exp":
            return math.exp(a[0])
    except Exception:
        pass
    return TOPF


def flat_fields(m, members, base=0):
    out = []
    for nm, off, t in members:
        s = m.strip(t)
        if s is None or s < 0:
            continue
        ty = m.types[s]
        if ty["tag"] == "DW_TAG_structure_type":
            out += flat_fields(m, ty["members"], base + off)
        elif ty["tag"] == "DW_TAG_array_type":
            bs = m.strip(ty.get("base", -1))
            es = m.types[bs]["size"] or 8
            for k in range(ty["size"] // es if es else 0):
                out.append((base + off + k * es, irty(m, bs)))
        else:
            out.append((base + off, irty(m, s)))
    return out


def irty(m, s):
    ty = m.types[s]
    if ty["tag"] == "DW_TAG_pointer_type":
        return "ptr"
    if ty["tag"] == "DW_TAG_enumeration_type":
        return "i32"
    if ty["tag"] == "DW_TAG_base_type":
        if ty.get("enc") == 4:
            return "double"
        return "i%d" % (ty["size"] * 8)
    return "i64"


def flt(s):
    try:
        return float(s)
    except ValueError:
        t = s.lower().replace("+", "")
        if "nan" in t:
            return float("nan")
        if "inf" in t:
            return float("-inf") if "-" in t else float("inf")
        return float("nan")


def short(p):
    best = -1
    for k in ("src/", "include/", "matlab/"):
        i = p.find("/" + k)
        while i >= 0:
            rest = p[i + 1:]
            if k == "src/" and rest.startswith("src/src/"):
                i = p.find("/" + k, i + 1)
                continue
            if best < 0 or i < best:
                best = i
            break
    return p[best + 1:] if best >= 0 else p


def param_name(f, i):
    n = f.params[i]["name"]
    return n.split(".coerce")[0] if n else "arg%d" % i


def param_type(f, i):
    n = param_name(f, i)
    for no, nm, t in f.dparams:
        if nm == n:
            return t
    return None


def describe(an, s):
    k = SYMS[s]
    if k[0] == "ld":
        o = k[1]
        return "loaded from %s" % (an.oname(o) if o[0] in ("A", "G") else "memory")
    return str(k[0])


def short_sym(s):
    k = SYMS[s]
    if k[0] in ("ld", "tp", "t"):
        return str(k[:1] + tuple(x for x in k[1:] if x.__class__ is not tuple or x[0] in ("A", "G")))
    return str(k[0])
