"""Interprocedural constant and origin propagation (flow sensitive, one copy of a routine per calling context).

A value is a set of atoms (constants, pointers into abstract objects, names of unknown inputs and expressions of those);
more than LIMIT atoms become unknown.  Branches on conditions that are constant for the configuration at hand are followed on
one side only, so that the calls recorded are those that can happen in this configuration."""
import math

import absint

LIMIT = 10
_limit = LIMIT
TOP = None
NULL = ("P", "NULL", 0)
EMPTY = frozenset()
GIVEUP = object()


def mkset(*a):
    return frozenset(a)


def size(a):
    if a.__class__ is tuple:
        return 1 + sum(size(x) for x in a)
    return 1


def union(a, b):
    if a is TOP or b is TOP:
        return TOP
    if a is b or b <= a:
        return a
    c = a | b
    return c if len(c) <= _limit else TOP


class Obj:
    __slots__ = ("kind", "cells", "zero")

    def __init__(self, kind, cells=None, zero=False):
        self.kind = kind          # stack, heap, arg, global
        self.cells = cells or {}
        self.zero = zero


class Run:
    """one root under one configuration"""

    def __init__(self, m, interest, on_call=None, max_depth=40, symbolic=True, limit=LIMIT):
        global _limit
        _limit = limit
        self.symbolic = symbolic
        self.m = m
        self.interest = interest
        self.on_call = on_call
        self.memo = {}
        self.stats = dict(functions=set(), contexts=0, calls=0, blocks=0, cut=0)
        self.stack = []
        self.max_depth = max_depth
        self.gave_up = set()
        self.unroll = {}          # routine -> number of blocks that may be visited when it is followed path by path
        self.closure = {}

    # ---- memory: dict object -> cells dict (never modified in place once shared)
    def absent(self, o, off):
        k = o[0]
        if k in ("A", "X"):
            if not self.symbolic:
                return TOP
            return mkset(("ld", o, off))
        if k == "G":
            g = self.m.globals.get(o[1])
            if g is not None and off is not None:
                for x, _, c in g.get("init", ()):
                    if x == off:
                        return self.const(c)
                if g.get("init") is not None and not g.get("decl"):
                    return mkset(0)
            return TOP
        if k == "Z":
            return mkset(0)
        return EMPTY

    def load(self, mem, p, n):
        if p is TOP:
            return TOP
        r = EMPTY
        for a in p:
            if a.__class__ is not tuple or a[0] != "P":
                return TOP
            if a[1] == "NULL":
                continue
            o, off = a[1], a[2]
            cells = mem.get(o)
            if off is None:
                v = EMPTY
                if cells is not None:
                    for x in cells.values():
                        v = union(v, x)
                v = union(v, self.absent(o, None))
            else:
                v = cells.get(off) if cells is not None else None
                if v is None and not (cells is not None and off in cells):
                    v = self.absent(o, off)
                if cells is not None and "*" in cells:
                    v = union(v, cells["*"])
            r = union(r, v)
            if r is TOP:
                return TOP
        return r

    def store(self, mem, p, v):
        if p is TOP:
            return
        single = len(p) == 1
        for a in p:
            if a.__class__ is not tuple or a[0] != "P" or a[1] == "NULL":
                continue
            o, off = a[1], a[2]
            cells = dict(mem.get(o, ()))
            if off is None:
                cells["*"] = union(cells.get("*", EMPTY), v)
            elif single:
                cells[off] = v
            else:
                old = cells[off] if off in cells else self.absent(o, off)
                cells[off] = union(old, v)
            mem[o] = cells

    def havoc(self, mem, p):
        if p is TOP:
            return
        for a in p:
            if a.__class__ is tuple and a[0] == "P" and a[1] != "NULL":
                mem[a[1]] = {"*": TOP}

    def join(self, a, b):
        """(env, mem) pairs; returns the same object a if b adds nothing"""
        env, mem = a
        e2, m2 = b
        ne = None
        for k, v in e2.items():
            if k not in env:
                if ne is None:
                    ne = dict(env)
                ne[k] = v
            else:
                w = env[k]
                u = union(w, v)
                if u != w:
                    if ne is None:
                        ne = dict(env)
                    ne[k] = u
        nm = None
        for o, c in m2.items():
            d = mem.get(o)
            if d is c:
                continue
            if d is None:
                if o[0] in ("A", "G", "Z", "X"):
                    d = {}
                else:
                    if nm is None:
                        nm = dict(mem)
                    nm[o] = c
                    continue
            nc = None
            for off in set(c) | set(d):
                if off == "*":
                    x, y = d.get(off, EMPTY), c.get(off, EMPTY)
                else:
                    x = d[off] if off in d else self.absent(o, off)
                    y = c[off] if off in c else self.absent(o, off)
                u = union(x, y)
                if off not in d or u != d[off]:
                    if nc is None:
                        nc = dict(d)
                    nc[off] = u
            if nc is not None:
                if nm is None:
                    nm = dict(mem)
                nm[o] = nc
        for o, d in mem.items():
            if o not in m2 and o[0] in ("A", "G", "Z", "X"):
                nc = None
                for off, x in d.items():
                    if off == "*":
                        continue
                    u = union(x, self.absent(o, off))
                    if u != x:
                        if nc is None:
                            nc = dict(d)
                        nc[off] = u
                if nc is not None:
                    if nm is None:
                        nm = dict(mem)
                    nm[o] = nc
        if ne is None and nm is None:
            return a
        return (ne if ne is not None else env, nm if nm is not None else mem)

    # ---- values
    def const(self, o):
        k = o[0]
        if k == "c":
            return mkset(o[1])
        if k == "f":
            try:
                return mkset(float(o[1]))
            except ValueError:
                return TOP
        if k == "n":
            return mkset(NULL)
        if k == "g":
            return mkset(("P", ("G", o[1]), o[2]))
        if k == "fn":
            return mkset(("FN", o[1]))
        if k == "u":
            return EMPTY
        return TOP

    def asfloat(self, v):
        return frozenset(map(float, v)) if all(x.__class__ is int for x in v) else TOP

    def val(self, fr, o):
        k = o[0]
        if k == "v":
            if o[1] in fr.allocas:
                return mkset(("P", ("L", fr.ctx, o[1]), 0))
            return fr.env.get(o[1], EMPTY)
        if k == "a":
            return fr.args[o[1]]
        return self.const(o)

    def op2(self, op, a, b, wrap=None):
        if a is TOP or b is TOP:
            return TOP
        if len(a) * len(b) > 64:
            return TOP
        r = set()
        for x in a:
            for y in b:
                v = self.bin(op, x, y)
                if v is TOP:
                    return TOP
                r.add(v)
        return frozenset(r) if len(r) <= _limit else TOP

    def bin(self, op, x, y):
        nx, ny = x.__class__ in (int, float), y.__class__ in (int, float)
        try:
            if nx and ny:
                if op in ("add", "fadd"):
                    return x + y
                if op in ("sub", "fsub"):
                    return x - y
                if op in ("mul", "fmul"):
                    return x * y
                if op in ("udiv", "sdiv"):
                    return int(abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1)
                if op == "fdiv":
                    return x / y
                if op in ("urem", "srem"):
                    return int(math.fmod(x, y))
                if op == "and":
                    return x & y
                if op == "or":
                    return x | y
                if op == "xor":
                    return x ^ y
                if op == "shl":
                    return x << y
                if op in ("lshr", "ashr"):
                    return x >> y
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            return TOP
        if not self.symbolic:
            return TOP
        if x.__class__ is tuple and x[0] == "P" or y.__class__ is tuple and y[0] == "P":
            return TOP
        if ny and y == 0 and op in ("add", "sub", "fadd", "fsub"):
            return x
        if nx and x == 0 and op in ("add", "fadd"):
            return y
        if ny and y == 1 and op in ("mul", "fmul", "udiv", "sdiv", "fdiv"):
            return x
        if nx and x == 1 and op in ("mul", "fmul"):
            return y
        if op in ("add", "mul", "fadd", "fmul", "and", "or", "xor") and repr(y) < repr(x):
            x, y = y, x
        e = ("e", op, x, y)
        return e if size(e) <= 60 else TOP

    def cmp(self, pred, a, b):
        if a is TOP or b is TOP:
            return mkset(0, 1)
        r = set()
        for x in a:
            for y in b:
                r |= self.cmp1(pred, x, y, len(a) == 1 and len(b) == 1)
                if len(r) == 2:
                    return mkset(0, 1)
        return frozenset(r)

    def cmp1(self, pred, x, y, single):
        p = pred[1:] if pred[0] in "us" and len(pred) == 3 else pred
        if x.__class__ is tuple and x[0] == "P" and y.__class__ is tuple and y[0] == "P":
            if x[1] == "NULL" and y[1] == "NULL":
                eq = True
            elif x[1] == "NULL" or y[1] == "NULL" or x[1] != y[1] and x[1][0] != "X" and y[1][0] != "X":
                eq = False
            else:
                return {0, 1}
            return {int(eq)} if p == "eq" else {int(not eq)} if p == "ne" else {0, 1}
        if x.__class__ in (int, float) and y.__class__ in (int, float):
            if p[0] in "ou" and len(p) == 3:
                p = p[1:]
            u = pred[0] == "u" and x.__class__ is int
            if u:
                x, y = x & (2**64 - 1), y & (2**64 - 1)
            f = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}.get(p)
            return {0, 1} if f is None else {int(f)}
        return {0, 1}

    # ---- functions
    def tiny(self, g):
        """small helper without calls into the library: worth following for its value"""
        return g.ninsts <= 60 and all(self.m.funcs.get(c) is None or self.m.funcs[c].decl for c in g.callees)

    def interesting(self, g):
        r = self.closure.get(g.name)
        if r is None:
            self.closure[g.name] = False
            todo, seen = [g], {g.name}
            r = False
            while todo:
                h = todo.pop()
                if self.interest(h):
                    r = True
                    break
                if h.decl:
                    continue
                for c in h.callees:
                    if c not in seen and c in self.m.funcs:
                        seen.add(c)
                        todo.append(self.m.funcs[c])
            self.closure[g.name] = r
        return r

    def reach(self, mem, args):
        seen, todo = set(), []
        def addv(v):
            if v is TOP:
                return
            for a in v:
                if a.__class__ is tuple and a[0] == "P" and a[1] != "NULL" and a[1] not in seen:
                    seen.add(a[1])
                    todo.append(a[1])
        for a in args:
            addv(a)
        while todo:
            o = todo.pop()
            for v in mem.get(o, {}).values():
                addv(v)
        return seen

    def run(self, g, args, mem, ctx):
        """returns (value, mem) or None if the call cannot return"""
        if len(self.stack) > self.max_depth:
            self.stats["cut"] += 1
            return TOP, mem
        self.stats["functions"].add(g.name)
        self.stats["contexts"] += 1
        self.stack.append((g, ctx))
        if self.leaf(g) or g.name in self.unroll:
            r = self.paths(g, args, mem, ctx)
            if r is not GIVEUP:
                self.stack.pop()
                return r
        states = {0: ({}, mem)}
        work = [0]
        ret = None
        loc = set()
        pops = 0
        while work:
            i = min(work)
            work.remove(i)
            pops += 1
            if pops > 20000:
                break
            B = g.blocks[i]
            self.stats["blocks"] += 1
            for s, st in self.block(g, args, ctx, B, states[i], loc):
                if s is None:
                    v, mm = st
                    if ret is None:
                        ret = (v, mm)
                    else:
                        e, mj = self.join(({0: ret[0]}, ret[1]), ({0: v}, mm))
                        ret = (e[0], mj)
                    continue
                old = states.get(s)
                if old is None:
                    states[s] = st
                    if s not in work:
                        work.append(s)
                else:
                    n = self.join(old, st)
                    if n is not old:
                        states[s] = n
                        if s not in work:
                            work.append(s)
        self.stack.pop()
        if ret is None:
            return None
        v, mm = ret
        drop = [o for o in mm if o[0] == "L" and o[1] == ctx]
        if drop:
            mm = dict(mm)
            for o in drop:
                del mm[o]
        return v, mm

    def leaf(self, g):
        return g.ninsts <= 250 and all(self.m.funcs.get(c) is None or self.m.funcs[c].decl for c in g.callees)

    def paths(self, g, args, mem, ctx):
        """path by path (loops over tables are followed step by step); GIVEUP if there are too many paths"""
        ret = None
        work = [(0, ({}, mem))]
        steps, ends = 0, 0
        while work:
            i, st = work.pop()
            steps += 1
            if steps > self.unroll.get(g.name, 3000) or len(work) > 32 + self.unroll.get(g.name, 0) or ends > 32 + self.unroll.get(g.name, 0):
                self.gave_up.add(g.name)
                return GIVEUP
            for s, t in self.block(g, args, ctx, g.blocks[i], st, set()):
                if s is not None:
                    work.append((s, t))
                    continue
                ends += 1
                v, mm = t
                if ret is None:
                    ret = (v, mm)
                else:
                    e, mj = self.join(({0: ret[0]}, ret[1]), ({0: v}, mm))
                    ret = (e[0], mj)
        if ret is None:
            return None
        v, mm = ret
        return v, {o: c for o, c in mm.items() if not (o[0] == "L" and o[1] == ctx)}

    class Frame:
        __slots__ = ("env", "args", "allocas", "ctx")

    def block(self, g, args, ctx, B, st, loc):
        env, mem = dict(st[0]), dict(st[1])
        fr = self.Frame()
        fr.env, fr.args, fr.allocas, fr.ctx = env, args, g.allocas, ctx
        val = self.val
        src = {}         # ssa value -> cell it was loaded from in this block
        cond = {}        # ssa value -> (pred, ssa value, constant atom)
        out = []

        def edge(s, refine=None):
            e, mm = env, mem
            if refine is not None:
                e, mm = dict(env), dict(mem)
                for (cell, sid), vals in refine:
                    if cell is not None:
                        c = dict(mm.get(cell[0], ()))
                        c[cell[1]] = vals
                        mm[cell[0]] = c
                    e[sid] = vals
            T = g.blocks[s]
            n = {k: v for k, v in e.items() if k in g.xb}
            for I in T.insts:
                if I[0] != "phi":
                    break
                for pb, o in I[4]:
                    if pb == B.idx:
                        fr.env = e
                        n[I[1]] = val(fr, o)
                        fr.env = env
                        break
            out.append((s, (n, mm)))

        def narrowed(sid, pred, k, truth):
            """values of sid on the edge on which (sid pred k) is truth; EMPTY if infeasible"""
            v = env.get(sid, EMPTY)
            eq = (pred == "eq") == truth
            if pred not in ("eq", "ne"):
                if v is TOP or k.__class__ is not int or not all(a.__class__ is int for a in v):
                    return None
                return frozenset(a for a in v if int(truth) in self.cmp1(pred, a, k, True))
            if eq:
                if v is TOP or k in v or any(a.__class__ is tuple and a[0] != "P" for a in v):
                    return mkset(k)
                return EMPTY if k.__class__ is int or k == NULL else None
            if v is TOP:
                return None
            w = v - {k}
            return w

        for I in B.insts:
            op = I[0]
            if op == "phi":
                continue
            if op == "alloca":
                o = ("L", ctx, I[1])
                env[I[1]] = mkset(("P", o, 0))
                if o not in loc:
                    loc.add(o)
                mem[o] = {}
            elif op == "load":
                p = val(fr, I[4])
                v = self.load(mem, p, I[5])
                if v is not TOP and 0 in v and I[6] == "ptr":
                    v = v - {0} | {NULL}
                env[I[1]] = v
                if p is not TOP and len(p) == 1:
                    a = next(iter(p))
                    if a.__class__ is tuple and a[0] == "P" and a[1] != "NULL" and a[2] is not None:
                        src[I[1]] = (a[1], a[2])
            elif op == "store":
                p = val(fr, I[4])
                self.store(mem, p, val(fr, I[7]))
                src = {k: c for k, c in src.items() if p is not TOP and all(a.__class__ is tuple and a[0] == "P" and a[1] != c[0] for a in p)}
            elif op == "getelementptr":
                b = val(fr, I[4])
                if b is TOP:
                    env[I[1]] = TOP
                else:
                    off = mkset(I[5])
                    for o, sc in I[6]:
                        off = self.op2("add", off, self.op2("mul", val(fr, o), mkset(sc)))
                    if I[7] and I[7] <= 8 and (off is TOP or any(x.__class__ is not int for x in off)):
                        off = frozenset(I[5] + k * I[6][0][1] for k in range(I[7]))
                    r = set()
                    for a in b:
                        if a.__class__ is not tuple or a[0] != "P":
                            r = None
                            break
                        if off is TOP or a[2] is None:
                            r.add(("P", a[1], None))
                        else:
                            for x in off:
                                r.add(("P", a[1], a[2] + x if x.__class__ is int else None))
                    env[I[1]] = TOP if r is None or len(r) > _limit else frozenset(r)
            elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv"):
                env[I[1]] = self.op2(op, val(fr, I[4]), val(fr, I[5]))
            elif op == "fneg":
                env[I[1]] = self.op2("fsub", mkset(0.0), val(fr, I[4]))
            elif op in ("icmp", "fcmp"):
                a, b = val(fr, I[5]), val(fr, I[6])
                env[I[1]] = self.cmp(I[4], a, b)
                if op == "icmp" and I[5][0] == "v" and b is not TOP and len(b) == 1:
                    cond[I[1]] = (I[4], I[5][1], next(iter(b)))
            elif op in ("sext", "zext", "trunc", "bitcast", "fpext", "fptrunc", "freeze"):
                v = val(fr, I[4])
                if op == "sext" and I[5] == "i1" and v is not TOP:
                    v = frozenset(-x if x.__class__ is int else x for x in v)
                env[I[1]] = v
                if I[4][0] == "v" and I[4][1] in src and op != "trunc":
                    src[I[1]] = src[I[4][1]]
                if I[4][0] == "v" and I[4][1] in cond and op == "zext":
                    cond[I[1]] = cond[I[4][1]]
            elif op in ("sitofp", "uitofp"):
                v = val(fr, I[4])
                env[I[1]] = TOP if v is TOP else frozenset(float(x) if x.__class__ is int else ("e", "i2f", x) for x in v) if self.symbolic else self.asfloat(v)
            elif op in ("fptoui", "fptosi"):
                v = val(fr, I[4])
                if v is not TOP and not self.symbolic and any(x.__class__ is not float for x in v):
                    v = TOP
                if v is not TOP:
                    v = frozenset(int(x) if x.__class__ is float and x == x and abs(x) < 1e18 else ("e", "f2i", x) for x in v)
                env[I[1]] = v
            elif op == "select":
                c = val(fr, I[4])
                if c is not TOP and c == mkset(1):
                    env[I[1]] = val(fr, I[5])
                elif c is not TOP and c == mkset(0):
                    env[I[1]] = val(fr, I[6])
                else:
                    env[I[1]] = union(val(fr, I[5]), val(fr, I[6]))
            elif op == "extractvalue":
                v = val(fr, I[4])
                if v is not TOP and len(v) == 1:
                    a = next(iter(v))
                    env[I[1]] = mkset(a[1][I[5][0]]) if a.__class__ is tuple and a[0] == "AGG" and len(I[5]) == 1 else mkset(("e", "xv", a, tuple(I[5])))
                else:
                    env[I[1]] = TOP
            elif op == "call":
                r = self.call(g, fr, mem, I, ctx)
                if r is None:
                    return out
                env[I[1]], mem2 = r
                mem = mem2
                src = {}
            elif op == "jmp":
                edge(I[4])
                return out
            elif op == "br":
                c = val(fr, I[4])
                k = cond.get(I[4][1]) if I[4][0] == "v" else None
                for truth, s in ((True, I[5]), (False, I[6])):
                    if c is not TOP and int(truth) not in c and c:
                        if all(x.__class__ is int for x in c):
                            continue
                    ref = None
                    if k is not None:
                        n = narrowed(k[1], k[0], k[2], truth)
                        if n is not None:
                            if n == EMPTY and env.get(k[1]) != EMPTY:
                                continue
                            ref = [((src.get(k[1]), k[1]), n)]
                    edge(s, ref)
                return out
            elif op == "switch":
                v = val(fr, I[4])
                sid = I[4][1] if I[4][0] == "v" else None
                opaque = v is TOP or any(x.__class__ is not int for x in v)
                by = {}
                for k, s in I[6]:
                    if opaque or k in v:
                        by.setdefault(s, set()).add(k)
                for s, ks in by.items():
                    edge(s, [((src.get(sid), sid), frozenset(ks) if len(ks) <= _limit else TOP)] if sid is not None else None)
                rest = None if v is TOP else v - {k for k, _ in I[6]}
                if rest is None or rest:
                    edge(I[5], [((src.get(sid), sid), rest)] if sid is not None else None)
                return out
            elif op == "ret":
                out.append((None, (val(fr, I[4]) if len(I) > 4 else EMPTY, mem)))
                return out
            elif op == "unreachable":
                return out
            elif op == "insertvalue":
                env[I[1]] = TOP
            else:
                env[I[1]] = TOP
        return out

    PURE = {"sqrt", "pow", "log2", "log", "exp", "floor", "ceil", "round", "fabs", "sin", "cos", "llvm.fabs.f64", "llvm.fmuladd.f64"}

    def call(self, g, fr, mem, I, ctx):
        name = I[4]
        args = [self.val(fr, a) for a in I[5]]
        self.stats["calls"] += 1
        if not isinstance(name, str):
            v = self.val(fr, name)
            if v is not TOP and len(v) == 1 and next(iter(v))[0] == "FN":
                name = next(iter(v))[1]
            else:
                return TOP, mem
        h = self.m.funcs.get(name)
        site = (g.name, I[1])
        if self.on_call is not None:
            r = self.on_call(self, g, I, name, h, args, mem)
            if r is not None:
                return r
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            self.copy(mem, args)
            return args[0], mem
        if name.startswith("llvm.memset") or name == "memset":
            if args[0] is not TOP and args[1] == mkset(0):
                for a in args[0]:
                    if a.__class__ is tuple and a[0] == "P" and a[1] != "NULL":
                        n = args[2]
                        n = next(iter(n)) if n is not TOP and len(n) == 1 else None
                        c = {}
                        if n.__class__ is int and n <= 512:
                            c = {k: mkset(0) for k in range(0, n, 4)}
                            c.update({k: mkset(0) for k in range(0, n, 8)})
                        mem[a[1]] = c if c else {"*": mkset(0)}
            else:
                self.havoc(mem, args[0])
            return args[0] if args else TOP, mem
        if name.startswith("llvm.") and I[6] == "void":
            return EMPTY, mem
        if name in ("malloc", "calloc", "aligned_alloc") or name == "fftw_malloc":
            o = ("Z" if name == "calloc" else "H", ctx, I[1], name)
            return mkset(("P", o, 0)), mem    # failing requests are the subject of other properties
        if h is None or h.decl:
            if name == "abs" and args[0] is not TOP:
                return frozenset(abs(x) if x.__class__ is int else ("e", "abs", x) for x in args[0]), mem
            if name in ("free", "fftw_free"):
                return EMPTY, mem
            if I[6] == "double" and all(a is not TOP and len(a) == 1 for a in args):
                xs = [next(iter(a)) for a in args]
                if all(x.__class__ in (int, float) for x in xs):
                    c = absint.constmath(name, xs)
                    if c.__class__ is float:
                        return mkset(c), mem
                e = ("e", name) + tuple(xs)
                if self.symbolic and size(e) <= 60:
                    return mkset(e), mem
            for a in args:
                if a is not TOP and any(x.__class__ is tuple and x[0] == "P" for x in a):
                    self.havoc(mem, a)
            if I[6] == "void":
                return EMPTY, mem
            return (mkset(NULL, ("P", ("X",) + site, 0)) if I[6] == "ptr" else TOP), mem
        if any(x[0] is h for x in self.stack) or not (self.interesting(h) or self.tiny(h)):
            for k, a in enumerate(args):
                if a is not TOP and h.params[k]["ty"] == "ptr" and any(x.__class__ is tuple and x[0] == "P" and x[1] != "NULL" for x in a):
                    if not self.const_param(h, k):
                        self.havoc(mem, a)
            if I[6] == "void":
                return EMPTY, mem
            return TOP, mem
        key = (h.name, tuple(args), self.snapshot(mem, args))
        hit = self.memo.get(key)
        if hit is not None:
            v, delta, calls = hit
            mm = dict(mem)
            mm.update(delta)
            return v, mm
        objs = self.reach(mem, args)
        sub = {o: mem[o] for o in mem if o in objs or o[0] == "G"}
        r = self.run(h, args, sub, (ctx, site) if len(str(ctx)) < 4000 else ("deep", site))
        if r is None:
            return None
        v, mm = r
        delta = {o: c for o, c in mm.items() if sub.get(o) is not c}
        self.memo[key] = (v, delta, None)
        mem = dict(mem)
        mem.update(delta)
        return v, mem

    def snapshot(self, mem, args):
        objs = self.reach(mem, args)
        return frozenset((o, frozenset(mem[o].items())) for o in objs if o in mem)

    def const_param(self, g, k):
        t = absint.param_type(g, k)
        p = self.m.pointee(t) if t is not None else None
        return p is not None and self.m.is_const(p)

    def copy(self, mem, args):
        d, s, n = args[0], args[1], args[2]
        if d is TOP or s is TOP:
            self.havoc(mem, d)
            return
        n = next(iter(n)) if n is not TOP and len(n) == 1 else None
        for a in d:
            if a.__class__ is not tuple or a[0] != "P" or a[1] == "NULL":
                continue
            if n.__class__ is not int or n > 512 or a[2] is None:
                mem[a[1]] = {"*": TOP}
                continue
            new = {}
            for b in s:
                if b.__class__ is not tuple or b[0] != "P" or b[1] == "NULL":
                    continue
                if b[2] is None:
                    new = None
                    break
                src = mem.get(b[1], {})
                offs = {x for x in src if x != "*" and b[2] <= x < b[2] + n}
                if b[1][0] == "G":
                    g = self.m.globals.get(b[1][1])
                    offs |= {x for x, _, _ in (g or {}).get("init", ()) if b[2] <= x < b[2] + n}
                elif b[1][0] in ("A", "X", "Z"):
                    offs |= set(range(b[2], b[2] + n, 4))
                for x in offs:
                    v = self.load(mem, mkset(("P", b[1], x)), 8)
                    k = a[2] + x - b[2]
                    new[k] = union(new[k], v) if k in new else v
                if "*" in src:
                    new["*"] = union(new.get("*", EMPTY), src["*"])
            if new is None:
                mem[a[1]] = {"*": TOP}
                continue
            cells = dict(mem.get(a[1], ()))
            cells.update(new)
            mem[a[1]] = cells

    def analyze(self, name, args, mem=None):
        g = self.m.funcs[name]
        full = []
        for k, p in enumerate(g.params):
            if k in args:
                full.append(args[k])
            elif p["ty"] == "ptr":
                full.append(mkset(NULL, ("P", ("A", k), 0)))
            else:
                full.append(mkset(("arg", k)) if self.symbolic else TOP)
        return self.run(g, full, dict(mem or {}), ("root", name))
