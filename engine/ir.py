"""Loads the JSON produced by tool/irdump and prepares per-function facts
(predecessors, loop headers, liveness of local variables, cross-block values)."""
import json


class Block:
    __slots__ = ("idx", "name", "insts", "succs", "preds", "loop", "depth", "is_header",
                 "live_in", "env_in")


class Func:
    __slots__ = ("name", "dname", "file", "line", "internal", "decl", "ret", "memnone", "params",
                 "dparams", "sig", "blocks", "allocas", "escaped", "callees", "module", "xb",
                 "alloca_names", "ninsts")


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.types = d["types"]
        self.enums = d["enums"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.funcs = {}
        for fd in d["functions"]:
            self.funcs[fd["name"]] = self._func(fd)
        self.by_dname = {}
        for f in self.funcs.values():
            if not f.decl:
                self.by_dname.setdefault(f.dname, []).append(f)

    def fname(self, idx):
        return self.files[idx] if 0 <= idx < len(self.files) else "?"

    # ---- types -----------------------------------------------------------
    def strip(self, t):
        """Strip typedefs / qualifiers; return index of the underlying type."""
        while t is not None and t >= 0 and self.types[t]["tag"] in (
                "DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type", "DW_TAG_restrict_type"):
            t = self.types[t].get("base", -1)
        return t

    def is_const(self, t):
        while t is not None and t >= 0:
            tag = self.types[t]["tag"]
            if tag == "DW_TAG_const_type":
                return True
            if tag in ("DW_TAG_typedef", "DW_TAG_volatile_type", "DW_TAG_restrict_type"):
                t = self.types[t].get("base", -1)
                continue
            return False
        return False

    def pointee(self, t):
        s = self.strip(t)
        if s is None or s < 0:
            return None
        if self.types[s]["tag"] == "DW_TAG_pointer_type":
            return self.types[s].get("base", -1)
        return None

    def tname(self, t):
        while t is not None and t >= 0:
            n = self.types[t]["name"]
            if n:
                return n
            t = self.types[t].get("base", -1)
        return "void"

    def tdesc(self, t):
        """readable type"""
        if t is None or t < 0:
            return "void"
        ty = self.types[t]
        if ty["tag"] == "DW_TAG_pointer_type":
            return self.tdesc(ty.get("base", -1)) + "*"
        if ty["tag"] == "DW_TAG_const_type":
            return "const " + self.tdesc(ty.get("base", -1))
        return ty["name"] or self.tdesc(ty.get("base", -1))

    def struct_fields(self, t):
        s = self.strip(t)
        if s is None or s < 0:
            return None
        ty = self.types[s]
        if ty["tag"] == "DW_TAG_structure_type":
            return ty.get("members", [])
        return None

    # ---- functions ---------------------------------------------------------
    def _func(self, fd):
        f = Func()
        f.module = self
        f.name = fd["name"]
        f.dname = fd.get("dname", fd["name"])
        f.file = self.fname(fd.get("file", -1))
        f.line = fd.get("line", 0)
        f.internal = fd["internal"]
        f.decl = fd["decl"]
        f.ret = fd["ret"]
        f.memnone = fd["memnone"]
        f.params = fd["params"]
        f.dparams = fd["dparams"]
        f.sig = fd.get("sig", [])
        f.blocks = []
        f.ninsts = 0
        if f.decl:
            f.callees = set()
            return f
        for i, b in enumerate(fd["blocks"]):
            B = Block()
            B.idx = i
            B.name = b["name"]
            B.insts = b["i"]
            B.loop = b.get("loop", -1)
            B.depth = b.get("depth", 0)
            B.is_header = (B.loop == i)
            B.preds = []
            f.ninsts += len(B.insts)
            t = B.insts[-1]
            if t[0] == "jmp":
                B.succs = [t[4]]
            elif t[0] == "br":
                B.succs = [t[5], t[6]]
            elif t[0] == "switch":
                B.succs = [t[5]] + [c[1] for c in t[6]]
            else:
                B.succs = []
            f.blocks.append(B)
        for B in f.blocks:
            for s in set(B.succs):
                f.blocks[s].preds.append(B.idx)
        self._prep(f)
        return f

    def _prep(self, f):
        # allocas and which of them escape (are used other than directly by load/store)
        f.allocas = {}
        f.callees = set()
        defblk = {}
        usesx = {}
        for B in f.blocks:
            for I in B.insts:
                defblk[I[1]] = B.idx
                if I[0] == "alloca":
                    f.allocas[I[1]] = I
                if I[0] == "call" and isinstance(I[4], str):
                    f.callees.add(I[4])
        f.escaped = set()

        def vals(o, out):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == "v" and isinstance(o[1], int):
                    out.append(o[1])
                else:
                    for x in o:
                        vals(x, out)

        f.xb = set()
        blk_use, blk_def, env_use, env_def = [], [], [], []
        phi_use = {}
        for B in f.blocks:
            u, d, eu, ed = set(), set(), set(), set()
            for I in B.insts:
                op = I[0]
                vs = []
                if op == "phi":
                    for pb, o in I[4]:
                        ps = []
                        vals(o, ps)
                        for p in ps:
                            phi_use.setdefault(pb, set()).add(p)
                            if defblk.get(p) is not None:
                                f.xb.add(p)
                    ed.add(I[1])
                    continue
                if op == "load":
                    p = I[4]
                    if p[0] == "v" and p[1] in f.allocas:
                        if p[1] not in d:
                            u.add(p[1])
                    else:
                        vals(p, vs)
                elif op == "store":
                    p = I[4]
                    if p[0] == "v" and p[1] in f.allocas:
                        d.add(p[1])
                    else:
                        vals(p, vs)
                    vals(I[7], vs)
                    for v in vs:
                        if v in f.allocas:
                            f.escaped.add(v)
                elif op != "alloca":
                    vals(I[4:], vs)
                for v in vs:
                    if v in f.allocas:
                        f.escaped.add(v)
                    elif defblk.get(v) != B.idx:
                        f.xb.add(v)
                    if v not in f.allocas and v not in ed:
                        eu.add(v)
                ed.add(I[1])
            blk_use.append(u)
            blk_def.append(d)
            env_use.append(eu)
            env_def.append(ed)
        n = len(f.blocks)
        live = [set(u) for u in blk_use]
        elive = [set(u) for u in env_use]
        changed = True
        while changed:
            changed = False
            for B in reversed(f.blocks):
                i = B.idx
                o, eo = set(), set(phi_use.get(i, ()))
                for s in B.succs:
                    o |= live[s]
                    eo |= elive[s]
                ni = blk_use[i] | (o - blk_def[i])
                ne = env_use[i] | (eo - env_def[i])
                if ni != live[i] or ne != elive[i]:
                    live[i], elive[i] = ni, ne
                    changed = True
        scal = set(f.allocas) - f.escaped
        for B in f.blocks:
            B.live_in = live[B.idx]
            B.env_in = elive[B.idx]
            B.env_in = B.env_in | {I[1] for I in B.insts if I[0] == "phi"}
        f.escaped = set(f.allocas) - scal
        f.alloca_names = {i: a[4] for i, a in f.allocas.items()}
