"""Flow-insensitive facts about the whole program: call graph and stores through addresses of variables."""


def operands(x):
    """all operand tuples inside an instruction"""
    if isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in ("v", "a", "g", "fn", "c", "n", "f", "u", "x", "agg", "md", "bb", "asm"):
            yield x
            return
        for y in x:
            yield from operands(y)


def calls(f):
    for B in f.blocks:
        for I in B.insts:
            if I[0] == "call":
                yield I


def reachable(m, roots):
    """functions with a body that may run below the roots: direct callees and every function whose address is taken"""
    seen, work = {}, [(r, None) for r in roots]
    while work:
        n, via = work.pop()
        if n in seen:
            continue
        f = m.funcs.get(n)
        if f is None:
            continue
        seen[n] = via
        if f.decl:
            continue
        for B in f.blocks:
            for I in B.insts:
                if I[0] == "call" and isinstance(I[4], str):
                    work.append((I[4], n))
                for o in operands(I[4:]):
                    if o[0] == "fn":
                        work.append((o[1], n))
                    if o[0] == "g":
                        g = m.globals.get(o[1])
                        for e in (g or {}).get("init", ()):
                            if e[2][0] == "fn":
                                work.append((e[2][1], n))
    return seen


def chain(seen, n):
    out = [n]
    while seen.get(n) is not None:
        n = seen[n]
        out.append(n)
    return " < ".join(out)


def stores_to_global(m, name):
    """[(function, instruction, how)] for every instruction that may modify the variable or lets its address escape"""
    out = []
    for f in m.funcs.values():
        if f.decl:
            continue
        if any(o[0] == "g" and o[1] == name for B in f.blocks for I in B.insts for o in operands(I[4:])):
            out += derived_stores(m, f, lambda o: o[0] == "g" and o[1] == name, set())
    return out


def derived_stores(m, f, origin, active):
    derived, cells = set(), set()
    out = []

    def is_d(o):
        return origin(o) or (o[0] == "v" and o[1] in derived)
    changed = True
    while changed:
        changed = False
        for B in f.blocks:
            for I in B.insts:
                op = I[0]
                if op == "store" and is_d(I[7]):
                    if I[4][0] == "v" and I[4][1] in f.allocas and I[4][1] not in cells:
                        cells.add(I[4][1])
                        changed = True
                elif op == "load" and I[6] == "ptr" and I[4][0] == "v" and I[4][1] in cells and I[1] not in derived:
                    derived.add(I[1])
                    changed = True
                elif op == "getelementptr" and is_d(I[4]) and I[1] not in derived:
                    derived.add(I[1])
                    changed = True
                elif op == "call" and isinstance(I[4], str) and I[4].startswith("llvm.threadlocal.address") and is_d(I[5][0]) and I[1] not in derived:
                    derived.add(I[1])
                    changed = True
                elif op in ("phi", "select"):
                    os = [x[1] for x in I[4]] if op == "phi" else I[5:7]
                    if any(is_d(o) for o in os) and I[1] not in derived:
                        derived.add(I[1])
                        changed = True
    for B in f.blocks:
        for I in B.insts:
            op = I[0]
            if op == "store":
                if is_d(I[4]):
                    out.append((f, I, "store"))
                elif is_d(I[7]) and not (I[4][0] == "v" and I[4][1] in f.allocas):
                    out.append((f, I, "address stored in memory"))
            elif op == "ret" and len(I) > 4 and is_d(I[4]):
                out.append((f, I, "address returned"))
            elif op == "ptrtoint" and is_d(I[4]):
                out.append((f, I, "address converted to an integer"))
            elif op == "call":
                for j, o in enumerate(I[5]):
                    if not is_d(o):
                        continue
                    if not isinstance(I[4], str):
                        out.append((f, I, "address passed to an unknown function"))
                        continue
                    if I[4].startswith("llvm.threadlocal.address"):
                        continue
                    if I[4].startswith("llvm.mem"):
                        if j == 0:
                            out.append((f, I, "memory copy"))
                        continue
                    h = m.funcs.get(I[4])
                    if h is None or h.decl:
                        if not (h is not None and I[4] in ("vfprintf", "fprintf", "fputs", "fflush")):
                            out.append((f, I, "address passed to %s" % I[4]))
                        continue
                    k = (h.name, j)
                    if k not in active:
                        active.add(k)
                        out += derived_stores(m, h, lambda o, j=j: o[0] == "a" and o[1] == j, active)
    return out
