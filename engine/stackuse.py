"""C16: stack use of every function does not depend on the call's arguments."""
import absint
import graph

LIMIT = 65536


def check(m, R, roots):
    seen = graph.reachable(m, roots)
    n = nf = big = 0
    for name in sorted(seen):
        f = m.funcs[name]
        if f.decl:
            continue
        nf += 1
        tot = 0
        for B in f.blocks:
            for I in B.insts:
                if I[0] != "alloca":
                    continue
                n += 1
                w = "%s:%d (%s)" % (absint.short(m.fname(I[3])) if I[3] >= 0 else absint.short(f.file), I[2] or f.line, f.dname)
                cnt = const(f, I[6])
                if cnt is None:
                    if const_elsewhere(f, I[6]):
                        continue
                    R.add("variable-stack-array", "vla|%s|%s" % (f.dname, I[4]), w,
                          "stack array '%s' whose size is computed at run time" % I[4], chain=graph.chain(seen, name))
                    continue
                tot += cnt * I[5]
        big = max(big, tot)
        if tot > LIMIT:
            R.add("large-stack-frame", "frame|%s" % f.dname, "%s:%d (%s)" % (absint.short(f.file), f.line, f.dname),
                  "locals of %d bytes" % tot, chain=graph.chain(seen, name))
    rec = recursion(m, seen, R)
    return dict(functions=nf, stack_objects=n, largest_frame_bytes=big, recursive_functions=len(rec), recursive=sorted(rec))


def const(f, o):
    return o[1] if o[0] == "c" else None


def const_elsewhere(f, o, depth=0):
    """is the count a constant that merely passes through conversions and constant-only arithmetic?"""
    if o[0] == "c":
        return True
    if o[0] != "v" or depth > 6:
        return False
    for B in f.blocks:
        for I in B.insts:
            if I[1] == o[1]:
                if I[0] in ("zext", "sext", "trunc"):
                    return const_elsewhere(f, I[4], depth + 1)
                if I[0] in ("add", "sub", "mul"):
                    return const_elsewhere(f, I[4], depth + 1) and const_elsewhere(f, I[5], depth + 1)
                if I[0] == "load" and I[4][0] == "v" and I[4][1] in f.allocas:
                    st = [J for C in f.blocks for J in C.insts if J[0] == "store" and J[4] == I[4]]
                    return bool(st) and all(J[7][0] == "c" for J in st) and I[4][1] not in f.escaped
                return False
    return False


def recursion(m, seen, R):
    """functions on call-graph cycles"""
    callees = {n: [c for c in m.funcs[n].callees if c in seen and not m.funcs[c].decl] for n in seen if not m.funcs[n].decl}
    out = set()
    for n in callees:
        st, vis = list(callees[n]), set()
        while st:
            x = st.pop()
            if x == n:
                out.add(n)
                break
            if x in vis:
                continue
            vis.add(x)
            st += callees.get(x, ())
    return out
