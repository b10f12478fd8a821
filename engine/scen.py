"""Entry assumptions for a public routine ("calls in which ..."), applied to the initial abstract state."""
import absint
import scen_table


class Vanished(Exception):
    """the argument or option the assumption is about does not exist any more"""


def param_index(f, name):
    names = scen_table.PARAMS[f.name]
    if name in names and names.index(name) < len(f.params):
        return names.index(name)
    raise Vanished("%s has no argument %s" % (f.name, name))


def field(m, f, i, name):
    """(offset, type) of a member of the structure the i-th argument points to"""
    t = absint.param_type(f, i)
    t = m.pointee(t) if t is not None else None
    s = m.strip(t) if t is not None else None
    if s is None or s < 0:
        raise Vanished("argument %d of %s is not a pointer" % (i, f.dname))
    for nm, off, ft in m.types[s].get("members", ()):
        if nm == name:
            return off, m.types[m.strip(ft)]
    raise Vanished("%s has no member %s" % (m.types[s].get("name") or "options", name))


def enum_values(ty):
    return [v for _, v in ty["members"]]


def assume(an, st, lin, cond):
    """one assumption about an integer value"""
    k = cond[0]
    if k == "in":
        key = lin[2]
        st.facts[key] = frozenset(cond[1])
    elif k == "notin":
        st.facts[lin[2]] = (None, None, frozenset(cond[1]))
    elif k == "range":
        st.facts[lin[2]] = (cond[1], cond[2], absint.NOEX)


def apply(an, f, args, st, spec):
    m = an.m
    for path, cond in spec:
        if "." in path:
            p, fld = path.split(".")
            i = param_index(f, p)
            off, ty = field(m, f, i, fld)
            o = ("A", i)
            if cond[0] == "unknown-enum":
                vs = enum_values(ty)
                cond = ("range", max(vs) + 1, None) if cond[1] > 0 else ("range", None, min(vs) - 1)
            st.facts[("null", o)] = False
            if cond[0] == "float":
                c = dict(st.mem[o].cells)
                c[off] = cond[1]
                st.mem[o] = st.mem[o].but(cells=c)
                continue
            lin = absint.lin_sym(("ld", o, off, 0), 0 if ty.get("size") == 8 else None)
            an.assumed = set(an.assumed) | {lin[2], o}
            assume(an, st, lin, cond)
            continue
        if path.startswith("*"):
            i = param_index(f, path[1:])
            o = ("A", i)
            st.facts[("null", o)] = False
            lin = absint.lin_sym(("ld", o, 0, 0), 0)
            assume(an, st, lin, cond)
            continue
        i = param_index(f, path)
        o = ("A", i)
        if cond[0] == "null":
            st.facts[("null", o)] = True
        elif cond[0] == "nonnull":
            st.facts[("null", o)] = False
        elif cond[0] == "not-increasing":
            # the two-element array: first element not below the second
            st.facts[("null", o)] = False
            if cond[1] is None:
                a, b = ("F", absint.sym(("ld", o, 0, 0))), ("F", absint.sym(("ld", o, 8, 0)))
                st.facts[("f", "oge", a, b)] = True
                st.facts[("f", "ogt", b, a)] = False
            else:
                st.mem[o] = st.mem[o].but(cells={0: cond[1][0], 8: cond[1][1]})
        elif cond[0] == "const":
            args[i] = cond[1]
        else:
            a = args[i]
            if not (a.__class__ is tuple and a[0] == "L"):
                raise Vanished("argument %s of %s is not an integer" % (path, f.dname))
            assume(an, st, a, cond)
