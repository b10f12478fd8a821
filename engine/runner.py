"""Runs the path-sensitive analysis over the library's entry points (one process per entry point) and returns
plain data: rule events, exits and coverage counters."""
import multiprocessing
import os
import time

import absint
import scen

_mod = None
_deadline = 0


def public_roots(m):
    return sorted(n for n, f in m.funcs.items()
                  if not f.decl and not f.internal and n.startswith("fnft_") and not n.startswith("fnft__"))


COST = ["fnft_nsev", "fnft_kdvv", "fnft_nsep", "fnft_nsev_inverse", "fnft_manakovv"]


def _job(job):
    name, opt = job
    t = time.time()
    an = absint.Analysis(_mod)
    an.deadline = _deadline
    short_of_time = False
    for k, v in opt.items():
        if k == "codes":
            absint.CODES = v
        elif k not in ("assume_nonnull", "fixed", "probe", "scen", "tag"):
            setattr(an, k, v)
    try:
        f, a, res = an.analyze(name, assume_nonnull=opt.get("assume_nonnull", False), fixed=opt.get("fixed"),
                               setup=(lambda *x: scen.apply(*x, opt["scen"])) if opt.get("scen") else None)
    except scen.Vanished as e:
        return dict(name=name, error="assumption lost its subject: %s" % e)
    except absint.Budget:
        short_of_time, res = True, []
    except Exception as e:       # reported as "no answer", never as a pass
        import traceback
        return dict(name=name, error="%r\n%s" % (e, traceback.format_exc()[-800:]))
    exits = []
    for rv, s in res:
        if rv.__class__ is int or (rv.__class__ is tuple and rv[0] == "L"):
            r = an.rng_set(s.facts, rv)
        elif rv is None or rv.__class__ is float:
            r = rv
        else:
            r = "?"
        exits.append(dict(ret=r, raised=s.raised and (absint.short(s.raised[0]),) + tuple(s.raised[1:]),
                          oom=s.oom and (absint.short(s.oom[0]),) + tuple(s.oom[1:]), trace=an.trace_of(s, 40),
                          probe=opt["probe"](an, f, a, rv, s) if opt.get("probe") else None))
    if short_of_time:        # no definite statement about initialisation or exits, but what was reported stands
        an.cand = {}
        f = _mod.funcs[name]
    st = {k: (v if v.__class__ is int else len(v)) for k, v in an.stats.items()}
    st["steps"] = an.steps
    sets = {k: v for k, v in an.stats.items() if k in ("allocs", "frees", "raises", "derefs", "funcs", "vlas")}
    eff = {}
    for (o, off), loc in an.effects.get(name, {}).items():
        eff[(_plain(o), off)] = loc
    return dict(name=name, incomplete=short_of_time, tag=opt.get("tag"), rsites=an.rsites, error=None, exits=exits, events=list(an.events.values()), stats=st, sets=_pl(sets),
                effects=eff, ret=f.ret, seconds=time.time() - t,
                params=[absint.param_name(f, i) for i in range(len(f.params))])


def _plain(o):
    """object identity without process-local symbol numbers"""
    if o.__class__ is tuple and o[0] == "S":
        return ("S", absint.short_sym(o[1]))
    return o


def _pl(x):
    return {k: (sorted(map(str, v)) if not isinstance(v, dict) else {str(a): b for a, b in v.items()}) for k, v in x.items()}


def run(mod, jobs, procs=8, limit=760):
    """jobs: list of (root, options)"""
    global _mod, _deadline
    _mod = mod
    _deadline = time.time() + limit
    jobs = sorted(jobs, key=lambda j: COST.index(j[0]) if j[0] in COST else len(COST))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(jobs), os.cpu_count() or 1), maxtasksperchild=1) as p:
        r = p.map_async(_job, jobs, 1)
        try:
            return r.get(limit + 60)
        except multiprocessing.TimeoutError:
            p.terminate()
            raise
