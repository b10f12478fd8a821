"""What the help texts (matlab/mex_*.m) promise about the inputs and outputs of the MATLAB commands."""
import tables

SCALAR = 18.0


class Row:
    def __init__(self, string, follow=(), opts=None, fixed=None, **other):
        self.string, self.follow, self.opts, self.fixed, self.other = string, tuple(follow), opts or {}, fixed, other
        self.parts, self.at = (self,), 0       # at: which optional value (from the first optional input on) the value is

    def quiet(self):
        return any(r.string == "quiet" for r in self.parts)


def both(a, b):
    """the two optional inputs a and b, in this order; None when they speak about the same thing"""
    if set(a.opts) & set(b.opts) or set(a.other) & set(b.other) - {"skip", "nlhs"}:
        return None
    if (a.other.get("guesses") or b.other.get("guesses")) and "points_per_spine" in set(a.opts) | set(b.opts):
        return None
    n = 1 + len(a.follow)
    r = Row(a.string + "', '" + b.string, a.follow + b.follow, dict(a.opts), a.fixed or b.fixed, **dict(b.other))
    r.opts.update({k: (v[0], v[1], n) if v.__class__ is tuple else v for k, v in b.opts.items()})
    r.other.update(a.other)
    r.other["skip"] = a.other.get("skip", set()) | b.other.get("skip", set())
    if a.other.get("nlhs") and b.other.get("nlhs"):
        r.other["nlhs"] = tuple(set(a.other["nlhs"]) & set(b.other["nlhs"]))
    r.parts = (a, b)
    r.at = n if b.other.get("guesses") or b.other.get("seed") else 0
    return r


def pairs(rs):
    """all pairs; of the discretizations the last one stands for the others"""
    d = [r for r in rs if r.string.startswith("discr_")]
    rs = [r for r in rs if r not in d[:-1]]
    return [x for a in rs for b in rs if a is not b for x in [both(a, b)] if x]


class Command:
    def __init__(self, root, fixed, nlhs, results, options=True):
        self.root, self.fixed, self.nlhs, self.results, self.options = root, fixed, nlhs, results, options


COMMANDS = {
    "fnft_nsev": Command("fnft_nsev", ["complex", "pair", "pair", -1], (0, 1, 2, 3),
                         {"K_ptr": "count", "contspec": "data", "bound_states": "data", "normconsts_or_residues": "data"}),
    "fnft_kdvv": Command("fnft_kdvv", ["real", "pair", "pair"], (0, 1, 2, 3),
                         {"K_ptr": "count", "contspec": "data", "bound_states": "data", "normconsts_or_residues": "data"}),
    "fnft_manakovv": Command("fnft_manakovv", ["complex", "complex", "pair", "pair", -1], (0, 1, 2),
                             {"K_ptr": "count", "contspec": "data", "bound_states": "data"}),
    "fnft_nsep": Command("fnft_nsep", ["complex", "pair", -1], (0, 1, 2),
                         {"K_ptr": "count", "M_ptr": "count", "main_spec": "data", "aux_spec": "data"}),
    "fnft_nsev_inverse": Command("fnft_nsev_inverse", ["complex", "pair", "complex", "complex", 8, "pair", -1], (1,), {"q": "data"}),
    "fnft_nsev_inverse_XI": Command("fnft_nsev_inverse_XI", [8, "pair", 16], (1,), {}, options=None),
}

FAST = "1A 1B 2A 2B 2S 3A 3B 3S 4A 4B 5A 5B 6A 6B 7A 7B 8A 8B"
AKNS = ["modal"] + ["2split" + x for x in FAST.split()] + ["4split4A", "4split4B", "BO", "CF4_2", "CF4_3", "CF5_3", "CF6_4", "ES4", "TES4"]
MANAKOV = "2split3A 2split3B 2split4A 2split4B 2split6B 4split4A 4split4B 4split6B FTES4_4A FTES4_4B FTES4_suzuki BO CF4_2".split()


def disc(fam, names, **kw):
    return [Row("discr_" + n, opts={"discretization": "fnft_%s_discretization_%s" % (
        fam, "2SPLIT2_MODAL" if n == "modal" else n.replace("split", "SPLIT"))}, **kw) for n in names]


BOX = {"bounding_box[%d]" % i: ("element", i) for i in range(4)}


def rows(cmd):
    p = cmd + "_"
    if cmd in ("fnft_nsev", "fnft_kdvv"):
        r = [Row("M", ["scalar"], M=int(SCALAR)),
             Row("bsloc_newton", ["guesses"], {"bound_state_localization": p + "bsloc_NEWTON"}, guesses=True),
             Row("bsloc_niter", ["scalar"], {"niter": int(SCALAR)}),
             Row("RE", opts={"richardson_extrapolation_flag": 1}),
             Row("dstype_residues", opts={"discspec_type": p + "dstype_RESIDUES"}),
             Row("cstype_ab", opts={"contspec_type": p + "cstype_AB"}, mult=2),
             Row("skip_cs", skip={"contspec"}),
             Row("skip_bs", skip={"bound_states", "normconsts_or_residues"}),
             Row("skip_nc", skip={"normconsts_or_residues"}),
             Row("skip_normalization", opts={"normalization_flag": 0}),
             Row("quiet")]
        if cmd == "fnft_nsev":
            r += [Row("bsloc_fasteigen", opts={"bound_state_localization": p + "bsloc_FAST_EIGENVALUE"}),
                  Row("bsloc_subsamp_refine", opts={"bound_state_localization": p + "bsloc_SUBSAMPLE_AND_REFINE"}),
                  Row("bsloc_tol", ["scalar"], {"tol": SCALAR}),
                  Row("bsloc_Dsub", ["scalar"], {"Dsub": int(SCALAR)}),
                  Row("bsfilt_none", opts={"bound_state_filtering": p + "bsfilt_NONE"}),
                  Row("bsfilt_basic", opts={"bound_state_filtering": p + "bsfilt_BASIC"}),
                  Row("bsfilt_full", opts={"bound_state_filtering": p + "bsfilt_FULL"}),
                  Row("bsfilt_manual", ["box"], dict(BOX, bound_state_filtering=p + "bsfilt_MANUAL"))]
            return r + disc("nse", AKNS)
        r += [Row("bsloc_gridsearch_refine", opts={"bound_state_localization": p + "bsloc_GRIDSEARCH_AND_REFINE"}),
              Row("grid_spacing", ["scalar"], {"grid_spacing": SCALAR})]
        return r + disc("kdv", AKNS)
    if cmd == "fnft_manakovv":
        return [Row("M", ["scalar"], M=int(SCALAR)),
                Row("RE", opts={"richardson_extrapolation_flag": 1}),
                Row("cstype_ab", opts={"contspec_type": p + "cstype_AB"}, mult=3),
                Row("cstype_both", opts={"contspec_type": p + "cstype_BOTH"}, mult=5),
                Row("skip_bs", skip={"bound_states"}),
                Row("skip_contspec", skip={"contspec"}),
                Row("quiet")] + disc("manakov", MANAKOV[:-2]) + disc("manakov", MANAKOV[-2:], nlhs=(0, 1))
    if cmd == "fnft_nsep":
        return [Row("loc_subsample_and_refine", opts={"localization": p + "loc_SUBSAMPLE_AND_REFINE"}),
                Row("loc_gridsearch", opts={"localization": p + "loc_GRIDSEARCH"}),
                Row("loc_mixed", opts={"localization": p + "loc_MIXED"}),
                Row("loc_newton", ["guesses", "guesses"], {"localization": p + "loc_NEWTON", "discretization": "fnft_nse_discretization_BO"}, guesses=True),
                Row("loc_max_evals", ["scalar"], {"max_evals": int(SCALAR)}),
                Row("loc_Dsub", ["scalar"], {"Dsub": int(SCALAR)}),
                Row("filt_none", opts={"filtering": p + "filt_NONE"}),
                Row("filt_manual", ["box"], dict(BOX, filtering=p + "filt_MANUAL")),
                Row("points_per_spine", ["scalar"], {"points_per_spine": int(SCALAR)}),
                Row("phase_shift", ["scalar"], phase=SCALAR),
                Row("skip_normalization", opts={"normalization_flag": 0}),
                Row("quiet")] + disc("nse", ["modal", "2split2A", "2split4A", "2split4B", "4split4B"])
    if cmd == "fnft_nsev_inverse":
        e = ["empty", "pair", "complex", "complex", 8, "pair", -1]
        return [Row("cstype_reflection_coefficient", opts={"contspec_type": p + "cstype_REFLECTION_COEFFICIENT"}),
                Row("cstype_b_of_xi", opts={"contspec_type": p + "cstype_B_OF_XI"}),
                Row("cstype_B_of_tau", opts={"contspec_type": p + "cstype_B_OF_TAU"}),
                Row("dstype_residues", opts={"discspec_type": p + "dstype_RESIDUES"}),
                Row("csmethod_tfmatrix_contains_refl_coeff", opts={"contspec_inversion_method": p + "csmethod_TFMATRIX_CONTAINS_REFL_COEFF"}),
                Row("csmethod_tfmatrix_contains_ab_from_iter", opts={"contspec_inversion_method": p + "csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER"}),
                Row("csmethod_use_seed_potential_instead", ["samples"], {"contspec_inversion_method": p + "csmethod_USE_SEED_POTENTIAL_INSTEAD"}, fixed=e, seed=True),
                Row("oversampling_factor", ["scalar"], {"oversampling_factor": int(SCALAR)}),
                Row("discr_modal", opts={"discretization": "fnft_nse_discretization_2SPLIT2_MODAL"}),
                Row("quiet")]
    return []


C = 16    # bytes of a complex number


def expect(cmd, row, nlhs, D, NG, NEWK, enum, base, suffixes):
    """arguments, options and outputs of a call with one optional input"""
    nf = len(COMMANDS[cmd].fixed)
    opts = {}
    for k, v in row.opts.items():
        opts[k] = enum(v) if v.__class__ is str else ("ld", ("X", "in", nf + 1 + (v[2] if len(v) > 2 else 0), "re"), 8 * v[1]) if v.__class__ is tuple else v
    o = row.other
    want, outs = {}, []
    skip = o.get("skip", set())
    guesses = o.get("guesses")
    default = {n: v for n, v in base.values()}
    degree = 0
    if cmd in ("fnft_nsev", "fnft_manakovv"):
        fam = "nse" if cmd == "fnft_nsev" else "manakov"
        d = opts.get("discretization", default["discretization"])
        inv = {enum("fnft_%s_discretization_%s" % (fam, s)): s for s in suffixes[fam]}
        degree = tables.expected(fam, inv[d])[1]
    if cmd in ("fnft_nsev", "fnft_kdvv", "fnft_manakovv"):
        two = cmd == "fnft_manakovv"
        M = o.get("M", D)
        mult = o.get("mult", 2 if two else 1)
        if nlhs < 2:
            skip = skip | {"bound_states"}
        if nlhs < 3 or "bound_states" in skip:
            skip = skip | {"normconsts_or_residues"}
        q = ("complex" if cmd != "fnft_kdvv" else "real")
        if two:
            want.update(q1=("buffer", C * D, (q, 0, D)), q2=("buffer", C * D, (q, 1, D)), T=("input", 2), XI=("input", 3), kappa=-1)
        else:
            want.update(q=("buffer", C * D, (q, 0, D)), T=("input", 1), XI=("input", 2))
            if cmd == "fnft_nsev":
                want["kappa"] = -1
        want.update(D=D, M=M)
        want["contspec"] = "null" if "contspec" in skip else ("buffer", C * mult * M)
        if "bound_states" in skip:
            if not guesses:
                want["bound_states"] = "null"
        elif guesses:
            want["bound_states"] = ("buffer", C * NG, ("complex", nf + 1 + row.at, NG))
            want["K_ptr"] = ("value", NG)
        else:
            want["bound_states"] = ("announced", "K_ptr", degree * D if degree else 1)
        want["normconsts_or_residues"] = "null" if "normconsts_or_residues" in skip or two else ("announced", "K_ptr", None)
        outs = [None if "contspec" in skip else ("contspec", mult * M),
                None if "bound_states" in skip else ("bound_states", NEWK),
                None if "normconsts_or_residues" in skip else ("normconsts_or_residues", NEWK)]
        if two:
            outs = outs[:2]
    elif cmd == "fnft_nsep":
        want.update(D=D, q=("buffer", C * D, ("complex", 0, D)), T=("input", 1), phase_shift=o.get("phase", 0.0), kappa=-1)
        if guesses:
            pps = default["points_per_spine"]
            want.update(main_spec=("buffer", C * NG, ("complex", nf + 1 + row.at, NG)), K_ptr=("value", NG // pps),
                        aux_spec=("buffer", C * NG, ("complex", nf + 2 + row.at, NG)), M_ptr=("value", NG))
        else:
            want.update(main_spec=("announced", "K_ptr", None), aux_spec=("announced", "M_ptr", None))
        outs = [("main_spec", NEWK), ("aux_spec", NEWK)]
    elif cmd == "fnft_nsev_inverse":
        want.update(XI=("input", 1), T=("input", 5), D=D, K=D, kappa=-1,
                    bound_states=("buffer", C * D, ("complex", 2, D)), normconsts_or_residues=("buffer", C * D, ("complex", 3, D)))
        if o.get("seed"):
            want.update(M=0, contspec="null", q=("buffer", C * D, ("complex", nf + 1 + row.at, D)))
        else:
            want.update(M=D, contspec=("buffer", C * D, ("complex", 0, D)), q=("buffer", C * D))
        outs = [("q", D)]
    else:
        want.update(D=D, T=("input", 1), M=16, XI=("output", 2), discretization=default["discretization"])
    return want, opts, outs
