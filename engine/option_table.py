"""What the documentation promises about single option values and absent outputs, in terms of the library's internal steps.
BASE fixes one valid call per routine; each row changes it and says which steps must and which must not be able to happen."""
G, N = "given", "null"

NEWTON = {"nse": "fnft__nse_scatter_bound_states", "kdv": "fnft__kdv_scatter_bound_states"}
ROOTS_ = "fnft__poly_roots_fasteigen"
FILT = ("fnft__misc_filter",)


def phases(fam):
    p = "fnft__%s_discretization_phase_factor_" % fam
    return p + "rho", p + "a", p + "b"


def contspec(root, fam):
    k = root + "_cstype_"
    rho, a, b = phases(fam)
    return [("contspec_type REFLECTION_COEFFICIENT", {"contspec_type": k + "REFLECTION_COEFFICIENT"}, {}, [rho], [a, b]),
            ("contspec_type AB", {"contspec_type": k + "AB"}, {}, [a, b], [rho]),
            ("contspec_type BOTH", {"contspec_type": k + "BOTH"}, {}, [rho, a, b], []),
            ("contspec not wanted", {}, {"contspec": N}, [], [rho, a, b, "fnft__poly_chirpz"])]


def richardson(root, fam):
    o = "fnft__%s_discretization_method_order" % fam
    return [("no Richardson extrapolation", {"richardson_extrapolation_flag": 0}, {}, [], [o]),
            ("Richardson extrapolation", {"richardson_extrapolation_flag": 1}, {}, [o], [])]


BASE = {
    "fnft_nsev": (dict(discretization="fnft_nse_discretization_2SPLIT4B", bound_state_filtering="fnft_nsev_bsfilt_FULL",
                       bound_state_localization="fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE", discspec_type="fnft_nsev_dstype_BOTH",
                       contspec_type="fnft_nsev_cstype_BOTH", normalization_flag=1, richardson_extrapolation_flag=0, niter=37,
                       tol=0.0625),
                  dict(contspec=G, XI=G, K_ptr=G, bound_states=G, normconsts_or_residues=G, kappa=1, q=G, T=G)),
    "fnft_kdvv": (dict(discretization="fnft_kdv_discretization_2SPLIT4B", bound_state_localization="fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE",
                       discspec_type="fnft_kdvv_dstype_BOTH", contspec_type="fnft_kdvv_cstype_BOTH", normalization_flag=1,
                       richardson_extrapolation_flag=0, niter=37),
                  dict(contspec=G, XI=G, K_ptr=G, bound_states=G, normconsts_or_residues=G, q=G, T=G)),
    "fnft_manakovv": (dict(discretization="fnft_manakov_discretization_2SPLIT4B",
                           bound_state_localization="fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE",
                           bound_state_filtering="fnft_manakovv_bsfilt_FULL", discspec_type="fnft_manakovv_dstype_BOTH",
                           contspec_type="fnft_manakovv_cstype_BOTH", normalization_flag=1, richardson_extrapolation_flag=0),
                      dict(contspec=G, XI=G, K_ptr=G, bound_states=G, normconsts_or_residues=N, q1=G, q2=G, T=G, kappa=1)),
    "fnft_nsep": (dict(discretization="fnft_nse_discretization_2SPLIT2A", localization="fnft_nsep_loc_MIXED",
                       filtering="fnft_nsep_filt_AUTO", normalization_flag=1, max_evals=37, tol=0.0625),
                  dict(D=64, q=G, T=G, K_ptr=G, main_spec=G, M_ptr=G, aux_spec=G, sheet_indices=N, kappa=1)),
    "fnft_nsev_inverse": (dict(discretization="fnft_nse_discretization_2SPLIT2A",
                               contspec_type="fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT",
                               contspec_inversion_method="fnft_nsev_inverse_csmethod_DEFAULT",
                               discspec_type="fnft_nsev_inverse_dstype_NORMING_CONSTANTS"),
                          dict(D=64, M=64, q=G, T=G, XI=G, contspec=G, K=4, bound_states=G, normconsts_or_residues=G, kappa=1)),
}

nl, bl = "bound_state_localization", "fnft_nsev_bsloc_"
ml = "fnft_manakovv_bsfilt_"
pl = "fnft_nsep_loc_"
ic = "fnft_nsev_inverse_"
FOC, DEF = "fnft__nse_discretization_focusing_r_from_q", "fnft__nse_discretization_defocusing_r_from_q"
NBS, KBS = NEWTON["nse"], NEWTON["kdv"]
BIG = {"discspec_type": "fnft_nsev_dstype_NORMING_CONSTANTS"}
ROWS = {
    "fnft_nsev": contspec("fnft_nsev", "nse") + richardson("fnft_nsev", "nse") + [
        ("localization NEWTON", {nl: bl + "NEWTON"}, {}, [NBS], [ROOTS_, "fnft__nse_discretization_z_to_lambda"]),
        ("localization FAST_EIGENVALUE, no norming constants", {nl: bl + "FAST_EIGENVALUE"}, {"normconsts_or_residues": N},
         [ROOTS_, "fnft__nse_discretization_z_to_lambda"], [NBS]),
        ("localization SUBSAMPLE_AND_REFINE, no norming constants", {nl: bl + "SUBSAMPLE_AND_REFINE"}, {"normconsts_or_residues": N}, [ROOTS_, NBS], []),
        ("filtering NONE", {"bound_state_filtering": "fnft_nsev_bsfilt_NONE"}, {}, [], ["fnft__misc_filter", "fnft__misc_merge"]),
        ("filtering BASIC", {"bound_state_filtering": "fnft_nsev_bsfilt_BASIC"}, {}, ["fnft__misc_filter"], []),
        ("filtering FULL", {"bound_state_filtering": "fnft_nsev_bsfilt_FULL"}, {}, ["fnft__misc_filter"], []),
        ("filtering MANUAL", {"bound_state_filtering": "fnft_nsev_bsfilt_MANUAL"}, {}, ["fnft__misc_filter"], []),
        ("bound states not wanted", {}, {"bound_states": N}, [], [ROOTS_, NBS, "fnft__misc_filter"]),
        ("norming constants not wanted, no refinement", {nl: bl + "FAST_EIGENVALUE"}, {"normconsts_or_residues": N}, [], [NBS]),
        ("defocusing equation", {}, {"kappa": -1}, [DEF], [FOC, ROOTS_, NBS, "fnft__misc_filter"]),
        ("focusing equation", {}, {}, [FOC], [DEF]),
    ],
    "fnft_kdvv": contspec("fnft_kdvv", "kdv") + richardson("fnft_kdvv", "kdv") + [
        ("localization NEWTON", {nl: "fnft_kdvv_bsloc_NEWTON"}, {}, [KBS], []),
        ("localization NEWTON, contspec not wanted", {nl: "fnft_kdvv_bsloc_NEWTON"}, {"contspec": N}, [KBS], ["fnft__poly_chirpz"]),
        ("localization GRIDSEARCH_AND_REFINE, contspec not wanted", {}, {"contspec": N}, [KBS, "fnft__kdv_scatter_matrix"], []),
        ("bound states not wanted", {}, {"bound_states": N}, [], [KBS]),
    ],
    "fnft_manakovv": contspec("fnft_manakovv", "manakov") + richardson("fnft_manakovv", "manakov") + [
        ("localization FAST_EIGENVALUE", {nl: "fnft_manakovv_bsloc_FAST_EIGENVALUE"}, {}, [ROOTS_, "fnft__manakov_discretization_z_to_lambda"], []),
        ("localization SUBSAMPLE_AND_REFINE", {}, {}, [ROOTS_, "fnft__manakov_discretization_z_to_lambda"], []),
        ("filtering NONE", {"bound_state_filtering": ml + "NONE"}, {}, [], ["fnft__misc_filter", "fnft__misc_merge"]),
        ("filtering BASIC", {"bound_state_filtering": ml + "BASIC"}, {}, ["fnft__misc_filter"], []),
        ("filtering FULL", {"bound_state_filtering": ml + "FULL"}, {}, ["fnft__misc_filter"], []),
        ("bound states not wanted", {}, {"bound_states": N}, [], [ROOTS_, "fnft__misc_filter"]),
        ("defocusing equation", {}, {"kappa": -1}, [], [ROOTS_, "fnft__misc_filter"]),
    ],
    "fnft_nsep": [
        ("localization SUBSAMPLE_AND_REFINE", {"localization": pl + "SUBSAMPLE_AND_REFINE"}, {},
         [ROOTS_, "fnft__nse_scatter_matrix"], ["fnft__poly_roots_fftgridsearch", "fnft__misc_filter_nonreal"]),
        ("localization GRIDSEARCH", {"localization": pl + "GRIDSEARCH"}, {}, ["fnft__poly_roots_fftgridsearch"],
         [ROOTS_, "fnft__nse_scatter_matrix", "fnft__misc_filter_nonreal"]),
        ("localization MIXED", {"localization": pl + "MIXED"}, {},
         ["fnft__poly_roots_fftgridsearch", ROOTS_, "fnft__nse_scatter_matrix", "fnft__misc_filter_nonreal"], []),
        ("localization NEWTON", {"localization": pl + "NEWTON"}, {}, ["fnft__nse_scatter_matrix"],
         [ROOTS_, "fnft__poly_roots_fftgridsearch", "fnft__nse_fscatter"]),
        ("filtering NONE", {"filtering": "fnft_nsep_filt_NONE"}, {}, [], ["fnft__misc_filter"]),
        ("filtering MANUAL", {"filtering": "fnft_nsep_filt_MANUAL"}, {}, ["fnft__misc_filter"], []),
        ("filtering AUTO", {"filtering": "fnft_nsep_filt_AUTO"}, {}, ["fnft__misc_filter"], []),
        ("localization MIXED in the defocusing case", {}, {"kappa": -1}, ["fnft__poly_roots_fftgridsearch", DEF], [FOC]),
        ("focusing equation", {}, {}, [FOC], [DEF]),
        ("spectra not wanted", {"filtering": "fnft_nsep_filt_NONE"}, {"main_spec": N, "aux_spec": N}, [], [ROOTS_, "fnft__poly_roots_fftgridsearch", "fnft__nse_scatter_matrix"]),
        ("main spectrum not wanted", {"filtering": "fnft_nsep_filt_NONE", "localization": pl + "SUBSAMPLE_AND_REFINE"}, {"main_spec": N}, [ROOTS_], []),
        ("auxiliary spectrum not wanted", {"localization": pl + "SUBSAMPLE_AND_REFINE"}, {"aux_spec": N}, [ROOTS_], []),
    ],
    "fnft_nsev_inverse": [
        ("contspec_type B_OF_TAU", {"contspec_type": ic + "cstype_B_OF_TAU"}, {}, ["fnft__poly_specfact"],
         ["fnft__nse_discretization_phase_factor_b", "fnft__nse_discretization_phase_factor_rho"]),
        ("contspec_type B_OF_XI", {"contspec_type": ic + "cstype_B_OF_XI"}, {}, ["fnft__poly_specfact", "fnft__nse_discretization_phase_factor_b"],
         ["fnft__nse_discretization_phase_factor_rho"]),
        ("contspec_type REFLECTION_COEFFICIENT", {"contspec_type": ic + "cstype_REFLECTION_COEFFICIENT"}, {},
         ["fnft__nse_discretization_phase_factor_rho"], ["fnft__nse_discretization_phase_factor_b", "fnft__poly_specfact"]),
        ("contspec_inversion_method TFMATRIX_CONTAINS_REFL_COEFF", {"contspec_inversion_method": ic + "csmethod_TFMATRIX_CONTAINS_REFL_COEFF"}, {},
         ["fnft__nse_discretization_phase_factor_rho", "fnft__nse_finvscatter"], ["fnft__poly_specfact"]),
        ("contspec_inversion_method TFMATRIX_CONTAINS_AB_FROM_ITER in the defocusing case",
         {"contspec_inversion_method": ic + "csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER"}, {"kappa": -1, "K": 0}, ["fnft__poly_specfact"], []),
        ("residues", {"discspec_type": ic + "dstype_RESIDUES"}, {}, [NBS], []),
        ("norming constants", {"discspec_type": ic + "dstype_NORMING_CONSTANTS"}, {}, [], [NBS]),
        ("continuous spectrum absent", {}, {"contspec": N, "M": 0}, [], ["fnft__nse_finvscatter", "fnft__nse_discretization_phase_factor_rho"]),
        ("continuous spectrum present", {}, {}, ["fnft__nse_finvscatter"], []),
    ],
}

# constants that must arrive unchanged: parameter name -> (routine -> option or argument)
PASSED = {
    "niter": {"fnft_nsev": ("niter", 37), "fnft_kdvv": ("niter", 37)},
    "max_evals": {"fnft_nsep": ("max_evals", 37)},
    "tol": {"fnft_nsep": ("tol", 0.0625), "fnft_nsev": ("tol", 0.0625)},
    "normalization_flag": {"fnft_nsev": ("normalization_flag", 1), "fnft_nsep": ("normalization_flag", 1), "fnft_kdvv": ("normalization_flag", 1)},
}
