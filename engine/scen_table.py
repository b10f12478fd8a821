"""Calls that the documentation rules out, per public routine.  Arguments are named as in the public headers; PARAMS
fixes their positions, so that renaming an argument in the implementation does not matter."""
PARAMS = {
    "fnft_nsev": "D q T M contspec XI K_ptr bound_states normconsts_or_residues kappa opts".split(),
    "fnft_kdvv": "D q T M contspec XI K_ptr bound_states normconsts_or_residues opts".split(),
    "fnft_manakovv": "D q1 q2 T M contspec XI K_ptr bound_states normconsts_or_residues kappa opts".split(),
    "fnft_nsep": "D q T phase_shift K_ptr main_spec M_ptr aux_spec sheet_indices kappa opts".split(),
    "fnft_nsev_inverse": "M contspec XI K bound_states normconsts_or_residues D q T kappa opts".split(),
    "fnft_nsev_inverse_XI": "D T M XI discretization".split(),
    "fnft_version": "major minor patch suffix".split(),
}
NULL, NN = ("null",), ("nonnull",)
UP, DOWN = ("unknown-enum", 1), ("unknown-enum", -1)


def desc(k):
    return ("not-increasing", [None, (1.0, 0.0), (1.0, 1.0), (-0.5, -3.0)][k])


def both(name, path, extra=()):
    return [(name, [(path, UP)] + list(extra)), (name + " (negative)", [(path, DOWN)] + list(extra))]


def one(name, path, extra=()):
    return [(name, [(path, UP)] + list(extra))]


def kappa():
    return [("kappa is 0", [("kappa", ("const", 0))]), ("kappa > 1", [("kappa", ("range", 2, 2147483647))]),
            ("kappa < -1", [("kappa", ("range", -2147483647, -2))])]


def grid(name, path, extra=()):
    return [("%s[0] >= %s[1]" % (name, name), list(extra) + [(path, desc(0))]),
            ("%s[0] == %s[1]" % (name, name), list(extra) + [(path, desc(2))])]


SIZE = [("D < 2", [("D", ("in", {0, 1}))])]
TIME = [("T is NULL", [("T", NULL)])] + grid("T", "T")
FREQ = [("contspec given, XI is NULL", [("contspec", NN), ("XI", NULL)])] + grid("contspec given, XI", "XI", [("contspec", NN)])
BST = [("bound_states given, K_ptr is NULL", [("bound_states", NN), ("K_ptr", NULL)])]
Q = [("q is NULL", [("q", NULL)])]
CS = [("contspec", NN), ("M", ("range", 1, None))]
BS = [("bound_states", NN), ("*K_ptr", ("range", 1, None))]

# disc: in the order in which the checks of the routines are met (early ones are cheap to analyse)
SCEN = {
    "fnft_nsev": SIZE + Q + TIME + FREQ + kappa() + BST
    + both("unknown discretization", "opts.discretization")
    + both("contspec given, unknown contspec_type", "opts.contspec_type", CS)
    + one("bound_states given, unknown bound_state_localization", "opts.bound_state_localization", BS + [("kappa", ("const", 1))])
    + one("bound_states given, unknown bound_state_filtering", "opts.bound_state_filtering", BS + [("kappa", ("const", 1))]),
    "fnft_manakovv": SIZE + [("q1 is NULL", [("q1", NULL)]), ("q2 is NULL", [("q2", NULL)])] + TIME + FREQ + kappa() + BST
    + both("unknown discretization", "opts.discretization")
    + both("contspec given, unknown contspec_type", "opts.contspec_type", CS),
    "fnft_kdvv": SIZE + Q + TIME + FREQ + BST
    + both("unknown discretization", "opts.discretization")
    + both("contspec given, unknown contspec_type", "opts.contspec_type", CS),
    "fnft_nsep": SIZE + Q + TIME + kappa()
    + [("D is no power of two", [("D", ("const", 6))]), ("D is odd", [("D", ("const", 3))]),
       ("K_ptr is NULL", [("K_ptr", NULL)]), ("M_ptr is NULL", [("M_ptr", NULL)]),
       ("sheet_indices given", [("sheet_indices", NN)])]
    + both("unknown discretization", "opts.discretization")
    + both("unknown localization", "opts.localization"),
    "fnft_nsev_inverse": SIZE + [("D is no power of two", [("D", ("const", 6))]), ("D is odd", [("D", ("const", 3))])] + Q + TIME + kappa()
    + [("contspec is NULL although M > 0", [("M", ("range", 1, None)), ("contspec", NULL)]),
       ("contspec given, M is odd", [("contspec", NN), ("M", ("const", 5)), ("D", ("const", 4))]),
       ("contspec given, M < D", [("contspec", NN), ("M", ("const", 2)), ("D", ("const", 4))]),
       ("reflection coefficient given, XI is NULL", [("contspec", NN), ("opts.contspec_type", ("in", {0})), ("XI", NULL)]),
       ("K > 0, bound_states is NULL", [("K", ("range", 1, None)), ("bound_states", NULL)]),
       ("K > 0, normconsts_or_residues is NULL", [("K", ("range", 1, None)), ("normconsts_or_residues", NULL)]),
       ("K > 0 in the defocusing case", [("K", ("range", 1, None)), ("kappa", ("const", -1))]),
       ("neither continuous nor discrete spectrum given", [("contspec", NULL), ("K", ("const", 0))])]
    + both("unknown discretization", "opts.discretization")
    + both("contspec given, unknown contspec_type", "opts.contspec_type", CS)
    + one("reflection coefficient given, unknown contspec_inversion_method", "opts.contspec_inversion_method",
          CS + [("opts.contspec_type", ("in", {0}))]),
    "fnft_nsev_inverse_XI": SIZE + TIME
    + [("M is zero", [("M", ("const", 0))]), ("XI is NULL", [("XI", NULL)]),
       ("unknown discretization", [("discretization", ("range", 28, 2147483647))])],
    "fnft_version": [("major is NULL", [("major", NULL)]), ("minor is NULL", [("minor", NULL)]), ("patch is NULL", [("patch", NULL)]),
                     ("suffix is NULL", [("suffix", NULL)])],
}
