"""Level, assumptions and trusted base of each check."""
COMMON = ["machine floating point is treated as exact real arithmetic; Python integers are unbounded",
          "numpy, scipy and casadi functions satisfy the models in pyvc/lib.py (conformance is tested concretely by the oracle runs)"]


def P(assumptions=(), trusted=(), bounded=()):
    return {"level": "proof", "assumptions": COMMON + list(assumptions), "trusted": list(trusted), "bounded": list(bounded)}


WELL = "the problem passes OCP.validate (sizes match), scalings and scale_t are positive, at least one state, control, segment and phase, every degree at least one"
USER = "user functions are pure (uninterpreted functions of their arguments)"
INFT = "numpy.inf is a constant above every finite bound it is compared with; no bound is NaN"
CASADI = "casadi matrix algebra (vertcat, kron, mtimes, diag, solve, indexing)"

META = {
    "C01": P(["scipy.special.j_roots(n,a,b) returns the n zeros of P_n^(a,b) in increasing order inside (-1,1); cos is strictly decreasing on [0,pi]"],
             ["scipy.special.j_roots", "numpy.cos"]),
    "C02": P(["polynomial derivative/antiderivative (np.polyder, np.polyint, casadi gradient, idas quadrature) are exact"],
             ["np.poly1d, np.polyder, np.polyint", "casadi.gradient, casadi.integrator"]),
    "C03": P(["node sets are those of the contract of the node generator (C01)"]),
    "C04": P(["node sets are those of the contract of the node generator (C01)"]),
    "C05": P([WELL, "numpy/casadi expressions are evaluated at arbitrary decision values; the widths need not sum to one"], [CASADI]),
    "C06": P([WELL, USER, "quadrature weights: the weight at the end of a segment is positive and the weight at its start is non-negative (true for LGR, LGL and CGL; only used where two segments share a node)"], [CASADI]),
    "C07": P([WELL, USER, INFT], [CASADI]),
    "C08": P([WELL, INFT, "composite matrices satisfy their contracts (C03)"], [CASADI]),
    "C09": P([WELL, "the discontinuity bounds lbe/ube have a row for every declared link"], [CASADI]),
    "C10": P([WELL, INFT], [CASADI]),
    "C11": P([WELL, "the guessed start and end times of a phase differ", "numpy.linspace(a, b, n)[k] = a + k (b - a)/(n - 1)"], [CASADI]),
    "C12": P([WELL, USER, INFT, "the NLP solver itself is external: the property is about what it is given"], [CASADI, "casadi.nlpsol"]),
    "C13": P([WELL, USER, INFT, "composite matrices satisfy their contracts (C03); node times satisfy C05; first and last collocation node of a segment are the reference end points (C01)"], [CASADI, "casadi.nlpsol", "casadi.Function evaluation substitutes the entries of the decision vector for its symbols"]),
    "C14": P([WELL, "node times of a phase increase strictly from its start to its end (C05)", "residual norms are finite and some residual of a violating phase is positive (tolerances are positive)", "segment width limits lbh, ubh are positive", "two segments or more where cut times are used (a single segment is returned unchanged by the caller)"],
             [CASADI, "itertools.groupby, list.sort, numpy.sort, numpy.argmax"],
             ["mpopt_h_adaptive.merge_split_segments_based_on_residuals: exactly 1..6 segments (1..8 thorough), all residuals, tolerances and positive widths (symbolic execution with a fixed segment count)"]),
    "C15": P([WELL, "max_iter is at least one", "the NLP solver returns a solution for whatever it is given; refined widths are positive (C14)", "an initial solution passed in belongs to the stored widths (or the stored widths were never set)"],
             [CASADI, "casadi.nlpsol (any result)", "numpy.mean"]),
    "C16": P([WELL, "solution times are finite; the times of one phase increase strictly from its first to its last node"], [CASADI]),
    "C17": P([WELL, USER, "composite matrices satisfy their contracts (C03)", "polynomial derivatives and the idas quadrature are exact", "segment widths of a phase are positive and sum to one"], [CASADI, "casadi.Function evaluation substitutes the entries of the decision vector for its symbols", "casadi.integrator (definite integral of the given integrand)"]),
    "C18": P([WELL, "composite matrices satisfy their contracts (C03)", "node times of a phase increase strictly (C05)", "at least two interpolation points per segment"], [CASADI, "casadi.Function evaluation substitutes the entries of the decision vector for its symbols"]),
    "C19": P(["user functions return a value of the same kind (list of the same length, number or None) for all arguments", "the guess arrays have at least one row per phase when validation indexes them (a missing row raises IndexError, which also rejects the problem)", "at least one state and control", "array attributes have two axes (other ranks: concrete runs)"], []),
    "C20": P(["user functions do not change their arguments", "drawing functions of matplotlib and the casadi functions do not change the arrays they are given",
              "an object's own containers (node and polynomial tables, time grid, iteration log) are updated in place by design; their freshness is proved where they are made",
              "the other obligations of the units executed for their frame are those of C01-C19"],
             ["copy.deepcopy (new containers, functions shared)"]),
}

# properties that no contract can decide: none
NOT_APPLICABLE = {}
