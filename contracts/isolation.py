"""Frame conditions (property C20): what a call may write, and what an optimizer shares with its user."""
import ast
from pyvc.verify import *
from pyvc.solve import Theory, STATS
from pyvc.ownership import effects
from pyvc import lib
from .nlp import NX, NU, NA, NP, ST, Prob
from .colloc import NS, pk
from .ocp import FUNCS, TERMINAL, BYX, BYU, BYA, BYT

# containers a library object makes for itself and updates in place
OWN = ("roots", "polys", "iter_info", "time_grid")


def children(v):
    """mutable parts of a value: (label, value)"""
    if isinstance(v, Inst):
        return [("." + str(k), x) for k, x in v.d.items()]
    if isinstance(v, PDict):
        if not isinstance(v.v, dict):
            return []
        return [("[%r]" % (k,), x) for k, x in v.v.items()]
    if isinstance(v, PList):
        out = []
        for k, p in enumerate(v.v):
            if p[0] == "i":
                out.append(("[%d]" % k, p[1]))
            elif len(p) < 4 or not p[3]:
                i = var("element", "I")
                was = CTX.serial
                CTX.suppress += 1
                try:
                    with CTX.under(le(0, i), lt(i, p[1])):
                        x = p[2](i)
                except (Unsupported, PyRaise):
                    x = None
                finally:
                    CTX.suppress -= 1
                if isinstance(x, FuncVal) or isinstance(x, Obj) and x.serial <= was:
                    out.append(("[every element]", x))
        return out
    if isinstance(v, tuple):
        return [("[%d]" % k, x) for k, x in enumerate(v)]
    if isinstance(v, Union):
        return [("", x) for c, x in v.alts]
    if isinstance(v, Tensor) and v.base is not None:
        return [("", v.base)]
    if isinstance(v, Bound):
        return [("", v.fn), ("", v.self_)]
    if isinstance(v, FuncVal):
        names = {x.id for x in ast.walk(v.node) if isinstance(x, ast.Name)}
        out, e = [], v.env
        while e is not None and getattr(e, "parent", None) is not None:
            out += [(".<%s>" % k, x) for k, x in e.d.items() if k in names]
            e = e.parent
        return out
    return []


def reach(roots):
    """{id: (label, object)} of everything reachable"""
    out, todo = {}, [(nm, v) for nm, v in roots]
    while todo:
        nm, v = todo.pop()
        if isinstance(v, (int, str, Term)) or v is None or id(v) in out:
            continue
        out[id(v)] = (nm, v)
        todo += [(nm + l, x) for l, x in children(v)]
    return out


MUTABLE = (Tensor, PList, PDict, Inst, SymDict)


def owned(vals):
    """containers an object of the library made for itself (their freshness is an obligation of whoever sets them)"""
    ok = set()
    for nm, v in vals.items():
        for o in [v] + [x for l, x in children(v)] if isinstance(v, Inst) else []:
            if isinstance(o, Inst):
                for a in OWN:
                    if a in o.d:
                        ok |= {k for k, (l, x) in reach([(a, o.d[a])]).items() if isinstance(x, (PList, PDict, SymDict))}
    return ok


def frame(u):
    """hook run after every call of a function of the library: what it wrote into objects that existed before"""
    def hook(fv, vals, mark, start):
        I = u.I
        if fv.name is None or fv.env is not I.glob:
            return
        u.ran.add(fv.name)
        w = I.writes_since(mark, start)
        first = {}
        for c, k, o in CTX.trail[mark:]:
            first.setdefault((c, k), o)
        ok = owned(vals)
        reached, bad, borrowed = None, [], []
        for (cont, key), new in w.items():
            if isinstance(cont, Inst) and (cont.cls != "OCP" or fv.name == "OCP.__init__" and cont is vals.get("self")):
                if key in OWN and isinstance(new, MUTABLE) and not new.serial > start and new is not first[cont, key]:
                    borrowed.append(str(key))
                continue
            top = cont
            while top is not None and id(top) not in ok:
                top = getattr(top, "part_of", None)
            if top is not None or not isinstance(cont, MUTABLE) and not cont in I.classes.values():
                continue
            if first[cont, key] is new:
                continue
            if reached is None:
                reached = reach(vals.items())
            bad.append((reached[id(cont)][0] if id(cont) in reached else "a default value or class attribute" if getattr(cont, "is_default", False) or cont in I.classes.values() else repr(cont)) + ("" if key in ("v", "f") else "." + str(key)))
        u.record("frame: %s modifies none of its arguments" % fv.name, TRUE, not bad, detail="modifies " + ", ".join(bad))
        if any(k in OWN for (c, k) in w if isinstance(c, Inst)):
            u.record("frame: %s makes the containers it keeps itself" % fv.name, TRUE, not borrowed, detail="shares " + ", ".join(borrowed))
    return hook


# functions whose frame condition is decided by symbolic execution, and by the ownership rules
EXECUTED = (
    "mpopt.__init__", "mpopt.compute_numerical_approximation", "mpopt.create_variables",
    "mpopt.get_discretized_dynamics_constraints_and_cost_matrices", "mpopt.get_nlp_constraints_for_dynamics",
    "mpopt.get_nlp_constraints_for_path_contraints", "mpopt.get_nlp_constraints_for_terminal_contraints",
    "mpopt.get_nlp_constraints_for_control_input_slope", "mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points",
    "mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments", "mpopt.discretize_phase", "mpopt.get_event_constraints",
    "mpopt.get_nlp_variables", "mpopt.create_nlp", "mpopt.init_solution_per_phase", "mpopt.initialize_solution", "mpopt.get_segment_width_parameters",
    "mpopt.create_solver", "mpopt.solve", "mpopt.get_solver_warm_start_input_parameters", "mpopt.init_trajectories", "mpopt.process_results",
    "mpopt.compute_states_from_solution_dynamics", "mpopt.get_states_residuals", "mpopt.get_residual_grid_taus",
    "mpopt.compute_interpolation_taus_corresponding_to_original_grid", "mpopt.get_state_second_derivative",
    "mpopt.get_state_second_derivative_single_phase", "mpopt.get_dynamics_residuals", "mpopt.get_dynamics_residuals_single_phase",
    "mpopt.interpolate_single_phase", "post_process.__init__", "post_process.get_trajectories", "post_process.get_original_data",
    "post_process.get_interpolation_taus", "post_process.get_interpolated_data", "post_process.get_data", "mpopt_h_adaptive.__init__",
    "mpopt_h_adaptive.solve", "mpopt_h_adaptive.get_segment_width_parameters", "mpopt_h_adaptive.compute_seg_width_based_on_residuals",
    "mpopt_h_adaptive.refine_segment_widths_based_on_residuals", "mpopt_h_adaptive.get_roots_wrt_equal_area",
    "mpopt_h_adaptive.merge_split_segments_based_on_residuals", "mpopt_h_adaptive.compute_seg_width_based_on_input_slope",
    "mpopt_h_adaptive.compute_time_at_max_values", "mpopt_h_adaptive.compute_segment_widths_at_times", "mpopt_adaptive.__init__",
    "mpopt_adaptive.get_nlp_variables", "mpopt_adaptive.init_solution_per_phase", "mpopt_adaptive.get_nlp_constrains_for_segment_widths",
    "mpopt_adaptive.discretize_phase", "mpopt_adaptive.create_solver", "mpopt_adaptive.solve", "mpopt_adaptive.init_trajectories",
    "mpopt_adaptive.process_results", "OCP.__init__", "OCP.get_dynamics", "OCP.get_path_constraints", "OCP.get_terminal_constraints",
    "OCP.get_running_costs", "OCP.get_terminal_costs", "OCP.has_path_constraints", "OCP.has_terminal_constraints", "OCP.validate",
    "Collocation.__init__", "Collocation.init_polynomials", "Collocation.init_polynomials_with_customized_roots", "Collocation.get_diff_matrix",
    "Collocation.get_quadrature_weights", "Collocation.get_interpolation_matrix", "Collocation.get_diff_matrices",
    "Collocation.get_interpolation_Dmatrices_at", "Collocation.get_quad_weight_matrices", "Collocation.get_interpolation_matrices",
    "Collocation.get_lagrange_polynomials", "Collocation.get_composite_differentiation_matrix", "Collocation.get_composite_quadrature_weights",
    "Collocation.get_composite_interpolation_matrix", "Collocation.get_composite_interpolation_Dmatrix_at", "CollocationRoots.__init__",
    "CollocationRoots.roots_legendre_gauss_radau", "CollocationRoots.roots_legendre_gauss_lobatto", "CollocationRoots.roots_chebyshev_gauss_lobatto", "solve",
)
OWNERSHIP = (
    "mpopt.reset_mpopt", "mpopt.init_segment_width", "mpopt.validate", "mpopt.get_interpolated_time_grid",
    "post_process.get_non_uniform_interpolation_grid", "post_process.get_interpolated_time_grid", "post_process.plot_phase",
    "post_process.plot_phases", "post_process.plot_x", "post_process.plot_u", "post_process.plot_single_variable", "post_process.plot_curve",
    "post_process.plot_all", "post_process.sort_residual_data", "post_process.plot_residuals", "Collocation.get_diff_matrix_fn",
    "Collocation.get_quadrature_weights_fn", "Collocation.get_polynomial_function", "CollocationRoots.get_collocation_points",
    "CollocationRoots.roots_legendre_gauss", "get_segment_boundaries", "mpopt_ph_adaptive.__init__",
    "mpopt_ph_adaptive.get_abs_max_residual", "mpopt_ph_adaptive.solve_ph",
)


def ownership(S):
    """the remaining functions: only what a call allocated itself is changed in place"""
    def build(u):
        fx = effects(S.src, EXECUTED + OWNERSHIP)
        for q, l in fx.items():
            if q in EXECUTED:
                continue
            u.ses.functions[q] = u.ses.functions.get(q, 0) + 1
            for line, what, own in l:
                u.I.stmt_line = line
                STATS.by["ownership"] = STATS.by.get("ownership", 0) + 1
                u.record("frame: %s changes only what it allocated" % q, "%s (line %d): allocated by the call" % (what, line), own, detail="%s, which the call did not allocate" % what)
    S.unit("in-place effects of the remaining functions", "module", build, Theory())


CLASSES = {"mpopt": "mpopt", "mpopt_h_adaptive": "mpopt_h_adaptive", "mpopt_adaptive": "mpopt_adaptive", "mpopt_ph_adaptive": "mpopt_ph_adaptive"}
ARRAYS = BYX + BYU + BYA + BYT + ("lbe", "ube", "scale_x", "scale_u", "scale_a", "lbdu", "ubdu", "diff_u", "midu", "du_continuity")


def own_copy(S):
    """the optimizer's problem equals the user's and shares no mutable object with it"""
    for cls in CLASSES:
        for given in ("an arbitrary problem", "a new problem"):
            def build(u, cls=cls, given=given):
                I = u.I
                u.hyp(ge(NX, 1), ge(NU, 1), ge(NS, 1), ge(NA, 1), lt(0, INF), ge(NP, 2))
                pr = Prob(u) if given.startswith("an ") else None

                def make():
                    if pr is not None:
                        o = pr.o
                    else:
                        o = I.call(ClassVal("OCP"), [NX, NU, NP, NA], {})
                    before = {k: v for k, v in o.d.items()}
                    content = {k: (v.v if isinstance(v, PList) else v.f if isinstance(v, Tensor) else None) for k, v in before.items()}
                    s = I.call(ClassVal(cls), [o], {"n_segments": NS, "poly_orders": PList(n=NS, fn=pk), "scheme": Opaque("scheme")})
                    return o, s, before, content

                def post(r):
                    o, s, before, content = r
                    u.record("the user's problem keeps its attributes", TRUE, {k: id(v) for k, v in o.d.items()} == {k: id(v) for k, v in before.items()})
                    u.record("the user's problem keeps its contents", TRUE, all((v.v if isinstance(v, PList) else v.f if isinstance(v, Tensor) else None) is content[k] for k, v in before.items()))
                    mine, yours = reach([("optimizer", s)]), reach([("problem", o)])
                    shared = [(mine[k][0], yours[k][0]) for k in mine if k in yours and isinstance(mine[k][1], MUTABLE)]
                    u.record("nothing mutable is shared with the user's problem", TRUE, not shared, detail="; ".join("%s is %s" % x for x in shared[:4]))
                    c = I.getattr(s, "_ocp")
                    for nm in ("nx", "nu", "na", "n_phases", "scale_t"):
                        u.eq("same " + nm, I.getattr(c, nm), I.getattr(o, nm))
                    for nm in ARRAYS + ("phase_links",):
                        u.eq("same " + nm, I.getattr(c, nm), I.getattr(o, nm))
                    q = fresh("q", "I")
                    vec = lambda n, h: leafvec("np", n, lambda i: app(h, (i,), "R"))
                    x, uu, t, a = vec(NX, "xx"), vec(NU, "uu"), var("tt", "R"), vec(NA, "aa")
                    for nm in FUNCS:
                        u.eq("same number of " + nm, lib.length(I, I.getattr(c, nm)), lib.length(I, I.getattr(o, nm)))
                        args = [x, t, x, t, a] if nm in TERMINAL else [x, uu, t, a]
                        with CTX.under(le(0, q), lt(q, NP)):
                            f, g = [lib.getitem(I, I.getattr(p, nm), q) for p in (c, o)]
                            got, want = I.call(f, list(args), {}), I.call(g, list(args), {})
                            u.eq("same " + nm, got, want)
                u.run(make, post)
            S.unit("%s works on its own copy/%s" % (cls, given), cls + ".__init__", build, Theory())


def frames(S):
    from . import registry
    S.frame = frame
    for pid, f in registry().items():
        if pid < "C20":
            f(S)
    S.frame = None


def c20(S):
    own_copy(S)
    ownership(S)
    frames(S)
