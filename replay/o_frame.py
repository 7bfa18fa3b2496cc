"""Concrete oracle of isolation (C20): arguments, default values, class attributes and the user's problem before and
after every public call; repeated, interleaved and independent uses; later changes to the user's problem."""
import contextlib
import copy
import io
import os
import traceback
import types
import numpy as np
import casadi as ca
import matplotlib.pyplot as plt
from mpopt import mp
from replay.problems import Prob, Ref, random_cfg, setup, CLS
from replay.o_nlp import Recorder, nlp_values, flat
from replay.o_post import random_widths, random_nodes

SCHEMES = ("LGR", "LGL", "CGL")
CLASSES = [c for c in vars(mp).values() if isinstance(c, type) and c.__module__ == mp.__name__]


def mark(v, depth=0):
    """content of a value (functions and drawing objects by identity)"""
    if isinstance(v, np.ndarray):
        return ("array", v.shape, v.dtype.str, tuple(mark(x, depth + 1) for x in v.ravel()) if v.dtype == object else v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(mark(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((repr(k), mark(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, ca.DM):
        return ("DM", v.shape, v.full().tobytes())
    if isinstance(v, (ca.SX, ca.MX)):
        return (type(v).__name__, v.shape, str(v))
    if isinstance(v, mp.OCP) and depth < 4:
        return ("OCP",) + tuple(sorted((k, mark(x, depth + 1)) for k, x in vars(v).items()))
    if isinstance(v, (int, float, str, bool, np.generic)) or v is None:
        return (type(v).__name__, repr(v))
    return ("object", id(v))


def statics():
    """default values and class attributes of the library"""
    out = {}
    for c in CLASSES:
        for k, v in vars(c).items():
            f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
            if isinstance(f, types.FunctionType):
                for p, d in enumerate(f.__defaults__ or ()):
                    out["default value %d of %s.%s" % (p, c.__name__, k)] = mark(d)
            elif not k.startswith("__"):
                out["%s.%s" % (c.__name__, k)] = mark(v)
    for k, v in vars(mp).items():
        if isinstance(v, types.FunctionType):
            for p, d in enumerate(v.__defaults__ or ()):
                out["default value %d of %s" % (p, k)] = mark(d)
        elif isinstance(v, (dict, list, np.ndarray)) and not k.startswith("__"):
            out["module variable " + k] = mark(v)
    return out


class Watch:
    """performs calls and reports what they changed"""

    def __init__(self, r, inp):
        self.r, self.inp, self.kept = r, inp, {}
        self.out = []
        self.log = True

    def keep(self, name, v):
        """an object of the user that no call may change"""
        self.kept[name] = (v, mark(v))
        return v

    def __call__(self, name, fn, *a, **k):
        args = {("argument %d" % i): v for i, v in enumerate(a)}
        args.update({"argument " + q: v for q, v in k.items()})
        before, st = {q: mark(v) for q, v in args.items()}, statics()
        self.r.case(dict(self.inp, call=name))
        inp = dict(self.inp, call=name)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = fn(*a, **k)
        finally:
            for q, v in args.items():
                if mark(v) != before[q]:
                    self.r.fail("modified", "%s modifies its %s" % (name, q), inp, str(before[q])[:300], str(mark(v))[:300])
            after = statics()
            for q in after:
                if q not in st or after[q] != st[q]:
                    self.r.fail("static", "%s changes the %s" % (name, q), inp, str(st.get(q))[:200], str(after[q])[:200])
            for q, (v, m) in self.kept.items():
                if mark(v) != m:
                    self.r.fail("user", "%s changes %s" % (name, q), inp, str(m)[:300], str(mark(v))[:300])
                    self.kept[q] = (v, mark(v))
        self.note(name, res)
        return res

    def note(self, name, res):
        """what a later identical use has to reproduce"""
        if self.log:
            self.out.append((name, numeric(res)))


def numeric(v):
    if isinstance(v, np.ndarray):
        return tuple(numeric(x) for x in v.ravel()) if v.dtype == object else np.array(v, dtype=float).ravel() if v.dtype.kind in "fiub" else ()
    if isinstance(v, ca.DM):
        return v.full().ravel()
    if isinstance(v, (list, tuple)):
        return tuple(numeric(x) for x in v)
    if isinstance(v, dict):
        return tuple(numeric(v[k]) for k in sorted(v, key=repr))
    if isinstance(v, (int, float, bool, np.generic)) and not isinstance(v, np.str_):
        return np.array([float(v)])
    return ()


def agree(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return False


def nlp_of(w, m, R, rng):
    """values of the NLP at a point"""
    prob, bounds = w("create_nlp", m.create_nlp)
    pt = R.point(rng)
    f, g = nlp_values(prob, R, [pt])[0]
    w.note("objective", f)
    w.note("constraints", g)
    guess = m.initialize_solution()
    w.note("guess", guess)
    again = copy.deepcopy(pt)
    return pt, lambda: nlp_again(w, m, R, again, (numeric(f), numeric(g), numeric(bounds), numeric(guess)))


def nlp_again(w, m, R, pt, old):
    """the same optimizer, asked again after all other calls, gives the same NLP and guess"""
    prob, bounds = w("create_nlp once more", m.create_nlp)
    f, g = nlp_values(prob, R, [pt])[0]
    for nm, a, b in zip(("objective", "constraints", "bounds", "default guess"), old, (f, g, bounds, m.initialize_solution())):
        if not agree(a, numeric(b)):
            w.r.fail("again", "the %s of the same optimizer differ after other calls" % nm, w.inp, str(a)[:300], str(numeric(b))[:300])


def outcome(fn, *a, **k):
    """results of a use, including how it ended (an error is not by itself a violation here)"""
    out = []
    try:
        fn(*a, out=out, **k)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not [f for f in tb if f.filename.startswith("/repo")]:
            raise
        if os.environ.get("TBK"):
            traceback.print_exc()
        out.append(("an error", numeric([len(out)])))
        k = (type(e).__name__, str(e)[:80])
        ERRORS[k] = ERRORS.get(k, 0) + 1
    return out


ERRORS = {}


def use(r, cfg, inp, ocp=None, between=None, heavy=True, draw=False, out=None):
    """one use of an optimizer; deterministic given cfg"""
    rng = np.random.RandomState(cfg["seed"] + 17)
    P = Prob(cfg)
    R = Ref(P)
    w = Watch(r, inp)
    w.out = out
    setup()
    ocp = w.keep("the user's problem", P.ocp() if ocp is None else ocp)
    w("validate", ocp.validate)
    orders = w.keep("the list of degrees", list(cfg["orders"]))
    with Recorder(rng) as rec:
        m = w(CLS[cfg["cls"]].__name__, CLS[cfg["cls"]], ocp, len(orders), orders, cfg["scheme"])
        if between is not None:
            between()
        pt, once_more = nlp_of(w, m, R, rng)
        opts = w.keep("the solver options", {"ipopt.max_iter": 7, "ipopt.tol": 1e-3})
        w("create_solver", m.create_solver, "ipopt", opts)
        kw = {"nlp_solver_options": opts}
        mo = w.keep("the method options", [{}, {"method": "residual", "sub_method": "merge_split"}, {"method": "residual", "sub_method": "equal_area"},
                                           {"method": "control_slope"}][rng.randint(4)] if cfg["cls"] == "h" else {})
        if cfg["cls"] == "h":
            kw["max_iter"] = 2
            if rng.rand() < 0.8:
                kw["mpopt_options"] = mo
        sol = w("solve", m.solve, **kw)
        w.keep("the first solution", sol)
        ini = w.keep("the initial solution", {"x": sol["x"], "lam_x": sol["lam_x"], "lam_g": sol["lam_g"]})
        sol = w("solve from a solution", m.solve, initial_solution=ini, reinitialize_nlp=bool(rng.rand() < 0.5), **kw)
        w.keep("the second solution", sol)
    for v in pt:
        v["h"] = random_widths(r_of(rng), R.S)
    m._nlp_sw_params = R.widths(pt)
    sol = w.keep("the solution", {"x": ca.DM(R.flat(pt)), "f": ca.DM(1.0), "lam_x": ca.DM.ones(3)})
    w("get_solver_warm_start_input_parameters", m.get_solver_warm_start_input_parameters, sol)
    for keys in ((), ("lam_x",), ("x", "lam_g"), ("x0", "lam_x0", "lam_g0"), ("lam_g0", "f")):
        part = w.keep("part of a solution", {q: np.full(3, 0.5) for q in keys})
        w("get_solver_warm_start_input_parameters with %s only" % ", ".join(keys), m.get_solver_warm_start_input_parameters, part)
    w("get_solver_warm_start_input_parameters without solution", m.get_solver_warm_start_input_parameters)
    nodes = w.keep("the requested points", random_nodes(r_of(rng), R, P))
    phases = w.keep("the list of phases", list(range(P.n)))
    w("get_residual_grid_taus", m.get_residual_grid_taus, 0, "uniform")
    w("get_dynamics_residuals", m.get_dynamics_residuals, sol, nodes=nodes)
    w("get_dynamics_residuals", m.get_dynamics_residuals, sol, grid_type="mid-points")
    w("get_state_second_derivative", m.get_state_second_derivative, sol, nodes=nodes)
    w("interpolate_single_phase", m.interpolate_single_phase, sol, 0, nodes[0])
    if heavy:
        w("get_states_residuals", m.get_states_residuals, sol, phases=phases, nodes=nodes)
    post = w("process_results", m.process_results, sol, plot=draw, scaling=bool(rng.rand() < 0.5), residual_dx=bool(rng.rand() < 0.7))
    trajectories = [m.init_trajectories(q) for q in range(P.n)]
    popts = w.keep("the post-processing options", dict(post.options))
    post = w("post_process", mp.post_process, sol, trajectories, popts)
    for again in range(2):
        w("get_original_data", post.get_original_data, phases)
        w("get_interpolated_data", post.get_interpolated_data, phases, w.keep("interpolation points", [np.linspace(-1, 1, 5) for _ in range(R.S)]))
        w("get_data", post.get_data, phases, True)
        own = w.keep("some phases", [P.n - 1])
        w("get_data", post.get_data, own)
        w("get_original_data of the default phases", post.get_original_data)
        w("get_data of the default phases", post.get_data)
        w("get_data of the default phases, interpolated", post.get_data, interpolate=True)
        w("get_interpolated_data at the default points", post.get_interpolated_data, own)
        post2 = w("post_process", mp.post_process, sol, trajectories, w.keep("other post-processing options", dict(popts, phases_to_plot=[(P.n - 1,)], scaling=not popts.get("scaling", False))))
        w("get_original_data of other default phases", post2.get_original_data)
        w("get_data of other default phases, interpolated", post2.get_data, interpolate=True)
    w("get_interpolation_taus", post.get_interpolation_taus, 9, w.keep("given points", np.array([-1.0, -0.2, 0.5, 1.0])), "other")
    if draw:
        figures(w, m, post, phases, sol)
    refine(w, m, R, P, rng, sol)
    once_more()


def figures(w, m, post, phases, sol):
    tics = w.keep("the line styles", ["-"] * 20)
    dims = w.keep("the components", [0])
    w.log = False
    w("plot_phases", post.plot_phases, phases, tics=tics)
    w("plot_phases", post.plot_phases, phases, interpolate=False)
    w("plot_phase", post.plot_phase, 0)
    w("plot_x", post.plot_x, dims, phases, tics=tics)
    w("plot_x", post.plot_x)
    w("plot_u", post.plot_u, dims, phases, tics=tics)
    w("plot_u", post.plot_u)
    t, res = m.get_dynamics_residuals(sol)
    w.keep("residuals", res)
    w.keep("residual times", t)
    if len(phases) == 1:
        w("get_dynamics_residuals", m.get_dynamics_residuals, sol, plot=True)
    w.log = True
    plt.close("all")


def refine(w, m, R, P, rng, sol):
    H = mp.mpopt_h_adaptive
    n = R.S
    res = w.keep("residuals of the segments", [float(v) for v in np.round(rng.uniform(0, 0.02, n), 5)])
    width = w.keep("segment widths", [float(v) for v in random_widths(r_of(rng), n)])
    w("merge_split_segments_based_on_residuals", H.merge_split_segments_based_on_residuals, res, width, 0.005)
    area = w.keep("residual curve", np.round(rng.uniform(0.1, 1, (11, 1)), 3))
    w("get_roots_wrt_equal_area", H.get_roots_wrt_equal_area, area, n)
    times = w.keep("times", np.array([2.5, 0.5, 1.5]))
    w("compute_segment_widths_at_times", H.compute_segment_widths_at_times, times, max(n, 2), 0.0, 3.0)
    w("compute_time_at_max_values", H.compute_time_at_max_values, w.keep("grid", np.linspace(0, 1, 7)), w.keep("node times", np.linspace(0, 1, 5)), w.keep("slopes", rng.uniform(-1, 1, (4, 2))), 0.1)
    if isinstance(m, H) and n > 1:
        for o in ({"method": "residual", "sub_method": "merge_split"}, {"method": "residual", "sub_method": "equal_area"}, {"method": "control_slope"}):
            w("get_segment_width_parameters", m.get_segment_width_parameters, sol, options=w.keep("refinement options", dict(o)))


class r_of:
    """a random source in the form the shared generators expect"""

    def __init__(self, rng):
        self.rng = rng


def collocation(r, cfg, inp, out=None):
    w = Watch(r, inp)
    w.out = out
    rng = np.random.RandomState(cfg["seed"] + 5)
    setup()
    orders = w.keep("the list of degrees", list(cfg["orders"]))
    c = w("Collocation", mp.Collocation, orders, cfg["scheme"])
    deg = orders[0]
    taus = w.keep("points", np.sort(rng.uniform(-1, 1, 4)))
    many = w.keep("points of the segments", [np.sort(rng.uniform(-1, 1, 3)) for _ in orders])
    distinct = w.keep("degrees", sorted(set(orders)))
    for again in range(2):
        w("get_diff_matrix", c.get_diff_matrix, deg)
        w("get_diff_matrix at points", c.get_diff_matrix, deg, taus, 1)
        w("get_diff_matrices", c.get_diff_matrices, distinct, 1)
        w("get_quadrature_weights", c.get_quadrature_weights, deg, -1.0, 0.5)
        w("get_quad_weight_matrices", c.get_quad_weight_matrices, distinct)
        w("get_interpolation_matrix", c.get_interpolation_matrix, taus, deg)
        w("get_interpolation_matrices", c.get_interpolation_matrices, many, orders)
        w("get_interpolation_Dmatrices_at", c.get_interpolation_Dmatrices_at, many, orders, 1)
        w("get_composite_differentiation_matrix", c.get_composite_differentiation_matrix, orders)
        w("get_composite_quadrature_weights", c.get_composite_quadrature_weights, orders)
        w("get_composite_interpolation_matrix", c.get_composite_interpolation_matrix, many, orders)
        w("get_composite_interpolation_Dmatrix_at", c.get_composite_interpolation_Dmatrix_at, many, orders)
        w("the default arguments", c.get_composite_differentiation_matrix)
    own = w.keep("custom nodes", {deg: np.sort(rng.uniform(-1, 1, deg + 1))})
    w("init_polynomials_with_customized_roots", c.init_polynomials_with_customized_roots, own)
    w("get_diff_matrix after custom nodes", c.get_diff_matrix, deg)
    w("Collocation again", mp.Collocation(orders, cfg["scheme"]).get_composite_quadrature_weights)


def compare(r, inp, a, b, how):
    if len(a) != len(b):
        r.fail("independent", "the same use %s gives a different number of results" % how, inp, len(a), len(b))
        return
    for (n, x), (_, y) in zip(a, b):
        if not agree(x, y):
            r.fail("independent", "%s gives a different result %s" % (n, how), inp, str(x)[:300], str(y)[:300])
            return


def distort(ocp, rng):
    """later changes of the user to the problem"""
    for k, v in list(vars(ocp).items()):
        if isinstance(v, np.ndarray) and v.size:
            v[...] = v + (1 if v.dtype.kind == "i" else rng.uniform(0.5, 2, v.shape))
            if rng.rand() < 0.3:
                setattr(ocp, k, v * 2)
        elif isinstance(v, list) and v and callable(v[0]):
            for q in range(len(v)):
                v[q] = lambda *a: [7.0] * 4
            if rng.rand() < 0.3:
                v.append(v[0])
        elif k == "phase_links":
            v.append((0, ocp.n_phases - 1))
        elif k == "scale_t":
            ocp.scale_t = v * 3
        elif k in ("nx", "nu", "na", "n_phases"):
            setattr(ocp, k, v + 1)
        elif isinstance(v, float):
            setattr(ocp, k, v + 0.5)


def plain(nx, nu, na, n):
    """a new problem with nothing but default functions"""
    o = mp.OCP(n_states=nx, n_controls=nu, n_phases=n, **({"n_params": na} if na else {}))
    o.lbx[:], o.ubx[:], o.lbu[:], o.ubu[:] = -2, 2, -1, 1
    return o


def isolation(r, cfg):
    """the NLP follows the problem as it was when the optimizer was made"""
    for default in (False, True):
        inp = {"cfg": cfg, "default functions": default}
        nlps = []
        for change in (False, True):
            P = Prob(cfg)
            R = Ref(P)
            rng = np.random.RandomState(cfg["seed"] + 3)
            w = Watch(r, dict(inp, change=change))
            ocp = plain(P.nx, P.nu, P.na, P.n) if default else P.ocp()
            m = P.optimizer(ocp)
            if change:
                distort(ocp, np.random.RandomState(cfg["seed"] + 4))

            def body(out):
                w.out = out
                nlp_of(w, m, R, rng)
            nlps.append(outcome(body))
        compare(r, inp, nlps[0], nlps[1], "after the user changes the problem")
    P = Prob(cfg)
    ocp = P.ocp()
    setup()
    before = mark(ocp)
    m = P.optimizer(ocp)
    distort(m._ocp, np.random.RandomState(cfg["seed"] + 4))
    if mark(ocp) != before:
        r.fail("user", "changing the optimizer's problem changes the user's problem", {"cfg": cfg})


def tiny():
    o = mp.OCP(n_states=2, n_controls=1)
    o.dynamics[0] = lambda x, u, t: [x[1], u[0] - 0.2 * x[0]]
    o.running_costs[0] = lambda x, u, t: u[0] ** 2
    o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0] - 1.0, xf[1]]
    o.x00[0], o.xf0[0] = [0.0, 0.0], [1.0, 0.0]
    o.lbx[0], o.ubx[0] = [-5, -5], [5, 5]
    o.lbu[0], o.ubu[0] = -4, 4
    o.lbtf[0] = o.ubtf[0] = 1.5
    return o


def whole(r):
    """complete solves through the module-level entry points"""
    opts = {"ipopt.print_level": 0, "print_time": 0, "ipopt.sb": "yes"}
    outs = []
    for rep in range(2):
        setup()
        mp.mpopt_ph_adaptive._MUTE_ = True
        w = Watch(r, {"problem": "double integrator", "repetition": rep})
        ocp = w.keep("the user's problem", tiny())
        sd = w.keep("the solve dictionary", {"nlp_solver_options": dict(opts)})
        _, post = w("solve", mp.solve, ocp, 2, 3, "LGR", False, sd)
        w.note("data", post.get_data(interpolate=True))
        degrees = w.keep("the list of degrees", [3, 3])
        ph = w("mpopt_ph_adaptive", mp.mpopt_ph_adaptive, ocp, 2, degrees, "LGR", max_residual=1e-9)
        sol = w("solve_ph", ph.solve_ph, 2, sd)
        w.note("ph solution", sol["x"])
        ph = w("mpopt_ph_adaptive", mp.mpopt_ph_adaptive, ocp, 2, degrees, "LGR", max_residual=1e3)
        sol = w("solve_ph", ph.solve_ph, 1)
        w.note("ph solution", sol["x"])
        h = w("mpopt_h_adaptive", mp.mpopt_h_adaptive, ocp, 3, 3)
        mo = w.keep("the method options", {"method": "residual", "sub_method": "equal_area"})
        sol = w("solve", h.solve, max_iter=3, mpopt_options=mo, nlp_solver_options=sd["nlp_solver_options"])
        w.note("h solution", sol["x"])
        sol = w("solve", h.solve, max_iter=2)
        a = w("mpopt_adaptive", mp.mpopt_adaptive, ocp, 2, degrees)
        sol = w("solve", a.solve, nlp_solver_options=sd["nlp_solver_options"])
        w.note("adaptive solution", sol["x"])
        w("process_results", a.process_results, sol, plot=False)
        outs.append(w.out)
    compare(r, {"problem": "double integrator"}, outs[0], outs[1], "the second time")


def c20(r):
    r.rule = "(problem, class, scheme, degrees, call); distinct tuples"
    outcome(lambda out: whole(r))
    n, N = 0, (400 if r.thorough else 24)
    rng = r.rng
    while n < N and r.more(0.9):
        n += 1
        draw = n % 8 == 1
        cfg = random_cfg(rng, cls=str(rng.choice(["mpopt", "h", "h", "adaptive"])))
        # another problem with the same degrees on other nodes, and other settings
        other = random_cfg(rng, orders=list(cfg["orders"]), scheme=SCHEMES[(SCHEMES.index(cfg["scheme"]) + 1) % 3])
        inp = {"cfg": cfg, "other": other}

        def body():
            outcome(lambda out: isolation(r, cfg))
            first = outcome(use, r, cfg, inp, heavy=n % 3 == 0, draw=draw)

            def between():
                Q = Prob(other)
                q = Q.optimizer()
                q.create_nlp()
                q.grid_type = ["uniform"] * Q.n
                q.max_grid_points = [3] * Q.n
            again = outcome(use, r, cfg, dict(inp, interleaved=True), between=between, heavy=n % 3 == 0)
            if not draw:
                compare(r, inp, first, again, "while another optimizer is in use")
            a = outcome(collocation, r, cfg, inp)
            outcome(collocation, r, other, inp)
            b = outcome(collocation, r, cfg, inp)
            compare(r, inp, a, b, "after another discretisation was used")
        body()
    if ERRORS:
        r.rule += "; uses that ended with an error: %s" % ERRORS


ORACLES = {"C20": c20}
