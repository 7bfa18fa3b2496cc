"""Concrete oracles of the transcription, C05-C12 (and the adaptive C13)."""
import copy
import numpy as np
import casadi as ca
from mpopt import mp
from replay.problems import Prob, Ref, random_cfg, evaluate, vec, CLS, INF

TINY = {"cls": "mpopt", "scheme": "LGR", "orders": [2], "nx": 1, "nu": 1, "na": 0, "nph": 1}


def fixed_cfgs(base):
    """corner configurations tried before the random ones"""
    a = lambda n, v: [v] * n
    out = []
    for cls in base:
        for k, (orders, nx, nu, na, nph, scheme) in enumerate([([1], 1, 1, 0, 1, "LGR"), ([3, 1, 2], 2, 1, 1, 2, "LGL"), ([2, 2, 2], 3, 2, 0, 3, "LGR"), ([1, 1], 1, 3, 2, 2, "CGL"),
                                                              ([4, 2], 2, 3, 2, 1, "CGL"), ([5], 2, 2, 1, 3, "LGL"), ([2, 1, 3, 2], 1, 2, 2, 1, "LGR"), ([1], 2, 3, 1, 2, "LGL"),
                                                              ([1, 1, 1], 3, 2, 1, 1, "CGL")]):
            for on in (1, 0):
                out.append({"cls": cls, "scheme": scheme, "orders": orders, "nx": nx, "nu": nu, "na": na, "nph": nph, "seed": 100 + k, "unit_scale": False,
                            "int_order": False, "path": a(nph, on), "term": a(nph, on), "run": a(nph, 1), "cost": a(nph, 1), "midu": a(nph, on), "diff_u": a(nph, on),
                            "du_continuity": a(nph, on), "ubounded": a(nph, 1), "xbounded": a(nph, on), "links": None})
    # options differing between the phases
    for cls in base:
        out.append(dict(out[2], cls=cls, nph=3, path=[1, 0, 1], term=[0, 1, 0], run=[1, 0, 1], cost=[0, 1, 1], midu=[0, 1, 0], diff_u=[1, 0, 1], du_continuity=[0, 1, 0],
                        ubounded=[0, 1, 0], xbounded=[1, 0, 0], links=[[1, 2], [0, 1]]))
        out.append(dict(out[2], cls=cls, nph=2, orders=[1, 2], path=[0, 1], term=[1, 0], run=[0, 1], cost=[1, 0], midu=[1, 0], diff_u=[0, 1], du_continuity=[1, 0],
                        ubounded=[1, 0], xbounded=[0, 1], links=[[1, 0]]))
    return out


def stream(r, classes=("mpopt", "adaptive"), n=30, nt=400, **kw):
    for c in fixed_cfgs(classes):
        c = dict(c, **{k: v for k, v in kw.items() if k not in ("cls",)})
        yield c
    k = 0
    while k < (nt if r.thorough else n) and r.more():
        k += 1
        c = random_cfg(r.rng, int_order=bool(r.rng.rand() < 0.1))
        if c["cls"] not in classes and not (c["cls"] == "h" and "mpopt" in classes):
            c["cls"] = classes[r.rng.randint(len(classes))]
        c.update(kw)
        yield c


def order_of_phases(r, n):
    """calls for every phase, in an arbitrary order"""
    o = list(range(n))
    if r.rng.rand() < 0.5:
        o = o[::-1]
    return o


def prepared(P):
    m = P.optimizer()
    m.compute_numerical_approximation()
    m.create_variables()
    return m


TOL = dict(rtol=1e-7, atol=1e-6)


def flat(x):
    return np.asarray(x, dtype=float).ravel(order="F")


def c05(r):
    r.rule = "(class, scheme, degrees, sizes, phases, scaling, order of phases, times and widths); distinct tuples"
    for cfg in stream(r, n=120):
        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = prepared(P)
            # widths that do not sum to one are mapped too
            for rep, kind in ((0, None), (1, "random"), (2, "equal")):
                pt = R.point(r.rng, kind)
                for k in order_of_phases(r, P.n):
                    if rep == 0:
                        m.get_discretized_dynamics_constraints_and_cost_matrices(k)
                for k in range(P.n):
                    inp = {"cfg": cfg, "phase": k, "point": point_of(pt[k])}
                    r.case(inp)
                    t = evaluate(m, [ca.vertcat(*m.time_grid[k])], pt)[0]
                    r.close("times", "time of the collocation nodes", inp, t.ravel(), R.times(pt[k], k), **TOL)
            m2 = P.optimizer()
            m2.create_nlp()
            pt = R.point(r.rng)
            for k in range(P.n):
                inp = {"cfg": cfg, "phase": k, "through": "trajectories", "point": point_of(pt[k])}
                out = m2.init_trajectories(k)(R.flat(pt), R.widths(pt))
                r.close("traj", "trajectory times", inp, np.array(out[2]).ravel(), R.times(pt[k], k), **TOL)
                r.close("traj", "trajectory t0", inp, np.array(out[3]).ravel(), [pt[k]["t0"] / P.scale_t], **TOL)
                r.close("traj", "trajectory tf", inp, np.array(out[4]).ravel(), [pt[k]["tf"] / P.scale_t], **TOL)
        r.run("c05", cfg, body)


def point_of(v):
    return {k: np.round(np.asarray(x), 6).tolist() for k, x in v.items() if k in ("t0", "tf", "h", "A")}


def c06(r):
    r.rule = "(class, scheme, degrees, sizes, phases, scaling, user functions, decision values); distinct tuples"
    for cfg in stream(r, n=150):
        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = prepared(P)
            pts = [R.point(r.rng, kind) for kind in (None, "random")]
            for k in order_of_phases(r, P.n):
                f, c, q = m.get_discretized_dynamics_constraints_and_cost_matrices(k)
                for pt in pts:
                    inp = {"cfg": cfg, "phase": k, "point": point_of(pt[k])}
                    r.case(inp)
                    F, C, Q = R.samples(pt[k], k)
                    r.close("dyn", "sampled dynamics", inp, evaluate(m, [ca.vertcat(*f)], pt)[0], F, **TOL)
                    r.close("cost", "sampled running cost", inp, evaluate(m, [ca.vertcat(*q)], pt)[0].ravel(), Q, **TOL)
                    if len(C):
                        if not c:
                            r.fail("path", "path constraints of the user are not sampled", inp)
                        else:
                            r.close("path", "sampled path constraints", inp, evaluate(m, [ca.vertcat(*c)], pt)[0], C, **TOL)
                    elif c:
                        r.fail("path", "path constraints sampled although undefined", inp)
                    J = evaluate(m, [ca.mtimes(ca.DM(R.W).T, ca.vertcat(*q))], pt)[0]
                    r.close("integral", "quadrature of the running cost is not the sum of the segment integrals", inp, J.ravel(), [R.cost_integral(pt[k], k)], **TOL)
        r.run("c06", cfg, body)


def expect(r, key, what, inp, m, pts, got, want):
    """got: (expr, lb, ub) of the optimizer; want(pt) -> (g, lb, ub)"""
    e, lb, ub = got
    ev = vec(e)
    n = 0 if isinstance(ev, (list, tuple)) else ev.numel()
    for pt in pts:
        g, l, u = want(pt)
        if n != len(g) or len(flat(lb)) != len(flat(ub)) or len(flat(lb)) != n:
            r.fail(key, what + ": number of entries of constraint/lower/upper bounds", inp, [len(g)] * 3, [n, len(flat(lb)), len(flat(ub))])
            return
        if n:
            r.close(key, what + ": values", inp, flat(evaluate(m, [ev], pt)[0]), g, **TOL)
        r.close(key, what + ": lower bounds", inp, flat(lb), l, **TOL)
        r.close(key, what + ": upper bounds", inp, flat(ub), u, **TOL)


def c07(r):
    r.rule = "(class, scheme, degrees, sizes, phases, scaling, user functions, decision values); distinct tuples"
    for cfg in stream(r, n=120):
        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = prepared(P)
            pts = [R.point(r.rng) for _ in range(2)]
            z = lambda g, v: np.full(g.size, v)
            for k in order_of_phases(r, P.n):
                inp = {"cfg": cfg, "phase": k, "points": [point_of(p[k]) for p in pts]}
                r.case(inp)
                f, c, q = m.get_discretized_dynamics_constraints_and_cost_matrices(k)
                three = lambda g, lo, hi: (g, z(g, lo), z(g, hi))
                expect(r, "defect", "dynamics constraints", inp, m, pts, m.get_nlp_constraints_for_dynamics(f, k), lambda pt: three(R.defects(pt[k], k), 0.0, 0.0))
                expect(r, "path", "path constraints", inp, m, pts, m.get_nlp_constraints_for_path_contraints(c, k), lambda pt: three(R.path(pt[k], k), -INF, 0.0))
                TC, lo, hi, J = m.get_nlp_constraints_for_terminal_contraints(k)
                expect(r, "term", "terminal constraints", inp, m, pts, (TC, lo, hi), lambda pt: three(R.term(pt[k], k), 0.0, 0.0))
                for pt in pts:
                    r.close("mayer", "terminal cost", inp, evaluate(m, [J], pt)[0].ravel(), [R.mayer(pt[k], k)], **TOL)
        r.run("c07", cfg, body)


def c08(r):
    r.rule = "(scheme, degrees, sizes, phases, option flags per phase, control bounds per phase, decision values); distinct tuples"
    for cfg in stream(r, ("mpopt",), n=400):
        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = prepared(P)
            pts = [R.point(r.rng) for _ in range(2)]
            for k in order_of_phases(r, P.n):
                inp = {"cfg": cfg, "phase": k}
                r.case(inp)
                for i, (what, fn) in enumerate((("control slope limits", m.get_nlp_constraints_for_control_input_slope), ("mid-point control bounds", m.get_nlp_constrains_for_control_input_at_mid_colloc_points),
                                                ("control slope continuity", m.get_nlp_constrains_for_control_slope_continuity_across_segments))):
                    expect(r, ("du", "midu", "cont")[i], what, inp, m, pts, fn(k), lambda pt: R.opt_blocks(pt[k], k)[i])
        r.run("c08", cfg, body)


def c09(r):
    r.rule = "(class, phases, links, sizes, scaling, discontinuity bounds, decision values); distinct tuples"
    for cfg in stream(r, n=400):
        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = prepared(P)
            pts = [R.point(r.rng) for _ in range(2)]
            inp = {"cfg": cfg}
            r.case(inp)
            E, lo, hi = m.get_event_constraints()
            nb = [len(R.event_blocks(p)) for p in pts]
            ev = [e for e in E]
            if nb[0] == 0:
                cnt = sum(ca.SX(e).numel() if not isinstance(e, list) else len(e) for e in ev)
                if cnt or len(flat(np.concatenate([np.zeros(0)] + [flat(x) for x in lo]))):
                    r.fail("none", "linking constraints although there is no link", inp, 0, cnt)
                return
            cat = lambda bl: tuple(np.concatenate([b[i] for b in bl]) for i in range(3))
            expect(r, "links", "phase linking constraints", inp, m, pts, (ca.vertcat(*ev), np.concatenate([flat(x) for x in lo]), np.concatenate([flat(x) for x in hi])), lambda pt: cat(R.event_blocks(pt)))
        r.run("c09", cfg, body)


def c10(r):
    r.rule = "(class, sizes, phases, scaling, bounds incl. infinite); distinct tuples"
    for cfg in stream(r, n=400):
        if r.rng.rand() < 0.1:
            cfg = dict(cfg, crossed=True)

        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = prepared(P)
            pt = R.point(r.rng)
            one = copy.copy(cfg)
            for k in order_of_phases(r, P.n):
                inp = {"cfg": cfg, "phase": k}
                r.case(inp)
                Z, lo, hi = m.get_nlp_variables(k)
                sub = Ref(P).flat([pt[k]])
                if Z.numel() != len(sub) or len(flat(lo)) != len(sub) or len(flat(hi)) != len(sub):
                    r.fail("len", "number of variables / lower / upper bounds", inp, [len(sub)] * 3, [Z.numel(), len(flat(lo)), len(flat(hi))])
                    continue
                r.close("layout", "decision vector layout", inp, evaluate(m, [Z], pt)[0].ravel(), sub, **TOL)
                l, u = R.zbounds(k, m)
                r.close("lb", "lower bounds of the decision vector", inp, flat(lo), l, **TOL)
                r.close("ub", "upper bounds of the decision vector", inp, flat(hi), u, **TOL)
            npv = (R.N * (P.nx + P.nu) + 2 + P.na)
            if getattr(m, "_optimization_vars_per_phase", npv) != npv:
                r.fail("count", "number of optimization variables per phase", {"cfg": cfg}, npv, m._optimization_vars_per_phase)
        r.run("c10", cfg, body)


def c11(r):
    r.rule = "(class, sizes, phases, scaling, guesses); distinct tuples"
    for cfg in stream(r, n=200):
        def body():
            P = Prob(cfg)
            if cfg["seed"] % 6 == 0:
                P.tf0 = P.t00 - 0.75
            R = Ref(P)
            for how in ("fresh", "prepared", "nlp"):
                m = P.optimizer()
                if how == "prepared":
                    m.create_variables()
                if how == "nlp":
                    m.create_nlp()
                inp = {"cfg": cfg, "how": how}
                r.case(inp)
                for rep in range(2):
                    r.close("guess", "default initial guess", inp, flat(m.initialize_solution()), R.guess(), **TOL)
                ws = m.get_solver_warm_start_input_parameters(None)
                r.close("guess", "default initial guess handed to the solver", inp, flat(ws["x0"]), R.guess(), **TOL)
        r.run("c11", cfg, body)


# ------------------------------------------------------------------ assembly and solver call
class Recorder:
    """stands in for casadi.nlpsol; the created solvers record their inputs"""

    def __init__(self, rng):
        self.rng = rng
        self.created = []
        self.calls = []

    def __enter__(self):
        self.old = ca.nlpsol
        ca.nlpsol = self.nlpsol
        return self

    def __exit__(self, *a):
        ca.nlpsol = self.old

    def nlpsol(self, name, plugin, nlp, opts=None):
        n = len(self.created)
        self.created.append({"plugin": plugin, "nlp": dict(nlp), "opts": dict(opts or {}), "raw": nlp})
        nx, ng = nlp["x"].numel(), nlp["g"].numel()
        rec = self

        class Solver:
            def __call__(self, **kw):
                rec.calls.append((n, dict(kw)))
                sol = {"x": ca.DM(rec.rng.uniform(0.1, 1, nx)), "f": ca.DM(rec.rng.rand()), "lam_x": ca.DM(rec.rng.rand(nx)), "lam_g": ca.DM(rec.rng.rand(ng)),
                       "lam_p": ca.DM(0), "g": ca.DM(rec.rng.rand(ng))}
                return sol

            def stats(self):
                return {"success": True}
        return Solver()


def nlp_values(nlp, R, pts):
    hasp = "p" in nlp and R.P.cfg["cls"] != "adaptive"
    ins = [nlp["x"]] + ([ca.vec(nlp["p"])] if hasp else [])
    fn = ca.Function("n", ins, [nlp["f"], nlp["g"]])
    out = []
    for pt in pts:
        args = [R.flat(pt)] + ([R.widths(pt)] if hasp else [])
        f, g = fn(*args)
        out.append((float(f), flat(g)))
    return out


def full_reference(R, m, pt):
    bl = [R.phase_block(pt[k], k, m) for k in range(R.P.n)] + R.event_blocks(pt)
    return tuple(np.concatenate([b[i] for b in bl]) for i in range(3))


def check_nlp(r, inp, P, R, m, nlp, bounds, pts):
    cls = P.cfg["cls"]
    sizes = {"x": nlp["x"].numel(), "g": nlp["g"].numel(), "lbx": len(flat(bounds["lbx"])), "ubx": len(flat(bounds["ubx"])), "lbg": len(flat(bounds["lbg"])), "ubg": len(flat(bounds["ubg"]))}
    want = [full_reference(R, m, pt) for pt in pts]
    nz, ng = len(R.flat(pts[0])), len(want[0][0])
    ref = {"x": nz, "g": ng, "lbx": nz, "ubx": nz, "lbg": ng, "ubg": ng}
    if sizes != ref:
        r.fail("sizes", "sizes of the assembled NLP", inp, ref, sizes)
        return
    vals = nlp_values(nlp, R, pts)
    for (f, g), w, pt in zip(vals, want, pts):
        r.close("objective", "NLP objective", inp, [f], [sum(R.phase_cost(pt[k], k) for k in range(P.n))], **TOL)
    G = np.array([v[1] for v in vals] + [flat(bounds["lbg"]), flat(bounds["ubg"])])
    W = np.array([w[0] for w in want] + [want[0][1], want[0][2]])
    if not np.allclose(G, W, rtol=1e-6, atol=1e-6):
        # the order of a phase's own constraints is its own business
        a = sorted(map(tuple, np.where(np.isfinite(G), np.round(G, 5), np.sign(G) * 1e9).T.tolist()))
        b = sorted(map(tuple, np.where(np.isfinite(W), np.round(W, 5), np.sign(W) * 1e9).T.tolist()))
        if not np.allclose(a, b, rtol=1e-4, atol=1e-4):
            r.close("constraints", "NLP constraints and bounds (rows: values at the points, lower, upper)", inp, G, W, rtol=1e-6, atol=1e-6)
    lo, hi = [np.concatenate([R.zbounds(k, m)[i] for k in range(P.n)]) for i in (0, 1)]
    r.close("lbx", "NLP variable lower bounds", inp, flat(bounds["lbx"]), lo, **TOL)
    r.close("ubx", "NLP variable upper bounds", inp, flat(bounds["ubx"]), hi, **TOL)


IPOPT = {"ipopt.max_iter": 2000, "ipopt.acceptable_tol": 1e-4, "ipopt.print_level": 0, "ipopt.sb": "yes", "print_time": 0}


def c12(r):
    r.rule = "(class, scheme, degrees, sizes, phases, options, links, decision values; for solves: history of solves with warm starts, options, widths); distinct tuples"
    for cfg in stream(r, n=25):
        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = P.optimizer()
            for rep in range(2):
                pts = [R.point(r.rng) for _ in range(2)]
                inp = {"cfg": cfg, "create_nlp": rep + 1}
                r.case(inp)
                nlp, bounds = m.create_nlp()
                check_nlp(r, inp, P, R, m, nlp, bounds, pts)
        r.run("c12nlp", cfg, body)
    for cfg in stream(r, n=25):
        def body():
            solves(r, cfg)
        r.run("c12solve", cfg, body)


def random_solve_args(r, m, R, P, last):
    rng = r.rng
    kw, desc = {}, {}
    ch = rng.randint(7)
    nz = len(R.guess())
    if ch == 1 and last is not None:
        kw["initial_solution"] = last
    elif ch == 2:
        kw["initial_solution"] = {"x": ca.DM(rng.rand(nz))}
    elif ch == 3:
        kw["initial_solution"] = {"x0": rng.rand(nz)}
    elif ch == 4:
        kw["initial_solution"] = {"x0": rng.rand(nz), "lam_x0": rng.rand(nz), "lam_g0": rng.rand(m_ng(m))} if m_ng(m) else {}
    elif ch == 5:
        kw["initial_solution"] = {"f": 1.0, "lam_x": ca.DM(rng.rand(nz))}
    if rng.rand() < 0.3:
        kw["reinitialize_nlp"] = True
    if rng.rand() < 0.4:
        kw["nlp_solver_options"] = [{"ipopt.max_iter": 7}, {"print_time": 1, "ipopt.tol": 1e-3}, {}][rng.randint(3)]
    if rng.rand() < 0.2:
        kw["solver"] = "sqpmethod"
    if rng.rand() < 0.4 and P.cfg["cls"] == "mpopt":
        w = rng.rand(R.S * P.n)
        kw["mpopt_options"] = {"nlp_sw_params": [float(v) for v in w]} if rng.rand() < 0.7 else {"other": 1}
    elif rng.rand() < 0.2:
        kw["mpopt_options"] = {}
    return kw


def m_ng(m):
    return m.G.numel() if getattr(m, "_nlpsolver_initialized", False) and hasattr(m, "G") else 0


def describe(kw):
    out = {}
    for k, v in kw.items():
        out[k] = {a: (flat(b)[:4].tolist() if not isinstance(b, (int, str, float)) else b) for a, b in v.items()} if isinstance(v, dict) else v
    return out


def solves(r, cfg):
    if cfg["cls"] == "h":
        cfg = dict(cfg, cls="mpopt")
    P = Prob(cfg)
    R = Ref(P)
    m = P.optimizer()
    hist, last = [], None
    KEY = {"x": "x0", "x0": "x0", "lam_x": "lam_x0", "lam_x0": "lam_x0", "lam_g": "lam_g0", "lam_g0": "lam_g0"}
    with Recorder(r.rng) as rec:
        for step in range(6 if r.thorough else 4):
            kw = random_solve_args(r, m, R, P, last) if step else [{}, {"nlp_solver_options": {"ipopt.tol": 1e-2, "ipopt.print_level": 3}}, {"reinitialize_nlp": True}][r.rng.randint(3)]
            hist.append(describe(kw))
            inp = {"cfg": cfg, "solves": list(hist)}
            r.case(inp)
            before = copy.deepcopy(kw)
            nc, ncalls = len(rec.created), len(rec.calls)
            last = m.solve(**kw)
            build = step == 0 or bool(kw.get("reinitialize_nlp"))
            if len(rec.created) - nc != int(build):
                r.fail("rebuild", "number of NLP constructions in this solve", inp, int(build), len(rec.created) - nc)
                return
            if build:
                c = rec.created[-1]
                plugin = kw.get("solver", "ipopt")
                opts = dict(IPOPT) if plugin == "ipopt" else {}
                opts.update(kw.get("nlp_solver_options", {}))
                if c["plugin"] != plugin:
                    r.fail("solver", "chosen NLP solver", inp, plugin, c["plugin"])
                if c["opts"] != opts:
                    r.fail("options", "options of the NLP solver", inp, opts, c["opts"])
                if ("p" in c["nlp"]) != (cfg["cls"] != "adaptive"):
                    r.fail("params", "segment widths as NLP parameters", inp)
                check_nlp(r, inp, P, R, m, c["nlp"], m.nlp_bounds, [R.point(r.rng)])
            if len(rec.calls) - ncalls != 1:
                r.fail("calls", "number of NLP solver calls in this solve", inp, 1, len(rec.calls) - ncalls)
                return
            idx, got = rec.calls[-1]
            if idx != len(rec.created) - 1:
                r.fail("stale", "the NLP solver called is not the latest one", inp, len(rec.created) - 1, idx)
            init = before.get("initial_solution")
            want = {}
            for k, v in (init or {}).items():
                if k in KEY:
                    want[KEY[k]] = flat(v)
            if "x0" not in want:
                want["x0"] = R.guess()
            if cfg["cls"] != "adaptive":
                want["p"] = np.asarray(kw.get("mpopt_options", {}).get("nlp_sw_params", np.full(R.S * P.n, 1.0 / R.S)))
            lo, hi = [np.concatenate([R.zbounds(k, m)[i] for k in range(P.n)]) for i in (0, 1)]
            pt = R.point(r.rng)
            fr = full_reference(R, m, pt)
            want.update({"lbx": lo, "ubx": hi, "lbg": fr[1], "ubg": fr[2]})
            if set(got) != set(want):
                r.fail("inputs", "inputs of the NLP solver", inp, sorted(want), sorted(got))
                return
            for k in want:
                a, b = flat(got[k]), flat(want[k])
                if k in ("lbg", "ubg") and a.shape == b.shape:
                    a, b = np.sort(a), np.sort(b)
                r.close("input-" + k, "NLP solver input " + k, inp, a, b, **TOL)
            if cfg["cls"] == "adaptive":
                # segment widths of the solution are stored
                sw = []
                npv = R.N * (P.nx + P.nu) + 2 + P.na + R.S
                x = flat(last["x"])
                for k in range(P.n):
                    sw += list(x[k * npv + npv - R.S:(k + 1) * npv])
                r.close("stored-widths", "stored segment widths of the adaptive solution", inp, flat(m._nlp_sw_params), sw, **TOL)
            else:
                r.close("stored-widths", "stored segment widths", inp, flat(m._nlp_sw_params), want["p"], **TOL)


def c13(r):
    r.rule = "(scheme, degrees, sizes, phases, bounds, tolerance, widths limits, decision values); distinct tuples"
    for cfg in stream(r, ("adaptive",), n=60):
        cfg = dict(cfg, mid_residuals=bool(r.rng.rand() < 0.8))

        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = P.optimizer()
            m.compute_numerical_approximation()
            m.create_variables()
            pts = [R.point(r.rng, kind) for kind in (None, "random")]
            for k in order_of_phases(r, P.n):
                m.get_discretized_dynamics_constraints_and_cost_matrices(k)
            for k in order_of_phases(r, P.n):
                inp = {"cfg": cfg, "phase": k, "points": [point_of(p[k]) for p in pts]}
                r.case(inp)
                expect(r, "widths", "segment width constraints", inp, m, pts, m.get_nlp_constrains_for_segment_widths(k), lambda pt: R.width_block(pt[k], k, m))
                Z, lo, hi = m.get_nlp_variables(k)
                l, u = R.zbounds(k, m)
                r.close("vars", "decision vector with segment widths", inp, evaluate(m, [Z], pts[0])[0].ravel(), R.flat([pts[0][k]]), **TOL)
                r.close("lb", "lower bounds with segment widths", inp, flat(lo), l, **TOL)
                r.close("ub", "upper bounds with segment widths", inp, flat(hi), u, **TOL)
            m = P.optimizer()
            for rep in range(2):
                nlp, bounds = m.create_nlp()
                check_nlp(r, {"cfg": cfg, "create_nlp": rep + 1}, P, R, m, nlp, bounds, [R.point(r.rng), R.point(r.rng, "random")])
        r.run("c13", cfg, body)
        if r.rng.rand() < 0.3:
            r.run("c13solve", cfg, lambda: solves(r, cfg))


ORACLES = {"C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13}
