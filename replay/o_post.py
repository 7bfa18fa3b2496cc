"""Concrete oracles of the evaluation grids, residuals and post-processing, C16-C18."""
import copy
import numpy as np
import casadi as ca
from mpopt import mp
from replay.problems import Prob, Ref, random_cfg, setup
from replay.o_colloc import ref_nodes, Cref, Dref
from replay.o_nlp import stream, flat, TOL, point_of

GRIDS = ["fixed", "mid-points", "spectral"]
RT = dict(rtol=1e-6, atol=1e-6)


def assigned_ref(nodes, widths, a, b):
    """points of every segment by the left-open right-closed rule (exact for dyadic inputs)"""
    c = np.append(0.0, np.cumsum(widths))
    c[-1] = 1.0
    out = []
    for k, h in enumerate(widths):
        seg = []
        for x in nodes:
            l = (x - a) / (b - a)
            if c[k] < l <= c[k + 1]:
                seg.append(a + (b - a) * (l - c[k]) / h)
        out.append(seg)
    return out


def c16(r):
    r.rule = "(points, widths, interval) of the assignment and (class, scheme, degrees, grid type, widths, grid size) of the residual grids; distinct tuples"
    fn = mp.mpopt.compute_interpolation_taus_corresponding_to_original_grid
    fixed = [([0.5, 1.0], [0.5, 0.5]), ([0.0, 0.25, 0.5, 1.0], [0.25, 0.25, 0.5]), ([1.0], [1.0]), ([0.125], [0.5, 0.25, 0.25]), ([], [0.5, 0.5]), ([0.75, 1.0], [0.25, 0.25, 0.25, 0.25])]
    n, N = 0, (3000 if r.thorough else 400)
    while n < N and r.more(0.4):
        dy = r.rng.rand() < 0.5
        if n < len(fixed):
            pts, w = fixed[n]
        elif dy:
            S = int(r.rng.randint(1, 6))
            cuts = sorted(r.rng.choice(np.arange(1, 64), S - 1, replace=False)) if S > 1 else []
            w = list(np.diff(np.array([0] + list(cuts) + [64])) / 64.0)
            pts = list(np.sort(r.rng.choice(np.arange(0, 129), int(r.rng.randint(0, 20)), replace=False)) / 128.0)
        else:
            S = int(r.rng.randint(1, 7))
            w = r.rng.uniform(0.05, 1, S)
            w = list(w / w.sum())
            pts = list(np.sort(r.rng.uniform(0, 1, int(r.rng.randint(0, 25)))))
            if r.rng.rand() < 0.5:
                pts = [0.0] + pts + [1.0]
        S = len(w)
        if n % 3 == 2 and S > 1 and n >= len(fixed):
            # points just before, on and just behind the boundaries
            d = 10.0 ** r.rng.uniform(-12, -4, S - 1)
            cuts = np.cumsum(w)[:-1]
            pts = sorted(set([p for p in pts if min(abs(p - cuts)) > 1e-3] + [float(c + v * s) for c, v in zip(cuts, d) for s in (-1, 1)] + ([float(c) for c in cuts] if dy else [])))
        a, b = [(0.0, 1.0), (-1.0, 1.0), (0.0, 2.0), (-2.0, 2.0)][r.rng.randint(4)]
        n += 1
        nodes = [a + (b - a) * p for p in pts]
        if not dy and any(abs(p - c) < 1e-13 for p in pts for c in np.cumsum(w)[:-1]):
            continue
        inp = {"points": [float(x) for x in nodes], "widths": [float(x) for x in w], "interval": [a, b]}

        def body():
            want = assigned_ref(nodes, w, a, b)
            for kind in ("array", "list"):
                ww = np.array(w) if kind == "array" else list(w)
                got = fn(np.array(nodes), ww, a, b) if not (a == 0 and b == 1) else fn(np.array(nodes), ww)
                if len(got) != len(w):
                    r.fail("count", "number of segment lists", inp, len(w), len(got))
                    return
                for k in range(len(w)):
                    r.close("assign", "points of segment %d" % k, inp, np.asarray(got[k], dtype=float).ravel(), np.array(want[k]), **TOL)
        r.run("assign", inp, body)
    for cfg in stream(r, ("mpopt", "adaptive"), n=60):
        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = P.optimizer()
            m.create_nlp()
            mgp = int(r.rng.choice([1, 2, 5, 15, 40]))
            m._MAX_GRID_POINTS = mgp
            w = np.concatenate([random_widths(r, R.S) for _ in range(P.n)])
            m._nlp_sw_params = w if r.rng.rand() < 0.7 else [float(x) for x in w]
            own = [GRIDS[r.rng.randint(3)] for _ in range(P.n)]
            m.grid_type = list(own)
            for k in range(P.n):
                for gt in [None] + GRIDS:
                    inp = {"cfg": cfg, "phase": k, "grid": gt, "grid types": own, "grid points": mgp, "widths": np.round(w, 12).tolist()}
                    r.case(inp)
                    got = m.get_residual_grid_taus(k, gt)
                    g = gt or own[k]
                    wk = w[R.S * k:R.S * (k + 1)]
                    if len(got) != R.S:
                        r.fail("grid-count", "number of segment lists", inp, R.S, len(got))
                        continue
                    inner = [np.asarray(x, dtype=float).ravel() for x in got]
                    check_grid(r, inp, g, inner, R, wk, mgp)
        r.run("grid", cfg, body)


def random_widths(r, S):
    c = r.rng.randint(4)
    if c == 0:
        return np.full(S, 1.0 / S)
    w = r.rng.uniform(0.01 if c == 1 else 0.2, 1, S)
    if c == 3 and S > 1:
        w[r.rng.randint(S)] = 1e-3
    return w / w.sum()


def check_grid(r, inp, g, inner, R, wk, mgp):
    cum = np.append(0, np.cumsum(wk))
    rel = [cum[s] + wk[s] * (x + 1) / 2 for s, x in enumerate(inner)]
    allr = np.concatenate(rel) if rel else np.zeros(0)
    if (allr <= 1e-9).any() or (allr >= 1 - 1e-9).any():
        r.fail("interior", "points strictly inside the phase", inp, "all in (0,1)", allr[(allr <= 1e-9) | (allr >= 1 - 1e-9)])
    for s, x in enumerate(inner):
        if (x <= -1 - 1e-9).any() or (x > 1 + 1e-9).any() or (np.diff(x) <= 0).any():
            r.fail("local", "local coordinates of segment %d increase inside the segment" % s, inp, "in (-1,1]", x)
    if g == "fixed":
        n = max(sum(R.orders) + 2, mgp + 2)
        want = np.linspace(0, 1, n)[1:-1]
        r.close("uniform", "all interior points of the uniform grid", inp, allr, want, **TOL)
        for s, x in enumerate(rel):
            if (x <= cum[s] - 1e-9).any() or (x > cum[s + 1] + 1e-9).any():
                r.fail("own", "points belong to their segment", inp, [cum[s], cum[s + 1]], x)
    elif g == "mid-points":
        for s, x in enumerate(inner):
            nd = R.nodes[s]
            r.close("mid", "mid points of segment %d" % s, inp, x, (nd[1:] + nd[:-1]) / 2, **TOL)
    else:
        for s, x in enumerate(inner):
            r.close("spectral", "spectral points of segment %d" % s, inp, x, ref_nodes(R.scheme, mgp + 2)[1:-1], **TOL)


class Sol:
    """polynomial interpolants of a solution"""

    def __init__(self, R, pt):
        self.R, self.pt, self.P = R, pt, R.P
        self.off = [sum(R.orders[:s]) for s in range(R.S)]

    def loc(self, k, s, taus, order=0, what="X"):
        R = self.R
        V = self.pt[k][what][self.off[s]:self.off[s] + R.orders[s] + 1]
        t = np.asarray(taus, dtype=float)
        if t.size == 0:
            return np.zeros((0, V.shape[1]))
        return (Cref(R.nodes[s], t) if order == 0 else Dref(R.nodes[s], t, order)) @ V

    def time(self, k, s, taus):
        R, v = self.R, self.pt[k]
        t0, tf = v["t0"] / self.P.scale_t, v["tf"] / self.P.scale_t
        return t0 + (tf - t0) * (sum(v["h"][:s]) + v["h"][s] * (np.asarray(taus, dtype=float) + 1) / 2)

    def h(self, k, s):
        v = self.pt[k]
        return (v["tf"] - v["t0"]) / self.P.scale_t * v["h"][s] / 2

    def dyn(self, k, s, taus):
        """segment-time-scaled, state-scaled dynamics"""
        P = self.P
        x, u, t = self.loc(k, s, taus) / P.scale_x, self.loc(k, s, taus, 0, "U") / P.scale_u, self.time(k, s, taus)
        a = self.pt[k]["A"] / P.scale_a
        return np.array([self.h(k, s) * P.scale_x * np.array(P.f(k, x[i], u[i], t[i], a), dtype=float) for i in range(len(t))]).reshape(len(t), P.nx)

    def residual(self, k, s, taus):
        return self.loc(k, s, taus, 1) - self.dyn(k, s, taus)

    def state_residual(self, k, s, taus):
        F = self.dyn(k, s, taus)
        taus = np.asarray(taus, dtype=float)
        co = np.array([np.linalg.solve(np.vander(taus, increasing=True), F[:, i]) for i in range(F.shape[1])]).T if len(taus) else None
        out, est = [], []
        for tau in taus:
            w = np.array([(tau ** (j + 1) - (-1.0) ** (j + 1)) / (j + 1) for j in range(len(taus))])
            xi = self.pt[k]["X"][self.off[s]] + w @ co
            est.append(xi)
            out.append(self.loc(k, s, [tau])[0] - xi)
        return np.array(out), np.array(est)


def solution_of(R, pt, extra=None):
    return {"x": ca.DM(R.flat(pt)), "f": ca.DM(1.0)}


def with_solution(r, cfg, kind=None):
    P = Prob(cfg)
    R = Ref(P)
    m = P.optimizer()
    m.create_nlp()
    pt = R.point(r.rng)
    for v in pt:
        v["h"] = random_widths(r, R.S)
    w = R.widths(pt)
    m._nlp_sw_params = w if cfg["cls"] == "adaptive" or r.rng.rand() < 0.7 else [float(x) for x in w]
    return P, R, m, pt, Sol(R, pt), solution_of(R, pt)


def seg_rows(x, n):
    """list entry of a segment as an (points, n) array"""
    if x is None or len(x) == 0:
        return np.zeros((0, n))
    return np.array([np.asarray(v, dtype=float).ravel() for v in x]).reshape(len(x), n)


def times_of(x):
    return np.zeros(0) if x is None or len(x) == 0 else np.array([float(np.asarray(v, dtype=float).ravel()[0]) for v in x])


def random_nodes(r, R, P):
    out = []
    for k in range(P.n):
        out.append([np.sort(r.rng.uniform(-0.99, 1, int(r.rng.randint(1, 4)))) for s in range(R.S)])
    return out


def c17(r):
    r.rule = "(class, scheme, degrees, sizes, phases, scaling, widths, grid or requested points, solution); distinct tuples"
    for cfg in stream(r, n=45):
        def body():
            P, R, m, pt, sol, S = with_solution(r, cfg)
            own = [GRIDS[r.rng.randint(3)] for _ in range(P.n)]
            m.grid_type = list(own)
            m._MAX_GRID_POINTS = int(r.rng.choice([2, 4, 7]))
            modes = [("own", None, None), (GRIDS[r.rng.randint(3)], None, None), ("nodes", random_nodes(r, R, P), None)]
            for mode, nodes, _ in modes:
                gt = mode if mode in GRIDS else None
                taus = nodes if nodes is not None else [m.get_residual_grid_taus(k, gt) for k in range(P.n)]
                inp = {"cfg": cfg, "mode": mode, "grid types": own, "nodes": nodes, "point": [point_of(v) for v in pt]}
                r.case(inp)
                ti, res = m.get_dynamics_residuals(S, nodes=nodes, grid_type=gt)
                for k in range(P.n):
                    for s in range(R.S):
                        tt = np.asarray(taus[k][s], dtype=float).ravel()
                        r.close("times", "residual times, phase %d segment %d" % (k, s), inp, times_of(ti[k][s]), sol.time(k, s, tt), **RT)
                        r.close("residual", "dynamics residual, phase %d segment %d" % (k, s), inp, seg_rows(res[k][s], P.nx), sol.residual(k, s, tt), **RT)
                # second derivatives
                if mode == "own":
                    g2 = [m.get_residual_grid_taus(k, "spectral") for k in range(P.n)]
                    ti, DX, DU = m.get_state_second_derivative(S)
                else:
                    g2 = taus
                    ti, DX, DU = m.get_state_second_derivative(S, grid_type=gt, nodes=nodes) if gt else m.get_state_second_derivative(S, nodes=nodes)
                for k in range(P.n):
                    for s in range(R.S):
                        tt = np.asarray(g2[k][s], dtype=float).ravel()
                        if not len(tt):
                            continue
                        r.close("times2", "second derivative times", inp, times_of(ti[k][s]), sol.time(k, s, tt), **RT)
                        r.close("ddx", "second derivative of the states, phase %d segment %d" % (k, s), inp, seg_rows(DX[k][s], P.nx), sol.loc(k, s, tt, 2), **RT)
                        r.close("ddu", "second derivative of the controls, phase %d segment %d" % (k, s), inp, seg_rows(DU[k][s], P.nu), sol.loc(k, s, tt, 2, "U"), **RT)
                for k in range(P.n):
                    # one phase, own grid
                    if mode == "own":
                        a_, b_, c_ = m.get_state_second_derivative_single_phase(S, k)
                        for s in range(R.S):
                            tt = np.asarray(taus[k][s], dtype=float).ravel()
                            if len(tt):
                                r.close("ddx1", "second derivative, own grid", inp, seg_rows(b_[s], P.nx), sol.loc(k, s, tt, 2), **RT)
                # state residuals
                if gt is None:
                    xi, ui, ti, rx = m.get_states_residuals(S, nodes=nodes)
                    for k in range(P.n):
                        for s in range(R.S):
                            tt = np.asarray(taus[k][s], dtype=float).ravel()
                            if not len(tt):
                                continue
                            want, est = sol.state_residual(k, s, tt)
                            r.close("xtimes", "state residual times", inp, times_of(ti[k][s]), sol.time(k, s, tt), **RT)
                            r.close("xres", "state residual, phase %d segment %d" % (k, s), inp, seg_rows(rx[k][s], P.nx), want, rtol=1e-4, atol=1e-4)
                            r.close("xint", "integrated state, phase %d segment %d" % (k, s), inp, seg_rows(xi[k][s], P.nx), est, rtol=1e-4, atol=1e-4)
                            r.close("uint", "interpolated control, phase %d segment %d" % (k, s), inp, seg_rows(ui[k][s], P.nu), sol.loc(k, s, tt, 0, "U"), **RT)
                    if P.n > 1:
                        ph = [P.n - 1]
                        xi, ui, ti, rx = m.get_states_residuals(S, phases=ph, nodes=nodes)
                        if rx[0] is not None and P.n > 1:
                            r.fail("phases", "state residuals of a phase that was not requested", inp)
                        for s in range(R.S):
                            tt = np.asarray(taus[ph[0]][s], dtype=float).ravel()
                            if len(tt):
                                r.close("xphase", "state residual of a requested phase", inp, seg_rows(rx[ph[0]][s], P.nx), sol.state_residual(ph[0], s, tt)[0], rtol=1e-4, atol=1e-4)
                relative(r, inp, m, S, sol, P, R, taus, nodes, gt)
        r.run("c17", cfg, body)


def relative(r, inp, m, S, sol, P, R, taus, nodes, gt):
    try:
        ti, res = m.get_dynamics_residuals(S, nodes=nodes, grid_type=gt, residual_type="relative")
    except AssertionError:
        return      # coarse solutions: relative residual above one is refused
    for k in range(P.n):
        F = [sol.dyn(k, s, np.asarray(taus[k][s], dtype=float).ravel()) for s in range(R.S)]
        big = np.max([abs(f).max(axis=0) for f in F if len(f)], axis=0)
        for s in range(R.S):
            tt = np.asarray(taus[k][s], dtype=float).ravel()
            r.close("relative", "relative dynamics residual", inp, seg_rows(res[k][s], P.nx), sol.residual(k, s, tt) / big, rtol=1e-5, atol=1e-5)


def c18(r):
    r.rule = "(class, scheme, degrees, sizes, phases, scaling, widths, solution, list of phases, interpolation, retrieval of scaled values); distinct tuples"
    many_nodes(r)
    for cfg in stream(r, n=60):
        def body():
            P, R, m, pt, sol, S = with_solution(r, cfg)
            m._MAX_GRID_POINTS = 4
            raw = bool(r.rng.rand() < 0.4)
            plan = [[k] for k in range(P.n)]
            plan.append([int(v) for v in r.rng.permutation(P.n)])
            plan.append([int(v) for v in r.rng.randint(0, P.n, int(r.rng.randint(1, 4)))])
            post = m.process_results(S, plot=False, scaling=raw, residual_dx=bool(r.rng.rand() < 0.3)) if r.rng.rand() < 0.8 else m.process_results(S, False, raw)
            sx, su, sa = (1, 1, 1) if raw else (P.scale_x, P.scale_u, P.scale_a)
            for phases in plan:
                inp = {"cfg": cfg, "phases": phases, "raw": raw, "point": [point_of(v) for v in pt]}
                r.case(inp)
                x, u, t, a = post.get_data(list(phases))
                want = [np.concatenate([f(k) for k in phases]) for f in (lambda k: pt[k]["X"] / sx, lambda k: pt[k]["U"] / su, lambda k: R.times(pt[k], k), lambda k: pt[k]["A"] / sa)]
                r.close("x", "states at the mesh nodes", inp, x, want[0], **TOL)
                r.close("u", "controls at the mesh nodes", inp, u, want[1], **TOL)
                r.close("t", "times of the mesh nodes", inp, np.asarray(t).ravel(), want[2], **TOL)
                r.close("a", "parameters", inp, np.asarray(a, dtype=float).ravel(order="F"), want[3], **TOL)
                interp(r, inp, post, phases, sol, P, R, pt, sx, su, want[3])
            # the phases to be plotted are the default
            d = getattr(m._ocp, "phases_to_plot", None) or P.ocp().phases_to_plot
            x, u, t, a = post.get_data()
            r.close("default", "default phases", {"cfg": cfg, "phases": "default", "raw": raw}, x, np.concatenate([pt[k]["X"] / sx for k in d[0]]), **TOL)
            for k in range(P.n):
                x, u, t, a = post.get_trajectories(k)
                r.close("traj", "trajectories of a phase", {"cfg": cfg, "phase": k, "raw": raw}, x, pt[k]["X"] / sx, **TOL)
                r.close("trajt", "trajectory times of a phase", {"cfg": cfg, "phase": k, "raw": raw}, np.asarray(t).ravel(), R.times(pt[k], k), **TOL)
        r.run("c18", cfg, body)


def many_nodes(r):
    """time points of interpolated data for segments of high degree (the values at them are ill-conditioned there)"""
    setup()
    for orders in ([12, 3], [26], [3, 30, 1], [27, 25], [40, 2], [49, 51]):
        for scheme in ("LGR", "LGL", "CGL"):
            N = sum(orders) + 1
            mesh = np.concatenate([[0.0]] + [s + (ref_nodes(scheme, p)[1:] + 1) / 2 for s, p in enumerate(orders)])
            traj = [lambda z, w, k=k: [ca.DM(np.tile(mesh, (2, 1)).T), ca.DM(mesh), ca.DM(mesh + 10 * k), ca.DM([0]), ca.DM([1]), ca.DM.zeros(0, 1)] for k in range(2)]
            post = mp.post_process({"x": 0}, traj, {"nx": 2, "nu": 1, "na": 0, "seg_widths": 0, "poly_orders": list(orders), "colloc_scheme": scheme, "phases_to_plot": [(0,)]})
            for phases in ([0], [1, 0]):
                inp = {"orders": orders, "scheme": scheme, "phases": phases}

                def body():
                    x, u, t, a = post.get_data(list(phases), True)
                    t = np.asarray(t, dtype=float).ravel()
                    if not len(x) == len(u) == len(t):
                        r.fail("rows", "matching row counts of times, states and controls", inp, None, [len(x), len(u), len(t)])
                        return
                    n = len(t) // len(phases)
                    for i, k in enumerate(phases):
                        part = t[i * n:(i + 1) * n] - 10 * k
                        if (np.diff(part) <= 0).any():
                            r.fail("increasing", "interpolated times strictly increase", inp, None, part.tolist())
                        elif abs(part[0]) > 1e-9 or abs(part[-1] - len(orders)) > 1e-9:
                            r.fail("cover", "interpolated times cover the phase", inp, [0, len(orders)], [part[0], part[-1]])
                r.run("many nodes", inp, body)


def interp(r, inp, post, phases, sol, P, R, pt, sx, su, aw):
    X, U, T, A = post.get_data(list(phases), interpolate=True)
    X, U, T = np.asarray(X, dtype=float), np.asarray(U, dtype=float), np.asarray(T, dtype=float).ravel()
    if not (len(X) == len(U) == len(T)) or len(T) % len(phases):
        r.fail("rows", "matching row counts of times, states and controls", inp, None, [len(X), len(U), len(T)])
        return
    r.close("ia", "parameters with interpolated data", inp, np.asarray(A, dtype=float).ravel(order="F"), aw, **TOL)
    n = len(T) // len(phases)
    for i, k in enumerate(phases):
        x, u, t = X[i * n:(i + 1) * n], U[i * n:(i + 1) * n], T[i * n:(i + 1) * n]
        mesh = R.times(pt[k], k)
        if (np.diff(t) <= 0).any():
            r.fail("increasing", "interpolated times strictly increase within phase %d" % k, inp, None, t[:-1][np.diff(t) <= 0])
            return
        if abs(t[0] - mesh[0]) > 1e-8 * (1 + abs(mesh[0])) or abs(t[-1] - mesh[-1]) > 1e-8 * (1 + abs(mesh[-1])):
            r.fail("cover", "interpolated times cover the phase", inp, [mesh[0], mesh[-1]], [t[0], t[-1]])
            return
        br = mesh[np.cumsum([0] + R.orders)]
        wx, wu = [], []
        for j, v in enumerate(t):
            s = int(min(max(np.searchsorted(br, v - 1e-9 * (br[-1] - br[0]), side="right") - 1, 0), R.S - 1))
            tau = -1 + 2 * (v - br[s]) / (br[s + 1] - br[s])
            wx.append(sol.loc(k, s, [tau])[0] / sx)
            wu.append(sol.loc(k, s, [tau], 0, "U")[0] / su)
        r.close("ix", "interpolated states of phase %d" % k, inp, x, np.array(wx), rtol=1e-5, atol=1e-5)
        r.close("iu", "interpolated controls of phase %d" % k, inp, u, np.array(wu), rtol=1e-5, atol=1e-5)


ORACLES = {"C16": c16, "C17": c17, "C18": c18}
