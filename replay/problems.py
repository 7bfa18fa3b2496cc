"""Random optimal-control problems (JSON-able configurations) shared by the
concrete oracles, and an independent numpy transcription of them."""
import numpy as np
import casadi as ca
from mpopt import mp
from replay.o_colloc import ref_nodes, Dref, Cref, Qref, compD, compQ, comp_rows

INF = np.inf
CLS = {"mpopt": mp.mpopt, "h": mp.mpopt_h_adaptive, "adaptive": mp.mpopt_adaptive}


def setup():
    mp.Collocation.D_MATRIX_METHOD = "numerical"
    mp.mpopt._MUTE_ = True
    for c in CLS.values():
        c._MUTE_ = True


def random_cfg(rng, **kw):
    nph = int(rng.choice([1, 1, 2, 2, 3, 3, 4]) if rng.rand() < 0.93 else rng.randint(4, 7))
    S = int(rng.choice([1, 2, 2, 3, 4]) if rng.rand() < 0.92 else rng.randint(5, 11))
    top = 5 if rng.rand() < 0.85 else 9
    cfg = {"cls": str(rng.choice(["mpopt", "mpopt", "h", "adaptive"])), "scheme": str(rng.choice(["LGR", "LGL", "CGL"])),
           "orders": [int(v) for v in rng.randint(1, top, S)], "nx": int(rng.choice([1, 2, 2, 3, 3, 5])), "nu": int(rng.choice([1, 1, 2, 2, 3, 4])),
           "na": int(rng.choice([0, 0, 0, 1, 2, 3])), "nph": nph, "seed": int(rng.randint(1 << 30)), "unit_scale": bool(rng.rand() < 0.15),
           "int_order": False}
    cfg.update(kw)
    if cfg.get("int_order"):
        cfg["orders"] = [cfg["orders"][0]] * len(cfg["orders"])
    n = cfg["nph"]
    for k, pr in (("path", 0.6), ("term", 0.6), ("run", 0.8), ("cost", 0.7), ("midu", 0.6), ("diff_u", 0.5), ("du_continuity", 0.5), ("ubounded", 0.7), ("xbounded", 0.7)):
        if k not in kw:
            cfg[k] = [int(rng.rand() < pr) for _ in range(n)]
    if "links" not in kw:
        opts = [None]
        if n == 2:
            opts += [[[1, 0]], []]
        if n == 3:
            opts += [[[0, 2]], [[1, 2], [0, 1]], [[0, 1], [0, 2]], [[2, 0], [0, 1]], []]
        if n > 3:
            opts += [[[i, (i + 2) % n] for i in range(n - 1)], [[i + 1, i] for i in range(n - 1)], [[0, i] for i in range(1, n)], [[0, n - 1]], [[i, i + 1] for i in range(n - 2)], []]
        cfg["links"] = opts[rng.randint(len(opts))]
    return cfg


class Prob:
    """the user's problem of a configuration"""

    def __init__(self, cfg):
        self.cfg = cfg
        rng = np.random.RandomState(cfg["seed"])
        self.rng = rng
        nx, nu, na, n = cfg["nx"], cfg["nu"], cfg["na"], cfg["nph"]
        self.nx, self.nu, self.na, self.n = nx, nu, na, n
        r = lambda *s: np.round(rng.uniform(-1, 1, s), 3)
        pos = lambda *s: np.round(rng.uniform(0.3, 3, s), 3)
        one = cfg.get("unit_scale")
        self.scale_x = np.ones(nx) if one else pos(nx)
        self.scale_u = np.ones(nu) if one else pos(nu)
        self.scale_a = np.ones(na) if one else pos(na)
        self.scale_t = 1.0 if one else float(pos())
        self.co = []
        for k in range(n):
            npc, ntc = int(rng.randint(1, 4)), int(rng.randint(1, 4))
            self.co.append({"f": (r(nx, nx), r(nx, nu), r(nx), r(nx), r(nx, max(na, 1)), r(nx)),
                            "c": (r(npc, nx), r(npc, nu), r(npc), r(npc), r(npc, max(na, 1)), r(npc)),
                            "q": (r(1, nx), r(1, nu), r(1), r(1), r(1, max(na, 1)), r(1)),
                            "tc": (r(ntc, nx), r(ntc, nx), r(ntc), r(ntc), r(ntc, max(na, 1)), r(ntc)),
                            "m": (r(1, nx), r(1, nx), r(1), r(1), r(1, max(na, 1)), r(1))})
        lo = lambda *s: np.round(rng.uniform(-4, -1, s), 2)
        hi = lambda *s: np.round(rng.uniform(1, 4, s), 2)
        self.lbx, self.ubx = lo(n, nx), hi(n, nx)
        self.lbu, self.ubu = lo(n, nu), hi(n, nu)
        for k in range(n):
            if not cfg["ubounded"][k]:
                self.lbu[k], self.ubu[k] = -INF, INF
            else:
                side = rng.randint(4)
                if side == 1:
                    self.lbu[k] = -INF
                elif side == 2:
                    self.ubu[k] = INF
                elif side == 3 and nu > 1:
                    self.lbu[k, 0], self.ubu[k, 0] = -INF, INF
                    self.lbu[k, 1:-1] = -INF
            if not cfg["xbounded"][k]:
                self.lbx[k], self.ubx[k] = -INF, INF
            else:
                side = rng.randint(4)
                if side == 1:
                    self.lbx[k] = -INF
                elif side == 2:
                    self.ubx[k] = INF
                elif side == 3:
                    self.ubx[k, -1] = INF
        self.lba, self.uba = lo(n, na), hi(n, na)
        self.lbt0 = np.round(rng.uniform(0, 1, (n, 1)), 2)
        self.ubt0 = self.lbt0 + np.round(rng.uniform(0, 1, (n, 1)), 2)
        self.lbtf = np.round(rng.uniform(2, 3, (n, 1)), 2)
        self.ubtf = self.lbtf + np.round(rng.uniform(0, 1, (n, 1)), 2)
        if rng.rand() < 0.3:
            self.ubtf[-1] = INF
        self.lbe, self.ube = np.round(rng.uniform(-1, 0, (n - 1, nx)), 2), np.round(rng.uniform(0, 1, (n - 1, nx)), 2)
        self.x00, self.xf0 = r(n, nx), r(n, nx)
        self.u00, self.uf0 = r(n, nu), r(n, nu)
        self.a0 = r(n, na)
        self.t00 = np.round(rng.uniform(-1, 1, (n, 1)), 2)
        self.tf0 = self.t00 + np.round(rng.uniform(0.5, 3, (n, 1)), 2)
        self.lbdu, self.ubdu = np.round(rng.uniform(-9, -1, n), 2), np.round(rng.uniform(1, 9, n), 2)
        self.unusual(np.random.RandomState(cfg["seed"] + 99))
        self.links = [(i, i + 1) for i in range(n - 1)] if cfg["links"] is None else [tuple(l) for l in cfg["links"]]

    def unusual(self, g):
        """limits and guesses that ordinary problems rarely have"""
        n = self.n
        if g.rand() < 0.3:
            # guesses outside of the limits
            for v in (self.x00, self.xf0, self.u00, self.uf0, self.a0):
                v *= float(g.choice([3, 7, -10]))
        if g.rand() < 0.25 and not self.cfg.get("unit_scale"):
            # scalings shared by some components only
            two = np.round(g.uniform(0.3, 3, 2), 3)
            for v in (self.scale_x, self.scale_u, self.scale_a):
                v[:] = two[g.randint(2, size=len(v))]
        if g.rand() < 0.3:
            # exactly one finite limit
            k = g.randint(n)
            for lo, hi, on in ((self.lbx, self.ubx, "xbounded"), (self.lbu, self.ubu, "ubounded")):
                if self.cfg[on][k]:
                    j, b = g.randint(lo.shape[1]), float(np.round(g.uniform(0.5, 4), 2))
                    lo[k], hi[k] = -INF, INF
                    if g.rand() < 0.5:
                        hi[k, j] = b
                    else:
                        lo[k, j] = -b
        if self.cfg.get("crossed"):
            k = g.randint(n)
            for lo, hi in ((self.lbx, self.ubx), (self.lbu, self.ubu), (self.lba, self.uba), (self.lbt0, self.ubt0), (self.lbtf, self.ubtf)):
                if g.rand() < 0.5:
                    lo[k], hi[k] = hi[k].copy(), lo[k].copy()
        if g.rand() < 0.2:
            self.xf0[:] = self.x00
            self.uf0[:] = self.u00
        if g.rand() < 0.3:
            k = g.randint(n)
            c = g.randint(6)
            for lo, hi in ((self.lbu, self.ubu), (self.lbx, self.ubx)):
                if c == 0:
                    hi[k] = np.where(np.isfinite(hi[k]), 0.0, hi[k])
                elif c == 1:
                    lo[k] = np.where(np.isfinite(lo[k]), 0.0, lo[k])
                elif c == 2:
                    both = np.isfinite(lo[k]) & np.isfinite(hi[k])
                    lo[k] = np.where(both, hi[k], lo[k])
                elif c == 3:
                    both = np.isfinite(lo[k]) & np.isfinite(hi[k])
                    lo[k], hi[k] = np.where(both, lo[k] + 6, lo[k]), np.where(both, hi[k] + 6, hi[k])
                elif c == 4:
                    lo[k] *= 1e4
                    hi[k] *= 1e4
                elif c == 5 and len(lo[k]) > 1:
                    lo[k, -1], hi[k, 0] = -INF, INF
        if g.rand() < 0.2:
            self.lba[:], self.uba[:] = (-INF, 0.0) if g.rand() < 0.5 else (0.0, INF)
        if g.rand() < 0.2:
            self.ubt0[:] = self.lbt0
        if g.rand() < 0.2:
            self.lbt0[:], self.lbtf[:] = -INF, -INF
        if g.rand() < 0.2:
            self.lbe[:], self.ube[:] = -INF, INF
        elif g.rand() < 0.3:
            self.lbe[:] = self.ube
        c = g.randint(8)
        if c == 0:
            self.lbdu[:], self.ubdu[:] = 0.0, 0.0
        elif c == 1:
            self.lbdu[:] = -INF
        elif c == 2:
            self.ubdu[:] = INF
        elif c == 3:
            self.lbdu[:], self.ubdu[:] = 1.0, 2.5
        if n > 1 and g.rand() < 0.35:
            # phases that agree in some of their data
            for nm in ("lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "x00", "xf0", "u00", "uf0", "a0", "t00", "tf0", "lbdu", "ubdu"):
                if g.rand() < 0.6:
                    getattr(self, nm)[:] = getattr(self, nm)[g.randint(n)]
            # the guessed end points of a phase differ
            self.tf0[:] = np.where(np.abs(self.tf0 - self.t00) < 0.1, self.t00 + 0.75, self.tf0)
            same = ["lbx", "ubx"], ["lbu", "ubu"], ["lba", "uba"], ["lbt0", "ubt0"], ["lbtf", "ubtf"], ["lbdu", "ubdu"]
            for lo, hi in same:
                getattr(self, lo)[:] = np.minimum(getattr(self, lo), getattr(self, hi))
            if g.rand() < 0.4:
                self.co = [self.co[0]] * n
        if g.rand() < 0.15:
            # a constraint that is constant, a vanishing cost
            for k in range(n):
                A, B, C, D, E, F = self.co[k]["tc"]
                for v in (A, B, C, D, E):
                    v[-1] = 0
                for v in self.co[k]["q" if g.rand() < 0.5 else "m"]:
                    v[:] = 0

    # user functions: quadratic in (x, u, t, a), evaluable on numbers and casadi
    def _val(self, co, x, u, t, a, vec=True):
        A, B, C, D, E, F = co
        nx = self.nx
        nb = B.shape[1]
        out = []
        for i in range(len(C)):
            v = F[i] + C[i] * t + D[i] * t * x[i % nx]
            for j in range(nx):
                v = v + A[i, j] * x[j] * (1 + 0.3 * x[(j + i) % nx])
            for j in range(nb):
                v = v + B[i, j] * u[j]
            for j in range(self.na):
                v = v + E[i, j] * a[j] * (1 + 0.2 * x[0])
            out.append(v)
        return out if vec else out[0]

    def f(self, k, x, u, t, a):
        return self._val(self.co[k]["f"], x, u, t, a)

    def c(self, k, x, u, t, a):
        return self._val(self.co[k]["c"], x, u, t, a) if self.cfg["path"][k] else None

    def q(self, k, x, u, t, a):
        return self._val(self.co[k]["q"], x, u, t, a, False) if self.cfg["run"][k] else 0

    def tc(self, k, xf, tf, x0, t0, a):
        A, B, C, D, E, F = self.co[k]["tc"]
        return [v + D[i] * t0 for i, v in enumerate(self._val((A, B, C, 0 * D, E, F), xf, x0, tf, a))] if self.cfg["term"][k] else None

    def m(self, k, xf, tf, x0, t0, a):
        A, B, C, D, E, F = self.co[k]["m"]
        return self._val((A, B, C, 0 * D, E, F), xf, x0, tf, a, False) + D[0] * t0 if self.cfg["cost"][k] else 0

    def ocp(self):
        n, na = self.n, self.na
        kw = {"n_params": na} if na else {}
        o = mp.OCP(n_states=self.nx, n_controls=self.nu, n_phases=n, **kw)
        for k in range(n):
            if na:
                o.dynamics[k] = lambda x, u, t, a, k=k: self.f(k, x, u, t, a)
                o.path_constraints[k] = lambda x, u, t, a, k=k: self.c(k, x, u, t, a)
                o.running_costs[k] = lambda x, u, t, a, k=k: self.q(k, x, u, t, a)
                o.terminal_constraints[k] = lambda xf, tf, x0, t0, a, k=k: self.tc(k, xf, tf, x0, t0, a)
                o.terminal_costs[k] = lambda xf, tf, x0, t0, a, k=k: self.m(k, xf, tf, x0, t0, a)
            else:
                o.dynamics[k] = lambda x, u, t, k=k: self.f(k, x, u, t, None)
                o.path_constraints[k] = lambda x, u, t, k=k: self.c(k, x, u, t, None)
                o.running_costs[k] = lambda x, u, t, k=k: self.q(k, x, u, t, None)
                o.terminal_constraints[k] = lambda xf, tf, x0, t0, k=k: self.tc(k, xf, tf, x0, t0, None)
                o.terminal_costs[k] = lambda xf, tf, x0, t0, k=k: self.m(k, xf, tf, x0, t0, None)
        for name in ("scale_x", "scale_u", "scale_a", "x00", "xf0", "u00", "uf0", "a0", "t00", "tf0", "lbx", "ubx", "lbu", "ubu", "lba", "uba",
                     "lbt0", "ubt0", "lbtf", "ubtf", "lbe", "ube", "lbdu", "ubdu"):
            setattr(o, name, np.array(getattr(self, name)))
        o.scale_t = self.scale_t
        o.phase_links = list(self.links)
        o.midu, o.diff_u, o.du_continuity = np.array(self.cfg["midu"]), np.array(self.cfg["diff_u"]), np.array(self.cfg["du_continuity"])
        return o

    def optimizer(self, ocp=None):
        cfg = self.cfg
        setup()
        orders = cfg["orders"][0] if cfg.get("int_order") else list(cfg["orders"])
        m = CLS[cfg["cls"]](ocp if ocp is not None else self.ocp(), len(cfg["orders"]), orders, cfg["scheme"])
        if cfg["cls"] == "adaptive" and cfg.get("tols", True):
            rng = np.random.RandomState(cfg["seed"] + 1)
            m.lbh = [float(v) for v in np.round(rng.uniform(0.001, 0.01, self.n), 4)]
            m.ubh = [float(v) for v in np.round(rng.uniform(0.9, 1, self.n), 3)]
            m.tol_residual = [float(v) for v in np.round(rng.uniform(0.001, 0.1, self.n), 4)]
            m.mid_residuals = bool(cfg.get("mid_residuals", True))
        return m


class Ref:
    """independent transcription, evaluated at numeric (scaled) decision values"""

    def __init__(self, P):
        self.P = P
        cfg = P.cfg
        self.orders, self.scheme = cfg["orders"], cfg["scheme"]
        self.S = len(self.orders)
        self.N = sum(self.orders) + 1
        self.nodes = [ref_nodes(self.scheme, p) for p in self.orders]
        self.D = compD(self.scheme, self.orders, 1)
        self.W = compQ(self.scheme, self.orders)
        self.qw = [Qref(x, -1, 1) for x in self.nodes]
        self.mids = [(x[1:] + x[:-1]) / 2 for x in self.nodes]

    def point(self, rng, uniform=None):
        """random numeric values of all decision variables of all phases"""
        P, pt = self.P, []
        for k in range(P.n):
            if uniform == "random" or uniform is None:
                h = rng.uniform(0.2, 1, self.S)
                h = h / h.sum() if uniform != "random" else h
            else:
                h = np.full(self.S, 1.0 / self.S)
            t0 = rng.uniform(-1, 2)
            pt.append({"X": rng.uniform(-2, 2, (self.N, P.nx)), "U": rng.uniform(-2, 2, (self.N, P.nu)), "A": rng.uniform(-2, 2, P.na),
                       "t0": t0, "tf": t0 + rng.uniform(0.5, 3), "h": h})
        return pt

    def flat(self, pt):
        """decision vector in the documented order"""
        out = []
        for v in pt:
            out += [v["X"].T.ravel(), v["U"].T.ravel(), [v["t0"]], [v["tf"]], v["A"]]
            if self.P.cfg["cls"] == "adaptive":
                out.append(v["h"])
        return np.concatenate(out)

    def widths(self, pt):
        return np.concatenate([v["h"] for v in pt])

    # positions of the mesh nodes: (segment, local index)
    def locs(self):
        out = [(0, 0)]
        for s, p in enumerate(self.orders):
            out += [(s, i) for i in range(1, p + 1)]
        return out

    def times(self, v, k):
        P = self.P
        t0, tf = v["t0"] / P.scale_t, v["tf"] / P.scale_t
        return np.array([t0 + (tf - t0) * (sum(v["h"][:s]) + v["h"][s] * (self.nodes[s][i] + 1) / 2) for s, i in self.locs()])

    def un(self, v):
        P = self.P
        return v["X"] / P.scale_x, v["U"] / P.scale_u, v["A"] / P.scale_a, v["t0"] / P.scale_t, v["tf"] / P.scale_t

    def samples(self, v, k):
        P = self.P
        x, u, a, t0, tf = self.un(v)
        t = self.times(v, k)
        F, C, Q = [], [], []
        for n, (s, i) in enumerate(self.locs()):
            hs = (tf - t0) * v["h"][s] / 2
            F.append(hs * P.scale_x * np.array(P.f(k, x[n], u[n], t[n], a), dtype=float))
            c = P.c(k, x[n], u[n], t[n], a)
            if c is not None:
                C.append(c)
            hc = hs
            if i == self.orders[s] and s + 1 < self.S:
                we, ws = self.qw[s][-1], self.qw[s + 1][0]
                hc = (we * hs + ws * (tf - t0) * v["h"][s + 1] / 2) / (we + ws)
            Q.append(hc * P.q(k, x[n], u[n], t[n], a))
        return np.array(F), np.array(C), np.array(Q, dtype=float)

    def cost_integral(self, v, k):
        """sum over the segments of the quadrature of the running cost"""
        P = self.P
        x, u, a, t0, tf = self.un(v)
        t = self.times(v, k)
        tot, o = 0.0, 0
        for s, p in enumerate(self.orders):
            for i in range(p + 1):
                tot += (tf - t0) * v["h"][s] / 2 * self.qw[s][i] * P.q(k, x[o + i], u[o + i], t[o + i], a)
            o += p
        return tot

    def defects(self, v, k):
        F, _, _ = self.samples(v, k)
        return (self.D @ v["X"] - F).T.ravel()

    def path(self, v, k):
        _, C, _ = self.samples(v, k)
        return C.T.ravel() if len(C) else np.zeros(0)

    def term(self, v, k):
        x, u, a, t0, tf = self.un(v)
        tc = self.P.tc(k, x[-1], tf, x[0], t0, a)
        return np.zeros(0) if tc is None else np.array(tc, dtype=float)

    def mayer(self, v, k):
        x, u, a, t0, tf = self.un(v)
        return float(self.P.m(k, x[-1], tf, x[0], t0, a))

    def slopes(self, v, k):
        return (self.D @ v["U"]).T.ravel()

    def mid(self, V):
        C = comp_rows(self.orders, [Cref(x, t) for x, t in zip(self.nodes, self.mids)])
        return C @ V

    def jumps(self, v, k):
        out = []
        o = 0
        for s in range(self.S - 1):
            p, p2 = self.orders[s], self.orders[s + 1]
            left = Dref(self.nodes[s], [1.0], 1)[0] @ v["U"][o:o + p + 1]
            right = Dref(self.nodes[s + 1], [-1.0], 1)[0] @ v["U"][o + p:o + p + p2 + 1]
            out.append(left - right)
            o += p
        return np.array(out).reshape(self.S - 1, self.P.nu).T.ravel() if self.S > 1 else np.zeros(0)

    def ufinite(self, k):
        return np.isfinite(self.P.lbu[k]).any() or np.isfinite(self.P.ubu[k]).any()

    def xfinite(self, k):
        return np.isfinite(self.P.lbx[k]).any() or np.isfinite(self.P.ubx[k]).any()

    def opt_blocks(self, v, k):
        """(g, lb, ub) of the optional control constraints of a phase"""
        P, cfg = self.P, self.P.cfg
        z = np.zeros(0)
        DU = mU = dU = (z, z, z)
        if cfg["diff_u"][k]:
            g = self.slopes(v, k)
            DU = (g, np.full(g.size, P.lbdu[k]), np.full(g.size, P.ubdu[k]))
        if cfg["midu"][k] and self.ufinite(k):
            g = self.mid(v["U"])
            mU = (g.T.ravel(), np.repeat(P.lbu[k] * P.scale_u, g.shape[0]), np.repeat(P.ubu[k] * P.scale_u, g.shape[0]))
        if cfg["du_continuity"][k] and self.S > 1:
            g = self.jumps(v, k)
            dU = (g, 0 * g, 0 * g)
        return DU, mU, dU

    def width_block(self, v, k, m):
        """adaptive method: (g, lb, ub) blocks of the segment width constraints"""
        P = self.P
        out = [([v["h"].sum() - 1], [0.0], [0.0])]
        x, u, a, t0, tf = self.un(v)
        xi, ui = self.mid(v["X"]), self.mid(v["U"])
        if self.ufinite(k):
            out.append((ui.T.ravel(), np.repeat(P.lbu[k] * P.scale_u, ui.shape[0]), np.repeat(P.ubu[k] * P.scale_u, ui.shape[0])))
        if self.xfinite(k):
            out.append((xi.T.ravel(), np.repeat(P.lbx[k] * P.scale_x, xi.shape[0]), np.repeat(P.ubx[k] * P.scale_x, xi.shape[0])))
        if m.mid_residuals:
            t = self.times(v, k)
            tm = (t[1:] + t[:-1]) / 2
            row = 0
            for s, p in enumerate(self.orders):
                o = sum(self.orders[:s])
                Dx = Dref(self.nodes[s], self.mids[s], 1) @ v["X"][o:o + p + 1]
                hs = (tf - t0) * v["h"][s] / 2
                res = []
                for i in range(p):
                    f = hs * P.scale_x * np.array(P.f(k, xi[row] / P.scale_x, ui[row] / P.scale_u, tm[row], a), dtype=float)
                    res.append(v["h"][s] * (Dx[i] - f))
                    row += 1
                g = np.array(res).T.ravel()
                out.append((g, np.full(g.size, -m.tol_residual[k]), np.full(g.size, m.tol_residual[k])))
        return tuple(np.concatenate([np.asarray(b[i], dtype=float) for b in out]) for i in range(3))

    def phase_block(self, v, k, m):
        F = self.defects(v, k)
        C = self.path(v, k)
        TC = self.term(v, k)
        z = lambda n, x: np.full(n.size, x)
        DU, mU, dU = self.opt_blocks(v, k)
        if self.P.cfg["cls"] == "adaptive":
            bl = [(F, z(F, 0.0), z(F, 0.0)), (C, z(C, -INF), z(C, 0.0)), DU, (TC, z(TC, 0.0), z(TC, 0.0)), self.width_block(v, k, m)]
        else:
            bl = [(F, z(F, 0.0), z(F, 0.0)), (C, z(C, -INF), z(C, 0.0)), DU, mU, dU, (TC, z(TC, 0.0), z(TC, 0.0))]
        return tuple(np.concatenate([b[i] for b in bl]) for i in range(3))

    def phase_cost(self, v, k):
        return self.mayer(v, k) + self.cost_integral(v, k)

    def event_blocks(self, pt):
        P = self.P
        if P.n < 2 or not P.links:
            return []
        g, lb, ub = [], [], []
        for l, (i, j) in enumerate(P.links):
            g.append(pt[j]["X"][0] - pt[i]["X"][-1])
            lb.append(P.lbe[l] * P.scale_x)
            ub.append(P.ube[l] * P.scale_x)
        z = np.zeros(len(P.links) * P.nu)
        gu = np.concatenate([pt[j]["U"][0] - pt[i]["U"][-1] for i, j in P.links])
        gt = np.array([pt[j]["t0"] - pt[i]["tf"] for i, j in P.links])
        return [(np.concatenate(g), np.concatenate(lb), np.concatenate(ub)), (gu, z, z), (gt, 0 * gt, 0 * gt)]

    def zbounds(self, k, m):
        P = self.P
        out = []
        for bx, bu, bt0, btf, ba, bh in ((P.lbx, P.lbu, P.lbt0, P.lbtf, P.lba, "lbh"), (P.ubx, P.ubu, P.ubt0, P.ubtf, P.uba, "ubh")):
            v = []
            for i in range(P.nx):
                for n in range(self.N):
                    v.append((P.x00[0, i] if k == 0 and n == 0 else bx[k, i]) * P.scale_x[i])
            for i in range(P.nu):
                v += [bu[k, i] * P.scale_u[i]] * self.N
            v += [bt0[k, 0] * P.scale_t, btf[k, 0] * P.scale_t] + list(ba[k] * P.scale_a)
            if P.cfg["cls"] == "adaptive":
                v += [getattr(m, bh)[k]] * self.S
            out.append(np.array(v))
        return out

    def guess(self):
        P, out = self.P, []
        for k in range(P.n):
            for a, b, s, n in ((P.x00, P.xf0, P.scale_x, P.nx), (P.u00, P.uf0, P.scale_u, P.nu)):
                for i in range(n):
                    for j in range(self.N):
                        out.append((a[k, i] + (b[k, i] - a[k, i]) * j / (self.N - 1)) * s[i])
            out += [P.t00[k, 0] * P.scale_t, P.tf0[k, 0] * P.scale_t] + list(P.a0[k] * P.scale_a)
            if P.cfg["cls"] == "adaptive":
                out += [1.0 / self.S] * self.S
        return np.array(out)


def evaluate(m, exprs, pt):
    """numeric value of casadi expressions in the optimizer's own variables"""
    n = len(pt)
    args, vals = [], []
    for k in range(n):
        args += [m.X[k], m.U[k]]
        vals += [pt[k]["X"], pt[k]["U"]]
    args += [m.A, m.t0, m.tf, m.seg_widths]
    vals += [np.array([v["A"] for v in pt]).T.reshape(m.A.shape), np.array([v["t0"] for v in pt]), np.array([v["tf"] for v in pt]), np.array([v["h"] for v in pt]).T]
    fn = ca.Function("ev", [ca.SX(a) if not isinstance(a, ca.SX) else a for a in args], [ca.SX(e) if not isinstance(e, (ca.SX, ca.DM)) else e for e in exprs])
    out = fn(*[ca.DM(v) for v in vals])
    if len(exprs) == 1:
        out = [out]
    return [np.array(o.full()) for o in out]


def vec(e):
    """constraint expression (possibly an empty list) as a column"""
    return ca.vertcat(*e) if isinstance(e, (list, tuple)) else e
