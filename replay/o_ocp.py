"""Concrete oracles of class OCP (C19) and of isolation (C20)."""
import copy
import itertools
import numpy as np
from mpopt import mp
from replay.problems import Prob, random_cfg

INF = np.inf
X2 = ("x00", "xf0", "lbx", "ubx")
U2 = ("u00", "uf0", "lbu", "ubu")
A2 = ("a0", "lba", "uba")
T2 = ("t00", "tf0", "lbt0", "ubt0", "lbtf", "ubtf")
FUN = ("dynamics", "path_constraints", "terminal_constraints", "running_costs", "terminal_costs")
BOUNDS = (("lbx", "ubx"), ("lbu", "ubu"), ("lba", "uba"), ("lbt0", "ubt0"), ("lbtf", "ubtf"), ("lbe", "ube"))


def width(o, nm):
    return o.nx if nm in X2 + ("lbe", "ube") else o.nu if nm in U2 else o.na if nm in A2 else 1


def expected(nm, nx, nu, na, n):
    f = lambda w, v, rows=n: np.full((rows, w), float(v))
    if nm in ("lbx", "ubx"):
        return f(nx, -INF if nm[0] == "l" else INF)
    if nm in ("lbu", "ubu"):
        return f(nu, -INF if nm[0] == "l" else INF)
    if nm in ("lba", "uba"):
        return f(na, -INF if nm[0] == "l" else INF)
    if nm == "ubt0":
        r = f(1, INF)
        r[0] = 0
        return r
    return {"x00": f(nx, 0), "xf0": f(nx, 0), "u00": f(nu, 0), "uf0": f(nu, 0), "a0": f(na, 0), "t00": f(1, 0), "tf0": f(1, 1),
            "lbt0": f(1, 0), "lbtf": f(1, 0), "ubtf": f(1, INF)}[nm]


def good(r, key, o, inp):
    try:
        o.validate()
        return True
    except Exception as e:
        r.fail(key, "validate() rejects a well-formed problem", inp, "accepted", "%s: %s" % (type(e).__name__, e))
        return False


def bad(r, key, o, inp):
    try:
        o.validate()
    except Exception:
        return
    r.fail(key, "validate() accepts a malformed problem", inp, "raises", "accepted")


def values(shape, rng):
    return np.round(rng.uniform(-3, 3, shape), 3) + 0.0625


def build(r, dims):
    nx, nu, na, n = dims
    return mp.OCP(n_states=nx, n_controls=nu, n_params=na, n_phases=n)


def set_functions(o, rng, log=None):
    """user functions of every phase, with some phases unconstrained"""
    note = lambda *a: log.append(a) if log is not None else None
    for k in range(o.n_phases):
        npc, ntc = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        if o.na:
            o.dynamics[k] = lambda x, u, t, a, k=k: (note("dynamics", k, 4), [0.5] * o.nx)[1]
            o.running_costs[k] = lambda x, u, t, a, k=k: (note("running_costs", k, 4), 0)[1]
            o.terminal_costs[k] = lambda xf, tf, x0, t0, a, k=k: (note("terminal_costs", k, 5), 0.0)[1]
            if rng.rand() < 0.5:
                o.path_constraints[k] = lambda x, u, t, a, k=k, npc=npc: [k] * npc
            if rng.rand() < 0.5:
                o.terminal_constraints[k] = lambda xf, tf, x0, t0, a, k=k, ntc=ntc: [k] * ntc
        else:
            o.dynamics[k] = lambda x, u, t, k=k: [0.5] * o.nx
            o.running_costs[k] = lambda x, u, t, k=k: 0
            o.terminal_costs[k] = lambda xf, tf, x0, t0, k=k: 0.0
            if rng.rand() < 0.5:
                o.path_constraints[k] = lambda x, u, t, k=k, npc=npc: [k] * npc
            if rng.rand() < 0.5:
                o.terminal_constraints[k] = lambda xf, tf, x0, t0, k=k, ntc=ntc: [k] * ntc


def set_values(o, rng):
    n = o.n_phases
    for lo, hi in BOUNDS:
        rows = n - 1 if lo == "lbe" else n
        a, w = values((rows, width(o, lo)), rng), rng.choice([0.0, 0.25, 1.5])
        for q in range(rows):
            for i in range(a.shape[1]):
                getattr(o, lo)[q][i] = a[q, i]
                getattr(o, hi)[q][i] = a[q, i] + w
    for nm in ("x00", "xf0", "u00", "uf0", "a0", "t00"):
        getattr(o, nm)[:] = values(getattr(o, nm).shape, rng)
    o.tf0[:] = o.t00 + 1.5


def c19(r):
    r.rule = "(states, controls, parameters, phases, modification of the problem); distinct tuples"
    dims = list(itertools.product((1, 2, 3), (1, 2), (0, 1, 3), (1, 2, 4)))
    dims += [(5, 4, 2, 3), (1, 4, 0, 5), (4, 1, 2, 2)]
    for d in dims:
        nx, nu, na, n = d
        inp = {"states": nx, "controls": nu, "parameters": na, "phases": n}

        def body():
            o = build(r, d)
            for nm in FUN:
                if len(getattr(o, nm)) != n:
                    r.fail("new", nm + ": one function per phase", inp, n, len(getattr(o, nm)))
            for nm in X2 + U2 + A2 + T2:
                got = getattr(o, nm)
                w = expected(nm, *d)
                if np.shape(got) != w.shape:
                    r.fail("new", nm + ": shape", inp, w.shape, np.shape(got))
                elif not np.array_equal(got, w):
                    r.fail("new", nm + ": values", inp, w.tolist(), np.asarray(got).tolist())
            for nm in ("lbe", "ube"):
                got = getattr(o, nm)
                if len(got) != n - 1 or (n > 1 and (np.shape(got) != (n - 1, nx) or np.any(got != 0))):
                    r.fail("new", nm + ": zero jump for every link", inp, np.zeros((n - 1, nx)).tolist(), np.asarray(got).tolist())
            if [tuple(x) for x in o.phase_links] != [(i, i + 1) for i in range(n - 1)]:
                r.fail("new", "phase_links", inp, [(i, i + 1) for i in range(n - 1)], o.phase_links)
            for nm, w in (("scale_x", np.ones(nx)), ("scale_u", np.ones(nu)), ("scale_a", np.ones(na)), ("scale_t", 1.0),
                          ("diff_u", np.zeros(n)), ("midu", np.ones(n)), ("du_continuity", np.zeros(n)), ("lbdu", -15 * np.ones(n)), ("ubdu", 15 * np.ones(n))):
                if not (np.shape(getattr(o, nm)) == np.shape(w) and np.all(np.asarray(getattr(o, nm)) == w)):
                    r.fail("new", nm, inp, w, getattr(o, nm))
            x, u, t, a = np.ones(nx), np.ones(nu), np.ones(1), np.ones(na)
            for k in range(n):
                if list(o.get_dynamics(k)(x, u, t, a)) != [0] * nx or o.get_running_costs(k)(x, u, t, a) != 0 or o.get_terminal_costs(k)(x, t, x, t, a) != 0:
                    r.fail("new", "default dynamics and costs are zero", inp)
                if o.get_path_constraints(k)(x, u, t, a) is not None or o.get_terminal_constraints(k)(x, t, x, t, a) is not None:
                    r.fail("new", "no constraints by default", inp)
                if o.has_path_constraints(k) or o.has_terminal_constraints(k):
                    r.fail("new", "no constraints by default (has_...)", inp)
            good(r, "new", o, inp)
            # fractional limits are stored unchanged, one by one, and nothing else changes
            names = [nm for p in BOUNDS for nm in p] + ["lbdu", "ubdu"] + ["x00", "xf0", "u00", "uf0", "a0", "t00", "tf0"]
            for nm in names:
                arr = getattr(o, nm)
                if not arr.size:
                    continue
                before = {m: np.array(getattr(o, m)) for m in names}
                idx = tuple(int(r.rng.randint(s)) for s in arr.shape)
                for v in (0.3125, -2.71):
                    arr[idx] = v
                    if not getattr(o, nm)[idx] == v:
                        r.fail("stored", "%s%s: a fractional limit is stored unchanged" % (nm, list(idx)), inp, v, getattr(o, nm)[idx])
                for m in names:
                    w = before[m]
                    if m == nm:
                        w[idx] = v
                    if not np.array_equal(getattr(o, m), w):
                        r.fail("stored", "setting %s%s changes %s" % (nm, list(idx), m), inp, w.tolist(), np.asarray(getattr(o, m)).tolist())
        r.run("new", inp, body)
    # modifications
    m, N = 0, (1500 if r.thorough else 150)
    while m < N and r.more(0.9):
        m += 1
        nx, nu, na, n = d = (int(r.rng.randint(1, 5)), int(r.rng.randint(1, 5)), int(r.rng.choice([0, 1, 2])), int(r.rng.randint(1, 5)))
        seed = int(r.rng.randint(1 << 30))
        inp = {"states": nx, "controls": nu, "parameters": na, "phases": n, "seed": seed}

        def fresh_ocp():
            o = build(r, d)
            rng = np.random.RandomState(seed)
            set_functions(o, rng)
            set_values(o, rng)
            return o

        def body():
            rng = np.random.RandomState(seed + 1)
            o = fresh_ocp()
            keep = {nm: np.array(getattr(o, nm)) for nm in X2 + U2 + A2 + T2 + ("lbe", "ube")}
            if not good(r, "valid", o, inp):
                return
            for nm, w in keep.items():
                if not np.array_equal(getattr(o, nm), w):
                    r.fail("valid", "validate() changes " + nm, inp, w.tolist(), np.asarray(getattr(o, nm)).tolist())
            # accessors
            for k in range(n):
                x, u, t, a = o.x00[k], o.u00[k], o.t00[k], o.a0[k]
                A = (a,) if na else ()
                for nm in FUN:
                    args = (x, t, x, t) if nm.startswith("terminal") else (x, u, t)
                    if getattr(o, "get_" + nm)(k)(*args, a) != getattr(o, nm)[k](*args, *A):
                        r.fail("access", "get_%s(%d) is the function of phase %d" % (nm, k, k), inp)
                if bool(o.has_path_constraints(k)) != (o.path_constraints[k](x, u, t, *A) is not None):
                    r.fail("access", "has_path_constraints(%d)" % k, inp)
                if bool(o.has_terminal_constraints(k)) != (o.terminal_constraints[k](x, t, x, t, *A) is not None):
                    r.fail("access", "has_terminal_constraints(%d)" % k, inp)
            # malformed in exactly one way
            edits = []
            k = int(rng.randint(n))
            for lo, hi in BOUNDS:
                rows = n - 1 if lo == "lbe" else n
                for q in range(rows):
                    for i in range(width(o, lo)):
                        edits.append(("%s[%d][%d] above %s" % (lo, q, i, hi), lambda o, lo=lo, hi=hi, q=q, i=i: getattr(o, lo).__setitem__((q, i), getattr(o, hi)[q][i] + 0.001)))
                        for v, h in ((INF, 3.0), (3.0, -INF), (INF, -INF), (np.nextafter(0.25, 1), 0.25)):
                            edits.append(("%s[%d][%d] = %r above %s = %r" % (lo, q, i, v, hi, h), lambda o, lo=lo, hi=hi, q=q, i=i, v=v, h=h: (getattr(o, lo).__setitem__((q, i), v), getattr(o, hi).__setitem__((q, i), h))))
            for nm in X2 + U2 + A2 + T2:
                w = width(o, nm)
                for what, sh in (("one more row", (n + 1, w)), ("one more column", (n, w + 1)), ("one less column", (n, w - 1)), ("flat", (n * w,)), ("three axes", (n, w, 1))):
                    if min(sh) >= 0:
                        edits.append(("%s: %s" % (nm, what), lambda o, nm=nm, sh=sh: setattr(o, nm, np.zeros(sh))))
                if n > 1:
                    edits.append(("%s: one row missing" % nm, lambda o, nm=nm, w=w: setattr(o, nm, np.zeros((n - 1, w)))))
            for nm in ("lbe", "ube"):
                edits.append(("%s: one more row" % nm, lambda o, nm=nm: setattr(o, nm, np.zeros((n, nx)))))
                if n > 1:
                    edits.append(("%s: one more column" % nm, lambda o, nm=nm: setattr(o, nm, np.zeros((n - 1, nx + 1)))))
            for nm, w in (("scale_x", nx), ("scale_u", nu), ("scale_a", na)):
                edits.append(("%s: too long" % nm, lambda o, nm=nm, w=w: setattr(o, nm, np.ones(w + 1))))
                if w:
                    edits.append(("%s: too short" % nm, lambda o, nm=nm, w=w: setattr(o, nm, np.ones(w - 1))))
            for nm in FUN:
                edits.append(("%s: one too many" % nm, lambda o, nm=nm: setattr(o, nm, list(getattr(o, nm)) + [getattr(o, nm)[0]])))
                edits.append(("%s: one missing" % nm, lambda o, nm=nm: setattr(o, nm, list(getattr(o, nm))[:-1])))
                ret = {"dynamics": [[0.0] * (nx + 1), [0.0] * (nx - 1)], "running_costs": [None], "terminal_costs": [None]}.get(nm, [[]])
                for v in ret:
                    edits.append(("%s of phase %d returns %r" % (nm, k, v), lambda o, nm=nm, v=v, k=k: getattr(o, nm).__setitem__(k, lambda *a: v)))
            edits.append(("no phase", lambda o: setattr(o, "n_phases", 0)))
            edits.append(("negative number of phases", lambda o: setattr(o, "n_phases", -1)))
            rng.shuffle(edits)
            for what, e in edits[: (120 if r.thorough else 60)]:
                o = fresh_ocp()
                e(o)
                bad(r, "invalid", o, dict(inp, malformed=what))
                r.case(dict(inp, malformed=what))
        r.run("valid", inp, body)


ORACLES = {"C19": c19}
