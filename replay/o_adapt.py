"""Concrete oracles of the h-adaptive refinement, C14 and C15."""
import contextlib
import io
import numpy as np
import casadi as ca
from mpopt import mp
from replay.problems import Prob, Ref
from replay.o_nlp import stream, flat, TOL, Recorder, point_of

H = mp.mpopt_h_adaptive
EPS = 1e-9


def arr(x):
    return np.array([float(v) for v in np.asarray(x, dtype=object).ravel()])


def valid(r, key, inp, got, n, what="widths"):
    w = arr(got)
    if len(w) != n:
        r.fail(key + "-count", "number of " + what, inp, n, len(w))
        return None
    if not np.isfinite(w).all() or not (w > 0).all():
        r.fail(key + "-positive", what + " are positive", inp, "all > 0", w)
        return None
    if abs(w.sum() - 1) > 1e-8:
        r.fail(key + "-sum", what + " sum to one", inp, 1.0, float(w.sum()))
        return None
    return w


def rand_widths(r, n):
    c = r.rng.randint(4)
    if c == 0:
        return np.full(n, 1.0 / n)
    w = r.rng.uniform(0.001 if c == 1 else 0.1, 1, n)
    return w / w.sum()


def random_curve(r, n):
    c = r.rng.randint(6)
    v = r.rng.uniform(0, 1, n)
    if c == 0:
        v = v * (r.rng.rand(n) < 0.4)
    elif c == 1:
        v[:r.rng.randint(n)] = 0
    elif c == 2:
        v[r.rng.randint(n):] = 0
    elif c == 3:
        v = np.zeros(n)
        v[r.rng.randint(n)] = 3.0
    elif c == 4:
        v = np.ones(n)
    v = v * 10.0 ** r.rng.randint(-6, 4)
    if v.sum() == 0:
        v[r.rng.randint(n)] = 1.0
    return v


def equal_area(r, N):
    k = 0
    fixed = [([0, 0, 1, 0, 0], 3), ([1, 1], 1), ([1, 0], 4), ([0, 0, 0, 5], 5), ([5, 0, 0, 0], 5), ([1, 0, 0, 1], 2), ([1, 0, 0, 1], 4)]
    while k < N and r.more(0.2):
        if k < len(fixed):
            v, n = np.array(fixed[k][0], dtype=float), fixed[k][1]
        else:
            v, n = random_curve(r, int(r.rng.randint(2, 30))), int(r.rng.randint(1, 9))
        k += 1
        inp = {"rule": "equal area", "residuals": v.tolist(), "segments": n}

        def body():
            keep = v.copy()
            got = H.get_roots_wrt_equal_area(v, n)
            if not np.array_equal(v, keep):
                r.fail("input", "the residuals are modified", inp, keep, v)
            w = valid(r, "area", inp, got, n)
            if w is None:
                return
            # area up to a relative position, area of an interval between residuals spread evenly
            cum = np.append(0, np.cumsum((v[1:] + v[:-1]) / 2))
            pos = np.append(0, np.cumsum(w))
            a = np.interp(pos * (len(v) - 1), np.arange(len(v)), cum / cum[-1])
            r.close("area", "area under the residual curve up to every segment boundary", inp, a, np.arange(n + 1) / n, rtol=1e-6, atol=1e-7)
        r.run("area", inp, body)


def groups_of(res, tol):
    g = []
    for i, v in enumerate(res):
        ok = v < tol
        if g and g[-1][0] == ok:
            g[-1][1].append(i)
        else:
            g.append([ok, [i]])
    return g


def check_merge(r, key, inp, res, w, tol, got):
    n = len(w)
    new = valid(r, key, inp, got, n)
    if new is None:
        return
    g = groups_of(res, tol)
    if all(x[0] for x in g) or len(g) == n:
        r.close(key + "-unchanged", "widths are unchanged when nothing violates the tolerance or nothing can be merged", inp, new, w, rtol=1e-12, atol=0)
        return
    cuts = np.append(0, np.cumsum(new))
    for c in [sum(w[i] for i in x[1]) for x in g]:
        pass
    b = np.append(0, np.cumsum([sum(w[i] for i in x[1]) for x in g]))
    for p in b:
        if abs(cuts - p).min() > 1e-9:
            r.fail(key + "-boundary", "an outer boundary of a merged group moved", inp, b, cuts)
            return


def merge_split(r, N):
    k = 0
    fixed = [([0, 0, 1], [0.2, 0.3, 0.5]), ([1, 1, 0], [0.2, 0.3, 0.5]), ([0, 1, 1, 0, 1, 1, 1], None), ([1, 0, 0, 0, 1], None), ([1, 1, 1], None), ([0, 0], None), ([1, 0, 1], None), ([1], [1.0]),
             ([0.5, 0.5, 0.1], [0.2, 0.3, 0.5])]
    while k < N and r.more(0.4):
        if k < len(fixed):
            res, w = fixed[k]
            n = len(res)
            w = np.full(n, 1.0 / n) if w is None else np.array(w)
        else:
            n = int(r.rng.randint(1, 13))
            res = [float(x) for x in (r.rng.rand(n) < r.rng.choice([0.2, 0.5, 0.8]))] if r.rng.rand() < 0.5 else [float(x) for x in r.rng.rand(n)]
            w = rand_widths(r, n)
        tol = 0.5
        kind = ["array", "list"][k % 2]
        k += 1
        inp = {"rule": "merge/split", "residuals": list(res), "widths": w.tolist(), "tolerance": tol, "given as": kind}

        def body():
            rr, ww = (np.array(res, dtype=float), w.copy()) if kind == "array" else (list(res), w.tolist())
            got = H.merge_split_segments_based_on_residuals(rr, ww, ERR_TOL=tol)
            if not np.array_equal(np.array(ww), w) or not np.array_equal(np.array(rr, dtype=float), np.array(res, dtype=float)):
                r.fail("input", "the arguments are modified", inp)
            check_merge(r, "merge", inp, res, w, tol, got)
        r.run("merge", inp, body)


def at_times(r, N):
    k = 0
    while k < N and r.more(0.55):
        k += 1
        n, m = int(r.rng.randint(2, 9)), int(r.rng.randint(1, 12))
        t0 = float(r.rng.uniform(-2, 2))
        tf = t0 + float(r.rng.uniform(0.5, 5))
        t = t0 + (tf - t0) * r.rng.permutation(np.unique(np.round(r.rng.uniform(0.01, 0.99, m), 4)))
        if k % 7 == 0:
            t = t0 + (tf - t0) * np.linspace(0, 0.1, len(t) + 2)[1:-1]
        inp = {"rule": "widths at times", "times": t.tolist(), "segments": n, "t0": t0, "tf": tf}

        def body():
            keep = t.copy()
            got = H.compute_segment_widths_at_times(t, n, t0, tf)
            if not np.array_equal(t, keep):
                r.fail("input", "the times are modified", inp)
            valid(r, "times", inp, got, n)
        r.run("times", inp, body)


def fake_residuals(r, R, nx, tol, mode):
    """per segment a matrix of residuals, or None"""
    out = []
    for s in range(R.S):
        if mode == "none" and r.rng.rand() < 0.3 and any(x is not None for x in out):
            out.append(None)
            continue
        rows = int(r.rng.randint(1, 5))
        v = r.rng.uniform(-1, 1, (rows, nx))
        if r.rng.rand() < 0.3:
            v[r.rng.randint(rows)] = 0
        big = r.rng.rand() < 0.6
        v = v / abs(v).max() * tol * (r.rng.uniform(1.2, 30) if big else r.rng.uniform(0.01, 0.8)) if abs(v).max() > 0 else v
        out.append(v)
    return out


METHODS = [{"method": "residual", "sub_method": "merge_split"}, {"method": "residual", "sub_method": "equal_area"}, {"method": "residual"}, {"method": "control_slope"},
           {"method": "residual", "sub_method": "other"}, {"method": "other"}, {"sub_method": "merge_split"}, {}]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def phases(r):
    for cfg in stream(r, ("h",), n=60):
        if r.rng.rand() < 0.6:
            S = int(r.rng.randint(2, 8))
            cfg = dict(cfg, orders=[int(x) for x in r.rng.randint(1, 4, S)], int_order=False)

        def body():
            P = Prob(cfg)
            R = Ref(P)
            m = P.optimizer()
            m.create_nlp()
            m.tol_residual = [float(10.0 ** r.rng.randint(-4, 1)) for _ in range(P.n)]
            for o in METHODS + [{"method": "control_slope"}]:
                if r.rng.rand() < 0.5:
                    # limits that cut or lift some of the proposed widths
                    m.lbh = [float(v) for v in np.round(r.rng.uniform(0.001, 0.3, P.n), 3)]
                    m.ubh = [float(v) for v in np.round(r.rng.uniform(0.3, 0.9, P.n), 3)]
                else:
                    m.lbh, m.ubh = [1e-5] * P.n, [1] * P.n
                m._THRESHOLD_SLOPE = float(r.rng.choice([0.1, 0.0, 2.0]))
                w = [rand_widths(r, R.S) for _ in range(P.n)]
                ww = np.concatenate(w)
                m._nlp_sw_params = ww if r.rng.rand() < 0.7 else [float(x) for x in ww]
                mode = ["none", "all", "real"][r.rng.randint(3)]
                res = [fake_residuals(r, R, P.nx, m.tol_residual[k] if r.rng.rand() < 0.8 else 1e-9, mode) for k in range(P.n)]
                pt = R.point(r.rng)
                S = {"x": ca.DM(R.flat(pt))}
                inp = {"cfg": cfg, "options": o, "widths": np.round(ww, 12).tolist(), "tolerances": m.tol_residual, "limits": [m.lbh, m.ubh], "threshold": m._THRESHOLD_SLOPE,
                       "residuals": "of the solution" if mode == "real" else [[None if x is None else np.round(x, 10).tolist() for x in p] for p in res], "point": [point_of(v) for v in pt]}
                r.case(inp)
                m.__dict__.pop("get_dynamics_residuals", None)
                if mode == "real":
                    ti, res = quiet(m.get_dynamics_residuals, S)
                    if any(x is not None and not np.isfinite(np.array(x, dtype=float)).all() for p in res for x in p):
                        continue
                else:
                    m.get_dynamics_residuals = lambda *a, **k: ([[None] * R.S] * P.n, res)
                arg = dict(o)
                got, err = quiet(m.get_segment_width_parameters, S, options=arg)
                m.__dict__.pop("get_dynamics_residuals", None)
                if arg != o:
                    r.fail("input", "the options are modified", inp, o, arg)
                if len(arr(got)) != R.S * P.n:
                    r.fail("count", "number of widths", inp, R.S * P.n, len(arr(got)))
                    continue
                peak = [max([abs(np.array(x, dtype=float)).max() if x is not None else 0 for x in p]) for p in res]
                used = o.get("method") in ("residual", "control_slope") and R.S > 1
                for k in range(P.n):
                    g = arr(got)[R.S * k:R.S * (k + 1)]
                    new = valid(r, "phase", dict(inp, phase=k), g, R.S)
                    if new is None or not used:
                        continue
                    if o.get("sub_method") == "merge_split":
                        mr = [abs(np.array(x, dtype=float)).max() if x is not None else 0 for x in res[k]]
                        check_merge(r, "phase-merge", dict(inp, phase=k), mr, w[k], m.tol_residual[k], g)
                if used and err is not None:
                    r.close("error", "largest residual", inp, [float(err)], [max(peak)], rtol=1e-9, atol=1e-12)
                if not np.array_equal(arr(m._nlp_sw_params), ww):
                    r.fail("input", "the stored widths are modified", inp, ww, m._nlp_sw_params)
        r.run("c14", cfg, body)


def c14(r):
    r.rule = "(rule, residual curve or residual matrices, widths, tolerances, number of segments, method, class, sizes); distinct tuples"
    N = 2500 if r.thorough else 300
    equal_area(r, N)
    merge_split(r, N)
    at_times(r, N)
    phases(r)


# ------------------------------------------------------------------ C15
def scripted(r, m, n, history):
    """prescribes the outcome of the refinement: (widths, largest residual) after every solve"""
    seen = []
    orig = m.get_segment_width_parameters

    def fn(solution, options={}, **k):
        if solution is None:
            return orig(solution, options=options)
        w, e = history[min(len(seen), len(history) - 1)]
        seen.append(solution)
        return np.array(w), e
    m.get_segment_width_parameters = fn
    return seen


def run_solve(r, m, rec, inp, kw):
    n0 = len(rec.calls)
    sol = quiet(m.solve, **kw)
    return sol, rec.calls[n0:]


def check_run(r, R, P, m, inp, sol, calls, limit, initial):
    """the parts of the statement that hold whatever the history"""
    outs = [c[2] for c in calls]
    if len(calls) > limit:
        r.fail("limit", "number of NLP solves", inp, "<= %d" % limit, len(calls))
    if not calls:
        if initial is None or sol is not initial:
            r.fail("result", "the returned solution", inp, "the initial solution", "other")
        return
    own = [i for i, o in enumerate(outs) if o is sol]
    if not own:
        r.fail("result", "the returned solution is one of the solver's", inp)
        return
    if own[0] != len(outs) - 1:
        r.fail("result", "the last solution is returned", inp, len(outs) - 1, own[0])
    r.close("stored", "stored widths are those of the returned solution", inp, arr(m._nlp_sw_params), flat(calls[own[0]][1]["p"]), **TOL)
    if getattr(m, "iter_count", len(calls)) != len(calls):
        r.fail("count", "reported number of solves", inp, len(calls), m.iter_count)
    for i, c in enumerate(calls):
        a = c[1]
        p = flat(a["p"])
        if i == 0 and initial is None:
            r.close("initial", "refinement starts from equal widths", inp, p, np.full(R.S * P.n, 1.0 / R.S), **TOL)
            r.close("guess", "the first solve starts from the default guess", inp, flat(a["x0"]), R.guess(), **TOL)
            continue
        prev = initial if i == 0 else outs[i - 1]
        for k, key in (("x", "x0"), ("lam_x", "lam_x0"), ("lam_g", "lam_g0")):
            if k not in prev:
                continue
            if key not in a:
                r.fail("warm", "%s of solve %d" % (key, i), inp, "previous %s" % k, "missing")
            else:
                r.close("warm", "%s of solve %d is the previous solution's" % (key, i), inp, flat(a[key]), flat(prev[k]), **TOL)


def spread(r, S, n, base=None):
    """widths that differ clearly from the base"""
    for _ in range(60):
        w = np.concatenate([rand_widths(r, S) for _ in range(n)])
        if base is None or (abs(w - base) / w > 0.2).any():
            return w
    return w


def c15(r):
    r.rule = "(class, sizes, phases, iteration limit, method, history of widths and residuals, initial solution); distinct tuples"
    for cfg in stream(r, ("h",), n=110):
        if r.rng.rand() < 0.7 and len(cfg["orders"]) < 2:
            cfg = dict(cfg, orders=cfg["orders"] + [2], int_order=False)

        def body():
            P = Prob(cfg)
            R = Ref(P)
            with Keep(r.rng) as rec:
                m = P.optimizer()
                m.tol_residual = [float(10.0 ** r.rng.randint(-4, 0)) for _ in range(P.n)]
                tol = min(m.tol_residual)
                initial = None
                for rep in range(int(r.rng.choice([1, 2]))):
                    limit = int(r.rng.choice([1, 2, 3, 7, 9]))
                    mode = ["tolerance", "widths", "error", "never", "real", "phase"][r.rng.randint(6)]
                    o = [{}, {"method": "residual", "sub_method": "merge_split"}, {"method": "residual", "sub_method": "equal_area"}, {"method": "control_slope"}, {"method": "other"}][r.rng.randint(5)]
                    kw = {"max_iter": limit, "mpopt_options": dict(o)}
                    if initial is not None:
                        kw["initial_solution"] = initial
                    if rep and r.rng.rand() < 0.3:
                        kw["reinitialize_nlp"] = True
                    big = lambda i: tol * (5 + 4.0 * (-1) ** i) * (1 + i)
                    hist, stop = [], None
                    w = np.full(R.S * P.n, 1.0 / R.S)
                    off = 1 if initial is not None else 0
                    total = limit + off + 1
                    at = int(r.rng.randint(0, total))
                    for i in range(total):
                        w = spread(r, R.S, P.n, w) if R.S > 1 else w
                        hist.append((w, big(i)))
                    expect = limit if R.S > 1 else min(limit, 1)
                    if mode == "tolerance":
                        hist[at] = (hist[at][0], tol * (0.5 if r.rng.rand() < 0.7 else 0.0))
                        if at + 1 - off <= limit and R.S > 1:
                            expect = at + 1 - off
                    elif mode == "phase" and P.n > 1:
                        # above the smallest tolerance: goes on
                        hist = [(a, tol * 1.5 * (1 + (i % 2) * 3)) for i, (a, e) in enumerate(hist)]
                    elif mode == "widths" and at + 1 < total:
                        hist[at + 1:] = [(hist[at][0] * (1 + 1e-3 * (i % 2)), e) for i, (a, e) in enumerate(hist[at + 1:])]
                        if R.S > 1:
                            # the widths proposed after solve number at+1-off repeat those it used
                            expect = min(limit, max(at + 2 - off, 1))
                    elif mode == "error":
                        hist = [(a, tol * 3) for a, e in hist]
                        expect = None
                    inp = {"cfg": cfg, "limit": limit, "mode": mode, "options": o, "initial": initial is not None, "reinitialize": "reinitialize_nlp" in kw, "repetition": rep,
                           "tolerances": m.tol_residual, "history": "real" if mode == "real" else [[np.round(a, 6).tolist(), e] for a, e in hist]}
                    r.case(inp)
                    m.__dict__.pop("get_segment_width_parameters", None)
                    if mode != "real" and R.S > 1:
                        scripted(r, m, R.S * P.n, hist)
                    arg = dict(kw)
                    sol, calls = run_solve(r, m, rec, inp, arg)
                    if kw["mpopt_options"] != o:
                        r.fail("input", "the options are modified", inp, o, kw["mpopt_options"])
                    m.__dict__.pop("get_segment_width_parameters", None)
                    check_run(r, R, P, m, inp, sol, calls, limit, initial)
                    if mode != "real" and R.S > 1 and calls:
                        ws = ([np.full(R.S * P.n, 1.0 / R.S)] if initial is None else []) + [a for a, e in hist]
                        for i, c in enumerate(calls):
                            r.close("refined", "widths of solve %d are the refined ones" % i, inp, flat(c[1]["p"]), ws[i], **TOL)
                    if mode != "real":
                        n = len(calls)
                        if mode == "error":
                            # constant error, clearly changing widths: a few solves settle it
                            if R.S > 1 and limit >= 9 and n >= limit:
                                r.fail("stop", "solves although the error stopped changing", inp, "< %d" % limit, n)
                        elif expect is not None and n != expect:
                            r.fail("stop", "number of solves for this history", inp, expect, n)
                    initial = sol
        r.run("c15", cfg, body)


class Keep(Recorder):
    """recorder that also keeps what the solver returned"""

    def nlpsol(self, name, plugin, nlp, opts=None):
        s = Recorder.nlpsol(self, name, plugin, nlp, opts)
        rec = self

        class Solver:
            def __call__(self, **kw):
                out = s(**kw)
                n, a = rec.calls[-1]
                rec.calls[-1] = (n, a, out)
                return out

            def stats(self):
                return s.stats()
        return Solver()


ORACLES = {"C14": c14, "C15": c15}
