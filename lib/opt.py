"""Gradients (P25) and optimizers (P26)."""
import itertools, math, random
import numpy as np
import vk
import mentpy as mp
from sim import val, BASIS
from mentpy.gradients import get_gradient, get_hessian


def trig(p):
    def f(x):
        x = np.asarray(x, dtype=float)
        tot = 0.0
        for t in p:
            y = float(t["c"])
            for k, z in zip(t["fs"], x):
                y *= 1.0 if k == "1" else (math.cos(z) if k == "c" else math.sin(z))
            tot += y
        return tot
    return f


def quad(p):
    b, q = np.array(p["b"], dtype=float), np.array(p["q"], dtype=float)
    return lambda x: p["a"] + b @ np.asarray(x, dtype=float) + np.asarray(x, dtype=float) @ q @ np.asarray(x, dtype=float)


PSR = ["parameter-shift", "psr", "parametershift"]
FD = ["finite-differences", "fd", "finitedifferences"]


def p25(c):
    c.model("MC_Grad", "MC_Grad.cfg" if c.quick else "MC_Grad_t.cfg")
    rng = c.rng
    traces, got = [], []

    def call(what, f, x, args, kw):
        keep = x.copy()
        fun = get_gradient if what == "gradient" else get_hessian
        r = vk.attempt(lambda: fun(f, x, *args, **kw))
        return r, bool(np.array_equal(keep, x))

    def one():
        n = rng.randint(1, 5)
        many = rng.random() < 0.12
        what = rng.choice(["gradient", "hessian"])
        if rng.random() < 0.5:
            n = min(n, 4)
            p = [{"c": rng.randint(-3, 3), "fs": [rng.choice("11cs" if n > 2 else "1cs") for _ in range(n)]} for _ in range(rng.randint(1, 4))]
            budget = 2
            if many:     # every parameter occurs, each term has a few of them
                n, budget, p = rng.randint(5, 9), 0, []
                for i in range(n):
                    with_ = {i} | set(rng.sample(range(n), rng.randint(0, 2)))
                    p.append({"c": rng.choice([-3, -2, -1, 1, 2, 3]), "fs": [rng.choice("cs") if q in with_ else "1" for q in range(n)]})
            x = []
            for _ in range(n):
                m = 0
                if budget and rng.random() < 0.4:
                    m, budget = rng.choice([-1, 1]), budget - 1
                x.append([rng.randint(-8, 8), m])
            xr = np.array([val(t) for t in x])
            if rng.random() < 0.06:
                x = [[0, 0]] * n
                xr = np.zeros(n, dtype=rng.choice([int, np.int32]))
            f = trig(p)
            s = rng.choice([1.5, math.pi / 2, 0.3, 2.0, -1.0, math.pi / 4, 4.0, 0.05, rng.uniform(0.2, 2.9)])
            name = rng.choice(PSR)
            z = rng.random()
            args, kw = rng.choice([((name, s), {}), ((name,), {"shift": s}), ((), {"method": name, "shift": s})]) if z < 0.7 else \
                rng.choice([((), {}), ((name,), {}), ((), {"method": name}), ((), {"shift": s})])
            tol = 1e-7 if abs(s) > 0.2 else 1e-6
            ev = {"kind": "trig", "what": what, "p": p, "x": x}
        else:
            ty = rng.choice(["central", "central", "forward", "backward"])
            lin = ty != "central" and what == "gradient"
            if many:
                n = rng.randint(6, 9)
            p = {"a": rng.randint(-3, 3), "b": [rng.randint(-4, 4) for _ in range(n)],
                 "q": [[0 if lin or rng.random() < 0.3 else rng.randint(-3, 3) for _ in range(n)] for _ in range(n)]}
            x = [rng.randint(-5, 5) for _ in range(n)]
            xr = np.array(x, dtype=float if rng.random() < 0.8 else int)
            f = quad(p)
            h = rng.choice([1e-2, 0.125, 0.5, 1.0, 2.0, 1e-3, 0.3])
            name = rng.choice(FD)
            tol = 1e-6 if h > 5e-3 else 2e-3
            z = rng.random()
            if z < 0.25 and what == "gradient":   # the step by default
                args, kw, tol = (name,), ({"type": ty} if ty != "central" or rng.random() < 0.5 else {}), 1e-4
            elif ty == "central" and z < 0.5:
                args, kw = rng.choice([((name, h), {}), ((), {"method": name, "h": h})])
            else:
                args, kw = rng.choice([((name, h, ty), {}), ((name,), {"h": h, "type": ty}), ((), {"method": name, "type": ty, "h": h})])
            ev = {"kind": "quad", "what": what, "p": p, "x": x}
        r, same = call(what, f, xr, args, kw)
        ev.update(ok=r[0] == "ok", same=same)
        c.count(f"{ev['kind']} {what}")
        traces.append({"ev": [ev], "case": {"what": what, "p": p, "x": x, "args": list(args), "kw": kw, "got": str(r[1])[:300]}})
        got.append((r[1] if r[0] == "ok" else None, f(xr), tol))

    for _ in range(c.n(1600, 16000)):
        c.guard(one)
    for what in ("gradient", "hessian"):
        for args, kw in ((("nope",), {}), (("",), {}), ((None,), {}), (("finite",), {}), ((3,), {}), (("fd", 0.1, "both"), {}), (("fd",), {"type": "Forwards"}),
                         (("fd", 0.1, None), {})):
            r, _ = call(what, lambda x: float(np.sum(x)), np.array([1.0, 2.0]), args, kw)
            traces.append({"ev": [{"kind": "reject", "ok": r[0] == "ok"}], "case": [what, list(args), kw]})
            got.append(None)
    for lo in range(0, len(traces), 4000):
        part = traces[lo:lo + 4000]
        c.validate("T_Grad", part, cfg="GradReplay.cfg")
        for i, t in enumerate(part):
            a, g = c.results.get((i, 0)), got[lo + i]
            if a is None or g is None or g[0] is None:
                continue

            def test():
                trig_ = t["ev"][0]["kind"] == "trig"
                num = (lambda z: float(np.real(np.dot(BASIS, z))) / a["scale"]) if trig_ else float
                if abs(num(a["value"]) - g[1]) > 1e-6:
                    c.machinery("the objective of a trace is not the specification's", str(t["case"]))
                want = np.array([[num(z) for z in row] for row in a["d"]])
                res = np.asarray(g[0], dtype=float)
                if t["ev"][0]["what"] == "gradient":
                    want = want[0]
                if res.shape != want.shape:
                    return {"shape"}
                bad = set()
                if not np.allclose(res, want, rtol=g[2], atol=g[2] * 10):
                    bad.add(f"{t['ev'][0]['kind']}-{t['ev'][0]['what']}")
                if res.ndim == 2 and not np.allclose(res, res.T, atol=g[2] * 10):
                    bad.add("not-symmetric")
                return bad
            r = c.guard(test, case=t["case"])
            if r:
                c.fail(t, r, 1, "T_Grad")
    c.assumptions.append("points k*pi/4 + m*atan(4/3) for trigonometric polynomials and integers for quadratics; compared to 1e-6 (2e-3 and 1e-4 with small steps)")


# -- optimizers ---------------------------------------------------------------
D = 640
STEPS = {0.1: 64, 0.5: 320, 1.0: 640, 0.25: 160, 0.125: 80, 2.0: 1280}


class Script:
    """An objective whose gradient at the current iterate is the next scripted integer vector."""

    def __init__(self, gs):
        self.gs, self.k, self.cur = gs, 0, None

    def __call__(self, x):
        g = self.gs[min(self.k, len(self.gs) - 1)]
        return float(np.dot(g, np.sin(np.asarray(x, dtype=float) - self.cur)))


def p26(c):
    c.model("MC_Optim", "MC_Optim.cfg" if c.quick else "MC_Optim_t.cfg")
    rng = c.rng
    traces, checks = [], []

    def frac(x):
        return x[0] / x[1]

    def near(a, b, tol=2e-6):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)

    def gradkw():
        return rng.choice([{}, {}, {"method": "psr"}, {"method": "parameter-shift", "shift": 0.7}, {"method": "fd"},
                           {"method": "finite-differences", "h": 1e-4}])

    def make():
        kind = rng.choice(["sgd", "sgd", "adam", "adam", "rcd"])
        alpha = rng.choice(list(STEPS))
        t = {"kind": kind, "n": rng.randint(1, 4) if rng.random() < 0.88 else rng.randint(5, 8), "a": STEPS[alpha], "steady": False}
        cap = 5
        long = rng.random() < 0.1
        if kind == "sgd":
            mom = rng.choice([[0, 1], [1, 2], [3, 4], [9, 10], [1, 1]])
            if rng.random() < 0.15:
                mom, nest, args, kw = [0, 1], False, (), {}
                if rng.random() < 0.5:
                    t["a"] = 64
                else:
                    kw["step_size"] = alpha
            else:
                nest = rng.random() < 0.5
                args, kw = rng.choice([((alpha, frac(mom), nest), {}), ((), {"step_size": alpha, "momentum": frac(mom), "nesterov": nest})])
            t.update(mom=mom, nesterov=nest)
            cap = 3 if mom[1] == 10 else rng.randint(30, 60) if long and mom[1] == 1 else 5
            opt = mp.optimizers.SGDOptimizer(*args, **kw)
        elif kind == "adam":
            b1, b2 = rng.choice([[0, 1], [1, 2], [3, 4], [9, 10]]), rng.choice([[0, 1], [1, 2], [3, 4]])
            eps = rng.choice([0.25, 1e-8, 0.5])
            if rng.random() < 0.2:
                b1, b2, eps, args, kw = [9, 10], [999, 1000], 1e-8, (), {}
                if rng.random() < 0.5:
                    t["a"] = 64
                else:
                    args = (alpha,)
            else:
                args, kw = rng.choice([((alpha, frac(b1), frac(b2), eps), {}), ((), {"step_size": alpha, "b1": frac(b1), "b2": frac(b2), "eps": eps})])
            if long:     # one gradient all along: the moments are known without keeping them
                b1, b2 = rng.choice([[1, 2], [3, 4], [9, 10]]), rng.choice([[3, 4], [9, 10], [99, 100], [999, 1000]])
                args, kw = rng.choice([((alpha, frac(b1), frac(b2), eps), {}), ((), {"step_size": alpha, "b1": frac(b1), "b2": frac(b2), "eps": eps})])
                t.update(steady=True, a=STEPS[alpha])
            t.update(b1=b1, b2=b2)
            t["_eps"] = eps
            cap = rng.randint(30, 60) if long else 2 if b2[1] == 1000 else 4
            opt = mp.optimizers.AdamOptimizer(*args, **kw)
        else:
            ad = rng.random() < 0.5
            args, kw = rng.choice([((alpha, ad), {}), ((), {"step_size": alpha, "adaptive": ad})])
            if rng.random() < 0.1:
                ad, args, kw = False, (), {}
                t["a"] = 64
            t["_adaptive"] = ad
            cap = rng.randint(30, 60) if long else 6
            opt = mp.optimizers.RCDOptimizer(*args, **kw)
        t["_log"] = [f"{type(opt).__name__}{args}{kw}"]
        return t, opt, cap

    def one():
        t, opt, cap = make()
        kind, n, ev, log, exp = t["kind"], t["n"], [], t["_log"], []
        a = t["a"]
        room = cap   # gradients until the next reset
        zero = 0.15 if kind == "adam" and t["_eps"] > 1e-3 else 0.0

        only = []

        def vec():
            if t["steady"] and only:
                return list(only)
            g = draw()
            only[:] = g
            return g

        def draw():
            return [0 if rng.random() < zero else rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(n)]

        def start():
            return np.array([rng.choice([0.0, 1.0, -2.0, 0.5, rng.uniform(-3, 3)]) for _ in range(n)])

        def update(before, after, g, i, norm=None, mode="step", idx=0):
            e = {"op": "grad", "g": g, "i": i, "j": 0}
            if kind == "rcd":
                moved = [k + 1 for k in range(n) if abs(after[k] - before[k]) > 1e-9]
                e["j"] = moved[0] if len(moved) == 1 else (-1 if moved else 0)
            ev.append(e)
            exp.append((len(ev) - 1, np.array(before, dtype=float), np.array(after, dtype=float), i, norm, mode, e["j"]))

        def scale():
            nonlocal a
            p, q = rng.choice([(1, 2), (2, 1), (3, 2), (1, 4), (9, 10), (1, 1)])
            if a * p % q or a * p // q > 3000 or a * p // q < 8:
                return
            opt.update_step_size(*rng.choice([(None, 3), (np.zeros(n), 0)]), factor=p / q)
            a = a * p // q
            ev.append({"op": "scale", "p": p, "q": q})
            log.append(f"update_step_size {p}/{q}")

        runs = 0
        for _ in range(rng.randint(1, 4)):
            z = rng.random()
            if room <= 0 or z < 0.15:
                opt.reset()
                ev.append({"op": "reset"})
                log.append("reset")
                room, runs = cap, 0
                if z < 0.15:
                    continue
            z = rng.random()
            if t["steady"] and z >= 0.28:
                z = 1
            if z < 0.2:
                scale()
            elif z < 0.28:
                al = rng.choice(list(STEPS))
                opt.step_size, a = al, STEPS[al]
                ev.append({"op": "set", "a": a})
                log.append(f"step_size={al}")
            elif z < 0.55:
                x, g, i = start(), vec(), rng.randint(0, 2 if kind == "adam" and t["b2"][1] == 1000 else 5)
                f = Script([g])
                f.cur, keep, kw = x.copy(), x.copy(), gradkw()
                log.append(f"step {x.tolist()} g={g} i={i} {kw}")
                r = vk.attempt(lambda: opt.step(f, x, i, **kw))
                ok = r[0] == "ok" and np.shape(r[1]) == (n,)
                if ok:
                    update(keep, r[1], g, i)
                ev.append({"op": "end", "ok": ok, "calls": [0], "back": True, "n": 1, "norms": 1, "same": bool(np.array_equal(x, keep)), "kept": True})
                room -= 1
                if not ok:
                    break
            else:
                normed = runs == 0 and room == cap and rng.random() < 0.5
                m = rng.choice([0] + list(range(1, room + 1)) * 2) if room <= 8 or rng.random() < 0.3 else room
                back = rng.random() < 0.8
                gs = [vec() for _ in range(max(m, 1))]
                kw = gradkw()
                x0 = start()
                keep = x0.copy()
                if back:
                    f = Script(gs)
                    f.cur = x0.copy()
                else:      # nobody tells the iterates: a linear objective
                    gs = [gs[0]] * len(gs)
                    f = lambda x: float(np.dot(gs[0], x))
                    kw = {"method": "fd", "h": rng.choice([0.5, 1e-3])}
                its, raw, calls, mids = [], [], [], []

                def callback(x, i):
                    calls.append(i)
                    its.append(np.array(x, dtype=float))
                    raw.append(x)
                    f.cur, f.k = np.array(x, dtype=float), f.k + 1
                    mark = len(ev)
                    mids.append(None)
                    if rng.random() < 0.25:
                        scale()
                        if len(ev) > mark:
                            mids[-1] = ev.pop()
                name = "optimize_and_gradient_norm" if normed else "optimize"
                pos, kws = rng.choice([((m,), {}), ((), {"num_iters": m})])
                if back:
                    kws = {**kws, "callback": callback}
                log.append(f"{name} x0={keep.tolist()} m={m} gs={gs} callback={back} {kw}")
                ev.append({"op": "begin"})
                r = vk.attempt(lambda: getattr(opt, name)(f, x0, *pos, **kws, **kw))
                ok, norms, x = r[0] == "ok", None, None
                if ok and normed:
                    ok = isinstance(r[1], tuple) and len(r[1]) == 2
                    if ok:
                        x, norms = r[1]
                elif ok:
                    x = r[1]
                ok = ok and np.shape(x) == (n,)
                nn = m if norms is None else len(norms)
                if ok and back and len(its) == m and nn == m:
                    prev = keep
                    for i, y in enumerate(its):
                        update(prev, y, gs[i], i, None if norms is None else float(norms[i]), "norm" if normed else "step")
                        if mids[i]:
                            ev.append(mids[i])
                        prev = y
                elif ok and nn == m:
                    # only the last point is known: its distance from the start is the sum of the moves
                    first = len(ev)
                    for i in range(m):
                        ev.append({"op": "grad", "g": gs[0], "i": i, "j": 0})
                    exp.append((first, keep, np.array(x, dtype=float), m, norms, "sum" if not normed else "sumnorm", 0))
                last = keep if not m else its[-1] if back and its else x
                ev.append({"op": "end", "ok": bool(ok and np.allclose(np.asarray(x, dtype=float), last, atol=1e-12)) if ok else False, "calls": calls, "back": back, "n": m,
                           "norms": nn, "same": bool(np.array_equal(x0, keep)),
                           "kept": all(np.array_equal(p, q) for p, q in zip(raw, its))})
                room -= m
                runs += 1
                c.count(f"{kind} {name}")
                if not ok:
                    break
                if normed or t["steady"]:
                    opt.reset()
                    ev.append({"op": "reset"})
                    log.append("reset")
                    room, runs = cap, 0
        if not ev:
            return
        c.count(kind)
        t["ev"] = ev
        t["case"] = log
        traces.append(t)
        checks.append(exp)

    def quad_run():
        S = 4096
        n = rng.randint(1, 3)
        H = np.zeros((n, n), dtype=int)
        for i in range(n):
            for j in range(i, n):
                H[i, j] = H[j, i] = rng.choice([-1, 0, 1, 2])
        b = [rng.randint(-3, 3) for _ in range(n)]
        mom = rng.choice([[0, 1], [1, 2], [1, 1], [2, 1]])
        den, nest = rng.choice([1, 2, 4]), rng.random() < 0.5
        x0 = np.array([rng.randint(-4, 4) for _ in range(n)], dtype=float)
        if rng.random() < 0.2:
            x0 = x0.astype(int)
        m = rng.randint(0, 3 if mom[1] == 2 else 4)
        normed, back = rng.random() < 0.4, rng.random() < 0.6
        f = lambda x: float(np.dot(b, x) + 0.5 * np.asarray(x, dtype=float) @ H @ np.asarray(x, dtype=float))
        opt = mp.optimizers.SGDOptimizer(1 / den, frac(mom), nest)
        its = []
        kw = {"callback": lambda x, i: its.append((i, np.array(x, dtype=float)))} if back else {}
        keep = x0.copy()
        r = vk.attempt(lambda: getattr(opt, "optimize_and_gradient_norm" if normed else "optimize")(f, x0, m, **kw, method="fd", h=0.5))
        ok = r[0] == "ok"
        norms = None
        x = r[1]
        if ok and normed:
            x, norms = r[1]
        ok = ok and np.shape(x) == (n,)
        nn = m if norms is None else len(norms)
        ev = [{"op": "quad"} for _ in range(m)] + [{"op": "end", "ok": ok, "calls": [i for i, _ in its], "back": back, "n": m, "norms": nn,
                                                    "same": bool(np.array_equal(keep, x0)), "kept": True}]
        c.count("quadratic")
        traces.append({"kind": "quad", "n": n, "H": H.tolist(), "b": b, "S": S, "mom": mom, "nesterov": nest, "den": den,
                       "x": [int(v) * S for v in keep], "ev": ev,
                       "case": f"SGD(1/{den}, {mom}, {nest}) {'norms' if normed else 'optimize'} x0={keep.tolist()} H={H.tolist()} b={b} m={m}"})
        checks.append([("quad", x if ok else None, norms, its, back, S, m)])

    for _ in range(c.n(900, 12000)):
        c.guard(one)
    for _ in range(c.n(400, 5000)):
        c.guard(quad_run)

    def chosen():
        # every coordinate is chosen sooner or later (misses: 3 (2/3)^90 < 1e-15, 7 (6/7)^260 < 1e-15)
        for n in (1, 2, 3, 7):
            for name in ("optimize", "optimize_and_gradient_norm"):
                random.seed(c.seed)
                seen, st = set(), {"p": np.zeros(n)}

                def cb(x, i):
                    seen.update(int(k) + 1 for k in np.nonzero(np.abs(x - st["p"]) > 1e-9)[0])
                    st["p"] = np.array(x)
                getattr(mp.optimizers.RCDOptimizer(0.1), name)(lambda x: float(np.sum(x)), np.zeros(n), num_iters=90 if n < 4 else 260, callback=cb)
                traces.append({"kind": "rcd", "n": n, "a": 64, "steady": False, "ev": [{"op": "chosen", "seen": sorted(seen)}], "case": [name, n, sorted(seen)]})
                checks.append([])
    c.guard(chosen)

    def move(t, i, ans, it):
        """the expected displacement of an update"""
        if t["kind"] == "sgd":
            return [np.array(ans["move"]) / (D * ans["den"])]
        h = ans["hat"]
        m = np.array(h["m"]) / h["md"] * (h["mc"][1] / h["mc"][0])
        s = np.array(h["s"]) / h["sd"] * (h["sc"][1] / h["sc"][0])
        return [-(ans["a"] / D) * m / (np.sqrt(s) + t["_eps"])]

    def judge(t, exp, k):
        bad = set()
        for item in exp:
            if item[0] == "quad":
                _, x, norms, its, back, S, m = item
                if x is None:
                    continue
                path = [c.results[k, i] for i in range(m)]
                want = [np.array(p["x"]) / S for p in path]
                if m and not near(x, want[-1]):
                    bad.add("last-point")
                if back and not all(near(y, w) for (_, y), w in zip(its, want)):
                    bad.add("iterates")
                if norms is not None and not all(near(v, np.linalg.norm(np.array(p["norm"]) / S)) for v, p in zip(norms, path)):
                    bad.add("norms")
                continue
            at, before, after, i, norm, mode, j = item
            if mode in ("step", "norm"):
                ans = c.results.get((k, at))
                if ans is None:
                    continue
                diff = after - before
                if t["kind"] == "rcd":
                    facs = [1.0]
                    if t["_adaptive"]:
                        facs = [1 / math.sqrt(i + 1)]
                        if mode == "norm" and j >= 1:
                            facs.append(1 / math.sqrt(ans["counts"][j - 1]))
                    opts = [(jj, np.array(mv) / D * fac) for fac in facs for jj, mv in enumerate(ans["moves"])]
                    hit = [jj for jj, w in opts if near(diff, w)]
                    if not hit:
                        bad.add("update")
                    elif norm is not None and not any(near(norm ** 2, ans["norms"][jj], 1e-5) for jj in hit):
                        bad.add("norm")
                else:
                    if not near(diff, move(t, at, ans, i)[0], 1e-5 if t["kind"] == "adam" else 2e-6):
                        bad.add("update")
                    if norm is not None and not near(norm ** 2, ans["norm"], 1e-5):
                        bad.add("norm")
            else:
                ans = [c.results.get((k, at + q)) for q in range(i)]
                if any(a is None for a in ans):
                    continue
                diff = after - before
                if t["kind"] == "rcd":
                    # each update moved one coordinate by a known amount
                    g = np.array([ans[0]["moves"][q][q] for q in range(t["n"])]) / D if i else np.ones(t["n"])
                    rel = diff / g
                    top = sum(1.0 for q in range(i))
                    if np.any(rel < -1e-5) or np.sum(rel) > top + 1e-5 or (not t["_adaptive"] and not near(np.sum(rel), i, 1e-5)):
                        bad.add("update")
                    if mode == "sumnorm" and not all(any(near(v ** 2, w, 1e-5) for w in ans[0]["norms"]) for v in norm):
                        bad.add("norm")
                else:
                    tot = sum((move(t, at + q, a, q)[0] for q, a in enumerate(ans)), np.zeros(t["n"]))
                    if not near(diff, tot, 2e-5):
                        bad.add("update")
                    if mode == "sumnorm" and not all(near(v ** 2, a["norm"], 1e-5) for v, a in zip(norm, ans)):
                        bad.add("norm")
        return bad

    for lo in range(0, len(traces), 4000):
        part = traces[lo:lo + 4000]
        c.validate("T_Optim", part, cfg="OptimReplay.cfg")
        for i, t in enumerate(part):
            r = c.guard(judge, t, checks[lo + i], i, case=t["case"])
            if r:
                c.fail(t, r, 1, "T_Optim")
    c.assumptions.append("momenta and decay rates are small fractions, gradients integer vectors from -3 to 3, up to 6 updates between resets (60 where the memories are integers, or the gradient constant; 260 for the coordinate choice); the adaptive coordinate descent with gradient norms may count iterations overall or per coordinate")
