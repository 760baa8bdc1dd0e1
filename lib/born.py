"""Random outcomes of the density-matrix simulator, and their averages (P33)."""
import math
import numpy as np
import vk
import mentpy as mp
from sim import Batch, bad, val, vec, Angles, Pat, rand_pat, rand_plain, rand_cond, rand_state, retrain, fixed_ment, dev_kw, BASIS

R2 = math.sqrt(2)
num = lambda w: w[0] + w[1] * R2


def layers(pat):
    import circ
    return circ.layers_py(pat.n, pat.edges, pat.I, pat.O)


def random_outcome_pattern(rng, control):
    while True:
        ang = Angles(rng, 0)
        pat = rand_pat(rng, rng.choice([2, 3, 4, 5]), ["XY", "XY", "Z", "Z", "Z", "X", "Y", "XZ"], rng.random() < 0.7, ang=ang, nmin=2, measured_out=0.4)
        if rng.random() < 0.8:      # the others are mostly even
            for v in rng.sample(pat.I, rng.randint(1, len(pat.I))):
                pat.ments[v] = fixed_ment("Z")
        zs = [v for v, m in pat.ments.items() if m["p"] == "Z"]
        if not 1 <= len(zs) <= 3 or sum(m["p"] == "XZ" for m in pat.ments.values()) > 1:
            continue
        ly = layers(pat)
        full = len(ly) == pat.n
        order = sorted(range(pat.n), key=lambda v: (-ly.get(v, 0), v)) if full else rng.sample(range(pat.n), pat.n)
        if control:     # some nodes read what came out before
            for i, v in enumerate(order):
                before = [u for u in (order[:i] if not full else [u for u in range(pat.n) if ly[u] > ly[v]]) if u in pat.ments]
                seen = [u for u in before if u in zs]
                if v in pat.ments and v not in zs and seen and rng.random() < 0.7:
                    t = rand_plain(rng, ["XY", "X", "Y"], ang)
                    pat.ments[v] = {**pat.ments[v], "k": "c", "tp": t["p"], "tfree": t["free"], "tt": t["t"], "tu": t["u"],
                                    "cond": rand_cond(rng, seen)}
        return pat, (None if full else order)


def mixture(parts):
    vs = [np.array([np.dot(BASIS, x) for x in p], dtype=complex) for p in parts]
    rho = sum(np.outer(v, v.conj()) for v in vs)
    return rho / np.trace(rho).real


def p33(c):
    rng = c.rng
    c.model("MC_Born", "MC_Born.cfg" if c.quick else "MC_Born_t.cfg")
    b = Batch(c, "T_Born", "BornReplay.cfg")
    lean = [0.0, 0.0]       # how much more often than expected the likelier outcome came, and its variance

    def prepared(control):
        pat, order = random_outcome_pattern(rng, control)
        circ = pat.build(rng)
        retrain(rng, circ)
        train = list(circ.trainable_nodes)
        angles = [[rng.randint(-9, 9), 0] for _ in train]
        state = [[rng.randint(-2, 2), 0, rng.choice([0, 0, 1, -1]), 0] for _ in range(2 ** len(pat.I))]
        if not any(map(any, state)):
            state[0] = [1, 0, 0, 0]
        if rng.random() < 0.4:      # one input is nearly in a basis state
            q, f, o = rng.randrange(len(pat.I)), rng.randint(4, 12), rng.randrange(2)
            state = [[f * x if (i >> q) % 2 == o else x for x in a] if any(a) else [f if (i >> q) % 2 == o else 1, 0, 0, 0]
                     for i, a in enumerate(state)]
        kw = {} if order is None and rng.random() < 0.8 else {"schedule": order or rng.sample(list(circ.measurement_order), pat.n)}
        if control and order is None:
            kw = {}
        if rng.random() < 0.2:
            kw["window_size"] = pat.n
        sim = mp.PatternSimulator(circ, input_state=vec(state), backend="numpy-dm", **kw)
        a = {**pat.desc(train, angles, []), "sched": list(sim.simulator.schedule_measure)}
        return pat, circ, sim, [val(t) for t in angles], state, a, {"pattern": a, "state": state, **kw}

    def frequencies():
        pat, circ, sim, x, state, a, case = prepared(rng.random() < 0.5)
        reps = rng.choice([100, 150, 250]) if c.quick else 300
        np.random.seed(rng.randrange(2**31))
        seen = []
        new = rng.random() < 0.3
        for i in range(reps):
            r = vk.attempt(lambda: sim.run(x, input_state=vec(state)) if new else (i and sim.reset(), sim.run(x))[1])
            if r[0] == "raise":
                return bad(c, "raised-" + r[1], {**case, "error": r[2]})
            oc = sim.simulator.outcomes
            if set(oc) != set(pat.ments):
                return bad(c, "outcomes-not-recorded", case)
            seen.append([int(oc[v]) for v in a["sched"]])
        c.count("sampled patterns")

        def test(ans):
            out = set()
            for t in ans["tree"]:
                w0, w1 = num(t["w"][0]), num(t["w"][1])
                if 0 < w1 < 1e-3 * w0 or 0 < w0 < 1e-3 * w1:
                    return set()
                at = [s for s in seen if s[:len(t["pre"])] == t["pre"]]
                k, n, p = sum(s[len(t["pre"])] for s in at), len(at), w1 / (w0 + w1)
                if not t["z"]:
                    if k != (n if w0 == 0 else 0):
                        out.add("outcome-of-another-plane")
                    continue
                c.count("random outcomes", n)
                if abs(p - 0.5) > 0.05:
                    lean[0] += (k - n * p) * (1 if p > 0.5 else -1)
                    lean[1] += n * p * (1 - p)
                    c.count("uneven ones", n)
                sd = math.sqrt(n * p * (1 - p))
                if not abs(k - n * p) <= 6.5 * sd + 1e-9 and not (n * min(p, 1 - p) < 12 and abs(k - n * p) < 25):
                    out.add("frequency-of-outcomes")
                if (p < 1e-12 and k) or (p > 1 - 1e-12 and k < n):
                    out.add("impossible-outcome")
                if n * min(p, 1 - p) > 25 and k in (0, n):
                    out.add("never-random")
            return out
        b.ask({"kind": "tree", "a": a, "in": state}, test, case)

    def averages():
        pat, circ, sim, x, state, a, case = prepared(False)
        rs = []
        for i in range(rng.choice([1, 1, 2])):
            if i:
                sim.reset()
            mode = rng.choice(["expectation", "exp"])
            r = vk.attempt(lambda: sim.run(x, mode=mode) if rng.random() < 0.5 else sim(x, mode=mode))
            rs.append((r, dict(sim.simulator.outcomes)))
        c.count("averaged patterns")

        def test(ans):
            out = set()
            if any(min(num(q["w"][0]), num(q["w"][1])) < 1e-3 * max(num(q["w"][0]), num(q["w"][1])) for q in ans["recs"] if not q["z"]):
                return out
            rho = mixture(ans["parts"])
            for r, oc in rs:
                if r[0] == "raise":
                    out.add("raised-" + r[1])
                    continue
                got = np.asarray(r[1])
                if got.shape != rho.shape or not np.max(np.abs(got - rho)) < 1e-6:
                    out.add("averaged-state")
                for q in ans["recs"]:
                    w0, w1 = num(q["w"][0]), num(q["w"][1])
                    want = w1 / (w0 + w1) if q["z"] else 0
                    y = oc.get(q["v"])
                    if y is None or not abs(float(np.real(y)) - want) < 1e-6:
                        out.add("recorded-probability" if q["z"] else "recorded-outcome")
            return out
        b.ask({"kind": "average", "a": a, "in": state}, test, case)

    for _ in range(c.n(60, 500)):
        c.guard(frequencies, seconds=120)
    for _ in range(c.n(220, 2500)):
        c.guard(averages, seconds=60)
    b.settle()
    if abs(lean[0]) > 6.5 * math.sqrt(lean[1]) + 1:
        bad(c, "likelier-outcomes-too-" + ("frequent" if lean[0] > 0 else "rare"), {"excess": lean[0], "deviation": math.sqrt(lean[1])})
    c.assumptions.append("nodes read in the Z basis by plain measurements are averaged; frequencies are compared within six and a half standard deviations, from fixed seeds")
