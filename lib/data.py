"""Data sets (P28)."""
import math, random
import numpy as np
import vk
import mentpy as mp
from mentpy.utils import generate_data as G
from mentpy.operators import gates

PHASES = [1, 1j, -1, -1j]


def match(state, target):
    """Each entry of the target as an entry of the state and a phase."""
    out = []
    for y in np.asarray(target).ravel():
        hit = [[j + 1, k] for j, x in enumerate(state) for k in range(4) if abs(PHASES[k] * x - y) < 1e-9]
        out.append(hit[0] if len(hit) == 1 else [0, len(hit)])
    return out


def p28(c):
    c.model("MC_Data", "MC_Data.cfg" if c.quick else "MC_Data_t.cfg")
    rng = c.rng
    traces = []
    # the fractions and sizes on which the rounded product and the exact one agree
    def size():
        while True:
            q = rng.choice([1, 2, 4, 8, 10, 5, 3, 7, 16])
            p = rng.randint(0, q)
            n = rng.choice([0, 1, 2, 3, 5, 8, 10, 17, 40, rng.randint(0, 60)])
            if int(n * (p / q)) == n * p // q:
                return n, p, q

    def split():
        n, p, q = size()
        shuffle = rng.random() < 0.5
        kind = rng.choice(["list", "array", "matrix", "states", "tuple", "mixed"])
        if kind == "list":
            xs, ys = list(range(1, n + 1)), [-i for i in range(1, n + 1)]
        elif kind == "tuple":
            xs, ys = tuple(range(1, n + 1)), tuple(-i for i in range(1, n + 1))
        elif kind == "array":
            xs, ys = np.arange(1, n + 1), -np.arange(1, n + 1)
        elif kind == "mixed":
            xs, ys = list(range(1, n + 1)), -np.arange(1, n + 1)
        elif kind == "matrix":
            xs, ys = np.arange(1, n + 1)[:, None] * np.ones((1, 3)), -np.arange(1, n + 1)[:, None] * np.ones((1, 2))
        else:
            xs, ys = [np.array([i, 0.5]) for i in range(1, n + 1)], [np.array([-i, 2, 3]) for i in range(1, n + 1)]
        ids = lambda z: [abs(int(np.ravel(v)[0])) for v in z]
        before = ids(xs), ids(ys), len(xs)
        z = rng.random()
        args, kw = ((), {}) if (p, q) == (3, 10) and z < 0.5 else ((p / q,), {}) if z < 0.5 else ((), {"test_size": p / q})
        if shuffle:
            kw["randomize"] = True
        elif rng.random() < 0.3:
            kw["randomize"] = False
        np.random.seed(rng.randrange(2**31))
        r = vk.attempt(lambda: G.train_test_split(xs, ys, *args, **kw))
        e = {"op": "split", "n": n, "p": p, "q": q, "shuffle": shuffle, "ok": r[0] == "ok", "same": (ids(xs), ids(ys), len(xs)) == before}
        if e["ok"]:
            (a, b), (d, f) = r[1]
            e.update(xtr=ids(a), ytr=ids(b), xte=ids(d), yte=ids(f))
        c.count("split " + kind)
        traces.append({"ev": [e], "case": [kind, n, args, kw]})

    def shuffles():
        np.random.seed(rng.randrange(2**31))
        xs = list(range(30))
        rs = [G.train_test_split(xs, xs, 0.5, randomize=True)[0][0] for _ in range(3)]
        traces.append({"ev": [{"op": "shuffles", "differ": any(list(r) != xs[:15] for r in rs) and any(list(a) != list(b) for a in rs for b in rs)}]})

    def places(n):
        """Any pair can get into either part (some pair would not in 80 shuffles with probability n 2^-79)."""
        np.random.seed(rng.randrange(2**31))
        xs = list(range(1, n + 1))
        parts = [[int(v) for v in G.train_test_split(xs, xs, 0.5, randomize=True)[0][0]] for _ in range(80)]
        traces.append({"ev": [{"op": "places", "n": n, "trains": parts}], "case": ["places", n]})

    def monomial(k):
        d = 2**k
        col, ph = rng.sample(range(d), d), [rng.randrange(4) for _ in range(d)]
        u = np.zeros((d, d), dtype=complex)
        for i in range(d):
            u[i, col[i]] = PHASES[ph[i]]
        return u, {"col": [x + 1 for x in col], "ph": ph}

    def dataset():
        k = rng.choice([1, 1, 2, 2, 3, 4, 5])
        u, eu = monomial(k)
        if rng.random() < 0.2:     # multiples of the identity
            ph = rng.randrange(4)
            u, eu = PHASES[ph] * np.eye(2**k), {"col": list(range(1, 2**k + 1)), "ph": [ph] * 2**k}
        n, p, q = size()
        while n > (20 if k < 4 else 8):
            n, p, q = size()
        kind = rng.choice(["plain", "brownian", "bitflip", "bitflip"])
        level, x = rng.choice([("zero", 0.0), ("zero", 0), ("one", 1.0), ("one", 1), ("some", 0.5), ("some", rng.random() * 0.98 + 0.01)])
        np.random.seed(rng.randrange(2**31))
        keep = u.copy()
        fr = {} if (p, q) == (3, 10) else {"test_size": p / q}
        if kind == "plain":
            r = vk.attempt(lambda: G.generate_random_dataset(u, n, **fr))
        else:
            kw = {"noise_level": x, "noise_type": kind}
            if kind == "brownian" and rng.random() < 0.5:
                del kw["noise_type"]
            if level == "zero" and rng.random() < 0.4:
                del kw["noise_level"]
            r = vk.attempt(lambda: G.generate_random_dataset_noisy(u, n, **kw, **fr))
        e = {"op": "set", "k": k, "u": eu, "n": n, "p": p, "q": q, "kind": kind, "level": level, "ok": r[0] == "ok", "train": [], "test": []}
        if e["ok"]:
            (a, b), (d, f) = r[1]
            every = [np.asarray(v) for part in (a, b, d, f) for v in part]
            e["paired"] = len(a) == len(b) and len(d) == len(f) and bool(np.array_equal(u, keep))
            e["normed"] = all(v.shape == (2**k,) and abs(np.linalg.norm(v) - 1) < 1e-9 for v in every)
            ins = [np.asarray(v) for v in list(a) + list(d)]
            e["distinct"] = all(not np.allclose(ins[i], ins[j]) for i in range(len(ins)) for j in range(i))
            if e["paired"]:
                e["train"] = [match(s, t) for s, t in zip(a, b)]
                e["test"] = [match(s, t) for s, t in zip(d, f)]
        c.count(f"{kind} {level if kind != 'plain' else ''}".strip())
        traces.append({"ev": [e], "case": [kind, k, n, p, q, x, eu, str(r[1])[:200]]})

    def general():
        """Any unitary: the targets are its product with the inputs (the entries of the identity are compared)."""
        k = rng.choice([1, 2, 3, 3, 4])
        np.random.seed(rng.randrange(2**31))
        u = gates.random_su(k)
        n, p, q = size()
        n = min(n, 8)
        while int(n * (p / q)) != n * p // q:
            n -= 1
        noisy = rng.random() < 0.5
        r = vk.attempt(lambda: G.generate_random_dataset_noisy(u, n, test_size=p / q) if noisy else G.generate_random_dataset(u, n, test_size=p / q))
        ident = {"col": list(range(1, 2**k + 1)), "ph": [0] * 2**k}
        e = {"op": "set", "k": k, "u": ident, "n": n, "p": p, "q": q, "kind": "plain", "level": "zero", "ok": r[0] == "ok", "train": [], "test": []}
        if e["ok"]:
            (a, b), (d, f) = r[1]
            e["paired"] = len(a) == len(b) and len(d) == len(f)
            e["normed"] = all(abs(np.linalg.norm(v) - 1) < 1e-9 for part in (a, b, d, f) for v in part)
            e["distinct"] = True
            back = u.conj().T
            e["train"] = [match(s, back @ t) for s, t in zip(a, b)]
            e["test"] = [match(s, back @ t) for s, t in zip(d, f)]
        c.count("general unitary")
        traces.append({"ev": [e], "case": ["general", k, n, p, q, noisy, str(r[1])[:200]]})

    def states():
        k, n = rng.randint(1, 4), rng.randint(1, 6)
        np.random.seed(rng.randrange(2**31))
        one = rng.random() < 0.2
        r = vk.attempt(lambda: G.generate_haar_random_states(k) if one else G.generate_haar_random_states(k, n_samples=n))
        n = 1 if one else n
        e = {"op": "states", "n": n, "ok": r[0] == "ok"}
        if e["ok"]:
            st = [r[1]] if n == 1 and np.ndim(r[1]) == 1 else list(r[1])
            e.update(count=len(st), normed=all(abs(np.linalg.norm(v) - 1) < 1e-9 for v in st), dims=all(np.shape(v) == (2**k,) for v in st)
                     and all(not np.allclose(st[i], st[j]) for i in range(len(st)) for j in range(i)))
        traces.append({"ev": [e], "case": ["states", k, n]})

    for _ in range(c.n(600, 6000)):
        c.guard(split)
    for _ in range(c.n(30, 100)):
        c.guard(shuffles)
    for n in (2, 10, 30, 60):
        c.guard(places, n)
    for _ in range(c.n(300, 3000)):
        c.guard(dataset)
    for _ in range(c.n(80, 800)):
        c.guard(general)
    for _ in range(c.n(60, 500)):
        c.guard(states)
    u = np.eye(2)
    for kw in ({"noise_level": -0.1}, {"noise_level": 1.5}, {"noise_level": 2, "noise_type": "bitflip"}, {"noise_level": -1e-9},
               {"noise_level": 1 + 1e-9}, {"noise_type": "nope"}, {"noise_type": ""}):
        r = vk.attempt(lambda: G.generate_random_dataset_noisy(u, 4, **kw))
        traces.append({"ev": [{"op": "reject", "what": "noise-level" if "noise_level" in kw else "noise-type", "ok": r[0] == "ok"}], "case": kw})
    c.validate("T_Data", traces, cfg="DataReplay.cfg")
    c.assumptions.append("fractions and sizes for which the floating-point product rounds down to the exact count; for noisy training sets between the extremes, bit flips must flip some qubits and Brownian noise, a conjugation, keeps the norm and multiples of the identity")
