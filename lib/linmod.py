"""Gate builders (P20), partial traces (P21) and the GF(2) solver (P22)."""
import itertools, random
import numpy as np
import vk
import mentpy as mp
from mentpy.operators import gates
from mentpy import calculator as calc


def ring(z, scale=1.0, tol=1e-9):
    """Gaussian integer (times scale) as an element of Z[w]; None if it is not one."""
    z = complex(z) * scale
    a, b = round(z.real), round(z.imag)
    if abs(z - complex(a, b)) > tol:
        return None
    return [a, 0, b, 0]


def gvec(rng, n, lim=3):
    return [complex(rng.randint(-lim, lim), rng.randint(-lim, lim)) for _ in range(n)]


def columns(M, n, ks=None):
    M = np.asarray(M)
    if M.shape != (2**n, 2**n):
        return []
    out = []
    for k in range(2**n) if ks is None else ks:
        col = []
        for r in range(2**n):
            x = ring(M[r, k])
            if x is None:
                x = [999, 999, 999, 999]
            if any(x):
                col.append([r, x])
        out.append(col)
    return out


def p20(c):
    c.model("MC_Gates", "MC_Gates.cfg" if c.quick else "MC_Gates_t.cfg")
    rng = c.rng
    traces = []

    def add(ev, case):
        traces.append({"ev": [ev], "case": case})

    def gate(name, n, i, j, u=None, ks=None):
        base = 1 if name == "cnot" else 0   # the CNOT builder counts from one
        if name == "single":
            arr = np.array([[complex(x[0], x[2]) for x in row] for row in u])
            if rng.random() < 0.3 and not np.any(arr.imag):
                arr = arr.real
            keep = arr.copy()
            r = vk.attempt(lambda: gates.arbitrary_qubit_gate(arr, i, n))
            if r[0] == "ok" and not np.array_equal(arr, keep):
                r = ("raise", "modified", "")
        else:
            f = {"swap": gates.swap_ij, "cz": gates.controlled_z, "cnot": gates.cnot_ij}[name]
            r = vk.attempt(lambda: f(i + base, j + base, n))
        case = [name, n, i, j, u, r[1] if r[0] != "ok" else None]
        if r[0] != "ok":
            add({"op": "failed"}, case)
        else:
            ev = {"op": "gate", "name": name, "n": n, "i": i, "j": j, "ks": ks or list(range(2**n)), "cols": columns(r[1], n, ks)}
            if u is not None:
                ev["u"] = u
            add(ev, case)
        c.count(name)

    N = c.n(4, 6)
    for n in range(1, N + 1):
        for i in range(n):
            for j in range(n):
                if i != j:
                    for name in ("swap", "cz", "cnot"):
                        gate(name, n, i, j)
            for _ in range(3):
                u = [[[rng.randint(-3, 3), 0, rng.randint(-3, 3), 0] for _ in range(2)] for _ in range(2)]
                gate("single", n, i, 0, u)
    for _ in range(c.n(12, 60)):
        n = rng.randint(5, c.n(5, 7))
        i, j = rng.sample(range(n), 2)
        gate(rng.choice(["swap", "cz", "cnot"]), n, i, j)
    for n in range(N + 1, 9):    # more qubits: some columns
        some = lambda: rng.sample(range(2**n), 12)
        pairs = list(itertools.permutations(range(n), 2))
        for i, j in rng.sample(pairs, min(len(pairs), c.n(30, 60))):
            for name in ("swap", "cz", "cnot"):
                gate(name, n, i, j, ks=some())
        for i in range(n):
            u = [[[rng.randint(-3, 3), 0, rng.randint(-3, 3), 0] for _ in range(2)] for _ in range(2)]
            gate("single", n, i, 0, u, some())
    for _ in range(c.n(120, 900)):
        n = rng.randint(2, c.n(5, 7))
        i, j = rng.sample(range(n), 2)
        v = np.array(gvec(rng, 2**n))
        keep = v.copy()
        r = vk.attempt(lambda: gates.swap_qubits(v, i, j))
        case = ["swap_qubits", n, i, j, str(keep.tolist())]
        if r[0] != "ok" or not np.array_equal(v, keep):
            add({"op": "failed"}, case)
        else:
            add({"op": "vector", "n": n, "i": i, "j": j, "psi": [ring(x) for x in keep],
                 "res": [ring(x) or [999] * 4 for x in np.asarray(r[1]).reshape(-1)]}, case)
        c.count("vectors")
    for n in range(1, 4):   # positions out of range
        for f in (gates.swap_ij, gates.controlled_z):
            for i, j in ((n, 0), (0, n), (n, n + 1)):
                r = vk.attempt(lambda: f(i, j, n))
                add({"op": "reject", "ok": r[0] == "ok"}, ["out of range", f.__name__, i, j, n])
    for name in ("PauliX", "PauliY", "PauliZ", "HGate", "SGate", "TGate", "CNOT", "SWAP", "CSGate"):
        M = np.asarray(getattr(gates, name))
        u = []
        for row in M:
            u.append([])
            for z in row:
                x = ring(z, np.sqrt(2) if name == "HGate" else 1)
                if x is None and abs(z - np.exp(1j * np.pi / 4)) < 1e-12:
                    x = [0, 1, 0, 0]
                u[-1].append(x or [999] * 4)
        add({"op": "constant", "name": name, "u": u}, [name])
    for k in range(c.n(60, 500)):
        n = 4 if k < c.n(3, 20) else rng.randint(1, 3)
        np.random.seed(rng.randrange(2**31))
        r = vk.attempt(lambda: gates.random_su(n))
        if r[0] != "ok":
            add({"op": "failed"}, ["random_su", n])
        else:
            U = np.round(np.asarray(r[1]) * 10000)
            add({"op": "su", "n": n, "u": [[[int(z.real), int(z.imag)] for z in row] for row in U]}, ["random_su", n])
        c.count("random unitaries")
    c.validate("T_Gates", traces, cfg="GatesReplay.cfg")
    c.assumptions.append("the CNOT builder counts qubits from one; random unitaries are checked to 2 decimals")


# --- P21 ----------------------------------------------------------------------------
def gint(M):
    out = []
    for row in np.asarray(M):
        out.append([])
        for z in row:
            x = ring(z, tol=1e-6)
            out[-1].append([x[0], x[2]] if x else [99999, 0])
    return out


def p21(c):
    c.model("MC_Trace", "MC_Trace.cfg" if c.quick else "MC_Trace_t.cfg")
    rng = c.rng
    traces = []

    def mixed(n=None):
        n = n or rng.randint(1, c.n(4, 5) if rng.random() < 0.85 else c.n(5, 6))
        z = rng.random()
        d = 2**n
        if z < 0.3:
            M = np.array([gvec(rng, d) for _ in range(d)])
            evs = []
        elif z < 0.6:   # hermitian
            M = np.array([gvec(rng, d) for _ in range(d)])
            M = M + M.conj().T
            evs = []
        else:
            v = np.array(gvec(rng, d, 2))
            keep = v.copy()
            r = vk.attempt(lambda: calc.pure2density(v))
            ok = r[0] == "ok" and np.array_equal(v, keep)
            evs = [{"op": "pure", "n": n, "psi": [[int(x.real), int(x.imag)] for x in keep], "ok": ok, "res": gint(r[1]) if ok else []}]
            if not ok:
                return n, [], evs
            M = np.asarray(r[1])
        start = gint(M)
        if rng.random() < 0.2 and not evs:
            M = M.real.astype(float if rng.random() < 0.5 else int)
            start = gint(M)
        cur, left = M, n
        while True:
            k = rng.randint(0, left)
            idx = rng.sample(range(left), k)
            arg = list(idx)
            keep = cur.copy()
            f = calc.partial_trace_mixed_state if rng.random() < 0.4 else calc.partial_trace
            r = vk.attempt(lambda: f(cur, arg))
            ok = r[0] == "ok" and np.array_equal(cur, keep) and arg == idx
            res = np.asarray(r[1]) if ok else None
            evs.append({"op": "trace", "idx": idx, "ok": ok, "res": gint(res) if ok and res.ndim == 2 else []})
            c.count("traces")
            if not ok or res.ndim != 2 or rng.random() < 0.35 or left - k == 0:
                break
            cur, left = res, left - k
        return n, start, evs

    for k in range(c.n(1200, 6000)):
        r = c.guard(mixed, 6 if k < c.n(10, 30) else 7 if k < c.n(12, 36) else None)
        if r:
            traces.append({"n": r[0], "rho": r[1], "ev": r[2], "case": [r[0], r[1] if r[0] < 3 else "...", [dict(e, res=None) for e in r[2]]]})
    # pure product states: the specification gives the reduced matrix of the state
    pures, tests = [], []

    def pure(n=None):
        n = n or rng.randint(1, c.n(5, 7))
        k = rng.randint(0, n - 1)
        idx = rng.sample(range(n), k)
        rest = [q for q in range(n) if q not in idx]
        while True:
            phi, chi = np.array(gvec(rng, 2**len(rest), 2)), np.array(gvec(rng, 2**k, 2))
            if rng.random() < 0.3 and k:   # amplitudes that add up to zero
                chi = np.array([(-1) ** bin(x).count("1") for x in range(2**k)], dtype=complex)
            if rng.random() < 0.2 and k:
                chi = np.zeros(2**k, dtype=complex)
                chi[rng.randrange(2**k)] = rng.choice([1, 1j, -1])
            if np.any(phi) and np.any(chi):
                break
        t = np.kron(phi, chi).reshape([2] * n)
        psi = np.transpose(t, np.argsort(rest + idx)).reshape(-1)
        keep, arg = psi.copy(), list(idx)
        f = calc.partial_trace_pure_state if rng.random() < 0.4 else calc.partial_trace
        r = vk.attempt(lambda: f(psi, arg))
        ok = r[0] == "ok" and np.array_equal(psi, keep) and arg == idx
        return {"n": n, "rho": [], "ev": [{"op": "product", "n": n, "idx": idx, "rest": rest, "ok": ok,
                                          "phi": [[int(x.real), int(x.imag)] for x in phi], "chi": [[int(x.real), int(x.imag)] for x in chi],
                                          "psi": [[int(x.real), int(x.imag)] for x in keep]}],
                "case": ["product", n, idx, str(phi.tolist()), str(chi.tolist())]}, (r[1] if ok else None)

    for k in range(c.n(400, 3000)):
        r = c.guard(pure, 6 if k < 10 else 7 if k < 14 else None)
        if r:
            pures.append(r[0])
            tests.append(r[1])
            c.count("product states")
    for shape in ((2, 2, 2), (1, 2, 2), ()):
        r = vk.attempt(lambda: calc.partial_trace(np.ones(shape), [0]))
        traces.append({"n": 1, "rho": [], "ev": [{"op": "reject", "ok": r[0] == "ok"}], "case": ["shape", list(shape)]})
    c.validate("T_Trace", traces, cfg="TraceReplay.cfg")
    c.validate("T_Trace", pures, cfg="TraceReplay.cfg")
    for i, (t, got) in enumerate(zip(pures, tests)):
        a = c.results.get((i, 0))
        if a is None:
            if got is not None:
                c.machinery("no answer", str(t))
            continue

        def test():
            want = np.array([[complex(*z) for z in row] for row in a])
            want = want / np.trace(want)
            v = np.asarray(got).reshape(-1)
            if v.shape != (want.shape[0],):
                return {"product-shape"}
            if not np.isclose(np.linalg.norm(v), 1, atol=1e-9):
                return {"product-norm"}
            return set() if np.allclose(np.outer(v, v.conj()), want, atol=1e-9) else {"product-factor"}
        r = c.guard(test, case=t["case"])
        if r:
            c.fail(t, r, 1, "T_Trace")
    c.assumptions.append("matrices and vectors of Gaussian integers, so traces are exact; pure states only when they factor")


# --- P22 ----------------------------------------------------------------------------
def p22(c):
    import galois
    GF = galois.GF(2)
    c.model("MC_GF2", "MC_GF2.cfg" if c.quick else "MC_GF2_t.cfg")
    rng = c.rng
    traces = []
    solvers = [calc.solve, calc.solve]
    from mentpy.mbqc import flow as mflow
    if hasattr(mflow, "binary_gaussian_elimination"):      # the flow finder's own
        solvers[1] = mflow.binary_gaussian_elimination

    def add(A, b):
        rows, cols = len(A), len(A[0])
        Am, bm = GF(A), GF(b)
        if rng.random() < 0.3:
            bm = bm.reshape(-1, 1)
        k1, k2 = Am.copy(), bm.copy()
        fn = rng.choice(solvers)
        r = vk.attempt(lambda: fn(Am, bm))
        same = bool(np.array_equal(Am, k1) and np.array_equal(bm, k2))
        x = [int(v) for v in np.asarray(r[1]).reshape(-1)] if r[0] == "ok" else []
        traces.append({"ev": [{"A": A, "b": b, "cols": cols, "ok": r[0] == "ok", "same": same, "x": x}], "case": [A, b, x]})
        c.count("systems")

    # all small systems
    for rows in range(1, 4):
        for cols in range(1, 4):
            bits = rows * (cols + 1)
            allof = range(2**bits) if bits <= c.n(9, 12) else [rng.randrange(2**bits) for _ in range(c.n(500, 0))]
            for w in allof:
                M = [[(w >> (r * (cols + 1) + q)) & 1 for q in range(cols + 1)] for r in range(rows)]
                add([m[:-1] for m in M], [m[-1] for m in M])
    for k in range(c.n(5000, 30000)):
        big = rng.random() < 0.5
        rows, cols = rng.randint(1, 14 if big else 6), rng.randint(1, 14 if big else 6)
        z = rng.random()
        if z < 0.4:   # of low rank
            rank = rng.randint(1, min(rows, cols))
            B = [[rng.randint(0, 1) for _ in range(cols)] for _ in range(rank)]
            A = [[sum(s * B[q][j] for q, s in enumerate(sel)) % 2 for j in range(cols)]
                 for sel in [[rng.randint(0, 1) for _ in range(rank)] for _ in range(rows)]]
        else:
            p = rng.choice([0.15, 0.5, 0.8])
            A = [[int(rng.random() < p) for _ in range(cols)] for _ in range(rows)]
        for j in range(cols):   # empty columns
            if rng.random() < 0.08:
                for row in A:
                    row[j] = 0
        if rng.random() < 0.75:
            x = [rng.randint(0, 1) for _ in range(cols)]
            b = [sum(p * q for p, q in zip(row, x)) % 2 for row in A]
        else:
            b = [rng.randint(0, 1) for _ in range(rows)]
        order = list(range(rows))
        rng.shuffle(order)
        add([A[q] for q in order], [b[q] for q in order])
    for lo in range(0, len(traces), 6000):
        c.validate("T_GF2", traces[lo:lo + 6000], cfg="GF2Replay.cfg")
