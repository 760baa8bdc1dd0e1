"""Recorder of histories of circuit objects (P03-P06)."""
import copy, itertools, random
import networkx as nx
import vk, gen
import mentpy as mp
from mentpy.operators import Ment, ControlMent

NOANGLE = 99999
NONE = {"k": "none", "p": "", "a": NOANGLE, "tp": "", "ta": NOANGLE, "cond": []}
PLANES = ["XY", "XZ", "YZ"]


def enc(a):
    """Angles are multiples of a quarter, recorded as integers."""
    if a is None:
        return NOANGLE
    try:
        if isinstance(a, tuple):
            return 20000 + 100 * int(a[0] * 4) + int(a[1] * 4)
        x = a * 4
        return int(x) if x == int(x) else -77777
    except Exception:
        return -77778


def dec(a):
    if a == NOANGLE:
        return None
    return ((a - 20000) // 100 / 4, (a - 20000) % 100 / 4) if a >= 20000 else a / 4


# --- abstract measurements and their real counterparts ----------------------
XYZ = False   # pictures of circuits with XYZ angles fail


def rand_branch(rng):
    if XYZ and rng.random() < 0.08:
        return "XYZ", rng.choice([NOANGLE, 20000 + 100 * rng.randint(0, 9) + rng.randint(0, 9)])
    p = rng.choice(PLANES + ["XY", "XY", "X", "Y", "Z"])
    if p in ("X", "Y", "Z"):
        return p, 0
    return p, rng.choice([NOANGLE, NOANGLE, rng.randint(-9, 9)])


def rand_ment(rng, v=None, allowed=None, pc=0.35):
    p, a = rand_branch(rng)
    if allowed is not None and rng.random() < pc:
        tp, ta = rand_branch(rng)
        k = rng.choice([0, 1, 1, 2, 3])
        cond = rng.sample(allowed, min(k, len(allowed)))
        return {"k": "c", "p": p, "a": a, "tp": tp, "ta": ta, "cond": sorted(cond)}
    return {"k": "m", "p": p, "a": a, "tp": "", "ta": NOANGLE, "cond": []}


OPS = {"add": lambda a, b: a + b, "xor": lambda a, b: a ^ b, "mul": lambda a, b: a * b, "or": lambda a, b: a | b,
       "and": lambda a, b: a & b, "eq": lambda a, b: a == b, "ge": lambda a, b: a >= b}


def rand_cond(nodes, rng):
    """Some expression that reads all the given nodes."""
    if not nodes:
        return {"op": "const", "c": rng.randint(0, 1)}
    e = None
    for v in rng.sample(list(nodes), len(nodes)):
        o = {"op": "node", "v": v}
        if rng.random() < 0.2:
            o = {"op": "not", "a": o}
        e = o if e is None else {"op": rng.choice(list(OPS)), "a": e, "b": o}
    return e


def real_cond(e, outcome_of):
    if e["op"] == "const":
        return bool(e["c"])
    if e["op"] == "node":
        return outcome_of(e["v"])
    if e["op"] == "not":
        return ~real_cond(e["a"], outcome_of)
    return OPS[e["op"]](real_cond(e["a"], outcome_of), real_cond(e["b"], outcome_of))


def real_ment(m, rng, outcome_of):
    if m["k"] == "none":
        return None
    if m["k"] == "m":
        if m["p"] in ("X", "Y", "Z"):
            return Ment(m["p"])
        if m["a"] == NOANGLE:
            return rng.choice([lambda: Ment(m["p"]), lambda: Ment(plane=m["p"]), lambda: Ment(m["p"].lower())])()
        return rng.choice([lambda: Ment(dec(m["a"]), m["p"]), lambda: Ment(m["p"], dec(m["a"]))])()
    if "ex" not in m:
        m["ex"] = rand_cond(m["cond"], rng)
    cond = real_cond(m["ex"], outcome_of)
    ang = lambda p, a: None if p in ("X", "Y", "Z") else dec(a)
    return ControlMent(cond, ang(m["tp"], m["ta"]), m["tp"], ang(m["p"], m["a"]), m["p"])


def see_truth(cond, inv):
    """The sets of nodes read by a condition that make it true when their outcomes are one."""
    reads = sorted(cond.cond_nodes, key=lambda x: inv.get(x, -1))
    out = []
    try:
        for k in range(len(reads) + 1):
            for ones in itertools.combinations(reads, k):
                got = {bool(cond({**{x: o for x in inv}, **{x: int(x in ones) for x in reads}})) for o in (0, 1)}
                if len(got) > 1:
                    return [[-9]]       # it reads something else
                if True in got:
                    out.append([inv.get(x, -1) for x in ones])
    except Exception:
        return [[-8]]
    return out


def see_ment(m, inv):
    """The measurement as its public interface shows it."""
    if m is None:
        return dict(NONE)
    if isinstance(m, ControlMent):
        t, f = copy.deepcopy(m), copy.deepcopy(m)
        t.condition, f.condition = True, False
        return {"k": "c", "p": str(f.plane({})), "a": enc(f.angle({})), "tp": str(t.plane({})), "ta": enc(t.angle({})),
                "cond": sorted(inv.get(x, -1) for x in m.condition.cond_nodes), "tru": see_truth(m.condition, inv)}
    return {"k": "m", "p": str(m.plane), "a": enc(m.angle), "tp": "", "ta": NOANGLE, "cond": []}


def see(circ, labels, po=True):
    inv = {l: i for i, l in enumerate(labels)}
    at = lambda x: inv.get(x, -1)
    n = len(labels)
    own = []
    for v in labels:
        m = circ[v]
        if m is not None:
            try:
                if m.node_id == v and m.outcome.cond_nodes == {v} and all(
                        bool(m.outcome({w: (w == v) == b for w in labels})) == b for b in (True, False)):
                    own.append(inv[v])
            except Exception:
                pass
    has = circ.flow is not None
    order = circ.measurement_order
    f = []
    if has:
        for v in labels:
            if v in circ.output_nodes:
                continue
            try:
                f.append([inv[v], at(circ.flow(v))])
            except Exception:
                f.append([inv[v], -2])
    try:
        depth = int(circ.depth) if has else 0
    except Exception:
        depth = -1
    planes = circ.planes
    lay = tlay = None
    try:
        circ.gflow
    except AttributeError:
        haslay = False      # built with the caller's flow
    else:
        haslay = True
        try:
            lay, tlay = circ.ordered_layers(), circ.ordered_layers(train_indices=True)
        except Exception:
            lay, tlay = None, None
    return {"haslay": haslay, "lay": [[at(v) for v in x] for x in lay or []], "tlay": [list(x) for x in tlay or []],
            "train": [at(x) for x in circ.trainable_nodes], "ctrl": [at(x) for x in circ.controlled_nodes],
            "qo": [at(x) for x in circ.quantum_output_nodes], "co": [at(x) for x in circ.classical_output_nodes],
            "planes": sorted([at(v), "" if isinstance(circ[v], ControlMent) else str(p)] for v, p in planes.items()),
            "ments": [[at(v), see_ment(circ.measurements[v], inv)] for v in sorted(circ.measurements)],
            "own": own, "nodes": [at(v) for v in circ.graph.nodes], "len": len(circ),
            "edges": sorted(sorted([at(a), at(b)]) for a, b in circ.graph.edges),
            "I": [at(x) for x in circ.input_nodes], "O": [at(x) for x in circ.output_nodes],
            "oc": sorted(at(x) for x in circ.outputc), "ic": sorted(at(x) for x in circ.inputc),
            "hasflow": has, "f": f, "depth": depth,
            "hasorder": order is not None, "order": [at(x) for x in order] if order is not None else [],
            "po": [[inv[a], inv[b]] for a in labels for b in labels if bool(circ.partial_order(a, b))]
            if po and circ.partial_order is not None else []}


def layers_py(n, es, I, O):
    """Flow layers, only used to aim the generated conditions at earlier nodes."""
    nb = {v: set() for v in range(n)}
    for a, b in es:
        nb[a].add(b), nb[b].add(a)
    ly, k = {v: 0 for v in O}, 1
    while True:
        new = set()
        for v in ly:
            if v not in I:
                rest = nb[v] - set(ly)
                if len(rest) == 1:
                    new |= rest
        if not new:
            return ly
        ly.update({v: k for v in new})
        k += 1


class History:
    """One history of a circuit: drives the real object and records what it shows."""

    def __init__(self, c, rng, n, es, I, O, scope, labels=None):
        self.c, self.rng, self.n, self.scope = c, rng, n, scope
        self.es, self.I, self.O = [list(e) for e in es], list(I), list(O)
        self.labels = labels or list(range(n))
        self.circs, self.ev, self.case = [], [], []
        ly = layers_py(n, es, I, O)
        self.ly = ly if len(ly) == n else None
        self.rank = rng.sample(range(n), n)

    def allowed(self, v):
        """Nodes a condition on v may read without contradicting the flow."""
        if self.ly is None or self.rng.random() < 0.05:
            return [w for w in range(self.n) if w != v]
        k = (-self.ly.get(v, 0), self.rank[v] if 0 <= v < self.n else 0)
        return [w for w in range(self.n) if (-self.ly[w], self.rank[w]) < k]

    # every observation of every circuit
    def look(self):
        lab = list(range(self.n))
        return [see(x, self.view) for x in self.circs]

    def rec(self, e, note=None):
        e["obs"] = self.look()
        self.ev.append(e)
        self.case.append({k: v for k, v in e.items() if k != "obs"})
        self.c.count(e["op"])

    def outcome_of(self, circ):
        def get(v):
            m = circ[self.view[v]]
            if m is not None and self.rng.random() < 0.7:
                return m.outcome
            x = Ment("X")
            x.node_id = self.view[v]
            return x.outcome
        return get

    # --- construction
    def graph(self, shuffle=True):
        g = mp.GraphState()
        order = list(range(self.n))
        es = [tuple(e) for e in self.es]
        if shuffle:
            self.rng.shuffle(order)
            self.rng.shuffle(es)
        if self.rng.random() < 0.8 or not es:
            g.add_nodes_from(self.labels[v] for v in order)
        g.add_edges_from((self.labels[a], self.labels[b]) if self.rng.random() < 0.5 else (self.labels[b], self.labels[a]) for a, b in es)
        g.add_nodes_from(self.labels[v] for v in order)
        return gen.dress(self.rng, g)

    def new(self, given=None, dflt=None, order=None, relabel=True, bad=None, again=False, same=None):
        rng = self.rng
        L = self.labels
        self.view = list(range(self.n)) if relabel else L
        g = self.graph(shuffle=relabel)
        if not relabel:
            g2 = mp.GraphState()
            g2.add_nodes_from(L)
            g2.add_edges_from(g.edges)
            g = g2
        if again:
            given, dflt, order, real, rdflt = same
        else:
            def outc(v):
                x = Ment("X")
                x.node_id = L[v]
                return x.outcome
            real = {v: real_ment(m, rng, outc) for v, m in (given or {}).items()}
            rdflt = real_ment(dflt, rng, None) if dflt else None
            if rng.random() < 0.3:      # measurements that already know their node, or another one
                for v, m in real.items():
                    if m is not None:
                        m.node_id = v if rng.random() < 0.7 else rng.randrange(self.n)
                if rdflt is not None and rng.random() < 0.5:
                    rdflt.node_id = rng.randrange(self.n)
        kw = {}
        if given is not None:
            kw["measurements"] = {L[v]: real[v] for v in given}
        if dflt:
            kw["default_measurement"] = rdflt
        if order is not None:
            kw["measurement_order"] = [L[v] for v in order]
        if not relabel:
            kw["relabel_indices"] = False
        I, O = [L[v] for v in self.I], [L[v] for v in self.O]
        foreign = rng.choice([10**6, -(10**6)]) if not isinstance(L[0], (str, tuple)) else (99, 99) if isinstance(L[0], tuple) else "zzz9"
        if bad == "input":
            I = I + [foreign]
        elif bad == "output":
            O = [foreign] + O
        elif bad == "measurement-node":
            kw["measurements"] = {**kw.get("measurements", {}), foreign: Ment("XY")}
        elif bad == "measurement-value":
            kw["measurements"] = {**kw.get("measurements", {}), L[rng.randrange(self.n)]: rng.choice(["XY", 0.5, True])}
        elif bad == "default":
            kw["default_measurement"] = rng.choice(["XY", None, 1])
        before = self.freeze(g, I, O, kw)
        r = vk.attempt(lambda: mp.MBQCircuit(g, input_nodes=I, output_nodes=O, **kw))
        touched = self.freeze(g, I, O, kw) != before
        if r[0] == "ok" and rng.random() < 0.3:     # they stay the caller's, to use elsewhere
            self.reuse(list(real.values()) + [rdflt])
        self.circs = [r[1]] if r[0] == "ok" else []
        d = dflt or {"k": "m", "p": "XY", "a": NOANGLE, "tp": "", "ta": NOANGLE, "cond": []}
        self.rec({"op": "again" if again else "new", "n": self.n, "edges": self.es, "I": self.I, "O": self.O, "dflt": d,
                  "given": [[v, m] for v, m in (given or {}).items()], "order": order or [], "valid": bad is None,
                  "res": "ok" if r[0] == "ok" else "error", "touched": touched})
        return (given, dflt, order, real, rdflt)

    def reuse(self, ments):
        for m in ments:
            if isinstance(m, Ment):
                m.node_id = self.rng.choice([0, 1, 77])

    @staticmethod
    def freeze(g, I, O, kw):
        ms = kw.get("measurements")
        return (list(g.nodes), [tuple(sorted(map(str, e))) for e in g.edges], list(I), list(O),
                None if ms is None else [(k, id(m), (m.plane() if callable(m.plane) else m.plane) if isinstance(m, Ment) else m,
                                          (m.angle() if callable(m.angle) else m.angle) if isinstance(m, Ment) else None,
                                          m.node_id if isinstance(m, Ment) else None) for k, m in ms.items()],
                list(kw.get("measurement_order") or []),
                kw["default_measurement"].node_id if isinstance(kw.get("default_measurement"), Ment) else None)

    def given_flow(self):
        """A flow and an order of the caller, in the caller's labels."""
        L, rng = self.labels, self.rng
        base = {}
        nb = {v: set() for v in range(self.n)}
        for a, b in self.es:
            nb[a].add(b), nb[b].add(a)
        ly = self.ly
        f = {}
        done, k = set(self.O), 1
        for v in sorted(set(range(self.n)) - set(self.O), key=lambda v: ly[v]):
            cand = [w for w in nb[v] if ly[w] < ly[v] and w not in self.I and w not in f.values()
                    and all(ly[x] < ly[v] for x in nb[w] - {v})]
            if not cand:
                return
            f[v] = cand[0]
        lf = {L[a]: L[b] for a, b in f.items()}
        ll = {L[a]: b for a, b in ly.items()}
        g = self.graph()
        self.view = list(range(self.n))
        r = vk.attempt(lambda: mp.MBQCircuit(g, input_nodes=[L[v] for v in self.I], output_nodes=[L[v] for v in self.O],
                                             flow=lambda x: lf[x], partial_order=lambda x, y: ll[x] > ll[y]))
        self.circs = []
        e = {"op": "newflow", "n": self.n, "edges": self.es, "I": self.I, "O": self.O, "f": [[a, b] for a, b in f.items()],
             "res": "ok" if r[0] == "ok" else "error", "of": [], "opo": [], "oorder": []}
        if r[0] == "ok":
            x = r[1]
            at = lambda y: y if y in range(self.n) else -1
            for v in f:
                try:
                    e["of"].append([v, at(x.flow(v))])
                except Exception:
                    e["of"].append([v, -2])
            e["opo"] = [[a, b] for a in range(self.n) for b in range(self.n) if bool(x.partial_order(a, b))]
            e["oorder"] = [at(v) for v in (x.measurement_order or [])]
        self.rec(e)

    # --- edits of circuit number i (1-based)
    def do(self, op, i, **kw):
        circ = self.circs[i - 1]
        rng = self.rng
        e = {"op": op, "c": i}
        mine = []
        lab = lambda v: self.view[v] if isinstance(v, int) and 0 <= v < self.n else rng.choice([self.n + 7, -1, "nope"])
        if op == "set":
            v, m, well = kw["v"], kw["m"], kw.get("well", True)
            val = real_ment(m, rng, self.outcome_of(circ)) if well else rng.choice(["XY", 1.5, None, {}])
            mine = [val]
            if isinstance(val, Ment) and rng.random() < 0.3:
                val.node_id = lab(v)

            def call():
                circ[lab(v)] = val
            e.update(v=v, m=m, wellformed=well)
        elif op == "del":
            v = kw["v"]

            def call():
                del circ[lab(v)]
            e.update(v=v)
        elif op == "setall":
            given, well = kw["given"], kw.get("well", True)
            d = {lab(v): real_ment(m, rng, self.outcome_of(circ)) for v, m in given}
            if not well:
                d[self.view[rng.randrange(self.n)]] = rng.choice(["XY", 3])
            before = [(k, id(x)) for k, x in d.items()]
            mine = list(d.values())
            if rng.random() < 0.3:
                for k, x in d.items():
                    if isinstance(x, Ment):
                        x.node_id = k

            def call():
                circ.measurements = d
            e.update(given=given, wellformed=well)
        elif op == "edges":
            es, well = kw["es"], kw.get("well", True)
            pairs = [(self.view[a], self.view[b]) for a, b in es]
            if not well:
                pairs.insert(rng.randrange(len(pairs) + 1), rng.choice([(0, "x"), ("y", 0), (0,), (0, [1])]))
            single = len(pairs) == 1 and rng.random() < 0.7 and len(pairs[0]) == 2

            def call():
                if single:
                    circ.add_edge(*pairs[0])
                else:
                    circ.add_edges_from(pairs)
            e.update(edges=[list(x) for x in es], wellformed=well)
        elif op == "order":
            seq = kw["order"]

            def call():
                circ.measurement_order = [lab(v) for v in seq]
            e.update(order=seq)
        elif op == "train":
            seq = kw["nodes"]
            given = [lab(v) for v in seq]

            def call():
                circ.trainable_nodes = given
            e.update(nodes=seq)
        elif op == "copy":
            def call():
                self.circs = [circ, copy.deepcopy(circ)]
        r = vk.attempt(call)
        if mine and rng.random() < 0.3:
            self.reuse(mine)
        if op == "setall" and rng.random() < 0.2:
            d.clear()
        e["res"] = "ok" if r[0] == "ok" else "error"
        self.rec(e)

    # --- random history
    def linear(self, circ):
        """A random linear extension of the circuit's order (of the circuit as it is now)."""
        left, out = list(range(self.n)), []
        po = circ.partial_order
        if po is None:
            return self.rng.sample(left, len(left))
        V = self.view
        while left:
            src = [v for v in left if not any(po(V[u], V[v]) for u in left if u != v)]
            if not src:
                return self.rng.sample(range(self.n), self.n)
            v = self.rng.choice(src)
            left.remove(v)
            out.append(v)
        return out

    def reversed_pair(self, circ):
        """An order that respects everything but one covering pair, whose two nodes come as far apart as possible."""
        po, V, rng = circ.partial_order, self.view, self.rng
        if po is None:
            return None
        R = {(a, b) for a in range(self.n) for b in range(self.n) if po(V[a], V[b])}
        cover = [(a, b) for a, b in sorted(R) if not any((a, x) in R and (x, b) in R for x in range(self.n))]
        if not cover:
            return None
        best = None
        for u, v in rng.sample(cover, min(len(cover), 8)):
            S = (R - {(u, v)}) | {(v, u)}
            left, out = set(range(self.n)), []
            up = lambda x: any((x, y) in S for y in (v,)) or x == v
            while left:
                src = [x for x in left if not any((y, x) in S for y in left if y != x)]
                if not src:
                    break
                pick = [x for x in src if up(x)] or [x for x in src if x != u and (u, x) not in S] or src
                x = rng.choice(pick)
                left.remove(x)
                out.append(x)
            if not left:
                gap = out.index(u) - out.index(v)
                if best is None or gap > best[0]:
                    best = (gap, out)
        return best and best[1]

    def trace(self):
        return {"scope": self.scope, "ev": self.ev, "case": self.case}

    def randop(self, ops):
        rng = self.rng
        i = rng.randint(1, len(self.circs))
        op = rng.choice(ops)
        n = self.n
        anynode = lambda: rng.randrange(n) if rng.random() < 0.93 else -1
        if op == "set":
            v = anynode()
            self.do("set", i, v=v, m=rand_ment(rng, v, self.allowed(v)), well=rng.random() < 0.93)
        elif op == "del":
            self.do("del", i, v=anynode())
        elif op == "setall":
            vs = rng.sample(range(n), rng.randint(0, n))
            given = [[v, dict(NONE) if rng.random() < 0.2 else rand_ment(rng, v, self.allowed(v), 0.2)] for v in vs]
            if rng.random() < 0.1:
                given.append([-1, rand_ment(rng)])
            self.do("setall", i, given=given, well=rng.random() < 0.93)
        elif op == "edges":
            missing = [e for e in gen.edges_all(n)]
            k = rng.choice([1, 1, 1, 2, 3])
            es = rng.sample(missing, min(k, len(missing)))
            self.do("edges", i, es=[list(e) if rng.random() < 0.5 else [e[1], e[0]] for e in es], well=rng.random() < 0.8)
        elif op == "order":
            seq = self.linear(self.circs[i - 1])
            z = rng.random()
            far = self.reversed_pair(self.circs[i - 1]) if z > 0.75 else None
            if far:
                seq = far
            elif z < 0.35 and n > 1:
                a, b = rng.sample(range(n), 2)
                seq[a], seq[b] = seq[b], seq[a]
            elif z < 0.45:
                seq = seq[:-1]
            elif z < 0.5:
                seq = seq + [seq[0]]
            elif z < 0.55 and n > 1:
                seq[0] = seq[1]
            elif z < 0.6:
                seq[-1] = -1
            self.do("order", i, order=seq)
        elif op == "train":
            seq = [self.view.index(v) for v in self.circs[i - 1].trainable_nodes if v in self.view]
            rng.shuffle(seq)
            z = rng.random()
            if z < 0.4:
                seq = seq[:rng.randint(0, len(seq))]
            elif z < 0.5:
                seq = rng.sample(range(n), rng.randint(0, n))
            elif z < 0.65:
                seq.insert(rng.randint(0, len(seq)), -1)
            self.do("train", i, nodes=seq)
        elif op == "copy":
            if len(self.circs) == 1:
                self.do("copy", 1)


def start(c, rng, scope, nmax=7, flow=0.8, pment=0.5, labels=None, n=None):
    n = n or rng.randint(1, nmax)
    if rng.random() < flow:
        es, I, O = gen.planted(rng, n, rng.randint(1, max(1, n // 2)))
    else:
        k = rng.randint(0, n)
        es, I, O = gen.rand_graph(rng, n), rng.sample(range(n), k), rng.sample(range(n), k)
    h = History(c, rng, n, es, I, O, scope, labels)
    return h


def rand_given(h, rng, pc=0.3):
    vs = rng.sample(range(h.n), rng.randint(0, h.n))
    return {v: dict(NONE) if rng.random() < 0.15 else rand_ment(rng, v, h.allowed(v), pc) for v in vs}


def random_history(c, rng, scope, ops, length, nmax=7, flow=0.8, dflt=0.3):
    h = start(c, rng, scope, nmax if rng.random() < 0.95 else 2 * nmax, flow)
    given = rand_given(h, rng) if rng.random() < 0.6 else None
    h.new(given, rand_ment(rng) if rng.random() < dflt else None)
    if h.circs:
        for _ in range(rng.randint(1, length)):
            h.randop(ops)
            if len(h.circs) == 0:
                break
    return h.trace()


# --- behaviours generated by TLC from MC_Circuit ------------------------------
def model_history(c, rng, scope, beh):
    """Drives the real circuit along a behaviour of the specification."""
    g = beh["g"]
    h = History(c, rng, g["n"], g["edges"], g["I"], g["O"], scope)
    h.new()
    if not h.circs:
        return h.trace()
    fix = lambda m: {**m, "cond": sorted(m["cond"])}
    for x in beh["hist"]:
        i = min(x["c"], len(h.circs))
        if x["op"] == "set":
            h.do("set", i, v=x["v"], m=fix(x["m"]))
        elif x["op"] == "del":
            h.do("del", i, v=x["v"])
        elif x["op"] == "edges":
            h.do("edges", i, es=[list(x["e"])])
        elif x["op"] == "order":
            h.do("order", i, order=x["s"])
        elif x["op"] == "copy":
            h.do("copy", 1)
    return h.trace()


def behaviours(c, num):
    import json
    rc, out = c.tlc("MC_Circuit", "MC_Circuit_gen.cfg", extra=("-simulate", f"num={num}", "-depth", "12", "-seed", str(c.seed)), workers=1)
    bs = [json.loads(x) for x in c.lines(out, "@@B")]
    if len(bs) < num // 2:
        c.machinery(f"only {len(bs)} behaviours generated, rc={rc}", out)
    c.count("behaviours generated by TLC", len(bs))
    return bs


# --- the four checks -----------------------------------------------------------
def model(c):
    global XYZ
    XYZ = True
    c.model("MC_Circuit", "MC_Circuit.cfg" if c.quick else "MC_Circuit_t.cfg")


def histories(c, scope, ops, quick, thorough, gen_n=120, more=(), **kw):
    rng = c.rng
    model(c)
    traces = []
    for make, num in more:
        for _ in range(num):
            traces.append(c.guard(make, c, rng))
    for b in behaviours(c, c.n(gen_n, 10 * gen_n)):
        traces.append(c.guard(model_history, c, rng, scope, b, case=b))
    for _ in range(c.n(quick, thorough)):
        traces.append(c.guard(random_history, c, rng, scope, ops, **kw))
    c.validate("T_Circuit", [t for t in traces if t])


def wide_history(c, rng):
    """A circuit of few layers on many wires: measurements wait for one another mostly through conditions."""
    k = rng.randint(3, 6)
    n = k * rng.choice([2, 2, 3]) + rng.randint(0, 2)
    es, I, O = gen.planted(rng, n, k, extra=rng.randint(0, 2))
    h = History(c, rng, n, es, I, O, ["order"])
    h.new(None, None)
    for _ in range(rng.randint(1, 6)):
        if not h.circs:
            break
        i = rng.randint(1, len(h.circs))
        v = rng.randrange(n)
        al = h.allowed(v)
        m = rand_ment(rng, v, al, 0.8)
        h.do("set", i, v=v, m=m)
        if rng.random() < 0.5:
            h.randop(["order"])
        far = h.reversed_pair(h.circs[i - 1])
        if far and rng.random() < 0.8:
            h.do("order", i, order=far)
    return h.trace()


def far_history(c, rng):
    """Orders that are wrong about one pair of nodes only, with as many nodes as possible between the two."""
    k = rng.randint(7, 11)
    n = k + rng.randint(0, 3)
    es, I, O = gen.planted(rng, n, k, extra=0)
    h = History(c, rng, n, es, I, O, ["order"])
    h.new(None, None)
    for _ in range(rng.randint(1, 2)):
        v = rng.randrange(n)
        if h.circs and h.allowed(v):
            m = rand_ment(rng, v, [rng.choice(h.allowed(v))], 1)
            h.do("set", 1, v=v, m=m)
    for _ in range(4):
        far = h.reversed_pair(h.circs[0]) if h.circs else None
        if far:
            h.do("order", 1, order=far)
    return h.trace()


def chain_history(c, rng):
    """Measurements of one layer that wait for one another in chains, in any order of the nodes, set in any order."""
    k = rng.randint(3, 6)
    n = k * rng.choice([1, 2, 2]) + rng.randint(0, 2)
    es, I, O = gen.planted(rng, n, k, extra=rng.randint(0, 2))
    h = History(c, rng, n, es, I, O, ["order"])
    if h.ly is None:
        return None
    chains = {}
    for l in set(h.ly.values()):
        line = sorted((v for v in range(n) if h.ly[v] == l and v not in O), key=lambda v: h.rank[v])
        for a, b in zip(line, line[1:]):
            m = rand_ment(rng, b, [a], 1)
            m["cond"] = sorted(set(m["cond"]) | {a}) if m["k"] == "c" else m["cond"]
            if m["k"] == "c" and rng.random() < 0.85:
                chains[b] = m
    todo = rng.sample(sorted(chains), len(chains))
    if rng.random() < 0.4:
        h.new({v: chains[v] for v in todo}, None)
        todo = []
    else:
        h.new(None, None)
    for v in todo:
        if h.circs:
            h.do("set", 1, v=v, m=chains[v])
    for _ in range(rng.randint(0, 3)):
        if not h.circs:
            break
        i = rng.randint(1, len(h.circs))
        far = h.reversed_pair(h.circs[i - 1])
        if far and rng.random() < 0.6:
            h.do("order", i, order=far)
        elif todo and rng.random() < 0.5:
            h.do("set", i, v=rng.choice(todo), m={"k": "m", "p": "XY", "a": NOANGLE, "tp": "", "ta": NOANGLE, "cond": []})
        else:
            h.randop(["order", "copy"])
    return h.trace()


def detour_history(c, rng):
    """Conditions that contradict the flow, and are taken away again."""
    h = start(c, rng, ["order"], 8, 1.0)
    if h.ly is None or h.n < 3:
        return None
    h.new(None, None)
    plain = {"k": "m", "p": "XY", "a": NOANGLE, "tp": "", "ta": NOANGLE, "cond": []}
    for _ in range(rng.randint(1, 3)):
        wrong = []
        for _ in range(rng.randint(1, 2)):
            v = rng.randrange(h.n)
            later = [w for w in range(h.n) if h.ly[w] < h.ly[v]]
            if later:
                m = rand_ment(rng, v, [rng.choice(later)], 1)
                h.do("set", 1, v=v, m=m)
                wrong.append(v)
            if rng.random() < 0.4:
                h.do("order", 1, order=h.linear(h.circs[0]))
        way = rng.choice(["del", "del", "set", "setall"])
        if way == "setall":
            vs = rng.sample(range(h.n), rng.randint(0, h.n))
            h.do("setall", 1, given=[[v, rand_ment(rng, v, h.allowed(v), 0.2)] for v in vs if v not in wrong])
        else:
            for v in rng.sample(wrong, len(wrong)):
                h.do("del", 1, v=v) if way == "del" else h.do("set", 1, v=v, m=plain)
        if rng.random() < 0.5:
            h.randop(["order", "copy"])
    return h.trace()


def p03(c):
    histories(c, ["order"], ["order", "order", "set", "set", "set", "del", "setall", "copy", "edges"], 600, 8000, length=8, flow=0.93, nmax=8,
              more=[(wide_history, c.n(120, 1500)), (chain_history, c.n(140, 2500)), (far_history, c.n(40, 400)),
                    (detour_history, c.n(120, 2000))])


def p04(c):
    histories(c, ["attr"], ["set", "set", "set", "del", "setall", "copy", "train"], 900, 10000, length=10, flow=0.5)


def p05(c):
    histories(c, ["graph", "attr", "order"], ["edges", "edges", "edges", "set", "del", "setall", "copy", "order", "train"], 700, 8000, length=7, flow=0.85, dflt=0.5)


def p06(c):
    rng = c.rng
    model(c)
    traces = []

    def one():
        n = rng.randint(1, 8) if rng.random() < 0.9 else rng.randint(9, 15)
        lab = gen.labelings(rng, n)
        h = start(c, rng, ["graph", "attr", "order"], labels=lab, n=n)
        given = rand_given(h, rng) if rng.random() < 0.7 else None
        dflt = rand_ment(rng) if rng.random() < 0.3 else None
        z = rng.random()
        if z < 0.12:
            h.new(given, dflt, bad=rng.choice(["input", "output", "measurement-node", "measurement-value", "default"]),
                  relabel=rng.random() < 0.6)
            return h.trace()
        if z < 0.2:
            h.new(given, dflt, relabel=False)
            return h.trace()
        same = h.new(given, dflt)
        if rng.random() < 0.4 and h.circs and h.circs[0].flow is not None:
            h.new(given, dflt, order=h.linear(h.circs[0]))
            return h.trace()
        for _ in range(2):
            h.new(again=True, same=same)
        if h.ly is not None and rng.random() < 0.6:
            h.given_flow()
        return h.trace()

    for _ in range(c.n(900, 10000)):
        traces.append(c.guard(one))
    c.validate("T_Circuit", [t for t in traces if t])
