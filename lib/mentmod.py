"""Measurements (P18) and outcome expressions with controlled measurements (P19)."""
import copy, itertools, random
import numpy as np
import vk
from sim import val, BASIS
from mentpy.operators import Ment, ControlMent, MentOutcome

AX = ["X", "Y", "Z"]
ANGLES = {}
for k in range(-70, 71):
    for m in (-1, 0, 1):
        ANGLES[val((k, m))] = [k, m]


def turns(rng):
    """A multiple of pi/4, rarely of many turns."""
    far = 60 if rng.random() < 0.1 else 8
    return rng.randint(-far, far)


def unangle(x):
    """Pair of an angle of the real code (they are never computed with)."""
    return ANGLES.get(float(x), [99, 99])


def mat(m):
    return np.array([[np.dot(BASIS, x) for x in row] for row in m])


def snap(m):
    """A measurement as a user observes it."""
    o = {"p": m.plane, "free": m.angle is None, "t": [0, 0], "u": [0, 0], "train": bool(m.is_trainable()),
         "node": m.node_id, "reads": [], "val": [], "expect": []}
    if m.angle is not None:
        if isinstance(m.angle, tuple):
            o["u"], o["t"] = unangle(m.angle[0]), unangle(m.angle[1])
        else:
            o["t"] = unangle(m.angle)
    if m.node_id >= 0:
        o["reads"] = sorted(m.outcome.cond_nodes)
        for s in ({v: (v % 3) % 2 for v in range(9)}, {v: 1 - (v % 3) % 2 for v in range(9)}):
            o["val"].append(int(m.outcome(s)))
            o["expect"].append(s[m.node_id])
    return o


def p18(c):
    c.model("MC_Ment", "MC_Ment.cfg" if c.quick else "MC_Ment_t.cfg")
    rng = c.rng
    traces, tests = [], []

    def pair():
        return [turns(rng), rng.choice([-1, 0, 0, 1])]

    def raw(p, t, u):
        return (val(u), val(t)) if p == "XYZ" else val(t)

    def close(a):
        """Almost the angle."""
        d = rng.choice([-1, 1]) * rng.choice([1e-2, 1e-4, 1e-6, 1e-8])
        return (a[0], a[1] + d) if isinstance(a, tuple) else a + d

    def casing(p):
        return "".join(rng.choice([x.upper(), x.lower()]) for x in p)

    def build(p, given, t, u, default):
        s = casing(p)
        if default:   # plane left out: XY
            return rng.choice([lambda: Ment(val(t)), lambda: Ment(angle=val(t)), lambda: Ment(val(t), None)])() if given else \
                rng.choice([lambda: Ment(), lambda: Ment(None), lambda: Ment(None, None), lambda: Ment(plane=None)])()
        if not given:
            return rng.choice([lambda: Ment(s), lambda: Ment(None, s), lambda: Ment(plane=s), lambda: Ment(s, None), lambda: Ment(angle=None, plane=s)])()
        a = raw(p, t, u)
        if not isinstance(a, tuple) and rng.random() < 0.2:
            a = np.float64(a)
        return rng.choice([lambda: Ment(a, s), lambda: Ment(s, a), lambda: Ment(angle=a, plane=s), lambda: Ment(angle=s, plane=a)])()

    def one():
        ms, planes, evs, seen = [], [], [], {}
        for _ in range(rng.randint(3, 12)):
            z = rng.random()
            if not ms or z < 0.3:
                p = rng.choice(["XY", "XY", "XZ", "YZ", "XYZ"] + AX)
                default = rng.random() < 0.15
                if default:
                    p = "XY"
                given = rng.random() < 0.6
                t, u = pair(), pair() if p == "XYZ" else [0, 0]
                if p in AX and rng.random() < 0.5:
                    t = [0, 0]
                ev = {"op": "new", "p": p, "given": given, "t": t if given else [0, 0], "u": u if given else [0, 0]}
                zz = rng.random()
                if zz < 0.08:
                    ev["p"] = "?"
                    bad = rng.choice(["XX", "ZX", "YX", "A", "", "XYX", "ZXY", "YZX", "ZY"])
                    r = vk.attempt(lambda: Ment(raw("XY", t, u), bad) if given else Ment(bad))
                elif zz < 0.12:
                    ev["p"] = "?"
                    r = vk.attempt(lambda: Ment(rng.choice([[0.1], {}, b"XY", 1j, object()]), "XY"))
                else:
                    r = vk.attempt(lambda: build(p, given, t, u, default))
                ev["ok"] = r[0] == "ok"
                if ev["ok"]:
                    ms.append(r[1])
                    planes.append(p)
            else:
                i = rng.randrange(len(ms))
                if z < 0.45:
                    deep = rng.random() < 0.4
                    ev = {"op": "copy", "i": i + 1, "deep": deep}
                    r = vk.attempt(lambda: copy.deepcopy(ms[i]) if deep else ms[i].copy())
                    if r[0] == "ok":
                        ms.append(r[1])
                        planes.append(planes[i])
                elif z < 0.55:
                    v = rng.randint(0, 6)
                    ev = {"op": "place", "i": i + 1, "v": v}
                    r = vk.attempt(lambda: setattr(ms[i], "node_id", v))
                elif z < 0.7 and planes[i] not in AX:
                    given = rng.random() < 0.75
                    t, u = pair(), pair()
                    ev = {"op": "angle", "i": i + 1, "given": given, "t": t, "u": u}
                    r = vk.attempt(lambda: ms[i].set_angle(raw(planes[i], t, u) if given else None))
                    if r[0] == "ok" and r[1] is not ms[i]:
                        r = ("raise", "returns something else", "")
                else:
                    m = ms[i]
                    given = rng.random() < (0.75 if m.angle is None else 0.4)
                    t, u = pair(), pair()
                    if m.angle is not None and rng.random() < 0.6:
                        t = unangle(m.angle[1] if isinstance(m.angle, tuple) else m.angle)
                        u = unangle(m.angle[0]) if isinstance(m.angle, tuple) else u
                    if planes[i] != "XYZ":
                        u = [0, 0]
                    args = (raw(planes[i], t, u),) if given else ()
                    if m.angle is not None and given and rng.random() < 0.25:
                        if rng.random() < 0.5 and t[1] in (-1, 0, 1) and abs(t[0]) < 50:
                            t = [t[0] + rng.choice([-8, 8]), t[1]]   # a turn away
                            args = (raw(planes[i], t, u),)
                        elif abs(t[0]) <= 70:
                            args = (close(args[0]),)
                            t = [t[0], 50]    # no angle of this table
                    ev = {"op": "matrix", "i": i + 1, "given": given, "t": t, "u": u}
                    r = vk.attempt(lambda: (m.matrix(*args), m.get_povm(*args)))
                    r2 = vk.attempt(lambda: m.matrix(*args))
                    if r[0] != r2[0]:
                        r = ("raise", "inconsistent", "")
                    if r[0] == "ok":
                        seen[len(evs)] = r[1]
                ev["ok"] = r[0] == "ok"
                c.count(ev["op"])
            ev["obs"] = [snap(m) for m in ms]
            evs.append(ev)
        return evs, seen

    for k in range(c.n(1500, 15000)):
        r = c.guard(one)
        if r:
            traces.append({"ev": r[0], "case": [{a: b for a, b in e.items() if a != "obs"} for e in r[0]]})
            tests.append(r[1])
    for lo in range(0, len(traces), 3000):
        part = traces[lo:lo + 3000]
        v = c.validate("T_Ment", part, cfg="MentReplay.cfg")
        for i, t in enumerate(part):
            for pos, got in tests[lo + i].items():
                a = c.results.get((i, pos))
                if a is None:   # not reached, or an answer that the specification does not allow
                    continue
                c.count("matrices compared")
                r = c.guard(compare_obs, a, got, case=t["case"])
                if r:
                    c.fail(t, r, pos + 1, "T_Ment")
    c.assumptions.append("angles k*pi/4 + m*atan(4/3); matrices compared to 1e-9")


def compare_obs(a, got):
    m, (p0, p1) = got
    bad = set()
    for name, x, want in (("matrix", m, mat(a["m"]) / a["unit"]), ("projector-0", p0, mat(a["p0"]) / (2 * a["unit"])),
                          ("projector-1", p1, mat(a["p1"]) / (2 * a["unit"]))):
        if np.shape(x) != (2, 2) or not np.allclose(x, want, atol=1e-9):
            bad.add(name)
    return bad


# --- P19 ----------------------------------------------------------------------------
import operator as o
REAL = {"add": o.add, "sub": o.sub, "mul": o.mul, "xor": o.xor, "and": o.and_, "or": o.or_, "eq": o.eq, "ne": o.ne,
        "lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge, "mod": o.mod, "floordiv": o.floordiv, "truediv": o.truediv, "pow": o.pow}
MIRROR = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


class Leafs:
    """Outcomes of nodes, made in the ways users get them; reused, so that expressions share operands."""

    def __init__(self, rng):
        self.rng, self.made = rng, {}

    def node(self, v):
        rng = self.rng
        if v in self.made and rng.random() < 0.6:
            return self.made[v]
        z = rng.random()
        if z < 0.5:
            m = rng.choice([lambda: Ment("X"), lambda: Ment(0.3), lambda: ControlMent(True)])()
            m.node_id = v
            r = m.outcome
            if rng.random() < 0.3:      # the measurement moves on, the outcome does not
                m.node_id = rng.randrange(12)
        elif z < 0.75:
            r = MentOutcome(lambda s: s[v], v)
        else:
            r = MentOutcome(lambda s: s[v], cond_nodes={v})
        self.made[v] = r
        return r


def rand_tree(rng, depth, nodes):
    """A tree whose root is an outcome."""
    if depth == 0 or rng.random() < 0.12:
        return {"op": "mconst", "c": rng.randint(-2, 5)} if rng.random() < 0.12 else {"op": "node", "v": rng.choice(nodes)}
    z = rng.random()
    if z < 0.15:
        return {"op": "not", "a": rand_tree(rng, depth - 1, nodes)}
    if z < 0.2:
        return {"op": "wrap", "a": rand_tree(rng, depth - 1, nodes)}
    op = rng.choice(list(REAL))
    a = rand_tree(rng, depth - 1, nodes)
    if rng.random() < 0.3:
        k = rng.randint(-3, 5)
        if op in ("mod", "floordiv"):
            k = rng.randint(1, 4)
        if op == "truediv":
            k = 1
        if op == "pow":
            k = rng.randint(0, 4)
        b = {"op": "const", "c": k}
    else:
        b = rand_tree(rng, rng.randint(0, depth - 1), nodes)
        if rng.random() < 0.06:
            b = {"op": "lift", "a": b}
    return {"op": op, "a": a, "b": b}


def real_tree(e, leafs, rng, subs):
    """The real expression of a tree; subs collects (tree, outcome) of every part."""
    op = e["op"]
    if op == "node":
        r = leafs.node(e["v"])
    elif op == "const":
        k = e["c"]
        return bool(k) if k in (0, 1) and rng.random() < 0.4 else k
    elif op == "mconst":
        k = e["c"]
        r = MentOutcome(bool(k) if k in (0, 1) and rng.random() < 0.5 else k)
    elif op == "not":
        r = ~real_tree(e["a"], leafs, rng, subs)
    elif op == "wrap":
        r = MentOutcome(real_tree(e["a"], leafs, rng, subs))
    elif op == "lift":
        x = real_tree(e["a"], leafs, rng, subs)
        return lambda s: x(s)
    else:
        a, b = real_tree(e["a"], leafs, rng, subs), real_tree(e["b"], leafs, rng, subs)
        if e["b"]["op"] == "const" and op in MIRROR and rng.random() < 0.3:
            r = REAL[MIRROR[op]](b, a)
        else:
            r = REAL[op](a, b)
    subs.append((e, r))
    return r


def assignments(rng, nodes):
    out = []
    for bits in itertools.product((0, 1), repeat=len(nodes)):
        out.append({v: b for v, b in zip(nodes, bits)})
    if len(out) > 8:
        out = rng.sample(out, 8)
    if rng.random() < 0.4:   # a node without an outcome
        s = dict(rng.choice(out))
        del s[rng.choice(nodes)]
        out.append(s)
    return out


def evaluate(x, s):
    r = vk.attempt(lambda: x(dict(s)))
    return {"a": [[v, b] for v, b in s.items()], "ok": r[0] == "ok", "val": int(r[1]) if r[0] == "ok" else 0}


def p19(c):
    c.model("MC_Outcome", "MC_Outcome.cfg" if c.quick else "MC_Outcome_t.cfg")
    rng = c.rng
    traces, tests = [], []

    def exprs():
        nodes = rng.sample(range(8), rng.randint(1, 4))
        leafs = Leafs(rng)
        subs = []
        if rng.random() < 0.1:
            # sums and products of many outcomes, in any bracketing
            nodes = rng.sample(range(12), rng.randint(5, 8))
            parts = [{"op": "node", "v": v} for v in nodes] + [{"op": "node", "v": rng.choice(nodes)} for _ in range(rng.randint(0, 4))]
            ops = [rng.choice(["add", "xor"])] * rng.randint(1, 4) + [rng.choice(["and", "or", "mul", "sub", "eq", "ne", "lt", "ge"])]
            while len(parts) > 1:
                i = rng.randrange(len(parts) - 1) if rng.random() < 0.5 else 0
                parts[i:i + 2] = [{"op": rng.choice(ops), "a": parts[i], "b": parts[i + 1]}]
            real_tree(parts[0], leafs, rng, subs)
            subs = subs[-8:]
            c.count("many outcomes")
        for _ in range(rng.randint(1, 2) if len(nodes) < 5 else 0):
            real_tree(rand_tree(rng, rng.randint(1, 4), nodes), leafs, rng, subs)
        asg = assignments(rng, nodes)
        if len(subs) > 24:
            subs = rng.sample(subs, 24)
        c.count("expressions", len(subs))
        return [{"op": "expr", "e": e, "reads": sorted(r.cond_nodes), "on": [evaluate(r, s) for s in asg]} for e, r in subs], {}

    def branch():
        p = rng.choice(["XY", "XY", "XZ", "YZ", "XYZ"] + AX)
        free = p in ("XY", "XZ", "YZ") and rng.random() < 0.5
        t = [0, 0] if free or p in AX else [turns(rng), rng.choice([-1, 0, 0, 1])]
        u = [turns(rng), 0] if p == "XYZ" else [0, 0]
        return {"p": p, "free": free, "t": t, "u": u}

    def args(b):
        """angle and plane in either order"""
        if b["p"] in AX:
            a = rng.choice([None, 0])
        else:
            a = None if b["free"] else ((val(b["u"]), val(b["t"])) if b["p"] == "XYZ" else val(b["t"]))
        p = "".join(rng.choice([x, x.lower()]) for x in b["p"])
        return (a, p) if rng.random() < 0.7 else (p, a)

    def condition(nodes, leafs, subs):
        if rng.random() < 0.15:
            k = rng.random() < 0.5
            return {"op": "const", "c": int(k)}, k
        e = rand_tree(rng, rng.randint(0, 3), nodes)
        return e, real_tree(e, leafs, rng, subs)

    def look(m, asg):
        ob = {"train": bool(m.is_trainable()), "reads": sorted(m.condition.cond_nodes), "on": []}
        for s in asg:
            r = vk.attempt(lambda: (m.plane(dict(s)), m.angle(dict(s)), m.condition(dict(s))))
            x = {"a": [[v, b] for v, b in s.items()], "ok": r[0] == "ok", "p": "-", "free": False, "t": [0, 0], "u": [0, 0]}
            if r[0] == "ok":
                x["p"], x["free"] = r[1][0], r[1][1] is None
                if isinstance(r[1][1], tuple):
                    x["u"], x["t"] = unangle(r[1][1][0]), unangle(r[1][1][1])
                elif r[1][1] is not None:
                    x["t"] = unangle(r[1][1])
            ob["on"].append(x)
        return ob

    def ctls():
        nodes = rng.sample(range(8), rng.randint(1, 3))
        leafs, subs = Leafs(rng), []
        asg = assignments(rng, nodes)
        ms, specs, evs, seen = [], [], [], {}
        for _ in range(rng.randint(2, 8)):
            z = rng.random()
            if not ms or z < 0.2:
                e, cond = condition(nodes, leafs, subs)
                tb, fb = branch(), branch()
                if rng.random() < 0.15:
                    fb = {"p": "X", "free": False, "t": [0, 0], "u": [0, 0]}
                    r = vk.attempt(lambda: ControlMent(cond, *args(tb)))
                else:
                    ta, tp = args(tb)
                    fa, fp = args(fb)
                    r = vk.attempt(lambda: ControlMent(cond, ta, tp, fa, fp) if rng.random() < 0.6 else
                                   ControlMent(condition=cond, true_angle=ta, true_plane=tp, false_angle=fa, false_plane=fp))
                ev = {"op": "ctl", "cond": e, "tb": tb, "fb": fb}
                if r[0] == "ok":
                    ms.append(r[1])
                    specs.append((tb, fb))
            else:
                i = rng.randrange(len(ms))
                if z < 0.35:
                    ev = {"op": "copy", "i": i + 1}
                    r = vk.attempt(lambda: ms[i].copy() if rng.random() < 0.6 else copy.deepcopy(ms[i]))
                    if r[0] == "ok":
                        ms.append(r[1])
                        specs.append(specs[i])
                elif z < 0.45:
                    e, cond = condition(nodes, leafs, subs)
                    ev = {"op": "cond", "i": i + 1, "cond": e}
                    r = vk.attempt(lambda: setattr(ms[i], "condition", cond))
                elif z < 0.52:
                    ev = {"op": "badcond"}
                    r = vk.attempt(lambda: setattr(ms[i], "condition", rng.choice(["x", 1.5, 2, None, lambda s: True, [1]])))
                else:
                    s = rng.choice([s for s in asg if len(s) == len(nodes)])
                    if vk.attempt(lambda: ms[i].condition(dict(s)))[0] != "ok":
                        continue   # undefined there
                    given = rng.random() < 0.6
                    t = [turns(rng), rng.choice([-1, 0, 0, 1])]
                    ev = {"op": "matrix", "i": i + 1, "a": [[v, b] for v, b in s.items()], "given": given, "t": t}
                    a = (val(t),) if given else (None,)
                    r = vk.attempt(lambda: (ms[i].matrix(*a, dict(s)), ms[i].get_povm(*a, dict(s))))
                    r2 = vk.attempt(lambda: ms[i].matrix(*a, dict(s)))
                    if r[0] != r2[0]:
                        r = ("raise", "inconsistent", "")
                    if r[0] == "ok":
                        seen[len(evs)] = r[1]
            c.count(ev["op"])
            ev["ok"] = r[0] == "ok"
            ev["obs"] = [look(m, asg) for m in ms]
            evs.append(ev)
        return evs, seen

    for op, y in itertools.product(REAL, ("1", None, 1.5, [1], {}, Ment("X"))):   # operands that are no outcomes
        if vk.attempt(lambda: REAL[op](Leafs(rng).node(rng.randrange(5)), y))[0] == "ok":
            c.fails.append({"clauses": ["operand-accepted"], "event": 0, "spec": "Outcome", "key": "operand-accepted", "case": [op, str(y)]})
        c.count("operands refused")
    for k in range(c.n(1600, 16000)):
        r = c.guard(exprs if k % 2 else ctls)
        if r:
            traces.append({"ev": r[0], "case": [{a: b for a, b in e.items() if a != "obs"} for e in r[0]]})
            tests.append(r[1])
    for lo in range(0, len(traces), 2000):
        part = traces[lo:lo + 2000]
        c.validate("T_Outcome", part, cfg="OutcomeReplay.cfg")
        for i, t in enumerate(part):
            for pos, got in tests[lo + i].items():
                a = c.results.get((i, pos))
                if a is None:
                    continue
                c.count("matrices compared")
                r = c.guard(compare_obs, a, got, case=t["case"])
                if r:
                    c.fail(t, r, pos + 1, "T_Outcome")
    c.assumptions.append("division only where it is exact; plain functions as right operands are evaluated but their reads are not known")
