"""Testing and compatibility tools: T01."""
import types, unittest, warnings
import numpy as np
from drv import *
from d_op import n_of
from zquantum.core.circuits import Circuit
from zquantum.core.circuits._compatibility import new_circuit_from_old_circuit
from zquantum.core.estimation import calculate_exact_expectation_values
from zquantum.core.history import example_functions as ex
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.interfaces.estimator_contract import ESTIMATOR_CONTRACTS
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import IsingOperator
from zquantum.core.openfermion._compat import wrap_module
from zquantum.core.openfermion.testing import testing_utils as tu
from zquantum.core.openfermion.testing.random import random_interaction_operator_term
from zquantum.core.testing import create_random_isingop, create_random_qubitop, create_random_wavefunction
from zquantum.core.wip.compatibility_tools import TranslationFailed, compatible_with_old_type


# ---- translation of arguments ---------------------------------------------------------------------------
class Old:
    def __init__(self, n):
        self.n = n


class New:
    def __init__(self, n):
        self.n = n


class Leaf:
    def __init__(self, n):
        self.n = n


class Sub(list):
    pass


KIND = {"list": list, "tuple": tuple, "sub": Sub}


def tree(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.55:
        return {"k": rng.choice(["old", "leaf"]), "n": rng.randint(1, 3), "items": []}
    return {"k": rng.choice(["list", "tuple", "sub"]), "n": 0, "items": [tree(rng, depth - 1) for _ in range(rng.randint(0, 3))]}


def build(t):
    if t["k"] in KIND:
        return KIND[t["k"]]([build(x) for x in t["items"]])
    return {"old": Old, "leaf": Leaf}[t["k"]](t["n"])


def back(x):
    for k, c in KIND.items():
        if type(x) is c:
            return {"k": k, "n": 0, "items": [back(y) for y in x]}
    for k, c in (("old", Old), ("new", New), ("leaf", Leaf)):
        if type(x) is c:
            return {"k": k, "n": as_int(x.n), "items": []}
    raise Bad("argument of type %s" % type(x))


def compat(rng):
    names = ["a", "b", "kw1", "kw2"][:rng.randint(1, 4)]
    npos = rng.randint(0, len(names))
    trees = [tree(rng, 2) for _ in names]
    cons, bad = rng.choice([[], ["list"], ["tuple"], ["list", "tuple"]]), rng.choice([[], [], [2], [1, 3]])
    msg, fb, raises = rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)
    call = []

    def translate(o):
        if o.n in bad:
            raise rng.choice([ValueError, KeyError, RuntimeError])("no")
        return New(o.n)

    def note(who):
        def f(*a, **k):
            call.append((who, [back(x) for x in a] + [back(k[n]) for n in names[npos:]] if set(k) == set(names[npos:]) and len(a) == npos else None))
            if who == "wrapped" and raises:
                raise ValueError("mine")
            return "value" if who == "wrapped" else "other"
        return f

    def run():
        kw = {}
        if msg:
            kw["deprecation_msg"] = "old style"
        if fb:
            kw["fallback_function"] = note("fallback")
        if cons or rng.random() < 0.5:
            kw["consider_iterable_types"] = [KIND[c] for c in cons]
        f = compatible_with_old_type(Old, translate, **kw)(note("wrapped"))
        objs = [build(t) for t in trees]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                res = f(*objs[:npos], **dict(zip(names[npos:], objs[npos:])))
            except TranslationFailed:
                res = "TranslationFailed"
            except ValueError:
                res = "ValueError"
        dep = [w for w in ws if "old style" in str(w.message) and issubclass(w.category, DeprecationWarning)]
        if len(call) > 1 or (call and call[0][1] is None):
            raise Bad("called %r" % (call,))
        return {"after": [back(o) for o in objs], "called": [c[0] for c in call], "got": call[0][1] if call else [], "res": res, "dep": 1 if dep else 0, "fbw": 1 if len(ws) > len(dep_all(ws)) else 0}
    return {"op": "compat", "args": trees, "cons": cons, "bad": bad, "msg": msg, "fb": fb, "raises": raises, "out": observe(run)}


def dep_all(ws):
    return [w for w in ws if issubclass(w.category, DeprecationWarning)]


# ---- equality groups --------------------------------------------------------------------------------------
class E:
    def __init__(self, cls, h, greedy, stuck):
        self.cls, self.h, self.greedy, self.stuck = cls, h, greedy, stuck

    def __eq__(self, o):
        if self.greedy:
            return True
        return self.cls == o.cls if isinstance(o, E) else NotImplemented

    def __ne__(self, o):
        if self.stuck:
            return False
        e = self == o if isinstance(o, E) or self.greedy else NotImplemented
        return e if e is NotImplemented else not e

    def __hash__(self):
        return self.h


class U(E):
    __hash__ = None


def item(rng, t):
    c = rng.randint(1, 4)
    h = [] if rng.random() < 0.15 else [c if rng.random() < 0.8 else rng.randint(1, 4)]
    return {"cls": c, "hash": h, "greedy": 1 if rng.random() < 0.06 else 0, "stuck": 1 if rng.random() < 0.06 else 0}


def obj(d):
    return (E if d["hash"] else U)(d["cls"], d["hash"][0] if d["hash"] else None, d["greedy"], d["stuck"])


def groups(rng):
    t, ev = tu.EqualsTester(unittest.TestCase()), []
    for _ in range(rng.randint(1, 6)):
        one = item(rng, t)
        if rng.random() < 0.6:
            items = [dict(one) for _ in range(rng.randint(1, 3))]
            for i in items[1:]:
                if rng.random() < 0.2:
                    i.update(item(rng, t))
        else:
            items = [item(rng, t) for _ in range(rng.randint(1, 2))]
        if len(items) == 2 and rng.random() < 0.5:
            it = iter([obj(i) for i in items])
            out = observe(lambda: t.make_equality_pair(lambda: next(it)), lambda v: 0)
        else:
            out = observe(lambda: t.add_equality_group(*[obj(i) for i in items]), lambda v: 0)
        ev.append({"op": "group", "items": items, "out": out})
    return ev


# ---- random objects ---------------------------------------------------------------------------------------
class Marks:
    """Numbers as signed marks: equal magnitudes get equal marks."""

    def __init__(self):
        self.m = {}

    def one(self, x):
        x = float(x)
        if x != x:
            raise Bad("nan")
        return 0 if x == 0 else (1 if x > 0 else -1) * self.m.setdefault(abs(x), len(self.m) + 1)

    def c(self, z):
        z = complex(z)
        return [self.one(z.real), self.one(z.imag)]

    def a(self, t):
        return self.c(t) if np.ndim(t) == 0 else [self.a(x) for x in t]


def seed_of(rng):
    return rng.choice([0, 1, rng.randrange(10 ** 6)])


def matrix(rng):
    kind, n, real, s = rng.choice(["antisymmetric", "hermitian", "unitary"]), rng.randint(1, 5), rng.randint(0, 1), seed_of(rng)
    f = getattr(tu, "random_%s_matrix" % kind)
    kw = {"real": bool(real)} if real or rng.random() < 0.5 else {}

    def run():
        a = f(n, seed=s, **kw)
        f(n, **kw)
        b = f(n, seed=s, **kw)
        k = Marks()
        g = np.round(np.asarray(a).conj().T @ a, 8) + 0.0
        ent = lambda z: [int(z.real), int(z.imag)] if z.real == int(z.real) and z.imag == int(z.imag) else [99, 99]
        return {"M": k.a(a), "again": k.a(b), "gram": [[ent(complex(z)) for z in r] for r in g]}
    return {"op": "matrix", "kind": kind, "n": n, "real": real, "out": observe(run)}


def tens(o, o2):
    k = Marks()
    same = o.constant == o2.constant and np.array_equal(o.one_body_tensor, o2.one_body_tensor) and np.array_equal(o.two_body_tensor, o2.two_body_tensor)
    return {"const": k.c(o.constant), "one": k.a(o.one_body_tensor), "two": k.a(o.two_body_tensor), "again": 1 if same else 0}


def inter(rng):
    n, spin, real, s = rng.randint(1, 3), rng.randint(0, 1), rng.randint(0, 1), seed_of(rng)
    n = min(n, 2) if spin else n
    kw = {"expand_spin": True} if spin else {}
    if not real:
        kw["real"] = False

    def run():
        a = tu.random_interaction_operator(n, seed=s, **kw)
        tu.random_interaction_operator(n, **kw)
        return tens(a, tu.random_interaction_operator(n, seed=s, **kw))
    return {"op": "inter", "n": n, "spin": spin, "real": real, "out": observe(run)}


def interterm(rng):
    n, real, s = rng.randint(1, 5), rng.randint(0, 1), seed_of(rng)

    def run():
        a = random_interaction_operator_term(n, real=bool(real), seed=s)
        random_interaction_operator_term(n)
        if rng.random() < 0.5:
            return tens(a, random_interaction_operator_term(n, real=bool(real), seed=s))
        np.random.seed(s)
        return tens(a, random_interaction_operator_term(n, bool(real)))
    return {"op": "interterm", "n": n, "real": real, "out": observe(run)}


def qop(rng):
    s, kind = seed_of(rng), rng.choice(["random", "qubit", "ising"])
    if kind == "random":
        n, mx, order = rng.randint(1, 5), rng.randint(1, 6), rng.randint(0, 5)
        f = lambda: tu.random_qubit_operator(n, mx, order, seed=s)
    else:
        n, mx = rng.randint(1, 5), rng.randint(0, 6)
        order, f = n, lambda: (create_random_qubitop if kind == "qubit" else create_random_isingop)(n, mx, seed=s)

    def co(c):
        return 0 if kind == "random" else as_int(complex(c).real) if complex(c).imag == 0 and complex(c).real == int(complex(c).real) else -1

    def run():
        a = f()
        tu.random_qubit_operator(3, 3, 3)
        b = f()
        return {"terms": [{"f": [[as_int(q), p] for q, p in t], "c": co(c)} for t, c in a.terms.items()], "again": 1 if a.terms == b.terms else 0}
    return {"op": "qop", "nq": n, "max": mx, "order": order, "unit": 0 if kind == "random" else 1, "acts": ["Z"] if kind == "ising" else ["X", "Y", "Z"], "out": observe(run)}


def wave(rng, s=None):
    n = rng.randint(2, 5)
    s = s if s is not None else rng.choice([1, rng.randrange(1, 10 ** 6)])

    def run():
        a = create_random_wavefunction(n, seed=s)
        b = create_random_wavefunction(n, seed=s)
        x, y = np.asarray(a.amplitudes, dtype=complex), np.asarray(b.amplitudes, dtype=complex)
        nn = float(np.round(np.sum(np.abs(x) ** 2), 8))
        return {"len": len(x), "norm": int(nn) if nn == int(nn) else 99, "again": 1 if np.array_equal(x, y) else 0}
    return {"op": "wave", "n": n, "out": observe(run)}


# ---- estimators ---------------------------------------------------------------------------------------------
def contract(order, coef, const):
    def est(backend, estimation_tasks):
        res = []
        for t in estimation_tasks:
            o = t.operator
            if not coef:
                o = IsingOperator()
                for k in t.operator.terms:
                    o += IsingOperator(k)
            if not const:
                o = sum((IsingOperator(k, c) for k, c in o.terms.items() if k != ()), IsingOperator())
            res.append(ExpectationValues(calculate_exact_expectation_values(backend, [EstimationTask(o, t.circuit, t.number_of_shots)])[0].values))
        return {"ok": res, "drop": res[:-1], "rev": res[::-1], "dup": res + res[-1:]}[order]

    def run():
        r = []
        for c in ESTIMATOR_CONTRACTS:
            try:
                r.append(1 if c(est) else 0)
            except Exception:
                r.append(0)
        return r
    return {"op": "contract", "order": order, "coef": coef, "const": const, "out": observe(run)}


# ---- examples -----------------------------------------------------------------------------------------------
def fun(rng):
    name, c = rng.choice(["function_1", "Function2", "Function5", "function_6", "sum_of_squares"]), rng.randint(-3, 4)
    k = {"function_1": 2, "Function2": 3, "Function5": 3, "function_6": 3, "sum_of_squares": rng.randint(0, 4)}[name]
    x = [rng.randint(-4, 4) for _ in range(k)]
    art = []
    store = lambda n, v, force=False: art.append({"n": n, "v": as_int(v), "f": 1 if force else 0})

    def run():
        a = np.array(x) if rng.random() < 0.5 else list(x)
        if name == "sum_of_squares":
            return {"val": as_int(ex.sum_of_squares(a)), "grad": [], "art": []}
        f = {"function_1": lambda: ex.function_1, "Function2": lambda: ex.Function2(c), "Function5": lambda: ex.Function5(c), "function_6": lambda: ex.function_6}[name]()
        v = f(a, store_artifact=store) if name in ("Function5", "function_6") else f(a)
        return {"val": as_int(v), "grad": [as_int(g) for g in f.gradient(a)], "art": art}
    if name == "function_6":
        return {"op": "fun", "name": "Function5", "c": 5, "x": x, "out": observe(run)}
    return {"op": "fun", "name": name, "c": c, "x": x, "out": observe(run)}


def store(rng):
    x, force, art = rng.randint(0, 70), rng.randint(0, 1), []
    f = ex.function_4 if force else ex.function_3

    def run():
        v = f(x, store_artifact=lambda n, v, force=False: art.append({"n": n, "v": v, "f": 1 if force else 0}))
        return {"val": as_int(v), "art": art, "bare": as_int(f(x))}
    return {"op": "store", "x": x, "force": force, "out": observe(run)}


def deprecated(rng):
    m = types.ModuleType("m", "doc")
    names = ["a", "b", "c", "d"]
    for n in names:
        setattr(m, n, object())
    old = [n for n in names if rng.random() < 0.5]
    w, ev = wrap_module(m, {n: ("1.0", "use x") for n in old}), []
    for _ in range(rng.randint(1, 5)):
        n = rng.choice(names)
        if rng.random() < 0.2:
            setattr(m, n, object())

        def run():
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                v = getattr(w, n)
            return {"same": 1 if v is getattr(m, n) else 0, "warned": 1 if any(issubclass(x.category, DeprecationWarning) for x in ws) else 0}
        ev.append({"op": "deprecated", "dep": 1 if n in old else 0, "out": observe(run)})
    c = Circuit([], n_qubits=2)

    def run2():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            v = new_circuit_from_old_circuit(c)
        return {"same": 1 if v is c else 0, "warned": 1 if any(issubclass(x.category, DeprecationWarning) for x in ws) else 0}
    ev.append({"op": "deprecated", "dep": 1, "out": observe(run2)})
    return ev


def t01(out, rng):
    for order in ("ok", "drop", "rev", "dup"):
        for coef in (0, 1):
            for const in (0, 1):
                out.one(contract(order, coef, const), "contract")
    for n in (("json", 1), ("os.path", 1), ("zquantum.core", 1), ("no_such_module_here", 0), ("xml.dom", 1)):
        out.one({"op": "importable", "there": n[1], "out": observe(lambda: 1 if tu.module_importable(n[0]) is True else 0)}, "importable")
    for i in range(n_of(150)):
        out.session([compat(rng) for _ in range(4)], "compat")
        out.session(groups(rng), "groups")
    for i in range(n_of(60)):
        for f in (matrix, qop, wave):
            out.one(f(rng), f.__name__)
        out.session(deprecated(rng), "deprecated")
        out.session([fun(rng) for _ in range(4)] + [store(rng)], "examples")
    for i in range(n_of(30)):
        for f in (inter, interterm):
            out.one(f(rng), f.__name__)
    out.one(wave(rng, 0), "wave:seed0")


if __name__ == "__main__":
    main({"T01": t01})
