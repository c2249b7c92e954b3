"""Ansatz objects: caching, invalidation, executable circuits: A01."""
import numpy as np
import sympy
from overrides import overrides
from drv import *
from zquantum.core import circuits as zc
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.ansatz_utils import ansatz_property, combine_ansatz_params, invalidates_parametrized_circuit
from zquantum.core.interfaces.mock_objects import MockAnsatz

GATES = [zc.RX, zc.RY, zc.RZ]
POOLS = [["theta_%d" % i for i in range(6)] + ["phi_%d" % i for i in range(6)],
         ["theta_%d" % i for i in (1, 10, 2, 11, 0, 3)] + ["beta_%d" % i for i in (2, 1, 10, 0, 9, 11)],
         ["gamma_0", "gamma_1", "gamma_2", "gamma_3", "gamma_4", "gamma_5", "beta_0", "beta_1", "beta_2", "beta_3", "beta_4", "beta_5"],
         ["x", "x1", "x10", "x2", "X", "X2", "y", "y3", "y21", "b", "a", "A"]]
MOCK = ["theta_%d" % i for i in range(12)]


def n_of(i):
    return THOROUGH * 12 * i + i


def build(o, params=None):
    """The circuit of the current settings (the user's code, not the library's)."""
    syms = [sympy.Symbol(n) for n in o.vnames]
    L, q, x, y = o.number_of_layers, o.width, o.kind, o.final
    idx = []
    for lay in range(1, L + 1):
        idx += [(GATES[x], lay, k) for k in range(q)]
        if y:
            idx.append((zc.PHASE, 6 + lay, 0))
    val = {s: syms[s - 1] for _, s, _ in idx}
    if params is not None:
        if len(params) != len(val):
            raise ValueError("wrong number of parameters")
        val = dict(zip(sorted(val), params))
    return zc.Circuit([g(val[s])(k) for g, s, k in idx], n_qubits=q)


class Base(Ansatz):
    width = ansatz_property("width")
    spare = None
    looks = False

    def look(self):
        """A setter may ask for the circuit of the settings it is about to change."""
        if self.looks and self.supports_parametrized_circuits:
            if self.number_of_params != len(self.parametrized_circuit.free_symbols):
                raise Bad("number of parameters")

    def __init__(self, L, q, x, y, names, key):
        self.gens, self.vnames, self.vkey = 0, names, key
        super().__init__(L)
        self.width = q
        self._kind = x
        self._final = y

    @invalidates_parametrized_circuit
    @property
    def kind(self):
        return self._kind

    @property
    def final(self):
        return self._final

    @invalidates_parametrized_circuit
    def set_final(self, v, *, twice=False):
        """Doc of set_final."""
        self.look()
        self._final = v
        return "done", v

    @property
    @overrides
    def number_of_qubits(self):
        return self.width

    @property
    @overrides
    def symbols_sort_key(self):
        return self.vkey or super().symbols_sort_key


def _kind_set(self, v):
    self.look()
    self._kind = v


Base.kind = invalidates_parametrized_circuit(property(lambda self: self._kind, _kind_set))


class Parametrized(Base):
    supports_parametrized_circuits = True

    @overrides
    def _generate_circuit(self, params=None):
        self.gens += 1
        return build(self, params)


class Defaulted(Parametrized):
    """Second class with a property of its own and defaults."""
    extra = ansatz_property("extra", 5)
    other = ansatz_property(name="other")


class Numeric(Base):
    supports_parametrized_circuits = False

    @overrides
    def _generate_circuit(self, params=None):
        self.gens += 1
        return build(self, params)


class Mock:
    """MockAnsatz behind the same handles."""

    def __init__(self, L, q):
        m = MockAnsatz(L, q)
        object.__setattr__(self, "m", m)
        orig = m._generate_circuit
        m.gens = 0

        def gen(*a, **k):
            m.gens += 1
            return orig(*a, **k)
        m._generate_circuit = gen

    def __getattr__(self, n):
        return getattr(self.m, {"width": "problem_size"}.get(n, n))

    def __setattr__(self, n, v):
        setattr(self.m, {"width": "problem_size"}.get(n, n), v)


def proj(c, names):
    r = []
    for o in c.operations:
        if len(o.params) != 1 or len(o.qubit_indices) != 1:
            raise Bad("unexpected gate %r" % (o,))
        p = o.params[0]
        if isinstance(p, sympy.Symbol):
            if p.name not in names:
                raise Bad("unknown symbol %s" % p)
            p = [1, names.index(p.name) + 1]
        elif getattr(p, "free_symbols", None):
            raise Bad("unexpected parameter %r" % (p,))
        else:
            p = [0, as_int(complex(p).real)]
        r.append([o.gate.name, p, as_int(o.qubit_indices[0])])
    return r


def session(out, rng, evs, src):
    objs, res = [], []
    for e in evs:
        e = dict(e)
        o = e["op"]
        x = objs[e["i"] - 1] if "i" in e else None
        if o == "new":
            names = e.pop("vnames")
            key = None
            if e["ranks"]:
                key = (lambda rk, nm: lambda s: rk[nm.index(str(s))])(e["ranks"], names)

            def run():
                c = e["cls"]
                if c == "mock":
                    objs.append((Mock(e["L"], e["q"]), names))
                else:
                    objs.append(({"par": Parametrized, "def": Defaulted, "num": Numeric}[c](e["L"], e["q"], e["x"], e["y"], names, key), names))
                return 0
            e["out"] = observe(run)
            e["names"] = [[ord(ch) for ch in n] for n in names]
        elif o == "set":
            def run():
                a = x[0]
                a.looks = rng.random() < 0.5
                if e["p"] == "L":
                    a.number_of_layers = e["v"]
                elif e["p"] == "q":
                    a.width = e["v"]
                elif e["p"] == "x":
                    a.kind = e["v"]
                elif rng.random() < 0.5:
                    if a.set_final(e["v"]) != ("done", e["v"]) or a.set_final.__name__ != "set_final":
                        raise Bad("method result")
                elif a.set_final(v=e["v"], twice=True) != ("done", e["v"]):
                    raise Bad("method result")
                return 0
            e["out"] = observe(run)
        elif o == "other":
            def run():
                a = x[0]
                a.spare = rng.random()
                repr(a), a.number_of_qubits, a.number_of_layers
                return 0
            e["out"] = observe(run)
        elif o == "read":
            e["out"] = observe(lambda: [as_int(x[0].number_of_layers), as_int(x[0].number_of_qubits), as_int(getattr(x[0], "kind", 0)), as_int(getattr(x[0], "final", 0))])
        elif o == "get":
            e["out"] = observe(lambda: {"c": proj(x[0].parametrized_circuit, x[1]), "gens": x[0].gens})
        elif o == "exec":
            def run():
                ps = np.array(e["ps"], dtype=float if rng.random() < 0.7 else int)
                return {"c": proj(x[0].get_executable_circuit(ps), x[1]), "gens": x[0].gens}
            e["out"] = observe(run)
        elif o == "noparams":
            e["out"] = observe(lambda: x[0].get_executable_circuit(None), lambda v: 0)
        elif o == "count":
            e["out"] = observe(lambda: {"c": as_int(x[0].number_of_params)})
        elif o == "combine":
            e["out"] = observe(lambda: [as_int(v) for v in combine_ansatz_params(np.array(e["a"], dtype=float), np.array(e["b"], dtype=float))])
        res.append(e)
        if o in ("new", "set") and e["out"]["k"] != "ok":
            break
    out.session(res, src=src)


def new(rng, L=1, q=1, x=0, y=0, cls="par"):
    names = list(rng.choice(POOLS))
    if rng.random() < 0.5:
        rng.shuffle(names)
    ranks = []
    if cls == "mock":
        names, x, y = MOCK, 0, 0
    elif rng.random() < 0.3:
        ranks = list(range(12))
        rng.shuffle(ranks)
    return {"op": "new", "cls": cls, "L": L, "q": q, "x": x, "y": y, "sup": int(cls != "num"), "ranks": ranks, "vnames": names}


def npar(a):
    return a["L"] * (1 + a["y"]) if a["q"] else 0


def a01(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    for g in gen[:300 if not THOROUGH else 5000]:
        cls = rng.choice(["par", "par", "def", "num"])
        evs = [new(rng, cls=cls)]
        a = {"L": 1, "q": 1, "x": 0, "y": 0}
        for o, v in g:
            if o in a:
                a[o] = v
                evs.append({"op": "set", "i": 1, "p": o, "v": v})
            elif o == "get":
                evs.append({"op": "get", "i": 1})
            elif o == "exec":
                evs.append({"op": "exec", "i": 1, "ps": [rng.randint(-9, 9) for _ in range(npar(a))]})
        session(out, rng, evs, "gen")
    for _ in range(n_of(200)):
        evs, st = [], []
        for _ in range(rng.randint(4, 20)):
            r = rng.random()
            if not st or (r < 0.1 and len(st) < 3):
                cls = rng.choice(["par", "par", "def", "def", "num", "mock"])
                a = {"L": rng.randint(0, 4), "q": rng.randint(1, 3), "x": rng.randint(0, 2), "y": rng.randint(0, 1)}
                e = new(rng, a["L"], a["q"], a["x"], a["y"], cls)
                a["x"], a["y"], a["cls"] = e["x"], e["y"], cls
                st.append(a)
                evs.append(e)
                continue
            i = rng.randrange(len(st))
            a = st[i]
            if r < 0.4:
                p = rng.choice("LLqqxy" if a["cls"] != "mock" else "Lq")
                v = rng.randint(0, 5) if p == "L" else rng.randint(1, 3) if p == "q" else rng.randint(0, 2) if p == "x" else rng.randint(0, 1)
                a[p] = v
                evs.append({"op": "set", "i": i + 1, "p": p, "v": v})
            elif r < 0.6:
                evs.append({"op": "get", "i": i + 1})
            elif r < 0.8:
                k = npar(a)
                if rng.random() < 0.12:
                    k = max(0, k + rng.choice([-1, 1]))
                evs.append({"op": "exec", "i": i + 1, "ps": [rng.randint(-9, 9) for _ in range(k)]})
            else:
                evs.append({"op": rng.choice(["other", "read", "count", "count", "noparams"]), "i": i + 1})
        session(out, rng, evs, "rand")
    for _ in range(20):
        session(out, rng, [new(rng, L=-rng.randint(1, 3))], "rand")
        session(out, rng, [{"op": "combine", "a": [rng.randint(-5, 5) for _ in range(rng.randint(0, 3))], "b": [rng.randint(-5, 5) for _ in range(rng.randint(0, 3))]}], "rand")


if __name__ == "__main__":
    main({"A01": a01})
