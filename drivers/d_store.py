"""Saved objects, conversions, general utilities and graphs: O04, U01-U03."""
import io, pathlib, shutil, struct, tempfile
import networkx as nx
import numpy as np
import sympy
from drv import *
from zquantum.core import graph as G, measurement as M, serialization as S, utils as U
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts
from zquantum.core.interfaces.optimizer import optimization_result
from zquantum.core.openfermion import (FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator)
from zquantum.core.openfermion.utils.operator_utils import load_operator, save_operator
from zquantum.core.openfermion.zapata_utils import _io as IO
from zquantum.core.openfermion.zapata_utils._utils import change_operator_type
from zquantum.core.wavefunction import Wavefunction
from scipy.optimize import OptimizeResult

CLS = {"q": QubitOperator, "i": IsingOperator, "f": FermionOperator}


def n_of(i):
    return THOROUGH * 9 * i + i


# ---- exact encoding of values -------------------------------------------------------
def limbs(x):
    z = complex(x)
    r = []
    for v in (z.real, z.imag):
        b = struct.pack(">d", v + 0.0 if v == 0 else v)
        r += list(struct.unpack(">4H", b))
    return r


def isnum(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_)) and not isinstance(x, bool)


def tok(x):
    """Canonical tokens of a value: numbers by value, containers by content."""
    if isinstance(x, U.ValueEstimate):
        return [{"w": "ve", "x": limbs(float(x))}] + tok(x.precision)
    if x is None:
        return [{"w": "none", "x": []}]
    if isinstance(x, (bool, np.bool_)):
        return [{"w": "bool", "x": [int(x)]}]
    if isnum(x):
        return [{"w": "num", "x": limbs(x)}]
    if isinstance(x, str):
        return [{"w": "str:" + x, "x": []}]
    if isinstance(x, (QubitOperator, IsingOperator, FermionOperator)):
        ts = sorted((json.dumps(optoks(t)), t) for t in x.terms)
        r = [{"w": "op:" + type(x).__name__, "x": [len(ts)]}]
        for _, t in ts:
            r += [{"w": "term:" + json.dumps(optoks(t)), "x": limbs(x.terms[t])}]
        return r
    if isinstance(x, (InteractionOperator, InteractionRDM)):
        r = [{"w": type(x).__name__, "x": []}]
        if isinstance(x, InteractionOperator):
            r += tok(x.constant)
        return r + tok(np.asarray(x.one_body_tensor)) + tok(np.asarray(x.two_body_tensor))
    if isinstance(x, MeasurementOutcomeDistribution):
        return [{"w": "dist", "x": []}] + tok({",".join(map(str, k)) if isinstance(k, tuple) else str(k): v for k, v in x.distribution_dict.items()})
    if isinstance(x, M.ExpectationValues):
        return [{"w": "expval", "x": []}] + tok(x.values) + tok(x.correlations) + tok(x.estimator_covariances)
    if isinstance(x, M.Parities):
        return [{"w": "parities", "x": []}] + tok(x.values) + tok(x.correlations)
    if isinstance(x, Wavefunction):
        return [{"w": "wave", "x": []}] + tok(np.asarray(x.amplitudes))
    if isinstance(x, nx.Graph):
        r = [{"w": type(x).__name__, "x": [x.number_of_nodes(), x.number_of_edges()]}]
        for n, d in sorted(x.nodes(data=True), key=lambda p: repr(p[0])):
            r += tok(n) + tok(dict(d))
        es = []
        for u, v, d in x.edges(data=True):
            u, v = sorted((u, v), key=repr)
            es.append((repr((u, v)), u, v, d))
        for _, u, v, d in sorted(es, key=lambda q: q[0]):
            r += tok(u) + tok(v) + tok(dict(d))
        return r
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            raise Bad("array of objects")
        if x.ndim == 0:      # numpy returns zero-dimensional results as numbers
            return tok(x.item())
        return [{"w": "arr", "x": list(x.shape)}] + [t for v in x.ravel().tolist() for t in tok(v)]
    if isinstance(x, HistoryEntryWithArtifacts):
        return [{"w": "hea", "x": []}] + tok(x.call_number) + tok(x.params) + tok(x.value) + tok(dict(x.artifacts))
    if isinstance(x, HistoryEntry):
        return [{"w": "he", "x": []}] + tok(x.call_number) + tok(x.params) + tok(x.value)
    if isinstance(x, dict):
        w = "optim" if isinstance(x, OptimizeResult) else "dict"
        ks = sorted((k for k in x if k != "schema"), key=str)
        r = [{"w": w, "x": [len(ks)]}]
        for k in ks:
            r += [{"w": "key:%s" % (k,), "x": []}] + tok(x[k])
        return r
    if isinstance(x, (list, tuple)):
        return [{"w": "list", "x": [len(x)]}] + [t for v in x for t in tok(v)]
    raise Bad("unexpected value of type %s" % type(x).__name__)


def optoks(t):
    return [[int(i), a if isinstance(a, str) else int(a)] for i, a in t]


def enc(x):
    for k, c in CLS.items():
        if type(x) is c:
            v = []
            for t, co in x.terms.items():
                if isinstance(co, sympy.Expr):
                    return {"k": "sym", "v": [{"w": "sym:%s %s" % (json.dumps(optoks(t)), co), "x": []} for t, co in sorted(x.terms.items(), key=str)]}
                v.append({"f": optoks(t), "x": limbs(co)})
            return {"k": k, "v": v}
    t = tok(x)
    return {"k": t[0]["w"] if t[0]["w"] in KINDS else "other", "v": t}


KINDS = {"InteractionOperator", "InteractionRDM", "dist", "expval", "parities", "wave", "arr", "ve", "optim", "dict", "list", "Graph"}

# ---- values -------------------------------------------------------------------------
NUMS = [0.1, -0.3, 1.0, 2.0, -1.0, 3.5, 1e-3, 7.25e5, 1 / 3, 2 ** 0.5, 12345.678, -2e-5, 1e10]


def rnum(rng, cplx=0.5):
    r = rng.random()
    a = rng.choice(NUMS) if r < 0.6 else rng.uniform(-2, 2)
    if rng.random() < cplx:
        b = rng.choice(NUMS) if rng.random() < 0.5 else rng.uniform(-2, 2)
        return rng.choice([complex(a, b), complex(0, b), complex(a, b), complex(a, 0)])
    return a if rng.random() < 0.8 else rng.choice([1, 2, -3, 0, 100])


def rcoef(rng, short=False):
    while True:
        c = rnum(rng, 0.5)
        if short:
            c = complex(c)
            c = complex(round(c.real, 3), round(c.imag, 3)) if c.imag else round(c.real, 3)
        if abs(c) > 1e-6:
            return c


def rop(rng, k, n=None, nt=None):
    n = n or rng.choice([1, 2, 3, 5, 12])
    op = CLS[k]()
    short = rng.random() < 0.5
    nt = rng.choice([0, 1, 1, 2, 3, 4, 6]) if nt is None else nt
    for _ in range(nt):
        if k == "f":
            t = tuple((rng.randrange(n), rng.randrange(2)) for _ in range(rng.randint(0, 4)))
        else:
            t = tuple((i, rng.choice("XYZ" if k == "q" else "Z")) for i in sorted(rng.sample(range(n), rng.randint(0, min(n, 4)))))
        op += CLS[k](t, rcoef(rng, short))
    if rng.random() < 0.25:     # coefficients as numpy computes them
        op.terms = {t: np.complex128(c) if isinstance(c, complex) else np.float64(c) for t, c in op.terms.items()}
    return op


def rarr(rng, shape=None, cplx=None):
    if shape is None:
        nd = rng.choice([0, 1, 1, 2, 2, 3, 4])
        shape = tuple(rng.randint(1, 4 if nd < 3 else 2) for _ in range(nd))
        if nd == 1 and rng.random() < 0.1:
            return np.array([])
    cplx = rng.random() < 0.5 if cplx is None else cplx
    n = int(np.prod(shape)) if shape else 1
    if not cplx and rng.random() < 0.2:
        return np.array([rng.randrange(-50, 50) for _ in range(n)]).reshape(shape)
    v = [rnum(rng, 1.0) if cplx and rng.random() < 0.8 else float(rnum(rng, 0)) for _ in range(n)]
    if cplx and rng.random() < 0.15:
        v = [complex(complex(x).real, 0) for x in v]
    if cplx and rng.random() < 0.1:
        v = [complex(0, complex(x).real) for x in v]
    return np.array(v, dtype=complex if cplx else float).reshape(shape)


def rint(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    c = rng.random() < 0.4
    return InteractionOperator(rnum(rng, 0.3), rarr(rng, (n, n), c), rarr(rng, (n,) * 4, c))


def rrdm(rng):
    n = rng.choice([1, 2, 3])
    c = rng.random() < 0.4
    return InteractionRDM(rarr(rng, (n, n), c), rarr(rng, (n,) * 4, c))


def rve(rng):
    v = float(rnum(rng, 0))
    p = rng.choice([None, 0.1, 0.0, 1e-3, rng.uniform(0, 1), 2.0])
    r = rng.random()
    if r < 0.2:
        v = np.float64(v)
    if r < 0.1 and p is not None:
        p = np.float64(p)
    return U.ValueEstimate(v, p) if rng.random() < 0.8 or p is not None else U.ValueEstimate(v)


def rexp(rng):
    n = rng.choice([1, 2, 3])
    corr = [rarr(rng, (i, i), False) for i in rng.sample([1, 2, 3], rng.randint(1, 3))]
    cov = [rarr(rng, (i, i), rng.random() < 0.3) for i in rng.sample([1, 2, 3], rng.randint(1, 3))]
    return M.ExpectationValues(rarr(rng, (n,)), rng.choice([None, corr]), rng.choice([None, cov]))


def rpar(rng):
    n = rng.choice([1, 2, 3])
    vals = np.array([[rng.randrange(50), rng.randrange(50)] for _ in range(n)])
    corr = [np.array([[[rng.randrange(9), rng.randrange(9)] for _ in range(i)] for _ in range(i)]) for i in rng.sample([1, 2, 3], rng.randint(1, 3))]
    return M.Parities(vals, rng.choice([None, corr]))


def rdist(rng):
    n = rng.randint(1, 3)
    ks = [tuple((i >> j) & 1 for j in range(n)) for i in range(2 ** n)]
    ks = rng.sample(ks, rng.randint(1, len(ks)))
    w = [rng.randint(1, 5) for _ in ks]
    w[0] += 32 - sum(w)
    w = [x / 32 for x in w]
    return MeasurementOutcomeDistribution(dict(zip(ks, w)))


def rtext(rng):
    return rng.choice(["", "a", "some text", "1101", "±ü", "\"quoted\"\n", "3.14", "null"])


def rjson(rng, d=2, rich=False):
    r = rng.random()
    if d == 0 or r < 0.45:
        c = [None, True, False, 1, -7, 0.25, 1 / 3, rtext(rng)]
        return rng.choice(c)
    if rich and r < 0.6:
        return rng.choice([lambda: rarr(rng, rng.choice([(1,), (3,), (2, 2)])), lambda: rve(rng), lambda: rdist(rng)])()
    if r < 0.8:
        return [rjson(rng, d - 1, rich) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["a", "b", "key", "x y", "value", "ü"]): rjson(rng, d - 1, rich) for _ in range(rng.randint(0, 3))}


def rvalue(rng):
    return rng.choice([lambda: rve(rng), lambda: float(rnum(rng, 0))])()


def roptim(rng):
    kw = {}
    def hist(art):
        h = []
        for i in range(rng.randint(0, 3)):
            p = rarr(rng, (rng.randint(1, 3),), False)
            if art:
                h.append(HistoryEntryWithArtifacts(i, p, rvalue(rng), {rng.choice(["bitstring", "stuff", "more"]): rjson(rng, 2, True) for _ in range(rng.randint(0, 2))}))
            else:
                h.append(HistoryEntry(i, p, rvalue(rng)))
        return h
    if rng.random() < 0.8:
        kw["history"] = hist(rng.random() < 0.6)
    if rng.random() < 0.4:
        kw["gradient_history"] = [HistoryEntry(i, rarr(rng, (2,), False), rarr(rng, (2,), False)) for i in range(rng.randint(0, 3))]
    if rng.random() < 0.6:
        kw["nfev"], kw["nit"] = rng.randrange(100), rng.randrange(100)
    if rng.random() < 0.3:
        kw["message"] = rtext(rng)
    if rng.random() < 0.3:
        kw["initial_params"] = rarr(rng, (2,), False)
    if rng.random() < 0.2:
        kw["distribution"] = rdist(rng)
    return optimization_result(opt_value=rvalue(rng), opt_params=rarr(rng, (rng.randint(1, 4),), False), **kw)


def rwave(rng):
    n = rng.randint(1, 3)
    k = rng.randint(1, 2 ** n)
    ph = [1, -1, 1j, -1j, cmath.exp(1j * rng.uniform(0, 6))]
    v = [rng.choice(ph) / math.sqrt(k) for _ in range(k)] + [0] * (2 ** n - k)
    rng.shuffle(v)
    return Wavefunction(np.array(v, dtype=complex))


def rgraph(rng):
    g = nx.Graph()
    kind = rng.choice(["int", "int", "str", "gap"])
    n = rng.randint(0, 6)
    ns = [i if kind == "int" else "n%d" % i if kind == "str" else 3 * i + 1 for i in range(n)]
    if rng.random() < 0.3:
        rng.shuffle(ns)
    for v in ns:
        g.add_node(v, **({"color": rng.choice(["red", 3])} if rng.random() < 0.2 else {}))
    for i in range(n):
        for j in range(i):
            if rng.random() < 0.5:
                a = {"weight": rng.choice([1.0, 2.5, -1, 1 / 3, rng.uniform(0, 1)])}
                if rng.random() < 0.2:
                    a = {}
                g.add_edge(ns[i], ns[j], **a)
    return g


MAKE = {"q": lambda r: rop(r, "q"), "i": lambda r: rop(r, "i"), "f": lambda r: rop(r, "f"), "int": rint, "rdm": rrdm, "arr": rarr, "ve": rve,
        "expval": rexp, "parities": rpar, "optim": roptim, "wave": rwave, "graph": rgraph,
        "opset": lambda r: [rop(r, "q") for _ in range(r.randint(0, 4))],
        "list": lambda r: [rjson(r) for _ in range(r.randint(0, 4))],
        "dict": lambda r: {"d%d" % i: rjson(r) for i in range(r.randint(0, 4))},
        "sym": lambda r: QubitOperator("X0", sympy.Symbol("x")) + QubitOperator("Z1", 2.0),
        "nmeas": lambda r: (float(rnum(r, 0)), r.randrange(20), r.choice([None, rarr(r, (3,), False)])),
        "timing": lambda r: {"walltime": float(rnum(r, 0))},
        "noise": lambda r: {"built": {"a": rjson(r)}},
        "grid": lambda r: [{"value": rve(r), "parameter1": {"layer_index": r.randrange(3), "parameter_value": r.random()}} for _ in range(r.randint(0, 3))]}


def load_grid(p):
    with open(p) as f:
        d = json.load(f)
    if d["schema"] != "zapata-v1-parameter_grid_evaluation" or any(v["value"]["schema"] != "zapata-v1-value_estimate" for v in d["values_set"]):
        raise Bad("schema of a grid evaluation")
    return [{**v, "value": U.ValueEstimate.from_dict(v["value"])} for v in d["values_set"]]


def load_json(p):
    with open(p) as f:
        return json.load(f)


# format: (kinds, save(object, path), load(source), may the source be a file object / bytes / Path)
FMT = {
    "qubit": ("qi", IO.save_qubit_operator, IO.load_qubit_operator),
    "ising": ("i", IO.save_ising_operator, IO.load_ising_operator),
    "interaction": (["int"], IO.save_interaction_operator, IO.load_interaction_operator),
    "rdm": (["rdm"], IO.save_interaction_rdm, IO.load_interaction_rdm),
    "opset": (["opset"], IO.save_qubit_operator_set, IO.load_qubit_operator_set),
    "array": (["arr"], S.save_array, S.load_array),
    "value": (["ve"], U.save_value_estimate, U.load_value_estimate),
    "expval": (["expval"], M.save_expectation_values, M.load_expectation_values),
    "parities": (["parities"], M.save_parities, M.load_parities),
    "list": (["list"], lambda o, p: U.save_list(o, p, "art"), U.load_list),
    "dict": (["dict"], U.save_generic_dict, load_json),
    "optim": (["optim"], S.save_optimization_results, S.load_optimization_results),
    "nmeas": (["nmeas"], lambda o, p: U.save_nmeas_estimate(o[0], o[1], p, o[2]), U.load_nmeas_estimate),
    "timing": (["timing"], lambda o, p: U.save_timing(o["walltime"], p), load_json),
    "graph": (["graph"], G.save_graph, G.load_graph),
    "wave": (["wave"], M.save_wavefunction, M.load_wavefunction),
    "noise": (["noise"], lambda o, p: U.save_noise_model(o["built"], "specobj", "noise", p), U.load_noise_model),
    "grid": (["grid"], IO.save_parameter_grid_evaluation, load_grid),
}
BYPATH = {"dict", "optim", "nmeas", "timing", "grid"}      # loaders documented for paths only
WRITABLE = {"array", "graph"}                                # savers documented for open files too


class World:
    def __init__(self, rng):
        self.rng, self.regs, self.made, self.files, self.ev = rng, [], [], {}, []
        self.dir = tempfile.mkdtemp(prefix="store")

    def close(self):
        assert self.dir.startswith(tempfile.gettempdir())
        shutil.rmtree(self.dir)

    def put(self, x):
        r = enc(x)
        self.regs.append(x)
        self.made.append(None)
        return r

    def add(self, e, out):
        e["out"] = out
        self.ev.append(e)
        return out["k"] == "ok"

    def new(self, kind):
        x = MAKE[kind](self.rng)
        v = enc(x)
        self.regs.append(x)
        self.made.append(kind)
        return self.add({"op": "new", "k": v["k"], "v": v["v"]}, {"k": "ok", "v": v})

    def path(self, name):
        p = os.path.join(self.dir, name)
        return self.rng.choice([p, p, pathlib.Path(p), p.encode()])

    def save(self, fmt, name, i, ow):
        x = self.regs[i - 1]
        rng = self.rng
        if fmt == "optext" and not printable(x):
            fmt = "op"

        def run():
            if fmt in ("op", "optext"):
                nm = name if rng.random() < 0.5 else name[:-5]
                save_operator(x, nm, self.dir, allow_overwrite=bool(ow), plain_text=fmt == "optext")
            elif fmt in WRITABLE and rng.random() < 0.2:
                with open(os.path.join(self.dir, name), "w") as f:
                    FMT[fmt][1](x, f)
            else:
                FMT[fmt][1](x, self.path(name))
            return 0
        ok = self.add({"op": "save", "fmt": fmt, "name": name, "i": i, "ow": ow}, observe(run))
        if ok:
            self.files[name] = fmt
        return ok

    def load(self, name):
        rng = self.rng

        def run():
            fmt = self.files.get(name, "qubit")
            if fmt in ("op", "optext"):
                nm = name if rng.random() < 0.5 else name[:-5]
                return self.put(load_operator(nm, self.dir, plain_text=fmt == "optext"))
            if fmt not in BYPATH and rng.random() < 0.25:
                with open(os.path.join(self.dir, name)) as f:
                    return self.put(FMT[fmt][2](f))
            if fmt not in BYPATH and rng.random() < 0.1 and name in self.files:
                with open(os.path.join(self.dir, name)) as f:
                    return self.put(FMT[fmt][2](io.StringIO(f.read())))
            return self.put(FMT[fmt][2](self.path(name)))
        return self.add({"op": "load", "name": name}, observe(run))

    def check(self):
        return self.add({"op": "check"}, observe(lambda: [enc(x) for x in self.regs]))

    def listing(self):
        return self.add({"op": "dir"}, observe(lambda: sorted(os.listdir(self.dir))))

    def schema(self, name):
        return self.add({"op": "schema", "name": name}, observe(lambda: load_json(os.path.join(self.dir, name))["schema"]))


def printable(x):
    """PyPy prints complex numbers with twelve digits only: no matter of the library."""
    try:
        return all(complex("{}".format(c).strip("()")) == c for c in x.terms.values())
    except Exception:
        return True


DICTS = {"q": (IO.convert_qubitop_to_dict, IO.convert_dict_to_qubitop, "qubit"), "i": (IO.convert_isingop_to_dict, IO.convert_dict_to_isingop, "ising"),
         "int": (IO.convert_interaction_op_to_dict, IO.convert_dict_to_interaction_op, "interaction"),
         "rdm": (IO.convert_interaction_rdm_to_dict, IO.convert_dict_to_interaction_rdm, "rdm"),
         "arr": (U.convert_array_to_dict, U.convert_dict_to_array, None), "ve": (U.ValueEstimate.to_dict, U.ValueEstimate.from_dict, "value"),
         "expval": (M.ExpectationValues.to_dict, M.ExpectationValues.from_dict, "expval"), "parities": (M.Parities.to_dict, M.Parities.from_dict, None)}


def kind_of(x):
    for k, c in CLS.items():
        if type(x) is c:
            return k
    if isinstance(x, np.ndarray):
        return "arr"
    t = tok(x)[0]["w"]
    return {"InteractionOperator": "int", "InteractionRDM": "rdm", "Graph": "graph"}.get(t, t)


def dict_round(w, i):
    x = w.regs[i - 1]
    k = kind_of(x)
    to, fr, _ = DICTS[k]

    def run():
        d = to(x)
        if w.rng.random() < 0.5:
            d = json.loads(json.dumps(d))
        return w.put(fr(d))
    return w.add({"op": "round", "i": i}, observe(run))


def dict_schema(w, i):
    x = w.regs[i - 1]
    to, _, fmt = DICTS[kind_of(x)]
    if fmt is None:
        return True
    return w.add({"op": "dschema", "fmt": fmt}, observe(lambda: to(x)["schema"]))


def run_gen(out, rng, g, pool):
    w = World(rng)
    try:
        for i, kinds in enumerate(pool):
            w.new(rng.choice(kinds))
        for o in g["ops"]:
            name = ["a.data", "b.data"][o["n"] - 1] if o["n"] else None
            if o["o"] == "save":
                k = w.made[o["i"] - 1]
                if o["f"] == "op":
                    fmt = "op" if k == "sym" or rng.random() < 0.6 else "optext"
                    ow = o["w"]
                else:
                    fmt = rng.choice([f for f, d in FMT.items() if k in d[0]] or ["op"])
                    ow = 1
                w.save(fmt, name, o["i"], ow)
            elif o["o"] == "load":
                w.load(name)
        if rng.random() < 0.4:
            w.listing()
        if rng.random() < 0.4:
            w.check()
        out.session(w.ev, "gen")
    finally:
        w.close()


def random_session(out, rng, kinds, key):
    w = World(rng)
    names = ["a.data", "b.data", "c.data"]
    try:
        for s in range(rng.randint(4, 14)):
            r = rng.random()
            ok = True
            if not w.regs or r < 0.25:
                ok = w.new(rng.choice(kinds))
            elif r < 0.5:
                i = rng.randrange(len(w.regs)) + 1
                k = w.made[i - 1] or "?"
                if k == "?":
                    # a loaded object can be saved again
                    k = kind_of_loaded(w, i)
                fs = [f for f, d in FMT.items() if k in d[0]]
                if k in ("q", "f"):
                    fs += ["op", "optext"] if rng.random() < 0.8 else ["op"]
                if k in ("int", "rdm", "i", "sym") and rng.random() < 0.3 or k == "sym":
                    fs = ["op", "optext"]
                if not fs:
                    continue
                w.save(rng.choice(fs), rng.choice(names), i, rng.choice([0, 0, 1]))
            elif r < 0.75:
                ok = w.load(rng.choice(sorted(w.files) or names) if rng.random() < 0.9 else rng.choice(names + ["never.data"]))
            elif r < 0.8:
                ok = w.listing()
            elif r < 0.85:
                ok = w.check()
            elif r < 0.9:
                js = [n for n, f in w.files.items() if f not in ("op", "optext", "noise", "opset", "grid")]
                if js:
                    ok = w.schema(rng.choice(js))
            else:
                i = rng.randrange(len(w.regs)) + 1
                k = kind_of_loaded(w, i)
                if k in DICTS:
                    ok = dict_round(w, i) if rng.random() < 0.8 else dict_schema(w, i)
            del ok
        w.check()
        out.session(w.ev, key)
    finally:
        w.close()


def kind_of_loaded(w, i):
    if w.made[i - 1]:
        return w.made[i - 1]
    try:
        k = kind_of(w.regs[i - 1])
    except Bad:
        return "?"
    # a list or dictionary that was loaded may hold anything: not saved again in a typed format
    return k if k in CLS or k in ("int", "rdm", "arr", "ve", "expval", "parities", "wave", "graph", "optim") else "?"


# ---- O04 ----------------------------------------------------------------------------
def o04(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    for g in gen[:250 if not THOROUGH else 4000]:
        run_gen(out, rng, g, [["q", "f"], ["q", "f"], ["sym"] if any(o["i"] == 3 and o["f"] == "op" for o in g["ops"]) and not any(o["i"] == 3 and o["f"] == "plain" for o in g["ops"]) and rng.random() < 0.3 else ["int", "rdm", "i"]])
    for _ in range(n_of(130)):
        random_session(out, rng, ["q", "q", "i", "f", "int", "rdm", "opset", "sym"], "mixed")
    for _ in range(n_of(150)):
        w = World(rng)
        try:
            k = rng.choice("qqqiif")
            w.new(k)
            for _ in range(rng.randint(1, 5)):
                i = rng.randrange(len(w.regs)) + 1
                x = w.regs[i - 1]
                r = rng.random()
                kk = kind_of(x)
                if r < 0.45:
                    t = rng.choice("qi" if kk in "qi" else "qif")
                    if kk == "f" and t != "f" and not x.terms:
                        t = "f"
                    if kk != "f" and rng.random() < 0.1:
                        t = "f" if any(len(q) for q in x.terms) else t
                    w.add({"op": "convert", "i": i, "k": t}, observe(lambda: w.put(change_operator_type(x, CLS[t]))))
                elif r < 0.6 and kk in "qi":
                    w.add({"op": "strings", "i": i}, observe(lambda: list(IO.get_pauli_strings(x))))
                elif r < 0.9 and kk in DICTS:
                    dict_round(w, i)
                elif kk in DICTS:
                    dict_schema(w, i)
            w.check()
            out.session(w.ev, "convert")
        finally:
            w.close()


# ---- U01 ----------------------------------------------------------------------------
def u01(out, rng):
    kinds = ["arr", "arr", "arr", "ve", "expval", "parities", "list", "dict", "optim", "optim", "nmeas", "timing", "wave", "noise", "grid"]
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    for g in gen[:120 if not THOROUGH else 2500]:
        g = {"ops": [dict(o, f="plain", w=1) if o["o"] == "save" else o for o in g["ops"]]}
        run_gen(out, rng, g, [kinds] * 3)
    for _ in range(n_of(200)):
        random_session(out, rng, kinds, "mixed")
    for _ in range(n_of(150)):
        kind = rng.choice(["optim", "arr", "expval", "wave", "rich"])
        w = World(rng)
        try:
            # JSON text with the encoder and the decoder of the library
            x = {"field": rjson(rng, 3, True), "other": rvalue(rng)} if kind == "rich" else MAKE["optim" if kind in ("expval", "wave") else kind](rng)
            v = enc(x)
            w.regs.append(x)
            w.ev.append({"op": "new", "k": v["k"], "v": v["v"], "out": {"k": "ok", "v": v}})
            w.add({"op": "round", "i": 1}, observe(lambda: w.put(json.loads(json.dumps(x, cls=S.OrquestraEncoder), cls=S.OrquestraDecoder))))
            w.check()
            out.session(w.ev, "json:" + kind)
        finally:
            w.close()
    values = [-7, -4, -3, -1, 0, 1, 2, 3, 4, 6, 40, 1001]
    for _ in range(n_of(200)):
        a, b = rng.choice(values), rng.choice(values)
        if rng.random() < 0.3:
            b = a
        p = rng.choice([[], [0], [1], [2], [5]])
        q = p if rng.random() < 0.4 else rng.choice([[], [0], [1], [2], [5]])

        def run():
            f = lambda v, r: U.ValueEstimate(v / 4, *([r[0] / 4] if r else rng.choice([[], [None]])))
            x, y = f(a, p), f(b, q)
            if rng.random() < 0.3:
                x = U.ValueEstimate(np.float64(a / 4), p[0] / 4 if p else None)
            txt = ("%s ± %s" % (a / 4, p[0] / 4)) if p else "%s" % (a / 4)
            if x.value != a / 4 or float(x) != a / 4 or (x == y and hash(x) != hash(y)):
                raise Bad("value, float or hash")
            return {"a": rat(float(x), 4), "p": [] if x.precision is None else [rat(x.precision, 4)], "sum": rat(x + y, 4), "diff": rat(x - y, 4),
                    "prod": rat(x * y, 16), "neg": rat(-x, 4), "abs": rat(abs(x), 4), "lt": as_bool(x < y), "le": as_bool(x <= y),
                    "eq": as_bool(x == y), "ne": as_bool(x != y), "eqf": as_bool(x == b / 4), "str": as_bool(str(x) == txt)}
        out.one({"op": "value", "a": a, "p": p, "b": b, "q": q, "out": observe(run)}, "value")


# ---- U02 ----------------------------------------------------------------------------
def bits_text(rng, n):
    return [rng.randrange(2) for _ in range(n)]


H = [1, 0, 0, 0, 1, 0]
def gate_ring(name):
    o, z, i, mi, mo = [1, 0, 0, 0, 0, 0], [0] * 6, [0, 0, 1, 0, 0, 0], [0, 0, -1, 0, 0, 0], [-1, 0, 0, 0, 0, 0]
    w, h, mh = [0, 1, 0, 0, 0, 0], [1, 0, 0, 0, 1, 0], [-1, 0, 0, 0, 1, 0]
    return {"I": [[o, z], [z, o]], "X": [[z, o], [o, z]], "Y": [[z, mi], [i, z]], "Z": [[o, z], [z, mo]], "S": [[o, z], [z, i]], "T": [[o, z], [z, w]],
            "H": [[h, h], [h, mh]], "P": [[o, z], [z, z]], "N": [[z, o], [z, z]], "D": [[[2, 0, 0, 0, 0, 0], z], [z, o]]}[name]


def rmul(x, y):
    return norm_z(ring_value(x) * ring_value(y))


def norm_z(z):
    r = ring(z)
    if r == NR:
        r = ring(z, h=10)
    if r == NR:
        raise Bad("outside the ring")
    return r


def mval(A):
    return np.array([[ring_value(x) for x in r] for r in A], dtype=complex)


def mring(m):
    return [[norm_z(z) for z in r] for r in m]


def rand_matrix(rng):
    """(ring matrix, float matrix)"""
    n = rng.choice([1, 1, 2])
    m = np.eye(2 ** n, dtype=complex)
    for _ in range(rng.randint(0, 3)):
        g = np.eye(1, dtype=complex)
        for _ in range(n):
            g = np.kron(g, mval(gate_ring(rng.choice(["I", "I", "X", "Y", "Z", "S", "T", "H"] + (["P", "N", "D"] if rng.random() < 0.15 else [])))))
        m = m @ g
    if n == 2 and rng.random() < 0.3:
        m = m @ np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])
    return m


def tweak(rng, m):
    m = m.copy()
    i, j = rng.randrange(len(m)), rng.randrange(len(m))
    m[i, j] += rng.choice([1, -1, 1j, 0.5, 2.0 ** -6, 1j * 2.0 ** -7])
    return m


def u02(out, rng):
    for _ in range(n_of(150)):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
        x = rng.choice([0, 1, 2 ** n - 1, 2 ** n, rng.randrange(2 ** n), rng.randrange(2 ** n), 2 ** n + rng.randrange(5)])
        out.one({"op": "dec2bin", "n": x, "len": n, "out": sysexit(lambda: [as_int(b) for b in U.dec2bin(x, n)])}, "dec2bin")
        b = bits_text(rng, rng.randint(0, 20))
        out.one({"op": "bin2dec", "b": b, "out": observe(lambda: as_int(U.bin2dec(b if rng.random() < 0.7 else tuple(b))))}, "bin2dec")
    for _ in range(n_of(100)):
        n = rng.randint(0, 5)
        ts = [[rng.randrange(rng.choice([2, 2, 10])) for _ in range(n)] for _ in range(rng.randint(0, 6))]
        strs = ["".join(map(str, t)) for t in ts]
        out.one({"op": "tuples", "ts": ts, "out": observe(lambda: [list(chk_tuple(t)) for t in U.convert_bitstrings_to_tuples(strs if rng.random() < 0.6 else iter(strs))])}, "tuples")
        out.one({"op": "bitstrings", "ts": ts, "out": observe(lambda: list(U.convert_tuples_to_bitstrings([tuple(t) for t in ts])))}, "bitstrings")
    for n in range(1, 8 if not THOROUGH else 11):
        out.one({"op": "ordered", "n": n, "out": observe(lambda: list(U.get_ordered_list_of_bitstrings(n)))}, "ordered")
    for _ in range(n_of(120)):
        m = rand_matrix(rng)
        tol = 1e-9
        kind = rng.random()
        if kind < 0.25:
            m = np.eye(len(m)) * rng.choice([1, 1, 1, -1, 1j])
            if rng.random() < 0.3:
                m = m.astype(complex)
        if rng.random() < 0.4:
            m = tweak(rng, m.astype(complex))
        if rng.random() < 0.15:
            # column norms one, columns not orthogonal
            m = np.array([[1, 1], [0, 0]], dtype=complex)
        exact = all(abs(z.real - round(z.real)) == 0 and abs(z.imag - round(z.imag)) == 0 for z in m.ravel().astype(complex))
        args = (tol,) if not exact or rng.random() < 0.3 else ()
        out.one({"op": "is_identity", "A": mring(m), "out": observe(lambda: as_bool(U.is_identity(m, *args)))}, "is_identity")
        out.one({"op": "is_unitary", "A": mring(m), "out": observe(lambda: as_bool(U.is_unitary(m, *args)))}, "is_unitary")
    for _ in range(n_of(20)):
        shape = rng.choice([(2, 3), (3, 2), (1, 2), (4, 2)])
        m = np.eye(4)[:shape[0], :shape[1]]
        f = rng.choice([U.is_identity, U.is_unitary])
        out.one({"op": "notsquare", "out": observe(lambda: as_bool(f(m)))}, "notsquare")
    for _ in range(n_of(150)):
        a = rand_matrix(rng)
        r = rng.random()
        ph = [1, -1, 1j, -1j, ring_value([0, 1, 0, 0, 0, 0]), ring_value([0, 0, 0, 1, 0, 0])]
        if r < 0.4:
            b = a * rng.choice(ph)
        elif r < 0.55:
            b = np.diag([rng.choice(ph) for _ in range(len(a))]) @ a       # phases differ
        elif r < 0.65:
            b = a * rng.choice([2, 0.5])
        elif r < 0.8:
            b = np.array(mval(gate_ring(rng.choice(["X", "Y"]))))
            if len(a) == 4:
                b = np.kron(b, np.eye(2))
            b = a @ b
        else:
            b = rand_matrix(rng)
        if len(a) != len(b):
            continue
        if rng.random() < 0.15:
            b = tweak(rng, b)
        if rng.random() < 0.1:
            a = tweak(rng, a)
        out.one({"op": "compare", "A": mring(a), "B": mring(b), "out": observe(lambda: as_bool(U.compare_unitary(a, b, 1e-9)))}, "compare")
    for _ in range(n_of(150)):
        v = [rng.choice([0, 1, 1, 2, 3, 7, 10, 25]) for _ in range(rng.randint(1, 7))]
        if not sum(v):
            v[0] = 1
        total = rng.choice([0, 1, 2, 5, 10, 17, 100, 1000])
        s = rng.choice([1, 0.25, 1 / 3, 10.0])
        vals = [x * s for x in v]
        if rng.random() < 0.2:
            vals = np.array(vals)
        out.one({"op": "apportion", "v": v, "total": total, "out": observe(lambda: [as_int(x) for x in U.scale_and_discretize(vals, total)])}, "apportion")
    for _ in range(n_of(100)):
        k = rng.randint(1, 6)
        w = [rng.choice([0, 1, 2, 5, 9]) for _ in range(k)]
        w[rng.randrange(k)] += 64 - sum(w) if sum(w) < 64 else 0
        keys = rng.choice([[(i % 2, i // 2) for i in range(k)], ["k%d" % i for i in range(k)], list(range(10, 10 + k)), [(i,) for i in range(k)]])
        n = rng.choice([0, 1, 3, 20, 500])

        def run():
            c = U.sample_from_probability_distribution({q: x / sum(w) for q, x in zip(keys, w)}, n)
            return [[keys.index(q) + 1 if q in keys else 0, as_int(m)] for q, m in c.items()]
        out.one({"op": "sample", "w": w, "n": n, "out": observe(run)}, "sample")
    for _ in range(n_of(40)):
        ns = rng.randint(0, 5)
        v = [rng.randrange(-9, 9) for _ in range(ns if rng.random() < 0.8 else rng.randint(0, 5))]
        sy = [sympy.Symbol("t%d" % i) for i in range(ns)]
        rng.shuffle(sy)

        def run():
            d = U.create_symbols_map(sy, np.array(v, dtype=rng.choice([float, int])))
            if len(d) != len(sy) or [type(x).__module__ for x in d.values()].count("numpy"):
                raise Bad("symbols map")
            return [as_int(d[x]) for x in sy]
        out.one({"op": "symmap", "ns": ns, "v": v, "out": observe(run)}, "symmap")
    for _ in range(n_of(60)):
        name = rng.choice(["Thing", "func"])
        inspec = {k: rng.randrange(1, 9) for k in "abc" if rng.random() < 0.5}
        kw = {k: rng.randrange(1, 9) for k in "abc" if rng.random() < 0.4}
        if rng.random() < 0.7:
            kw = {k: v for k, v in kw.items() if k not in inspec}
        specs = {"module_name": "specobj", "function_name": name, **inspec}
        clash = any(k in inspec for k in kw)
        full = dict({"a": 0, "b": 0, "c": 0}, **inspec)
        full.update(kw)

        def run():
            before = dict(specs)
            if not kw and rng.random() < 0.6:
                f = rng.choice([U.load_from_specs, U.get_func_from_specs, lambda s: U.load_from_specs(json.dumps(s))])
                o = f(specs)
            else:
                o = U.create_object(specs, **kw)
            a = o() if name == "func" else o.args()
            return {"args": a, "specs": 1 if specs == before else 0}
        out.one({"op": "create", "clash": 1 if clash else 0, "args": [[k, full[k]] for k in "abc"], "out": observe(run)}, "create")


def chk_tuple(t):
    if not isinstance(t, tuple):
        raise Bad("not a tuple")
    return [as_int(x) for x in t]


def sysexit(fn):
    def run():
        try:
            return fn()
        except SystemExit as e:
            raise RuntimeError(str(e))
    return observe(run)


# ---- U03 ----------------------------------------------------------------------------
def wid(x):
    return repr(float(x)) if isnum(x) else "s:" + str(x)


def graph_out(g):
    if type(g) is not nx.Graph:
        raise Bad("not a simple undirected graph")
    es = []
    for u, v, d in g.edges(data=True):
        if set(d) != {"weight"}:
            raise Bad("edge attributes %r" % d)
        w = d["weight"]
        es.append([as_int(u), as_int(v), wid(w), int(math.floor(float(w) * 1024)) if isnum(w) and abs(w) < 1e5 else 0])
    return {"n": [as_int(n) for n in g.nodes], "e": es}


def make_graph(rng, g, w, seed, specs):
    import random as R
    R.seed(rng.random())
    np.random.seed(rng.randrange(10 ** 6))
    s = seed[0] if seed else None
    p = g["p16"] / 16
    if specs:
        d = {"type_graph": g["name"], "num_nodes": g["n"]}
        if w["k"] == "uniform":
            d["random_weights"] = True
        elif rng.random() < 0.5:
            d["random_weights"] = False
        if seed:
            d["seed"] = s
        d.update({"erdos_renyi": {"probability": p}, "complete": {}, "regular": {"degree": g["a"]}, "caveman": {"number_of_cliques": g["a"], "size_of_cliques": g["b"]},
                  "ladder": {"length_of_ladder": g["a"]}, "barbell": {"number_of_vertices_complete_graph": g["a"]}}[g["name"]])
        return G.generate_graph_from_specs(d)
    sm = {"const": lambda: G.constant_sampler(w["raw"][0]), "choice": lambda: G.choice_sampler(w["raw"]),
          "uniform": lambda: G.uniform_sampler() if (w["lo"], w["hi"]) == (0, 1024) else G.uniform_sampler(w["lo"] / 1024, w["hi"] / 1024), "normal": lambda: G.normal_sampler(0.5, 2.0)}[w["k"]]()
    kw = {"seed": s} if seed else {}
    if not (w["k"] == "const" and w["raw"] == [1.0] and rng.random() < 0.5):
        kw["weight_sampler"] = sm
    f = {"erdos_renyi": lambda: G.generate_random_graph_erdos_renyi(g["n"], p, **kw), "complete": lambda: G.generate_random_graph_erdos_renyi(g["n"], 1.0, **kw),
         "regular": lambda: G.generate_random_regular_graph(g["n"], g["a"], **kw), "caveman": lambda: G.generate_caveman_graph(g["a"], g["b"], **kw),
         "ladder": lambda: G.generate_ladder_graph(g["a"], **kw), "barbell": lambda: G.generate_barbell_graph(g["a"], **kw)}
    return f[g["name"]]()


def u03(out, rng):
    for i in range(n_of(220)):
        name = rng.choice(["erdos_renyi", "erdos_renyi", "complete", "regular", "regular", "caveman", "ladder", "barbell"])
        g = {"name": name, "n": rng.choice([0, 1, 2, 4, 5, 7, 10]), "a": 0, "b": 0, "prob": 0, "p16": 0}
        if name == "erdos_renyi":
            g["prob"] = rng.choice([0, 1, 1, 2])
            g["p16"] = {0: 0, 1: rng.choice([2, 4, 8, 12]), 2: 16}[g["prob"]]
            if g["prob"] == 1 and rng.random() < 0.4:
                g["n"] = rng.choice([20, 24])
        elif name == "regular":
            g["n"] = rng.choice([4, 5, 6, 8])
            g["a"] = rng.choice([0, 1, 2, 3, 4, 5])
        elif name == "caveman":
            g["a"], g["b"] = rng.randint(1, 4), rng.randint(1, 4)
        elif name == "ladder":
            g["a"] = rng.randint(1, 6)
        elif name == "barbell":
            g["a"] = rng.randint(1, 5)
        specs = rng.random() < 0.4
        k = rng.choice(["const", "uniform"]) if specs else rng.choice(["const", "const", "choice", "uniform", "normal"])
        raw = [1.0] if specs or rng.random() < 0.4 else rng.choice([[2.5], [-1], ["label"]]) if k == "const" else rng.choice([[-1, 1], [0.5, 1.5, 2.5], [3]])
        lo, hi = (0, 1024) if specs else rng.choice([(0, 1024), (-1024, 1024), (2048, 3072), (512, 512 + 64)])
        w = {"k": k, "v": [wid(x) for x in raw], "raw": raw, "lo": lo, "hi": hi}
        seed = [rng.choice([0, rng.randrange(1000), rng.randrange(1000)])] if rng.random() < 0.6 else []
        ev = []
        for rep in range(rng.choice([2, 3]) if seed else 1):
            sp = specs if k not in ("choice", "normal") and raw == [1.0] and (lo, hi) == (0, 1024) and rng.random() < 0.8 else False
            ev.append({"op": "graph", "g": g, "w": {x: y for x, y in w.items() if x != "raw"}, "seed": seed,
                       "out": observe(lambda: graph_out(make_graph(rng, g, w, seed, sp)))})
        out.session(ev, "graph:" + name)
    for _ in range(n_of(30)):
        ns = rng.sample(range(20), rng.randint(0, 7))
        gr = nx.Graph()
        gr.add_nodes_from(ns)
        gr.add_edges_from([(a, b) for a in ns for b in ns if a < b and rng.random() < 0.4])
        out.one({"op": "nodedict", "n": ns, "out": observe(lambda: [[as_int(a), as_int(b)] for a, b in G.generate_graph_node_dict(gr).items()])}, "nodedict")
    for _ in range(n_of(150)):
        n = rng.randint(0, 6)
        ns = list(range(n))
        es = [(a, b) for a in ns for b in ns if a < b and rng.random() < 0.5]
        ms, fs = list(ns), list(es)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            r = rng.random()
            if r < 0.3 and fs:
                fs.pop(rng.randrange(len(fs)))
            elif r < 0.6:
                c = [(a, b) for a in ms for b in ms if a < b and (a, b) not in fs]
                if c:
                    fs.append(rng.choice(c))
            elif r < 0.8:
                ms.append(rng.choice([x for x in range(20) if x not in ms]))
            elif ms:
                x = ms[-1]
                ms.remove(x)
                fs = [e for e in fs if x not in e]
        ms, fs = sorted(ms), sorted(fs)

        def build(vs, ed):
            q = nx.Graph()
            q.add_nodes_from(vs)
            q.add_edges_from(ed)
            return q
        a, b = build(ns, es), build(ms, fs)
        e1, e2 = list(a.edges), list(b.edges)
        pre = lambda x, y: x == y[:len(x)] or y == x[:len(y)]
        key = "cmp"
        if pre(ns, ms) and pre(e1, e2) and (ns, e1) != (ms, e2):
            key = "cmp:truncated"
        out.one({"op": "cmp", "n1": ns, "e1": [list(x) for x in es], "n2": ms, "e2": [list(x) for x in fs], "out": observe(lambda: as_bool(G.compare_graphs(a, b)))}, key)
    for _ in range(n_of(120)):
        random_session(out, rng, ["graph", "graph", "graph", "arr"], "files")


main({"O04": o04, "U01": u01, "U02": u02, "U03": u03})
