"""Workflow steps run one after another in a directory, next to the library in memory: W01."""
import copy, json, os, random, re, shutil, sys, tempfile
import numpy as np
import sympy
sys.path.append(os.environ.get("VERIF_REPO", "/repo"))
from drv import *
from d_op import gz, n_of
from zquantum.core import circuits as cz, graph as zg, hamiltonian as zh, openfermion as of, serialization as zs, utils as zu
from zquantum.core.circuits import layouts
from zquantum.core.cost_function import AnsatzBasedCostFunction, get_ground_state_cost_function, sum_expectation_values
from zquantum.core.distribution import load_measurement_outcome_distribution, save_measurement_outcome_distribution
from zquantum.core.estimation import (allocate_shots_proportionally, allocate_shots_uniformly, calculate_exact_expectation_values,
                                      estimate_expectation_values_by_averaging, group_greedily, group_individually)
from zquantum.core.interfaces.ansatz_utils import combine_ansatz_params
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import (ExpectationValues, Measurements, load_expectation_values, load_wavefunction, save_expectation_values, save_wavefunction)
from zquantum.core.openfermion import InteractionOperator, InteractionRDM, IsingOperator, QubitOperator
from zquantum.core.openfermion.linalg import jw_get_ground_state_at_particle_number, qubit_operator_sparse
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.testing import create_random_qubitop
from zquantum.core.trackers import MeasurementTrackingBackend
from zquantum.core.wavefunction import Wavefunction
import steplib as L
from steps import circuit as s_circ, evaluation as s_eval, graph as s_graph, measure as s_meas, operators as s_op, optimize as s_opt, transforms as s_tr, utils as s_ut


# ---- kinds of objects: saving, loading, an exact text, and structure where the specification computes with it -------
def num(z):
    if z is None:
        return "-"
    z = complex(z)
    z = complex(round(z.real, 10), round(z.imag, 10)) if np.isfinite(z) else z     # a file keeps fifteen digits of a gate angle
    return repr(z.real + 0.0) + ("" if z.imag == 0 else "," + repr(z.imag))


def arr(a):
    a = np.asarray(a)
    return [num(x) if not isinstance(x, sympy.Expr) else str(x) for x in a.ravel()] + ["x".join(map(str, a.shape))]


def opx(op):
    return [[str(t), num(c)] for t, c in op.terms.items()]


def ops(op):
    return [{"c": gz(c), "f": [[as_int(i), a] for i, a in t]} for t, c in op.terms.items()]


def gatex(o):
    p = []
    for x in o.params:
        try:
            p.append(num(x))
        except Exception:
            p.append(str(x))
    return "%s(%s)@%s" % (o.gate.name, ";".join(p), ",".join(str(as_int(q)) for q in o.qubit_indices))


def circx(c):
    return {"n": as_int(c.n_qubits), "ops": [gatex(o) for o in c.operations]}


def rnd(a):
    """to eight digits: results of eigensolvers"""
    a = np.asarray(a, dtype=complex)
    return arr(np.round(a, 8) + 0.0)


def iopx(o):
    return [num(o.constant), arr(o.one_body_tensor), arr(o.two_body_tensor)]


def iops(o):
    ent = lambda a: [{"f": [as_int(i) for i in q], "c": gz(a[q])} for q in np.ndindex(*a.shape) if a[q] != 0]
    return {"c": gz(o.constant), "one": ent(np.asarray(o.one_body_tensor)), "two": ent(np.asarray(o.two_body_tensor)), "n": as_int(len(o.one_body_tensor))}


def graphx(g):
    return [sorted(map(str, g.nodes)), sorted([sorted([str(a), str(b)]) + [num(d.get("weight"))] for a, b, d in g.edges(data=True)])]


def evx(e):
    m = lambda ms: [] if ms is None else [arr(x) for x in ms]
    return [arr(e.values), m(e.correlations), m(e.estimator_covariances)]


def optx(r):
    h = lambda k: [[as_int(e.call_number), arr(e.params), valx(e.value)] for e in (r.get(k) or [])]
    return [valx(r["opt_value"]), arr(r["opt_params"]), as_int(r["nit"]), as_int(r["nfev"]), h("history"), h("gradient_history")]


def valx(v):
    p = getattr(v, "precision", None)
    return [num(round(float(v), 9)), num(p if p is None else round(float(p), 9))]


def jload(p):
    with open(p) as f:
        return json.load(f)


def raw(d):
    """The raw data of a tracked run: what was run and what came out."""
    if d.get("schema") != "zapata-v1-raw-data":
        raise Bad("schema %r" % d.get("schema"))
    return [[r.get("data_type"), r.get("device"), circx(cz.circuit_from_dict(r["circuit"])), r.get("counts"), r.get("number_of_shots"), r.get("bitstrings"), text(r.get("distribution"))] for r in d["raw-data"]]


def text(v):
    """Numbers in a text, to nine digits."""
    return re.sub(r"\d+\.\d*(e[-+]?\d+)?|\d+e[-+]?\d+", lambda m: repr(round(float(m.group()), 9)), v) if isinstance(v, str) else v


def timing(d):
    w = d["walltime"]
    return "timed" if 0 <= w < 1000 else "nonsense"


K = {      # kind: save, load, exact text, structure
    "circ": (cz.save_circuit, cz.load_circuit, circx, circx),
    "cset": (cz.save_circuitset, cz.load_circuitset, lambda v: [circx(c) for c in v], lambda v: [circx(c) for c in v]),
    "arr": (zs.save_array, zs.load_array, arr, lambda a: [num(x) for x in np.asarray(a).ravel()]),
    "op": (of.save_qubit_operator, of.load_qubit_operator, opx, ops),
    "ops": (of.save_qubit_operator_set, of.load_qubit_operator_set, lambda v: [opx(o) for o in v], lambda v: [ops(o) for o in v]),
    "iop": (of.save_interaction_operator, of.load_interaction_operator, iopx, iops),
    "rdm": (of.save_interaction_rdm, of.load_interaction_rdm, lambda r: [rnd(r.one_body_tensor), rnd(r.two_body_tensor)], None),
    "ev": (save_expectation_values, load_expectation_values, evx, None),
    "meas": (lambda m, p: m.save(p), Measurements.load_from_file, lambda m: ["".join(map(str, b)) for b in m.bitstrings], None),
    "mset": (zu.save_list, zu.load_list, lambda v: [["".join(map(str, b)) for b in m] for m in v], None),
    "list": (zu.save_list, zu.load_list, lambda v: [num(x) for x in v], None),
    "dist": (save_measurement_outcome_distribution, load_measurement_outcome_distribution, lambda d: sorted(["".join(map(str, k)), num(v)] for k, v in d.distribution_dict.items() if abs(v) > 1e-9), None),
    "wave": (save_wavefunction, load_wavefunction, lambda w: rnd(np.outer(w.amplitudes, np.conj(w.amplitudes))), None),
    "val": (zu.save_value_estimate, zu.load_value_estimate, valx, None),
    "nmeas": (None, zu.load_nmeas_estimate, lambda t: [num(t[0]), num(t[1]), [] if t[2] is None else arr(t[2])], None),
    "graph": (zg.save_graph, zg.load_graph, graphx, None),
    "layers": (layouts.save_circuit_layers, layouts.load_circuit_layers, lambda l: [[list(map(as_int, p)) for p in x] for x in l.layers], None),
    "conn": (layouts.save_circuit_connectivity, layouts.load_circuit_connectivity, lambda c: [list(map(as_int, p)) for p in c.connectivity], None),
    "opt": (zs.save_optimization_results, zs.load_optimization_results, optx, None),
    "raw": (None, jload, raw, None),
    "timing": (None, jload, timing, None),
    "noise": (lambda v, p: zu.save_noise_model(v, "steplib", "noise_of", p), lambda p: jload(p)["data"], lambda v: [num(x) for x in v], None),
    "par": (None, None, lambda v: v, None),
}


def enc(kind, obj):
    x = json.dumps(K[kind][2](obj), sort_keys=True)
    s = K[kind][3]
    try:
        return {"t": kind, "x": x, "s": s(obj) if s else []}
    except Bad:
        raise
    except Exception as e:
        raise Bad("%s: %r" % (kind, e))


class Arg:
    """A step argument: what is passed, how the trace names it, the object it means."""

    def __init__(self, py, rec, kind, obj):
        self.py, self.rec, self.kind, self.obj = py, rec, kind, obj


class World:
    def __init__(self, rng, d):
        self.rng, self.d, self.mem, self.ev, self.k, self.used = rng, d, {}, [], 0, set()

    def bytes(self):
        r = {}
        for f in os.listdir(self.d):
            with open(os.path.join(self.d, f), "rb") as h:
                r[f] = h.read()
        return r

    def put(self, kind, obj):
        self.k += 1
        f = "new%d.json" % self.k
        g = self.rng.choice(["in%d.json" % self.k, "in%d.json" % self.rng.randrange(3), "circuit.json", "qubit-operator.json", "params.json"])
        f = f if g in self.used else g
        K[kind][0](obj, f)
        self.mem[f] = (kind, obj)
        self.ev.append({"op": "put", "f": f, "v": enc(kind, obj)})
        return f

    def arg(self, kind, how="fo", cond=lambda o: True, new=False):
        """An argument of a kind: a file (f), an object (o), a dictionary (d)."""
        rng, h = self.rng, self.rng.choice(how)
        files = [] if new else [f for f, (k, o) in self.mem.items() if k == kind and cond(o)]
        if h == "f":
            f = rng.choice(files) if files and rng.random() < 0.75 else self.put(kind, gen(kind, rng, cond))
            self.used.add(f)
            return Arg(f, {"file": [f], "v": []}, kind, self.mem[f][1])
        o = self.mem[rng.choice(files)][1] if files and rng.random() < 0.6 else gen(kind, rng, cond)
        rec = {"file": [], "v": [enc(kind, o)]}
        if h == "d":
            return Arg(cz.to_dict(o) if kind == "circ" else of.convert_qubitop_to_dict(o), rec, kind, o)
        return Arg(copy.deepcopy(o), rec, kind, o)


def par(v):
    return Arg(v, {"file": [], "v": [{"t": "par", "x": json.dumps(v, sort_keys=True), "s": []}]}, "par", v)


# ---- values ----------------------------------------------------------------------------------------------
def gen(kind, rng, cond=lambda o: True):
    for _ in range(200):
        o = gen1(kind, rng)
        if cond(o):
            return o
    raise NoValue(kind)


class NoValue(Exception):
    """No value of this kind meets the condition here."""


def gcirc(rng, free):
    n = rng.randint(1, 3)
    syms = [sympy.Symbol(s) for s in ("theta_0", "theta_1", "b", "a")]
    g = []
    for _ in range(rng.randint(0, 5)):
        q = rng.randrange(n)
        r = rng.random()
        if r < 0.3 and n > 1:
            g.append(rng.choice([cz.CNOT, cz.CZ, cz.SWAP])(*rng.sample(range(n), 2)))
        elif r < 0.6:
            g.append(rng.choice([cz.X, cz.H, cz.Y, cz.Z, cz.S, cz.T])(q))
        else:
            g.append(rng.choice([cz.RX, cz.RZ, cz.RY])(rng.choice(syms) if free else rng.choice([0.5, 1.25, -0.75]))(q))
    return cz.Circuit(g, n_qubits=rng.choice([None, n, n]))


def dy(rng):
    return rng.choice([1.0, -1.0, 0.5, 2.0, -0.25, 3.0, 0.75])


def gop(rng, acts="XYZ", nq=3, zero=True):
    o = QubitOperator()
    for _ in range(rng.randint(0 if zero else 1, 5)):
        o += QubitOperator(tuple((q, rng.choice(acts)) for q in sorted(rng.sample(range(nq), rng.randint(0, nq)))), dy(rng))
    return o


def giop(rng, n):
    cplx = rng.random() < 0.4
    one, two = np.zeros((n, n), dtype=complex if cplx else float), np.zeros((n,) * 4, dtype=complex if cplx else float)
    for _ in range(rng.randint(0, n * 2)):
        p, q, v = rng.randrange(n), rng.randrange(n), dy(rng)
        v = v + 1j * dy(rng) if cplx and p != q else v
        one[p, q], one[q, p] = v, np.conj(v)
    for _ in range(rng.randint(0, 6)):
        p, q, r, s, v = (*[rng.randrange(n) for _ in range(4)], dy(rng))
        if n >= 4 and rng.random() < 0.6:
            p, q, r, s = rng.sample([2, 3], 2) + rng.sample([0, 1], 2)
        v = v + 1j * dy(rng) if cplx and (p, q) != (s, r) else v
        two[p, q, r, s], two[s, r, q, p] = v, np.conj(v)
    return InteractionOperator(dy(rng), one, two)


def gen1(kind, rng):
    if kind == "circ":
        return gcirc(rng, rng.random() < 0.5)
    if kind == "cset":
        return [gcirc(rng, False) for _ in range(rng.randint(0 if rng.random() < 0.2 else 1, 3))]
    if kind == "arr":
        return np.array([rng.choice([0.5, 1.25, -0.75, 2.0, 0.1]) for _ in range(rng.randint(1, 4))])
    if kind == "op":
        return gop(rng, rng.choice(["XYZ", "Z"]))
    if kind == "ops":
        return [gop(rng, "XYZ", zero=False) for _ in range(rng.randint(1, 3))]
    if kind == "iop":
        return giop(rng, rng.choice([4, 4, 4, 2, 6]))
    if kind == "rdm":
        n = 2
        return InteractionRDM(np.array([[dy(rng) for _ in range(n)] for _ in range(n)]), np.array([dy(rng) for _ in range(n ** 4)]).reshape((n,) * 4))
    if kind == "ev":
        return ExpectationValues(np.array([rng.choice([0.5, -0.25, 0.75, 0.0, 0.125]) for _ in range(rng.randint(1, 8))]))
    if kind == "meas":
        n = rng.randint(1, 3)
        return Measurements([tuple(rng.randrange(2) for _ in range(n)) for _ in range(rng.randint(2, 6))])
    if kind == "list":
        return [rng.choice([0.5, 0.25, 1.0]) for _ in range(2)]
    if kind == "noise":
        return [rng.randrange(3) for _ in range(rng.randint(0, 2))]
    if kind == "conn":
        return layouts.CircuitConnectivity([(i, i + 1) for i in rng.sample(range(3), rng.randint(0, 2))])
    raise RuntimeError(kind)


def bound(c):
    return not c.free_symbols


def nonempty(c):
    return c.n_qubits >= 1


def diag(o):
    return all(a == "Z" for t in o.terms for _, a in t)


def width(o):
    return of.count_qubits(o) if o.terms else 0


# ---- specs ------------------------------------------------------------------------------------------------
def spec(rng, d, strings=True):
    """The same specs as a dictionary or as text."""
    return json.dumps(d) if strings and rng.random() < 0.4 else d


def backend_spec(rng, w, exact=False):
    """specs, options (arguments), a function making the backend in memory, the files it adds"""
    name = rng.choice(["SymbolicSimulator", "NoisyBackend", "CountingBackend"])
    mod = "zquantum.core.symbolic_simulator" if name == "SymbolicSimulator" else "steplib"
    d = {"module_name": mod, "function_name": name, "seed": rng.choice([0, rng.randrange(1000), rng.randrange(1000)])}
    track = rng.random() < 0.4 and not exact
    t = {}
    if track:
        t = {"track_measurements": True}
        if rng.random() < 0.7:
            t["raw_data_file_name"] = rng.choice(["raw_data.json", "tracked.json"])
        if rng.random() < 0.6:
            t["record_bitstrings"] = rng.random() < 0.7
    elif rng.random() < 0.2:
        t = {"track_measurements": False}

    def make(**kw):
        b = getattr(L, name)(seed=d["seed"], **kw) if name != "SymbolicSimulator" else SymbolicSimulator(seed=d["seed"], **kw)
        if track:
            b = MeasurementTrackingBackend(b, os.path.join(w.side, "raw"), record_bitstrings=t.get("record_bitstrings"))
        return b
    out = [(t.get("raw_data_file_name", "raw_data.json"), "raw")] if track else []
    return spec(rng, {**d, **t}), make, out, name


EST = {"module_name": "zquantum.core.estimation"}


def estimation(rng):
    """argument (or None) and the function it means"""
    r = rng.random()
    if r < 0.35:
        return None, estimate_expectation_values_by_averaging
    if r < 0.7:
        return spec(rng, dict(EST, function_name="calculate_exact_expectation_values")), calculate_exact_expectation_values
    return spec(rng, dict(EST, function_name="estimate_expectation_values_by_averaging")), estimate_expectation_values_by_averaging


def preprocessors(rng, group, prior=None):
    from functools import partial
    specs, fns = [], []
    if group:
        if rng.random() < 0.5:
            b = rng.random() < 0.5
            specs.append(dict(EST, function_name="group_greedily", sort_terms=b))
            fns.append(partial(group_greedily, sort_terms=b))
        else:
            specs.append(dict(EST, function_name="group_individually"))
            fns.append(group_individually)
    if rng.random() < 0.4:
        specs.append(dict(EST, function_name="allocate_shots_proportionally", total_n_shots=30))
        fns.append(partial(allocate_shots_proportionally, total_n_shots=30, **({} if prior is None else {"prior_expectation_values": prior})))
    else:
        n = rng.randint(2, 9)
        specs.append(dict(EST, function_name="allocate_shots_uniformly", number_of_shots=n))
        fns.append(partial(allocate_shots_uniformly, number_of_shots=n))
    return [spec(rng, s) for s in specs], fns


def ansatz_spec(rng, op=None):
    n = rng.randint(1, 3)
    name = rng.choice(["StepAnsatz", "QAOAFarhiAnsatz"] if op is not None else ["StepAnsatz", "FixedAnsatz"])
    d = {"module_name": "steplib", "function_name": name, "number_of_layers": n}
    if name == "QAOAFarhiAnsatz":
        return d, lambda o: L.QAOAFarhiAnsatz(n, o)
    return dict(d, qubits=2), lambda o: getattr(L, name)(n, 2)


# ---- the steps: (name, call, inputs, library function of the inputs, files written) ------------------------------
def S(name, call, ins, lib, outs, sem=None, fail=False):
    return {"name": name, "call": call, "ins": ins, "lib": lib, "outs": outs, "sem": sem, "fail": fail}


def o_params(w, rng):
    a, b = rng.choice([(None, None), (-1.0, 2.0)])
    seed = rng.choice([None, 0, 5, 17])
    kw = {} if a is None else {"min_value": a, "max_value": b}
    if seed is not None:
        kw["seed"] = seed
    lo, hi = (-np.pi * 0.5, np.pi * 0.5) if a is None else (a, b)

    def lib(n, _):
        if seed is not None:
            np.random.seed(seed)
        return [np.random.uniform(lo, hi, n)]
    r = rng.random()
    if r < 0.15:
        return S("generate_random_ansatz_params", lambda **k: s_circ.generate_random_ansatz_params(**k), {}, None, [], fail=True)
    if r < 0.6:
        n = rng.randint(0, 4)
        return S("generate_random_ansatz_params", lambda **k: s_circ.generate_random_ansatz_params(number_of_parameters=n, **kw), {"n": par(n), "o": par(kw)}, lib, [("params.json", "arr")])
    d, mk = ansatz_spec(rng)
    sp = spec(rng, d)
    return S("generate_random_ansatz_params", lambda **k: s_circ.generate_random_ansatz_params(ansatz_specs=sp, **kw), {"n": par(d), "o": par(kw)}, lambda n, o: lib(mk(None).number_of_params, o), [("params.json", "arr")])


def o_combine(w, rng):
    return S("combine_ansatz_params", lambda params1, params2: s_circ.combine_ansatz_params(params1, params2), {"params1": w.arg("arr", "f"), "params2": w.arg("arr", "f")}, None, [("combined-params.json", "arr")], sem="cat")


def o_ansatz(w, rng):
    d, mk = ansatz_spec(rng)
    sp, n = spec(rng, d), d["number_of_layers"]
    a = mk(None)
    if rng.random() < 0.35:
        if not a.supports_parametrized_circuits:
            return S("build_ansatz_circuit", lambda d: s_circ.build_ansatz_circuit(sp), {"d": par(d)}, None, [], fail=True)
        return S("build_ansatz_circuit", lambda d: s_circ.build_ansatz_circuit(sp), {"d": par(d)}, lambda d: [mk(None).parametrized_circuit], [("circuit.json", "circ")])
    p = w.arg("arr", "fo", cond=lambda x: len(x) == n)
    if not isinstance(p.py, str) and rng.random() < 0.5:
        p.py = [float(x) for x in p.py]
    return S("build_ansatz_circuit", lambda d, params: s_circ.build_ansatz_circuit(sp, params), {"d": par(d), "params": p}, lambda d, p: [mk(None).get_executable_circuit(np.array(p))], [("circuit.json", "circ")])


def o_layers(w, rng):
    t = rng.choice([None, "nearest-neighbor", "sycamore"])
    x = rng.randint(2, 4)
    y = rng.randint(2, 3) if t == "sycamore" or rng.random() < 0.3 else None
    kw = {} if t is None else {"layer_type": t}
    if y is not None:
        kw["y_dimension"] = y

    def lib(x, kw):
        c, l = layouts.build_circuit_layers_and_connectivity(x, y, t or "nearest-neighbor")
        return [l, c]
    return S("build_circuit_layers_and_connectivity", lambda x, kw: s_circ.build_circuit_layers_and_connectivity(x, **kw), {"x": par(x), "kw": par(kw)}, lib, [("circuit-layers.json", "layers"), ("circuit-connectivity.json", "conn")])


def o_rcirc(w, rng):
    n, g, s = rng.randint(1, 4), rng.randint(0, 6), rng.randrange(1000)
    return S("create_random_circuit", lambda n, g, s: s_circ.create_random_circuit(n, g, s), {"n": par(n), "g": par(g), "s": par(s)}, lambda n, g, s: [cz.create_random_circuit(n, g, rng=np.random.default_rng(s))], [("circuit.json", "circ")])


def o_ancilla(w, rng):
    k = rng.randint(0, 3)
    return S("add_ancilla_register_to_circuit", lambda k, circuit: s_circ.add_ancilla_register_to_circuit(k, circuit), {"k": par(k), "circuit": w.arg("circ")}, lambda k, c: [cz.add_ancilla_register(c, k)], [("extended-circuit.json", "circ")])


def o_concat(w, rng):
    return S("concatenate_circuits", lambda circuit_set: s_circ.concatenate_circuits(circuit_set), {"circuit_set": w.arg("cset", "fo")}, None, [("result-circuit.json", "circ")], sem="concat")


def o_batch(w, rng):
    ins = {}
    if rng.random() < 0.7:
        ins["circuit_set"] = w.arg("cset", "fo")
    n = rng.randint(0, 3)
    for i in range(n):
        ins["c%d" % i] = w.arg("circ", "fo")

    def call(circuit_set=None, **cs):
        l = [cs["c%d" % i] for i in range(n)]
        s_circ.batch_circuits(l, circuit_set) if circuit_set is not None or rng.random() < 0.5 else s_circ.batch_circuits(l)
        if len(l) != n:
            raise Bad("argument changed")
    return S("batch_circuits", call, ins, None, [("circuit-set.json", "cset")], sem="batch0" if "circuit_set" not in ins else "batch")


def o_evalp(w, rng):
    c = w.arg("circ")
    n = len(c.obj.free_symbols)
    if n == 0:
        p = w.arg("arr", "o", cond=lambda x: True)
    p = w.arg("arr", "fo", cond=lambda x: len(x) == n) if n else Arg(np.array([]), {"file": [], "v": [enc("arr", np.array([]))]}, "arr", np.array([]))
    return S("evaluate_parametrized_circuit", lambda c, p: s_circ.evaluate_parametrized_circuit(c, p), {"c": c, "p": p}, lambda c, p: [c.bind(zu.create_symbols_map(c.free_symbols, np.array(p)))], [("evaluated-circuit.json", "circ")])


def tolist_sets(v):
    return [m.bitstrings for m in v]


def raws(w, outs):
    if not outs:
        return []
    p = os.path.join(w.side, "raw")
    return [jload(p)] if os.path.exists(p) else []


def hw(w, rng, kw, ins):
    """noise model and connectivity arguments"""
    mk = {}
    if rng.random() < 0.3:
        a = w.arg("noise", "f")
        ins["noise_model"], mk["noise_model"] = a, L.noise_of(a.obj)
    if rng.random() < 0.3:
        a = w.arg("conn", "f")
        ins["device_connectivity"], mk["device_connectivity"] = a, a.obj
    return mk


def o_run(w, rng):
    sp, mk, outs, name = backend_spec(rng, w)
    n = rng.randint(1, 6)
    ins = {"circuit": w.arg("circ", "fd", cond=lambda c: bound(c) and nonempty(c)), "n_samples": par(n)}
    kw = hw(w, rng, {}, ins)
    return S("run_circuit_and_measure", lambda **k: s_meas.run_circuit_and_measure(sp, **k), ins, lambda c, n, *_: (lambda m: [m] + raws(w, outs))(mk(**kw).run_circuit_and_measure(c, n)), [("measurements.json", "meas")] + outs)


def o_runset(w, rng):
    sp, mk, outs, name = backend_spec(rng, w)
    n = rng.randint(1, 6)
    ins = {"circuitset": w.arg("cset", "f", cond=lambda s: s and all(bound(c) and nonempty(c) for c in s)), "n_samples": par(n)}
    kw = hw(w, rng, {}, ins)
    return S("run_circuitset_and_measure", lambda **k: s_meas.run_circuitset_and_measure(sp, **k), ins, lambda s, n, *_: (lambda m: [tolist_sets(m)] + raws(w, outs))(mk(**kw).run_circuitset_and_measure(s, [n] * len(s))), [("measurements-set.json", "mset")] + outs)


def o_dist(w, rng):
    sp, mk, outs, name = backend_spec(rng, w)
    ins = {"circuit": w.arg("circ", "f", cond=lambda c: bound(c) and nonempty(c))}
    kw = hw(w, rng, {}, ins)
    return S("get_bitstring_distribution", lambda **k: s_meas.get_bitstring_distribution(sp, **k), ins, lambda c, *_: (lambda m: [m] + raws(w, outs))(mk(**kw).get_bitstring_distribution(c, None)), [("bitstring-distribution.json", "dist")] + outs)


def o_exp(w, rng):
    sp, mk, outs, name = backend_spec(rng, w)
    n = None if name == "CountingBackend" and not outs and rng.random() < 0.5 else rng.randint(2, 9)
    c = w.arg("circ", "fod", cond=lambda c: bound(c) and nonempty(c))
    o = w.arg("op", "fod", cond=lambda o: any(o.terms) and diag(o) and width(o) <= c.obj.n_qubits)
    kw = {} if n is None else {"n_samples": n}
    return S("get_expectation_values_for_qubit_operator", lambda circuit, qubit_operator, k: s_eval.get_expectation_values_for_qubit_operator(sp, circuit, qubit_operator, **kw), {"circuit": c, "qubit_operator": o, "k": par(kw)},
             lambda c, o, k: (lambda e: [e[0]] + raws(w, outs))(estimate_expectation_values_by_averaging(mk(), [EstimationTask(o, c, 7 if n is None else n)])), [("expectation-values.json", "ev")] + outs)


def isolated(o, n):
    """The lowest level among states of n particles is alone."""
    m = of.get_sparse_operator(o).toarray()
    k = width(o)
    idx = [i for i in range(2 ** k) if bin(i).count("1") == n]
    ev = np.linalg.eigvalsh(m[np.ix_(idx, idx)])
    return len(ev) == 1 or ev[1] - ev[0] > 1e-3


def o_rdm(w, rng):
    n = rng.randint(1, 3)
    o = w.arg("op", "fo", cond=lambda o: o.terms and max(n, 1) <= width(o) <= 3 and isolated(o, n))
    return S("get_ground_state_rdm_from_qubit_operator", lambda o, n: s_eval.get_ground_state_rdm_from_qubit_operator(o, n), {"o": o, "n": par(n)}, lambda o, n: [of.get_ground_state_rdm_from_qubit_op(o, n)], [("rdms.json", "rdm")])


def o_gs(w, rng):
    n = rng.randint(0, 3)
    o = w.arg("op", "fo", cond=lambda o: o.terms and max(n, 1) <= width(o) <= 3 and isolated(o, n))

    def lib(n, o):
        e, v = jw_get_ground_state_at_particle_number(qubit_operator_sparse(o), n)
        return [Wavefunction(v), zu.ValueEstimate(e)]
    return S("jw_get_ground_state_at_particle_number", lambda n, o: s_eval.jw_get_ground_state_at_particle_number(n, o), {"n": par(n), "o": o}, lib, [("ground-state.json", "wave"), ("value-estimate.json", "val")])


def o_evl(w, rng):
    o = w.arg("ops", "fo")
    n = sum(len(x.terms) for x in o.obj)
    e = w.arg("ev", "fo", cond=lambda e: len(e.values) == n) if n <= 8 else None
    if e is None:
        return None
    return S("evaluate_qubit_operator_list", lambda o, e: s_eval.evaluate_qubit_operator_list(o, e), {"o": o, "e": e}, lambda o, e: [of.evaluate_qubit_operator_list(o, e)], [("value-estimate.json", "val")])


def o_cost(w, rng):
    est, fn = estimation(rng)
    exact, group = fn is calculate_exact_expectation_values, rng.random() < 0.5
    sp, mk, outs, name = backend_spec(rng, w, exact)
    op = w.arg("op", "fo", cond=lambda o: len(o.terms) > 1 and width(o) <= 2 and (exact or group or diag(o)))
    asp, amk = ansatz_spec(rng, op)
    asp2 = spec(rng, asp)
    p = w.arg("arr", "f", cond=lambda x: len(x) == asp["number_of_layers"])
    ins = {"ansatz_parameters": p, "target_operator": op, "asp": par(asp)}
    kw = hw(w, rng, {}, ins)
    prior = None
    if rng.random() < 0.3:
        prior = w.arg("ev", "fo", cond=lambda e: len(e.values) == len(op.obj.terms))
        ins["prior_expectation_values"] = prior
    pres, fns = preprocessors(rng, group, prior and prior.obj)
    k2 = {"estimation_preprocessors_specs": pres}
    if est is not None:
        k2["estimation_method_specs"] = est
    base = {"module_name": "zquantum.core.cost_function", "function_name": "AnsatzBasedCostFunction"}
    fixed = rng.random() < 0.3
    if fixed:
        base["parameter_precision"], base["parameter_precision_seed"] = 0.25, 3
    csp = spec(rng, base)

    def lib(p, o, a, *_):
        cf = AnsatzBasedCostFunction(o, amk(o), mk(**kw), estimation_method=fn, estimation_preprocessors=fns, **({"parameter_precision": 0.25, "parameter_precision_seed": 3} if fixed else {}))
        return [cf(np.array(p))] + raws(w, outs)
    keep = json.dumps([sp, asp2, csp, pres, est])

    def call(asp, **k):
        s_meas.evaluate_ansatz_based_cost_function(asp2, sp, csp, **k, **k2)
        try:
            now = json.dumps([sp, asp2, csp, pres, est])
        except TypeError:
            raise Bad("specs changed")
        if now != keep:
            raise Bad("specs changed")
    return S("evaluate_ansatz_based_cost_function", call, ins, lib, [("value_estimate.json", "val")] + outs)


def o_group(w, rng):
    o = w.arg("ops", "f")
    n = sum(len(x.terms) for x in o.obj)
    ins = {"groups": o}
    if n <= 8 and rng.random() < 0.6:
        ins["expectation_values"] = w.arg("ev", "f", cond=lambda e: len(e.values) == n)
    return S("grouped_hamiltonian_analysis", lambda **k: s_meas.grouped_hamiltonian_analysis(**k), ins, lambda o, *e: [zh.estimate_nmeas_for_frames(o, *e)], [("hamiltonian_analysis.json", "nmeas")])


def o_rdmev(w, rng):
    r = w.arg("rdm", "f")
    n = len(r.obj.one_body_tensor)
    kw = rng.choice([{}, {"sort_terms": True}, {"sort_terms": False}])
    if rng.random() < 0.5:
        return S("expectation_values_from_rdms", lambda r, o, k: s_meas.expectation_values_from_rdms(r, o, **k), {"r": r, "o": w.arg("op", "f", cond=lambda o: o.terms and width(o) <= n), "k": par(kw)}, lambda r, o, k: [zh.get_expectation_values_from_rdms(r, o, **k)], [("expectation_values.json", "ev")])
    return S("expectation_values_from_rdms_for_qubitoperator_list", lambda r, o, k: s_meas.expectation_values_from_rdms_for_qubitoperator_list(r, o, **k), {"r": r, "o": w.arg("ops", "f", cond=lambda v: all(width(o) <= n for o in v)), "k": par(kw)}, lambda r, o, k: [zh.get_expectation_values_from_rdms_for_qubitoperator_list(r, o, **k)], [("expectation_values.json", "ev")])


def o_sumev(w, rng):
    m = w.arg("meas", "fo")
    n = len(m.obj.bitstrings[0])
    o = w.arg("op", "f", cond=lambda o: o.terms and diag(o) and width(o) <= n)
    kw = rng.choice([{}, {"use_bessel_correction": False}, {"use_bessel_correction": True}])
    if len(m.obj.bitstrings) < 2:
        kw = {"use_bessel_correction": False}
    return S("get_summed_expectation_values", lambda o, m, k: s_meas.get_summed_expectation_values(o, m, **k), {"o": o, "m": m, "k": par(kw)},
             lambda o, m, k: [sum_expectation_values(m.get_expectation_values(of.change_operator_type(o, IsingOperator), use_bessel_correction=k.get("use_bessel_correction", True)))], [("value-estimate.json", "val")])


def o_zero(w, rng):
    n = rng.choice([1, 2, 4, 8])
    return dict(S("get_local_zero_state_operator", lambda n: s_op.get_local_zero_state_operator(n), {"n": par(n)}, None, [("qubit-operator.json", "op")], sem="zero"), n=n)


def o_num(w, rng):
    n = rng.choice([2, 4, 6])
    a = [n] + rng.choice([[], [rng.randint(0, n)]])
    return S("get_fermion_number_operator", lambda a: s_op.get_fermion_number_operator(*a), {"a": par(a)}, lambda a: [of.get_fermion_number_operator(*a)], [("number-operator.json", "iop")])


def o_diag(w, rng):
    return S("get_diagonal_component", lambda o: s_op.get_diagonal_component(o), {"o": w.arg("iop")}, lambda o: list(of.get_diagonal_component(o)), [("diagonal-operator.json", "iop"), ("remainder-operator.json", "iop")])


def o_interp(w, rng):
    a, b = w.arg("op", "fo"), w.arg("op", "fo")
    if rng.random() < 0.15:
        eps = rng.choice([1.5, -0.5])
        return S("interpolate_qubit_operators", lambda a, b, e: s_op.interpolate_qubit_operators(a, b, e), {"a": a, "b": b, "e": par(eps)}, None, [], fail=True)
    eps = rng.choice([None, 0.0, 1.0, 0.25, 0.5, 0.75])
    d = S("interpolate_qubit_operators", lambda a, b, e: s_op.interpolate_qubit_operators(a, b, e) if e is not None else s_op.interpolate_qubit_operators(a, b), {"a": a, "b": b, "e": par(eps)}, None, [("qubit-operator.json", "op")], sem="interp")
    d["num"] = gz(0.5 if eps is None else eps)
    return d


def o_reorder(w, rng):
    o = w.arg("iop", "f")
    p = list(range(len(o.obj.one_body_tensor)))
    rng.shuffle(p)
    return S("reorder_fermionic_modes", lambda o, p: s_op.reorder_fermionic_modes(o, p), {"o": o, "p": par(p)}, lambda o, p: [zh.reorder_fermionic_modes(o, p)], [("reordered-operator.json", "iop")])


def o_h2(w, rng):
    return S("get_one_qubit_hydrogen_hamiltonian", lambda o: s_op.get_one_qubit_hydrogen_hamiltonian(o), {"o": w.arg("iop", "fo", cond=lambda o: len(o.one_body_tensor) >= 4)}, None, [("qubit-operator.json", "op")], sem="h2")


def o_inactive(w, rng):
    o = w.arg("iop", "f", cond=lambda o: len(o.one_body_tensor) >= 4)
    n = len(o.obj.one_body_tensor) // 2
    c = rng.choice([None, 0, 1])
    a = rng.choice([None] + list(range(1, n - (c or 0) + 1)))
    kw = {}
    if c is not None:
        kw["n_core"] = c
    if a is not None:
        kw["n_active"] = a
    return S("remove_inactive_orbitals", lambda o, k: s_op.remove_inactive_orbitals(o, **k), {"o": o, "k": par(kw)}, lambda o, k: [of.remove_inactive_orbitals(o, **k)], [("frozen-operator.json", "iop")])


def o_one(w, rng):
    c = [dy(rng) if rng.random() < 0.8 else 0.0 for _ in range(4)]
    d = S("create_one_qubit_operator", lambda c: s_op.create_one_qubit_operator(*c), {"c": par(c)}, None, [("qubit_operator.json", "op")], sem="one")
    d["nums"] = [gz(x) for x in c]
    return d


def o_groupop(w, rng):
    kw = rng.choice([{}, {"sort_terms": True}, {"sort_terms": False}])
    return S("group_comeasureable_terms_greedy", lambda o, k: s_op.group_comeasureable_terms_greedy(o, **k), {"o": w.arg("op", "fo"), "k": par(kw)}, lambda o, k: [zh.group_comeasureable_terms_greedy(o, **k)], [("grouped-operator.json", "ops")])


def o_catops(w, rng):
    return S("concatenate_qubit_operator_lists", lambda a, b: s_op.concatenate_qubit_operator_lists(a, b), {"a": w.arg("ops"), "b": w.arg("ops")}, None, [("concatenated-qubit-operators.json", "ops")], sem="cat")


def o_rop(w, rng):
    n, t = rng.randint(1, 3), rng.randint(1, 3)
    return S("create_random_qubitop", lambda n, t: s_op.create_random_qubitop(n, t), {"n": par(n), "t": par(t)}, lambda n, t: [create_random_qubitop(n, t)], [("qubit-operator.json", "op")])


def o_trans(w, rng):
    t = rng.choice(["Jordan-Wigner", "Bravyi-Kitaev", "Jordan-Wigner", "Bravyi-Kitaev", "Parity"])
    o = w.arg("iop")
    if t == "Parity":
        return S("transform_interaction_operator", lambda t, o: s_tr.transform_interaction_operator(t, o), {"t": par(t), "o": o}, None, [], fail=True)
    f = {"Jordan-Wigner": of.jordan_wigner, "Bravyi-Kitaev": lambda o: of.bravyi_kitaev(of.get_fermion_operator(o))}[t]
    return S("transform_interaction_operator", lambda t, o: s_tr.transform_interaction_operator(t, o), {"t": par(t), "o": o}, lambda t, o: [f(o), {"walltime": 0}], [("transformed-operator.json", "op"), ("timing.json", "timing")])


def o_ints(w, rng):
    kw = {"low": rng.choice([0, 3, -2]), "high": rng.choice([10, 5]), "size": rng.randint(0, 5)}
    if rng.random() < 0.3:
        kw["endpoint"] = True
    s = rng.choice([0, rng.randrange(1000), rng.randrange(1000)])
    return S("generate_random_list_of_integers", lambda s, k: s_ut.generate_random_list_of_integers(seed=s, **k), {"s": par(s), "k": par(kw)}, lambda s, k: [np.random.default_rng(s).integers(**k).tolist()], [("integers.json", "list")])


SAMPLERS = [
    (None, lambda: zg.constant_sampler(1)),
    ({"module_name": "zquantum.core.graph", "function_name": "constant_sampler", "value": 3}, lambda: zg.constant_sampler(3)),
    ({"module_name": "zquantum.core.graph", "function_name": "uniform_sampler"}, lambda: zg.uniform_sampler()),
    ({"module_name": "zquantum.core.graph", "function_name": "uniform_sampler", "min_value": 2.0, "max_value": 4.0}, lambda: zg.uniform_sampler(2.0, 4.0)),
    ({"module_name": "zquantum.core.graph", "function_name": "choice_sampler", "choices": [1, 5]}, lambda: zg.choice_sampler([1, 5])),
    ({"module_name": "steplib", "function_name": "counting_sampler", "start": 4}, lambda: L.counting_sampler(4)),
    ({"module_name": "steplib", "function_name": "counting_sampler"}, lambda: L.counting_sampler()),
]


def o_graph(w, rng):
    sm, mk = rng.choice(SAMPLERS)
    seed = rng.choice([None, 0, 7, 23])
    if rng.random() < 0.12:
        d = {"type_graph": rng.choice(["complete", "regular", "erdos_renyi"]), "num_nodes": 4, "degree": 2, "probability": 0.5, "random_weights": rng.random() < 0.5, "seed": 5}
        return S("generate_graph_from_specs", lambda d: s_graph.generate_graph_from_specs(json.dumps(d)), {"d": par(d)}, lambda d: [zg.generate_graph_from_specs(d)], [("graph.json", "graph")])
    name, args = rng.choice([("generate_random_graph_erdos_renyi", [rng.randint(1, 6), rng.choice([0.3, 0.7])]), ("generate_random_regular_graph", [rng.choice([4, 6]), rng.choice([1, 2, 3])]),
                             ("generate_complete_graph", [rng.randint(1, 5)]), ("generate_caveman_graph", [rng.randint(1, 3), rng.randint(1, 4)]), ("generate_ladder_graph", [rng.randint(1, 5)]), ("generate_barbell_graph", [rng.randint(2, 4)])])
    kw = {}
    if sm is not None:
        kw["sampler_specs"] = spec(rng, sm)
    if seed is not None:
        kw["seed"] = seed
    f = (lambda n, s, seed: zg.generate_random_graph_erdos_renyi(n, 1.0, s, seed)) if name == "generate_complete_graph" else getattr(zg, name)
    return S(name, lambda a, k: getattr(s_graph, name)(*a, **kw), {"a": par(args), "k": par(kw)}, lambda a, k: [f(*a, mk(), seed)], [("graph.json", "graph")])


def o_optim(w, rng):
    est, fn = estimation(rng)
    exact, group = fn is calculate_exact_expectation_values, rng.random() < 0.5
    sp, mk, outs, name = backend_spec(rng, w, exact)
    pres, fns = preprocessors(rng, group)
    o = {"module_name": "steplib", "function_name": "GridOptimizer", "step": rng.choice([0.25, 0.5])}
    ospec, omk = spec(rng, o), lambda: L.GridOptimizer(o["step"])
    keep = rng.choice([None, True, False])
    k2 = {"estimation_preprocessors_specs": pres}
    if est is not None:
        k2["estimation_method_specs"] = est
    if keep is not None:
        k2["keep_history"] = keep
    ck = {"estimation_method": fn, "estimation_preprocessors": fns}
    if rng.random() < 0.3:
        k2["parameter_precision"], k2["parameter_precision_seed"] = 0.25, 3
        ck.update(parameter_precision=0.25, parameter_precision_seed=3)
    outf = [("optimization-results.json", "opt"), ("optimized-parameters.json", "arr")] + outs
    op = w.arg("op", "fo", cond=lambda o: len(o.terms) > 1 and width(o) <= 2 and (exact or group or diag(o)))
    ins = {"target_operator": op}

    def pars(n):
        k = rng.randint(1, n - 1) if n > 1 and rng.random() < 0.4 else 0
        ins["initial_parameters"] = w.arg("arr", "fo", cond=lambda x: len(x) == n - k)
        a = ins["initial_parameters"]
        if not isinstance(a.py, str) and rng.random() < 0.4:
            a.py = [float(x) for x in a.py]
        if k:
            ins["fixed_parameters"] = w.arg("arr", "fo", cond=lambda x: len(x) == k)

    def fin(cf, p, dflt):
        r = omk().minimize(cf, np.array(p), dflt if keep is None else keep)
        return [r, r.opt_params] + raws(w, outs)
    if rng.random() < 0.5:
        c = w.arg("circ", "fo", cond=lambda c: 1 <= len(c.free_symbols) <= 3 and c.n_qubits >= max(1, width(op.obj)))
        ins["parametrized_circuit"] = c
        pars(len(c.obj.free_symbols))
        names = list(ins)

        def lib(*v):
            v = dict(zip(names, v))
            cf = get_ground_state_cost_function(v["target_operator"], v["parametrized_circuit"], mk(), fixed_parameters=v.get("fixed_parameters"), **ck)
            return fin(cf, v["initial_parameters"], True)
        return S("optimize_parametrized_circuit_for_ground_state_of_operator", lambda **k: s_opt.optimize_parametrized_circuit_for_ground_state_of_operator(optimizer_specs=ospec, backend_specs=sp, **k, **k2), ins, lib, outf)
    asp, amk = ansatz_spec(rng, op)
    if rng.random() < 0.25:
        asp = {"module_name": "steplib", "function_name": "WarmStartQAOAAnsatz", "number_of_layers": asp["number_of_layers"]}
        ins["thetas"] = w.arg("list", "f", cond=lambda v: len(v) == 2)
        amk = lambda o: L.WarmStartQAOAAnsatz(asp["number_of_layers"], o, np.array(ins["thetas"].obj))
    asp2 = spec(rng, asp)
    k3 = json.dumps([asp2, sp, pres])
    pars(asp["number_of_layers"])
    names = list(ins)

    def lib(*v):
        v = dict(zip(names, v))
        cf = AnsatzBasedCostFunction(v["target_operator"], amk(v["target_operator"]), mk(), fixed_parameters=v.get("fixed_parameters"), **ck)
        return fin(cf, v["initial_parameters"], False)

    def call(**k):
        s_opt.optimize_ansatz_based_cost_function(optimizer_specs=ospec, ansatz_specs=asp2, backend_specs=sp, **k, **k2)
        try:
            if json.dumps([asp2, sp, pres]) != k3:
                raise Bad("specs changed")
        except TypeError:
            raise Bad("specs changed")
    return S("optimize_ansatz_based_cost_function", call, ins, lib, outf)


STEPS = [o_params, o_combine, o_ansatz, o_layers, o_rcirc, o_ancilla, o_concat, o_batch, o_evalp, o_run, o_runset, o_dist, o_exp, o_rdm, o_gs, o_evl,
         o_cost, o_cost, o_group, o_rdmev, o_sumev, o_zero, o_num, o_diag, o_interp, o_reorder, o_h2, o_inactive, o_one, o_groupop, o_catops, o_rop, o_trans, o_ints, o_graph, o_graph, o_optim, o_optim]


def seeds(k):
    random.seed(k)
    np.random.seed(k)


class Quiet:
    def __enter__(self):
        self.o, sys.stdout = sys.stdout, open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


def step(w, rng, maker):
    w.used = set()
    try:
        st = maker(w, rng)
    except NoValue:
        st = None
    if st is None:
        return
    names = list(st["ins"])
    args = {k: st["ins"][k].py for k in names}
    missing = not st["fail"] and rng.random() < 0.05 and [k for k in names if st["ins"][k].rec["file"]]
    if missing:
        k = rng.choice(missing)
        args[k] = "nowhere.json"
        st["ins"][k].rec = {"file": ["nowhere.json"], "v": []}
    k0 = rng.randrange(10 ** 6)
    objs = [st["ins"][k].obj for k in names]
    before = {k: enc(st["ins"][k].kind, st["ins"][k].py)["x"] for k in names if st["ins"][k].kind != "par" and not isinstance(args[k], (str, dict))}
    lib = None
    with Quiet():
        if st["lib"] is not None and not missing:
            seeds(k0)
            if os.path.exists(os.path.join(w.side, "raw")):
                os.remove(os.path.join(w.side, "raw"))
            ok, lib = run_quiet(lambda: st["lib"](*[copy.deepcopy(o) for o in objs]), 60)
            if not ok:       # the library refuses these inputs: so must the step
                st, lib = dict(st, fail=True), None
        old = w.bytes()
        seeds(k0)
        ok, res = run_quiet(lambda: st["call"](**args), 60)
    new = w.bytes()
    changed = sorted(f for f in new if old.get(f) != new[f])
    gone = sorted(f for f in old if f not in new)
    e = {"op": "step", "name": st["name"], "ins": [st["ins"][k].rec for k in names], "fail": 1 if st["fail"] or missing else 0, "sem": [st["sem"]] if st["sem"] else [], "num": st.get("num", [0] * 6), "nums": st.get("nums", []), "n": st.get("n", 0),
         "outs": [f for f, _ in st["outs"]], "gone": gone}
    kinds = dict(st["outs"])
    if lib is not None:
        kinds_l = [k for _, k in st["outs"]]
        e["lib"] = [{"in": [enc(st["ins"][k].kind, o) for k, o in zip(names, objs)], "out": [enc(k, v) for k, v in zip(kinds_l, lib)]}]
    else:
        e["lib"] = []

    def view():
        for k, x in before.items():
            if enc(st["ins"][k].kind, st["ins"][k].py)["x"] != x:
                raise Bad("argument %s changed" % k)
        return [{"f": f, "v": enc(kinds[f], K[kinds[f]][1](f)) if f in kinds else {"t": "?", "x": "", "s": []}} for f in changed]
    seen = observe(view)
    e["after"] = seen["v"] if seen["k"] == "ok" else []
    e["out"] = {"k": "ok"} if ok and seen["k"] == "ok" else seen if ok else res
    # files the step has written are objects from now on: what the library made, or what is in the file
    if ok and e["out"]["k"] == "ok":
        for i, (f, k) in enumerate(st["outs"]):
            if f in changed or f in w.mem:
                try:
                    w.mem[f] = (k, lib[i] if lib is not None and k not in ("opt", "rdm", "wave", "val") else K[k][1](f))
                except Exception:
                    w.mem.pop(f, None)
    if not ok:
        for f in changed:
            w.mem.pop(f, None)
    w.ev.append(e)
    return e


def w01(out, rng):
    from zquantum.core.openfermion.linalg import jw_get_ground_state_at_particle_number  # noqa
    home = os.getcwd()
    base = tempfile.mkdtemp(prefix="steps")
    only = os.environ.get("W01_ONLY")
    try:
        for s in range(n_of(60)):
            d, side = os.path.join(base, "d%d" % s), os.path.join(base, "s%d" % s)
            os.mkdir(d), os.mkdir(side)
            os.chdir(d)
            w = World(rng, d)
            w.side = side
            order = [STEPS[(s * 9 + i) % len(STEPS)] for i in range(9)] + [rng.choice(STEPS) for _ in range(5)]
            rng.shuffle(order)
            for m in order:
                step(w, rng, m)
            os.chdir(home)
            out.session(w.ev, key="steps")
            shutil.rmtree(d), shutil.rmtree(side)
    finally:
        os.chdir(home)
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main({"W01": w01})
