"""Estimation tasks, shot allocation, estimators and cost functions: E01-E05."""
import warnings
import numpy as np
import sympy
from overrides import overrides
from qdrv import *
from zquantum.core import estimation as ze
from zquantum.core import hamiltonian as zh
from zquantum.core import cost_function as zf
from zquantum.core.gradients import finite_differences_gradient
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.backend import QuantumBackend
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues, Measurements
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.utils import scale_and_discretize

PAULIS = "XYZ"


def rand_f(rng, n, paulis=PAULIS, const=0.12):
    if rng.random() < const:
        return []
    k = rng.choice([1, 1, 2, 2, 3, n])
    return [[q, rng.choice(paulis)] for q in sorted(rng.sample(range(n), min(k, n)))]


def rand_ts(rng, n, k, paulis=PAULIS, coefs=(4, -4, 2, -2, 1, 3, -3, 8, 6), const=0.12):
    ts, seen = [], set()
    for _ in range(k * 4):
        f = rand_f(rng, n, paulis, const)
        if str(f) in seen:
            continue
        seen.add(str(f))
        ts.append({"c": rng.choice(coefs), "f": f})
        if len(ts) == k:
            break
    return ts


def shared_ts(rng, n, k, **kw):
    """Terms sharing a single-qubit basis."""
    basis = [rng.choice(PAULIS) for _ in range(n)]
    ts = rand_ts(rng, n, k, **kw)
    out, seen = [], set()
    for t in ts:
        f = [[q, basis[q]] for q, _ in t["f"]]
        if str(f) not in seen:
            seen.add(str(f))
            out.append({"c": t["c"], "f": f})
    return out


def qop(rng, ts, unit=4, cls=QubitOperator):
    """Operator with the given terms, in order; built in several ways."""
    op = cls()
    how = rng.random()
    for t in ts:
        c = t["c"] / unit
        r = rng.random()
        if r < 0.2 and t["c"] % unit == 0:
            c = t["c"] // unit
        elif r < 0.3:
            c = complex(c)
        elif r < 0.4:
            c = np.float64(c)
        if how < 0.4:
            op += cls(tuple((q, p) for q, p in t["f"]), c)
        elif how < 0.8:
            op += cls(" ".join("%s%d" % (p, q) for q, p in t["f"]), c)
        else:
            op = op + cls([(q, p) for q, p in reversed(t["f"])], c)
    return op


def enc_op(op, unit=4):
    ts = []
    for f, c in op.terms.items():
        ts.append({"c": rat(c, unit), "f": [[as_int(q), p] for q, p in f]})
    return ts


def id_circuit(i, n=2):
    """Circuits told apart by structure."""
    ops = [zc.X(0)] * (i % 3) + [zc.RX(0.25 * (i + 1))(i % n)] + [zc.CNOT(0, 1)] * (i % 2)
    return zc.Circuit(ops, n_qubits=n)


class Ids:
    def __init__(self, k, n=2):
        self.cs = [id_circuit(i, n) for i in range(k)]

    def of(self, c):
        for i, d in enumerate(self.cs):
            if c == d:
                return i
        raise Bad("unknown circuit")


def sh_in(s):
    return None if s == -1 else s


def sh_out(s):
    return -1 if s is None else as_int(s)


def mk_tasks(rng, tasks, ids, unit=4, cls=QubitOperator):
    r = []
    for t in tasks:
        op = qop(rng, t["t"], unit, cls)
        if rng.random() < 0.5:
            r.append(EstimationTask(op, ids.cs[t["id"]], sh_in(t["sh"])))
        else:
            r.append(EstimationTask(operator=op, circuit=ids.cs[t["id"]], number_of_shots=sh_in(t["sh"])))
    return r


def enc_tasks(ts, ids, unit=4):
    return [{"id": ids.of(t.circuit), "sh": sh_out(t.number_of_shots), "t": enc_op(t.operator, unit)} for t in ts]


def n_of(i):
    return THOROUGH * 12 * i + i


# ---------------------------------------------------------------------- E01
def e01(out, rng):
    for i in range(n_of(260)):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        k = rng.choice([1, 1, 2, 3])
        coefs = rng.choice([(4, -4, 2, -2, 1, 3, -3, 8, 6), (4, -4), (1, 2, 3, 4, 5, 6, 7, 8, 9, -1, -5, -9)])
        tasks = [{"id": j, "sh": rng.choice([-1, -1, 0, 1, 10, 1000]), "t": rand_ts(rng, n, rng.choice([1, 2, 3, 4, 5, 6]), coefs=coefs, const=rng.choice([0, 0.1, 0.3]))} for j in range(k)]
        ids = Ids(k, max(2, n))
        how = rng.choice(["ind", "greedy", "greedy", "sorted", "sorted"])

        def run():
            real = mk_tasks(rng, tasks, ids)
            if how == "ind":
                r = ze.group_individually(real)
            elif how == "greedy":
                r = rng.choice([lambda: ze.group_greedily(real), lambda: ze.group_greedily(real, False), lambda: frames("greedy")])()
            else:
                r = rng.choice([lambda: ze.group_greedily(real, True), lambda: ze.group_greedily(real, sort_terms=True), lambda: frames("greedy-sorted")])()

            def _enc(r):
                return {"res": enc_tasks(r, ids), "inp": enc_tasks(real, ids)}
            return _enc(r)

        def frames(name):
            real = mk_tasks(rng, tasks, ids)
            f = zh.get_decomposition_function(name)
            return [EstimationTask(g, t.circuit, t.number_of_shots) for t in real for g in f(t.operator)]
        out.one({"op": "group", "how": how, "tasks": tasks, "out": observe(run)})
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    lists = [[{"sh": x["sh"], "t": x["t"]} for x in g] for g in gen[:120 if not THOROUGH else 1500]]
    src = ["gen"] * len(lists)
    for _ in range(n_of(120)):
        lists.append([rand_task(rng) for _ in range(rng.randint(0, 6))])
        src.append("rand")
    for tl, sr in zip(lists, src):
        tasks = [{"id": j, "sh": t["sh"], "t": t["t"]} for j, t in enumerate(tl)]
        ids = Ids(len(tasks), 3)

        def run():
            real = mk_tasks(rng, tasks, ids)
            tm, tn, im, inn = ze.split_estimation_tasks_to_measure(real)
            return {"tm": enc_tasks(tm, ids), "tn": enc_tasks(tn, ids), "im": [as_int(x) for x in im], "in": [as_int(x) for x in inn]}
        out.session([{"op": "split", "tasks": tasks, "out": observe(run)}], src=sr)
        triv = [t for t in tasks if t["sh"] == 0 or (len(t["t"]) == 1 and not t["t"][0]["f"])]
        if triv:
            def run2():
                return enc_evs(ze.evaluate_non_measured_estimation_tasks(mk_tasks(rng, triv, ids)))
            out.session([{"op": "trivial", "tasks": triv, "out": observe(run2)}], src=sr)
    for _ in range(n_of(60)):
        f, g = rand_f(rng, 3), rand_f(rng, 3)
        out.one({"op": "comeas", "f": f, "g": g, "out": observe(lambda: as_bool(zh.is_comeasureable(tuple(map(tuple, f)), tuple(map(tuple, g)))))})
    for bad in ("Greedy", "", "greedy_sorted", "individual", None, "greedy-sorted "):
        out.one({"op": "reject", "what": "decomposition method", "out": observe(lambda: zh.get_decomposition_function(bad), lambda v: 0)})
    meas = EstimationTask(QubitOperator("Z0"), id_circuit(0), 5)
    out.one({"op": "reject", "what": "measurable task evaluated without measuring", "out": observe(lambda: ze.evaluate_non_measured_estimation_tasks([meas]), lambda v: 0)})


def rand_task(rng, n=3, paulis="Z"):
    r = rng.random()
    if r < 0.25:
        t = [{"c": rng.choice([4, -3, 1, 8]), "f": []}]
    else:
        t = rand_ts(rng, n, rng.choice([1, 1, 2, 3]), paulis=paulis, const=0.25)
    return {"sh": rng.choice([0, 0, -1, 1, 2, 5, 10]), "t": t}


def enc_evs(evs):
    r = []
    for e in evs:
        r.append({"vals": [rat(x, 4) for x in e.values], "corr": [imat(c, 16) for c in e.correlations], "cov": [imat(c, 16) for c in e.estimator_covariances]})
    return r


def imat(a, den):
    a = np.asarray(a)
    return [[rat(x, den) for x in row] for row in a]


# ---------------------------------------------------------------------- E02
NAMES = ["a", "b", "c"]


def e02(out, rng):
    for i in range(n_of(220)):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        if rng.random() < 0.85:
            ts = shared_ts(rng, n, rng.randint(1, 4))
        else:
            ts = rand_ts(rng, n, rng.randint(2, 4))
        e = {"op": "context", "n": n, "t": ts}

        def run():
            c, op = ze.get_context_selection_circuit_for_group(qop(rng, ts))
            if not isinstance(op, IsingOperator):
                raise Bad("not an IsingOperator")
            return {"ops": proj_circuit(c, NAMES)["ops"], "t": enc_op(op)}
        e["out"] = observe(run)
        out.one(e)
    for i in range(n_of(120)):
        n = rng.choice([2, 2, 3])
        k = rng.choice([0, 1, 2, 3])
        tasks = []
        for _ in range(k):
            tasks.append({"ops": [rand_sop(rng, n) for _ in range(rng.randint(0, 3))], "sh": rng.choice([-1, 0, 1, 50]), "t": shared_ts(rng, n, rng.randint(1, 3))})
        e = {"op": "persel", "n": n, "tasks": tasks}

        def run():
            real = [EstimationTask(qop(rng, t["t"]), zc.Circuit([real_sop(o, NAMES) for o in t["ops"]], n_qubits=n), sh_in(t["sh"])) for t in tasks]
            r = ze.perform_context_selection(real)
            return [{"ops": proj_circuit(x.circuit, NAMES)["ops"], "sh": sh_out(x.number_of_shots), "t": enc_op(x.operator)} for x in r]
        e["out"] = observe(run)
        out.one(e)


# ---------------------------------------------------------------------- E03
def isq(x):
    r = math.isqrt(x)
    return r if r * r == x else None


def wts(frames, prior):
    w, o = [], 0
    for t in frames:
        if prior is None:
            v = sum(x["c"] ** 2 for x in t if x["f"])
        else:
            v = sum(x["c"] ** 2 * (25 - prior[o + i] ** 2) for i, x in enumerate(t))
        o += len(t)
        r = isq(v)
        if r is None:
            return None
        w.append(r)
    return w


def rand_frames(rng, has):
    while True:
        fr, prior = [], []
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6])):
            for _ in range(300):
                k = rng.choice([1, 1, 1, 2, 2, 3, 4])
                t = rand_ts(rng, 3, k, coefs=(1, 2, 3, 4, 5, 6, -1, -2, -3, -4, 12), const=0.2)
                p = [rng.choice([0, 0, 3, 4, 5, -3, -4, -5, 1]) for _ in t]
                if wts([t], p if has else None) is not None:
                    break
            else:
                t, p = [{"c": 3, "f": [[0, "Z"]]}], [0]
            fr.append(t)
            prior += p
        w = wts(fr, prior if has else None)
        if w is not None and sum(w) > 0:
            return fr, prior


def ev_prior(rng, prior, has):
    if not has:
        return None
    v = np.array([p / 5 for p in prior])
    return ExpectationValues(v.astype(complex) if rng.random() < 0.2 else v)


def e03(out, rng):
    for i in range(n_of(60)):
        k = rng.randint(0, 4)
        tasks = [dict(id=j, **rand_task(rng)) for j in range(k)]
        N = rng.choice([1, 2, 5, 100, 10 ** 6, 0, -1, -100])
        ids = Ids(k, 3)
        out.one({"op": "uniform", "tasks": tasks, "N": N, "out": observe(lambda: enc_tasks(ze.allocate_shots_uniformly(mk_tasks(rng, tasks, ids), N), ids))})
    for i in range(n_of(200)):
        has = rng.choice([0, 0, 1])
        fr, prior = rand_frames(rng, has)
        N = rng.choice([0, -3, rng.randint(1, 9), rng.randint(1, 60), rng.randint(1, 60), rng.randint(100, 1000), 10 ** 4])
        r = rng.random()
        if has and r < 0.12:
            prior = prior + [0] if rng.random() < 0.5 else prior[:-1]
        elif has and r < 0.24:
            prior[rng.randrange(len(prior))] = rng.choice([6, -6, 10])
        tasks = [{"id": j, "sh": rng.choice([-1, 7]), "t": t} for j, t in enumerate(fr)]
        ids = Ids(len(fr), 3)

        def run():
            real = mk_tasks(rng, tasks, ids, 1)
            pv = ev_prior(rng, prior, has)
            if has:
                r = ze.allocate_shots_proportionally(real, N, pv) if rng.random() < 0.5 else ze.allocate_shots_proportionally(real, total_n_shots=N, prior_expectation_values=pv)
            else:
                r = ze.allocate_shots_proportionally(real, N)
            for t in r:
                if not isinstance(t.number_of_shots, (int, np.integer)):
                    raise Bad("shots are not an integer")
            return {"res": enc_tasks(r, ids, 1), "inp": enc_tasks(real, ids, 1)}
        out.one({"op": "prop", "tasks": tasks, "N": N, "has": has, "prior": prior if has else [], "out": observe(run)})
    for i in range(n_of(120)):
        w = [rng.choice([0, 1, 1, 2, 3, 5, 7, 10, rng.randint(0, 100)]) for _ in range(rng.randint(1, 8))]
        if sum(w) == 0:
            w[0] = 1
        N = rng.choice([0, 1, 2, 3, rng.randint(1, 50), rng.randint(1, 5000)])
        sc = rng.choice([1, 1.0, 0.1, 1 / 3, 1e-6, 7.0])

        def run():
            v = [x * sc for x in w]
            r = scale_and_discretize(np.array(v) if rng.random() < 0.4 else v, N)
            for x in r:
                if not isinstance(x, (int, np.integer)):
                    raise Bad("not an integer")
            return [as_int(x) for x in r]
        out.one({"op": "disc", "w": w, "N": N, "out": observe(run)})
    for i in range(n_of(120)):
        has = rng.choice([0, 1])
        fr, prior = rand_frames(rng, has)
        if has and rng.random() < 0.2:
            if rng.random() < 0.5:
                prior = prior + [0] if rng.random() < 0.5 else prior[:-1]
            else:
                prior[rng.randrange(len(prior))] = rng.choice([6, -6])
        den = 25 if has else 1
        cplx = rng.random() < 0.4

        def run():
            ops = [qop(rng, t, 1) for t in fr]
            for o in ops:       # the frames' "c" are the moduli (up to sign) of complex coefficients
                for t in o.terms:
                    if cplx and rng.random() < 0.7:
                        o.terms[t] = o.terms[t] * rng.choice([1j, -1j, 0.6 + 0.8j, -0.8 + 0.6j])
            before = [list(o.terms.items()) for o in ops]
            var = zh.compute_group_variances(ops, ev_prior(rng, prior, has))
            k2, nt, fm = zh.estimate_nmeas_for_frames(ops, ev_prior(rng, prior, has)) if has or rng.random() < 0.5 else zh.estimate_nmeas_for_frames(ops)
            if [list(o.terms.items()) for o in ops] != before:
                raise Bad("operators changed")
            return {"var": [rat(x, den) for x in var], "fm": [rat(x, den) for x in fm], "k2": rat(k2, den), "nt": as_int(nt)}
        out.one({"op": "nmeas", "frames": fr, "has": has, "prior": prior if has else [], "out": observe(run)})


# ---------------------------------------------------------------------- E04
class Scripted(QuantumBackend):
    """Returns prescribed outcomes per circuit and records what was asked for."""

    def __init__(self, ids, meas):
        super().__init__()
        self.ids, self.meas, self.req = ids, meas, []

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        i = self.ids.of(circuit)
        self.req.append([i, as_int(n_samples)])
        return Measurements([tuple(b) for b in self.meas[i]])


class ScriptedBatch(Scripted):
    supports_batching = True
    batch_size = 2

    def run_circuitset_and_measure(self, circuits, n_samples):
        super().run_circuitset_and_measure(circuits, n_samples)
        r = []
        for c, k in zip(circuits, n_samples):
            i = self.ids.of(c)
            self.req.append([i, as_int(k)])
            r.append(Measurements([tuple(b) for b in self.meas[i]]))
        return r


def e04(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    lists = [[{"sh": x["sh"], "t": x["t"]} for x in g] for g in gen[:130 if not THOROUGH else 1555]]
    src = ["gen"] * len(lists)
    for _ in range(n_of(150)):
        tl = [rand_task(rng) for _ in range(rng.randint(0, 6))]
        for t in tl:
            if t["sh"] == -1:
                t["sh"] = rng.choice([1, 3, 8])
        lists.append(tl)
        src.append("rand")
    for tl, sr in zip(lists, src):
        tasks = [{"id": j, "sh": t["sh"], "t": t["t"]} for j, t in enumerate(tl)]
        ids = Ids(len(tasks), 3)
        pool = [[rng.randint(0, 1) for _ in range(3)] for _ in range(5)]
        # the number of outcomes may differ from the number of shots (a backend may round up)
        meas = [[list(rng.choice(pool)) for _ in range(max(1, t["sh"] + rng.choice([0, 0, 0, 1])))] for t in tasks]
        cls = rng.choice([QubitOperator, IsingOperator])
        be = rng.choice([Scripted, ScriptedBatch])
        e = {"op": "avg", "tasks": tasks, "meas": meas}

        def run():
            b = be(ids, meas)
            r = ze.estimate_expectation_values_by_averaging(b, mk_tasks(rng, tasks, ids, 4, cls))
            res = []
            for t, m, x in zip(tasks, meas, r):
                if x is None:
                    raise Bad("no value")
                N = len(m)
                if len(t["t"]) == 1 and not t["t"][0]["f"] or t["sh"] == 0:
                    N = 1
                res.append({"vals": [rat(v, 4 * N) for v in x.values], "corr": [imat(c, 16 * N) for c in x.correlations], "cov": [imat(c, 16 * N ** 3) for c in x.estimator_covariances]})
            if len(r) != len(tasks):
                raise Bad("%d results" % len(r))
            return {"res": res, "req": b.req}
        e["out"] = observe(run)
        out.session([e], src=sr)
    for _ in range(n_of(90)):
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 2, 3])
            while True:
                ops = rand_ops(rng, n, rng.randint(1, 4), custom=True)
                if affordable(ops, 60):
                    break
            ising = rng.random() < 0.3
            tasks.append({"n": n, "ops": ops, "t": rand_ts(rng, n, rng.randint(1, 3), paulis="Z" if ising else PAULIS), "ising": int(ising)})

        def run():
            sim = SymbolicSimulator()
            real = [EstimationTask(qop(rng, t["t"], 4, IsingOperator if t["ising"] else QubitOperator), real_circuit(t["ops"], t["n"]), rng.choice([None, 0, 5])) for t in tasks]
            r = ze.calculate_exact_expectation_values(sim, real)
            res = []
            for t, x in zip(tasks, r):
                h, m = ops_cost(t["ops"])
                if np.iscomplexobj(x.values):
                    raise Bad("complex values")
                res.append([ring(v, 2 * h + 3, 2 * m, 6.0) for v in x.values])
            if len(r) != len(tasks):
                raise Bad("%d results" % len(r))
            return res
        out.one({"op": "exact", "tasks": tasks, "out": observe(run)})
    for _ in range(n_of(120)):
        k = rng.choice([0, 1, 2, 3, 3])
        n = rng.choice([1, 2, 3])
        tasks = [{"n": n, "ops": [rand_sop(rng, n, numeric=0.2) for _ in range(rng.randint(0, 4))], "sh": rng.choice([-1, 0, 4]), "t": rand_ts(rng, n, rng.randint(1, 2))} for _ in range(k)]
        form = rng.choice(["list", "list1", "dict"])

        def rand_map():
            d = []
            for s in (1, 2, 3):
                if rng.random() < 0.75:
                    d.append([s, {"k": rand_angle(rng, True), "t": [] if rng.random() < 0.8 else [[2, rng.choice([1, 2, 3])]]}])
            return d
        maps = [rand_map() for _ in range(k if form == "list" and k != 1 else 1)]
        if form == "list" and k == 0:
            maps = [rand_map()]

        def run():
            real = [EstimationTask(qop(rng, t["t"]), zc.Circuit([real_sop(o, NAMES) for o in t["ops"]], n_qubits=t["n"]), sh_in(t["sh"])) for t in tasks]
            ms = [{sympy.Symbol(NAMES[s - 1]): real_lin(v, NAMES) for s, v in m} for m in maps]
            r = ze.evaluate_estimation_circuits(real, ms[0] if form == "dict" else ms)
            return [{"c": proj_circuit(x.circuit, NAMES), "sh": sh_out(x.number_of_shots), "t": enc_op(x.operator)} for x in r]
        out.one({"op": "evalc", "tasks": tasks, "maps": maps, "form": form, "out": observe(run)})


# ---------------------------------------------------------------------- E05
class SopAnsatz(Ansatz):
    """An ansatz whose circuit is a given symbolic program."""
    supports_parametrized_circuits = True

    def __init__(self, ops, n, names, key=None, order=None):
        super().__init__(1)
        self.ops, self.n, self.names, self.key, self.order = ops, n, names, key, order

    @property
    @overrides
    def number_of_qubits(self):
        return self.n

    @property
    @overrides
    def symbols_sort_key(self):
        return self.key or super().symbols_sort_key

    @overrides
    def _generate_circuit(self, params=None):
        c = zc.Circuit([real_sop(o, self.names) for o in self.ops], n_qubits=self.n)
        if params is None:
            return c
        return c.bind({sympy.Symbol(self.names[i]): p for i, p in zip(self.order, params)})


POOLS = [["theta_0", "theta_1", "theta_2", "theta_10"], ["a", "B", "c", "D"], ["gamma_0", "beta_0", "gamma_1", "beta_1"], ["x", "x1", "x10", "x2"], ["z", "y", "x", "w"]]


def used(ops):
    return sorted({s for o in ops for p in o["p"] for _, s in p["t"]})


def bound_cost(ops, val):
    num = []
    for o in ops:
        ps = []
        for p in o["p"]:
            a = list(p["k"])
            for c, s in p["t"]:
                a = [a[0] + abs(c * val[s][0]), abs(a[1]) + abs(c * val[s][1])]
            ps.append(a)
        num.append({"n": o["n"], "p": ps, "w": o["w"], "q": o["q"]})
    return ops_cost(num)


def aside(rng):
    """Preprocessor adding tasks of total value zero, on circuits with fewer symbols, before, between or after the others."""
    def pre(tasks):
        c = tasks[0].circuit
        part = lambda: zc.Circuit(c.operations[:rng.randint(0, len(c.operations))], n_qubits=c.n_qubits)
        v = rng.choice([1.0, -2.5])
        new = [EstimationTask(QubitOperator((), v), part(), None), EstimationTask(QubitOperator((), -v), part(), None)]
        if rng.random() < 0.3:
            new = [EstimationTask(QubitOperator("Z0", 0.0), part(), 3)]
        r = list(tasks)
        for t in new:
            r.insert(rng.choice([0, 0, len(r)]), t)
        return r
    return pre


def rand_chain(rng):
    chain, ctx = rand_chain0(rng)
    return ((chain or []) + [aside(rng)] if rng.random() < 0.3 else chain), ctx


def rand_chain0(rng):
    r = rng.random()
    if r < 0.35:
        return None if rng.random() < 0.5 else [], False
    g = rng.choice([ze.group_individually, ze.group_greedily, lambda t: ze.group_greedily(t, sort_terms=True)])
    if r < 0.6:
        return [g], False
    if r < 0.9:
        return [g, ze.perform_context_selection], True
    return [g, ze.group_individually, ze.perform_context_selection, lambda t: ze.allocate_shots_uniformly(t, 7)], True


def e05(out, rng):
    for _ in range(n_of(130)):
        n = rng.choice([1, 2, 2, 3])
        names = list(rng.choice(POOLS))
        rng.shuffle(names)
        while True:
            ops = [rand_sop(rng, n, numeric=0.15, nsym=4, custom=rng.random() < 0.3) for _ in range(rng.randint(1, 4))]
            us = used(ops)
            if not us:
                continue
            q = lambda: [2 * rng.randint(-3, 4), 0] if rng.random() < 0.75 else [2 * rng.randint(-2, 2), 2]
            fixed = [q() for _ in range(rng.choice([0, 0, 0, 1, len(us)]))]
            fixed = fixed[:len(us)]
            pts = [[q() for _ in range(len(us) - len(fixed))] for _ in range(rng.choice([1, 2, 3]))]
            worst = [0, 0]
            for p in pts:
                for perm in (fixed + p,):
                    qs = [max(abs(x[1]) for x in perm)] * 5
                    h, m = bound_cost(ops, {s: [2, qs[0]] for s in us})
                    worst = [max(worst[0], h), max(worst[1], m)]
            if 2 ** worst[0] * 5 ** worst[1] <= 60:
                break
        h, m = worst
        h = max(h, (sum(2 for _ in ops) + 1) // 2)
        ts = rand_ts(rng, n, rng.randint(1, 4))
        kind = rng.choice(["expval", "expval", "subst", "subst", "dynamic", "abcf", "gscf"])
        e = {"op": "cost", "kind": kind, "n": n, "ops": ops, "names": [[ord(ch) for ch in x] for x in names], "ranks": [0] * 4, "pts": pts, "fixed": fixed, "t": ts, "key": "str"}
        key = None
        if kind in ("subst", "abcf"):
            e["key"] = "rev"
        if kind in ("expval", "gscf", "subst", "abcf") and rng.random() < 0.4:
            ranks = list(range(4))
            rng.shuffle(ranks)
            e["key"], e["ranks"] = "rank", ranks
            key = lambda s: ranks[names.index(str(s))]
        if kind in ("expval", "gscf") and key is None and rng.random() < 0.3:
            e["key"], key = "nat", zc.natural_key
        if kind == "dynamic":
            e["key"], e["ranks"] = "rank", [0, 1, 2, 3]
        chain, ctx = rand_chain(rng)

        def run():
            be = SymbolicSimulator()
            op = qop(rng, ts)
            circ = zc.Circuit([real_sop(o, names) for o in ops], n_qubits=n)
            ans = SopAnsatz(ops, n, names, key, [s - 1 for s in us])
            exact = ze.calculate_exact_expectation_values
            fp = np.array([angle(x) for x in fixed])
            kw = {}
            if kind in ("abcf", "gscf"):
                if fixed or rng.random() < 0.2:
                    kw["fixed_parameters"] = fp
                if chain is not None or rng.random() < 0.5:
                    kw["estimation_preprocessors"] = chain
                if kind == "gscf" and key is not None:
                    kw["symbols_sort_key"] = key
                f = (zf.AnsatzBasedCostFunction(op, ans, be, exact, **kw) if kind == "abcf"
                     else zf.get_ground_state_cost_function(op, circ, be, exact, **kw))
            else:
                fk = {"estimation_preprocessors": chain} if chain is not None or rng.random() < 0.5 else {}
                if kind == "expval":
                    if key is not None:
                        fk["symbols_sort_key"] = key
                    fac = zf.expectation_value_estimation_tasks_factory(op, circ, **fk)
                elif kind == "subst":
                    fac = zf.substitution_based_estimation_tasks_factory(op, ans, **fk)
                else:
                    fac = zf.dynamic_circuit_estimation_tasks_factory(op, ans, **fk)
                if fixed:
                    kw["parameter_preprocessors"] = [zf.fix_parameters(fp)] if len(fp) < 2 or rng.random() < 0.5 else [zf.fix_parameters(fp[1:]), zf.fix_parameters(fp[:1])]
                f = zf.create_cost_function(be, fac, estimation_method=exact, **kw)
            vals, prec, inp, grad = [], 0, 1, 1
            for p in pts:
                x = np.array([angle(a) for a in p])
                y = x.copy()
                v = f(x)
                if not np.array_equal(x, y):
                    inp = 0
                if getattr(v, "precision", None) is not None:
                    prec = 1
                vals.append(ring(getattr(v, "value", v), 2 * h + 3, 2 * m, 12.0))
            if kind != "abcf" and pts[0] and rng.random() < 0.3:
                x = np.array([angle(a) for a in pts[0]])
                g = f.gradient(x)
                g2 = finite_differences_gradient(f)(x)
                if g.shape != x.shape or not np.allclose(g.astype(float), g2.astype(float), atol=1e-9):
                    grad = 0
            return {"vals": vals, "prec": prec, "input": inp, "grad": grad}
        e["out"] = observe(run)
        out.one(e)
    # --- fixed parameters and noise: what reaches the circuits
    for _ in range(n_of(90)):
        kind = rng.choice(["pp", "pp", "pp", "abcf", "gscf"])
        if kind == "pp":
            chain = [{"k": rng.choice(["fix", "noise"]), "v": [rng.randint(-9, 9) for _ in range(rng.randint(0, 3))]} for _ in range(rng.randint(0, 4))]
        else:
            chain = [{"k": "fix", "v": [rng.randint(-9, 9) for _ in range(rng.randint(0, 3))]}, {"k": "noise", "v": []}][:rng.choice([1, 2, 2])]
            if rng.random() < 0.2:
                chain = chain[1:]
        L = rng.randint(1, 4)
        calls = [[rng.randint(-9, 9) for _ in range(L)] for _ in range(rng.randint(1, 3))]
        seed = rng.choice([0, 1, rng.randint(0, 10 ** 6)])
        sd = rng.choice([1e-3, 1e-2])

        def run():
            def build():
                got = []
                ntot = L + sum(len(c["v"]) for c in chain if c["k"] == "fix")
                if kind == "pp":
                    pps = [zf.fix_parameters(np.array(c["v"], dtype=float)) if c["k"] == "fix" else zf.add_normal_noise(sd, seed + i) for i, c in enumerate(chain)]

                    def fac(params):
                        got.append([float(x) for x in params])
                        return [EstimationTask(QubitOperator("Z0"), zc.Circuit([zc.X(0)]), None)]
                    f = zf.create_cost_function(SymbolicSimulator(), fac, estimation_method=ze.calculate_exact_expectation_values, parameter_preprocessors=pps if rng.random() < 0.8 else tuple(pps))
                else:
                    syms = [sympy.Symbol("t_%02d" % i) for i in range(ntot)]
                    circ = zc.Circuit([zc.RX(s)(0) for s in syms])

                    class A(Ansatz):
                        supports_parametrized_circuits = True

                        @property
                        @overrides
                        def symbols_sort_key(self):
                            return str

                        @overrides
                        def _generate_circuit(self, params=None):
                            return circ

                    def meth(backend, tasks):
                        got.append([float(o.params[0]) for o in tasks[0].circuit.operations])
                        return [ExpectationValues(np.array([1.0]))]
                    kw = {}
                    for c in chain:
                        if c["k"] == "fix":
                            kw["fixed_parameters"] = np.array(c["v"], dtype=float)
                        else:
                            kw["parameter_precision"], kw["parameter_precision_seed"] = sd, seed
                    f = (zf.AnsatzBasedCostFunction(QubitOperator("Z0"), A(1), SymbolicSimulator(), meth, **kw) if kind == "abcf"
                         else zf.get_ground_state_cost_function(QubitOperator("Z0"), circ, SymbolicSimulator(), meth, **kw))
                inp = 1
                for c in calls:
                    x = np.array(c, dtype=float)
                    f(x)
                    if list(x) != list(map(float, c)):
                        inp = 0
                return got, inp
            a, inp = build()
            b, _ = build()
            vals = [[[as_int(round(x)), 0 if x == round(x) else 1] for x in r] for r in a]
            nz = sum(c["k"] == "noise" for c in chain) or 1
            dev = [abs(x - round(x)) for r in a for x in r if x != round(x)]
            groups = [[abs(x - round(x)) for x in r if x != round(x)] for r in a]
            if kind == "pp":       # one generator for the life of the preprocessor
                groups.append(dev)
            size = 1 if all(d < 8 * sd * nz for d in dev) and (len(dev) < 4 or kind != "pp" or max(dev) > sd / 50) and all(len(g) < 2 or len({round(d, 9) for d in g}) > 1 for g in groups) else 0
            return {"vals": vals, "same": int(a == b), "size": size, "input": inp}
        out.one({"op": "prep", "kind": kind, "chain": chain, "calls": calls, "out": observe(run)})
    # --- finite differences
    for _ in range(n_of(90)):
        k = rng.randint(0, 4)
        x = [rng.randint(-12, 12) for _ in range(k)]
        poly = [{"c": rng.randint(-5, 5), "x": [rng.randint(1, k) for _ in range(rng.randint(0, 3))] if k else []} for _ in range(rng.randint(1, 5))]
        hs = rng.choice([1, 1, 2, 4, 3])

        def run():
            def f(v):
                r = 0.0
                for mo in poly:
                    t = mo["c"]
                    for i in mo["x"]:
                        t *= v[i - 1]
                    r += t
                if rng.random() < 0.5:
                    from zquantum.core.utils import ValueEstimate
                    return ValueEstimate(r) if use_ve else r
                return r
            use_ve = False
            at = np.array([y / 4 for y in x])
            if all(y % 4 == 0 for y in x) and rng.random() < 0.3:
                at = np.array([y // 4 for y in x])
            keep = at.copy()
            g = finite_differences_gradient(f, hs / 4)(at) if rng.random() < 0.5 else finite_differences_gradient(f, finite_diff_step_size=hs / 4)(at)
            if len(g) != k:
                raise Bad("gradient has %d components" % len(g))
            return {"g": [rat(v * (2 * hs / 4) * 64, 1) for v in g], "input": int(np.array_equal(keep, at))}
        out.one({"op": "fd", "x": x, "h": hs, "poly": poly, "out": observe(run)})

        def run0():
            at = np.array([y / 4 for y in x])
            r = []
            f0 = lambda v: sum((mo["c"] * float(np.prod([v[i - 1] for i in mo["x"]])) for mo in poly), 0.0)
            for v in finite_differences_gradient(f0)(at):
                t = float(v) * 192
                if abs(t - round(t)) > 1e-3:
                    raise Bad("derivative %r" % v)
                r.append(int(round(t)))
            return {"g": r, "input": 1}
        out.one({"op": "fd", "x": x, "h": 0, "poly": poly, "out": observe(run0)})
    # --- sums with precision
    for _ in range(n_of(80)):
        vals = [rng.randint(-20, 20) for _ in range(rng.randint(0, 5))]
        cov = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            k = rng.randint(1, 3)
            a = [[rng.randint(-2, 6) for _ in range(k)] for _ in range(k)]
            if sum(map(sum, a)) < 0:
                a = [[abs(y) for y in r] for r in a]
            cov.append(a)

        def run():
            e = ExpectationValues(np.array(vals, dtype=float), None, [np.array(c, dtype=float) for c in cov] if cov or rng.random() < 0.5 else None)
            v = zf.sum_expectation_values(e)
            return {"value": rat(v.value, 1), "var": [] if v.precision is None else [rat(v.precision ** 2, 1)]}
        out.one({"op": "sumev", "vals": vals, "cov": cov, "out": observe(run)})


if __name__ == "__main__":
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        main({"E01": e01, "E02": e02, "E03": e03, "E04": e04, "E05": e05})
