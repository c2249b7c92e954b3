"""Evolution, simulators, backends, trackers, wavefunctions: C06 C10 B01 B02 B03."""
import itertools
from qdrv import *
from zquantum.core.openfermion import QubitOperator, IsingOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.interfaces.backend import QuantumBackend, QuantumSimulator
from zquantum.core.interfaces.mock_objects import MockQuantumBackend
from zquantum.core.wavefunction import Wavefunction, flip_wavefunction
from zquantum.core.trackers import MeasurementTrackingBackend


class NativeSim(SymbolicSimulator):
    """A simulator that natively supports gate operations only (the interface's default)."""

    def is_natively_supported(self, operation):
        return QuantumSimulator.is_natively_supported(self, operation)


class BatchBackend(QuantumBackend):
    """A backend executing circuits in batches, written the way the interface documents."""
    supports_batching = True

    def __init__(self, size, seed=None):
        self.batch_size = size
        super().__init__()
        self.sim = SymbolicSimulator(seed=seed)

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        return self.sim.run_circuit_and_measure(circuit, n_samples)

    def run_circuitset_and_measure(self, circuits, n_samples):
        super().run_circuitset_and_measure(circuits, n_samples)
        return [self.sim.run_circuit_and_measure(c, k) for c, k in zip(circuits, n_samples)]


class SeededDevice(QuantumBackend):
    def __init__(self, seed):
        super().__init__()
        self.sim = SymbolicSimulator(seed=seed)

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        return self.sim.run_circuit_and_measure(circuit, n_samples)


def pauli_str(f):
    return " ".join("%s%d" % (p, q) for q, p in f)


def rand_pauli(rng, n, letters="XYZ", allow_id=0.1, kmax=None):
    if rng.random() < allow_id:
        return []
    k = rng.randint(1, min(n, kmax or n))
    return [[q, rng.choice(letters)] for q in sorted(rng.sample(range(n), k))]


def distinct_paulis(rng, n, k, **kw):
    out, seen = [], set()
    for _ in range(200):
        f = rand_pauli(rng, n, **kw)
        if str(f) not in seen:
            seen.add(str(f))
            out.append(f)
            if len(out) == k:
                break
    return out


def real_h(H, rng, cls=QubitOperator):
    """A Hamiltonian from [{"h","f"}], built in one of several ways, terms in order."""
    how = rng.randrange(4)
    op = cls()
    for t in H:
        c = t["h"] / 2
        if rng.random() < 0.15 and t["h"] % 2 == 0:
            c = t["h"] // 2
        elif rng.random() < 0.15:
            c = complex(c)
        if how == 0:
            op += cls(tuple((q, p) for q, p in t["f"]), c)
        elif how == 1:
            op += cls("[%s]" % pauli_str(t["f"]), c)
        elif how == 2:
            op += c * cls(pauli_str(t["f"]))
        else:
            op = op + cls("%s [%s]" % (repr(float(np.real(c))), pauli_str(t["f"])))
    return op


def c10(out, rng):
    from zquantum.core.evolution import time_evolution, time_evolution_for_term, time_evolution_derivatives

    def rand_A(qok=True):
        return [2 * rng.randint(-4, 5), 2 * rng.choice([0, 0, 1, -1] if qok else [0])]

    def budget(H, A, steps):
        k = sum(1 for t in H if (t["h"] * (A[0] // 2)) % 2) * steps
        m = sum(abs(t["h"] * A[1] // 2) for t in H) * steps
        return (k + 1) // 2, m

    def rand_H(n, k, id_=0.08, first=None):
        fs = distinct_paulis(rng, n, k, allow_id=id_)
        if first:
            fs = [f for f in first] + fs
        if not any(fs):
            fs[0] = [[0, "X"]]
        return [{"h": rng.choice([1, 2, 2, -2, -1, 3, 4]), "f": f} for f in fs]

    def top(H):
        return max(q for t in H for q, p in t["f"]) + 1

    def evolve(H, A, steps, how):
        n = top(H)
        h, m = budget(H, A, steps)
        t = steps * angle(A)
        st = rng.getstate()
        op = real_h(H, rng)

        def run():
            if how == "float":
                c = time_evolution(op, t, trotter_order=steps)
            elif how == "term":
                c = time_evolution_for_term(op, t)
            else:
                s, u = sympy.symbols("t u")
                if how == "sym":
                    c = time_evolution(op, s, "Trotter", steps).bind({s: t})
                elif how == "expr":
                    c = time_evolution(op, 2 * s + u, trotter_order=steps).bind({s: t / 4}).bind({u: t / 2})
                else:
                    c = time_evolution(op, s * u, trotter_order=steps).bind({u: 0.5, s: 2 * t})
            return c.to_unitary()
        o = observe(run, lambda M: enc_matrix(M, h + 1, m), limit=60)
        out.one({"op": "evolve", "H": H, "A": A, "steps": steps, "n": n, "how": how, "out": o})
    # every Pauli string up to three qubits, every gap, on its own
    for f in itertools.product("IXYZ", repeat=3):
        fac = [[q, p] for q, p in enumerate(f) if p != "I"]
        if not fac:
            continue
        if fac[-1][0] == 2 and len(fac) == 3 and not THOROUGH and rng.random() < 0.5:
            continue
        evolve([{"h": rng.choice([1, 2, -2, 3]), "f": fac}], rand_A(), 1, rng.choice(["float", "term", "sym"]))
    for f in ([[0, "X"], [3, "Y"]], [[1, "Z"], [3, "X"]], [[0, "Y"], [2, "Y"], [3, "Z"]], [[0, "X"], [1, "Y"], [2, "Z"], [3, "X"]]):
        evolve([{"h": 2, "f": f}], rand_A(), 1, "float")
    for _ in range(8 if not THOROUGH else 60):
        fs = []
        for _ in range(rng.choice([1, 1, 2])):
            f = [[q, rng.choice("XYZ")] for q in range(4)]
            if rng.random() < 0.3:
                f.pop(rng.randrange(3))
            fs.append(f)
        if fs[0] != fs[-1] or len(fs) == 1:
            evolve([{"h": rng.choice([1, 2, -2]), "f": f} for f in fs], [2 * rng.randint(-4, 5), 0], 1, rng.choice(["float", "sym"]))
    f = [[q, rng.choice("XYZ")] for q in range(5)]
    evolve([{"h": rng.choice([2, -2, 1]), "f": f}], [2 * rng.randint(-4, 5), 0], 1, "term")
    k = 0
    while k < (130 if not THOROUGH else 1200):
        n = rng.choice([1, 2, 2, 3])
        H = rand_H(n, rng.randint(1, 4))
        A, steps = rand_A(), rng.choice([1, 1, 2, 3, 4])
        h, m = budget(H, A, steps)
        if 2 ** h * 5 ** m > 700 or len(H) * steps > 9:
            continue
        k += 1
        evolve(H, A, steps, rng.choice(["float", "float", "sym", "expr", "prod"]))

    def deriv(H, A, steps, obs):
        n = max(top(H), max([q for t in obs for q, p in t["f"]] + [0]) + 1)
        h, m = budget(H, A, steps)
        vec = [[rng.randint(-1, 1), 0, rng.randint(-1, 1), 0, 0, 0] for _ in range(2 ** n)]
        if all(x == [0] * 6 for x in vec):
            vec[0] = [1, 0, 0, 0, 0, 0]
        v0 = np.array([ring_value(x) for x in vec])
        op = real_h(H, rng)

        def run():
            cs, fs = time_evolution_derivatives(op, steps * angle(A), trotter_order=steps)
            if len(cs) != len(fs):
                raise Bad("as many factors as circuits")
            res = []
            for c, f in zip(cs, fs):
                v = v0.copy()
                for o in c.operations:
                    v = o.apply(v)
                res.append({"fac": ring(f, 4, 0, 4), "st": enc_vec(v, h + 2, m, float(np.linalg.norm(v0)) + 1)})
            return res
        out.one({"op": "deriv", "H": H, "A": A, "steps": steps, "n": n, "vec": vec, "obs": obs, "out": observe(run, limit=60)})
    k = 0
    while k < (60 if not THOROUGH else 500):
        n = rng.choice([1, 2, 2, 3])
        H = rand_H(n, rng.randint(1, 3), id_=0.1)
        A, steps = rand_A(rng.random() < 0.5), rng.choice([1, 1, 2, 2, 4])
        h, m = budget(H, A, steps)
        if 2 ** h * 5 ** m > 60 or len(H) * steps > 6:
            continue
        k += 1
        obs = [{"c": [rng.choice([1, -1, 2]), 0, 0, 0, 0, 0], "f": f} for f in distinct_paulis(rng, n, rng.randint(1, 3))]
        deriv(H, A, steps, obs)
    H2 = QubitOperator("X0 Z1") + QubitOperator("Y0", 0.5)
    for what, f in (("method", lambda: time_evolution(H2, 0.3, method="Suzuki")), ("method", lambda: time_evolution_derivatives(H2, 0.3, "exact")),
                    ("method", lambda: time_evolution(H2, 0.3, "trotter")),
                    ("two terms where one is expected", lambda: time_evolution_for_term(H2, 0.3))):
        out.one({"op": "reject", "what": what, "out": observe(f, lambda v: 0)})


def rand_mpo(rng, n, q=True):
    return {"n": "mpo", "p": [rand_angle(rng, False, q and rng.random() < 0.2) for _ in range(2 ** n)], "w": [], "q": []}


def any_op(o):
    if o["n"] == "mpo":
        return zc.MultiPhaseOperation(tuple(angle(x) for x in o["p"]))
    return real_op(o)


def any_circuit(ops, n):
    return zc.Circuit([any_op(o) for o in ops], n_qubits=n)


def cost(ops):
    h, m = ops_cost([o for o in ops if o["n"] != "mpo"])
    for o in ops:
        if o["n"] == "mpo":
            m += max(abs(x[1]) for x in o["p"])
    return h, m


def rand_any(rng, n, ln, mpo=0.2, lim=500, **kw):
    ops = []
    for _ in range(200):
        if len(ops) >= ln:
            break
        o = rand_mpo(rng, n) if rng.random() < mpo else rand_op(rng, n, **kw)
        h, m = cost(ops + [o])
        if 2 ** h * 5 ** m <= lim:
            ops.append(o)
    return ops


def outcome_pairs(d, enc):
    r = []
    for k, v in d.items():
        r.append([[as_int(x) for x in k], enc(v)])
    return sorted(r)


def meas_pairs(ms):
    from collections import Counter
    return sorted([[as_int(x) for x in k], v] for k, v in Counter(tuple(b) for b in ms.bitstrings).items())


def flat_amps(w):
    a = w.amplitudes
    a = np.array(a.tolist() if hasattr(a, "tolist") else list(a), dtype=complex)
    return a.reshape(-1) if a.ndim == 2 and 1 in a.shape else a


def c06(out, rng):
    sims = [lambda s=None: SymbolicSimulator(seed=s), lambda s=None: NativeSim(seed=s)]
    for _ in range(170 if not THOROUGH else 1500):
        n = rng.choice([1, 2, 2, 3, 3])
        ops = rand_any(rng, n, rng.randint(0 if rng.random() < .2 else 1, 5), mpo=rng.choice([0, 0, 0.3]))
        h, m = cost(ops)
        sim = rng.choice(sims)()
        mode = rng.choice(["default", "ring", "basis", "list"])
        if mode == "default":
            vec = None
        elif mode == "basis":
            i = rng.randrange(2 ** n)
            vec = [[1 if j == i else 0, 0, 0, 0, 0, 0] for j in range(2 ** n)]
        else:
            j = rng.sample(range(2 ** n), 2)
            a, b = rng.choice([([1, 0, 0, 0, 1, 0], [0, 0, 1, 0, 1, 0]), ([3, 0, 0, 0, 0, 1], [0, 0, -4, 0, 0, 1]), ([-4, 0, 0, 0, 0, 1], [3, 0, 0, 0, 0, 1])])
            vec = [a if x == j[0] else b if x == j[1] else [0] * 6 for x in range(2 ** n)]
            h, m = h + 1, m + 1

        def run():
            c = any_circuit(ops, n)
            if vec is None:
                w = sim.get_wavefunction(c)
            else:
                v = np.array([ring_value(x) for x in vec], dtype=complex)
                keep = v.copy()
                w = sim.get_wavefunction(c, initial_state=list(v) if mode == "list" else v)
                if not np.array_equal(v, keep):
                    raise Bad("the initial state was modified")
            if as_int(w.n_qubits) != n:
                raise Bad("number of qubits")
            return enc_vec(flat_amps(w), h, m)
        out.one({"op": "wf", "n": n, "ops": ops, "how": mode, "vec": vec or [[1 if j == 0 else 0, 0, 0, 0, 0, 0] for j in range(2 ** n)],
                 "out": observe(run)})
    for _ in range(130 if not THOROUGH else 1200):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        ops = rand_any(rng, n, rng.randint(1, 4), mpo=rng.choice([0, 0, 0.3]), lim=60)
        h, m = cost(ops)
        ising = rng.random() < 0.35
        fs = distinct_paulis(rng, n, rng.randint(1, 5), letters="Z" if ising else "XYZ")
        terms = [{"c": [rng.choice([1, -1, 2, 3, -5, 4]), 0, 0, 0, 2 * rng.choice([0, 0, 1, 2]), 0], "f": f} for f in fs]
        for t in terms:
            t["c"] = norm(t["c"])
        cls = IsingOperator if ising else QubitOperator
        op = cls()
        for t in terms:
            op += cls(tuple((q, p) for q, p in t["f"]), ring_value(t["c"]).real)
        sim = rng.choice(sims)()

        def run():
            ev = sim.get_exact_expectation_values(any_circuit(ops, n), op)
            vals = list(ev.values)
            if any(isinstance(x, complex) and not isinstance(x, float) for x in vals) or np.iscomplexobj(np.array(vals)):
                raise Bad("expectation values are not real")
            return [ring(x, 2 * h + 3, 2 * m, 6.0) for x in vals]
        out.one({"op": "exact", "n": n, "ops": ops, "terms": terms, "out": observe(run)})
    for _ in range(90 if not THOROUGH else 800):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        ops = rand_any(rng, n, rng.randint(1, 4), mpo=rng.choice([0, 0, 0.3]), lim=60)
        h, m = cost(ops)
        sim = rng.choice(sims)()
        bs = rng.random() < 0.3

        def run():
            c = any_circuit(ops, n)
            d = sim.get_bitstring_distribution(c) if bs else sim.get_measurement_outcome_distribution(c)
            return outcome_pairs(d.distribution_dict, lambda x: ring(x, 2 * h + 1, 2 * m))
        out.one({"op": "dist", "n": n, "ops": ops, "out": observe(run)})
    names = ["X", "X", "H", "CNOT", "SWAP", "RY", "Y", "ISWAP", "T"]
    for _ in range(130 if not THOROUGH else 1000):
        n = rng.choice([1, 2, 3, 3, 4])
        ops = rand_any(rng, n, rng.randint(1, 6), mpo=rng.choice([0, 0, 0.2]), lim=100, names=names)
        shots = rng.choice([1, 1, 2, 7, 20, 64])
        seed = rng.choice([None, rng.randint(0, 10 ** 6), 0])
        mk = rng.choice(sims)
        how = rng.choice(["run", "run", "map", "dist"])

        def run():
            c = any_circuit(ops, n)
            if how == "map":
                s = sympy.Symbol("s")
                c = zc.Circuit([zc.RX(s)(0)] + list(c.operations), n_qubits=n)
            def once(simu):
                if how == "map":
                    return simu.run_circuit_and_measure(c, shots, symbol_map={s: 0.0})
                return simu.run_circuit_and_measure(c, n_samples=shots)
            if how == "dist":
                d = mk(seed).get_measurement_outcome_distribution(c, shots)
                return {"cnt": outcome_pairs(d.distribution_dict, lambda x: rat(x, shots)), "again": 1}
            m1 = once(mk(seed))
            again = 1
            if seed is not None:
                again = int(list(m1.bitstrings) == list(once(mk(seed)).bitstrings))
            if any(not isinstance(b, tuple) for b in m1.bitstrings):
                raise Bad("outcomes are not tuples")
            return {"cnt": meas_pairs(m1), "again": again}
        out.one({"op": "sample", "n": n, "ops": ops, "shots": shots, "how": how, "out": observe(run)})
    s = sympy.Symbol("theta")
    free = zc.Circuit([zc.H(0), zc.RX(s)(1)])
    good = zc.Circuit([zc.H(0), zc.CNOT(0, 1)])
    part = zc.Circuit([zc.RX(s)(0), zc.RZ(sympy.Symbol("g"))(0)])
    for mk in sims + [lambda s=None: MockQuantumBackend()]:
        for what, f in (("unbound symbols", lambda: mk().run_circuit_and_measure(free, 5)),
                        ("shots 0", lambda: mk().run_circuit_and_measure(good, 0)),
                        ("shots -1", lambda: mk().run_circuit_and_measure(good, n_samples=-1)),
                        ("shots -100", lambda: mk(3).run_circuit_and_measure(good, -100))):
            out.one({"op": "reject", "what": what, "out": observe(f, lambda v: 0)})
    for mk in sims:
        out.one({"op": "reject", "what": "partly bound", "out": observe(lambda: mk().run_circuit_and_measure(part, 5, symbol_map={s: 0.3}), lambda v: 0)})


def det_circuit(rng, n, mpo=0.3, length=None):
    """A circuit whose outcome is certain."""
    ops = []
    for _ in range(rng.randint(0, 4) if length is None else length):
        if rng.random() < mpo:
            ops.append(rand_mpo(rng, n, False))
        else:
            ops.append(rand_op(rng, n, names=["X", "X", "X", "CNOT", "SWAP", "Z"] if n > 1 else ["X", "Z"], wrap=False))
    return {"n": n, "ops": ops}


def counters(b):
    return {"nc": as_int(b.number_of_circuits_run), "nj": as_int(b.number_of_jobs_run)}


def seg_circuit(rng, k):
    """A deterministic circuit with k maximal runs of gate operations."""
    n = rng.choice([1, 2])
    ops = []
    x = lambda: rand_op(rng, n, names=["X"], wrap=False)
    if k == 0:
        if rng.random() < 0.5:
            ops = [rand_mpo(rng, n, False)]
    for i in range(k):
        if i or rng.random() < 0.3:
            ops.append(rand_mpo(rng, n, False))
        ops += [x() for _ in range(rng.randint(1, 2))]
    return {"n": n, "ops": ops}


def b01(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    plans = [(g["kind"], g["b"], [(h["op"], [seg_circuit(rng, k) for k in h["cs"]]) for h in g["h"]], "gen")
             for g in gen[:350 if not THOROUGH else 4000]]
    for _ in range(80 if not THOROUGH else 900):
        kind = rng.choice(["device", "batch", "sim", "sim"])
        hist = []
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(["run", "set", "set", "bad", "dist", "wf"])
            if op == "wf" and kind != "sim":
                op = "run"
            hist.append((op, [det_circuit(rng, rng.choice([1, 2, 3]), 0.3) for _ in range(rng.randint(0, 7) if op == "set" else 1)]))
        plans.append((kind, rng.randint(1, 4) if kind == "batch" else 1, hist, "rnd"))
    for kind, b, hist, src in plans:
        nat = "gates" if kind == "sim" and rng.random() < 0.7 else "all"
        if kind == "device":
            mk = MockQuantumBackend if rng.random() < 0.7 else (lambda: SeededDevice(1))
        elif kind == "batch":
            mk = lambda: BatchBackend(b)
        else:
            mk = NativeSim if nat == "gates" else SymbolicSimulator
        ok, be = run_quiet(mk)
        evs = [{"op": "b_new", "out": observe(lambda: counters(be)) if ok else be}]
        for op, cs in hist:
            if not ok:
                break
            base = {"kind": kind, "nat": nat, "b": b}
            real = [any_circuit(c["ops"], c["n"]) for c in cs]
            if op == "set":
                shots = [rng.randint(1, 9) for _ in cs]

                def run():
                    ms = be.run_circuitset_and_measure(real, list(shots) if rng.random() < 0.5 else tuple(shots))
                    return {"res": [meas_pairs(m) for m in ms], "cnt": counters(be)}
                evs.append({"op": "b_set", "cs": cs, "shots": shots, "out": observe(run), **base})
            elif op == "bad":
                k = rng.choice([0, -1, -7])

                def run():
                    g, v = run_quiet(lambda: be.run_circuit_and_measure(real[0], k))
                    return {"exc": 0 if g else 1, "cnt": counters(be)}
                evs.append({"op": "b_bad", "c": cs[0], "shots": k, "out": observe(run), **base})
            elif op == "dist":
                k = rng.choice([0, 3, 8]) if kind == "sim" else rng.choice([1, 4])
                den = k or 1

                def run():
                    f = be.get_measurement_outcome_distribution if rng.random() < 0.6 else be.get_bitstring_distribution
                    d = f(real[0], k) if k else f(real[0])
                    return {"res": outcome_pairs(d.distribution_dict, lambda x: rat(x, den)), "cnt": counters(be)}
                evs.append({"op": "b_dist", "c": cs[0], "shots": k, "den": den, "out": observe(run), **base})
            elif op == "wf":
                def run():
                    if rng.random() < 0.5:
                        be.get_wavefunction(real[0])
                    else:
                        be.get_exact_expectation_values(real[0], IsingOperator("Z0") + IsingOperator("", 2))
                    return {"cnt": counters(be)}
                evs.append({"op": "b_wf", "c": cs[0], "out": observe(run), **base})
            else:
                k = rng.randint(1, 9)

                def run():
                    m = be.run_circuit_and_measure(real[0], k)
                    return {"res": meas_pairs(m), "cnt": counters(be)}
                evs.append({"op": "b_run", "c": cs[0], "shots": k, "out": observe(run), **base})
        out.session(evs, src=src)


def b02(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    plans = []
    circ = lambda: (lambda n: {"n": n, "ops": rand_any(rng, n, rng.randint(1, 4), mpo=0, lim=100, names=["X", "H", "CNOT", "RY", "SWAP", "RZ", "X"], custom=False)})(rng.choice([1, 2, 3]))
    for g in gen[:100 if not THOROUGH else 900]:
        plans.append((g["kind"], g["b"], [(h["op"], [circ() for _ in h["cs"]]) for h in g["h"]]))
    for _ in range(60 if not THOROUGH else 500):
        h = []
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(["run", "set", "dist", "bdist", "bad"])
            h.append((op, [circ() for _ in range(rng.randint(0, 4) if op == "set" else 1)]))
        plans.append((rng.choice(["device", "batch", "sim"]), rng.randint(1, 3), h))
    fno = 0
    for kind, b, hist in plans:
        fno += 1
        fn = "raw_%d.json" % (fno % 7)
        rb = rng.choice([0, 1])
        seed = rng.randint(0, 10 ** 6)
        mk = {"device": lambda: SeededDevice(seed), "batch": lambda: BatchBackend(b, seed), "sim": lambda: SymbolicSimulator(seed=seed)}[kind]
        twin = mk()
        inner = mk()
        ok, be = run_quiet(lambda: MeasurementTrackingBackend(inner, fn, bool(rb)) if rb or rng.random() < 0.5 else MeasurementTrackingBackend(inner, fn))
        evs = []
        for op, cs in hist:
            if not ok:
                evs.append({"op": "t_run", "cs": [], "shots": [], "rb": rb, "out": be})
                break
            shots = [rng.randint(1, 9) for _ in cs]
            real = [any_circuit(c["ops"], c["n"]) for c in cs]

            def proj(m):
                return {"bits": [[as_int(x) for x in t] for t in m.bitstrings], "counts": meas_pairs(m)}

            def records(dist=None):
                d = json.load(open(fn))
                res = []
                for r, c in zip(d["raw-data"], real):
                    same = int(zc.circuit_from_dict(r["circuit"]) == c and r["device"] == type(inner).__name__)
                    x = {"same": same, "gates": as_int(r["number_of_gates"]), "shots": as_int(r["number_of_shots"])}
                    if dist is not None:
                        x["dist"] = int(r["distribution"] == repr(dist))
                    else:
                        x["counts"] = sorted([[int(z) for z in k], as_int(v)] for k, v in r["counts"].items())
                        x["hasbits"] = int("bitstrings" in r)
                        x["bits"] = r.get("bitstrings", [])
                    res.append(x)
                if len(d["raw-data"]) > len(real):
                    res += [{"same": 0}] * (len(d["raw-data"]) - len(real))
                return res
            if op == "bad":
                run_quiet(lambda: be.run_circuit_and_measure(real[0], 0))
                continue
            if op == "run":
                def run():
                    r = be.run_circuit_and_measure(real[0], shots[0])
                    rec = records()
                    return {"res": [proj(r)], "twin": [proj(twin.run_circuit_and_measure(real[0], shots[0]))], "rec": rec}
                evs.append({"op": "t_run", "cs": cs, "shots": shots, "rb": rb, "out": observe(run)})
            elif op == "set":
                def run():
                    r = be.run_circuitset_and_measure(real, shots)
                    rec = records()
                    return {"res": [proj(x) for x in r], "twin": [proj(x) for x in twin.run_circuitset_and_measure(real, shots)], "rec": rec}
                evs.append({"op": "t_set", "cs": cs, "shots": shots, "rb": rb, "out": observe(run)})
            else:
                def run():
                    f, g = ((be.get_measurement_outcome_distribution, twin.get_measurement_outcome_distribution) if op == "dist" else
                            (be.get_bitstring_distribution, twin.get_bitstring_distribution))
                    r, t = f(real[0], shots[0]), g(real[0], shots[0])
                    e = lambda d: [type(d).__name__] + outcome_pairs(d.distribution_dict, lambda x: rat(x, shots[0]))
                    return {"res": e(r), "twin": e(t), "rec": records(t)}
                evs.append({"op": "t_dist", "cs": cs, "shots": shots, "rb": rb, "out": observe(run)})
        out.session(evs, src="gen")


WSYMS = ["a", "b"]


def wval(e, style):
    if e["t"] == "s":
        return sympy.Symbol(WSYMS[e["i"] - 1])
    z = ring_value(e["v"])
    if style == 0 or abs(z.imag) > 1e-14:
        return complex(z)
    if style == 1:
        return float(z.real)
    return np.complex128(z)


def wproj(w):
    v = w._amplitude_vector if not hasattr(w, "__iter__") else list(w)
    r = []
    for x in v:
        if isinstance(x, np.ndarray):
            raise Bad("entry shape")
        if isinstance(x, sympy.Basic) and x.free_symbols:
            if not isinstance(x, sympy.Symbol):
                raise Bad("entry %s" % x)
            r.append({"t": "s", "i": WSYMS.index(x.name) + 1})
        else:
            r.append({"t": "n", "v": ring(complex(x), 4, 2, 8)})
    return r


RATS = [[0] * 6, [0] * 6, [1, 0, 0, 0, 0, 0], [-1, 0, 0, 0, 0, 0], [3, 0, 0, 0, 0, 1], [0, 0, 4, 0, 0, 1], [-4, 0, 0, 0, 0, 1],
        [1, 0, 0, 0, 2, 0], [0, 0, -1, 0, 2, 0], [1, 0, 0, 0, 1, 0], [0, 0, 1, 0, 1, 0], [2, 0, 0, 0, 0, 0], [0, 0, 3, 0, 0, 1]]


def b03(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    N = lambda v: {"t": "n", "v": v}
    S = lambda i: {"t": "s", "i": i}

    def rand_w():
        n = rng.choice([1, 1, 2, 2, 3])
        d = 2 ** n
        if rng.random() < 0.5:
            pat = rng.choice([[[1, 0, 0, 0, 0, 0]], [[3, 0, 0, 0, 0, 1], [0, 0, 4, 0, 0, 1]], [[1, 0, 0, 0, 1, 0], [0, 0, -1, 0, 1, 0]],
                              [[1, 0, 0, 0, 2, 0]] * 4])
            pat = [N(p) for p in pat][:d] + [N([0] * 6)] * (d - len(pat))
        else:
            pat = [rng.choice([S(1), S(2), N(rng.choice(RATS)), N([0] * 6)]) for _ in range(d)]
        pat = pat[:d]
        rng.shuffle(pat)
        if rng.random() < 0.08:
            pat = pat[:-1]
        return pat

    def rand_ev(d):
        r = rng.random()
        ent = lambda: rng.choice([N(rng.choice(RATS)), N(rng.choice(RATS)), S(rng.choice([1, 2]))])
        if r < 0.35:
            return {"op": "set", "i": rng.randint(1, d + (1 if rng.random() < .1 else 0)), "e": ent()}
        if r < 0.6:
            k = rng.randint(1, min(d, 3))
            i = rng.randint(1, d - k + 1)
            return {"op": "slice", "i": i, "es": [ent() if rng.random() < .3 else N(rng.choice(RATS)) for _ in range(k)]}
        if r < 0.8:
            m = [[x, N(rng.choice(RATS)) if rng.random() < .85 else S(rng.choice([1, 2]))] for x in rng.sample([1, 2], rng.randint(1, 2))]
            return {"op": "bind", "m": m}
        return {"op": rng.choice(["flip", "probs", "probs"])}
    plans = [(g[0]["w"], g[1:]) for g in gen[:500 if not THOROUGH else 6000]]
    for _ in range(200 if not THOROUGH else 2500):
        w = rand_w()
        plans.append((w, [rand_ev(len(w)) for _ in range(rng.randint(1, 6))]))
    for w, hist in plans:
        style = rng.randrange(3)
        sym = any(e["t"] == "s" for e in w)
        cont = rng.choice(["list", "array", "matrix"] if sym else ["list", "array", "list"])

        def mk():
            v = [wval(e, style) for e in w]
            return Wavefunction(sympy.Matrix(v) if cont == "matrix" else np.array(v) if cont == "array" and not sym else v)
        ok, cur = run_quiet(mk)
        evs = [{"op": "w_new", "w": w, "out": observe(lambda: {"w": wproj(cur)}) if ok else cur}]

        def eq_event():
            try:
                ents = wproj(cur)
            except Bad:
                return []
            r = rng.random()
            if r < 0.25:
                i, j = rng.randrange(len(ents)), rng.randrange(len(ents))
                ents[i], ents[j] = ents[j], ents[i]
            elif r < 0.4:
                ents = ents + [N([0] * 6)] * len(ents)
            elif r < 0.5 and len(ents) > 1:
                ents = ents[:len(ents) // 2]
            elif r < 0.65:
                ents = [S(3 - e["i"]) if e["t"] == "s" else e for e in ents]
            elif r < 0.75:
                i = rng.randrange(len(ents))
                if ents[i]["t"] == "n":
                    ents[i] = N([-x for x in ents[i]["v"][:4]] + ents[i]["v"][4:])
            vals = [wval(e, style) for e in ents]
            g, other = run_quiet(lambda: Wavefunction(sympy.Matrix(vals) if rng.random() < .3 else vals))
            if not g:
                return []

            def flag(x):
                if not isinstance(x, (bool, np.bool_)):
                    raise Bad("not a truth value")
                return int(x)
            return [{"op": "w_eq", "w": ents, "out": observe(lambda: [flag(cur == other), flag(other == cur), flag(cur != other)])}]
        for h in hist + [{"op": "probs"}]:
            if not ok:
                break
            if rng.random() < 0.2:
                evs += eq_event()
            symb = bool(cur.free_symbols)
            if h["op"] == "set":
                def run():
                    i = h["i"] - 1
                    if rng.random() < 0.2:
                        i -= len(w)
                        if h["i"] > len(w):
                            i = len(w)
                    g, v = run_quiet(lambda: cur.__setitem__(i, wval(h["e"], style)))
                    return {"exc": 0 if g else 1, "w": wproj(cur)}
                evs.append({"op": "w_set", "i": h["i"], "e": h["e"], "out": observe(run)})
            elif h["op"] == "slice":
                def run():
                    sl = slice(h["i"] - 1, h["i"] - 1 + len(h["es"]))
                    vals = [wval(e, style) for e in h["es"]]
                    if not any(isinstance(v, sympy.Basic) for v in vals) and rng.random() < 0.5:
                        vals = np.array(vals)
                    idx = sl if rng.random() < 0.7 else list(range(sl.start, sl.stop))
                    g, v = run_quiet(lambda: cur.__setitem__(idx, vals))
                    return {"exc": 0 if g else 1, "w": wproj(cur)}
                evs.append({"op": "w_slice", "i": h["i"], "step": 1, "es": h["es"], "force": 0 if symb else 1, "out": observe(run)})
            elif h["op"] == "bind":
                old = cur

                def run():
                    nonlocal cur
                    m = {sympy.Symbol(WSYMS[x - 1]): wval(e, style) for x, e in h["m"]}
                    g, v = run_quiet(lambda: old.bind(m))
                    if g:
                        cur = v
                    return {"exc": 0 if g else 1, "w": wproj(cur), "orig": wproj(old)}
                evs.append({"op": "w_bind", "m": h["m"], "out": observe(run)})
            elif h["op"] == "flip":
                def run():
                    nonlocal cur
                    cur = flip_wavefunction(cur)
                    return {"w": wproj(cur)}
                evs.append({"op": "w_flip", "out": observe(run)})
            elif not symb:
                def run():
                    f = float
                    return {"probs": [ring(f(x), 4, 4) for x in cur.get_probabilities()],
                            "outs": [[[int(z) for z in k], ring(f(v), 4, 4)] for k, v in cur.get_outcome_probs().items()]}
                evs.append({"op": "w_probs", "out": observe(run)})
        out.session(evs, src="gen")
    from math import comb
    for n in range(-1, 6 if not THOROUGH else 9):
        for k in range(-1, n + 2):
            def enc(w):
                c = comb(n, k)
                r = []
                for x in w.amplitudes:
                    if abs(complex(x).imag) > 1e-12 or complex(x).real < -1e-12:
                        raise Bad("amplitude")
                    r.append(rat(complex(x).real ** 2 * c, 1))
                return r
            out.one({"op": "w_dicke", "n": n, "k": k, "out": observe(lambda: Wavefunction.dicke_state(n, k), enc)})
        out.one({"op": "w_zero", "n": n, "out": observe(lambda: Wavefunction.zero_state(n), wproj)})


if __name__ == "__main__":
    main({"C10": c10, "C06": c06, "B01": b01, "B02": b02, "B03": b03})
