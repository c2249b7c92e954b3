"""Operator utilities against the matrices they denote: O05."""
import random as pyrandom
import numpy as np
import scipy.sparse
from drv import *
from d_op import COEFS, cring, cval, creal, gz, enc, enc_t, build, new, rand_c, rand_f, mol_f, n_of, CLS
from zquantum.core import openfermion as of
from zquantum.core.openfermion import FermionOperator, IsingOperator, QubitOperator, InteractionOperator, PolynomialTensor
from zquantum.core.openfermion.linalg import sparse_tools as st
from zquantum.core.openfermion.utils.operator_utils import hermitian_conjugated, is_hermitian
from zquantum.core.openfermion.zapata_utils import _utils as zu
from zquantum.core.measurement import ExpectationValues
from zquantum.core.wavefunction import Wavefunction


def g25(z):
    """Gaussian number over 2^k 25 -> ring element."""
    r = gz(complex(z) * 25)
    return r if r == NR else norm(r[:4] + [r[4], 2])


def mat(M, f=gz):
    M = M.toarray() if scipy.sparse.issparse(M) else np.asarray(M)
    if M.ndim != 2:
        raise Bad("not a matrix: shape %r" % (M.shape,))
    return {"d": [int(x) for x in M.shape], "es": [{"i": int(i), "j": int(j), "v": f(M[i, j])} for i, j in zip(*np.nonzero(np.abs(M) > 1e-13))]}


# ---- states: list of (index, exact amplitude, value) -------------------------------------
R5 = [([3, 0, 0, 0, 0, 1], .6), ([4, 0, 0, 0, 0, 1], .8)]


def ph(k):
    return [[1, 0, 0, 0], [0, 0, 1, 0], [-1, 0, 0, 0], [0, 0, -1, 0]][k % 4], 1j ** (k % 4)


def rand_state(rng, n, pool=None):
    N = 2 ** n
    pool = list(range(N)) if pool is None else pool
    kind = rng.choice(["basis", "two", "four", "pyth", "all"])
    if kind in ("two", "pyth") and len(pool) < 2 or kind == "four" and len(pool) < 4 or kind == "all" and len(pool) != N:
        kind = "basis"
    if kind == "basis":
        c = rng.choice(pool)
        p, v = ph(rng.randrange(4))
        return [(c, p + [0, 0], v)]
    if kind == "two":
        return [(c, p + [1, 0], v / math.sqrt(2)) for c in rng.sample(pool, 2) for p, v in [ph(rng.randrange(4))]]
    if kind == "four":
        return [(c, p + [2, 0], v / 2) for c in rng.sample(pool, 4) for p, v in [ph(rng.randrange(4))]]
    if kind == "all":
        return [(c, p + [n, 0], v / math.sqrt(2) ** n) for c in range(N) for p, v in [ph(rng.randrange(4))]]
    res = []
    for c, s in zip(rng.sample(pool, 2), (3, 4)):
        p, v = ph(rng.randrange(4))
        res.append((c, [s * x for x in p] + [0, 1], v * s / 5))
    return res


def sv(n, s):
    v = np.zeros(2 ** n, dtype=complex)
    for c, _, x in s:
        v[c] = x
    return v


def senc(s):
    return [{"i": c, "v": norm(r)} for c, r, _ in s]


def tsenc(raw):
    return [{"c": cring(c), "f": f} for c, f in raw]


def qop(rng, n, m, nt, k="q", real=False, zero=False):
    e = new(rng, k, n, m, nt, real=real, ts=None if rng.random() < 0.9 else [])
    if e["how"] != "zero" and not e["raw"]:
        e["how"], e["raw"], e["ts"] = "zero", [], []
    return build(rng, e), e["ts"]


def fop(rng, n, raw):
    op = FermionOperator()
    for c, f in raw:
        op += FermionOperator(tuple((i, a) for i, a in f), creal(rng, c))
    return op


def rand_fop(rng, n, nt=3, m=4):
    return [(rand_c(rng), rand_f(rng, "f", n, m)) for _ in range(rng.randint(0, nt))]


def herm_raw(rng, n, nt):
    """Hermitian, as a list of (coefficient, factors): each term with its adjoint."""
    ts = []
    for c, f in mol_f(rng, n, nt):
        g = [[i, 1 - a] for i, a in reversed(f)]
        if rng.random() < 0.3:
            c = (c[0], 0, c[2])
        ts += [(c, f), ((c[0], -c[1], c[2]), g)]
    return ts


# ---- matrices ---------------------------------------------------------------------------
def matrix_events(rng):
    n = rng.choice([0, 1, 1, 2, 2, 2, 3])
    N = 2 ** n
    bad = 0
    r = rng.random()
    shape = (N, N)
    if r < 0.12:
        bad, shape = 1, rng.choice([(3, 3), (2, 3), (4, 2), (6, 6), (1, 2), (5, 5), (2, 4)])
    dens = rng.choice([0.1, 0.3, 1.0])
    M = [[rand_c(rng, 0.02) if rng.random() < dens else (0, 0, 0) for _ in range(shape[1])] for _ in range(shape[0])]
    if rng.random() < 0.35 and not bad:     # Hermitian
        for i in range(N):
            M[i][i] = (M[i][i][0], 0, M[i][i][2])
            for j in range(i):
                M[i][j] = (M[j][i][0], -M[j][i][1], M[j][i][2])
        if rng.random() < 0.5:              # but for one entry
            i, j = rng.randrange(N), rng.randrange(N)
            if rng.random() < 0.5:
                j = i
            a, b, c = M[i][j]
            M[i][j] = (a, b + rng.choice([-1, 1]) * rng.randint(1, 3), c) if i == j or rng.random() < 0.5 else (a + rng.choice([-1, 1]), b, c)
    vals = [[creal(rng, c) for c in row] for row in M]
    how = rng.choice(["list", "array"])
    op = vals if how == "list" else np.array([[cval(c) for c in row] for row in M])
    if how == "array" and all(c[1] == 0 for row in M for c in row) and rng.random() < 0.5:
        op = op.real
    es = [{"i": i, "j": j, "v": cring(c)} for i, row in enumerate(M) for j, c in enumerate(row) if c[:2] != (0, 0)]
    evs = [{"op": "expand", "bad": bad, "n": n, "es": es, "out": observe(lambda: enc_t(zu.get_qubitop_from_matrix(op)))}]
    for conv in (np.asarray, scipy.sparse.csc_matrix, scipy.sparse.csr_matrix, scipy.sparse.coo_matrix):
        if rng.random() < 0.4:
            A = conv(np.array([[cval(c) for c in row] for row in M]))
            evs.append({"op": "adjoint", "d": list(shape), "es": es, "out": observe(lambda: mat(hermitian_conjugated(A)))})
            if not bad:
                evs.append({"op": "hermitian", "es": es, "out": observe(lambda: as_bool(is_hermitian(A)))})
    return evs


def label_events(rng):
    n, nt = rng.randint(1, 4), rng.randint(0, 5)
    raw, labels = [], []
    for _ in range(nt):
        lab = [rng.randint(0, 3) for _ in range(n)]
        labels.append(lab if rng.random() < 0.7 else np.array(lab))
        raw.append((rand_c(rng), [[i, "XYZ"[x - 1]] for i, x in enumerate(lab) if x]))
    cs = [creal(rng, c) for c, _ in raw]
    return [{"op": "labels", "ts": tsenc(raw), "out": observe(lambda: enc_t(zu.get_qubitop_from_coeffs_and_labels(cs, labels)))}]


def reverse_events(rng):
    n = rng.randint(1, 5)
    op, ts = qop(rng, n, 4, 4)
    evs = []
    for ns in rng.sample([[], [n], [n + 1], [n + 2], [max(0, n - 1)], [1]], 3):
        def run():
            r = zu.reverse_qubit_order(op, *ns) if rng.random() < 0.5 or not ns else zu.reverse_qubit_order(op, n_qubits=ns[0])
            return {"r": enc_t(r), "a": enc_t(op)}
        evs.append({"op": "reverse", "ts": ts, "ns": ns, "out": observe(run)})
    return evs


def sparse_events(rng):
    k = rng.choice(["q", "q", "f", "f", "t"])
    n = rng.randint(1, 3)
    w = []
    if k == "q":
        op, ts = qop(rng, n, 4, 4)
        if rng.random() < 0.15:
            op *= 0
            ts = []
        elif rng.random() < 0.15:      # a term with coefficient zero
            op = QubitOperator("X%d" % rng.randrange(n), 0.0) + op if rng.random() < 0.5 else op + QubitOperator("Z0", 0.0)
            if 0.0 in op.terms.values():
                ts = ts + [{"c": cring((0, 0, 0)), "f": []}]
        if any(c == 0 for c in op.terms.values()):
            w = [of.count_qubits(op)]
    elif k == "f":
        raw = rand_fop(rng, n)
        op, ts = fop(rng, n, raw), None
        ts = enc_t(op)
        if any(c == 0 for c in op.terms.values()):
            w = [of.count_qubits(op)]
    else:
        op = rand_tensor(rng, n)
        ts, w, k = tensor_terms(op), [n], "f"
    ns = rng.choice([[], [], [n], [n + 1], [max(0, n - 1)]])
    if w and ns and ns[0] < w[0]:      # fewer qubits than tensors or zero terms span: not claimed
        ns = []
    return [{"op": "sparse", "k": k, "ts": ts, "ns": ns, "w": w, "out": observe(lambda: mat(of.get_sparse_operator(op, *ns) if rng.random() < 0.5 or not ns else of.get_sparse_operator(op, n_qubits=ns[0])))}]


# ---- tensors -------------------------------------------------------------------------
KEYS = [(1, 0), (1, 1, 0, 0), (0, 1), (0, 0), (1, 1), (1, 0, 1, 0), (0, 1, 1, 0), (1,), (0,), (1, 0, 0), (0, 0, 1, 1), (1, 1, 1, 0)]


def rand_array(rng, n, order, dens=0.3):
    a = np.zeros((n,) * order, dtype=complex)
    for ix in np.ndindex(*a.shape):
        if rng.random() < dens:
            a[ix] = cval(rand_c(rng))
    return a


def rand_tensor(rng, n):
    dens = rng.choice([0.1, 0.3, 0.6]) if n < 3 else rng.choice([0.05, 0.2])
    if rng.random() < 0.5:
        return InteractionOperator(cval(rand_c(rng)), rand_array(rng, n, 2, dens), rand_array(rng, n, 4, dens))
    d = {}
    ks = rng.sample(KEYS, rng.randint(1, 3))
    if rng.random() < 0.6:
        d[()] = cval(rand_c(rng))
    for k in ks:
        d[k] = rand_array(rng, n, len(k), dens)
    return PolynomialTensor(d)


def tensor_terms(t):
    """The terms a tensor denotes, read from its arrays."""
    ts = []
    for key, a in t.n_body_tensors.items():
        if key == ():
            ts.append({"c": gz(a), "f": []})
            continue
        if np.shape(a) != (t.n_qubits,) * len(key):
            raise Bad("shape %r of tensor %r" % (np.shape(a), key))
        for ix in np.ndindex(*a.shape):
            if abs(a[ix]) > 1e-13:
                ts.append({"c": gz(a[ix]), "f": [[int(i), int(x)] for i, x in zip(ix, key)]})
    return [t for t in ts if t["c"] != [0] * 6]


def diag_events(rng):
    n = rng.randint(1, 3)
    if rng.random() < 0.1:
        return [{"op": "diag", "bad": 1, "n": n, "ts": [], "out": observe(lambda: (zu.get_diagonal_component(rng.choice([FermionOperator("0^ 0"), QubitOperator("Z0"), np.eye(2), None])), 0)[1])}]
    t = rand_tensor(rng, n)
    ts = tensor_terms(t)

    def run():
        d, r = zu.get_diagonal_component(t)
        if isinstance(t, InteractionOperator) and not (isinstance(d, InteractionOperator) and isinstance(r, InteractionOperator)):
            raise Bad("kind of tensor")
        return {"d": tensor_terms(d), "r": tensor_terms(r), "a": tensor_terms(t)}
    return [{"op": "diag", "bad": 0, "n": n, "ts": ts, "out": observe(run)}]


# ---- states and values ---------------------------------------------------------------
def expect_events(rng):
    n = rng.randint(1, 3)
    k = rng.choice(["q", "q", "f"])
    if k == "q":
        op, ts = qop(rng, n, 4, 4)
    else:
        op = fop(rng, n, rand_fop(rng, n))
        ts = enc_t(op)
    evs = []
    for _ in range(2):
        how = rng.choice(["row", "col", "rho", "wf", "wfrev"])
        if k == "f" and how in ("wf", "wfrev"):
            how = "row"
        ns = rng.randint(2, 3) if how == "rho" else 1
        S = [rand_state(rng, n) for _ in range(ns)]
        ps = [(1, 0, 0)] if ns == 1 else [(1, 0, 1)] * 2 if ns == 2 else [(1, 0, 1), (1, 0, 2), (1, 0, 2)]
        if ns > 1 and rng.random() < 0.3:
            ps = [(3, 0, 2), (1, 0, 2)] + [(0, 0, 0)] * (ns - 2)

        def run():
            vs = [sv(n, s) for s in S]
            if how == "wf":
                return g25(zu.get_expectation_value(op, Wavefunction(vs[0])) if rng.random() < 0.5 else zu.get_expectation_value(op, Wavefunction(vs[0]), False))
            if how == "wfrev":
                return g25(zu.get_expectation_value(op, Wavefunction(vs[0]), reverse_operator=True))
            M = of.get_sparse_operator(op, n)
            if how == "row":
                return g25(st.expectation(M, vs[0]))
            if how == "col":
                return g25(st.expectation(M, vs[0].reshape((2 ** n, 1))))
            return g25(st.expectation(M, st.get_density_matrix(vs, [cval(p).real for p in ps])))
        evs.append({"op": "expect", "k": k, "n": n, "ts": ts, "rev": int(how == "wfrev"), "states": [senc(s) for s in S], "ps": [cring(p) for p in ps], "out": observe(run)})
    S = [rand_state(rng, n) for _ in range(rng.randint(1, 3))]
    ps = [rng.choice([(1, 0, 1), (1, 0, 2), (3, 0, 2), (1, 0, 0), (1, 0, 3)]) for _ in S]
    evs.append({"op": "density", "n": n, "states": [senc(s) for s in S], "ps": [cring(p) for p in ps],
                "out": observe(lambda: mat(st.get_density_matrix([sv(n, s) for s in S], [cval(p).real for p in ps]), g25))})
    T = [rand_state(rng, n), rand_state(rng, n)]
    if rng.random() < 0.3:
        T[1] = list(T[0])
    evs.append({"op": "inner", "n": n, "states": [senc(s) for s in T], "out": observe(lambda: inner_ring(st.inner_product(sv(n, T[0]), sv(n, T[1]))))})
    return evs


def inner_ring(z):
    for f in (gz, g25, lambda z: ring(z, h=4, m=0), lambda z: ring(z, h=4, m=1)):
        r = f(z)
        if r != NR:
            return r
    return NR


def value_events(rng):
    os_, tss = [], []
    for _ in range(rng.randint(1, 3)):
        e = new(rng, "q", 3, 3, 4, ts=None)
        os_.append(build(rng, e))
        tss.append(enc_t(os_[-1]))
    total = sum(len(t) for t in tss)
    vs = [rng.choice(COEFS) if rng.random() < 0.3 else (rng.randint(-4, 4), 0, 2) for _ in range(total)]
    arr = np.array([cval(v) if any(x[1] for x in vs) else cval(v).real for v in vs])
    evs = [{"op": "evaluate", "os": tss, "vs": [cring(v) for v in vs], "out": observe(lambda: gz(zu.evaluate_qubit_operator_list(os_, ExpectationValues(arr))))}]
    a1 = arr[:len(tss[0])]
    evs.append({"op": "evaluate", "os": tss[:1], "vs": [cring(v) for v in vs[:len(tss[0])]], "out": observe(lambda: gz(zu.evaluate_qubit_operator(os_[0], ExpectationValues(a1))))})
    i = rng.randrange(len(os_))

    def circ():
        return [[[type_name(o), [int(q) for q in o.qubit_indices]] for o in c.operations] for c in zu.create_circuits_from_qubit_operator(os_[i])]
    evs.append({"op": "circuits", "ts": tss[i], "out": observe(circ)})
    return evs


def type_name(o):
    if o.gate.params:
        raise Bad("parametric gate")
    return o.gate.name


def random_events(rng):
    n = rng.randint(1, 5)
    loc = rng.randint(0, min(n, 3))
    cap = math.comb(n, loc) * 3 ** loc
    nt = rng.randint(0, min(6, cap))
    fixed = int(rng.random() < 0.4)
    mx = rng.choice([1, 2, 5, 0.5, 10.25])
    pyrandom.seed(rng.randrange(10 ** 6))

    def run():
        op = zu.generate_random_qubitop(n, nt, loc, mx, *([bool(fixed)] if fixed or rng.random() < 0.5 else []))
        ts = enc_t_nc(op)
        return [{"f": f, "m": int(round(c * 2 ** 16))} for f, c in ts]
    return [{"op": "random", "n": n, "nt": nt, "loc": loc, "fixed": fixed, "max": int(mx * 2 ** 16), "out": observe(run)}]


def enc_t_nc(op):
    if type(op) is not QubitOperator:
        raise Bad("kind of operator")
    res = []
    for t, c in op.terms.items():
        if complex(c).imag:
            raise Bad("complex coefficient")
        res.append(([[as_int(i), a] for i, a in t], complex(c).real))
    return res


def config_events(rng):
    n = rng.randint(1, 5)
    occ = sorted(rng.sample(range(n), rng.randint(0, n)))
    if rng.random() < 0.5:
        rng.shuffle(occ)

    def sp(v):
        v = np.asarray(v)
        return {"d": int(v.shape[0]), "ix": [[int(i), as_int(v[i])] for i in np.nonzero(v)[0]]}
    evs = [{"op": "config", "n": n, "occ": occ, "out": observe(lambda: sp(st.jw_configuration_state(occ, n)))}]
    ne = rng.randint(0, n)
    evs.append({"op": "config", "n": n, "occ": list(range(ne)), "out": observe(lambda: sp(st.jw_hartree_fock_state(ne, n)))})
    evs.append({"op": "numidx", "n": n, "ne": ne, "out": observe(lambda: [as_int(i) for i in st.jw_number_indices(ne, n)])})
    m = rng.randint(1, 3)
    raw = rand_fop(rng, m)
    op = fop(rng, m, raw)
    k = rng.randint(0, m)
    ix = observe(lambda: [as_int(i) for i in st.jw_number_indices(k, m)])
    if ix["k"] == "ok":
        def run():
            M = of.get_sparse_operator(op, m)
            if rng.random() < 0.5:
                M = M.toarray()
            return mat(st.jw_number_restrict_operator(M, k, *([m] if rng.random() < 0.5 else [])))
        evs.append({"op": "restrict", "k": "f", "n": m, "ne": k, "ix": ix["v"], "ts": enc_t(op), "out": observe(run)})
    return evs


def preserve_events(rng):
    n = rng.randint(2, 4)
    ne = rng.randint(0, n)
    spin = int(rng.random() < 0.4)
    bad = rng.random() < 0.12
    raw = mol_f(rng, n, 3, spin=bool(spin))
    if bad:
        raw.append((rand_c(rng), rng.choice([[[0, 1]], [[1, 0]], [[0, 1], [1, 1]], [[1, 1], [0, 1], [1, 0]]])))
    op = fop(rng, n, raw)
    ref = sorted(rng.sample(range(n), ne))
    kw = {}
    if rng.random() < 0.65:
        kw["reference_determinant"] = [i in ref for i in range(n)]
        if rng.random() < 0.5:
            kw["reference_determinant"] = np.array(kw["reference_determinant"])
    else:
        ref = list(range(ne))
    lev = ne
    if rng.random() < 0.55:
        lev = rng.randint(0, ne)
        kw["excitation_level"] = lev
    if spin or rng.random() < 0.2:
        kw["spin_preserving"] = bool(spin)
    lab = sum((FermionOperator(((m, 1), (m, 0)), float(2 ** (n - 1 - m))) for m in range(n)), FermionOperator())

    def run():
        L = st.get_number_preserving_sparse_operator(lab, n, ne, **kw)
        return {"lab": mat(L), "m": mat(st.get_number_preserving_sparse_operator(op, n, ne, **kw))}
    return [{"op": "preserve", "n": n, "ref": ref, "lev": lev, "spin": spin, "ts": enc_t(op), "out": observe(run)}]


def spectrum_events(rng):
    n = rng.randint(1, 2) if rng.random() < 0.8 else 3
    k = rng.choice(["q", "f", "t"])
    small = lambda c: (c[0] % 4, c[1] % 3, c[2] % 2)
    if k == "q":
        raw = [((rng.randint(-3, 3), 0, rng.randint(0, 1)), rand_f(rng, "q", n, n)) for _ in range(rng.randint(1, 3))]
        raw = [(c, f) for c, f in raw if len({i for i, _ in f}) == len(f)] or [((1, 0, 0), [])]
        op = sum((QubitOperator(tuple((i, a) for i, a in f), cval(c).real) for c, f in raw), QubitOperator())
        ts = tsenc(raw)
    else:
        raw = []
        for c, f in mol_f(rng, n, 1 if n == 3 else 2):
            c = small(c)
            raw += [(c, f), ((c[0], -c[1], c[2]), [[i, 1 - a] for i, a in reversed(f)])]
        op = fop(rng, n, raw)
        ts = enc_t(op)
        if k == "t":
            ok, t = run_quiet(lambda: zu.get_polynomial_tensor(op, n))
            if not ok or not [q for q in t.n_body_tensors if q]:
                k = "f"
            else:
                op = t
    ns = [n]
    top = 4 if n < 3 else 3
    order = 2 ** n

    def run():
        ev = np.asarray(of.eigenspectrum(op, *ns) if rng.random() < 0.7 or k == "t" else st.sparse_eigenspectrum(of.get_sparse_operator(op, n)))
        if abs(ev.imag).max() > 1e-9:
            raise Bad("complex eigenvalue of a Hermitian operator")
        ev = ev.real
        return {"d": len(ev), "asc": int(all(ev[i] <= ev[i + 1] + 1e-9 for i in range(len(ev) - 1))), "ps": [gz(complex(np.sum(ev ** p)), 8) for p in range(1, top + 1)]}
    return [{"op": "spectrum", "k": "q" if k == "q" else "f", "n": n, "ts": ts, "out": observe(run)}]


def ground_events(rng):
    """Energies of the modes and one pair hopping, without degeneracy."""
    n = rng.randint(2, 4)
    p, q = rng.sample(range(n), 2)
    pw = [1, 2, 4, 8]
    rng.shuffle(pw)
    e0 = rng.choice([16, -16])
    t = rng.choice([(1, 0, 1), (-1, 0, 1), (0, 1, 1), (0, -3, 1), (3, 0, 1), (5, 0, 1)])
    raw = [((e0 if m in (p, q) else rng.choice([1, -1]) * pw[m], 0, 0), [[m, 1], [m, 0]]) for m in range(n)]
    hop = rng.random() < 0.8
    if hop:
        raw += [(t, [[p, 1], [q, 0]]), ((t[0], -t[1], t[2]), [[q, 1], [p, 0]])]
    else:
        raw[p] = ((e0 * 2, 0, 0), raw[p][1])
    if rng.random() < 0.5:
        raw.append(((rng.randint(-5, 5), 0, 1), []))
    op = fop(rng, n, raw)
    ts = enc_t(op)
    ne = rng.choice([-1] + list(range(n + 1)) * 2)

    def vec(v):
        v = np.asarray(v).reshape(-1)
        if v.shape[0] != 2 ** n:
            raise Bad("length of state")
        b = max(range(len(v)), key=lambda i: (round(abs(v[i]), 6), -i))
        v = v * (abs(v[b]) / v[b])
        return [{"i": i, "v": r} for i in range(len(v)) for r in [ring(v[i] if abs(v[i]) > 1e-6 else 0, h=1)] if r != [0] * 6]

    def run():
        M = of.get_sparse_operator(op, n)
        if ne == -1:
            e, v = st.get_ground_state(M) if rng.random() < 0.6 else st.get_ground_state(M, np.array([rng.uniform(.5, 1) for _ in range(2 ** n)]))
        else:
            e, v = st.jw_get_ground_state_at_particle_number(M, ne)
        if abs(complex(e).imag) > 1e-9:
            raise Bad("complex energy")
        return {"e": gz(complex(e), 4), "v": vec(v)}
    evs = [{"op": "ground", "k": "f", "n": n, "ne": ne, "ts": ts, "out": observe(run)}]
    # degenerate operators: the energy only
    raw = [((rng.randint(-2, 2), 0, 1), rand_f(rng, "q", n, 0 + n)) for _ in range(rng.randint(1, 3))]
    raw = [(c, [[i, "Z"] for i in sorted({i for i, _ in f})]) for c, f in raw]
    qo = sum((QubitOperator(tuple((i, a) for i, a in f), cval(c).real) for c, f in raw), QubitOperator())
    ne2 = rng.choice([-1] + list(range(n + 1)) * 2)

    def run2():
        M = of.get_sparse_operator(qo, n)
        e = st.get_ground_state(M)[0] if ne2 == -1 else st.jw_get_ground_state_at_particle_number(M, ne2)[0]
        return gz(complex(e), 4)
    evs.append({"op": "energy", "k": "q", "n": n, "ne": ne2, "ts": tsenc(raw), "out": observe(run2)})
    return evs


GENS = [matrix_events, matrix_events, label_events, reverse_events, sparse_events, sparse_events, diag_events, expect_events, expect_events, value_events, random_events, config_events, preserve_events, preserve_events, spectrum_events, ground_events]


def o05(out, rng):
    for _ in range(n_of(55)):
        for g in GENS:
            evs = g(rng)
            for e in evs:
                out.one(e, key=g.__name__)


if __name__ == "__main__":
    main({"O05": o05})
