"""Programs over tensor representations of operators: O06."""
import copy
import numpy as np
import sympy
from drv import *
from d_op import COEFS, cring, cval, creal, gz, enc_t, rand_c, rand_f, mol_f, n_of
from d_mat import KEYS, g25, fop, rand_fop, herm_raw, rand_state, sv, senc, tsenc
from zquantum.core import openfermion as of
from zquantum.core.openfermion import FermionOperator, QubitOperator, InteractionOperator, InteractionRDM, PolynomialTensor
from zquantum.core.openfermion.measurements import get_interaction_rdm
from zquantum.core.openfermion.transforms.opconversions.term_reordering import normal_ordered
from zquantum.core.openfermion.utils.operator_utils import count_qubits, hermitian_conjugated, is_hermitian
from zquantum.core.openfermion.zapata_utils import _utils as zu


def kind(t):
    return "R" if type(t) is InteractionRDM else "I" if type(t) is InteractionOperator else "P" if type(t) is PolynomialTensor else "?"


def g625(z):
    r = g25(z)
    if r != NR:
        return r
    r = gz(complex(z) * 625, 8)
    return r if r == NR else norm(r[:4] + [r[4], 4])


def terms(t, f=gz):
    """The products and coefficients a tensor denotes, read from its arrays."""
    ts = []
    for key, a in t.n_body_tensors.items():
        if key == ():
            ts.append({"c": f(a), "f": []})
            continue
        if np.shape(a) != (t.n_qubits,) * len(key):
            raise Bad("shape %r of tensor %r" % (np.shape(a), key))
        a = np.asarray(a)
        for ix in zip(*np.nonzero(np.abs(a) > 1e-12)):
            ts.append({"c": f(a[ix]), "f": [[int(i), int(x)] for i, x in zip(ix, key)]})
    return [t for t in ts if t["c"] != [0] * 6]


def snap(regs):
    try:
        return [{"k": kind(t), "n": int(t.n_qubits), "t": terms(t, g625)} for t in regs]
    except Exception as e:
        return [{"k": "?", "n": -1, "t": []}]


def arr(rng, n, order, dens, typ):
    a = np.zeros((n,) * order, dtype=complex if typ == "c" else int if typ == "i" and rng.random() < 0.6 else float)
    for ix in np.ndindex(*a.shape):
        if rng.random() < dens:
            c = rand_c(rng, real=typ != "c")
            a[ix] = cval(c) if typ == "c" else cval(c).real if typ == "r" else c[0]
    return a


def dens_of(rng, n):
    return rng.choice([0.1, 0.3, 0.7]) if n < 3 else rng.choice([0.03, 0.1])


def rand_poly(rng, n, typ="c", keys=None):
    d = {}
    ks = rng.sample(KEYS, rng.randint(1, 3)) if keys is None else keys
    if rng.random() < 0.6:
        c = rand_c(rng, real=typ != "c")
        d[()] = cval(c) if typ == "c" else cval(c).real if typ == "r" else c[0]
    dens = dens_of(rng, n)
    for k in ks:
        d[k] = arr(rng, n, len(k), dens, typ)
    if rng.random() < 0.3:
        items = list(d.items())
        rng.shuffle(items)
        d = dict(items)
    return PolynomialTensor(d)


def rand_int(rng, n, typ="c", herm=False, sym=None):
    dens = dens_of(rng, n)
    if sym is not None:
        return sym_int(rng, n, sym, typ)
    one, two = arr(rng, n, 2, dens, typ), arr(rng, n, 4, dens, typ)
    c = cval(rand_c(rng, real=herm or typ != "c")) if rng.random() < 0.8 else 0.0
    if typ != "c":
        c = complex(c).real
        if typ == "i" and c == int(c):
            c = int(c)
    if herm:
        one = one + one.conj().T
        two = two + two.conj().T
    if rng.random() < 0.2:
        t = InteractionOperator.zero(n)
        t.constant, t.one_body_tensor, t.two_body_tensor = c, one, two
        return t
    return InteractionOperator(c, one, two)


def orbit(q, cx):
    p, q, r, s = q
    o = {(p, q, r, s), (q, p, s, r), (s, r, q, p), (r, s, p, q)}
    return o if cx else o | {(p, s, r, q), (q, r, s, p), (s, p, q, r), (r, q, p, s)}


def sym_int(rng, n, cx, typ):
    one, two = np.zeros((n,) * 2, dtype=complex), np.zeros((n,) * 4, dtype=complex)
    for _ in range(rng.randint(0, 4)):
        p, q = rng.randrange(n), rng.randrange(n)
        v = cval(rand_c(rng, real=typ != "c" or p == q))
        one[p, q], one[q, p] = v, v.conjugate()
    for _ in range(rng.randint(0, 4)):
        v = cval(rand_c(rng))
        for o in orbit([rng.randrange(n) for _ in range(4)], cx):
            two[o] = v
    return InteractionOperator(rng.choice([0, 1.5, 0.0, 2]), one, two)


# ---- programs ------------------------------------------------------------------------------
def small(t, m=2 ** 12):
    for x in terms(t, g625):
        c = x["c"]
        if max(abs(v) for v in c[:4]) > m or c[4] > 16:
            return False
    return True


def program(rng):
    n = rng.choice([1, 1, 2, 2, 2, 2, 3])
    regs, evs = [], []
    rotated = [0]
    exotic = [False]

    def do(e, run):
        out = observe(run)
        e["out"] = out
        e["regs"] = snap(regs)
        evs.append(e)
        return out["k"] == "ok"

    def put(v, i=None):
        if i is None:
            regs.append(v)
        else:
            regs[i - 1] = v
        return 0

    def make(nn=n):
        r = rng.random()
        typ = rng.choice(["c", "c", "c", "r", "i"])
        t = rand_poly(rng, nn, typ) if r < 0.4 else rand_int(rng, nn, typ, herm=rng.random() < 0.4) if r < 0.85 else rand_int(rng, nn, typ, sym=int(rng.random() < 0.5))
        e = {"op": "new", "k": kind(t), "n": nn, "ts": terms(t)}
        do(e, lambda: put(t))
    make()
    for _ in range(rng.randint(4, 9)):
        if not all(small(t) for t in regs):
            break
        if len(regs) < 2 and rng.random() < 0.5:
            make(n if rng.random() < 0.9 else n % 3 + 1)
            continue
        i = rng.randint(1, len(regs))
        X = regs[i - 1]
        K = kind(X)
        ops = ["alias", "bin", "bin", "bin", "scal", "scal", "div", "eq", "get", "set", "settensor", "iter", "rot", "proj", "tofermion", "count"]
        if K == "I":
            ops += ["unique", "unique", "normal", "normal", "herm", "isherm", "isherm"]
        op = rng.choice(ops)
        if len(regs) >= 5 and op in ("alias", "proj", "normal", "herm"):
            op = "iter"
        if op == "alias":
            do({"op": "alias", "i": i}, lambda: put(X))
        elif op == "bin":
            js = [j for j in range(1, len(regs) + 1) if K == "P" or kind(regs[j - 1]) == "I"]
            j = rng.choice(js)
            Y = regs[j - 1]
            o = rng.choice(["add", "sub", "mul"])
            if o == "sub" and not set(Y.n_body_tensors) <= set(X.n_body_tensors):
                o = "add"
            if o == "mul" and (exotic[0] or not (small(X, 2 ** 9) and small(Y, 2 ** 9))):
                o = "add"
            inp = int(len(regs) >= 5 or rng.random() < 0.5)
            if inp and Y.n_qubits == X.n_qubits and X is not Y and any(np.asarray(v).dtype.kind == "c" for v in Y.n_body_tensors.values()):
                pass

            def run():
                if inp:
                    z = X
                    if o == "add":
                        z += Y
                    elif o == "sub":
                        z -= Y
                    else:
                        z *= Y
                    if z is not X:
                        raise Bad("in-place operation returned another object")
                    return 0
                return put(X + Y if o == "add" else X - Y if o == "sub" else X * Y)
            if not do({"op": "bin", "o": o, "i": i, "j": j, "inp": inp}, run) and X.n_qubits == Y.n_qubits:
                break
        elif op in ("scal", "div"):
            o = rng.choice(["adds", "radds", "subs", "rsubs", "mul", "rmul", "neg", "mod"]) if op == "scal" else "div"
            real = all(np.asarray(v).dtype.kind in "fi" for v in X.n_body_tensors.values())
            if o == "mod" and not (real and all(np.all(np.asarray(v) == np.round(np.asarray(v))) for v in X.n_body_tensors.values())):
                o = "neg"
            if o == "mul" and not small(X, 2 ** 9):
                o = "neg"
            c = rand_c(rng)
            if o == "mod":
                c = (rng.choice([2, 3, 5]), 0, 0)
            if op == "div":
                c = rng.choice([(2, 0, 0), (4, 0, 0), (1, 0, 1), (-2, 0, 0), (0, 2, 0), (1, 0, 2)])
            v = creal(rng, c) if o in ("adds", "subs", "mul", "div") else cval(c) if c[1] else cval(c).real if o != "mod" else c[0]
            inp = int(o in ("adds", "subs", "mul", "div") and (rng.random() < 0.5 or len(regs) >= 5))
            if len(regs) >= 5 and not inp:
                continue

            def run():
                z = X
                if inp:
                    if o == "adds":
                        z += v
                    elif o == "subs":
                        z -= v
                    elif o == "mul":
                        z *= v
                    else:
                        z /= v
                    if z is not X:
                        raise Bad("in-place operation returned another object")
                    return 0
                return put({"adds": lambda: X + v, "radds": lambda: v + X, "subs": lambda: X - v, "rsubs": lambda: v - X, "mul": lambda: X * v,
                            "rmul": lambda: v * X, "neg": lambda: -X, "mod": lambda: X % v, "div": lambda: X / v}[o]())
            e = {"op": op, "i": i, "c": cring(c), "inp": inp}
            if op == "scal":
                e["o"] = o
            if not do(e, run):
                break
        elif op == "eq":
            j = rng.randint(1, len(regs))

            def run():
                a = as_bool(regs[i - 1] == regs[j - 1])
                if as_bool(regs[i - 1] != regs[j - 1]) == a:
                    raise Bad("== and != agree")
                return a
            do({"op": "eq", "i": i, "j": j}, run)
        elif op in ("get", "set"):
            keys = list(X.n_body_tensors)
            k = rng.choice(keys)
            f = tuple((rng.randrange(X.n_qubits), x) for x in k)
            if op == "get":
                do({"op": "get", "i": i, "f": [list(x) for x in f]}, lambda: g625(X[f]))
            else:
                typ = np.asarray(X.n_body_tensors[k]).dtype.kind
                c = rand_c(rng, real=typ != "c" and k != ())
                if typ == "i":
                    c = (c[0], 0, 0)

                def run():
                    X[f] = cval(c) if c[1] or typ == "c" else cval(c).real
                    return 0
                do({"op": "set", "i": i, "f": [list(x) for x in f], "c": cring(c)}, run)
        elif op == "settensor":
            k = rng.choice([(), (1, 0), (1, 1, 0, 0)]) if K == "I" else rng.choice(KEYS + [()])
            if k == ():
                c = rand_c(rng)

                def run():
                    X.constant = cval(c)
                    return 0
                do({"op": "settensor", "i": i, "key": [], "ts": [{"c": cring(c), "f": []}]}, run)
            else:
                a = arr(rng, X.n_qubits, len(k), dens_of(rng, X.n_qubits), "c")
                ts = terms(PolynomialTensor({k: a.copy()}))

                def run():
                    if K == "I" and rng.random() < 0.7:
                        if k == (1, 0):
                            X.one_body_tensor = a
                        else:
                            X.two_body_tensor = a
                    else:
                        X.n_body_tensors[k] = a
                    return 0
                do({"op": "settensor", "i": i, "key": list(k), "ts": ts}, run)
        elif op == "iter":
            do({"op": "iter", "i": i}, lambda: [[[int(a), int(b)] for a, b in t] for t in X])
        elif op == "unique":
            cx = int(rng.random() < 0.5)

            def run():
                it = X.unique_iter(complex_valued=bool(cx)) if cx or rng.random() < 0.5 else X.unique_iter()
                return [[[int(a), int(b)] for a, b in t] for t in it]
            do({"op": "unique", "i": i, "cx": cx}, run)
        elif op == "rot":
            m = X.n_qubits
            sp = int(m % 2 == 0 and rng.random() < 0.4)
            r = m // 2 if sp else m
            R, enc = rotation(rng, r, all(len(k) % 2 == 0 for k in X.n_body_tensors), rotated[0])
            if R is None:
                continue
            if not small(X, 2 ** 7):
                continue
            if any(v[5] for v in (x["v"] for x in enc)):
                rotated[0] = exotic[0] = True

            def run():
                X.rotate_basis(R)
                for a in X.n_body_tensors.values():     # rounding errors are not terms
                    if isinstance(a, np.ndarray):
                        a[np.abs(a) < 1e-12] = 0
                return 0
            if not do({"op": "rot", "i": i, "R": enc, "sp": sp}, run):
                break
            if exotic[0]:
                break_after = rng.random()
                if break_after < 0.5:
                    break
        elif op == "proj":
            m = X.n_qubits
            ex = int(rng.random() < 0.5)
            cnt = int(rng.random() < 0.5)
            sel = [rng.randint(0, min(4, m + 1))] if cnt else sorted(rng.sample(range(m), rng.randint(0, m)))
            v = sel[0] if cnt else rng.choice([tuple, list, set])(sel)

            def run():
                if K == "I":
                    return put(X.projected(v, exact=bool(ex)) if ex or rng.random() < 0.5 else X.projected(v))
                return put(PolynomialTensor(X.projected_n_body_tensors(v, bool(ex))))
            do({"op": "proj", "i": i, "cnt": cnt, "sel": sel, "exact": ex}, run)
            X = None
        elif op == "tofermion":
            do({"op": "tofermion", "i": i}, lambda: [{"c": t["c"], "f": t["f"]} for t in fenc(of.get_fermion_operator(X))])
        elif op == "count":
            do({"op": "count", "i": i}, lambda: as_int(count_qubits(X)))
        elif op == "normal":
            do({"op": "normal", "i": i}, lambda: put(normal_ordered(X)))
        elif op == "herm":
            do({"op": "herm", "i": i}, lambda: put(hermitian_conjugated(X)))
        elif op == "isherm":
            do({"op": "isherm", "i": i}, lambda: as_bool(is_hermitian(X)))
    return evs


def fenc(op):
    if type(op) is not FermionOperator:
        raise Bad("kind of operator")
    return [{"c": g625(c), "f": [[as_int(i), as_int(a)] for i, a in t]} for t, c in op.terms.items()]


def rotation(rng, r, even, rotated):
    """Unitary matrix as (array, entries)."""
    kind_ = rng.choice(["perm", "perm", "had", "pyth", "phase", "mix"])
    if kind_ == "had" and (not even or r != 2):
        kind_ = "perm"
    if kind_ in ("pyth",) and (rotated or r < 2):
        kind_ = "perm"
    R = np.zeros((r, r), dtype=complex)
    ent = {}
    if kind_ in ("perm", "phase", "mix"):
        p = list(range(r))
        if kind_ != "phase":
            rng.shuffle(p)
        for a in range(r):
            k = 0 if kind_ == "perm" else rng.randrange(4)
            ent[a, p[a]] = norm([[1, 0, 0, 0], [0, 0, 1, 0], [-1, 0, 0, 0], [0, 0, -1, 0]][k] + [0, 0])
            R[a, p[a]] = 1j ** k
    else:
        p, q = rng.sample(range(r), 2)
        for a in range(r):
            if a not in (p, q):
                ent[a, a] = [1, 0, 0, 0, 0, 0]
                R[a, a] = 1
        im = rng.random() < 0.4
        vals = [(1, 1, 1, -1)][0] if kind_ == "had" else (3, 4, -4, 3)
        den = ([1, 0], np.sqrt(2)) if kind_ == "had" else ([0, 1], 5.0)
        for (a, b), x in zip([(p, p), (p, q), (q, p), (q, q)], vals):
            ph = im and a == q
            ent[a, b] = norm(([0, 0, x, 0] if ph else [x, 0, 0, 0]) + den[0])
            R[a, b] = x * (1j if ph else 1) / den[1]
    if not np.any(R.imag) and rng.random() < 0.6:
        R = R.real.copy()
    return R, [{"i": a, "j": b, "v": v} for (a, b), v in ent.items()]


# ---- single questions --------------------------------------------------------------------------
def sub_missing(rng):
    n = rng.randint(1, 2)
    a, b = rand_poly(rng, n), rand_poly(rng, n)
    if set(b.n_body_tensors) <= set(a.n_body_tensors):
        return []
    regs = [a]
    evs = [{"op": "new", "k": "P", "n": n, "ts": terms(a), "out": {"k": "ok", "v": 0}, "regs": snap(regs)}]
    regs.append(b)
    evs.append({"op": "new", "k": "P", "n": n, "ts": terms(b), "out": {"k": "ok", "v": 0}, "regs": snap(regs)})
    evs.append({"op": "bin", "o": "sub", "i": 1, "j": 2, "inp": 0, "out": observe(lambda: (regs.append(a - b), 0)[1]), "regs": snap(regs)})
    return evs


def session_of(rng, *ts):
    """Registers and the events that make them, and a function that adds an event."""
    regs, evs = [], []

    def do(e, run):
        e["out"] = observe(run)
        e["regs"] = snap(regs)
        evs.append(e)
        return e["out"]["k"] == "ok"
    for t in ts:
        do({"op": "new", "k": kind(t), "n": t.n_qubits, "ts": terms(t)}, lambda: (regs.append(t), 0)[1])
    return regs, evs, do


def spin_events(rng):
    """Rotations of spatial orbitals of more than one orbital."""
    n = 4
    ts = {}
    for k in rng.sample([(1, 0), (1, 1, 0, 0), (0, 1), (1, 1), (0,), (1, 0, 1, 0)], rng.randint(1, 2)):
        a = np.zeros((n,) * len(k), dtype=complex)
        for _ in range(rng.randint(1, 3)):
            a[tuple(rng.randrange(n) for _k in k)] = cval(rand_c(rng))
        ts[k] = a
    if rng.random() < 0.3:
        ts[()] = 1.5
    if rng.random() < 0.4:
        t = InteractionOperator(0.5, ts.get((1, 0), np.zeros((n, n), dtype=complex)), ts.get((1, 1, 0, 0), np.zeros((n,) * 4, dtype=complex)))
    else:
        t = PolynomialTensor(ts)
    regs, evs, do = session_of(rng, t)
    R, enc = rotation(rng, 2, all(len(k) % 2 == 0 for k in t.n_body_tensors), 0)
    if do({"op": "rot", "i": 1, "R": enc, "sp": 1}, lambda: (regs[0].rotate_basis(R), 0)[1]) and not any(x["v"][5] for x in enc):
        do({"op": "tofermion", "i": 1}, lambda: [{"c": x["c"], "f": x["f"]} for x in fenc(of.get_fermion_operator(regs[0]))])
    return evs


def shared_events(rng):
    """Results don't share arrays with what they were made of."""
    n = rng.randint(1, 2)
    ks = rng.sample([(1, 0), (1, 1), (0, 1), (0, 0)], 3)
    mk = lambda kk: PolynomialTensor({k: arr(rng, n, len(k), 0.7, "c") for k in kk})
    a, b = mk(ks[:1]), mk(ks[1:2 if rng.random() < 0.5 else 3])
    regs, evs, do = session_of(rng, a, b)
    inp = int(rng.random() < 0.5)

    def run():
        x = regs[0]
        if inp:
            x += regs[1]
            return 0
        regs.append(x + regs[1])
        return 0
    do({"op": "bin", "o": "add", "i": 1, "j": 2, "inp": inp}, run)
    res = 1 if inp else 3
    for _ in range(3):
        i = rng.choice([res, res, 2, 1])
        if i > len(regs):
            break
        X = regs[i - 1]
        k = rng.choice(list(X.n_body_tensors))
        f = tuple((rng.randrange(n), x) for x in k)
        c = rand_c(rng)

        def put():
            X[f] = cval(c)
            return 0
        do({"op": "set", "i": i, "f": [list(x) for x in f], "c": cring(c)}, put)
    return evs


def conv_events(rng):
    n = rng.randint(1, 3)
    evs, regs = [], []
    bad = rng.random() < 0.25
    raw = mol_f(rng, n, 3) if not bad else rand_fop(rng, n, 3)
    if rng.random() < 0.3:
        raw = herm_raw(rng, n, 2)
    op = fop(rng, n, raw)
    if any(c == 0 for c in op.terms.values()):
        return []
    ts = fenc(op)
    w = max([i for t in ts for i, _ in t["f"]] + [-1]) + 1
    for what in ("toint", "topoly"):
        ns = rng.choice([[], [w], [w + 1], [max(0, w - 1)]])
        if ns and ns[0] > 3:
            ns = [w]
        if what == "toint":
            sym = int(rng.random() < 0.08 and len(ts) > 0)
            o2 = FermionOperator()
            for t, c in op.terms.items():
                o2 += FermionOperator(t, c * sympy.Symbol("x") if sym else c)

            def run():
                r = zu.get_interaction_operator(o2, *ns) if hasattr(zu, "get_interaction_operator") and False else of.get_interaction_operator(o2, *ns) if rng.random() < 0.5 or not ns else of.get_interaction_operator(o2, n_qubits=ns[0])
                regs.append(r)
                return 0
            e = {"op": "toint", "ts": ts, "ns": ns, "sym": sym}
        else:
            nf = normal_ordered(op)
            if not [t for t in nf.terms if t]:
                continue

            def run():
                regs.append(zu.get_polynomial_tensor(op, *ns))
                return 0
            e = {"op": "topoly", "ts": ts, "ns": ns}
        e["out"] = observe(run)
        e["regs"] = snap(regs)
        evs.append(e)
    if rng.random() < 0.3:
        m, k = rng.randint(1, 4), rng.choice([None, 0, 1, 2, 3])

        def run():
            regs.append(zu.get_fermion_number_operator(m) if k is None else zu.get_fermion_number_operator(m, k))
            return 0
        e = {"op": "numberop", "n": m, "np": k or 0, "out": observe(run)}
        e["regs"] = snap(regs)
        evs.append(e)
    return evs


def reject_events(rng):
    n = rng.randint(1, 2)
    P, I = rand_poly(rng, n), rand_int(rng, n)
    R = InteractionRDM(arr(rng, n, 2, .5, "c"), arr(rng, n, 4, .5, "c"))
    F, Q = FermionOperator("1^ 0"), QubitOperator("X0")

    def ip(f, t, y):
        t = copy.deepcopy(t)
        if f == "+":
            t += y
        elif f == "-":
            t -= y
        elif f == "*":
            t *= y
        else:
            t /= y
    cases = {
        "add string": lambda: P + "x", "sub list": lambda: I - [1], "mul string": lambda: I * "x", "div tensor": lambda: P / P, "mul operator": lambda: P * F,
        "iadd operator": lambda: ip("+", I, F), "isub string": lambda: ip("-", P, "x"), "imul list": lambda: ip("*", I, [2]), "idiv tensor": lambda: ip("/", I, I),
        "to fermions of fermions": lambda: of.get_fermion_operator(F), "to interaction of qubits": lambda: of.get_interaction_operator(Q), "to tensors of qubits": lambda: zu.get_polynomial_tensor(Q),
        "expectation of fermions": lambda: R.expectation(F), "expectation of number": lambda: R.expectation(2.0), "normal order of qubits": lambda: normal_ordered(Q),
        "conjugate of tensor": lambda: hermitian_conjugated(P), "conjugate of string": lambda: hermitian_conjugated("x"), "count of string": lambda: count_qubits("x"),
        "is hermitian of string": lambda: is_hermitian("x"), "diagonal of fermions": lambda: zu.get_diagonal_component(F)}
    what = rng.choice(sorted(cases))
    return [{"op": "reject", "what": what, "out": observe(lambda: (cases[what](), 0)[1]), "regs": []}]


def freeze_events(rng):
    n = rng.randint(1, 4)
    raw = mol_f(rng, n, 4) if rng.random() < 0.6 else rand_fop(rng, n, 4)
    op = fop(rng, n, raw)
    ts = fenc(op)
    S = rng.sample(range(n), rng.randint(0, n))
    k = rng.randint(0, len(S))
    occ, un = S[:k], S[k:]
    prune = int(rng.random() < 0.5)
    kw = {}
    if un or rng.random() < 0.3:
        kw["unoccupied"] = un
    if not prune or rng.random() < 0.5:
        kw["prune"] = bool(prune)

    def run():
        r = of.freeze_orbitals(op, occ, **kw)
        if fenc(op) != ts:
            raise Bad("argument changed")
        return fenc(r)
    return [{"op": "freeze", "ts": ts, "n": n, "occ": occ, "un": un, "prune": prune, "out": observe(run), "regs": []}]


def active_events(rng):
    n = rng.choice([2, 4, 4, 6])
    one, two = np.zeros((n,) * 2, dtype=complex), np.zeros((n,) * 4, dtype=complex)
    for _ in range(rng.randint(1, 5)):
        one[rng.randrange(n), rng.randrange(n)] += cval(rand_c(rng))
    for _ in range(rng.randint(1, 5)):
        q = [rng.randrange(n) for _ in range(4)]
        two[tuple(q)] += cval(rand_c(rng))
        if rng.random() < 0.5:
            two[q[0], q[1], q[1], q[0]] += cval(rand_c(rng))
        if rng.random() < 0.5:
            two[q[0], q[1], q[0], q[1]] += cval(rand_c(rng))
    t = InteractionOperator(cval(rand_c(rng)), one, two)
    regs = [t]
    evs = [{"op": "new", "k": "I", "n": n, "ts": terms(t), "out": {"k": "ok", "v": 0}, "regs": snap(regs)}]
    core = rng.randint(0, n // 2)
    na = rng.choice([[], [rng.randint(0, n // 2 - core)], [rng.randint(0, n // 2 - core)]])
    kw = {}
    if na:
        kw["n_active"] = na[0]
    if core or rng.random() < 0.5:
        kw["n_core"] = core

    def run():
        regs.append(zu.remove_inactive_orbitals(t, **kw))
        return 0
    e = {"op": "active", "i": 1, "core": core, "na": na, "out": observe(run)}
    e["regs"] = snap(regs)
    evs.append(e)
    return evs


# ---- density matrices -----------------------------------------------------------------------
PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def measured(v, n):
    """All Pauli expectation values of a state, as a measured operator would carry them."""
    op = QubitOperator()
    import itertools
    for ls in itertools.product("IXYZ", repeat=n):
        M = np.eye(1)
        for x in ls:
            M = np.kron(M, PAULI[x])
        op.terms[tuple((i, x) for i, x in enumerate(ls) if x != "I")] = complex(np.vdot(v, M @ v))
    return op


def rdm_events(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    how = rng.choice(["meas", "meas", "hf", "ground"])
    regs = []
    fixed = True
    if how == "hf" and n >= 2:
        orb = rng.randint(1, 2)
        n = 2 * orb
        a, b = rng.randint(0, orb), rng.randint(0, orb)
        occ = [2 * i for i in range(a)] + [2 * i + 1 for i in range(b)]
        s = [(sum(2 ** (n - 1 - m) for m in occ), [1, 0, 0, 0, 0, 0], 1)]
        run = lambda: zu.hf_rdm(a, b, orb)
    elif how == "ground" and n >= 2:
        n = min(n, 3)
        ne = rng.randint(0, n)
        p, q = rng.sample(range(n), 2)
        es = [rng.choice([1, -1]) * x for x in rng.sample([1, 2, 4, 8], n)]
        es[p] = es[q] = -16 if rng.random() < 0.5 else 16
        op = FermionOperator()
        for m in range(n):
            op += FermionOperator(((m, 1), (m, 0)), float(es[m]))
        t = rng.choice([0.5, -0.5, 0.5j, -1.5j, 1.5])
        op += FermionOperator(((p, 1), (q, 0)), t) + FermionOperator(((q, 1), (p, 0)), complex(t).conjugate())
        # exact ground state: pair with coefficient (1, -phase)/sqrt 2, others by energy
        others = sorted((es[m], m) for m in range(n) if m not in (p, q))
        best = None
        for pair in (0, 1, 2):
            k = ne - pair
            if not 0 <= k <= len(others):
                continue
            E = sum(e for e, _ in others[:k]) + (0 if pair == 0 else es[p] - abs(t) if pair == 1 else 2 * es[p])
            if best is None or E < best[0]:
                best = (E, pair, [m for _, m in others[:k]])
        _, pair, occ = best
        idx = lambda o: sum(2 ** (n - 1 - m) for m in o)
        if pair != 1:
            s = [(idx(occ + ([p, q] if pair else [])), [1, 0, 0, 0, 0, 0], 1)]
        else:
            # H restricted to {p, q}: <q..|H|p..> = conj(t) sign; signs from the modes between them
            sg = (-1) ** sum(1 for m in occ if min(p, q) < m < max(p, q))
            w = -sg * complex(t).conjugate() / abs(t)
            w = complex(round(w.real), round(w.imag))
            s = [(idx(occ + [p]), [1, 0, 0, 0, 1, 0], 1 / S2), (idx(occ + [q]), norm([int(w.real), 0, int(w.imag), 0, 1, 0]), w / S2)]
        H = of.jordan_wigner(op)
        run = lambda: zu.get_ground_state_rdm_from_qubit_op(H, ne)
        if count_qubits(H) != n:
            return []
    else:
        fixed = rng.random() < 0.7
        ne = rng.randint(0, n)
        pool = [c for c in range(2 ** n) if bin(c).count("1") == ne] if fixed else None
        s = rand_state(rng, n, pool)
        M = measured(sv(n, s), n)
        run = lambda: get_interaction_rdm(M, *([n] if rng.random() < 0.5 else []))
    e = {"op": "rdmof", "n": n, "v": senc(s), "out": observe(lambda: (regs.append(run()), 0)[1])}
    e["regs"] = snap(regs)
    evs = [e]
    if e["out"]["k"] != "ok":
        return evs
    D = regs[0]
    H = rand_int(rng, n) if n < 4 else InteractionOperator(cval(rand_c(rng)), arr(rng, n, 2, .3, "c"), arr(rng, n, 4, .05, "c"))
    regs.append(H)
    evs.append({"op": "new", "k": "I", "n": n, "ts": terms(H), "out": {"k": "ok", "v": 0}, "regs": snap(regs)})
    evs.append({"op": "contract", "i": 2, "j": 1, "out": observe(lambda: g25(D.expectation(H))), "regs": snap(regs)})
    if fixed:
        for _ in range(2):
            op, ts = QubitOperator(), []
            for _ in range(rng.randint(1, 3)):
                m = rng.randint(0, n)
                f = [[i, rng.choice("XYZ")] for i in sorted(rng.sample(range(n), m))]
                op += QubitOperator(tuple((i, x) for i, x in f), creal(rng, rand_c(rng)))
            if any(c == 0 for c in op.terms.values()):
                continue
            ts = enc_t(op)

            def run():
                val = g25(D.expectation(op))
                ex = D.get_qubit_expectations(op)
                if enc_t(op) != ts:
                    raise Bad("argument changed")
                return {"val": val, "ex": [{"f": [[as_int(i), x] for i, x in t], "c": g25(c)} for t, c in ex.terms.items()]}
            evs.append({"op": "rdmq", "n": n, "ts": ts, "v": senc(s), "out": observe(run), "regs": snap(regs)})
    return evs


def o06(out, rng):
    for _ in range(n_of(150)):
        out.session(program(rng), key="program")
        out.session(freeze_events(rng), key="freeze")
        if rng.random() < 0.3:
            out.session(spin_events(rng), key="spin")
        if rng.random() < 0.3:
            out.session(shared_events(rng), key="shared")
        if rng.random() < 0.6:
            out.session(conv_events(rng), key="conv")
        if rng.random() < 0.35:
            out.session(active_events(rng), key="active")
        if rng.random() < 0.4:
            out.session(rdm_events(rng), key="rdm")
        if rng.random() < 0.3:
            out.session(reject_events(rng), key="reject")
        if rng.random() < 0.05:
            out.session(sub_missing(rng), key="sub:missing")


if __name__ == "__main__":
    main({"O06": o06})
