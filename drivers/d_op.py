"""Symbolic operators, fermionic normal forms, fermion-to-qubit transforms: O01-O03."""
import copy
import numpy as np
import sympy
from drv import *
from zquantum.core import openfermion as of
from zquantum.core.openfermion import FermionOperator, IsingOperator, QubitOperator, InteractionOperator
from zquantum.core.openfermion.hamiltonians.special_operators import number_operator
from zquantum.core.openfermion.transforms.opconversions.jordan_wigner import jordan_wigner_one_body, jordan_wigner_two_body
from zquantum.core.openfermion.transforms.opconversions.term_reordering import chemist_ordered, normal_ordered, reorder
from zquantum.core.openfermion.utils.commutators import anticommutator, commutator, double_commutator
from zquantum.core.openfermion.utils.indexing import up_then_down
from zquantum.core.openfermion.utils.operator_utils import count_qubits, hermitian_conjugated, is_hermitian

CLS = {"q": QubitOperator, "i": IsingOperator, "f": FermionOperator}
ACT = {"q": "XYZ", "i": "Z", "f": [1, 0]}
SX, SY, SZ = sympy.Symbol("x"), sympy.Symbol("y", real=True), sympy.Symbol("z", negative=True)
SUBS = {SX: sympy.Rational(3), SY: sympy.Rational(1, 2), SZ: sympy.Rational(-2)}


def n_of(i):
    return THOROUGH * 9 * i + i


# ---- coefficients: (re, im, k) = (re + i im) / 2^k ---------------------------------
def cring(c):
    return norm([c[0], 0, c[1], 0, 2 * c[2], 0])


def cval(c):
    return complex(c[0], c[1]) / 2 ** c[2]


def creal(rng, c, sym=False):
    """The coefficient as a Python object of some numeric type."""
    z = cval(c)
    if sym and rng.random() < 0.6:
        e = sympy.Rational(c[0], 2 ** c[2]) + sympy.I * sympy.Rational(c[1], 2 ** c[2])
        s = rng.choice([None, SX, SY, SZ])
        if s is None:
            return e
        return e / SUBS[s] * s if rng.random() < 0.5 else s + (e - SUBS[s])
    r = rng.random()
    if c[1] == 0:
        if c[2] == 0 and r < 0.3:
            return c[0]
        return z.real if r < 0.7 else np.float64(z.real) if r < 0.8 else z
    return z if r < 0.8 else np.complex128(z)


COEFS = [(1, 0, 0), (-1, 0, 0), (2, 0, 0), (0, 1, 0), (0, -1, 0), (1, 1, 0), (1, 0, 1), (-3, 0, 1), (1, -2, 1), (5, 0, 2), (0, 3, 2), (-1, 0, 2), (3, 0, 0), (-7, 2, 3)]
BIG = [(1000, 0, 0), (4097, 0, 0), (-2 ** 16, 0, 0), (0, 3000, 0), (2 ** 15 + 1, 0, 1)]
SMALL = [(1, 0, 6), (-1, 0, 8), (0, 1, 7)]


def gz(z, h=20):
    """Gaussian dyadic number -> ring element."""
    if isinstance(z, sympy.Expr):
        z = complex(z.subs(SUBS))
    z = complex(z)
    if z != z or abs(z) == float("inf"):
        return NR
    for k in range(h + 1):
        x, y = z.real * 2 ** k, z.imag * 2 ** k
        if max(abs(x), abs(y)) > 2 ** 29:
            return NR
        if abs(x - round(x)) < 1e-7 and abs(y - round(y)) < 1e-7 and (k == h or max(abs(x - round(x)), abs(y - round(y))) < 1e-9 * 2 ** k + 1e-12 * abs(z) * 2 ** k):
            return norm([int(round(x)), 0, int(round(y)), 0, 2 * k, 0])
    return NR


def enc(op):
    for k, c in CLS.items():
        if type(op) is c:
            break
    else:
        raise Bad("not an operator: %r" % type(op))
    ts = []
    for t, c in op.terms.items():
        f = []
        for x in t:
            i, a = x
            f.append([as_int(i), a if isinstance(a, str) else as_int(a)])
        ts.append({"c": gz(c), "f": f})
    return {"k": k, "t": ts}


def enc_t(op):
    return [{"c": t["c"], "f": t["f"]} for t in enc(op)["t"]]


# ---- building --------------------------------------------------------------------
def fstr(k, f):
    if k == "f":
        return " ".join("%d%s" % (i, "^" if a else "") for i, a in f)
    return " ".join("%s%d" % (a, i) for i, a in f)


def cstr(c):
    z = cval(c)
    if c[1] == 0:
        return repr(z.real) if c[2] or c[0] % 2 else "%d" % c[0]
    return str(z)


def build(rng, e, sym=False):
    K, how, ts = CLS[e["k"]], e["how"], e["raw"]
    tup = lambda f: tuple((i, a) for i, a in f)
    if how == "zero":
        return K.zero() if rng.random() < 0.5 else K()
    if how == "identity":
        return K.identity() if rng.random() < 0.5 else K(rng.choice(["", (), []]))
    if how == "long":
        s = ""
        for c, f in ts:
            if s:
                s += rng.choice([" +\n", " + ", "+"])
            r = rng.random()
            if c == (1, 0, 0) and r < 0.3:
                pass
            elif c == (-1, 0, 0) and r < 0.3:
                s += "-"
            elif c[1] and c[0] and r < 0.3:     # without parentheses
                s += cstr(c).strip("()")
            else:
                s += cstr(c)
            s += rng.choice([" ", ""]) + "[" + fstr(e["k"], f) + "]"
        return K(s)
    if how == "longc":
        c0, f0 = ts[0]
        return K("1 [%s]" % fstr(e["k"], f0), cval(c0))
    ops = []
    for c, f in ts:
        z = creal(rng, c, sym)
        r = how if how != "mix" else rng.choice(["tuple", "list", "str", "scaled", "single"])
        if r == "single" and len(f) == 1:
            ops.append(K(tuple(f[0]), z))
        elif r in ("tuple", "single"):
            ops.append(K(tup(f), z))
        elif r == "list":
            ops.append(K(list(tup(f)), z))
        elif r == "str":
            ops.append(K(fstr(e["k"], f), z))
        elif r == "scaled":
            o = K(tup(f))
            o *= z
            ops.append(o)
        else:
            raise KeyError(r)
    if len(ops) == 1:
        return ops[0]
    r = rng.random()
    if r < 0.3:
        return K.accumulate(ops)
    if r < 0.5:
        return sum(ops[1:], ops[0])
    o = K() if r < 0.8 else K.zero()
    for x in ops:
        o += x
    return o


def rand_f(rng, k, n, m, const=0.1):
    if rng.random() < const:
        return []
    return [[rng.randrange(n), rng.choice(ACT[k])] for _ in range(rng.randint(1, m))]


def rand_c(rng, big=0.0, real=False):
    r = rng.random()
    while True:
        c = rng.choice(BIG if r < big else SMALL if r < 1.5 * big else COEFS)
        if not (real and c[1]):
            return c


def new(rng, k, n, m, nt, how=None, big=0.0, ts=None, real=False):
    how = how or rng.choice(["tuple", "list", "str", "long", "longc", "mix", "mix", "mix", "mix", "scaled", "zero", "identity"])
    if ts is None:
        ts = [(rand_c(rng, big, real), rand_f(rng, k, n, m)) for _ in range(rng.randint(1, nt))]
    if how in ("tuple", "list", "str", "longc"):
        ts = ts[:1]
    if how == "zero":
        ts = []
    if how == "identity":
        ts = [((1, 0, 0), [])]
    return {"op": "new", "k": k, "how": how, "raw": ts, "ts": [{"c": cring(c), "f": f} for c, f in ts]}


def size_ok(regs):
    if max([bits(r)[0] for r in regs] or [0]) + max([bits(r)[1] for r in regs] or [0]) > 24:
        return False
    for r in regs:
        if len(r.terms) > 24 or any(abs(complex(c.subs(SUBS) if isinstance(c, sympy.Expr) else c)) > 2 ** 14 or len(t) > 8 for t, c in r.terms.items()):
            return False
    return True


def bits(x):
    """(log2 of the largest coefficient, log2 of the largest denominator); both grow in exact arithmetic."""
    m, d = 0, 0
    for c in x.terms.values():
        g = gz(c)
        m = max(m, max(abs(v) for v in g[:4]).bit_length() - g[4] // 2)
        d = max(d, (g[4] + 1) // 2)
    return m, d


def fits(*xs, times=0):
    """Do product and sum of the operators stay within 30 bits?"""
    bs = [bits(x) for x in xs]
    if times:
        return times * sum(bs[0]) + 4 * times <= 29 and times * bs[0][1] <= 18
    return sum(d for m, d in bs) <= 18 and sum(m + d for m, d in bs) + 5 <= 29


def degree_ok(x, y):
    return len(x.terms) * len(y.terms) <= 60 and fits(x, y)


def run_event(rng, regs, e, sym=False):
    """Execute e on the registers; returns the outcome."""
    o = e["op"]
    X = regs[e["i"] - 1] if "i" in e else None
    Y = regs[e["j"] - 1] if "j" in e else None

    def put(v, i=None):
        if i is None:
            regs.append(v)
        else:
            regs[i - 1] = v
        return 0
    if o == "new":
        return observe(lambda: put(build(rng, e, sym)))
    if o == "alias":
        return observe(lambda: put(X))
    if o == "copy":
        return observe(lambda: put(copy.deepcopy(X) if rng.random() < 0.8 else X + 0))
    if o == "bin":
        def run():
            b = e["o"]
            if e["inp"]:
                z = X
                if b == "add":
                    z += Y
                elif b == "sub":
                    z -= Y
                else:
                    z *= Y
                if z is not X:
                    raise Bad("in-place operation returned another object")
                return 0
            return put(X + Y if b == "add" else X - Y if b == "sub" else X * Y)
        return observe(run)
    if o in ("scal", "div"):
        def run():
            c = creal(rng, e["rawc"], sym)
            b = e.get("o", "div")
            z = X
            if e["inp"]:
                if b == "adds":
                    z += c
                elif b == "subs":
                    z -= c
                elif b == "mul":
                    z *= c
                elif b == "div":
                    z /= c
                if z is not X:
                    raise Bad("in-place operation returned another object")
                return 0
            return put({"adds": lambda: X + c, "radds": lambda: c + X, "subs": lambda: X - c, "rsubs": lambda: c - X,
                        "mul": lambda: X * c, "rmul": lambda: c * X, "neg": lambda: -X, "div": lambda: X / c}[b]())
        return observe(run)
    if o == "pow":
        return observe(lambda: put(X ** e["n"]))
    if o == "sum":
        def run():
            ops = [regs[i - 1] for i in e["is"]]
            r = rng.random()
            if r < 0.4:
                return put(type(ops[0]).accumulate(ops))
            if r < 0.7:
                return put(type(ops[0]).accumulate(ops[1:], start=ops[0]))
            return put(sum(ops))
        return observe(run)
    if o == "parts":
        def run():
            if e["how"] == "iter":
                ps = [p for p in X]
            elif e["how"] == "get":
                ps = list(X.get_operators())
            else:
                ps = list(X.get_operator_groups(e["rawn"]))
            return [enc_t(p) for p in ps]
        return observe(run)
    if o == "pairs":
        def run():
            r = []
            if e["how"] == "nested":
                for a in X:
                    for b in X:
                        r.append([enc_t(a), enc_t(b)])
            else:
                for a in X.get_operators():
                    for b in X.get_operators():
                        r.append([enc_t(a), enc_t(b)])
            return r
        return observe(run)
    if o == "eq":
        def run():
            a = as_bool(X == Y)
            if as_bool(X != Y) == a:
                raise Bad("== and != agree")
            if type(X) is type(Y) and as_bool(X.isclose(Y)) != a:
                raise Bad("isclose differs")
            return a
        return observe(run)
    if o == "compress":
        return observe(lambda: (X.compress(), len(X.terms))[1])
    if o == "str":
        return observe(lambda: put(type(X)(str(X) if rng.random() < 0.7 else repr(X))))
    if o == "order":
        return observe(lambda: as_int(X.many_body_order()))
    if o == "norm":
        return observe(lambda: gz(X.induced_norm() if e["p"] == 1 and rng.random() < 0.5 else X.induced_norm(e["p"]) ** e["p"]))
    if o == "const":
        return observe(lambda: gz(X.constant))
    if o == "setconst":
        def run():
            X.constant = creal(rng, e["rawc"], sym)
            return 0
        return observe(run)
    if o == "reject":
        return observe(lambda: put(REJ[e["what"]](rng, regs)))
    # fermions
    if o == "normal":
        return observe(lambda: put(normal_ordered(X)))
    if o == "herm":
        return observe(lambda: put(hermitian_conjugated(X)))
    if o == "comm":
        return observe(lambda: put(commutator(X, Y)))
    if o == "anti":
        return observe(lambda: put(anticommutator(X, Y)))
    if o == "dcomm":
        Z = regs[e["m"] - 1]
        return observe(lambda: put(double_commutator(X, Y, Z, **e.get("raw", {}))))
    if o == "chem":
        return observe(lambda: put(chemist_ordered(X)))
    if o == "reorder":
        def run():
            m, n = e["map"], len(e["map"])
            if e["how"] == "utd":
                return put(reorder(X, up_then_down, num_modes=n))
            if e["how"] == "utdr":
                return put(reorder(X, up_then_down, num_modes=n, reverse=True))
            if e["how"] == "auto":
                return put(reorder(X, lambda i, k: m[i]))
            if e["how"] == "rev":
                inv = [m.index(i) for i in range(n)]
                return put(reorder(X, lambda i, k: inv[i], num_modes=n, reverse=True))
            return put(reorder(X, lambda i, k: m[i], num_modes=n))
        return observe(run)
    if o == "isnormal":
        return observe(lambda: as_bool(X.is_normal_ordered()))
    if o == "isherm":
        return observe(lambda: as_bool(is_hermitian(X)))
    if o == "twobody":
        return observe(lambda: as_bool(X.is_two_body_number_conserving(bool(e["spin"])) if e["spin"] or rng.random() < 0.5 else X.is_two_body_number_conserving()))
    if o == "count":
        return observe(lambda: as_int(count_qubits(X)))
    if o == "number":
        def run():
            c = creal(rng, e["rawc"])
            return put(number_operator(e["n"], coefficient=c) if len(e["modes"]) == e["n"] and e["all"] else number_operator(e["n"], e["modes"][0], c))
        return observe(run)
    # transforms
    T = {"jw": of.jordan_wigner, "bk": of.bravyi_kitaev}

    def tr(op, n):
        if e["tr"] == "jw":
            return of.jordan_wigner(op)
        return of.bravyi_kitaev(op) if n is None else of.bravyi_kitaev(op, n) if rng.random() < 0.5 else of.bravyi_kitaev(op, n_qubits=n)
    if o == "ladder":
        def run():
            n = e["n"]
            return {"up": [enc_t(tr(FermionOperator(((m, 1),)), n)) for m in range(n)], "dn": [enc_t(tr(FermionOperator("%d" % m), n)) for m in range(n)]}
        return observe(run)
    if o == "map":
        return observe(lambda: put(tr(X, e["rawn"])))
    if o in ("mapint", "expand"):
        def run():
            op = interaction(e)
            if o == "expand":
                return put(of.get_fermion_operator(op))
            return put(tr(op, e["nn"] if e["nn"] != e["n"] or rng.random() < 0.5 else None))
        return observe(run)
    if o == "rev":
        return observe(lambda: put(of.reverse_jordan_wigner(X) if e["rawn"] is None else of.reverse_jordan_wigner(X, e["rawn"])))
    if o == "body":
        def run():
            idx = [x[0] for x in e["f"]]
            c = complex(cval(e["rawc"])) if e["rawc"][1] or rng.random() < 0.5 else cval(e["rawc"]).real
            return put(jordan_wigner_one_body(*idx, c) if len(idx) == 2 else jordan_wigner_two_body(*idx, c))
        return observe(run)
    raise KeyError(o)


def interaction(e):
    n = e["n"]
    dt = e["rawdt"]
    h, v = np.zeros((n,) * 2, dtype=dt), np.zeros((n,) * 4, dtype=dt)
    z = (lambda c: cval(c)) if dt is complex else (lambda c: cval(c).real)
    for i, c in e["rawh"]:
        h[tuple(i)] += z(c)
    for i, c in e["rawv"]:
        v[tuple(i)] += z(c)
    c = cval(e["rawcc"])
    if dt is not complex and np.all(h == np.round(h)) and np.all(v == np.round(v)) and (len(e["rawh"]) + len(e["rawv"])) % 2:
        h, v = h.astype(int), v.astype(int)     # the arrays may hold integers
    return InteractionOperator(c.real if e["rawcc"][1] == 0 else c, h, v)


BADTERMS = {
    "q": ["X", "A0", "X0 Q1", "X-1", "0X", "X0Y1 ", "I0", [(0, "A")], ((0, "X"), (-1, "Z")), ((0, 1),), ((1.5, "X"),), (("X", 0),), 7, ((0, "X", 1),), "X0 Z", "1.5.2 [X0]", "2+ [X0]"],
    "i": ["X0", "Y1", "Z", "Z-1", ((0, "X"),), ((0, "Y"), (1, "Z")), 3, "Z0 X1", "1 [X0]"],
    "f": ["0^ X", "^0", "-1^", "a", "0~", ((0, 2),), ((0, "^"),), ((-1, 1),), 2.5, ((0, 1, 1),), "x [0^ 0]", "0**"],
}


def bad_new(k):
    def run(rng, regs):
        return CLS[k](rng.choice(BADTERMS[k]))
    return run


def other(x):
    return {QubitOperator: FermionOperator("0^ 1"), FermionOperator: QubitOperator("X0"), IsingOperator: FermionOperator("1^")}[type(x)]


def inpl(o):
    def run(rng, regs):
        x = regs[0]
        y = rng.choice([other(x), "X0", None, [1], {}])
        z = x
        if o == "add":
            return x + y
        if o == "iadd":
            z += y
        elif o == "isub":
            z -= y
        elif o == "mul":
            return x * y
        elif o == "imul":
            z *= y
        elif o == "div":
            return x / rng.choice([other(x), x, "2", None])
        return z
    return run


REJ = {"bad term q": bad_new("q"), "bad term i": bad_new("i"), "bad term f": bad_new("f"),
       "bad coefficient": lambda rng, regs: type(regs[0])((), rng.choice(["1", None, [1], {}])),
       "power": lambda rng, regs: regs[0] ** rng.choice([-1, 0.5, 2.0, "2", 1.5]),
       "add": inpl("add"), "iadd": inpl("iadd"), "isub": inpl("isub"), "mul": inpl("mul"), "imul": inpl("imul"), "div": inpl("div"),
       "commutator types": lambda rng, regs: rng.choice([commutator, anticommutator])(regs[0], other(regs[0])),
       "normal order type": lambda rng, regs: normal_ordered(rng.choice([QubitOperator("X0"), "0^ 1", 1])),
       "transform type": lambda rng, regs: rng.choice([of.jordan_wigner, of.bravyi_kitaev])(rng.choice([QubitOperator("X0"), "0^", 3])),
       "reverse type": lambda rng, regs: of.reverse_jordan_wigner(rng.choice([FermionOperator("0^"), "X0", IsingOperator("Z0")])),
       "bk few qubits": lambda rng, regs: of.bravyi_kitaev(FermionOperator("%d^ 0" % 3), rng.choice([0, 1, 2, 3])),
       "bk few qubits tensor": lambda rng, regs: of.bravyi_kitaev(InteractionOperator(1.0, np.eye(4), np.zeros((4,) * 4)), rng.choice([1, 2, 3])),
       "reverse few qubits": lambda rng, regs: of.reverse_jordan_wigner(QubitOperator("X0 Z3"), rng.choice([0, 1, 2, 3])),
       }


def session(out, rng, plan, src, sym=False):
    """plan: iterator of events given the registers (None ends)."""
    regs, res = [], []
    while True:
        e = plan(regs, len(res))
        if e is None:
            break
        r = run_event(rng, regs, e, sym)
        e = {k: v for k, v in e.items() if not k.startswith("raw")}
        e["out"] = r
        if r["k"] == "bad":
            e["regs"] = []
        else:
            rr = observe(lambda: [enc(x) for x in regs])
            if rr["k"] != "ok":
                e["out"], e["regs"] = rr, []
            else:
                e["regs"] = rr["v"]
        res.append(e)
        if e["out"]["k"] == "bad" or (r["k"] != "ok" and e["op"] not in ("reject", "chem")):
            break
        if len(regs) > 9 or not size_ok(regs):
            break
    out.session(res, src=src)


LIBQ = {"q": [[((1, 0, 0), [[0, "X"]])], [((0, 1, 0), [[1, "Y"], [0, "Z"]]), ((1, 0, 1), [])], [((2, 0, 0), [[0, "X"], [1, "Z"], [0, "Y"]]), ((-1, 0, 0), [[1, "Z"]])]],
        "i": [[((1, 0, 0), [[0, "Z"]]), ((1, 0, 0), [])], [((1, 0, 1), [[1, "Z"], [0, "Z"]]), ((1, 0, 0), [[0, "Z"], [0, "Z"], [1, "Z"]])]]}


def from_prog(rng, prog):
    k = "q" if prog[0][2] == 0 else "i"
    evs = []
    for p in prog:
        if p[0] == "new":
            evs.append(new(rng, k, 2, 3, 3, how=rng.choice(["mix", "long"]), ts=LIBQ[k][p[1] - 1]))
        elif p[0] == "alias":
            evs.append({"op": "alias", "i": p[1]})
        elif p[0] == "scale":
            evs.append({"op": "scal", "o": "mul", "i": p[1], "inp": 1, "c": cring((0, 1, 0)), "rawc": (0, 1, 0)})
        else:
            evs.append({"op": "bin", "o": p[0], "i": p[1], "j": p[2], "inp": p[3]})
    evs.append({"op": "eq", "i": 1, "j": len([p for p in prog if p[0] in ("new", "alias") or (p[0] in ("add", "sub", "mul") and p[3] == 0)])})
    return lambda regs, i: evs[i] if i < len(evs) else None


def algebra_event(rng, regs, k, n, m, nt, big, sym):
    R = len(regs)
    i, j = rng.randint(1, R), rng.randint(1, R)
    r = rng.random()
    if r < 0.12 and R < 6:
        return new(rng, k, n, m, nt, big=big)
    if r < 0.18:
        return {"op": rng.choice(["alias", "copy"]), "i": i}
    if r < 0.45:
        o = rng.choice(["add", "sub", "mul"])
        if rng.random() < 0.1:
            j = i
        if o == "mul" and not degree_ok(regs[i-1], regs[j-1]):
            o = "add"
        return {"op": "bin", "o": o, "i": i, "j": j, "inp": int(rng.random() < 0.5)}
    if r < 0.62:
        if rng.random() < 0.3:
            c = rng.choice([(1, 0, 0), (2, 0, 0), (-2, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 1), (4, 0, 0), (0, -2, 0)])
            return {"op": "div", "i": i, "inp": int(rng.random() < 0.5), "c": cring(c), "rawc": c}
        inp = int(rng.random() < 0.5)
        o = rng.choice(["adds", "subs", "mul"] if inp else ["adds", "radds", "subs", "rsubs", "mul", "rmul", "neg"])
        c = rand_c(rng, big if sum(bits(regs[i-1])) < 10 else 0) if rng.random() < 0.9 else (0, 0, 0)
        return {"op": "scal", "o": o, "i": i, "inp": inp, "c": cring(c), "rawc": c}
    if r < 0.66:
        p = rng.choice([0, 1, 2, 3])
        return {"op": "pow", "i": i, "n": p if len(regs[i-1].terms) <= 3 and fits(regs[i-1], times=p) else min(p, 1)}
    if r < 0.7:
        return {"op": "sum", "is": [rng.randint(1, R) for _ in range(rng.randint(1, 4))]}
    if r < 0.74:
        X = regs[i-1]
        q = len(X.terms)
        how = rng.choice(["iter", "get", "groups"])
        nn = rng.randint(1, 5) if how == "groups" else q
        return {"op": "parts", "i": i, "how": how, "n": min(nn, q), "rawn": nn} if q and all(abs(complex(c.subs(SUBS) if isinstance(c, sympy.Expr) else c)) > 1e-9 for c in X.terms.values()) else {"op": "copy", "i": i}
    if r < 0.76:
        X = regs[i-1]
        q = len(X.terms)
        return {"op": "pairs", "i": i, "how": rng.choice(["nested", "get"]), "n": q} if q <= 4 and all(abs(complex(c.subs(SUBS) if isinstance(c, sympy.Expr) else c)) > 1e-9 for c in X.terms.values()) else {"op": "copy", "i": i}
    syms = lambda x: any(isinstance(c, sympy.Expr) for c in x.terms.values())
    if r < 0.84:
        if (syms(regs[i-1]) or syms(regs[j-1])) and regs[i-1] is not regs[j-1]:
            return {"op": "alias", "i": i}      # equal values need not be equal expressions
        return {"op": "eq", "i": i, "j": j}
    if r < 0.89:
        if syms(regs[i-1]) and any(gz(c) == [0] * 6 for c in regs[i-1].terms.values()):
            return {"op": "copy", "i": i}
        return {"op": "compress", "i": i}
    if r < 0.93:
        X = regs[i-1]
        if any(isinstance(c, sympy.Expr) for c in X.terms.values()) or not any(abs(c) > 1e-8 for c in X.terms.values()):
            return {"op": "order", "i": i}
        return {"op": "str", "i": i}
    if r < 0.95:
        return {"op": "order", "i": i}
    if r < 0.97:
        X = regs[i-1]
        if any(isinstance(c, sympy.Expr) or abs(c.imag) > 0 for c in X.terms.values()) or not fits(X, times=2):
            return {"op": "const", "i": i}
        return {"op": "norm", "i": i, "p": rng.choice([1, 2])}
    c = rand_c(rng)
    return rng.choice([{"op": "const", "i": i}, {"op": "setconst", "i": i, "c": cring(c), "rawc": c}])


def o01(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    for g in gen[:300 if not THOROUGH else 6000]:
        session(out, rng, from_prog(rng, g), "gen")
    for s in range(n_of(330)):
        k = rng.choice("qqqif")
        n, m, nt = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        big = rng.choice([0, 0, 0.4])
        sym = s % 10 == 0
        L = rng.randint(3, 12)

        def plan(regs, i):
            if i >= L:
                return None
            if i == 0 or (i == 1 and rng.random() < 0.8):
                return new(rng, k, n, m, nt, big=big)
            return algebra_event(rng, regs, k, n, m, nt, big, sym)
        session(out, rng, plan, "rand", sym)
    # nearly equal operators with large coefficients
    for _ in range(n_of(60)):
        k = rng.choice("qqif")
        nt = rng.randint(1, 6)
        seen, ts = set(), []
        while len(ts) < nt:
            f = sorted({(i, rng.choice(ACT[k])) for i in rng.sample(range(7), rng.randint(1, 3))})
            f = [list(x) for x in f]
            if str(f) in seen:
                continue
            seen.add(str(f))
            ts.append((rng.choice(BIG + COEFS + SMALL), f))
        us = list(ts)
        w = rng.randrange(nt)
        d = rng.choice([(1, 0, 4), (1, 0, 6), (0, 1, 5), (0, 0, 0)])
        c = us[w][0]
        K = max(c[2], d[2])
        us[w] = ((c[0] * 2 ** (K - c[2]) + d[0] * 2 ** (K - d[2]), c[1] * 2 ** (K - c[2]) + d[1] * 2 ** (K - d[2]), K), us[w][1])
        rng.shuffle(us)
        evs = [new(rng, k, 7, 3, nt, how="mix", ts=ts), new(rng, k, 7, 3, nt, how="mix", ts=us), {"op": "eq", "i": 1, "j": 2}, {"op": "eq", "i": 2, "j": 1}]
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "near")
    for _ in range(n_of(50)):
        k = rng.choice("qif")
        evs = [new(rng, k, 3, 2, 2)] + [{"op": "reject", "what": rng.choice(["bad term " + rng.choice("qif")] * 5 + ["bad coefficient", "power", "add", "iadd", "isub", "mul", "imul", "div"])} for _ in range(3)]
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "reject")


def herm_f(rng, n, m, nt):
    """A Hermitian sum of fermionic terms."""
    ts = []
    for _ in range(rng.randint(1, nt)):
        c, f = rand_c(rng), rand_f(rng, "f", n, m)
        ts.append((c, f))
        ts.append(((c[0], -c[1], c[2]), [[i, 1 - a] for i, a in reversed(f)]))
    return ts


def mol_f(rng, n, nt, spin=False):
    ts = []
    for _ in range(rng.randint(1, nt)):
        k = rng.choice([0, 1, 1, 2, 2, 2])
        acts = [1] * k + [0] * k
        if rng.random() < 0.5:
            rng.shuffle(acts)
        while True:
            f = [[rng.randrange(n), a] for a in acts]
            if not spin or sum((1 if (i + a) % 2 == 0 else -1) for i, a in f) == 0:
                break
        ts.append((rand_c(rng), f))
    return ts


def o02(out, rng):
    for _ in range(n_of(420)):
        n, m, nt = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 3)
        L = rng.randint(3, 10)

        def mk():
            r = rng.random()
            if r < 0.25:
                return new(rng, "f", n, 1, 1, how="mix", ts=mol_f(rng, n, nt, rng.random() < 0.5))
            if r < 0.4:
                return new(rng, "f", n, 1, 1, how="mix", ts=herm_f(rng, n, m, 2))
            return new(rng, "f", n, m, nt)

        def plan(regs, i):
            if i >= L:
                return None
            if i == 0 or (i == 1 and rng.random() < 0.7):
                return mk()
            R = len(regs)
            a, b = rng.randint(1, R), rng.randint(1, R)
            r = rng.random()
            X, Y = regs[a-1], regs[b-1]
            deg = lambda Z: max([len(t) for t in Z.terms] or [0])
            if r < 0.08:
                return mk()
            if r < 0.28:
                return {"op": "normal", "i": a} if deg(X) <= 6 else {"op": "herm", "i": a}
            if r < 0.4:
                return {"op": "herm", "i": a}
            if r < 0.52 and degree_ok(X, Y) and len(X.terms) * len(Y.terms) <= 12 and deg(X) + deg(Y) <= 8:
                return {"op": rng.choice(["comm", "anti"]), "i": a, "j": b}
            if r < 0.57 and len(X.terms) * len(Y.terms) <= 3 and deg(X) + 2 * deg(Y) <= 8:
                return {"op": "dcomm", "i": a, "j": b, "m": rng.choice([a, b])} if deg(X) * 2 + deg(Y) <= 9 else {"op": "isherm", "i": a}
            if r < 0.67:
                return {"op": "chem", "i": a}
            if r < 0.75:
                w = count_qubits(X)
                nm = max(w, n)
                if rng.random() < 0.4 or not any(X.terms):
                    half = -(-nm // 2)
                    mp = [i // 2 if i % 2 == 0 else i // 2 + half for i in range(nm)]
                    if rng.random() < 0.4:
                        return {"op": "reorder", "i": a, "map": [mp.index(i) for i in range(nm)], "how": "utdr"}
                    return {"op": "reorder", "i": a, "map": mp, "how": "utd"}
                how = rng.choice(["fn", "auto", "rev"])
                mp = list(range(w if how == "auto" else nm))
                rng.shuffle(mp)
                return {"op": "reorder", "i": a, "map": mp, "how": how}
            if r < 0.8:
                return {"op": "isnormal", "i": a}
            if r < 0.87:
                return {"op": "isherm", "i": a} if deg(X) <= 5 else {"op": "count", "i": a}
            if r < 0.92:
                return {"op": "twobody", "i": a, "spin": rng.randint(0, 1)}
            if r < 0.94:
                return {"op": "count", "i": a}
            if r < 0.97:
                c = rand_c(rng)
                al = rng.random() < 0.5
                nn = rng.randint(1, 4)
                return {"op": "number", "n": nn, "modes": list(range(nn)) if al else [rng.randrange(nn)], "all": int(al), "c": cring(c), "rawc": c}
            return {"op": "bin", "o": rng.choice(["add", "sub", "add"]), "i": a, "j": b, "inp": rng.randint(0, 1)}
        session(out, rng, plan, "rand")
    # hopping double commutators with the shortcut
    for _ in range(n_of(30)):
        ms = rng.sample(range(5), 3)
        i2, i3 = [ms[0], ms[1]], [ms[1], ms[2]]
        hop = lambda p, q, c: [(c, [[p, 1], [q, 0]]), ((c[0], -c[1], c[2]), [[q, 1], [p, 0]])]
        c2, c3 = rand_c(rng, real=True), rand_c(rng, real=True)
        raw = {"indices2": set(i2), "indices3": set(i3), "is_hopping_operator2": True, "is_hopping_operator3": True} if rng.random() < 0.8 else {"indices2": set(i2), "indices3": set(i3)}
        if rng.random() < 0.3:
            rng.shuffle(i2)
            rng.shuffle(i3)
        evs = [new(rng, "f", 5, 2, 2, how="mix", ts=mol_f(rng, 4, 2)), new(rng, "f", 5, 2, 2, how="mix", ts=hop(*i2, c2)), new(rng, "f", 5, 2, 2, how="mix", ts=hop(*i3, c3)),
               {"op": "dcomm", "i": 1, "j": 2, "m": 3, "raw": raw}]
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "hop")
    for _ in range(n_of(20)):
        k = rng.choice("qf")
        evs = [new(rng, k, 3, 2, 2, how="mix")] + [{"op": "reject", "what": rng.choice(["commutator types", "normal order type"])} for _ in range(2)]
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "reject")
    for _ in range(n_of(40)):
        evs = [new(rng, "q", 4, 3, 3, how="mix"), new(rng, "q", 4, 3, 3, how="mix")]
        evs += [{"op": rng.choice(["comm", "anti"]), "i": 1, "j": 2}, {"op": "herm", "i": 1}, {"op": "isherm", "i": rng.choice([1, 2, 3])}, {"op": "count", "i": rng.choice([1, 2, 3])}]
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "qubit")


def rand_int(rng, n, real, few=False):
    """Hermitian tensors as sparse lists."""
    H, V = {}, {}
    dt = float if real else complex

    def add(D, i, c):
        D[i] = D.get(i, 0) + c
    val = lambda: cval(rand_c(rng, real=real))
    for _ in range(rng.randint(0, 4)):
        p, q = rng.randrange(n), rng.randrange(n)
        c = val()
        add(H, (p, q), c)
        add(H, (q, p), c.conjugate())
    for _ in range(rng.randint(0, 2 if few else 4)):
        idx = [rng.randrange(n) for _ in range(4)] if rng.random() < 0.5 or n < 4 else rng.sample(range(n), 4)
        p, q, r, s = idx
        c = val()
        ps = [(p, q, r, s)]
        if rng.random() < 0.4:
            ps += [(q, p, s, r)]
        if real and rng.random() < 0.3:      # eightfold symmetric
            ps += [(p, s, r, q), (q, r, s, p), (s, p, q, r), (r, q, p, s)]
        for t in ps:
            add(V, t, c)
            add(V, (t[3], t[2], t[1], t[0]), c.conjugate())
    q = lambda z: tuple(int(round(x)) for x in (z.real * 8, z.imag * 8)) + (3,)
    h = [(list(i), q(c)) for i, c in H.items() if c]
    v = [(list(i), q(c)) for i, c in V.items() if c]
    c = (rng.choice([0, 1, -3, 5]), 0, rng.choice([0, 1, 2]))
    return {"c": cring(c), "h": [[i, cring(x)] for i, x in h], "v": [[i, cring(x)] for i, x in v], "rawh": h, "rawv": v, "rawcc": c, "n": n, "rawdt": dt}


def o03(out, rng):
    for _ in range(n_of(260)):
        tr = rng.choice(["jw", "bk", "bk"])
        n = rng.randint(1, 5) if rng.random() < 0.85 else rng.randint(6, 8)
        m, nt = rng.randint(1, 4 if n <= 5 else 2), rng.randint(1, 3)
        L = rng.randint(3, 8)

        def plan(regs, i):
            if i >= L:
                return None
            if i == 0:
                return {"op": "ladder", "tr": tr, "n": n}
            if i == 1:
                return new(rng, "f", n, m, nt, how="mix", ts=None if rng.random() < 0.6 else mol_f(rng, n, nt))
            fs = [j + 1 for j, x in enumerate(regs) if type(x) is FermionOperator]
            qs = [j + 1 for j, x in enumerate(regs) if type(x) is QubitOperator]
            r = rng.random()
            if r < 0.1:
                return new(rng, "f", n, m, nt)
            if r < 0.2:
                return new(rng, "q", n, min(n, 4), 2)
            if r < 0.27 and len(fs) >= 2:
                return {"op": "bin", "o": rng.choice(["add", "mul"]) if degree_ok(regs[fs[0]-1], regs[fs[1]-1]) and n <= 4 else "add", "i": fs[0], "j": fs[1], "inp": rng.randint(0, 1)}
            if r < 0.35:
                return {"op": "herm", "i": rng.choice(fs)}
            if r < 0.6 or not qs:
                a = rng.choice(fs)
                X = regs[a-1]
                if any(len(t) > 5 for t in X.terms) or len(X.terms) > 6 or count_qubits(X) > n:
                    return new(rng, "f", n, m, nt)
                return {"op": "map", "tr": tr, "i": a, "rawn": n if tr == "bk" else None}
            if r < 0.85:
                a = rng.choice(qs)
                X = regs[a-1]
                if len(X.terms) > 8 or count_qubits(X) > 5:
                    return new(rng, "q", n, min(n, 4), 2)
                w = count_qubits(X)
                return {"op": "rev", "i": a, "rawn": rng.choice([None, w, w + rng.randint(0, 2)])}
            return {"op": "bin", "o": rng.choice(["add", "sub"]), "i": qs[0], "j": rng.choice(qs), "inp": 0}
        session(out, rng, plan, "rand")
    for _ in range(n_of(130)):
        tr = rng.choice(["jw", "bk", "bk"])
        n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6] + ([7, 8] if THOROUGH else []))
        nn = n + (rng.choice([0, 0, 1, 2, 3]) if tr == "bk" else 0)
        real = rng.random() < 0.6
        evs = [{"op": "ladder", "tr": tr, "n": nn}]
        for _ in range(2):
            d = rand_int(rng, n, real, few=n > 4)
            evs.append(dict(d, op="mapint", tr=tr, nn=nn))
            if rng.random() < 0.4:
                evs.append(dict(d, op="expand", nn=nn))
        evs = evs[:4]
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "tensor")
    for _ in range(n_of(60)):
        evs = []
        for _ in range(2):
            n = rng.randint(2, 6)
            if rng.random() < 0.4:
                p, q = rng.randrange(n), rng.randrange(n)
                own = p == q
                c = rand_c(rng, real=own)
                f = [[p, 1], [q, 0]]
            else:
                while True:
                    idx = [rng.randrange(n) for _ in range(4)]
                    if rng.random() < 0.3 and n >= 4:
                        idx = rng.sample(range(n), 4)
                    if idx[0] != idx[1] and idx[2] != idx[3]:
                        break
                own = {idx[0], idx[1]} == {idx[2], idx[3]}
                c = rand_c(rng, real=own)
                f = [[i, a] for i, a in zip(idx, (1, 1, 0, 0))]
            evs.append({"op": "body", "f": f, "c": cring(c), "rawc": c, "own": int(own)})
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "body")
    for _ in range(n_of(20)):
        evs = [{"op": "reject", "what": rng.choice(["transform type", "reverse type", "bk few qubits", "bk few qubits tensor", "reverse few qubits"])} for _ in range(2)]
        session(out, rng, lambda regs, i: evs[i] if i < len(evs) else None, "reject")


if __name__ == "__main__":
    main({"O01": o01, "O02": o02, "O03": o03})
