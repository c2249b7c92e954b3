"""Building real circuits from specification-level descriptions, and back."""
import math
import numpy as np
import sympy
from drv import *
from zquantum.core import circuits as zc

FIX0 = ["X", "Y", "Z", "H", "I", "S", "T"]
ROT1 = ["RX", "RY", "RZ", "RH"]
FIX2 = ["CNOT", "CZ", "SWAP", "ISWAP"]
ROT2 = ["XX", "YY", "ZZ", "XY"]
ARITY = {**{g: 1 for g in FIX0 + ROT1 + ["PHASE", "U3"]}, **{g: 2 for g in FIX2 + ROT2 + ["CPHASE"]}}
NPAR = {**{g: 0 for g in FIX0 + FIX2}, **{g: 1 for g in ROT1 + ROT2 + ["PHASE", "CPHASE"]}, "U3": 3}
HALF = set(ROT1 + ROT2)          # gates whose angle enters halved
CUSTOM = {"cg_phase2": (1, 2), "cg_diag4": (2, 1), "cg_perm4": (2, 0), "cg_rot3": (1, 3)}
for g, (a, k) in CUSTOM.items():
    ARITY[g], NPAR[g] = a, k


CG_NAMES = ["a", "b", "c"]          # symbols of the user-defined gates' definitions


def custom_def(name, names=None):
    a, b, c = [sympy.Symbol(x) for x in names or CG_NAMES]
    i = sympy.I
    if name == "cg_phase2":
        return zc.CustomGateDefinition(name, sympy.Matrix([[sympy.exp(i * a), 0], [0, sympy.exp(i * (a + 2 * b))]]), (a, b))
    if name == "cg_diag4":
        return zc.CustomGateDefinition(name, sympy.diag(1, sympy.exp(i * a), sympy.exp(-i * a), -1), (a,))
    if name == "cg_perm4":
        return zc.CustomGateDefinition(name, sympy.Matrix([[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0]]), ())
    if name == "cg_rot3":
        return zc.CustomGateDefinition(name, sympy.Matrix([[0, sympy.exp(i * (a - c))], [sympy.exp(i * (b + c)), 0]]), (a, b, c))
    raise KeyError(name)


def angle(pq):
    return pq[0] * math.pi / 4 + pq[1] * ALPHA


def rand_angle(rng, half, q=True):
    f = 2 if half else 1
    p = rng.randint(-5, 9) * f
    qq = rng.choice([0, 0, 0, 1, -1]) * f if q else 0
    return [p, qq]


def needs_half(name, i):
    return name in HALF or (name == "U3" and i == 0)


def gate_cost(name, ps):
    """(k, m): bounds on sqrt2- and 5-denominators contributed by a gate."""
    if name == "H":
        return 1, 0
    if name == "U3":
        return 1, abs(ps[0][1]) // 2 + abs(ps[1][1]) + abs(ps[2][1])
    if name == "RH":
        return 2 + 2, abs(ps[0][1])
    if name in HALF:
        return (1 if (ps[0][0] // 2) % 2 else 0), abs(ps[0][1]) // 2
    if name in ("PHASE", "CPHASE", "cg_diag4"):
        return 0, abs(ps[0][1])
    if name == "cg_phase2":
        return 0, abs(ps[0][1]) + 2 * abs(ps[1][1])
    if name == "cg_rot3":
        return 0, abs(ps[0][1]) + abs(ps[1][1]) + abs(ps[2][1])
    return 0, 0


def rand_params(rng, name, q=True):
    return [rand_angle(rng, needs_half(name, i), q) for i in range(NPAR[name])]


ALLG = FIX0 + ROT1 + ["PHASE", "U3"] + FIX2 + ROT2 + ["CPHASE"]


def rand_op(rng, n, names=None, wrap=True, q=True, custom=False):
    """Specification-level operation {"n","p","w","q"}."""
    while True:
        name = rng.choice(names or (ALLG + (list(CUSTOM) if custom else [])))
        w = []
        if wrap:
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
                w.append(rng.choice([0, 0, 1, 1, 2]))
        ar = ARITY[name] + sum(w)
        if ar <= n:
            break
    qs = rng.sample(range(n), ar)
    return {"n": name, "p": rand_params(rng, name, q), "w": w, "q": qs}


def ops_cost(ops):
    k = m = 0
    for o in ops:
        a, b = gate_cost(o["n"], o["p"])
        k, m = k + a, m + b
    return (k + 1) // 2, m


def affordable(ops, lim=800):
    h, m = ops_cost(ops)
    return 2 ** h * 5 ** m <= lim


def rand_ops(rng, n, length, **kw):
    ops = []
    tries = 0
    while len(ops) < length and tries < 200:
        tries += 1
        o = rand_op(rng, n, **kw)
        if affordable(ops + [o]):
            ops.append(o)
    return ops


def base_gate(name, params):
    if name in CUSTOM:
        return custom_def(name)(*params)
    g = getattr(zc, name)
    return g(*params) if NPAR[name] else g


def wrap_gate(g, w):
    for x in w:
        g = g.dagger if x == 0 else g.controlled(x)
    return g


def real_param(pq, style, rng=None):
    if style == "float":
        return angle(pq)
    if style == "np":
        return np.float64(angle(pq))
    if style == "sympy":
        return sympy.Rational(pq[0], 4) * sympy.pi + pq[1] * sympy.atan2(3, 4)
    if style == "sfloat":
        return sympy.Float(angle(pq))
    raise KeyError(style)


def real_gate(o, params=None, style="float"):
    ps = params if params is not None else [real_param(x, style) for x in o["p"]]
    return wrap_gate(base_gate(o["n"], ps), o["w"])


def real_op(o, params=None, style="float"):
    return real_gate(o, params, style)(*o["q"])


def real_circuit(ops, n=None, style="float"):
    return zc.Circuit([real_op(o, style=style) for o in ops], n_qubits=n)


def enc_matrix(M, h, m, scale=1.0):
    a = np.array(M, dtype=complex)
    if a.ndim != 2:
        raise Bad("not a matrix: shape %r" % (a.shape,))
    return [[ring(complex(a[i, j]), h, m, scale) for j in range(a.shape[1])] for i in range(a.shape[0])]


def enc_vec(v, h, m, scale=1.0):
    a = np.array(v, dtype=complex)
    a = a.reshape(-1) if a.ndim == 2 and 1 in a.shape else a
    if a.ndim != 1:
        raise Bad("not a vector")
    return [ring(complex(x), h, m, scale) for x in a]


# projections of real gates / circuits --------------------------------------
def proj_angle(x):
    try:
        z = complex(x)
    except Exception:
        raise Bad("not an angle: %r" % (x,))
    if abs(z.imag) > 1e-9:
        raise Bad("complex angle: %r" % (x,))
    v = z.real
    for q in range(0, 40):
        for s in ((q, -q) if q else (0,)):
            p = (v - s * ALPHA) / (math.pi / 4)
            if abs(p) < 400 and abs(p - round(p)) < 1e-8:
                return [int(round(p)), s]
    raise Bad("angle not on the lattice: %r" % (x,))


def proj_lin(x, names):
    """sympy expression or number -> {"k","t"} with symbols numbered as in names."""
    if isinstance(x, sympy.Basic) and x.free_symbols:
        e = sympy.expand(x)
        t = []
        for s in e.free_symbols:
            if s.name not in names:
                raise Bad("unexpected symbol %s" % s.name)
            c = e.coeff(s, 1)
            if c.free_symbols:
                raise Bad("not linear: %s" % e)
            cf = complex(c)
            if abs(cf.imag) > 1e-9 or abs(cf.real - round(cf.real)) > 1e-9:
                raise Bad("coefficient: %s" % e)
            t.append([int(round(cf.real)), names.index(s.name) + 1])
            e = e - c * s
        e = sympy.expand(e)
        if e.free_symbols:
            raise Bad("not linear: %s" % x)
        return {"k": proj_angle(e), "t": sorted(t, key=lambda y: y[1])}
    return {"k": proj_angle(x), "t": []}


def proj_gate_struct(g):
    c, d = 0, False
    depth = 0
    while hasattr(g, "wrapped_gate") and depth < 20:
        if hasattr(g, "num_control_qubits"):
            c += as_int(g.num_control_qubits)
        else:
            d = not d
        g = g.wrapped_gate
        depth += 1
    return g, c, d


def proj_gate(gate, names):
    g, c, d = proj_gate_struct(gate)
    return {"n": g.name, "p": [proj_lin(x, names) for x in gate.params], "d": d, "c": c}


def proj_op(op, names):
    q = [as_int(i) for i in op.qubit_indices]
    if len(q) != op.gate.num_qubits or len(set(q)) != len(q) or min(q) < 0:
        raise Bad("a gate on %d qubits applied to %r" % (op.gate.num_qubits, q))
    return {"g": proj_gate(op.gate, names), "q": q}


def proj_circuit(c, names):
    return {"n": as_int(c.n_qubits), "ops": [proj_op(o, names) for o in c.operations]}


def proj_syms(syms, names):
    r = []
    for s in syms:
        if s.name not in names:
            raise Bad("unexpected symbol %s" % s)
        r.append(names.index(s.name) + 1)
    return r


def real_lin(e, names, style="float"):
    if not e["t"]:
        return real_param(e["k"], style)
    s = sympy.Integer(0)
    for c, i in e["t"]:
        s = s + c * sympy.Symbol(names[i - 1])
    if e["k"] != [0, 0]:
        s = s + real_param(e["k"], style)
    return s


def real_sop(o, names, style="float"):
    return wrap_gate(base_gate(o["n"], [real_lin(x, names, style) for x in o["p"]]), o["w"])(*o["q"])


NAME_POOLS = [
    ["alpha", "beta", "gamma", "theta"],
    ["theta_0", "theta_1", "theta_10", "theta_2"],
    ["B", "Z1", "a", "x"],
    ["x[0]", "x[1]", "x[10]", "y[0]"],
    ["E", "I", "N", "S"],
]
NAME_POOLS = [sorted(_p) for _p in NAME_POOLS]


def rand_lin(rng, half, nsym=3, numeric=0.3):
    """Random linear expression; even everywhere when it feeds a half-angle gate."""
    f = 2 if half else 1
    k = rand_angle(rng, half) if rng.random() < 0.5 else [0, 0]
    if rng.random() < numeric:
        return {"k": rand_angle(rng, half), "t": []}
    syms = rng.sample(range(1, nsym + 1), rng.choice([1, 1, 1, 2, 2]))
    t = [[f * rng.choice([1, 1, 1, -1, 2]), s] for s in sorted(syms)]
    return {"k": k, "t": t}


def rand_sop(rng, n, names=None, wrap=True, custom=True, nsym=3, numeric=0.3):
    o = rand_op(rng, n, names=names, wrap=wrap, custom=custom)
    o["p"] = [rand_lin(rng, needs_half(o["n"], i), nsym, numeric) for i in range(NPAR[o["n"]])]
    return o
