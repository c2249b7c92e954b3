"""Circuit-level drivers: C01 ..."""
import qdrv
from qdrv import *
from zquantum.core.circuits import Circuit


def c01(out, rng):
    N = 260 if not THOROUGH else 2000
    styles = ["float", "np", "sympy", "sfloat"]

    def one(ops, n, mode, style="float"):
        h, m = ops_cost(ops)
        h += 1
        if mode == "unitary":
            o = observe(lambda: real_circuit(ops, n, style).to_unitary(), lambda M: enc_matrix(M, h, m))
            out.one({"op": "unitary", "ops": ops, "n": n, "how": style, "out": o})
        elif mode == "symbolic":
            # each parameter becomes its own symbol; substituted after the product
            vals = {}
            rops = []
            qdrv.CG_NAMES = ["s_%d_%d" % (rng.randrange(max(1, len(ops))), j) for j in rng.sample(range(3), 3)]
            for i, s in enumerate(ops):
                ps = []
                for j, pq in enumerate(s["p"]):
                    if rng.random() < 0.8:
                        sym = sympy.Symbol("s_%d_%d" % (i, j))
                        vals[sym] = angle(pq)
                        ps.append(sym)
                    else:
                        ps.append(angle(pq))
                rops.append(real_op(s, ps))
            qdrv.CG_NAMES = ["a", "b", "c"]

            def run():
                M = zc.Circuit(rops, n_qubits=n).to_unitary()
                if vals:
                    M = M.subs(vals) if hasattr(M, "subs") else M
                return np.array(sympy.N(sympy.Matrix(M)).tolist(), dtype=complex)
            o = observe(run, lambda M: enc_matrix(M, h, m), limit=60)
            out.one({"op": "unitary", "ops": ops, "n": n, "how": "symbolic", "out": o})
        elif mode == "lifted":
            o = observe(lambda: real_op(ops[0], style=style).lifted_matrix(n), lambda M: enc_matrix(M, h, m))
            out.one({"op": "unitary", "ops": ops[:1], "n": n, "how": "lifted", "out": o})
        elif mode == "apply":
            vec = [[rng.randint(-2, 2), 0, rng.randint(-2, 2), 0, 0, 0] if rng.random() < 0.7 else [0] * 6
                   for _ in range(2 ** n)]
            v0 = np.array([ring_value(x) for x in vec])

            def run():
                v = v0.copy()
                for s in ops:
                    v = real_op(s, style=style).apply(v)
                return v
            nb = float(np.linalg.norm(v0)) + 1
            o = observe(run, lambda v: enc_vec(v, h, m, nb))
            out.one({"op": "apply", "ops": ops, "n": n, "vec": vec, "how": style, "out": o})

    # every gate x every ordered qubit tuple in a register of 3 (and 4 for pairs)
    for name in ALLG + list(CUSTOM):
        import itertools
        for n in ([3] if not THOROUGH else [2, 3, 4]):
            tups = list(itertools.permutations(range(n), ARITY[name]))
            for t in tups:
                o = {"n": name, "p": rand_params(rng, name), "w": [], "q": list(t)}
                one([o], n, "unitary", rng.choice(styles))
    for n in (4, 5):
        for t in itertools.permutations(range(n), 3):
            if n == 5 and not (THOROUGH or rng.random() < 0.15):
                continue
            if n == 4 and not (THOROUGH or rng.random() < 0.5):
                continue
            nm = rng.choice(["CNOT", "XX", "ISWAP", "cg_perm4", "XY"])
            o = {"n": nm, "p": rand_params(rng, nm), "w": [1], "q": list(t)}
            one([o], n, "lifted")
    # permutation-sensitive wide gates
    for n, w in ((4, 2), (5, 3), (5, 2)):
        for _ in range(6 if not THOROUGH else 40):
            qs = rng.sample(range(n), 2 + w)
            one([{"n": "cg_perm4", "p": [], "w": [w], "q": qs}], n, rng.choice(["unitary", "lifted"]))
    for i in range(N):
        n = rng.choice([1, 2, 2, 3, 3, 3, 4])
        ln = rng.randint(1, 6 if n < 4 else 4)
        mode = rng.choice(["unitary", "unitary", "unitary", "apply", "apply", "lifted"])
        ops = rand_ops(rng, n, ln, custom=True)
        one(ops, n, mode, rng.choice(styles))
    for i in range(24 if not THOROUGH else 150):
        n = rng.choice([1, 2, 2, 3])
        ops = rand_ops(rng, n, rng.randint(1, 3), custom=True)
        one(ops, n, "symbolic")
    # registers larger than the highest used qubit, and the empty product
    for n in (1, 2, 3):
        one([], n, "unitary")


def rand_word(rng, room):
    w = []
    for _ in range(rng.randint(0, 4)):
        k = rng.choice([0, 0, 1, 1, 2])
        if k <= room:
            w.append(k)
            room -= k
    return w


def c02(out, rng):
    def gate_event(name, p, w, ck, style):
        h, m = gate_cost(name, p)
        h = (h + 1) // 2 + 1

        def run():
            g = wrap_gate(base_gate(name, [real_param(x, style) for x in p]), w)
            base, c, d = proj_gate_struct(g)
            gd = g.dagger
            cg = g.controlled(ck)
            return {"arity": as_int(g.num_qubits), "canon": {"n": base.name, "d": d, "c": c},
                    "params": [proj_angle(x) for x in g.params],
                    "mat": enc_matrix(g.matrix, h, m), "dmat": enc_matrix(gd.matrix, h, m),
                    "dd": as_bool(gd.dagger == g), "selfadj": as_bool(gd == g),
                    "ck": ck, "cmat": enc_matrix(cg.matrix, h, m), "carity": as_int(cg.num_qubits)}
        out.one({"op": "gate", "n": name, "p": p, "w": w, "out": observe(run)})

    styles = ["float", "np", "sympy", "sfloat"]
    for name in ALLG + list(CUSTOM):
        for w in ([], [0], [1], [0, 1], [1, 0]):
            p = rand_params(rng, name)
            if name in ("U3",) and False:
                continue
            gate_event(name, p, w, 1, rng.choice(styles))
        for _ in range(4 if not THOROUGH else 40):
            w = rand_word(rng, 3 - ARITY[name])
            gate_event(name, rand_params(rng, name), w, rng.choice([1, 1, 2]), rng.choice(styles))
    # special angles of every parametrized gate: 0, pi, 2pi, 4pi, negative
    for name in ALLG + list(CUSTOM):
        if NPAR[name]:
            for v in (0, 2, 4, -4, 8, 16, -6, 12):
                gate_event(name, [[v, 0]] * NPAR[name], [], 1, rng.choice(["float", "sympy"]))

    # equality
    def eqev(a, b):
        def mk(o, style):
            return wrap_gate(base_gate(o["n"], [real_param(x, style) for x in o["p"]]), o["w"])
        o = observe(lambda: as_bool(mk(a, rng.choice(styles)) == mk(b, rng.choice(styles))))
        out.one({"op": "gate_eq", "a": a, "b": b, "out": o})
    for _ in range(250 if not THOROUGH else 1500):
        name = rng.choice(ALLG + list(CUSTOM))
        p = rand_params(rng, name)
        a = {"n": name, "p": p, "w": rand_word(rng, 4 - ARITY[name])}
        r = rng.random()
        if r < 0.5:        # same controls, same dagger parity, different word
            w2 = [x for x in a["w"] if x]
            tot = sum(w2)
            w2 = [tot] if rng.random() < 0.5 and tot else [1] * tot
            par = sum(1 for x in a["w"] if x == 0) % 2
            for _k in range(par + 2 * rng.randint(0, 1)):
                w2.insert(rng.randint(0, len(w2)), 0)
            b = {"n": name, "p": p, "w": w2}
        elif r < 0.7:
            b = {"n": name, "p": p, "w": rand_word(rng, 4 - ARITY[name])}
        elif r < 0.85 and p:
            q = [list(x) for x in p]
            i = rng.randrange(len(q))
            q[i][0] += 2
            b = {"n": name, "p": q, "w": a["w"]}
        else:
            n2 = rng.choice([x for x in ALLG + list(CUSTOM) if ARITY[x] == ARITY[name]])
            b = {"n": n2, "p": rand_params(rng, n2), "w": a["w"]}
        eqev(a, b)
    # a gate equals nothing of another kind: a wrapped gate, an operation, its name, its matrix ...
    for name in ALLG + list(CUSTOM):
        p = rand_params(rng, name)
        for w in ([], [1], [0]) + (([2], [1, 0], [0, 1]) if ARITY[name] == 1 else ()):
            def others():
                g = wrap_gate(base_gate(name, [real_param(x, "float") for x in p]), w)
                xs = [g.name, None, 3, g(*range(g.num_qubits)), tuple(g.params), base_gate, Circuit([g(*range(g.num_qubits))])]
                fs = []
                for x in xs:
                    fs += [as_bool(g == x), as_bool(x == g), 1 - as_bool(g != x)]
                return fs
            out.one({"op": "gate_other", "n": name, "p": p, "w": w, "out": observe(others)})
    for name in ALLG:
        for k in (0, -1, -2):
            for w in ([], [0]):
                out.one({"op": "bad_control", "n": name, "c": k, "out": observe(
                    lambda: wrap_gate(base_gate(name, [0.3] * NPAR[name]), w).controlled(k).num_qubits)})

    # symbolic gates: parameters, binding, replacement through every wrapper
    for _ in range(220 if not THOROUGH else 1500):
        sgate_event(out, rng)
    for _ in range(60 if not THOROUGH else 500):
        sgate_event(out, rng, own=True)


def rand_value(rng, half, nsym, sym=0.35):
    """Value for a symbol in a binding map."""
    if rng.random() < sym:
        return rand_lin(rng, half, nsym, 0.0)
    return {"k": rand_angle(rng, half), "t": []}


def rand_map(rng, nsym, half=True, sym=0.35, full=False):
    m = []
    r = rng.random()
    if r < 0.15 and not full:           # pure renaming / swap
        perm = list(range(1, nsym + 1))
        rng.shuffle(perm)
        return [[i + 1, {"k": [0, 0], "t": [[1, perm[i]]]}] for i in range(nsym)]
    for s in range(1, nsym + 1):
        if full or rng.random() < 0.6:
            m.append([s, rand_value(rng, half, nsym, 0.0 if full else sym)])
    rng.shuffle(m)
    return m


def real_map(m, names, rng):
    return {sympy.Symbol(names[s - 1]): real_lin(v, names, rng.choice(["float", "np", "sympy", "sfloat"])) for s, v in m}


def lin_subst_bound(ops, m):
    """bound on the 5-denominator after binding, over all parameters."""
    d = {s: v for s, v in m}
    k = mm = 0
    tot = []
    for o in ops:
        ps = []
        for e in o["p"]:
            a, b = e["k"]
            for c, s in e["t"]:
                v = d.get(s, {"k": [0, 0]})["k"]
                a, b = a + c * v[0], b + c * v[1]
            ps.append([a, b])
        tot.append({"n": o["n"], "p": ps})
    return ops_cost(tot)


def sgate_event(out, rng, own=False):
    names = rng.choice(NAME_POOLS)
    nsym = 4
    while True:
        o = rand_sop(rng, 3, custom=True, nsym=nsym, numeric=0.2, names=["cg_phase2", "cg_rot3", "cg_diag4"] if own else None)
        if o["p"]:
            break
    # user-defined gates applied to the very symbols of their definitions, in another order
    cg = rng.sample(names, 3) if own and "I" not in names else ["a", "b", "c"]
    if own:
        perm = rng.sample(range(1, nsym + 1), nsym)
        o["p"] = [{"k": [0, 0], "t": [[rng.choice([1, 1, 1, 2, -1]), perm[i]]]} if rng.random() < 0.8 else e for i, e in enumerate(o["p"])]
    m = rand_map(rng, nsym, full=rng.random() < 0.4 or own)
    new = [rand_lin(rng, needs_half(o["n"], i), nsym) for i in range(NPAR[o["n"]])]
    h, mm = lin_subst_bound([o], m)
    full = all(s in {x[0] for x in m if not x[1]["t"]} for e in o["p"] for _, s in e["t"])

    def run():
        qdrv.CG_NAMES = cg
        g = real_sop({**o, "q": list(range(ARITY[o["n"]] + sum(o["w"])))}, names).gate
        qdrv.CG_NAMES = ["a", "b", "c"]
        b = g.bind(real_map(m, names, rng))
        r = g.replace_params(tuple(real_lin(x, names) for x in new))
        v = {"free": proj_syms(g.free_symbols, names), "bound": proj_gate(b, names),
             "bfree": proj_syms(b.free_symbols, names), "repl": proj_gate(r, names),
             "orig": proj_gate(g, names)}
        if full and 2 ** h * 5 ** mm <= 3000:
            v["bmat"] = enc_matrix(b.matrix, h + 1, mm)
            if own:
                sub = sympy.Matrix(g.matrix).subs(real_map(m, names, rng), simultaneous=True)
                v["smat"] = enc_matrix(sympy.N(sub).tolist(), h + 1, mm)
        return v
    out.one({"op": "sgate", "n": o["n"], "p": o["p"], "w": o["w"], "map": m, "new": new, "out": observe(run, limit=60)})


class Session:
    """A register file of real circuits, mirrored by the specification's."""

    def __init__(self, out, rng, names, style="float"):
        self.out, self.rng, self.names, self.style = out, rng, names, style
        self.regs, self.ev, self.spec = [], [], []

    def dump(self):
        return [proj_circuit(c, self.names) for c in self.regs]

    def step(self, ev, fn, spec=None):
        """fn() -> new circuit (or None), appended to the registers."""
        def run():
            c = fn()
            if c is not None:
                self.regs.append(c)
            return {"regs": self.dump()}
        o = observe(run, limit=60)
        self.ev.append({**ev, "out": o})
        if o["k"] == "ok" and spec is not None:
            self.spec.append(spec)
        return o["k"] == "ok"

    def read(self, ev, fn):
        o = observe(fn, limit=60)
        self.ev.append({**ev, "out": o})

    def op(self, o):
        return real_sop(o, self.names, self.rng.choice(["float", "sympy", "sfloat"]) if self.style == "mix" else self.style)


def new_ev(S, ops, n, route="list"):
    rng = S.rng
    real = [S.op(o) for o in ops]
    def mk():
        it = real if route == "list" else (tuple(real) if route == "tuple" else (x for x in real))
        c = zc.Circuit(it, n) if n else zc.Circuit(it)
        if route == "list" and rng.random() < 0.4:      # the caller goes on using the list
            if rng.random() < 0.5:
                real.append(zc.X(rng.randrange(9)))
            else:
                real.clear()
        return c
    return S.step({"op": "new", "ops": ops, "n": n, "nbad": 0}, mk, ops)


def c03(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"])) if os.environ.get("VERIF_GEN") else []
    gen.sort(key=lambda g: json.dumps(g, sort_keys=True))
    rng.shuffle(gen)
    # (a) behaviours of the specification: build, bind in two orders, swap, unitary
    names = ["alpha", "beta"]
    L = lambda p, q: {"k": [p, q], "t": []}
    for g in gen[: 90 if not THOROUGH else 1156]:
        S = Session(out, rng, names)
        ops = [{"n": o["g"]["n"], "p": o["g"]["p"], "w": ([0] if o["g"]["d"] else []) + ([o["g"]["c"]] if o["g"]["c"] else []), "q": o["q"]} for o in g]
        new_ev(S, [], 0)
        for o in ops:
            i = len(S.regs)
            S.step({"op": "addop", "i": i, "o": o}, lambda: S.regs[i - 1] + S.op(o), ops)
        base = len(S.regs)
        m1, m2 = [[1, L(1, 1)]], [[2, L(-3, 0)]]
        def bind(i, m):
            rm = real_map(m, names, rng)
            return S.step({"op": "bind", "i": i, "map": m}, lambda: S.regs[i - 1].bind(rm), ops)
        def free(i):
            S.read({"op": "free", "i": i}, lambda: {"regs": S.dump(), "free": proj_syms(S.regs[i - 1].free_symbols, names)})
        free(base)
        if not (bind(base, m1) and bind(len(S.regs), m2) and bind(base, m2) and bind(len(S.regs), m1) and bind(base, m1 + m2)):
            out.session(S.ev, src="gen")
            continue
        b2, b4, b5 = base + 2, base + 4, base + 5
        free(base + 1)
        free(b2)
        for x, y in ((b2, b4), (b2, b5)):
            S.read({"op": "eq", "i": x, "j": y}, lambda: as_bool(S.regs[x - 1] == S.regs[y - 1]))
        h, mm = lin_subst_bound(ops, m1 + m2)
        if 2 ** h * 5 ** mm < 3000:
            S.read({"op": "reg_unitary", "i": b2}, lambda: enc_matrix(S.regs[b2 - 1].to_unitary(), h + 1, mm))
        sw = [[1, {"k": [0, 0], "t": [[1, 2]]}], [2, {"k": [0, 0], "t": [[1, 1]]}]]
        if bind(base, sw):
            k = len(S.regs)
            free(k)
            if bind(k, sw):
                z = len(S.regs)
                S.read({"op": "eq", "i": base, "j": z}, lambda: as_bool(S.regs[base - 1] == S.regs[z - 1]))
        out.session(S.ev, src="gen")
    # (b) random parametrized circuits and binding histories
    for _ in range(110 if not THOROUGH else 900):
        names = rng.choice(NAME_POOLS)
        nsym = 4
        S = Session(out, rng, names, "mix")
        n = rng.randint(2, 4)
        ops = [rand_sop(rng, n, nsym=nsym) for _k in range(rng.randint(1, 5))]
        new_ev(S, ops, rng.choice([0, n, n + 1]))
        ok = True
        for _k in range(rng.randint(2, 5)):
            if not ok or not S.regs:
                break
            i = rng.randint(1, len(S.regs))
            m = rand_map(rng, nsym, full=rng.random() < 0.3)
            rm = real_map(m, names, rng)
            before = dict(rm)
            ok = S.step({"op": "bind", "i": i, "map": m}, lambda: S.regs[i - 1].bind(rm), ops)
            j = len(S.regs)
            S.read({"op": "free", "i": j}, lambda: {"regs": S.dump(), "free": proj_syms(S.regs[j - 1].free_symbols, names)})
        if ok and S.regs:
            m = rand_map(rng, nsym, full=True)
            h, mm = lin_subst_bound(ops, m)
            if 2 ** h * 5 ** mm < 2000 and n <= 3:
                rm = real_map(m, names, rng)
                if S.step({"op": "bind", "i": 1, "map": m}, lambda: S.regs[0].bind(rm), ops):
                    j = len(S.regs)
                    S.read({"op": "reg_unitary", "i": j}, lambda: enc_matrix(S.regs[j - 1].to_unitary(), h + 1, mm))
        out.session(S.ev)
    # (c) single gates and multi-phase operations
    for _ in range(150 if not THOROUGH else 800):
        sgate_event(out, rng)
    for _ in range(60 if not THOROUGH else 500):
        sgate_event(out, rng, own=True)
    for _ in range(80 if not THOROUGH else 400):
        mpo_event(out, rng)


def mpo_event(out, rng):
    names = rng.choice(NAME_POOLS)
    n = rng.randint(1, 3)
    ps = [rand_lin(rng, False, 4) for _ in range(2 ** n)]
    m = rand_map(rng, 4, half=False, full=rng.random() < 0.6)
    vec = [[rng.randint(-2, 2), 0, rng.randint(-2, 2), 0, 0, 0] for _ in range(2 ** n)]
    bound = {x[0] for x in m if not x[1]["t"]}
    full = all(s in bound for e in ps for _, s in e["t"])
    d = {s: v for s, v in m}
    mm = max(abs(e["k"][1] + sum(c * d[s]["k"][1] for c, s in e["t"])) for e in ps) if full else 0

    def run():
        op = zc.MultiPhaseOperation(tuple(real_lin(e, names) for e in ps))
        b = op.bind(real_map(m, names, rng))
        v = {"free": proj_syms(op.free_symbols, names), "bound": [proj_lin(x, names) for x in b.params],
             "bfree": proj_syms(b.free_symbols, names), "orig": [proj_lin(x, names) for x in op.params]}
        if full and mm <= 3:
            v["vec"] = enc_vec(b.apply(np.array([ring_value(x) for x in vec])), 1, mm, 4.0)
        return v
    out.one({"op": "mpo", "p": ps, "map": m, "vec": vec, "out": observe(run)})


def c04(out, rng):
    for _ in range(170 if not THOROUGH else 1200):
        names = rng.choice(NAME_POOLS)
        S = Session(out, rng, names, "mix")
        n = rng.randint(1, 5)
        for _k in range(rng.randint(4, 12)):
            r = rng.random()
            N = len(S.regs)
            if N == 0 or r < 0.2:
                k = rng.randint(0, 5)
                mx = rng.randint(1, 5)
                ops = [rand_sop(rng, mx, nsym=3, wrap=rng.random() < 0.4) for _j in range(k)]
                new_ev(S, ops, rng.choice([0, 0, mx, mx + 1, 7]), rng.choice(["list", "tuple", "gen"]))
            elif r < 0.40:
                i = rng.randint(1, N)
                o = rand_sop(rng, rng.randint(1, 6), nsym=3)
                S.step({"op": "addop", "i": i, "o": o}, lambda: S.regs[i - 1] + S.op(o))
            elif r < 0.58:
                i, j = rng.randint(1, N), rng.randint(1, N)
                S.step({"op": "addcirc", "i": i, "j": j}, lambda: S.regs[i - 1] + S.regs[j - 1])
            elif r < 0.75:
                i = rng.randint(1, N)
                c = S.regs[i - 1]
                mode = rng.choice(["arity", "param", "rand", "const", "first"])
                table = [rng.random() < 0.5 for _q in c.operations]
                ids = {id(o): b for o, b in zip(c.operations, table)}
                pred = {"arity": lambda o: len(o.qubit_indices) == 1, "param": lambda o: bool(o.params),
                        "rand": lambda o: ids[id(o)], "const": lambda o: True,
                        "first": lambda o: 0 in o.qubit_indices}[mode]
                ok, pv = run_quiet(lambda: [1 if pred(o) else 0 for o in c.operations])
                if not ok:
                    continue
                def split():
                    rs = []
                    for v, sub in zc.split_circuit(c, pred):
                        rs.append({"pv": as_bool(v), "c": proj_circuit(sub, names)})
                    return {"runs": rs, "regs": S.dump()}
                S.read({"op": "split", "i": i, "pv": pv}, split)
            elif r < 0.82 and N:
                # an equal or nearly equal twin built another way
                i = rng.randint(1, N)
                c = S.regs[i - 1]
                pc = run_quiet(lambda: proj_circuit(c, names))
                if not pc[0]:
                    continue
                ops = [{"n": o["g"]["n"], "p": o["g"]["p"], "w": ([0] if o["g"]["d"] else []) + [1] * o["g"]["c"], "q": o["q"]} for o in pc[1]["ops"]]
                nn = pc[1]["n"]
                t = rng.random()
                if t < 0.4:
                    pass
                elif t < 0.5:
                    nn += 1
                elif t < 0.65 and len(ops) > 1:
                    ops[0], ops[-1] = ops[-1], ops[0]
                elif t < 0.8 and ops:
                    ops = ops[:-1]
                elif ops:
                    o = rng.choice(ops)
                    if len(o["q"]) > 1:
                        o["q"] = o["q"][1:] + o["q"][:1]
                    else:
                        o["q"] = [o["q"][0] + 1]
                if nn and new_ev(S, ops, nn):
                    j = len(S.regs)
                    S.read({"op": "eq", "i": i, "j": j}, lambda: as_bool(S.regs[i - 1] == S.regs[j - 1]))
                    S.read({"op": "eq", "i": j, "j": i}, lambda: as_bool(S.regs[j - 1] == S.regs[i - 1]))
            else:
                i, j = rng.randint(1, N), rng.randint(1, N)
                S.read({"op": "eq", "i": i, "j": j}, lambda: as_bool(S.regs[i - 1] == S.regs[j - 1]))
            if S.ev[-1]["out"]["k"] != "ok":
                break
        out.session(S.ev)
    for bad in (-1, -3, 1.5, 2.5, -0.5):
        for ops in ([], [{"n": "X", "p": [], "w": [], "q": [0]}]):
            real = [real_sop(o, [], "float") for o in ops]
            out.one({"op": "new", "ops": ops, "n": 0, "nbad": 1, "out": observe(lambda: zc.Circuit(real, bad).n_qubits and {"regs": []})})
    # definitions of user-defined gates
    a, b = sympy.symbols("a b")
    mats = [sympy.Matrix([[0, 1], [1, 0]]), sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * a)]]),
            sympy.Matrix([[1, 0], [0, sympy.exp(2 * sympy.I * a)]]), sympy.Matrix([[1, 0], [0, -1]])]
    mats += [sympy.Matrix([[sympy.exp(sympy.I * a), 0], [0, sympy.exp(-sympy.I * b)]])] * 2
    pars = [(), (a,), (a,), (), (a, b), (b, a)]
    NV = len(mats)
    for _ in range(80 if not THOROUGH else 400):
        k = rng.randint(1, 6)
        conflict = rng.random() < 0.3
        var = {nm: rng.randrange(NV) for nm in range(1, 4)}
        used, ops = [], []
        for _j in range(k):
            nm = rng.randint(1, 3)
            v = (var[nm] ^ 1 if rng.random() < .5 else rng.randrange(NV)) if conflict and rng.random() < 0.4 else var[nm]
            d = zc.CustomGateDefinition("cust_%d" % nm, mats[v], pars[v])
            g = d(*[rng.choice([0.5, b, a]) for _p in pars[v]])
            w = rng.choice([[], [], [], [0], [1], [0, 1], [1, 0], [2]])
            g = wrap_gate(g, w)
            used.append([nm, v])
            ops.append(g(*rng.sample(range(4), g.num_qubits)))
            if rng.random() < 0.4:
                ops.append(zc.X(0))
            if rng.random() < 0.2:
                ops.append(zc.RX(0.1).controlled(1)(0, 1))

        def run():
            r = []
            for d in zc.Circuit(ops, 4).collect_custom_gate_definitions():
                nm = int(d.gate_name.split("_")[1])
                vs = [v for v in range(NV) if mats[v] == d.matrix and tuple(pars[v]) == tuple(d.params_ordering)]
                if not vs:
                    raise Bad("unknown definition")
                r.append([nm, vs[0]])
            return r
        out.one({"op": "defs", "used": used, "out": observe(run)})
    # equality of user-defined gates: name, definition, parameters
    for _ in range(150 if not THOROUGH else 800):
        def desc():
            v = rng.randrange(NV)
            return [rng.randint(1, 2), v, [rng.randint(1, 3) for _p in pars[v]]]
        d1 = desc()
        d2 = rng.choice([d1, desc(), [3 - d1[0]] + d1[1:], [d1[0], d1[1], d1[2][::-1]]])
        v2 = rng.choice([v for v in range(NV) if len(pars[v]) == len(pars[d1[1]])])
        d2 = rng.choice([d2, [d1[0], v2, d1[2]]])
        vals = [None, 0.5, b, a]

        def mk(d):
            df = zc.CustomGateDefinition("cust_%d" % d[0], sympy.Matrix(mats[d[1]]), tuple(pars[d[1]]))
            return df, df(*[vals[x] for x in d[2]])

        def run():
            (f1, g1), (f2, g2) = mk(d1), mk(d2)
            return [as_bool(f1 == f2), as_bool(g1 == g2), as_bool(g1.controlled(1) == g2.controlled(1)), as_bool(g1.dagger == g2.dagger), as_bool(g1(0) == g2(0)),
                    as_bool(zc.Circuit([g1(0)]) == zc.Circuit([g2(0)])), 1 - as_bool(g1 != g2)]
        out.one({"op": "def_eq", "a": d1, "b": d2, "out": observe(run)})


def rand_tree(rng, nsym, depth):
    """Random expression tree (always built on symbols, so nothing folds to a float)."""
    r = rng.random()
    if depth == 0 or r < 0.2:
        return {"t": "s", "i": rng.randint(1, nsym)}
    num = lambda: {"t": "n", "a": rng.choice([-5, -3, -2, 2, 3, 4, 7]), "b": rng.choice([1, 1, 1, 2, 3, 4])}
    sub = lambda: rand_tree(rng, nsym, depth - 1)
    f = rng.choice(["add", "add", "sub", "mul", "mul", "div", "pow", "pow", "rdiv", "sqrt", "sin", "cos", "exp", "tan", "addn", "subn", "muln", "neg", "root"])
    F = lambda n, *a: {"t": "f", "f": n, "args": list(a)}
    if f in ("add", "mul"):
        return F(f, *[sub() for _ in range(rng.choice([2, 2, 3, 4]))])
    if f in ("sub", "div"):
        return F(f, sub(), sub())
    if f == "rdiv":
        return F("div", num(), sub())
    if f == "pow":
        return F("pow", sub(), {"t": "n", "a": rng.choice([2, 3, -1, -2, 4]), "b": 1})
    if f == "root":
        return F("pow", sub(), {"t": "n", "a": rng.choice([1, -1, 3, -3, 2]), "b": rng.choice([2, 3])})
    if f == "addn":
        return F("add", sub(), num())
    if f == "subn":
        return F("sub", num(), sub())
    if f == "muln":
        return F("mul", num(), sub())
    if f == "neg":
        return F("mul", {"t": "n", "a": -1, "b": 1}, sub())
    return F(f, sub())


def tree_to_sympy(e, names):
    if e["t"] == "n":
        return sympy.Rational(e["a"], e["b"])
    if e["t"] == "i":
        return sympy.I
    if e["t"] == "s":
        return sympy.Symbol(names[e["i"] - 1])
    a = [tree_to_sympy(x, names) for x in e["args"]]
    f = e["f"]
    if f == "add":
        return sum(a[1:], a[0])
    if f == "mul":
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if f == "sub":
        return a[0] - a[1]
    if f == "div":
        return a[0] / a[1]
    if f == "pow":
        return a[0] ** a[1]
    return getattr(sympy, f)(*a)


def num_tree(x):
    from fractions import Fraction
    if isinstance(x, complex) or (isinstance(x, np.complexfloating)):
        r, i = num_tree(x.real), num_tree(x.imag)
        return {"t": "f", "f": "add", "args": [r, {"t": "f", "f": "mul", "args": [i, {"t": "i"}]}]}
    if isinstance(x, sympy.Rational):
        fr = Fraction(int(x.p), int(x.q))
    else:
        x = float(x)
        if x != x or abs(x) > 1e9:
            raise Bad("number %r" % x)
        fr = Fraction(x).limit_denominator(20000)
        if abs(float(fr) - x) > 1e-12 * max(1.0, abs(x)):
            raise Bad("number %r" % x)
    if abs(fr.numerator) > 2 ** 30 or fr.denominator > 2 ** 30:
        raise Bad("number %r" % x)
    return {"t": "n", "a": fr.numerator, "b": fr.denominator}


def sympy_to_tree(x, names):
    """Project a sympy expression (exactly as sympy holds it) to a specification tree."""
    F = lambda n, *a: {"t": "f", "f": n, "args": list(a)}
    if isinstance(x, (int, float, complex, np.number)):
        return num_tree(x)
    if isinstance(x, sympy.Symbol):
        if x.name not in names:
            raise Bad("symbol %s" % x)
        return {"t": "s", "i": names.index(x.name) + 1}
    if isinstance(x, (sympy.Rational, sympy.Float)):
        return num_tree(x)
    if x == sympy.I:
        return {"t": "i"}
    if isinstance(x, sympy.Add):
        return F("add", *[sympy_to_tree(y, names) for y in x.args])
    if isinstance(x, sympy.Mul):
        return F("mul", *[sympy_to_tree(y, names) for y in x.args])
    if isinstance(x, sympy.Pow):
        return F("pow", sympy_to_tree(x.args[0], names), sympy_to_tree(x.args[1], names))
    if isinstance(x, sympy.Function) and len(x.args) == 1:
        return F(str(x.func), sympy_to_tree(x.args[0], names))
    raise Bad("unsupported %r" % (type(x),))


def good_tree(x):
    """No function or root applied to something without symbols, and no huge numbers."""
    for y in sympy.preorder_traversal(x):
        if isinstance(y, (sympy.Function, sympy.Pow)) and not y.args[0].free_symbols:
            return False
        if isinstance(y, sympy.Rational) and (abs(y.p) > 10000 or y.q > 900):
            return False
        if isinstance(y, sympy.exp) and any(z.is_number for z in sympy.Add.make_args(sympy.expand(y.args[0]))):
            return False                    # sympy splits off and evaluates the numeric factor
        if isinstance(y, sympy.Pow) and not y.args[1].is_integer and not all(z in (1, -1) for z in y.args[0].atoms(sympy.Number)):
            return False                    # sympy pulls numeric content out of roots
        if isinstance(y, sympy.Pow) and y.args[1].is_number and abs(y.args[1]) > 2 and any(z.is_Rational and not z.is_Integer for z in sympy.preorder_traversal(y.args[0])):
            return False                    # numerators and denominators explode
        if y in (sympy.zoo, sympy.nan, sympy.oo, sympy.pi, sympy.E):
            return False
    return bool(x.free_symbols)


FP = 46337


def field_val(e, env):
    """Expr.tla's Val (used only to choose inputs that sympy itself does not refold)."""
    inv = lambda x: pow(x, FP - 2, FP)
    h = lambda k, v: ((lambda u: u * u * u + 5 * k + 3)(v + 977 * k + 13)) % FP
    root = lambda q, v: v if q == 1 else h(20 + q, v)
    if e["t"] == "n":
        return e["a"] * inv(e["b"] % FP) % FP
    if e["t"] == "s":
        return env[e["i"] - 1]
    if e["t"] == "i":
        return 2601
    f, a = e["f"], e["args"]
    v = [field_val(x, env) for x in a]
    if f == "add":
        return sum(v) % FP
    if f == "mul":
        r = 1
        for x in v:
            r = r * x % FP
        return r
    if f == "sub":
        return (v[0] - v[1]) % FP
    if f == "div":
        return v[0] * inv(v[1]) % FP
    if f == "sqrt":
        return root(2, v[0])
    if f == "pow":
        if a[1]["t"] == "n":
            r, n = root(a[1]["b"], v[0]), a[1]["a"]
            return pow(r, n, FP) if n >= 0 else inv(pow(r, -n, FP))
        return h(40, (v[0] * 3 + 31 * v[1]) % FP)
    return h({"sin": 1, "cos": 2, "tan": 3, "exp": 4, "foo": 5}.get(f, 9), v[0])


def unfolded(tree, build_from, names):
    """Is the float version of build_from still this expression once sympy has evaluated it?"""
    def fl(t):
        if t["t"] == "n":
            return sympy.Integer(t["a"]) if t["b"] == 1 else sympy.Float(t["a"] / t["b"])
        if t["t"] == "f":
            a = [fl(x) for x in t["args"]]
            ops = {"sub": lambda x, y: x - y, "div": lambda x, y: x / y, "pow": lambda x, y: x ** y}
            if t["f"] in ops:
                return ops[t["f"]](*a)
            if t["f"] in ("add", "mul"):
                r = a[0]
                for x in a[1:]:
                    r = r + x if t["f"] == "add" else r * x
                return r
            return getattr(sympy, t["f"])(*a)
        return tree_to_sympy(t, names)
    try:
        y = sympy_to_tree(fl(build_from), names)
    except Exception:
        return False
    r = random.Random(5)
    return all(field_val(tree, e) == field_val(y, e) for e in rand_env(r, names))


def stable(x, names):
    try:
        z = sympy_to_tree(x, names)
    except Bad:
        return False
    return unfolded(z, z, names)


def rand_expr(rng, names, depth=3):
    while True:
        t = rand_tree(rng, len(names), rng.randint(1, depth))
        ok, x = run_quiet(lambda: tree_to_sympy(t, names))
        if ok and good_tree(x) and len(str(x)) < 200 and stable(x, names):
            return x


def rand_env(rng, names, k=3):
    return [[rng.randint(2, 46000) for _ in names] for _ in range(k)]


def serde_trip(circs, route, tmp="c05.json"):
    """Write circuits (one, or a list) and read them back."""
    import io
    single = len(circs) == 1 and route[0] != "L"
    obj = circs[0] if single else list(circs)
    r = route[-1]
    if r == "d":
        d = zc.to_dict(obj)
        back = (zc.circuit_from_dict if single else zc.circuitset_from_dict)(d)
    elif r == "j":
        d = json.loads(json.dumps(zc.to_dict(obj)))
        back = (zc.circuit_from_dict if single else zc.circuitset_from_dict)(d)
    elif r == "f":
        (zc.save_circuit if single else zc.save_circuitset)(obj, tmp)
        back = (zc.load_circuit if single else zc.load_circuitset)(tmp)
    else:
        b = io.StringIO()
        (zc.save_circuit if single else zc.save_circuitset)(obj, b)
        b.seek(0)
        back = (zc.load_circuit if single else zc.load_circuitset)(b)
    return [back] if single else list(back)


SERDE_POOLS = NAME_POOLS + [sorted(x) for x in (["S", "beta", "gamma", "zeta"], ["Q", "pi_1", "re", "test"], ["O", "ff", "lam", "rf"])]


def c05(out, rng):
    import qdrv
    pools = SERDE_POOLS
    for it in range(150 if not THOROUGH else 1200):
        names = rng.choice(pools)
        qdrv.CG_NAMES = rng.choice([["a", "b", "c"], ["gamma", "a", "beta"], ["c", "b", "a"], ["x_2", "x_10", "x_1"],
                                    ["E", "S", "N"], list(reversed(names[:3])), ["t[1]", "t[0]", "u[3]"]])
        if "I" in qdrv.CG_NAMES:
            qdrv.CG_NAMES = ["a", "b", "c"]
        S = Session(out, rng, names, "mix")
        ok = True
        for _k in range(rng.choice([1, 1, 2, 3])):
            n = rng.randint(1, 4)
            ops = [rand_sop(rng, n, nsym=4, names=None if rng.random() < 0.6 else (list(CUSTOM) + ["RX", "U3", "CPHASE"] if n > 1 else ["cg_phase2", "cg_rot3", "RX", "U3"]),
                            numeric=rng.choice([0.2, 0.5, 1.0])) for _j in range(rng.randint(0, 5))]
            ok = ok and new_ev(S, ops, rng.choice([0, 0, n, n + 2]))
        for _k in range(rng.choice([1, 2])):
            if not ok:
                break
            N = len(S.regs)
            if rng.random() < 0.6:
                ii, route = [rng.randint(1, N)], rng.choice("djfo")
            else:
                ii, route = [rng.randint(1, N) for _ in range(rng.randint(0, 4))], "L" + rng.choice("djfo")

            def run():
                cs = [S.regs[i - 1] for i in ii]
                back = serde_trip(cs, route)
                eq, defs = [], []
                for a, b in zip(cs, back):
                    eq += [as_bool(a == b), as_bool(b == a)]
                    defs.append([len(a.collect_custom_gate_definitions()), len(b.collect_custom_gate_definitions())])
                    da = list(a.collect_custom_gate_definitions())
                    db = list(b.collect_custom_gate_definitions())
                    eq += [as_bool(x == y) for x, y in zip(da, db)]
                S.regs += back
                return {"regs": S.dump(), "eq": eq, "defs": defs}
            o = observe(run, limit=60)
            S.ev.append({"op": "roundtrip", "ii": ii, "how": route, "out": o})
            ok = o["k"] == "ok"
        if ok and len(S.regs) > 1:
            j = len(S.regs)
            m = rand_map(rng, 4, full=True)
            rm = real_map(m, names, rng)
            if S.step({"op": "bind", "i": j, "map": m}, lambda: S.regs[j - 1].bind(rm)):
                ok2, ops = run_quiet(lambda: proj_circuit(S.regs[-1], names))
                if ok2 and 0 < ops["n"] <= 3:
                    h, mm = ops_cost([{"n": o["g"]["n"], "p": [x["k"] for x in o["g"]["p"]]} for o in ops["ops"]])
                    if 2 ** h * 5 ** mm < 2000:
                        S.read({"op": "reg_unitary", "i": len(S.regs)}, lambda: enc_matrix(S.regs[-1].to_unitary(), h + 1, mm))
        out.session(S.ev)
    qdrv.CG_NAMES = ["a", "b", "c"]
    # arbitrary symbolic parameters, in plain, wrapped and user-defined gates
    for it in range(120 if not THOROUGH else 900):
        names = rng.choice(pools)
        k = rng.choice([1, 3, 2])
        exprs = [rand_expr(rng, names) for _ in range(k)]
        env = rand_env(rng, names)
        trees = [sympy_to_tree(x, names) for x in exprs]

        def run():
            if k == 1:
                g = rng.choice([zc.RX, zc.PHASE, zc.XX, custom_def("cg_diag4")])
            else:
                g = zc.U3 if k == 3 else custom_def("cg_phase2")
            g = wrap_gate(g(*exprs), rng.choice([[], [], [0], [1], [1, 0]]))
            back = serde_trip([zc.Circuit([g(*range(g.num_qubits))])], rng.choice("djfo"))[0]
            return [sympy_to_tree(x, names) for x in back.operations[0].params]
        out.one({"op": "expr_rt", "exprs": trees, "env": env, "out": observe(run)})
    # known limits of the text form
    for bad_names in (["lambda", "x"], ["x", "x[0]"], ["x[0]", "x"]):
        S = Session(out, rng, sorted(bad_names), "float")
        o = {"n": "XX", "p": [{"k": [0, 0], "t": [[2, 1], [2, 2]]}], "w": [], "q": [0, 1]}
        new_ev(S, [o], 2)

        def run():
            back = serde_trip([S.regs[0]], "d")
            S.regs += back
            return {"regs": S.dump(), "eq": [as_bool(back[0] == S.regs[0])], "defs": []}
        S.ev.append({"op": "roundtrip", "ii": [1], "how": "d", "out": observe(run)})
        out.session(S.ev, key="names:" + ",".join(sorted(bad_names)))
    qdrv.CG_NAMES = ["I", "x", "y"]
    S = Session(out, rng, ["alpha", "beta"], "float")
    new_ev(S, [{"n": "cg_phase2", "p": [{"k": [1, 0], "t": []}, {"k": [0, 1], "t": []}], "w": [], "q": [0]}], 1)

    def run():
        back = serde_trip([S.regs[0]], "d")
        S.regs += back
        return {"regs": S.dump(), "eq": [as_bool(back[0] == S.regs[0])], "defs": []}
    S.ev.append({"op": "roundtrip", "ii": [1], "how": "d", "out": observe(run)})
    out.session(S.ev, key="defnames:I")
    qdrv.CG_NAMES = ["a", "b", "c"]
    # malformed data and conflicting definitions
    c = zc.Circuit([zc.X(0), zc.RX(0.5)(1)])
    def bad(kind, fn):
        out.one({"op": "bad_data", "kind": kind, "out": observe(lambda: fn() and 0)})
    d = zc.to_dict(c)
    for sch in ("zapata-v1-circuit-v1", "zapata-v1-circuit", "", "zapata-v1-circuitset-v2", "zapata-v1-circuit-v22"):
        bad("schema", lambda: zc.circuit_from_dict({**d, "schema": sch}))
    bad("noschema", lambda: zc.circuit_from_dict({k: v for k, v in d.items() if k != "schema"}))
    ds = zc.to_dict([c, c])
    for sch in ("zapata-v1-circuitset-v1", "", d["schema"]):
        bad("schema", lambda: zc.circuitset_from_dict({**ds, "schema": sch}))
    bad("noschema", lambda: zc.circuitset_from_dict({k: v for k, v in ds.items() if k != "schema"}))
    bad("swap", lambda: zc.circuit_from_dict(ds))
    bad("swap", lambda: zc.circuitset_from_dict(d))
    a = sympy.Symbol("a")
    X2, Z2 = sympy.Matrix([[0, 1], [1, 0]]), sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * a)]])
    d1, d2 = zc.CustomGateDefinition("u", X2, ()), zc.CustomGateDefinition("u", Z2, (a,))
    d3 = zc.CustomGateDefinition("u", Z2.subs(a, 2 * a), (a,))
    for w1 in ([], [1], [0], [1, 0]):
        for w2 in ([], [1], [2, 0]):
            for x, y in ((d1(), d2(0.3)), (d2(0.3), d3(0.3)), (d3(a), d2(a))):
                if rng.random() < (1 if THOROUGH else 0.5):
                    g, h = wrap_gate(x, w1), wrap_gate(y, w2)
                    cc = zc.Circuit([g(*range(g.num_qubits)), zc.X(0), h(*range(h.num_qubits))])
                    bad("conflict", lambda: zc.to_dict(cc))
    cd = zc.to_dict(zc.Circuit([d2(0.5)(0)]))
    bad("nodef", lambda: zc.circuit_from_dict({k: v for k, v in cd.items() if k != "custom_gate_definitions"}))


class DriverRule:
    """Rules 1..7 of the specification (Decomp.tla), against the library's rule interface."""
    NAME = {1: "X", 2: "Z", 3: "S", 4: "H", 5: "SWAP", 6: "CNOT", 7: "I"}

    def __init__(self, r):
        self.r = r

    def predicate(self, op):
        return op.gate.name == self.NAME[self.r]

    def production(self, op):
        q = op.qubit_indices
        r = self.r
        a = q[0]
        if r == 1:
            return [zc.H(a), zc.Z(a), zc.H(a)]
        if r == 2:
            return iter([zc.S(a), zc.S(a)])
        if r == 3:
            return (zc.T(a), zc.T(a))
        if r == 4:
            return [zc.RY(math.pi / 2)(a), zc.X(a)]
        if r == 5:
            return [zc.CNOT(*q), zc.CNOT(q[1], q[0]), zc.CNOT(*q)]
        if r == 6:
            return (x for x in [zc.H(q[1]), zc.CZ(*q), zc.H(q[1])])
        return []


def c09(out, rng):
    from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit, decompose_operations
    mkrules = lambda rs: [U3GateToRotation() if r == 0 else DriverRule(r) for r in rs]
    names = ["alpha", "beta", "gamma"]
    for it in range(150 if not THOROUGH else 900):      # exact rewriting with the driver's rules
        n = rng.randint(2, 5)
        ops = [rand_sop(rng, n, names=rng.choice([None, ["X", "Z", "S", "H", "SWAP", "CNOT", "I"]]), wrap=rng.random() < 0.5, nsym=3)
               for _ in range(rng.randint(0, 6))]
        nn = rng.choice([n, n + 1, n + 2])
        rules = [rng.randint(1, 7) for _ in range(rng.randint(0, 5))]

        def run():
            c = zc.Circuit([real_sop(o, names) for o in ops], n_qubits=nn)
            if rng.random() < 0.6:
                r = decompose_zquantum_circuit(c, mkrules(rules))
                n_, ops_ = as_int(r.n_qubits), r.operations
            else:
                n_, ops_ = nn, decompose_operations(c.operations, tuple(mkrules(rules)))
            return {"n": n_, "whole": [proj_op(o, names) for o in ops_], "orig": [proj_op(o, names) for o in c.operations]}
        out.one({"op": "decompose", "ops": ops, "n": nn, "rules": rules, "out": observe(run)})
    for it in range(190 if not THOROUGH else 1200):
        n = rng.randint(1, 3)
        ops = []
        while len(ops) < rng.randint(1, 4):
            if rng.random() < 0.6:
                w = rng.choice([[], [], [], [0], [0, 0], [1], [2], [1, 0]])
                if 1 + sum(w) > n:
                    continue
                ps = [rand_lin(rng, True, 3, 0.7) for _ in range(3)]
                if sum(w) and rng.random() < 0.5:      # controlled with no net phase
                    ps[2] = {"k": [-ps[1]["k"][0], -ps[1]["k"][1]], "t": [[-c, s] for c, s in ps[1]["t"]]}
                ops.append({"n": "U3", "p": ps, "w": w, "q": rng.sample(range(n), 1 + sum(w))})
            else:
                ops.append(rand_sop(rng, n, nsym=3))
        m = rand_map(rng, 3, full=True)
        h, mm = lin_subst_bound(ops, m)
        if 2 ** h * 5 ** mm > 30000:
            continue
        rules = rng.choice([[0], [0], [0], [0, 1, 4], [4, 0], [2, 0, 3], [0, 0], [5, 6, 0]])
        nn = n + rng.choice([0, 0, 1])

        def run():
            c = zc.Circuit([real_sop(o, names) for o in ops], n_qubits=nn)
            r = decompose_zquantum_circuit(c, mkrules(rules))
            parts = [decompose_operations([o], mkrules(rules)) for o in c.operations]
            return {"n": as_int(r.n_qubits), "whole": [proj_op(o, names) for o in r.operations],
                    "parts": [[proj_op(o, names) for o in p] for p in parts], "orig": [proj_op(o, names) for o in c.operations]}
        out.one({"op": "decompose_u3", "ops": ops, "n": nn, "rules": rules, "map": m, "out": observe(run)})


def c07(out, rng):
    from zquantum.core.circuits.symbolic import expressions as ex
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression
    from zquantum.core.circuits.symbolic import natural_key, natural_key_revlex, natural_key_fixed_names_order
    names = ["alpha", "beta", "x", "y"]

    def neutral_to_tree(e):
        if isinstance(e, ex.Symbol):
            if e.name not in names:
                raise Bad("symbol %r" % (e.name,))
            return {"t": "s", "i": names.index(e.name) + 1}
        if isinstance(e, ex.FunctionCall):
            if not isinstance(e.name, str):
                raise Bad("function name")
            return {"t": "f", "f": e.name, "args": [neutral_to_tree(a) for a in e.args]}
        if isinstance(e, (int, float, complex, sympy.Number)):
            return num_tree(e)
        raise Bad("neutral form contains %r" % (type(e),))

    def both(x, env):
        def run():
            nf = expression_from_sympy(x)
            back = translate_expression(nf, SYMPY_DIALECT)
            return {"neutral": neutral_to_tree(nf), "back": sympy_to_tree(back, names)}
        out.one({"op": "translate", "expr": sympy_to_tree(x, names), "env": env, "out": observe(run)})

    a, b, x, y = [sympy.Symbol(n) for n in names]
    I = sympy.I
    R = sympy.Rational
    fixed = [a + b, a - b, b - a, -a, a * b, a / b, b / a, 1 / a, a ** 2, a ** -2, a ** 3 / b, a - b - x, a * b / x, a / (b * x), -a * b, -a - b,
             a - 2 * b, a - b * x, -a / b, a * (b - x), a - (b - x), (a - b) / (x - y), sympy.sqrt(a), 1 / sqrt_(a), a / sqrt_(b), 2 * a, a / 2, R(2, 3) * a, -R(1, 2) * a,
             a + 1, a - 1, 1 - a, I * a, a + I * b, a - I * b, sympy.exp(I * a), sympy.exp(-I * a), sympy.cos(a), sympy.sin(-a), sympy.tan(a / 2),
             a ** b, a ** (b + 1), 2 ** a, (a + b) ** R(1, 3), (a + b) ** R(-3, 2), a * b * x * y, a + b + x + y, a * b ** -1 * x ** -1, sympy.Integer(7) * a - 3,
             -2 * a + b, b + -1 * a, sympy.Float(0.25) * a, a ** 1.5, a - sympy.cos(b), sympy.cos(a) - b, a * sympy.cos(b) ** -1, a * (b + 1) ** -1, (a + 1) ** -1 * (b + 1) ** -1,
             a + -b * x, (a * b - x) * (x - a * b), -(a + b), -(a + b) / x, x - (a + b) * y]
    for e in fixed:
        if good_tree(e):
            both(e, rand_env(rng, names))
    for _ in range(500 if not THOROUGH else 5000):
        e = rand_expr(rng, names, 4)
        if rng.random() < 0.2:
            e = e * sympy.I + rand_expr(rng, names, 2)
            if not good_tree(e) or not stable(e, names):
                continue
        both(e, rand_env(rng, names))
    for v in (sympy.Integer(3), R(3, 4), sympy.Float(0.5), sympy.Integer(-2), sympy.Integer(0), sympy.I, R(-7, 3), 5, 0.25, 2j, a):
        both(sympy.sympify(v) if not isinstance(v, (int, float, complex)) else v, rand_env(rng, names)) if not isinstance(v, (int, float, complex)) else \
            out.one({"op": "translate", "expr": num_tree(v), "env": [[1, 2, 3, 4]], "out": observe(
                lambda: {"neutral": neutral_to_tree(expression_from_sympy(v)), "back": sympy_to_tree(translate_expression(expression_from_sympy(v), SYMPY_DIALECT), names)})})

    # neutral expressions in all their shapes, straight into the dialect
    def tree_to_neutral(t):
        if t["t"] == "n":
            return t["a"] if t["b"] == 1 else t["a"] / t["b"]
        if t["t"] == "s":
            return ex.Symbol(names[t["i"] - 1])
        if t["t"] == "i":
            return 1j
        return ex.FunctionCall(t["f"], tuple(tree_to_neutral(z) for z in t["args"]))
    k = 0
    while k < (250 if not THOROUGH else 2000):
        t = rand_tree(rng, len(names), 3)
        ok, v = run_quiet(lambda: tree_to_sympy(t, names))
        if not ok or not good_tree(v) or has_bad_root(t):
            continue
        ok, pt = run_quiet(lambda: sympy_to_tree(v, names))
        if not ok or not unfolded(pt, t, names):
            continue
        k += 1
        out.one({"op": "neutral", "expr": pt, "env": rand_env(rng, names), "out": observe(
            lambda: sympy_to_tree(translate_expression(tree_to_neutral(t), SYMPY_DIALECT), names))})
    # rejections
    f = sympy.Function("foo")
    rej = [lambda: translate_expression(expression_from_sympy(f(a)), SYMPY_DIALECT),
           lambda: translate_expression(expression_from_sympy(a + f(b)), SYMPY_DIALECT),
           lambda: translate_expression(expression_from_sympy(sympy.asin(a)), SYMPY_DIALECT),
           lambda: translate_expression(expression_from_sympy(sympy.log(a) * b), SYMPY_DIALECT),
           lambda: translate_expression(ex.FunctionCall("bar", (1, 2)), SYMPY_DIALECT),
           lambda: translate_expression(ex.FunctionCall("add", (1, ex.FunctionCall("zed", (ex.Symbol("x"),)))), SYMPY_DIALECT),
           lambda: expression_from_sympy("x + y"), lambda: expression_from_sympy([a, b]), lambda: expression_from_sympy(None),
           lambda: expression_from_sympy(sympy.Matrix([[a]])), lambda: expression_from_sympy(sympy.Eq(a, b)), lambda: expression_from_sympy({"a": 1}),
           lambda: translate_expression("x", SYMPY_DIALECT), lambda: translate_expression(None, SYMPY_DIALECT), lambda: translate_expression([1, 2], SYMPY_DIALECT),
           lambda: translate_expression(ex.FunctionCall("cos", ("x",)), SYMPY_DIALECT), lambda: translate_expression(ex.FunctionCall("add", (ex.Symbol("x"), object())), SYMPY_DIALECT),
           lambda: expression_from_sympy(sympy.true), lambda: expression_from_sympy(sympy.Sum(a, (a, 1, 3)))]
    for i, fn in enumerate(rej):
        out.one({"op": "reject", "i": i, "out": observe(lambda: fn() and 0)})
    # orderings
    def cps(s):
        return [ord(c) for c in s]
    for _ in range(300 if not THOROUGH else 2500):
        how = rng.choice(["nat", "nat", "rev", "rev", "fixed"])
        n = rng.randint(0, 8)
        order = []
        if how == "fixed":
            pool = rng.choice([["gamma", "beta"], ["b", "a", "c"], ["beta", "alpha", "theta", "Z"]])
            order = [cps(p) for p in pool]
            nm = ["%s_%d" % (rng.choice(pool), rng.choice([0, 1, 2, 9, 10, 11, 20, 100])) for _ in range(n)]
        else:
            def mk():
                r = rng.random()
                if r < 0.6:
                    return "%s%s%d" % (rng.choice(["beta", "theta", "a", "B", "b"]), rng.choice(["_", "", "["]), rng.choice([0, 1, 2, 9, 10, 11, 19, 20, 100, 101]))
                if r < 0.8:
                    return "%s%d_%d%s" % (rng.choice(["a", "b", ""]), rng.choice([1, 2, 10]), rng.choice([1, 2, 10, 3]), rng.choice(["", "x", "'"]))
                return rng.choice(["x", "xy", "x1y2", "12", "1", "02", "a", "a007", "a7", "", "_", "Z9z", "z10"])
            nm = [mk() for _ in range(n)]
        def run():
            syms = [sympy.Symbol(z) for z in nm]
            key = {"nat": natural_key, "rev": natural_key_revlex}.get(how) or natural_key_fixed_names_order([*pool])
            return [p + 1 for p in sorted(range(n), key=lambda i: key(syms[i]))]
        out.one({"op": "sort", "how": how, "names": [cps(z) for z in nm], "order": order, "out": observe(run)})


def sqrt_(x):
    return sympy.sqrt(x)


def has_bad_root(t, under=None):
    """Trees whose evaluation sympy folds differently depending on the order of construction:
    exponentials in products and powers, or of something with a numeric coefficient."""
    if t["t"] != "f":
        return False
    if t["f"] == "exp":
        if under in ("mul", "div", "pow", "sub", "exp"):
            return True
        x = t["args"][0]
        if not (x["t"] == "s" or (x["t"] == "f" and x["f"] == "add" and all(y["t"] == "s" for y in x["args"]) and
                                  len(set(y["i"] for y in x["args"])) == len(x["args"]))):
            return True
    return any(has_bad_root(x, t["f"]) for x in t["args"])


def c08(out, rng):
    import io
    from zquantum.core.circuits import layouts as ly
    names = ["alpha", "beta", "gamma"]
    singles = FIX0 + ROT1 + ["PHASE", "U3", "cg_phase2", "cg_rot3"]
    for _ in range(220 if not THOROUGH else 1500):
        gn = rng.choice(singles)
        gw = []
        npar = NPAR[gn]
        create = rng.random() < 0.35
        n = rng.randint(0, 5)
        ops = [] if create else [rand_sop(rng, max(n, 1), nsym=3) for _ in range(rng.randint(0, 3))]
        if create:
            nq = rng.randint(0, 6)
            qs = list(range(nq))
        else:
            qs = rng.sample(range(12), rng.randint(0, 5))
            if not npar and qs and rng.random() < 0.3:
                qs = qs + [rng.choice(qs)]
        rows = [[rand_lin(rng, needs_half(gn, i), 3) for i in range(npar)] for _q in qs] if npar else []
        if npar == 0 and rng.random() < 0.2:
            gw = [0]
        n0 = 0
        def run():
            base = zc.Circuit([real_sop(o, names) for o in ops], n_qubits=n_given)
            gf = custom_def(gn) if gn in CUSTOM else getattr(zc, gn)
            if gw:
                gf = wrap_gate(gf, gw)
            ps = None
            if npar:
                ps = [[real_lin(e, names) for e in r] for r in rows]
                if all(not e["t"] for r in rows for e in r) and rng.random() < 0.6:
                    ps = np.array(ps).reshape(len(rows), npar)
            if create:
                c = zc.create_layer_of_gates(len(qs), gf, ps) if ps is not None else zc.create_layer_of_gates(len(qs), gf)
            else:
                c = zc.apply_gate_to_qubits(base, tuple(qs) if rng.random() < 0.3 else qs, gf, ps)
            return {"c": proj_circuit(c, names), "orig": proj_circuit(base, names)}
        n_given = None if create else rng.choice([n or 1, 8])
        nn = 0 if create else (n_given)
        mxq = max([q for o in ops for q in o["q"]], default=-1) + 1
        if not create and n_given < mxq:
            n_given = nn = mxq
        out.one({"op": "layer", "gn": gn, "gw": gw, "rows": rows, "qs": qs, "ops": ops, "n": nn, "how": "create" if create else "apply", "out": observe(run)})
    for _ in range(80 if not THOROUGH else 500):
        n = rng.randint(1, 4)
        ops = [rand_sop(rng, n, nsym=3) for _k in range(rng.randint(0, 4))]
        k = rng.randint(0, 4)
        def run():
            base = zc.Circuit([real_sop(o, names) for o in ops], n_qubits=n)
            c = zc.add_ancilla_register(base, k)
            return {"c": proj_circuit(c, names), "orig": proj_circuit(base, names)}
        out.one({"op": "ancilla", "ops": ops, "n": n, "k": k, "out": observe(run)})
    ints = lambda l: [[as_int(x) for x in p] for p in l]
    M = 8 if not THOROUGH else 14
    for kind in ("nearest-neighbor", "sycamore"):
        for x in range(1, M + 1) if kind == "sycamore" else range(0, 40):
            for y in (range(1, M + 1) if kind == "sycamore" else [0, 3]):
                def run():
                    conn, lay = ly.build_circuit_layers_and_connectivity(x, y or None, kind)
                    ly.save_circuit_layers(lay, "l.json")
                    ly.save_circuit_connectivity(conn, "c.json")
                    if rng.random() < 0.5:
                        l2, c2 = ly.load_circuit_layers("l.json"), ly.load_circuit_connectivity("c.json")
                    else:
                        l2, c2 = ly.load_circuit_layers(open("l.json")), ly.load_circuit_connectivity(open("c.json"))
                    if not all(type(p) is tuple for l in l2.layers for p in l) or not all(type(p) is tuple for p in c2.connectivity):
                        raise Bad("pairs are not tuples after loading")
                    return {"conn": ints(conn.connectivity), "layers": [ints(l) for l in lay.layers],
                            "conn2": ints(c2.connectivity), "layers2": [ints(l) for l in l2.layers]}
                out.one({"op": "layout", "kind": kind, "x": x, "y": y, "out": observe(run)})
    for kind in ("", "ring", "Sycamore", "nearest_neighbor"):
        out.one({"op": "bad_data", "kind": "layer type", "out": observe(lambda: ly.build_circuit_layers_and_connectivity(3, 3, kind) and 0)})
    for _ in range(40):
        r = rng.random()
        if r < 0.4:
            v = rng.sample(range(12), rng.randint(0, 8))
            def run():
                ly.save_circuit_ordering(v, "o.json")
                return [as_int(q) for q in (ly.load_circuit_ordering("o.json") if rng.random() < 0.5 else ly.load_circuit_ordering(open("o.json")))]
        elif r < 0.7:
            v = [[rng.sample(range(9), rng.choice([2, 2, 3])) for _k in range(rng.randint(0, 4))] for _l in range(rng.randint(0, 4))]
            def run():
                ly.save_circuit_layers(ly.CircuitLayers([[tuple(p) for p in l] for l in v]), "l.json")
                return [[list(p) for p in l] for l in ly.load_circuit_layers("l.json").layers]
        else:
            v = [rng.sample(range(9), rng.choice([2, 2, 3])) for _k in range(rng.randint(0, 6))]
            def run():
                ly.save_circuit_connectivity(ly.CircuitConnectivity([tuple(p) for p in v]), "c.json")
                return [list(p) for p in ly.load_circuit_connectivity("c.json").connectivity]
        out.one({"op": "same", "val": v, "out": observe(run)})


TABLE = {"C07": c07, "C08": c08, "C05": c05, "C09": c09, "C01": c01, "C02": c02, "C03": c03, "C04": c04}
if __name__ == "__main__":
    main(TABLE)
