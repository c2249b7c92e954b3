"""Measurement sets, estimators, outcome distributions and distances: M01-M05."""
import json
import io
import numpy as np
from drv import *
from zquantum.core import measurement as zm
from zquantum.core import distribution as zd
from zquantum.core.bitstring_distribution import BitstringDistribution
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.utils import convert_bitstrings_to_tuples, convert_tuples_to_bitstrings, sample_from_probability_distribution

MOD = zd.MeasurementOutcomeDistribution


def bits_of(t):
    return [as_int(x) for x in t]


def outcome_list(m):
    return [bits_of(b) for b in m.bitstrings]


def label(bits):
    return "".join(map(str, bits))


def unlabel(s):
    if not isinstance(s, str):
        raise Bad("label %r" % (s,))
    return [int(c) for c in s]


def counts_out(c):
    return [[unlabel(k), as_int(v)] for k, v in c.items()]


def rand_bits(rng, n):
    return [rng.randint(0, 1) for _ in range(n)]


def np_bits(rng, bits):
    r = rng.random()
    if r < 0.15:
        return tuple(np.int8(b) for b in bits)
    if r < 0.25:
        return tuple(np.int64(b) for b in bits)
    return tuple(bits)


# ------------------------------------------------------------------- M01
def m01(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    if not THOROUGH:
        gen = rng.sample(gen, min(250, len(gen)))
    else:
        gen = rng.sample(gen, min(6000, len(gen)))
    for h in gen:
        meas_session(out, rng, [dict(x) for x in h], None, "gen")
    for _ in range(250 if not THOROUGH else 4000):
        n = rng.choice([1, 1, 2, 2, 3, 4, 6, 11])
        h = []
        for _ in range(rng.randint(2, 8)):
            k = rng.choice(["add", "add", "counts", "dist", "io", "rebuild", "save", "load", "new", "fromc"])
            if k in ("add", "fromc"):
                ls = []
                for _ in range(rng.randint(0, 4)):
                    b = rand_bits(rng, n)
                    if b not in ls:
                        ls.append(b)
                h.append({"op": k, "c": [[b, rng.choice([0, 1, 1, 2, 3, 7])] for b in ls]})
            elif k == "new":
                h.append({"op": k, "l": [rand_bits(rng, n) for _ in range(rng.randint(0, 9))]})
            else:
                h.append({"op": k})
        meas_session(out, rng, h, n, "rand")
    for _ in range(60 if not THOROUGH else 600):
        n = rng.randint(1, 12)
        l = [rand_bits(rng, n) for _ in range(rng.randint(0, 8))]

        def run():
            s = convert_tuples_to_bitstrings([tuple(x) for x in l])
            t = convert_bitstrings_to_tuples([label(x) for x in l])
            return {"s": [unlabel(x) for x in s], "t": [bits_of(x) for x in t],
                    "i": [as_int(zm.convert_bitstring_to_int(tuple(x))) for x in l]}
        out.one({"op": "m_labels", "l": l, "out": observe(run)})


def meas_session(out, rng, h, n, src):
    evs = []
    m = zm.Measurements()
    start = rng.choice(["empty", "fromc", "new"])
    if start == "new":
        l0 = [rand_bits(rng, n or 2) for _ in range(rng.randint(0, 6))]
        h = [{"op": "new", "l": l0}] + h
    elif start == "fromc":
        h = [{"op": "fromc", "c": [[rand_bits(rng, n or 2), rng.randint(1, 3)]]}] + h
    saved = None
    h2 = []
    for x in h:
        h2.append(x)
        if rng.random() < 0.5:
            h2.append({"op": rng.choice(["counts", "dist", "rebuild", "io"])})
    cur = []
    for x in h2:
        op = x["op"]
        if op == "new":
            l = x["l"]
            how = rng.random()

            def run():
                arg = [np_bits(rng, b) for b in l]
                return zm.Measurements(arg) if how < 0.5 else zm.Measurements(bitstrings=arg)
            ok, r = run_quiet(run)
            e = {"op": "m_new", "l": l}
        elif op == "fromc":
            ok, r = run_quiet(lambda: zm.Measurements.from_counts({label(b): k for b, k in x["c"]}))
            e = {"op": "m_fromc", "c": x["c"]}
        elif op == "add":
            c = {label(b): k for b, k in x["c"]}

            def run():
                m.add_counts(c)
                return m
            ok, r = run_quiet(run)
            e = {"op": "m_add", "c": x["c"]}
        elif op == "save":
            ok, r = run_quiet(lambda: m.save("saved.json"))
            saved = "saved.json" if ok else None
            saved_l = list(cur)
            if not ok:
                evs.append({"op": "m_io", "out": r})
                break
            continue
        elif op == "load":
            if saved is None:
                continue
            ok, r = run_quiet(lambda: zm.Measurements.load_from_file(saved))
            e = {"op": "m_new", "l": saved_l}      # loading gives the outcomes saved earlier
        elif op == "counts":
            def run():
                c = m.get_counts()
                o = counts_out(c)
                c.clear()
                return {"c": o, "after": outcome_list(m)}
            evs.append({"op": "m_counts", "out": observe(run)})
            continue
        elif op == "dist":
            def run():
                tot = max(1, len(m.bitstrings))
                return [[bits_of(k), rat(v, tot)] for k, v in m.get_distribution().distribution_dict.items()]
            evs.append({"op": "m_dist", "out": observe(run)})
            continue
        elif op == "rebuild":
            evs.append({"op": "m_rebuild", "out": observe(lambda: outcome_list(zm.Measurements.from_counts(m.get_counts())))})
            continue
        elif op == "io":
            how = rng.randrange(3)

            def run():
                import pathlib
                name = "m.json"
                m.save(pathlib.Path(name) if how == 1 else name)
                d = json.load(open(name))
                if how == 0:
                    r = zm.Measurements.load_from_file(name)
                elif how == 1:
                    with open(name) as f:
                        r = zm.Measurements.load_from_file(f)
                else:
                    r = zm.Measurements.load_from_file(io.StringIO(open(name).read()))
                for b in r.bitstrings:
                    if type(b) is not tuple:
                        raise Bad("outcome type")
                return {"l": outcome_list(r), "c": counts_out(d["counts"])}
            evs.append({"op": "m_io", "out": observe(run)})
            continue
        if not ok:
            e["out"] = r
            evs.append(e)
            break
        m = r
        e["out"] = observe(lambda: outcome_list(m))
        evs.append(e)
        cur = e["out"].get("v", [])
    out.session(evs, src=src)


# ------------------------------------------------------------------- M02
def rand_terms(rng, n, kmax):
    seen, ts = set(), []
    for _ in range(rng.randint(1, kmax)):
        f = sorted(rng.sample(range(n), rng.choice([0, 1, 1, min(2, n), min(3, n), n])))
        if tuple(f) in seen:
            continue
        seen.add(tuple(f))
        ts.append({"f": f, "c": rng.choice([4, 4, -4, 2, -3, 8, 1, 12, -20])})
    return ts


def ising(rng, ts):
    op = IsingOperator()
    for t in ts:
        c = t["c"] / 4
        r = rng.random()
        if r < 0.2 and t["c"] % 4 == 0:
            c = t["c"] // 4
        elif r < 0.3:
            c = np.float64(c)
        elif r < 0.4:
            c = complex(c)
        if rng.random() < 0.5:
            op += IsingOperator(tuple((q, "Z") for q in t["f"]), c)
        else:
            op += IsingOperator(" ".join("Z%d" % q for q in t["f"]), c)
    return op


def mat(a, f):
    a = np.asarray(a)
    return [[f(x) for x in row] for row in a]


def m02(out, rng):
    for i in range(260 if not THOROUGH else 4000):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        N = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 10, 16, 25])
        pool = [rand_bits(rng, n) for _ in range(rng.randint(1, 4))]
        ml = [list(rng.choice(pool)) for _ in range(N)]
        ts = rand_terms(rng, n, 4)
        bessel = 1 if N > 1 and rng.random() < 0.4 else 0

        def est():
            m = zm.Measurements([np_bits(rng, b) for b in ml])
            op = ising(rng, ts)
            if bessel and rng.random() < 0.5:
                ev = m.get_expectation_values(op, True)
            else:
                ev = m.get_expectation_values(op, use_bessel_correction=bool(bessel)) if bessel else m.get_expectation_values(op)
            if len(ev.correlations) != 1 or len(ev.estimator_covariances) != 1:
                raise Bad("frames")
            D = N - bessel
            return {"ev": [rat(x, 4 * N) for x in ev.values], "corr": mat(ev.correlations[0], lambda x: rat(x, 16 * N)),
                    "cov": mat(ev.estimator_covariances[0], lambda x: rat(x, 16 * N * N * D))}
        out.one({"op": "est", "m": ml, "t": ts, "bessel": bessel, "out": observe(est)})

        def par():
            p = zm.get_parities_from_measurements([tuple(b) for b in ml], ising(rng, ts))
            if len(p.correlations) != 1:
                raise Bad("frames")
            return {"vals": mat(p.values, as_int), "corr": [mat(r, as_int) for r in p.correlations[0]]}
        if i % 2:
            out.one({"op": "par", "m": ml, "t": ts, "out": observe(par)})
        # frequencies, single-outcome parities
        ls = []
        for b in ml:
            if b not in ls:
                ls.append(b)
        c = [[b, rng.randint(1, 9)] for b in ls]
        tot = sum(k for _, k in c)
        f = sorted(rng.sample(range(n), rng.randint(0, n)))

        def freq():
            fr = {label(b): k for b, k in c}
            fs = rng.choice([f, tuple(f), set(f)])
            v = zm.get_expectation_value_from_frequencies(list(f), fr)
            ev = []
            for b, _ in c:
                x = zm.check_parity(rng.choice([label(b), tuple(b), list(b)]), fs)
                ev.append(as_bool(x))
            vec = [as_int(x) for x in zm.check_parity_of_vector(np.array([b for b, _ in c]), f)]
            if vec != ev:
                raise Bad("check_parity and check_parity_of_vector disagree")
            return {"ev": rat(v, tot), "even": ev}
        out.one({"op": "freq", "c": c, "f": f, "out": observe(freq)})
    edge = [(10, 90), (90, 10), (9, 91), (91, 9), (50, 50), (49, 50), (50, 49), (99, 1), (0, 1), (1, 0), (100, 0), (0, 0), (20, 180), (19, 181), (60, 39), (60, 40), (12, 120), (30, 270)]
    for _ in range(60 if not THOROUGH else 1500):
        p = [list(rng.choice(edge)) if rng.random() < 0.5 else [rng.randint(0, 150), rng.randint(0, 150)] for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.8:
            p = [x if sum(x) else [1, 2] for x in p]

        def run():
            e = zm.get_expectation_values_from_parities(zm.Parities(np.array(p)))
            if len(e.estimator_covariances) != len(p):
                raise Bad("frames")
            # squared precision times N^3; through the exact fraction of the nearest candidate
            pr = []
            for (a, b), c in zip(p, e.estimator_covariances):
                if np.asarray(c).shape != (1, 1):
                    raise Bad("shape")
                pr.append(rat(np.asarray(c)[0][0], (a + b) ** 3, tol=1e-9))
            return {"vals": [rat(v, a + b) for v, (a, b) in zip(e.values, p)], "prec": pr}
        out.one({"op": "fromp", "p": p, "out": observe(run)})
    for _ in range(80 if not THOROUGH else 1500):
        xs = []
        for _ in range(rng.randint(0, 4)):
            k = rng.randint(0, 3)
            fr = lambda: [] if rng.random() < 0.4 else [[[rng.randint(-9, 9) for _ in range(k)] for _ in range(k)] for _ in range(rng.randint(1, 2))]
            xs.append({"vals": [rng.randint(-9, 9) for _ in range(k)], "corr": fr() if k else [], "cov": fr() if k else []})

        def run():
            objs = [zm.ExpectationValues(np.array(x["vals"], dtype=float),
                                         [np.array(y, dtype=float) for y in x["corr"]] if x["corr"] or rng.random() < 0.3 else None,
                                         [np.array(y, dtype=float) for y in x["cov"]] if x["cov"] or rng.random() < 0.3 else None) for x in xs]
            how = rng.randrange(3)
            e = zm.concatenate_expectation_values(objs if how == 0 else tuple(objs) if how == 1 else (o for o in objs))
            for x, o in zip(xs, objs):
                if [as_int(v) for v in o.values] != x["vals"] or len(o.correlations or []) != len(x["corr"]) or len(o.estimator_covariances or []) != len(x["cov"]):
                    raise Bad("operand changed")
            return {"vals": [as_int(v) for v in e.values], "corr": [mat(c, as_int) for c in e.correlations or []], "cov": [mat(c, as_int) for c in e.estimator_covariances or []]}
        out.one({"op": "cat", "xs": xs, "out": observe(run)})
        ys = [[rng.randint(-9, 9), rng.choice([0, 0, 3])] for _ in range(rng.randint(0, 4))]
        cplx = rng.random() < 0.7
        if not cplx:
            ys = [[a, 0] for a, _ in ys]

        def real():
            e = zm.expectation_values_to_real(zm.ExpectationValues(np.array([complex(a, b) if cplx else float(a) for a, b in ys])))
            if np.iscomplexobj(e.values):
                raise Bad("still complex")
            return [as_int(v) for v in e.values]
        if ys:
            out.one({"op": "real", "xs": ys, "out": observe(real)})
    for _ in range(150 if not THOROUGH else 3000):
        def desc():
            k = rng.randint(0, 3)
            fr = lambda: [] if rng.random() < 0.4 else [[[[rng.choice([0, 0, 1, 2]) for _ in range(k)] for _ in range(k)] for _ in range(rng.randint(1, 2))]]
            return {"vals": [rng.choice([0, 1, 2]) for _ in range(k)], "corr": fr() if k else [], "cov": fr() if k else []}
        a = desc()
        b = json.loads(json.dumps(a))
        r = rng.random()
        if r < 0.2:
            b = desc()
        elif r < 0.6:
            f = rng.choice(["vals", "corr", "cov"])
            if f == "vals" and b["vals"]:
                b["vals"][rng.randrange(len(b["vals"]))] += rng.choice([0, 1])
            elif f != "vals" and b[f]:
                g = rng.random()
                if g < 0.2:
                    b[f] = []
                elif g < 0.4:
                    b[f][0] = b[f][0][:-1] or b[f][0] * 2
                else:
                    x = b[f][0][rng.randrange(len(b[f][0]))]
                    x[rng.randrange(len(x))][rng.randrange(len(x))] += 1
        mk = lambda d: zm.ExpectationValues(np.array(d["vals"], dtype=float), *([np.array(y, dtype=float) for y in d[f][0]] if d[f] else None for f in ("corr", "cov")))

        def eveq():
            x, y = mk(a), mk(b)
            vs = [x == y, y == x, x != y, x == rng.choice([3, None, "x", list(a["vals"]), {"values": a["vals"]}])]
            if not all(isinstance(v, (bool, np.bool_)) for v in vs):
                raise Bad("not a truth value")
            return [int(v) for v in vs]
        out.one({"op": "eveq", "a": a, "b": b, "out": observe(eveq)})
    qo = QubitOperator("Z0 Z1", 0.5)
    m = zm.Measurements([(0, 1), (1, 1)])
    for bad in (qo, QubitOperator("X0"), 3.0, None, [IsingOperator("Z0")], "Z0"):
        out.one({"op": "reject", "what": "operator not Ising (values)", "out": observe(lambda: m.get_expectation_values(bad), lambda v: 0)})
        out.one({"op": "reject", "what": "operator not Ising (parities)", "out": observe(lambda: zm.get_parities_from_measurements([(0, 1)], bad), lambda v: 0)})


# ------------------------------------------------------------------- distributions
def rand_keys(rng, k, n, hi):
    ks = []
    for _ in range(50):
        x = [rng.randint(0, hi) for _ in range(n)]
        if x not in ks:
            ks.append(x)
        if len(ks) == k:
            break
    return ks


def key_form(rng, k, form):
    if form == "t":
        return np_bits(rng, k)
    if form == "s":
        return label(k)
    if form == "c":
        return ",".join(map(str, k))
    raise KeyError(form)


def dist_enc(d, W):
    return [[bits_of(k), rat(v, W)] for k, v in d.distribution_dict.items()]


def m03(out, rng):
    for i in range(350 if not THOROUGH else 6000):
        n = rng.choice([1, 1, 2, 2, 3, 4])
        hi = rng.choice([1, 1, 1, 3, 9, 12])
        ks = rand_keys(rng, rng.randint(1, 5), n, hi)
        mode = rng.choice(["t", "s", "c", "mix"])
        keys, ws = [], []
        for k in ks:
            f = mode if mode != "mix" else rng.choice("tsc")
            if f == "s" and max(k) > 9:
                f = "t"
            if f == "c" and n == 1:
                f = "t" if max(k) > 9 else "s"
            keys.append({"form": f, "k": k})
            ws.append(rng.choice([0, 1, 1, 2, 3, 5, 8]))
        norm = 1 if rng.random() < 0.75 else 0
        den = rng.choice([1, 2, 4, 10, max(1, sum(ws))])
        bad = rng.random()
        raw = [key_form(rng, x["k"], x["form"]) for x in keys]
        if bad < 0.06:
            ws[rng.randrange(len(ws))] = -rng.randint(1, 4)
        elif bad < 0.12:
            j = rng.randrange(len(keys))
            keys[j]["k"] = keys[j]["k"] + [0]
            raw[j] = key_form(rng, keys[j]["k"], keys[j]["form"])
        elif bad < 0.17:
            j = rng.randrange(len(keys))
            keys[j] = {"form": "t", "k": [-1] + keys[j]["k"][1:]}
            raw[j] = tuple(keys[j]["k"])
        elif bad < 0.22:
            j = rng.randrange(len(keys))
            keys[j] = {"form": "x", "k": keys[j]["k"]}
            raw[j] = rng.choice([5, 1.5, None, (0.5,) * n, ("a",) * n, (7.5,) * n])
        elif bad < 0.25:
            keys, ws, raw = [], [], []
        elif bad < 0.30:
            ws = [0] * len(ws)
        if len(set(map(str, raw))) != len(raw):
            continue
        W = sum(ws)
        d = {r: w / den for r, w in zip(raw, ws)}
        eff = (W if norm and W > 0 else den)
        cls = rng.choice([MOD, MOD, BitstringDistribution])

        def run():
            if norm:
                o = cls(d) if rng.random() < 0.5 else cls(d, True)
            else:
                o = cls(d, normalize=False)
            r = {"d": dist_enc(o, eff), "sub": as_int(o.get_number_of_subsystems()), "input": [rat(d[x], den) for x in raw]}
            if list(d) != raw:
                raise Bad("input keys changed")
            if cls is BitstringDistribution and o.get_qubits_number() != r["sub"]:
                raise Bad("get_qubits_number")
            return r
        e = {"op": "d_new", "keys": keys, "w": ws, "norm": norm, "out": observe(run)}
        # an already normalized mapping is kept; encode its values over its own total
        out.one(e)
    for _ in range(120 if not THOROUGH else 2500):
        ds = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 1, 2, 3])
            ks = rand_keys(rng, rng.randint(1, 4), n, rng.choice([1, 1, 5, 12, 30]))
            ws = [rng.choice([0, 1, 2, 3, 7]) for _ in ks]
            if not sum(ws):
                ws[0] = 1
            ds.append((ks, ws))
        single = len(ds) == 1 and rng.random() < 0.7
        legacy = single and rng.random() < 0.2

        def run():
            objs = [MOD({tuple(k): w for k, w in zip(ks, ws)}) for ks, ws in ds]
            import pathlib
            if single:
                zd.save_measurement_outcome_distribution(objs[0], pathlib.Path("d.json") if rng.random() < 0.3 else "d.json")
                if legacy:
                    j = json.load(open("d.json"))
                    j["bitstring_distribution"] = j.pop("measurement_outcome_distribution")
                    with open("d.json", "w") as f:
                        json.dump(j, f)
                if rng.random() < 0.5:
                    back = [zd.load_measurement_outcome_distribution("d.json")]
                else:
                    with open("d.json") as f:
                        back = [zd.load_measurement_outcome_distribution(f)]
            else:
                zd.save_measurement_outcome_distributions(objs, "d.json")
                if rng.random() < 0.5:
                    back = zd.load_measurement_outcome_distributions("d.json")
                else:
                    with open("d.json") as f:
                        back = zd.load_measurement_outcome_distributions(f)
            if any(not isinstance(b, MOD) for b in back):
                raise Bad("type")
            for o, (ks, ws) in zip(objs, ds):
                if [list(k) for k in o.distribution_dict] != ks:
                    raise Bad("saved object changed")
            return [dist_enc(b, sum(ds[min(i, len(ds) - 1)][1])) for i, b in enumerate(back)]
        out.one({"op": "d_io", "ds": [[[k, w] for k, w in zip(ks, ws)] for ks, ws in ds], "out": observe(run)})
    for _ in range(40 if not THOROUGH else 400):
        n = rng.randint(1, 5)
        ws = [rng.choice([0, 1, 1, 2, 5]) for _ in range(2 ** n)]
        if not sum(ws):
            ws[-1] = 1
        W = sum(ws)
        vec = np.array([w / W for w in ws]) if rng.random() < 0.6 else np.array(ws, dtype=rng.choice([float, int]))
        out.one({"op": "d_vec", "w": ws, "out": observe(lambda: dist_enc(zd.create_bitstring_distribution_from_probability_distribution(vec), W))})


def pow2_weights(rng, k, W):
    """k weights, powers of two or zero, summing to W (a power of two)."""
    parts = [W]
    while len(parts) < k:
        j = rng.randrange(len(parts))
        if parts[j] == 1:
            if all(p <= 1 for p in parts):
                break
            continue
        parts[j] //= 2
        parts.append(parts[j])
    parts += [0] * (k - len(parts))
    rng.shuffle(parts)
    return parts


def any_weights(rng, k, W):
    cuts = sorted(rng.randint(0, W) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [W])]


def mk(d, W, rng, norm=True):
    items = [(tuple(k), w / W) for k, w in d]
    rng.shuffle(items)
    return MOD(dict(items))


LN2 = math.log(2)


def m04(out, rng):
    for i in range(260 if not THOROUGH else 4000):
        n = rng.choice([1, 2, 2, 3])
        W = rng.choice([2, 4, 8, 16])
        ks = rand_keys(rng, rng.randint(1, 5), n, 1)
        split = rng.randint(0, 2)        # some outcomes only in one of the two
        tk = ks if split == 0 else [k for k in ks if rng.random() < 0.7] or ks[:1]
        mk_ = ks if split != 2 else [k for k in ks if rng.random() < 0.7] or ks[:1]
        t = [[k, w] for k, w in zip(tk, pow2_weights(rng, len(tk), W) if i % 3 else any_weights(rng, len(tk), W))]
        m = [[k, w] for k, w in zip(mk_, pow2_weights(rng, len(mk_), W))]
        if i % 10 == 0:
            m = [list(x) for x in t]
        p2 = all(w & (w - 1) == 0 for _, w in t)
        p2m = all(w & (w - 1) == 0 for _, w in m)
        e = rng.choice([1, 2, 3, 5, 10])
        prm = {"epsilon": 2.0 ** -e}
        T, M = run_quiet(lambda: (mk(t, W, rng), mk(m, W, rng)))[1] if True else None
        if isinstance(T, dict) or T == "k":
            continue
        via = rng.random() < 0.5
        call = (lambda f, a, b, q: zd.evaluate_distribution_distance(a, b, f, distance_measure_parameters=q)) if via else (lambda f, a, b, q: f(a, b, q))
        if p2m:
            out.one({"op": "nll", "t": t, "m": m, "W": W, "e": e, "out": observe(lambda: rat(call(zd.compute_clipped_negative_log_likelihood, T, M, prm) / LN2, W))})
        if p2 and p2m:
            out.one({"op": "jsd", "t": t, "m": m, "W": W, "e": e, "out": observe(lambda: rat(call(zd.compute_jensen_shannon_divergence, T, M, prm) / LN2, 2 * W))})

        def two():
            v = call(zd.compute_clipped_negative_log_likelihood, T, M, {}) * W / LN2
            L = 9 * math.log(10) / LN2
            for b in range(0, W + 1):
                a = v - b * L
                if abs(a - round(a)) < 1e-6:
                    return [int(round(a)), b]
            raise Bad("not in the span of log 2 and log 10^9")
        if p2m:
            out.one({"op": "nll_def", "t": t, "m": m, "W": W, "out": observe(two)})
        # kernels: d <= 3 for two qubits, so 2^(-a d^2) with a <= 2 has denominators up to 2^18
        kk = rand_keys(rng, rng.randint(1, 4), rng.choice([1, 2]), 1)
        Wm = rng.choice([2, 4, 8])
        t2 = [[k, w] for k, w in zip(kk, any_weights(rng, len(kk), Wm))]
        k3 = kk if rng.random() < 0.5 else rand_keys(rng, rng.randint(1, 4), len(kk[0]), 1)
        m2 = [[k, w] for k, w in zip(k3, any_weights(rng, len(k3), Wm))]
        if i % 9 == 0:
            m2 = [list(x) for x in t2]
        As = rng.choice([[1], [2], [1, 2], [2, 1], [1, 1], [1, 2, 2]])
        S = 18
        sig = [1 / (2 * a * LN2) for a in As]
        sig = sig[0] if len(As) == 1 and rng.random() < 0.6 else rng.choice([list, tuple, np.array])(sig)

        def mmd():
            a, b = mk(t2, Wm, rng), mk(m2, Wm, rng)
            v = call(zd.compute_mmd, a, b, {"sigma": sig})
            return rat(v, Wm * Wm * len(As) * 2 ** S, tol=1e-10) if abs(v) < 2 else (_ for _ in ()).throw(Bad("too large"))
        out.one({"op": "mmd", "t": t2, "m": m2, "W": Wm, "as": As, "S": S, "out": observe(mmd)})
        # default bandwidth: distributions that differ on two outcomes
        n4 = rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 17, 32, 33, 40, 54, 63, 64, 65, 80])
        kk = rand_keys(rng, 4, n4, 1)
        if n4 > 4:              # outcomes as wide as a large register, one digit apart
            j = rng.choice([0, 1, n4 - 1, n4 - 1, n4 - 2, rng.randrange(n4), max(0, n4 - 33), max(0, n4 - 17)])
            kk[1] = kk[0][:j] + [1 - kk[0][j]] + kk[0][j + 1:]
        if len(kk) >= 2:
            W8 = 8
            w = any_weights(rng, len(kk), W8)
            x = rng.randint(0, w[0])
            w2 = list(w)
            w2[0] -= x
            w2[1] += x
            val = lambda b: int("".join(map(str, b)), 2)
            dd = abs(val(kk[0]) - val(kk[1]))
            K = math.exp(-dd * dd / 2)
            ta = [[k, v] for k, v in zip(kk, w) if v or rng.random() < 0.5]
            tb = [[k, v] for k, v in zip(kk, w2) if v or rng.random() < 0.5]

            def dflt():
                v = call(zd.compute_mmd, mk(ta, W8, rng), mk(tb, W8, rng), rng.choice([{}, {}, {"sigma": 1}, {"sigma": [1.0]}, {"sigma": np.array([1.0, 1.0])}])) * W8 * W8
                # v = 2x^2 (1 - K): read the coefficient off (K is not a simple rational)
                c = v / (1 - K)
                if abs(c - round(c)) > 1e-7:
                    raise Bad("not a multiple of 1-K")
                return [int(round(c)), -int(round(c))]
            out.one({"op": "mmd_def", "x": x, "d": min(dd, 9999), "n": n4, "out": observe(dflt)})
    marks = []

    def probe(a, b, **kw):
        marks.append((a, b, kw))
        return 0.125
    for types in (1, 0):
        for na in (1, 2, 3):
            for nb in (1, 2, 3):
                for norma in (1, 0):
                    for normb in (1, 0):
                        a = MOD({(0,) * na: 0.5, (1,) * na: 0.5 if norma else 0.75}, normalize=False)
                        b = MOD({(0,) * nb: 0.25, (1,) * nb: 0.75 if normb else 0.5}, normalize=False)
                        aa, bb = a, b
                        if not types:
                            which = rng.randrange(3)
                            if which != 1:
                                aa = a.distribution_dict
                            if which != 0:
                                bb = b.distribution_dict

                        def run():
                            del marks[:]
                            v = zd.evaluate_distribution_distance(aa, bb, probe, distance_measure_parameters={"q": 1})
                            return 1 if v == 0.125 and len(marks) == 1 and marks[0][0] is aa and marks[0][1] is bb and marks[0][2] == {"distance_measure_parameters": {"q": 1}} else 0
                        out.one({"op": "eval", "types": types, "na": na, "nb": nb, "norma": norma, "normb": normb, "out": observe(run)})
    for s in (0, [1.0, 0]):
        out.one({"op": "reject", "what": "zero bandwidth", "out": observe(lambda: zd.compute_mmd(MOD({"0": 1}), MOD({"1": 1}), {"sigma": s}), lambda v: 0)})


def m05(out, rng):
    np.random.seed(SEED)
    for i in range(700 if not THOROUGH else 12000):
        n = rng.choice([1, 2, 3])
        hi = rng.choice([1, 1, 1, 4])
        ks = rand_keys(rng, rng.randint(1, 8), n, hi)
        W = rng.choice([1, 2, 3, 5, 7, 10, 12, 16, 24, 60])
        w = any_weights(rng, len(ks), W)
        if rng.random() < 0.4 and len(ks) > 1:      # nearly equal weights: many corrections of one sign
            w = [W // len(ks)] * len(ks)
            w[0] += W - sum(w)
        N = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 10, 12, W, 2 * W, W + 1, 25])

        def run():
            d = MOD({tuple(k): x / W for k, x in zip(ks, w)})
            m = zm.Measurements.get_measurements_representing_distribution(d, N)
            cnt = [0] * len(ks)
            other = 0
            for b in m.bitstrings:
                b = bits_of(b)
                if b in ks:
                    cnt[ks.index(b)] += 1
                else:
                    other += 1
            after = [rat(d.distribution_dict[tuple(k)], W) for k in ks]
            if len(d.distribution_dict) != len(ks):
                raise Bad("distribution keys")
            return {"c": cnt, "other": other, "dist": after}
        out.one({"op": "repr", "w": w, "W": W, "n": N, "out": observe(run)})
        if i % 4 == 0:
            forms = rng.choice([lambda k: tuple(k), lambda k: label(k), lambda k: int(label(k), 36)])

            def draw():
                d = {forms(k): x / W for k, x in zip(ks, w)}
                c = sample_from_probability_distribution(d, N)
                kk = [forms(k) for k in ks]
                return {"c": [as_int(c.get(k, 0)) for k in kk], "other": sum(v for k, v in c.items() if k not in kk)}
            out.one({"op": "draw", "w": w, "n": N, "out": observe(draw)})
    out.one({"op": "reject", "what": "distribution given as list", "out": observe(lambda: sample_from_probability_distribution([0.5, 0.5], 3), lambda v: 0)})


if __name__ == "__main__":
    main({"M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05})
