"""Model Hamiltonians and chemistry constructions: O07."""
import os, shutil, tempfile
import numpy as np
from drv import *
from d_op import COEFS, cring, cval, creal, gz, enc, enc_t, rand_c, n_of
from d_mat import g25
from d_ten import terms
from zquantum.core import openfermion as of
from zquantum.core.openfermion import FermionOperator, InteractionOperator
from zquantum.core.openfermion.chem import molecular_data as md
from zquantum.core.openfermion.chem.reduced_hamiltonian import make_reduced_hamiltonian
from zquantum.core.openfermion.circuits import unitary_cc as ucc
from zquantum.core.openfermion.hamiltonians import general_hubbard, hubbard
from zquantum.core.openfermion.hamiltonians.special_operators import number_operator
from zquantum.core.openfermion.ops.representations.interaction_operator import get_active_space_integrals, get_tensors_from_integrals
from zquantum.core.openfermion.transforms.repconversions.conversions import get_molecular_data


def real(rng):
    c = rand_c(rng, real=True)
    return c, cval(c).real


def typed(rng, c):
    """A real coefficient as a Python number of some type."""
    v = cval(c).real
    r = rng.random()
    return int(v) if v == int(v) and r < 0.4 else np.float64(v) if r < 0.55 else v


def entries(a, f=gz):
    a = np.asarray(a)
    return [{"f": [int(i) for i in ix], "c": f(a[ix])} for ix in zip(*np.nonzero(np.abs(a) > 1e-12))]


def square(a, n, k):
    if np.shape(a) != (n,) * k:
        raise Bad("shape %r" % (np.shape(a),))
    return a


def ferm(op):
    if type(op) is not FermionOperator:
        raise Bad("not a fermion operator: %r" % type(op))
    return enc_t(op)


# ---- lattices ----------------------------------------------------------------------------
def hubbard_event(rng):
    spinless = int(rng.random() < 0.5)
    while True:
        x, y = rng.randint(1, 6), rng.randint(1, 6)
        if x * y <= (12 if spinless else 6):
            break
    e = {"op": "hubbard", "x": x, "y": y, "spinless": spinless, "per": 1, "phs": 0, "mu": [0] * 6, "h": [0] * 6}
    t, u, mu, h = [rand_c(rng, real=True) if rng.random() < 0.85 else (0, 0, 0) for _ in range(4)]
    e["tc"] = int(rng.random() < 0.2)     # complex amplitudes
    if e["tc"]:
        t = rand_c(rng)
    e["t"], e["u"] = cring(t), cring(u)
    args, kw = [x, y, cval(t) if e["tc"] else typed(rng, t), typed(rng, u)], {}
    if rng.random() < 0.7:
        e["mu"] = cring(mu)
        kw["chemical_potential"] = typed(rng, mu)
    if rng.random() < 0.7:
        e["h"] = cring(h)
        kw["magnetic_field"] = typed(rng, h)
    if rng.random() < 0.7:
        e["per"] = int(rng.random() < 0.5)
        kw["periodic"] = bool(e["per"])
    if rng.random() < 0.6:
        e["phs"] = int(rng.random() < 0.5)
        kw["particle_hole_symmetry"] = bool(e["phs"])
    if spinless or rng.random() < 0.5:
        kw["spinless"] = bool(spinless)
    if len(kw) == 5 and rng.random() < 0.5:
        args += [kw[k] for k in ("chemical_potential", "magnetic_field", "periodic", "spinless", "particle_hole_symmetry")]
        kw = {}
    f = rng.choice([of.fermi_hubbard if hasattr(of, "fermi_hubbard") else hubbard.fermi_hubbard, hubbard.fermi_hubbard])
    e["out"] = observe(lambda: ferm(f(*args, **kw)))
    return e


def number_events(rng):
    evs = []
    n = rng.randint(0, 6)
    mode = [] if rng.random() < 0.5 else [rng.randint(0, 7)]
    c = rand_c(rng, real=True)
    kw = {}
    if mode:
        kw["mode"] = mode[0]
    elif rng.random() < 0.3:
        kw["mode"] = None
    if rng.random() < 0.7:
        kw["coefficient"] = typed(rng, c)
    else:
        c = (1, 0, 0)
    if rng.random() < 0.3:
        kw["parity"] = -1
    evs.append({"op": "numop", "n": n, "mode": mode, "c": cring(c), "out": observe(lambda: ferm(number_operator(n, **kw)))})
    p = rng.choice([1, 0, 2, -2, None])
    evs.append({"op": "reject", "what": "number operator of other particles", "out": observe(lambda: ferm(number_operator(n, rng.choice([None, 0, 1]) if n else 0, parity=p)))})
    i, j, phs = rng.randint(0, 6), rng.randint(0, 6), int(rng.random() < 0.5)
    evs.append({"op": "gnum", "i": i, "phs": phs, "out": observe(lambda: ferm(general_hubbard.number_operator(i, particle_hole_symmetry=bool(phs))))})
    evs.append({"op": "gint", "i": i, "j": j, "phs": phs, "out": observe(lambda: ferm(general_hubbard.interaction_operator(i, j, particle_hole_symmetry=bool(phs))))})
    return evs


# ---- integrals ---------------------------------------------------------------------------
def rand_arr(rng, n, k, dens, cplx=False, mult=1):
    a = np.zeros((n,) * k, dtype=complex if cplx else float)
    for ix in np.ndindex(*a.shape):
        if rng.random() < dens:
            z = cval(rand_c(rng, real=not cplx)) * mult
            a[ix] = z if cplx else z.real
    return a


def sym1(rng, n, dens):
    a = np.zeros((n, n))
    for p in range(n):
        for q in range(p + 1):
            if rng.random() < dens:
                a[p, q] = a[q, p] = real(rng)[1]
    return a


def sym8(rng, n, k):
    """Integrals g[p,q,r,s] = (ps|qr) of real orbitals."""
    a = np.zeros((n,) * 4)
    for _ in range(k):
        p, q, r, s = [rng.randrange(n) for _ in range(4)]
        v = real(rng)[1]
        for (x, y), (z, w) in [((p, s), (q, r)), ((q, r), (p, s))]:
            for i, l in [(x, y), (y, x)]:
                for j, m in [(z, w), (w, z)]:
                    a[i, j, m, l] = v
    return a


def reduced_event(rng):
    n = rng.choice([2, 2, 3, 3, 4, 4, 5])
    N = rng.choice([m for m in (2, 3, 4, 5) if m <= n])
    cplx = rng.random() < 0.3
    one = rand_arr(rng, n, 2, rng.choice([0.3, 0.8]), cplx, 3 if N == 4 else 1)
    two = rand_arr(rng, n, 4, rng.choice([0.02, 0.1 if n < 4 else 0.03]), cplx)
    if rng.random() < 0.5:
        one = one + one.conj().T
    c, cv = real(rng)
    I = InteractionOperator(cv, one, two)
    a, b = one.copy(), two.copy()

    def run():
        R = make_reduced_hamiltonian(I, N)
        if type(R) is not InteractionOperator:
            raise Bad("type")
        kept = int(np.array_equal(I.one_body_tensor, a) and np.array_equal(I.two_body_tensor, b) and I.constant == cv)
        return {"n": int(R.n_qubits), "c": gz(R.constant), "one": entries(square(R.one_body_tensor, n, 2)), "two": entries(square(R.two_body_tensor, n, 4)), "kept": kept}
    return {"op": "reduced", "n": n, "ne": N, "c": cring(c), "one": entries(one), "two": entries(two), "out": observe(run)}


def tensor_events(rng):
    n = rng.choice([1, 2, 2, 3])
    one, two = rand_arr(rng, n, 2, 0.6), rand_arr(rng, n, 4, rng.choice([0.05, 0.2, 0.6 if n < 3 else 0.1]))
    evs = []

    def run(f):
        o, t = f(one, two)
        return {"n": int(o.shape[0]), "one": entries(square(o, 2 * n, 2)), "two": entries(square(t, 2 * n, 4))}
    h, g = entries(one), entries(two)
    evs.append({"op": "tensors", "half": 1, "n": n, "one": h, "two": g, "out": observe(lambda: run(get_tensors_from_integrals))})
    evs.append({"op": "tensors", "half": 0, "n": n, "one": h, "two": g, "out": observe(lambda: run(md.spinorb_from_spatial))})
    evs.append({"op": "antisym", "two": g, "out": observe(lambda: entries(square(md.antisymtei(two), n, 4)))})
    evs.append({"op": "jmat", "two": g, "out": observe(lambda: entries(square(md.j_mat(two), n, 2)))})
    evs.append({"op": "kmat", "two": g, "out": observe(lambda: entries(square(md.k_mat(two), n, 2)))})
    M = molecule(rng)
    M.n_orbitals, M.one_body_integrals, M.two_body_integrals = n, one, two
    evs.append({"op": "jmat", "two": g, "out": observe(lambda: entries(square(M.get_j(), n, 2)))})
    evs.append({"op": "kmat", "two": g, "out": observe(lambda: entries(square(M.get_k(), n, 2)))})
    if len(g) < 30:
        evs.append({"op": "antisymspin", "two": g, "out": observe(lambda: entries(square(M.get_antisym(), 2 * n, 4)))})
    return evs


def molecule(rng):
    return md.MolecularData(geometry=[("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, 0.5))], basis="sto-3g", multiplicity=1, filename="/nonexistent/none")


def split(rng, n):
    """A core and active orbitals in any order; the others stay empty."""
    o = list(range(n))
    rng.shuffle(o)
    k = rng.randint(0, n - 1)
    core, rest = o[:k], o[k:]
    act = rest[:rng.randint(1, len(rest))]
    if rng.random() < 0.5:
        core.sort()
        act.sort()
    return core, act


def conv(rng, s):
    r = rng.random()
    return list(s) if r < 0.7 else np.array(s, dtype=int) if r < 0.8 and s else tuple(s)


def active_events(rng):
    n = rng.choice([1, 2, 2, 3, 3])
    one, two = sym1(rng, n, 0.7), sym8(rng, n, rng.choice([1, 3, 6]))
    h, g = entries(one), entries(two)
    a, b = one.copy(), two.copy()
    evs = []
    for _ in range(2):
        core, act = split(rng, n)
        if rng.random() < 0.08:
            act = []

        def run():
            oc = None if not core and rng.random() < 0.5 else conv(rng, core)
            c, o, t = get_active_space_integrals(one, two, oc, conv(rng, act))
            kept = int(np.array_equal(one, a) and np.array_equal(two, b))
            return {"n": int(o.shape[0]), "c": gz(c), "one": entries(square(o, len(act), 2)), "two": entries(square(t, len(act), 4)), "kept": kept}
        evs.append({"op": "active", "n": n, "one": h, "two": g, "core": core, "act": act, "out": observe(run)})
    M = molecule(rng)
    c, cv = real(rng)
    M.n_orbitals, M.n_qubits, M.one_body_integrals, M.two_body_integrals, M.nuclear_repulsion = n, 2 * n, one, two, cv
    core, act = split(rng, n)
    for every in (1, 0, 1):
        def run():
            H = M.get_molecular_hamiltonian() if every else M.get_molecular_hamiltonian(conv(rng, core), conv(rng, act))
            if type(H) is not InteractionOperator:
                raise Bad("type")
            return {"n": int(H.n_qubits), "t": terms(H)}
        evs.append({"op": "molham", "n": n, "c": cring(c), "one": h, "two": g, "all": every, "core": core, "act": act, "out": observe(run)})
    ne, mult = rng.randint(1, 2 * n), rng.randint(1, 3)
    I = InteractionOperator(cv, *get_tensors_from_integrals(one, two))

    def back():
        m = get_molecular_data(I, geometry=[("H", (0.0, 0.0, 0.0))], basis="sto-3g", multiplicity=mult, n_electrons=ne, data_directory="/nonexistent")
        return {"n": as_int(m.n_orbitals), "nq": as_int(m.n_qubits), "ne": as_int(m.n_electrons), "mult": as_int(m.multiplicity), "c": gz(m.nuclear_repulsion), "t": terms(m.get_molecular_hamiltonian())}
    evs.append({"op": "moldata", "n": n, "ne": ne, "mult": mult, "c": cring(c), "one": h, "two": g, "out": observe(back)})
    return evs


def stored_events(rng):
    """Hamiltonians of a molecule stored in the data directory."""
    n = rng.choice([1, 2, 3])
    one, two = sym1(rng, n, 0.7), sym8(rng, n, 4)
    h, g = entries(one), entries(two)
    c, cv = real(rng)
    d, old = tempfile.mkdtemp(prefix="chem"), md.DATA_DIRECTORY
    here = os.getcwd()
    evs = []
    try:
        os.chdir(d)
        md.DATA_DIRECTORY = d
        geo = [("He" if rng.random() < 0.5 else "H", (0.0, 0.0, float(i))) for i in range(n)]
        ne = sum(2 if a == "He" else 1 for a, _ in geo)
        mult = 1 + ne % 2
        M = md.MolecularData(geo, "sto-3g", mult, description="d")
        M.n_orbitals, M.n_qubits, M.one_body_integrals, M.two_body_integrals, M.nuclear_repulsion = n, 2 * n, one, two, cv
        M.save()
        for _ in range(2):
            every = rng.random() < 0.4
            k = rng.choice([x for x in range(ne % 2, ne + 1, 2) if (ne - x) // 2 < n] or [None])
            if k is None:
                continue
            core = list(range((ne - k) // 2))
            act = list(range(len(core), rng.randint(len(core) + 1, n)))
            kw = {} if every else {"n_active_electrons": k, "n_active_orbitals": len(act)}

            def run():
                H = md.load_molecular_hamiltonian(geo, "sto-3g", mult, "d", **kw)
                return {"n": int(H.n_qubits), "t": terms(H)}
            evs.append({"op": "molham", "n": n, "c": cring(c), "one": h, "two": g, "all": int(every), "core": core, "act": act, "out": observe(run)})
    finally:
        md.DATA_DIRECTORY = old
        os.chdir(here)
        assert d.startswith(tempfile.gettempdir() + "/chem")
        shutil.rmtree(d)
    return evs


# ---- coupled cluster -----------------------------------------------------------------------
def amps(rng, n, k, cnt, distinct=False):
    r, seen = [], set()
    for _ in range(cnt):
        f = [rng.randrange(n) for _ in range(k)]
        if distinct and tuple(f) in seen:
            continue
        seen.add(tuple(f))
        r.append((f, real(rng)))
    return r


def dense(n, k, l):
    a = np.zeros((n,) * k)
    for f, (c, v) in l:
        a[tuple(f)] = v
    return a


def evam(l):
    return [{"f": f, "c": cring(c)} for f, (c, v) in l]


def ucc_events(rng):
    evs = []
    n = rng.randint(1, 5)
    arrays = rng.random() < 0.5
    ss, ds = amps(rng, n, 2, rng.randint(0, 4), arrays), amps(rng, n, 4, rng.randint(0, 3), arrays)
    ah = int(rng.random() < 0.7)
    kw = {} if ah and rng.random() < 0.5 else {"anti_hermitian": bool(ah)}

    def run():
        if arrays:
            return ferm(ucc.uccsd_generator(dense(n, 2, ss), dense(n, 4, ds), **kw))
        num = rng.choice([int, int, float])
        return ferm(ucc.uccsd_generator([[[num(i) for i in f], v] for f, (c, v) in ss], [[[num(i) for i in f], v] for f, (c, v) in ds], **kw))
    evs.append({"op": "uccgen", "ss": evam(ss), "ds": evam(ds), "ah": ah, "out": observe(run)})
    if arrays:
        def run2():
            a, b = ucc.uccsd_convert_amplitude_format(dense(n, 2, ss), dense(n, 4, ds))
            return {"ss": [{"f": [as_int(i) for i in f], "c": gz(v)} for f, v in a], "ds": [{"f": [as_int(i) for i in f], "c": gz(v)} for f, v in b]}
        evs.append({"op": "uccconv", "ss": evam(ss), "ds": evam(ds), "out": observe(run2)})
    n = rng.randint(1, 12)
    ne = rng.randint(0, n)
    evs.append({"op": "npar", "n": n, "ne": ne, "out": observe(lambda: as_int(ucc.uccsd_singlet_paramsize(n, ne)))})
    n = rng.choice([2, 4, 4, 6, 6, 8, 5])
    ne = rng.randint(1, n - 1) if n < 8 else rng.choice([1, 2, 5, 6, 7])
    occ = (ne + 1) // 2
    m = occ * max(0, n // 2 - occ)
    t = [real(rng) if rng.random() < 0.8 else ((0, 0, 0), 0.0) for _ in range(2 * m + m * (m - 1) // 2)]
    ah = int(rng.random() < 0.7)
    kw = {} if ah and rng.random() < 0.5 else {"anti_hermitian": bool(ah)}
    vec = [v for c, v in t]
    evs.append({"op": "singlet", "n": n, "ne": ne, "ah": ah, "t": [cring(c) for c, v in t],
                "out": observe(lambda: ferm(ucc.uccsd_singlet_generator(vec if rng.random() < 0.5 else np.array(vec), n, ne, **kw)))})
    n = rng.choice([2, 4, 4, 6])
    ne = rng.randint(1, n)
    a1, a2 = rand_arr(rng, n, 2, 0.8), rand_arr(rng, n, 4, 0.5 if n < 6 else 0.1)
    evs.append({"op": "packed", "n": n, "ne": ne, "ss": entries(a1), "ds": entries(a2),
                "out": observe(lambda: [gz(v) for v in ucc.uccsd_singlet_get_packed_amplitudes(a1, a2, n, ne)])})
    # amplitudes packed from arrays and turned into a generator: those of the arrays
    return evs


def units_event(rng):
    x = rng.choice([0.0, 1.0, 0.7414, 3.5, 1e-3, 250.0, rng.uniform(0, 10)])

    def run():
        a, b = md.angstroms_to_bohr(md.bohr_to_angstroms(x)), md.bohr_to_angstroms(md.angstroms_to_bohr(x))
        return int(abs(a - x) < 1e-9 * (1 + x) and abs(b - x) < 1e-9 * (1 + x) and abs(md.bohr_to_angstroms(x) - x * 0.52917721) < 1e-7 * (1 + x))
    return {"op": "units", "out": observe(run)}


def o07(out, rng):
    for _ in range(n_of(110)):
        out.one(hubbard_event(rng), key="hubbard")
        out.one(hubbard_event(rng), key="hubbard")
        out.session(number_events(rng), key="number")
        out.one(reduced_event(rng), key="reduced")
        if rng.random() < 0.5:
            out.session(tensor_events(rng), key="integrals")
        if rng.random() < 0.6:
            out.session(active_events(rng), key="active")
        out.session(ucc_events(rng), key="ucc")
        if rng.random() < 0.1:
            out.one(units_event(rng), key="units")
            out.session(stored_events(rng), key="stored")


if __name__ == "__main__":
    main({"O07": o07})
