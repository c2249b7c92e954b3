"""Molecules and their files: O08."""
import json, os, random, shutil, tempfile
import numpy as np
from drv import *
from d_op import n_of
from zquantum.core.openfermion.chem import molecular_data as md
from zquantum.core.openfermion.ops.representations import InteractionRDM

SCALARS = ["n_orbitals", "n_qubits", "nuclear_repulsion", "hf_energy", "orbital_energies", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy", "general_calculations"]
LAZIES = ["canonical_orbitals", "overlap_integrals", "one_body_integrals", "two_body_integrals", "cisd_one_rdm", "cisd_two_rdm", "fci_one_rdm", "fci_two_rdm", "ccsd_single_amps", "ccsd_double_amps"]
NTOK = 5
SYM = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr".split()
CALCS = [{}, {"energy": 1.5}, {"a": -2.25, "longer name": 0.0, "b c": 1e-9}, {"x": 0.0}, {"energy": -1.5, "e": 3.0}]
POS = [(0.0, 0.0, 0.0), (0.0, 0.0, 0.7414), (-1.25, 3.5, 1e-3), (1, 2, 3), (0.1, 0.2, 1 / 3)]


def value(x, t):
    """The value of token t for field x; number 3 is zero."""
    if x in ("n_orbitals", "n_qubits"):
        return [1, 2, 0, 7, 12][t - 1]
    if x == "general_calculations":
        return dict(CALCS[t - 1])
    if x == "orbital_energies":
        return np.array([-0.5, 0.25, 1 / 3])[:1 + t % 3] * (t - 3)
    if x not in LAZIES:
        return [-1.1372838344885, 0.7, 0.0, 5, 1e-12][t - 1]
    n = 2 if t != 4 else 3
    k = 4 if "two" in x or "double" in x else 2
    a = np.arange(n ** k, dtype=float).reshape((n,) * k) / 7 + t
    if t == 3:
        a = np.zeros_like(a)
    if t == 5:
        a = a.transpose()
    return a


TABLE = {}


def plain(v):
    return v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v


def token(x, v):
    if v is None:
        return 0
    if x not in TABLE:
        TABLE[x] = [plain(value(x, t)) for t in range(1, NTOK + 1)]
    v = plain(v)
    if isinstance(v, dict):
        v = {k: plain(a) for k, a in v.items()}
    if isinstance(v, bool):
        return -1
    return TABLE[x].index(v) + 1 if v in TABLE[x] else -1


def text(b):
    return b.decode() if isinstance(b, bytes) else str(b)


class World:
    def __init__(self, rng):
        self.rng = rng
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="mol"))
        self.regs, self.evs, self.geos = [], [], []
        self.old = os.getcwd()
        os.chdir(self.dir)
        os.mkdir("sub")

    def close(self):
        os.chdir(self.old)
        assert self.dir.startswith(os.path.realpath(tempfile.gettempdir()) + "/mol")
        shutil.rmtree(self.dir)

    def geo(self, g):
        """Which geometry this is."""
        for i, h in enumerate(self.geos):
            if isinstance(g, str) or isinstance(h, str):
                if isinstance(g, str) and g == h:
                    return i + 1
            elif len(g) == len(h) and all(a[0] == b[0] and list(map(float, a[1])) == list(map(float, b[1])) for a, b in zip(g, h)):
                return i + 1
        return -1

    def rel(self, f):
        return os.path.relpath(os.path.join(self.dir, f), self.dir)

    def snap(self):
        r = []
        for m in self.regs:
            try:
                txt = isinstance(m.geometry, str)
                meta = {"geo": self.geo(m.geometry), "atoms": [] if txt else [text(a) for a in m.atoms], "protons": [] if txt else [as_int(z) for z in m.protons],
                        "na": as_int(m.n_atoms), "basis": m.basis, "mult": as_int(m.multiplicity), "charge": as_int(m.charge), "desc": m.description, "name": m.name, "ne": as_int(m.n_electrons)}
                r.append({"file": self.rel(m.filename), "meta": meta, "sc": {x: token(x, getattr(m, x)) for x in SCALARS}})
            except Exception as e:
                r.append({"file": "unreadable: " + repr(e)[:100], "meta": {}, "sc": {}})
        return r

    def files(self):
        r = []
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), self.dir)
                r.append(p[:-5] if p.endswith(".hdf5") else p + " (foreign)")
        return sorted(r)

    def do(self, e, fn):
        e["out"] = observe(fn)
        e["regs"], e["files"] = self.snap(), self.files()
        self.evs.append(e)
        return e["out"]["k"] == "ok"

    def put(self, m):
        self.regs.append(m)
        return 0


def rand_geo(rng):
    if rng.random() < 0.1:
        return rng.choice(["water", "my molecule", "C60"])
    pool = rng.choice([["H"], ["H", "O"], ["H", "He", "Li", "C", "N", "O", "Cl"], SYM])
    g = [(rng.choice(pool), rng.choice(POS)) for _ in range(rng.randint(1, 5))]
    return g if rng.random() < 0.7 else [[a, list(p)] for a, p in g]


def meta(W, rng):
    g = rand_geo(rng)
    if W.geo(g) < 0:
        W.geos.append(g)
    txt = g if isinstance(g, str) else ""
    return g, {"geo": W.geo(g), "atoms": [] if txt else [a[0] for a in g], "txt": txt, "basis": rng.choice(["sto-3g", "cc-pvtz", "6-31g*", "b"]), "mult": rng.choice([1, 1, 2, 3, 4, 5, 7, 12]) if rng.random() < 0.93 else rng.choice([0, 13, -1]),
               "charge": rng.choice([0, 0, 0, 1, 2, -1, -3]), "desc": rng.choice(["", "", "0.7414", "a b", "x_y"])}


FILES = ["a", "b", "sub/a", "c.d"]


def program(rng):
    W = World(rng)
    try:
        def new():
            g, m = meta(W, rng)
            if rng.random() < 0.05 and not m["txt"]:
                g = [("Xx", POS[0])] + list(g)
                m["atoms"] = ["Xx"] + m["atoms"]
                W.geos.append(g)
                m["geo"] = len(W.geos)
            kw = {}
            if m["charge"] or rng.random() < 0.5:
                kw["charge"] = m["charge"]
            if m["desc"] or rng.random() < 0.5:
                kw["description"] = m["desc"]
            f = rng.choice(FILES) if rng.random() < 0.75 else ""
            if f:
                kw["filename"] = rng.choice([f, os.path.join(W.dir, f)]) + rng.choice(["", ".hdf5"])
            else:
                kw["data_directory"] = W.dir
            W.do({"op": "new", "m": m, "file": f}, lambda: W.put(md.MolecularData(g, m["basis"], m["mult"], **kw)))
        new()
        for _ in range(rng.randint(6, 16)):
            r = rng.random()
            if not W.regs or r < 0.08 and len(W.regs) < 4:
                new()
                continue
            present = W.files()
            if r < 0.22 and len(W.regs) < 5:
                f = rng.choice(present) if present and rng.random() < 0.9 else rng.choice(FILES)
                kw = {"filename": os.path.join(rng.choice([W.dir, ""]), f) + rng.choice(["", ".hdf5"])}
                if rng.random() < 0.2:
                    kw["basis"] = "ignored"
                W.do({"op": "open", "file": f}, lambda: W.put(md.MolecularData(**kw)))
                continue
            i = rng.randint(1, len(W.regs))
            M = W.regs[i - 1]
            op = rng.choice(["save", "save", "save", "load", "setsc", "setsc", "setsc", "setlz", "setlz", "setlz", "get", "get", "get", "setmeta", "integrals", "missing", "rdm", "rdm", "spins", "name", "del", "geofile"])
            if op == "save":
                W.do({"op": "save", "i": i}, lambda: (M.save(), 0)[1])
            elif op == "load":
                W.do({"op": "load", "i": i}, lambda: (M.load(), 0)[1])
            elif op == "setsc":
                for x in rng.sample(SCALARS, rng.choice([1, 1, 3, 10])):
                    t = rng.randint(1, NTOK) if rng.random() < 0.85 or x == "general_calculations" else 0
                    W.do({"op": "setsc", "i": i, "x": x, "v": t}, lambda: (setattr(M, x, value(x, t) if t else None), 0)[1])
            elif op == "setlz":
                for x in rng.sample(LAZIES, rng.choice([1, 2, 4, 10])):
                    t = rng.randint(1, NTOK)
                    W.do({"op": "setlz", "i": i, "x": x, "v": t}, lambda: (setattr(M, x, value(x, t)), 0)[1])
            elif op == "get":
                for x in rng.sample(LAZIES, rng.choice([1, 2, 10])):
                    W.do({"op": "get", "i": i, "x": x}, lambda: token(x, getattr(M, x)))
            elif op == "setmeta":
                x, a = rng.choice([("mult", "multiplicity"), ("ne", "n_electrons"), ("charge", "charge")])
                v = rng.randint(1, 6)
                W.do({"op": "setmeta", "i": i, "x": x, "v": v}, lambda: (setattr(M, a, v), 0)[1])
            elif op == "integrals":
                W.do({"op": "integrals", "i": i}, lambda: [token(x, v) for x, v in zip(LAZIES[2:4], M.get_integrals())])
            elif op == "missing":
                what = rng.choice(["get_j", "get_k"])
                W.do({"op": "missing", "what": what, "i": i}, lambda: (getattr(M, what)(), 0)[1])
            elif op == "rdm":
                fci = rng.random() < 0.5
                x = "fci" if fci else "cisd"
                if rng.random() < 0.7:      # a calculation that was done
                    t = rng.randint(1, NTOK)
                    W.do({"op": "setsc", "i": i, "x": x + "_energy", "v": t}, lambda: (setattr(M, x + "_energy", value(x + "_energy", t)), 0)[1])
                    t = rng.randint(1, NTOK)
                    for y in (x + "_one_rdm", x + "_two_rdm"):
                        W.do({"op": "setlz", "i": i, "x": y, "v": t}, lambda: (setattr(M, y, value(y, t)), 0)[1])

                def rdm():
                    R = M.get_molecular_rdm(use_fci=fci) if fci or rng.random() < 0.5 else M.get_molecular_rdm()
                    if type(R) is not InteractionRDM:
                        raise Bad("type")
                    return [token(x + "_one_rdm", R.one_body_tensor), token(x + "_two_rdm", R.two_body_tensor)]
                W.do({"op": "rdm", "i": i, "fci": int(fci)}, rdm)
            elif op == "spins":
                W.do({"op": "spins", "i": i}, lambda: [as_int(M.get_n_alpha_electrons()), as_int(M.get_n_beta_electrons())])
            elif op == "name":
                g, m = meta(W, rng)
                if 1 <= m["mult"] <= 12:
                    W.do({"op": "name", "m": m}, lambda: md.name_molecule(g, m["basis"], m["mult"], m["charge"], m["desc"]))
            elif op == "del" and present and rng.random() < 0.5:
                f = rng.choice(present)
                W.do({"op": "del", "file": f}, lambda: (os.remove(os.path.join(W.dir, f + ".hdf5")), 0)[1])
            elif op == "geofile":
                geofile(W, rng)
    finally:
        W.close()
    return W.evs


def geofile(W, rng):
    g = [(rng.choice(SYM), rng.choice(POS)) for _ in range(rng.randint(0, 4))]
    if not g:
        return
    lines = []
    for a, p in g:
        lines.append(rng.choice([" ", "  ", "\t"]).join([a] + [repr(v) for v in p]))
        if rng.random() < 0.2:
            lines.append(rng.choice(["", "# comment", "2"]))
    fd, path = tempfile.mkstemp(prefix="geo")
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(lines) + rng.choice(["", "\n"]))
    W.geos.append(g)
    want = [len(g), W.geo(g)]
    W.do({"op": "geofile", "want": want}, lambda: (lambda r: [len(r), W.geo(r)])(md.geometry_from_file(path)))
    os.unlink(path)


def parallel(fn, seeds, jobs=8):
    """[fn(Random(seed)) for seed in seeds], in several processes (file access dominates)."""
    tmp, kids = tempfile.mkdtemp(prefix="mol"), []
    for j in range(jobs):
        pid = os.fork()
        if pid == 0:
            try:
                res = [fn(random.Random(x)) for x in seeds[j::jobs]]
                with open(os.path.join(tmp, str(j)), "w") as f:
                    json.dump(res, f)
                os._exit(0)
            finally:
                os._exit(1)
        kids.append(pid)
    bad = [p for p in kids if os.waitpid(p, 0)[1]]
    parts = []
    for j in range(jobs):
        p = os.path.join(tmp, str(j))
        if os.path.exists(p):
            with open(p) as f:
                parts.append(json.load(f))
    shutil.rmtree(tmp)
    if bad:
        raise RuntimeError("a worker failed")
    return [parts[i % jobs][i // jobs] for i in range(len(seeds))]


def o08(out, rng):
    for evs in parallel(program, [rng.randrange(10 ** 9) for _ in range(n_of(300))]):
        out.session(evs, key="program")


if __name__ == "__main__":
    main({"O08": o08})
