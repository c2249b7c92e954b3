"""The release script: W02."""
import contextlib, importlib.util, io, itertools, os, shutil, tempfile
from drv import *
from d_op import n_of

PATH = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "subtrees/z_quantum_actions/bin/get_next_version.py")


def script():
    spec = importlib.util.spec_from_file_location("get_next_version", PATH)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def parse(m, s):
    v = m.parse_version_str(s)
    opt = lambda x: [] if x is None else [as_int(x)]
    return {"major": as_int(v.major), "minor": as_int(v.minor), "patch": opt(v.patch), "pre": list(v.pre or ""), "text": list(v.version_str), "next": list(v.bump_minor.version_str)}


def run(m, s, d):
    with open(os.path.join(d, "setup.py"), "w") as f:
        f.write("import sys\nsys.stdout.write(%r if sys.argv[1:] == ['--version'] else '0.0.0')\n" % s)
    old, buf = os.getcwd(), io.StringIO()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(buf):
            m.main()
    finally:
        os.chdir(old)
    mark = "::set-output name=next_version::"
    return [list(x[len(mark):]) for x in buf.getvalue().split("\n") if x.startswith(mark)]


def num(rng):
    return rng.choice(["0", "1", "2", "9", "10", "12", "19", "99", "100", "105", "007", "2022", "099", "123456"])


def text(rng):
    r = rng.random()
    s = num(rng) + "." + num(rng)
    if rng.random() < 0.7:
        s += "." + num(rng)
    if rng.random() < 0.6:
        s += rng.choice([".", "-"]) + rng.choice(["dev1", "dev0+gabc", "a.b", "rc-1", "1", "dev1+g4d3f.d20220101", "post3", "x"])
    if r < 0.25:
        i = rng.randrange(len(s) + 1)
        c = rng.choice(["", ".", "-", "a", " ", "\n", "v", "+", "..", "3"])
        s = s[:i] + c + s[i + rng.choice([0, 1]):]
    if rng.random() < 0.2:
        s = rng.choice(["v", "", " ", "."]) + s
    return s + rng.choice(["", "", "\n"])


def w02(out, rng):
    m = script()
    ss = [text(rng) for _ in range(n_of(400))]
    ss += ["".join(p) for k in range(0, 6) for p in itertools.product("01.-d", repeat=k) if k < 4 or p[0] not in ".-d" and rng.random() < 0.2]
    for i in range(0, len(ss), 10):
        out.session([{"op": "parse", "s": list(s), "out": observe(lambda: parse(m, s))} for s in ss[i:i + 10]], key="parse")
    d = tempfile.mkdtemp(prefix="version")
    try:
        for _ in range(n_of(25)):
            s = text(rng)
            out.one({"op": "run", "s": list(s), "out": observe(lambda: run(m, s, d))}, key="run")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main({"W02": w02})
