#!/usr/bin/env python3
"""slow.py PID [chunk]: run a driver and time the trace validation per chunk of sessions."""
import sys, os, subprocess, tempfile, json, time, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from tlc import run_tlc
from plan import PLAN
pid = sys.argv[1]; k = int(sys.argv[2]) if len(sys.argv) > 2 else 20
d = tempfile.mkdtemp(); root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
pl = PLAN[pid]
env = dict(os.environ, PYTHONPATH="/repo/src/python:" + root + "/drivers", VERIF_GEN=os.environ.get("VERIF_GEN", ""))
subprocess.check_call(["/opt/venv-pypy/bin/python", root + "/drivers/" + pl["driver"] + ".py", pid, d], env=env)
L = open(d + "/trace.ndjson").read().splitlines()
def go(i):
    p = "%s/c%d" % (d, i)
    open(p, "w").write("\n".join(L[i:i + k]) + "\n")
    t = time.time()
    run_tlc(pl["tv"], env={"TRACE": p}, workers=1, timeout=200)
    return time.time() - t, i
with ThreadPoolExecutor(7) as ex:
    r = sorted(ex.map(go, range(0, len(L), k)), reverse=True)
for t, i in r[:4]:
    print(round(t, 1), "sessions", i, i + k)
if k == 1: print(L[r[0][1]][:3000])
shutil.rmtree(d)
