#!/usr/bin/env python3
"""Decide one property: model-check its specification, replay specification
behaviours and random programs through the real code, and let TLC validate what
was observed.  Exit 0: held; 1: VIOLATION; anything else: machinery failure."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tlc import run_tlc, SPEC
from plan import PLAN

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PY", "/opt/venv-pypy/bin/python")


def die(msg):
    print("MACHINERY FAILURE: " + msg)
    sys.exit(2)


def env_for_driver(gen=None):
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH="/repo/src/python:/repo:" + os.path.join(ROOT, "drivers"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             HDF5_USE_FILE_LOCKING="FALSE")
    e.setdefault("VERIF_SEED", "1")
    if gen:
        e["VERIF_GEN"] = gen
    return e


def json_from_printt(out, tag):
    """PrintT(tag \\o ToJson(x)) prints a TLA+ string; return the decoded objects."""
    res = []
    pre = '"' + tag
    for l in out.splitlines():
        if l.startswith(pre) and l.endswith('"'):
            body = l[len(pre):-1].replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(body))
    return res


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try:
        rc = check(pid, tier, seed, plan, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, plan, t0, scratch):
    thorough = tier == "thorough"
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == pid]
    states = transitions = 0
    mcs = []
    gen = []
    # 1. the specification itself ------------------------------------------------
    for m in plan.get("mc", []):
        if m.get("thorough_only") and not thorough:
            continue
        cfg = m.get("cfg_thorough" if thorough and "cfg_thorough" in m else "cfg", m["module"])
        ts = time.time()
        r = run_tlc(m["module"], cfg, env={"VERIF_TIER": tier}, extra=m.get("extra", ()),
                    timeout=m.get("timeout", 700 if thorough else 300))
        if not r.ok and not (m.get("simulate") and "Finished in" in r.out and "Error" not in r.out):
            print(r.tail(60))
            die("model checking %s/%s did not succeed" % (m["module"], cfg))
        states += r.distinct
        transitions += r.generated
        g = json_from_printt(r.out, "GEN:")
        gen += g
        mcs.append({"module": m["module"], "cfg": cfg, "distinct_states": r.distinct,
                    "states_generated": r.generated, "behaviours_emitted": len(g),
                    "wall_s": round(time.time() - ts, 1)})
        if r.distinct < m.get("min_states", 2) and not m.get("simulate"):
            die("%s explored only %d states" % (m["module"], r.distinct))
    genfile = None
    if plan.get("needs_gen") and not gen:
        die("the specification emitted no behaviours")
    if gen:
        genfile = os.path.join(scratch, "gen.json")
        gen.sort(key=json.dumps)      # TLC prints them in no fixed order
        json.dump(gen, open(genfile, "w"))
    # 2. the implementation ------------------------------------------------------
    od = os.path.join(scratch, "out")
    os.makedirs(od)
    work = os.path.join(scratch, "cwd")
    os.makedirs(work)
    td = time.time()
    driver_fail = None
    try:
        p = subprocess.run([PY, os.path.join(ROOT, "drivers", plan["driver"] + ".py"), pid, od],
                           cwd=work, env=env_for_driver(genfile), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=plan.get("driver_timeout", 3000 if thorough else 700),
                           text=True, errors="replace")
        if p.returncode != 0:
            driver_fail = "driver exit %d\n%s" % (p.returncode, p.stdout[-3000:])
    except subprocess.TimeoutExpired:
        driver_fail = "driver timed out"
    driver_wall = time.time() - td
    if driver_fail:
        # The drivers are total on everything they observe; when one dies the code could not even be
        # loaded or taken through the recording.
        if "--debug" in sys.argv or os.environ.get("VERIF_STRICT"):
            print(driver_fail)
        return violation(pid, tier, seed, {"driver": driver_fail}, "driver could not take the code through the recording",
                         states, transitions, mcs, t0, None)
    stats = json.load(open(os.path.join(od, "stats.json")))
    trace = os.path.join(od, "trace.ndjson")
    sessions = [json.loads(l) for l in open(trace)]
    if stats["sessions"] < plan.get("min_sessions", 5):
        die("only %d sessions recorded" % stats["sessions"])
    # 3. conformance: TLC validates every recorded session ------------------------
    r = validate(plan["tv"], trace, thorough)
    rejects = parse_rejects(r, sessions)
    if rejects is None:
        print(r.tail(40))
        if "OutOfMemoryError" in r.out or "TIMEOUT" in r.out or r.generated == 0 and "Error: Parsing" in r.out:
            die("trace validation did not finish")
        return violation(pid, tier, seed, {"tlc": r.tail(60)},
                         "trace not interpretable by the specification", states, transitions, mcs, t0, stats)
    states += r.distinct
    transitions += r.generated
    # 4. binding: corrupted sessions must be rejected ------------------------------
    bind = None
    if plan.get("corrupt", True):
        bind = binding_demo(plan, sessions, set(x[0] for x in rejects), scratch, seed, 200 if thorough else 60)
    # 5. verdict ------------------------------------------------------------------
    bad, seen_known = [], {}
    for sid, l, clause in rejects:
        s = sessions[sid - 1]
        k = match_known(known, s, s["ev"][l - 1], clause)
        if k:
            seen_known.setdefault(k["id"], k)
        else:
            bad.append((sid, l, clause))
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    acc = len(sessions) - len(set(x[0] for x in rejects))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": acc,
            "samples": samples(sessions, seed),
            "sessions_recorded": len(sessions), "events_recorded": stats["events"],
            "events_by_kind": stats["kinds"], "model_checking_runs": mcs,
            "spec_behaviours_replayed": sum(1 for s in sessions if s.get("src") == "gen"),
            "binding_demo": bind, "known_findings_seen": sorted(seen_known),
            "driver_wall_s": round(driver_wall, 1),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    write_evidence(pid, ev)
    if bad:
        sid, l, clause = bad[0]
        d = {"session": sessions[sid - 1], "event": l, "clause": clause,
             "all": [{"sid": a, "event": b, "clause": c} for a, b, c in bad[:50]], "total_rejections": len(bad)}
        path = write_replay(pid, d)
        print("clause: %s  (%d rejections)" % (clause, len(bad)))
        for c in sorted(set(x[2] for x in bad))[:15]:
            print("  - " + c)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s tier=%s sessions=%d events=%d states=%d wall=%.1fs" %
          (pid, tier, len(sessions), stats["events"], states, time.time() - t0))
    return 0


def validate(tv, trace, thorough=False, timeout=None):
    return run_tlc(tv, tv, env={"TRACE": trace}, timeout=timeout or (3000 if thorough else 700), mem="12g")


def parse_rejects(r, sessions):
    """None if TLC did not complete; otherwise [(sid, l, clause)]."""
    if not r.ok:
        return None
    rej = []
    buf = r.out.replace("\n   ", " ")
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', buf, re.S):
        rej.append((int(m.group(1)), int(m.group(2)), m.group(3)))
    n = len(re.findall(r'"REJECT"', r.out))
    if n != len(rej):
        die("could not parse %d of %d verdict lines" % (n - len(rej), n))
    rej = sorted(set(rej))
    want = sum(len(s["ev"]) + 1 for s in sessions)
    if r.distinct != want and not (rej and r.distinct < want):
        die("validator consumed %d of %d trace positions" % (r.distinct, want))
    return rej


def match_known(known, s, e, clause):
    for k in known:
        if k.get("key") is not None and s.get("key") != k["key"]:
            continue
        if k.get("op") is not None and e["op"] != k["op"]:
            continue
        if not clause.startswith(k["clause"]):
            continue
        return k
    return None


def samples(sessions, seed, k=4):
    rng = random.Random(seed)
    out = []
    for s in rng.sample(sessions, min(k, len(sessions))):
        t = json.dumps(s)
        out.append(s if len(t) < 1500 else {"sid": s["sid"], "ops": [e["op"] for e in s["ev"]][:40], "first_event": json.dumps(s["ev"][0])[:900]})
    return out


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            if k in ("e", "m"):
                continue
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, int):
        yield path


def bump(x):
    return (not x) if isinstance(x, bool) else x + 2


def binding_demo(plan, sessions, skip, scratch, seed, k):
    rng = random.Random(seed * 7 + 1)
    pool = [s for s in sessions if s["sid"] not in skip]
    mut = []
    for s in rng.sample(pool, min(3 * k, len(pool))):
        s = json.loads(json.dumps(s))
        cand = [(i, p) for i, e in enumerate(s["ev"]) if e.get("out", {}).get("k") == "ok"
                for p in leaves(e["out"].get("v"))]
        if not cand:
            continue
        i, p = rng.choice(cand)
        x = s["ev"][i]["out"]
        if not p:
            x["v"] = bump(x["v"])
        else:
            x = x["v"]
            for q in p[:-1]:
                x = x[q]
            x[p[-1]] = bump(x[p[-1]])
        s["sid"] = len(mut) + 1
        mut.append(s)
        if len(mut) >= k:
            break
    if not mut:
        return None
    path = os.path.join(scratch, "mut.ndjson")
    stopped = 0
    n, t_end = len(mut), time.time() + 60
    while mut:
        with open(path, "w") as f:
            for i, s in enumerate(mut):
                f.write(json.dumps(dict(s, sid=i + 1)) + "\n")
        r = validate(plan["tv"], path, timeout=30)
        if r.ok:
            rej = parse_rejects(r, mut)
            return {"corrupted": n, "rejected": len(set(x[0] for x in rej)) + stopped, "of_these_not_interpretable": stopped}
        # TLC could not evaluate the specification on one of the corrupted values: drop that session
        m = re.findall(r"sid = (\d+)", r.out)
        if not m or time.time() > t_end:
            break
        mut.pop(int(m[-1]) - 1)
        stopped += 1
    return {"corrupted": n, "rejected": "at least %d (validator stopped on corrupted values)" % stopped}


def write_evidence(pid, ev):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)


def write_replay(pid, d):
    rd = os.path.join(ROOT, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, pid + ".json")
    json.dump(d, open(path, "w"), indent=1)
    return path


def violation(pid, tier, seed, d, why, states, transitions, mcs, t0, stats):
    d["clause"] = why
    path = write_replay(pid, d)
    write_evidence(pid, {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                         "coverage": {"states": states, "transitions": transitions,
                                      "traces_validated_against_impl": 0, "samples": [json.dumps(d)[:1500]],
                                      "model_checking_runs": mcs},
                         "wall_s": round(time.time() - t0, 2), "violations": 1})
    print("clause: " + why)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    main()
