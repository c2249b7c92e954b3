"""Recorders, augmented cost functions and optimizers: H01, H02, H03."""
import copy
import logging
import numpy as np
from drv import *
from zquantum.core.cost_function_augmentations import ConditionalSideEffect, augment_cost_function, function_logger
from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts, recorder
from zquantum.core.history.save_conditions import always, every_nth
from zquantum.core.interfaces.functions import FunctionWithGradient, FunctionWithGradientStoringArtifacts, function_with_gradient
from zquantum.core.interfaces.mock_objects import MockNestedOptimizer
from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, extend_histories, optimization_result

KINDS = ["plain", "grad", "art", "artgrad"]
SCRIPT = []
SEEN = []


def n_of(i):
    return THOROUGH * 12 * i + i


class Boom(ValueError):
    pass


class Fn:
    def __init__(self, m):
        self.m = m

    def _v(self, params):
        x = [int(p) for p in params]
        if 99 in x:
            raise Boom("99")
        SEEN.append(["f", x])
        return self.m * sum(p * p for p in x)

    def _g(self, params):
        x = [int(p) for p in params]
        if 99 in x:
            raise Boom("99")
        SEEN.append(["g", x])
        return np.array([2 * self.m * p for p in x])


class Plain(Fn):
    def __call__(self, params):
        return self._v(params)


class Grad(Plain):
    def gradient(self, params):
        return self._g(params)


class Art(Fn):
    def __call__(self, params, store_artifact=None):
        v = self._v(params)
        if store_artifact:
            for nm, val, force in SCRIPT:
                if force:
                    store_artifact(nm, val, force=True)
                elif val % 2:
                    store_artifact(nm, val)
                else:
                    store_artifact(nm, val, False)
        return v


class ArtGrad(Art):
    def gradient(self, params):
        return self._g(params)


def target(rng, kind, m):
    if kind == "plain":
        return Plain(m)
    if kind == "art":
        return Art(m)
    if rng.random() < 0.5:
        return Grad(m) if kind == "grad" else ArtGrad(m)
    if kind == "grad":
        f = Plain(m)
        return (FunctionWithGradient if rng.random() < 0.5 else function_with_gradient)(f, f._g)
    f = Art(m)
    return (FunctionWithGradientStoringArtifacts if rng.random() < 0.5 else function_with_gradient)(f, f._g)


def pred(rng, c):
    k, a = c["k"], c["a"]
    first = lambda v: int(np.ravel(v)[0])
    if k == "always":
        return always
    if k == "never":
        return lambda v, p, n: False
    if k == "nth":
        return every_nth(a)
    if k == "valgt":
        return lambda v, p, n: np.bool_(first(v) > a)
    if k == "xeq":
        return lambda value, params, call_number: int(params[0]) == a
    return lambda v, p, n: n >= a


def rand_cond(rng):
    k = rng.choice(["always", "always", "never", "nth", "nth", "valgt", "xeq", "from"])
    a = {"nth": rng.randint(1, 4), "valgt": rng.randint(-5, 20), "xeq": rng.randint(-2, 3), "from": rng.randint(0, 3)}.get(k, 0)
    return {"k": k, "a": a}


def ints(v):
    return [as_int(x) for x in np.ravel(v)]


def entry(e):
    a = []
    if hasattr(e, "artifacts"):
        if not isinstance(e, HistoryEntryWithArtifacts):
            raise Bad("entry type")
        a = sorted([k, as_int(v)] for k, v in e.artifacts.items())
    elif not isinstance(e, HistoryEntry):
        raise Bad("entry type")
    return {"n": as_int(e.call_number), "x": ints(e.params), "v": ints(e.value), "a": a}


def ent(e):
    d = entry(e)
    del d["a"]
    return d


def view1(r):
    return {"n": as_int(r.call_number), "h": [entry(e) for e in r.history]}


def view(r):
    return {"r": view1(r), "g": [view1(r.gradient)] if hasattr(r, "gradient") else []}


def mk_arg(rng, x):
    r = rng.random()
    return np.array(x) if r < 0.5 else (list(x) if r < 0.85 else np.array(x, dtype=float))


def rec_session(out, rng, evs, src):
    objs, res, last = [], [], [None]

    def hs():
        return [view(o) for o in objs]

    def mk(f, cond, dflt):
        return recorder(f) if cond["k"] == "always" and dflt else (recorder(f, pred(rng, cond)) if rng.random() < 0.7 else recorder(f, save_condition=pred(rng, cond)))
    for e in evs:
        e = dict(e)
        o = e["op"]
        global SCRIPT
        if o == "new":
            def run():
                objs.append(mk(target(rng, e["kind"], e["m"]), e["cond"], rng.random() < 0.5))
                return {"hs": hs()}
            e["out"] = observe(run)
        elif o == "nest":
            def run():
                objs.append(mk(objs[e["i"] - 1], e["cond"], rng.random() < 0.5))
                return {"hs": hs()}
            e["out"] = observe(run)
        elif o in ("call", "grad"):
            SCRIPT = e["s"]

            def run():
                a = mk_arg(rng, e["x"])
                last[0] = a
                f = objs[e["i"] - 1]
                v = f(a) if o == "call" else f.gradient(a)
                return {"v": ints(v), "hs": hs()}
            e["out"] = observe(run)
            if e["out"]["k"] == "exc":
                if e["out"]["e"] not in ("Boom", "AttributeError"):
                    e["out"] = {"k": "bad", "e": e["out"]["e"]}
                else:
                    h = observe(hs)
                    e["out"]["hs"] = h.get("v", [])
        elif o == "mutate":
            def run():
                if last[0] is not None:
                    for j in range(len(last[0])):
                        last[0][j] = 77
                return {"hs": hs()}
            e["out"] = observe(run)
        elif o in ("copy", "deepcopy"):
            def run():
                objs.append(getattr(copy, o)(objs[e["i"] - 1]))
                return {"hs": hs()}
            e["out"] = observe(run)
        elif o == "set":
            def run():
                objs[e["i"] - 1].m = e["m"]
                return {"hs": hs()}
            e["out"] = observe(run)
        elif o == "get":
            e["out"] = observe(lambda: as_int(objs[e["i"] - 1].m))
        elif o == "noattr":
            e["out"] = observe(lambda: objs[e["i"] - 1].no_such_attribute, lambda v: 0)
        res.append(e)
        if e["out"]["k"] != "ok" and not (o in ("call", "grad", "noattr") and e["out"]["k"] == "exc"):
            break
    out.session(res, src=src)


def rand_script(rng):
    return [[rng.choice("abc"), rng.randint(0, 9), int(rng.random() < 0.25)] for _ in range(rng.randint(0, 3))]


def h01(out, rng):
    gen = json.load(open(os.environ["VERIF_GEN"]))
    rng.shuffle(gen)
    for g in gen[:250 if not THOROUGH else 6000]:
        evs = [{"op": "new", "kind": g["kind"], "m": 1, "cond": g["cond"]}]
        for o in g["ops"]:
            if o["o"] == "end":
                break
            e = {"op": o["o"], "i": o["i"], "x": o["x"], "s": o["s"]}
            if o["o"] == "nest":
                e["cond"] = g["cond"]
            evs.append(e)
        rec_session(out, rng, evs, "gen")
    for _ in range(n_of(140)):
        evs = [{"op": "new", "kind": rng.choice(KINDS), "m": rng.randint(1, 3), "cond": rand_cond(rng)}]
        k = 1
        for _ in range(rng.randint(3, 22)):
            i = rng.randint(1, k)
            r = rng.random()
            if r < 0.55:
                x = [rng.randint(-2, 3) for _ in range(rng.randint(1, 3))]
                if rng.random() < 0.1:
                    x[-1] = 99
                evs.append({"op": "call" if rng.random() < 0.7 else "grad", "i": i, "x": x, "s": rand_script(rng)})
            elif r < 0.67:
                evs.append({"op": "mutate"})
            elif r < 0.75 and k < 5:
                evs.append({"op": rng.choice(["copy", "deepcopy", "deepcopy"]), "i": i})
                k += 1
            elif r < 0.82 and k < 5:
                evs.append({"op": "nest", "i": i, "cond": rand_cond(rng)})
                k += 1
            elif r < 0.87 and k < 5:
                evs.append({"op": "new", "kind": rng.choice(KINDS), "m": rng.randint(1, 3), "cond": rand_cond(rng)})
                k += 1
            elif r < 0.92:
                evs.append({"op": "set", "i": i, "m": rng.randint(-2, 4)})
            elif r < 0.97:
                evs.append({"op": "get", "i": i})
            else:
                evs.append({"op": "noattr", "i": i})
        rec_session(out, rng, evs, "rand")
    # a deep copy is one whole: its value and its gradient share the copied state
    for kind in KINDS * (4 if not THOROUGH else 20):
        evs = [{"op": "new", "kind": kind, "m": rng.randint(1, 3), "cond": rand_cond(rng)}]
        tgt = 1
        if rng.random() < 0.4:
            evs.append({"op": "nest", "i": 1, "cond": rand_cond(rng)})
            tgt = 2
        evs.append({"op": rng.choice(["deepcopy", "deepcopy", "copy"]), "i": tgt})
        who = [tgt, tgt + 1]
        for _ in range(rng.randint(2, 4)):
            evs.append({"op": "set", "i": rng.choice(who), "m": rng.randint(-2, 4)})
            for w in who:
                for o in rng.sample(["call", "grad"], 2):
                    evs.append({"op": o, "i": w, "x": [rng.randint(-2, 3) for _ in range(rng.randint(1, 2))], "s": rand_script(rng)})
                evs.append({"op": "get", "i": w})
        rec_session(out, rng, evs, "rand")


# ---------------------------------------------------------------------- H02
class Capture(logging.Handler):
    def __init__(self, ident, log, level):
        super().__init__(level=0)
        self.ident, self.log, self.want = ident, log, level

    def emit(self, r):
        if r.levelno != self.want:
            raise Bad("level %d" % r.levelno)
        text = r.getMessage()
        n, v = r.args
        if str(n) not in text or str(v) not in text:
            raise Bad("message does not show the call number and value")
        self.log.append([self.ident, as_int(n), ints(v)])

    def handleError(self, r):
        raise


class Effect(ConditionalSideEffect):
    def __init__(self, f, predicate, ident, log):
        super().__init__(f, predicate)
        self.ident, self.log = ident, log

    def _act(self, result, params):
        self.log.append([self.ident, self.call_number, ints(result)])


def layer(rng, L, log, recs, loggers):
    k, ident = L["k"], L["id"]
    p = pred(rng, L["cond"])
    if k == "mul":
        return lambda f: (lambda params: f(params) * L["a"])
    if k == "rec":
        def aug(f):
            r = recorder(f, p)
            recs.append(r)
            return r
        return aug
    if rng.random() < 0.5:
        if L["cond"]["k"] == "always" and rng.random() < 0.5:
            class E2(Effect):
                def __init__(self, f):
                    ConditionalSideEffect.__init__(self, f)
                    self.ident, self.log = ident, log
            return E2
        return lambda f: Effect(f, p, ident, log)
    lvl = rng.choice([logging.INFO, logging.DEBUG, logging.WARNING, 35])
    lg = logging.getLogger("verif.h02.%d" % ident)
    lg.handlers[:] = []
    lg.propagate = False
    lg.setLevel(1)
    lg.addHandler(Capture(ident, log, lvl))
    loggers.append(lg)
    kw = {}
    if rng.random() < 0.5:
        kw["message"] = "call %d gave %s"
    if lvl != logging.INFO or rng.random() < 0.5:
        kw["level"] = lvl
    if L["cond"]["k"] != "always" or rng.random() < 0.5:
        kw["predicate"] = p
    return function_logger(logger=lg, **kw)


def h02(out, rng):
    for _ in range(n_of(350)):
        kind = rng.choice(KINDS + ["grad"])
        log, recs_f, recs_g, loggers, evs = [], [], [], [], []
        ident = [0]

        def rand_layers(k):
            r = []
            for _ in range(k):
                ident[0] += 1
                r.append({"k": rng.choice(["eff", "eff", "eff", "mul", "rec"]), "cond": rand_cond(rng), "a": rng.choice([2, 3, -1]), "id": ident[0]})
            return r
        box = {}

        def build(base, fa, ga):
            A = [layer(rng, L, log, recs_f, loggers) for L in fa]
            G = [layer(rng, L, log, recs_g, loggers) for L in ga]
            if not fa and not ga and rng.random() < 0.5:
                return augment_cost_function(base)
            if not ga and rng.random() < 0.5:
                return augment_cost_function(base, A)
            if not fa and rng.random() < 0.5:
                return augment_cost_function(base, gradient_augmentations=G)
            if rng.random() < 0.3:
                return augment_cost_function(base, cost_function_augmentations=tuple(A), gradient_augmentations=tuple(G))
            return augment_cost_function(base, A, G)
        m = rng.randint(1, 3)
        fa, ga = rand_layers(rng.choice([0, 1, 1, 2, 3])), rand_layers(rng.choice([0, 0, 1, 2]))

        def run():
            box["f"] = build(target(rng, kind, m), fa, ga)
            return 0
        evs.append({"op": "aug", "kind": kind, "m": m, "fa": fa, "ga": ga, "out": observe(run)})

        def side():
            def hist(rs):
                return [[[as_int(e.call_number), ints(e.params), ints(e.value)] for e in r.history] for r in rs]
            d = {"log": [list(x) for x in log], "recs": hist(recs_f)}
            del log[:]
            return d

        def cnt():
            try:
                return as_int(box["f"].call_number)
            except AttributeError:
                return -1
        steps = rng.randint(2, 12)
        for j in range(steps):
            if evs[-1]["out"]["k"] == "bad" or (evs[-1]["out"]["k"] == "exc" and evs[-1]["op"] not in ("acall", "agrad")):
                break
            r = rng.random()
            x = [rng.randint(-2, 3) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.12:
                x[-1] = 99
            if r < 0.5:
                def run():
                    v = box["f"](mk_arg(rng, x))
                    return dict(v=ints(v), cnt=cnt(), **side())
                e = {"op": "acall", "x": x, "out": observe(run)}
                if e["out"]["k"] == "exc":
                    e["out"].update(side(), cnt=cnt())
            elif r < 0.75:
                def run():
                    v = box["f"].gradient(mk_arg(rng, x))
                    d = side()
                    d["recs"] = d["recs"] + [[[as_int(e.call_number), ints(e.params), ints(e.value)] for e in q.history] for q in recs_g]
                    return dict(v=ints(v), **d)
                e = {"op": "agrad", "x": x, "out": observe(run)}
                if e["out"]["k"] == "exc":
                    e["out"].update(side())
            elif r < 0.83:
                fa2, ga2 = rand_layers(rng.choice([0, 1, 2])), rand_layers(rng.choice([0, 0, 1]))

                def run():
                    box["f"] = build(box["f"], fa2, ga2)
                    return 0
                e = {"op": "augmore", "fa": fa2, "ga": ga2, "out": observe(run)}
            elif r < 0.9:
                m2 = rng.randint(-2, 4)

                def run():
                    box["f"].m = m2
                    return 0
                e = {"op": "aset", "m": m2, "out": observe(run)}
            else:
                e = {"op": "aget", "out": observe(lambda: as_int(box["f"].m))}
            evs.append(e)
        if rng.random() < 0.3 and evs[-1]["out"]["k"] == "ok" and not any(L["k"] == "rec" for e in evs for L in e.get("fa", [])):
            x = [rng.randint(-2, 3)]
            how = rng.choice([copy.copy, copy.deepcopy])
            evs.append({"op": "acopy", "x": x, "out": observe(lambda: ints(how(box["f"])(np.array(x))))})
        out.session(evs)
        for lg in loggers:
            lg.handlers[:] = []


# ---------------------------------------------------------------------- H03
class Scripted(Optimizer):
    """Evaluates the given points (relative to the initial parameters), returns the best."""

    def __init__(self, steps, pre=1, rec=None):
        if rec is None:
            super().__init__()
        else:
            super().__init__(rec)
        self.steps, self.pre = steps, pre

    def _preprocess_cost_function(self, f):
        if self.pre == 1:
            return f
        g = lambda x: self.pre * f(x)
        if hasattr(f, "gradient"):
            return function_with_gradient(g, lambda x: self.pre * f.gradient(x))
        return g

    def _minimize(self, cost_function, initial_params, keep_history=False):
        best = None
        k = 0
        for kind, d in self.steps:
            x = np.array(initial_params) + np.array(d)
            if kind == "g":
                cost_function.gradient(x)
                continue
            k += 1
            v = cost_function(x)
            if best is None or v < best[0]:
                best = (v, x.copy())
            x[:] = 55
        return optimization_result(opt_value=best[0], opt_params=best[1], nit=1, nfev=k, **construct_history_info(cost_function, keep_history))


def hist_out(r):
    return {"hist": [[ent(e) for e in r.history]] if "history" in r else [], "ghist": [[ent(e) for e in r.gradient_history]] if "gradient_history" in r else []}


def rand_steps(rng, kind, k, n):
    s = [["f", [rng.randint(-3, 3) for _ in range(n)]]]
    for _ in range(k):
        s.append(["g" if kind in ("grad", "artgrad") and rng.random() < 0.4 else "f", [rng.randint(-3, 3) for _ in range(n)]])
    rng.shuffle(s)
    return s


def h03(out, rng):
    for _ in range(n_of(220)):
        kind, n, m = rng.choice(KINDS), rng.randint(1, 3), rng.randint(1, 3)
        steps = rand_steps(rng, kind, rng.randint(0, 6), n)
        init = [rng.randint(-2, 2) for _ in range(n)]
        cond = rand_cond(rng)
        pre = rng.choice([1, 1, 2, -1])
        own = int(rng.random() < 0.3)
        keep = rng.choice([0, 1, 1, -1])

        def run():
            global SCRIPT
            SCRIPT = []
            del SEEN[:]
            f = target(rng, kind, m)
            if own:
                f = recorder(f)
            g = f
            if rng.random() < 0.35:
                g = augment_cost_function(f, [lambda h: Effect(h, always, 0, [])] * rng.choice([0, 1, 2]), [lambda h: Effect(h, always, 0, [])] * rng.choice([0, 0, 1]))
            rec = None if cond["k"] == "always" and rng.random() < 0.5 else (lambda g: recorder(g, pred(rng, cond)))
            opt = Scripted(steps, pre, rec)
            ip = np.array(init)
            r = opt.minimize(g, ip) if keep == -1 else (opt.minimize(g, ip, bool(keep)) if rng.random() < 0.5 else opt.minimize(cost_function=g, initial_params=ip, keep_history=bool(keep)))
            if list(ip) != init:
                raise Bad("initial parameters changed")
            return dict(val=ints(r.opt_value), par=ints(r.opt_params), nfev=as_int(r.nfev), seen=[list(s) for s in SEEN], own=[ent(e) for e in f.history] if own else [], **hist_out(r))
        out.one({"op": "minimize", "kind": kind, "m": m, "steps": steps, "init": init, "cond": cond, "pre": pre, "own": own, "keep": max(keep, 0), "out": observe(run)})
    for _ in range(n_of(120)):
        kind, n, m = rng.choice(KINDS), rng.randint(1, 2), rng.randint(1, 3)
        steps = rand_steps(rng, kind, rng.randint(0, 5), n)
        cond = rand_cond(rng)
        h = [{"n": i, "x": [rng.randint(0, 3)], "v": [rng.randint(0, 3)]} for i in range(rng.randint(0, 3))]
        g = [{"n": i, "x": [rng.randint(0, 3)], "v": [rng.randint(0, 3)]} for i in range(rng.randint(0, 3))] if kind in ("grad", "artgrad") and rng.random() < 0.6 else []

        def run():
            r = recorder(target(rng, kind, m), pred(rng, cond))
            for k, x in steps:
                (r if k == "f" else r.gradient)(np.array(x))
            E = lambda s: [HistoryEntry(e["n"], np.array(e["x"]), np.array(e["v"])) for e in s]
            d = {"history": E(h)}
            if g:
                d["gradient_history"] = E(g)
            elif rng.random() < 0.3:
                d["gradient_history"] = []
            k0, l0 = set(d), len(r.history)
            res = extend_histories(r, d)
            same = int(set(d) == k0 and [ent(e) for e in d["history"]] == h and [ent(e) for e in d.get("gradient_history", [])] == g and len(r.history) == l0)
            return {"hist": [ent(e) for e in res["history"]], "ghist": [[ent(e) for e in res["gradient_history"]]] if "gradient_history" in res else [], "same": same}
        out.one({"op": "extend", "kind": kind, "m": m, "steps": steps, "cond": cond, "h": h, "g": g, "out": observe(run)})
    for _ in range(n_of(120)):
        kind, n = rng.choice(KINDS), rng.randint(1, 3)
        steps = rand_steps(rng, kind, rng.randint(0, 4), n)
        cond = rand_cond(rng)
        keep, iters = rng.choice([0, 1, 1]), rng.randint(1, 4)

        def run():
            rec = lambda g: recorder(g, pred(rng, cond))
            opt = MockNestedOptimizer(Scripted(steps), iters, rec)
            fs = []

            def factory(i):
                fs.append(i)
                return target(rng, kind, i + 1)
            r = opt.minimize(factory, np.zeros(n, dtype=int), keep_history=bool(keep)) if keep or rng.random() < 0.5 else opt.minimize(factory, np.zeros(n, dtype=int))
            if fs != list(range(iters)):
                raise Bad("factory called with %r" % (fs,))
            return dict(val=ints(r.opt_value), par=ints(r.opt_params), nfev=as_int(r.nfev), nit=as_int(r.nit), **hist_out(r))
        out.one({"op": "nested", "kind": kind, "steps": steps, "cond": cond, "keep": keep, "iters": iters, "out": observe(run)})


if __name__ == "__main__":
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        main({"H01": h01, "H02": h02, "H03": h03})
