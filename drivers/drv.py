"""Shared harness code for the drivers that exercise the real code (run by PyPy).

A driver produces sessions; a session is {"sid", "key", "ev": [event, ...]}; an
event is a flat JSON record {"op", <inputs>, "out": {"k": "ok"|"exc"|"bad", ...}}.
Values are integers, strings, lists and records only (TLC reads them exactly).
"""
import cmath, json, math, os, random, signal, sys, time, traceback, warnings
warnings.simplefilter("ignore")

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
S2 = math.sqrt(2.0)
ALPHA = math.atan2(3.0, 4.0)


class Bad(Exception):
    """The observed value does not have the shape the specification talks about."""


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def observe(fn, enc=None, limit=20):
    """Run fn(); project its value with enc; total: always returns an outcome record."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = fn()
        if enc is not None:
            v = enc(v)
        return {"k": "ok", "v": v}
    except Timeout:
        return {"k": "exc", "e": "Timeout"}
    except Bad as e:
        return {"k": "bad", "e": str(e)[:300]}
    except Exception as e:
        return {"k": "exc", "e": type(e).__name__, "m": str(e)[:200]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_quiet(fn, limit=20):
    """Like observe, but returns (ok, value-or-outcome) keeping the raw value."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return True, fn()
    except Timeout:
        return False, {"k": "exc", "e": "Timeout"}
    except Exception as e:
        return False, {"k": "exc", "e": type(e).__name__, "m": str(e)[:200]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Out:
    def __init__(self, pid, outdir):
        self.pid, self.outdir = pid, outdir
        self.f = open(os.path.join(outdir, "trace.ndjson"), "w")
        self.n = 0
        self.events = 0
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.kinds = {}
        self.t0 = time.time()

    def session(self, events, key="", **kw):
        if not events:
            return
        self.n += 1
        d = {"sid": self.n, "key": key, "ev": events}
        d.update(kw)
        self.f.write(json.dumps(d, sort_keys=True) + "\n")
        self.events += len(events)
        for e in events:
            k = e["op"]
            self.kinds[k] = self.kinds.get(k, 0) + 1

    def one(self, event, key=""):
        self.session([event], key)

    def close(self):
        self.f.close()
        json.dump({"sessions": self.n, "events": self.events, "kinds": self.kinds,
                   "wall": time.time() - self.t0},
                  open(os.path.join(self.outdir, "stats.json"), "w"))


# ---------------------------------------------------------------- projections
_cache = {}


def _real_in_ring(R, U, tol):
    """R = a + u/sqrt2 with integers a, u, |u| <= U; smallest |u| first."""
    for u in range(0, U + 1):
        for s in ((u, -u) if u else (0,)):
            x = R - s / S2
            a = round(x)
            if abs(x - a) < tol:
                return int(a), s
    return None


NR = [0, 0, 0, 0, -1, -1]


def ring(z, h=6, m=0, scale=1.0):
    """Complex number -> normal form <<a,b,c,d,k,m>> of (a+bw+cw^2+dw^3)/(sqrt2^k 5^m),
    trying denominators 2^h 5^m (h = number of halvings allowed).  NR if not in the ring.
    scale bounds the modulus of the value and of its Galois conjugates."""
    try:
        z = complex(z)
    except Exception:
        raise Bad("not a number: %r" % (z,))
    if z != z or abs(z) == float("inf"):
        return NR
    key = (round(z.real, 12), round(z.imag, 12), h, m, scale)
    r = _cache.get(key)
    if r is None:
        r = NR
        for hh, mm in ((min(h, 2), 0), (h, m)):
            s = 2.0 ** hh * 5.0 ** mm
            U = int(max(4, s * 1.5 * max(scale, abs(z)))) + 1
            tol = 2e-9 * max(1.0, abs(z) * s / 100)
            re = _real_in_ring(z.real * s, U, tol)
            im = re and _real_in_ring(z.imag * s, U, tol)
            if re and im and (re[1] + im[1]) % 2 == 0:
                b = (re[1] + im[1]) // 2
                d = (im[1] - re[1]) // 2
                r = norm([re[0], b, im[0], d, 2 * hh, mm])
                break
        _cache[key] = r
    return r


def norm(x):
    a, b, c, d, k, m = x
    if a == b == c == d == 0:
        return [0, 0, 0, 0, 0, 0]
    while k >= 1 and (a + c) % 2 == 0 and (b + d) % 2 == 0:
        a, b, c, d, k = (b - d) // 2, (a + c) // 2, (b + d) // 2, (c - a) // 2, k - 1
    while m >= 1 and a % 5 == b % 5 == c % 5 == d % 5 == 0:
        a, b, c, d, m = a // 5, b // 5, c // 5, d // 5, m - 1
    return [a, b, c, d, k, m]


def ring_value(x):
    a, b, c, d, k, m = x
    w = cmath.exp(1j * math.pi / 4)
    return (a + b * w + c * w ** 2 + d * w ** 3) / (S2 ** k * 5.0 ** m)


def ring_vec(v, h=6, m=0, scale=1.0):
    return [ring(z, h, m, scale) for z in v]


def as_int(x):
    if isinstance(x, bool):
        raise Bad("bool where int expected")
    try:
        y = int(x)
    except Exception:
        raise Bad("not an int: %r" % (x,))
    if y != x:
        raise Bad("not integral: %r" % (x,))
    if abs(y) >= 2 ** 30:
        raise Bad("int too large: %r" % (x,))
    return y


def as_bool(x):
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return 1 if x else 0
    raise Bad("not a bool: %r" % (x,))


def rat(x, den, tol=1e-7):
    """real number -> integer numerator over the fixed denominator den (exactly)."""
    try:
        z = complex(x)
    except Exception:
        raise Bad("not a number: %r" % (x,))
    if abs(z.imag) > 1e-9 or z != z:
        raise Bad("not real: %r" % (x,))
    y = z.real * den
    if abs(y) >= 2 ** 30:
        raise Bad("too large: %r" % (x,))
    n = round(y)
    if abs(y - n) > tol * max(1, abs(y)) + 1e-7:
        raise Bad("not a multiple of 1/%d: %r" % (den, x))
    return int(n)


def main(table):
    """table: pid -> function(out, rng)."""
    pid, outdir = sys.argv[1], sys.argv[2]
    o = Out(pid, outdir)
    table[pid](o, o.rng)
    o.close()
