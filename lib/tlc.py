"""Running TLC and reading back what it said."""
import os, re, subprocess, shutil, tempfile

JAR = "/opt/veriftools/tla/tla2tools.jar"
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")


def _tlc_cmd():
    t = shutil.which("tlc")
    return [t] if t else ["java", "-cp", JAR, "tlc2.TLC"]


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        m = m or re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.finished = "Finished in" in out
        self.ok = "Model checking completed. No error has been found." in out
        self.invariant_violated = re.findall(r"Invariant (\S+) is violated|property (\S+) is violated|Assumption (.*) is false", out)

    def printed(self, tag):
        """Lines printed by PrintT(<<tag, ...>>): returned as raw TLA+ text."""
        return [l for l in self.out.splitlines() if l.startswith('<<"%s"' % tag)]

    def tail(self, n=40):
        return "\n".join(self.out.splitlines()[-n:])


def run_tlc(module, cfg=None, env=None, workers=8, extra=(), timeout=800, mem="8g"):
    """module: name of a .tla in spec/. Returns TLCResult."""
    meta = tempfile.mkdtemp(prefix="tlcmeta_")
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % mem
    e["JDK_JAVA_OPTIONS"] = "-Xss64m"  # the main thread, which evaluates ASSUMEs, takes its stack size from here
    cmd = _tlc_cmd() + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                        "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return TLCResult(p.returncode, p.stdout)
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        r = TLCResult(-1, out + "\nTIMEOUT")
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)
