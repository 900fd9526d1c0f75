"""Run TLC on a specification of /verif/spec."""
import subprocess, os, re, tempfile, shutil, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class TlcResult:
    pass


def run(module, cfg=None, env=None, workers=8, timeout=600, extra=(), heap="6g", deadlock=None):
    """returns TlcResult(ok, violated, out, generated, distinct)"""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on %s after %ds" % (module, timeout))
        out = r.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.out = out
    res.rc = r.returncode
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ", ").replace(",  ", ", ")) \
        or re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    res.generated, res.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    v = re.search(r"Error: Invariant (\S+) is violated", out) or \
        re.search(r"Error: Action property (\S+) is violated", out) or \
        re.search(r"Error: Temporal properties were violated()", out) or \
        re.search(r"Error: Postcondition (\S+)", out)
    res.violated = v.group(1) or "temporal" if v else None
    res.ok = "Model checking completed. No error has been found." in out and r.returncode == 0
    if not res.ok and not res.violated:
        raise TlcError("TLC failed on %s (rc=%d):\n%s" % (module, r.returncode, brief(out)))
    return res


def brief(out):
    k = out.find("Error:")
    r = out.find("Reason:")
    return (out[k:k + 1500] if k >= 0 else "") + (out[r:r + 1000] if r >= 0 else "") + "\n...\n" + out[-(int(os.environ.get("TLCTAIL","800"))):]


def last_value(out, var):
    """text of /\\ var = ... in the last state of an error trace"""
    ms = list(re.finditer(r"^/\\ %s = (.*?)(?=^/\\ |\n\n|\Z)" % var, out, flags=re.M | re.S))
    return ms[-1].group(1).strip() if ms else None
