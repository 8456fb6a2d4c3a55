"""Run TLC and read its verdicts."""
import json, os, re, subprocess, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, timeout=600, args=(), heap="4g"):
    meta = tempfile.mkdtemp(prefix="vtlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TLCError("TLC timeout on %s" % module)
        out = p.stdout
        r = {"out": out, "rc": p.returncode, "states": 0, "distinct": 0, "wall": time.time() - t0}
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            r["states"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def check_traces(traces, workers=8, timeout=600, module="Trace", keep=None):
    """-> dict(accepted=[idx], rejected={idx: (event index, expected text)}, states, transitions)."""
    d = tempfile.mkdtemp(prefix="vtrace-")
    try:
        path = os.path.join(d, "traces.json")
        with open(path, "w") as f:
            json.dump(traces, f)
        r = run(module, env={"TRACES": path}, workers=workers, timeout=timeout)
        acc = {int(a) - 1: int(b) for a, b in re.findall(r'<<"ACCEPT", (\d+), (\d+)>>', r["out"])}
        rej = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),(.*?)(?=\n<<\s*"(?:REJECT|ACCEPT)|\n(?:Model checking|Error|Finished|Progress|\d+ states)|\Z)', r["out"], re.S):
            rej[int(m.group(1)) - 1] = (int(m.group(2)) - 1, m.group(3)[:6000])
        empty = {i for i, t in enumerate(traces) if not t["ev"]}
        missing = [i for i in range(len(traces)) if i not in acc and i not in rej and i not in empty]
        if missing or "No error has been found" not in r["out"]:
            raise TLCError("TLC did not decide traces %s\n%s" % (missing[:5], r["out"][-3000:]))
        return {"accepted": acc, "rejected": rej, "states": r["distinct"], "transitions": max(0, r["states"] - len(traces)), "wall": r["wall"]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
