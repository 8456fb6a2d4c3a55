"""Build what the checks drive, from /repo's current working tree.

Objects are cached under /verif/.build keyed by the content of all sources and
flags, so several checks (or workers) share one build and a changed tree is
always rebuilt.
"""
import hashlib, os, subprocess, sys, shutil, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


class BuildError(Exception):
    pass


def sources():
    # what makefile.am lists, plus any further top-level .c file it could list
    out = []
    for f in sorted(os.listdir(REPO)):
        if f.endswith(".c"):
            out.append(f)
    am = os.path.join(REPO, "makefile.am")
    if os.path.exists(am):
        listed = [t for t in open(am).read().split() if t.endswith(".c")]
        if listed:
            out = [f for f in dict.fromkeys(listed) if os.path.exists(os.path.join(REPO, f))]
    return out


def _tree_hash(extra):
    h = hashlib.sha256()
    for f in sorted(os.listdir(REPO)):
        if f.endswith((".c", ".h", ".am")):
            h.update(f.encode() + b"\0")
            with open(os.path.join(REPO, f), "rb") as fp:
                h.update(fp.read())
            h.update(b"\0")
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        with open(os.path.join(VERIF, "harness", f), "rb") as fp:
            h.update(f.encode() + fp.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def _build(name, asan, mains, with_main):
    """mains: harness .c files; with_main: include the product's main.c."""
    flags = ["-g", "-O1", "-w", "-pthread", "-DHAVE_CONFIG_H", "-DDOWNLOAD_LIBCURL",
             "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]
    if asan:
        flags += SAN
    key = _tree_hash((name, asan, mains, with_main))
    outdir = os.path.join(BUILD, key)
    exe = os.path.join(outdir, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + name + ("a" if asan else "")), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe):
            return exe
        prune()
        tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
        jobs = []
        for f in sources():
            if f == "main.c" and not with_main:
                continue
            jobs.append((os.path.join(REPO, f), os.path.join(tmp, f + ".o")))
        for f in mains:
            jobs.append((os.path.join(VERIF, "harness", f), os.path.join(tmp, "h_" + f + ".o")))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: _run(["gcc"] + flags + ["-c", j[0], "-o", j[1]]), jobs))
        _run(["gcc"] + flags + ["-o", os.path.join(tmp, name)] + [j[1] for j in jobs] + ["-lcurl", "-lm", "-ldl"])
        for _, o in jobs:
            os.unlink(o)
        os.makedirs(outdir, exist_ok=True)
        os.replace(os.path.join(tmp, name), exe)
        shutil.rmtree(tmp, ignore_errors=True)
        return exe
    finally:
        lock.close()


def prune(keep=12):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = [d for d in ds if os.path.isdir(d)]
        ds.sort(key=lambda d: os.path.getmtime(d))
        import time
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) > 900:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def forwarder(asan=True):
    return _build("dnsforwarder" + ("_asan" if asan else ""), asan, ["shim.c"], True)


def component(name, asan=True):
    return _build(name, asan, [name + ".c"], False)


if __name__ == "__main__":
    print(forwarder("plain" not in sys.argv))
