"""Build the simulators under test from /repo's current working tree.

Out-of-tree build in /verif/.build/tree with the project's own configure and
makefiles.  Objects are reused only when the content hash of the source (and of
every header) they came from is unchanged, so what runs is always what the tree
says now."""
import os, hashlib, subprocess, shutil, json, fcntl, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BDIR = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LIBS = ["utils", "cmd", "sim", "gui", "motorola"]


class BuildError(Exception):
    pass


def _sha(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def _scan():
    conf, hdr, src = {}, {}, {}
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in ("_build", ".git", "docs")]
        dirs[:] = [d for d in dirs if d != "test"]
        for f in files:
            p = os.path.join(base, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            r = os.path.relpath(p, REPO)
            if f.endswith(".in") or "_in." in f or f in ("configure", ".version"):
                conf[r] = _sha(p)
            elif r.startswith("src"):
                if f.endswith((".h", ".mk", ".cmd")):
                    hdr[r] = _sha(p)
                elif f.endswith((".cc", ".l", ".y", ".c")):
                    src[r] = _sha(p)
    return conf, hdr, src


def _run(cmd, cwd, log):
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "MAKELEVEL")}
    env.update(CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    with open(log, "ab") as f:
        f.write(("$ %s\n" % " ".join(cmd)).encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        with open(log, "rb") as f:
            tail = f.read()[-3000:].decode("utf8", "replace")
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


def build(sims):
    """sims: list of names as in src/sims/<name>.src; returns {name: binary}"""
    os.makedirs(BDIR, exist_ok=True)
    lock = open(os.path.join(BDIR, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(sims)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(sims):
    T = os.path.join(BDIR, "tree")
    log = os.path.join(BDIR, "build.log")
    stampf = os.path.join(BDIR, "stamp.json")
    conf, hdr, src = _scan()
    old = None
    if os.path.exists(stampf):
        try:
            old = json.load(open(stampf))
        except Exception:
            old = None
    if old is None or old.get("conf") != conf or old.get("repo") != REPO:
        shutil.rmtree(T, ignore_errors=True)
        os.makedirs(T)
        if os.path.exists(log):
            os.unlink(log)
        if os.path.exists(stampf):
            os.unlink(stampf)
        _run(["bash", os.path.join(REPO, "configure"), "CC=gcc", "CXX=g++"], T, log)
        old = {"hdr": hdr, "src": src}
    # drop stale objects
    def rm(p):
        if os.path.exists(p):
            os.unlink(p)
    if old["hdr"] != hdr:
        changed = {k for k in set(hdr) | set(old["hdr"]) if hdr.get(k) != old["hdr"].get(k)}
        core = any(not c.startswith("src/sims/") for c in changed)
        dirs = {os.path.dirname(c) for c in changed}
        for base, ds, fs in os.walk(os.path.join(T, "src")):
            rel = os.path.relpath(base, T)
            if core or rel in dirs or rel.startswith("src/sims"):
                for f in fs:
                    if f.endswith((".o", ".a", ".dep", "cmdlex.cc", "cmdpars.cc", "cmdpars.h")) \
                            or f.startswith("ucsim_"):
                        os.unlink(os.path.join(base, f))
    for s in set(src) | set(old["src"]):
        if src.get(s) != old["src"].get(s):
            b = os.path.join(T, os.path.splitext(s)[0])
            rm(b + ".o")
            if s.endswith((".l", ".y")):
                for e in (".cc", ".h", ".c"):
                    rm(b + e)
            d = os.path.dirname(b)
            for f in (os.listdir(d) if os.path.isdir(d) else []):
                if f.startswith("ucsim_"):
                    rm(os.path.join(d, f))
            for l in ("libmotorola.a", "libcmd.a", "libgui.a", "libsim.a", "libucsimutil.a"):
                rm(os.path.join(T, "src", l))
    if os.path.exists(stampf):
        os.unlink(stampf)          # until this build has succeeded
    flags = ["CXXFLAGS=-O1 -w -pipe", "CFLAGS=-O1 -w", "MAKEDEP=g++ -E -MM -MP"]
    d8 = os.path.join(T, "src/sims/i8048.src")
    os.makedirs(d8, exist_ok=True)
    for h in ("genal.h", "decode.h", "gen.h"):
        p = os.path.join(d8, h)
        if not os.path.lexists(p):
            os.symlink(os.path.join(REPO, "src/sims/i8048.src", h), p)
    try:
        # utils first: it makes ddconfig.h available; then the rest
        for l in LIBS:
            _run(["make", "-j8", "-C", "src/core/%s.src" % l, "libs"] + flags, T, log)
        for s in sims:
            _run(["make", "-j8", "-C", "src/sims/%s.src" % s, "simulator"] + flags, T, log)
    except BuildError:
        shutil.rmtree(T, ignore_errors=True)
        raise
    with open(stampf, "w") as f:
        json.dump({"conf": conf, "hdr": hdr, "src": src, "repo": REPO}, f)
    shim = os.path.join(BDIR, "outbuf.so")
    c = os.path.join(VERIF, "vlib", "outbuf.c")
    if not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(c):
        _run(["gcc", "-O2", "-shared", "-fPIC", "-o", shim, c], BDIR, log)
    out = {}
    for s in sims:
        n = "51" if s == "s51" else s
        p = os.path.join(T, "src/sims/%s.src" % s, "ucsim_" + n)
        if not os.path.exists(p):
            raise BuildError("no binary for " + s)
        out[s] = p
    return out


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1:]), "%.1fs" % (time.time() - t))
