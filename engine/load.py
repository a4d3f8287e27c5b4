"""Runs the MIR dump driver on /repo's current source and loads the result."""
import os, subprocess, sys, json, tempfile, shutil, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MV_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class EngineError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def ensure_engine():
    r = subprocess.run(["bash", os.path.join(VERIF, "tools", "build_engine.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise EngineError("engine build failed: " + (r.stdout + r.stderr)[-2000:])


def dep_externs():
    toks = open(os.path.join(BUILD, "deps", "deps.args")).read().split("\n")
    ext, out = [], []
    for i, t in enumerate(toks):
        if t == "--extern":
            ext.append(toks[i + 1])
    for e in ext:
        n, p = e.split("=", 1)
        # the umbrella is built in place; rebase the path in case /verif moved
        p = os.path.join(BUILD, "deps", "debug", "deps", os.path.basename(p))
        out += ["--extern", "%s=%s" % (n, p)]
    return out


CRATES = {
    "mango_v4": dict(dir="programs/mango-v4", root="src/lib.rs", edition="2021",
                     cfg=['feature="enable-gpl"', 'feature="custom-heap"']),
}


def dump(crate="mango_v4", extra=None):
    ensure_engine()
    c = CRATES[crate]
    sr = sysroot()
    tmp = tempfile.mkdtemp(prefix="mvdump.")
    try:
        out = os.path.join(tmp, "out.json")
        src = os.path.join(REPO, c["dir"])
        base = [os.path.join(BUILD, "drv", "release", "mirdump"), "--sysroot", sr, "--crate-name", crate,
                "--edition", c["edition"], "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(tmp, "o.rmeta"),
                os.path.join(src, c["root"]), "-L", "dependency=" + os.path.join(BUILD, "deps", "debug", "deps")]
        for f in c["cfg"]:
            base += ["--cfg", f]
        base += ["-A", "warnings", "-C", "panic=abort", "-Zmir-opt-level=0", "-C", "overflow-checks=on"]
        base += dep_externs()
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO") or k.startswith("RUST"):
                env.pop(k)
        env.update(LD_LIBRARY_PATH=sr + "/lib", MIRDUMP_OUT=out, MIRDUMP_CRATE=crate,
                   CARGO_MANIFEST_DIR=src, CARGO_PKG_NAME=crate, CARGO_PKG_VERSION="0.0.0",
                   CARGO_PKG_VERSION_MAJOR="0", CARGO_PKG_VERSION_MINOR="0", CARGO_PKG_VERSION_PATCH="0",
                   RUSTC_ICE="0", CARGO_CRATE_NAME=crate)
        last = None
        for threads in (["-Zthreads=8"], []):
            r = subprocess.run(base + threads, env=env, capture_output=True, text=True, cwd=tmp)
            last = r
            if r.returncode == 0 and os.path.exists(out) and os.path.getsize(out) > 1000:
                with open(out) as fh:
                    return json.load(fh)
            if os.path.exists(out):
                os.unlink(out)
        raise EngineError("type-checking %s failed: %s" % (crate, (last.stderr or last.stdout)[-3000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load(crate="mango_v4"):
    """Loads the dump. MV_DUMP (development only) names a dump to reuse."""
    p = os.environ.get("MV_DUMP")
    if p:
        with open(p) as fh:
            d = json.load(fh)
    else:
        d = dump(crate)
    return d


if __name__ == "__main__":
    t = time.time()
    d = dump()
    json.dump(d, open(sys.argv[1], "w"))
    print(len(d["fns"]), "fns", time.time() - t, "s", file=sys.stderr)
