"""Compile /repo's working tree with the MIR-dumping rustc driver and return the dumps.

The dump is keyed by a hash of every source file it depends on, so it always reflects the current tree."""
import hashlib, json, os, subprocess, sys, shutil, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
MEMBERS = ["cv-core", "cv-geom", "cv-pinhole", "cv-optimize", "eight-point", "lambda-twist", "nister-stewenius"]
CRATES = [m.replace("-", "_") for m in MEMBERS]
FEATURES = "cv-core/serde-serialize,cv-pinhole/serde-serialize,cv-pinhole/alloc"


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del env[k]
    env.pop("RUSTFLAGS", None)
    env.pop("RUSTC_WRAPPER", None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    d = os.path.join(VERIF, "driver")
    t = os.path.join(BUILD, "driver")
    os.makedirs(t, exist_ok=True)
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--target-dir", t], cwd=d, env=_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("driver build failed:\n" + r.stdout[-4000:])
    return os.path.join(t, "debug", "mirdump")


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, m) for m in MEMBERS]
    files = [os.path.join(REPO, "Cargo.toml")]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
            for f in sorted(fn):
                if f.endswith((".rs", ".toml", ".md")) or f == "Cargo.lock":
                    files.append(os.path.join(dp, f))
    for dp, dn, fn in os.walk(os.path.join(VERIF, "driver")):
        dn[:] = [x for x in dn if x != "target"]
        for f in sorted(fn):
            files.append(os.path.join(dp, f))
    files.append(os.path.join(VERIF, "tools", "ws.Cargo.lock"))
    for f in files:
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except FileNotFoundError:
            h.update(b"-")
    return h.hexdigest()[:24]


def make_ws(ws):
    os.makedirs(ws, exist_ok=True)
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.write("[workspace]\nresolver = \"1\"\nmembers = [%s]\n" % ", ".join('"%s"' % m for m in MEMBERS))
    shutil.copy(os.path.join(VERIF, "tools", "ws.Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    for m in MEMBERS:
        l = os.path.join(ws, m)
        if os.path.islink(l):
            os.unlink(l)
        os.symlink(os.path.join(REPO, m), l)


def get_dump(verbose=False):
    """Returns {crate: dump-dict} for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, "dump", key)
        if not all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            drv = build_driver()
            shutil.rmtree(os.path.join(BUILD, "dump"), ignore_errors=True)
            tmp = out + ".tmp"
            os.makedirs(tmp)
            ws = os.path.join(BUILD, "ws")
            make_ws(ws)
            tgt = os.path.join(BUILD, "target")
            # the workspace members must go through the wrapper again whatever cargo's freshness says
            for p in ("debug/.fingerprint", "debug/build"):
                fp = os.path.join(tgt, p)
                if os.path.isdir(fp):
                    for n in os.listdir(fp):
                        if n in MEMBERS or any(n.startswith(m + "-") for m in MEMBERS):
                            shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            env = _env()
            env["RUSTC_WORKSPACE_WRAPPER"] = drv
            env["MIRDUMP_OUT"] = tmp
            env["MIRDUMP_WS"] = ",".join(CRATES)
            env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
            env["CARGO_INCREMENTAL"] = "0"
            r = subprocess.run(["cargo", "+nightly", "check", "--lib", "--workspace", "--features", FEATURES, "--offline",
                                "--target-dir", tgt], cwd=ws, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            with open(os.path.join(BUILD, "check.log"), "w") as lf:
                lf.write(r.stdout)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))]
            if r.returncode != 0 or missing:
                raise BuildError("analysis build failed (missing %s):\n%s" % (missing, r.stdout[-4000:]))
            os.rename(tmp, out)
        res = {}
        for c in CRATES:
            with open(os.path.join(out, c + ".json")) as f:
                res[c] = json.load(f)
        return res


if __name__ == "__main__":
    t = time.time()
    d = get_dump(True)
    for c in d:
        print(c, "types", len(d[c]["types"]), "bodies", len(d[c]["bodies"]), "roots", len(d[c]["roots"]), "items", len(d[c]["items"]), "unsafe", len(d[c]["unsafe"]))
    print("%.1fs" % (time.time() - t))
