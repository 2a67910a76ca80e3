"""Rebuilds the resolved program (monomorphised MIR as JSON) from /repo's current working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

# library functions whose own MIR is interpreted (everything else is modelled in engine/natives.py)
DESCEND = ["core::option::", "core::result::", "core::iter::", "core::ops::", "core::cmp::", "core::convert::",
           "core::bool::", "core::array::", "core::option::Option", "core::tuple::", "core::clone::",
           "core::default::", "core::mem::take", "core::mem::replace", "&", "bool", "T as core::convert", "F as", "I as core::iter", "core::borrow", "core::ops::function"]

class ExtractError(Exception):
    pass

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def _env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    e["HOME"] = e.get("HOME") or "/root"
    return e

def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=_env())
    return r.stdout.strip()

def build_driver():
    d = os.path.join(VERIF, "driver")
    out = os.path.join(BUILD, "driver")
    r = _run(["cargo", "+nightly", "build", "--offline", "--target-dir", out, "--manifest-path", os.path.join(d, "Cargo.toml")], env=_env())
    b = os.path.join(out, "debug", "mirdump")
    if r.returncode != 0 or not os.path.exists(b):
        raise ExtractError("the MIR driver does not build:\n" + r.stdout[-4000:])
    return b

def tree_hash(repo):
    h = hashlib.sha256()
    fs = []
    for root, ds, files in os.walk(os.path.join(repo, "src")):
        ds.sort()
        fs += [os.path.join(root, f) for f in sorted(files)]
    fs.append(os.path.join(repo, "Cargo.toml"))
    for extra in ("build.rs",):
        if os.path.exists(os.path.join(repo, extra)): fs.append(os.path.join(repo, extra))
    for f in fs:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    for f in sorted(glob.glob(os.path.join(VERIF, "driver", "src", "*"))) + [os.path.abspath(__file__)]:
        h.update(open(f, "rb").read())
    return h.hexdigest()

def extract(repo=None):
    """returns (json object, hash)"""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hh = tree_hash(repo)
        cache = os.path.join(BUILD, "dump-%s.json" % hh[:24])
        if not os.path.exists(cache):
            drv = build_driver()
            work = os.path.join(BUILD, "work")
            os.makedirs(work, exist_ok=True)
            shutil.rmtree(os.path.join(work, "src"), ignore_errors=True)
            shutil.copytree(os.path.join(repo, "src"), os.path.join(work, "src"))
            shutil.copy(os.path.join(repo, "Cargo.toml"), os.path.join(work, "Cargo.toml"))
            if os.path.exists(os.path.join(repo, "build.rs")):
                shutil.copy(os.path.join(repo, "build.rs"), os.path.join(work, "build.rs"))
            t = open(os.path.join(work, "Cargo.toml")).read()
            if "[workspace]" not in t:
                open(os.path.join(work, "Cargo.toml"), "a").write("\n[workspace]\n")
            for lf in (os.path.join(repo, "Cargo.lock"), "/opt/vp/Cargo.lock", os.path.join(VERIF, "tools", "Cargo.lock")):
                if os.path.exists(lf):
                    shutil.copy(lf, os.path.join(work, "Cargo.lock")); break
            tgt = os.path.join(BUILD, "target")
            # cargo's freshness cache would silently skip the wrapper: forget this package's own units
            for pat in (".fingerprint/mysql_cdc-*", "build/mysql_cdc", "build/mysql_cdc-*", "incremental/mysql_cdc-*"):
                for f in glob.glob(os.path.join(tgt, "debug", pat)):
                    shutil.rmtree(f, ignore_errors=True)
            e = _env()
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
            tmp = cache + ".tmp"
            e["MIRDUMP_OUT"] = tmp
            e["MIRDUMP_DESCEND"] = ",".join(DESCEND)
            if os.path.exists(tmp): os.remove(tmp)
            r = _run(["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", tgt], cwd=work, env=e)
            if r.returncode == 0 and not os.path.exists(tmp):
                shutil.rmtree(tgt, ignore_errors=True)
                r = _run(["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", tgt], cwd=work, env=e)
            if r.returncode != 0 or not os.path.exists(tmp):
                raise ExtractError("the crate does not build under the MIR driver:\n" + r.stdout[-6000:])
            os.rename(tmp, cache)
            old = sorted(glob.glob(os.path.join(BUILD, "dump-*.json")), key=os.path.getmtime)
            for f in old[:-4]: os.remove(f)
        return json.load(open(cache)), hh
    finally:
        lock.close()

if __name__ == "__main__":
    t = time.time()
    d, h = extract()
    print(h[:12], len(d["fns"]), "bodies", len(d["types"]), "types", round(time.time() - t, 1), "s")
