"""Builds the analysis inputs from /repo's current source: the compiler driver, the generated crate
of entry points ("roots") of one property, and the MIR dumps in both arithmetic profiles."""
import os, re, subprocess, json, hashlib, shutil, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HH_REPO", "/repo")
B = os.path.join(V, ".build")
PROFILES = ("debug", "release")

class BuildError(Exception): pass

def sysroot_lib():
    p = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, cwd=V)
    return p.stdout.strip() + "/lib"

def env(profile):
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = sysroot_lib() + ":" + e.get("LD_LIBRARY_PATH", "")
    e["RUSTC_WRAPPER"] = V + "/driver/target/debug/hhdriver"
    e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings"
    e["CARGO_TARGET_DIR"] = B + "/target-" + profile
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_BUILD_RUSTC", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
    return e

def build_driver():
    e = dict(os.environ); e.pop("RUSTC_WRAPPER", None); e.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=V + "/driver", env=e, capture_output=True, text=True)
    if p.returncode: raise BuildError("driver: " + p.stderr[-3000:])

def src_hash():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(d for d in ds if d not in ("target", ".git"))
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml")):
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def forget(profile, name):
    """cargo compiles this package anew"""
    t = B + "/target-" + profile
    for p in glob.glob(t + "/*/.fingerprint/%s-*" % name) + glob.glob(t + "/*/build/%s" % name): shutil.rmtree(p, ignore_errors=True)

def freshen(profile):
    """cargo judges freshness by time stamps; here the contents decide"""
    t = B + "/target-" + profile
    os.makedirs(t, exist_ok=True)
    f = t + "/src.hash"; h = src_hash()
    if not os.path.exists(f) or open(f).read() != h:
        forget(profile, "householder")
        open(f, "w").write(h)

CARGO = '''[package]
name = "hh_roots"
version = "0.1.0"
edition = "2021"

[lib]
path = "src/lib.rs"

[dependencies]
householder = {{ path = "{repo}" }}
rand = "0.8"
rand_distr = "0.4"

[workspace]

[profile.dev]
opt-level = 0
debug = 1
debug-assertions = {chk}
overflow-checks = {chk}
incremental = false
'''

def gen_crate(d, profile, prelude, roots):
    """writes the crate; returns the line range of every root"""
    os.makedirs(d + "/src", exist_ok=True)
    open(d + "/Cargo.toml", "w").write(CARGO.format(repo=REPO, chk="true" if profile == "debug" else "false"))
    lock = REPO + "/Cargo.lock"
    if not os.path.exists(lock): lock = V + "/roots/Cargo.lock"
    if not os.path.exists(d + "/Cargo.lock"): shutil.copy(V + "/roots/Cargo.lock", d + "/Cargo.lock")
    out = prelude.rstrip("\n").split("\n")
    rng = {}
    for name, code in roots:
        a = len(out) + 1
        out += code.strip("\n").split("\n")
        rng[name] = (a, len(out))
    open(d + "/src/lib.rs", "w").write("\n".join(out) + "\n")
    return rng

def cargo(d, profile, extra_env=None):
    e = env(profile)
    e.update(extra_env or {})
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q", "--message-format=json"], cwd=d, env=e, capture_output=True, text=True)
    msgs = []
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-message": msgs.append(m)
    return p.returncode, msgs, p.stderr

def dump(tag, prelude, roots):
    """roots: [(name, code)] -> ({profile: dump path}, {root name: compiler error})"""
    bad = {}
    def one(profile):
        d = "%s/crate-%s-%s" % (B, tag, profile)
        dd = d + "/dump"
        os.makedirs(dd, exist_ok=True)
        out = dd + "/hh_roots.json"
        mybad = {}
        for attempt in range(6):
            if os.path.exists(out): os.remove(out)
            live = [r for r in roots if r[0] not in mybad]
            rng = gen_crate(d, profile, prelude, live)
            forget(profile, "hh_roots")
            rc, msgs, err = cargo(d, profile, {"HH_DUMP_CRATES": "hh_roots", "HH_DUMP_DIR": dd})
            if rc == 0:
                if not os.path.exists(out): raise BuildError("no dump written: " + err[-2000:])
                return profile, out, mybad
            new = {}
            for m in msgs:
                if m["message"]["level"] != "error": continue
                if m["target"]["name"] != "hh_roots":
                    raise BuildError("/repo does not build: " + (m["message"]["rendered"] or "")[:3000])
                for sp in m["message"]["spans"]:
                    if not sp["is_primary"]: continue
                    l = sp["line_start"]
                    while sp.get("expansion") and not sp["file_name"].endswith("src/lib.rs"):
                        sp = sp["expansion"]["span"]; l = sp["line_start"]
                    for n, (a, b) in rng.items():
                        if a <= l <= b: new[n] = m["message"]["rendered"] or m["message"]["message"]
            if not new: raise BuildError("roots do not build: " + err[-2000:] + "".join((m["message"].get("rendered") or "") for m in msgs)[-3000:])
            mybad.update(new)
        raise BuildError("roots do not build")
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        for p in PROFILES: freshen(p)
        with ThreadPoolExecutor(2) as ex: res = list(ex.map(one, PROFILES))
    paths = {}
    for p, o, b in res:
        paths[p] = o; bad.update(b)
    return paths, bad

def facts():
    """facts about the library crate itself (driver/src/facts.rs), from /repo's current source"""
    d = B + "/crate-facts"; out = B + "/facts"
    os.makedirs(out, exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver(); freshen("debug")
        f = out + "/householder.facts.json"
        if os.path.exists(f): os.remove(f)
        forget("debug", "householder")
        gen_crate(d, "debug", "", [])
        rc, msgs, err = cargo(d, "debug", {"HH_FACTS_CRATE": "householder", "HH_DUMP_DIR": out})
        if not os.path.exists(f):
            raise BuildError("/repo does not build: " + err[-2000:] + "".join((m["message"].get("rendered") or "") for m in msgs if m["message"]["level"] == "error")[-3000:])
    return json.load(open(f))
