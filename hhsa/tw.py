"""Compile-fail witnesses: programs rustc must reject, each beside a twin that must compile."""
import os, re, json, subprocess, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
from . import build
from .core import Obl
from .lay import PRELUDE

class W:
    """bad: program that must be rejected (with one of the codes); good: the well-formed twin (either may be None)"""
    def __init__(s, name, desc, bad, good, codes=(), anchor="", pre=PRELUDE):
        s.name = name; s.desc = desc; s.bad = bad; s.good = good; s.codes = (codes,) if isinstance(codes, str) else tuple(codes); s.anchor = anchor; s.pre = pre

def library():
    """compiled library of /repo's current source and the directory of its dependencies"""
    d = build.B + "/crate-tw"
    os.makedirs(build.B, exist_ok=True)
    with open(build.B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build.build_driver(); build.freshen("debug")
        build.gen_crate(d, "debug", "", [])
        e = build.env("debug")
        p = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q", "--message-format=json"], cwd=d, env=e, capture_output=True, text=True)
    ex = {}; err = ""
    for l in p.stdout.splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rmeta", ".so")): ex[m["target"]["name"].replace("-", "_")] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error": err += m["message"].get("rendered") or ""
    if p.returncode: raise build.BuildError("/repo does not build: " + err[-3000:] + p.stderr[-2000:])
    return ex

def compile_one(ex, d, name, code):
    f = "%s/%s.rs" % (d, name)
    open(f, "w").write(code)
    e = build.env("debug"); e.pop("RUSTC_WRAPPER", None); e.pop("RUSTFLAGS", None)
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w_" + name, "--emit=metadata", "-Awarnings", "--error-format=json", "-o", "%s/%s.rmeta" % (d, name)]
    for n in ("householder", "rand", "rand_distr", "num"):
        if n in ex: cmd += ["--extern", "%s=%s" % (n, ex[n])]
    for x in sorted({os.path.dirname(p) for p in ex.values()}): cmd += ["-L", "dependency=" + x]
    cmd.append(f)
    p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=d)
    errs = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("level") == "error": errs.append(((m.get("code") or {}).get("code"), m.get("rendered") or m.get("message")))
    return p.returncode, errs, p.stderr

def run(tag, ws):
    """-> obligations"""
    ex = library()
    d = "%s/tw-%s" % (build.B, tag)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for w in ws:
        if w.good is not None: jobs.append((w, "good", w.pre + w.good))
        if w.bad is not None: jobs.append((w, "bad", w.pre + w.bad))
    with ThreadPoolExecutor(8) as tp:
        res = list(tp.map(lambda j: compile_one(ex, d, "%s_%s" % (j[0].name, j[1]), j[2]), jobs))
    out = {}
    for (w, k, code), r in zip(jobs, res): out[(w.name, k)] = r
    obls = []
    for w in ws:
        g = out.get((w.name, "good")); b = out.get((w.name, "bad"))
        def add(desc, st, how, detail=""): obls.append(Obl(w.name, "rustc", desc, st, how, detail, w.anchor))
        if g is not None:
            if g[0] == 0: add(w.desc + ": the well-formed program compiles", "proved", "rustc accepts")
            else: add(w.desc + ": the well-formed program compiles", "violated", "rustc rejects", "".join(x[1] or "" for x in g[1])[:2500] + "\nprogram:\n" + w.good)
        if b is not None:
            codes = [c for c, _ in b[1] if c]
            if b[0] == 0: add(w.desc + ": the violating program is rejected", "violated", "rustc accepts", "program:\n" + w.bad)
            elif not b[1]: add(w.desc + ": the violating program is rejected", "open", "rustc failed", b[2][-500:])
            elif all(c in w.codes for c in codes) and codes: add(w.desc + ": the violating program is rejected", "proved", "rustc " + "/".join(sorted(set(codes))))
            elif g is not None and g[0] == 0: add(w.desc + ": the violating program is rejected", "proved", "rustc rejects it and accepts its twin (%s)" % "/".join(sorted(set(map(str, codes)))))
            else: add(w.desc + ": the violating program is rejected", "open", "rustc " + "/".join(map(str, codes)), "".join(x[1] or "" for x in b[1])[:800])
    return obls
