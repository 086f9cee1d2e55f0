"""Rules over the facts of the library crate (driver/src/facts.rs): lifetime links of signatures, confinement of
unchecked operations, and effects behind shared references."""
import re
from . import build
from .core import Obl

def short(p): return re.sub(r"<impl [^>]*>", "", p).split("::")[-1] if "{closure" not in p else p.split("::")[-2] + "::closure"

def title(f):
    """name of a function that does not depend on its place in the file"""
    return re.sub(r"[\w]+::(?=\w)", "", f["p"])[:160]

def anchor(f): return f["at"].replace(build.REPO + "/", "").split(":")[0] + " " + f["p"].split("::")[-1]

# ------------------------------------------------------------------ lifetimes
class Caps:
    """what a value of a type gives access to: pairs (region, 'mut' or 'shared')"""
    def __init__(s, facts):
        s.adt = {a["p"]: a for a in facts["adts"]}
    def of(s, t):
        out = set()
        s.go(t, "own", {}, out, 0)
        return out
    def sub(s, t, env):
        k = t["k"]
        if k == "param": return env.get(t["s"], t)
        if k == "region": return {"k": "region", "r": s.reg(t["r"], env)}
        r = dict(t)
        if "r" in r: r["r"] = s.reg(r["r"], env)
        if "e" in r: r["e"] = s.sub(r["e"], env)
        for x in ("args", "f"):
            if x in r: r[x] = [s.sub(y, env) for y in r[x]]
        return r
    def reg(s, r, env): return env.get("region:" + r.split("/")[0], r) if "/#" in r else r
    def go(s, t, ctx, env, out, d):
        if t is None or d > 14: return
        k = t["k"]
        if k == "ref":
            if t["m"]:
                if ctx == "own": out.add((t["r"], "mut"))
                s.go(t["e"], "shared" if ctx == "shared" else "mutref", env, out, d + 1)
            else:
                if t["e"]["k"] == "prim" and t["e"]["s"] == "str": return
                out.add((t["r"], "shared"))
                s.go(t["e"], "shared", env, out, d + 1)
        elif k == "adt":
            a = s.adt.get(t["p"])
            if a is None:
                for x in t["args"]:
                    if x["k"] == "region": out.add((x["r"], "shared"))
                    else: s.go(x, ctx, env, out, d + 1)
                return
            e = {}
            for n, x in zip(a["generics"], t["args"]):
                if x["k"] == "region": e["region:" + n] = x["r"]
                else: e[n] = x
            for f in a["fields"]: s.go(s.sub(f["t"], e), ctx, env, out, d + 1)
        elif k in ("slice", "array"): s.go(t["e"], ctx, env, out, d + 1)
        elif k == "tuple":
            for x in t["f"]: s.go(x, ctx, env, out, d + 1)

def rname(r): return re.sub(r"[#/].*", "", r)

def lifetimes(facts):
    """every region a safe function's result borrows from is one its arguments hand in, with at least that access"""
    C = Caps(facts); obls = []
    for f in facts["fns"]:
        if f["out"] is None or f["unsafe"] or "{closure" in f["p"]: continue
        need = C.of(f["out"])
        if not need: continue
        have = set()
        for t in f["in"]: have |= C.of(t)
        long_ = {}
        for a, b in f.get("outlives", []): long_.setdefault(b, set()).add(a)
        for r, m in sorted(need):
            ok = any((x, y) in have for x in {r} | long_.get(r, set()) for y in (("mut",) if m == "mut" else ("mut", "shared")))
            desc = "the result's %s access for %s comes from an argument" % ("mutable" if m == "mut" else "shared", rname(r))
            obls.append(Obl(title(f), "signature", desc, "proved" if ok else "violated" if f["pub"] else "open", "capabilities of the signature",
                            "" if ok else "at %s: the result borrows %s for %s, the arguments only grant %s" % (f["at"], m, rname(r), sorted((rname(x), y) for x, y in have)), anchor(f)))
    return obls

# ------------------------------------------------------------------ light dataflow over a body
class Body:
    def __init__(s, f):
        b = s.b = f["body"]; s.f = f
        s.n = len(b["blocks"])
        s.succ = [blk["t"].get("t", []) for blk in b["blocks"]]
        s.pred = [[] for _ in range(s.n)]
        for i, ts in enumerate(s.succ):
            for t in ts: s.pred[t].append(i)
        s.dom()
    def dom(s):
        full = set(range(s.n)); D = [full] * s.n; D[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in range(1, s.n):
                ps = [D[p] for p in s.pred[i]]
                x = set.intersection(*ps) | {i} if ps else {i}
                if x != D[i]: D[i] = x; ch = True
        s.D = D
    def derived(s, seeds):
        """locals whose value derives from the seeds (flow-insensitive)"""
        seen = set(seeds)
        ch = True
        while ch:
            ch = False
            for blk in s.b["blocks"]:
                for st in blk["s"]:
                    if st["d"] not in seen and any(x in seen for x in st["s"]): seen.add(st["d"]); ch = True
                t = blk["t"]
                if t["k"] == "call" and t["d"] not in seen and any(x in seen for a in t["a"] for x in a["s"]): seen.add(t["d"]); ch = True
        return seen
    def calls(s):
        for i, blk in enumerate(s.b["blocks"]):
            if blk["t"]["k"] == "call": yield i, blk["t"]

def isint(t):
    if t["k"] == "prim": return t["s"] in ("usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8")
    return t["k"] == "tuple" and bool(t["f"]) and all(isint(x) for x in t["f"])

INDEXED = re.compile(r"unchecked|from_raw_parts|::(add|sub|offset|byte_add|byte_sub|byte_offset|wrapping_add|wrapping_offset|wrapping_sub)$|from_pointer|assume_init|set_len")

def sinks(B, seeds, summ):
    """call sites where a value derived from the seeds reaches an operation that trusts it, with no check of such a value before"""
    dv = B.derived(seeds)
    checks = set()
    for i, blk in enumerate(B.b["blocks"]):
        t = blk["t"]
        if t["k"] in ("switch", "assert") and any(x in dv for x in t["s"]): checks.add(i)
        if t["k"] == "call" and not t["u"] and any(x in dv for a in t["a"] for x in a["s"]) and t["f"] not in summ:
            # a call that may refuse the value (a checking helper); pure arithmetic of the layout is no check
            if not re.search(r"convert_|::(add|sub|mul|from|into|clone|wrapping_\w+)$|get_pointer|layout|stride|dim$|number_of_elements", t["f"]): checks.add(i)
    out = []
    for i, t in B.calls():
        if not ((t["u"] and INDEXED.search(t["f"])) or t["f"] in summ): continue
        hit = [n for n, a in enumerate(t["a"]) if any(x in dv for x in a["s"]) and (t["f"] not in summ or n in summ[t["f"]])]
        if not hit: continue
        if not (checks & (B.D[i] - {i})): out.append((i, t))
    return out

def unchecked(facts):
    """indices and pointers from callers do not reach a trusting operation unchecked through a safe public function"""
    fns = [f for f in facts["fns"] if f["body"] and not f["unsafe"]]
    bodies = {f["p"]: Body(f) for f in fns}
    summ = {}           # private safe functions that hand an argument on unchecked
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f["pub"] or "{closure" in f["p"]: continue
            for n, t in enumerate(f["in"]):
                if not (isint(t) or t["k"] == "ptr"): continue
                if n in summ.get(f["p"], ()): continue
                if sinks(bodies[f["p"]], [n + 1], summ): summ.setdefault(f["p"], set()).add(n); ch = True
    obls = []
    for f in fns:
        if not f["pub"]: continue
        B = bodies[f["p"]]
        for n, t in enumerate(f["in"]):
            if isint(t):
                uses = [x for x in B.calls() if x[1]["u"] or x[1]["f"] in summ]
                if not uses: continue
                bad = sinks(B, [n + 1], summ)
                desc = "argument %d is checked before an operation trusts it" % n
                obls.append(Obl(title(f), "body", desc, "violated" if bad else "proved", "dataflow to unchecked operations",
                                "".join("at %s: %s receives a value derived from argument %d of the safe function %s without any check before\n" % (x["at"], x["f"], n, f["p"]) for _, x in bad), anchor(f)))
            elif t["k"] == "ptr":
                dv = B.derived([n + 1])
                bad = ["%s at %s" % (x["f"], x["at"]) for _, x in B.calls() if (x["u"] or x["f"] in summ) and any(y in dv for a in x["a"] for y in a["s"])]
                bad += ["store through it at %s" % st["at"] for blk in B.b["blocks"] for st in blk["s"] if st["rd"] and st["d"] in dv]
                obls.append(Obl(title(f), "body", "a safe function does not use the raw pointer in argument %d" % n, "violated" if bad else "proved", "dataflow to unchecked operations",
                                "; ".join(bad), anchor(f)))
        # sites of unchecked operations in safe functions that use no caller index at all are listed
    n = sum(1 for f in fns for _, t in bodies[f["p"]].calls() if t["u"])
    obls.append(Obl("householder", "body", "call sites of unsafe operations inside safe functions were examined", "proved", "enumeration", "%d sites in %d functions" % (n, len(fns)), "src/"))
    return obls

# ------------------------------------------------------------------ effects behind shared references
def effects(facts):
    obls = []
    def add(n, d, st, how, det="", at=""): obls.append(Obl(n, "facts", d, st, how, det, at))
    bad = [x for x in facts["statics"] if x["m"] or not x["freeze"] or x["tl"]]
    for x in bad: add(x["p"], "no global or thread-local state can change", "violated", "statics of the crate", "at %s: %s" % (x["at"], x["t"]), x["at"].replace(build.REPO + "/", "").split(":")[0])
    add("householder", "no static of the crate is mutable, thread-local or has interior mutability", "violated" if bad else "proved", "statics of the crate", ", ".join(x["p"] for x in bad), "src/")
    for a in facts["adts"]:
        add(a["p"], "no field has interior mutability", "violated" if a["cells"] else "proved", "type definitions", "fields %s at %s" % (", ".join(a["cells"]), a["at"]) if a["cells"] else "",
            a["at"].replace(build.REPO + "/", "").split(":")[0])
    ncast = 0
    for f in facts["fns"]:
        if not f["body"]: continue
        B = Body(f); sus = []
        for blk in B.b["blocks"]:
            for st in blk["s"]:
                if st["k"] == "cast":
                    ncast += 1
                    k, a, b = st["x"]
                    if b["k"] == "ptr" and b["m"] and (a["k"] == "ptr" and not a["m"] or a["k"] == "ref" and not a["m"] or a["k"] == "prim" and a["s"] == "usize"):
                        sus.append((st["d"], "cast of %s to a mutable pointer at %s" % ("an integer" if a["k"] == "prim" else "a pointer for shared access", st["at"])))
                    if "Transmute" in k and b["k"] in ("ref", "ptr") and b["m"] and not (a["k"] in ("ref", "ptr") and a["m"]):
                        sus.append((st["d"], "transmute to mutable access at %s" % st["at"]))
        for i, t in B.calls():
            p = t["f"]
            if p.endswith("::cast_mut") or p.endswith("UnsafeCell::<T>::get") or p.endswith("UnsafeCell::<T>::raw_get"): sus.append((t["d"], "%s at %s" % (p, t["at"])))
            if "transmute" in p.split("::")[-1]: sus.append((t["d"], "transmute at %s" % t["at"]))
        for d, why in sus:
            dv = B.derived([d])
            wr = [st["at"] for blk in B.b["blocks"] for st in blk["s"] if st["rd"] and st["d"] in dv or st["k"] in ("refmut",) and any(x in dv for x in st["s"]) and st["x"][1]]
            wr += [x["at"] for _, x in B.calls() if re.search(r"ptr::(write|copy|swap|replace)|::write(_volatile|_unaligned)?$|from_raw_parts_mut|swap$|replace$", x["f"]) and any(y in dv for a in x["a"] for y in a["s"])]
            add(title(f), "no mutable access is made from shared access", "violated" if wr else "open", "casts of the crate", why + ("; written through at " + ", ".join(wr) if wr else ""), anchor(f))
    add("householder", "no cast turns shared access into mutable access", "proved" if not any(o.desc.startswith("no mutable access") for o in obls) else "open", "casts of the crate", "%d casts examined" % ncast, "src/")
    for x in facts["impls"]:
        if x["tr"].split("::")[-1] in ("Send", "Sync") and (x["unsafe"] or x["neg"]):
            add("impl %s" % x["tr"].split("::")[-1], "thread safety is derived by the compiler, not asserted", "open", "impls of the crate", x["at"], "src/")
    io = [(f, t) for f in facts["fns"] if f["body"] for blk in f["body"]["blocks"] for t in [blk["t"]] if t["k"] == "call" and re.search(r"(^|<)std::(env|fs|io|process|thread|time|net)::", t["f"])]
    for f, t in io: add(title(f), "no call reaches outside the process's memory", "open", "calls of the crate", "%s at %s" % (t["f"], t["at"]), anchor(f))
    return obls
