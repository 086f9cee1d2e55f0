"""Abstract interpreter: MIR -> value graph.

Every function call is analysed in its calling context; control-flow joins become conditional
terms; loops become Loop summaries; panics, element accesses, allocations and kernel calls are
logged with the condition under which they happen.
"""
from .terms import *
from . import terms as tt
from .graph import *
from .mir import Dump


class Unsupported(Exception): pass

class State:
    __slots__ = ("pc", "st")
    def __init__(s, pc, st): s.pc = pc; s.st = st
    def copy(s): return State(s.pc, dict(s.st))

class Ev:
    """event: kind, condition, payload dict, source location"""
    __slots__ = ("k", "c", "d", "at", "fn")
    def __init__(s, k, c, d, at, fn): s.k = k; s.c = c; s.d = d; s.at = at; s.fn = fn
    def __repr__(s): return "<%s if %s %r @%s>" % (s.k, showb(s.c), s.d, s.at)

class LoopEv:
    __slots__ = ("k", "L", "c", "par", "log")
    def __init__(s, L, c, par): s.k = "loop"; s.L = L; s.c = c; s.par = par; s.log = L.log
    def __repr__(s): return "<loop %r if %s %r>" % (s.L, showb(s.c), s.L.log)

class Frame:
    __slots__ = ("fi", "fn", "obj", "cfg", "depth")

MAXDEPTH = 120
UNROLL = 40

def merge_states(states):
    states = [s for s in states if s.pc != FALSE]
    if not states: return None
    cur = states[0]
    for o in states[1:]:
        npc = bor(cur.pc, o.pc)
        c = constrain(cur.pc, npc)
        c2 = bnot(constrain(o.pc, npc))
        if c2 != c and len(bsupport(c2)) < len(bsupport(c)): c = c2
        st = {}
        a, b = cur.st, o.st
        for k, v in a.items():
            w = b.get(k, k.info if k.kind == "const" else UNDEF)
            st[k] = v if v is w else vite(c, v, w)
        for k, w in b.items():
            if k not in a: st[k] = w if k.kind != "const" or w is k.info else vite(c, k.info, w)
        cur = State(npc, st)
    return cur


class Interp:
    def __init__(s, dump, profile):
        s.d = dump; s.ty = dump.types; s.profile = profile
        s.log = []; s.kstack = []; s.nheap = 0
        s.frame = None; s.at = ""; s.stack = []; s.outer = []
        s.steps = 0
        s.unknown = []
        s.opaque_calls = set()
        from .models import MODELS, PREFIX
        s.models = MODELS; s.prefix = PREFIX
        s.fmodel = {}; s.statics = []
        s.visited = set()

    # -------------------------------------------------------------- types
    def ety(s, t):
        return s.ty[t].get("e")
    def is_zst(s, t):
        x = s.ty[t]
        return x.get("size") == "0" or x.get("size") == 0
    def kind(s, t): return s.ty[t]["k"]

    def tleaf(s, t):
        x = s.ty[t]; k = x["k"]
        if k == "int": return ("i", x["bits"])
        if k == "char": return ("i", 32)
        if k == "float": return ("f", x["bits"])
        if k == "bool": return ("b",)
        return None

    def sel(s, m, idx, t, path=()):
        """element idx of contents m, as a value of type t"""
        if m.op == "store" or m.op == "fill":
            pass
        lf = s.tleaf(t)
        if lf: return sel_leaf(m, idx, path, lf)
        x = s.ty[t]; k = x["k"]
        if k == "adt" and x["adt"] == "struct":
            return agg([s.sel(m, idx, ft, path + (i,)) for i, (n, ft) in enumerate(x["v"][0]["f"])])
        if k == "tuple":
            return agg([s.sel(m, idx, ft, path + (i,)) for i, ft in enumerate(x["f"])])
        return sel_leaf(m, idx, path, ("o",))

    def skolem(s, t, name, st):
        """symbolic value of type t; creates regions in the store st"""
        x = s.ty[t]; k = x["k"]
        if k == "int": return var(name, x["bits"])
        if k == "char": return var(name, 32)
        if k == "bool": return bv(batom("var", name))
        if k == "float": return tm("fvar", name, x["bits"])
        if k == "tuple": return agg([s.skolem(f, "%s.%d" % (name, i), st) for i, f in enumerate(x["f"])])
        if k == "adt" and x["path"].split("::")[-1] == "Vec" and x["path"].startswith(("std::", "alloc::")):
            from .models import build_vec
            o = Obj(name, "param", None)
            n = var(name + ".len"); e = x["targs"][0]
            st[o] = arr(mm("init", name), n, e)
            return build_vec(s, t, ptr(o, (("x", pc(0)),)), n, n)
        if k == "adt" and x["adt"] == "struct":
            return agg([s.skolem(ft, "%s.%s" % (name, n), st) for n, ft in x["v"][0]["f"]])
        if k == "adt" and x["adt"] == "enum":
            if x["size"] == 0: return UNDEF
            return enum(var(name + ".tag"), {i: tuple(s.skolem(ft, "%s.%s.%s" % (name, v["n"], n), st) for n, ft in v["f"]) for i, v in enumerate(x["v"])})
        if k == "array": return arr(mm("init", name), pc(x["n"]), x["e"])
        if k in ("ref", "ptr"):
            e = x["e"]; ek = s.kind(e)
            if ek == "slice":
                o = Obj(name, "param", e)
                n = var(name + ".len")
                st[o] = arr(mm("init", name), n, s.ety(e))
                return ptr(o, (("x", pc(0)),), n)
            if ek in ("str", "dyn"): return opq("param")
            o = Obj(name, "param", e)
            st[o] = s.skolem(e, name, st)
            return ptr(o)
        if k in ("closure", "fndef", "never"): return UNIT
        return opq("skolem")

    # -------------------------------------------------------------- events
    def emit(s, k, st, **d):
        s.log.append(Ev(k, st.pc, d, s.at, s.d.fns[s.stack[-1]]["path"] if s.stack else ""))

    # -------------------------------------------------------------- places
    def targets(s, v, c=TRUE):
        """pointer value -> list of (condition, Ptr)"""
        if isinstance(v, Ptr): return [(c, v)]
        if isinstance(v, Ite):
            return s.targets(v.a, band(c, v.c)) + s.targets(v.b, band(c, bnot(v.c)))
        if isinstance(v, Agg) and len(v.f) >= 1:      # transparent wrappers
            for x in v.f:
                if isinstance(x, (Ptr, Ite, Agg)): return s.targets(x, c)
        raise Unsupported("pointer " + repr(v)[:60])

    def place(s, fr, st, pl):
        """-> list of (cond, Obj, path, meta), type"""
        t = fr.fn["locals"][pl[0]]
        alts = [(TRUE, s.lobj(fr, pl[0]), (), None)]
        for e in pl[1]:
            k = e[0]
            x = s.ty[t]
            if k == "*":
                na = []
                for c, o, p, m in alts:
                    v = s.read(st, o, p)
                    if x["k"] == "adt":            # Box
                        pass
                    for c2, q in s.targets(v):
                        cc = band(c, c2)
                        if constrain(cc, st.pc) != FALSE: na.append((cc, q.o, q.p, q.m))
                alts = na
                t = x["e"] if "e" in x else (x["targs"][0] if x.get("targs") else t)
            elif k == "f":
                if x["k"] == "adt" and x["adt"] == "union": pass
                else: alts = [(c, o, p + (("f", e[1]),), None) for c, o, p, m in alts]
                t = e[2]
            elif k == "d":
                alts = [(c, o, p + (("v", e[1]),), None) for c, o, p, m in alts]
            elif k in ("i", "ci"):
                if k == "i": i = s.asint(s.read(st, s.lobj(fr, e[1]), ()))
                na = []
                for c, o, p, m in alts:
                    if k == "ci":
                        i = pc(e[1])
                        if e[3]:
                            n = m if isinstance(m, P) else pc(x["n"])
                            i = psub(n, i)
                    na.append((c, o, s.xstep(p, i, x["k"] == "slice"), None))
                alts = na; t = x["e"]
            elif k == "sub":
                na = []
                for c, o, p, m in alts:
                    n = m if isinstance(m, P) else pc(x["n"])
                    ln = psub(psub(n, pc(e[1])), pc(e[2])) if e[3] else pc(e[2] - e[1])
                    na.append((c, o, s.xstep(p, pc(e[1]), x["k"] == "slice"), ln))
                alts = na
            elif k == "oc": pass
            else: raise Unsupported("projection " + k)
        return alts, t

    @staticmethod
    def xstep(p, i, slice_):
        """index step; a place behind a slice pointer already carries its start as last step"""
        if slice_ and p and p[-1][0] == "x":
            return p[:-1] + (("x", padd(p[-1][1], i)),)
        return p + (("x", i),)

    def lobj(s, fr, l):
        o = fr.obj.get(l)
        if o is None:
            o = Obj("%s:_%d" % (fr.fn["name"].split("::")[-1], l), "local", fr.fn["locals"][l])
            fr.obj[l] = o
        return o

    # -------------------------------------------------------------- reading and writing
    def read(s, st, o, p, t=None):
        v = st.st.get(o, UNDEF)
        return s.readp(v, p, t)
    def readp(s, v, p, t=None):
        for n, (k, i) in enumerate(p):
            if isinstance(v, Ite):
                return vite(v.c, s.readp(v.a, p[n:], t), s.readp(v.b, p[n:], t))
            if isinstance(v, Opq) or v is UNDEF: return v
            if k == "f":
                if isinstance(v, Agg):
                    if i >= len(v.f): return opq("field")
                    v = v.f[i]
                else: return opq("field")
            elif k == "v":
                if isinstance(v, Enum):
                    d = dict(v.p)
                    if i not in d: return UNDEF
                    v = agg(d[i])
                else: return opq("variant")
            else:
                if isinstance(v, Arr):
                    rest = p[n + 1:]
                    et = v.ety
                    if et is None: et = t if not rest else None
                    if et is None: return opq("untyped")
                    if rest and all(r[0] == "f" for r in rest):
                        e = s.sel(v.m, i, et)
                        return s.readp(e, rest, t)
                    v = s.sel(v.m, i, et)
                elif cval(i) == 0: pass
                else: return opq("index")
        return v

    def write(s, st, o, p, new, c, t=None):
        old = st.st.get(o, UNDEF)
        nv = s.writep(old, p, new, o.ty)
        if c != TRUE: nv = vite(constrain(c, st.pc), nv, old) if constrain(c, st.pc) != TRUE else nv
        st.st[o] = nv
    def writep(s, v, p, new, t):
        if not p: return s.fit(new, t) if t is not None and isinstance(new, Agg) else new
        (k, i), rest = p[0], p[1:]
        if isinstance(v, Ite):
            return vite(v.c, s.writep(v.a, p, new, t), s.writep(v.b, p, new, t))
        x = s.ty[t] if t is not None else None
        if k == "f":
            if v is UNDEF and x is not None:
                if x["k"] == "tuple" : v = agg([UNDEF] * len(x["f"]))
                elif x["k"] == "adt" and x["adt"] == "struct": v = agg([UNDEF] * len(x["v"][0]["f"]))
                elif x["k"] == "closure": v = agg([UNDEF] * len(x["f"]))
            if not isinstance(v, Agg) or i >= len(v.f): return opq("write field")
            ft = None
            if x is not None:
                if x["k"] == "tuple" or x["k"] == "closure": ft = x["f"][i]
                elif x["k"] == "adt" and x["adt"] == "struct": ft = x["v"][0]["f"][i][1]
            f = list(v.f); f[i] = s.writep(f[i], rest, new, ft)
            return agg(f)
        if k == "v":
            if not rest: return opq("write variant")
            d = dict(v.p) if isinstance(v, Enum) else {}
            tag = v.tag if isinstance(v, Enum) else pc(i)
            nf = len(x["v"][i]["f"]) if x is not None else rest[0][1] + 1
            f = list(d.get(i, (UNDEF,) * nf))
            j = rest[0][1]
            f[j] = s.writep(f[j], rest[1:], new, x["v"][i]["f"][j][1] if x is not None else None)
            d[i] = tuple(f)
            return enum(tag, d)
        # index
        if isinstance(v, Arr):
            if rest:
                if v.ety is None: return opq("untyped write")
                e = s.writep(s.sel(v.m, i, v.ety), rest, new, v.ety)
            else: e = new
            return arr(mstore(v.m, i, e), v.n, v.ety)
        if cval(i) == 0:
            return s.writep(v, rest, new, t)
        return opq("write index")

    def log_access(s, st, kind, c, o, p, val=None):
        for n, (k, i) in enumerate(p):
            if k == "x":
                # the object may be a plain value addressed as an array of one element
                v = s.readp(st.st.get(o, UNDEF), p[:n])
                if isinstance(v, Arr):
                    s.log.append(Ev(kind, band(st.pc, c), {"o": o, "pre": p[:n], "i": i, "n": v.n, "rest": p[n + 1:], **({"v": val} if val is not None else {})}, s.at,
                                    s.d.fns[s.stack[-1]]["path"] if s.stack else ""))
                return

    def load(s, st, alts, t):
        r = None
        for c, o, p, m in alts:
            if any(x[0] == "x" for x in p): s.log_access(st, "read", c, o, p)
            v = s.read(st, o, p, t)
            v = s.fit(v, t)
            r = v if r is None else vite(constrain(c, st.pc), v, r)
        if r is None: raise Unsupported("no target")
        return r

    def store(s, st, alts, v, t):
        for c, o, p, m in alts:
            if any(x[0] == "x" for x in p): s.log_access(st, "write", c, o, p, v)
            s.write(st, o, p, v, c)

    def fit(s, v, t):
        """value read as type t: re-wrap when a transparent wrapper is read as its contents or vice versa"""
        x = s.ty[t]; k = x["k"]
        if isinstance(v, Agg):
            if k in ("int", "float", "bool", "ptr", "ref", "char"):
                return s.unwrap(v)
        elif isinstance(v, (P, T, B, Ptr)):
            if k == "adt" or k == "tuple": return s.rewrap(v, t)
        return v
    def unwrap(s, v):
        while isinstance(v, Agg):
            c = [x for x in v.f if not (isinstance(x, Agg) and not s.leaves(x))]
            if len(c) != 1: return opq("transmute")
            v = c[0]
        return v
    def leaves(s, v):
        if isinstance(v, Agg): return [l for x in v.f for l in s.leaves(x)]
        return [v]
    def rewrap(s, v, t):
        x = s.ty[t]; k = x["k"]
        if k in ("adt", "tuple"):
            if k == "adt" and x["adt"] == "union": return v
            if k == "adt" and x["adt"] == "enum": return opq("transmute enum")
            fs = [ft for _, ft in x["v"][0]["f"]] if k == "adt" else x["f"]
            out = []
            used = False
            for ft in fs:
                if s.is_zst(ft): out.append(s.zst(ft))
                elif used: return opq("transmute")
                else: out.append(s.rewrap(v, ft)); used = True
            return agg(out)
        return v
    def zst(s, t):
        x = s.ty[t]; k = x["k"]
        if k == "tuple": return agg([s.zst(f) for f in x["f"]])
        if k == "adt" and x["adt"] == "struct": return agg([s.zst(ft) for _, ft in x["v"][0]["f"]])
        if k == "adt" and x["adt"] == "enum":
            return enum(pc(0), {0: tuple(s.zst(ft) for _, ft in x["v"][0]["f"])}) if x["v"] else UNDEF
        if k == "array": return arr(mm("list"), pc(x["n"] or 0), x["e"])
        if k == "fndef" and x.get("fn") is not None: return fnv(x["fn"])
        return UNIT

    # -------------------------------------------------------------- operands, constants
    def const(s, c, t):
        if "i" in c:
            x = s.ty[t]; k = x["k"]; n = int(c["i"])
            if k == "bool": return bv(TRUE if n else FALSE)
            if k == "float":
                return fc(struct.unpack("<d", struct.pack("<Q", n))[0], 64) if x["bits"] == 64 else \
                    fc(struct.unpack("<f", struct.pack("<I", n))[0], 32) if x["bits"] == 32 else opq("float")
            if k == "char": return pc(n, 32)
            if k == "int": return pc(n, x["bits"])
            if k in ("ptr", "ref"): return opq("addr", n)
            return pc(n, 64)
        if "agg" in c:
            x = s.ty[t]; k = x["k"]
            if k == "adt" and x["adt"] == "union": return opq("union const")
            fs = [ft for _, ft in x["v"][0]["f"]] if k == "adt" else x.get("f", [])
            return agg([s.const(y, ft) for y, ft in zip(c["agg"], fs)])
        if "arr" in c:
            e = s.ety(t)
            return arr(mm("list", *[s.const(y, e) for y in c["arr"]]), pc(len(c["arr"])), e)
        if "enum" in c:
            x = s.ty[t]; v = c["enum"]
            fs = x["v"][v]["f"]
            return enum(pc(v), {v: tuple(s.const(y, ft) for y, (_, ft) in zip(c["f"], fs))})
        if "ref" in c or "refslice" in c:
            key = ("const", id(c))
            o = s.fmodel.get(key)
            if o is None:
                o = Obj("const", "const", s.ety(t)); s.fmodel[key] = o
            if "ref" in c:
                o.info = s.const(c["ref"], s.ety(t))
                s.cobj[o] = o.info
                return ptr(o)
            e = s.ety(s.ety(t))
            o.info = arr(mm("list", *[s.const(y, e) for y in c["refslice"]]), pc(len(c["refslice"])), e)
            s.cobj[o] = o.info
            return ptr(o, (("x", pc(0)),), pc(len(c["refslice"])))
        if "zst" in c: return s.zst(t)
        if "fn" in c: return fnv(c["fn"])
        if "undef" in c: return UNDEF
        if "str" in c: return opq("str", c["str"])
        if "static" in c:
            o = s.static(c["static"], s.kind(t) == "ptr")
            return opq("static", c["static"]) if o is None else ptr(o)
        return opq("const", str(sorted(c.items()))[:80])

    cobj = {}

    def static(s, name, mut):
        """object of a static: its initial contents, or, when it can change, anything (an earlier call may have left it there)"""
        key = ("static", name); o = s.fmodel.get(key)
        if o is None and name in s.d.statics:
            t, init = s.d.statics[name]
            o = Obj("static " + name, "const", t); s.fmodel[key] = o
            try: o.info = s.skolem(t, "static " + name, {}) if mut or s.mutable(t) else s.const(init, t)
            except Unsupported: o.info = opq("static", name)
            s.cobj[o] = o.info
            if mut or s.mutable(t): s.statics.append(o.info)
        return o
    def mutable(s, t, seen=()):
        x = s.ty[t]
        if t in seen: return False
        seen = seen + (t,)
        if "UnsafeCell" in x["name"]: return True
        fs = [ft for v in x.get("v", ()) for _, ft in v["f"]] if x["k"] == "adt" else x.get("f", []) if x["k"] == "tuple" else [x["e"]] if x["k"] == "array" else []
        return any(s.mutable(f, seen) for f in fs)

    def operand(s, fr, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            alts, t = s.place(fr, st, o[1])
            v = s.load(st, alts, t)
            return v
        if k == "c":
            v = s.const(o[2], o[1])
            if isinstance(v, Ptr) and v.o.kind == "const" and v.o not in st.st: st.st[v.o] = v.o.info
            return v
        if k == "rt":
            return bv(TRUE) if (s.profile == "debug" and o[1] in ("UbChecks", "OverflowChecks")) and False else bv(FALSE)
        raise Unsupported("operand " + k)
    def optype(s, fr, o):
        if o[0] == "c": return o[1]
        if o[0] in ("cp", "mv"):
            t = fr.fn["locals"][o[1][0]]
            for e in o[1][1]:
                if e[0] == "f": t = e[2]
                elif e[0] in ("*", "i", "ci"):
                    x = s.ty[t]; t = x["e"] if "e" in x else x["targs"][0]
            return t
        return None

    # -------------------------------------------------------------- coercions of values
    def asint(s, v):
        v = s.unwrap(v) if isinstance(v, Agg) else v
        if isinstance(v, P): return v
        if isinstance(v, B): return ind(v.b)
        if isinstance(v, Ite):
            return pite(v.c, s.asint(v.a), s.asint(v.b))
        raise Unsupported("int expected: " + repr(v)[:60])
    def asbool(s, v):
        if isinstance(v, B): return v.b
        if isinstance(v, P): return bnot(b_eq0(v))
        if isinstance(v, Ite): return bite(v.c, s.asbool(v.a), s.asbool(v.b))
        raise Unsupported("bool expected: " + repr(v)[:60])
    def asfloat(s, v):
        v = s.unwrap(v) if isinstance(v, Agg) else v
        if isinstance(v, T): return v
        if isinstance(v, Ite): return tite(v.c, s.asfloat(v.a), s.asfloat(v.b))
        raise Unsupported("float expected: " + repr(v)[:60])

    # -------------------------------------------------------------- rvalues
    def rvalue(s, fr, st, r, dt):
        k = r[0]
        if k == "use": return s.operand(fr, st, r[1])
        if k in ("ref", "addr"):
            l, pj = r[1]
            if pj and pj[-1][0] == "*":
                alts, t = s.place(fr, st, (l, pj[:-1]))
                e = s.ty[t].get("e")
                if e is not None and (s.ty[e]["k"] == "str" or s.ty[e].get("s") == "str"): return s.load_quiet(st, alts, t)      # a reborrowed message
            alts, t = s.place(fr, st, r[1])
            out = None
            for c, o, p, m in alts:
                q = ptr(o, p, m)
                if s.kind(t) == "slice" and m is None:
                    raise Unsupported("ref slice without length")
                out = q if out is None else vite(constrain(c, st.pc), q, out)
            if out is None: raise Unsupported("ref")
            return out
        if k == "array":
            vs = [s.operand(fr, st, o) for o in r[2]]
            return arr(mm("list", *vs), pc(len(vs)), s.ety(r[1]))
        if k in ("tuple", "closure"): return agg([s.operand(fr, st, o) for o in r[2]])
        if k == "adt":
            vs = [s.operand(fr, st, o) for o in r[2]]
            if r[4] == "struct": return agg(vs)
            if r[4] == "union": return vs[0]
            return enum(pc(r[3]), {r[3]: tuple(vs)})
        if k == "rawptr":
            vs = [s.operand(fr, st, o) for o in r[2]]
            return s.mkptr(vs[0], vs[1])
        if k == "bin":
            a, b = s.operand(fr, st, r[2]), s.operand(fr, st, r[3])
            return s.binop(st, r[1], a, b, r[4], r[5], dt)
        if k == "cbin":
            a, b = s.operand(fr, st, r[2]), s.operand(fr, st, r[3])
            return s.checked(r[1], a, b, r[4])
        if k == "un":
            a = s.operand(fr, st, r[2])
            return s.unop(r[1], a, r[3])
        if k == "cast": return s.cast(st, r[1], s.operand(fr, st, r[2]), r[3], r[4])
        if k == "discr":
            alts, t = s.place(fr, st, r[1])
            return s.discr(s.load_quiet(st, alts, t), r[2], dt)
        if k == "len":
            alts, t = s.place(fr, st, r[1])
            if s.kind(t) == "array": return pc(s.ty[t]["n"])
            out = None
            for c, o, p, m in alts:
                if not isinstance(m, P): raise Unsupported("len")
                out = m if out is None else pite(constrain(c, st.pc), m, out)
            return out
        if k == "repeat":
            v = s.operand(fr, st, r[1])
            t = s.ty[r[3]]
            if r[2] is not None and r[2] <= 64 : return arr(mm("list", *([v] * r[2])), pc(r[2]), t["e"])
            return arr(mm("fill", v), pc(r[2] if r[2] is not None else 0), t["e"])
        raise Unsupported("rvalue " + k)

    def load_quiet(s, st, alts, t):
        r = None
        for c, o, p, m in alts:
            v = s.read(st, o, p, t)
            r = v if r is None else vite(constrain(c, st.pc), v, r)
        if r is None: raise Unsupported("no target")
        return r

    def mkptr(s, p, meta):
        if isinstance(p, Ite): return vite(p.c, s.mkptr(p.a, meta), s.mkptr(p.b, meta))
        if isinstance(p, Agg): p = s.unwrap(p)
        if isinstance(p, Opq): return p
        if not isinstance(p, Ptr): raise Unsupported("mkptr")
        if isinstance(meta, P):
            q = p.p
            if not q or q[-1][0] != "x": q = q + (("x", pc(0)),)
            return ptr(p.o, q, meta)
        return ptr(p.o, p.p, None)

    def void(s, t):
        """the type has no values"""
        x = s.ty[t]; k = x["k"]
        if k == "never": return True
        if k == "tuple": return any(s.void(f) for f in x["f"])
        if k == "adt" and x["adt"] == "struct": return any(s.void(ft) for _, ft in x["v"][0]["f"])
        if k == "adt" and x["adt"] == "enum": return all(any(s.void(ft) for _, ft in v["f"]) for v in x["v"])
        return False

    def discr(s, v, t, dt):
        if isinstance(v, Ite): return pite(v.c, s.discr(v.a, t, dt), s.discr(v.b, t, dt))
        while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
        x = s.ty[t]
        w = s.ty[dt]["bits"] if dt is not None and s.kind(dt) == "int" else 64
        if isinstance(v, Enum):
            c = cval(v.tag)
            if c is not None:
                return pc(int(x["v"][c]["d"]), w)
            r = None
            n = len(x["v"])
            ds = [int(q["d"]) for q in x["v"]]
            if ds == list(range(n)):
                return v.tag if w == 64 else p_trunc(v.tag, w)
            r = pc(ds[-1], w)
            for i in range(n - 2, -1, -1): r = pite(b_eq(v.tag, pc(i)), pc(ds[i], w), r)
            return r
        if isinstance(v, (P, B)): return s.asint(v)
        if v is UNDEF and x["k"] == "adt" and x["adt"] == "enum":
            live = [q for q in x["v"] if not any(s.void(ft) for _, ft in q["f"])]
            if len(live) == 1: return pc(int(live[0]["d"]), w)
        raise Unsupported("discriminant of " + repr(v)[:50])

    def binop(s, st, op, a, b, ta, tb, dt):
        if isinstance(a, Ite) and not isinstance(b, Ite):
            return vite(a.c, s.binop(st, op, a.a, b, ta, tb, dt), s.binop(st, op, a.b, b, ta, tb, dt))
        if isinstance(b, Ite):
            return vite(b.c, s.binop(st, op, a, b.a, ta, tb, dt), s.binop(st, op, a, b.b, ta, tb, dt))
        x = s.ty[ta]; k = x["k"]
        if op == "Offset":
            return s.ptr_add(a, s.asint(b), s.ety(ta), st)
        if k in ("ptr", "ref", "fnptr"): return s.ptr_cmp(op, a, b)
        if isinstance(a, Opq) or isinstance(b, Opq): 
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return bv(batom("app", ("opq", a, b)))
            return opq("binop")
        if a is UNDEF or b is UNDEF: return UNDEF
        if k == "float":
            a, b = s.asfloat(a), s.asfloat(b); bits = x["bits"]
            m = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}
            if op in m: return fop(m[op], a, b, bits)
            if op == "Eq": return bv(b_fcmp("feq", a, b))
            if op == "Ne": return bv(bnot(b_fcmp("feq", a, b)))
            if op == "Lt": return bv(b_fcmp("flt", a, b))
            if op == "Gt": return bv(b_fcmp("flt", b, a))
            if op == "Le": return bv(b_fcmp("fle", a, b))
            if op == "Ge": return bv(b_fcmp("fle", b, a))
            raise Unsupported("float " + op)
        if k == "bool":
            a, b = s.asbool(a), s.asbool(b)
            if op == "BitAnd": return bv(band(a, b))
            if op == "BitOr": return bv(bor(a, b))
            if op in ("BitXor", "Ne"): return bv(bxor(a, b))
            if op == "Eq": return bv(bnot(bxor(a, b)))
            if op == "Lt": return bv(band(bnot(a), b))
            if op == "Le": return bv(bor(bnot(a), b))
            if op == "Gt": return bv(band(a, bnot(b)))
            if op == "Ge": return bv(bor(a, bnot(b)))
            raise Unsupported("bool " + op)
        if op in ("Eq", "Ne"):
            for y, z in ((a, b), (b, a)):
                if isinstance(y, Ptr) and isinstance(z, P) and cval(z) == 0: return bv(FALSE if op == "Eq" else TRUE)      # no object is at address 0
        a, b = s.asint(a), s.asint(b)
        w = a.w
        signed = x.get("signed", False)
        if op in ("Add", "AddUnchecked"): return padd(a, b)
        if op in ("Sub", "SubUnchecked"): return psub(a, b)
        if op in ("Mul", "MulUnchecked"): return pmul(a, b)
        if op == "Div":
            if not signed: return p_udiv(a, b)
            return s.iapp("sdiv", a, b)
        if op == "Rem":
            if not signed: return p_umod(a, b)
            return s.iapp("srem", a, b)
        if op == "Eq": return bv(b_eq(a, b))
        if op == "Ne": return bv(bnot(b_eq(a, b)))
        lt = b_slt if signed else b_ult
        if op == "Lt": return bv(lt(a, b))
        if op == "Gt": return bv(lt(b, a))
        if op == "Le": return bv(bnot(lt(b, a)))
        if op == "Ge": return bv(bnot(lt(a, b)))
        if op == "Cmp":      # Ordering: variants Less(-1) Equal(0) Greater(1)
            return enum(pite(lt(a, b), pc(0), pite(b_eq(a, b), pc(1), pc(2))), {0: (), 1: (), 2: ()})
        if op == "BitAnd": return s.iapp("and", a, b)
        if op == "BitOr": return s.iapp("or", a, b)
        if op == "BitXor": return s.iapp("xor", a, b)
        if op in ("Shl", "ShlUnchecked"):
            c = cval(b)
            if c is not None: return pscale(a, 1 << (c % w))
            return s.iapp("shl", a, p_zext(b, w) if b.w < w else p_trunc(b, w))
        if op in ("Shr", "ShrUnchecked"):
            c = cval(b)
            if c is not None and not signed: return p_udiv(a, pc(1 << (c % w), w))
            return s.iapp("sar" if signed else "shr", a, p_zext(b, w) if b.w < w else p_trunc(b, w))
        raise Unsupported("binop " + op)

    def iapp(s, name, *a):
        cs = [cval(x) for x in a]
        w = a[0].w
        if all(c is not None for c in cs):
            try: return pc(APPS[name](w, *cs), w)
            except Stuck: pass
        if name == "and":
            for x, y in ((a[0], cs[1]), (a[1], cs[0])):
                if y == 0: return pc(0, w)
                if y == (1 << w) - 1: return x
                if y is not None and y & (y + 1) == 0: return p_umod(x, pc(y + 1, w))
        if name in ("or", "xor"):
            if cs[0] == 0: return a[1]
            if cs[1] == 0: return a[0]
        if name in ("shl", "shr", "sar") and cs[1] == 0: return a[0]
        if name in ("and", "or", "xor") and a[0].id > a[1].id: a = (a[1], a[0])
        return p_app(name, a, w)

    def checked(s, op, a, b, ta):
        signed = s.ty[ta].get("signed", False)
        if isinstance(a, Ite): return vite(a.c, s.checked(op, a.a, b, ta), s.checked(op, a.b, b, ta))
        a, b = s.asint(a), s.asint(b)
        if op == "Add": return agg([padd(a, b), bv(b_sovf("sadd", a, b) if signed else b_addovf(a, b))])
        if op == "Sub": return agg([psub(a, b), bv(b_sovf("ssub", a, b) if signed else b_ult(a, b))])
        if op == "Mul": return agg([pmul(a, b), bv(b_sovf("smul", a, b) if signed else b_mulovf(a, b))])
        raise Unsupported("checked " + op)

    def unop(s, op, a, ta):
        if isinstance(a, Ite): return vite(a.c, s.unop(op, a.a, ta), s.unop(op, a.b, ta))
        if op == "PtrMetadata":
            if isinstance(a, Agg): a = s.unwrap(a)
            if isinstance(a, Ptr): return a.m if a.m is not None else UNIT
            if isinstance(a, Opq): return opq("meta")
            raise Unsupported("metadata")
        if isinstance(a, Opq): return opq("unop")
        k = s.kind(ta)
        if op == "Not":
            if k == "bool": return bv(bnot(s.asbool(a)))
            a = s.asint(a)
            return psub(pc(-1, a.w), a)
        if op == "Neg":
            if k == "float":
                a = s.asfloat(a)
                v = fcv(a)
                return fc(-v, s.ty[ta]["bits"]) if v is not None else tm("fneg", a)
            return pneg(s.asint(a))
        raise Unsupported("unop " + op)

    # -------------------------------------------------------------- pointers
    def cells(s, st, p):
        """element type of the array that a pointer points into"""
        x = st.st.get(p.o)
        for a in p.p:
            if isinstance(x, Agg) and a[0] == "f" and a[1] < len(x.f): x = x.f[a[1]]
            else: break
        while isinstance(x, Agg) and len(x.f) == 1: x = x.f[0]
        return x.ety if isinstance(x, Arr) else None
    def ptr_add(s, p, n, e, st=None):
        if isinstance(p, Ite): return vite(p.c, s.ptr_add(p.a, n, e, st), s.ptr_add(p.b, n, e, st))
        if isinstance(p, Agg): p = s.unwrap(p)
        if not n.t: return p
        if not isinstance(p, Ptr): return opq("ptr")
        if n.w != 64: raise Unsupported("offset width")
        if p.p and p.p[-1][0] == "y":       # a byte pointer: ("y", offset in bytes, size of the elements)
            if e is None or s.tsize(e) != 1: return opq("ptr")
            return ptr(p.o, p.p[:-1] + (("y", padd(p.p[-1][1], n), p.p[-1][2]),), p.m)
        if e is not None and s.tsize(e) == 1 and st is not None:
            c = s.cells(st, p); c = None if c is None else s.tsize(c)
            if c is not None and c > 1: return ptr(p.o, p.p + (("y", n, c),), None)
        if p.p and p.p[-1][0] == "x":
            return ptr(p.o, p.p[:-1] + (("x", padd(p.p[-1][1], n)),), p.m)
        return ptr(p.o, p.p + (("x", n),), p.m)

    def ptr_cmp(s, op, a, b):
        if isinstance(a, Agg): a = s.unwrap(a)
        if isinstance(b, Agg): b = s.unwrap(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            pa_, pb_ = s.normp(a), s.normp(b)
            if a.o is b.o and pa_[0] == pb_[0]:
                x, y = pa_[1], pb_[1]
                if op == "Eq": return bv(b_eq(x, y))
                if op == "Ne": return bv(bnot(b_eq(x, y)))
                if op == "Lt": return bv(b_ult(x, y))
                if op == "Gt": return bv(b_ult(y, x))
                if op == "Le": return bv(b_ule(x, y))
                if op == "Ge": return bv(b_ule(y, x))
            if op == "Eq": return bv(FALSE) if a.o is not b.o else bv(batom("app", ("ptreq", a, b)))
            if op == "Ne": return bv(TRUE) if a.o is not b.o else bv(bnot(batom("app", ("ptreq", a, b))))
        if isinstance(a, Ptr) and isinstance(b, Opq) and b.why == "addr" and op in ("Eq", "Ne"):
            return bv(FALSE if op == "Eq" else TRUE)
        if isinstance(b, Ptr) and isinstance(a, Opq) and a.why == "addr" and op in ("Eq", "Ne"):
            return bv(FALSE if op == "Eq" else TRUE)
        return bv(batom("app", ("ptr" + op, a, b)))
    @staticmethod
    def normp(p):
        if p.p and p.p[-1][0] == "x": return p.p[:-1], p.p[-1][1]
        return p.p, pc(0)

    def cast(s, st, kind, v, tf, tt_):
        if isinstance(v, Ite): return vite(v.c, s.cast(st, kind, v.a, tf, tt_), s.cast(st, kind, v.b, tf, tt_))
        f, t = s.ty[tf], s.ty[tt_]
        if v is UNDEF: return UNDEF
        if kind == "IntToInt":
            if isinstance(v, Opq): return opq("cast")
            if t["k"] == "bool": return bv(s.asbool(v))
            v = ind(v.b, t["bits"] if t["k"] == "int" else 32) if isinstance(v, B) else s.asint(v)
            w = t["bits"] if t["k"] == "int" else 32
            if w == v.w: return v
            if w < v.w: return p_trunc(v, w)
            return p_sext(v, w) if f.get("signed") else p_zext(v, w)
        if kind == "IntToFloat":
            v = s.asint(v); c = sval(v) if f.get("signed") else cval(v)
            if c is not None: return fc(float(c), t["bits"])
            return tm("i2f", v, bool(f.get("signed")), t["bits"])
        if kind == "FloatToInt":
            v = s.asfloat(v); c = fcv(v); w = t["bits"]; sg = t["signed"]
            if c is not None and c == c and abs(c) != math.inf:
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                return pc(max(lo, min(hi, int(c))), w)
            return pa(atom("f2i", (v, w, sg), w))
        if kind == "FloatToFloat":
            v = s.asfloat(v); c = fcv(v)
            if c is not None: return fc(c, t["bits"])
            return v if f["bits"] == t["bits"] else tm("fcast", v, t["bits"])
        if kind.startswith("PointerCoercion(Unsize"):
            return s.unsize(v, tf, tt_)
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion(MutToConst") or kind.startswith("PointerCoercion(ArrayToPointer"):
            r = s.ptrcast(v, tf, tt_)
            s.settle(st, r, tt_)
            return r
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("Transmute", "BoxDerefTransmute"):
            r = s.transmute(v, tf, tt_)
            s.settle(st, r, tt_)
            return r
        if kind.startswith("PointerExpose") or kind.startswith("PointerWithExposed"): return opq("addr cast", v)
        if kind == "FnPtrToPtr": return opq("fnptr")
        raise Unsupported("cast " + kind)

    def unsize(s, v, tf, tt_):
        f, t = s.ty[tf], s.ty[tt_]
        if f["k"] in ("ref", "ptr"):
            fe, te = s.ty[f["e"]], s.ty[t["e"]]
            if isinstance(v, Agg): v = s.unwrap(v)
            if te["k"] == "slice" and fe["k"] == "array" and isinstance(v, Ptr):
                return ptr(v.o, v.p + (("x", pc(0)),), pc(fe["n"]))
            return opq("unsize")
        return opq("unsize")

    def tsize(s, t):
        z = s.ty[t].get("size")
        return None if z is None else int(z)

    def settle(s, st, r, t):
        """an allocation made as bytes gets its element type when a typed pointer to it is first made"""
        if not isinstance(r, Ptr) or r.o.kind != "heap": return
        x = st.st.get(r.o); te = s.ty[t].get("e")
        if isinstance(x, Arr) and x.ety is None and te is not None and s.kind(te) in ("int", "float", "adt", "tuple") and s.tsize(te) not in (None, 0, 1):
            st.st[r.o] = arr(x.m, x.n, te)

    def ptrcast(s, v, tf, tt_):
        f, t = s.ty[tf], s.ty[tt_]
        if isinstance(v, Agg): v = s.unwrap(v)
        if not isinstance(v, Ptr): return v
        fe, te = f.get("e"), t.get("e")
        if fe is None or te is None or fe == te: return v
        fk, tk = s.kind(fe), s.kind(te)
        if fk == "slice" and tk != "slice":       # fat to thin: drop the length
            return ptr(v.o, v.p, None) if s.tsize(te) == s.tsize(s.ety(fe)) or s.tsize(te) in (1, 0) else opq("ptrcast", v)
        if fk == "slice" and tk == "slice":
            return v if s.tsize(s.ety(fe)) == s.tsize(s.ety(te)) else opq("ptrcast", v)
        if fk == "array" and te == s.ety(fe):
            return ptr(v.o, v.p + (("x", pc(0)),), None)
        a, b = s.tsize(fe), s.tsize(te)
        if v.p and v.p[-1][0] == "y":
            off, z = v.p[-1][1:]
            if b == 1: return v
            if b != z or tk == "slice": return opq("ptrcast", v)
            cs = [(k, c - (1 << 64) if c >> 63 else c) for k, c in off.t]
            n = mkp(64, {k: c // z for k, c in cs}) if all(c % z == 0 for _, c in cs) else p_udiv(off, pc(z))
            return s.ptr_add(ptr(v.o, v.p[:-1], None), n, None)
        if a is None or b is None or a == b or b == 0: return v
        # untyped byte pointers to the start of an allocation
        if b == 1 and v.p and v.p[-1][0] == "x" and v.p[-1][1].t and v.o.kind != "heap": return ptr(v.o, v.p + (("y", pc(0), a),), None)
        if b == 1 or a == 1: return v if s.bytesafe(v) else opq("ptrcast", v)
        return opq("ptrcast", v)
    def bytesafe(s, v):
        return not v.p or v.p[-1][0] != "x" or not v.p[-1][1].t or v.o.kind == "heap"

    def transmute(s, v, tf, tt_):
        if tf == tt_: return v
        f, t = s.ty[tf], s.ty[tt_]
        if f["k"] == "float" and t["k"] == "int":
            v = s.asfloat(v); c = fcv(v)
            if c is not None:
                return pc(struct.unpack("<Q", struct.pack("<d", c))[0], 64) if t["bits"] == 64 else pc(struct.unpack("<I", struct.pack("<f", c))[0], 32)
            return pa(atom("fbits", (v,), t["bits"]))
        if f["k"] == "int" and t["k"] == "float":
            v = s.asint(v); c = cval(v)
            if c is not None: return s.const({"i": str(c)}, tt_)
            return tm("app", "frombits", v)
        ls = [x for x in s.leaves(v)] if isinstance(v, Agg) else [v]
        if t["k"] == "adt" and t["adt"] == "enum" and len(ls) == 1:
            if isinstance(ls[0], P):
                if all(not q["f"] for q in t["v"]): return enum(p_zext(ls[0], 64), {i: () for i in range(len(t["v"]))})
                q = t["v"]
                if len(q) == 2 and not q[0]["f"] and len(q[1]["f"]) == 1 and "NonZero" in s.ty[q[1]["f"][0][1]]["name"]:      # Option<NonZero>
                    return enum(ind(bnot(b_eq0(ls[0]))), {0: (), 1: (s.rewrap(ls[0], q[1]["f"][0][1]),)})
                return opq("transmute enum")
            if isinstance(ls[0], Ptr):       # Option<NonNull>
                for i, q in enumerate(t["v"]):
                    if len(q["f"]) == 1: return enum(pc(i), {i: (s.rewrap(ls[0], q["f"][0][1]),)})
            return opq("transmute")
        if len(ls) == 1:
            x = ls[0]
            if isinstance(x, Enum) and t["k"] == "int" and any(y for _, y in x.p):
                pl = dict(x.p).get(1, ())
                if "NonZero" not in f["name"] or len(pl) != 1: return opq("transmute")
                return pite(b_eq0(x.tag), pc(0, t["bits"]), s.asint(pl[0]))
            if isinstance(x, Enum) and t["k"] == "int": return p_trunc(x.tag, t["bits"])
            if isinstance(x, Arr) or isinstance(x, Opq): return x if t["k"] == "array" or isinstance(x, Opq) else s.arr_to(x, tt_)
            return s.rewrap(x, tt_)
        if t["k"] == "array":
            e = t["e"]
            return arr(mm("list", *ls), pc(len(ls)), e)
        r = s.fill_shape(tt_, list(ls))
        return r if r is not None else opq("transmute")
    def arr_to(s, x, t):
        n = cval(x.n)
        if n is None or n > 16: return opq("transmute")
        ls = [s.sel(x.m, pc(i), x.ety) for i in range(n)]
        r = s.fill_shape(t, ls)
        return r if r is not None else opq("transmute")
    def fill_shape(s, t, ls):
        x = s.ty[t]; k = x["k"]
        if k in ("int", "float", "bool", "char", "ptr", "ref"): return ls.pop(0) if ls else None
        if k in ("tuple", "adt"):
            if k == "adt" and x["adt"] != "struct": return None
            fs = [ft for _, ft in x["v"][0]["f"]] if k == "adt" else x["f"]
            out = []
            for ft in fs:
                r = s.zst(ft) if s.is_zst(ft) else s.fill_shape(ft, ls)
                if r is None: return None
                out.append(r)
            return agg(out)
        return None

    # -------------------------------------------------------------- functions
    def call(s, fi, args, st):
        """-> (value, state) ; state None if the call does not return"""
        f = s.d.fns[fi]
        m = s.model(fi)
        if m is not None:
            r = m(s, f, args, st)
            if r is not NotImplemented: return r
        if "blocks" not in f:
            return s.nobody(f, args, st)
        if fi in s.stack and s.again(fi, args, st):
            s.log.append(Ev("panic", st.pc, {"why": "the call recurs with the same arguments and memory: it never returns", "path": f["path"]}, s.at, f["path"]))
            return None, None
        if len(s.stack) > MAXDEPTH: raise Unsupported("call depth")
        s.visited.add(fi)
        fr = Frame()
        fr.fi = fi; fr.fn = f; fr.obj = {}; fr.cfg = s.d.cfgof(fi)
        s.stack.append(fi); s.outer.append((fi, args, dict(st.st)))
        at = s.at
        st = st.copy()
        n = f["argc"]
        if f.get("spread") is not None or len(args) != n:
            args = s.spread(f, args)
        for i, a in enumerate(args): st.st[s.lobj(fr, i + 1)] = a
        rets = []
        outer = s.frame; s.frame = fr
        exits = s.region(fr, set(fr.cfg.order), 0, st, None, rets)
        s.frame = outer
        s.stack.pop(); s.outer.pop()
        s.at = at
        out = merge_states(rets)
        if out is None: return None, None
        v = out.st.get(s.lobj(fr, 0), UNDEF)
        for o in fr.obj.values(): out.st.pop(o, None)
        return v, out

    def again(s, fi, args, st):
        """an unfinished call of the same function began in the same state: the program is deterministic, so this call makes itself again"""
        for fj, a, m in s.outer:
            if fj == fi and len(a) == len(args) and all(x is y or x == y for x, y in zip(a, args)) and all(st.st.get(o) is v or st.st.get(o) == v for o, v in m.items()): return True
        return False

    def spread(s, f, args):
        n = f["argc"]
        if f.get("spread") is not None:
            sp = f["spread"] - 1
            if len(args) == n: 
                return args
            return list(args[:sp]) + [agg(args[sp:])]
        # "rust-call" ABI: last argument is a tuple to be spread
        if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == n:
            return list(args[:-1]) + list(args[-1].f)
        raise Unsupported("argument count of " + f["path"])

    def model(s, fi):
        m = s.fmodel.get(fi, 0)
        if m == 0:
            f = s.d.fns[fi]
            m = None
            if f["kind"] == "intrinsic" or f.get("intr"):
                nm = f.get("intr") or f["path"].split("::")[-1]
                m = s.models.get("intrinsic:" + nm)
            if m is None: m = s.models.get(f["path"])
            if m is None:
                for p, h in s.prefix:
                    if f["path"].startswith(p): m = h; break
            s.fmodel[fi] = m
        return m

    def nobody(s, f, args, st):
        p = f["path"]
        if f["empty"]: return UNIT, st
        if "closure" in f and "blocks" in s.d.fns[f["closure"]]:        # a closure without captures, as a function pointer
            n = s.d.fns[f["closure"]]["argc"]; r = s.ty[s.d.fns[f["closure"]]["locals"][0]]
            if "(std::option::Option<&mut std::option::Option<" in f["name"] and r["k"] == "ptr":       # the accessor of a thread local: its value, whatever it is
                key = ("tls", f["closure"]); o = s.fmodel.get(key)
                if o is None:
                    o = Obj("thread local " + s.d.fns[f["closure"]]["path"].split("::{")[0], "const", r["e"]); s.fmodel[key] = o
                    o.info = s.skolem(r["e"], o.name, {}); s.cobj[o] = o.info; s.statics.append(o.info)
                st = st.copy()
                if o not in st.st: st.st[o] = o.info
                return ptr(o), st
            if len(args) + 1 == n: return s.call(f["closure"], [UNDEF] + list(args), st)
            if len(args) == 2 and isinstance(args[1], Agg) and len(args[1].f) + 1 == n: return s.call(f["closure"], [args[0]] + list(args[1].f), st)
        s.unknown.append(p)
        s.emit("unknown", st, path=p, args=args)
        # it may write through every pointer it gets
        st = st.copy(); seen = set(); work = list(args)
        while work:
            v = work.pop()
            if isinstance(v, Ptr):
                if v.o in seen: continue
                seen.add(v.o); old = st.st.get(v.o, UNDEF)
                work.append(old)
                st.st[v.o] = s.havoc(old)
            elif isinstance(v, Agg): work.extend(v.f)
            elif isinstance(v, Ite): work += [v.a, v.b]
            elif isinstance(v, Enum):
                for _, x in v.p: work.extend(x)
        return opq("call", p), st

    def havoc(s, v):
        if isinstance(v, Arr): return arr(mm("opaque", "unknown call", v.m, len(s.log)), v.n, v.ety)
        return opq("unknown call")

    # -------------------------------------------------------------- control flow
    def region(s, fr, blocks, entry, st, header, rets):
        """runs the blocks (a loop body or a whole function) from entry; returns (exits, backs)"""
        cfg = fr.cfg
        if cfg.irreducible: raise Unsupported("irreducible")
        pend = {entry: [st]}
        exits = []; backs = []
        order = sorted(blocks, key=lambda b: cfg.rpo[b])
        skip = set()
        for b in order:
            if b in skip: continue
            sts = pend.pop(b, None)
            if b in cfg.loops and b != header:
                skip |= cfg.loops[b] - {b}
            if not sts: continue
            ms = merge_states(sts)
            if ms is None: continue
            if b in cfg.loops and b != header:
                edges = s.loop(fr, b, cfg.loops[b], ms, rets)
            else:
                edges = s.block(fr, b, ms, rets)
            for tgt, es in edges:
                if es.pc == FALSE: continue
                if header is not None and tgt == header: backs.append(es)
                elif tgt in blocks: pend.setdefault(tgt, []).append(es)
                else: exits.append((tgt, es))
        if header is None: return exits
        return exits, backs

    def block(s, fr, b, st, rets):
        s.steps += 1
        if s.steps > 300000: raise Unsupported("analysis budget")
        st = st.copy()
        bl = fr.fn["blocks"][b]
        s.at = bl["l"]
        for x in bl["s"]:
            k = x[0]
            if k == "=":
                alts = None
                dst = x[1]
                dt = None
                if dst[1]:
                    alts, dt = s.place(fr, st, dst)
                else: dt = fr.fn["locals"][dst[0]]
                v = s.rvalue(fr, st, x[2], dt)
                if alts is None:
                    st.st[s.lobj(fr, dst[0])] = v
                else: s.store(st, alts, v, dt)
            elif k == "setdiscr":
                alts, t = s.place(fr, st, x[1])
                for c, o, p, m in alts:
                    old = s.read(st, o, p)
                    d = dict(old.p) if isinstance(old, Enum) else {}
                    d.setdefault(x[2], ())
                    s.write(st, o, p, enum(pc(x[2]), d), c)
            elif k == "assume":
                pass
            elif k == "copynonoverlapping":
                s.copy_elems(st, s.operand(fr, st, x[1]), s.operand(fr, st, x[2]), s.asint(s.operand(fr, st, x[3])))
            elif k == "dead":
                o = fr.obj.get(x[1])
                if o is not None: st.st.pop(o, None)
        t = bl["t"]; k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "return":
            rets.append(st); return []
        if k == "switch":
            v = s.operand(fr, st, t[1])
            out = []
            rest = TRUE
            isb = s.kind(t[4]) == "bool"
            for val, tgt in t[2]:
                n = int(val)
                if isb:
                    bb = s.asbool(v); c = bb if n else bnot(bb)
                else:
                    iv = s.asint(v)
                    c = b_eq(iv, pc(n, iv.w))
                c = band(c, rest)
                rest = band(rest, bnot(c))
                npc = s.feas(band(st.pc, c))
                if npc != FALSE: out.append((tgt, State(npc, dict(st.st))))
            npc = s.feas(band(st.pc, rest))
            if npc != FALSE: out.append((t[3], State(npc, st.st)))
            return out
        if k == "assert":
            c = s.asbool(s.operand(fr, st, t[1]))
            if not t[2]: c = bnot(c)
            kind = t[3]
            bad = band(st.pc, bnot(c))
            bad = s.feas(bad)
            if bad != FALSE:
                if not (kind in ("overflow",) and s.profile == "release"):
                    s.log.append(Ev("panic", bad, {"why": kind, "path": "assert"}, bl["l"], fr.fn["path"]))
            if kind in ("overflow",) and s.profile == "release":
                pass
            else: st.pc = band(st.pc, c)
            return [(t[4], st)] if st.pc != FALSE else []
        if k == "call":
            args = [s.operand(fr, st, o) for o in t[2]]
            cal = t[1]
            if isinstance(cal, list):
                if cal[0] == "ptr":
                    v = s.operand(fr, st, cal[1])
                    if isinstance(v, Agg) and not v.f:
                        pass
                    if isinstance(v, Fn): fi = v.f
                    else: fi = None
                else: fi = None
                if fi is None:
                    s.unknown.append(str(cal))
                    s.emit("unknown", st, path=str(cal), args=args)
                    r, st2 = opq("call"), st
                else: r, st2 = s.call(fi, args, st)
            else:
                f = s.d.fns[cal]
                if t[4] is None and "blocks" not in f and s.model(cal) is None:
                    s.log.append(Ev("panic", st.pc, {"why": "panic", "path": f["path"], "args": args}, bl["l"], fr.fn["path"]))
                    return []
                s.dest = s.optype(fr, ["cp", t[3]]) if t[3] else None
                if "blocks" not in f and f["path"] in CALLS and len(args) == 2:
                    # a function item called through its trait
                    at = s.optype(fr, t[2][0])
                    while at is not None and s.kind(at) in ("ref", "ptr"): at = s.ty[at]["e"]
                    if at is not None and s.kind(at) == "fndef" and s.ty[at].get("fn") is not None and isinstance(args[1], Agg):
                        cal = s.ty[at]["fn"]; f = s.d.fns[cal]; args = list(args[1].f)
                if "blocks" in f and f.get("spread") is None and len(args) == f["argc"] and args and isinstance(args[-1], Agg):
                    # "rust-call" ABI with a one-element tuple
                    at, pt = s.optype(fr, t[2][-1]), f["locals"][f["argc"]]
                    if at is not None and at != pt and s.kind(at) == "tuple" and len(s.ty[at]["f"]) == 1 and s.ty[at]["f"][0] == pt:
                        args = args[:-1] + [args[-1].f[0]]
                r, st2 = s.call(cal, args, st)
            s.at = bl["l"]
            if st2 is None or t[4] is None: return []
            st = st2 if st2 is not st else st
            if t[3][1]:
                alts, dt = s.place(fr, st, t[3])
                s.store(st, alts, r, dt)
            else:
                st.st[s.lobj(fr, t[3][0])] = r
            return [(t[4], st)]
        if k == "drop":
            if t[3] is not None:
                alts, ty = s.place(fr, st, t[1])
                f = s.d.fns[t[3]]
                if "blocks" in f and s.dropmatters(t[4]):
                    q = None
                    for c, o, p, m in alts:
                        z = ptr(o, p, m)
                        q = z if q is None else vite(c, z, q)
                    if not s.is_dead(st, alts):
                        r, st2 = s.call(t[3], [q], st)
                        s.at = bl["l"]
                        if st2 is None: return []
                        st = st2
            return [(t[2], st)]
        if k == "unreachable":
            if st.pc != FALSE: s.emit("unreachable", st)
            return []
        if k in ("resume", "abort"): return []
        raise Unsupported("terminator " + k)

    def is_dead(s, st, alts):
        return all(s.read(st, o, p) is UNDEF for c, o, p, m in alts)

    def dropmatters(s, t, seen=None):
        """types whose drop glue may have an effect beyond freeing memory"""
        key = ("drop", t)
        r = s.fmodel.get(key)
        if r is None:
            s.fmodel[key] = False
            x = s.ty[t]; k = x["k"]
            if k == "adt":
                p = x["path"]
                if p.startswith(("alloc::raw_vec", "std::vec::Vec", "alloc::vec::Vec", "std::alloc", "std::boxed", "rand::")): r = False
                else: r = True
            elif k in ("closure", "tuple"): r = any(s.dropmatters(t2) for t2 in x["f"])
            elif k == "array": r = s.dropmatters(x["e"])
            else: r = False
            s.fmodel[key] = r
        return r

    # quick theory check: contradictory pairs of comparisons
    def feas(s, b):
        return b

    def copy_elems(s, st, src, dst, n):
        cn = cval(n)
        if cn == 0: return
        for cs, p in s.targets(src):
            for cd, q in s.targets(dst):
                ps, is_ = s.normp(p); pd, id_ = s.normp(q)
                sv = s.readp(st.st.get(p.o, UNDEF), ps)
                dv = s.readp(st.st.get(q.o, UNDEF), pd)
                c = band(cs, cd)
                s.log.append(Ev("copy", band(st.pc, c), {"o": q.o, "pre": pd, "i": id_, "so": p.o, "spre": ps, "si": is_, "n": n,
                                 "dn": dv.n if isinstance(dv, Arr) else pc(1), "sn": sv.n if isinstance(sv, Arr) else pc(1)}, s.at,
                                 s.d.fns[s.stack[-1]]["path"] if s.stack else ""))
                if isinstance(sv, Arr) and isinstance(dv, Arr):
                    nm = mm("copy", dv.m, id_, sv.m, is_, n)
                    s.write(st, q.o, pd, arr(nm, dv.n, dv.ety if dv.ety is not None else sv.ety), c)
                elif cn == 1 and not isinstance(sv, Arr):
                    v = sv
                    if isinstance(dv, Arr): s.write(st, q.o, pd + (("x", id_),), v, c)
                    else: s.write(st, q.o, pd, v, c)
                elif cn == 1 and isinstance(sv, Arr):
                    et = sv.ety
                    v = s.sel(sv.m, is_, et) if et is not None else opq("untyped")
                    s.write(st, q.o, pd, v, c)
                else: s.write(st, q.o, pd, opq("copy"), c)

    # -------------------------------------------------------------- loops
    def loop(s, fr, h, body, st, rets):
        """-> list of (target, state) for the edges leaving the loop"""
        # 1. constant trip counts: unroll
        outer_log = s.log; nrets = len(rets)
        cur = st; exits = []
        log = []
        ok = False
        s.log = log
        steps0 = s.steps
        for n in range(UNROLL):
            ex, backs = s.region(fr, body, h, cur, h, rets)
            if not backs:
                exits += ex; ok = True; break
            if ex or len(rets) > nrets:
                break
            cur = merge_states(backs)
            if cur is None: ok = True; break
            cur = s.prune(fr, h, cur)
            if s.steps - steps0 > 20000: break
        s.log = outer_log
        if ok:
            s.log.extend(log)
            return exits
        del rets[nrets:]
        return s.symloop(fr, h, body, st, rets)

    def prune(s, fr, h, st):
        live = fr.cfg.live[h]; taken = fr.cfg.taken
        st = State(st.pc, dict(st.st))
        for l, o in fr.obj.items():
            if l not in live and l not in taken: st.st.pop(o, None)
        return st

    def symloop(s, fr, h, body, st, rets):
        par = tuple(s.kstack)
        L = Loop("%s bb%d" % (fr.fn["path"], h), par)
        st = s.prune(fr, h, st)
        phis = {}          # (obj, leafpath) -> phi object
        nrets = len(rets)
        outer_log = s.log
        entry_pc = st.pc
        back = None
        for it in range(12):
            s.log = []
            del rets[nrets:]
            s.kstack.append(L.K)
            S = State(entry_pc, dict(st.st))
            for o in {k[0] for k in phis}:
                S.st[o] = s.inject(st.st.get(o, UNDEF), o, (), phis)
            try:
                ex, backs = s.region(fr, body, h, S, h, rets)
            finally:
                s.kstack.pop()
            if not backs:
                # the body never comes back symbolically: not a loop
                log = s.log; s.log = outer_log
                s.log.extend(log)
                return ex
            back = s.prune(fr, h, merge_states(backs))
            back = State(back.pc, {o: under(v, back.pc) for o, v in back.st.items()})
            new = {}
            for o in set(S.st) | set(back.st):
                if o not in S.st and o.kind == "local" and o not in fr.obj.values(): continue
                a = S.st.get(o, UNDEF); b = back.st.get(o, UNDEF)
                if a is not b and under(a, back.pc) is not b: s.diff(a, b, o, (), phis, new, L)
            if not new: break
            phis.update(new)
        else:
            L.broken = "no fixpoint"
        log = s.log; s.log = outer_log
        if len(rets) > nrets:
            L.broken = "return inside"; 
        # 2. next values
        nexts = {}
        for key, ph in phis.items():
            o, lp = key
            nexts[key] = s.getleaf(back.st.get(o, UNDEF), lp)
        inits = {key: s.getleaf(st.st.get(key[0], UNDEF), key[1]) for key in phis}
        cont = constrain(back.pc, entry_pc)
        # 3. closed forms
        K = L.K; Kp = pa(K)
        mp = {}
        allphi = {}
        for key, ph in phis.items():
            allphi[ph] = key
        unsolved = dict(phis)
        progress = True
        while progress:
            progress = False
            for key, ph in list(unsolved.items()):
                if not isinstance(ph, A): continue
                nx = nexts[key]; ini = inits[key]
                if not isinstance(nx, P) or not isinstance(ini, P): continue
                d = subst(psub(nx, pa(ph)), mp)
                if any(occurs(d, q) for q in unsolved.values()): continue
                if any(occurs(ini, q) for q in phis.values()): continue
                if not occurs(d, K):
                    mp[ph] = padd(ini, pmul(d, Kp)); del unsolved[key]; progress = True
                else:
                    li = lin_in(d, K)
                    if li is not None:
                        # sum of c0 + c1*j for j < K
                        tri = p_udiv(pmul(Kp, psub(Kp, pc(1))), pc(2))
                        mp[ph] = padd(ini, padd(pmul(li[1], Kp), pscale(tri, li[0]))); del unsolved[key]; progress = True
        for key, ph in list(unsolved.items()):
            kp = tuple(pa(a) for a in par)
            if isinstance(ph, Opq): del unsolved[key]
            elif isinstance(ph, A): mp[ph] = pa(atom("rec", (L, key_name(key), Kp, kp), ph.w))
            elif isinstance(ph, BA): mp[ph] = bv(batom("rec", (L, key_name(key), Kp, kp)))
            elif isinstance(ph, T): mp[ph] = tm("rec", L, key_name(key), Kp, kp)
            elif isinstance(ph, M): mp[ph] = mm("rec", L, key_name(key), Kp, kp)
        for key in unsolved:
            i, n = inits[key], nexts[key]
            L.keys[key_name(key)] = [i, n, phis[key]]
        # a single store per iteration gives a closed form for selections
        sb = Subst(mp)
        # an iteration that stores at K + b reads there what the loop found there
        more = {}
        for key in unsolved:
            ph, nx = phis[key], nexts[key]
            if not (isinstance(ph, M) and isinstance(nx, M) and nx.op == "store" and nx.a[0] is ph and isinstance(inits[key], M)): continue
            li = lin_in(sb(nx.a[1]), K)
            if li is None or li[0] not in (1, (1 << nx.a[1].w) - 1): continue
            for x in selections(nx.a[2], ph, nx.a[1], {}):
                path, kind = (x.a[2], x.a[3])
                r = sel_leaf(inits[key], nx.a[1], path, kind)
                if type(r) is Opq or r is UNDEF: continue
                r = sb(r)
                more[x] = r.b if isinstance(r, B) and not isinstance(x, BA) else r
        if more:
            mp = {**mp, **more}
            sb = Subst(mp)
            nexts = dict(nexts)
            s1 = Subst({x: v for x, v in more.items()})
            for key in unsolved:
                if isinstance(nexts[key], M) and nexts[key].op == "store" and nexts[key].a[0] is phis[key]:
                    nx = nexts[key]
                    nexts[key] = mm("store", nx.a[0], nx.a[1], s1(nx.a[2]))
        for key in unsolved:
            kn = key_name(key)
            ph = phis[key]
            nx = nexts[key]
            if isinstance(ph, M) and isinstance(nx, M) and nx.op == "store" and nx.a[0] is ph:
                a = sb(nx.a[1]); 
                v = nx.a[2]
                if not occurs(v, ph):
                    L.stores[kn] = (a, sb(v), inits[key])
        for kn in L.keys:
            L.keys[kn][1] = sb(L.keys[kn][1]) if L.keys[kn][1] is not UNDEF else UNDEF
            L.keys[kn] = tuple(L.keys[kn])
        L.cont = sb.b(cont)
        stop = TRUE
        # conditions under which an iteration neither continues nor exits
        live = back.pc
        for _, es in ex: live = bor(live, es.pc)
        L.stop = sb.b(constrain(bnot(live), entry_pc)) if constrain(bnot(live), entry_pc) != FALSE else FALSE
        L.log = s.subst_log(log, sb, entry_pc)
        if L.stop != FALSE: s.nostop(L, entry_pc)
        # 4. trip count
        N = s.trip(L, par)
        L.trip = N
        kp = tuple(pa(a) for a in par)
        if N is None: N = pa(atom("trip", (L, kp), 64))
        fin = {}
        sN = Subst({K: N})
        out = []
        fullmp = {ph: sN(v) for ph, v in mp.items()}
        sf = Subst({**{ph: v for ph, v in fullmp.items()}})
        s.log.append(LoopEv(L, entry_pc, kp))
        ok_pc = entry_pc
        if L.stop != FALSE:
            ok_pc = band(entry_pc, bnot(batom("lstop", (L, kp))))
        for tgt, es in ex:
            ns = {}
            for o, v in es.st.items():
                old = st.st.get(o)
                ns[o] = v if v is old else sf(v)
            ep = sf.b(constrain(es.pc, entry_pc))
            if len(ex) == 1: ep = TRUE
            out.append((tgt, State(band(ok_pc, ep), ns)))
        if L.broken:
            for tgt, es in out:
                for o in {k[0] for k in phis}:
                    if o in es.st: es.st[o] = opq("loop: " + L.broken)
        return out

    def subst_log(s, log, sb, entry_pc):
        out = []
        for e in log:
            if isinstance(e, Ev):
                d = {k: (sb(under(v, e.c)) if not isinstance(v, (Obj, list, str)) else [sb(under(x, e.c)) for x in v] if isinstance(v, list) else v) for k, v in e.d.items()}
                out.append(Ev(e.k, sb.b(constrain(e.c, entry_pc)), d, e.at, e.fn))
            else:
                L = e.L
                for kn in list(L.keys):
                    i, n, ph = L.keys[kn]
                    L.keys[kn] = (sb(i), sb(n), ph)
                L.cont = sb.b(L.cont); L.stop = sb.b(L.stop)
                if L.trip is not None: L.trip = sb(L.trip)
                L.stores = {k: (sb(a), sb(v), sb(i)) for k, (a, v, i) in L.stores.items()}
                L.log = s.subst_log(L.log, sb, TRUE)
                out.append(LoopEv(L, sb.b(constrain(e.c, entry_pc)), sb(e.par)))
        return out

    def nostop(s, L, pc_):
        """no iteration diverges, given the condition under which the loop is entered"""
        from . import linarith
        if not (linarith.infeasible(L.stop) or linarith.infeasible(band(pc_, L.stop))): return
        for v in sorted(bsupport(L.cont)):
            for b in (tt._bmk(v, TRUE, FALSE), tt._bmk(v, FALSE, TRUE)):
                d = band(bxor(b, L.cont), bnot(L.stop))
                if linarith.infeasible(d) or linarith.infeasible(band(pc_, d)):
                    L.cont = b; L.stop = FALSE
                    return

    def trip(s, L, par):
        """closed form of the number of iterations that continue"""
        c = constrain(L.cont, bnot(L.stop)) if L.stop != FALSE else L.cont
        free = [v for v in bsupport(c) if tt._batoms[v] is not L.K and not occurs(tt._batoms[v].a, L.K)]
        if len(free) > 8: return None
        w = L.K.w
        def go(c, free):
            if c == TRUE: return None
            if c == FALSE: return pc(0, w)
            if free:
                x = tt._batoms[free[0]]; x = batom(x.k, x.a)
                h, l = constrain(c, x), constrain(c, bnot(x))
                if h == l: return go(h, free[1:])
                h, l = go(h, free[1:]), go(l, free[1:])
                return None if h is None or l is None else pite(x, h, l)
            # a conjunction ends when the first of its members does
            n = None
            while c > 1:
                v, h, l = tt._bnode[c]
                if h != FALSE and l != FALSE: return None
                m = s.trip1(L.K, tt._batoms[v], l == FALSE)
                if m is None: return None
                n = m if n is None else pite(b_ult(m, n), m, n)
                c = h if l == FALSE else l
            return n
        return go(c, free)

    def trip1(s, K, a, pos):
        """number of iterations before the first one in which the comparison a is not pos"""
        if a.k == "ult":
            x, y = a.a
            lx, ly = lin_in(x, K), lin_in(y, K)
            if lx is None or ly is None: return None
            if not pos:            # continue while y <= x, i.e. !(x < y)
                if lx[0] == 0 and ly[0] == 1:
                    n, i0 = lx[1], ly[1]
                    return pite(b_ult(n, i0), pc(0, n.w), padd(psub(n, i0), pc(1, n.w)))
                return None
            if lx[0] == 1 and ly[0] == 0:
                a0, b0 = lx[1], ly[1]
                return pite(b_ult(a0, b0), psub(b0, a0), pc(0, a0.w)) if a0.t else b0
            return None
        if a.k == "eq0" and not pos:
            li = lin_in(a.a, K)
            if li is None: return None
            if li[0] in (1, (1 << a.a.w) - 1):
                p0 = li[1]
                return pneg(p0) if li[0] == 1 else p0
        return None

    # carried leaves -------------------------------------------------
    def diff(s, a, b, o, path, phis, new, L):
        if a is b: return
        key = (o, path)
        if key in phis: return
        ta, tb = type(a), type(b)
        if ta is tb:
            if ta is Agg and len(a.f) == len(b.f):
                for i, (x, y) in enumerate(zip(a.f, b.f)): s.diff(x, y, o, path + (("f", i),), phis, new, L)
                return
            if ta is Enum:
                s.diff(a.tag, b.tag, o, path + (("tag",),), phis, new, L)
                da, db = dict(a.p), dict(b.p)
                for k in set(da) | set(db):
                    x, y = da.get(k), db.get(k)
                    n = len(x or y)
                    x = x or (UNDEF,) * n; y = y or (UNDEF,) * n
                    for i in range(n): s.diff(x[i], y[i], o, path + (("v", k, i),), phis, new, L)
                return
            if ta is Arr:
                s.diff(a.m, b.m, o, path + (("m",),), phis, new, L)
                s.diff(a.n, b.n, o, path + (("n",),), phis, new, L)
                return
            if ta is Ptr and a.o is b.o and len(a.p) == len(b.p) and (a.m is None) == (b.m is None):
                if all(x == y or (x[0] == "x" == y[0]) for x, y in zip(a.p, b.p)):
                    for i, (x, y) in enumerate(zip(a.p, b.p)):
                        if x != y: s.diff(x[1], y[1], o, path + (("px", i),), phis, new, L)
                    if a.m is not None and a.m is not b.m: s.diff(a.m, b.m, o, path + (("pm",),), phis, new, L)
                    return
        if a is UNDEF and tb in (Agg, Enum, Arr, Ptr):
            # first defined inside the loop: not carried unless read before written
            new[key] = opq("loop-carried", L.id, key_name(key)); return
        if b is UNDEF: 
            return
        x = b if a is UNDEF else a
        if isinstance(x, P): new[key] = atom("phi", (L, key_name(key)), x.w)
        elif isinstance(x, B):
            batom("phi", (L, key_name(key))); new[key] = tt._bvar_get("phi", (L, key_name(key)))
        elif isinstance(x, T): new[key] = tm("phi", L, key_name(key))
        elif isinstance(x, M): new[key] = mm("phi", L, key_name(key))
        else: new[key] = opq("loop-carried", L.id, key_name(key))

    def inject(s, v, o, path, phis):
        key = (o, path)
        if key in phis:
            ph = phis[key]
            if isinstance(ph, A): return pa(ph)
            if isinstance(ph, BA): return bv(batom(ph.k, ph.a))
            return ph
        # does any phi live below this path?
        if not any(k[0] is o and k[1][:len(path)] == path for k in phis): return v
        if isinstance(v, Agg): return agg([s.inject(x, o, path + (("f", i),), phis) for i, x in enumerate(v.f)])
        if isinstance(v, Enum):
            tag = s.inject(v.tag, o, path + (("tag",),), phis)
            d = dict(v.p)
            for k in phis:
                if k[0] is o and len(k[1]) > len(path) and k[1][:len(path)] == path and k[1][len(path)][0] == "v":
                    vi, i = k[1][len(path)][1:]
                    f = list(d.get(vi, ()))
                    while len(f) <= i: f.append(UNDEF)
                    d[vi] = tuple(f)
            d = {k: tuple(s.inject(x, o, path + (("v", k, i),), phis) for i, x in enumerate(f)) for k, f in d.items()}
            return enum(tag, d)
        if isinstance(v, Arr):
            return arr(s.inject(v.m, o, path + (("m",),), phis), s.inject(v.n, o, path + (("n",),), phis), v.ety)
        if isinstance(v, Ptr):
            p = tuple(("x", s.inject(x[1], o, path + (("px", i),), phis)) if x[0] == "x" else x for i, x in enumerate(v.p))
            m = s.inject(v.m, o, path + (("pm",),), phis) if v.m is not None else None
            return ptr(v.o, p, m)
        return v

    def getleaf(s, v, path):
        for e in path:
            if v is UNDEF or isinstance(v, Opq): return v
            k = e[0]
            try:
                if k == "f": v = v.f[e[1]]
                elif k == "tag": v = v.tag
                elif k == "v": v = dict(v.p)[e[1]][e[2]]
                elif k == "m": v = v.m
                elif k == "n": v = v.n
                elif k == "px": v = v.p[e[1]][1]
                elif k == "pm": v = v.m
            except (AttributeError, KeyError, IndexError):
                return UNDEF if k == "v" else opq("leaf")
        return v


CALLS = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")

def key_name(key):
    return "%d:%s" % (key[0].id, "".join("/" + ".".join(map(str, e)) for e in key[1]))

def mstore(m, i, v):
    # overwrite of the same position
    if m.op == "store" and m.a[1] is i: m = m.a[0]
    if m.op == "list":
        c = cval(i)
        if c is not None and c < len(m.a):
            l = list(m.a); l[c] = v
            return mm("list", *l)
    return mm("store", m, i, v)

def selections(x, m, idx, seen):
    """subterms of x that select position idx of the contents m"""
    if isinstance(x, (P, T, M, Agg, Enum, Arr, Ite, tuple)):
        if id(x) in seen: return
        seen[id(x)] = x
    if isinstance(x, T):
        if x.op == "msel" and x.a[0] is m and x.a[1] is idx: yield x; return
        if x.op == "fite":
            yield from selections(x.a[1], m, idx, seen); yield from selections(x.a[2], m, idx, seen); return
        for y in x.a: yield from selections(y, m, idx, seen)
    elif isinstance(x, P):
        for mono, _ in x.t:
            for i in mono:
                a = A.byid[i]
                if a.k == "msel" and a.a[0] is m and a.a[1] is idx: yield a
                elif isinstance(a.a, tuple): yield from selections(a.a, m, idx, seen)
    elif isinstance(x, tuple):
        for y in x: yield from selections(y, m, idx, seen)
    elif isinstance(x, Agg): yield from selections(x.f, m, idx, seen)
