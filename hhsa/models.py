"""Models of intrinsics and of library functions whose bodies are not analysed."""
import math, re
from .terms import *
from .graph import *

MODELS = {}
PREFIX = []
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def intr(*names):
    def d(f):
        for n in names: MODELS["intrinsic:" + n] = f
        return f
    return d
def prefix(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

def targ(s, f, i=0):
    ts = [x for x in f["targs"] if not isinstance(x, str)]
    return ts[i] if i < len(ts) else None

def retty(s, f): return f["locals"][0] if "locals" in f else None

def strip(s, v):
    if isinstance(v, Agg): return s.unwrap(v)
    return v

# ------------------------------------------------------------------ uninterpreted functions of the root crate
def opaque_fn(s, f, args, st):
    """functions named opaque_* in the root crate are uninterpreted: equal arguments give equal results"""
    name = f["path"].split("::")[-1]
    t = retty(s, f)
    a = tuple(s.unwrap(x) if isinstance(x, Agg) else x for x in args)
    s.emit("opaque", st, name=name, args=list(args))
    x = s.ty[t]; k = x["k"]
    if k == "int": return pa(atom("app", (name,) + a, x["bits"])), st
    if k == "bool": return bv(batom("app", (name,) + a)), st
    if k == "float": return tm("app", name, *a), st
    if k == "tuple":
        return agg([pa(atom("app", ("%s.%d" % (name, i),) + a, s.ty[ft]["bits"])) if s.kind(ft) == "int"
                    else tm("app", "%s.%d" % (name, i), *a) for i, ft in enumerate(x["f"])]), st
    if k == "adt": 
        fs = x["v"][0]["f"]
        return agg([tm("app", "%s.%d" % (name, i), *a) if s.kind(ft) == "float" else opq("opaque ret") for i, (_, ft) in enumerate(fs)]), st
    return UNIT, st

# ------------------------------------------------------------------ intrinsics
@intr("size_of")
def _(s, f, a, st):
    z = s.tsize(targ(s, f)); return (pc(z) if z is not None else opq("size")), st
@intr("size_of_val")
def _(s, f, a, st):
    z = s.tsize(targ(s, f)); return (pc(z) if z is not None else opq("size")), st
@intr("min_align_of", "pref_align_of", "align_of", "align_of_val", "min_align_of_val")
def _(s, f, a, st):
    return pa(atom("var", "align#%s" % s.ty[targ(s, f)]["name"], 64)), st
@intr("needs_drop")
def _(s, f, a, st): return bv(FALSE), st
@intr("offset", "arith_offset", "ptr_offset")
def _(s, f, a, st):
    t = targ(s, f)
    x = s.ty[t]
    e = x["e"] if x["k"] in ("ptr", "ref") and f.get("intr", "") == "offset" else t
    return s.ptr_add(a[0], s.asint(a[1]), e, st), st
@intr("ptr_offset_from", "ptr_offset_from_unsigned")
def _(s, f, a, st):
    p, q = strip(s, a[0]), strip(s, a[1])
    if isinstance(p, Ptr) and isinstance(q, Ptr):
        (pp, pi), (qp, qi) = s.normp(p), s.normp(q)
        if p.o is q.o and pp == qp: return psub(pi, qi), st
    return opq("ptr diff"), st
@intr("transmute", "transmute_unchecked")
def _(s, f, a, st):
    return s.transmute(a[0], targ(s, f, 0), targ(s, f, 1)), st
@intr("forget")
def _(s, f, a, st): return UNIT, st
@intr("black_box")
def _(s, f, a, st): return a[0], st
@intr("assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path", "breakpoint")
def _(s, f, a, st): return UNIT, st
@intr("likely", "unlikely")
def _(s, f, a, st): return a[0], st
@intr("ub_checks", "overflow_checks", "is_val_statically_known", "contract_checks")
def _(s, f, a, st): return bv(FALSE), st
def sgnd(s, f): return s.ty[targ(s, f)].get("signed", False)
@intr("add_with_overflow")
def _(s, f, a, st): return s.checked("Add", a[0], a[1], targ(s, f)), st
@intr("sub_with_overflow")
def _(s, f, a, st): return s.checked("Sub", a[0], a[1], targ(s, f)), st
@intr("mul_with_overflow")
def _(s, f, a, st): return s.checked("Mul", a[0], a[1], targ(s, f)), st
@intr("wrapping_add", "unchecked_add")
def _(s, f, a, st): return padd(s.asint(a[0]), s.asint(a[1])), st
@intr("wrapping_sub", "unchecked_sub")
def _(s, f, a, st): return psub(s.asint(a[0]), s.asint(a[1])), st
@intr("wrapping_mul", "unchecked_mul")
def _(s, f, a, st): return pmul(s.asint(a[0]), s.asint(a[1])), st
@intr("saturating_add")
def _(s, f, a, st):
    x, y = s.asint(a[0]), s.asint(a[1])
    if sgnd(s, f): return opq("saturating"), st
    return pite(b_addovf(x, y), pc(-1, x.w), padd(x, y)), st
@intr("saturating_sub")
def _(s, f, a, st):
    x, y = s.asint(a[0]), s.asint(a[1])
    if sgnd(s, f): return opq("saturating"), st
    return pite(b_ult(x, y), pc(0, x.w), psub(x, y)), st
@intr("integer_min")
def _(s, f, a, st):
    x, y = s.asint(a[0]), s.asint(a[1])
    if sgnd(s, f): return opq("min"), st
    return pite(b_ult(y, x), y, x), st
@intr("integer_max")
def _(s, f, a, st):
    x, y = s.asint(a[0]), s.asint(a[1])
    if sgnd(s, f): return opq("max"), st
    return pite(b_ult(x, y), y, x), st
@intr("exact_div", "unchecked_div")
def _(s, f, a, st):
    x, y = s.asint(a[0]), s.asint(a[1])
    return (s.iapp("sdiv", x, y) if sgnd(s, f) else p_udiv(x, y)), st
@intr("unchecked_rem")
def _(s, f, a, st):
    x, y = s.asint(a[0]), s.asint(a[1])
    return (s.iapp("srem", x, y) if sgnd(s, f) else p_umod(x, y)), st
@intr("unchecked_shl")
def _(s, f, a, st): return s.binop(st, "Shl", a[0], a[1], targ(s, f, 0), targ(s, f, 1), None), st
@intr("unchecked_shr")
def _(s, f, a, st): return s.binop(st, "Shr", a[0], a[1], targ(s, f, 0), targ(s, f, 1), None), st
@intr("ctpop")
def _(s, f, a, st): return p_trunc(p_zext(s.iapp("ctpop", s.asint(a[0])), 64), 32), st
@intr("ctlz", "ctlz_nonzero")
def _(s, f, a, st): return p_trunc(p_zext(s.iapp("ctlz", s.asint(a[0])), 64), 32), st
@intr("cttz", "cttz_nonzero")
def _(s, f, a, st): return p_trunc(p_zext(s.iapp("cttz", s.asint(a[0])), 64), 32), st
@intr("three_way_compare")
def _(s, f, a, st): return s.binop(st, "Cmp", a[0], a[1], targ(s, f), targ(s, f), None), st
@intr("discriminant_value")
def _(s, f, a, st):
    t = targ(s, f)
    p = strip(s, a[0])
    return s.discr(s.load_quiet(st, [(c, q.o, q.p, q.m) for c, q in s.targets(p)], t), t, None), st
@intr("read_via_copy")
def _(s, f, a, st):
    t = targ(s, f)
    return s.load(st, [(c, q.o, q.p, q.m) for c, q in s.targets(strip(s, a[0]))], t), st
@intr("write_via_move")
def _(s, f, a, st):
    t = targ(s, f); st = st.copy()
    s.store(st, [(c, q.o, q.p, q.m) for c, q in s.targets(strip(s, a[0]))], a[1], t)
    return UNIT, st
@intr("copy_nonoverlapping", "copy")
def _(s, f, a, st):
    st = st.copy()
    s.copy_elems(st, strip(s, a[0]), strip(s, a[1]), s.asint(a[2]))
    return UNIT, st
@intr("atomic_load")
def _(s, f, a, st):
    return MODELS["intrinsic:read_via_copy"](s, f, a, st)
@intr("atomic_store")
def _(s, f, a, st):
    return MODELS["intrinsic:write_via_move"](s, f, a, st)
def _rmw(name, op):
    @intr(name)
    def _(s, f, a, st):
        old, st = MODELS["intrinsic:read_via_copy"](s, f, a, st)
        _, st = MODELS["intrinsic:write_via_move"](s, f, [a[0], op(s, old, a[1])], st)
        return old, st
_rmw("atomic_xadd", lambda s, x, y: padd(s.asint(x), s.asint(y)))
_rmw("atomic_xsub", lambda s, x, y: psub(s.asint(x), s.asint(y)))
_rmw("atomic_xchg", lambda s, x, y: y)
@intr("atomic_fence", "atomic_singlethreadfence")
def _(s, f, a, st): return UNIT, st
@intr("write_bytes")
def _(s, f, a, st):
    st = st.copy()
    t = targ(s, f)
    b = cval(s.asint(a[1])); n = s.asint(a[2])
    for c, q in s.targets(strip(s, a[0])):
        pre, i = s.normp(q)
        v = s.readp(st.st.get(q.o, UNDEF), pre)
        if isinstance(v, Arr) and b == 0:
            z = zero_value(s, t)
            s.log.append(_ev(s, "fill", st, c, {"o": q.o, "pre": pre, "i": i, "n": n, "dn": v.n}))
            s.write(st, q.o, pre, arr(mm("copy", v.m, i, mm("fill", z), pc(0), n), v.n, v.ety), c)
        else: s.write(st, q.o, pre, opq("write_bytes"), c)
    return UNIT, st
def _ev(s, k, st, c, d):
    from .interp import Ev
    return Ev(k, band(st.pc, c), d, s.at, s.d.fns[s.stack[-1]]["path"] if s.stack else "")
def zero_value(s, t):
    x = s.ty[t]; k = x["k"]
    if k == "int": return pc(0, x["bits"])
    if k == "float": return fc(0.0, x["bits"])
    if k == "bool": return bv(FALSE)
    if k == "adt" and x["adt"] == "struct": return agg([zero_value(s, ft) for _, ft in x["v"][0]["f"]])
    if k == "tuple": return agg([zero_value(s, ft) for ft in x["f"]])
    return opq("zeroed")
@intr("typed_swap_nonoverlapping")
def _(s, f, a, st):
    t = targ(s, f); st = st.copy()
    A1 = [(c, q.o, q.p, q.m) for c, q in s.targets(strip(s, a[0]))]
    A2 = [(c, q.o, q.p, q.m) for c, q in s.targets(strip(s, a[1]))]
    x = s.load(st, A1, t); y = s.load(st, A2, t)
    s.store(st, A1, y, t); s.store(st, A2, x, t)
    return UNIT, st
@intr("ptr_metadata")
def _(s, f, a, st): return s.unop("PtrMetadata", a[0], None), st
@intr("aggregate_raw_ptr")
def _(s, f, a, st): return s.mkptr(a[0], a[1]), st
@intr("slice_get_unchecked")
def _(s, f, a, st):
    p = strip(s, a[0]); i = s.asint(a[1])
    s.emit("unchecked", st, ptr=p, i=i)
    r = s.ptr_add(p, i, None)
    if isinstance(r, Ptr): r = ptr(r.o, r.p, None)
    return r, st
@intr("select_unpredictable")
def _(s, f, a, st): return vite(s.asbool(a[0]), a[1], a[2]), st
@intr("unreachable")
def _(s, f, a, st):
    s.emit("unreachable", st); return None, None
@intr("abort")
def _(s, f, a, st):
    s.emit("panic", st, why="abort", path=f["path"]); return None, None
@intr("const_eval_select")
def _(s, f, a, st):
    fn = a[2]
    if isinstance(fn, Fn):
        ar = list(a[0].f) if isinstance(a[0], Agg) else [a[0]]
        return s.call(fn.f, ar, st)
    return NotImplemented
@intr("const_allocate", "const_deallocate", "const_make_global")
def _(s, f, a, st): return opq("const alloc"), st
@intr("type_id", "type_name", "caller_location", "variant_count", "vtable_size", "vtable_align")
def _(s, f, a, st): return opq("typeinfo"), st
@intr("raw_eq")
def _(s, f, a, st): return bv(batom("app", ("raw_eq", a[0], a[1]))), st
for nm, b in (("sqrtf64", 64), ("floorf64", 64), ("ceilf64", 64), ("truncf64", 64), ("fabsf64", 64), ("sqrtf32", 32), ("floorf32", 32),
              ("ceilf32", 32), ("fabsf32", 32), ("truncf32", 32), ("fabs", 64), ("sqrt", 64), ("floor", 64)):
    def mk(nm=nm):
        base = nm.rstrip("0123456789")
        base = base[:-1] if base.endswith("f") and base not in ("f",) else base
        def h(s, f, a, st): return fapp(base, s.asfloat(a[0])), st
        return h
    MODELS["intrinsic:" + nm] = mk()
def fapp(name, *a):
    vs = [fcv(x) for x in a]
    if all(v is not None for v in vs) and name in FAPPS:
        try: return fc(FAPPS[name](*vs), 64)
        except (ValueError, OverflowError): pass
    return tm("app", name, *a)
for nm in ("fmaf64", "fmaf32", "powif64", "powf64", "sinf64", "cosf64", "expf64", "logf64", "minnumf64", "maxnumf64", "copysignf64",
           "minnumf32", "maxnumf32", "copysignf32", "fmuladdf64", "fmuladdf32"):
    def mk(nm=nm):
        def h(s, f, a, st):
            if nm.startswith("fma") or nm.startswith("fmuladd"):
                x, y, z = (s.asfloat(q) for q in a)
                return tm("fma", x, y, z), st
            return tm("app", nm, *[s.asfloat(x) if not isinstance(x, P) else x for x in a]), st
        return h
    MODELS["intrinsic:" + nm] = mk()
for nm, op in (("fadd_fast", "fadd"), ("fsub_fast", "fsub"), ("fmul_fast", "fmul"), ("fdiv_fast", "fdiv"),
               ("fadd_algebraic", "fadd"), ("fmul_algebraic", "fmul"), ("fsub_algebraic", "fsub"), ("fdiv_algebraic", "fdiv")):
    def mk(op=op):
        def h(s, f, a, st): return fop(op, s.asfloat(a[0]), s.asfloat(a[1]), s.ty[targ(s, f)]["bits"]), st
        return h
    MODELS["intrinsic:" + nm] = mk()

# ------------------------------------------------------------------ slices
@model("<usize as std::slice::SliceIndex<[T]>>::get_unchecked", "<usize as std::slice::SliceIndex<[T]>>::get_unchecked_mut",
       "<usize as core::slice::SliceIndex<[T]>>::get_unchecked", "<usize as core::slice::SliceIndex<[T]>>::get_unchecked_mut")
def _(s, f, a, st):
    i, p = s.asint(a[0]), strip(s, a[1])
    def one(p):
        if isinstance(p, Ite): return vite(p.c, one(p.a), one(p.b))
        if not isinstance(p, Ptr) or not isinstance(p.m, P): return opq("slice ptr")
        return ptr(p.o, s.xstep(p.p, i, True), None)
    s.emit("unchecked", st, ptr=p, i=i)
    return one(p), st

def _slice_parts(s, f, a, st):
    p, n = strip(s, a[0]), s.asint(a[1])
    wins = []
    try:
        for c, q in s.targets(p):
            pre, i = s.normp(q)
            v = s.readp(st.st.get(q.o, UNDEF), pre)
            N = v.n if isinstance(v, Arr) else pc(1) if v is not UNDEF and not isinstance(v, Opq) else None
            wins.append(agg([bv(c), i, N]) if N is not None else UNDEF)
    except Unsupported: wins = [UNDEF]
    s.emit("slice", st, ptr=p, n=n, wins=wins)
    return s.mkptr(p, n), st
for nm in ("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "core::slice::from_raw_parts", "core::slice::from_raw_parts_mut",
           "core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut", "std::slice::raw::from_raw_parts", "std::slice::raw::from_raw_parts_mut"):
    MODELS[nm] = _slice_parts

# ------------------------------------------------------------------ heap
def new_heap(s, st, n, m, ety, why):
    s.nheap += 1
    o = Obj("heap%d" % s.nheap, "heap", None, why)
    st.st[o] = arr(m, n, ety)
    s.emit("alloc", st, o=o, n=n, why=why, ety=ety)
    return o

def build_vec(s, t, p, n, cap):
    """value of type Vec<T>"""
    def go(t):
        x = s.ty[t]
        if s.is_zst(t): return s.zst(t)
        k = x["k"]
        if k == "adt" and x["adt"] == "struct":
            out = []
            for nm, ft in x["v"][0]["f"]:
                if nm == "len": out.append(n)
                elif nm == "cap": out.append(s.rewrap(cap, ft))
                else: out.append(go(ft))
            return agg(out)
        if k in ("ptr", "ref", "pat"): return p
        return opq("vec part")
    return go(t)

@model("std::vec::from_elem", "alloc::vec::from_elem")
def _(s, f, a, st):
    v, n = a[0], s.asint(a[1])
    t = f["locals"][0]
    st = st.copy()
    o = new_heap(s, st, n, mm("fill", v), targ(s, f), "from_elem")
    s.emit("write_range", st, o=o, pre=(), i=pc(0), n=n)
    return build_vec(s, t, ptr(o, (("x", pc(0)),)), n, n), st

# Growth of a vector. `Vec::with_capacity(n)` is an object of n elements; that it is never outgrown is an obligation ("grow" events, checked
# by core.Result before anything is concluded from the run). A vector made by `Vec::new` grows in place with every push.
def vec_read(s, st, a):
    """(pointer to the vector, its parts as a dictionary) of a `&mut Vec<T>`"""
    q = strip(s, a)
    if not isinstance(q, Ptr): return None
    v = s.read(st, q.o, q.p)
    got = {}
    def go(x, d=0):
        if isinstance(x, Ptr): got.setdefault("p", x)
        elif isinstance(x, Agg):
            for y in x.f: go(y, d + 1)
    go(v)
    if not isinstance(v, Agg) or "p" not in got: return None
    ints = [i for i, x in enumerate(v.f) if isinstance(x, P)]
    if len(ints) != 1: return None
    p = got["p"]
    pre, i = s.normp(p)
    arrv = s.readp(st.st.get(p.o, UNDEF), pre)
    if not isinstance(arrv, Arr): return None
    return q, v, ints[0], p, pre, i, arrv

def vec_new(s, f, a, st, n):
    t = f["locals"][0]; T_ = targ(s, f)
    if s.is_zst(T_): return NotImplemented
    st = st.copy()
    o = new_heap(s, st, n, mm("opaque", "uninit", s.nheap), T_, "with_capacity")
    return build_vec(s, t, ptr(o, (("x", pc(0)),)), pc(0), n), st

@model("std::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T>::with_capacity")
def _(s, f, a, st): return vec_new(s, f, a, st, s.asint(a[0]))
@model("std::vec::Vec::<T, A>::with_capacity_in", "alloc::vec::Vec::<T, A>::with_capacity_in")
def _(s, f, a, st): return vec_new(s, f, a, st, s.asint(a[0]))
@model("std::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::new", "std::vec::Vec::<T, A>::new_in", "alloc::vec::Vec::<T, A>::new_in")
def _(s, f, a, st):
    r = vec_new(s, f, a, st, pc(0))
    return r

def room(s, st, r, len_, more):
    """make room for `more` elements after the first len_"""
    q, v, li, p, pre, i, arrv = r
    if arrv.n is pc(0) or p.o.info == "growing":
        p.o.info = "growing"
        s.write(st, p.o, pre, arr(arrv.m, padd(padd(i, len_), more), arrv.ety), TRUE)
    else:
        s.emit("grow", st, o=p.o, i=padd(i, len_), more=more, n=arrv.n)

@model("std::vec::Vec::<T, A>::push", "alloc::vec::Vec::<T, A>::push")
def _(s, f, a, st):
    r = vec_read(s, st, a[0])
    if r is None: return NotImplemented
    q, v, li, p, pre, i, arrv = r
    n = v.f[li]
    st = st.copy()
    room(s, st, r, n, pc(1))
    s.store(st, [(TRUE, p.o, pre + (("x", padd(i, n)),), None)], a[1], targ(s, f))
    fs = list(v.f); fs[li] = padd(n, pc(1))
    s.write(st, q.o, q.p, agg(fs), TRUE)
    return UNIT, st

@model("std::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "alloc::vec::Vec::<T, A>::reserve_exact")
def _(s, f, a, st):
    r = vec_read(s, st, a[0])
    if r is None: return NotImplemented
    st = st.copy()
    room(s, st, r, r[1].f[r[2]], s.asint(a[1]))
    return UNIT, st

def raw_find(s, st, a):
    """the object behind a `&mut RawVec`: (pointer to the raw vector, object, element path, array)"""
    q = strip(s, a)
    if not isinstance(q, Ptr): return None
    ps = []
    def go(x):
        if isinstance(x, Ptr): ps.append(x)
        elif isinstance(x, Agg):
            for y in x.f: go(y)
    go(s.read(st, q.o, q.p))
    if len(ps) != 1: return None
    pre, i = s.normp(ps[0])
    v = s.readp(st.st.get(ps[0].o, UNDEF), pre)
    return (q, None, None, ps[0], pre, i, v) if isinstance(v, Arr) else None

def rawvec(s, f, args, st):
    p = f["path"]; nm = p.split("::")[-1]
    if nm == "with_capacity_in" and "RawVecInner" in p and len(args) == 3:
        st = st.copy()
        n = s.asint(args[0])
        o = new_heap(s, st, n, mm("opaque", "uninit", s.nheap), None, "with_capacity")
        return build_vec(s, s.dest, ptr(o, (("x", pc(0)),)), n, n), st
    if nm in ("do_reserve_and_handle", "grow_amortized", "grow_exact") and len(args) == 4:
        r = raw_find(s, st, args[0])
        if r is None: return NotImplemented
        st = st.copy()
        room(s, st, r, s.asint(args[1]), s.asint(args[2]))
        return UNIT, st
    if nm in ("drop", "deallocate", "shrink_to_fit", "shrink", "shrink_unchecked"): return UNIT, st
    return NotImplemented
PREFIX.append(("<alloc::raw_vec::", rawvec))
PREFIX.append(("alloc::raw_vec::", rawvec))

# ------------------------------------------------------------------ kernels of the matrixmultiply crate
def kernel(s, f, args, st):
    nm = f["path"].split("::")[-1]
    if nm in ("sgemm", "dgemm", "cgemm", "zgemm"):
        st = st.copy()
        cp = args[-3]
        after = []
        s.emit("kernel", st, name=nm, args=list(args), after=after)
        cptr = strip(s, cp)
        while isinstance(cptr, Opq) and cptr.why == "ptrcast": cptr = cptr.a[0]
        for c, q in s.targets(cptr):
            pre, i = s.normp(q)
            v = s.readp(st.st.get(q.o, UNDEF), pre)
            if isinstance(v, Arr):
                k = mm("opaque", nm, v.m, tuple(x for x in args)); after.append((c, q.o, k))
                s.write(st, q.o, pre, arr(k, v.n, v.ety), c)
            else: s.write(st, q.o, pre, opq("kernel"), c)
        return UNIT, st
    return NotImplemented
PREFIX.append(("matrixmultiply::", kernel))

# ------------------------------------------------------------------ formatting (only used for panic messages)
def pure_opaque(s, f, args, st): return opq("fmt"), st
for p in ("core::fmt::", "std::fmt::", "alloc::fmt::"): PREFIX.append((p, pure_opaque))
PREFIX.append(("hh_roots::opaque_", opaque_fn))

# ------------------------------------------------------------------ random numbers
def thread_rng(s, f, args, st):
    s.emit("thread_rng", st)
    return opq("thread_rng"), st
PREFIX.append(("rand::thread_rng", thread_rng))
PREFIX.append(("rand::rngs::thread::thread_rng", thread_rng))

def normal(s, f, args, st):
    """A draw from the standard normal distribution. A generator of the entry point's own type Gen { n } counts its draws: the k-th draw
    is an uninterpreted function of k. Draws from any other generator are arbitrary numbers; they have no other effect."""
    if not f["path"].endswith("::sample") or len(args) < 2: return NotImplemented
    m = re.search(r"Distribution<(\w+)>", f["path"])
    if not m or m.group(1) not in ("f32", "f64"): return NotImplemented
    bits = int(m.group(1)[1:])
    r = args[1]
    for _ in range(4):
        r = strip(s, r)
        if not isinstance(r, Ptr): break
        v = s.read(st, r.o, r.p)
        if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], P):
            n = v.f[0]
            st = st.copy()
            s.write(st, r.o, r.p, agg([padd(n, pc(1))]), TRUE)
            s.emit("draw", st, n=n)
            return tm("app", "normal.f%d" % bits, n), st
        if isinstance(v, P):
            st = st.copy()
            s.write(st, r.o, r.p, padd(v, pc(1)), TRUE)
            s.emit("draw", st, n=v)
            return tm("app", "normal.f%d" % bits, v), st
        r = v
    s.emit("draw", st)
    return opq("random number"), st
PREFIX.append(("<rand_distr::normal::StandardNormal as", normal))
PREFIX.append(("<rand_distr::StandardNormal as", normal))

# ------------------------------------------------------------------ the C math library: functions of their arguments
def libm(name, bits):
    def h(s, f, args, st):
        if not all(isinstance(strip(s, a), T) for a in args): return NotImplemented
        return tm("app", "%s.%d" % (name, bits), *[s.asfloat(a) for a in args]), st
    return h
for _n in ("atan2", "hypot", "pow", "fmod", "fdim"):
    for _p in ("std::sys::cmath::", "std::sys::pal::unix::cmath::", "core::num::libm::", "std::sys::cmath::{extern#0}::", ""):
        MODELS[_p + _n] = libm(_n, 64); MODELS[_p + _n + "f"] = libm(_n, 32)
for _n in ("atan", "acos", "asin", "tan", "cosh", "sinh", "tanh", "expm1", "log1p", "cbrt"):
    for _p in ("std::sys::cmath::", "std::sys::cmath::{extern#0}::", "core::num::libm::", ""):
        MODELS[_p + _n] = libm(_n, 64); MODELS[_p + _n + "f"] = libm(_n, 32)
