"""C17: raw slices and containers expose exactly the stored elements."""
from ..core import *
from ..lay import *
from ..exprs import *
from .c13 import base

LEVEL = "proof"
PRE = PRELUDE
F = "src/data_container.rs"
U = "usize"

class Cont:
    """name, parameters, expression, number of elements (of R), mutable"""
    def __init__(s, name, ps, e, n, mut, N=None): s.name = name; s.ps = ps; s.e = e; s.n = n; s.mut = mut; s.N = N
def conts(it):
    yield Cont("sl", [("x", "&[%s]" % it)], "SliceContainer::<%s>::new(x)" % it, lambda R: R.len("x"), False)
    yield Cont("slm", [("x", "&mut [%s]" % it)], "SliceContainerMut::<%s>::new(x)" % it, lambda R: R.len("x"), True)
    yield Cont("vec", [("x", "VectorContainer<%s>" % it)], "x", lambda R: R.len("x"), True)
    for N in (1, 4, 6): yield Cont("arr%d" % N, [("x", "ArrayContainer<%s, %d>" % (it, N))], "x", lambda R, N=N: pc(N), True, N)
class MatC(Cont):
    pass
def mats(it):
    for i, l in enumerate(ALL):
        st = ("slice", "mut", "vec")[i % 3]
        for s in {st, "mut"}:
            ps, e = mat(l, "", it, s)
            c = Cont("mat_%s_%s" % (l.key, s), ps, e, lambda R: R.len("x"), s != "slice")
            c.ok = lambda R, l=l: built(R, l)
            yield c
    for l, r, c_ in (("RM", 2, 3), ("CM", 2, 2)):
        ps, e = mat(LAYS[l], "", it, "arr", "Fixed%d" % r, "Fixed%d" % c_, r * c_)
        c = Cont("mat_%s_arr" % l, [p for p in ps if p[0] == "x"], e.replace("(m, n)", "(%d, %d)" % (r, c_)), lambda R, N=r * c_: pc(N), True, r * c_)
        yield c

def upd(R, t, i, v, it):
    """contents at t after v was stored at i"""
    return vite(b_eq(t, i), v, pick(R, "x", t, it))

def roots():
    out = []
    for it in ("f64", "c32", "f32", "c64"):
        for k in list(conts(it)) + (list(mats(it)) if it in ("f64", "c32") else []):
            ism = k.name.startswith("mat_"); an = "src/matrix/base_methods.rs" if ism else F
            deep = it in ("f32", "c64") and k.name not in ("vec", "slm") or it == "c32" and ism and k.name.split("_")[1] not in ("RM", "ASCM", "UT")
            ok = getattr(k, "ok", lambda R: TRUE)
            nm = lambda s: "%s_%s_%s" % (s, k.name, it)
            body = lambda x: "    let mut z = %s;\n    %s" % (k.e, x)
            def add(n, ps, ret, b, f, an=an): out.append(Root(nm(n), k.ps + ps, ret, body(b), f, an, deep=deep))
            num = lambda R, k=k: k.n(R)
            if not ism:
                def f(R, k=k):
                    R.accept("the number of elements is reported", TRUE)
                    R.eq("the number of elements is that of the storage", TRUE, R.val, k.n(R))
                add("num", [], U, "z.number_of_elements()", f)
                def f(R, k=k, it=it):
                    i = R.v("i"); h = b_ult(i, k.n(R))
                    R.eq("unchecked access yields element i", h, R.val, pick(R, "x", i, it))
                    R.accept("unchecked access", h)
                add("getu", [("i", U)], it, "unsafe { z.get_unchecked(i) }", f)
            def f(R, k=k, it=it, ok=ok):
                i = R.v("i"); h = band(ok(R), b_ult(i, k.n(R)))
                R.eq("the i-th element from the base pointer is element i of the storage", h, R.val, pick(R, "x", i, it))
                R.accept("the base pointer is handed out", h)
            add("ptr", [("i", U)], it, "unsafe { *z.get_pointer().add(i) }", f)
            if k.N is None and not ism:
                for n, m in (("get_pointer", "const"), ("get_pointer_mut", "mut"))[: 2 if k.mut else 1]:
                    def f(R, k=k):
                        if R.blocked("pointer"): return
                        for c, o, i in base(R, R.val):
                            if o is not R.obj("x"): R.need("the base pointer designates the storage", c, FALSE)
                            else: R.eq("the base pointer designates the first element", c, i, pc(0))
                    add(n, [], "*%s %s" % (m, it), "z.%s()" % n, f)
            def f(R, k=k, it=it, ok=ok):
                a, b, i = R.v("a"), R.v("b"), R.v("i"); n = k.n(R); h = ok(R)
                good = bands(h, b_ult(a, b), b_ule(b, n))
                R.accept("a slice request inside the storage is accepted", good)
                R.reject("an empty or reversed slice request is refused", band(h, b_ule(b, a)))
                R.reject("a slice request reaching beyond the storage is refused", band(h, b_ult(n, b)))
                if R.blocked("slice"): return
                R.eq("the slice has last - first elements", good, R.val, psub(b, a))
            for n in ("get_slice", "get_slice_mut")[: 2 if k.mut else 1]:
                add("len_" + n, [("a", U), ("b", U), ("i", U)], U, "z.%s(a, b).len()" % n, f)
                def g(R, k=k, it=it, ok=ok):
                    a, b, i = R.v("a"), R.v("b"), R.v("i"); n = k.n(R)
                    h = bands(ok(R), b_ult(a, b), b_ule(b, n), b_ult(i, psub(b, a)))
                    R.accept("the slice has an i-th element", h)
                    R.eq("the i-th element of the slice is element first + i of the storage", h, R.val, pick(R, "x", padd(a, i), it))
                add("at_" + n, [("a", U), ("b", U), ("i", U)], it, "z.%s(a, b)[i]" % n, g)
            if k.mut:
                def f(R, k=k, it=it, ok=ok):
                    a, b, i, t = R.v("a"), R.v("b"), R.v("i"), R.v("t"); n = k.n(R)
                    h = bands(ok(R), b_ult(a, b), b_ule(b, n), b_ult(i, psub(b, a)), b_ult(t, n))
                    R.eq("writing the i-th element of the slice writes element first + i of the storage", h, R.val, upd(R, t, padd(a, i), R.v("v"), it))
                add("wslice", [("a", U), ("b", U), ("i", U), ("t", U), ("v", it)], it, "z.get_slice_mut(a, b)[i] = v;\n    unsafe { *z.get_pointer().add(t) }", f)
                def f(R, k=k, it=it, ok=ok):
                    i, t = R.v("i"), R.v("t"); n = k.n(R)
                    h = bands(ok(R), b_ult(i, n), b_ult(t, n))
                    R.eq("writing through the base pointer writes element i", h, R.val, upd(R, t, i, R.v("v"), it))
                add("wptr", [("i", U), ("t", U), ("v", it)], it, "unsafe { *z.get_pointer_mut().add(i) = v; *z.get_pointer().add(t) }", f)
                if not ism:
                    def f(R, k=k, it=it, ok=ok):
                        i, t = R.v("i"), R.v("t"); n = k.n(R)
                        h = bands(b_ult(i, n), b_ult(t, n))
                        R.eq("writing by unchecked access writes element i", h, R.val, upd(R, t, i, R.v("v"), it))
                    add("wget", [("i", U), ("t", U), ("v", it)], it, "unsafe { *z.get_unchecked_mut(i) = v; z.get_unchecked(t) }", f)
        # new containers are zero
        z = fc(0.0, BITS[it]); z = agg([z, z]) if cplx(it) else z
        def f(R, z=z):
            n, t = R.v("n"), R.v("t")
            R.eq("a new container holds the requested number of elements", TRUE, R.val.f[0], n) if not R.blocked("new") else None
            R.eq("a new container is zero", b_ult(t, n), R.val.f[1], z) if not R.err else None
        out.append(Root("new_vec_" + it, [("n", U), ("t", U)], "(usize, %s)" % it, "    let z = VectorContainer::<%s>::new(n);\n    (z.number_of_elements(), unsafe { *z.get_pointer().add(t) })" % it, f, F))
        for N in (0, 1, 4, 9):
            for e in ("new", "default"):
                def f(R, z=z, N=N):
                    t = R.v("t")
                    if R.blocked("new"): return
                    R.eq("a new container holds the requested number of elements", TRUE, R.val.f[0], pc(N))
                    if N: R.eq("a new container is zero", b_ult(t, pc(N)), R.val.f[1], z)
                out.append(Root("%s_arr%d_%s" % (e, N, it), [("t", U)], "(usize, %s)" % it, "    let z = ArrayContainer::<%s, %d>::%s();\n    (z.number_of_elements(), %s)" % (
                    it, N, e, "unsafe { *z.get_pointer().add(t) }" if N else "unsafe { std::mem::zeroed() }"), f, F))
    return out
