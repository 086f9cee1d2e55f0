"""C24: wrapping a matrix in a reference changes nothing but ownership.

Rule: every observation through MatrixRef and MatrixRefMut (dimension, layout, size tags, elements by
all four kinds of access) has the normal form of the observation of the wrapped matrix itself; a
write through MatrixRefMut changes exactly that element of the wrapped matrix' storage."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE + """
fn tags<T: SizeType>(_t: &T) -> (usize, usize) where T::R: SizeIdentifier, T::C: SizeIdentifier { (<T::R as SizeIdentifier>::N, <T::C as SizeIdentifier>::N) }
"""
F = "src/matrix_ref.rs"
U = "usize"

def wrapped(item="f64"):
    """(name, expression of the wrapper as matrix, mutable, deep)"""
    for l in ALL:
        yield "ref_" + l.key, Ref(Leaf(l, item=item)), False, False
        yield "mut_" + l.key, RefMut(Leaf(l, store="mut", item=item)), True, False
    if item != "f64": return
    for k in ("RM", "ASCM", "CV", "UT"):
        yield "refref_" + k, Ref(Ref(Leaf(k))), False, False
        yield "mutmut_" + k, RefMut(RefMut(Leaf(k, store="mut"))), True, False
        yield "refmut_" + k, Ref(RefMut(Leaf(k, store="vec"))), False, True
    yield "refscale", Ref(Scale(Leaf("RM"), "s", "lr")), False, False
    yield "scaleref", Scale(Ref(Leaf("ASRM")), "s", "rv"), False, False
    yield "sumrefs", Sum(Ref(Leaf("RM", "a")), Ref(Leaf("ASRM", "b")), "vv"), False, False
    yield "summut", Sum(RefMut(Leaf("CM", "a", store="mut")), Ref(Leaf("ASCM", "b")), "rv"), False, False
    yield "refsum", Ref(Sum(Leaf("CV", "a"), Leaf("ASCV", "b"), "rr")), False, False
    yield "fixed", Ref(Leaf("RM", store="arr", N=6, rs="Fixed2", cs="Fixed3")), False, False
    yield "fixedmut", RefMut(Leaf("CM", store="arr", N=6, rs="Fixed2", cs="Fixed3")), True, False

def fixdim(e, R):
    h = TRUE
    for x in e.leaves():
        for t, d in ((x.rs, x.dim(R)[0]), (x.cs, x.dim(R)[1])):
            if t in ("Fixed2", "Fixed3"): h = band(h, b_eq(d, pc(int(t[-1]))))
    return h
def tagn(t): return int(t[-1]) if t.startswith("Fixed") else 0

def roots():
    out = []
    for item in ("f64", "c64", "f32", "c32"):
        for nm, e, mutable, deep in wrapped(item):
            if item != "f64": nm += "_" + item
            if item in ("f32", "c32"): deep = True
            x = e.leaves()[0]
            hyp = lambda R, e=e: band(okay(e, R), fixdim(e, R))
            body = lambda s, e=e: "    %s\n    let mut z = %s;\n    %s" % ("\n    ".join(e.lets), e.e, s)
            add = lambda k, ps, ret, b, f, deep=deep, e=e, nm=nm: out.append(Root("%s_%s" % (k, nm), e.params() + ps, ret, body(b), f, F, deep=deep))
            ix = [("i", U), ("j", U)]
            def f(R, e=e, x=x, hyp=hyp):
                R.accept("the wrapper is made and observed", hyp(R))
                R.eq("the wrapper has the dimension of the matrix", hyp(R), R.val, agg([agg(list(e.dim(R))), e.nel(R)]))
            add("dim", [], "((usize, usize), usize)", "(z.dim(), z.layout().number_of_elements())", f)
            def f(R, x=x, hyp=hyp):
                R.eq("the wrapper has the size tags of the matrix", hyp(R), R.val, agg([pc(tagn(x.rs)), pc(tagn(x.cs))]))
            add("tags", [], "(usize, usize)", "tags(&z)", f)
            single = len(e.leaves()) == 1
            if single:
                q = lambda R, x=x: x.l.of(R, x.x)
                ty = x.l.ty
                def f(R, e=e, q=q, hyp=hyp, x=x):
                    i, j, k = R.v("i"), R.v("j"), R.v("k")
                    h = bands(hyp(R), inb(e, R, i, j), b_ult(k, e.nel(R)))
                    R.eq("the wrapper's layout is the matrix' layout", h, R.val, agg([q(R).raw(i, j), q(R).to1(i, j), q(R).raw1(k)] + ([agg(list(q(R).to2(k)))] if x.l.key != "UT" else [])))
                add("layout", ix + [("k", U)], "(usize, usize, usize%s)" % (", (usize, usize)" if x.l.key != "UT" else ""), "let l: &%s = z.layout(); (l.convert_2d_raw(i, j), l.convert_2d_1d(i, j), l.convert_1d_raw(k)%s)" % (
                    ty, ", l.convert_1d_2d(k)" if x.l.key != "UT" else ""), f)
            for acc, two in (("get", 1), ("get1d", 0), ("get_unchecked", 1), ("get1d_unchecked", 0)):
                def f(R, e=e, two=two, hyp=hyp):
                    if two: i, j = R.v("i"), R.v("j"); h = band(hyp(R), inb(e, R, i, j)); w = lambda: e.at(R, i, j)
                    else: k = R.v("k"); h = band(hyp(R), b_ult(k, e.nel(R))); w = lambda: e.at1(R, k)
                    if R.blocked("access"): return
                    R.eq("an element of the wrapper is the element of the matrix", h, R.val, w())
                    R.accept("an element of the matrix is accessible through the wrapper", h)
                c = "z.%s(%s)" % (acc, "i, j" if two else "k")
                add(acc, ix if two else [("k", U)], item, "unsafe { %s }" % c if "unch" in acc else c, f)
            if mutable:
                nx = x.x + "x"
                for acc, two in (("get_mut", 1), ("get1d_mut", 0), ("get_unchecked_mut", 1), ("get1d_unchecked_mut", 0)):
                    if x.N: 
                        def f(R, e=e, two=two, hyp=hyp, x=x, nx=nx, item=item):
                            if two: i, j = R.v("i"), R.v("j"); h = band(hyp(R), inb(e, R, i, j)); p = x.l.of(R, x.x).raw(i, j)
                            else: k = R.v("k"); h = band(hyp(R), b_ult(k, e.nel(R))); p = x.l.of(R, x.x).raw1(k)
                            R.accept("an element of the matrix is writable through the wrapper", h)
                        ps = []; ret = "()"; post = ""
                    else:
                        def f(R, e=e, two=two, hyp=hyp, x=x, nx=nx, item=item):
                            if two: i, j = R.v("i"), R.v("j"); h = band(hyp(R), inb(e, R, i, j)); p = x.l.of(R, x.x).raw(i, j)
                            else: k = R.v("k"); h = band(hyp(R), b_ult(k, e.nel(R))); p = x.l.of(R, x.x).raw1(k)
                            R.accept("an element of the matrix is writable through the wrapper", h)
                            if R.blocked("write"): return
                            t = R.v("t"); h = band(h, b_ult(t, R.len(nx)))
                            fin = R.final(nx).m; b = BITS[item]
                            now = agg([sel_leaf(fin, t, (0,), ("f", b)), sel_leaf(fin, t, (1,), ("f", b))]) if cplx(item) else sel_leaf(fin, t, (), ("f", b))
                            R.eq("a write through the wrapper changes exactly that element of the matrix", h, now, vite(b_eq(t, p), R.v("v"), pick(R, nx, t, item)))
                        ps = [("t", U)]
                    if x.store == "vec":        # an owned storage has no contents after the call: look before the drop
                        continue
                    c = "z.%s(%s)" % (acc, "i, j" if two else "k")
                    add(acc, (ix if two else [("k", U)]) + [("v", item)] + ps, "()", ("unsafe { *%s = v; }" if "unch" in acc else "*%s = v;") % c, f)
    return out
