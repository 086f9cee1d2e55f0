"""C03: the 1d numbering and the (row, col) numbering of a layout agree."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE
NOTE = "Upper triangular storage is decided under C18."

def roots():
    out = []
    def valid(R, q): return bands(q.ctor_ok(), q.countok())
    for l in STRIDED:
        c = l.ctor()
        f = lfile(l)
        def to2(R, l=l):
            q = l.of(R); k = R.v("k"); h = band(valid(R, q), b_ult(k, q.nel()))
            R.eq("position of the k-th element", h, R.val, agg(list(q.to2(k))))
            R.accept("conversion of a valid 1d index completes", h)
        out.append(Root("to2_" + l.key, l.params() + [("k", "usize")], "(usize, usize)", "    %s.convert_1d_2d(k)" % c, to2, f + " convert_1d_2d"))
        def to1(R, l=l):
            q = l.of(R); i, j = R.v("i"), R.v("j"); m, n = q.dim()
            h = bands(valid(R, q), b_ult(i, m), b_ult(j, n))
            R.eq("1d index of element (i, j)", h, R.val, q.to1(i, j))
            R.accept("conversion of a valid position completes", h)
            R.need("1d index of element (i, j) is below the number of elements", h, b_ult(R.val, q.nel()) if not R.err else TRUE)
        out.append(Root("to1_" + l.key, l.params() + [("i", "usize"), ("j", "usize")], "usize", "    %s.convert_2d_1d(i, j)" % c, to1, f + " convert_2d_1d"))
        def rt(R, l=l):
            q = l.of(R); k = R.v("k"); h = band(valid(R, q), b_ult(k, q.nel()))
            R.eq("converting a 1d index to (row, col) and back returns it", h, R.val, k)
        out.append(Root("rt_" + l.key, l.params() + [("k", "usize")], "usize", "    let a = %s;\n    let (i, j) = a.convert_1d_2d(k);\n    a.convert_2d_1d(i, j)" % c, rt, f))
        def rt2(R, l=l):
            q = l.of(R); i, j = R.v("i"), R.v("j"); m, n = q.dim()
            h = bands(valid(R, q), b_ult(i, m), b_ult(j, n))
            R.eq("converting (row, col) to a 1d index and back returns it", h, R.val, agg([i, j]))
        out.append(Root("rt2_" + l.key, l.params() + [("i", "usize"), ("j", "usize")], "(usize, usize)", "    let a = %s;\n    let k = a.convert_2d_1d(i, j);\n    a.convert_1d_2d(k)" % c, rt2, f))
        def raw(R, l=l):
            q = l.of(R); k = R.v("k"); h = band(valid(R, q), b_ult(k, q.nel()))
            R.eq("memory position of the k-th element is that of its (row, col)", h, R.val, q.raw(*q.to2(k)))
            R.accept("memory position of the k-th element is computed", h)
        out.append(Root("raw1_" + l.key, l.params() + [("k", "usize")], "usize", "    %s.convert_1d_raw(k)" % c, raw, f + " convert_1d_raw"))
        def own(R, l=l):
            q = l.of(R)
            R.eq("dimension and number of elements", valid(R, q), R.val, agg([agg(list(q.dim())), q.nel()]))
            R.accept("dimension and number of elements are computed", valid(R, q))
        out.append(Root("own_" + l.key, l.params(), "((usize, usize), usize)", "    let a = %s;\n    (a.dim(), a.number_of_elements())" % c, own, f + " dim"))
        I = LAYS[l.index]
        def idx(R, l=l):
            q = l.of(R)
            R.eq("the index layout has the same dimension and number of elements", valid(R, q), R.val, agg([agg(list(q.dim())), q.nel()]))
            R.accept("the index layout is built", valid(R, q))
        out.append(Root("idx_" + l.key, l.params(), "((usize, usize), usize)", "    let a: %s = %s.index_layout();\n    (a.dim(), a.number_of_elements())" % (I.ty, c), idx, f + " index_layout"))
        def idxto(R, l=l):
            q = l.of(R); k = R.v("k"); h = band(valid(R, q), b_ult(k, q.nel()))
            R.eq("the index layout numbers the elements in the same order", h, R.val, agg(list(q.to2(k))))
        out.append(Root("idxto_" + l.key, l.params() + [("k", "usize")], "(usize, usize)", "    %s.index_layout().convert_1d_2d(k)" % c, idxto, f + " index_layout"))
        def idxraw(R, l=l):
            q = l.of(R); k = R.v("k"); h = band(valid(R, q), b_ult(k, q.nel()))
            R.eq("the index layout stores the elements in this order without gaps", h, R.val, k)
        out.append(Root("idxraw_" + l.key, l.params() + [("k", "usize")], "usize", "    %s.index_layout().convert_1d_raw(k)" % c, idxraw, f + " index_layout"))
        for st in ("slice", "mut", "vec"):
            e = Leaf(l, store=st)
            def g1(R, l=l, e=e):
                q = l.of(R); k = R.v("k"); h = band(e.built(R), b_ult(k, q.nel()))
                R.eq("get1d(k) is the element at the (row, col) of index k", h, R.val, e.at(R, *q.to2(k)))
            out.append(Root("get1d_%s_%s" % (l.key, st), e.params() + [("k", "usize")], "f64", "    %s.get1d(k)" % e.e, g1, "src/base_matrix.rs get1d_unchecked", deep=st == "vec"))
        e = Leaf(l, store="mut")
        def s1(R, l=l, e=e):
            q = l.of(R); k, p = R.v("k"), R.v("p"); h = bands(e.built(R), b_ult(k, q.nel()), b_ult(p, R.len("x")))
            if R.blocked("write"): return
            R.eq("write by 1d index k changes exactly the element at its (row, col)", h, R.at(R.final("x").m, p), vite(b_eq(p, q.raw(*q.to2(k))), R.v("v"), R.elem("x", p)))
        out.append(Root("set1d_" + l.key, e.params() + [("k", "usize"), ("v", "f64"), ("p", "usize")], "()", "    let mut a = %s;\n    *a.get1d_mut(k) = v;" % e.e, s1, "src/base_matrix.rs get1d_unchecked_mut"))
        def meth(R, e=e):
            R.eq("dim() and layout() of a matrix report its layout's dimension", e.built(R), R.val, agg([agg(list(e.dim(R))), e.nel(R)]))
        e2 = Leaf(l)
        out.append(Root("mdim_" + l.key, e2.params(), "((usize, usize), usize)", "    let a = %s;\n    (a.dim(), a.layout().number_of_elements())" % e2.e, lambda R, e=e2: meth(R, e), "src/matrix/common_impl.rs dim"))
    return out + [r.single() for r in out if any(t.endswith("[f64]") for _, t in r.params)]
