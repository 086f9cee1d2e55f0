"""C18: packed upper triangular storage is addressed bijectively."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE
F = "src/layouts/upper_triangular.rs"
U = "usize"
L = LAYS["UT"]
ASSUME = ["f64 arithmetic rounds to nearest with 53 bits (IEEE 754)"]

def roots():
    out = []
    N = [("n", U)]; IJ = [("i", U), ("j", U)]
    q = lambda R: L.of(R)
    size = lambda R: b_ult(R.v("n"), pc(1 << 32))
    inside = lambda R, i="i", j="j": bands(size(R), b_ule(R.v(i), R.v(j)), b_ult(R.v(j), R.v("n")))
    LY = "UpperTriangular::new(n)"
    def add(nm, ps, ret, body, f, an=F, deep=False): out.append(Root(nm, ps, ret, "    " + body, f, an, deep=deep))

    def f(R):
        n = R.v("n")
        R.accept("the number of elements is reported", size(R))
        if R.blocked("nel"): return
        R.eq("the storage holds n(n+1)/2 elements", size(R), R.val, p_udiv(pmul(n, padd(n, ONE)), pc(2)))
    add("nel", N, U, LY + ".number_of_elements()", f)
    def f(R):
        R.eq("the dimension is (n, n)", TRUE, R.val, agg([R.v("n"), R.v("n")]))
    add("dim", N, "(usize, usize)", LY + ".dim()", f)
    for m in ("convert_2d_1d", "convert_2d_raw"):
        def f(R):
            n, i, j = R.v("n"), R.v("i"), R.v("j")
            h = inside(R)
            R.accept("elements on and above the diagonal have a position", h)
            R.reject("elements below the diagonal have none", bands(size(R), b_ult(i, n), b_ult(j, n), b_ult(j, i)))
            if R.blocked("position"): return
            R.need("the position lies in the storage", h, b_ult(R.val, q(R).nel()))
            R.eq("the position counts the elements from the last row up", h, R.val, q(R).to1(i, j))
            d = psub(n, i)
            # twice the position, free of divisions
            R.eq("the position counts the elements from the last row up (doubled)", h, pscale(R.val, 2), padd(pmul(d, psub(d, ONE)), pscale(psub(j, i), 2)))
        add("pos_" + m, N + IJ, U, LY + ".%s(i, j)" % m, f)
        def f(R):
            n, i, j, k, l = (R.v(x) for x in "nijkl")
            if R.blocked("position"): return
            h = bands(inside(R), inside(R, "k", "l"))
            a, b = R.val.f
            R.need("a row above comes after all elements of the rows below it", band(h, b_ult(i, k)), b_ult(b, a))
            R.need("elements of a row are stored from left to right", bands(h, b_eq(i, k), b_ult(j, l)), b_eq(psub(b, a), psub(l, j)))
            R.need("different elements have different positions", bands(h, b_eq(a, b)), band(b_eq(i, k), b_eq(j, l)))
        add("inj_" + m, N + IJ + [("k", U), ("l", U)], "(usize, usize)", "let x = %s;\n    (x.%s(i, j), x.%s(k, l))" % (LY, m, m), f)
    def f(R): R.eq("the 1d index is the position in the storage", TRUE, R.val, R.v("k"))
    add("raw", N + [("k", U)], U, LY + ".convert_1d_raw(k)", f)
    def f(R):
        n, k = R.v("n"), R.v("k")
        h = band(size(R), b_ult(k, q(R).nel()))
        R.accept("every position belongs to an element", h)
        if R.blocked("element"): return
        i, j = R.val.f
        R.need("the element of a position lies in the matrix", h, b_ult(j, n))
        R.need("the element of a position lies on or above the diagonal", h, b_ule(i, j))
        R.eq("the element of a position has this position", h, q(R).to1(i, j), k)
    add("elem", N + [("k", U)], "(usize, usize)", LY + ".convert_1d_2d(k)", f)
    def f(R):
        n, k = R.v("n"), R.v("k")
        h = band(size(R), b_ult(k, q(R).nel()))
        R.accept("every position can be converted and back", h)
        R.eq("converting a position to an element and back yields the position", h, R.val, k)
    add("round1", N + [("k", U)], U, "let x = %s;\n    let (i, j) = x.convert_1d_2d(k);\n    x.convert_2d_1d(i, j)" % LY, f)
    def f(R):
        n, i, j = R.v("n"), R.v("i"), R.v("j")
        h = inside(R)
        R.accept("every element can be converted and back", h)
        if R.blocked("element"): return
        a, b = R.val.f
        R.eq("converting an element to a position and back yields its row", h, a, i)
        R.eq("converting an element to a position and back yields its column (given its row)", band(h, b_eq(a, i)), b, j)
    add("round2", N + IJ, "(usize, usize)", "let x = %s;\n    let k = x.convert_2d_1d(i, j);\n    x.convert_1d_2d(k)" % LY, f)
    def f(R):
        m, n = R.v("m"), R.v("n")
        R.reject("different row and column numbers are refused", bnot(b_eq(m, n)))
        R.accept("equal row and column numbers are accepted", b_eq(m, n))
        if R.blocked("dim"): return
        R.eq("the dimension is the requested one", b_eq(m, n), R.val, agg([m, n]))
    add("from_dim", [("m", U), ("n", U)], "(usize, usize)", "UpperTriangular::from_dimension((m, n)).dim()", f)
    def f(R):
        n, i, j = R.v("n"), R.v("i"), R.v("j")
        R.accept("the index layout orders the elements like the storage", inside(R))
        if R.blocked("index layout"): return
        R.eq("the index layout orders the elements like the storage", inside(R), R.val, agg([q(R).to1(i, j), agg([n, n])]))
    add("index_layout", N + IJ, "(usize, (usize, usize))", "let x = %s;\n    let y = x.index_layout();\n    (y.convert_2d_1d(i, j), y.dim())" % LY, f)
    # through matrices
    for st in ("slice", "mut", "vec"):
        e = Leaf("UT", store=st)
        def f(R, e=e):
            i, j = R.v("i"), R.v("j"); n = R.v("n")
            h = e.built(R)
            R.reject("access below the diagonal is refused", bands(h, b_ult(i, n), b_ult(j, i)))
            R.accept("access on and above the diagonal is accepted", band(h, inside(R)))
            R.eq("element (i, j) is read from its position", band(h, inside(R)), R.val, e.at(R, i, j))
            R.bounded("the access stays inside the storage", h)
        add("get_" + st, e.params() + IJ, "f64", "let z = %s;\n    z.get(i, j)" % e.e, f, "src/base_matrix.rs")
        def f(R, e=e):
            i, j, k = R.v("i"), R.v("j"), R.v("k"); n = R.v("n")
            h = bands(e.built(R), inside(R))
            if R.blocked("k"): return
            R.eq("one-dimensional access walks the storage", bands(e.built(R), b_ult(k, L.of(R).nel())), R.val, pick(R, "x", k, "f64"))
        add("get1_" + st, e.params() + IJ + [("k", U)], "f64", "let z = %s;\n    z.get1d(k)" % e.e, f, "src/base_matrix.rs")
    for st in ("mut", "vec"):
        e = Leaf("UT", store=st)
        def f(R, e=e):
            i, j, k, l = (R.v(x) for x in "ijkl"); n = R.v("n")
            h = bands(e.built(R), inside(R), inside(R, "k", "l"))
            R.eq("writing one element changes this element only", h, R.val, vite(band(b_eq(i, k), b_eq(j, l)), R.v("v"), e.at(R, k, l)))
        add("set_" + st, e.params() + IJ + [("k", U), ("l", U), ("v", "f64")], "f64", "let mut z = %s;\n    *z.get_mut(i, j) = v;\n    z.get(k, l)" % e.e, f, "src/base_matrix.rs")
        def f(R, e=e):
            i, j = R.v("i"), R.v("j"); n = R.v("n")
            R.reject("writing below the diagonal is refused", bands(e.built(R), b_ult(i, n), b_ult(j, i)))
        add("setbelow_" + st, e.params() + IJ + [("v", "f64")], "()", "let mut z = %s;\n    *z.get_mut(i, j) = v;" % e.e, f, "src/base_matrix.rs")
    return out
