"""C08: splitting a matrix in four yields an exact partition."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE
PARTS = ("a", "b", "c", "d")
NOTE = ("Part p covers rows [r0, r0+h) and columns [c0, c0+w) of the parent; the four rectangles partition the index set by construction of the oracle, "
        "so exact addressing and exact dimensions of each part give the partition.")

def part(k, m, n, r, c):
    """(row origin, column origin, rows, columns)"""
    o = [(pc(0), pc(0), r, c), (pc(0), c, r, psub(n, c)), (r, pc(0), psub(m, r), c), (r, c, psub(m, r), psub(n, c))]
    return o[k]

def roots():
    out = []
    f = "src/matrix/matrix_slices.rs split_in_four_mut"
    for st in ("mut", "vec"):
        e = Leaf("RM", store=st)
        sp = e.params() + [("r", "usize"), ("c", "usize")]
        pre = "    let mut x0 = %s;\n    let (mut a, mut b, mut c4, mut d) = x0.split_in_four_mut((r, c));\n    let mut c = c4;\n" % e.e
        def ok(R, e=e):
            q = e.l.of(R); m, n = q.dim()
            return bands(e.built(R), b_ule(R.v("r"), m), b_ule(R.v("c"), n))
        def chk(R, e=e, ok=ok):
            q = e.l.of(R); m, n = q.dim()
            R.reject("a split position outside the matrix panics", band(e.built(R), bnot(ok(R))))
            R.accept("a split position inside the matrix is accepted", ok(R))
            want = [agg(list(part(k, m, n, R.v("r"), R.v("c"))[2:])) for k in range(4)]
            R.eq("dimensions of the upper left, upper right, lower left, lower right part", ok(R), R.val, agg(want))
        out.append(Root("split_" + st, sp, "((usize, usize), (usize, usize), (usize, usize), (usize, usize))", pre + "    (a.dim(), b.dim(), c.dim(), d.dim())", chk, f))
        for k, p in enumerate(PARTS):
            def g(R, k=k, e=e, ok=ok):
                q = e.l.of(R); m, n = q.dim(); i, j = R.v("i"), R.v("j")
                r0, c0, h, w = part(k, m, n, R.v("r"), R.v("c"))
                hyp = bands(ok(R), b_ult(i, h), b_ult(j, w))
                R.eq("element (i, j) of part %d" % k, hyp, R.val, pick(R, "x", q.raw(padd(r0, i), padd(c0, j)), "f64"))
                R.accept("element (i, j) of part %d can be read" % k, hyp)
            out.append(Root("get_%s_%s" % (st, p), sp + [("i", "usize"), ("j", "usize")], "f64", pre + "    %s.get(i, j)" % p, g, f, deep=st == "vec" and p != "c"))
            def g1(R, k=k, e=e, ok=ok):
                q = e.l.of(R); m, n = q.dim(); i = R.v("i")
                r0, c0, h, w = part(k, m, n, R.v("r"), R.v("c"))
                hyp = bands(ok(R), b_ult(i, pmul(h, w)))
                R.eq("element i of part %d in its row by row order" % k, hyp, R.val, pick(R, "x", q.raw(padd(r0, p_udiv(i, w)), padd(c0, p_umod(i, w))), "f64"))
            out.append(Root("get1d_%s_%s" % (st, p), sp + [("i", "usize")], "f64", pre + "    %s.get1d(i)" % p, g1, f, deep=st == "vec"))
            def s2(R, k=k, e=e, ok=ok):
                q = e.l.of(R); m, n = q.dim(); i, j, t = R.v("i"), R.v("j"), R.v("t")
                r0, c0, h, w = part(k, m, n, R.v("r"), R.v("c"))
                hyp = bands(ok(R), b_ult(i, h), b_ult(j, w), b_ult(t, R.len("x")))
                if R.blocked("write"): return
                R.eq("a write to (i, j) of part %d changes exactly that element of the matrix" % k, hyp, R.at(R.final("x").m, t),
                     vite(b_eq(t, q.raw(padd(r0, i), padd(c0, j))), R.v("v"), pick(R, "x", t, "f64")))
            out.append(Root("set_%s_%s" % (st, p), sp + [("i", "usize"), ("j", "usize"), ("v", "f64"), ("t", "usize")], "()", pre + "    *%s.get_mut(i, j) = v;" % p, s2, f, deep=st == "vec"))
    return out + [r.single() for r in out if r.name[:4] in ("get_", "set_") and "_mut_" in r.name]
