"""C04: the stride a layout reports is the stride its elements have."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE

def roots():
    out = []
    for l in STRIDED:
        def chk(R, l=l):
            q = l.of(R); i, j = R.v("i"), R.v("j"); m, n = q.dim()
            h = bands(q.ctor_ok(), q.countok(), b_ult(i, m), b_ult(j, n))
            if R.blocked("stride"): return
            r, c = R.val.f
            R.eq("r*row + c*col with the reported stride is the position of (row, col)", h, padd(pmul(r, i), pmul(c, j)), q.raw(i, j))
            R.accept("the stride is reported", bands(q.ctor_ok(), q.countok()))
        ps = l.params()
        out.append(Root("stride_" + l.key, ps + [("i", "usize"), ("j", "usize")], "(usize, usize)", "    %s.stride()" % l.ctor(), chk, lfile(l) + " stride"))
        for nm, e in (("mat", Leaf(l)), ("ref", Ref(Leaf(l))), ("scale", Scale(Leaf(l), "w"))):
            def chk2(R, l=l, e=e):
                q = l.of(R); i, j = R.v("i"), R.v("j"); m, n = q.dim()
                h = bands(e.built(R), b_ult(i, m), b_ult(j, n))
                if R.blocked("stride"): return
                r, c = R.val.f
                R.eq("walking the storage with the matrix' stride arrives at element (row, col)", h, pick(R, "x", padd(pmul(r, i), pmul(c, j)), "f64"), pick(R, "x", q.raw(i, j), "f64"))
            out.append(Root("stride_%s_%s" % (nm, l.key), e.params() + [("i", "usize"), ("j", "usize")], "(usize, usize)",
                            "    %s\n    let z = %s;\n    z.layout().stride()" % ("\n    ".join(e.lets), e.e), chk2, "src/traits/layout.rs stride"))
    # from_dimension / from_length layouts have the same positions
    for l, arg, ps in (("RM", "from_dimension((m, n))", "mn"), ("CM", "from_dimension((m, n))", "mn"), ("RV", "from_length(n)", "n"), ("CV", "from_length(n)", "n"),
                       ("RV", "from_dimension((1, n))", "n"), ("CV", "from_dimension((n, 1))", "n")):
        l = LAYS[l]
        def chk3(R, l=l):
            q = l.of(R); i, j = R.v("i"), R.v("j"); m, n = q.dim()
            if R.blocked("stride"): return
            h = bands(q.countok(), b_ult(i, m), b_ult(j, n))
            (r, c), p = R.val.f[0].f, R.val.f[1]
            R.eq("position of (row, col)", h, p, q.raw(i, j))
            R.eq("r*row + c*col with the reported stride is the position of (row, col)", h, padd(pmul(r, i), pmul(c, j)), q.raw(i, j))
        out.append(Root("fd_%s_%s" % (l.key, arg[:8] + arg[5:8]), [(x, "usize") for x in ps] + [("i", "usize"), ("j", "usize")], "((usize, usize), usize)",
                        "    let a = %s::%s;\n    (a.stride(), a.convert_2d_raw(i, j))" % (l.ty, arg), chk3, lfile(l) + " from_dimension"))
    return out

MM = """pub fn f(a: &SliceMatrix<f64, %s, Dynamic, Dynamic>, b: &SliceMatrix<f64, %s, Dynamic, Dynamic>, c: &mut SliceMatrixMut<f64, %s, Dynamic, Dynamic>) {
    f64::matmul(1.0, a, b, 0.0, c);
}
"""
def extra(quick):
    from .. import tw
    ws = []
    for k in range(3):
        ls = ["RowMajor", "ArbitraryStrideColumnMajor", "ColumnMajor"]; bad = list(ls); bad[k] = "UpperTriangular"
        ws.append(tw.W("mm%d" % k, "packed triangular storage as operand %d of a product" % k, MM % tuple(bad), MM % tuple(ls), ("E0277",), "src/matrix_multiply.rs"))
    for k, m in (("block", "&"), ("block_mut", "&mut "), ("split_in_four_mut", "&mut ")):
        arg = "(0, 0)" if k[0] == "s" else "(0, 0), (1, 1)"
        src = "pub fn f(a: " + m + "SliceMatrixMut<f64, %s, Dynamic, Dynamic>) { a." + k + "(" + arg + "); }\n"
        ws.append(tw.W(k, "%s of packed triangular storage" % k, src % "UpperTriangular", src % "RowMajor", ("E0599",), "src/matrix/matrix_slices.rs"))
    src = "fn need<L: StridedLayoutType>() {}\npub fn f() { need::<%s>(); }\n"
    ws.append(tw.W("strided", "packed triangular storage as a strided layout", src % "UpperTriangular", src % "RowMajor", ("E0277",), "src/traits/layout.rs"))
    dd = "pub fn f(a: &SliceMatrix<f64, %s, Dynamic, Dynamic>, b: &SliceMatrix<f64, %s, Dynamic, Dynamic>) { a.dot(b); }\n"
    for k in range(2):
        ls = ["RowMajor", "ArbitraryStrideColumnMajor"]; bad = list(ls); bad[k] = "UpperTriangular"
        ws.append(tw.W("dot%d" % k, "packed triangular storage as operand %d of dot" % k, dd % tuple(bad), dd % tuple(ls), ("E0277", "E0599", "E0308"), "src/matrix_multiply.rs"))
    return tw.run("C04", ws)
