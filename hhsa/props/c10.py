"""C10: incompatible operands are rejected."""
from ..core import *
from ..lay import *
from ..exprs import *
from .. import tw

LEVEL = "proof"
PRE = PRELUDE

def kinds():
    out = []
    for it in ("f64", "f32", "c64", "c32"):
        for f in ("vv", "vr", "rv", "rr"):
            out.append(("%s_%s" % (it, f), Sum(Leaf("RM", "a", item=it), Leaf("RM", "b", item=it), f), it != "f64" and f != "vv"))
    for l in ALL: out.append((l.key, Sum(Leaf(l, "a"), Leaf(l, "b"), "vr"), False))
    for a, b in (("RM", "ASRM"), ("ASRM", "RM"), ("CM", "ASCM"), ("ASCM", "CM"), ("RV", "ASRV"), ("ASRV", "RV"), ("CV", "ASCV"), ("ASCV", "CV")):
        for f in ("vv", "vr", "rv", "rr"):
            out.append(("%s_%s_%s" % (a, b, f), Sum(Leaf(a, "a"), Leaf(b, "b"), f), f != "rr"))
    out.append(("refs", Sum(Ref(Leaf("CM", "a")), RefMut(Leaf("ASCM", "b", store="mut")), "vv"), False))
    out.append(("stores", Sum(Leaf("RM", "a", store="vec"), Leaf("RM", "b", store="mut"), "rr"), False))
    out.append(("of_sums", Sum(Sum(Leaf("RM", "a"), Leaf("RM", "b"), "rr"), Sum(Leaf("RM", "d"), Leaf("ASRM", "e"), "vv"), "vr"), False))
    out.append(("of_scales", Sum(Scale(Leaf("CM", "a"), "s"), Scale(Leaf("CM", "b"), "t", "rr"), "vv"), False))
    out.append(("right_nest", Sum(Leaf("RM", "a"), Sum(Leaf("RM", "b"), Leaf("RM", "d"), "rr"), "rv"), False))
    return out

def roots():
    out = []
    for nm, e, deep in kinds():
        def chk(R, e=e):
            h = e.built(R); ok = dims_ok(e, R)
            R.reject("operands of different dimension panic when the sum is formed", band(h, bnot(ok)))
            R.untouched("no element is read before the refusal", band(h, bnot(ok)), stores(e), kinds=R.ACCESS)
            R.accept("operands of equal dimension are accepted", band(h, ok))
            if not R.blocked("dimension"): R.eq("the sum has the dimension of its operands", band(h, ok), R.val, agg(list(e.dim(R))))
        out.append(Root("form_" + nm, e.params(), "(usize, usize)", "%s\n    let z = %s;\n    z.dim()" % ("\n".join(e.lets), e.e), chk, "src/addition.rs", deep=deep))
    return out

M = "GenericBaseMatrixMut<%s, %s, VectorContainer<%s>, %s, %s>"
def mt(item, lay, rs="Dynamic", cs="Dynamic"): return M % (item, lay, item, rs, cs)
FORMS = {"vv": "a + b", "vr": "a + &b", "rv": "&a + b", "rr": "&a + &b"}

def extra(quick):
    ws = []
    rm = mt("f64", "RowMajor")
    pairs = [("row-major and column-major", rm, mt("f64", "ColumnMajor")),
             ("column-major and strided row-major", mt("f64", "ColumnMajor"), mt("f64", "ArbitraryStrideRowMajor")),
             ("row-major and strided column-major", rm, mt("f64", "ArbitraryStrideColumnMajor")),
             ("row vector and column vector", mt("f64", "RowVector", "Fixed1"), mt("f64", "ColumnVector", "Dynamic", "Fixed1")),
             ("matrix and upper triangular matrix", rm, mt("f64", "UpperTriangular")),
             ("fixed and dynamic size", mt("f64", "RowMajor", "Fixed2", "Fixed2"), rm),
             ("different fixed sizes", mt("f64", "RowMajor", "Fixed2", "Fixed3"), mt("f64", "RowMajor", "Fixed3", "Fixed2")),
             ("different fixed column counts", mt("f64", "RowMajor", "Dynamic", "Fixed3"), mt("f64", "RowMajor", "Dynamic", "Fixed2")),
             ("row vector and matrix with one row", mt("f64", "RowVector", "Fixed1"), rm),
             ("f64 and f32", rm, mt("f32", "RowMajor")), ("c64 and f64", mt("c64", "RowMajor"), rm), ("c32 and c64", mt("c32", "RowMajor"), mt("c64", "RowMajor"))]
    n = 0
    for what, x, y in pairs:
        for p, q, o in ((x, y, ""), (y, x, " (swapped)")):
            for f, ex in FORMS.items():
                n += 1
                ws.append(tw.W("mix%d" % n, "a sum of %s%s, written %s, does not compile" % (what, o, ex), "pub fn w(a: %s, b: %s) { let _z = %s; }" % (p, q, ex),
                               "pub fn w(a: %s, b: %s) { let _z = %s; }" % (p, p, ex), ("E0308", "E0277", "E0271", "E0369"), "src/addition.rs"))
    return tw.run("C10", ws)
