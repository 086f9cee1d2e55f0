"""C01: checked element access enforces the logical bounds for every kind of matrix."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE
ASSUME = ["most entry points use f64 elements; the other scalar types are sampled"]

def kinds():
    out = []
    for l in ALL:
        for st in ("slice", "mut", "vec"): out.append(("%s_%s" % (l.key, st), Leaf(l, store=st), st != "slice"))
    out.append(("RM_arr", Leaf("RM", store="arr", N=6), True))
    out.append(("CM_fixed", Leaf("CM", store="arr", N=6, rs="Fixed2", cs="Fixed3"), True))
    out.append(("RV_fixed", Leaf("RV", store="arr", N=3, rs="Fixed1", cs="Fixed3"), True))
    for l in ALL:
        out.append(("ref_" + l.key, Ref(Leaf(l)), False))
        out.append(("refmut_" + l.key, RefMut(Leaf(l, store="mut")), True))
        out.append(("scale_" + l.key, Scale(Leaf(l)), False))
        out.append(("sum_" + l.key, Sum(Leaf(l, "a"), Leaf(l, "b"), "rr"), False))
    out.append(("sum_mixed", Sum(Leaf("RM", "a"), Leaf("ASRM", "b"), "vr"), False))
    out.append(("sum_mixed_cm", Sum(Leaf("ASCM", "a"), Leaf("CM", "b"), "rv"), False))
    for k in ("RM", "ASCM", "UT", "CV"):
        out.append(("%s_c64" % k, Leaf(k, store="mut", item="c64"), True)); out.append(("%s_f32" % k, Leaf(k, store="mut", item="f32"), True))
    out.append(("scale_c32", Scale(Leaf("CM", item="c32")), False))
    out.append(("nested", Scale(Sum(Ref(Leaf("ASRM", "a")), Scale(Leaf("RM", "b"), "t", "rr"), "vv"), "s", "rv"), False))
    return out

def roots():
    out = []
    def fixdim(e, R):
        x = e.leaves()[0]
        h = TRUE
        if x.rs.startswith("Fixed") and not x.l.vec or x.rs in ("Fixed2", "Fixed3"): h = band(h, b_eq(x.dim(R)[0], pc(int(x.rs[-1]))))
        if x.cs.startswith("Fixed") and not x.l.vec or x.cs in ("Fixed2", "Fixed3"): h = band(h, b_eq(x.dim(R)[1], pc(int(x.cs[-1]))))
        return h
    for nm, e, mutable in kinds():
        for kind in ("get", "get1d") + (("get_mut", "get1d_mut") if mutable else ()):
            two = "1d" not in kind
            def chk(R, e=e, two=two, kind=kind):
                ok = band(okay(e, R), fixdim(e, R))
                if two:
                    i, j = R.v("i"), R.v("j")
                    inside = inb(e, R, i, j, False); legal = inb(e, R, i, j)
                else:
                    k = R.v("k"); inside = legal = b_ult(k, e.nel(R))
                R.reject("index outside the bounds panics", band(ok, bnot(inside)))
                R.accept("index inside the bounds is accepted", band(ok, legal))
                R.untouched("no element is touched by a refused access", band(ok, bnot(inside)), stores(e) if not any(x.N for x in e.leaves()) else [], kinds=R.ACCESS)
                R.bounded("the access stays inside the storage", ok)
            ix = [("i", "usize"), ("j", "usize")] if two else [("k", "usize")]
            call = "%s(%s)" % (kind, ", ".join(n for n, _ in ix))
            body = "\n".join(e.lets) + "\n    let mut z = %s;\n" % e.e
            body += "    *z.%s = %s;" % (call, "c64::new(1.0, 2.0)" if e.item == "c64" else "1.0") if "mut" in kind else "    z.%s;" % call
            out.append(Root("%s_%s" % (nm, kind), e.params() + ix, "()", body, chk, "src/traits/random_access.rs " + kind, deep=nm in ("sum_ASRM", "sum_ASCM", "sum_mixed_cm") or nm.endswith("_vec") and nm[:2] in ("CM", "CV", "RV") or nm in ("refmut_CM", "refmut_ASCM", "scale_ASCM")))
    return out
