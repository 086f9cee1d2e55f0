"""C15: constructors deliver zero matrices of exactly the requested shape."""
from ..core import *
from ..lay import *
from ..exprs import *
from .. import tw

LEVEL = "proof"
PRE = PRELUDE
ASSUME = ["memory allocation succeeds"]
ITEMS = ("f64", "f32", "c64", "c32")
FC = "src/matrix/constructors.rs"; FM = "src/macros.rs"
KIND = {"f64": ("f", 64), "f32": ("f", 32), "c64": ("f", 64), "c32": ("f", 32)}

def zero(item):
    z = fc(0.0, BITS[item])
    return agg([z, z]) if cplx(item) else z

class Ctor:
    """name, parameters, expression, layout, (q of R, hypothesis of R), item"""
    def __init__(s, name, ps, e, lay, q, ok=lambda R: TRUE, item="f64", anchor=FC, opq=0, deep=False):
        s.name = name; s.ps = ps; s.e = e; s.lay = LAYS[lay]; s.q = q; s.ok = ok; s.item = item; s.anchor = anchor; s.opq = opq; s.deep = deep

def ctors():
    out = []
    U = "usize"; D = [("m", U), ("n", U)]; N = [("n", U)]
    qmn = lambda R: {"m": R.v("m"), "n": R.v("n")}
    qn = lambda R: {"n": R.v("n")}
    sq = lambda R: b_eq(R.v("m"), R.v("n"))
    for it in ITEMS:
        for l in ("RM", "CM"):
            out.append(Ctor("dyn_%s_%s" % (l, it), D, "MatrixD::<%s, %s>::zeros_from_dim(m, n)" % (it, LAYS[l].ty), l, qmn, item=it))
        out.append(Ctor("dyn_UT_%s" % it, D, "UpperTriangularMatrix::<%s>::zeros_from_dim(m, n)" % it, "UT", qn, sq, item=it))
        for l, t, o in (("RV", "RowVectorD", ("m", "n")), ("CV", "ColumnVectorD", ("n", "m"))):
            out.append(Ctor("len_%s_%s" % (l, it), N, "%s::<%s>::zeros_from_length(n)" % (t, it), l, qn, item=it))
            out.append(Ctor("dim_%s_%s" % (l, it), D, "%s::<%s>::zeros_from_dim(%s, %s)" % (t, it, o[0], o[1]), l, qn, lambda R: b_eq(R.v("m"), pc(1)), item=it))
        for l, a in (("RV", "m"), ("CV", "n")):
            if it in ("f64", "c32"):
                out.append(Ctor("dynv_%s_%s" % (l, it), D, "MatrixD::<%s, %s>::zeros_from_dim(%s)" % (it, LAYS[l].ty, "m, n" if l == "RV" else "n, m"), l, qn, lambda R: b_eq(R.v("m"), pc(1)), item=it))
        deep = it not in ("f64", "c64")
        for l in ("RM", "CM"):
            for r, c in ((2, 2), (1, 2), (3, 3), (1, 3), (2, 3), (3, 2)):
                out.append(Ctor("fix_%s%d%d_%s" % (l, r, c, it), [], "Matrix::<%s, BaseMatrix<%s, ArrayContainer<%s, %d>, %s, Fixed%d, Fixed%d>, %s, Fixed%d, Fixed%d>::zeros_from_dim()" % (
                    it, it, it, r * c, LAYS[l].ty, r, c, LAYS[l].ty, r, c), l, lambda R, r=r, c=c: {"m": pc(r), "n": pc(c)}, item=it, deep=deep))
        for l, n, rs, cs in (("CV", 2, "Fixed2", "Fixed1"), ("CV", 3, "Fixed3", "Fixed1"), ("RV", 2, "Fixed1", "Fixed2"), ("RV", 3, "Fixed1", "Fixed3")):
            out.append(Ctor("fix_%s%d_%s" % (l, n, it), [], "Matrix::<%s, BaseMatrix<%s, ArrayContainer<%s, %d>, %s, %s, %s>, %s, %s, %s>::zeros_from_length()" % (it, it, it, n, LAYS[l].ty, rs, cs, LAYS[l].ty, rs, cs),
                            l, lambda R, n=n: {"n": pc(n)}, item=it, deep=deep))
        for l, a in (("RM", ""), ("RM", ", RowMajor"), ("CM", ", ColumnMajor")):
            out.append(Ctor("mat_%s%s_%s" % (l, "x" if a else "", it), D, "mat![%s, (m, n)%s]" % (it, a), l, qmn, item=it, anchor=FM))
        for l, a in (("CV", ""), ("CV", ", ColumnVector"), ("RV", ", RowVector")):
            out.append(Ctor("vec_%s%s_%s" % (l, "x" if a else "", it), N, "vector![%s, n%s]" % (it, a), l, qn, item=it, anchor=FM))
    return out

def roots():
    out = []
    U = "usize"
    for k in ctors():
        P_ = lambda R, k=k: Pos(k.lay, k.q(R))
        def cnt(R, P_=P_, k=k):
            q = P_(R); x = q.countok()
            return band(k.ok(R), x)
        def d(R, P_=P_, k=k, cnt=cnt):
            q = P_(R)
            R.reject("a shape that does not fit the layout is refused", bnot(k.ok(R))) if k.ok(R) != TRUE else None
            R.accept("every other shape is accepted", cnt(R))
            R.eq("the matrix has the requested dimension and number of elements", cnt(R), R.val, agg([agg(list(q.dim())), q.nel()]))
        out.append(Root("dim_" + k.name, k.ps, "((usize, usize), usize)", "    let z = %s;\n    (z.dim(), z.layout().number_of_elements())" % k.e, d, k.anchor, deep=k.deep))
        def z(R, P_=P_, k=k, cnt=cnt):
            t = R.v("t"); h = band(cnt(R), b_ult(t, P_(R).nel()))
            R.eq("every element of the storage is zero", h, R.val, zero(k.item))
        out.append(Root("zero_" + k.name, k.ps + [("t", U)], k.item, "    let z = %s;\n    unsafe { *z.get_pointer().add(t) }" % k.e, z, k.anchor, deep=k.deep))
        def sz(R, P_=P_, k=k, cnt=cnt):
            t = R.v("t"); n = P_(R).nel(); h = band(cnt(R), b_ult(pc(0), t))
            R.accept("the storage holds all elements of the matrix", band(h, b_ule(t, n)))
            R.reject("the storage holds no more elements than the matrix", band(h, b_ult(n, t)))
        out.append(Root("size_" + k.name, k.ps + [("t", U)], "()", "    let z = %s;\n    z.get_slice(0, t);" % k.e, sz, k.anchor, deep=k.deep))
        if k.item in ("f64", "c32"):
            def od(R, P_=P_, k=k, cnt=cnt):
                i, j, t = R.v("i"), R.v("j"), R.v("t"); q = P_(R); m, n = q.dim()
                h = bands(cnt(R), b_ult(i, m), b_ult(j, n), b_ult(t, q.nel()))
                if k.lay.key == "UT": h = band(h, b_ule(i, j))
                R.eq("element (i, j) is stored where the memory order puts it", h, R.val, vite(b_eq(t, q.raw(i, j)), R.v("v"), zero(k.item)))
            out.append(Root("order_" + k.name, k.ps + [("i", U), ("j", U), ("v", k.item), ("t", U)], k.item,
                            "    let mut z = %s;\n    *z.get_mut(i, j) = v;\n    unsafe { *z.get_pointer().add(t) }" % k.e, od, k.anchor, deep=k.deep))
    # layouts from a full dimension or a length
    for l in ("RM", "CM", "RV", "CV", "UT"):
        l = LAYS[l]; row = l.vec and l.row
        def fd(R, l=l, row=row):
            m, n = R.v("m"), R.v("n"); q = Pos(l, {"m": m, "n": n} if not l.vec else {"n": n if row else m})
            ok = TRUE if l.key in ("RM", "CM") else b_eq(m, n) if l.key == "UT" else b_eq(m if row else n, pc(1))
            h = band(ok, q.countok())
            if ok != TRUE: R.reject("a shape that does not fit the layout is refused", bnot(ok))
            R.accept("every other shape is accepted", h)
            R.eq("the layout has the requested dimension and number of elements", h, R.val, agg([agg([m, n]), q.nel()]))
        out.append(Root("layout_" + l.key, [("m", U), ("n", U)], "((usize, usize), usize)", "    let l = %s::from_dimension((m, n));\n    (l.dim(), l.number_of_elements())" % l.ty, fd, "src/layouts from_dimension"))
        if l.vec:
            def fl(R, l=l, row=row):
                n = R.v("n")
                R.accept("every length is accepted", TRUE)
                R.eq("the layout has the requested length", TRUE, R.val, agg([agg([pc(1), n] if row else [n, pc(1)]), n]))
            out.append(Root("layoutlen_" + l.key, [("n", U)], "((usize, usize), usize)", "    let l = %s::from_length(n);\n    (l.dim(), l.number_of_elements())" % l.ty, fl, "src/layouts from_length"))
    # every macro argument is evaluated exactly once
    for nm, e, two in (("mat", "mat![f64, opaque_dim(i)]", True), ("matr", "mat![f64, opaque_dim(i), RowMajor]", True), ("matc", "mat![c64, opaque_dim(i), ColumnMajor]", True),
                       ("vec", "vector![f64, opaque_len(i)]", False), ("vecc", "vector![f32, opaque_len(i), ColumnVector]", False), ("vecr", "vector![f64, opaque_len(i), RowVector]", False),
                       ("rmat", "rand_mat![f64, opaque_dim(i)]", True), ("rmatr", "rand_mat![f32, opaque_dim(i), RowMajor]", True), ("rmatc", "rand_mat![c64, opaque_dim(i), ColumnMajor]", True),
                       ("rvec", "rand_vector![f64, opaque_len(i)]", False), ("rvecc", "rand_vector![c32, opaque_len(i), ColumnVector]", False), ("rvecr", "rand_vector![f64, opaque_len(i), RowVector]", False)):
        def once(R, two=two, nm=nm):
            sel = lambda x: x.k == "opaque"
            if R.blocked("macro"): return
            evs = [(e, c, l) for e, c, l in R.events("opaque")]
            if not evs: R.add("the macro evaluates its argument", "violated", "structural", "no evaluation of the argument is reachable"); return
            # the first evaluation is reached before anything can go wrong
            R.counted("the macro evaluates its argument exactly once", TRUE, sel, pc(1))
        out.append(Root("once_" + nm, [("i", U)], "()", "    let z = %s;" % e, once, FM))
        if nm[0] != "r" or True:
            def dm(R, nm=nm, two=two):
                if R.blocked("macro"): return
                v = R.val
                h = band(R.ret, TRUE)
                if two: want = v.f[1]
                else:
                    l = v.f[1]; want = agg([pc(1), l]) if nm.endswith("r") else agg([l, pc(1)])
                R.eq("the matrix has the dimension the macro was given", h, v.f[0], want)
            out.append(Root("arg_" + nm, [("i", U)], "((usize, usize), %s)" % ("(usize, usize)" if two else U), "    let z = %s;\n    let d = opaque_%s(i);\n    (z.dim(), d)" % (e, "dim" if two else "len"), dm, FM))
    return out

def extra(quick):
    pre = "#![allow(unused)]\nuse householder::{mat, vector, rand_mat, rand_vector};\n"
    ws = []
    for i, (m, t) in enumerate((("mat![f64, (m, n)]", "householder::matrix::MatrixD<f64, householder::layouts::RowMajor>"), ("mat![c32, (m, n), RowMajor]", "householder::matrix::MatrixD<householder::types::c32, householder::layouts::RowMajor>"),
              ("mat![f64, (m, n), ColumnMajor]", "householder::matrix::MatrixD<f64, householder::layouts::ColumnMajor>"), ("vector![f64, n]", "householder::matrix::ColumnVectorD<f64>"),
              ("vector![f32, n, ColumnVector]", "householder::matrix::ColumnVectorD<f32>"), ("vector![c64, n, RowVector]", "householder::matrix::RowVectorD<householder::types::c64>"))):
        m2 = m.replace("c32", "householder::types::c32").replace("c64", "householder::types::c64")
        ws.append(tw.W("macro%d" % i, "the macro %s yields the documented type" % m, None, "pub fn w(m: usize, n: usize) -> %s { %s }" % (t, m2), (), FM, pre=pre))
        ws.append(tw.W("hyg%d" % i, "names used inside the macro %s cannot be confused with the caller's" % m, None, "pub fn w(dim: (usize, usize), mat: usize, vec: usize, rng: usize, m: usize, n: usize) -> %s { %s }" % (t, m2.replace("(m, n)", "(mat, rng + vec)").replace(", n", ", vec")), (), FM, pre=pre))
    return tw.run("C15", ws)
