"""C23: operations whose preconditions hold never panic, in debug or release.

Rule: in the MIR of each operation (all inlined callees included, loops summarised) no panic, failed overflow
assertion, out-of-bounds index or other abort is reachable under the documented precondition of the operation;
debug and release arithmetic are analysed separately.  Dimensions are unconstrained otherwise, so empty, one-row
and one-column shapes are included."""
from ..core import *
from ..lay import *
from ..exprs import *
from . import c01, c09, c11, c13, c14, c15, c16, c19

LEVEL = "proof"
PRE = c16.PRE
ASSUME = ["memory allocation succeeds", "the gemm kernels, the random generator and the callable given to for_each do not panic",
          "a matrix' own number of elements is representable in usize (its layout could not be built otherwise in debug builds)"]
U = "usize"

def ok_leaf(e, R): return okay(e, R)

def subjects():
    """(name, expression, mutable, deep)"""
    out = []
    for l in ALL:
        for st in ("slice", "mut", "vec"): out.append(("%s_%s" % (l.key, st), Leaf(l, store=st), st != "slice", st == "slice"))
    for l in ("RM", "CM", "ASRM", "ASCM"):
        out.append(("block_" + l, Blk(Leaf(l), "b"), False, l == "ASCM"))
        out.append(("blockmut_" + l, Blk(Leaf(l, store="mut"), "b", True), True, l[0] == "A"))
    for l in ALL:
        out.append(("ref_" + l.key, Ref(Leaf(l)), False, l.key not in ("RM", "CV", "UT")))
        out.append(("refmut_" + l.key, RefMut(Leaf(l, store="mut")), True, l.key not in ("CM", "RV")))
        out.append(("scale_" + l.key, Scale(Leaf(l), "u", "rr"), False, l.key in ("RV", "ASCV")))
        out.append(("sum_" + l.key, Sum(Leaf(l, "a"), Leaf(l, "b"), "rr"), False, l.key in ("RV", "ASCV")))
    out.append(("sum_mixed", Sum(Leaf("RM", "a"), Leaf("ASRM", "b"), "vr"), False, False))
    out.append(("sum_mixed_cm", Sum(Leaf("ASCM", "a"), Leaf("CM", "b"), "rv"), False, True))
    out.append(("sum_blocks", Sum(Blk(Leaf("RM", "a"), "b"), Leaf("RM", "d"), "vv"), False, False))
    out.append(("nested", Scale(Sum(Ref(Leaf("ASRM", "a")), Scale(Leaf("RM", "b"), "t", "rr"), "vv"), "s", "rv"), False, False))
    for it in ("f32", "c64", "c32"):
        out.append(("lin_" + it, Sum(Scale(Leaf("RM", "a", item=it), "s", "lr"), Leaf("RM", "b", item=it), "vr"), False, it == "c32"))
    return out

def roots():
    out = []
    def add(nm, ps, ret, body, f, an, deep=False): out.append(Root(nm, ps, ret, body, f, an, deep=deep))
    # layouts
    for l in ALL:
        c = l.ctor(); f = lfile(l)
        def ct(R, l=l):
            q = l.of(R); R.accept("a layout of any representable shape can be made", band(q.countok(), q.ctor_ok()))
        add("layout_%s_new" % l.key, l.params(), "()", "    let a = %s;" % c, ct, f)
        ops = [("dim", "let d = a.dim();", "x"), ("count", "let d = a.number_of_elements();", "x"), ("index", "let d = a.index_layout();", "x"),
               ("raw", "let d = a.convert_2d_raw(i, j);", "ij"), ("to1", "let d = a.convert_2d_1d(i, j);", "ij"), ("to2", "let d = a.convert_1d_2d(k);", "k"), ("raw1", "let d = a.convert_1d_raw(k);", "k")]
        ops += [("stride", "let d = a.stride();", "x")] if l.strided else []
        for on, op, ix in ops:
            def g(R, l=l, ix=ix):
                q = l.of(R); h = band(q.ctor_ok(), q.countok()); m, n = q.dim()
                if ix == "ij": h = bands(h, b_ult(R.v("i"), m), b_ult(R.v("j"), n))
                if ix == "ij" and l.key == "UT": h = band(h, b_ule(R.v("i"), R.v("j")))
                if ix == "k": h = band(h, b_ult(R.v("k"), q.nel()))
                R.accept("the layout query completes", h)
            add("layout_%s_%s" % (l.key, on), l.params() + ([("i", U), ("j", U)] if ix == "ij" else [("k", U)] if ix == "k" else []), "()", "    let a = %s;\n    %s" % (c, op), g, f)
    # matrices, views and expressions
    RA = "src/traits/random_access.rs"
    for nm, e, mu, deep in subjects():
        lets = "\n".join(e.lets) + "\n    let mut z = %s;\n" % e.e
        k = e.order().key; it = e.item
        def op(on, ps, code, hyp, an, dp=False, e=e, nm=nm, lets=lets, what="completes"):
            add("%s_%s" % (nm, on), e.params() + ps, "()", lets + "    " + code, lambda R, e=e, hyp=hyp: R.accept(what, band(okay(e, R), hyp(e, R))), an, deep=deep or dp)
        T = lambda e, R: TRUE
        IJ = lambda e, R: inb(e, R, R.v("i"), R.v("j"))
        K = lambda e, R: b_ult(R.v("k"), e.nel(R))
        pij = [("i", U), ("j", U)]; pk = [("k", U)]
        op("dim", [], "let d = z.dim(); let n = z.layout().number_of_elements();", T, "src/matrix/common_impl.rs dim")
        op("get", pij, "z.get(i, j);", IJ, RA); op("get1d", pk, "z.get1d(k);", K, RA)
        if mu:
            op("get_mut", pij, "z.get_mut(i, j);", IJ, RA); op("get1d_mut", pk, "z.get1d_mut(k);", K, RA)
        big = isinstance(e, (Sum, Scale)) and deep
        if not (e.order().vec): op("eval", [], "let w = z.eval();", lambda e, R: c11.ctor_ok(e, R) if k != "UT" else TRUE, "src/matrix/common_impl.rs eval", big)
        op("neg", [("s", it)] if not any(n == "s" for n, _ in e.params()) else [], "let w = s * &z; let d = w.dim();", T, "src/scalar_mult.rs")
        op("negr", [("s", it)] if not any(n == "s" for n, _ in e.params()) else [], "let w = z * s; let d = w.dim();", T, "src/scalar_mult.rs", True)
        op("self_sum", pij, "let w = &z + &z; let d = w.get(i, j);", IJ, "src/addition.rs")
        op("ref", pij, "let w = Matrix::from_ref(&z); let d = w.get(i, j);", IJ, "src/matrix_ref.rs", not isinstance(e, Leaf))
        if isinstance(e, (Leaf, Blk)):
            if mu:
                op("each", [], "let mut c = 0usize; z.for_each(|v| { *v = *v; });", T, "src/matrix/base_methods.rs for_each")
                op("fill", [("n0", U)], "let mut g = Gen { n: n0 }; z.fill_from_rand_standard_normal(&mut g);", T, "src/matrix/random.rs")
            kb = k
            if kb in ("RM", "CM", "ASRM", "ASCM"):
                pb = [(x, U) for x in ("p", "q", "y", "x2")]
                def BF(e, R):
                    m, n = e.dim(R); p, q, y, x2 = (R.v(x) for x in ("p", "q", "y", "x2"))
                    return bands(b_ule(p, m), b_ule(y, psub(m, p)), b_ule(q, n), b_ule(x2, psub(n, q)))
                op("block", pb, "let w = z.block((p, q), (y, x2)); let d = w.dim();", BF, "src/matrix/matrix_slices.rs block", nm in ("block_ASRM", "blockmut_CM"))
                op("blockget", pb + pij, "let w = z.block((p, q), (y, x2)); let d = w.get(i, j);", lambda e, R, BF=BF: bands(BF(e, R), b_ult(R.v("i"), R.v("y")), b_ult(R.v("j"), R.v("x2"))), "src/matrix/matrix_slices.rs block", isinstance(e, Blk))
                if mu: op("blockmut", pb, "let w = z.block_mut((p, q), (y, x2)); let d = w.dim();", BF, "src/matrix/matrix_slices.rs block_mut")
            if kb == "RM" and mu and isinstance(e, Leaf):
                def SP(e, R): m, n = e.dim(R); return band(b_ule(R.v("p"), m), b_ule(R.v("q"), n))
                op("split", [("p", U), ("q", U)], "let (a, b, c, d) = z.split_in_four_mut((p, q)); let w = (a.dim(), b.dim(), c.dim(), d.dim());", SP, "src/matrix/matrix_slices.rs split_in_four_mut", "vec" in nm)
                for n_, x in enumerate("abcd"):
                    op("spliteach" + x, [("p", U), ("q", U)], "let (mut a, mut b, mut c, mut d) = z.split_in_four_mut((p, q)); %s.for_each(|v| { *v = *v; });" % x, SP, "src/matrix/matrix_slices.rs split_in_four_mut", n_ < 3 or "vec" in nm)
                    op("spliteval" + x, [("p", U), ("q", U)], "let (mut a, mut b, mut c, mut d) = z.split_in_four_mut((p, q)); let w = %s.eval();" % x, SP, "src/matrix/matrix_slices.rs split_in_four_mut", True)
        if isinstance(e, Leaf):
            def SL(e, R):
                a, b = R.v("p"), R.v("q"); return bands(b_ult(a, b), b_ule(b, R.len(e.x + "x")))
            op("slice", [("p", U), ("q", U)], "let w = z.get_slice(p, q);", SL, "src/matrix/base_methods.rs get_slice")
            if mu: op("slicemut", [("p", U), ("q", U)], "let w = z.get_slice_mut(p, q);", SL, "src/matrix/base_methods.rs get_slice_mut")
            op("ptr", [], "let w = z.get_pointer();", T, "src/matrix/base_methods.rs get_pointer")
    # sums of two operands of equal dimension, evaluated
    for l in MATS + [LAYS["UT"]]:
        e = Sum(Leaf(l, "a"), Leaf(l, "b", store="vec"), "rv")
        add("add_eval_" + l.key, e.params(), "()", "%s\n    let w = %s.eval();" % ("\n".join(e.lets), e.e), lambda R, e=e: R.accept("sum and evaluation complete", band(okay(e, R), c11.ctor_ok(e, R))), "src/addition.rs", deep=l.key in ("CM", "ASCM"))
    # lengths
    for l in ("RV", "CV", "ASRV", "ASCV"):
        e = Leaf(l)
        add("length_" + l, e.params(), "()", "    let z = %s; let n = z.length();" % e.e, lambda R, e=e: R.accept("the length is reported", okay(e, R)), "src/matrix/common_impl.rs length")
    # constructors
    for c in c15.ctors():
        def cc(R, c=c): R.accept("the constructor completes for every representable shape", band(c.ok(R), Pos(c.lay, c.q(R)).countok()))
        add("ctor_" + c.name, c.ps, "()", "    let z = %s;" % c.e, cc, c.anchor, deep=c.deep or c.item in ("f32", "c32"))
        if c.item in ("f64", "c64") and not c.name.startswith("fix"):
            def cu(R, c=c): R.accept("a fresh matrix can be scaled and filled", band(c.ok(R), Pos(c.lay, c.q(R)).countok()))
            add("fresh_" + c.name, c.ps + [("s", c.item), ("n0", U)], "()", "    let mut z = %s;\n    let mut g = Gen { n: n0 }; z.fill_from_rand_standard_normal(&mut g);\n    let w = s * z;\n    let d = w.dim();" % c.e, cu, c.anchor, deep=c.item == "c64")
    for it in ("f64", "f32", "c64", "c32"):
        for nm, e, two in (("mat", "rand_mat![%s, (m, n)]", True), ("matr", "rand_mat![%s, (m, n), RowMajor]", True), ("matc", "rand_mat![%s, (m, n), ColumnMajor]", True),
                           ("vec", "rand_vector![%s, n]", False), ("vecc", "rand_vector![%s, n, ColumnVector]", False), ("vecr", "rand_vector![%s, n, RowVector]", False)):
            add("rand_%s_%s" % (nm, it), ([("m", U)] if two else []) + [("n", U)], "()", "    let z = %s;" % (e % it), lambda R, two=two: R.accept("the macro completes for every representable shape", mulok(R.v("m"), R.v("n")) if two else TRUE), "src/macros.rs", deep=it in ("f32", "c32") or nm in ("matr", "vecc"))
    # products
    for nm, sh, it, a, b, c, deep in c13.kinds():
        def mm(R, a=a, b=b, c=c):
            (m, k), (k2, n), (m3, n3) = a.dim(R), b.dim(R), c.dim(R)
            R.accept("a product of matching operands completes", bands(a.built(R), b.built(R), c.built(R), *[c13.fixed(x, R) for x in (a, b, c)], b_eq(k, k2), b_eq(m, m3), b_eq(n, n3)))
        add("matmul_" + nm, [("alpha", it), ("beta", it)] + a.ps + b.ps + c.ps, "()", "    let a = %s;\n    let b = %s;\n    let mut c = %s;\n" % (a.e, b.e, c.e) + c13.call(it, sh, "&a", "&b", "&mut c"), mm, "src/matrix_multiply.rs matmul", deep=deep or it not in ("f64", "c64"))
    for nm, sh, a, b, deep in c14.dkinds():
        def dd(R, a=a, b=b):
            (m, k), (k2, n) = a.dim(R), b.dim(R)
            R.accept("a product of matching operands completes", bands(a.built(R), b.built(R), c13.fixed(a, R), c13.fixed(b, R), b_eq(k, k2), mulok(m, n)))
        add("dot_" + nm, a.ps + b.ps, "()", "    let a = %s;\n    let b = %s;\n    let w = a.dot(&b);" % (a.e, b.e), dd, "src/matrix_multiply.rs dot", deep=deep)
    # products of blocks, with empty inner dimension included
    for l in ("RM", "CM"):
        A_, B_ = Blk(Leaf(l, "a"), "p"), Blk(Leaf(l, "b"), "q")
        def bb(R, A_=A_, B_=B_):
            R.accept("a product of matching blocks completes", bands(A_.built(R), B_.built(R), b_eq(A_.dim(R)[1], B_.dim(R)[0]), mulok(A_.dim(R)[0], B_.dim(R)[1])))
        add("dot_blocks_" + l, A_.params() + B_.params(), "()", "%s\n    let u = %s;\n%s\n    let w = %s;\n    let d = u.dot(&w);" % ("\n".join(A_.lets), A_.e, "\n".join(B_.lets), B_.e), bb, "src/matrix_multiply.rs dot", deep=l == "CM")
    # scalars
    for it in ("f64", "f32"): add("atan2_" + it, [("y", it), ("x", it)], "()", "    <%s as HScalar>::atan2(y, x);" % it, lambda R: R.accept("the arctangent of any point is computed", TRUE), "src/types.rs")
    for it in ("f64", "f32", "c64", "c32"):
        add("scalar_" + it, [("n0", U)], "()", "    let mut g = Gen { n: n0 };\n    <%s as RandScalar>::random_scalar(&mut g, &rand_distr::StandardNormal);" % it, lambda R: R.accept("a random scalar is drawn", TRUE), "src/tools.rs")
    return out
