"""C09: sums and scalar multiples are elementwise, however they are written."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE
ITEMS = ("f64", "f32", "c64", "c32")
ASSUME = ["addition and multiplication of the scalars are the operations of the language (f32, f64) resp. the textbook complex formulas, as num-complex documents them; "
          "operations are compared as the same operation on the same operands, commutative ones up to the order of the two operands"]

def kinds():
    """(name, expression, deep)"""
    out = []
    for it in ITEMS:
        for f in ("vv", "vr", "rv", "rr"):
            out.append(("sum_%s_%s" % (it, f), Sum(Leaf("RM", "a", item=it), Leaf("RM", "b", item=it), f), False))
        for f in ("lv", "lr", "rv", "rr"):
            out.append(("scale_%s_%s" % (it, f), Scale(Leaf("RM", "a", item=it), "s", f), False))
    for i, l in enumerate(ALL):
        f = ("vv", "vr", "rv", "rr")[i % 4]; g = ("lv", "lr", "rv", "rr")[i % 4]
        out.append(("sum_%s" % l.key, Sum(Leaf(l, "a"), Leaf(l, "b"), f), False))
        out.append(("scale_%s" % l.key, Scale(Leaf(l, "a"), "s", g), False))
    for a, b in (("RM", "ASRM"), ("ASRM", "RM"), ("CM", "ASCM"), ("ASCM", "CM"), ("RV", "ASRV"), ("ASRV", "RV"), ("CV", "ASCV"), ("ASCV", "CV")):
        out.append(("mixed_%s_%s" % (a, b), Sum(Leaf(a, "a"), Leaf(b, "b"), "vr" if a < b else "rv"), False))
    out.append(("sum_stores", Sum(Leaf("RM", "a", store="mut"), Leaf("RM", "b", store="vec"), "rr"), False))
    out.append(("sum_ref", Sum(Ref(Leaf("CM", "a")), Ref(Leaf("ASCM", "b")), "vv"), False))
    out.append(("sum_refmut", Sum(RefMut(Leaf("RM", "a", store="mut")), Leaf("RM", "b"), "vr"), False))
    out.append(("sum_blocks", Sum(Blk(Leaf("RM", "a"), "p"), Blk(Leaf("RM", "b"), "q"), "rr"), True))
    out.append(("scale_block", Scale(Blk(Leaf("CM", "a"), "p"), "s", "rr"), False))
    out.append(("self_sum", None, False))
    out.append(("fixed_sum", Sum(Leaf("RM", "a", store="arr", N=6, rs="Fixed2", cs="Fixed3"), Leaf("RM", "b", store="arr", N=6, rs="Fixed2", cs="Fixed3"), "rr"), False))
    for it in ITEMS:
        L = lambda x, k="RM": Leaf(k, x, item=it)
        out.append(("nest1_" + it, Sum(Scale(L("a"), "s", "lr"), Scale(L("b", "ASRM"), "t", "rv"), "vv"), it != "c64"))
        out.append(("nest2_" + it, Scale(Sum(L("a"), Sum(L("b"), Scale(L("d"), "t", "lv"), "rr"), "rv"), "s", "rv"), it != "f32"))
        out.append(("nest3_" + it, Scale(Scale(Scale(L("a", "CM"), "s", "lv"), "t", "rr"), "u", "lv"), it != "f64"))
        out.append(("nest4_" + it, Sum(Sum(L("a"), L("b"), "vv"), Sum(L("d"), L("e"), "rr"), "rr"), it != "f64"))
    return [(n, e, d) for n, e, d in out if e is not None]

def tags(e, R):
    h = TRUE
    for x in e.leaves():
        if x.N: h = bands(h, b_eq(x.dim(R)[0], pc(2)), b_eq(x.dim(R)[1], pc(3)))
    return h

def roots():
    out = []
    for nm, e, deep in kinds():
        an = "src/addition.rs" if isinstance(e, Sum) else "src/scalar_mult.rs"
        body = lambda x: "%s\n    let z = %s;\n    %s" % ("\n".join(e.lets), e.e, x)
        def g(R, e=e):
            i, j = R.v("i"), R.v("j")
            h = bands(okay(e, R), tags(e, R), inb(e, R, i, j))
            R.eq("element (i, j) of the expression is the operation on the elements (i, j) of its operands", h, R.val, e.at(R, i, j))
        out.append(Root("get_" + nm, e.params() + [("i", "usize"), ("j", "usize")], e.item, body("z.get(i, j)"), g, an, deep=deep))
        out.append(Root("getu_" + nm, e.params() + [("i", "usize"), ("j", "usize")], e.item, body("unsafe { z.get_unchecked(i, j) }"), g, an, deep=deep))
        def g1(R, e=e):
            k = R.v("k")
            h = bands(okay(e, R), tags(e, R), b_ult(k, e.nel(R)))
            R.eq("element k of the expression is the operation on the elements k of its operands", h, R.val, e.at1(R, k))
        out.append(Root("get1d_" + nm, e.params() + [("k", "usize")], e.item, body("z.get1d(k)"), g1, an, deep=deep))
        out.append(Root("get1du_" + nm, e.params() + [("k", "usize")], e.item, body("unsafe { z.get1d_unchecked(k) }"), g1, an, deep=deep))
        def d(R, e=e):
            h = band(okay(e, R), tags(e, R))
            R.eq("the expression has the dimension and the number of elements of its operands", h, R.val, agg([agg(list(e.dim(R))), e.nel(R)]))
            R.accept("the expression is formed", h)
        out.append(Root("dim_" + nm, e.params(), "((usize, usize), usize)", body("(z.dim(), z.layout().number_of_elements())"), d, an, deep=deep))
    # an operand may occur twice
    a = Leaf("RM", "a")
    def tw(R):
        i, j = R.v("i"), R.v("j"); h = band(okay(a, R), inb(a, R, i, j)); x = a.at(R, i, j)
        R.eq("x + s*x for the same matrix", h, R.val, sadd("f64", x, smul("f64", R.v("s"), x)))
    out.append(Root("get_twice", a.params() + [("s", "f64"), ("i", "usize"), ("j", "usize")], "f64", "    let x = %s; (&x + s * &x).get(i, j)" % a.e, tw, "src/addition.rs"))
    return out
