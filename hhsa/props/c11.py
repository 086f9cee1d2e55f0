"""C11: evaluation materialises exactly the expression."""
from ..core import *
from ..lay import *
from ..exprs import *
from .c09 import ITEMS

LEVEL = "proof"
PRE = PRELUDE
F = "src/matrix/common_impl.rs eval"

def kinds():
    L = lambda x, k="RM", it="f64": Leaf(k, x, item=it)
    out = []
    for l in MATS + [LAYS["UT"]]: out.append((l.key, Leaf(l), False))
    for it in ITEMS[1:]: out.append((it, Leaf("RM", item=it), False))
    for st in ("mut", "vec"): out.append(("RM_" + st, Leaf("RM", store=st), st == "vec")); out.append(("ASCM_" + st, Leaf("ASCM", store=st), True))
    out.append(("ref", Ref(Leaf("ASRM")), False))
    out.append(("refmut", RefMut(Leaf("CM", store="mut")), False))
    for l in MATS + [LAYS["UT"]]:
        out.append(("sum_" + l.key, Sum(Leaf(l, "a"), Leaf(l, "b"), "rr"), l.key in ("ASCM",)))
        out.append(("scale_" + l.key, Scale(Leaf(l, "a"), "s", "lr"), l.key in ("ASRM",)))
    for it in ITEMS: out.append(("lin_" + it, Sum(Scale(L("a", "RM", it), "s", "lr"), L("b", "ASRM", it), "vr"), it in ("f32", "c32")))
    out.append(("mix", Sum(L("a", "ASRM"), L("b", "RM"), "rr"), False))
    out.append(("mixc", Sum(L("a", "ASCM"), L("b", "CM"), "rr"), False))
    out.append(("deep", Scale(Sum(Sum(L("a"), L("b"), "rr"), Scale(L("d"), "t", "rr"), "vv"), "s", "rv"), True))
    out.append(("block", Blk(Leaf("RM"), "b"), False))
    out.append(("blockc", Blk(Leaf("CM"), "b"), True))
    out.append(("sblock", Scale(Blk(Leaf("RM"), "b"), "s", "rr"), True))
    return out

def ctor_ok(e, R):
    """the result's own layout can be built: its number of elements is representable"""
    m, n = e.dim(R)
    return bnot(b_mulovf(m, n)) if not e.tri() else TRUE

def roots():
    out = []
    for nm, e, deep in kinds():
        body = lambda x: "%s\n    let z = %s;\n    let w = z.eval();\n    %s" % ("\n".join(e.lets), e.e, x)
        it = e.item
        def g(R, e=e):
            i, j = R.v("i"), R.v("j"); h = bands(okay(e, R), inb(e, R, i, j))
            R.eq("element (i, j) of the result is element (i, j) of the expression", h, R.val, e.at(R, i, j))
            R.eqmem("the operands are left unchanged", h, stores(e))
        out.append(Root("get_" + nm, e.params() + [("i", "usize"), ("j", "usize")], it, body("w.get(i, j)"), g, F, deep=deep))
        def g1(R, e=e):
            k = R.v("k"); h = bands(okay(e, R), b_ult(k, e.nel(R)))
            R.eq("element k of the result is element k of the expression", h, R.val, e.at1(R, k))
        out.append(Root("get1d_" + nm, e.params() + [("k", "usize")], it, body("w.get1d(k)"), g1, F, deep=deep))
        out.append(Root("raw_" + nm, e.params() + [("k", "usize")], it, body("unsafe { w.get_slice(k, k + 1)[0] }"), g1, F, deep=deep))
        def d(R, e=e):
            h = okay(e, R)
            R.eq("the result has the dimension and the number of elements of the expression", h, R.val, agg([agg(list(e.dim(R))), e.nel(R)]))
            R.accept("the evaluation completes", h)
        out.append(Root("dim_" + nm, e.params(), "((usize, usize), usize)", body("(w.dim(), w.layout().number_of_elements())"), d, F, deep=deep))
    for nm, l, late in (("RM", "RM", "x[p] = v;"), ("CM", "CM", "x[p] = v;"), ("ASRM", "ASRM", "x[p] = v;")):
        e = Leaf(l); ps = [("x", "&mut [f64]")] + e.params()[1:]
        def lt(R, e=e):
            i, j, p = R.v("i"), R.v("j"), R.v("p"); h = bands(okay(e, R), inb(e, R, i, j), b_ult(p, R.len("x")))
            R.eq("a later change of the operand does not change the result", h, R.val, e.at(R, i, j))
        out.append(Root("late_" + nm, ps + [("p", "usize"), ("v", "f64"), ("i", "usize"), ("j", "usize")], "f64", "    let w = { let z = %s; z.eval() };\n    %s\n    w.get(i, j)" % (e.e, late), lt, F))
        def lw(R, e=e):
            p = R.v("p"); h = bands(okay(e, R), b_ult(p, R.len("x")), inb(e, R, R.v("i"), R.v("j")))
            if R.blocked("storage"): return
            R.eq("changing the result does not change the operand", h, sel_leaf(R.final("x").m, p, (), ("f", 64)), R.elem("x", p))
        out.append(Root("own_" + nm, ps + [("p", "usize"), ("v", "f64"), ("i", "usize"), ("j", "usize")], "f64", "    let mut w = { let z = %s; z.eval() };\n    *w.get_mut(i, j) = v;\n    w.get(i, j)" % e.e, lw, F))
    return out
