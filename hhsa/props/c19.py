"""C19: static size tags and vector lengths agree with the runtime dimension."""
from ..core import *
from ..lay import *
from ..exprs import *
from .. import tw

LEVEL = "proof"
PRE = PRELUDE
F = "src/base_matrix.rs BaseMatrix::new"
U = "usize"
TAGS = {"Dynamic": 0, "Fixed1": 1, "Fixed2": 2, "Fixed3": 3}

def agrees(rs, cs, dim):
    h = TRUE
    for t, d in zip((rs, cs), dim):
        if TAGS[t]: h = band(h, b_eq(d, pc(TAGS[t])))
    return h
def possible(l, rs, cs):
    """there is a shape of the layout with these tags"""
    if l.vec: return TAGS[rs if l.row else cs] in (0, 1)
    if l.key == "UT": return not TAGS[rs] or not TAGS[cs] or rs == cs
    return True

def roots():
    out = []
    for t, n in TAGS.items():
        def f(R, n=n): R.eq("the size tag stands for its number", TRUE, R.val, pc(n))
        out.append(Root("tag_" + t, [], U, "    <%s as SizeIdentifier>::N" % t, f, "src/traits/size.rs"))
    for l in ALL:
        for rs in TAGS:
            for cs in TAGS:
                for st in ("slice", "mut", "vec"):
                    if st != "slice" and (rs, cs) not in (("Fixed2", "Fixed3"), ("Fixed1", "Dynamic"), ("Dynamic", "Fixed1"), ("Dynamic", "Dynamic")): continue
                    ps, e = mat(l, "", "f64", st, rs, cs)
                    def f(R, l=l, rs=rs, cs=cs):
                        q = l.of(R); h = built(R, l); ag = agrees(rs, cs, q.dim())
                        if possible(l, rs, cs):
                            R.accept("a layout that agrees with the size tags is accepted", band(h, ag))
                            if R.blocked("dim"): return
                            R.eq("the matrix has the dimension of its layout", band(h, ag), R.val, agg(list(q.dim())))
                        if ag != TRUE: R.reject("a layout that contradicts the size tags is refused", bnot(ag))
                    out.append(Root("tags_%s_%s_%s_%s" % (l.key, rs, cs, st), ps, "(usize, usize)", "    let z = %s;\n    z.dim()" % e, f, F))
    # arrays: the number of stored elements is part of the type
    for l, rs, cs, N in (("RM", "Fixed2", "Fixed3", 6), ("CM", "Fixed2", "Fixed2", 4), ("RM", "Dynamic", "Dynamic", 6), ("CV", "Fixed3", "Fixed1", 3), ("RV", "Fixed1", "Fixed2", 2), ("UT", "Fixed2", "Fixed2", 3), ("ASRM", "Fixed3", "Fixed2", 9), ("ASCM", "Fixed3", "Dynamic", 12)):
        l = LAYS[l]
        ps, e = mat(l, "", "f64", "arr", rs, cs, N)
        def f(R, l=l, rs=rs, cs=cs, N=N):
            q = l.of(R); h = q.fits(pc(N)); ag = agrees(rs, cs, q.dim())
            R.accept("a layout that agrees with the size tags is accepted", band(h, ag))
            if R.blocked("dim"): return
            R.eq("the matrix has the dimension of its layout", band(h, ag), R.val, agg(list(q.dim())))
            if ag != TRUE: R.reject("a layout that contradicts the size tags is refused", bnot(ag))
        out.append(Root("tags_arr_%s_%s_%s" % (l.key, rs, cs), ps, "(usize, usize)", "    let z = %s;\n    z.dim()" % e, f, F))
    # lengths
    def length(nm, e, row, an, deep=False):
        def f(R, e=e, row=row):
            d = e.dim(R); h = okay(e, R)
            h = band(h, b_eq(d[0] if row else d[1], pc(1)))
            R.accept("the length is reported", h)
            R.eq("the length of a %s is its number of %s" % (("row vector", "columns") if row else ("column vector", "rows")), h, R.val, d[1] if row else d[0])
        out.append(Root("length_" + nm, e.params(), U, "%s\n    let z = %s;\n    z.length()" % ("\n".join(e.lets), e.e), f, an, deep=deep))
    C = "src/matrix/common_impl.rs length"
    for l in ALL:
        if l.key == "UT": continue
        for row in (True, False):
            rs, cs = ("Fixed1", "Dynamic") if row else ("Dynamic", "Fixed1")
            if l.vec and l.row != row: continue
            L = lambda st="slice", x="": Leaf(l, x, store=st, rs=rs, cs=cs)
            nm = "%s_%s" % (l.key, "r" if row else "c")
            for st in ("slice", "mut", "vec"): length("%s_%s" % (nm, st), L(st), row, C)
            length(nm + "_ref", Ref(L()), row, C)
            length(nm + "_refmut", RefMut(L("mut")), row, C)
            length(nm + "_scale", Scale(L(), "s", "lr"), row, C)
            length(nm + "_sum", Sum(L(x="a"), L(x="b"), "rv"), row, C)
    for it in ("f64", "c32"):
        for st, ty, arg in (("slice", "SliceContainer<%s>", "SliceContainer::new(x)"), ("mut", "SliceContainerMut<%s>", "SliceContainerMut::new(x)"), ("vec", "VectorContainer<%s>", "x")):
            def f(R):
                n = R.v("n"); h = b_ule(n, R.len("x"))
                R.accept("the length is reported", h)
                R.eq("the length of a base row vector is its number of columns", h, R.val, n)
            x = {"slice": "&[%s]", "mut": "&mut [%s]", "vec": "VectorContainer<%s>"}[st] % it
            out.append(Root("length_base_%s_%s" % (st, it), [("x", x), ("n", U)], U, "    let z = BaseMatrix::<%s, %s, RowVector, Fixed1, Dynamic>::new(%s, RowVector::new(n));\n    z.length()" % (it, ty % it, arg), f, "src/base_matrix.rs vector_length"))
    # views of matrices with fixed sizes keep their parent's elements; their own dimension is the requested one
    return out

def extra(quick):
    ws = []
    src = "pub fn f(a: &SliceMatrix<f64, %s, %s, %s>) -> usize { a.length() }\n"
    for i, (l, rs, cs) in enumerate((("RowMajor", "Dynamic", "Dynamic"), ("RowMajor", "Fixed2", "Fixed2"), ("ColumnMajor", "Fixed3", "Dynamic"), ("ArbitraryStrideRowMajor", "Dynamic", "Fixed2"))):
        ws.append(tw.W("nolen%d" % i, "length of a matrix that is not a vector by type (%s, %s)" % (rs, cs), src % (l, rs, cs), src % (l, "Dynamic", "Fixed1"), ("E0599",), "src/matrix/common_impl.rs"))
    sm = "pub fn f(a: &SliceMatrix<f64, RowMajor, %s, %s>, b: &SliceMatrix<f64, RowMajor, %s, %s>) { let _ = a + b; }\n"
    for i, t in enumerate((("Fixed2", "Fixed3", "Fixed3", "Fixed2"), ("Fixed1", "Dynamic", "Dynamic", "Fixed1"), ("Fixed2", "Fixed2", "Fixed3", "Fixed3"))):
        ws.append(tw.W("sum%d" % i, "sum of matrices with contradicting size tags", sm % t, sm % (t[0], t[1], t[0], t[1]), ("E0308", "E0277", "E0271"), "src/addition.rs"))
    return tw.run("C19", ws)
