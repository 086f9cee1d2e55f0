"""C14: dot allocates a correctly shaped result and equals matmul with alpha 1, beta 0."""
from ..core import *
from ..lay import *
from ..exprs import *
from .c13 import *
from .. import tw

LEVEL = "proof"
PRE = PRELUDE
F = "src/matrix_multiply.rs dot"
OUT = {"mm": "RM", "mv": "CV", "vm": "RV"}

def dkinds():
    out = []
    M = ("RM", "CM", "ASRM", "ASCM")
    def add(sh, la, lb, sa="slice", sb="slice", deep=False, ra=None, rb=None):
        s = SHAPES[sh]
        out.append(("%s_%s_%s%s" % (sh, la, lb, "" if sa + sb == "sliceslice" else "_" + sa + sb), sh, Leaf(la, "a", store=sa, rs=s[0][0], cs=s[0][1]), Leaf(lb, "b", store=sb, rs=s[1][0], cs=s[1][1]), deep))
    for a in M:
        for b in M: add("mm", a, b)
        for b in ("CV", "ASCV"): add("mv", a, b)
        for b in ("RV", "ASRV"): add("vm", b, a)
    add("mm", "RM", "RM", "vec", "vec"); add("mm", "CM", "RM", "mut", "vec"); add("mv", "RM", "CV", "vec", "mut"); add("vm", "RV", "CM", "mut", "vec")
    add("mv", "RM", "ASRM"); add("vm", "ASCM", "RM")
    return out

def heaps(R): return [(e, c) for e, c, l in R.events("alloc")]

def roots():
    out = []
    for nm, sh, a, b, deep in dkinds():
        lo = LAYS[OUT[sh]]
        def hyp(R, a=a, b=b):
            h = bands(a.built(R), b.built(R), fixed(a, R), fixed(b, R))
            (m, k), (k2, n) = a.dim(R), b.dim(R)
            rep = bnot(b_mulovf(m, n))          # the result's number of elements is representable
            return h, b_eq(k, k2), rep, m, n
        def pos(m, n, lo=lo): return Pos(lo, {"m": m, "n": n} if not lo.vec else {"n": n if lo.row else m})
        def chk(R, a=a, b=b, hyp=hyp, pos=pos, lo=lo):
            h, ok, rep, m, n = hyp(R)
            R.reject("operands with different inner dimension panic", band(h, bnot(ok)))
            R.accept("operands with equal inner dimension are accepted", bands(h, ok, rep))
            R.untouched("the operands are left unchanged", h, ["ax", "bx"])
            good = bands(h, ok, rep)
            if R.blocked("kernel"): return
            R.eq("the result has the rows of the left and the columns of the right operand", good, R.val, agg([agg([m, n]), pmul(m, n)]))
            ks = list(R.events("kernel")); objs = {}
            for e, c, l in ks:
                for c2, o, i in base(R, e.d["args"][-3]): objs[id(o)] = o
            for o in objs.values():
                if o is None or o.kind != "heap": R.need("the product is written to newly allocated memory", good, FALSE)
                else:
                    R.add("the product is written to newly allocated memory", "proved", "structural")
                    q = pos(m, n)
                    st = (None, pc(1)) if lo.vec and lo.row else (pc(1), None) if lo.vec else q.stride()
                    kernel_claims(R, "f64", good, operand(R, a), operand(R, b), (o, (m, n), st), fc(1.0, 64), fc(0.0, 64))
        ps = a.ps + b.ps
        body = "    let a = %s;\n    let b = %s;\n    let r = a.dot(&b);\n    " % (a.e, b.e)
        out.append(Root("dot_" + nm, ps, "((usize, usize), usize)", body + "(r.dim(), r.layout().number_of_elements())", chk, F, deep=deep))
        def val(R, hyp=hyp, pos=pos, a=a, b=b):
            h, ok, rep, m, n = hyp(R)
            if R.blocked("result"): return
            i, j = R.v("i"), R.v("j"); good = bands(h, ok, rep, b_ult(i, m), b_ult(j, n))
            hs = heaps(R)
            if len(hs) != 1: R.add("the result holds the product", "open", "analysis", "%d allocations" % len(hs)); return
            o = hs[0][0].d["o"]; v = R.st.st.get(o)
            if not isinstance(v, Arr): R.add("the result holds the product", "open", "analysis", repr(v)[:200]); return
            R.eq("element (i, j) of the result is what the kernel left at its position", good, R.val, sel_leaf(v.m, pos(m, n).raw(i, j), (), ("f", 64)))
            ks = [(c, k) for e, c, l in R.events("kernel") for c2, o2, k in e.d["after"] if o2 is o]
            if not ks: R.add("the result holds the product", "open", "analysis", "no kernel writes the result"); return
            want = UNDEF
            for c, k in ks: want = vite(c, sel_leaf(k, pos(m, n).raw(i, j), (), ("f", 64)), want)
            R.eq("nothing but the kernel writes the result", good, R.val, want)
            for c, k in ks: R.eq("the memory the kernel adds to is zero", band(good, c), sel_leaf(k.a[1], pos(m, n).raw(i, j), (), ("f", 64)), fc(0.0, 64))
        out.append(Root("val_" + nm, ps + [("i", "usize"), ("j", "usize")], "f64", body + "r.get(i, j)", val, F, deep=deep or nm.endswith(("vecvec", "mutvec", "vecmut"))))
    return out

def extra(quick):
    vec = "GenericBaseMatrixMut<f64, %s, VectorContainer<f64>, %s, %s>"
    ws = [tw.W("dot_type", "the product of a row vector and a matrix is a row vector, of a matrix and a column vector a column vector, else a matrix", None,
               "pub fn w(m: %s, r: %s, c: %s) { let _a: %s = m.dot(&m); let _b: %s = r.dot(&m); let _c: %s = m.dot(&c); }" % (
                   (vec % ("RowMajor", "Dynamic", "Dynamic"), vec % ("RowVector", "Fixed1", "Dynamic"), vec % ("ColumnVector", "Dynamic", "Fixed1")) * 2), (), F)]
    for i, (l, r) in enumerate((("UpperTriangular", "RowMajor"), ("RowMajor", "UpperTriangular"))):
        ws.append(tw.W("tri%d" % i, "a layout without strides is refused as an operand of a product", "pub fn w(a: %s, b: %s) { let _c = a.dot(&b); }" % (vec % (l, "Dynamic", "Dynamic"), vec % (r, "Dynamic", "Dynamic")),
                       "pub fn w(a: %s, b: %s) { let _c = a.dot(&b); }" % ((vec % ("RowMajor", "Dynamic", "Dynamic"),) * 2), ("E0277", "E0308", "E0599", "E0271"), F))
    return tw.run("C14", ws)
