"""C13: matmul computes C = alpha*A*B + beta*C on the right data, or refuses."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE
ASSUME = ["the gemm kernels of the matrixmultiply crate compute C = alpha*A*B + beta*C for the dimensions, pointers and strides they are given, and write to C only (dependency, not analysed)"]
F = "src/matrix_multiply.rs matmul"
KERNEL = {"f64": "dgemm", "f32": "sgemm", "c64": "zgemm", "c32": "cgemm"}
SHAPES = {"mm": (("Dynamic", "Dynamic"), ("Dynamic", "Dynamic"), ("Dynamic", "Dynamic")),
          "mv": (("Dynamic", "Dynamic"), ("Dynamic", "Fixed1"), ("Dynamic", "Fixed1")),
          "vm": (("Fixed1", "Dynamic"), ("Dynamic", "Dynamic"), ("Fixed1", "Dynamic"))}

def call(it, shape, a, b, c):
    (r1, c1), (r2, c2), (r3, c3) = SHAPES[shape]
    return "    <%s as MatMul<%s, _, _, _, _, _, _, %s, %s, %s, %s, %s, %s>>::matmul(alpha, %s, %s, beta, %s);" % (it, it, r1, r2, c1, c2, r3, c3, a, b, c)

def kinds():
    out = []
    def add(sh, it, la, lb, lc, sa="slice", sb="slice", sc="mut", deep=False):
        s = SHAPES[sh]
        L = lambda l, x, st, z: Leaf(l, x, store=st, item=it, rs=z[0], cs=z[1])
        out.append(("%s_%s_%s_%s_%s%s" % (sh, it, la, lb, lc, "" if (sa, sb, sc) == ("slice", "slice", "mut") else "_" + sa + sb + sc), sh, it, L(la, "a", sa, s[0]), L(lb, "b", sb, s[1]), L(lc, "c", sc, s[2]), deep))
    M = ("RM", "CM", "ASRM", "ASCM"); V = (("CV", "ASCV"), ("RV", "ASRV"))
    for i, it in enumerate(("f64", "f32", "c64", "c32")):
        # every layout in every role, for every scalar type
        for j in range(4): add("mm", it, M[j], M[(j + 1 + i) % 4], M[(j + 2 * i + 3) % 4], deep=it in ("f32", "c32") and j > 1)
        for j in range(4): add("mv", it, M[j], V[0][j % 2], V[0][(j // 2 + i) % 2], deep=j > 1 or it == "f32")
        for j in range(4): add("vm", it, V[1][j % 2], M[j], V[1][(j // 2 + i) % 2], deep=j > 1 or it == "f32")
    add("mm", "f64", "RM", "CM", "RM", "vec", "mut", "vec")
    add("mm", "c64", "CM", "RM", "CM", "mut", "vec", "vec", deep=True)
    add("mv", "f64", "RM", "ASCM", "ASRM")
    add("vm", "f64", "ASRM", "RM", "ASCM")
    for a in M:
        for b in M:
            for c in M: add("mm", "f64", a, b, c, "vec", "slice", "mut", deep=True)
    return out

def scalar(R, n, item): return R.v(n)

def base(R, v):
    """base position of a pointer argument: [(condition, object, raw position)]"""
    while isinstance(v, Opq) and v.why == "ptrcast": v = v.a[0]
    out = []
    for c, p in ptrs(v):
        if p is None or len(p.p) < 1: out.append((c, None, None)); continue
        x = [q for q in p.p if q[0] == "x"]
        out.append((c, p.o, x[-1][1] if x else pc(0)))
    return out

def flat(v):
    """a scalar given as value, pair or array of two"""
    if isinstance(v, Arr): return agg([sel_leaf(v.m, pc(i), (), None) if False else v for i in range(2)])
    return v

def pair(R, v, k, bits):
    """component k of [re, im]"""
    if isinstance(v, Arr): return sel_leaf(v.m, pc(k), (), ("f", bits))
    if isinstance(v, Agg):
        while len(v.f) == 1 and isinstance(v.f[0], (Agg, Arr)): v = v.f[0]
        if isinstance(v, Arr): return pair(R, v, k, bits)
        return v.f[k]
    return v

def kernel_claims(R, item, ok, A_, B_, C_, alpha, beta, desc=""):
    """A_, B_, C_: (storage name, dim, stride or None per direction)"""
    (m, k), n = A_[1], B_[1][1]
    evs = list(R.events("kernel"))
    real = bands(ok, b_ult(pc(0), m), b_ult(pc(0), n))
    w = BITS[item]
    R.counted(desc + "the kernel is called exactly once", real, lambda x: x.k == "kernel", pc(1))
    R.need(desc + "the kernel is called at most once", ok, b_ule(R.count(ok, lambda x: x.k == "kernel") if R.count(ok, lambda x: x.k == "kernel") is not None else pc(0), pc(1)))
    for e, c, loops in evs:
        h = band(real, c)
        if h == FALSE: continue
        at = "%s %s" % (e.fn, e.at)
        nm, args = e.d["name"], list(e.d["args"])
        if nm != KERNEL[item]:
            R.need(desc + "the kernel for %s is called (found %s)" % (item, nm), h, FALSE, at=at); continue
        R.add(desc + "the kernel for %s is called" % item, "proved", "structural", at=at)
        if cplx(item):
            for i, nmx in ((0, "A"), (1, "B")):
                t = args[i]
                tag = t.tag if isinstance(t, Enum) else t
                R.eq(desc + "%s is not conjugated" % nmx, h, tag, pc(0, tag.w) if isinstance(tag, P) else tag, at)
                if not isinstance(tag, P): R.add(desc + "%s is not conjugated" % nmx, "open", "analysis", repr(t)[:100], at)
            args = args[2:]
        gm, gk, gn, ga, pa_, rsa, csa, pb_, rsb, csb, gb, pc_, rsc, csc = args
        for what, g, o in (("number of rows of A", gm, m), ("inner dimension", gk, k), ("number of columns of B", gn, n)):
            R.eq(desc + "the kernel gets the " + what, h, g, o, at)
        for what, g, o in (("alpha", ga, alpha), ("beta", gb, beta)):
            if cplx(item):
                for i, pn in ((0, "real"), (1, "imaginary")): R.eq(desc + "the kernel gets the %s part of %s" % (pn, what), h, pair(R, g, i, w), o.f[i], at)
            else: R.eq(desc + "the kernel gets " + what, h, g, o, at)
        inner = b_ult(pc(0), k)
        for what, ptr_, rs, cs, (name, d, st), hh in (("A", pa_, rsa, csa, A_, band(h, inner)), ("B", pb_, rsb, csb, B_, band(h, inner)), ("C", pc_, rsc, csc, C_, h)):
            for c2, o, i in base(R, ptr_):
                h2 = band(hh, c2)
                want = name if isinstance(name, Obj) else R.obj(name)
                if o is not want: R.need(desc + "the kernel gets the data of " + what, h2, FALSE, at=at)
                else: R.eq(desc + "the kernel gets the data of %s from its first element" % what, h2, i, pc(0), at)
            if st[0] is not None: R.eq(desc + "the kernel gets the row stride of " + what, band(hh, b_ult(pc(1), d[0])), rs, st[0], at)
            if st[1] is not None: R.eq(desc + "the kernel gets the column stride of " + what, band(hh, b_ult(pc(1), d[1])), cs, st[1], at)

def true_stride(l, q):
    if l.vec:
        d = q.q.get("d", pc(1))
        return (None, d) if l.row else (d, None)
    return q.stride()

def operand(R, leaf): 
    q = leaf.l.of(R, leaf.x)
    return (leaf.x + "x", q.dim(), true_stride(leaf.l, q))

def fixed(leaf, R):
    h = TRUE
    if leaf.l.vec: return h
    m, n = leaf.dim(R)
    if leaf.rs == "Fixed1": h = band(h, b_eq(m, pc(1)))
    if leaf.cs == "Fixed1": h = band(h, b_eq(n, pc(1)))
    return h

def roots():
    out = []
    for nm, sh, it, a, b, c, deep in kinds():
        def chk(R, it=it, a=a, b=b, c=c):
            h = bands(*[x.built(R) for x in (a, b, c)] + [fixed(x, R) for x in (a, b, c)])
            (m, k), (k2, n), (m3, n3) = a.dim(R), b.dim(R), c.dim(R)
            ok = bands(b_eq(k, k2), b_eq(m, m3), b_eq(n, n3))
            bad = band(h, bnot(ok)); good = band(h, ok)
            R.reject("operands whose dimensions do not match panic", bad)
            R.counted("a refused product does not call the kernel", bad, lambda x: x.k == "kernel", pc(0))
            R.untouched("a refused product does not change C", bad, ["cx"])
            R.accept("operands whose dimensions match are accepted", good)
            R.untouched("A and B are not written", h, ["ax", "bx"])
            if R.blocked("kernel"): return
            kernel_claims(R, it, good, operand(R, a), operand(R, b), operand(R, c), R.v("alpha"), R.v("beta"))
            R.untouched("C is written by the kernel only", good, ["cx"])
        ps = a.ps + b.ps + c.ps
        body = "    let a = %s;\n    let b = %s;\n    let mut c = %s;\n" % (a.e, b.e, c.e) + call(it, sh, "&a", "&b", "&mut c")
        out.append(Root(nm, [("alpha", it), ("beta", it)] + ps, "()", body, chk, F, deep=deep))
    return out
