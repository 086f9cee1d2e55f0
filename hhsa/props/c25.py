"""C25: simultaneously live mutable views never expose the same memory.

Rule: for every pair of views handed out together, the storage position reachable through the one by
any safe means (element access, 1d access, raw slice, sub-block) differs from every position reachable
through the other; positions are compared as values of the two resulting references."""
from ..core import *
from ..lay import *
from ..exprs import *
from .c13 import base

LEVEL = "proof"
PRE = PRELUDE
F = "src/matrix/matrix_slices.rs split_in_four_mut"
U = "usize"
MEANS = {"get": (("i", "j"), "%s.get_mut({i}, {j})"), "get1d": (("i",), "%s.get1d_mut({i})"), "slice": (("i",), "&mut %s.get_slice_mut(0, {i} + 1)[{i}]"),
         "block": (("r", "c", "h", "w", "i", "j"), "%s.block_mut(({r}, {c}), ({h}, {w})).get_mut({i}, {j})")}

def row(R, lf, means, part, x):
    """row inside its part of the element reached by this means; None for raw slices"""
    if means == "get": return R.v(x + "i")
    if means == "block": return padd(R.v(x + "r"), R.v(x + "i"))
    if means == "get1d": return p_udiv(R.v(x + "i"), R.v("c") if part in (0, 2) else psub(lf.l.of(R).dim()[1], R.v("c")))

def roots():
    out = []
    for st in ("mut", "vec", "arr"):
        lf = Leaf("RM", store=st, N=24 if st == "arr" else None)
        for p, q in ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)):
            for a, b in (("get", "get"), ("get1d", "get1d"), ("slice", "slice"), ("slice", "get"), ("get", "slice"), ("get", "get1d"), ("block", "get"), ("block", "block")):
                if st != "mut" and (a, b) not in (("get", "get"), ("slice", "slice")): continue
                (na, ca), (nb, cb) = MEANS[a], MEANS[b]
                ca = ca.format(**{x: "p" + x for x in na}); cb = cb.format(**{x: "q" + x for x in nb})
                ps = lf.params() + [("r", U), ("c", U)] + [("p" + x, U) for x in na] + [("q" + x, U) for x in nb]
                body = "    let mut z = %s;\n    let (mut p0, mut p1, mut p2, mut p3) = z.split_in_four_mut((r, c));\n" % lf.e
                for v, n, x in (("x", p, ca), ("y", q, cb)):
                    body += "    let %s: *mut f64 = %s;\n" % (v, x % ("p%d" % n))
                body += "    (x, y)"
                def f(R, lf=lf, p=p, q=q, a=a, b=b):
                    if R.blocked("the views are disjoint"): return
                    for c1, o1, i1 in base(R, R.val.f[0]):
                        for c2, o2, i2 in base(R, R.val.f[1]):
                            h = bands(R.ret, c1, c2)
                            if o1 is None or o2 is None: R.add("the two views do not reach the same element", "open", "analysis", "pointer"); continue
                            if o1 is not o2: R.add("the two views do not reach the same element", "proved", "different objects"); continue
                            r1, r2 = (row(R, lf, x, y, z) for x, y, z in ((a, p, "p"), (b, q, "q")))
                            same = r1 is not None and r2 is not None and (p, q) in ((0, 1), (2, 3))
                            for k in (b_ult(r1, r2), b_ult(r2, r1), b_eq(r1, r2)) if same else (TRUE,):
                                R.need("the two views do not reach the same element", band(h, k), bnot(b_eq(i1, i2)))
                out.append(Root("%s_%d_%s_%d_%s" % (st, p, a, q, b), ps, "(*mut f64, *mut f64)", body, f, F, deep="block" in (a, b) and not ((a, b) == ("block", "get") and (p, q) == (0, 2)) or "get1d" in (a, b) and (p, q) not in ((0, 1), (0, 2)) or st != "mut" and (p, q) not in ((0, 1), (0, 2))))
    return out
