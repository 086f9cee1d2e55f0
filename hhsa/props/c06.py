"""C06: a block shows exactly the requested submatrix of its parent."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE

def read_roots(out, nm, e, deep=False, deep1=False):
    f = "src/matrix/matrix_slices.rs"
    body = lambda x: "    %s\n    let b = %s;\n    %s" % ("\n    ".join(e.lets), e.e, x)
    def g(R):
        i, j = R.v("i"), R.v("j")
        h = band(e.built(R), inb(e, R, i, j))
        R.eq("element (i, j) of the block is element (r+i, c+j) of the parent", h, R.val, e.at(R, i, j))
        R.accept("element (i, j) of the block can be read", h)
    out.append(Root("get_" + nm, e.params() + [("i", "usize"), ("j", "usize")], e.item, body("b.get(i, j)"), g, f, deep=deep))
    def g1(R):
        k = R.v("k")
        h = band(e.built(R), b_ult(k, e.nel(R)))
        R.eq("element k of the block is the parent's element at the block's k-th position", h, R.val, e.at1(R, k))
        R.accept("element k of the block can be read", h)
    out.append(Root("get1d_" + nm, e.params() + [("k", "usize")], e.item, body("b.get1d(k)"), g1, f, deep=deep or deep1))
    def d(R):
        R.eq("the block has the requested dimension and number of elements", e.built(R), R.val, agg([agg(list(e.dim(R))), e.nel(R)]))
        R.accept("the block is built", e.built(R))
    out.append(Root("dim_" + nm, e.params(), "((usize, usize), usize)", body("(b.dim(), b.layout().number_of_elements())"), d, f, deep=deep or deep1))

def write_roots(out, nm, e, deep=False):
    f = "src/matrix/matrix_slices.rs"
    body = lambda x: "    %s\n    let mut b = %s;\n    %s" % ("\n    ".join(e.lets), e.e, x)
    nmx = e.root().x + "x"
    def s2(R):
        i, j, p = R.v("i"), R.v("j"), R.v("p")
        h = bands(e.built(R), inb(e, R, i, j), b_ult(p, R.len(nmx)))
        if R.blocked("write"): return
        R.eq("a write to (i, j) of the block changes exactly element (r+i, c+j) of the parent", h, R.at(R.final(nmx).m, p), vite(b_eq(p, e.raw(R, i, j)), R.v("v"), R.elem(nmx, p)))
        R.accept("element (i, j) of the block can be written", h)
    out.append(Root("set_" + nm, e.params() + [("i", "usize"), ("j", "usize"), ("v", "f64"), ("p", "usize")], "()", body("*b.get_mut(i, j) = v;"), s2, f, deep=deep))
    def s1(R):
        k, p = R.v("k"), R.v("p")
        h = bands(e.built(R), b_ult(k, e.nel(R)), b_ult(p, R.len(nmx)))
        if R.blocked("write"): return
        R.eq("a write to element k of the block changes exactly the parent's element there", h, R.at(R.final(nmx).m, p), vite(b_eq(p, e.raw(R, *e.to2(R, k))), R.v("v"), R.elem(nmx, p)))
        R.accept("element k of the block can be written", h)
    out.append(Root("set1d_" + nm, e.params() + [("k", "usize"), ("v", "f64"), ("p", "usize")], "()", body("*b.get1d_mut(k) = v;"), s1, f, deep=deep))

def roots():
    out = []
    for l in MATS:
        read_roots(out, l.key, Blk(Leaf(l)))
        read_roots(out, l.key + "_vec", Blk(Leaf(l, store="vec")), deep=l.key != "CM")
        read_roots(out, l.key + "_nested", Blk(Blk(Leaf(l), "a"), "b"), deep1=l.key[:2] == "AS")
        read_roots(out, l.key + "_mut", Blk(Leaf(l, store="mut"), mut=True), deep=l.strided and l.key[:2] == "AS")
        write_roots(out, l.key, Blk(Leaf(l, store="mut"), mut=True))
        write_roots(out, l.key + "_nested", Blk(Blk(Leaf(l, store="mut"), "a", True), "b", True), deep=l.key[:2] == "AS")
        read_roots(out, l.key + "_mixed", Blk(Blk(Leaf(l, store="mut"), "a", True), "b"), deep=True)
        read_roots(out, l.key + "_nested3", Blk(Blk(Blk(Leaf(l), "a"), "b"), "d"), deep=True)
    for k in ("CM", "ASRM"): read_roots(out, k + "_c64", Blk(Leaf(k, item="c64")))
    return out + [r.single() for r in out if r.name in ("get_RM", "get1d_ASCM", "get_RM_nested", "set_RM", "set1d_CM", "set_ASRM", "set_CM_nested")]
