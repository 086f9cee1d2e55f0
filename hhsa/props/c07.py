"""C07: block requests that leave the parent matrix are rejected, all others are granted."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE

def roots():
    out = []
    def add(nm, e, deep=False):
        def chk(R):
            R.reject("a block leaving the parent panics", band(e.m.built(R), bnot(e.fits(R))))
            R.accept("a block inside the parent is granted", e.built(R))
            R.untouched("no element is touched", e.m.built(R), stores(e), kinds=("read", "write", "copy", "fill", "unchecked", "write_range"))
        out.append(Root(nm, e.params(), "()", "    %s\n    let b = %s;" % ("\n    ".join(e.lets), e.e), chk, "src/matrix/matrix_slices.rs " + ("block_mut" if e.mut else "block"), deep=deep))
    for l in MATS:
        add("block_" + l.key, Blk(Leaf(l)))
        add("block_mut_" + l.key, Blk(Leaf(l, store="mut"), mut=True))
        add("block_vec_" + l.key, Blk(Leaf(l, store="vec")))
        add("block_nested_" + l.key, Blk(Blk(Leaf(l), "a"), "b"))
        add("block_mut_nested_" + l.key, Blk(Blk(Leaf(l, store="mut"), "a", True), "b", True), deep=True)
    return out
