"""C12: expressions are lazy, and evaluation makes a single pass without temporaries."""
from ..core import *
from ..lay import *
from ..exprs import *
from . import c09, c11

LEVEL = "proof"
PRE = PRELUDE
ASSUME = ["an element access is an access of the compiled program before optimisation (MIR) to the storage of an operand; memory is allocated where the program calls the allocator"]
TOUCH = ("write", "copy", "fill", "write_range")

def mayalloc(x):
    """allocation, or a call into the allocating part of the standard library that is not resolved"""
    return x.k == "alloc" or x.k == "unknown" and any(t in str(x.d.get("path")) for t in ("alloc::", "std::vec", "std::boxed", "std::rc", "std::sync", "std::collections", "std::string"))
def zero(v):
    """the constant 0: clearing the new storage is not computing an element"""
    return all(zero(x) for x in v.f) if isinstance(v, Agg) else v in (fc(0.0, 64), fc(0.0, 32))

def reads(o):
    """reads of an element of o; one that goes by its real and its imaginary part is one"""
    return lambda x: x.k == "read" and x.d.get("o") is o and not any(r[0] == "f" and r[1] != 0 for r in x.d.get("rest", ()))

def roots():
    out = []
    for nm, e, deep in c09.kinds():
        if any(x.N for x in e.leaves()): continue
        an = "src/addition.rs" if isinstance(e, Sum) else "src/scalar_mult.rs"
        body = lambda x: "%s\n    let z = %s;\n    %s" % ("\n".join(e.lets), e.e, x)
        def f(R, e=e):
            h = okay(e, R)
            R.untouched("forming the expression touches no element", h, stores(e), kinds=R.ACCESS)
            R.counted("forming the expression allocates nothing", h, mayalloc, pc(0))
        out.append(Root("form_" + nm, e.params(), "()", body("()"), f, an, deep=deep))
        for kind, ix in (("get", ("i", "j")), ("get1d", ("k",))):
            def g(R, e=e, ix=ix):
                h = bands(okay(e, R), inb(e, R, R.v("i"), R.v("j")) if len(ix) == 2 else b_ult(R.v("k"), e.nel(R)))
                if R.blocked("element"): return
                for n in stores(e):
                    R.counted("reading one element reads one element of operand %s" % n, h, reads(R.obj(n)), pc(1))
                R.untouched("reading one element writes nothing", h, stores(e), kinds=TOUCH)
                R.counted("reading one element allocates nothing", h, mayalloc, pc(0))
            out.append(Root("%s_%s" % (kind, nm), e.params() + [(n, "usize") for n in ix], e.item, body("z.%s(%s)" % (kind, ", ".join(ix))), g, an, deep=deep or nm.startswith("mixed") and kind == "get1d"))
    for nm, e, deep in c11.kinds():
        if isinstance(e, (Leaf, Ref, RefMut)) and nm not in ("RM", "UT"): continue
        body = lambda x: "%s\n    let z = %s;\n    let w = z.eval();\n    %s" % ("\n".join(e.lets), e.e, x)
        def v(R, e=e):
            h = okay(e, R)
            if R.blocked("evaluation"): return
            R.counted("evaluation allocates the elements of the result and nothing else", h, mayalloc, e.nel(R), weight=lambda x: x.d["n"] if x.k == "alloc" else pc(1))
            for n in stores(e):
                R.counted("evaluation reads each operand once per element (operand %s)" % n, h, reads(R.obj(n)), e.nel(R))
            R.untouched("evaluation writes no operand", h, stores(e), kinds=TOUCH)
            heaps = {id(x.d["o"]) for x, c, l in R.events("alloc")}
            R.counted("evaluation writes each element of the result once", h, lambda x: x.k == "write" and id(x.d.get("o")) in heaps and not zero(x.d.get("v")), e.nel(R))
        out.append(Root("eval_" + nm, e.params(), "()", body("()"), v, "src/matrix/common_impl.rs eval", deep=deep))
    return out
