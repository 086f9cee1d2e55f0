"""Matrix expressions as programs (Rust source) and as values (the oracle)."""
from .lay import *

BITS = {"f64": 64, "f32": 32, "c64": 64, "c32": 32}
def cplx(item): return item[0] == "c"

def sadd(item, a, b):
    w = BITS[item]
    if cplx(item): return agg([fop("fadd", a.f[0], b.f[0], w), fop("fadd", a.f[1], b.f[1], w)])
    return fop("fadd", a, b, w)
def smul(item, a, b):
    w = BITS[item]
    if cplx(item):
        p = lambda x, y: fop("fmul", x, y, w)
        return agg([fop("fsub", p(a.f[0], b.f[0]), p(a.f[1], b.f[1]), w), fop("fadd", p(a.f[0], b.f[1]), p(a.f[1], b.f[0]), w)])
    return fop("fmul", a, b, w)
def pick(R, name, pos, item):
    """element of the storage of a parameter at a raw position"""
    if cplx(item): return agg([R.elem(name, pos, ("f", BITS[item]), (0,)), R.elem(name, pos, ("f", BITS[item]), (1,))])
    return R.elem(name, pos, ("f", BITS[item]))
def sval(R, n):
    """value of a scalar parameter, complex numbers as a pair"""
    return R.v(n)

class E:
    """lets: statements; e: expression (owned value); r: expression usable after & (a place)"""
    lets = (); ps = (); store = None
    def leaves(s): return [s]
    def params(s): return list(s.ps)
    def place(s, nm):
        """(statements, name of a variable holding the expression)"""
        return s.lets + ("    let mut %s = %s;" % (nm, s.e),), nm
class Leaf(E):
    def __init__(s, l, x="", store="slice", item="f64", **kw):
        s.l = l if isinstance(l, Lay) else LAYS[l]; s.x = x; s.item = item; s.store = store
        s.ps, s.e = mat(s.l, x, item, store, **kw); s.e = "(" + s.e + ")";  s.rs = kw.get("rs") or s.l.rs; s.cs = kw.get("cs") or s.l.cs
        s.N = kw.get("N")
    def built(s, R): 
        q = s.l.of(R, s.x)
        return q.fits(pc(s.N) if s.N else R.len(s.x + "x"))
    def dim(s, R): return s.l.of(R, s.x).dim()
    def nel(s, R): return s.l.of(R, s.x).nel()
    def order(s): return s.l
    def at(s, R, i, j): return pick(R, s.x + "x", s.l.of(R, s.x).raw(i, j), s.item)
    def at1(s, R, k): return pick(R, s.x + "x", s.l.of(R, s.x).raw1(k), s.item)
    def tri(s): return s.l.key == "UT"
class Wrap(E):
    def __init__(s, m): s.m = m; s.item = m.item; s.ps = m.ps
    def leaves(s): return s.m.leaves()
    def built(s, R): return s.m.built(R)
    def dim(s, R): return s.m.dim(R)
    def nel(s, R): return s.m.nel(R)
    def order(s): return s.m.order()
    def at(s, R, i, j): return s.m.at(R, i, j)
    def at1(s, R, k): return s.m.at1(R, k)
    def tri(s): return s.m.tri()
_n = [0]
def fresh(): _n[0] += 1; return "t%d" % _n[0]
class Ref(Wrap):
    """reference wrapper"""
    def __init__(s, m):
        super().__init__(m); t = fresh()
        s.lets, n = m.place(t); s.e = "Matrix::from_ref(&%s)" % n
class RefMut(Wrap):
    def __init__(s, m):
        super().__init__(m); t = fresh()
        s.lets, n = m.place(t); s.e = "Matrix::new(MatrixRefMut::new(&mut %s))" % n
class Scale(Wrap):
    """form: lv (s * m), lr (s * &m), rv (m * s), rr (&m * s)"""
    def __init__(s, m, name="s", form="lv"):
        super().__init__(m); s.nm = name; s.ps = list(m.ps) + [(name, m.item)]
        if form[1] == "v": s.lets, o = m.lets, "(%s)" % m.e
        else:
            t = fresh(); s.lets, n = m.place(t); o = "&" + n
        s.e = "(%s * %s)" % ((name, o) if form[0] == "l" else (o, name))
    def at(s, R, i, j): return smul(s.item, R.v(s.nm), s.m.at(R, i, j))
    def at1(s, R, k): return smul(s.item, R.v(s.nm), s.m.at1(R, k))
class Sum(E):
    """form: vv, vr, rv, rr (operands by value or by reference)"""
    def __init__(s, a, b, form="vv"):
        s.a = a; s.b = b; s.item = a.item; s.ps = list(a.ps) + list(b.ps)
        s.lets = (); o = []
        for m, f in ((a, form[0]), (b, form[1])):
            if f == "v": s.lets += tuple(m.lets); o.append("(%s)" % m.e)
            else:
                t = fresh(); l, n = m.place(t); s.lets += tuple(l); o.append("&" + n)
        s.e = "(%s + %s)" % tuple(o)
    def leaves(s): return s.a.leaves() + s.b.leaves()
    def built(s, R): return band(s.a.built(R), s.b.built(R))
    def samedim(s, R):
        (a, b), (c, d) = s.a.dim(R), s.b.dim(R)
        return band(b_eq(a, c), b_eq(b, d))
    def alldims(s, R):
        c = s.samedim(R)
        for x in (s.a, s.b): c = band(c, dims_ok(x, R))
        return c
    def dim(s, R): return s.a.dim(R)
    def nel(s, R): return s.a.nel(R)
    def order(s): return s.a.order()
    def at(s, R, i, j): return sadd(s.item, s.a.at(R, i, j), s.b.at(R, i, j))
    def at1(s, R, k): return sadd(s.item, s.a.at1(R, k), s.b.at1(R, k))
    def tri(s): return s.a.tri()

def dims_ok(e, R):
    """the operands of all sums in e have equal dimensions"""
    if isinstance(e, Sum): return e.alldims(R)
    if isinstance(e, Wrap): return dims_ok(e.m, R)
    return TRUE
def okay(e, R): return band(e.built(R), dims_ok(e, R))
def inb(e, R, i, j, below=True):
    m, n = e.dim(R)
    h = band(b_ult(i, m), b_ult(j, n))
    if e.tri() and below: h = band(h, b_ule(i, j))
    return h
def stores(e): return [x.x + "x" for x in e.leaves()]

class Blk(E):
    """block of a matrix (a leaf or another block)"""
    def __init__(s, m, x="b", mut=False):
        s.m = m; s.x = x; s.mut = mut; s.item = m.item
        s.ps = list(m.ps) + [(x + n, "usize") for n in ("r", "c", "h", "w")]
        t = fresh(); l, n = m.place(t)
        s.lets = tuple(l); s.e = "%s.%s((%sr, %sc), (%sh, %sw))" % (n, "block_mut" if mut else "block", x, x, x, x)
    def leaves(s): return s.m.leaves()
    def q(s, R): return tuple(R.v(s.x + n) for n in ("r", "c", "h", "w"))
    def fits(s, R):
        m, n = s.m.dim(R); r, c, h, w = s.q(R)
        return bands(b_ule(r, m), b_ule(h, psub(m, r)), b_ule(c, n), b_ule(w, psub(n, c)))
    def built(s, R): return band(s.m.built(R), s.fits(R))
    def dim(s, R): return s.q(R)[2:]
    def nel(s, R): return pmul(*s.dim(R))
    def raw(s, R, i, j):
        r, c, h, w = s.q(R)
        i, j = padd(r, i), padd(c, j)
        return s.m.raw(R, i, j) if isinstance(s.m, Blk) else s.m.l.of(R, s.m.x).raw(i, j)
    def order(s): return s.m.order()
    def root(s): return s.m.root() if isinstance(s.m, Blk) else s.m
    def to2(s, R, k):
        h, w = s.dim(R)
        return (p_udiv(k, w), p_umod(k, w)) if s.order().order == "r" else (p_umod(k, h), p_udiv(k, h))
    def at(s, R, i, j): return pick(R, s.root().x + "x", s.raw(R, i, j), s.item)
    def at1(s, R, k): return s.at(R, *s.to2(R, k))
    def tri(s): return False
