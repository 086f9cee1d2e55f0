"""C16: element-wise mutation and random filling visit every element exactly once."""
from ..core import *
from ..lay import *
from ..exprs import *

LEVEL = "proof"
PRE = PRELUDE + """
#[inline(never)] pub fn opaque_g(v: f64, c: usize) -> f64 { v + c as f64 }
#[inline(never)] pub fn opaque_h(v: f32, c: usize) -> f32 { v + c as f32 }
#[inline(never)] pub fn opaque_u64(n: usize) -> u64 { n as u64 }
#[inline(never)] pub fn opaque_u32(n: usize) -> u32 { n as u32 }
/// a generator that counts its draws
pub struct Gen { pub n: usize }
impl rand::RngCore for Gen {
    fn next_u32(&mut self) -> u32 { self.n = self.n.wrapping_add(1); opaque_u32(self.n) }
    fn next_u64(&mut self) -> u64 { self.n = self.n.wrapping_add(1); opaque_u64(self.n) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { self.n = self.n.wrapping_add(1); }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> std::result::Result<(), rand::Error> { self.n = self.n.wrapping_add(1); Ok(()) }
}
"""
ASSUME = ["the callable handed to for_each is a function of the element and of its own state",
          "rand_distr::StandardNormal draws one sample from the generator it is given per call (dependency, not analysed); C28 is not claimed"]
FE = "src/matrix/base_methods.rs for_each"; FR = "src/matrix/random.rs"
U = "usize"
CALL = {"f64": "*v = opaque_g(*v, c);", "f32": "*v = opaque_h(*v, c);",
        "c64": "*v = c64::new(opaque_g(v.re, c), opaque_g(v.im, c));", "c32": "*v = c32::new(opaque_h(v.re, c), opaque_h(v.im, c));"}

def noalias(l, R):
    """different elements are stored at different positions (with room to spare)"""
    q = l.of(R)
    if l.key == "ASRM": return bands(b_ult(pc(0), q.q["c"]), mulok(q.q["n"], q.q["c"]), b_ule(pmul(q.q["n"], q.q["c"]), q.q["r"]))
    if l.key == "ASCM": return bands(b_ult(pc(0), q.q["r"]), mulok(q.q["m"], q.q["r"]), b_ule(pmul(q.q["m"], q.q["r"]), q.q["c"]))
    if l.key in ("ASRV", "ASCV"): return b_ult(pc(0), q.q["d"])
    return TRUE

def leaves_of(v, path=()):
    if isinstance(v, Agg):
        if len(v.f) == 1: yield from leaves_of(v.f[0], path)
        else:
            for i, x in enumerate(v.f): yield from leaves_of(x, path + (i,))
    else: yield path, v

def nth(v, fn, start, per):
    """v is the uninterpreted fn applied to a running number: its element index (number - start) / per"""
    for p, x in leaves_of(v):
        if not (isinstance(x, T) and x.op == "app" and x.a[0].startswith(fn)): return None
    first = next(leaves_of(v))[1]
    k = psub(first.a[-1], start)
    if per == 1: return k
    d = {}
    for m, c in k.t:
        if c % per: return None
        d[m] = c // per
    return tt._mk(k.w, d)

def visits(R, h, objs, fn, start, per, raw1, nel, what):
    """the writes: one per element, in 1d order"""
    R.counted("%s as many writes as elements" % what, h, lambda x: x.k == "write" and id(x.d.get("o")) in objs, nel)
    R.counted("no write in bulk", h, lambda x: x.k in ("copy", "fill") and id(x.d.get("o")) in objs, pc(0))
    for e, c, loops in R.events("write"):
        if id(e.d.get("o")) not in objs: continue
        hc = band(h, c)
        if hc == FALSE: continue
        k = nth(e.d["v"], fn, start, per)
        at = "%s %s" % (e.fn, e.at)
        if k is None:
            R.add("the value written at %s belongs to its position" % what, "open", "analysis", "value %r" % (e.d["v"],), at); continue
        R.need("%s the k-th write goes to element k" % what, hc, b_eq(e.d["i"], raw1(k)), at=at, loops=loops)

def kinds():
    out = []
    for l in ALL: out.append(("%s_f64" % l.key, l, "f64", "mut", False))
    for l in ("RM", "UT", "CV", "CM"): out.append(("%s_vec" % l, LAYS[l], "f64", "vec", False))
    for it in ("c64", "f32", "c32"):
        for l in ("RM", "ASCM", "RV"): out.append(("%s_%s" % (l, it), LAYS[l], it, "mut", it != "c64"))
    return out

def blocks():
    out = []
    for l in ("RM", "CM", "ASRM", "ASCM"): out.append(("block_" + l, Blk(Leaf(l, store="mut"), "b", True), l[0] == "A" and l != "ASRM"))
    return out

def contig(l): return l.key in ("RM", "CM", "RV", "CV", "UT")

def comp(R, x, pos, it, f):
    w = BITS[it]
    if cplx(it): return agg([f(R.elem(x, pos, ("f", w), (i,)), i) for i in (0, 1)])
    return f(R.elem(x, pos, ("f", w)), 0)
def fin(R, x, pos, it):
    m = R.final(x).m; w = BITS[it]
    if cplx(it): return agg([sel_leaf(m, pos, (i,), ("f", w)) for i in (0, 1)])
    return sel_leaf(m, pos, (), ("f", w))

def roots():
    out = []
    for nm, l, it, store, deep in kinds():
        ps, e = mat(l, "", it, store)
        fn = "opaque_g" if BITS[it] == 64 else "opaque_h"
        def fe(R, l=l, it=it, fn=fn):
            q = l.of(R); h = built(R, l); c0 = R.v("c0")
            if R.blocked("visit"): return
            R.accept("for_each completes", h)
            R.eq("the callable is called once per element", h, R.val, padd(c0, q.nel()))
            R.counted("the callable is called once per element (calls)", h, lambda x: x.k == "opaque", pmul(q.nel(), pc(2 if cplx(it) else 1)))
            visits(R, h, {id(R.obj("x"))}, fn, c0, 1, q.raw1, q.nel(), "for_each:")
            t = R.v("t")
            ht = bands(h, b_ult(t, R.len("x")))
            if contig(l):
                R.eq("the storage holds the results of the calls, in order", ht, fin(R, "x", t, it),
                     vite(b_ult(t, q.nel()), comp(R, "x", t, it, lambda v, i: tm("app", fn, v, padd(c0, t))), pick(R, "x", t, it)))
            else:
                hk = bands(h, noalias(l, R))
                for ev_, c, loops in R.events("write", on=R.obj("x")):
                    k = nth(ev_.d["v"], fn, c0, 1)
                    if k is None: continue
                    for (p, x), (_, w) in zip(leaves_of(ev_.d["v"]), leaves_of(pick(R, "x", q.raw1(k), it))):
                        a = x.a[1]
                        if isinstance(a, T) and a.op == "msel" and a.a[2] == p and from_init(a.a[0], R.init[R.obj("x")].m):
                            R.need("the callable gets the element it writes", band(h, c), b_eq(a.a[1], ev_.d["i"]), loops=loops)
                        else: R.eq("the callable gets the element it writes", band(hk, c), a, w)
        out.append(Root("each_" + nm, ps + [("c0", U), ("t", U)], U, "    let mut z = %s; let mut c = c0;\n    z.for_each(|v| { %s c = c.wrapping_add(1); });\n    c" % (e, CALL[it]), fe, FE, deep=deep))
        def fill(R, l=l, it=it):
            q = l.of(R); h = built(R, l); n0 = R.v("n0"); per = 2 if cplx(it) else 1; w = BITS[it]
            if R.blocked("fill"): return
            R.accept("filling completes", h)
            R.counted("no other source of randomness is used", h, lambda x: x.k == "thread_rng" or x.k == "draw" and "n" not in x.d, pc(0))
            R.eq("the generator is advanced by one draw per real number", h, R.val, padd(n0, pmul(q.nel(), pc(per))))
            R.counted("one draw per real number", h, lambda x: x.k == "draw", pmul(q.nel(), pc(per)))
            visits(R, h, {id(R.obj("x"))}, "normal.f%d" % w, n0, per, q.raw1, q.nel(), "filling:")
            for ev_, c, loops in R.events("write", on=R.obj("x")):
                k = nth(ev_.d["v"], "normal.f%d" % w, n0, per)
                if k is None: continue
                for i, (p, x) in enumerate(leaves_of(ev_.d["v"])):
                    R.eq("component %d of the k-th element is draw number %s" % (i, "2k + %d" % i if per == 2 else "k"), band(h, c), x, tm("app", "normal.f%d" % w, padd(padd(n0, pmul(k, pc(per))), pc(i))))
            if contig(l):
                t = R.v("t")
                draw = lambda v, i: tm("app", "normal.f%d" % w, padd(padd(n0, pmul(t, pc(per))), pc(i)))
                R.eq("the storage holds the draws in order", bands(h, b_ult(t, R.len("x"))), fin(R, "x", t, it), vite(b_ult(t, q.nel()), comp(R, "x", t, it, draw), pick(R, "x", t, it)))
        out.append(Root("fill_" + nm, ps + [("n0", U), ("t", U)], U, "    let mut z = %s; let mut g = Gen { n: n0 };\n    z.fill_from_rand_standard_normal(&mut g);\n    g.n" % e, fill, FR, deep=deep))
    for nm, e, deep in blocks():
        raw1 = lambda R, e=e: (lambda k: e.raw(R, *e.to2(R, k)))
        def fb(R, e=e, raw1=raw1):
            h = okay(e, R); c0 = R.v("c0")
            if R.blocked("visit"): return
            R.accept("for_each completes", h)
            R.eq("the callable is called once per element", h, R.val, padd(c0, e.nel(R)))
            visits(R, h, {id(R.obj("x"))}, "opaque_g", c0, 1, raw1(R), e.nel(R), "for_each:")
        out.append(Root("each_" + nm, e.params() + [("c0", U)], U, "%s\n    let mut z = %s; let mut c = c0;\n    z.for_each(|v| { %s c = c.wrapping_add(1); });\n    c" % ("\n".join(e.lets), e.e, CALL["f64"]), fb, FE, deep=deep))
        def ff(R, e=e, raw1=raw1):
            h = okay(e, R); n0 = R.v("n0")
            if R.blocked("fill"): return
            R.accept("filling completes", h)
            R.eq("the generator is advanced by one draw per real number", h, R.val, padd(n0, e.nel(R)))
            visits(R, h, {id(R.obj("x"))}, "normal.f64", n0, 1, raw1(R), e.nel(R), "filling:")
        out.append(Root("fill_" + nm, e.params() + [("n0", U)], U, "%s\n    let mut z = %s; let mut g = Gen { n: n0 };\n    z.fill_from_rand_standard_normal(&mut g);\n    g.n" % ("\n".join(e.lets), e.e), ff, FR, deep=deep))
    # arrays on the stack, read back through the matrix
    for l, r, c in (("RM", 2, 3), ("CM", 3, 2), ("RM", 3, 3), ("CM", 1, 2)):
        ps, e = mat(LAYS[l], "", "f64", "arr", "Fixed%d" % r, "Fixed%d" % c, r * c)
        ps = [p for p in ps if p[0] == "x"]; e = e.replace("(m, n)", "(%d, %d)" % (r, c))
        def fa(R, N=r * c):
            t = R.v("t"); h = b_ult(t, pc(N))
            R.accept("completes", h)
            for k in range(N): R.eq("element %d holds the result of call %d" % (k, k), b_eq(t, pc(k)), R.val, tm("app", "opaque_g", pick(R, "x", pc(k), "f64"), padd(R.v("c0"), pc(k))))
        out.append(Root("each_arr_%s%d%d" % (l, r, c), ps + [("c0", U), ("t", U)], "f64", "    let mut z = %s; let mut c = c0;\n    z.for_each(|v| { %s c = c.wrapping_add(1); });\n    z.get1d(t)" % (e, CALL["f64"]), fa, FE))
    # random scalars
    for it in ("f64", "f32", "c64", "c32"):
        def rs(R, it=it):
            n0 = R.v("n0"); w = BITS[it]
            d = lambda i: tm("app", "normal.f%d" % w, padd(n0, pc(i)))
            if R.blocked("scalar"): return
            R.accept("a random scalar is drawn", TRUE)
            R.eq("a random scalar is the next draw (real part first)", TRUE, R.val.f[0], agg([d(0), d(1)]) if cplx(it) else d(0))
            R.eq("drawing a random scalar advances the generator by its number of real parts", TRUE, R.val.f[1], padd(n0, pc(2 if cplx(it) else 1)))
        out.append(Root("scalar_" + it, [("n0", U)], "(%s, usize)" % it, "    let mut g = Gen { n: n0 };\n    let v = <%s as RandScalar>::random_scalar(&mut g, &rand_distr::StandardNormal);\n    (v, g.n)" % it, rs, "src/tools.rs"))
    return out

def from_init(m, init, depth=0):
    """the contents m came about by writes to init"""
    if m is init: return True
    if depth > 20: return False
    if m.op == "store" or m.op == "copy": return from_init(m.a[0], init, depth + 1)
    if m.op == "mite": return from_init(m.a[1], init, depth + 1) and from_init(m.a[2], init, depth + 1)
    if m.op == "rec":
        st = m.a[0].keys.get(m.a[1])
        return st is not None and isinstance(st[0], M) and from_init(st[0], init, depth + 1)
    return False
