"""Hash-consed terms of the value graph.

P  integer terms: polynomials modulo 2^w over atoms (sums of monomials with coefficients)
A  atoms of polynomials: variables, quotients, indicator of a condition, skolem functions, ...
B  conditions: BDDs over canonical comparison atoms
T  floating point terms (uninterpreted operations, commutative + and *)
M  array contents: initial / filled / listed / store / conditional / loop
"""
import sys
sys.setrecursionlimit(100000)

_next = [0]
def _nid():
    _next[0] += 1
    return _next[0]


# ------------------------------------------------------------------ atoms
class A:
    __slots__ = ("id", "k", "a", "w")
    tab = {}
    byid = {}
    def __repr__(s): return show_atom(s)

def atom(k, a, w):
    key = (k, a, w)
    x = A.tab.get(key)
    if x is None:
        x = A(); x.id = _nid(); x.k = k; x.a = a; x.w = w
        A.tab[key] = x; A.byid[x.id] = x
    return x


# ------------------------------------------------------------------ polynomials
class P:
    __slots__ = ("id", "w", "t")
    tab = {}
    def __repr__(s): return show(s)

def _mk(w, d):
    m = (1 << w) - 1
    t = []
    for k, c in d.items():
        c &= m
        if c: t.append((k, c))
    t.sort()
    t = tuple(t)
    key = (w, t)
    x = P.tab.get(key)
    if x is None:
        x = P(); x.id = _nid(); x.w = w; x.t = t
        P.tab[key] = x
    return x

def pc(c, w=64): return _mk(w, {(): c})
def pa(a): return _mk(a.w, {(a.id,): 1})
def var(name, w=64): return pa(atom("var", name, w))
def cval(p):
    """constant value of p or None"""
    t = p.t
    if not t: return 0
    if len(t) == 1 and t[0][0] == (): return t[0][1]
    return None
def sval(p):
    c = cval(p)
    if c is None: return None
    return c - (1 << p.w) if c >> (p.w - 1) else c

def padd(a, b):
    assert a.w == b.w, (a, b)
    if not a.t: return b
    if not b.t: return a
    d = dict(a.t)
    for k, c in b.t: d[k] = d.get(k, 0) + c
    return _mk(a.w, d)
def pneg(a): return _mk(a.w, {k: -c for k, c in a.t})
def psub(a, b):
    if a is b: return pc(0, a.w)
    return padd(a, pneg(b))
def pscale(a, c): return _mk(a.w, {k: c * x for k, x in a.t})

def _monomul(m1, m2):
    """product of monomials; indicator atoms are merged; returns None if it vanishes"""
    if not m1: return m2
    if not m2: return m1
    ids = list(m1) + list(m2)
    inds = None
    rest = []
    for i in ids:
        a = A.byid[i]
        if a.k == "ind":
            inds = a.a if inds is None else band(inds, a.a)
        else: rest.append(i)
    if inds is not None:
        if inds == FALSE: return None
        rest.append(atom("ind", inds, A.byid[ids[0]].w).id)
    rest.sort()
    return tuple(rest)

mkp = _mk
def pmul(a, b):
    assert a.w == b.w
    if len(a.t) > len(b.t): a, b = b, a
    d = {}
    for k1, c1 in a.t:
        for k2, c2 in b.t:
            k = _monomul(k1, k2)
            if k is None: continue
            d[k] = d.get(k, 0) + c1 * c2
    if len(d) > 4000:
        return pa(atom("mul", (a, b) if a.id < b.id else (b, a), a.w))
    return _mk(a.w, d)

def patoms(p):
    s = set()
    for k, _ in p.t: s.update(k)
    return s


# ------------------------------------------------------------------ BDDs
FALSE, TRUE = 0, 1
_bnode = {}        # id -> (var, hi, lo)
_buniq = {}
_batoms = []       # var index -> atom key
_bvar = {}         # atom key -> var index

class BA:
    """boolean atom"""
    __slots__ = ("k", "a", "v")
    def __repr__(s): return show_batom(s)

def batom(k, a):
    key = (k, a)
    x = _bvar.get(key)
    if x is None:
        x = BA(); x.k = k; x.a = a; x.v = len(_batoms)
        _bvar[key] = x; _batoms.append(x)
    return _bmk(x.v, TRUE, FALSE)

def _bmk(v, hi, lo):
    if hi == lo: return hi
    key = (v, hi, lo)
    n = _buniq.get(key)
    if n is None:
        n = len(_bnode) + 2
        _buniq[key] = n; _bnode[n] = key
    return n

_itec = {}
def bite(f, g, h):
    if f == TRUE: return g
    if f == FALSE: return h
    if g == h: return g
    if g == TRUE and h == FALSE: return f
    key = (f, g, h)
    r = _itec.get(key)
    if r is not None: return r
    v = min(_bnode[x][0] for x in (f, g, h) if x > 1)
    def cof(x, side):
        if x > 1 and _bnode[x][0] == v: return _bnode[x][1 if side else 2]
        return x
    r = _bmk(v, bite(cof(f, 1), cof(g, 1), cof(h, 1)), bite(cof(f, 0), cof(g, 0), cof(h, 0)))
    _itec[key] = r
    return r
def band(a, b): return bite(a, b, FALSE)
def bor(a, b): return bite(a, TRUE, b)
def bnot(a): return bite(a, FALSE, TRUE)
def bxor(a, b): return bite(a, bnot(b), b)
def bimp(a, b): return bnot(band(a, bnot(b))) == TRUE
def bands(*xs):
    r = TRUE
    for x in xs: r = band(r, x)
    return r
def bors(*xs):
    r = FALSE
    for x in xs: r = bor(r, x)
    return r

_resc = {}
def constrain(f, c):
    """generalised cofactor: a simpler f that agrees with f wherever c holds (Coudert/Madre restrict)"""
    if c == TRUE or f <= 1: return f
    if c == FALSE: return FALSE
    if f == c: return TRUE
    key = (f, c)
    r = _resc.get(key)
    if r is not None: return r
    vf, fh, fl = _bnode[f]
    vc, ch, cl = _bnode[c]
    if vc < vf:
        r = constrain(f, bor(ch, cl))
    elif vf < vc:
        r = _bmk(vf, constrain(fh, c), constrain(fl, c))
    elif ch == FALSE: r = constrain(fl, cl)
    elif cl == FALSE: r = constrain(fh, ch)
    else: r = _bmk(vf, constrain(fh, ch), constrain(fl, cl))
    _resc[key] = r
    return r

def bsupport(f, seen=None):
    out = set(); st = [f]; seen = set()
    while st:
        x = st.pop()
        if x <= 1 or x in seen: continue
        seen.add(x)
        v, h, l = _bnode[x]
        out.add(v); st.append(h); st.append(l)
    return out

class B:
    """boolean value (wrapper around a BDD id so that it is distinct from Python ints)"""
    __slots__ = ("b",)
    tab = {}
    def __repr__(s): return showb(s.b)
def bv(b):
    x = B.tab.get(b)
    if x is None:
        x = B(); x.b = b; B.tab[b] = x
    return x


# ------------------------------------------------------------------ indicators and integer comparisons
def ind(b, w=64):
    if b == TRUE: return pc(1, w)
    if b == FALSE: return pc(0, w)
    v, h, l = _bnode[b]
    # canonical: use the condition or 1 - its complement, whichever has the smaller id
    n = bnot(b)
    if n < b: return psub(pc(1, w), pa(atom("ind", n, w)))
    return pa(atom("ind", b, w))

def pite(c, a, b):
    if c == TRUE or a is b: return a
    if c == FALSE: return b
    return padd(b, pmul(ind(c, a.w), psub(a, b)))

def p_inds(p):
    return sorted({A.byid[i].a for k, _ in p.t for i in k if A.byid[i].k == "ind"})

def p_under(p, c):
    """p simplified where condition c holds (indicators only)"""
    if c == TRUE or c == FALSE: return p
    ch = False
    d = {}
    for k, co in p.t:
        nk = k; f = None
        for i in k:
            a = A.byid[i]
            if a.k == "ind":
                r = constrain(a.a, c)
                if r != a.a:
                    f = ind(r, p.w); nk = tuple(x for x in k if x != i); ch = True
                break
        if f is None: d[nk] = d.get(nk, 0) + co
        else:
            q = pmul(_mk(p.w, {nk: co}), f)
            for k2, c2 in q.t: d[k2] = d.get(k2, 0) + c2
    return _mk(p.w, d) if ch else p

def _split(ps, fn, depth=0):
    """case split on indicators inside the polynomials ps, combining boolean results"""
    for p in ps:
        i = p_inds(p)
        if i:
            if depth > 7: return None
            c = i[0]; n = bnot(c)
            h = _split([p_under(q, c) for q in ps], fn, depth + 1)
            l = _split([p_under(q, n) for q in ps], fn, depth + 1)
            if h is None or l is None: return None
            return bite(c, h, l)
    return fn(*ps)

def b_eq(a, b):
    if a is b: return TRUE
    return b_eq0(psub(a, b))

def b_eq0(p):
    r = _split([p], _eq0)
    if r is None: return batom("eq0", _eqcanon(p))
    return r
def _eqcanon(p):
    q = pneg(p)
    return p if p.id <= q.id else q
def _eq0(p):
    c = cval(p)
    if c is not None: return TRUE if c == 0 else FALSE
    if len(p.t) == 1 and p.t[0][1] in (1, (1 << p.w) - 1) and len(p.t[0][0]) == 1:
        a = A.byid[p.t[0][0][0]]
        if a.k == "zext": return b_eq0(a.a)
    # constant != atom range: zext(x) == c
    if len(p.t) == 2 and p.t[0][0] == () and len(p.t[1][0]) == 1:
        a = A.byid[p.t[1][0][0]]
        if a.k == "zext" and p.t[1][1] == 1:
            v = (-p.t[0][1]) & ((1 << p.w) - 1)
            if v >> a.a.w: return FALSE
            return b_eq0(psub(a.a, pc(v, a.a.w)))
    return batom("eq0", _eqcanon(p))

def b_ult(a, b):
    if a is b: return FALSE
    r = _split([a, b], _ult)
    if r is None: return batom("ult", (a, b))
    return r
def _ult(a, b):
    if a is b: return FALSE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None: return TRUE if ca < cb else FALSE
    if cb == 0: return FALSE
    if cb == 1: return b_eq0(a)
    if ca == 0: return bnot(b_eq0(b))
    if ca is not None and ca == (1 << a.w) - 1: return FALSE
    if len(a.t) == 1 and len(b.t) <= 1 and len(a.t[0][0]) == 1:
        x = A.byid[a.t[0][0][0]]
        if x.k == "zext" and a.t[0][1] == 1 and cb is not None:
            if cb >> x.a.w: return TRUE
            return b_ult(x.a, pc(cb, x.a.w))
    return batom("ult", (a, b))
def b_ule(a, b): return bnot(b_ult(b, a))
def b_slt(a, b):
    if a is b: return FALSE
    r = _split([a, b], _slt)
    if r is None: return batom("slt", (a, b))
    return r
def _slt(a, b):
    ca, cb = sval(a), sval(b)
    if ca is not None and cb is not None: return TRUE if ca < cb else FALSE
    if a is b: return FALSE
    return batom("slt", (a, b))
def b_addovf(a, b):
    if not a.t or not b.t: return FALSE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None: return TRUE if (ca + cb) >> a.w else FALSE
    if a.id > b.id: a, b = b, a
    r = _split([a, b], lambda x, y: _ovf("uaddovf", x, y, lambda p, q: p + q))
    return batom("uaddovf", (a, b)) if r is None else r
def b_mulovf(a, b):
    if a.id > b.id: a, b = b, a
    r = _split([a, b], lambda x, y: _ovf("umulovf", x, y, lambda p, q: p * q))
    return batom("umulovf", (a, b)) if r is None else r
def _ovf(k, a, b, f):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None: return TRUE if f(ca, cb) >> a.w else FALSE
    if k == "uaddovf" and (ca == 0 or cb == 0): return FALSE
    if k == "umulovf" and (ca in (0, 1) or cb in (0, 1)): return FALSE
    if k == "umulovf" and a is b and a.w % 2 == 0: return b_ule(pc(1 << (a.w // 2), a.w), a)
    if a.id > b.id: a, b = b, a
    return batom(k, (a, b))
def b_sovf(k, a, b):
    ca, cb = sval(a), sval(b)
    if ca is not None and cb is not None:
        r = {"sadd": ca + cb, "ssub": ca - cb, "smul": ca * cb}[k]
        return TRUE if not (-(1 << (a.w - 1)) <= r < (1 << (a.w - 1))) else FALSE
    if k == "smul" and (ca in (0, 1) or cb in (0, 1)): return FALSE
    if k in ("sadd", "ssub") and cb == 0: return FALSE
    return batom(k + "ovf", (a, b))

def _isplit(ps, fn, depth=0):
    """case split on indicators, combining integer results"""
    for p in ps:
        i = p_inds(p)
        if i:
            if depth > 7: return None
            c = i[0]; n = bnot(c)
            h = _isplit([p_under(q, c) for q in ps], fn, depth + 1)
            l = _isplit([p_under(q, n) for q in ps], fn, depth + 1)
            if h is None or l is None: return None
            return pite(c, h, l)
    return fn(*ps)

def p_udiv(a, b):
    r = _isplit([a, b], _udiv)
    return pa(atom("udiv", (a, b), a.w)) if r is None else r
def _udiv(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1: return a
    if ca is not None and cb: return pc(ca // cb, a.w)
    if ca == 0: return a
    if a is b: return pc(1, a.w)       # only reached with b != 0
    return pa(atom("udiv", (a, b), a.w))
def p_umod(a, b):
    """a mod b, expressed as a - b * (a div b); only reached with b != 0"""
    ca, cb = cval(a), cval(b)
    if ca is not None and cb: return pc(ca % cb, a.w)
    return psub(a, pmul(b, p_udiv(a, b)))
def p_app(name, args, w):
    return pa(atom("app", (name,) + tuple(args), w))

def p_zext(p, w):
    if p.w == w: return p
    c = cval(p)
    if c is not None: return pc(c, w)
    if all(len(k) == 1 and A.byid[k[0]].k == "ind" or k == () for k, _ in p.t):
        r = _isplit([p], lambda q: pc(cval(q), w) if cval(q) is not None else pa(atom("zext", q, w)))
        if r is not None: return r
    return pa(atom("zext", p, w))
def p_sext(p, w):
    c = sval(p)
    if c is not None: return pc(c, w)
    return pa(atom("sext", p, w))
def p_trunc(p, w):
    """truncation is a ring homomorphism"""
    r = pc(0, w)
    for k, c in p.t:
        t = pc(c, w)
        for i in k:
            a = A.byid[i]
            if a.k == "ind": f = pa(atom("ind", a.a, w))
            elif a.k in ("zext", "sext") and a.a.w == w: f = a.a
            elif a.k in ("zext", "sext") and a.a.w > w: f = p_trunc(a.a, w)
            else: f = pa(atom("trunc", pa(a), w))
            t = pmul(t, f)
        r = padd(r, t)
    return r


# ------------------------------------------------------------------ floats
class T:
    __slots__ = ("id", "op", "a")
    tab = {}
    def __repr__(s): return showt(s)
def tm(op, *a):
    if op in ("fadd", "fmul") and a[0].id > a[1].id: a = (a[1], a[0])
    key = (op, a)
    x = T.tab.get(key)
    if x is None:
        x = T(); x.id = _nid(); x.op = op; x.a = a
        T.tab[key] = x
    return x
import struct
def f32r(v):
    try: return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError: return float("inf") if v > 0 else float("-inf")
def fc(v, bits):
    if bits == 32: v = f32r(v)
    return tm("fc", struct.pack("d", v), bits)
def fcv(t):
    return struct.unpack("d", t.a[0])[0] if t.op == "fc" else None
def tite(c, a, b):
    if c == TRUE or a is b: return a
    if c == FALSE: return b
    return tm("fite", c, a, b)
def fop(op, a, b, bits):
    x, y = fcv(a), fcv(b)
    if x is not None and y is not None:
        try:
            r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
            return fc(r, bits)
        except (ZeroDivisionError, OverflowError, KeyError): pass
    return tm(op, a, b)


# ------------------------------------------------------------------ array contents
class M:
    __slots__ = ("id", "op", "a")
    tab = {}
    def __repr__(s): return showm(s)
def mm(op, *a):
    key = (op, a)
    x = M.tab.get(key)
    if x is None:
        x = M(); x.id = _nid(); x.op = op; x.a = a
        M.tab[key] = x
    return x


# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ("f",)
    tab = {}
    def __repr__(s): return "{" + ", ".join(map(repr, s.f)) + "}"
def agg(f):
    f = tuple(f)
    key = tuple(id(x) for x in f)
    x = Agg.tab.get(key)
    if x is None:
        x = Agg(); x.f = f; Agg.tab[key] = x
    return x
UNIT = agg(())

class Enum:
    """tag: variant index (P, 64 bit); payloads: {variant: tuple of values}"""
    __slots__ = ("tag", "p")
    tab = {}
    def __repr__(s): return "enum#%r%r" % (s.tag, dict(s.p))
def enum(tag, p):
    """p: dict variant -> tuple"""
    items = tuple(sorted(p.items()))
    key = (id(tag), tuple((k, tuple(id(x) for x in v)) for k, v in items))
    x = Enum.tab.get(key)
    if x is None:
        x = Enum(); x.tag = tag; x.p = items; Enum.tab[key] = x
    return x

class Arr:
    """array value / region contents: mem (M), length (P), element type index"""
    __slots__ = ("m", "n", "ety")
    tab = {}
    def __repr__(s): return "arr[%r; %r]" % (s.m, s.n)
def arr(m, n, ety):
    key = (m, n, ety)
    x = Arr.tab.get(key)
    if x is None:
        x = Arr(); x.m = m; x.n = n; x.ety = ety; Arr.tab[key] = x
    return x

class Obj:
    """memory object: local variable slot, parameter region or heap region"""
    __slots__ = ("id", "name", "kind", "info", "ty")
    def __init__(s, name, kind, ty=None, info=None):
        s.id = _nid(); s.name = name; s.kind = kind; s.ty = ty; s.info = info
    def __repr__(s): return s.name

class Ptr:
    """obj, path of steps ('f',i) ('v',variant) ('x',P); meta: None or P (slice length); cast: None or element type"""
    __slots__ = ("o", "p", "m")
    tab = {}
    def __repr__(s):
        return "&%s%s%s" % (s.o, "".join(".%s" % x[1] if x[0] == "f" else "[%r]" % (x[1],) if x[0] == "x" else "@%s" % x[1] for x in s.p),
                            "" if s.m is None else "; %r" % s.m)
def ptr(o, p=(), m=None):
    key = (o, p, m)
    x = Ptr.tab.get(key)
    if x is None:
        x = Ptr(); x.o = o; x.p = p; x.m = m; Ptr.tab[key] = x
    return x

class Fn:
    __slots__ = ("f",)
    tab = {}
    def __repr__(s): return "fn#%s" % s.f
def fnv(f):
    x = Fn.tab.get(f)
    if x is None:
        x = Fn(); x.f = f; Fn.tab[f] = x
    return x

class _Undef:
    def __repr__(s): return "undef"
UNDEF = _Undef()

class Opq:
    """value the analysis does not represent"""
    __slots__ = ("why", "a")
    tab = {}
    def __repr__(s): return "opaque<%s>" % s.why
def opq(why, *a):
    key = (why, a)
    x = Opq.tab.get(key)
    if x is None:
        x = Opq(); x.why = why; x.a = a; Opq.tab[key] = x
    return x

class Ite:
    __slots__ = ("c", "a", "b")
    tab = {}
    def __repr__(s): return "(%s ? %r : %r)" % (showb(s.c), s.a, s.b)
def vraw_ite(c, a, b):
    key = (c, id(a), id(b))
    x = Ite.tab.get(key)
    if x is None:
        x = Ite(); x.c = c; x.a = a; x.b = b; Ite.tab[key] = x
    return x

def vite(c, a, b):
    """value if c then a else b"""
    if a is b or c == TRUE: return a
    if c == FALSE: return b
    if a is UNDEF: return b
    if b is UNDEF: return a
    ta, tb = type(a), type(b)
    if ta is tb:
        if ta is P and a.w == b.w: return pite(c, a, b)
        if ta is B: return bv(bite(c, a.b, b.b))
        if ta is T: return tite(c, a, b)
        if ta is Agg and len(a.f) == len(b.f): return agg([vite(c, x, y) for x, y in zip(a.f, b.f)])
        if ta is Enum:
            pa_, pb_ = dict(a.p), dict(b.p)
            out = {}
            for k in set(pa_) | set(pb_):
                if k in pa_ and k in pb_: out[k] = tuple(vite(c, x, y) for x, y in zip(pa_[k], pb_[k]))
                else: out[k] = pa_.get(k) or pb_.get(k) or ()
            return enum(pite(c, a.tag, b.tag), out)
        if ta is Arr and a.ety == b.ety:
            return arr(mite(c, a.m, b.m), pite(c, a.n, b.n), a.ety)
        if ta is Ptr and a.o is b.o and len(a.p) == len(b.p) and (a.m is None) == (b.m is None):
            ok = all(x == y or (x[0] == "x" and y[0] == "x") for x, y in zip(a.p, b.p))
            if ok:
                p = tuple(x if x == y else ("x", pite(c, x[1], y[1])) for x, y in zip(a.p, b.p))
                return ptr(a.o, p, None if a.m is None else pite(c, a.m, b.m))
    return vraw_ite(c, a, b)

def mite(c, a, b):
    if a is b or c == TRUE: return a
    if c == FALSE: return b
    if a.op == "undef": return b
    if b.op == "undef": return a
    return mm("mite", c, a, b)

MUNDEF = mm("undef")


# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.k == "var": return str(a.a)
    if a.k == "udiv": return "(%s)/(%s)" % (show(a.a[0]), show(a.a[1]))
    if a.k == "ind": return "[%s]" % showb(a.a)
    if a.k == "app": return "%s(%s)" % (a.a[0], ", ".join(map(repr, a.a[1:])))
    return "%s(%s)" % (a.k, a.a if not isinstance(a.a, tuple) else ", ".join(map(str, a.a)))
def show(p):
    if not p.t: return "0"
    out = []
    for k, c in p.t:
        if c >> (p.w - 1): c -= 1 << p.w
        n = "*".join(show_atom(A.byid[i]) for i in k)
        if not n: s = str(c)
        elif c == 1: s = n
        elif c == -1: s = "-" + n
        else: s = "%d*%s" % (c, n)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")
def show_batom(x):
    if x.k == "ult": return "%s < %s" % (show(x.a[0]), show(x.a[1]))
    if x.k == "eq0": return "%s == 0" % show(x.a)
    if isinstance(x.a, tuple): return "%s(%s)" % (x.k, ", ".join(map(str, x.a)))
    return "%s(%s)" % (x.k, x.a)
def showb(b, lim=12):
    if b == TRUE: return "true"
    if b == FALSE: return "false"
    cubes = []
    def go(n, lits):
        if len(cubes) > lim: return
        if n == FALSE: return
        if n == TRUE:
            cubes.append(" & ".join(lits) or "true"); return
        v, h, l = _bnode[n]
        s = show_batom(_batoms[v])
        go(h, lits + [s]); go(l, lits + ["!(" + s + ")"])
    go(b, [])
    if len(cubes) > lim: return " | ".join(cubes[:lim]) + " | ..."
    return " | ".join(cubes)
def showt(t):
    if t.op == "fc": return repr(fcv(t))
    if t.op == "fite": return "(%s ? %r : %r)" % (showb(t.a[0]), t.a[1], t.a[2])
    if t.op == "sel": return "%s[%s]" % (t.a[0], ",".join(map(str, t.a[1:])))
    return "%s(%s)" % (t.op, ", ".join(map(str, t.a)))
def showm(m):
    return "%s(%s)" % (m.op, ", ".join(map(str, m.a)))
def _bvar_get(k, a): return _bvar[(k, a)]
