"""Exact arithmetic reasoning over the conditions of the value graph.

A cube (conjunction of comparison literals) is refuted by a certificate: the machine integers are read
as integers where the cube itself shows that they do not wrap around, and a combination of the
resulting inequalities, their pairwise products and the equations is found that gives -1 >= 0.  The
combination is proposed by a linear program and then solved and verified exactly in rationals; a
combination that does not check is discarded, so the answer `True` never rests on floating point."""
from . import floaterr
from fractions import Fraction as Fr
import numpy as np
from scipy.optimize import linprog
from .terms import *
from . import terms as tt
from .graph import under, occurs, subst_b, Subst

V = -1                      # the symbol for 2^32
W2 = {(V, V): 1}        # 2^64
CALLS = [0]

# ------------------------------------------------------------------ integer polynomials {monomial: rational}
def fr(a, b):
    return a // b if a % b == 0 else Fr(a, b)
def num(c):
    """constant as a polynomial in 2^32 with small coefficients"""
    c = int(c); s = 1
    if c < 0: s, c = -1, -c
    if c < 1 << 20: return {(): s * c} if c else {}
    d = {}
    hi = (c + (1 << 43)) >> 44           # multiples of 2^44 (2^64 / 2^20)
    if c >= 1 << 44:
        d[(V, V)] = fr(s * hi, 1 << 20); c -= hi << 44
        if c < 0: s, c = -s, -c
    if c >= 1 << 20:
        h = (c + (1 << 11)) >> 12
        d[(V,)] = fr(s * h, 1 << 20); c -= h << 12
    if c: d[()] = s * c
    return {k: v for k, v in d.items() if v}
def ladd(a, b, f=1):
    d = dict(a)
    for k, v in b.items():
        x = d.get(k, 0) + f * v
        if x: d[k] = x
        else: d.pop(k, None)
    return d
def lmul(a, b):
    if len(b) == 1:
        (m, c), = b.items()
        if m == (): return dict(a) if c == 1 else {k: v * c for k, v in a.items()}
        if c == 1: return {tuple(sorted(k + m)): v for k, v in a.items()}
    d = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2))
            x = d.get(k, 0) + v1 * v2
            if x: d[k] = x
            else: d.pop(k, None)
    return d
def deg(a): return max((sum(1 for x in k if x != V) for k in a), default=0)
ONEP = {(): 1}

_lift = {}
def lift(p):
    """the integer polynomial with the same coefficients, read as signed numbers"""
    r = _lift.get(p.id)
    if r is None:
        r = {}
        for mono, c in p.t:
            if c >> (p.w - 1): c -= 1 << p.w
            r = ladd(r, lmul(num(c), {mono: 1}))
        _lift[p.id] = r
    return r

_prod = {}
def prod(g, h):
    """product with a memo on the identity of the factors"""
    k = (id(g), id(h))
    r = _prod.get(k)
    if r is None:
        if len(_prod) > 400000: _prod.clear()
        p = lmul(g, h)
        r = _prod[k] = (p, frozenset(p.items()), g, h)
    return r
_atomg = {}
def atomg_(a):
    r = _atomg.get(a)
    if r is None: r = _atomg[a] = {(a,): 1}
    return r
# ------------------------------------------------------------------ refutation
VLOW = {(V,): 1, (): -8}; VVLOW = {(V, V): 1, (V,): -8}      # valid: V = 2^32
CAP = (2000, 1500, 1200)
def refute(ineqs, eqs, atoms, deep=True):
    """certificate that {g >= 0 for g in ineqs, e = 0 for e in eqs} has no solution"""
    CALLS[0] += 1
    if not deep: return refute_at(ineqs, eqs, atoms, 0)
    return refute_at(ineqs, eqs, atoms, 1) or refute_at(ineqs, eqs, atoms, 2)

def refute_at(ineqs, eqs, atoms, level):
    base = []
    seen = set()
    def put(g, lst, key=None):
        if key is None: key = frozenset(g.items())
        if not g or key in seen: return
        seen.add(key); lst.append(g)
    def putp(g, h):
        r = prod(g, h)
        put(r[0], cols, r[1])
    for g in ineqs: put(g, base)
    cols = list(base)
    if any(V in k for g in base for k in g):
        put(VLOW, cols); put(VVLOW, cols)
    if level:
        atomg = [atomg_(a) for a in atoms] + [atomg_(V)]
        for g in base:
            if deg(g) > 2: continue
            for a in atomg: putp(g, a)
    if level == 2:
        lin = [g for g in base if len(g) > 1 and len(g) <= 6 and deg(g) <= 1]
        for i, g in enumerate(lin):
            for h in lin[i:]: putp(g, h)
    free = []
    for e in eqs:
        free.append(e)
        if level and deg(e) <= 2:
            for a in atoms: free.append(prod(e, atomg_(a))[0])
            free.append(prod(e, atomg_(V))[0])
    # columns with a monomial that no other column can cancel are of no use
    ncol = len(cols); allc = cols + free; alive = [True] * len(allc)
    pos, neg = {}, {}
    for j, g in enumerate(allc):
        for k, v in g.items():
            if k == (): continue
            if j >= ncol or v > 0: pos.setdefault(k, set()).add(j)
            if j >= ncol or v < 0: neg.setdefault(k, set()).add(j)
    none = ()
    work = list(pos.keys() | neg.keys())
    while work:
        k = work.pop()
        p, q = pos.get(k, none), neg.get(k, none)
        if p and q and not (len(p) == 1 and p == q): continue
        for j in list(p) + list(q):
            if not alive[j]: continue
            alive[j] = False
            for k2 in allc[j]:
                if k2 == (): continue
                if k2 in pos: pos[k2].discard(j)
                if k2 in neg: neg[k2].discard(j)
                if k2 != k: work.append(k2)
    cols = [g for g, a in zip(cols, alive) if a]
    free = [g for g, a in zip(free, alive[ncol:]) if a]
    if len(cols) > CAP[level]: cols = cols[:CAP[level]]
    if not any(() in g for g in cols + free): return False
    idx = {}
    for g in cols + free:
        for k in g: idx.setdefault(k, len(idx))
    n, nf = len(cols), len(free)
    if n + nf == 0: return False
    # 2^32 is at least any constant that occurs: V >= 1 only through the products below
    A_ = np.zeros((len(idx), n + nf)); b = np.zeros(len(idx))
    if () not in idx: return False
    for j, g in enumerate(cols + free):
        for k, v in g.items(): A_[idx[k], j] = float(v)
    b[idx[()]] = -1.0
    bounds = [(0, None)] * n + [(None, None)] * nf
    try: r = linprog(np.array([1.0] * n + [0.0] * nf), A_eq=A_, b_eq=b, bounds=bounds, method="highs")
    except ValueError: return False
    if r.status != 0 or r.x is None: return False
    sup = [j for j in range(n + nf) if abs(r.x[j]) > 1e-9]
    return exact(cols + free, sup, n, idx)

def exact(cols, sup, n, idx):
    """rational solution on the support: sum = -1, multipliers of inequalities not negative"""
    if not sup: return False
    keys = sorted({k for j in sup for k in cols[j]})
    rows = [[Fr(cols[j].get(k, 0)) for j in sup] + [Fr(-1) if k == () else Fr(0)] for k in keys]
    if () not in keys: return False
    piv = []; r = 0
    for c in range(len(sup)):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None: continue
        rows[r], rows[p] = rows[p], rows[r]
        x = rows[r][c]; rows[r] = [v / x for v in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c]; rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        piv.append(c); r += 1
    if any(row[-1] for row in rows[r:]): return False
    lam = [Fr(0)] * len(sup)
    for i, c in enumerate(piv): lam[c] = rows[i][-1]
    if any(l < 0 and j < n for l, j in zip(lam, sup)): return False
    tot = {}
    for l, j in zip(lam, sup): tot = ladd(tot, cols[j], l)
    return tot == {(): Fr(-1)}

# ------------------------------------------------------------------ cubes
class Cube:
    def __init__(s, lits):
        s.lits = lits            # [(BA, bool)]
        s.ineqs = []; s.eqs = []; s.neq = []
        s.ex = {}                # polynomial id -> known exact
        s.atoms = {}             # atom ids taking part
        s.dead = False
        s.known = {}
        for x, v in lits: s.known[x.v] = v
        s.divs = set(); s.qs = []; s.roots = []; s.sub = {}; s.shallow = False
        s.pend = list(lits)
    def simp(s, p):
        """indicators decided by the literals"""
        for c in p_inds(p):
            b = c
            while b > 1:
                v, h, l = tt._bnode[b]
                if v in s.known: b = h if s.known[v] else l
                else: break
            if b <= 1: p = p_under_atom(p, c, b)
        if s.sub and any(i in s.sub for k, _ in p.t for i in k):
            d = {}
            for k, c in p.t:
                for i in k:
                    if i in s.sub: c = c * s.sub[i]
                k = tuple(i for i in k if i not in s.sub)
                d[k] = d.get(k, 0) + c
            p = tt._mk(p.w, d)
        return p
    def touch(s, p):
        for i in patoms(p):
            if i in s.atoms: continue
            a = A.byid[i]
            s.atoms[i] = a
            if a.k == "ind": s.ineqs.append(ladd(ONEP, {(i,): 1}, -1))
            elif a.w < 64: s.ineqs.append(ladd(num((1 << a.w) - 1), {(i,): 1}, -1))
            elif a.k in ("zext",): s.ineqs.append(ladd(num((1 << a.a.w) - 1), {(i,): 1}, -1))
            if a.k == "udiv" or a.k == "f2i" and floaterr.facts(a): s.divs.add(a)
            s.ineqs.append({(i,): 1})
            if a.w == 64: s.wide = getattr(s, "wide", []) + [i]
    def facts(s): return s.ineqs, s.eqs
    def proves_ge0(s, g):
        """g >= 0 follows"""
        if all(v >= 0 for v in g.values()): return True
        for a in {x for k in g for x in k if x != V}:
            if a not in s.atoms: s.touch(pa(A.byid[a]))
        for h in s.ineqs:
            if len(h) <= len(g) + 2:
                ok = True
                for k, v in h.items():
                    if g.get(k, 0) < v: ok = False; break
                if ok and all(v >= 0 or k in h for k, v in g.items()): return True
        neg = ladd({k: -v for k, v in g.items()}, ONEP, -1)      # -g - 1 >= 0
        if refute(s.ineqs + [neg], s.eqs, list(s.atoms), deep=False): return True
        if s.shallow: return False
        return refute(s.ineqs + [neg], s.eqs, list(s.atoms))
    def exact(s, p):
        """0 <= lift(p) < 2^w"""
        if s.ex.get(p.id): return True
        s.touch(p)
        if cval(p) is not None:
            if sval(p) < 0 : return False
            return True
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1: 
            s.ex[p.id] = True; return True
        L = lift(p)
        top = num((1 << p.w) - 1)
        r = s.proves_ge0(L) and s.upper(p, L, top)
        if r:
            s.ex[p.id] = True
            s.ineqs.append(L); s.ineqs.append(ladd(top, L, -1))
        return r
    def upper(s, p, L, top):
        s.bound_atoms(p)
        return s.proves_ge0(ladd(top, L, -1))
    def bound_atoms(s, p):
        for i in patoms(p):
            a = A.byid[i]
            if a.w == 64 and ("ub", i) not in s.ex:
                s.ex[("ub", i)] = True
                s.ineqs.append(ladd(num((1 << 64) - 1), {(i,): 1}, -1))
    def value(s, p):
        """integer polynomial of the machine value, or None"""
        p = s.simp(p)
        c = cval(p)
        if c is not None: return num(c)
        return lift(p) if s.exact(p) else None
    def assume(s, x, v):
        """True: the literal became facts (or carries no arithmetic)"""
        k = x.k
        if k in ("ult", "slt"):
            a, b = x.a
            A_, B_ = s.value(a), s.value(b)
            if A_ is None or B_ is None:
                return False
            if k == "slt":
                half = num((1 << (a.w - 1)) - 1)
                if not (s.proves_ge0(ladd(half, A_, -1)) and s.proves_ge0(ladd(half, B_, -1))): return False
            g = ladd(ladd(B_, A_, -1), ONEP, -1) if v else ladd(A_, B_, -1)
            s.ineqs.append(g)
            return True
        if k == "eq0":
            p = s.simp(x.a)
            s.touch(p)
            if cval(p) is not None:
                if (cval(p) == 0) != v: s.dead = True
                return True
            L = lift(p); top = num((1 << p.w) - 1)
            # range of the integer polynomial: -2^w < L < 2^w
            s.bound_atoms(p)
            simple = len(p.t) <= 2 and all(len(m) <= 1 and c in (1, (1 << p.w) - 1) or m == () for m, c in p.t)
            if not (simple or s.value(p) is not None or s.value(pneg(p)) is not None or (s.proves_ge0(ladd(top, L, -1)) and s.proves_ge0(ladd(top, L)))): return False
            if simple and len(p.t) == 2 and p.t[0][0] != () and p.t[0][1] == p.t[1][1]: return False
            if simple and len(p.t) == 2 and p.t[0][0] == ():        # x + c = 0 modulo 2^w: x is 2^w - c
                (_, c0), (mx, c1) = p.t
                L = ladd({mx: 1}, num((-c0 if c1 == 1 else c0) % (1 << p.w)), -1)
            if v:
                s.eqs.append(L)
                m1 = [k for k in p.t if k[0] != ()]
                if len(m1) == 1 and len(m1[0][0]) == 1 and m1[0][1] in (1, (1 << p.w) - 1):
                    c0 = dict(p.t).get((), 0)
                    s.sub[m1[0][0][0]] = (-c0 if m1[0][1] == 1 else c0) % (1 << p.w)
            else:
                if s.proves_ge0(L): s.ineqs.append(ladd(L, ONEP, -1))
                elif s.proves_ge0({a: -b for a, b in L.items()}): s.ineqs.append(ladd({a: -b for a, b in L.items()}, ONEP, -1))
                else: s.neq.append(L)
            return True
        if k in ("umulovf", "uaddovf"):
            a, b = x.a
            A_, B_ = s.value(a), s.value(b)
            if A_ is None or B_ is None: return False
            r = lmul(A_, B_) if k == "umulovf" else ladd(A_, B_)
            top = num((1 << a.w) - 1)
            if v: s.ineqs.append(ladd(ladd(r, top, -1), ONEP, -1))
            else:
                s.ineqs.append(ladd(top, r, -1))
                q = s.simp(pmul(a, b) if k == "umulovf" else padd(a, b))
                if lift(q) == r: s.ex[q.id] = True
            return True
        return True
    def divfacts(s):
        ch = False
        for a in sorted(s.divs, key=lambda a: a.id):
            if a.k == "f2i":
                k, fs = floaterr.facts(a)
                kv = s.value(k)
                if kv is None: continue
                s.divs.discard(a); ch = True
                for f in fs:
                    g = {}
                    for (dp, dk), c in f.items():
                        x = {(a.id,) * dp: c}
                        if dk: x = lmul(x, kv)
                        g = ladd(g, x)
                    # constants as polynomials in 2^32
                    c0 = g.pop((), 0)
                    s.ineqs.append(ladd(g, num(c0)))
                s.roots.append(a)
                continue
            n, m = a.a
            N, M = s.value(n), s.value(m)
            if N is None or M is None: continue
            if not s.proves_ge0(ladd(M, ONEP, -1)): continue
            s.divs.discard(a); ch = True
            q = {(a.id,): 1}
            rem = ladd(N, lmul(M, q), -1)
            if divides(m, n): s.eqs.append(rem)
            else:
                s.ineqs.append(rem)
                s.ineqs.append(ladd(ladd(M, rem, -1), ONEP, -1))
                s.qs.append((a, N, M))
        return ch
    def rbounds(s):
        """a rounded root is at most the root of what its argument is known to be below"""
        ch = False
        for a in s.roots:
            cands = set()
            for g in list(s.ineqs) + s.eqs:
                if deg(g) > 2: continue
                for k in g:
                    if len(k) == 2 and V not in k and a.id not in k:
                        x, y = k
                        if x == y: cands.add((x, None))
                        else: cands |= {(x, y), (y, x)}
            for x, y in sorted(cands, key=lambda c: (c[1] is not None, c[0], c[1] or 0))[:6]:
                if A.byid[x].k not in ("var",) or y is not None and A.byid[y].k != "var": continue
                for c in (-1, 0):
                    if s.ex.get(("rb", a.id, x, y), 1) <= c: continue
                    f = {(x,): 1, (a.id,): -1, (): c} if c else {(x,): 1, (a.id,): -1}
                    if y is not None: f[(y,)] = -1
                    if refute(s.ineqs + [ladd({k: -v for k, v in f.items()}, ONEP, -1)], s.eqs, list(s.atoms)):
                        s.ineqs.append(f); ch = True
                        s.ex[("rb", a.id, x, y)] = c
                        break
        return ch
    def qbounds(s):
        """quotients are smaller than the number of divisors their dividend is known to fit under"""
        ch = False
        for a, N, M in s.qs:
            if len(M) != 1 or () in M: continue
            (mk, mc), = M.items()
            if mc != 1 or len(mk) != 1: continue
            q = {(a.id,): 1}
            cands = set()
            for g in list(s.ineqs):
                if deg(g) > 3: continue
                for k in g:
                    if mk[0] in k and a.id not in k and V not in k:
                        k2 = list(k); k2.remove(mk[0])
                        if len(k2) == 1: cands.add(tuple(k2))
            for c in sorted(cands)[:4]:
                if s.ex.get(("qb", a.id, c), 9) <= (1 if s.shallow else 0): continue
                s.ex[("qb", a.id, c)] = 1 if s.shallow else 0
                f = ladd(ladd({c: 1}, q, -1), ONEP, -1)
                if s.proves_ge0(f): s.ineqs.append(f); ch = True; s.ex[("qb", a.id, c)] = 0
        return ch
    def zeroprod(s):
        """a product is zero: so is a factor, once the others are positive"""
        ch = False
        for L in list(s.eqs):
            if len({c > 0 for c in L.values()}) != 1: continue
            if () in L: s.dead = True; return True
            if len(L) > 1:                      # a sum of natural numbers is zero: so are all of them
                for k in L:
                    if ("zs", k) not in s.ex: s.ex[("zs", k)] = True; s.eqs.append({k: 1}); ch = True
                continue
            (k, c), = L.items()
            if len(k) < 2 or V in k: continue
            at = [i for i in set(k) if not any(h.get((i,), 0) > 0 and h.get((), 0) < 0 and all(v <= 0 or q == (i,) for q, v in h.items()) for h in s.ineqs)]
            if not at: s.dead = True; return True
            if len(at) == 1 and ("zp", at[0]) not in s.ex:
                s.ex[("zp", at[0])] = True; s.eqs.append({(at[0],): 1}); s.sub[at[0]] = 0; ch = True
        return ch
    def saturate(s):
        for rnd in range(6):
            ch = False; rest = []
            for x, v in sorted(s.pend, key=cost):
                if s.assume(x, v): ch = True
                else: rest.append((x, v))
                if s.dead: return
            s.pend = rest
            if s.divfacts(): ch = True
            if s.zeroprod(): ch = True
            if s.dead: return
            if s.qs and s.qbounds(): ch = True
            if s.roots and s.rbounds(): ch = True
            if not ch: break
    def closed(s, depth=0):
        if s.dead: return True
        if not s.ineqs and not s.eqs: return False
        if refute(s.ineqs, s.eqs, list(s.atoms), deep=False): return True
        if refute(s.ineqs, s.eqs, list(s.atoms)): return True
        for i, L in enumerate(s.neq[:3]):
            if depth >= 3: break
            c1, c2 = s.copy(), s.copy()
            del c1.neq[i], c2.neq[i]
            c1.ineqs.append(ladd(L, ONEP, -1)); c2.ineqs.append(ladd({a: -b for a, b in L.items()}, ONEP, -1))
            c1.saturate(); c2.saturate()
            if c1.closed(depth + 1) and c2.closed(depth + 1): return True
        return False
    def copy(s):
        c = Cube([])
        c.lits = s.lits; c.ineqs = list(s.ineqs); c.eqs = list(s.eqs); c.neq = list(s.neq); c.ex = dict(s.ex)
        c.atoms = dict(s.atoms); c.known = s.known; c.divs = set(s.divs); c.qs = list(s.qs); c.roots = list(s.roots); c.sub = dict(s.sub); c.known = dict(s.known); c.shallow = s.shallow; c.dead = s.dead; c.pend = list(s.pend)
        return c

def cost(l):
    x, v = l
    ps = [x.a] if isinstance(x.a, P) else [y for y in x.a if isinstance(y, P)] if isinstance(x.a, tuple) else []
    return (sum(len(p.t) + sum(len(m) for m, _ in p.t) for p in ps), 0 if x.k == "eq0" else 1)

def p_under_atom(p, c, b):
    d = {}
    for k, co in p.t:
        if any(A.byid[i].k == "ind" and A.byid[i].a == c for i in k):
            if b == FALSE: continue
            k = tuple(i for i in k if not (A.byid[i].k == "ind" and A.byid[i].a == c))
        d[k] = d.get(k, 0) + co
    return tt._mk(p.w, d)

def divides(m, n):
    """n is a multiple of the constant m for all values of its variables"""
    c = cval(m)
    if c is None or c < 2 or c > 8: return False
    L = lift(n)
    if any(V in k for k in L): return False
    ats = sorted({a for k in L for a in k})
    if len(ats) > 5: return False
    import itertools
    for vs in itertools.product(range(c), repeat=len(ats)):
        e = dict(zip(ats, vs)); t = 0
        for k, co in L.items():
            if co.denominator != 1: return False
            x = int(co)
            for a in k: x *= e[a]
            t += x
        if t % c: return False
    return True

def atoms_in(x, out):
    if isinstance(x, P):
        for i in patoms(x):
            a = A.byid[i]
            if a not in out:
                out.add(a)
                if isinstance(a.a, tuple):
                    for y in a.a: atoms_in(y, out)
                elif isinstance(a.a, P): atoms_in(a.a, out)
    elif isinstance(x, tuple):
        for y in x: atoms_in(y, out)
    return out

def quotient(lits):
    """a quotient whose value is determined by the other literals, with this value"""
    ats = set(); per = []
    for x, v in lits:
        o = atoms_in(x.a, set()); per.append(o); ats |= o
    for a in sorted((a for a in ats if a.k == "udiv"), key=lambda a: a.id):
        n, m = a.a
        if cval(m) is not None or len(m.t) != 1 or m.t[0][1] != 1 or len(m.t[0][0]) != 1: continue
        mi = m.t[0][0][0]
        if atoms_in(n, set()) and any(b.k == "udiv" for b in atoms_in(n, set())): continue
        d = {}
        for mono, c in n.t:
            if mi in mono:
                k = list(mono); k.remove(mi); d[tuple(k)] = c
        if not d: continue
        base = tt._mk(n.w, d)
        c0 = Cube([l for l, o in zip(lits, per) if a not in o])
        c0.saturate()
        if c0.dead: return None
        N, M = c0.value(n), c0.value(m)
        if N is None or M is None: continue
        for cand in (base, psub(base, pc(1))):
            C = c0.value(cand)
            if C is None: continue
            r = ladd(N, lmul(M, C), -1)
            if c0.proves_ge0(r) and c0.proves_ge0(ladd(ladd(M, r, -1), ONEP, -1)): return a, cand
    return None

def shift(b):
    """n = c + w with a fresh w for known c <= n, if there is a divisor n - c"""
    ats = set(); sup = bsupport(b)
    for v in sup: atoms_in(tt._batoms[v].a, ats)
    use = False
    for a in ats:
        if a.k != "udiv": continue
        m = a.a[1]
        if len(m.t) == 2 and all(len(k) == 1 for k, c in m.t) and {c for k, c in m.t} == {1, (1 << m.w) - 1}: use = True
    if not use: return None
    mp = {}; used = set(); extra = TRUE; names = {z.a for z in ats if z.k == "var"}
    for v in sorted(sup):
        l = tt._batoms[v]
        if l.k != "ult": continue
        p, q = l.a
        if any(len(z.t) != 1 or z.t[0][1] != 1 or len(z.t[0][0]) != 1 for z in (p, q)): continue
        x, y = A.byid[p.t[0][0][0]], A.byid[q.t[0][0][0]]
        if x.k != "var" or y.k != "var" or x in used or y in mp or x in mp: continue
        if band(b, tt._bmk(v, TRUE, FALSE)) != FALSE: continue
        nm = "%s-%s" % (x.a, y.a)
        if nm in names: continue
        w = var(nm, x.w); mp[x] = padd(q, w); used |= {x, y}
        extra = band(extra, bnot(b_addovf(q, w)))
    return band(subst_b(b, mp), extra) if mp else None

_inf = {}
def pinned(p):
    """p = 0 makes a variable zero: (variable, 0)"""
    if len(p.t) != 1 or len(p.t[0][0]) != 1 or p.t[0][1] not in (1, (1 << p.w) - 1): return None
    x = A.byid[p.t[0][0][0]]
    return (x, pc(0, p.w)) if x.k == "var" else None

def strict(lits):
    """q <= p and p != q give q < p"""
    have = {(x.v, v) for x, v in lits}; out = []
    for x, v in lits:
        if v or x.k != "ult": continue
        p, q = x.a
        e = tt.b_eq(p, q)
        if e in (TRUE, FALSE): continue
        ev, h, l = tt._bnode[e]
        if (h, l) != (TRUE, FALSE) or (ev, False) not in have: continue
        u = tt.b_ult(q, p)
        if u in (TRUE, FALSE): continue
        ev, h, l = tt._bnode[u]
        if (h, l) == (TRUE, FALSE) and (ev, True) not in have: out.append((tt._batoms[ev], True)); have.add((ev, True))
    return out

def cube_infeasible(lits, depth=0, start=None):
    key = tuple(sorted((x.v, v) for x, v in lits))
    r = _inf.get(key)
    if r is None:
        qc = quotient(lits) if depth < 4 else None
        if not qc and depth < 8: qc = next((f for f in (pinned(x.a) for x, v in lits if v and x.k == "eq0") if f), None)
        if qc:
            b = TRUE
            for x, v in lits:
                l = batom(x.k, x.a)
                b = band(b, subst_b(l if v else bnot(l), {qc[0]: qc[1]}))
            r = _inf[key] = infeasible(b, depth + 1)
            return r
        st = strict(lits)
        if st:
            lits = lits + st
            if start is not None:
                start = start.copy(); start.lits = lits; start.pend = start.pend + st
                for x, v in st: start.known[x.v] = v
        c = start.copy() if start is not None else Cube(lits)
        c.shallow = False
        c.saturate()
        r = c.closed()
        _inf[key] = r
    return r

LIM = 1000
def forced(b, tried):
    """literals that hold on every path of b"""
    out = []
    for v in bsupport(b):
        p = tt._bmk(v, TRUE, FALSE)
        if band(b, bnot(p)) == FALSE: out.append((v, True))
        elif band(b, p) == FALSE: out.append((v, False))
    return out

def infeasible(b, depth=0):
    """the condition b cannot hold"""
    if b == FALSE: return True
    if b == TRUE: return False
    r = _infb.get(b)
    if r is None:
        mp = unify(b)
        if mp:
            r = _infb[b] = infeasible(subst_b(b, mp), depth + 1)
            return r
        b1 = shift(b) if depth < 6 else None
        if b1 is not None:
            r = _infb[b] = infeasible(b1, depth + 1)
            return r
        cnt = [0]
        def go(n, lits, cube):
            if n == FALSE: return True
            if cube is not None and n != TRUE:
                f = forced(n, None)
                if f:
                    cube = cube.copy(); new = []
                    for v, val in f:
                        x = tt._batoms[v]; new.append((x, val)); cube.known[x.v] = val
                        l = tt._bmk(v, TRUE, FALSE)
                        n = constrain(n, l if val else bnot(l))
                    lits = lits + new; cube.lits = lits; cube.pend += new
                    cube.saturate()
                    if cube.dead or ((cube.ineqs or cube.eqs) and refute(cube.ineqs, cube.eqs, list(cube.atoms), deep=False)): return True
            if n == FALSE: return True
            if n == TRUE:
                cnt[0] += 1
                if cnt[0] > LIM: return False
                return cube_infeasible(lits, depth, cube)
            v, h, l = tt._bnode[n]
            x = tt._batoms[v]
            def ext(val):
                if cube is None: return None
                c = cube.copy(); c.known[x.v] = val; c.pend.append((x, val)); c.lits = lits + [(x, val)]
                return c
            return go(h, lits + [(x, True)], ext(True)) and go(l, lits + [(x, False)], ext(False))
        c0 = Cube([]); c0.shallow = True
        r = _infb[b] = go(b, [], c0)
    return r
_infb = {}

def unify(b):
    """variables the condition b shows equal: {variable: representative}"""
    cl = {}
    def find(a):
        while a in cl: a = cl[a]
        return a
    for v in sorted(bsupport(b)):
        l = tt._batoms[v]
        if l.k != "eq0": continue
        t = l.a.t
        f = pinned(l.a)
        if f and band(b, tt._bmk(v, FALSE, TRUE)) == FALSE: return {f[0]: f[1]}
        if len(t) != 2 or any(len(k) != 1 for k, c in t) or {c for k, c in t} != {1, (1 << l.a.w) - 1}: continue
        x, y = A.byid[t[0][0][0]], A.byid[t[1][0][0]]
        if x.k != "var" or y.k != "var" or band(b, tt._bmk(v, FALSE, TRUE)) != FALSE: continue
        x, y = find(x), find(y)
        if x is not y:
            if x.id < y.id: x, y = y, x
            cl[x] = y
    return {a: pa(find(a)) for a in cl}

def implied(hyp, claim): return infeasible(band(hyp, bnot(claim)))

def equal(hyp, x, y, depth=0):
    if x is y: return True
    if depth == 0:
        mp = unify(hyp)
        if mp:
            sb = Subst(mp); hyp = sb.b(hyp); x, y = sb(x), sb(y)
            if x is y: return True
    if infeasible(hyp): return True
    tx, ty = type(x), type(y)
    if tx is B and ty is B: return infeasible(band(hyp, bxor(x.b, y.b)))
    if tx is P and ty is P and x.w == y.w:
        e = b_eq(x, y)
        if implied(hyp, e): return True
        return msel_eq(hyp, x, y, depth)
    if depth > 12: return False
    if tx is T and x.op == "fite":
        c = x.a[0]
        return all(equal(h, under(t, h), under(y, h), depth + 1) for h, t in ((band(hyp, c), x.a[1]), (band(hyp, bnot(c)), x.a[2])) if h != FALSE)
    if ty is T and y.op == "fite": return equal(hyp, y, x, depth + 1)
    if tx is T and ty is T and x.op == y.op and len(x.a) == len(y.a):
        def argseq(p, q):
            return all(u is v or (type(u) in (P, T, M, tuple) and type(u) is type(v) and equal(hyp, u, v, depth + 1)) or (not isinstance(u, (P, T, M)) and u == v) for u, v in zip(p, q))
        if x.op in ("rec", "phi"): return x.a[:2] == y.a[:2] and argseq(x.a[2:], y.a[2:])
        if argseq(x.a, y.a): return True
        return x.op in ("fadd", "fmul") and argseq(x.a, (y.a[1], y.a[0]))
    if tx is tuple and ty is tuple and len(x) == len(y): return all(equal(hyp, u, v, depth + 1) if isinstance(u, (P, T, M, tuple)) else u == v for u, v in zip(x, y))
    if tx is M and ty is M:
        if x.op == "mite":
            c = x.a[0]
            return all(equal(h, under(t, h), under(y, h), depth + 1) for h, t in ((band(hyp, c), x.a[1]), (band(hyp, bnot(c)), x.a[2])) if h != FALSE)
        if y.op == "mite": return equal(hyp, y, x, depth + 1)
        if x.op == y.op and len(x.a) == len(y.a):
            if x.op in ("init", "undef", "opaque"): return False
            return all(u is v or (type(u) is type(v) and (equal(hyp, u, v, depth + 1) if isinstance(u, (P, T, M, tuple)) else u == v)) for u, v in zip(x.a, y.a))
    return False

def msel_eq(hyp, x, y, depth):
    """single applications of an uninterpreted operation to equal arguments"""
    if len(x.t) == 1 and len(y.t) == 1 and x.t[0][1] == 1 and y.t[0][1] == 1 and len(x.t[0][0]) == 1 and len(y.t[0][0]) == 1:
        a, b = A.byid[x.t[0][0][0]], A.byid[y.t[0][0][0]]
        if a.k == b.k and a.k in ("msel", "app", "udiv") and isinstance(a.a, tuple) and len(a.a) == len(b.a):
            return all(u is v or (type(u) is type(v) and isinstance(u, (P, T, M)) and equal(hyp, u, v, depth + 1)) or (not isinstance(u, (P, T, M)) and u == v) for u, v in zip(a.a, b.a))
    return False
