"""Deciding obligations over the value graph.

An obligation is `hyp implies claim` (conditions) or `hyp implies a = b` (values).

1. normal forms: hyp & !claim is the constant FALSE, or both sides are the same term;
2. linear reasoning over polynomials without wrap-around (linarith.py);
3. otherwise a separating assignment of the free variables of the two graphs is looked for; a
   failed obligation is reported only together with one;  without one the obligation counts as
   open (reported in the evidence, never as an alarm).
"""
import time
import random, math
from .terms import *
from . import terms as tt
from .graph import *


# ------------------------------------------------------------------ free variables
class Free:
    """variables and comparison atoms of terms"""
    def __init__(s):
        s.ints = {}; s.bools = {}; s.floats = set(); s.batoms = set(); s.seen = set(); s.loops = set()
        s.big = False
    def add(s, x):
        t = type(x)
        if t is int: return s.bdd(x)
        if t is B: return s.bdd(x.b)
        if t in (P, T, M, Agg, Enum, Arr, Ptr, Ite):
            if id(x) in s.seen: return
            s.seen.add(id(x))
        if t is P:
            for mono, _ in x.t:
                for i in mono: s.atom(A.byid[i])
        elif t is T:
            if x.op == "fvar": s.floats.add(x.a[0])
            if x.op == "fite": s.bdd(x.a[0]); s.add(x.a[1]); s.add(x.a[2])
            elif x.op == "rec": s.loop(x.a[0]); s.args(x.a[2:])
            else: s.args(x.a)
        elif t is M:
            if x.op == "mite": s.bdd(x.a[0]); s.add(x.a[1]); s.add(x.a[2])
            elif x.op == "rec": s.loop(x.a[0]); s.args(x.a[2:])
            else: s.args(x.a)
        elif t is tuple: s.args(x)
        elif t is Agg: s.args(x.f)
        elif t is Enum:
            s.add(x.tag)
            for _, v in x.p: s.args(v)
        elif t is Arr: s.add(x.m); s.add(x.n)
        elif t is Ptr: s.args(x.p); s.add(x.m)
        elif t is Ite: s.bdd(x.c); s.add(x.a); s.add(x.b)
    def args(s, xs):
        for y in xs:
            if isinstance(y, (P, T, M, Agg, Enum, Arr, Ptr, Ite, B, tuple)): s.add(y)
    def atom(s, a):
        if id(a) in s.seen: return
        s.seen.add(id(a))
        if a.k == "var": s.ints[a.a] = a
        elif a.k == "ind": s.bdd(a.a)
        elif a.k in ("rec", "trip"):
            s.loop(a.a[0]); s.args(a.a[1:])
        elif a.k == "phi": pass
        elif isinstance(a.a, tuple): s.args(a.a)
        else: s.add(a.a)
    def bdd(s, b):
        if b <= 1 or ("b", b) in s.seen: return
        s.seen.add(("b", b))
        for v in bsupport(b):
            x = tt._batoms[v]
            if id(x) in s.seen: continue
            s.seen.add(id(x)); s.batoms.add(x)
            if x.k == "var": s.bools[x.a] = x
            elif x.k in ("rec", "lstop"): s.loop(x.a[0]); s.args(x.a[1:])
            elif isinstance(x.a, tuple): s.args(x.a)
            else: s.add(x.a)
    def loop(s, L):
        if L.id in s.loops: return
        s.loops.add(L.id)
        for k, (i, n, ph) in L.keys.items():
            s.add(i) if i is not UNDEF else None
            s.add(n) if n is not UNDEF else None
        s.bdd(L.cont); s.bdd(L.stop)
        s.ints.pop(L.K.a, None)
    def log(s, evs):
        for e in evs:
            s.bdd(e.c)
            if e.k == "loop": s.loop(e.L); s.log(e.log)
            else:
                for k, v in e.d.items():
                    if k == "v": continue
                    if isinstance(v, list): s.args(v)
                    else: s.add(v)
        return s


# ------------------------------------------------------------------ local search for assignments
W = 1 << 64
BIGS = [1 << 32, 1 << 63, W - 1, W - 2, (1 << 63) - 1, 1 << 31, (1 << 32) - 1, 1 << 62, 1 << 53, (1 << 53) + 1, (1 << 52) + 1]

def atom_ints(x):
    """variables that occur in a comparison atom"""
    r = _ai.get(x)
    if r is None:
        f = Free(); f.args(x.a) if isinstance(x.a, tuple) else f.add(x.a)
        _ai[x] = r = (list(f.ints.values()), list(f.bools.values()))
    return r
_ai = {}

LIMIT = [8.0]       # seconds per search; five times that for all searches of an entry point
SPENT = [0.0]

class Search:
    def __init__(s, free, rng, apps=None, big=0.1, fixed=None, loopvars=()):
        s.f = free; s.rng = rng; s.apps = apps
        s.ints = {k: a for k, a in free.ints.items() if not k.startswith("align#") and k not in loopvars}
        s.names = sorted(s.ints)
        s.fixed = fixed or {}
        s.big = big
        s.atoms = sorted(free.batoms, key=lambda x: x.v)
        s.consts = s.collect_consts()
    def collect_consts(s):
        """constants the graph itself mentions"""
        out = set()
        for x in s.atoms:
            ps = [x.a] if isinstance(x.a, P) else [y for y in x.a if isinstance(y, P)] if isinstance(x.a, tuple) else []
            for p in ps:
                for m, c in p.t:
                    if c >> 63: c = W - c
                    if 2 <= c <= 1 << 40: out |= {c, c - 1, c + 1}
        return sorted(out)[:40]
    def rv(s, a):
        r = s.rng
        q = r.random()
        if q < s.big: v = r.choice(BIGS)
        elif q < s.big + 0.12 and s.consts: v = r.choice(s.consts)
        elif q < 0.9: v = r.randrange(0, s.hi)
        else: v = r.randrange(0, max(20, s.hi // 4))
        return v & ((1 << a.w) - 1)
    hi = 6
    def init(s):
        s.hi = s.rng.choices((6, 20, 70, 300, 3000), (62, 20, 11, 5, 2))[0]
        vals = {n: s.rv(s.ints[n]) for n in s.names}
        for n in s.f.bools: vals[n] = s.rng.random() < 0.5
        for n in list(vals):
            if n.startswith("align#"): vals[n] = 8
        vals.update(s.fixed)
        return vals
    def env(s, vals, mode):
        v = dict(vals)
        for k in s.f.ints:
            if k.startswith("align#"): v[k] = 8
        e = new_env(v, s.apps)
        e.root.fmode = mode
        return e
    def lit(s, x, e):
        try: return ev_ba(x, e)
        except (Unknown, Stuck): return None
    def path(s, b):
        """a random way to satisfy the condition b"""
        out = []
        while b > 1:
            v, h, l = tt._bnode[b]
            if h == FALSE: c = False
            elif l == FALSE: c = True
            else: c = s.rng.random() < 0.5
            out.append((tt._batoms[v], c)); b = h if c else l
        return out
    def adjust(s, vals, x, want, mode):
        """change one variable so that atom x gets the wanted truth value"""
        ints, bools = atom_ints(x)
        if x.k == "var":
            vals = dict(vals); vals[x.a] = want; return vals
        ints = [a for a in ints if a.a in s.ints and a.a not in s.fixed]
        s.rng.shuffle(ints)
        for a in ints[:3]:
            cur = vals[a.a]
            cands = []
            if x.k in ("ult", "eq0"):
                # solve for a where it occurs linearly
                p = x.a if x.k == "eq0" else psub(x.a[0], x.a[1])
                try:
                    li = lin_in(p, a)
                    if li and li[0] in (1, (1 << p.w) - 1):
                        e = s.env(vals, mode)
                        r = ev_p(li[1], e)
                        z = (-r if li[0] == 1 else r) & ((1 << p.w) - 1)
                        cands += [z, (z - 1) % W, (z + 1) % W]
                    elif li and li[0]:
                        e = s.env(vals, mode); r = (-ev_p(li[1], e)) % (1 << p.w)
                        z = r // li[0]; cands += [z, z + 1, max(z - 1, 0)]
                    else:
                        e0 = s.env({**vals, a.a: 0}, mode); e1 = s.env({**vals, a.a: 1}, mode)
                        q0, q1 = ev_p(p, e0), ev_p(p, e1)
                        sl = (q1 - q0) % (1 << p.w)
                        if sl >> (p.w - 1): sl -= 1 << p.w
                        if q0 >> (p.w - 1): q0 -= 1 << p.w
                        if sl: 
                            z = -q0 // sl
                            cands += [z % W, (z + 1) % W, (z - 1) % W]
                except (Unknown, Stuck): pass
            cands += [max(cur - 1, 0), cur + 1] + [s.rng.randrange(0, max(8, s.hi)) for _ in range(3)]
            if s.rng.random() < 0.3 or x.k in ("umulovf", "uaddovf"): cands += s.rng.sample(BIGS, 3)
            if s.rng.random() < 0.7: s.rng.shuffle(cands)
            for c in cands:
                c &= (1 << a.w) - 1
                v2 = dict(vals); v2[a.a] = c
                if s.lit(x, s.env(v2, mode)) == want: return v2
        return None
    def sample(s, hyp, n, secs):
        """environments in which hyp holds, reached by flipping one condition of the program after the other"""
        out = []; seen = set()
        t1 = time.monotonic() + secs
        while len(out) < n and time.monotonic() < t1:
            mode = None if s.rng.random() < 0.3 else s.rng.randrange(1, 1 << 30)
            vals = s.init()
            for k in range(40):
                if time.monotonic() > t1: break
                e = s.env(vals, mode)
                try: ok = ev_b(hyp, e)
                except (Unknown, Stuck): ok = None
                v2 = None
                if ok:
                    key = tuple(vals[x] for x in s.names)
                    if key not in seen:
                        seen.add(key); out.append((vals, mode, e))
                        if len(out) >= n: break
                    if s.atoms and s.rng.random() < 0.8:
                        x = s.rng.choice(s.atoms); cur = s.lit(x, e)
                        if cur is not None: v2 = s.adjust(vals, x, not cur, mode)
                else:
                    for x, want in s.path(hyp):
                        if s.lit(x, e) != want:
                            v2 = s.adjust(vals, x, want, mode)
                            if v2 is not None: break
                if v2 is None:
                    if not s.names: break
                    y = s.rng.choice(s.names)
                    if y in s.fixed: continue
                    v2 = dict(vals); v2[y] = s.rv(s.ints[y])
                vals = v2
        return out
    def run(s, hyp, violated, tries, steps=25, focus=()):
        """assignment with hyp true and violated(env) true, or None; counts assignments that met hyp"""
        s.met = 0; s.unknown = 0
        focus = list(focus) or s.atoms
        t0 = time.monotonic()
        t1 = t0 + min(LIMIT[0], max(0.5, 5 * LIMIT[0] - SPENT[0]))
        try: return s.run1(hyp, violated, tries, steps, focus, t1)
        finally: SPENT[0] += time.monotonic() - t0
    def run1(s, hyp, violated, tries, steps, focus, t1):
        for t in range(tries):
            if time.monotonic() > t1: break
            mode = None if t % 3 == 0 else s.rng.randrange(1, 1 << 30)
            vals = s.init()
            for k in range(steps):
                e = s.env(vals, mode)
                try: ok = ev_b(hyp, e)
                except (Unknown, Stuck): ok = None
                if ok:
                    s.met += 1
                    try:
                        if violated(e): return vals, mode
                    except Stuck: pass
                    except Unknown: s.unknown += 1
                    if not focus: break
                    x = s.rng.choice(focus)
                    cur = s.lit(x, e)
                    if cur is None: v2 = None
                    else: v2 = s.adjust(vals, x, not cur, mode)
                    if v2 is None:
                        n = s.rng.choice(s.names) if s.names else None
                        if n is None or n in s.fixed: continue
                        v2 = dict(vals); v2[n] = s.rv(s.ints[n])
                    vals = v2
                else:
                    fixed = False
                    for x, want in s.path(hyp):
                        if s.lit(x, e) != want:
                            v2 = s.adjust(vals, x, want, mode)
                            if v2 is not None: vals = v2; fixed = True
                            break
                    if not fixed:
                        if not s.names: break
                        n = s.rng.choice(s.names)
                        if n not in s.fixed:
                            vals = dict(vals); vals[n] = s.rv(s.ints[n])
        return None


# ------------------------------------------------------------------ comparing evaluated values
def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x and y and x[0] == "c" and y[0] == "c":
            a, b = x[1], y[1]
            return a == b or (a != a and b != b)
        if len(x) != len(y): return False
        return all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, CM) or isinstance(y, CM):
        raise Unknown("array comparison")
    return x == y
