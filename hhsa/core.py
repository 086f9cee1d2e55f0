"""Entry points, obligations and their outcomes."""
import os
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ.setdefault(_v, '1')
import sys, re, json, time, random, signal, resource, traceback, multiprocessing as mp
import multiprocessing.connection as mpc
from .terms import *
from . import terms as tt
from .graph import *
from .interp import Interp, State, Ev, LoopEv, Unsupported
from .mir import Dump
from .prove import Free, Search, same
from . import linarith
from . import build

LENMAX = 1 << 59        # no Rust allocation holds more elements of 16 bytes


class Root:
    """one analysed entry point: a Rust function over the public API of householder"""
    def __init__(s, name, params, ret, body, check, anchor="", item="", deep=False):
        s.name = name; s.params = params; s.ret = ret; s.body = body; s.check = check; s.anchor = anchor; s.item = item; s.deep = deep     # deep: thorough tier only
        s.real = 64         # width of the elements where the check says f64
    def single(s, deep=None):
        """the same entry point over f32 elements"""
        t = lambda x: re.sub(r"\bf64\b", "f32", x)
        r = Root(s.name + "_f32", [(a, t(b)) for a, b in s.params], t(s.ret), t(s.body), s.check, s.anchor, t(s.item), s.deep if deep is None else deep)
        r.real = 32
        return r
    def code(s):
        ps = ", ".join("%s: %s" % (a, b) for a, b in s.params)
        return s.item + "pub fn %s(%s) -> %s {\n%s\n}\n" % (s.name, ps, s.ret, s.body)


class Obl:
    """outcome of one obligation"""
    __slots__ = ("root", "profile", "desc", "status", "how", "detail", "anchor", "met")
    def __init__(s, root, profile, desc, status, how="", detail="", anchor="", met=0):
        s.root = root; s.profile = profile; s.desc = desc; s.status = status; s.how = how; s.detail = detail; s.anchor = anchor; s.met = met


def flatten(log, cond=TRUE, loops=()):
    """(event, condition over counters and inputs, enclosing loops)"""
    for e in log:
        if isinstance(e, LoopEv):
            c = band(cond, e.c)
            N = e.L.trip
            K = pa(e.L.K)
            if N is not None and not e.L.broken:
                c2 = band(c, bnot(b_ult(sub_trip(N, e), K)))
            else: c2 = c
            yield from flatten(e.log, c2, loops + (e,))
        else:
            yield e, band(cond, e.c), loops

def sub_trip(N, e):
    mp = {a: b for a, b in zip(e.L.params, e.par) if pa(a) is not b}
    return subst(N, mp) if mp else N

def inst(log, env):
    """the events of the log under an assignment, in program order"""
    for e in log:
        if isinstance(e, LoopEv):
            if not ev_b(e.c, env): continue
            L = e.L
            t = table(L, e.par, env)
            pv = [ev_p(p, env) for p in e.par]
            for k in range(len(t)):
                yield from inst(e.log, env.child(list(zip(L.params, pv)) + [(L.K, k)]))
        elif ev_b(e.c, env): yield e, env

class Result:
    """analysis result of a root in one profile, with the obligation interface"""
    def __init__(s, root, profile, dump, budget):
        s.root = root; s.profile = profile; s.d = dump
        s.obls = []; s.budget = budget
        s.rng = random.Random("%s/%s/%s" % (os.environ.get("VERIF_SEED", "1"), root.name, profile))
        s.err = None; s.p = {}; s.log = []; s.regions = {}
        s.pools = {}; s.resisted = False; s.t0 = time.time()
        s.base = TRUE; s.outgrown = None
        I = s.I = Interp(dump, profile)
        fi = dump.roots[root.name]; f = dump.fns[fi]
        st = State(TRUE, {})
        args = []
        try:
            for i, (n, t) in enumerate(root.params):
                v = I.skolem(f["locals"][i + 1], n, st.st)
                s.p[n] = v; args.append(v)
            s.init = dict(st.st)
            for o, v in st.st.items():
                if isinstance(v, Arr): s.regions[o.name] = (o, v.n)
            s.val, s.st = I.call(fi, args, st)
            s.log = I.log
        except (Unsupported, RecursionError, AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError, Stuck, Unknown) as ex:
            s.err = "%s: %s" % (type(ex).__name__, str(ex)[:200])
            tb = traceback.extract_tb(ex.__traceback__)
            s.err += " [%s; in %s]" % (" < ".join("%s:%d" % (x.name, x.lineno) for x in reversed(tb[-3:])), " < ".join(dump.fns[k]["path"] for k in reversed(I.stack[-3:])))
            s.val, s.st = None, None
        s.ret = s.st.pc if s.st else FALSE
        for v in I.statics:         # counters are far from their end
            for x in I.leaves(v):
                if isinstance(x, P) and x.w == 64: s.base = band(s.base, b_ult(x, pc(1 << 62)))
        for n, (o, ln) in s.regions.items():
            if cval(ln) is None: s.base = band(s.base, b_ult(ln, pc(LENMAX)))
    # -------------------------------------------------------------- access to the result
    def v(s, n): return s.p[n]
    def len(s, name):
        """length of the storage handed in under a parameter name"""
        c = [x for x in s.regions if x == name or x.startswith(name + ".")]
        if len(c) != 1: raise Unsupported("storage of parameter " + name)
        return s.regions[c[0]][1]
    def obj(s, name):
        c = [x for x in s.regions if x == name or x.startswith(name + ".")]
        if len(c) != 1: raise Unsupported("storage of parameter " + name)
        return s.regions[c[0]][0]
    def at(s, m, i):
        """element at position i of the contents m"""
        return sel_leaf(m, i, (), ("f", s.root.real))
    def elem(s, name, i, kind=("f", 64), path=()):
        """initial contents of the storage of a parameter at raw position i"""
        if kind == ("f", 64): kind = ("f", s.root.real)
        if name in s.p and not any(x == name or x.startswith(name + ".") for x in s.regions):
            v = s.p[name]
            while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
            if isinstance(v, Arr): return sel_leaf(v.m, i, path, kind)
        o = s.obj(name)
        v = s.init[o] if isinstance(s.init.get(o), Arr) else None
        return sel_leaf(v.m, i, path, kind)
    def final(s, name):
        o = s.obj(name)
        return s.st.st.get(o, s.init[o])
    def events(s, *kinds, on=None):
        for e, c, loops in flatten(s.log):
            if kinds and e.k not in kinds: continue
            if on is not None and e.d.get("o") is not on: continue
            yield e, c, loops
    # -------------------------------------------------------------- outcomes
    def add(s, desc, status, how="", detail="", at="", met=0):
        if s.outgrown and status == "proved": status, how, detail = "open", "analysis", "a vector may outgrow its capacity at %s" % s.outgrown
        s.obls.append(Obl(s.root.name, s.profile, desc, status, how, detail, at or s.root.anchor, met))
    def blocked(s, desc):
        if s.err:
            s.add(desc, "open", "analysis", s.err); return True
        if s.outgrown is None:
            s.outgrown = False
            for e, c, loops in s.events("grow"):
                h = band(c, s.base)
                if h != FALSE and not linarith.implied(h, fits_in(e.d)):
                    s.outgrown = e.at; break
        return False
    def unknowns(s, hyp):
        """calls the analysis does not know, if reachable under hyp"""
        return [e.d.get("path") for e, c, l in flatten(s.log) if e.k == "unknown" and band(c, hyp) != FALSE]

    def search(s, hyp, violated, extra=(), tries=None, big=0.1, apps=None):
        fr = Free()
        fr.bdd(hyp)
        for x in extra: fr.bdd(x) if type(x) is int else fr.args(x) if isinstance(x, (list, tuple)) else fr.add(x)
        fr.log(s.log) if getattr(s, "uselog", False) or s.outgrown else None
        S = Search(fr, s.rng, big=big, apps=apps)
        n = tries or s.budget
        focus = [tt._batoms[v] for x in extra if type(x) is int and x > 1 for v in bsupport(x)]
        r = S.run(hyp, s.fits(violated), n, focus=focus)
        return r, S

    # -------------------------------------------------------------- assignments that satisfy a hypothesis
    POOL = (60, 2.5)
    def pool(s, hyp):
        r = s.pools.get(hyp)
        if r is None:
            fr = Free(); fr.bdd(hyp); fr.log(s.log)
            if s.st is not None: fr.bdd(s.ret)
            S = Search(fr, s.rng)
            n, secs = s.POOL
            if getattr(s, "thorough", False): n, secs = 10 * n, 10 * secs
            r = s.pools[hyp] = (S, S.sample(hyp, n, secs))
        return r
    def suspect(s):
        """an obligation of this entry point resisted already, or the analysis takes long"""
        return s.resisted or time.time() - s.t0 > 5
    def sampled(s, hyp, violated, extra):
        """a violation among the assignments that satisfy hyp"""
        S, envs = s.pool(hyp)
        fr = Free(); fr.args(x for x in extra if type(x) is not int)
        for x in extra:
            if type(x) is int: fr.bdd(x)
        more = [a for n, a in fr.ints.items() if n not in S.ints and not n.startswith("align#")]
        moreb = [n for n in fr.bools if n not in S.f.bools]
        viol = s.fits(violated)
        t1 = time.monotonic() + s.POOL[1] * (10 if getattr(s, "thorough", False) else 1)
        for vals, mode, e in envs:
            if time.monotonic() > t1: break
            if more or moreb:
                vals = dict(vals)
                S.hi = 6
                for a in more: vals[a.a] = S.rv(a)
                for n in moreb: vals[n] = s.rng.random() < 0.5
                e = S.env(vals, mode)
            e.root.steps = 0
            try:
                if viol(e): return (vals, mode), S
            except (Unknown, Stuck): pass
        return None

    def fits(s, violated):
        """only runs in which no modelled vector outgrows its capacity count"""
        if not s.outgrown: return violated
        return lambda e: violated(e) and all(ev_b(fits_in(x.d), env) for x, env in inst(s.log, e) if x.k == "grow")

    def need(s, desc, hyp, claim, at="", loops=(), given=None):
        """hyp implies claim; given: the part of hyp that is not about a particular event"""
        if s.blocked(desc): return
        given = band(hyp if given is None else given, s.base)
        hyp = band(hyp, s.base)
        if hyp == FALSE:
            s.add(desc, "vacuous", "hypothesis", "the hypothesis cannot hold", at); return
        bad = band(hyp, bnot(claim))
        if bad == FALSE: s.add(desc, "proved", "normal form", at=at); return
        def viol(e):
            if loops: return s.runs(hyp, claim, e, loops)
            return ev_b(hyp, e) and not ev_b(claim, e)
        first = s.suspect()
        if first:
            r = s.sampled(given, viol, [hyp, claim])
            if r: s.fail(desc, r[0], r[1], bad, at); return
        if linarith.implied(hyp, claim): s.add(desc, "proved", "linear", at=at); return
        s.resisted = True
        if not first:
            r = s.sampled(given, viol, [hyp, claim])
            if r: s.fail(desc, r[0], r[1], bad, at); return
        if loops:
            # universally quantified over the iterations: look for a violating instance of a run
            r, S = s.search_loops(hyp, claim, loops)
        else:
            r, S = s.search(hyp, lambda e: not ev_b(claim, e), [claim])
        if r: s.fail(desc, r, S, bad, at)
        else: s.add(desc, "open", "no separating assignment in %d" % S.met, showb(bad)[:600], at, S.met)

    def runs(s, hyp, claim, e, loops):
        """does some instance of the nested loops satisfy hyp and not claim"""
        def go(env, ls):
            if not ls: return ev_b(hyp, env) and not ev_b(claim, env)
            le = ls[0]
            if not ev_b(le.c, env): return False
            t = table(le.L, le.par, env)
            pv = [ev_p(p, env) for p in le.par]
            return any(go(env.child(list(zip(le.L.params, pv)) + [(le.L.K, k)]), ls[1:]) for k in range(len(t)))
        return go(e, loops)

    def search_loops(s, hyp, claim, loops):
        mp0 = {}
        base = quantifier_free(hyp, loops)
        def violated(e): return s.runs(hyp, claim, e, loops)
        fr = Free(); fr.bdd(base)
        for le in loops: fr.bdd(le.c); fr.loop(le.L); fr.args(le.par); fr.add(le.L.trip) if le.L.trip is not None else None
        fr.bdd(claim); fr.bdd(hyp)
        for le in loops: fr.ints.pop(le.L.K.a, None)
        S = Search(fr, s.rng)
        if s.outgrown: fr.log(s.log)
        return S.run(base, s.fits(violated), max(60, s.budget // 3), focus=[x for x in S.atoms if not any(occurs(x.a, le.L.K) for le in loops)]), S

    def eq(s, desc, hyp, a, b, at=""):
        """hyp implies a = b (values of any shape)"""
        if s.blocked(desc): return
        hyp = band(hyp, s.base)
        if hyp == FALSE: s.add(desc, "vacuous", "hypothesis", "the hypothesis cannot hold", at); return
        prs = []
        try: leafpairs(a, b, prs)
        except Unsupported as ex:
            s.add(desc, "open", "analysis", str(ex), at); return
        rest = []
        first = s.suspect()
        for x, y in prs:
            if x is y: continue
            x2, y2 = under(x, hyp), under(y, hyp)
            if x2 is y2: continue
            if first and s.unequal(desc, hyp, x2, y2, at): return
            if linarith.equal(hyp, x2, y2): continue
            s.resisted = True
            if not first and s.unequal(desc, hyp, x2, y2, at): return
            rest.append((x2, y2))
        if not rest: s.add(desc, "proved", "normal form" if all(x is y for x, y in prs) else "normal form under hypothesis", at=at); return
        left = None
        for x, y in rest:
            if isinstance(x, (Opq, Agg)) or isinstance(y, (Opq, Agg)) or x is UNDEF or y is UNDEF:
                left = left or ("analysis", "%r" % ((x, y),)); continue
            def violated(e, x=x, y=y):
                return differs(x, y, e)
            r, S = s.search(hyp, violated, [x, y])
            if r:
                s.fail(desc, r, S, None, at, (x, y)); return
            left = left or ("no separating assignment in %d" % S.met, "%r  vs  %r" % (str(x)[:300], str(y)[:300]))
        s.add(desc, "open", left[0], left[1], at)

    def unequal(s, desc, hyp, x, y, at):
        if isinstance(x, (Opq, Agg)) or isinstance(y, (Opq, Agg)) or x is UNDEF or y is UNDEF: return False
        r = s.sampled(hyp, lambda e: differs(x, y, e), [x, y])
        if r: s.fail(desc, r[0], r[1], None, at, (x, y))
        return bool(r)

    def trace(s, desc, hyp, violated, proved=False, at="", extra=()):
        """a condition on the whole event sequence; violated(env) instantiates it under an assignment"""
        if s.blocked(desc): return
        hyp = band(hyp, s.base)
        if hyp == FALSE: s.add(desc, "vacuous", "hypothesis", "the hypothesis cannot hold", at); return
        if proved: s.add(desc, "proved", "structural", at=at); return
        why = []
        def viol(e):
            w = violated(e)
            if w: why.append(w)
            return bool(w)
        r = s.sampled(hyp, viol, extra)
        if r: s.fail(desc, r[0], r[1], None, at, note=str(why[-1])); return
        s.uselog = True
        try: r, S = s.search(hyp, viol, list(extra), tries=max(60, s.budget // 3), big=0.02)
        finally: s.uselog = False
        if r: s.fail(desc, r, S, None, at, note=str(why[-1]))
        else: s.add(desc, "open", "no separating assignment in %d" % S.met, "", at, S.met)

    def accept(s, desc, hyp):
        """the call completes: it neither panics nor diverges"""
        if s.blocked(desc): return
        hyp = band(hyp, s.base)
        if hyp == FALSE: s.add(desc, "vacuous", "hypothesis", "the hypothesis cannot hold"); return
        bad = []
        for e, c, loops in s.events("panic", "unreachable"):
            if band(c, hyp) == FALSE: continue
            bad.append((e, c, loops))
        n0 = len(s.obls)
        for e, c, loops in bad:
            s.need("%s: no panic (%s)" % (desc, e.d.get("why") or e.k), band(hyp, c), FALSE, at="%s %s" % (e.fn, e.at), loops=loops, given=hyp)
        if not bad:
            if s.unknowns(hyp): s.add(desc, "open", "analysis", "unknown calls " + ", ".join(map(str, s.unknowns(hyp)))[:300])
            elif band(hyp, bnot(s.ret)) == FALSE or not has_panics(s.log): s.add(desc, "proved", "no panic is reachable under the hypothesis")
            else: s.need(desc, hyp, s.ret)

    def reject(s, desc, hyp):
        """the call does not return"""
        if s.unknowns(hyp) and not s.err: 
            s.add(desc, "open", "analysis", "unknown calls " + ", ".join(map(str, s.unknowns(hyp)))[:300]); return
        s.need(desc, hyp, bnot(s.ret))

    ACCESS = ("read", "write", "copy", "fill", "unchecked", "slice", "write_range")
    def bounded(s, desc, hyp):
        """every element access and raw slice lies inside the object it goes to"""
        if s.blocked(desc): return
        n = 0
        for e, c, loops in s.events(*s.ACCESS):
            h = band(hyp, c)
            if h == FALSE: continue
            n += 1
            for cl in access_claims(e):
                if cl is None:
                    s.add("%s (%s)" % (desc, e.k), "open", "analysis", "unresolved access", "%s %s" % (e.fn, e.at)); continue
                if cl == TRUE: s.add("%s (%s)" % (desc, e.k), "proved", "normal form", at="%s %s" % (e.fn, e.at)); continue
                s.need("%s (%s in %s)" % (desc, e.k, e.fn.split("::")[-1]), h, cl, at="%s %s" % (e.fn, e.at), loops=loops, given=hyp)
        if n == 0: s.add(desc, "proved", "no access")
        return n

    def untouched(s, desc, hyp, names, kinds=("write", "copy", "fill", "write_range")):
        """no event of these kinds on the storage of the parameters"""
        if s.blocked(desc): return
        objs = {id(s.obj(n)): n for n in names}
        ok = True
        for e, c, loops in s.events(*kinds):
            if id(e.d.get("o")) not in objs: continue
            h = band(hyp, c)
            if h == FALSE: continue
            ok = False
            s.need("%s (%s in %s)" % (desc, e.k, e.fn.split("::")[-1]), h, FALSE, at="%s %s" % (e.fn, e.at), loops=loops, given=hyp)
        if ok: s.add(desc, "proved", "no such event")

    def count(s, hyp, sel, weight=None):
        """number of events that sel picks, as a polynomial; None if it has no closed form"""
        tot = pc(0)
        def go(log, guard, factor, h):
            nonlocal tot
            for e in log:
                if isinstance(e, LoopEv):
                    if not any(sel(x) for x, c, l in flatten(e.log)): continue
                    N = e.L.trip
                    if N is None or e.L.broken or e.L.stop != FALSE: return False
                    N = sub_trip(N, e)
                    h2 = bands(h, e.c, b_ult(pa(e.L.K), N))
                    if e.L.params and [pa(a) for a in e.L.params] != list(e.par): return False
                    if factor is None: return False
                    # every iteration must do the same
                    if not go(e.log, band(guard, e.c), pmul(factor, N), h2): return False
                elif sel(e):
                    w = weight(e) if weight else pc(1)
                    if factor is None: return False
                    if h is hyp: tot = padd(tot, pmul(ind(e.c), w))
                    elif band(h, e.c) == FALSE or linarith.infeasible(band(h, e.c)): pass
                    elif linarith.implied(h, e.c): tot = padd(tot, pmul(pmul(ind(guard), factor), w))
                    else: return False
            return True
        return tot if go(s.log, TRUE, pc(1), hyp) else None

    def counted(s, desc, hyp, sel, want, weight=None, at=""):
        """the number of events that sel picks is want"""
        if s.blocked(desc): return
        n = s.count(band(hyp, s.base), sel, weight)
        if n is not None: s.eq(desc, hyp, n, want, at); return
        def violated(env):
            t = 0
            for x, e in inst(s.log, env):
                if sel(x): t += ev_p(weight(x), e) if weight else 1
            w = ev_p(want, env)
            return "%d instead of %d" % (t, w) if t != w else None
        s.trace(desc, hyp, violated, extra=[want], at=at)

    def eqmem(s, desc, hyp, names):
        """the storage of the parameters holds its initial contents at the end"""
        if s.blocked(desc): return
        for n in names:
            if s.final(n) is s.init[s.obj(n)] or s.final(n).m is s.init[s.obj(n)].m: s.add(desc, "proved", "no write reaches the storage of " + n)
            else: s.eq(desc, hyp, s.final(n), s.init[s.obj(n)])

    def untouched_obj(s, desc, hyp, o, kinds=("write", "copy", "fill")):
        """no event of these kinds on an object"""
        ok = True
        for e, c, loops in s.events(*kinds, on=o):
            h = band(hyp, c)
            if h == FALSE: continue
            ok = False
            s.need("%s (%s in %s)" % (desc, e.k, e.fn.split("::")[-1]), h, FALSE, at="%s %s" % (e.fn, e.at), loops=loops, given=hyp)
        if ok: s.add(desc, "proved", "no such event")

    def fail(s, desc, r, S, bad, at, pair=None, note=""):
        vals, mode = r
        show_vals = {k: v for k, v in sorted(vals.items()) if not k.startswith("align#")}
        lines = ["assignment: " + ", ".join("%s=%s" % kv for kv in show_vals.items())]
        if pair is not None:
            e = S.env(vals, mode)
            try: lines += ["left:  %s = %s" % (str(pair[0])[:400], str(ev(pair[0], e))[:300]), "right: %s = %s" % (str(pair[1])[:400], str(ev(pair[1], e))[:300])]
            except (Unknown, Stuck): pass
        if note: lines.append("observed: " + note)
        if bad is not None: lines.append("violating condition: " + showb(bad)[:800])
        e = S.env(vals, mode)
        try:
            n = 0
            for x, env in inst(s.log, e):
                if x.k in ("panic", "alloc", "kernel") or n < 12:
                    lines.append("event: %s in %s at %s %s" % (x.k, x.fn, x.at, payload(x, env))); n += 1
                if n > 30: break
        except (Unknown, Stuck): pass
        s.add(desc, "violated", "separating assignment", "\n".join(lines), at)


def has_panics(log):
    return any(e.k in ("panic", "unreachable", "unknown") for e, c, l in flatten(log)) or any(isinstance(e, LoopEv) and e.L.stop != FALSE for e in log)

def payload(x, env):
    out = []
    for k, v in x.d.items():
        if isinstance(v, (P, T)):
            try: out.append("%s=%s" % (k, ev(v, env)))
            except (Unknown, Stuck): out.append("%s=?" % k)
        elif isinstance(v, (Obj, str)): out.append("%s=%s" % (k, v))
    return " ".join(out)

def access_claims(e):
    d = e.d
    if e.k in ("read", "write"): return [b_ult(d["i"], d["n"])]
    if e.k == "copy": return [in_range(d["i"], d["n"], d["dn"]), in_range(d["si"], d["n"], d["sn"])]
    if e.k == "fill": return [in_range(d["i"], d["n"], d["dn"])]
    if e.k == "write_range": return []
    if e.k == "unchecked":
        out = []
        for c, p in ptrs(d["ptr"]):
            if p is None or not isinstance(p.m, P): out.append(None)
            else: out.append(bor(bnot(c), b_ult(d["i"], p.m)))
        return out
    if e.k == "slice":
        return [None if x is UNDEF else bor(bnot(x.f[0].b), in_range(x.f[1], d["n"], x.f[2])) for x in d["wins"]]
    return []

def in_range(i, n, ln):
    """i + n <= ln without wrap-around"""
    return band(b_ule(n, ln), b_ule(i, psub(ln, n)))

def fits_in(d):
    return b_ult(d["i"], d["n"]) if d["more"] is pc(1) else in_range(d["i"], d["more"], d["n"])

def ptrs(v, c=TRUE):
    if isinstance(v, Ptr): return [(c, v)]
    if isinstance(v, Ite): return ptrs(v.a, band(c, v.c)) + ptrs(v.b, band(c, bnot(v.c)))
    if isinstance(v, Agg):
        for x in v.f:
            if isinstance(x, (Ptr, Ite, Agg)): return ptrs(x, c)
    return [(c, None)]

def quantifier_free(hyp, loops):
    """the part of hyp that does not mention the loop counters (over-approximation: true where unknown)"""
    Ks = [le.L.K for le in loops]
    def go(b):
        if b <= 1: return b
        v, h, l = tt._bnode[b]
        x = tt._batoms[v]
        hh, ll = go(h), go(l)
        if any(occurs(x.a, K) for K in Ks): return bor(hh, ll)
        return bite(batom(x.k, x.a), hh, ll)
    return go(hyp)

def leafpairs(a, b, out):
    if a is b: return
    ta, tb = type(a), type(b)
    if ta is Agg and tb is Agg:
        if len(a.f) != len(b.f) and 1 in (len(a.f), len(b.f)):
            return leafpairs(a.f[0] if len(a.f) == 1 else a, b.f[0] if len(b.f) == 1 else b, out)
        if len(a.f) != len(b.f): raise Unsupported("shape: %r vs %r" % (a, b))
        for x, y in zip(a.f, b.f): leafpairs(x, y, out)
        return
    if ta is Agg and len(a.f) == 1: return leafpairs(a.f[0], b, out)
    if tb is Agg and len(b.f) == 1: return leafpairs(a, b.f[0], out)
    out.append((a, b))

def differs(x, y, e):
    """do the values differ under the assignment; symbolic floats only count if they also differ numerically"""
    a, b = ev(x, e), ev(y, e)
    if same(a, b): return False
    if (isinstance(a, tuple) and a[:1] == ("agg",)) != (isinstance(b, tuple) and b[:1] == ("agg",)): raise Unknown("values of different shape")
    if not has_float(a) and not has_float(b): return True
    if concrete(a) and concrete(b): return True
    vals = e.root.vals
    for seed in (1, 2, 3, 5, 6, 7, 9, 11):
        e2 = new_env(vals, e.root.apps); e2.root.fmode = seed
        try: p, q = ev(x, e2), ev(y, e2)
        except (Unknown, Stuck): continue
        if not same(p, q): return True
    raise Unknown("equal for all float samples")
def has_float(a):
    if isinstance(a, tuple):
        return bool(a) and (a[0] in ("c", "v", "el", "fadd", "fsub", "fmul", "fdiv", "app", "fneg", "fcast") or any(has_float(x) for x in a))
    return False
def concrete(a):
    if isinstance(a, tuple): return (a and a[0] in ("c", "agg", "enum") and all(concrete(x) for x in a[1:] if isinstance(x, tuple))) or (a and isinstance(a[0], tuple) and all(concrete(x) for x in a))
    return True


# ------------------------------------------------------------------ running the roots of a property
_dumps = {}
def analyse(job):
    (prop, rootname, profile, path, budget, tmo, thorough, deadline) = job
    t0 = time.time()
    from .props import load
    from . import prove
    prove.LIMIT[0] = 60.0 if thorough else 8.0; prove.SPENT[0] = 0.0
    left = int(deadline - t0)
    if left < 1 or STOP.value:
        why = "violations were found already" if STOP.value else "the time of the check is used up"
        return [tuple(getattr(o, k) for k in Obl.__slots__) for o in [Obl(rootname, profile, "analysis time", "open", "analysis", why)]], {"fns": [], "events": 0, "unknown": []}, rootname, profile, 0.0
    tmo = min(tmo, left)
    root = next(r for r in load(prop).roots() if r.name == rootname)
    d = _dumps.get(path)
    if d is None: d = _dumps[path] = Dump(path)
    class TO(BaseException): pass
    def onalarm(*a): raise TO()
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(tmo)
    R = None
    try:
        R = Result(root, profile, d, budget); R.thorough = thorough
        try: root.check(R)
        except Unsupported as ex: R.add("analysis", "open", "analysis", str(ex)[:300])
        obls = R.obls
        extra = {"fns": sorted({d.fns[k]["path"] for k in R.I.visited}), "events": sum(1 for _ in flatten(R.log)), "unknown": sorted(set(map(str, R.I.unknown)))}
    except TO:
        obls = (R.obls if R else []) + [Obl(rootname, profile, "analysis time", "open", "analysis", "time limit of %d s" % tmo)]
        extra = {"fns": [], "events": 0, "unknown": []}
    except Exception as ex:
        obls = (R.obls if R else []) + [Obl(rootname, profile, "analysis", "open", "analysis", "%s\n%s" % (ex, traceback.format_exc()[-1500:]))]
        extra = {"fns": [], "events": 0, "unknown": [], "crash": traceback.format_exc()[-1500:]}
    finally: signal.alarm(0)
    return [tuple(getattr(o, k) for k in Obl.__slots__) for o in obls], extra, rootname, profile, time.time() - t0

def clean(s):
    """keys carry no line numbers"""
    return re.sub(r":\d+", "", s)

STOP = mp.Value("b", 0)

# ------------------------------------------------------------------ worker processes
MEMORY = 3 << 30            # per worker; an analysis that needs more is given up
def worker(conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for n in range(12):
        try: job = conn.recv()
        except EOFError: return
        if job is None: return
        try: r = analyse(job)
        except MemoryError: os._exit(3)
        big = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > MEMORY >> 12
        conn.send((r, n == 11 or big))
        if big: return

def perform(jobs, procs, deadline):
    """the results of the jobs; a worker that dies or outstays its time leaves its job open"""
    def lost(job, why):
        o = Obl(job[1], job[2], "analysis", "open", "analysis", why)
        return [tuple(getattr(o, k) for k in Obl.__slots__)], {"fns": [], "events": 0, "unknown": []}, job[1], job[2], 0.0
    def start():
        a, b = mp.Pipe()
        p = mp.Process(target=worker, args=(b,), daemon=True); p.start(); b.close()
        return p, a
    def end(p, a):
        a.close(); p.join(1)
        if p.is_alive(): p.kill(); p.join()
    todo = list(reversed(jobs)); busy = {}; idle = []
    try:
        while todo or busy:
            while todo and len(busy) < procs:
                p, a = idle.pop() if idle else start()
                job = todo.pop()
                try: a.send(job)
                except (BrokenPipeError, OSError): end(p, a); todo.append(job); continue
                busy[a] = (p, job, time.time())
            for a in mpc.wait(list(busy), timeout=2):
                p, job, t = busy.pop(a)
                try: r, last = a.recv()
                except (EOFError, OSError, MemoryError):
                    end(p, a); yield lost(job, "the analysis needs more than %d MB" % (MEMORY >> 20)); continue
                if last: end(p, a)
                else: idle.append((p, a))
                yield r
            now = time.time()
            for a, (p, job, t) in list(busy.items()):
                if now > min(t + job[5] + 30, deadline):
                    del busy[a]; p.kill(); end(p, a)
                    yield lost(job, "time limit")
    finally:
        for p, a in idle + [(p, a) for a, (p, j, t) in busy.items()]: p.kill(); end(p, a)

def run_roots(prop, roots, prelude, budget, tmo, procs=8, tag=None, thorough=False, known=()):
    """known: keys of the findings that are recorded; other violations end the analysis a minute after it started"""
    t0 = time.time()
    deadline = t0 + (7200 if thorough else 360)
    STOP.value = 0; nbad = 0
    paths, bad = build.dump(tag or prop, prelude, [(r.name, r.code()) for r in roots])
    jobs = [(prop, r.name, p, paths[p], budget, tmo, thorough, deadline) for r in roots if r.name not in bad for p in build.PROFILES]
    obls = []; extras = []
    for n, e in bad.items():
        obls.append(Obl(n, "-", "the entry point type-checks against the library", "violated", "rustc", e[:3000], next(r.anchor for r in roots if r.name == n)))
    for os_, ex, rn, pf, t in perform(jobs, min(procs, len(jobs)), deadline + 30):
        for o in os_:
            o = Obl(*o); obls.append(o)
            if o.status in ("violated", "vacuous") and clean(o.root + " | " + o.desc) not in known: nbad += 1
        if nbad >= 3 and not thorough and time.time() - t0 > 60: STOP.value = 1
        ex["t"] = t; ex["root"] = rn; ex["profile"] = pf
        extras.append(ex)
    order = {r.name: i for i, r in enumerate(roots)}
    obls.sort(key=lambda o: (order.get(o.root, 0), o.profile))
    return obls, extras
