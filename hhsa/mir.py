"""Loading of the MIR dump; control flow graphs, natural loops, liveness."""
import json

class Dump:
    def __init__(s, path):
        d = json.load(open(path))
        s.roots = {k.split("::")[-1]: v for k, v in d["roots"].items()}; s.statics = d.get("statics", {}); s.types = d["types"]; s.fns = d["fns"]; s.facts = d["facts"]
        s.cfg = {}
    def cfgof(s, fi):
        c = s.cfg.get(fi)
        if c is None:
            c = Cfg(s.fns[fi]); s.cfg[fi] = c
        return c

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[4]]
    return []

class Cfg:
    def __init__(s, fn):
        bl = fn["blocks"]; n = len(bl)
        s.succ = [succs(b["t"]) for b in bl]
        order = []; seen = set()
        stack = [(0, iter(s.succ[0]))]; seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); stack.append((v, iter(s.succ[v]))); break
            else:
                order.append(u); stack.pop()
        order.reverse()
        s.rpo = {b: i for i, b in enumerate(order)}
        s.order = order
        pred = {b: [] for b in order}
        for u in order:
            for v in s.succ[u]: pred[v].append(u)
        s.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else s._inter(idom, p, new)
                if idom.get(b) != new: idom[b] = new; ch = True
        s.idom = idom
        s.loops = {}
        s.irreducible = False
        for u in order:
            for v in s.succ[u]:
                if s.dom(v, u):
                    body = s.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(pred[x])
                elif s.rpo[v] <= s.rpo[u]: s.irreducible = True
        s._live(fn)
    def _inter(s, idom, a, b):
        while a != b:
            while s.rpo[a] > s.rpo[b]: a = idom[a]
            while s.rpo[b] > s.rpo[a]: b = idom[b]
        return a
    def dom(s, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = s.idom[b]
    def _live(s, fn):
        """live-in locals per block; locals whose address is taken are treated as always live"""
        bl = fn["blocks"]
        taken = set(); use = {}; de = {}
        def place(p, u):
            u(p[0])
            for e in p[1]:
                if e[0] == "i": u(e[1])
        def operand(o, u):
            if o[0] in ("cp", "mv"): place(o[1], u)
        def rval(r, u):
            k = r[0]
            if k in ("ref", "addr"):
                if not any(e[0] == "*" for e in r[1][1]): taken.add(r[1][0])
                place(r[1], u)
            elif k in ("discr", "len"): place(r[1], u)
            elif k in ("use", "repeat"): operand(r[1], u)
            elif k in ("array", "tuple", "adt", "closure", "rawptr"):
                for o in r[2]: operand(o, u)
            elif k in ("bin", "cbin"): operand(r[2], u); operand(r[3], u)
            elif k in ("cast", "un"): operand(r[2], u)
        for b in s.order:
            U = set(); D = set()
            def u(l, U=U, D=D):
                if l not in D: U.add(l)
            for st in bl[b]["s"]:
                if st[0] == "=":
                    rval(st[2], u)
                    if st[1][1]: place(st[1], u)
                    else: D.add(st[1][0])
                elif st[0] == "setdiscr": place(st[1], u)
                elif st[0] == "assume": operand(st[1], u)
                elif st[0] == "copynonoverlapping":
                    for o in st[1:]: operand(o, u)
                elif st[0] == "dead": D.add(st[1])
            t = bl[b]["t"]
            if t[0] == "switch": operand(t[1], u)
            elif t[0] == "call":
                if isinstance(t[1], list) and t[1][0] == "ptr": operand(t[1][1], u)
                for o in t[2]: operand(o, u)
                if t[3][1]: place(t[3], u)
                else: D.add(t[3][0])
            elif t[0] == "assert": operand(t[1], u)
            elif t[0] == "return": u(0)
            elif t[0] == "drop": pass
            use[b] = U; de[b] = D
        live = {b: set() for b in s.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.order):
                o = set()
                for v in s.succ[b]: o |= live[v]
                n = use[b] | (o - de[b])
                if n != live[b]: live[b] = n; ch = True
        s.live = live; s.taken = taken
