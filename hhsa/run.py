import sys, json, os, time
from . import core
from .props import load
def main(prop, only=None):
    m = load(prop)
    rs = [r for r in (m.roots() if hasattr(m,'roots') else []) if only is None or any(o in r.name for o in only)]
    t = time.time()
    K = {k["key"] for k in json.load(open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"))["known"] if k["property"] == prop}
    obls, ex = core.run_roots(prop, rs, m.PRE, 300, 120, known=K) if rs else ([], [])
    if only is None and hasattr(m, 'extra'): obls += m.extra(True)
    cnt = {}
    for o in obls:
        cnt[o.status] = cnt.get(o.status, 0) + 1
        if o.status != "proved": print(o.root, o.profile, o.status, "|", o.desc, "|", o.how, "|", o.at if hasattr(o, "at") else o.anchor, "\n     ", o.detail[:int(os.environ.get("HH_DET","700"))])
    print(cnt, "%.1fs" % (time.time() - t))
    for e in ex:
        if e["unknown"] or e["t"] > 10: print(e["root"], e["profile"], "%.1f" % e["t"], e["unknown"])
if __name__ == "__main__": main(sys.argv[1], sys.argv[2:] or None)
