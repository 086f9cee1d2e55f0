"""C02: every layout stores element (row, col) at its documented position."""
from ..core import *
from ..lay import *
from ..exprs import pick

LEVEL = "proof"
PRE = PRELUDE

def roots():
    out = []
    for l in ALL:
        def chk(R, l=l):
            q = l.of(R); i, j = R.v("i"), R.v("j")
            m, n = q.dim()
            hyp = bands(b_ult(i, m), b_ult(j, n), q.ctor_ok(), q.countok())
            if l.key == "UT": hyp = band(hyp, b_ule(i, j))
            R.eq("position of element (i, j)", hyp, R.val, q.raw(i, j))
            R.accept("position of element (i, j) is computed", hyp)
        out.append(Root("raw_" + l.key, l.params() + [("i", "usize"), ("j", "usize")], "usize",
                        "    %s.convert_2d_raw(i, j)" % l.ctor(), chk, lfile(l) + " convert_2d_raw"))
    for l in ALL:
        for st in ("slice", "mut", "vec"):
            ps, e = mat(l, store=st)
            def chk(R, l=l):
                q = l.of(R); i, j = R.v("i"), R.v("j")
                m, n = q.dim()
                hyp = bands(q.fits(R.len("x")), b_ult(i, m), b_ult(j, n))
                if l.key == "UT": hyp = band(hyp, b_ule(i, j))
                R.eq("get(i, j) is the element at that position of the storage", hyp, R.val, R.elem("x", q.raw(i, j)))
            out.append(Root("get_%s_%s" % (l.key, st), ps + [("i", "usize"), ("j", "usize")], "f64", "    %s.get(i, j)" % e, chk, "src/base_matrix.rs get_unchecked"))
    for l in ALL:
        ps, e = mat(l, store="mut")
        def chk(R, l=l):
            q = l.of(R); i, j, k = R.v("i"), R.v("j"), R.v("k")
            m, n = q.dim()
            hyp = bands(q.fits(R.len("x")), b_ult(i, m), b_ult(j, n), b_ult(k, R.len("x")))
            if l.key == "UT": hyp = band(hyp, b_ule(i, j))
            p = q.raw(i, j)
            # contents after the write at an arbitrary position k
            R.eq("write at (i, j) changes exactly that position", hyp, R.at(R.final("x").m, k) if not R.err else None,
                 vite(b_eq(k, p), R.v("v"), R.elem("x", k)) if not R.err else None)
        out.append(Root("set_" + l.key, ps + [("i", "usize"), ("j", "usize"), ("v", "f64"), ("k", "usize")], "()",
                        "    let mut a = %s;\n    *a.get_mut(i, j) = v;" % e, chk, "src/base_matrix.rs get_unchecked_mut"))
    for l in ALL:
        ps, e = mat(l, item="c64")
        def chk(R, l=l):
            q = l.of(R); i, j = R.v("i"), R.v("j")
            m, n = q.dim()
            hyp = bands(q.fits(R.len("x")), b_ult(i, m), b_ult(j, n))
            if l.key == "UT": hyp = band(hyp, b_ule(i, j))
            R.eq("get(i, j) is the element at that position of the storage", hyp, R.val, pick(R, "x", q.raw(i, j), "c64"))
        out.append(Root("get_%s_c64" % l.key, ps + [("i", "usize"), ("j", "usize")], "c64", "    %s.get(i, j)" % e, chk, "src/base_matrix.rs get_unchecked"))
    return out + [r.single() for r in out if r.name[:3] in ("get", "set") and "c64" not in r.name]
