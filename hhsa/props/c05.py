"""C05: no safely built matrix addresses memory outside its own storage.

Rule: from_data returns exactly when every element of the layout has a position inside the container;
in a client program made of safe calls with unconstrained arguments every access event (element read
or write, raw slice, kernel operand) lies inside the object it goes to."""
from ..core import *
from ..lay import *
from ..exprs import *
from . import c01, c13
from .c13 import SHAPES, call, base

LEVEL = "proof"
PRE = PRELUDE
ASSUME = ["the gemm kernels touch only the positions given by their dimensions, base pointers and strides (dependency, not analysed)"]
FB = "src/base_matrix.rs BaseMatrix::new"; FC = "src/matrix/constructors.rs from_pointer"; FS = "src/matrix/matrix_slices.rs"
U = "usize"

def kernel_inside(R, hyp):
    """every position a kernel may touch lies inside the storage its operand points into"""
    if R.blocked("kernel operands"): return
    n = 0
    for e, c, loops in R.events("kernel"):
        args = list(e.d["args"])
        if e.d["name"] in ("cgemm", "zgemm"): args = args[2:]
        m, k, n_, al, a, rsa, csa, b, rsb, csb, be, cc, rsc, csc = args
        at = "%s %s" % (e.fn, e.at)
        pos = lambda x: b_ult(pc(0), x)
        for what, p, rows, cols, rs, cs, hh in (("A", a, m, k, rsa, csa, bands(pos(m), pos(n_), pos(k))), ("B", b, k, n_, rsb, csb, bands(pos(m), pos(n_), pos(k))), ("C", cc, m, n_, rsc, csc, bands(pos(m), pos(n_)))):
            for c2, o, i in base(R, p):
                h = bands(hyp, c, hh, c2)
                if h == FALSE: continue
                n += 1
                if o is None: R.add("the kernel stays inside the storage of " + what, "open", "analysis", "pointer"); continue
                v = R.init.get(o) or (R.st.st.get(o) if R.st else None)
                while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
                if not isinstance(v, Arr):
                    N = [x.d["n"] for x, _, _ in R.events("alloc") if x.d["o"] is o]
                    N = N[0] if N else None
                else: N = v.n
                if N is None: R.add("the kernel stays inside the storage of " + what, "open", "analysis", "length of " + str(o)); continue
                x, y = pmul(psub(rows, ONE), rs), pmul(psub(cols, ONE), cs)
                last = padd(x, y)
                R.need("the kernel stays inside the storage of " + what, h, bands(mulok(psub(rows, ONE), rs), mulok(psub(cols, ONE), cs), addok(x, y), addok(last, i), b_ult(padd(last, i), N)), at=at)
    if not n: R.add("the kernel is called", "violated", "structural", "no kernel call found")

def roots():
    out = []
    add = lambda n, ps, ret, b, f, an=FB, deep=False: out.append(Root(n, ps, ret, b, f, an, deep=deep))
    # ---------------------------------------------------------------- construction
    for l in ALL:
        for st in ("slice", "mut", "vec", "arr"):
            N = 6 if st == "arr" else None
            ps, e = mat(l, "", "f64", st, N=N)
            def f(R, l=l, N=N):
                fits = l.of(R).fits(pc(N) if N else R.len("x"))
                R.accept("a container that holds every element of the layout is accepted", fits)
                R.reject("a container that is too small for the layout is refused", bnot(fits))
            add("build_%s_%s" % (l.key, st), ps, "()", "    let z = %s;" % e, f)
        for N in (0, 1, 9):
            ps, e = mat(l, "", "c64", "arr", N=N)
            def f(R, l=l, N=N):
                R.accept("a container that holds every element of the layout is accepted", l.of(R).fits(pc(N)))
                R.reject("a container that is too small for the layout is refused", bnot(l.of(R).fits(pc(N))))
            add("build_%s_arr%d" % (l.key, N), ps, "()", "    let z = %s;" % e, f, deep=N == 9)
    # ---------------------------------------------------------------- element access with arbitrary arguments
    def safe(R): R.bounded("every access of the safe program stays inside its storage", TRUE)
    for nm, e, mutable in c01.kinds():
        lets = "\n    ".join(e.lets)
        acc = [("rd", "z.get(i, j); z.get1d(k);", "")]
        if mutable: acc.append(("wr", "*z.get_mut(i, j) = %s; *z.get1d_mut(k) = %s;", ""))
        for a, b, _ in acc:
            if a == "wr": b = b % (("c64::new(1.0, 2.0)",) * 2 if e.item == "c64" else ("1.0", "2.0"))
            add("%s_%s" % (a, nm), e.params() + [("i", U), ("j", U), ("k", U)], "()", "    %s\n    let mut z = %s;\n    %s" % (lets, e.e, b), safe, "src/traits/random_access.rs", deep=nm.startswith("sum_AS") or nm == "sum_mixed_cm")
    for l in ALL:
        for st in ("mut", "vec"):
            ps, e = mat(l, "", "f64", st)
            d = st == "vec" and l.key not in ("RM", "UT")
            add("each_%s_%s" % (l.key, st), ps, "()", "    let mut z = %s;\n    z.for_each(|v| *v = *v + 1.0);" % e, safe, "src/matrix/base_methods.rs for_each", deep=d)
            add("slices_%s_%s" % (l.key, st), ps + [("a", U), ("b", U), ("i", U)], "()", "    let mut z = %s;\n    z.get_slice(a, b)[i];\n    z.get_slice_mut(a, b)[i] = 1.0;" % e, safe, "src/data_container.rs", deep=d)
        if not l.vec:
            ps, e = mat(l)
            add("eval_" + l.key, ps + [("i", U), ("j", U)], "()", "    let z = %s;\n    let y = z.eval();\n    y.get(i, j);" % e, safe, "src/matrix/common_impl.rs eval")
    e = Sum(Leaf("RM", "a"), Scale(Leaf("ASRM", "b"), "s", "lr"), "rv")
    add("eval_sum", e.params() + [("k", U)], "()", "    %s\n    let z = %s;\n    let y = z.eval();\n    y.get1d(k);" % ("\n    ".join(e.lets), e.e), safe, "src/matrix/common_impl.rs eval")
    # ---------------------------------------------------------------- views
    for l in MATS:
        for nm, e, deep in ((l.key, Blk(Leaf(l)), False), (l.key + "_nested", Blk(Blk(Leaf(l), "a"), "b"), True), (l.key + "_vec", Blk(Leaf(l, store="vec")), True)):
            ps = e.params() + [("i", U), ("j", U), ("k", U)]
            b = lambda x: "    %s\n    let b = %s;\n    %s" % ("\n    ".join(e.lets), e.e, x)
            add("block_get_" + nm, ps, "()", b("b.get(i, j);"), safe, FS, deep=deep)
            add("block_get1d_" + nm, ps, "()", b("b.get1d(k);"), safe, FS, deep=True)
            add("block_slice_" + nm, ps, "()", b("b.get_slice(i, j)[k];"), safe, FS, deep=deep)
        for nm, e, deep in ((l.key, Blk(Leaf(l, store="mut"), mut=True), l.key[:2] == "AS"), (l.key + "_nested", Blk(Blk(Leaf(l, store="mut"), "a", True), "b", True), True)):
            ps = e.params() + [("i", U), ("j", U), ("k", U)]
            b = lambda x: "    %s\n    let mut b = %s;\n    %s" % ("\n    ".join(e.lets), e.e, x)
            add("blockm_get_" + nm, ps, "()", b("*b.get_mut(i, j) = 1.0;"), safe, FS, deep=deep)
            add("blockm_get1d_" + nm, ps, "()", b("*b.get1d_mut(k) = 1.0;"), safe, FS, deep=True)
            add("blockm_slice_" + nm, ps, "()", b("b.get_slice_mut(i, j)[k] = 1.0;"), safe, FS, deep=deep)
            add("blockm_each_" + nm, ps, "()", b("b.for_each(|v| *v = 1.0);"), safe, FS, deep=True)
    for st in ("mut", "vec"):
        lf = Leaf("RM", store=st)
        for part in range(4):
            ps = lf.params() + [(x, U) for x in ("r", "c", "i", "j")]
            b = lambda x: "    let mut z = %s;\n    let mut p = z.split_in_four_mut((r, c)).%d;\n    %s" % (lf.e, part, x)
            add("split%d_get_%s" % (part, st), ps, "()", b("*p.get_mut(i, j) = 1.0;"), safe, FS, deep=st == "vec" or part in (1, 2))
            add("split%d_slice_%s" % (part, st), ps, "()", b("p.get_slice_mut(i, j)[0] = 1.0;"), safe, FS, deep=st == "vec" or part in (1, 2))
    # ---------------------------------------------------------------- views of pointers: the window is what the layout can address
    for l in MATS:
        for mut in (False, True):
            ty = "SliceMatrix%s::<f64, %s, Dynamic, Dynamic>" % ("Mut" if mut else "", l.ty)
            ps = [("x", "&mut [f64]" if mut else "&[f64]")] + l.params() + [("a", U), ("b", U)]
            e = "unsafe { %s::from_pointer(x.as_%sptr(), %s) }" % (ty, "mut_" if mut else "", l.args(""))
            def f(R, l=l):
                q = l.of(R); m, n = q.dim(); a, b = R.v("a"), R.v("b")
                emp = bor(eq0(m), eq0(n))
                inside = bands(bnot(emp), q.fits(R.len("x")))
                last = q.raw(psub(m, ONE), psub(n, ONE))
                R.accept("a raw slice of the addressable elements is granted", bands(inside, b_ult(a, b), b_ule(psub(b, ONE), last), b_ult(pc(0), b)))
                R.reject("a raw slice beyond the addressable elements is refused", bands(inside, b_ult(last, psub(b, ONE)), b_ult(pc(0), b)))
                R.reject("an empty view has no raw slice", bands(emp, q.ctor_ok()))
                R.bounded("the view stays inside the storage it was made for", inside)
            add("pointer_%s_%s" % (l.key, "mut" if mut else "slice"), ps, "()", "    let mut z = %s;\n    z.%s(a, b);" % (e, "get_slice_mut" if mut else "get_slice"), f, FC)
            def f(R, l=l):
                q = l.of(R); i, j = R.v("i"), R.v("j"); m, n = q.dim()
                h = bands(q.fits(R.len("x")), b_ult(i, m), b_ult(j, n))
                R.accept("every element of the view is accessible", h)
                R.eq("the element is the one the layout designates", h, R.val, R.elem("x", q.raw(i, j)))
                R.bounded("the access stays inside the storage", q.fits(R.len("x")))
            add("pointer_get_%s_%s" % (l.key, "mut" if mut else "slice"), ps[:-2] + [("i", U), ("j", U)], "f64", "    let mut z = %s;\n    z.get(i, j)" % e, f, FC)
    # ---------------------------------------------------------------- kernel operands
    for i, (nm, sh, it, a, b, c, deep) in enumerate(c13.kinds()):
        if "AS" in nm.split("_", 2)[2] and nm.count("AS") > 1: deep = True
        body = "    let a = %s;\n    let b = %s;\n    let mut c = %s;\n" % (a.e, b.e, c.e) + call(it, sh, "&a", "&b", "&mut c")
        add("mul_" + nm, [("alpha", it), ("beta", it)] + a.ps + b.ps + c.ps, "()", body, lambda R: kernel_inside(R, TRUE), "src/matrix_multiply.rs matmul", deep=deep)
    for sh, la, lb in (("mm", "RM", "ASCM"), ("mv", "CM", "ASCV"), ("vm", "ASRV", "ASRM")):
        s = SHAPES[sh]
        a = Leaf(la, "a", rs=s[0][0], cs=s[0][1]); b = Leaf(lb, "b", rs=s[1][0], cs=s[1][1])
        add("dot_" + sh, a.ps + b.ps, "()", "    let a = %s;\n    let b = %s;\n    let c = a.dot(&b);" % (a.e, b.e), lambda R: (R.bounded("every access of the safe program stays inside its storage", TRUE), kernel_inside(R, TRUE)), "src/matrix_multiply.rs dot")
    return out + [r.single() for r in out if r.name in ("each_RM_mut", "each_ASCM_mut", "each_RM_vec", "slices_ASRM_mut", "slices_RM_vec", "eval_CM", "block_get_RM", "block_slice_ASCM",
        "blockm_get_CM", "split0_get_mut", "pointer_RM_mut", "pointer_ASCM_slice", "pointer_get_CM_mut")]
