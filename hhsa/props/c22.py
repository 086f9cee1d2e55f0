"""C22: shared use of matrices is pure and safe across threads.

Rule 1 (effects): the crate has no mutable, thread-local or interior-mutable static, no field with interior
mutability, no cast or transmute from shared to mutable access that is written through, and asserts no Send or
Sync of its own.
Rule 2 (value graph): no operation taking matrices by shared reference writes to any storage of its caller;
repeating it yields the same value, and the matrices are afterwards what they were.
Rule 3 (witnesses): matrices, views and expressions of sendable scalars are Send and Sync (as are programs that
read them from several threads); programs racing a writer against them, or sharing a container that is not
sendable, are rejected."""
from ..core import *
from ..lay import *
from ..exprs import *
from .. import tw, effects, build
from . import c01, c13, c14
from .c20 import owners

LEVEL = "proof"
PRE = PRELUDE
WRITES = ("write", "copy", "fill", "write_range")
ASSUME = ["the gemm kernels of the matrixmultiply crate write to C only (dependency, not analysed)"]

def roots():
    out = []
    for nm, e, mutable in c01.kinds():
        if any(x.N or x.item != "f64" for x in e.leaves()): continue
        lets = "\n".join(e.lets) + "\n    let z = %s;\n" % e.e
        an = "src/traits/random_access.rs"
        def twice(R, e=e, two=True):
            h = band(okay(e, R), inb(e, R, R.v("i"), R.v("j")) if two else b_ult(R.v("k"), e.nel(R)))
            R.untouched("reading an element writes to no matrix", h, stores(e), kinds=WRITES)
            if R.blocked("element"): return
            R.eq("reading an element again yields the same value", h, R.val.f[0], R.val.f[1])
        out.append(Root("get_" + nm, e.params() + [("i", "usize"), ("j", "usize")], "(f64, f64)", lets + "    (z.get(i, j), z.get(i, j))", twice, an))
        out.append(Root("get1d_" + nm, e.params() + [("k", "usize")], "(f64, f64)", lets + "    (z.get1d(k), z.get1d(k))", lambda R, t=twice: t(R, two=False), an, deep=mutable))
        def after(R, e=e):
            i, j = R.v("i"), R.v("j"); h = band(okay(e, R), inb(e, R, i, j))
            R.untouched("the operation writes to no matrix", h, stores(e), kinds=WRITES)
            if R.blocked("element"): return
            R.eq("the matrix has its dimension afterwards", h, R.val.f[0], agg(list(e.dim(R))))
            R.eq("the matrix has its elements afterwards", h, R.val.f[1], e.at(R, i, j))
        ps = e.params() + [("i", "usize"), ("j", "usize")]
        ops = [("eval", "let w = z.eval();", "src/matrix/common_impl.rs eval")] if not e.order().vec else []
        ops += [("sum", "{ let w = &z + &z; let y = w.get(i, j); }", "src/addition.rs"), ("scale", "{ let w = su * &z; let y = w.get(i, j); }", "src/scalar_mult.rs")]
        if isinstance(e, Leaf): ops += [("slice", "{ let y = z.get_slice(0, 1)[0]; }", "src/matrix/base_methods.rs")]
        if isinstance(e, Leaf) and e.l.key in ("RM", "CM", "ASRM", "ASCM"): ops += [("block", "{ let y = z.block((i, j), (1, 1)).get(0, 0); }", "src/matrix/matrix_slices.rs")]
        for on, op, at in ops:
            if on == "eval" and (mutable or nm.startswith("sum_") or e.order().key == "UT"): continue
            out.append(Root("%s_%s" % (on, nm), ps + ([("su", "f64")] if on == "scale" else []), "((usize, usize), f64)", lets + "    %s\n    (z.dim(), z.get(i, j))" % op, after, at, deep=mutable and on != "block" or nm.startswith("refmut")))
    M = ("RM", "CM", "ASRM", "ASCM")
    ks = [("mm", Leaf(x, "a"), Leaf(M[(n + 1) % 4], "b", store="vec")) for n, x in enumerate(M)]
    ks += [("mv", Leaf("RM", "a"), Leaf("CV", "b")), ("mv", Leaf("ASCM", "a"), Leaf("ASCV", "b")), ("vm", Leaf("RV", "a"), Leaf("CM", "b")), ("vm", Leaf("ASRV", "a"), Leaf("ASRM", "b"))]
    for sh, a, b in ks:
        for x, nx in ((a, "a"), (b, "b")):
            def f(R, a=a, b=b, x=x):
                i, j = R.v("i"), R.v("j")
                h = bands(a.built(R), b.built(R), c13.fixed(a, R), c13.fixed(b, R), inb(x, R, i, j))
                R.untouched("the product writes to neither operand", h, ["ax", "bx"], kinds=WRITES)
                if R.blocked("element"): return
                R.eq("the operand has its elements afterwards", h, R.val, x.at(R, i, j))
            out.append(Root("dot_%s_%s_%s_%s" % (sh, a.l.key, b.l.key, nx), a.ps + b.ps + [("i", "usize"), ("j", "usize")], "f64",
                            "    let a = %s;\n    let b = %s;\n    let w = a.dot(&b);\n    %s.get(i, j)" % (a.e, b.e, nx), f, "src/matrix_multiply.rs dot"))
    return out

PRE_W = PRELUDE + """
use std::rc::Rc; use std::cell::Cell; use std::thread;
pub fn snd<T: Send>() {}
pub fn syn<T: Sync>() {}
pub fn snd_of<T: Send>(_: &T) {}
pub fn syn_of<T: Sync>(_: &T) {}
pub struct NotSend(Rc<Vec<f64>>);
pub struct NotSync(Cell<usize>, Vec<f64>);
"""
CONT = """impl DataContainer for %s {
    type Item = f64;
    unsafe fn get_unchecked(&self, index: usize) -> f64 { 0.0 }
    fn get_pointer(&self) -> *const f64 { std::ptr::null() }
    fn number_of_elements(&self) -> usize { 0 }
}
"""
PRE_W += CONT % "NotSend" + CONT % "NotSync"

def extra(quick):
    obls = effects.effects(build.facts())
    ws = []
    def W(name, desc, bad, good, codes, anchor): ws.append(tw.W(name, desc, bad, good, codes, anchor, pre=PRE_W))
    AN = "src/base_matrix.rs"
    for on, ty, mu, l in owners():
        for it in ("f64", "f32", "c64", "c32"):
            if quick and it != "f64" and not on.startswith("rm_"): continue
            t = ty.replace("f64", it)
            W("auto_%s_%s" % (on, it), "%s matrices of %s can be sent to and shared between threads" % (on, it), None, "pub fn w<'x>() { snd::<%s>(); syn::<%s>(); }\n" % (t, t), (), AN)
        for n, ex, at in (("ref", "Matrix::from_ref(&o)", "src/matrix_ref.rs"), ("refmut", "Matrix::new(MatrixRefMut::new(&mut o))", "src/matrix_ref.rs"), ("sum", "(&o + &o)", "src/addition.rs"), ("scale", "(2.0_f64 * &o)", "src/scalar_mult.rs"),
                          ("nested", "(2.0_f64 * (&o + 3.0_f64 * &o))", "src/addition.rs"), ("block", "o.block((0, 0), (1, 1))", "src/matrix/matrix_slices.rs"), ("block_mut", "o.block_mut((0, 0), (1, 1))", "src/matrix/matrix_slices.rs")):
            if n.startswith("block") and l.key not in ("RM", "CM", "ASRM", "ASCM") or n == "block_mut" and not mu: continue
            if quick and l.key not in ("RM", "UT", "ASCM", "RV") : continue
            W("auto_%s_%s" % (on, n), "%s over %s matrices can be sent to and shared between threads" % (n, on), None, "pub fn w<'x>(mut o: %s) { let v = %s; snd_of(&v); syn_of(&v); }\n" % (ty, ex), (), at)
    # not by assertion: containers that are not sendable make matrices that are not
    for l in LAYS.values():
        for c, what, fn in (("NotSend", "sent", "snd"), ("NotSync", "shared", "syn")):
            t = "GenericBaseMatrix<f64, %s, %s, %s, %s>" % (l.ty, c, l.rs, l.cs)
            g = matty(l, store="vec")
            W("cont_%s_%s" % (l.key.lower(), c), "a %s matrix over a container that cannot be %s cannot be %s" % (l.key, what, what), "pub fn w() { %s::<%s>(); }\n" % (fn, t), "pub fn w() { %s::<%s>(); }\n" % (fn, g), "E0277", AN)
            for n, ex, at in (("ref", "Matrix::from_ref(&o)", "src/matrix_ref.rs"), ("sum", "(&o + &o)", "src/addition.rs"), ("scale", "(2.0_f64 * &o)", "src/scalar_mult.rs")):
                if c == "NotSend": continue        # sending a reference needs the matrix to be shareable
                W("cont_%s_%s_%s" % (l.key.lower(), c, n), "%s of such a %s matrix cannot be sent" % (n, l.key), "pub fn w(o: %s) { let v = %s; snd_of(&v); }\n" % (t, ex), "pub fn w(o: %s) { let v = %s; snd_of(&v); }\n" % (g, ex), "E0277", at)
    # nor for scalars that are not
    for n, t, at in (("vec", "VectorContainer<T>", "src/data_container.rs"), ("arr", "ArrayContainer<T, 4>", "src/data_container.rs"), ("slice", "SliceContainer<'x, T>", "src/data_container.rs"), ("mut", "SliceContainerMut<'x, T>", "src/data_container.rs")) + tuple(
            ("%s_%s" % (on, w), x % ty.replace("f64", "T").replace("'a", "'x"), at) for on, ty, mu, l in owners() if l.key in ("RM", "ASCM", "UT") for w, x, at in
            [("own", "%s", AN)]):
        for tr, fn in (("Send", "snd"), ("Sync", "syn")):
            W("scalar_%s_%s" % (n, tr), "%s is not %s for every scalar" % (n, tr), "pub fn w<'x, T: HScalar>() { %s::<%s>(); }\n" % (fn, t), "pub fn w<'x, T: HScalar + Send + Sync>() { %s::<%s>(); }\n" % (fn, t), "E0277", at)
    # programs with threads
    for lk in ("RM", "ASCM", "UT", "RV"):
        for st in ("vec", "mut", "slice"):
            if quick and (lk != "RM" and st != "vec"): continue
            ty = matty(LAYS[lk], store=st, lt="'x"); nm = "%s_%s" % (lk.lower(), st)
            fn = "pub fn w<'x>(mut o: %s) {\n" % ty
            sc = "    thread::scope(|s| {\n        s.spawn(|| { %s; });\n        s.spawn(|| { %s; });\n    });\n}\n"
            rd = "let _ = o.get(0, 0)"; wr = "*o.get_mut(0, 0) = 1.0"
            T = "src/matrix/common_impl.rs"
            W("thr_%s_read" % nm, "two threads may read a %s matrix" % nm, None, fn + sc % (rd, rd), (), T)
            W("thr_%s_expr" % nm, "two threads may read an expression over a %s matrix" % nm, None, fn + "    let e = 2.0_f64 * (&o + &o);\n" + sc % ("let _ = e.get(0, 0)", "let _ = e.get1d(0)"), (), T)
            W("thr_%s_eval" % nm, "two threads may evaluate a %s matrix" % nm, None, fn + sc % (("let _ = o.eval()",) * 2 if lk in ("RM", "ASCM") else (rd, rd)), (), T)
            W("thr_%s_esc" % nm, "a thread cannot outlive the %s matrix it reads" % nm, fn + "    let v = Matrix::from_ref(&o);\n    thread::spawn(move || { let _ = v.get(0, 0); });\n}\n", fn + "    let v = Matrix::from_ref(&o);\n    thread::scope(|s| { s.spawn(|| { let _ = v.get(0, 0); }); });\n}\n", ("E0597", "E0521"), T)
            if st == "slice": continue
            W("thr_%s_rw" % nm, "no thread writes a %s matrix another one reads" % nm, fn + sc % (rd, wr), fn + sc % (rd, rd), ("E0502",), T)
            W("thr_%s_ww" % nm, "no two threads write a %s matrix" % nm, fn + sc % (wr, wr), fn + "    thread::scope(|s| { s.spawn(|| { %s; }); });\n}\n" % wr, ("E0499",), T)
    ty = matty(LAYS["RM"], store="vec")
    four = "    let (mut p0, mut p1, mut p2, mut p3) = o.split_in_four_mut((1, 1));\n    thread::scope(|s| {\n%s    });\n}\n"
    W("thr_parts", "the parts of a split may be written by different threads", None, "pub fn w(mut o: %s) {\n" % ty + four % "".join("        s.spawn(|| { *p%d.get_mut(0, 0) = 1.0; });\n" % i for i in range(4)), (), "src/matrix/matrix_slices.rs")
    W("thr_same", "one part of a split is not written by two threads", "pub fn w(mut o: %s) {\n" % ty + four % ("        s.spawn(|| { *p0.get_mut(0, 0) = 1.0; });\n" * 2), "pub fn w(mut o: %s) {\n" % ty + four % "        s.spawn(|| { *p0.get_mut(0, 0) = 1.0; });\n", ("E0499",), "src/matrix/matrix_slices.rs")
    return obls + tw.run("C22", ws)
