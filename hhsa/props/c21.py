"""C21: unchecked operations are reachable only through unsafe.

Rule 1 (witnesses): a safe call of any unchecked accessor or raw-pointer constructor, on any kind of matrix or
container, is rejected with E0133; inside unsafe it compiles.
Rule 2 (dataflow over the type-checked bodies): a value a caller hands to a public safe function reaches an
operation that trusts it (unchecked access, pointer arithmetic, raw slices) only behind a check of that value."""
from ..core import *
from ..lay import *
from .. import tw, effects, build
from .c20 import owners
import re

LEVEL = "proof"
PRE = PRELUDE
NOTE = "Witnesses decided by rustc; the dataflow rule examines every call site of an unsafe operation in safe functions of the crate."

def extra(quick):
    obls = effects.unchecked(build.facts())
    ws = []
    def W(name, what, ps, pre, call, anchor, gen="<'x>"):
        fn = "pub fn w%s(%s) {\n%s" % (gen, ps, pre)
        ws.append(tw.W(name, "%s needs an unsafe context" % what, fn + "    let _ = %s;\n}\n" % call, fn + "    let _ = unsafe { %s };\n}\n" % call, "E0133", anchor))
    RA = "src/traits/random_access.rs"
    for on, ty, mu, l in owners():
        for op, args in (("get_unchecked", "i, j"), ("get1d_unchecked", "i"), ("get_unchecked_mut", "i, j"), ("get1d_unchecked_mut", "i")):
            m = op.endswith("mut")
            if m and not mu: continue
            if quick and l.key not in ("RM", "CM", "RV", "UT") and not on.endswith("_vec"): continue
            W("%s_%s" % (on, op), "%s of %s" % (op, on), "mut o: %s, i: usize, j: usize" % ty, "", "o.%s(%s)" % (op, args), RA)
            for wn, we in (("ref", "Matrix::from_ref(&o)"), ("refmut", "Matrix::new(MatrixRefMut::new(&mut o))"), ("scaled", "(2.0_f64 * &o)"), ("sum", "(&o + &o)"), ("sums", "(2.0_f64 * (&o + &o))")):
                if quick and not on.endswith("_vec"): continue
                if m != (wn == "refmut"): continue
                W("%s_%s_%s" % (on, wn, op), "%s of %s over %s" % (op, wn, on), "mut o: %s, i: usize, j: usize" % ty, "    let mut v = %s;\n" % we, "v.%s(%s)" % (op, args), RA)
    for on, ty in (("vec", "VectorContainer<f64>"), ("arr", "ArrayContainer<f64, 4>"), ("slice", "SliceContainer<'x, f64>"), ("slicemut", "SliceContainerMut<'x, f64>")):
        W("c_%s_get" % on, "get_unchecked of %s" % ty, "o: " + ty + ", i: usize", "", "o.get_unchecked(i)", "src/data_container.rs")
        if on != "slice": W("c_%s_getm" % on, "get_unchecked_mut of %s" % ty, "mut o: " + ty + ", i: usize", "", "o.get_unchecked_mut(i)", "src/data_container.rs")
    for it in ("f64", "f32", "c64", "c32"):
        for l in LAYS.values():
            if l.key not in ("RM", "CM", "ASRM", "ASCM") or (quick and it != "f64" and l.key not in ("RM", "ASCM")): continue
            args = {"RM": "(r, c)", "CM": "(r, c)", "ASRM": "(r, c), (p, q)", "ASCM": "(r, c), (p, q)"}[l.key]
            for k, t in (("SliceMatrix", "*const"), ("SliceMatrixMut", "*mut")):
                W("p_%s_%s_%s" % (l.key.lower(), it, k[11:] or "s"), "%s::from_pointer with %s of %s" % (k, l.ty, it), "z: %s %s, r: usize, c: usize, p: usize, q: usize" % (t, it), "",
                  "%s::<'x, %s, %s, %s, %s>::from_pointer(z, %s)" % (k, it, l.ty, l.rs, l.cs, args), "src/matrix/constructors.rs")
    # implementing the traits' unchecked operations is possible for clients only by declaring them unsafe
    for tr, ops in (("UnsafeRandomAccess", (("get_unchecked", "&self, _: usize, _: usize", "f64"), ("get1d_unchecked", "&self, _: usize", "f64"))),
                    ("UnsafeRandomAccessMut", (("get_unchecked_mut", "&mut self, _: usize, _: usize", "&mut f64"), ("get1d_unchecked_mut", "&mut self, _: usize", "&mut f64")))):
        for k in (0, 1):
            def impl(bad): return "pub struct S;\nimpl %s for S {\n    type Item = f64;\n%s}\n" % (tr, "".join("    %sfn %s(%s) -> %s { todo!() }\n" % ("" if bad and n == k else "unsafe ", o, a, r) for n, (o, a, r) in enumerate(ops)))
            ws.append(tw.W("impl_%s_%d" % (tr, k), "%s of a %s is declared unsafe by its trait" % (ops[k][0], tr), None, impl(False), "", RA))
            call = "pub fn w<T: %s>(mut o: T) { let _ = %%s; }\n" % tr
            c = "o.%s(%s)" % (ops[k][0], "0, 0" if k == 0 else "0")
            ws.append(tw.W("call_%s_%d" % (tr, k), "%s of any %s needs an unsafe context" % (ops[k][0], tr), call % c, call % ("unsafe { %s }" % c), "E0133", RA))
    return obls + tw.run("C21", ws)
