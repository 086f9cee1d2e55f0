"""C20: views and lazy expressions cannot outlive or race their matrices.

Rule 1 (signatures): every region a public safe function's result gives access to is handed in by an
argument, with at least that access.
Rule 2 (witnesses): for every producer of a view or expression and every kind of owner, a client that drops,
leaves the scope of, mutates or aliases the owner while the view lives, or writes through shared access, is
rejected by rustc; the reordered client compiles."""
from ..core import *
from ..lay import *
from .. import tw, effects, build

LEVEL = "proof"
PRE = PRELUDE
NOTE = "The deciding step is rustc's borrow checker on the witnesses and the capability rule over the library's signatures."

PRE_W = PRELUDE + """
pub fn stat<T: 'static>(_: T) {}
pub fn seen<T>(_: &T) {}
"""

def owners():
    """name -> (type, has mutable storage, layout)"""
    out = []
    for k, l in LAYS.items():
        for st in ("vec", "arr", "mut", "slice"):
            if st == "arr" and k == "UT": continue
            out.append((k.lower() + "_" + st, matty(l, store=st, N=6, lt="'x"), st != "slice", l))
    return out

LOOK = "    let _ = %s.get(0, 0);\n"
POKE = "    *%s.get_mut(0, 0) = 1.0;\n"
SHARED = [("block", "%s.block((0, 0), (1, 1))", LOOK), ("slice", "%s.get_slice(0, 1)", "    let _ = %s[0];\n"), ("from_ref", "Matrix::from_ref(&%s)", LOOK),
          ("matrix_ref", "Matrix::new(MatrixRef::new(&%s))", LOOK), ("sum_ref", "(&%s + &o2)", LOOK), ("sum_val_ref", "(o2 + &%s)", LOOK), ("sum_ref_val", "(&%s + o2)", LOOK),
          ("scaled", "(2.0_f64 * &%s)", LOOK), ("scaled_right", "(&%s * 2.0_f64)", LOOK), ("nested", "(&(&%s * 2.0_f64) + &o2).eval()", LOOK), ("deep", "(2.0_f64 * (&%s + &o2))", LOOK), ("layout", "%s.layout()", "    let _ = %s.dim();\n")]
MUTABLE = [("get_mut", "%s.get_mut(0, 0)", "    *%s = 1.0;\n"), ("get1d_mut", "%s.get1d_mut(0)", "    *%s = 1.0;\n"), ("slice_mut", "%s.get_slice_mut(0, 1)", "    %s[0] = 1.0;\n"),
           ("block_mut", "%s.block_mut((0, 0), (1, 1))", POKE), ("ref_mut", "Matrix::new(MatrixRefMut::new(&mut %s))", POKE),
           ("get_unchecked_mut", "unsafe { %s.get_unchecked_mut(0, 0) }", "    *%s = 1.0;\n"), ("get1d_unchecked_mut", "unsafe { %s.get1d_unchecked_mut(0) }", "    *%s = 1.0;\n")] + \
          [("split%d" % i, "%%s.split_in_four_mut((1, 1)).%d" % i, POKE) for i in range(4)]

def cases():
    for on, ty, mu, l in owners():
        for pn, ex, use in SHARED:
            if pn == "block" and l.key not in ("RM", "CM", "ASRM", "ASCM"): continue
            if pn == "nested": continue
            yield on, ty, mu, l, pn, ex, use, False
        if mu:
            for pn, ex, use in MUTABLE:
                if pn == "block_mut" and l.key not in ("RM", "CM", "ASRM", "ASCM") or pn.startswith("split") and l.key != "RM": continue
                yield on, ty, mu, l, pn, ex, use, True

def extra(quick):
    obls = effects.lifetimes(build.facts())
    ws = []
    for n, (on, ty, mu, l, pn, ex, use, m) in enumerate(cases()):
        st = on.split("_")[1]
        # every producer with every layout on vectors; the other stores with row-major and strided row-major, the rest in thorough
        if quick and not (st == "vec" or l.key == "RM" or (l.key == "ASRM" and st == "mut")): continue
        if quick and st == "vec" and l.key not in ("RM", "CM", "UT", "RV") and pn not in ("block", "block_mut", "slice", "slice_mut", "get_mut"): continue
        two = "o2" in ex
        p = ", mut o2: " + ty if two else ""
        fn = "pub fn w<'x>(mut o: %s%s) {\n" % (ty, p)
        v = "    let mut v = %s;\n" % (ex % "o"); u = use % "v"
        who = "%s of %s" % (pn, on); F = {"block": "src/matrix/matrix_slices.rs", "split": "src/matrix/matrix_slices.rs", "slice": "src/matrix/base_methods.rs", "from": "src/matrix.rs", "matrix": "src/matrix_ref.rs", "ref": "src/matrix_ref.rs",
                                          "sum": "src/addition.rs", "scaled": "src/scalar_mult.rs", "deep": "src/addition.rs"}.get(re.match(r"[a-z]+", pn).group(0), "src/traits/random_access.rs")
        def W(tag, desc, bad, good, codes): ws.append(tw.W("%s_%s_%s" % (on, pn, tag), "%s: %s" % (who, desc), bad, good, codes, F, pre=PRE_W))
        view = st == "slice" and pn in ("block", "slice")      # could soundly borrow from the buffer instead
        if not view: W("drop", "is not used after its matrix was dropped", fn + v + "    drop(o);\n" + u + "}\n", fn + v + u + "    drop(o);\n}\n", "E0505")
        if quick and not (st == "vec" or pn in ("block", "block_mut", "split3", "slice", "slice_mut")): continue
        if not view: W("move", "is not used after its matrix was moved", fn + v + "    let o3 = o;\n" + u + "    seen(&o3);\n}\n", fn + v + u + "    let o3 = o;\n    seen(&o3);\n}\n", "E0505")
        if not view: W("scope", "does not leave the scope of its matrix", fn + "    let mut v;\n    {\n        let mut z = o;\n        v = %s;\n    }\n%s}\n" % (ex % "z", u), fn + "    let mut v;\n    {\n        let mut z = o;\n        v = %s;\n    %s    }\n}\n" % (ex % "z", u), "E0597")
        W("static", "does not escape to an unbounded lifetime", fn + v + "    stat(v);\n}\n", fn + v + "    seen(&v);\n}\n", ("E0597", "E0505", "E0521"))
        if mu:
            W("write", "its matrix is not mutated while it lives", fn + v + POKE % "o" + u + "}\n", fn + v + u + POKE % "o" + "}\n", ("E0499", "E0502"))
        if m:
            W("read", "its matrix is not read while it lives", fn + v + LOOK % "o" + u + "}\n", fn + v + u + LOOK % "o" + "}\n", "E0502")
            W("twice", "it is not handed out twice", fn + v + "    let mut v2 = %s;\n" % (ex % "o") + u + use % "v2" + "}\n", fn + v + u + "    let mut v2 = %s;\n" % (ex % "o") + use % "v2" + "}\n", "E0499")
            sf = "pub fn w<'x>(o: &%s) {\n" % ty; gf = "pub fn w<'x>(o: &mut %s) {\n" % ty
            x = ex % ("*o" if "&mut" in ex else "o")
            W("shared", "it is not obtained from shared access", sf + "    let mut v = %s;\n" % x + u + "}\n", gf + "    let mut v = %s;\n" % x + u + "}\n", "E0596")
        else:
            if pn not in ("slice", "layout"):
                W("set", "grants no element for writing", fn + v + "    *v.get_mut(0, 0) = 1.0;\n}\n", fn + v + "    let _ = v.get(0, 0);\n}\n", ("E0599", "E0277"))
                W("setu", "grants no element for unchecked writing", fn + v + "    unsafe { *v.get_unchecked_mut(0, 0) = 1.0; }\n}\n", fn + v + "    unsafe { let _ = v.get_unchecked(0, 0); }\n}\n", ("E0599", "E0277"))
            if pn in ("block",):
                W("sets", "grants no slice for writing", fn + v + "    v.get_slice_mut(0, 1)[0] = 1.0;\n}\n", fn + v + "    let _ = v.get_slice(0, 1)[0];\n}\n", ("E0599", "E0277"))
                W("setb", "grants no block for writing", fn + v + "    v.block_mut((0, 0), (1, 1));\n}\n", fn + v + "    v.block((0, 0), (1, 1));\n}\n", ("E0599", "E0277"))
                W("setf", "grants no element-wise mutation", fn + v + "    v.for_each(|x| *x = 0.0);\n}\n", fn + v + "    seen(&v);\n}\n", ("E0599", "E0277"))
            if pn == "slice": W("sets", "grants no element for writing", fn + v + "    v[0] = 1.0;\n}\n", fn + v + "    let _ = v[0];\n}\n", "E0594")
    # views over a caller's buffer
    for on, ty, mu, l in owners():
        st = on.split("_")[1]
        if st not in ("mut", "slice") or (quick and l.key not in ("RM", "ASRM", "CV")): continue
        _, e = mat(l, store=st)
        e = re.sub(r"\bx\b(?=\))", ("&mut b" if st == "mut" else "&b"), e, count=1)
        ps = ", ".join("%s: %s" % (a, "usize") for a in l.names)
        e2 = e
        fn = "pub fn w(mut b: Vec<f64>%s) {\n" % (", " + ps if ps else "")
        v = "    let mut v = %s;\n" % e2; u = LOOK % "v"
        def W(tag, desc, bad, good, codes): ws.append(tw.W("buf_%s_%s" % (on, tag), "matrix over a slice (%s): %s" % (on, desc), bad, good, codes, "src/data_container.rs", pre=PRE_W))
        W("drop", "is not used after the buffer was dropped", fn + v + "    drop(b);\n" + u + "}\n", fn + v + u + "    drop(b);\n}\n", "E0505")
        W("write", "the buffer is not changed while it lives", fn + v + "    b[0] = 1.0;\n" + u + "}\n", fn + v + u + "    b[0] = 1.0;\n}\n", ("E0502", "E0499", "E0506", "E0503"))
        W("grow", "the buffer is not reallocated while it lives", fn + v + "    b.push(1.0);\n" + u + "}\n", fn + v + u + "    b.push(1.0);\n}\n", ("E0502", "E0499"))
        W("static", "does not escape to an unbounded lifetime", fn + v + "    stat(v);\n}\n", fn + v + "    seen(&v);\n}\n", ("E0597", "E0505"))
        if st == "mut": W("read", "the buffer is not read while it lives", fn + v + "    let _ = b[0];\n" + u + "}\n", fn + v + u + "    let _ = b[0];\n}\n", ("E0502", "E0503"))
        else: W("set", "grants no element for writing", fn + v + "    *v.get_mut(0, 0) = 1.0;\n}\n", fn + v + "    let _ = v.get(0, 0);\n}\n", ("E0599", "E0277"))
    # views of views
    for l in ("RM", "CM", "ASRM", "ASCM"):
        ty = matty(LAYS[l], store="vec")
        fn = "pub fn w(mut o: %s) {\n" % ty
        a = "    let mut a = o.block_mut((0, 0), (2, 2));\n    let mut b = a.block_mut((0, 0), (1, 1));\n"
        def W(tag, desc, bad, good, codes): ws.append(tw.W("nest_%s_%s" % (l.lower(), tag), "block of a block (%s): %s" % (l, desc), bad, good, codes, "src/matrix/matrix_slices.rs", pre=PRE_W))
        W("outer", "the outer mutable block is not used while the inner one lives", fn + a + POKE % "a" + POKE % "b" + "}\n", fn + a + POKE % "b" + POKE % "a" + "}\n", "E0499")
        W("owner", "the matrix is not used while the inner one lives", fn + a + POKE % "o" + POKE % "b" + "}\n", fn + a + POKE % "b" + POKE % "o" + "}\n", "E0499")
        a2 = a.replace("a.block_mut", "a.block")
        W("shared", "a shared block of a mutable block freezes it", fn + a2 + POKE % "a" + LOOK % "b" + "}\n", fn + a2 + LOOK % "b" + POKE % "a" + "}\n", ("E0502",))
        sf = "pub fn w<'a>(o: &'a mut %s) -> SliceMatrixMut<'a, f64, %s, Dynamic, Dynamic> {\n" % (ty, {"RM": "ArbitraryStrideRowMajor", "ASRM": "ArbitraryStrideRowMajor"}.get(l, "ArbitraryStrideColumnMajor"))
        W("bound", "a block lives as long as the borrow of its matrix, no longer", sf.replace("w<'a>", "w<'a, 'b>").replace("-> SliceMatrixMut<'a", "-> SliceMatrixMut<'b") + "    o.block_mut((0, 0), (1, 1))\n}\n", sf + "    o.block_mut((0, 0), (1, 1))\n}\n", ())
        so = sf.replace("&'a mut", "&'a").replace("SliceMatrixMut", "SliceMatrix")
        W("bounds", "a shared block lives as long as the borrow of its matrix, no longer", so.replace("w<'a>", "w<'a, 'b>").replace("-> SliceMatrix<'a", "-> SliceMatrix<'b") + "    o.block((0, 0), (1, 1))\n}\n", so + "    o.block((0, 0), (1, 1))\n}\n", ())
    ty = matty(LAYS["RM"], store="vec")
    for i in range(4):
        for j in range(i + 1, 4):
            ws.append(tw.W("parts_%d_%d" % (i, j), "parts %d and %d of a split may be used side by side, not with the matrix" % (i, j),
                           "pub fn w(mut o: %s) {\n    let (mut p0, mut p1, mut p2, mut p3) = o.split_in_four_mut((1, 1));\n%s%s%s}\n" % (ty, POKE % ("p%d" % i), POKE % "o", POKE % ("p%d" % j)),
                           "pub fn w(mut o: %s) {\n    let (mut p0, mut p1, mut p2, mut p3) = o.split_in_four_mut((1, 1));\n%s%s%s}\n" % (ty, POKE % ("p%d" % i), POKE % ("p%d" % j), POKE % "o"), "E0499", "src/matrix/matrix_slices.rs", pre=PRE_W))
    return obls + tw.run("C20", ws)
import re
