"""C26: the scalar layer treats the four scalar types consistently.

Rule: atan2 of a real scalar is the C library's atan2 (or an expression of equal normal form) of the two
arguments in this order, the complex ones never return; a random complex scalar takes the first draw
as its real and the second as its imaginary part, a real one exactly one draw; programs using every
elementwise operation and matrix product compile for each of the four scalar types."""
from ..core import *
from ..lay import *
from ..exprs import *
from .. import tw

LEVEL = "proof"
PRE = PRELUDE + """
#[inline(never)] pub fn opaque_d64(k: usize, n: usize) -> f64 { (k + n) as f64 }
#[inline(never)] pub fn opaque_d32(k: usize, n: usize) -> f32 { (k + n) as f32 }
#[inline(never)] pub fn opaque_u64(n: usize) -> u64 { n as u64 }
/// a generator that counts its draws
pub struct Gen { pub n: usize }
impl rand::RngCore for Gen {
    fn next_u32(&mut self) -> u32 { self.n = self.n.wrapping_add(1); self.n as u32 }
    fn next_u64(&mut self) -> u64 { self.n = self.n.wrapping_add(1); opaque_u64(self.n) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { self.n = self.n.wrapping_add(1); }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> std::result::Result<(), rand::Error> { self.n = self.n.wrapping_add(1); Ok(()) }
}
/// a distribution of parameter k: the n-th sample is an unknown function of k and of the generator's next number
pub struct Dst { pub k: usize }
impl rand_distr::Distribution<f64> for Dst { fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f64 { let n = r.next_u64(); opaque_d64(self.k, n as usize) } }
impl rand_distr::Distribution<f32> for Dst { fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f32 { let n = r.next_u64(); opaque_d32(self.k, n as usize) } }
/// every number drawn from it is the same, so that swapped parts do not show
pub struct Par { pub a: f64, pub b: f64 }
impl rand_distr::Distribution<f64> for Par { fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f64 { let _ = r.next_u64(); self.a } }
"""
ASSUME = ["the C library's atan2(y, x) is the quadrant-correct angle of the point (x, y)",
          "the distribution and the generator handed to random_scalar are functions of their own state"]
FT = "src/types.rs"; FR = "src/tools.rs"
U = "usize"

def roots():
    out = []
    for it, b in (("f64", 64), ("f32", 32)):
        def f(R, b=b):
            R.accept("the arctangent of any point is computed", TRUE)
            R.eq("atan2 is the angle of the point (x, y)", TRUE, R.val, tm("app", "atan2.%d" % b, R.v("y"), R.v("x")))
        out.append(Root("atan2_" + it, [("y", it), ("x", it)], it, "    <%s as HScalar>::atan2(y, x)" % it, f, FT))
    for it in ("c64", "c32"):
        def f(R): R.reject("atan2 of complex scalars is refused", TRUE)
        out.append(Root("atan2_" + it, [("y", it), ("x", it)], it, "    <%s as HScalar>::atan2(y, x)" % it, f, FT))
    for it in ("f64", "f32", "c64", "c32"):
        b = BITS[it]; per = 2 if cplx(it) else 1
        def f(R, it=it, per=per, b=b):
            k, n = R.v("k"), R.v("n")
            R.accept("a random scalar is drawn", TRUE)
            if R.blocked("draw"): return
            d = lambda i: tm("app", "opaque_d%d" % b, k, tt.papp("opaque_u64", [padd(n, pc(i + 1))]) if hasattr(tt, "papp") else pa(atom("app", ("opaque_u64", padd(n, pc(i + 1))), 64)))
            want = agg([d(0), d(1)]) if per == 2 else d(0)
            R.eq("the parts are the distribution's samples in the order real, imaginary", TRUE, R.val.f[0], want)
            R.eq("the generator is advanced once per part", TRUE, R.val.f[1], padd(n, pc(per)))
        out.append(Root("random_" + it, [("k", U), ("n", U)], "(%s, usize)" % it, "    let d = Dst { k }; let mut g = Gen { n };\n    let v = <%s as RandScalar>::random_scalar(&mut g, &d);\n    (v, g.n)" % it, f, FR))
    return out

OPS = {
 "sum": "let a = mat!(S, (2, 3), RowMajor); let b = mat!(S, (2, 3), RowMajor); let c = (&a + &b).eval();",
 "scale_left": "let a = mat!(S, (2, 3), ColumnMajor); let c = (ONE * a).eval();",
 "scale_left_ref": "let a = mat!(S, (2, 3), ColumnMajor); let c = (ONE * &a).eval();",
 "scale_right": "let a = mat!(S, (2, 3), ColumnMajor); let c = (a * ONE).eval();",
 "scale_right_ref": "let a = mat!(S, (2, 3), ColumnMajor); let c = (&a * ONE).eval();",
 "nested": "let a = mat!(S, (2, 3), RowMajor); let b = mat!(S, (2, 3), RowMajor); let c = (ONE * (&a + ONE * &b) * ONE).eval();",
 "element": "let mut a = mat!(S, (2, 3), RowMajor); *a.get_mut(1, 1) = ONE; *a.get1d_mut(2) = a.get(0, 0) + a.get1d(3);",
 "for_each": "let mut a = mat!(S, (2, 3), RowMajor); a.for_each(|v| *v = *v + ONE);",
 "block": "let mut a = mat!(S, (4, 4), RowMajor); { let b = a.block((1, 1), (2, 2)); } let mut b = a.block_mut((1, 1), (2, 2)); *b.get_mut(0, 0) = ONE;",
 "split": "let mut a = mat!(S, (4, 4), RowMajor); let (p, q, r, s) = a.split_in_four_mut((1, 2));",
 "fill": "let mut a = mat!(S, (4, 4), RowMajor); let mut rng = rand::thread_rng(); a.fill_from_rand_standard_normal(&mut rng);",
 "rand_macros": "let a = rand_mat!(S, (4, 4), ColumnMajor); let v = rand_vector!(S, 4); let w = rand_vector!(S, 4, RowVector);",
 "vectors": "let v = vector!(S, 4); let w = vector!(S, 4, RowVector); let n = v.length() + w.length();",
 "dot_mm": "let a = mat!(S, (2, 3), RowMajor); let b = mat!(S, (3, 4), ColumnMajor); let c: MatrixD<S, RowMajor> = a.dot(&b);",
 "dot_mv": "let a = mat!(S, (2, 3), RowMajor); let b = vector!(S, 3); let c: ColumnVectorD<S> = a.dot(&b);",
 "dot_vm": "let a = vector!(S, 2, RowVector); let b = mat!(S, (2, 3), RowMajor); let c: RowVectorD<S> = a.dot(&b);",
 "matmul_mm": "let a = mat!(S, (2, 2), RowMajor); let b = mat!(S, (2, 2), ColumnMajor); let mut c = mat!(S, (2, 2), RowMajor);\n    <S as MatMul<S, RowMajor, ColumnMajor, RowMajor, VectorContainer<S>, VectorContainer<S>, VectorContainer<S>, Dynamic, Dynamic, Dynamic, Dynamic, Dynamic, Dynamic>>::matmul(ONE, &a, &b, ONE, &mut c);",
 "triangular": "let mut a = UpperTriangularMatrix::<S>::zeros_from_dim(3, 3); *a.get_mut(0, 1) = ONE; let c = (ONE * &a + &a).eval();",
 "fixed": "let a = Matrix22::<S, RowMajor>::zeros_from_dim(); let b = Matrix33::<S, ColumnMajor>::zeros_from_dim(); let c = Matrix23::<S, RowMajor>::zeros_from_dim(); let d = Matrix32::<S, RowMajor>::zeros_from_dim();",
 "slices": "let mut a = mat!(S, (2, 3), RowMajor); a.get_slice_mut(0, 2)[1] = ONE; let x: &[S] = a.get_slice(1, 3);",
}
ONE = {"f64": "1.0f64", "f32": "1.0f32", "c64": "c64::new(1.0, 2.0)", "c32": "c32::new(1.0, 2.0)"}
def extra(quick):
    ws = []
    for it in ("f64", "f32", "c64", "c32"):
        for k, v in OPS.items():
            if k.startswith("dot") and it != "f64": continue     # the high-level product is provided for f64 only
            code = "pub fn f() {\n    type S = %s;\n    %s\n}\n" % (it, v.replace("ONE", ONE[it]).replace("!(S,", "!(%s," % it))
            ws.append(tw.W("%s_%s" % (k, it), "scalar type %s supports %s" % (it, k), None, code, anchor=FT))
        ws.append(tw.W("randscalar_" + it, "scalar type %s implements RandScalar and HScalar" % it, None, "fn h<T: HScalar>() {} fn r<T: RandScalar>() {} pub fn f() { h::<%s>(); r::<%s>(); }" % (it, it), anchor=FR))
    return tw.run("C26", ws)
