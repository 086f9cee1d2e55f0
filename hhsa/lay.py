"""The documented layouts: types, constructors and the oracle for their positions.

Everything in here is written from the documentation of the layouts; none of it is derived from the
code under analysis."""
from .terms import *

PRELUDE = """#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_unsafe, non_snake_case, clippy::all)]
use householder::*;
use householder::base_matrix::BaseMatrix;
use householder::data_container::*;
use householder::layouts::*;
use householder::matrix::*;
use householder::matrix_ref::*;
use householder::addition::*;
use householder::scalar_mult::*;
use householder::matrix_multiply::*;
use householder::traits::*;
use householder::types::*;
use householder::tools::*;

#[inline(never)] pub fn opaque_dim(i: usize) -> (usize, usize) { (i, i) }
#[inline(never)] pub fn opaque_len(i: usize) -> usize { i }
"""

def mulok(a, b): return bnot(b_mulovf(a, b))
def addok(a, b): return bnot(b_addovf(a, b))
def eq0(p): return b_eq(p, pc(0))
ONE = pc(1)

class Lay:
    """layout with parameters named by a prefix; methods take p = prefix lookup: name -> P"""
    key = ty = index = ""; names = (); rs = cs = "Dynamic"; strided = True; vec = False; row = None
    order = "r"         # logical order: 'r' row by row, 'c' column by column, 'v' vector, 't' triangular
    def params(s, x=""): return [(x + n, "usize") for n in s.names]
    def ctor(s, x=""): return "%s::new(%s)" % (s.ty, s.args(x))
    def of(s, R, x=""): return Pos(s, {n: R.v(x + n) for n in s.names})
    def ctor_ok(s, q): return TRUE

class Pos:
    """layout with actual parameters"""
    def __init__(s, lay, q): s.lay = lay; s.q = q
    def __getattr__(s, n):
        f = getattr(s.lay, n)
        return lambda *a: f(s.q, *a)

class RM(Lay):
    key = "RM"; ty = "RowMajor"; index = "RM"; names = ("m", "n"); order = "r"
    def args(s, x): return "(%sm, %sn)" % (x, x)
    def dim(s, q): return q["m"], q["n"]
    def nel(s, q): return pmul(q["m"], q["n"])
    def raw(s, q, i, j): return padd(pmul(i, q["n"]), j)
    def stride(s, q): return q["n"], ONE
    def to2(s, q, k): return p_udiv(k, q["n"]), p_umod(k, q["n"])
    def to1(s, q, i, j): return padd(pmul(i, q["n"]), j)
    def raw1(s, q, k): return k
    def countok(s, q): return mulok(q["m"], q["n"])
    def fits(s, q, ln): return band(mulok(q["m"], q["n"]), b_ule(pmul(q["m"], q["n"]), ln))
class CM(RM):
    key = "CM"; ty = "ColumnMajor"; index = "CM"; order = "c"
    def raw(s, q, i, j): return padd(pmul(j, q["m"]), i)
    def stride(s, q): return ONE, q["m"]
    def to2(s, q, k): return p_umod(k, q["m"]), p_udiv(k, q["m"])
    def to1(s, q, i, j): return padd(pmul(j, q["m"]), i)
class ASRM(RM):
    key = "ASRM"; ty = "ArbitraryStrideRowMajor"; index = "RM"; names = ("m", "n", "r", "c")
    def args(s, x): return "(%sm, %sn), (%sr, %sc)" % (x, x, x, x)
    def raw(s, q, i, j): return padd(pmul(i, q["r"]), pmul(j, q["c"]))
    def stride(s, q): return q["r"], q["c"]
    def raw1(s, q, k): return s.raw(q, *s.to2(q, k))
    def last(s, q):
        """(position of the last element, it is representable)"""
        a, b = psub(q["m"], ONE), psub(q["n"], ONE)
        x, y = pmul(a, q["r"]), pmul(b, q["c"])
        return padd(x, y), bands(mulok(a, q["r"]), mulok(b, q["c"]), addok(x, y))
    def empty(s, q): return bor(eq0(q["m"]), eq0(q["n"]))
    def ctor_ok(s, q): return bor(s.empty(q), s.last(q)[1])
    def fits(s, q, ln):
        p, ok = s.last(q)
        return bor(s.empty(q), bands(mulok(q["m"], q["n"]), ok, b_ult(p, ln)))
class ASCM(ASRM):
    key = "ASCM"; ty = "ArbitraryStrideColumnMajor"; index = "CM"; order = "c"
    to2 = CM.to2; to1 = CM.to1
class RV(Lay):
    key = "RV"; ty = "RowVector"; index = "RV"; names = ("n",); order = "v"; vec = True; rs = "Fixed1"; row = True
    def args(s, x): return x + "n"
    def dim(s, q): return ONE, q["n"]
    def nel(s, q): return q["n"]
    def raw(s, q, i, j): return j
    def stride(s, q): return None
    def to2(s, q, k): return pc(0), k
    def to1(s, q, i, j): return j
    def raw1(s, q, k): return k
    def countok(s, q): return TRUE
    def fits(s, q, ln): return b_ule(q["n"], ln)
class CV(RV):
    key = "CV"; ty = "ColumnVector"; index = "CV"; rs = "Dynamic"; cs = "Fixed1"; row = False
    def dim(s, q): return q["n"], ONE
    def raw(s, q, i, j): return i
    def to2(s, q, k): return k, pc(0)
    def to1(s, q, i, j): return i
class ASRV(RV):
    key = "ASRV"; ty = "ArbitraryStrideRowVector"; index = "RV"; names = ("n", "d")
    def args(s, x): return "%sn, %sd" % (x, x)
    def raw(s, q, i, j): return pmul(j, q["d"])
    def raw1(s, q, k): return pmul(k, q["d"])
    def last(s, q):
        a = psub(q["n"], ONE)
        return pmul(a, q["d"]), mulok(a, q["d"])
    def ctor_ok(s, q): return bor(eq0(q["n"]), s.last(q)[1])
    def fits(s, q, ln):
        p, ok = s.last(q)
        return bor(eq0(q["n"]), band(ok, b_ult(p, ln)))
class ASCV(ASRV):
    key = "ASCV"; ty = "ArbitraryStrideColumnVector"; index = "CV"; rs = "Dynamic"; cs = "Fixed1"; row = False
    def dim(s, q): return q["n"], ONE
    def raw(s, q, i, j): return pmul(i, q["d"])
    def to2(s, q, k): return k, pc(0)
    def to1(s, q, i, j): return i
class UT(Lay):
    key = "UT"; ty = "UpperTriangular"; index = "UT"; names = ("n",); order = "t"; strided = False
    def args(s, x): return x + "n"
    def dim(s, q): return q["n"], q["n"]
    def nel(s, q): return p_udiv(pmul(q["n"], padd(q["n"], ONE)), pc(2))
    def raw(s, q, i, j): return s.to1(q, i, j)
    def to1(s, q, i, j):
        d = psub(q["n"], i)
        return padd(p_udiv(pmul(d, psub(d, ONE)), pc(2)), psub(j, i))
    def raw1(s, q, k): return k
    def countok(s, q): return b_ult(q["n"], pc(1 << 32))
    def fits(s, q, ln): return band(b_ult(q["n"], pc(1 << 32)), b_ule(s.nel(q), ln))

LAYS = {c.key: c() for c in (RM, CM, ASRM, ASCM, RV, CV, ASRV, ASCV, UT)}
MATS = [LAYS[k] for k in ("RM", "CM", "ASRM", "ASCM")]
VECS = [LAYS[k] for k in ("RV", "CV", "ASRV", "ASCV")]
STRIDED = MATS + VECS
ALL = STRIDED + [LAYS["UT"]]
ASFILE = {"RM": "row_major", "CM": "column_major", "ASRM": "arbitrary_stride_row_major", "ASCM": "arbitrary_stride_column_major", "RV": "row_vector",
          "CV": "column_vector", "ASRV": "arbitrary_stride_row_vector", "ASCV": "arbitrary_stride_column_vector", "UT": "upper_triangular"}
def lfile(l): return "src/layouts/%s.rs" % ASFILE[l.key]

# ------------------------------------------------------------------ matrices over storage handed in
def mat(l, x="", item="f64", store="slice", rs=None, cs=None, N=None):
    """-> (parameters, expression of a matrix with layout l)"""
    rs, cs = rs or l.rs, cs or l.cs
    if store == "slice":
        p = [(x + "x", "&[%s]" % item)]
        e = "SliceMatrix::<%s, %s, %s, %s>::from_data(SliceContainer::new(%sx), %s)" % (item, l.ty, rs, cs, x, l.ctor(x))
    elif store == "mut":
        p = [(x + "x", "&mut [%s]" % item)]
        e = "SliceMatrixMut::<%s, %s, %s, %s>::from_data(SliceContainerMut::new(%sx), %s)" % (item, l.ty, rs, cs, x, l.ctor(x))
    elif store == "vec":
        p = [(x + "x", "VectorContainer<%s>" % item)]
        e = "GenericBaseMatrixMut::<%s, %s, VectorContainer<%s>, %s, %s>::from_data(%sx, %s)" % (item, l.ty, item, rs, cs, x, l.ctor(x))
    elif store == "arr":
        p = [(x + "x", "ArrayContainer<%s, %d>" % (item, N))]
        e = "GenericBaseMatrixMut::<%s, %s, ArrayContainer<%s, %d>, %s, %s>::from_data(%sx, %s)" % (item, l.ty, item, N, rs, cs, x, l.ctor(x))
    return p + l.params(x), e
def built(R, l, x=""):
    """condition under which the matrix of mat() is constructed: everything fits"""
    q = l.of(R, x)
    return q.fits(R.len(x + "x"))
def matty(l, item="f64", store="slice", rs=None, cs=None, N=None, lt="'a"):
    rs, cs = rs or l.rs, cs or l.cs
    return {"slice": "SliceMatrix<%s, %s, %s, %s, %s>" % (lt, item, l.ty, rs, cs),
            "mut": "SliceMatrixMut<%s, %s, %s, %s, %s>" % (lt, item, l.ty, rs, cs),
            "vec": "GenericBaseMatrixMut<%s, %s, VectorContainer<%s>, %s, %s>" % (item, l.ty, item, rs, cs),
            "arr": "GenericBaseMatrixMut<%s, %s, ArrayContainer<%s, %s>, %s, %s>" % (item, l.ty, item, N, rs, cs)}[store]
