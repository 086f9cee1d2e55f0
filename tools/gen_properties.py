#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mech))
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
def m(name, where): return dict(name=name, where=where)
L = "src/layouts/"
LAY = [L+x for x in ("row_major.rs","column_major.rs","row_vector.rs","column_vector.rs",
   "arbitrary_stride_row_major.rs","arbitrary_stride_column_major.rs",
   "arbitrary_stride_row_vector.rs","arbitrary_stride_column_vector.rs")]

p("C01","Checked element access enforces the logical bounds, for every kind of matrix",
  "Reading or writing an element through the safe accessors (two-dimensional or one-dimensional, shared or mutable) panics when the row, the column or the 1d index is not smaller than the matrix' own number of rows, columns or elements, and it does so before any element is touched. Every index inside those bounds is accepted. This holds for owned matrices, vectors, views, references, scaled matrices and sums, with any layout and storage.",
  ["inputs"],"all dimensions, all index values of the full usize range, all nine layouts and any user-defined layout, all containers, all expression kinds",
  "Two should_panic doc-tests try one index (3,5) that is out of bounds in both coordinates of one 3x5 row-major matrix; 1d access and every other matrix kind are never tried out of bounds.",
  ["src/traits/random_access.rs"],[m("assert_dimension / assert_dimension1d in the blanket RandomAccess impls","src/traits/random_access.rs")],
  ["get","get1d","get_mut","get1d_mut"])
p("C02","Every layout stores element (row, col) at its documented memory position",
  "For each layout, element (row, col) lives at the raw memory position the documentation of that layout defines: row-major row*cols+col, column-major col*rows+row, strided row*r+col*c, vectors at (stride times) the element number, so that the first element is at position 0. Distinct elements of row-major, column-major and vector layouts never share a position. Two-dimensional element access of a matrix reads and writes exactly that position of its storage.",
  ["inputs"],"all dimensions, strides and in-range (row, col), all strided and contiguous layouts and all storage containers",
  "Tests use one or two fixed small shapes and mostly RowMajor; a wrong formula that agrees on those shapes (square matrices, first row, unit stride) passes.",
  LAY+["src/base_matrix.rs"],[m("convert_2d_raw of each layout; BaseMatrix::get_unchecked(_mut)","src/layouts/*.rs, src/base_matrix.rs")])
p("C03","1d numbering and (row, col) numbering of a layout are mutually consistent",
  "For every layout, converting a valid 1d index to (row, col) yields the zero-based position that the layout's logical order (row by row, or column by column; element by element for vectors) assigns to it, and converting back returns the index. Accessing an element by 1d index is accessing it by the corresponding (row, col). A layout and the index layout it reports agree on dimension, number of elements and order.",
  ["inputs"],"all dimensions, strides and valid 1d indices / (row, col) pairs, all layouts",
  "Only the upper triangular layout's conversion is unit-tested (n = 5, three points); the conversions of the eight other layouts are never called by a test.",
  LAY,[m("convert_1d_2d, convert_2d_1d, convert_1d_raw, number_of_elements, index_layout","src/layouts/*.rs")])
p("C04","The stride a layout reports is the stride its elements actually have",
  "For every layout that may be used where strides matter (blocks, matrix products), walking r*row + c*col with the reported stride tuple (r, c) arrives at the memory position of element (row, col), for every element. A layout whose elements do not follow a stride tuple cannot be used in such places.",
  ["inputs"],"all dimensions, strides and elements of all layouts usable as strided layouts, including views of views",
  "No test reads a stride of a view or multiplies a view; the nested-block test only looks at the first row of the inner block.",
  LAY+["src/traits/layout.rs"],[m("stride() and the StridedLayoutType marker","src/layouts/*.rs")])
p("C05","No safely built matrix addresses memory outside its own storage",
  "Building a matrix from a data container and a layout through the safe interface is refused when some in-range element of the layout would lie outside the container; it is accepted when all fit. Hence no sequence of safe calls with in-range or out-of-range arguments reads or writes outside the storage the matrix was given. Views cover at least the elements they can address and never extend beyond the storage of the matrix they were taken from.",
  ["inputs","configurations"],"all containers and lengths, all layouts, dimensions and strides, debug and release arithmetic",
  "Tests always pass matching containers and layouts; a too-small container, or a strided layout reaching past the end, is never tried.",
  ["src/base_matrix.rs","src/matrix/constructors.rs","src/matrix/matrix_slices.rs","src/data_container.rs"],
  [m("assertion in BaseMatrix::new","src/base_matrix.rs"),m("slice length computed by from_pointer","src/matrix/constructors.rs")])
p("C06","A block shows exactly the requested submatrix of its parent",
  "Element (i, j) of a block taken at (r, c) is element (r+i, c+j) of the matrix it was taken from, for reading and for writing, by two-dimensional and by one-dimensional access, and the block has the requested dimension. This also holds for blocks of blocks to any depth and for both row- and column-major matrices.",
  ["inputs"],"all parent dimensions, block positions and sizes inside the parent, nesting depth, both orders, shared and mutable blocks",
  "Three tests with fixed small row-major matrices; the nested one inspects a single element in the first row, where a wrong inner stride is invisible. Column-major blocks are never tested.",
  ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs",L+"arbitrary_stride_row_major.rs",L+"arbitrary_stride_column_major.rs"],
  [m("block / block_mut","src/matrix/matrix_slices.rs"),m("from_pointer (strided)","src/matrix/constructors.rs")])
p("C07","Block requests that leave the parent matrix are rejected",
  "Requesting a shared or mutable block whose lower right corner would lie outside the parent matrix panics instead of returning a view, for every position and size including ones whose sum overflows, in debug and in release builds. Every block that fits, including an empty one, is granted.",
  ["inputs","configurations"],"all positions and sizes of the full usize range, all parent dimensions, both build profiles",
  "No test requests a block that does not fit, an empty block, or one with huge coordinates.",
  ["src/matrix/matrix_slices.rs"],[m("lower right corner assertion in block / block_mut","src/matrix/matrix_slices.rs")])
p("C08","Splitting a matrix in four yields an exact partition",
  "Splitting a matrix at (r, c) yields the upper left, upper right, lower left and lower right submatrices in that order: every element of the matrix is reachable through exactly one of the four mutable parts, at its position relative to the part's origin. A split position outside the matrix is rejected; positions on the border give empty parts.",
  ["inputs","configurations"],"all dimensions and split positions, all elements, both build profiles",
  "One 10x10 matrix split at (5,5): symmetric, so swapped dimensions or swapped origins stay invisible, and no out-of-range split is tried.",
  ["src/matrix/matrix_slices.rs"],[m("split_in_four_mut","src/matrix/matrix_slices.rs")])
p("C09","Sums and scalar multiples are elementwise, however they are written",
  "Each element of a sum is the sum of the corresponding elements of its operands, and each element of a scalar multiple is the scalar times the element, by two-dimensional and by one-dimensional access, to any nesting depth. The result is the same whether the operands are passed by value or by reference, whether the scalar stands left or right, and for all four scalar types; the expression has its operands' dimension.",
  ["inputs","programs"],"all operand values and dimensions, all combinations of owned/borrowed operands, scalar position and type, all layouts with a common 1d order, nested expressions",
  "Two tests evaluate one expression each with a single nonzero element in f64, owned operands, scalar on the left.",
  ["src/addition.rs","src/scalar_mult.rs"],[m("get_unchecked / get1d_unchecked of Addition and ScalarMult; the Add and Mul impls","src/addition.rs, src/scalar_mult.rs")])
p("C10","Incompatible operands are rejected",
  "Adding two matrices of different dimension panics when the sum is formed, before any element is read, for every way of writing the sum; equal dimensions are always accepted. Operands with different 1d traversal order, different size types or different scalar types do not compile as a sum.",
  ["inputs","programs"],"all dimension pairs, all operator forms; all programs combining incompatible matrix types",
  "No test adds matrices of different dimension; no compile-fail test exists.",
  ["src/addition.rs"],[m("dimension assertion in Addition::new; bounds L1, L2: LayoutType<IndexLayout = B>","src/addition.rs")])
p("C11","Evaluation materialises exactly the expression",
  "Evaluating a matrix or expression returns a new matrix of the same dimension, stored in the expression's own logical order, whose every element equals the expression's element at the same position. The operands are left unchanged, and later changes to the operands do not change the result. This holds for all shapes including empty ones.",
  ["inputs"],"all dimensions including empty, all expression kinds and layouts, all elements",
  "Tests evaluate 2x3 and 3x5 row-major matrices and look at one element each.",
  ["src/matrix/common_impl.rs"],[m("Matrix::eval","src/matrix/common_impl.rs")])
p("C12","Expressions are lazy, and evaluation makes a single pass without temporaries",
  "Forming sums and scalar multiples reads no matrix element and allocates no memory. Reading one element of an expression reads each operand's corresponding element exactly once, writes nothing and allocates nothing. Evaluating an expression allocates memory for the result only and computes every result element exactly once.",
  ["inputs","programs"],"all expressions and dimensions",
  "Tests see only final values; extra temporaries, repeated reads or eager evaluation give the same values.",
  ["src/addition.rs","src/scalar_mult.rs","src/matrix/common_impl.rs","src/matrix_ref.rs"],
  [m("Addition / ScalarMult store operands; Matrix::eval loops once","src/addition.rs, src/scalar_mult.rs, src/matrix/common_impl.rs")])
p("C13","matmul computes C = alpha*A*B + beta*C on the right data or refuses",
  "For every supported scalar type and shape class (matrix*matrix, matrix*column vector, row vector*matrix), the product hands the multiplication kernel of that scalar type the inner and outer dimensions, the data and the true strides of A, B and C, and alpha and beta, each in its role and unconjugated, exactly once, for every (also strided) layout. If the inner dimensions or the dimensions of C do not match, it panics before C is changed. A and B are never written.",
  ["inputs","configurations"],"all dimensions, strides, layouts, containers, values of alpha and beta; four scalar types times three shape classes",
  "Twelve tests with one fixed shape each, contiguous row-major operands and matching dimensions; strided operands, column-major operands and mismatches are never tried.",
  ["src/matrix_multiply.rs"],[m("matmul_impl! instances","src/matrix_multiply.rs")])
p("C14","dot allocates a correctly shaped result and equals matmul with alpha 1, beta 0",
  "The high-level product of a matrix with a matrix, of a row vector with a matrix, or of a matrix with a column vector returns a newly allocated matrix (row vector, column vector) with the rows of the left and the columns of the right operand, holding 1*A*B + 0*C for C the zero result. It panics if the inner dimensions differ and leaves both operands unchanged.",
  ["inputs"],"all dimensions, layouts and containers of both operands, three shape classes",
  "The only callers are a doc example that never looks at the result.",
  ["src/matrix_multiply.rs"],[m("dot_impl! instances","src/matrix_multiply.rs")])
p("C15","Constructors deliver zero matrices of exactly the requested shape",
  "Every zero constructor (dynamic or fixed size, matrix or vector, by function or by macro) returns a matrix with the requested dimension and memory order, whose storage holds exactly as many elements as the matrix, all zero. Vector constructors that take a full dimension accept exactly the shapes of their orientation. The construction macros evaluate each argument exactly once.",
  ["inputs","programs"],"all dimensions, all fixed-size types, all layouts and scalar types, all macro argument expressions",
  "Macro tests check dim() of a 2x3 matrix and a length-5 vector; no test builds a fixed-size matrix, or a dynamic matrix with vector layout.",
  ["src/matrix/constructors.rs","src/macros.rs","src/data_container.rs"]+LAY,
  [m("zeros_from_dim / zeros_from_length; from_dimension / from_length","src/matrix/constructors.rs, src/layouts/*.rs"),m("mat!, vector!","src/macros.rs")])
p("C16","Element-wise mutation and random filling visit every element exactly once",
  "Applying a callable to a matrix calls it exactly once for each logical element, in 1d order, with access to that element only; storage between the elements of a strided view is left alone. Random filling draws a fresh sample from the given generator for every element, and for complex scalars one for the real and one for the imaginary part, and uses no other randomness.",
  ["inputs","histories"],"all dimensions, layouts, strides, callables and generators; four scalar types",
  "Tests that fill matrices never look at which elements were written or how often the generator was used.",
  ["src/matrix/base_methods.rs","src/matrix/random.rs","src/tools.rs"],[m("for_each; fill_from_rand_standard_normal; RandScalar impls","src/matrix/base_methods.rs, src/matrix/random.rs, src/tools.rs")])
p("C17","Raw slices and containers expose exactly the stored elements",
  "Every data container reports the number of elements it holds, its base pointer designates its first element, and unchecked access with index i designates its i-th element. A raw slice request (first, last) on a container or a matrix returns exactly elements first..last of the storage, and panics if the range is empty, reversed or reaches beyond the storage.",
  ["inputs"],"all four containers, all lengths, all (first, last) pairs of the full usize range, shared and mutable",
  "get_slice and get_slice_mut are never called by a test, nor is the base pointer compared with element access.",
  ["src/data_container.rs","src/base_matrix.rs","src/matrix/base_methods.rs"],[m("get_slice(_mut) assertions; get_pointer(_mut); get_unchecked(_mut)","src/data_container.rs")])
p("C18","Packed upper triangular storage is addressed bijectively",
  "An n x n upper triangular matrix stores exactly its n(n+1)/2 elements on and above the diagonal; these map one-to-one onto the storage positions, with the last row first, and converting a position to (row, col) and back are inverse to each other for every index. Access below the diagonal is refused, and so is building one with different row and column numbers.",
  ["inputs"],"all n, all (row, col), all 1d indices",
  "One test with n = 5 and three points.",
  [L+"upper_triangular.rs"],[m("convert_1d_2d / convert_2d_1d / number_of_elements / from_dimension","src/layouts/upper_triangular.rs")])
p("C19","Static size tags and vector lengths agree with the runtime dimension",
  "A matrix whose type fixes its number of rows or columns has that number at run time; a safe construction with a contradicting layout is refused. The length of a row (column) vector is its number of columns (rows), whatever storage it has.",
  ["inputs","programs"],"all size-type combinations, layouts and containers",
  "No test builds a fixed-size matrix or a vector over a larger container.",
  ["src/base_matrix.rs","src/matrix/common_impl.rs","src/matrix/constructors.rs"],[m("BaseMatrix::new; length()","src/base_matrix.rs, src/matrix/common_impl.rs")])
p("C20","Views and lazy expressions cannot outlive or race their matrices",
  "A program in which a view, a raw slice or an expression over borrowed matrices is used after its matrix was dropped, moved or mutated does not compile, nor does one holding a mutable view together with any other access to the same matrix. Shared access never grants mutation. The corresponding well-ordered programs compile.",
  ["programs"],"all client programs of the listed shapes (one witness per borrow rule and API entry)",
  "Tests contain only programs that compile; losing a lifetime link makes more programs compile, so all tests still pass.",
  ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/data_container.rs","src/matrix_ref.rs","src/base_matrix.rs","src/matrix/base_methods.rs"],
  [m("lifetime parameters of SliceContainer(Mut), MatrixRef(Mut), block, split_in_four_mut, get_slice(_mut)","src/matrix/matrix_slices.rs, src/data_container.rs, src/matrix_ref.rs")])
p("C21","Unchecked operations are reachable only through unsafe",
  "Every public operation that trusts its caller about indices or pointers (unchecked access, matrices from raw pointers) must be called in an unsafe context; a safe program calling one does not compile. The library's own unchecked element accesses inside safe functions are confined to indices it has bounded itself.",
  ["programs"],"all public functions; all call sites of unchecked operations inside safe functions of the library",
  "Tests cannot observe that a program is wrongly accepted by the compiler.",
  ["src/traits/random_access.rs","src/data_container.rs","src/matrix/constructors.rs","src/base_matrix.rs"],
  [m("unsafe fn markers of get*_unchecked(_mut), from_pointer","src/traits/random_access.rs, src/data_container.rs, src/matrix/constructors.rs")])
p("C22","Shared use of matrices is pure and safe across threads",
  "Operations that take a matrix by shared reference (element access, block, eval, sums, scaling, products as operand) never write to it or to any global state, so concurrent readers see the same values under every schedule. Matrices, views and expressions of sendable scalars can be sent to and shared between threads.",
  ["schedules","programs"],"all operations with shared access; all thread interleavings of readers",
  "No test is concurrent; a hidden write or cache through a shared reference does not change single-threaded results.",
  ["src/"],[m("no interior mutability, no statics, no const-to-mut pointer casts; auto traits Send/Sync","src/")])
p("C23","Operations whose preconditions hold never panic, in debug or release",
  "Each safe operation panics only for the documented reasons (index out of bounds, dimension mismatch, container too small, block, slice or split range outside the matrix, element below the diagonal). For all other inputs, including empty, one-row and one-column shapes, it completes in every build profile.",
  ["inputs","configurations"],"all shapes including empty ones, all in-range arguments, all safe operations, both build profiles",
  "Tests use non-degenerate shapes; empty matrices, empty blocks and vectors in matrix form are never tried.",
  ["src/"],[m("assertions, arithmetic and unwraps in the safe operations","src/")])
p("C24","Wrapping a matrix in a reference changes nothing but ownership",
  "A matrix reached through the library's reference wrappers (shared or mutable, also nested in expressions) has the same dimension, layout, size type and elements as the matrix itself, and writing through the mutable wrapper writes the same element of the matrix itself.",
  ["inputs","programs"],"all matrices, layouts, elements; both wrappers; nested wrapping",
  "No test uses the mutable wrapper; the shared wrapper is only used inside one doc example.",
  ["src/matrix_ref.rs","src/matrix.rs"],[m("forwarding impls of MatrixRef and MatrixRefMut","src/matrix_ref.rs")])
p("C25","Simultaneously live mutable views never expose the same memory",
  "Whenever the library hands out several mutable views that may be used side by side, no memory location is accessible through more than one of them by any safe means, raw slices included.",
  ["inputs","programs"],"all operations returning several mutable views, all dimensions and split positions",
  "The split test writes one element per part and never uses raw slices of the parts.",
  ["src/matrix/matrix_slices.rs"],[m("slices underlying the parts returned by split_in_four_mut","src/matrix/matrix_slices.rs")])
p("C26","The scalar layer treats the four scalar types consistently",
  "For real scalar types, the two-argument arctangent of y with x is the quadrant-correct angle of the point (x, y); for complex types it is refused. Random scalars take their real and imaginary part in this order from the distribution. Each scalar type supports the same elementwise operations and the low-level matrix product.",
  ["inputs"],"all scalar values, four scalar types",
  "atan2 is never called by a test.",
  ["src/types.rs","src/tools.rs"],[m("HScalar and RandScalar impls","src/types.rs, src/tools.rs")])
p("C27","Matrix products are numerically accurate",
  "The computed product deviates from the exact alpha*A*B + beta*C by no more than the usual componentwise rounding error bound of a dot product of the inner dimension.",
  ["inputs"],"all values, dimensions and strides",
  "Twelve fixed-seed comparisons with 100 ulps tolerance on 4x6 times 6x5 operands.",
  ["src/matrix_multiply.rs"],[m("matrixmultiply kernels (external crate)","matrixmultiply::{sgemm,dgemm,cgemm,zgemm}")])
p("C28","Random matrices are standard normally distributed and independent",
  "The elements of a randomly filled matrix are independent samples of the standard normal distribution (real and imaginary part separately for complex scalars).",
  ["inputs"],"all generators",
  "Tests look at dimensions only.",
  ["src/matrix/random.rs","src/tools.rs"],[m("rand_distr::StandardNormal (external crate)","src/matrix/random.rs")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
