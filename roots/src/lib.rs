#![allow(dead_code, unused_variables, clippy::all)]
use householder::*;
pub fn root_rm_raw(rows: usize, cols: usize, r: usize, c: usize) -> usize {
    RowMajor::new((rows, cols)).convert_2d_raw(r, c)
}
pub fn root_get(s: &[f64], rows: usize, cols: usize, r: usize, c: usize) -> f64 {
    let m = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(
        SliceContainer::new(s),
        RowMajor::new((rows, cols)),
    );
    m.get(r, c)
}
pub fn root_eval(a: &[f64], b: &[f64], rows: usize, cols: usize, r: usize, c: usize) -> f64 {
    let m = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(
        SliceContainer::new(a),
        RowMajor::new((rows, cols)),
    );
    let n = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(
        SliceContainer::new(b),
        RowMajor::new((rows, cols)),
    );
    let e = (2.0 * &m + n).eval();
    e.get(r, c)
}
