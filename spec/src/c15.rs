//! Combined constraint Hessian.
use numopt::matrix::coo::CooMat;
use numopt::problem::base::*;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

type M = CooMat<f64>;
type V = Vec<f64>;

// one entry per entry of each constraint Hessian, in the same order
fn structure(nx: usize, h: &Vec<M>) -> (usize, usize, Vec<usize>, Vec<usize>) {
    let mut rows: Vec<usize> = Vec::new();
    let mut cols: Vec<usize> = Vec::new();
    for m in h.iter() {
        for k in 0..m.nnz() {
            rows.push(m.row_inds()[k]);
            cols.push(m.col_inds()[k]);
        }
    }
    (nx, nx, rows, cols)
}
pub fn i_minlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval) -> (usize, usize, Vec<usize>, Vec<usize>) {
    let q = ProblemMinlp::new(hphi, a, b, j, h, l, u, p, x0, e);
    let m = q.hcomb();
    (m.rows(), m.cols(), m.row_inds().to_vec(), m.col_inds().to_vec())
}
pub fn s_minlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval) -> (usize, usize, Vec<usize>, Vec<usize>) {
    structure(a.cols(), &h)
}
pub fn i_nlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval) -> (usize, usize, Vec<usize>, Vec<usize>) {
    let q = ProblemNlp::new(hphi, a, b, j, h, l, u, x0, e);
    let m = q.hcomb();
    (m.rows(), m.cols(), m.row_inds().to_vec(), m.col_inds().to_vec())
}
pub fn s_nlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval) -> (usize, usize, Vec<usize>, Vec<usize>) {
    structure(a.cols(), &h)
}

// values: multiplier times entry, position by position
fn weighted(h: &Vec<M>, nu: &[f64]) -> V {
    let mut out: V = Vec::new();
    for i in 0..h.len() {
        for k in 0..h[i].data().len() {
            out.push(nu[i] * h[i].data()[k]);
        }
    }
    out
}
pub struct After {
    pub data: V,
    pub rows: Vec<usize>,
    pub cols: Vec<usize>,
    pub shape: (usize, usize),
}
fn after(m: &M) -> After {
    After { data: m.data().to_vec(), rows: m.row_inds().to_vec(), cols: m.col_inds().to_vec(), shape: (m.rows(), m.cols()) }
}
fn required(nx: usize, nf: usize, h: &Vec<M>, nu: &[f64]) -> After {
    assert_eq!(nf, nu.len());
    let (m, n, rows, cols) = structure(nx, h);
    After { data: weighted(h, nu), rows: rows, cols: cols, shape: (m, n) }
}
pub fn i_combine(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval, nu: &[f64]) -> After {
    let mut q = ProblemMinlp::new(hphi, a, b, j, h, l, u, p, x0, e);
    q.combine_h(nu);
    after(q.hcomb())
}
pub fn s_combine(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval, nu: &[f64]) -> After {
    required(a.cols(), j.rows(), &h, nu)
}
pub fn i_combine_nlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval, nu: &[f64]) -> After {
    let mut q = ProblemNlp::new(hphi, a, b, j, h, l, u, x0, e);
    q.combine_h(nu);
    after(q.hcomb())
}
pub fn s_combine_nlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval, nu: &[f64]) -> After {
    required(a.cols(), j.rows(), &h, nu)
}

// combining again overwrites: nothing of the previous multipliers remains
pub fn i_again(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval, old: &[f64], nu: &[f64]) -> After {
    let mut q = ProblemNlp::new(hphi, a, b, j, h, l, u, x0, e);
    q.combine_h(old);
    q.combine_h(nu);
    after(q.hcomb())
}
pub fn s_again(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval, old: &[f64], nu: &[f64]) -> After {
    assert_eq!(j.rows(), old.len());
    required(a.cols(), j.rows(), &h, nu)
}

pub fn r_minlp(p: &mut ProblemMinlp, nu: &[f64]) { p.combine_h(nu) }
pub fn q_minlp(p: &mut ProblemMinlp, nu: &[f64]) { assert_eq!(p.nf(), nu.len()); }
pub fn r_nlp(p: &mut ProblemNlp, nu: &[f64]) { p.combine_h(nu) }
pub fn q_nlp(p: &mut ProblemNlp, nu: &[f64]) { assert_eq!(p.nf(), nu.len()); }
