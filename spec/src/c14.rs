//! Problem constructors and views.
use numopt::matrix::coo::CooMat;
use numopt::problem::base::*;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

type M = CooMat<f64>;
type V = Vec<f64>;
type Coo = (usize, usize, usize, Vec<usize>, Vec<usize>, Vec<f64>);

pub struct Data {
    pub x0: Option<V>,
    pub phi: f64,
    pub gphi: V,
    pub hphi: Coo,
    pub a: Coo,
    pub b: V,
    pub f: V,
    pub j: Coo,
    pub h: Vec<Coo>,
    pub hcomb: (usize, usize, usize, Vec<usize>, Vec<usize>),
    pub l: V,
    pub u: V,
    pub p: Vec<bool>,
    pub n: (usize, usize, usize),
}

fn coo(b: &M) -> Coo {
    (b.rows(), b.cols(), b.nnz(), b.row_inds().to_vec(), b.col_inds().to_vec(), b.data().to_vec())
}
fn opt(x: Option<&[f64]>) -> Option<V> {
    match x {
        Some(v) => Some(v.to_vec()),
        None => None,
    }
}
fn list(h: &Vec<M>) -> Vec<Coo> { h.iter().map(|m| coo(m)).collect() }

fn minlp(p: &ProblemMinlp) -> Data {
    let hc = coo(p.hcomb());
    Data {
        x0: opt(p.x0()), phi: p.phi(), gphi: p.gphi().to_vec(), hphi: coo(p.hphi()), a: coo(p.a()), b: p.b().to_vec(),
        f: p.f().to_vec(), j: coo(p.j()), h: list(p.h()), hcomb: (hc.0, hc.1, hc.2, hc.3, hc.4), l: p.l().to_vec(), u: p.u().to_vec(),
        p: p.p().to_vec(), n: (p.nx(), p.na(), p.nf()),
    }
}
fn nlp(p: &ProblemNlp) -> Data {
    let hc = coo(p.hcomb());
    Data {
        x0: opt(p.x0()), phi: p.phi(), gphi: p.gphi().to_vec(), hphi: coo(p.hphi()), a: coo(p.a()), b: p.b().to_vec(),
        f: p.f().to_vec(), j: coo(p.j()), h: list(p.h()), hcomb: (hc.0, hc.1, hc.2, hc.3, hc.4), l: p.l().to_vec(), u: p.u().to_vec(),
        p: vec![false; p.nx()], n: (p.nx(), p.na(), p.nf()),
    }
}

fn required(hphi: &M, a: &M, b: V, j: &M, h: &Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>) -> Data {
    let nx = a.cols();
    assert_eq!(hphi.rows(), nx);
    assert_eq!(hphi.cols(), nx);
    assert_eq!(b.len(), a.rows());
    assert_eq!(j.cols(), nx);
    assert_eq!(h.len(), j.rows());
    for m in h.iter() {
        assert_eq!(m.rows(), nx);
        assert_eq!(m.cols(), nx);
    }
    assert_eq!(l.len(), nx);
    assert_eq!(u.len(), nx);
    assert_eq!(p.len(), nx);
    if let Some(v) = &x0 {
        assert_eq!(v.len(), nx);
    }
    let mut rows: Vec<usize> = Vec::new();
    let mut cols: Vec<usize> = Vec::new();
    for m in h.iter() {
        for k in 0..m.nnz() {
            rows.push(m.row_inds()[k]);
            cols.push(m.col_inds()[k]);
        }
    }
    let na = a.rows();
    let nf = j.rows();
    Data {
        x0: x0, phi: 0., gphi: vec![0.; nx], hphi: coo(hphi), a: coo(a), b: b, f: vec![0.; nf], j: coo(j), h: list(h),
        hcomb: (nx, nx, rows.len(), rows, cols), l: l, u: u, p: p, n: (nx, na, nf),
    }
}

pub fn i_minlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval) -> Data {
    minlp(&ProblemMinlp::new(hphi, a, b, j, h, l, u, p, x0, e))
}
pub fn s_minlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval) -> Data {
    required(&hphi, &a, b, &j, &h, l, u, p, x0)
}

pub fn i_nlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval) -> Data {
    nlp(&ProblemNlp::new(hphi, a, b, j, h, l, u, x0, e))
}
pub fn s_nlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval) -> Data {
    let nx = a.cols();
    required(&hphi, &a, b, &j, &h, l, u, vec![false; nx], x0)
}
pub fn i_nlp_as_minlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval) -> Data {
    minlp(ProblemNlp::new(hphi, a, b, j, h, l, u, x0, e).as_mut_minlp())
}
pub fn s_nlp_as_minlp(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval) -> Data {
    let nx = a.cols();
    required(&hphi, &a, b, &j, &h, l, u, vec![false; nx], x0)
}

// linear classes
pub struct Lin {
    pub x0: Option<V>,
    pub c: V,
    pub a: Coo,
    pub b: V,
    pub l: V,
    pub u: V,
    pub p: Vec<bool>,
    pub n: (usize, usize),
}
fn required_lin(c: V, a: &M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>) -> Lin {
    let nx = a.cols();
    let na = a.rows();
    assert_eq!(c.len(), nx);
    assert_eq!(b.len(), na);
    assert_eq!(l.len(), nx);
    assert_eq!(u.len(), nx);
    assert_eq!(p.len(), nx);
    if let Some(v) = &x0 {
        assert_eq!(v.len(), nx);
    }
    Lin { x0: x0, c: c, a: coo(a), b: b, l: l, u: u, p: p, n: (nx, na) }
}
fn milp(p: &ProblemMilp) -> Lin {
    Lin { x0: opt(p.x0()), c: p.c().to_vec(), a: coo(p.a()), b: p.b().to_vec(), l: p.l().to_vec(), u: p.u().to_vec(), p: p.p().to_vec(), n: (p.nx(), p.na()) }
}
pub fn i_milp(c: V, a: M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>) -> Lin { milp(&ProblemMilp::new(c, a, b, l, u, p, x0)) }
pub fn s_milp(c: V, a: M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>) -> Lin { required_lin(c, &a, b, l, u, p, x0) }

pub fn i_lp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Lin {
    let p = ProblemLp::new(c, a, b, l, u, x0);
    let nx = p.nx();
    Lin { x0: opt(p.x0()), c: p.c().to_vec(), a: coo(p.a()), b: p.b().to_vec(), l: p.l().to_vec(), u: p.u().to_vec(), p: vec![false; nx], n: (p.nx(), p.na()) }
}
pub fn s_lp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Lin {
    let n = a.cols();
    required_lin(c, &a, b, l, u, vec![false; n], x0)
}
pub fn i_lp_as_milp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Lin { milp(ProblemLp::new(c, a, b, l, u, x0).as_mut_milp()) }
pub fn s_lp_as_milp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Lin {
    let n = a.cols();
    required_lin(c, &a, b, l, u, vec![false; n], x0)
}

// the linear classes viewed as nonlinear ones
fn lin_data(c: V, a: &M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>) -> Data {
    let nx = a.cols();
    let na = a.rows();
    assert_eq!(c.len(), nx);
    assert_eq!(b.len(), na);
    assert_eq!(l.len(), nx);
    assert_eq!(u.len(), nx);
    assert_eq!(p.len(), nx);
    if let Some(v) = &x0 {
        assert_eq!(v.len(), nx);
    }
    Data {
        x0: x0, phi: 0., gphi: vec![0.; nx], hphi: (nx, nx, 0, Vec::new(), Vec::new(), Vec::new()), a: coo(a), b: b, f: Vec::new(),
        j: (0, nx, 0, Vec::new(), Vec::new(), Vec::new()), h: Vec::new(), hcomb: (nx, nx, 0, Vec::new(), Vec::new()), l: l, u: u, p: p,
        n: (nx, na, 0),
    }
}
pub fn i_milp_as_minlp(c: V, a: M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>) -> Data { minlp(ProblemMilp::new(c, a, b, l, u, p, x0).as_mut_minlp()) }
pub fn s_milp_as_minlp(c: V, a: M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>) -> Data { lin_data(c, &a, b, l, u, p, x0) }
pub fn i_lp_as_minlp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Data { minlp(ProblemLp::new(c, a, b, l, u, x0).as_mut_minlp()) }
pub fn s_lp_as_minlp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Data {
    let n = a.cols();
    lin_data(c, &a, b, l, u, vec![false; n], x0)
}
pub fn i_lp_as_nlp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Data { nlp(ProblemLp::new(c, a, b, l, u, x0).as_mut_nlp()) }
pub fn s_lp_as_nlp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>) -> Data {
    let n = a.cols();
    lin_data(c, &a, b, l, u, vec![false; n], x0)
}

// evaluation
fn dot(c: &[f64], x: &[f64]) -> f64 {
    let mut s = 0f64;
    for k in 0..c.len() {
        s += c[k] * x[k];
    }
    s
}
pub fn i_milp_eval(c: V, a: M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>, x: &[f64]) -> Data {
    let mut q = ProblemMilp::new(c, a, b, l, u, p, x0);
    q.as_mut_minlp().evaluate(x);
    minlp(q.as_mut_minlp())
}
pub fn s_milp_eval(c: V, a: M, b: V, l: V, u: V, p: Vec<bool>, x0: Option<V>, x: &[f64]) -> Data {
    assert_eq!(c.len(), x.len());
    let v = dot(&c, x);
    let mut d = lin_data(c.clone(), &a, b, l, u, p, x0);
    d.phi = v;
    d.gphi = c;
    d
}
pub fn i_lp_eval(c: V, a: M, b: V, l: V, u: V, x0: Option<V>, x: &[f64]) -> Data {
    let mut q = ProblemLp::new(c, a, b, l, u, x0);
    q.as_mut_nlp().evaluate(x);
    nlp(q.as_mut_nlp())
}
pub fn s_lp_eval(c: V, a: M, b: V, l: V, u: V, x0: Option<V>, x: &[f64]) -> Data {
    let n = a.cols();
    s_milp_eval(c, a, b, l, u, vec![false; n], x0, x)
}
pub fn i_lp_eval_minlp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>, x: &[f64]) -> Data {
    let mut q = ProblemLp::new(c, a, b, l, u, x0);
    q.as_mut_minlp().evaluate(x);
    minlp(q.as_mut_minlp())
}
pub fn s_lp_eval_minlp(c: V, a: M, b: V, l: V, u: V, x0: Option<V>, x: &[f64]) -> Data {
    let n = a.cols();
    s_milp_eval(c, a, b, l, u, vec![false; n], x0, x)
}
pub fn i_minlp_eval(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval, x: &[f64]) -> Data {
    let mut q = ProblemMinlp::new(hphi, a, b, j, h, l, u, p, x0, e);
    q.evaluate(x);
    minlp(&q)
}
pub fn s_minlp_eval(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, p: Vec<bool>, x0: Option<V>, e: ProblemEval, x: &[f64]) -> Data {
    let mut d = required(&hphi, &a, b, &j, &h, l, u, p, x0);
    let (mut hphi, mut j, mut h) = (hphi, j, h);
    let mut f = vec![0.; j.rows()];
    e(&mut d.phi, &mut d.gphi, &mut hphi, &mut f, &mut j, &mut h, x);
    d.hphi = coo(&hphi);
    d.n.2 = f.len();
    d.f = f;
    d.j = coo(&j);
    d.h = list(&h);
    d
}
pub fn i_nlp_eval(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval, x: &[f64]) -> Data {
    let mut q = ProblemNlp::new(hphi, a, b, j, h, l, u, x0, e);
    q.evaluate(x);
    nlp(&q)
}
pub fn s_nlp_eval(hphi: M, a: M, b: V, j: M, h: Vec<M>, l: V, u: V, x0: Option<V>, e: ProblemEval, x: &[f64]) -> Data {
    let n = a.cols();
    s_minlp_eval(hphi, a, b, j, h, l, u, vec![false; n], x0, e, x)
}

pub fn i_sol(nx: usize, na: usize, nf: usize) -> (V, V, V, V, V) {
    let s = numopt::problem::base::ProblemSol::new(nx, na, nf);
    (s.x, s.lam, s.nu, s.mu, s.pi)
}
pub fn s_sol(nx: usize, na: usize, nf: usize) -> (V, V, V, V, V) {
    (vec![0.; nx], vec![0.; na], vec![0.; nf], vec![0.; nx], vec![0.; nx])
}
