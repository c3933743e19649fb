//! What the native solver is given and how its answer is mapped.
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::*;
use numopt::solver::ipopt::SolverIpopt;

pub fn problem<'a>(s: &SolverIpopt, p: &'a mut Problem) -> Option<&'a mut ProblemNlp> {
    match p {
        Problem::Nlp(x) => Some(x),
        Problem::Lp(x) => Some(x.as_mut_nlp()),
        _ => None,
    }
}
// n, m, nonzeros of the Jacobian and of the Hessian
pub fn sizes(p: &ProblemNlp) -> (usize, usize, usize, usize) {
    (p.nx(), p.na() + p.nf(), p.a().nnz() + p.j().nnz(), p.hphi().nnz() + p.hcomb().nnz())
}
pub fn lower(p: &ProblemNlp) -> Vec<f64> { p.l().to_vec() }
pub fn upper(p: &ProblemNlp) -> Vec<f64> { p.u().to_vec() }
pub fn zeros(p: &ProblemNlp) -> Vec<f64> { vec![0.; p.na() + p.nf()] }
pub fn start(p: &ProblemNlp) -> Vec<f64> {
    match p.x0() {
        Some(x) => x.to_vec(),
        None => vec![0.; p.nx()],
    }
}
pub fn print_level(s: &SolverIpopt) -> Option<i32> {
    match s.get_param("print_level") {
        Some(SolverParam::IntParam(i)) => Some(*i),
        _ => None,
    }
}
pub fn sb(s: &SolverIpopt) -> Option<String> {
    match s.get_param("sb") {
        Some(SolverParam::StrParam(x)) => Some(x.clone()),
        _ => None,
    }
}
pub fn answer(p: &ProblemNlp, code: i32, x: &[f64], lamnu: &[f64], pi: &[f64], mu: &[f64]) -> (SolverStatus, ProblemSol) {
    let status = match code {
        0 | 1 => SolverStatus::Solved,
        2 => SolverStatus::Infeasible,
        _ => SolverStatus::Error,
    };
    let mut s = ProblemSol::new(p.nx(), p.na(), p.nf());
    for k in 0..p.nx() {
        s.x[k] = x[k];
        s.pi[k] = pi[k];
        s.mu[k] = mu[k];
    }
    for k in 0..p.na() {
        s.lam[k] = -lamnu[k];
    }
    for k in 0..p.nf() {
        s.nu[k] = -lamnu[p.na() + k];
    }
    (status, s)
}
// a constructed problem is consistent (C14)
pub fn consistent(p: &ProblemNlp) -> bool {
    p.l().len() == p.nx() && p.u().len() == p.nx() && p.na() == p.b().len() && p.nf() == p.f().len() && match p.x0() {
        Some(x) => x.len() == p.nx(),
        None => true,
    }
}
