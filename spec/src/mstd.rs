// Views of a standard problem shared by the requirements on standardisation
use numopt::matrix::coo::CooMat;
use numopt::model::model_std::*;
use numopt::model::*;
use numopt::problem::base::Problem;
use std::collections::HashMap;

pub type Trip = (usize, usize, Vec<usize>, Vec<usize>, Vec<f64>);
pub fn trip(a: &CooMat<f64>) -> Trip {
    (a.rows(), a.cols(), a.row_inds().to_vec(), a.col_inds().to_vec(), a.data().to_vec())
}

pub fn a_of(p: &Problem) -> (Trip, Vec<f64>) {
    match p {
        Problem::Minlp(p) => (trip(p.a()), p.b().to_vec()),
        Problem::Milp(p) => (trip(p.a()), p.b().to_vec()),
        Problem::Lp(p) => (trip(p.a()), p.b().to_vec()),
        Problem::Nlp(p) => (trip(p.a()), p.b().to_vec()),
    }
}
pub fn limits(p: &Problem) -> (Vec<f64>, Vec<f64>) {
    match p {
        Problem::Minlp(p) => (p.l().to_vec(), p.u().to_vec()),
        Problem::Milp(p) => (p.l().to_vec(), p.u().to_vec()),
        Problem::Lp(p) => (p.l().to_vec(), p.u().to_vec()),
        Problem::Nlp(p) => (p.l().to_vec(), p.u().to_vec()),
    }
}
pub fn start(p: &Problem) -> Option<Vec<f64>> {
    match p {
        Problem::Minlp(p) => p.x0().map(|x| x.to_vec()),
        Problem::Milp(p) => p.x0().map(|x| x.to_vec()),
        Problem::Lp(p) => p.x0().map(|x| x.to_vec()),
        Problem::Nlp(p) => p.x0().map(|x| x.to_vec()),
    }
}
