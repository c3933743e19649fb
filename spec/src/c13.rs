//! What a model reports after solving.
use numopt::model::constraint::Constraint;
use numopt::model::model::Model;
use numopt::model::model_std::ModelStd;
use numopt::model::node::Node;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverStatus};
use simple_error::SimpleError;
use std::collections::HashMap;

type Reported = (Result<(), SimpleError>, Option<u8>, HashMap<Node, f64>, HashMap<Constraint, f64>);

fn code(s: &SolverStatus) -> u8 {
    match s {
        SolverStatus::Solved => 0,
        SolverStatus::Infeasible => 1,
        SolverStatus::Unknown => 2,
        SolverStatus::Error => 3,
    }
}

pub fn i_report(m: &mut Model, solver: &dyn Solver) -> Reported {
    let r = m.solve(solver);
    let status = m.solver_status().map(|s| code(s));
    let mut primals = HashMap::new();
    for (v, x) in m.final_primals().iter() {
        primals.insert((*v).clone(), *x);
    }
    let mut duals = HashMap::new();
    for (c, x) in m.final_duals().iter() {
        duals.insert((*c).clone(), *x);
    }
    (r, status, primals, duals)
}

pub fn s_report(m: &mut Model, solver: &dyn Solver) -> Reported { report(m, solver, true) }
pub fn s_report_lu(m: &mut Model, solver: &dyn Solver) -> Reported { report(m, solver, false) }

fn report(m: &mut Model, solver: &dyn Solver, upper_first: bool) -> Reported {
    let mut sp = m.std_problem();
    let (status, sol) = match solver.solve(&mut sp.prob) {
        Ok(x) => x,
        Err(e) => return (Err(e), None, HashMap::new(), HashMap::new()),
    };
    let mut primals = HashMap::new();
    for (v, i) in sp.var2index.iter() {
        primals.insert(v.clone(), sol.x[*i]);
    }
    let mut duals = HashMap::new();
    // multipliers of the rows, then of bounds: a row with a slack is
    // reported with the multiplier of the bound
    for (i, c) in sp.aindex2constr.iter() {
        duals.insert(c.clone(), sol.lam[*i]);
    }
    for (i, c) in sp.jindex2constr.iter() {
        duals.insert(c.clone(), sol.nu[*i]);
    }
    if upper_first {
        for (i, c) in sp.uindex2constr.iter() {
            duals.insert(c.clone(), sol.mu[*i]);
        }
    }
    for (i, c) in sp.lindex2constr.iter() {
        duals.insert(c.clone(), sol.pi[*i]);
    }
    if !upper_first {
        for (i, c) in sp.uindex2constr.iter() {
            duals.insert(c.clone(), sol.mu[*i]);
        }
    }
    (Ok(()), Some(code(&status)), primals, duals)
}

// solving changes nothing but the results
pub fn i_frame(m: &mut Model, solver: &dyn Solver) -> (Vec<Constraint>, HashMap<Node, f64>) {
    let _ = m.solve(solver);
    kept(m)
}
pub fn s_frame(m: &mut Model, solver: &dyn Solver) -> (Vec<Constraint>, HashMap<Node, f64>) { kept(m) }

fn kept(m: &Model) -> (Vec<Constraint>, HashMap<Node, f64>) {
    let mut x = HashMap::new();
    for (v, a) in m.init_primals().iter() {
        x.insert((*v).clone(), *a);
    }
    (m.constraints().to_vec(), x)
}
