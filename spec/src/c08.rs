use crate::mstd::*;
use numopt::model::constant::ConstantScalar;
use numopt::model::constraint_std::*;
use numopt::model::model::Objective;
use numopt::model::model_std::*;
use numopt::model::node_std::*;
use numopt::model::*;
use numopt::problem::base::Problem;

// the objective that is minimised
pub fn i_objective(m: &Model) -> NodeStdComp { m.std_components().obj }
pub fn s_objective(m: &Model) -> NodeStdComp {
    match m.objective() {
        Objective::Minimize(f) => f.std_components(),
        Objective::Maximize(f) => (-f).std_components(),
        Objective::Empty => ConstantScalar::new(0.).std_components(),
    }
}

// all constraints of the model, numbered consecutively from zero
pub fn i_constraints(m: &Model) -> ConstraintStdComp { m.std_components().constr }
pub fn s_constraints(m: &Model) -> ConstraintStdComp {
    let mut all = ConstraintStdComp::new();
    let (mut i, mut j) = (0usize, 0usize);
    for c in m.constraints().iter() {
        all += c.std_components(&mut i, &mut j);
    }
    all
}

// class of the problem: (integer, nonlinear)
pub fn i_class(m: &Model) -> (bool, bool) {
    match m.std_problem().prob {
        Problem::Minlp(_) => (true, true),
        Problem::Milp(_) => (true, false),
        Problem::Lp(_) => (false, false),
        Problem::Nlp(_) => (false, true),
    }
}
pub fn s_class(m: &Model) -> (bool, bool) {
    let comp = m.std_components();
    let nonlinear = !(comp.obj.prop.affine && comp.constr.f.len() == 0);
    let mut integer = false;
    for (v, _) in m.std_problem().var2index.iter() {
        if let Node::VariableScalar(x) = v {
            if x.is_integer() {
                integer = true;
            }
        }
    }
    (integer, nonlinear)
}

pub fn s_class_count(m: &Model) -> (bool, bool) {
    let comp = m.std_components();
    let nonlinear = !(comp.obj.prop.affine && comp.constr.f.len() == 0);
    let mut integer = 0usize;
    for (v, _) in m.std_problem().var2index.iter() {
        if let Node::VariableScalar(x) = v {
            if x.is_integer() {
                integer += 1;
            }
        }
    }
    (integer > 0, nonlinear)
}

// objective of the linear classes
pub fn i_linear(m: &Model) -> Option<Vec<f64>> {
    match m.std_problem().prob {
        Problem::Milp(p) => Some(p.c().to_vec()),
        Problem::Lp(p) => Some(p.c().to_vec()),
        _ => None,
    }
}
pub fn s_linear(m: &Model) -> Option<Vec<f64>> {
    let comp = m.std_components();
    let sp = m.std_problem();
    let mut c = vec![0f64; sp.var2index.len()];
    for (v, a) in comp.obj.prop.a.iter() {
        c[sp.var2index[v]] = *a;
    }
    match sp.prob {
        Problem::Milp(_) => Some(c),
        Problem::Lp(_) => Some(c),
        _ => None,
    }
}
