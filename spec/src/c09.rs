use crate::mstd::*;
use numopt::model::constraint_std::*;
use numopt::model::model_std::*;
use numopt::model::node_std::*;
use numopt::model::*;
use numopt::problem::base::Problem;
use std::collections::{HashMap, HashSet};

// the indexed variables
pub fn i_vars(m: &Model) -> HashSet<Node> {
    m.std_problem().var2index.keys().map(|v| v.clone()).collect()
}
pub fn s_vars(m: &Model) -> HashSet<Node> {
    let comp = m.std_components();
    let mut all = HashSet::new();
    for (v, _) in comp.obj.prop.a.iter() {
        all.insert(v.clone());
    }
    for p in comp.constr.prop.iter() {
        for (v, _) in p.a.iter() {
            all.insert(v.clone());
        }
    }
    all
}

// how many variables have each index
pub fn i_hits(m: &Model) -> Vec<usize> {
    let ix = m.std_problem().var2index;
    let mut hits = vec![0usize; ix.len()];
    for (_, i) in ix.iter() {
        hits[*i] += 1;
    }
    hits
}
pub fn s_hits(m: &Model) -> Vec<usize> { vec![1usize; m.std_problem().var2index.len()] }

// integrality flags
pub fn i_flags(m: &Model) -> Option<Vec<bool>> {
    match m.std_problem().prob {
        Problem::Minlp(p) => Some(p.p().to_vec()),
        Problem::Milp(p) => Some(p.p().to_vec()),
        _ => None,
    }
}
pub fn s_flags(m: &Model) -> Option<Vec<bool>> {
    let sp = m.std_problem();
    let mut flags = vec![false; sp.var2index.len()];
    for (v, i) in sp.var2index.iter() {
        if let Node::VariableScalar(x) = v {
            flags[*i] = x.is_integer();
        }
    }
    match sp.prob {
        Problem::Minlp(_) => Some(flags),
        Problem::Milp(_) => Some(flags),
        _ => None,
    }
}

// initial point
pub fn i_start(m: &Model) -> Option<Vec<f64>> { start(&m.std_problem().prob) }
pub fn s_start(m: &Model) -> Option<Vec<f64>> {
    let ix = m.std_problem().var2index;
    let mut x = vec![0f64; ix.len()];
    for (v, i) in ix.iter() {
        if let Some(val) = m.init_primals().get(v) {
            x[*i] = *val;
        }
    }
    Some(x)
}
