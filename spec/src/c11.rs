use crate::mstd::*;
use numopt::model::constraint::Constraint;
use numopt::model::constraint_std::*;
use numopt::model::model_std::*;
use numopt::model::*;
use std::collections::HashMap;

pub fn i_limits(m: &Model) -> (Vec<f64>, Vec<f64>) { limits(&m.std_problem().prob) }
pub fn s_limits(m: &Model) -> (Vec<f64>, Vec<f64>) {
    let k = m.std_components().constr;
    let ix = m.std_problem().var2index;
    let mut l = vec![-1e8; ix.len()];
    let mut u = vec![1e8; ix.len()];
    for (v, x, _) in k.u.iter() {
        if *x < u[ix[v]] {
            u[ix[v]] = *x;
        }
    }
    for (v, x, _) in k.l.iter() {
        if *x > l[ix[v]] {
            l[ix[v]] = *x;
        }
    }
    (l, u)
}
// the constraint named for a bounded variable attains its limit
pub fn i_maps(m: &Model) -> (HashMap<usize, Constraint>, HashMap<usize, Constraint>) {
    let s = m.std_problem();
    (s.lindex2constr, s.uindex2constr)
}
pub fn s_maps(m: &Model) -> (HashMap<usize, Constraint>, HashMap<usize, Constraint>) {
    let k = m.std_components().constr;
    let ix = m.std_problem().var2index;
    let mut l = vec![-1e8; ix.len()];
    let mut u = vec![1e8; ix.len()];
    let (mut lm, mut um) = (HashMap::new(), HashMap::new());
    for (v, x, c) in k.u.iter() {
        if *x <= u[ix[v]] {
            u[ix[v]] = *x;
            um.insert(ix[v], c.clone());
        }
    }
    for (v, x, c) in k.l.iter() {
        if *x >= l[ix[v]] {
            l[ix[v]] = *x;
            lm.insert(ix[v], c.clone());
        }
    }
    (lm, um)
}
