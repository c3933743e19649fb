use crate::mstd::*;
use numopt::model::constraint::Constraint;
use numopt::model::constraint_std::*;
use numopt::model::model_std::*;
use numopt::model::*;
use numopt::problem::base::Problem;
use std::collections::HashMap;

pub fn i_linear(m: &Model) -> (Trip, Vec<f64>) { a_of(&m.std_problem().prob) }
pub fn s_linear(m: &Model) -> (Trip, Vec<f64>) {
    let k = m.std_components().constr;
    let ix = m.std_problem().var2index;
    let mut r = Vec::new();
    let mut c = Vec::new();
    let mut d = Vec::new();
    for (row, v, x) in k.a.iter() {
        r.push(*row);
        c.push(ix[v]);
        d.push(*x);
    }
    ((k.b.len(), ix.len(), r, c, d), k.b)
}

// structure of the nonlinear part
type Nonlin = (Trip, Trip, Vec<Trip>);
pub fn i_nonlinear(m: &Model) -> Option<Nonlin> {
    match m.std_problem().prob {
        Problem::Minlp(p) => Some((trip(p.hphi()), trip(p.j()), p.h().iter().map(|h| trip(h)).collect())),
        Problem::Nlp(p) => Some((trip(p.hphi()), trip(p.j()), p.h().iter().map(|h| trip(h)).collect())),
        _ => None,
    }
}
fn lower(h: &Vec<(Node, Node, Node)>, ix: &HashMap<Node, usize>) -> Trip {
    let (mut r, mut c, mut d) = (Vec::new(), Vec::new(), Vec::new());
    for (x, y, _) in h.iter() {
        r.push(if ix[y] > ix[x] { ix[y] } else { ix[x] });
        c.push(if ix[y] > ix[x] { ix[x] } else { ix[y] });
        d.push(0.);
    }
    (ix.len(), ix.len(), r, c, d)
}
pub fn s_nonlinear(m: &Model) -> Option<Nonlin> {
    let comp = m.std_components();
    let sp = m.std_problem();
    let ix = sp.var2index;
    let hphi = lower(&comp.obj.hphi, &ix);
    let k = comp.constr;
    let (mut r, mut c, mut d) = (Vec::new(), Vec::new(), Vec::new());
    for (row, v, _) in k.j.iter() {
        r.push(*row);
        c.push(ix[v]);
        d.push(0.);
    }
    let j = (k.f.len(), ix.len(), r, c, d);
    let h: Vec<Trip> = k.h.iter().map(|h| lower(h, &ix)).collect();
    match sp.prob {
        Problem::Minlp(_) => Some((hphi, j, h)),
        Problem::Nlp(_) => Some((hphi, j, h)),
        _ => None,
    }
}

pub fn i_rows(m: &Model) -> (HashMap<usize, Constraint>, HashMap<usize, Constraint>) {
    let s = m.std_problem();
    (s.aindex2constr, s.jindex2constr)
}
pub fn s_rows(m: &Model) -> (HashMap<usize, Constraint>, HashMap<usize, Constraint>) {
    let k = m.std_components().constr;
    let (mut a, mut j) = (HashMap::new(), HashMap::new());
    for (i, c) in k.ca.iter().enumerate() {
        a.insert(i, c.clone());
    }
    for (i, c) in k.cj.iter().enumerate() {
        j.insert(i, c.clone());
    }
    (a, j)
}
