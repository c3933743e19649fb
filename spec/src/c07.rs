use numopt::model::constant::ConstantScalar;
use numopt::model::constraint::{Constraint, ConstraintKind};
use numopt::model::constraint_std::*;
use numopt::model::node_std::*;
use numopt::model::variable::VariableScalar;
use numopt::model::*;
use std::collections::{HashMap, HashSet};

fn bound(c: &Constraint, p: &NodeStdProp) -> bool {
    p.affine && p.a.len() == 1 && *p.a.values().next().unwrap() == 1. && *c.kind() != ConstraintKind::Equal
}
fn difference(c: &Constraint) -> NodeStdComp { (c.lhs() - c.rhs()).std_components() }
fn slack(t: &str, row: usize) -> Node { VariableScalar::new_continuous(format!("_s_{}{}_", t, row).as_str()) }

// row counters
pub fn i_rows(c: &Constraint, arow: usize, jrow: usize) -> (usize, usize) {
    let (mut a, mut j) = (arow, jrow);
    c.std_components(&mut a, &mut j);
    (a, j)
}
pub fn s_rows(c: &Constraint, arow: usize, jrow: usize) -> (usize, usize) {
    let p = difference(c).prop;
    if bound(c, &p) {
        (arow, jrow)
    } else if p.affine {
        (arow + 1, jrow)
    } else {
        (arow, jrow + 1)
    }
}

// bounds, of the variable or of the slack
pub fn i_bounds(c: &Constraint, arow: usize, jrow: usize) -> (Vec<(Node, f64, Constraint)>, Vec<(Node, f64, Constraint)>) {
    let (mut a, mut j) = (arow, jrow);
    let k = c.std_components(&mut a, &mut j);
    (k.u, k.l)
}
pub fn s_bounds(c: &Constraint, arow: usize, jrow: usize) -> (Vec<(Node, f64, Constraint)>, Vec<(Node, f64, Constraint)>) {
    let p = difference(c).prop;
    let (v, x) = if bound(c, &p) {
        (p.a.keys().next().unwrap().clone(), -p.b)
    } else if p.affine {
        (slack("a", arow), 0.)
    } else {
        (slack("j", jrow), 0.)
    };
    match c.kind() {
        ConstraintKind::LessEqual => (vec![(v, x, c.clone())], vec![]),
        ConstraintKind::GreaterEqual => (vec![], vec![(v, x, c.clone())]),
        ConstraintKind::Equal => (vec![], vec![]),
    }
}

// linear row: coefficients by row and variable, their number, right-hand side, origin
pub fn i_linear(c: &Constraint, arow: usize, jrow: usize) -> (HashMap<(usize, Node), f64>, usize, Vec<f64>, Vec<Constraint>) {
    let (mut a, mut j) = (arow, jrow);
    let k = c.std_components(&mut a, &mut j);
    let mut e = HashMap::new();
    for (r, v, x) in k.a.iter() {
        e.insert((*r, v.clone()), *x);
    }
    (e, k.a.len(), k.b, k.ca)
}
pub fn s_linear(c: &Constraint, arow: usize, jrow: usize) -> (HashMap<(usize, Node), f64>, usize, Vec<f64>, Vec<Constraint>) {
    let p = difference(c).prop;
    let mut e = HashMap::new();
    if bound(c, &p) || !p.affine {
        return (e, 0, vec![], vec![]);
    }
    let mut n = p.a.len();
    for (v, x) in p.a.iter() {
        e.insert((arow, v.clone()), *x);
    }
    if *c.kind() != ConstraintKind::Equal {
        e.insert((arow, slack("a", arow)), -1.);
        n += 1;
    }
    (e, n, vec![-p.b], vec![c.clone()])
}

// nonlinear row: function, gradient entries by row and variable, their number, Hessian, origin
type Row = (Vec<Node>, HashMap<(usize, Node), Node>, usize, Vec<Vec<(Node, Node, Node)>>, Vec<Constraint>);
fn entries(h: &Vec<(Node, Node, Node)>) -> Vec<(Node, Node, Node)> {
    h.iter().map(|e| (e.0.clone(), e.1.clone(), e.2.clone())).collect()
}
pub fn i_nonlinear(c: &Constraint, arow: usize, jrow: usize) -> Row {
    let (mut a, mut j) = (arow, jrow);
    let k = c.std_components(&mut a, &mut j);
    let mut e = HashMap::new();
    for (r, v, x) in k.j.iter() {
        e.insert((*r, v.clone()), x.clone());
    }
    (k.f, e, k.j.len(), k.h.iter().map(|h| entries(h)).collect(), k.cj)
}
pub fn s_nonlinear(c: &Constraint, arow: usize, jrow: usize) -> Row {
    let d = difference(c);
    let mut e = HashMap::new();
    if d.prop.affine {
        return (vec![], e, 0, vec![], vec![]);
    }
    let mut n = d.gphi.len();
    for (v, x) in d.gphi.iter() {
        e.insert((jrow, v.clone()), x.clone());
    }
    let mut f = d.phi;
    if *c.kind() != ConstraintKind::Equal {
        let s = slack("j", jrow);
        e.insert((jrow, s.clone()), ConstantScalar::new(-1.));
        n += 1;
        f = f - s;
    }
    (vec![f], e, n, vec![entries(&d.hphi)], vec![c.clone()])
}

// the variables handed on for indexing: those of the difference and the slack
pub fn i_vars(c: &Constraint, arow: usize, jrow: usize) -> HashSet<Node> {
    let (mut a, mut j) = (arow, jrow);
    let k = c.std_components(&mut a, &mut j);
    let mut vs = HashSet::new();
    for p in k.prop.iter() {
        for v in p.a.keys() {
            vs.insert(v.clone());
        }
    }
    vs
}
pub fn s_vars(c: &Constraint, arow: usize, jrow: usize) -> HashSet<Node> {
    let p = difference(c).prop;
    let mut vs = HashSet::new();
    for v in p.a.keys() {
        vs.insert(v.clone());
    }
    if bound(c, &p) || *c.kind() == ConstraintKind::Equal {
        return vs;
    }
    if p.affine {
        vs.insert(slack("a", arow));
    } else {
        vs.insert(slack("j", jrow));
    }
    vs
}
