//! What a model, its elements and its objective keep.
use numopt::model::constraint::{Constraint, ConstraintKind};
use numopt::model::constant::ConstantScalar;
use numopt::model::model::{Model, Objective};
use numopt::model::node::Node;
use numopt::model::variable::VariableScalar;
use numopt::solver::base::SolverStatus;
use std::collections::HashMap;

// direction, objective, constraints, initial values
type Kept = (u8, Option<Node>, Vec<Constraint>, HashMap<Node, f64>);
// status, final values, duals
type Results = (Option<u8>, HashMap<Node, f64>, HashMap<Constraint, f64>);

fn objective(o: &Objective) -> (u8, Option<Node>) {
    match o {
        Objective::Minimize(f) => (0, Some(f.clone())),
        Objective::Maximize(f) => (1, Some(f.clone())),
        Objective::Empty => (2, None),
    }
}
fn initial(m: &Model) -> HashMap<Node, f64> {
    let mut x = HashMap::new();
    for (v, a) in m.init_primals().iter() {
        x.insert((*v).clone(), *a);
    }
    x
}
fn kept(m: &Model) -> Kept {
    let (d, o) = objective(m.objective());
    (d, o, m.constraints().to_vec(), initial(m))
}
fn code(s: &SolverStatus) -> u8 {
    match s {
        SolverStatus::Solved => 0,
        SolverStatus::Infeasible => 1,
        SolverStatus::Unknown => 2,
        SolverStatus::Error => 3,
    }
}
fn results(m: &Model) -> Results {
    let mut p = HashMap::new();
    for (v, x) in m.final_primals().iter() {
        p.insert((*v).clone(), *x);
    }
    let mut d = HashMap::new();
    for (c, x) in m.final_duals().iter() {
        d.insert((*c).clone(), *x);
    }
    (m.solver_status().map(|s| code(s)), p, d)
}

// a new model is empty
pub fn i_new() -> (Kept, Results) {
    let m = Model::new();
    (kept(&m), results(&m))
}
pub fn s_new() -> (Kept, Results) { ((2, None, Vec::new(), HashMap::new()), (None, HashMap::new(), HashMap::new())) }

// objectives hold the given expression and direction
pub fn i_minimize(f: &Node) -> (u8, Option<Node>) { objective(&Objective::minimize(f)) }
pub fn s_minimize(f: &Node) -> (u8, Option<Node>) { (0, Some(f.clone())) }
pub fn i_maximize(f: &Node) -> (u8, Option<Node>) { objective(&Objective::maximize(f)) }
pub fn s_maximize(f: &Node) -> (u8, Option<Node>) { (1, Some(f.clone())) }
pub fn i_empty() -> (u8, Option<Node>) { objective(&Objective::empty()) }
pub fn s_empty() -> (u8, Option<Node>) { (2, None) }

// setting the objective replaces it and nothing else
pub fn i_set_objective(m: &mut Model, o: Objective) -> Kept {
    m.set_objective(o);
    kept(m)
}
pub fn s_set_objective(m: &mut Model, o: Objective) -> Kept {
    let (d, f) = objective(&o);
    (d, f, m.constraints().to_vec(), initial(m))
}

// a constraint is added after those already there
pub fn i_add(m: &mut Model, c: &Constraint) -> Kept {
    m.add_constraint(c);
    kept(m)
}
pub fn s_add(m: &mut Model, c: &Constraint) -> Kept {
    let (d, o) = objective(m.objective());
    let mut all = m.constraints().to_vec();
    all.push(c.clone());
    (d, o, all, initial(m))
}
pub fn i_add_all(m: &mut Model, cs: &[&Constraint]) -> Kept {
    m.add_constraints(cs);
    kept(m)
}
pub fn s_add_all(m: &mut Model, cs: &[&Constraint]) -> Kept {
    let (d, o) = objective(m.objective());
    let mut all = m.constraints().to_vec();
    for c in cs.iter() {
        all.push((*c).clone());
    }
    (d, o, all, initial(m))
}

// initial values are exactly the ones of the last call
pub fn i_initial(m: &mut Model, x: &HashMap<&Node, f64>) -> Kept {
    m.set_init_primals(x);
    kept(m)
}
pub fn s_initial(m: &mut Model, x: &HashMap<&Node, f64>) -> Kept {
    let (d, o) = objective(m.objective());
    let mut v = HashMap::new();
    for (k, a) in x.iter() {
        v.insert((*k).clone(), *a);
    }
    (d, o, m.constraints().to_vec(), v)
}

// variables and constants hold their name, kind and value
pub fn i_continuous(name: &str) -> (bool, String, bool, bool, bool) { about(VariableScalar::new_continuous(name)) }
pub fn s_continuous(name: &str) -> (bool, String, bool, bool, bool) { (true, String::from(name), true, false, false) }
pub fn i_integer(name: &str) -> (bool, String, bool, bool, bool) { about(VariableScalar::new_integer(name)) }
pub fn s_integer(name: &str) -> (bool, String, bool, bool, bool) { (true, String::from(name), false, true, false) }
fn about(v: Node) -> (bool, String, bool, bool, bool) {
    match &v {
        Node::VariableScalar(x) => (true, String::from(v.name()), x.is_continuous(), x.is_integer(), v.is_constant()),
        _ => (false, String::new(), false, false, false),
    }
}
pub fn i_constant(x: f64) -> (f64, bool, bool) {
    let c = ConstantScalar::new(x);
    let v = match &c {
        Node::ConstantScalar(y) => y.value(),
        _ => 1.,
    };
    (v, c.is_constant(), c.is_constant_with_value(7.))
}
pub fn s_constant(x: f64) -> (f64, bool, bool) { (x, true, x == 7.) }
pub fn i_zero() -> f64 {
    match ConstantScalar::zero() {
        Node::ConstantScalar(y) => y.value(),
        _ => 1.,
    }
}
pub fn s_zero() -> f64 { 0. }
// only constants are constant
pub fn i_is_constant(n: &Node, x: f64) -> (bool, bool) { (n.is_constant(), n.is_constant_with_value(x)) }
pub fn s_is_constant(n: &Node, x: f64) -> (bool, bool) {
    match n {
        Node::ConstantScalar(c) => (true, c.value() == x),
        _ => (false, false),
    }
}
// constraints hold their sides, relation and label
fn relation(k: &ConstraintKind) -> u8 {
    match k {
        ConstraintKind::Equal => 0,
        ConstraintKind::LessEqual => 1,
        ConstraintKind::GreaterEqual => 2,
    }
}
pub fn i_constraint(l: Node, k: ConstraintKind, r: Node, t: &str) -> (Node, u8, Node, String) {
    let c = Constraint::new(l, k, r, t);
    (c.lhs().clone(), relation(c.kind()), c.rhs().clone(), String::from(c.label()))
}
pub fn s_constraint(l: Node, k: ConstraintKind, r: Node, t: &str) -> (Node, u8, Node, String) { (l, relation(&k), r, String::from(t)) }

// the words a status is shown with
pub fn i_status(s: &SolverStatus) -> String { format!("{}", s) }
pub fn s_status(s: &SolverStatus) -> String {
    String::from(match s {
        SolverStatus::Solved => "solved",
        SolverStatus::Infeasible => "infeasible",
        SolverStatus::Unknown => "unknown",
        SolverStatus::Error => "error",
    })
}
pub fn i_same_status(a: &SolverStatus, b: &SolverStatus) -> bool { a == b }
pub fn s_same_status(a: &SolverStatus, b: &SolverStatus) -> bool { code(a) == code(b) }
