//! Comparison builders and constraint violation.
use numopt::model::constraint::ConstraintKind;
use numopt::model::*;
use std::collections::HashMap;

pub struct Parts {
    pub kind: u8,
    pub left: Node,
    pub right: Node,
    pub tag: String,
}
fn parts(c: Constraint) -> Parts {
    Parts {
        kind: match c.kind() {
            ConstraintKind::Equal => 0,
            ConstraintKind::LessEqual => 1,
            ConstraintKind::GreaterEqual => 2,
        },
        left: c.lhs().clone(),
        right: c.rhs().clone(),
        tag: String::from(c.label()),
    }
}
pub fn i_equal_nf(a: &Node, b: f64) -> Parts { parts(<Node as NodeCmp<f64>>::equal(a, b)) }
pub fn s_equal_nf(a: &Node, b: f64) -> Parts { Parts { kind: 0, left: a.clone(), right: ConstantScalar::new(b), tag: String::from("") } }
pub fn i_equal_tag_nf(a: &Node, b: f64, t: &str) -> Parts { parts(<Node as NodeCmp<f64>>::equal_and_tag(a, b, t)) }
pub fn s_equal_tag_nf(a: &Node, b: f64, t: &str) -> Parts { Parts { kind: 0, left: a.clone(), right: ConstantScalar::new(b), tag: String::from(t) } }
pub fn i_equal_nn(a: &Node, b: Node) -> Parts { parts(<Node as NodeCmp<Node>>::equal(a, b)) }
pub fn s_equal_nn(a: &Node, b: Node) -> Parts { Parts { kind: 0, left: a.clone(), right: b.clone(), tag: String::from("") } }
pub fn i_equal_tag_nn(a: &Node, b: Node, t: &str) -> Parts { parts(<Node as NodeCmp<Node>>::equal_and_tag(a, b, t)) }
pub fn s_equal_tag_nn(a: &Node, b: Node, t: &str) -> Parts { Parts { kind: 0, left: a.clone(), right: b.clone(), tag: String::from(t) } }
pub fn i_equal_nr(a: &Node, b: &Node) -> Parts { parts(<Node as NodeCmp<&Node>>::equal(a, b)) }
pub fn s_equal_nr(a: &Node, b: &Node) -> Parts { Parts { kind: 0, left: a.clone(), right: b.clone(), tag: String::from("") } }
pub fn i_equal_tag_nr(a: &Node, b: &Node, t: &str) -> Parts { parts(<Node as NodeCmp<&Node>>::equal_and_tag(a, b, t)) }
pub fn s_equal_tag_nr(a: &Node, b: &Node, t: &str) -> Parts { Parts { kind: 0, left: a.clone(), right: b.clone(), tag: String::from(t) } }
pub fn i_equal_fn(a: &f64, b: Node) -> Parts { parts(<f64 as NodeCmp<Node>>::equal(a, b)) }
pub fn s_equal_fn(a: &f64, b: Node) -> Parts { Parts { kind: 0, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from("") } }
pub fn i_equal_tag_fn(a: &f64, b: Node, t: &str) -> Parts { parts(<f64 as NodeCmp<Node>>::equal_and_tag(a, b, t)) }
pub fn s_equal_tag_fn(a: &f64, b: Node, t: &str) -> Parts { Parts { kind: 0, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from(t) } }
pub fn i_equal_fr(a: &f64, b: &Node) -> Parts { parts(<f64 as NodeCmp<&Node>>::equal(a, b)) }
pub fn s_equal_fr(a: &f64, b: &Node) -> Parts { Parts { kind: 0, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from("") } }
pub fn i_equal_tag_fr(a: &f64, b: &Node, t: &str) -> Parts { parts(<f64 as NodeCmp<&Node>>::equal_and_tag(a, b, t)) }
pub fn s_equal_tag_fr(a: &f64, b: &Node, t: &str) -> Parts { Parts { kind: 0, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from(t) } }
pub fn i_leq_nf(a: &Node, b: f64) -> Parts { parts(<Node as NodeCmp<f64>>::leq(a, b)) }
pub fn s_leq_nf(a: &Node, b: f64) -> Parts { Parts { kind: 1, left: a.clone(), right: ConstantScalar::new(b), tag: String::from("") } }
pub fn i_leq_tag_nf(a: &Node, b: f64, t: &str) -> Parts { parts(<Node as NodeCmp<f64>>::leq_and_tag(a, b, t)) }
pub fn s_leq_tag_nf(a: &Node, b: f64, t: &str) -> Parts { Parts { kind: 1, left: a.clone(), right: ConstantScalar::new(b), tag: String::from(t) } }
pub fn i_leq_nn(a: &Node, b: Node) -> Parts { parts(<Node as NodeCmp<Node>>::leq(a, b)) }
pub fn s_leq_nn(a: &Node, b: Node) -> Parts { Parts { kind: 1, left: a.clone(), right: b.clone(), tag: String::from("") } }
pub fn i_leq_tag_nn(a: &Node, b: Node, t: &str) -> Parts { parts(<Node as NodeCmp<Node>>::leq_and_tag(a, b, t)) }
pub fn s_leq_tag_nn(a: &Node, b: Node, t: &str) -> Parts { Parts { kind: 1, left: a.clone(), right: b.clone(), tag: String::from(t) } }
pub fn i_leq_nr(a: &Node, b: &Node) -> Parts { parts(<Node as NodeCmp<&Node>>::leq(a, b)) }
pub fn s_leq_nr(a: &Node, b: &Node) -> Parts { Parts { kind: 1, left: a.clone(), right: b.clone(), tag: String::from("") } }
pub fn i_leq_tag_nr(a: &Node, b: &Node, t: &str) -> Parts { parts(<Node as NodeCmp<&Node>>::leq_and_tag(a, b, t)) }
pub fn s_leq_tag_nr(a: &Node, b: &Node, t: &str) -> Parts { Parts { kind: 1, left: a.clone(), right: b.clone(), tag: String::from(t) } }
pub fn i_leq_fn(a: &f64, b: Node) -> Parts { parts(<f64 as NodeCmp<Node>>::leq(a, b)) }
pub fn s_leq_fn(a: &f64, b: Node) -> Parts { Parts { kind: 1, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from("") } }
pub fn i_leq_tag_fn(a: &f64, b: Node, t: &str) -> Parts { parts(<f64 as NodeCmp<Node>>::leq_and_tag(a, b, t)) }
pub fn s_leq_tag_fn(a: &f64, b: Node, t: &str) -> Parts { Parts { kind: 1, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from(t) } }
pub fn i_leq_fr(a: &f64, b: &Node) -> Parts { parts(<f64 as NodeCmp<&Node>>::leq(a, b)) }
pub fn s_leq_fr(a: &f64, b: &Node) -> Parts { Parts { kind: 1, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from("") } }
pub fn i_leq_tag_fr(a: &f64, b: &Node, t: &str) -> Parts { parts(<f64 as NodeCmp<&Node>>::leq_and_tag(a, b, t)) }
pub fn s_leq_tag_fr(a: &f64, b: &Node, t: &str) -> Parts { Parts { kind: 1, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from(t) } }
pub fn i_geq_nf(a: &Node, b: f64) -> Parts { parts(<Node as NodeCmp<f64>>::geq(a, b)) }
pub fn s_geq_nf(a: &Node, b: f64) -> Parts { Parts { kind: 2, left: a.clone(), right: ConstantScalar::new(b), tag: String::from("") } }
pub fn i_geq_tag_nf(a: &Node, b: f64, t: &str) -> Parts { parts(<Node as NodeCmp<f64>>::geq_and_tag(a, b, t)) }
pub fn s_geq_tag_nf(a: &Node, b: f64, t: &str) -> Parts { Parts { kind: 2, left: a.clone(), right: ConstantScalar::new(b), tag: String::from(t) } }
pub fn i_geq_nn(a: &Node, b: Node) -> Parts { parts(<Node as NodeCmp<Node>>::geq(a, b)) }
pub fn s_geq_nn(a: &Node, b: Node) -> Parts { Parts { kind: 2, left: a.clone(), right: b.clone(), tag: String::from("") } }
pub fn i_geq_tag_nn(a: &Node, b: Node, t: &str) -> Parts { parts(<Node as NodeCmp<Node>>::geq_and_tag(a, b, t)) }
pub fn s_geq_tag_nn(a: &Node, b: Node, t: &str) -> Parts { Parts { kind: 2, left: a.clone(), right: b.clone(), tag: String::from(t) } }
pub fn i_geq_nr(a: &Node, b: &Node) -> Parts { parts(<Node as NodeCmp<&Node>>::geq(a, b)) }
pub fn s_geq_nr(a: &Node, b: &Node) -> Parts { Parts { kind: 2, left: a.clone(), right: b.clone(), tag: String::from("") } }
pub fn i_geq_tag_nr(a: &Node, b: &Node, t: &str) -> Parts { parts(<Node as NodeCmp<&Node>>::geq_and_tag(a, b, t)) }
pub fn s_geq_tag_nr(a: &Node, b: &Node, t: &str) -> Parts { Parts { kind: 2, left: a.clone(), right: b.clone(), tag: String::from(t) } }
pub fn i_geq_fn(a: &f64, b: Node) -> Parts { parts(<f64 as NodeCmp<Node>>::geq(a, b)) }
pub fn s_geq_fn(a: &f64, b: Node) -> Parts { Parts { kind: 2, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from("") } }
pub fn i_geq_tag_fn(a: &f64, b: Node, t: &str) -> Parts { parts(<f64 as NodeCmp<Node>>::geq_and_tag(a, b, t)) }
pub fn s_geq_tag_fn(a: &f64, b: Node, t: &str) -> Parts { Parts { kind: 2, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from(t) } }
pub fn i_geq_fr(a: &f64, b: &Node) -> Parts { parts(<f64 as NodeCmp<&Node>>::geq(a, b)) }
pub fn s_geq_fr(a: &f64, b: &Node) -> Parts { Parts { kind: 2, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from("") } }
pub fn i_geq_tag_fr(a: &f64, b: &Node, t: &str) -> Parts { parts(<f64 as NodeCmp<&Node>>::geq_and_tag(a, b, t)) }
pub fn s_geq_tag_fr(a: &f64, b: &Node, t: &str) -> Parts { Parts { kind: 2, left: ConstantScalar::new(*a), right: b.clone(), tag: String::from(t) } }

pub fn i_new(l: Node, k: ConstraintKind, r: Node, t: &str) -> Parts { parts(Constraint::new(l, k, r, t)) }
pub fn s_new(l: Node, k: ConstraintKind, r: Node, t: &str) -> Parts {
    Parts {
        kind: match k {
            ConstraintKind::Equal => 0,
            ConstraintKind::LessEqual => 1,
            ConstraintKind::GreaterEqual => 2,
        },
        left: l,
        right: r,
        tag: String::from(t),
    }
}
pub fn i_clone(c: &Constraint) -> Parts { parts(c.clone()) }
pub fn s_clone(c: &Constraint) -> Parts {
    Parts {
        kind: match c.kind() {
            ConstraintKind::Equal => 0,
            ConstraintKind::LessEqual => 1,
            ConstraintKind::GreaterEqual => 2,
        },
        left: c.lhs().clone(),
        right: c.rhs().clone(),
        tag: String::from(c.label()),
    }
}
pub fn i_viol(l: Node, k: ConstraintKind, r: Node, t: &str, m: &HashMap<&Node, f64>) -> f64 { Constraint::new(l, k, r, t).violation(m) }
pub fn s_viol(l: Node, k: ConstraintKind, r: Node, t: &str, m: &HashMap<&Node, f64>) -> f64 {
    let a = l.evaluate(m);
    let b = r.evaluate(m);
    match k {
        ConstraintKind::Equal => if a < b { b - a } else { a - b },
        ConstraintKind::LessEqual => if a > b { a - b } else { 0. },
        ConstraintKind::GreaterEqual => if b > a { b - a } else { 0. },
    }
}
