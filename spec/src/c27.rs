//! Text of constraints and models.
use std::fmt::Write;
use numopt::model::constraint::{Constraint, ConstraintKind};
use numopt::model::model::{Model, Objective};

pub fn i_con(c: &Constraint) -> String {
    format!("{}", c)
}

pub fn s_con(c: &Constraint) -> String {
    let mut t = String::new();
    write!(t, "{}", c.lhs()).unwrap();
    t.push_str(match c.kind() {
        ConstraintKind::Equal => " == ",
        ConstraintKind::LessEqual => " <= ",
        ConstraintKind::GreaterEqual => " >= ",
    });
    write!(t, "{}", c.rhs()).unwrap();
    t
}

pub fn i_model(m: &Model) -> String {
    format!("{}", m)
}

pub fn s_model(m: &Model) -> String {
    let mut t = String::new();
    match m.objective() {
        Objective::Minimize(f) => write!(t, "\nMinimize\n{}\n", f).unwrap(),
        Objective::Maximize(f) => write!(t, "\nMaximize\n{}\n", f).unwrap(),
        Objective::Empty => t.push_str("\nFind point\n\n"),
    }
    if m.constraints().len() > 0 {
        t.push_str("\nSubject to\n");
    }
    for c in m.constraints() {
        write!(t, "{}", c).unwrap();
        if c.label().len() > 0 {
            t.push_str(" : ");
            t.push_str(c.label());
        }
        t.push_str("\n");
    }
    t
}
