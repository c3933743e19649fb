//! Values of built expressions.
use numopt::model::*;
use std::collections::HashMap;

macro_rules! bin {
    ($i:ident, $s:ident, $a:ty, $b:ty, $op:tt, $va:expr, $vb:expr, $z:expr) => {
        pub fn $i(a: $a, b: $b, m: &HashMap<&Node, f64>) -> f64 {
            (a $op b).evaluate(m)
        }
        pub fn $s(a: $a, b: $b, m: &HashMap<&Node, f64>) -> f64 {
            let f: fn(&$a, &HashMap<&Node, f64>) -> f64 = $va;
            let g: fn(&$b, &HashMap<&Node, f64>) -> f64 = $vb;
            let z: fn(&$b) -> bool = $z;
            if z(&b) {
                panic!("undefined");
            }
            f(&a, m) $op g(&b, m)
        }
    };
}

// division by the constant zero is rejected
fn zero(b: &Node) -> bool {
    match b {
        Node::ConstantScalar(x) => x.value() == 0.,
        _ => false,
    }
}
fn zero_r(b: &&Node) -> bool { zero(*b) }
fn zero_n(b: &f64) -> bool { *b == 0. }
fn node(x: &Node, m: &HashMap<&Node, f64>) -> f64 { x.evaluate(m) }
fn node_r(x: &&Node, m: &HashMap<&Node, f64>) -> f64 { x.evaluate(m) }
fn number(x: &f64, _m: &HashMap<&Node, f64>) -> f64 { *x }

bin!(i_add_rr, s_add_rr, &Node, &Node, +, node_r, node_r, |_| false);
bin!(i_add_rn, s_add_rn, &Node, Node, +, node_r, node, |_| false);
bin!(i_add_nr, s_add_nr, Node, &Node, +, node, node_r, |_| false);
bin!(i_add_nn, s_add_nn, Node, Node, +, node, node, |_| false);
bin!(i_add_rf, s_add_rf, &Node, f64, +, node_r, number, |_| false);
bin!(i_add_nf, s_add_nf, Node, f64, +, node, number, |_| false);
bin!(i_add_fr, s_add_fr, f64, &Node, +, number, node_r, |_| false);
bin!(i_add_fn, s_add_fn, f64, Node, +, number, node, |_| false);

bin!(i_sub_rr, s_sub_rr, &Node, &Node, -, node_r, node_r, |_| false);
bin!(i_sub_rn, s_sub_rn, &Node, Node, -, node_r, node, |_| false);
bin!(i_sub_nr, s_sub_nr, Node, &Node, -, node, node_r, |_| false);
bin!(i_sub_nn, s_sub_nn, Node, Node, -, node, node, |_| false);
bin!(i_sub_rf, s_sub_rf, &Node, f64, -, node_r, number, |_| false);
bin!(i_sub_nf, s_sub_nf, Node, f64, -, node, number, |_| false);
bin!(i_sub_fr, s_sub_fr, f64, &Node, -, number, node_r, |_| false);
bin!(i_sub_fn, s_sub_fn, f64, Node, -, number, node, |_| false);

bin!(i_mul_rr, s_mul_rr, &Node, &Node, *, node_r, node_r, |_| false);
bin!(i_mul_rn, s_mul_rn, &Node, Node, *, node_r, node, |_| false);
bin!(i_mul_nr, s_mul_nr, Node, &Node, *, node, node_r, |_| false);
bin!(i_mul_nn, s_mul_nn, Node, Node, *, node, node, |_| false);
bin!(i_mul_rf, s_mul_rf, &Node, f64, *, node_r, number, |_| false);
bin!(i_mul_nf, s_mul_nf, Node, f64, *, node, number, |_| false);
bin!(i_mul_fr, s_mul_fr, f64, &Node, *, number, node_r, |_| false);
bin!(i_mul_fn, s_mul_fn, f64, Node, *, number, node, |_| false);

bin!(i_div_rr, s_div_rr, &Node, &Node, /, node_r, node_r, zero_r);
bin!(i_div_rn, s_div_rn, &Node, Node, /, node_r, node, zero);
bin!(i_div_nr, s_div_nr, Node, &Node, /, node, node_r, zero_r);
bin!(i_div_nn, s_div_nn, Node, Node, /, node, node, zero);
bin!(i_div_rf, s_div_rf, &Node, f64, /, node_r, number, zero_n);
bin!(i_div_nf, s_div_nf, Node, f64, /, node, number, zero_n);
bin!(i_div_fr, s_div_fr, f64, &Node, /, number, node_r, zero_r);
bin!(i_div_fn, s_div_fn, f64, Node, /, number, node, zero);

pub fn i_neg_r(a: &Node, m: &HashMap<&Node, f64>) -> f64 { (-a).evaluate(m) }
pub fn s_neg_r(a: &Node, m: &HashMap<&Node, f64>) -> f64 { -a.evaluate(m) }
pub fn i_neg_n(a: Node, m: &HashMap<&Node, f64>) -> f64 { (-a).evaluate(m) }
pub fn s_neg_n(a: Node, m: &HashMap<&Node, f64>) -> f64 { -a.evaluate(m) }
pub fn i_cos(a: &Node, m: &HashMap<&Node, f64>) -> f64 { a.cos().evaluate(m) }
pub fn s_cos(a: &Node, m: &HashMap<&Node, f64>) -> f64 { a.evaluate(m).cos() }
pub fn i_sin(a: &Node, m: &HashMap<&Node, f64>) -> f64 { a.sin().evaluate(m) }
pub fn s_sin(a: &Node, m: &HashMap<&Node, f64>) -> f64 { a.evaluate(m).sin() }

// leaves
pub fn i_const(v: f64, m: &HashMap<&Node, f64>) -> f64 { ConstantScalar::new(v).evaluate(m) }
pub fn s_const(v: f64, m: &HashMap<&Node, f64>) -> f64 { v }
pub fn i_var(x: &Node, m: &HashMap<&Node, f64>) -> f64 {
    match x {
        Node::VariableScalar(_) => x.evaluate(m),
        _ => 0.,
    }
}
pub fn s_var(x: &Node, m: &HashMap<&Node, f64>) -> f64 {
    match x {
        Node::VariableScalar(_) => match m.get(x) {
            Some(v) => *v,
            None => f64::NAN,
        },
        _ => 0.,
    }
}
