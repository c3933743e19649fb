//! Panics of building, evaluating, differentiating and decomposing expressions.
use numopt::model::node_base::NodeBase;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_func::NodeFunc;
use numopt::model::node_std::{NodeStd, NodeStdComp, NodeStdProp};
use numopt::model::*;
use std::collections::HashMap;

// the constant zero
pub fn zero(b: &Node) -> bool {
    match b {
        Node::ConstantScalar(x) => x.value() == 0.,
        _ => false,
    }
}
// a quotient by the constant zero, which no operation builds
pub fn broken(r: &Node) -> bool {
    match r {
        Node::FunctionDiv(x) => zero(x.arguments()[1]),
        _ => false,
    }
}
pub fn divisor(n: &Node) -> &Node {
    match n {
        Node::FunctionDiv(x) => x.arguments()[1],
        _ => n,
    }
}
fn sound(n: &Node) {
    if broken(n) {
        panic!("excluded");
    }
}
macro_rules! op {
    ($i:ident, $s:ident, $a:ty, $b:ty, $op:tt, $ra:expr, $rb:expr, $z:expr, $za:expr, $zb:expr) => {
        // is the result a quotient by zero, or zero without need?
        pub fn $i(a: $a, b: $b) -> (bool, bool) {
            let f: fn(&$a) -> bool = $za;
            let g: fn(&$b) -> bool = $zb;
            let z = f(&a) || g(&b);
            let r = a $op b;
            (broken(&r), zero(&r) && !z)
        }
        pub fn $s(a: $a, b: $b) -> (bool, bool) {
            let f: fn(&$a) = $ra;
            let g: fn(&$b) = $rb;
            let h: fn(&$b) -> bool = $z;
            f(&a);
            g(&b);
            if h(&b) {
                panic!("division by zero");
            }
            (false, false)
        }
    };
}
fn ok_r(n: &&Node) { sound(*n) }
fn ok_n(n: &Node) { sound(n) }
fn ok_f(_x: &f64) {}
fn z_r(b: &&Node) -> bool { zero(*b) }
fn z_n(b: &Node) -> bool { zero(b) }
fn z_f(b: &f64) -> bool { *b == 0. }
op!(i_add_rr, s_add_rr, &Node, &Node, +, ok_r, ok_r, |_| false, |_| true, |_| true);
op!(i_add_rn, s_add_rn, &Node, Node, +, ok_r, ok_n, |_| false, |_| true, |_| true);
op!(i_add_nr, s_add_nr, Node, &Node, +, ok_n, ok_r, |_| false, |_| true, |_| true);
op!(i_add_nn, s_add_nn, Node, Node, +, ok_n, ok_n, |_| false, |_| true, |_| true);
op!(i_add_rf, s_add_rf, &Node, f64, +, ok_r, ok_f, |_| false, |_| true, |_| true);
op!(i_add_nf, s_add_nf, Node, f64, +, ok_n, ok_f, |_| false, |_| true, |_| true);
op!(i_add_fr, s_add_fr, f64, &Node, +, ok_f, ok_r, |_| false, |_| true, |_| true);
op!(i_add_fn, s_add_fn, f64, Node, +, ok_f, ok_n, |_| false, |_| true, |_| true);
op!(i_sub_rr, s_sub_rr, &Node, &Node, -, ok_r, ok_r, |_| false, |_| true, |_| true);
op!(i_sub_rn, s_sub_rn, &Node, Node, -, ok_r, ok_n, |_| false, |_| true, |_| true);
op!(i_sub_nr, s_sub_nr, Node, &Node, -, ok_n, ok_r, |_| false, |_| true, |_| true);
op!(i_sub_nn, s_sub_nn, Node, Node, -, ok_n, ok_n, |_| false, |_| true, |_| true);
op!(i_sub_rf, s_sub_rf, &Node, f64, -, ok_r, ok_f, |_| false, |_| true, |_| true);
op!(i_sub_nf, s_sub_nf, Node, f64, -, ok_n, ok_f, |_| false, |_| true, |_| true);
op!(i_sub_fr, s_sub_fr, f64, &Node, -, ok_f, ok_r, |_| false, |_| true, |_| true);
op!(i_sub_fn, s_sub_fn, f64, Node, -, ok_f, ok_n, |_| false, |_| true, |_| true);
op!(i_mul_rr, s_mul_rr, &Node, &Node, *, ok_r, ok_r, |_| false, z_r, z_r);
op!(i_mul_rn, s_mul_rn, &Node, Node, *, ok_r, ok_n, |_| false, z_r, z_n);
op!(i_mul_nr, s_mul_nr, Node, &Node, *, ok_n, ok_r, |_| false, z_n, z_r);
op!(i_mul_nn, s_mul_nn, Node, Node, *, ok_n, ok_n, |_| false, z_n, z_n);
op!(i_mul_rf, s_mul_rf, &Node, f64, *, ok_r, ok_f, |_| false, z_r, z_f);
op!(i_mul_nf, s_mul_nf, Node, f64, *, ok_n, ok_f, |_| false, z_n, z_f);
op!(i_mul_fr, s_mul_fr, f64, &Node, *, ok_f, ok_r, |_| false, z_f, z_r);
op!(i_mul_fn, s_mul_fn, f64, Node, *, ok_f, ok_n, |_| false, z_f, z_n);
op!(i_div_rr, s_div_rr, &Node, &Node, /, ok_r, ok_r, z_r, z_r, |_| false);
op!(i_div_rn, s_div_rn, &Node, Node, /, ok_r, ok_n, z_n, z_r, |_| false);
op!(i_div_nr, s_div_nr, Node, &Node, /, ok_n, ok_r, z_r, z_n, |_| false);
op!(i_div_nn, s_div_nn, Node, Node, /, ok_n, ok_n, z_n, z_n, |_| false);
op!(i_div_rf, s_div_rf, &Node, f64, /, ok_r, ok_f, z_f, z_r, |_| false);
op!(i_div_nf, s_div_nf, Node, f64, /, ok_n, ok_f, z_f, z_n, |_| false);
op!(i_div_fr, s_div_fr, f64, &Node, /, ok_f, ok_r, z_r, z_f, |_| false);
op!(i_div_fn, s_div_fn, f64, Node, /, ok_f, ok_n, z_n, z_f, |_| false);
pub fn i_neg_r(a: &Node) -> (bool, bool) {
    let z = zero(a);
    let r = -a;
    (broken(&r), zero(&r) && !z)
}
pub fn s_neg_r(a: &Node) -> (bool, bool) {
    sound(a);
    (false, false)
}
pub fn i_neg_n(a: Node) -> (bool, bool) {
    let z = zero(&a);
    let r = -a;
    (broken(&r), zero(&r) && !z)
}
pub fn s_neg_n(a: Node) -> (bool, bool) {
    sound(&a);
    (false, false)
}
pub fn i_cos(a: &Node) -> (bool, bool) {
    let z = zero(a);
    let r = a.cos();
    (broken(&r), false)
}
pub fn s_cos(a: &Node) -> (bool, bool) {
    sound(a);
    (false, false)
}
pub fn i_sin(a: &Node) -> (bool, bool) {
    let z = zero(a);
    let r = a.sin();
    (broken(&r), false)
}
pub fn s_sin(a: &Node) -> (bool, bool) {
    sound(a);
    (false, false)
}

// evaluation, arguments and partials of every kind of expression
pub fn i_evaluate(n: &Node, m: &HashMap<&Node, f64>) -> f64 { n.evaluate(m) }
pub fn i_evaluate_kinds(n: &Node, m: &HashMap<&Node, f64>) -> f64 {
    match n {
        Node::FunctionAdd(x) => x.evaluate(m),
        Node::FunctionCos(x) => x.evaluate(m),
        Node::FunctionDiv(x) => x.evaluate(m),
        Node::FunctionMul(x) => x.evaluate(m),
        Node::FunctionSin(x) => x.evaluate(m),
        _ => 0.,
    }
}
pub fn i_arguments(n: &Node) -> usize { n.arguments().len() }
pub fn i_partial(n: &Node, a: &Node) -> Node {
    sound(n);
    n.partial(a)
}
pub fn s_partial(n: &Node, _a: &Node) { sound(n) }

// derivatives and decomposition
fn only_variables(vars: &[&Node]) {
    for v in vars.iter() {
        match v {
            Node::VariableScalar(_) => {}
            _ => panic!("not a variable"),
        }
    }
}
pub fn i_paths(n: &Node, vars: &[&Node]) -> HashMap<Node, Vec<Vec<Node>>> { n.all_simple_paths(vars) }
pub fn i_derivatives(n: &Node, vars: &[&Node]) -> HashMap<Node, Node> { n.derivatives(vars) }
pub fn s_vars(_n: &Node, vars: &[&Node]) { only_variables(vars) }
pub fn i_derivative(n: &Node, v: &Node) -> Node { n.derivative(v) }
pub fn s_var(_n: &Node, v: &Node) { only_variables(&[v]) }
pub fn i_properties(n: &Node) -> NodeStdProp { n.std_properties() }
pub fn i_properties_kinds(n: &Node) -> Option<NodeStdProp> {
    match n {
        Node::FunctionAdd(x) => Some(x.std_properties()),
        Node::FunctionCos(x) => Some(x.std_properties()),
        Node::FunctionDiv(x) => Some(x.std_properties()),
        Node::FunctionMul(x) => Some(x.std_properties()),
        Node::FunctionSin(x) => Some(x.std_properties()),
        _ => None,
    }
}
pub fn i_components(n: &Node) -> NodeStdComp { n.std_components() }
pub fn s_any(_n: &Node) {}
pub fn s_any_m(_n: &Node, _m: &HashMap<&Node, f64>) {}
