use numopt::model::constant::ConstantScalar;
use numopt::model::function::{add::FunctionAdd, cos::FunctionCos, div::FunctionDiv, mul::FunctionMul, sin::FunctionSin};
use numopt::model::node_base::NodeBase;
use numopt::model::node_std::*;
use numopt::model::*;
use std::collections::{HashMap, HashSet};

type Form = Option<(f64, HashMap<Node, f64>)>;

// what is observable of the properties: the affine form if affine, the variables in any case
fn form(p: NodeStdProp) -> Form { if p.affine { Some((p.b, p.a)) } else { None } }
fn keys(p: &NodeStdProp) -> HashSet<Node> {
    let mut s = HashSet::new();
    for (v, _) in p.a.iter() {
        s.insert(v.clone());
    }
    s
}
fn is_affine(n: &Node) -> bool { n.std_properties().affine }

// leaves and dispatch
pub fn i_node(n: &Node) -> NodeStdProp { n.std_properties() }
pub fn s_node(n: &Node) -> NodeStdProp {
    match n {
        Node::ConstantScalar(x) => NodeStdProp { affine: true, a: HashMap::new(), b: x.value() },
        Node::VariableScalar(_) => {
            let mut a = HashMap::new();
            a.insert(n.clone(), 1.);
            NodeStdProp { affine: true, a: a, b: 0. }
        }
        Node::FunctionAdd(x) => x.std_properties(),
        Node::FunctionCos(x) => x.std_properties(),
        Node::FunctionDiv(x) => x.std_properties(),
        Node::FunctionMul(x) => x.std_properties(),
        Node::FunctionSin(x) => x.std_properties(),
    }
}

macro_rules! vars {
    ($i:ident, $s:ident, $t:ty) => {
        pub fn $i(f: &$t) -> HashSet<Node> { keys(&f.std_properties()) }
        pub fn $s(f: &$t) -> HashSet<Node> {
            let mut s = HashSet::new();
            for x in f.arguments().iter() {
                for (v, _) in x.std_properties().a.iter() {
                    s.insert(v.clone());
                }
            }
            s
        }
    };
}
vars!(i_add_vars, s_add_vars, FunctionAdd);
vars!(i_mul_vars, s_mul_vars, FunctionMul);
vars!(i_div_vars, s_div_vars, FunctionDiv);
vars!(i_cos_vars, s_cos_vars, FunctionCos);
vars!(i_sin_vars, s_sin_vars, FunctionSin);

// sum of affine expressions
pub fn i_add(f: &FunctionAdd) -> Form { form(f.std_properties()) }
pub fn s_add(f: &FunctionAdd) -> Form {
    let mut a: HashMap<Node, f64> = HashMap::new();
    let mut b = 0.;
    let mut ok = true;
    for x in f.arguments().iter() {
        let p = x.std_properties();
        if !p.affine {
            ok = false;
        }
        b += p.b;
        for (v, c) in p.a.iter() {
            *a.entry(v.clone()).or_insert(0.) += *c;
        }
    }
    if ok { Some((b, a)) } else { None }
}

// product with a variable-free affine expression
pub fn i_mul(f: &FunctionMul) -> Form { form(f.std_properties()) }
pub fn s_mul(f: &FunctionMul) -> Form {
    let args = f.arguments();
    let (p, q) = (args[0].std_properties(), args[1].std_properties());
    if !p.affine || !q.affine {
        return None;
    }
    if q.a.len() == 0 {
        let mut a = HashMap::new();
        for (v, c) in p.a.iter() {
            a.insert(v.clone(), *c * q.b);
        }
        Some((p.b * q.b, a))
    } else if p.a.len() == 0 {
        let mut a = HashMap::new();
        for (v, c) in q.a.iter() {
            a.insert(v.clone(), *c * p.b);
        }
        Some((p.b * q.b, a))
    } else {
        None
    }
}

// quotient by a variable-free affine expression
pub fn i_div(f: &FunctionDiv) -> Form { form(f.std_properties()) }
pub fn s_div(f: &FunctionDiv) -> Form {
    let args = f.arguments();
    let (p, q) = (args[0].std_properties(), args[1].std_properties());
    if p.affine && q.affine && q.a.len() == 0 {
        let mut a = HashMap::new();
        for (v, c) in p.a.iter() {
            a.insert(v.clone(), *c / q.b);
        }
        Some((p.b / q.b, a))
    } else {
        None
    }
}

pub fn i_cos(f: &FunctionCos) -> Form { form(f.std_properties()) }
pub fn i_sin(f: &FunctionSin) -> Form { form(f.std_properties()) }
pub fn s_cos(f: &FunctionCos) -> Form { None }
pub fn s_sin(f: &FunctionSin) -> Form { None }
