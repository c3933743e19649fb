use numopt::model::constant::ConstantScalar;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::*;
use numopt::model::*;
use std::collections::HashMap;

// the expression itself and its properties
pub fn i_phi(f: &Node) -> (Node, bool, f64, HashMap<Node, f64>) {
    let c = f.std_components();
    (c.phi, c.prop.affine, c.prop.b, c.prop.a)
}
pub fn s_phi(f: &Node) -> (Node, bool, f64, HashMap<Node, f64>) {
    let p = f.std_properties();
    (f.clone(), p.affine, p.b, p.a)
}

// gradient: exactly one entry per variable, its derivative
pub fn i_gradient(f: &Node) -> (usize, HashMap<Node, Node>) {
    let c = f.std_components();
    let mut g = HashMap::new();
    for (v, d) in c.gphi.iter() {
        g.insert(v.clone(), d.clone());
    }
    (c.gphi.len(), g)
}
pub fn s_gradient(f: &Node) -> (usize, HashMap<Node, Node>) {
    let p = f.std_properties();
    let mut g = HashMap::new();
    for (v, x) in p.a.iter() {
        if p.affine {
            g.insert(v.clone(), ConstantScalar::new(*x));
        } else {
            g.insert(v.clone(), f.derivative(v));
        }
    }
    (p.a.len(), g)
}

// Hessian: every unordered pair once unless the second derivative is constantly zero
pub fn i_hessian(f: &Node) -> Vec<(Node, Node, Node)> {
    f.std_components().hphi.iter().map(|e| (e.0.clone(), e.1.clone(), e.2.clone())).collect()
}
pub fn s_hessian(f: &Node) -> Vec<(Node, Node, Node)> {
    let p = f.std_properties();
    let mut h = Vec::new();
    if p.affine {
        return h;
    }
    let vars: Vec<&Node> = p.a.keys().collect();
    for i in 0..vars.len() {
        for j in i..vars.len() {
            let d = f.derivative(vars[i]).derivative(vars[j]);
            if !d.is_constant_with_value(0.) {
                h.push((vars[i].clone(), vars[j].clone(), d));
            }
        }
    }
    h
}
pub fn s_hessian_lower(f: &Node) -> Vec<(Node, Node, Node)> {
    let p = f.std_properties();
    let mut h = Vec::new();
    if p.affine {
        return h;
    }
    let vars: Vec<&Node> = p.a.keys().collect();
    for i in 0..vars.len() {
        for j in 0..i + 1 {
            let d = f.derivative(vars[i]).derivative(vars[j]);
            if !d.is_constant_with_value(0.) {
                h.push((vars[i].clone(), vars[j].clone(), d));
            }
        }
    }
    h
}
