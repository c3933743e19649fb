use numopt::model::constant::ConstantScalar;
use numopt::model::function::{add::FunctionAdd, cos::FunctionCos, div::FunctionDiv, mul::FunctionMul, sin::FunctionSin};
use numopt::model::node_base::NodeBase;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_func::NodeFunc;
use numopt::model::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;

// chain rule at one operation: the sum over the argument occurrences of
// partial times derivative of the argument is the derivative of the operation
macro_rules! total {
    ($i:ident, $t:ty) => {
        pub fn $i(f: &$t, v: &Node) -> Node {
            let mut d = ConstantScalar::new(0.);
            for a in f.arguments() {
                d = d + f.partial(a) * a.derivative(v);
            }
            d
        }
    };
}
total!(i_add, FunctionAdd);
total!(i_mul, FunctionMul);
total!(i_div, FunctionDiv);
total!(i_cos, FunctionCos);
total!(i_sin, FunctionSin);
pub fn s_add(f: &FunctionAdd, v: &Node) -> Node {
    let mut d = ConstantScalar::new(0.);
    for a in f.arguments() {
        d = d + a.derivative(v);
    }
    d
}
pub fn s_mul(f: &FunctionMul, v: &Node) -> Node {
    let a = f.arguments();
    a[0].derivative(v) * a[1] + a[0] * a[1].derivative(v)
}
pub fn s_div(f: &FunctionDiv, v: &Node) -> Node {
    let a = f.arguments();
    a[0].derivative(v) / a[1] - a[0] * a[1].derivative(v) / (a[1] * a[1])
}
pub fn s_cos(f: &FunctionCos, v: &Node) -> Node {
    let a = f.arguments();
    -(a[0].sin() * a[0].derivative(v))
}
pub fn s_sin(f: &FunctionSin, v: &Node) -> Node {
    let a = f.arguments();
    a[0].cos() * a[0].derivative(v)
}

// the operation decides its arguments and partials
pub fn i_arguments(n: &Node) -> Vec<Node> { n.arguments().into_iter().map(|x| x.clone()).collect() }
pub fn s_arguments(n: &Node) -> Vec<Node> {
    match n {
        Node::ConstantScalar(_) => vec![],
        Node::VariableScalar(_) => vec![],
        Node::FunctionAdd(x) => x.arguments().into_iter().map(|x| x.clone()).collect(),
        Node::FunctionCos(x) => x.arguments().into_iter().map(|x| x.clone()).collect(),
        Node::FunctionDiv(x) => x.arguments().into_iter().map(|x| x.clone()).collect(),
        Node::FunctionMul(x) => x.arguments().into_iter().map(|x| x.clone()).collect(),
        Node::FunctionSin(x) => x.arguments().into_iter().map(|x| x.clone()).collect(),
    }
}
pub fn i_partial(n: &Node, a: &Node) -> Option<Node> {
    match n {
        Node::ConstantScalar(_) => None,
        Node::VariableScalar(_) => None,
        _ => Some(n.partial(a)),
    }
}
pub fn s_partial(n: &Node, a: &Node) -> Option<Node> {
    match n {
        Node::ConstantScalar(_) => None,
        Node::VariableScalar(_) => None,
        Node::FunctionAdd(x) => Some(x.partial(a)),
        Node::FunctionCos(x) => Some(x.partial(a)),
        Node::FunctionDiv(x) => Some(x.partial(a)),
        Node::FunctionMul(x) => Some(x.partial(a)),
        Node::FunctionSin(x) => Some(x.partial(a)),
    }
}

// a variable changes with itself alone, a constant with nothing
pub fn i_leaf(n: &Node, a: &Node) -> Option<Node> {
    match n {
        Node::ConstantScalar(_) | Node::VariableScalar(_) => Some(n.partial(a)),
        _ => None,
    }
}
pub fn s_leaf(n: &Node, a: &Node) -> Option<Node> {
    match n {
        Node::VariableScalar(x) => match a {
            Node::VariableScalar(y) if Rc::ptr_eq(x, y) => Some(ConstantScalar::new(1.)),
            _ => Some(ConstantScalar::new(0.)),
        },
        Node::ConstantScalar(_) => Some(ConstantScalar::new(0.)),
        _ => None,
    }
}

// only variables can be asked for
fn only_variables(vars: &[&Node]) {
    for v in vars.iter() {
        match v {
            Node::VariableScalar(_) => {}
            _ => panic!("not a variable"),
        }
    }
}

// all argument paths from an expression to the variables
pub fn i_paths(n: &Node, vars: &[&Node]) -> HashMap<Node, Vec<Vec<Node>>> { n.all_simple_paths(vars) }
pub fn s_paths(n: &Node, vars: &[&Node]) -> HashMap<Node, Vec<Vec<Node>>> {
    only_variables(vars);
    let varset: HashSet<&Node> = vars.iter().map(|x| *x).collect();
    let mut paths: HashMap<Node, Vec<Vec<Node>>> = HashMap::new();
    for v in varset.iter() {
        paths.insert((*v).clone(), Vec::new());
    }
    let mut todo: VecDeque<Vec<Node>> = VecDeque::new();
    todo.push_front(vec![n.clone()]);
    while let Some(path) = todo.pop_front() {
        let last = path.last().unwrap().clone();
        if let Node::VariableScalar(_) = last {
            if let Some(p) = paths.get_mut(&last) {
                p.push(path.clone());
            }
        }
        for a in last.arguments() {
            let mut longer = path.clone();
            longer.push(a.clone());
            todo.push_front(longer);
        }
    }
    paths
}

// derivative: sum over the paths of the products of partials along the path
pub fn i_derivatives(n: &Node, vars: &[&Node]) -> HashMap<Node, Node> { n.derivatives(vars) }
pub fn s_derivatives(n: &Node, vars: &[&Node]) -> HashMap<Node, Node> {
    only_variables(vars);
    let varset: HashSet<&Node> = vars.iter().map(|x| *x).collect();
    let paths = n.all_simple_paths(vars);
    let mut all = HashMap::new();
    for v in varset.iter() {
        let mut d = ConstantScalar::new(0.);
        for path in paths[*v].iter() {
            let mut p = ConstantScalar::new(1.);
            for k in 1..path.len() {
                p = p * path[k - 1].partial(&path[k]);
            }
            d = d + p;
        }
        all.insert((*v).clone(), d);
    }
    all
}
pub fn i_derivative(n: &Node, v: &Node) -> Node { n.derivative(v) }
pub fn s_derivative(n: &Node, v: &Node) -> Node { n.derivatives(&vec![v])[v].clone() }

// small expressions in which subexpressions are shared in different ways;
// any is looked at when the general argument does not go through
fn shared(k: usize, x: &Node, y: &Node) -> Node {
    let sx = x.sin();
    let sy = y.cos();
    match k {
        0 => x.clone(),
        1 => sx,
        2 => x * y,
        3 => x * x,
        4 => &sx * &sx,
        5 => x + y + x,
        6 => &(&sx * &sy) + &sx,
        7 => (&sx * &sx).sin() / (&sx * &sy),
        8 => {
            let a = &sx * y;
            let b = a.cos();
            &(&b * &b) + &(&a * &b.sin()) + x
        }
        9 => (x + y).sin() * (x + y).cos(),
        _ => {
            let a = x.sin().cos();
            let b = &a + &sx;
            (&b * &a).sin() + &b / y
        }
    }
}
fn xy() -> (Node, Node) { (VariableScalar::new_continuous("x"), VariableScalar::new_continuous("y")) }
macro_rules! small {
    ($i:ident, $s:ident, $k:expr) => { small!($i, $s, $k, x, y, [x y]); };
    ($i:ident, $s:ident, $k:expr, $x:ident, $y:ident, [$($v:ident)*]) => {
        pub fn $i() -> HashMap<Node, Vec<Vec<Node>>> { let ($x, $y) = xy(); shared($k, &$x, &$y).all_simple_paths(&[$(&$v),*]) }
        pub fn $s() -> HashMap<Node, Vec<Vec<Node>>> { let ($x, $y) = xy(); s_paths(&shared($k, &$x, &$y), &[$(&$v),*]) }
    };
}
small!(i_small_0, s_small_0, 0);
small!(i_small_1, s_small_1, 1);
small!(i_small_2, s_small_2, 2);
small!(i_small_3, s_small_3, 3);
small!(i_small_4, s_small_4, 4);
small!(i_small_5, s_small_5, 5);
small!(i_small_6, s_small_6, 6);
small!(i_small_7, s_small_7, 7);
small!(i_small_8, s_small_8, 8);
small!(i_small_9, s_small_9, 9);
small!(i_small_10, s_small_10, 10);
small!(i_small_11, s_small_11, 4, x, y, [y]);
small!(i_small_12, s_small_12, 7, x, y, [x]);
small!(i_small_13, s_small_13, 3, x, y, [x y x]);
