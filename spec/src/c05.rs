//! Identity of expressions and constraints.
use numopt::model::node::Node;
use std::rc::Rc;

pub fn i_eq(a: &Node, b: &Node) -> bool { a == b }
pub fn i_ne(a: &Node, b: &Node) -> bool { !(a != b) }

// the same object
pub fn s_eq(a: &Node, b: &Node) -> bool {
    match (a, b) {
        (Node::ConstantScalar(x), Node::ConstantScalar(y)) => Rc::ptr_eq(x, y),
        (Node::VariableScalar(x), Node::VariableScalar(y)) => Rc::ptr_eq(x, y),
        (Node::FunctionAdd(x), Node::FunctionAdd(y)) => Rc::ptr_eq(x, y),
        (Node::FunctionCos(x), Node::FunctionCos(y)) => Rc::ptr_eq(x, y),
        (Node::FunctionDiv(x), Node::FunctionDiv(y)) => Rc::ptr_eq(x, y),
        (Node::FunctionMul(x), Node::FunctionMul(y)) => Rc::ptr_eq(x, y),
        (Node::FunctionSin(x), Node::FunctionSin(y)) => Rc::ptr_eq(x, y),
        _ => false,
    }
}

pub fn i_clone(a: &Node) -> Node { a.clone() }
pub fn s_clone(a: &Node) -> &Node { a }
