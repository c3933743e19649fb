//! Solver parameters.
use numopt::solver::*;
use numopt::solver::base::*;
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use numopt::solver::ipopt::SolverIpopt;
use std::collections::HashMap;

fn set(m: &mut HashMap<String, SolverParam>, name: &str, v: SolverParam) -> bool {
    let fits = match (m.get(name), &v) {
        (Some(SolverParam::IntParam(_)), SolverParam::IntParam(_)) => true,
        (Some(SolverParam::FloatParam(_)), SolverParam::FloatParam(_)) => true,
        (Some(SolverParam::StrParam(_)), SolverParam::StrParam(_)) => true,
        _ => false,
    };
    if fits {
        m.insert(name.to_string(), v);
    }
    fits
}
fn int(v: i32) -> SolverParam { SolverParam::IntParam(v) }
fn text(v: &str) -> SolverParam { SolverParam::StrParam(v.to_string()) }

pub fn i_set_cbc(s: &mut SolverCbcCmd, name: &str, v: SolverParam) -> bool { s.set_param(name, v).is_ok() }
pub fn s_set_cbc(s: &mut SolverCbcCmd, name: &str, v: SolverParam) -> bool { set(s.get_params_mut(), name, v) }
pub fn i_get_cbc(s: &SolverCbcCmd, name: &str) -> Option<SolverParam> { s.get_param(name).cloned() }
pub fn s_get_cbc(s: &SolverCbcCmd, name: &str) -> Option<SolverParam> { s.get_params().get(name).cloned() }
// reading back through the mutable view sees the same parameters
pub fn i_views_cbc(s: &mut SolverCbcCmd) -> HashMap<String, SolverParam> { s.get_params_mut().clone() }
pub fn s_views_cbc(s: &mut SolverCbcCmd) -> HashMap<String, SolverParam> { s.get_params().clone() }
pub fn i_new_cbc() -> HashMap<String, SolverParam> { SolverCbcCmd::new().get_params().clone() }
pub fn s_new_cbc() -> HashMap<String, SolverParam> {
    let mut m: HashMap<String, SolverParam> = HashMap::new();
    m.insert("logLevel".to_string(), int(5));
    m
}

pub fn i_set_clp(s: &mut SolverClpCmd, name: &str, v: SolverParam) -> bool { s.set_param(name, v).is_ok() }
pub fn s_set_clp(s: &mut SolverClpCmd, name: &str, v: SolverParam) -> bool { set(s.get_params_mut(), name, v) }
pub fn i_get_clp(s: &SolverClpCmd, name: &str) -> Option<SolverParam> { s.get_param(name).cloned() }
pub fn s_get_clp(s: &SolverClpCmd, name: &str) -> Option<SolverParam> { s.get_params().get(name).cloned() }
// reading back through the mutable view sees the same parameters
pub fn i_views_clp(s: &mut SolverClpCmd) -> HashMap<String, SolverParam> { s.get_params_mut().clone() }
pub fn s_views_clp(s: &mut SolverClpCmd) -> HashMap<String, SolverParam> { s.get_params().clone() }
pub fn i_new_clp() -> HashMap<String, SolverParam> { SolverClpCmd::new().get_params().clone() }
pub fn s_new_clp() -> HashMap<String, SolverParam> {
    let mut m: HashMap<String, SolverParam> = HashMap::new();
    m.insert("logLevel".to_string(), int(5));
    m
}

pub fn i_set_ipopt(s: &mut SolverIpopt, name: &str, v: SolverParam) -> bool { s.set_param(name, v).is_ok() }
pub fn s_set_ipopt(s: &mut SolverIpopt, name: &str, v: SolverParam) -> bool { set(s.get_params_mut(), name, v) }
pub fn i_get_ipopt(s: &SolverIpopt, name: &str) -> Option<SolverParam> { s.get_param(name).cloned() }
pub fn s_get_ipopt(s: &SolverIpopt, name: &str) -> Option<SolverParam> { s.get_params().get(name).cloned() }
// reading back through the mutable view sees the same parameters
pub fn i_views_ipopt(s: &mut SolverIpopt) -> HashMap<String, SolverParam> { s.get_params_mut().clone() }
pub fn s_views_ipopt(s: &mut SolverIpopt) -> HashMap<String, SolverParam> { s.get_params().clone() }
pub fn i_new_ipopt() -> HashMap<String, SolverParam> { SolverIpopt::new().get_params().clone() }
pub fn s_new_ipopt() -> HashMap<String, SolverParam> {
    let mut m: HashMap<String, SolverParam> = HashMap::new();
    m.insert("print_level".to_string(), int(5));
    m.insert("sb".to_string(), text("no"));
    m
}
