//! Which problem a command-line solver works on and how the program is run.
use numopt::problem::base::Problem;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::*;
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;

pub fn cbc_problem<'a>(s: &SolverCbcCmd, p: &'a mut Problem) -> Option<&'a mut ProblemMilp> {
    match p {
        Problem::Milp(x) => Some(x),
        Problem::Lp(x) => Some(x.as_mut_milp()),
        _ => None,
    }
}
pub fn clp_problem<'a>(s: &SolverClpCmd, p: &'a mut Problem) -> Option<&'a mut ProblemMilp> {
    match p {
        Problem::Lp(x) => Some(x.as_mut_milp()),
        _ => None,
    }
}
pub fn ipopt_problem<'a>(s: &SolverCbcCmd, p: &'a mut Problem) -> Option<&'a mut ProblemNlp> {
    match p {
        Problem::Nlp(x) => Some(x),
        Problem::Lp(x) => Some(x.as_mut_nlp()),
        _ => None,
    }
}
pub fn cbc_level(s: &SolverCbcCmd) -> Option<String> {
    match s.get_param("logLevel") {
        Some(SolverParam::IntParam(i)) => Some(format!("{}", i)),
        _ => None,
    }
}
pub fn clp_level(s: &SolverClpCmd) -> Option<String> {
    match s.get_param("logLevel") {
        Some(SolverParam::IntParam(i)) => Some(format!("{}", i)),
        _ => None,
    }
}
pub fn args(input: &str, level: &str, output: &str) -> Vec<String> {
    vec![input.to_string(), "logLevel".to_string(), level.to_string(), "printingOptions".to_string(), "all".to_string(),
         "solve".to_string(), "solution".to_string(), output.to_string()]
}
