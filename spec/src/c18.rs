//! What a solution file means.
use numopt::problem::base::ProblemSol;
use numopt::problem::milp::ProblemMilp;
use numopt::solver::base::SolverStatus;
use numopt::solver::cbc_cmd::SolverCbcCmd;
use std::fs::File;
use std::io::{self, BufRead, BufReader};

pub fn i_read(fname: &str, p: &ProblemMilp, cbc: bool) -> io::Result<(SolverStatus, ProblemSol)> {
    SolverCbcCmd::read_sol_file(fname, p, cbc)
}

pub enum Entry {
    Var(usize, f64, f64),
    Row(usize, f64),
}

// "<number> x_<index> <value> <multiplier>" or "<number> c_<index> <value> <multiplier>"
fn entry(l: &str, nx: usize, na: usize) -> Option<Entry> {
    let mut words = l.split_ascii_whitespace();
    let _number = words.next();
    let name = words.next()?;
    let value: f64 = words.next()?.parse().ok()?;
    let mul: f64 = words.next()?.parse().ok()?;
    let mut parts = name.split('_');
    let kind = parts.next()?;
    let index: usize = parts.next()?.parse().ok()?;
    if kind == "x" && index < nx {
        Some(Entry::Var(index, value, mul))
    } else if kind == "c" && index < na {
        Some(Entry::Row(index, mul))
    } else {
        None
    }
}

pub fn status(first: &str, cbc: bool) -> SolverStatus {
    match first.split_ascii_whitespace().next() {
        Some("Optimal") if cbc => SolverStatus::Solved,
        Some("Infeasible") if cbc => SolverStatus::Infeasible,
        Some("optimal") if !cbc => SolverStatus::Solved,
        Some("infeasible") if !cbc => SolverStatus::Infeasible,
        _ => SolverStatus::Error,
    }
}

pub fn s_read(fname: &str, p: &ProblemMilp, cbc: bool) -> io::Result<(SolverStatus, ProblemSol)> {
    let mut sol = ProblemSol::new(p.nx(), p.na(), 0);
    let file = match File::open(fname) {
        Ok(f) => f,
        Err(_) => return Ok((SolverStatus::Error, sol)),
    };
    let mut r = BufReader::new(file);
    let mut first = String::new();
    r.read_line(&mut first)?;
    let st = status(&first, cbc);
    if st != SolverStatus::Solved {
        return Ok((st, sol));
    }
    if !cbc {
        let mut objective = String::new();
        r.read_line(&mut objective)?;
    }
    for l in r.lines() {
        match entry(&l?, p.nx(), p.na()) {
            Some(Entry::Var(i, value, mul)) => {
                sol.x[i] = value;
                if mul > 0. {
                    sol.pi[i] = mul;
                } else {
                    sol.mu[i] = -mul;
                }
            }
            Some(Entry::Row(i, mul)) => sol.lam[i] = mul,
            None => return Err(io::Error::new(io::ErrorKind::Other, "bad solution file")),
        }
    }
    Ok((st, sol))
}
pub fn missing(p: &ProblemMilp) -> io::Result<(SolverStatus, ProblemSol)> {
    Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)))
}
