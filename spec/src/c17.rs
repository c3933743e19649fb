//! The LP file of a problem.
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use std::fs::File;
use std::io::{self, BufWriter, Write};

pub fn i_write(p: &ProblemMilp, name: &str) -> io::Result<()> { p.write_to_lp_file(name) }

// a linear expression is one term per line, without the zeros
fn term(coef: f64, var: usize) -> String {
    let sign = if coef > 0. {
        '+'
    } else if coef < 0. {
        '-'
    } else {
        return String::new();
    };
    if coef.abs() == 1. {
        format!("     {} x_{}\n", sign, var)
    } else {
        format!("     {} {:.10e} x_{}\n", sign, coef.abs(), var)
    }
}

fn text(p: &ProblemMilp) -> String {
    let mut t = String::from("Minimize\n obj:\n");
    for i in 0..p.c().len() {
        t += &term(p.c()[i], i);
    }
    t += "Subject to\n";
    // every row with its coefficients, entries at the same place added up
    let mut a = p.a().to_csr();
    a.sum_duplicates();
    for i in 0..a.rows() {
        t += &format!("  c_{}:\n", i);
        for k in a.indptr()[i]..a.indptr()[i + 1] {
            t += &term(a.data()[k], a.indices()[k]);
        }
        t += &format!("     = {:.10e}\n", p.b()[i]);
    }
    t += "Bounds\n";
    for i in 0..p.nx() {
        t += &format!(" {:.10e} <= x_{} <= {:.10e}\n", p.l()[i], i, p.u()[i]);
    }
    t += "General\n";
    for i in 0..p.p().len() {
        if p.p()[i] {
            t += &format!(" x_{}\n", i);
        }
    }
    t += "End\n";
    t
}

pub fn s_write(p: &ProblemMilp, name: &str) -> io::Result<()> {
    let mut w = BufWriter::new(File::create(name)?);
    w.write_all(text(p).as_bytes())?;
    w.flush()
}
