use crate::mstd::*;
use numopt::matrix::coo::CooMat;
use numopt::model::model_std::*;
use numopt::model::*;
use numopt::problem::base::Problem;
use std::collections::HashMap;

type Vals = (f64, Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>, Vec<Vec<f64>>);
pub fn i_nlp(m: &Model, wx: &[(f64, f64)]) -> Option<Vals> {
    let w: Vec<f64> = wx.iter().map(|p| p.0).collect();
    let x: Vec<f64> = wx.iter().map(|p| p.1).collect();
    match m.std_problem().prob {
        Problem::Nlp(mut p) => {
            p.evaluate(&w);
            p.evaluate(&x);
            Some((p.phi(), p.gphi().to_vec(), p.hphi().data().to_vec(), p.f().to_vec(), p.j().data().to_vec(),
                  p.h().iter().map(|h| h.data().to_vec()).collect()))
        }
        _ => None,
    }
}
pub fn i_minlp(m: &Model, wx: &[(f64, f64)]) -> Option<Vals> {
    let w: Vec<f64> = wx.iter().map(|p| p.0).collect();
    let x: Vec<f64> = wx.iter().map(|p| p.1).collect();
    match m.std_problem().prob {
        Problem::Minlp(mut p) => {
            p.evaluate(&w);
            p.evaluate(&x);
            Some((p.phi(), p.gphi().to_vec(), p.hphi().data().to_vec(), p.f().to_vec(), p.j().data().to_vec(),
                  p.h().iter().map(|h| h.data().to_vec()).collect()))
        }
        _ => None,
    }
}
fn vals(m: &Model, ix: &HashMap<Node, usize>, x: &[f64]) -> Vals {
    let comp = m.std_components();
    let k = comp.constr;
    let mut at: HashMap<&Node, f64> = HashMap::new();
    for (v, i) in ix.iter() {
        at.insert(v, x[*i]);
    }
    let mut g = vec![0.; ix.len()];
    for (v, e) in comp.obj.gphi.iter() {
        g[ix[v]] = e.evaluate(&at);
    }
    let hphi = comp.obj.hphi.iter().map(|(_, _, e)| e.evaluate(&at)).collect();
    let f = k.f.iter().map(|e| e.evaluate(&at)).collect();
    let j = k.j.iter().map(|(_, _, e)| e.evaluate(&at)).collect();
    let h = k.h.iter().map(|h| h.iter().map(|(_, _, e)| e.evaluate(&at)).collect()).collect();
    (comp.obj.phi.evaluate(&at), g, hphi, f, j, h)
}
pub fn s_nlp(m: &Model, wx: &[(f64, f64)]) -> Option<Vals> {
    let x: Vec<f64> = wx.iter().map(|p| p.1).collect();
    let sp = m.std_problem();
    match sp.prob {
        Problem::Nlp(_) => Some(vals(m, &sp.var2index, &x)),
        _ => None,
    }
}
pub fn s_minlp(m: &Model, wx: &[(f64, f64)]) -> Option<Vals> {
    let x: Vec<f64> = wx.iter().map(|p| p.1).collect();
    let sp = m.std_problem();
    match sp.prob {
        Problem::Minlp(_) => Some(vals(m, &sp.var2index, &x)),
        _ => None,
    }
}
