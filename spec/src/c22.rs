//! What the callbacks deliver to the native solver when they accept a call.
use numopt::problem::nlp::ProblemNlp;
use std::ffi::c_void;

unsafe fn at<'a>(x: *const f64, new_x: i32, ud: *mut c_void) -> &'a mut ProblemNlp {
    let p: &mut ProblemNlp = &mut *(ud as *mut ProblemNlp);
    if new_x == 1 {
        p.evaluate(std::slice::from_raw_parts(x, p.nx()));
    }
    p
}

pub extern "C" fn eval_f(_n: i32, x: *const f64, new_x: i32, obj: *mut f64, ud: *mut c_void) -> i32 {
    unsafe {
        let p = at(x, new_x, ud);
        *obj = p.phi();
    }
    1
}

pub extern "C" fn eval_grad_f(_n: i32, x: *const f64, new_x: i32, grad: *mut f64, ud: *mut c_void) -> i32 {
    unsafe {
        let p = at(x, new_x, ud);
        for k in 0..p.nx() {
            *grad.add(k) = p.gphi()[k];
        }
    }
    1
}

// A x - b, then f
pub extern "C" fn eval_g(_n: i32, x: *const f64, new_x: i32, _m: i32, g: *mut f64, ud: *mut c_void) -> i32 {
    unsafe {
        let p = at(x, new_x, ud);
        let xx = std::slice::from_raw_parts(x, p.nx());
        for i in 0..p.na() {
            let mut r = 0.;
            for (row, col, val) in p.a().iter() {
                if *row == i {
                    r += val * xx[*col];
                }
            }
            *g.add(i) = r - p.b()[i];
        }
        for i in 0..p.nf() {
            *g.add(p.na() + i) = p.f()[i];
        }
    }
    1
}

// entries of A, then those of J
pub extern "C" fn eval_jac_g(_n: i32, x: *const f64, new_x: i32, _m: i32, _nele: i32, irow: *mut i32, jcol: *mut i32, values: *mut f64, ud: *mut c_void) -> i32 {
    unsafe {
        if values.is_null() {
            let p: &mut ProblemNlp = &mut *(ud as *mut ProblemNlp);
            let mut k: usize = 0;
            for (row, col, _) in p.a().iter() {
                *irow.add(k) = *row as i32;
                *jcol.add(k) = *col as i32;
                k += 1;
            }
            for (row, col, _) in p.j().iter() {
                *irow.add(k) = *row as i32;
                *jcol.add(k) = *col as i32;
                k += 1;
            }
        } else {
            let p = at(x, new_x, ud);
            let mut k: usize = 0;
            for (_, _, val) in p.a().iter() {
                *values.add(k) = *val;
                k += 1;
            }
            for (_, _, val) in p.j().iter() {
                *values.add(k) = *val;
                k += 1;
            }
        }
    }
    1
}

// objective factor times the objective Hessian, then the combined constraint Hessian
// for the multipliers of the nonlinear rows
pub extern "C" fn eval_h(_n: i32, x: *const f64, new_x: i32, obj_factor: f64, _m: i32, lambda: *const f64, _new_lambda: i32, _nele: i32,
                         irow: *mut i32, jcol: *mut i32, values: *mut f64, ud: *mut c_void) -> i32 {
    unsafe {
        if values.is_null() {
            let p: &mut ProblemNlp = &mut *(ud as *mut ProblemNlp);
            let mut k: usize = 0;
            for (row, col, _) in p.hphi().iter() {
                *irow.add(k) = *row as i32;
                *jcol.add(k) = *col as i32;
                k += 1;
            }
            for (row, col, _) in p.hcomb().iter() {
                *irow.add(k) = *row as i32;
                *jcol.add(k) = *col as i32;
                k += 1;
            }
        } else {
            let p = at(x, new_x, ud);
            p.combine_h(std::slice::from_raw_parts(lambda.add(p.na()), p.nf()));
            let mut k: usize = 0;
            for (_, _, val) in p.hphi().iter() {
                *values.add(k) = obj_factor * *val;
                k += 1;
            }
            for (_, _, val) in p.hcomb().iter() {
                *values.add(k) = *val;
                k += 1;
            }
        }
    }
    1
}

// calls the library makes: buffers present, dimensions as announced, flags 0 or 1
unsafe fn sized(n: i32, ud: *mut c_void) -> bool {
    !ud.is_null() && n >= 0 && n as i128 == (*(ud as *mut ProblemNlp)).nx() as i128
}
unsafe fn rows(m: i32, ud: *mut c_void) -> bool {
    m >= 0 && m as i128 == ((*(ud as *mut ProblemNlp)).na() + (*(ud as *mut ProblemNlp)).nf()) as i128
}
fn flag(b: i32) -> bool {
    b == 0 || b == 1
}
pub fn call_eval_f(n: i32, x: *const f64, new_x: i32, obj: *mut f64, ud: *mut c_void) -> bool {
    unsafe { sized(n, ud) && flag(new_x) && !x.is_null() && !obj.is_null() }
}
pub fn call_eval_grad_f(n: i32, x: *const f64, new_x: i32, grad: *mut f64, ud: *mut c_void) -> bool {
    unsafe { sized(n, ud) && flag(new_x) && !x.is_null() && !grad.is_null() }
}
pub fn call_eval_g(n: i32, x: *const f64, new_x: i32, m: i32, g: *mut f64, ud: *mut c_void) -> bool {
    unsafe { sized(n, ud) && rows(m, ud) && flag(new_x) && !x.is_null() && !g.is_null() }
}
pub fn call_eval_jac_g(n: i32, x: *const f64, new_x: i32, m: i32, nele: i32, irow: *mut i32, jcol: *mut i32, values: *mut f64, ud: *mut c_void) -> bool {
    unsafe {
        sized(n, ud) && rows(m, ud)
            && nele >= 0 && nele as i128 == ((*(ud as *mut ProblemNlp)).a().nnz() + (*(ud as *mut ProblemNlp)).j().nnz()) as i128
            && if values.is_null() { new_x == 0 && x.is_null() && !irow.is_null() && !jcol.is_null() }
               else { flag(new_x) && !x.is_null() && irow.is_null() && jcol.is_null() }
    }
}
pub fn call_eval_h(n: i32, x: *const f64, new_x: i32, obj_factor: f64, m: i32, lambda: *const f64, new_lambda: i32, nele: i32,
                   irow: *mut i32, jcol: *mut i32, values: *mut f64, ud: *mut c_void) -> bool {
    unsafe {
        sized(n, ud) && rows(m, ud)
            && nele >= 0 && nele as i128 == ((*(ud as *mut ProblemNlp)).hphi().nnz() + (*(ud as *mut ProblemNlp)).hcomb().nnz()) as i128
            && if values.is_null() { new_x == 0 && new_lambda == 0 && x.is_null() && lambda.is_null() && !irow.is_null() && !jcol.is_null() }
               else { flag(new_x) && flag(new_lambda) && !x.is_null() && !lambda.is_null() && irow.is_null() && jcol.is_null() }
    }
}
