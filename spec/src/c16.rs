//! Sparse matrices.
use numopt::matrix::coo::CooMat;
use numopt::matrix::csr::CsrMat;

type Csr = (usize, usize, Vec<usize>, Vec<usize>, Vec<f64>);
type Coo = (usize, usize, usize, Vec<usize>, Vec<usize>, Vec<f64>);

fn csr(b: &CsrMat<f64>) -> Csr {
    (b.rows(), b.cols(), b.indptr().to_vec(), b.indices().to_vec(), b.data().to_vec())
}
fn coo(b: &CooMat<f64>) -> Coo {
    (b.rows(), b.cols(), b.nnz(), b.row_inds().to_vec(), b.col_inds().to_vec(), b.data().to_vec())
}

// constructors keep what they are given
pub fn i_new(shape: (usize, usize), r: Vec<usize>, c: Vec<usize>, d: Vec<f64>) -> Coo { coo(&CooMat::new(shape, r, c, d)) }
pub fn s_new(shape: (usize, usize), r: Vec<usize>, c: Vec<usize>, d: Vec<f64>) -> Coo {
    assert_eq!(r.len(), c.len());
    assert_eq!(r.len(), d.len());
    (shape.0, shape.1, r.len(), r, c, d)
}
pub fn i_pattern(shape: (usize, usize), r: Vec<usize>, c: Vec<usize>) -> Coo { coo(&CooMat::from_pattern(shape, r, c)) }
pub fn s_pattern(shape: (usize, usize), r: Vec<usize>, c: Vec<usize>) -> Coo {
    assert_eq!(r.len(), c.len());
    let d = vec![0f64; r.len()];
    (shape.0, shape.1, r.len(), r, c, d)
}
pub fn i_nnz(shape: (usize, usize), nnz: usize) -> Coo { coo(&CooMat::from_nnz(shape, nnz)) }
pub fn s_nnz(shape: (usize, usize), nnz: usize) -> Coo {
    (shape.0, shape.1, nnz, vec![0; nnz], vec![0; nnz], vec![0f64; nnz])
}
pub fn i_csr_new(shape: (usize, usize), p: Vec<usize>, c: Vec<usize>, d: Vec<f64>) -> (Csr, usize) {
    let b = CsrMat::new(shape, p, c, d);
    (csr(&b), b.nnz())
}
pub fn s_csr_new(shape: (usize, usize), p: Vec<usize>, c: Vec<usize>, d: Vec<f64>) -> (Csr, usize) {
    assert_eq!(p.len(), shape.0 + 1);
    assert_eq!(c.len(), d.len());
    assert_eq!(*p.last().unwrap(), d.len());
    let n = c.len();
    ((shape.0, shape.1, p, c, d), n)
}

// iteration visits the stored triplets in storage order
pub fn i_iter(a: &CooMat<f64>) -> Vec<(usize, usize, f64)> {
    let mut out = Vec::new();
    for (r, c, d) in a.iter() {
        out.push((*r, *c, *d));
    }
    out
}
pub fn s_iter(a: &CooMat<f64>) -> Vec<(usize, usize, f64)> {
    let mut out = Vec::new();
    for k in 0..a.nnz() {
        out.push((a.row_inds()[k], a.col_inds()[k], a.data()[k]));
    }
    out
}

// in-place updates change exactly one place
pub fn i_set_row(a: &mut CooMat<f64>, k: usize, v: usize) -> Coo { a.set_row_ind(k, v); coo(a) }
pub fn s_set_row(a: &mut CooMat<f64>, k: usize, v: usize) -> Coo {
    let (m, n, z, mut r, c, d) = coo(a);
    r[k] = v;
    (m, n, z, r, c, d)
}
pub fn i_set_col(a: &mut CooMat<f64>, k: usize, v: usize) -> Coo { a.set_col_ind(k, v); coo(a) }
pub fn s_set_col(a: &mut CooMat<f64>, k: usize, v: usize) -> Coo {
    let (m, n, z, r, mut c, d) = coo(a);
    c[k] = v;
    (m, n, z, r, c, d)
}
pub fn i_set_data(a: &mut CooMat<f64>, k: usize, v: f64) -> Coo { a.data_mut()[k] = v; coo(a) }
pub fn s_set_data(a: &mut CooMat<f64>, k: usize, v: f64) -> Coo {
    let (m, n, z, r, c, mut d) = coo(a);
    d[k] = v;
    (m, n, z, r, c, d)
}

// matrix-vector product
pub fn i_mul(a: &CooMat<f64>, x: Vec<f64>) -> Vec<f64> { a * x }
pub fn s_mul(a: &CooMat<f64>, x: Vec<f64>) -> Vec<f64> {
    assert_eq!(a.cols(), x.len());
    let mut y = vec![0f64; a.rows()];
    for k in 0..a.nnz() {
        y[a.row_inds()[k]] += a.data()[k] * x[a.col_inds()[k]];
    }
    y
}

// compressed rows: the same triplets grouped by row, in storage order
pub fn i_to_csr(a: &CooMat<f64>) -> Csr { csr(&a.to_csr()) }
pub fn s_to_csr(a: &CooMat<f64>) -> Csr {
    let m = a.rows();
    let nz = a.row_inds().len();
    let mut count = vec![0usize; m];
    for k in 0..nz {
        count[a.row_inds()[k]] += 1;
    }
    let mut start = vec![0usize; m + 1];
    for i in 0..m {
        start[i + 1] = start[i] + count[i];
    }
    let mut used = vec![0usize; m];
    let mut cols = vec![0usize; nz];
    let mut vals = vec![0f64; nz];
    for k in 0..nz {
        let r = a.row_inds()[k];
        cols[start[r] + used[r]] = a.col_inds()[k];
        vals[start[r] + used[r]] = a.data()[k];
        used[r] += 1;
    }
    (m, a.cols(), start, cols, vals)
}

// duplicates: entries of the same row and column are added, order of first
// appearance kept
pub fn i_sum(a: &mut CsrMat<f64>) -> Csr { a.sum_duplicates(); csr(a) }
pub fn s_sum(a: &mut CsrMat<f64>) -> Csr {
    let (m, n, p, c, d) = csr(a);
    let mut seen = vec![false; n];
    let mut inrow = vec![0usize; n];
    let mut pos = vec![0usize; n];
    let mut count = vec![0usize; m];
    let mut nc: Vec<usize> = Vec::new();
    let mut nd: Vec<f64> = Vec::new();
    let mut next = 0usize;
    for i in 0..m {
        for k in p[i]..p[i + 1] {
            let j = c[k];
            if seen[j] && inrow[j] == i {
                nd[pos[j]] += d[k];
            } else {
                pos[j] = next;
                next += 1;
                count[i] += 1;
                nc.push(j);
                nd.push(d[k]);
            }
            seen[j] = true;
            inrow[j] = i;
        }
    }
    let mut np = vec![0usize; m + 1];
    let mut off = 0usize;
    for (i, k) in count.iter().enumerate() {
        np[i + 1] = off + k;
        off += k;
    }
    (m, n, np, nc, nd)
}
