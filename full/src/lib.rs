//! Shared parts of the checks: generators of matrices and a small reference linear algebra on nested vectors.
use engine::G;
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};

pub type Rows = Vec<Vec<f64>>;

pub fn mat(r: &Rows, cols: usize) -> Matrix<f64> {
    let d: Vec<f64> = r.iter().flat_map(|x| x.iter().cloned()).collect();
    Matrix::new(r.len(), cols, d)
}
pub fn rows_of(m: &Matrix<f64>) -> Rows {
    (0..m.rows()).map(|i| m.data()[i * m.cols()..(i + 1) * m.cols()].to_vec()).collect()
}
pub fn vecd(v: &[f64]) -> Vector<f64> {
    Vector::new(v.to_vec())
}
pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
/// n rows of d values in [lo, hi]
pub fn gen_rows(g: &mut G, n: usize, d: usize, lo: f64, hi: f64) -> Rows {
    (0..n).map(|_| g.fs(d, lo, hi)).collect()
}
/// Rows of normals with column scales and offsets: generic position, no ties.
pub fn gen_generic(g: &mut G, n: usize, d: usize) -> Rows {
    let off = g.fs(d, -3., 3.);
    let sc: Vec<f64> = (0..d).map(|_| g.scale(-0.5, 0.5)).collect();
    (0..n).map(|_| (0..d).map(|j| off[j] + sc[j] * g.normal()).collect()).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn dist2(a: &[f64], b: &[f64]) -> f64 {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn transpose(a: &Rows) -> Rows {
    if a.is_empty() {
        return vec![];
    }
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
pub fn mul(a: &Rows, b: &Rows) -> Rows {
    a.iter().map(|r| (0..b[0].len()).map(|j| r.iter().zip(b).map(|(x, br)| x * br[j]).sum()).collect()).collect()
}
pub fn mulv(a: &Rows, v: &[f64]) -> Vec<f64> {
    a.iter().map(|r| dot(r, v)).collect()
}
/// Gaussian elimination with full pivoting on columns of rows; None when a pivot is relatively below tol.
pub fn solve_many(a: &Rows, b: &Rows, tol: f64) -> Option<Rows> {
    let n = a.len();
    let mut a = a.clone();
    let mut b = b.clone();
    let big = a.iter().flat_map(|r| r.iter()).fold(0f64, |m, x| m.max(x.abs()));
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a[i][k].abs().partial_cmp(&a[j][k].abs()).unwrap()).unwrap();
        if !(a[p][k].abs() > tol * big) {
            return None;
        }
        a.swap(k, p);
        b.swap(k, p);
        for i in 0..n {
            if i == k {
                continue;
            }
            let f = a[i][k] / a[k][k];
            if f != 0. {
                for j in k..n {
                    let t = a[k][j];
                    a[i][j] -= f * t;
                }
                for j in 0..b[i].len() {
                    let t = b[k][j];
                    b[i][j] -= f * t;
                }
            }
        }
    }
    for k in 0..n {
        let d = a[k][k];
        for x in &mut b[k] {
            *x /= d;
        }
    }
    Some(b)
}
pub fn solve(a: &Rows, b: &[f64], tol: f64) -> Option<Vec<f64>> {
    let bb: Rows = b.iter().map(|x| vec![*x]).collect();
    solve_many(a, &bb, tol).map(|r| r.into_iter().map(|x| x[0]).collect())
}
pub fn identity(n: usize) -> Rows {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1. } else { 0. }).collect()).collect()
}
pub fn inverse(a: &Rows, tol: f64) -> Option<Rows> {
    solve_many(a, &identity(a.len()), tol)
}
/// Determinant by elimination.
pub fn det(a: &Rows) -> f64 {
    let n = a.len();
    let mut a = a.clone();
    let mut d = 1.;
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a[i][k].abs().partial_cmp(&a[j][k].abs()).unwrap()).unwrap();
        if a[p][k] == 0. {
            return 0.;
        }
        if p != k {
            a.swap(k, p);
            d = -d;
        }
        d *= a[k][k];
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                let t = a[k][j];
                a[i][j] -= f * t;
            }
        }
    }
    d
}
/// Eigenvalues (descending) and eigenvectors (as rows) of a symmetric matrix, by cyclic Jacobi.
pub fn sym_eigen(m: &Rows) -> (Vec<f64>, Rows) {
    let n = m.len();
    let mut a = m.clone();
    let mut v = identity(n);
    for _ in 0..100 {
        let mut off = 0.;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a[i][j] * a[i][j];
                }
            }
        }
        let tot: f64 = a.iter().flat_map(|r| r.iter()).map(|x| x * x).sum();
        if off <= 1e-32 * tot {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q] == 0. {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2. * a[p][q]);
                let t = if th >= 0. { 1. } else { -1. } / (th.abs() + (th * th + 1.).sqrt());
                let c = 1. / (t * t + 1.).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[p][k], v[q][k]);
                    v[p][k] = c * x - s * y;
                    v[q][k] = s * x + c * y;
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| a[j][j].partial_cmp(&a[i][i]).unwrap());
    (idx.iter().map(|&i| a[i][i]).collect(), idx.iter().map(|&i| v[i].clone()).collect())
}
/// Ratio of extreme eigenvalues of a symmetric positive matrix (infinite when not positive).
pub fn sym_cond(m: &Rows) -> f64 {
    let (e, _) = sym_eigen(m);
    let (hi, lo) = (e[0], e[e.len() - 1]);
    if lo > 0. {
        hi / lo
    } else {
        f64::INFINITY
    }
}
pub fn col_means(r: &Rows) -> Vec<f64> {
    let n = r.len() as f64;
    (0..r[0].len()).map(|j| r.iter().map(|x| x[j]).sum::<f64>() / n).collect()
}
/// Sum over rows of (x-m)(x-m)^T
pub fn scatter(r: &Rows, m: &[f64]) -> Rows {
    let d = m.len();
    let mut s = vec![vec![0.; d]; d];
    for x in r {
        for i in 0..d {
            for j in 0..d {
                s[i][j] += (x[i] - m[i]) * (x[j] - m[j]);
            }
        }
    }
    s
}
pub fn permute<T: Clone>(v: &[T], p: &[usize]) -> Vec<T> {
    p.iter().map(|&i| v[i].clone()).collect()
}
