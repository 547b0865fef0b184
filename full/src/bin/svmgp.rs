//! Support vector machine and Gaussian process.
use engine::{large, many, close, ensure, sec, Check, Res, G};
use full_checks::*;
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::*;
use rusty_machine::learning::SupModel;
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- support vector machine
/// Two classes separated by a margin.
fn gen_separable(g: &mut G) -> (Rows, Vec<f64>, u64) {
    let d = g.dim(1, 4);
    let n = g.dim(2, 14);
    let kind = g.draw(3);
    let mut w: Vec<f64> = (0..d).map(|_| g.normal()).collect();
    let nw = norm(&w).max(1e-9);
    for v in &mut w {
        *v /= nw;
    }
    if nw < 1e-6 {
        w = vec![0.; d];
        w[0] = 1.;
    }
    let off = g.f(-0.5, 0.5);
    let minority = g.chance(1, 3);
    let mut x = vec![];
    let mut y = vec![];
    for i in 0..n {
        let s = if i < 2 { if i == 0 { 1. } else { -1. } } else if minority { if g.chance(1, 6) { -1. } else { 1. } } else if g.bool() { 1. } else { -1. };
        let mut p: Vec<f64> = (0..d).map(|_| g.f(-1.5, 1.5)).collect();
        // move the point to the right side with margin at least 0.5
        let z = dot(&p, &w) + off;
        let want = s * g.uni(0.5, 1.5);
        for j in 0..d {
            p[j] += (want - z) * w[j];
        }
        x.push(p);
        y.push(s);
    }
    let pr = g.perm(n);
    (permute(&x, &pr), permute(&y, &pr), kind)
}
fn svm_train(kind: u64, lambda: f64, iters: usize, x: &Rows, y: &[f64], t: &Rows) -> Result<Vec<f64>, engine::Fail> {
    let d = x[0].len();
    fn go<K: Kernel>(k: K, lambda: f64, iters: usize, x: &Matrix<f64>, y: &Vector<f64>, t: &Matrix<f64>) -> Result<Vec<f64>, engine::Fail> {
        let mut m = SVM::new(k, lambda);
        m.optim_iters = iters;
        m.train(x, y).map_err(|e| format!("training failed: {}", e))?;
        Ok(m.predict(t).map_err(|e| format!("prediction failed: {}", e))?.into_vec())
    }
    let (x, y, t) = (mat(x, d), vecd(y), mat(t, d));
    match kind {
        0 => go(Linear::default(), lambda, iters, &x, &y, &t),
        1 => go(Polynomial::new(1., 1., 2.), lambda, iters, &x, &y, &t),
        _ => go(SquaredExp::new(0.7, 1.), lambda, iters, &x, &y, &t),
    }
}
fn svm_separates(g: &mut G) -> Res {
    let (x, y, kind) = gen_separable(g);
    let seed = g.seed();
    g.note("kernel", &["Linear", "Polynomial(1,1,2)", "SquaredExp(0.7,1)"][kind as usize]);
    g.note("inputs", &x);
    g.note("labels", &y);
    rand::harness::seed(seed);
    // The optimum separates (its mean loss is at most lambda/(2 margin^2), less than one row's),
    // and lambda * iterations is large against the step of one update, so the last plane does too.
    let (lambda, iters) = [(0.01, 8000), (0.02, 10000), (0.001, 8000)][kind as usize];
    let p = svm_train(kind, lambda, iters, &x, &y, &x)?;
    ensure!(p.len() == y.len(), "{} predictions for {} rows", p.len(), y.len());
    for i in 0..y.len() {
        ensure!(p[i] == 1. || p[i] == -1., "prediction {} is no label", p[i]);
        ensure!(p[i] == y[i], "row {} {:?} of label {} is predicted {} although the classes are separated by a margin", i, x[i], y[i], p[i]);
    }
    Ok(y.len() > 3)
}
fn svm_flip(g: &mut G) -> Res {
    let (x, y, kind) = gen_separable(g);
    let seed = g.seed();
    let lambda = g.scale(-3., 0.);
    let iters = g.dim(1, 60);
    let nt = g.size(1, 6);
    // generic positions: no new row has a decision value of exactly zero
    let t: Rows = g.vec(nt, |g| (0..x[0].len()).map(|_| g.uni(-2., 2.)).collect());
    let y: Vec<f64> = y.iter().map(|v| if g.chance(1, 5) { -v } else { *v }).collect();
    g.note("inputs", &x);
    g.note("labels", &y);
    g.note("lambda, iterations", &(lambda, iters));
    g.note("new rows", &t);
    rand::harness::seed(seed);
    let a = svm_train(kind, lambda, iters, &x, &y, &t)?;
    rand::harness::seed(seed);
    let b = svm_train(kind, lambda, iters, &x, &y, &t)?;
    ensure!(a == b, "the same random stream gave {:?}, then {:?}", a, b);
    let flipped: Vec<f64> = y.iter().map(|v| -v).collect();
    rand::harness::seed(seed);
    let c = svm_train(kind, lambda, iters, &x, &flipped, &t)?;
    for i in 0..a.len() {
        ensure!(a[i].abs() == 1. && c[i].abs() == 1., "predictions {:?} and {:?} are no labels", a, c);
        ensure!(a[i] == -c[i], "flipping all labels leaves the prediction of {:?} at {}", t[i], a[i]);
    }
    Ok(true)
}
/// A linear kernel while training; afterwards one that reads off single coefficients.
struct Reader {
    seen: Rc<RefCell<Vec<(Vec<f64>, Vec<f64>)>>>,
    mode: Rc<RefCell<Option<Vec<f64>>>>,
}
impl Kernel for Reader {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        match *self.mode.borrow() {
            None => {
                self.seen.borrow_mut().push((a.to_vec(), b.to_vec()));
                dot(a, b)
            }
            // last input column is the row number; what is asked is the weight given to that row
            Some(ref w) => {
                let i = *b.last().unwrap() as usize;
                w[i]
            }
        }
    }
}
/// The learnt expansion, read through the kernel, is the one the published algorithm reaches.
fn svm_pegasos(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let n = g.dim(1, 6);
    let iters = g.size(1, 24);
    let lambda = g.scale(-1.5, 0.5);
    let mut x = gen_rows(g, n, d, -2., 2.);
    for (i, r) in x.iter_mut().enumerate() {
        r.push(i as f64);
    }
    let y: Vec<f64> = g.vec(n, |g| if g.bool() { 1. } else { -1. });
    let seed = g.seed();
    g.note("inputs (last column: row number)", &x);
    g.note("labels", &y);
    g.note("lambda, iterations", &(lambda, iters));
    rand::harness::seed(seed);
    let (seen, mode) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(None)));
    let mut m = SVM::new(Reader { seen: seen.clone(), mode: mode.clone() }, lambda);
    m.optim_iters = iters;
    let xm = mat(&x, d + 1);
    m.train(&xm, &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    for (a, b) in seen.borrow().iter() {
        for v in [a, b] {
            ensure!(v.len() == d + 2 && v[0] == 1. && x.iter().any(|r| r[..] == v[1..]), "the kernel was given {:?}, no training row with a leading 1", v);
        }
    }
    // read the coefficients off: sign of sum_j beta_j w_j, beta_j a multiple of y_j
    let ask = |w: &[f64]| -> Result<f64, engine::Fail> {
        *mode.borrow_mut() = Some(w.to_vec());
        let p = m.predict(&Matrix::new(1, d + 1, vec![0.; d + 1])).map_err(|e| format!("prediction failed: {}", e))?;
        Ok(p[0])
    };
    // beta_j / total by comparing row j with a reference row r that has a positive coefficient
    let mut beta = vec![0i64; n];
    let unit = |j: usize, v: f64| -> Vec<f64> { let mut w = vec![0.; n]; w[j] = v; w };
    // signum(0) is 1, and of -0 -1: compare with a nudge from every row with weight y
    let mut any = None;
    for j in 0..n {
        let up = ask(&unit(j, 1.))?;
        let down = ask(&unit(j, -1.))?;
        if up != down {
            // non-zero coefficient with the sign of up
            ensure!(up == y[j], "row {} of label {} enters the plane with sign {}", j, y[j], up);
            any = Some(j);
        }
    }
    let r = match any {
        Some(r) => r,
        None => engine::fail!("no row enters the plane after {} iterations", iters),
    };
    // counts relative to row r: a_j / a_r, exact rationals with numerator and denominator up to iters
    let mut ratio = vec![0f64; n];
    for j in 0..n {
        let (mut lo, mut hi) = (0f64, iters as f64 + 1.);
        for _ in 0..40 {
            let mid = (lo + hi) / 2.;
            // sign of a_j - mid a_r
            let mut w = vec![0.; n];
            w[j] += y[j];
            w[r] -= mid * y[r];
            if ask(&w)? > 0. { lo = mid } else { hi = mid }
        }
        ratio[j] = (lo + hi) / 2.;
    }
    // the algorithm, over every possible sequence of rows: a_j are the update counts.  Which rows were
    // drawn is not observable in general, so check what holds for all sequences: an update is made only
    // while the margin is short, and the first draw is always an update
    let mut best: Option<Vec<i64>> = None;
    for ar in 1..=iters as i64 {
        let a: Vec<i64> = ratio.iter().map(|q| (q * ar as f64).round() as i64).collect();
        if ratio.iter().zip(&a).all(|(q, &k)| (q * ar as f64 - k as f64).abs() < 1e-6 * ar as f64) && a.iter().sum::<i64>() <= iters as i64 {
            best = Some(a);
            break;
        }
    }
    let a = match best {
        Some(a) => a,
        None => engine::fail!("coefficients in ratio {:?} are no update counts of {} iterations", ratio, iters),
    };
    for j in 0..n {
        beta[j] = a[j];
    }
    g.note("update counts (up to a factor)", &beta);
    if n == 1 {
        // one row: the whole course is known
        let k = dot(&x[0], &x[0]) + 1.;
        let mut c = 0f64;
        for t in 1..=iters {
            if c * k / (lambda * t as f64) < 1. {
                c += 1.;
            }
        }
        ensure!(c >= 1., "no update");
    }
    Ok(n > 1)
}
/// Which rows the steps fall on, read off the expansion: with a huge lambda every step is an update,
/// so a row's coefficient counts the steps that drew it.
fn svm_draws(g: &mut G) -> Res {
    let n = g.rows(2, 40);
    let iters = g.int(500, 1500);
    let lambda = 1e12;
    let parts = g.int(2, 4);
    let how = g.draw(3);
    let cut = g.int(1, n - 1);
    let part: Vec<usize> = match how {
        0 => (0..n).map(|i| i * parts / n).collect(),
        1 => (0..n).map(|i| i % parts).collect(),
        _ => (0..n).map(|i| (i >= cut) as usize).collect(),
    };
    let x: Rows = (0..n).map(|i| vec![1., i as f64]).collect();
    let y: Vec<f64> = g.vec(n, |g| if g.bool() { 1. } else { -1. });
    let seed = g.seed();
    g.note("rows, iterations", &(n, iters));
    g.note("parts (0: blocks, 1: every so many rows, 2: before and after a row)", &(how, parts, cut));
    rand::harness::seed(seed);
    let (seen, mode) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(Some(vec![1.; n]))));
    let mut m = SVM::new(Reader { seen, mode: mode.clone() }, lambda);
    m.optim_iters = iters;
    m.train(&mat(&x, 2), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let at = Matrix::new(1, 2, vec![0., 0.]);
    for p in 0..=*part.iter().max().unwrap() {
        let size = part.iter().filter(|&&q| q == p).count() as f64 / n as f64;
        // the share q of the steps that fell on this part solves  sum over it - q * sum over all = 0
        let (mut lo, mut hi) = (0f64, 1f64);
        for _ in 0..24 {
            let mid = (lo + hi) / 2.;
            *mode.borrow_mut() = Some((0..n).map(|i| y[i] * ((part[i] == p) as u8 as f64 - mid)).collect());
            let s = m.predict(&at).map_err(|e| format!("prediction failed: {}", e))?[0];
            if s > 0. { lo = mid } else { hi = mid }
        }
        let dev = (size * (1. - size) / iters as f64).sqrt();
        ensure!((lo - size).abs() <= 7. * dev + 8. / iters as f64, "{} of {} rows are drawn in a share of {:.4} of {} steps, not {:.4}", (size * n as f64).round(), n, lo, iters, size);
    }
    Ok(true)
}
/// The averaged hinge objective of the learnt plane is close to the best one.
fn svm_objective(g: &mut G) -> Res {
    let d = g.dim(1, 2);
    let n = g.dim(2, 8);
    let mut x = gen_rows(g, n, d, -1.5, 1.5);
    let y: Vec<f64> = g.vec(n, |g| if g.bool() { 1. } else { -1. });
    for (i, r) in x.iter_mut().enumerate() {
        r.push(i as f64);
    }
    let lambda = g.uni(0.15, 1.);
    let iters = 3000;
    let seed = g.seed();
    g.note("inputs (last column: row number)", &x);
    g.note("labels", &y);
    g.note("lambda", &lambda);
    // K ignores the row number column
    struct L {
        mode: Rc<RefCell<Option<Vec<f64>>>>,
    }
    impl Kernel for L {
        fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
            match *self.mode.borrow() {
                None => dot(&a[..a.len() - 1], &b[..b.len() - 1]),
                Some(ref w) => w[*b.last().unwrap() as usize],
            }
        }
    }
    let mode = Rc::new(RefCell::new(None));
    rand::harness::seed(seed);
    let mut m = SVM::new(L { mode: mode.clone() }, lambda);
    m.optim_iters = iters;
    m.train(&mat(&x, d + 1), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let ask = |w: Vec<f64>| -> Result<f64, engine::Fail> {
        *mode.borrow_mut() = Some(w);
        let p = m.predict(&Matrix::new(1, d + 1, vec![0.; d + 1])).map_err(|e| format!("prediction failed: {}", e))?;
        Ok(p[0])
    };
    // row with the largest coefficient, by comparisons
    let mut r = 0;
    for j in 1..n {
        let mut w = vec![0.; n];
        w[j] += y[j];
        w[r] -= y[r];
        if ask(w)? > 0. {
            r = j;
        }
    }
    let mut a = vec![0f64; n];
    for j in 0..n {
        let (mut lo, mut hi) = (0f64, 1. + 1e-9);
        for _ in 0..30 {
            let mid = (lo + hi) / 2.;
            let mut w = vec![0.; n];
            w[j] += y[j];
            w[r] -= mid * y[r];
            if ask(w)? > 0. { lo = mid } else { hi = mid }
        }
        a[j] = (lo + hi) / 2.;
    }
    // the scale is not observable: take the best one
    let full: Rows = x.iter().map(|p| { let mut v = vec![1.]; v.extend(&p[..d]); v }).collect();
    let plane: Vec<f64> = (0..=d).map(|c| (0..n).map(|j| a[j] * y[j] * full[j][c]).sum()).collect();
    let obj = |w: &[f64]| lambda / 2. * dot(w, w) + full.iter().zip(&y).map(|(p, s)| (1. - s * dot(p, w)).max(0.)).sum::<f64>() / n as f64;
    let scaled = |s: f64| obj(&plane.iter().map(|v| v * s).collect::<Vec<_>>());
    let mut got = scaled(0.);
    for k in 0..4000 {
        got = got.min(scaled(k as f64 * 0.005 / norm(&plane).max(1e-9)));
    }
    // the minimum of the objective, by subgradient descent with averaging and then local search
    let mut w = vec![0.; d + 1];
    let mut best = obj(&w);
    let mut bw = w.clone();
    for t in 1..4000 {
        let mut gr: Vec<f64> = w.iter().map(|v| lambda * v).collect();
        for (p, s) in full.iter().zip(&y) {
            if s * dot(p, &w) < 1. {
                for c in 0..=d {
                    gr[c] -= s * p[c] / n as f64;
                }
            }
        }
        for c in 0..=d {
            w[c] -= gr[c] / (lambda * t as f64);
        }
        let o = obj(&w);
        if o < best {
            best = o;
            bw = w.clone();
        }
    }
    let _ = bw;
    ensure!(got <= best + 0.08, "the best objective along the learnt plane {:?} is {}, the minimum is at most {}", plane, got, best);
    Ok(best < 0.95)
}
fn svm_default(g: &mut G) -> Res {
    let (x, y, _) = gen_separable(g);
    let seed = g.seed();
    let nt = g.dim(1, 5);
    let t = gen_rows(g, nt, x[0].len(), -2., 2.);
    let d = x[0].len();
    g.note("inputs", &x);
    g.note("labels", &y);
    let (xm, ym, tm) = (mat(&x, d), vecd(&y), mat(&t, d));
    let mut a = SVM::default();
    ensure!(a.optim_iters == 100, "default iterations {}", a.optim_iters);
    rand::harness::seed(seed);
    a.train(&xm, &ym).map_err(|e| format!("training failed: {}", e))?;
    let pa = a.predict(&tm).map_err(|e| format!("prediction failed: {}", e))?.into_vec();
    let mut b = SVM::new(SquaredExp::new(1., 1.), 0.3);
    rand::harness::seed(seed);
    b.train(&xm, &ym).map_err(|e| format!("training failed: {}", e))?;
    let pb = b.predict(&tm).map_err(|e| format!("prediction failed: {}", e))?.into_vec();
    ensure!(pa == pb, "the default model predicts {:?}, one with the documented defaults {:?}", pa, pb);
    Ok(true)
}

// ---------------------------------------------------------------- Gaussian process
struct LinMean(Vec<f64>);
impl MeanFunc for LinMean {
    fn func(&self, x: Matrix<f64>) -> Vector<f64> {
        Vector::new(rows_of(&x).iter().map(|r| self.0[0] + dot(r, &self.0[1..])).collect::<Vec<_>>())
    }
}
struct GpCase {
    x: Rows,
    y: Vec<f64>,
    t: Rows,
    ker: Box<dyn Kernel>,
    noise: f64,
    mean: Vec<f64>,
}
struct Bx(Box<dyn Kernel>);
impl Kernel for Bx {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        self.0.kernel(a, b)
    }
}
fn gen_gp(g: &mut G) -> GpCase {
    let d = g.dim(1, 4);
    let n = g.dim(1, 10);
    let x = gen_rows(g, n, d, -3., 3.);
    let s = g.scale(-1., 2.);
    let y: Vec<f64> = g.fs(n, -3., 3.).iter().map(|v| v * s).collect();
    let nt = g.dim(1, 6);
    let mut t = gen_rows(g, nt, d, -4., 4.);
    if g.chance(1, 3) {
        let k = g.int(0, n - 1);
        t[0] = x[k].clone();
    }
    let kind = g.draw(4);
    let (l, a) = (g.scale(-0.5, 0.5), g.scale(-1., 1.));
    let ker: Box<dyn Kernel> = match kind {
        0 => Box::new(SquaredExp::new(l, a)),
        1 => Box::new(Exponential::new(l, a)),
        2 => Box::new(RationalQuadratic::new(a, l)),
        _ => Box::new(Linear::new(a)),
    };
    let noise = if g.chance(1, 6) { 0. } else { g.scale(-3., 1.) };
    let mean = if g.bool() { vec![0.; d + 1] } else { g.fs(d + 1, -2., 2.) };
    g.note("kernel", &(["SquaredExp", "Exponential", "RationalQuadratic", "Linear"][kind as usize], l, a));
    g.note("noise", &noise);
    g.note("mean function", &mean);
    g.note("inputs", &x);
    g.note("targets", &y);
    g.note("new rows", &t);
    GpCase { x, y, t, ker, noise, mean }
}
fn gp_posterior(g: &mut G) -> Res {
    let c = gen_gp(g);
    let (n, d) = (c.x.len(), c.x[0].len());
    let gram = |a: &Rows, b: &Rows| -> Rows { a.iter().map(|p| b.iter().map(|q| c.ker.kernel(p, q)).collect()).collect() };
    let mut k = gram(&c.x, &c.x);
    for i in 0..n {
        k[i][i] += c.noise;
    }
    let cond = sym_cond(&k);
    if cond > 1e7 {
        return Ok(false);
    }
    let m = |r: &[f64]| c.mean[0] + dot(r, &c.mean[1..]);
    let resid: Vec<f64> = c.x.iter().zip(&c.y).map(|(r, y)| y - m(r)).collect();
    let kinv = match inverse(&k, 1e-13) {
        Some(v) => v,
        None => return Ok(false),
    };
    let alpha = mulv(&kinv, &resid);
    let kt = gram(&c.t, &c.x);
    let want_mean: Vec<f64> = c.t.iter().zip(mulv(&kt, &alpha)).map(|(r, v)| m(r) + v).collect();
    let red = mul(&mul(&kt, &kinv), &transpose(&kt));
    let ktt = gram(&c.t, &c.t);
    let zero_mean = c.mean.iter().all(|v| *v == 0.);
    let (xm, ym, tm) = (mat(&c.x, d), vecd(&c.y), mat(&c.t, d));
    let amag = norm(&alpha);
    let kmag = kt.iter().map(|r| norm(r)).fold(0., f64::max);
    let tol = 1e-13 * cond * (amag * kmag + 1.) + 1e-9 * (1. + want_mean.iter().fold(0f64, |a, v| a.max(v.abs())));
    fn go<U: MeanFunc>(mut gp: GaussianProcess<Bx, U>, x: &Matrix<f64>, y: &Vector<f64>, t: &Matrix<f64>) -> Result<(Vec<f64>, Vec<f64>, Matrix<f64>), engine::Fail> {
        gp.train(x, y).map_err(|e| format!("training failed: {}", e))?;
        let p = gp.predict(t).map_err(|e| format!("prediction failed: {}", e))?.into_vec();
        let (q, v) = gp.get_posterior(t).map_err(|e| format!("posterior failed: {}", e))?;
        Ok((p, q.into_vec(), v))
    }
    let ker = Bx(c.ker);
    let (p, q, v) = if zero_mean { go(GaussianProcess::new(ker, ConstMean::default(), c.noise), &xm, &ym, &tm)? } else { go(GaussianProcess::new(ker, LinMean(c.mean.clone()), c.noise), &xm, &ym, &tm)? };
    let nt = c.t.len();
    ensure!(p.len() == nt && q.len() == nt && v.rows() == nt && v.cols() == nt, "shapes {} {} {}x{} for {} rows", p.len(), q.len(), v.rows(), v.cols(), nt);
    let vtol = 1e-13 * cond * kmag * kmag / k[0][0].abs().max(1e-3) + 1e-9 * (1. + kmag);
    for i in 0..nt {
        ensure!((p[i] - want_mean[i]).abs() <= tol, "predicted mean {} is {:e}, m + K*(K+sI)^-1(y-m) = {:e}", i, p[i], want_mean[i]);
        ensure!((q[i] - p[i]).abs() <= tol, "posterior mean {:e} and prediction {:e} differ", q[i], p[i]);
        for j in 0..nt {
            let w = ktt[i][j] - red[i][j];
            ensure!((v[[i, j]] - w).abs() <= vtol, "posterior covariance [{},{}] is {:e}, K** - K*(K+sI)^-1K*' = {:e} (tolerance {:e})", i, j, v[[i, j]], w, vtol);
        }
        ensure!(v[[i, i]] >= -vtol && v[[i, i]] <= ktt[i][i] + vtol, "posterior variance {:e} outside [0, {:e}]", v[[i, i]], ktt[i][i]);
    }
    Ok(n > 1)
}
fn gp_interpolates(g: &mut G) -> Res {
    // without noise the process passes through the data and is certain there
    let d = g.dim(1, 3);
    let n = g.dim(1, 7);
    let x = gen_rows(g, n, d, -4., 4.);
    let y = g.fs(n, -3., 3.);
    let l = g.uni(0.2, 1.);
    g.note("length scale", &l);
    g.note("inputs", &x);
    g.note("targets", &y);
    let k: Rows = x.iter().map(|p| x.iter().map(|q| (-dist2(p, q) / (2. * l * l)).exp()).collect()).collect();
    let cond = sym_cond(&k);
    if cond > 1e6 {
        return Ok(false);
    }
    let mut gp = GaussianProcess::new(SquaredExp::new(l, 1.), ConstMean::default(), 0.);
    gp.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let (m, v) = gp.get_posterior(&mat(&x, d)).map_err(|e| format!("posterior failed: {}", e))?;
    for i in 0..n {
        ensure!(close(m[i], y[i], 1e-11 * cond + 1e-9), "mean {:e} at a training point with target {:e} (no noise)", m[i], y[i]);
        ensure!(v[[i, i]].abs() < 1e-11 * cond + 1e-9, "variance {:e} at a training point (no noise)", v[[i, i]]);
    }
    // the default process is this one with unit scale
    let mut a = GaussianProcess::default();
    a.noise = 0.5;
    let mut b = GaussianProcess::new(SquaredExp::new(1., 1.), ConstMean::default(), 0.5);
    let t = gen_rows(g, 2, d, -4., 4.);
    a.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    b.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let (pa, pb) = (a.predict(&mat(&t, d)).unwrap().into_vec(), b.predict(&mat(&t, d)).unwrap().into_vec());
    ensure!(engine::all_close(&pa, &pb, 1e-12), "the default process predicts {:?}, one with the documented defaults {:?}", pa, pb);
    Ok(n > 1)
}
fn gp_order(g: &mut G) -> Res {
    // order of the training rows; far away the prior comes back
    let d = g.dim(1, 3);
    let n = g.dim(2, 8);
    let x = gen_rows(g, n, d, -3., 3.);
    let y = g.fs(n, -3., 3.);
    let p = g.perm(n);
    let t = { let k = g.size(1, 4); gen_rows(g, k, d, -4., 4.) };
    let noise = g.uni(0.05, 2.);
    g.note("inputs", &x);
    g.note("targets", &y);
    g.note("order", &p);
    g.note("noise", &noise);
    let fit = |x: &Rows, y: &[f64], t: &Rows| -> Result<(Vec<f64>, Vec<f64>), engine::Fail> {
        let mut gp = GaussianProcess::new(SquaredExp::new(1., 2.), ConstMean::default(), noise);
        gp.train(&mat(x, d), &vecd(y)).map_err(|e| format!("training failed: {}", e))?;
        let (m, v) = gp.get_posterior(&mat(t, d)).map_err(|e| format!("posterior failed: {}", e))?;
        Ok((m.into_vec(), v.into_vec()))
    };
    let a = fit(&x, &y, &t)?;
    let b = fit(&permute(&x, &p), &permute(&y, &p), &t)?;
    ensure!(engine::all_close(&a.0, &b.0, 1e-8) && engine::all_close(&a.1, &b.1, 1e-8), "reordered training rows give {:?} instead of {:?}", b, a);
    let far = fit(&x, &y, &vec![vec![1000.; d]])?;
    ensure!(close(far.0[0], 0., 1e-9) && close(far.1[0], 2., 1e-9), "far from all data the posterior is {:?}, the prior has mean 0 and variance 2", far);
    // more noise, less certainty
    Ok(p.iter().enumerate().any(|(i, v)| i != *v))
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
large!(svm_flip_large, svm_flip, 8);
large!(svm_pegasos_large, svm_pegasos, 8);
many!(svm_draws_many, svm_draws, 9000);
large!(gp_posterior_large, gp_posterior, 6);
large!(gp_order_large, gp_order, 6);
static CHECKS: &[Check] = &[
    Check {
        id: "C20",
        rule: "2..14 rows of 1..4 inputs in two classes separated by a margin (separation), arbitrary labels otherwise; linear, polynomial and squared exponential kernels, and kernels of the harness that read the learnt coefficients off the predictions; non-trivial: more than three rows (separation), more than one row",
        sections: &[
            sec("separation", 3000, 40000, svm_separates),
            sec("label-flip", 12000, 200000, svm_flip), sec("large-flip", 200, 3000, svm_flip_large),
            sec("coefficients", 8000, 100000, svm_pegasos), sec("large-coefficients", 120, 2000, svm_pegasos_large),
            sec("draws", 200, 3000, svm_draws), sec("many-rows-draws", 12, 150, svm_draws_many),
            sec("objective", 800, 10000, svm_objective),
            sec("defaults", 4000, 50000, svm_default),
        ],
        assumptions: &[LA, "thread_rng is replaced by a seedable stream (shim/rand)"],
    },
    Check {
        id: "C21",
        rule: "1..10 training rows of 1..4 inputs, four kernels, noise from 0 to 10, zero or linear mean functions, up to 6 new rows, kernel matrices of condition below 1e7; non-trivial: at least two training rows",
        sections: &[sec("posterior", 60000, 1000000, gp_posterior), sec("large", 400, 6000, gp_posterior_large), sec("interpolation", 30000, 400000, gp_interpolates), sec("order-and-prior", 20000, 300000, gp_order), sec("large-order", 200, 3000, gp_order_large)],
        assumptions: &[LA],
    },
];

fn main() {
    engine::main(CHECKS)
}
