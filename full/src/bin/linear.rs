//! Linear and logistic regression, generalised linear models.
use engine::{large, many, close, ensure, guard, sec, Check, Res, G};
use full_checks::*;
use rusty_machine::learning::glm::{self, Bernoulli, GenLinearModel, LinkFunc, Normal, Poisson};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::{BaseLogisticRegressor, LogisticRegressor};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::GradientDesc;
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::SupModel;
use rusty_machine::linalg::{Matrix, Vector};
use std::cell::RefCell;

fn with_ones(x: &Rows) -> Rows {
    x.iter().map(|r| { let mut v = vec![1.]; v.extend(r); v }).collect()
}
fn gram(x: &Rows) -> Rows {
    mul(&transpose(x), x)
}
/// Inputs with a well conditioned design (with intercept), or None.
fn gen_design(g: &mut G, max_n: usize, limit: f64) -> Option<(Rows, f64)> {
    let d = g.dim(1, 5);
    let n = g.rows(d + 1, max_n.max(d + 2));
    let x = match g.draw(4) {
        0 => gen_rows(g, n, d, -3., 3.),
        1 => {
            // dummy variables and small integers
            (0..n).map(|_| (0..d).map(|_| g.sint(-2, 2) as f64).collect()).collect()
        }
        _ => gen_generic(g, n, d),
    };
    g.note("inputs", &x);
    let c = sym_cond(&gram(&with_ones(&x)));
    if c > limit {
        None
    } else {
        Some((x, c))
    }
}
// ---------------------------------------------------------------- least squares
fn lin_optimal(g: &mut G) -> Res {
    let (x, cond) = match gen_design(g, 25, 1e7) {
        Some(v) => v,
        None => return Ok(false),
    };
    let (n, d) = (x.len(), x[0].len());
    let s = g.scale(-2., 3.);
    let y: Vec<f64> = g.fs(n, -3., 3.).iter().map(|v| v * s).collect();
    g.note("targets", &y);
    let mut m = LinRegressor::default();
    ensure!(m.parameters().is_none(), "parameters before training");
    if let Err(e) = m.train(&mat(&x, d), &vecd(&y)) {
        engine::fail!("training failed on a design of condition {:e}: {}", cond, e);
    }
    let b: Vec<f64> = match m.parameters() {
        Some(v) => v.data().clone(),
        None => engine::fail!("no parameters after training"),
    };
    ensure!(b.len() == d + 1, "{} parameters for {} inputs", b.len(), d);
    let x1 = with_ones(&x);
    // normal equations: the residuals are orthogonal to every column and to the constant
    let res: Vec<f64> = mulv(&x1, &b).iter().zip(&y).map(|(f, y)| y - f).collect();
    let scale = x1.iter().map(|r| norm(r)).fold(0., f64::max) * n as f64 * (norm(&y) + x1.iter().map(|r| norm(r)).fold(0., f64::max) * norm(&b));
    for j in 0..=d {
        let c: f64 = x1.iter().zip(&res).map(|(r, e)| r[j] * e).sum();
        ensure!(c.abs() <= 1e-13 * scale * cond.sqrt().max(10.), "residuals are not orthogonal to column {}: {:e} (scale {:e}, condition {:e})", j, c, scale, cond);
    }
    // no other coefficients do better
    let sse = |b: &[f64]| mulv(&x1, b).iter().zip(&y).map(|(f, y)| (f - y) * (f - y)).sum::<f64>();
    let best = sse(&b);
    let mut other = b.clone();
    let j = g.int(0, d);
    other[j] += g.f(-1., 1.) * (1. + norm(&b));
    ensure!(sse(&other) >= best * (1. - 1e-9) - 1e-9 * s * s, "squared error {:e} can be lowered to {:e}", best, sse(&other));
    // predictions
    let k = g.dim(1, 5);
    let t = gen_rows(g, k, d, -5., 5.);
    let p = m.predict(&mat(&t, d)).map_err(|e| format!("prediction failed: {}", e))?;
    let want = mulv(&with_ones(&t), &b);
    ensure!(engine::all_close(p.data(), &want, 1e-10), "predictions {:?}, the parameters give {:?}", p.data(), want);
    Ok(best > 1e-6 * s * s && n > d + 1)
}
fn lin_recovers(g: &mut G) -> Res {
    let (x, cond) = match gen_design(g, 25, 1e6) {
        Some(v) => v,
        None => return Ok(false),
    };
    let d = x[0].len();
    let truth = g.fs(d + 1, -5., 5.);
    g.note("coefficients", &truth);
    let y = mulv(&with_ones(&x), &truth);
    let mut m = LinRegressor::default();
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let b = m.parameters().unwrap().data().clone();
    for j in 0..=d {
        ensure!((b[j] - truth[j]).abs() <= 1e-12 * cond * 10. + 1e-9, "coefficient {} of noise-free data is {}, {} was used (condition {:e})", j, b[j], truth[j], cond);
    }
    Ok(truth.iter().any(|v| *v != 0.))
}
fn lin_equivariant(g: &mut G) -> Res {
    let (x, cond) = match gen_design(g, 20, 1e4) {
        Some(v) => v,
        None => return Ok(false),
    };
    let (n, d) = (x.len(), x[0].len());
    let y = g.fs(n, -3., 3.);
    let k = g.dim(1, 4);
    let t = gen_rows(g, k, d, -3., 3.);
    g.note("targets", &y);
    g.note("new points", &t);
    let fit = |x: &Rows, y: &[f64], t: &Rows| -> Result<Vec<f64>, engine::Fail> {
        let mut m = LinRegressor::default();
        m.train(&mat(x, d), &vecd(y)).map_err(|e| format!("training failed: {}", e))?;
        Ok(m.predict(&mat(t, d)).map_err(|e| format!("prediction failed: {}", e))?.into_vec())
    };
    let p = fit(&x, &y, &t)?;
    let tol = 1e-10 * cond + 1e-8;
    // shift and scale of the targets
    let (a, b) = (g.f(-3., 3.), g.f(-5., 5.));
    let p2 = fit(&x, &y.iter().map(|v| a * v + b).collect::<Vec<_>>(), &t)?;
    for i in 0..k {
        ensure!(close(p2[i], a * p[i] + b, tol), "targets {}*y+{} predict {}, {} expected", a, b, p2[i], a * p[i] + b);
    }
    // scale of an input column, order of the rows, order of the columns
    let j = g.int(0, d - 1);
    let c = if g.bool() { 0.5 } else { -2. };
    let scale_col = |r: &Rows| -> Rows { r.iter().map(|v| { let mut v = v.clone(); v[j] = v[j] * c + 1.; v }).collect() };
    let p3 = fit(&scale_col(&x), &y, &scale_col(&t))?;
    ensure!(engine::all_close(&p, &p3, tol * 30.), "an affine change of column {} changes the predictions from {:?} to {:?}", j, p, p3);
    let pr = g.perm(n);
    let p4 = fit(&permute(&x, &pr), &permute(&y, &pr), &t)?;
    ensure!(engine::all_close(&p, &p4, tol), "reordered rows {:?} change the predictions from {:?} to {:?}", pr, p, p4);
    let pc = g.perm(d);
    let pcols = |r: &Rows| -> Rows { r.iter().map(|v| permute(v, &pc)).collect() };
    let p5 = fit(&pcols(&x), &y, &pcols(&t))?;
    ensure!(engine::all_close(&p, &p5, tol), "reordered columns {:?} change the predictions from {:?} to {:?}", pc, p, p5);
    Ok(n > d + 1)
}
fn lin_gradient(g: &mut G) -> Res {
    // the gradient form: value, derivative, and the default descent from zero
    let d = g.dim(1, 4);
    let n = g.rows(1, 10);
    let x = gen_rows(g, n, d, -1., 1.);
    let y = g.fs(n, -3., 3.);
    let x1 = with_ones(&x);
    let p = g.fs(d + 1, -3., 3.);
    g.note("inputs", &x);
    g.note("targets", &y);
    g.note("parameters", &p);
    let m = LinRegressor::default();
    let (c, gr) = m.compute_grad(&p, &mat(&x1, d + 1), &vecd(&y));
    let step = |b: &[f64]| -> (f64, Vec<f64>) {
        let r: Vec<f64> = mulv(&x1, b).iter().zip(&y).map(|(f, y)| f - y).collect();
        (dot(&r, &r) / (2. * n as f64), (0..=d).map(|j| x1.iter().zip(&r).map(|(q, e)| q[j] * e).sum::<f64>() / n as f64).collect())
    };
    let (cw, gw) = step(&p);
    ensure!(close(c, cw, 1e-10), "cost {:e}, half the mean squared error is {:e}", c, cw);
    ensure!(engine::all_close(&gr, &gw, 1e-10), "gradient {:?}, {:?} expected", gr, gw);
    let mut t = LinRegressor::default();
    t.train_with_optimization(&mat(&x, d), &vecd(&y));
    let b = t.parameters().expect("no parameters").data().clone();
    // 100 steps of 0.3 from zero can only lower the cost on inputs bounded by 1 with few columns
    let l = { let (e, _) = sym_eigen(&gram(&x1)); e[0] / n as f64 };
    if 0.3 * l < 1.9 {
        let c0 = step(&vec![0.; d + 1]).0;
        let cb = step(&b).0;
        ensure!(cb <= c0 * (1. + 1e-12), "descent went from cost {:e} to {:e}", c0, cb);
        let mut best = vec![0.; d + 1];
        if let Some(s) = solve(&gram(&x1), &mulv(&transpose(&x1), &y), 1e-9) {
            best = s;
        }
        let cond = sym_cond(&gram(&x1));
        if cond < 50. {
            // contraction per step at most 1 - 0.3*mu (or |1-0.3 l|)
            let mu = l / cond;
            let q = (1. - 0.3 * mu).abs().max((1. - 0.3 * l).abs());
            // the descent ends when a step no longer lowers the cost, in as many digits as it has
            let floor = (1e-15 * n as f64 * (1. + cb) / (0.3 * (1. - 0.15 * l))).sqrt() / mu;
            let left = q.powi(100) * norm(&best) * 1.01 + 1e-7 + floor;
            let miss = norm(&b.iter().zip(&best).map(|(a, b)| a - b).collect::<Vec<_>>());
            ensure!(miss <= left, "after the descent the parameters are {:e} from the optimum, at most {:e} possible", miss, left);
        }
    }
    Ok(n > 1)
}

// ---------------------------------------------------------------- logistic regression
/// An optimiser that records what it is given and returns fixed parameters.
struct Spy {
    ret: Vec<f64>,
    probe: Vec<f64>,
    seen: RefCell<Vec<(Vec<f64>, Vec<f64>, usize, Vec<f64>, f64, Vec<f64>)>>,
}
impl<'a> OptimAlgorithm<BaseLogisticRegressor> for &'a Spy {
    fn optimize(&self, model: &BaseLogisticRegressor, start: &[f64], inputs: &Matrix<f64>, targets: &Vector<f64>) -> Vec<f64> {
        let (c, gr) = model.compute_grad(&self.probe, inputs, targets);
        use rusty_machine::linalg::BaseMatrix;
        self.seen.borrow_mut().push((start.to_vec(), inputs.data().clone(), inputs.cols(), targets.data().clone(), c, gr));
        self.ret.clone()
    }
}
fn sig(z: f64) -> f64 {
    if z >= 0. { 1. / (1. + (-z).exp()) } else { let e = z.exp(); e / (1. + e) }
}
fn logit_cost(x1: &Rows, y: &[f64], b: &[f64]) -> (f64, Vec<f64>) {
    let n = y.len() as f64;
    let mut c = 0.;
    let mut gr = vec![0.; b.len()];
    for (r, t) in x1.iter().zip(y) {
        let z = dot(r, b);
        let softplus = if z > 0. { z + (-z).exp().ln_1p() } else { z.exp().ln_1p() };
        c += softplus - t * z;
        for j in 0..b.len() {
            gr[j] += (sig(z) - t) * r[j];
        }
    }
    (c / n, gr.iter().map(|v| v / n).collect())
}
fn logistic_plumbing(g: &mut G) -> Res {
    let d = g.dim(1, 5);
    let n = g.rows(1, 10);
    let x = gen_rows(g, n, d, -2., 2.);
    let y: Vec<f64> = g.vec(n, |g| if g.chance(1, 6) { g.f(0., 1.) } else { g.draw(2) as f64 });
    let ret = g.fs(d + 1, -3., 3.);
    let probe = g.fs(d + 1, -2., 2.);
    let t = { let k = g.size(1, 5); gen_rows(g, k, d, -3., 3.) };
    g.note("inputs", &x);
    g.note("targets", &y);
    g.note("optimiser returns", &ret);
    g.note("gradient probed at", &probe);
    g.note("new points", &t);
    let spy = Spy { ret: ret.clone(), probe: probe.clone(), seen: RefCell::new(vec![]) };
    let mut m = LogisticRegressor::new(&spy);
    ensure!(m.parameters().is_none(), "parameters before training");
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let seen = spy.seen.borrow();
    ensure!(seen.len() == 1, "the optimiser ran {} times", seen.len());
    let (start, data, cols, tg, c, gr) = seen[0].clone();
    let x1 = with_ones(&x);
    let flat: Vec<f64> = x1.iter().flat_map(|r| r.clone()).collect();
    ensure!(start.len() == d + 1 && start.iter().all(|v| v.is_finite()), "starting parameters {:?}", start);
    ensure!(cols == d + 1 && same_bits(&data, &flat), "the optimiser was given inputs {:?}", data);
    ensure!(same_bits(&tg, &y), "the optimiser was given targets {:?}", tg);
    let (cw, gw) = logit_cost(&x1, &y, &probe);
    // 1 - sigmoid(z) keeps fewer digits the larger z is, none above 36
    let zs: Vec<f64> = x1.iter().map(|r| dot(r, &probe)).collect();
    let lost: f64 = zs.iter().map(|z| 1e-15 * z.exp()).sum::<f64>() / n as f64;
    if zs.iter().all(|z| *z < 34.) {
        ensure!((c - cw).abs() <= 1e-9 * (1. + cw.abs()) + lost, "cost {:e}, mean cross entropy {:e}", c, cw);
    }
    ensure!(engine::all_close(&gr, &gw, 1e-9), "gradient {:?}, {:?} expected", gr, gw);
    ensure!(m.parameters().map(|p| p.data().clone()) == Some(ret.clone()), "parameters {:?} after the optimiser returned {:?}", m.parameters(), ret);
    let p = m.predict(&mat(&t, d)).map_err(|e| format!("prediction failed: {}", e))?;
    for (i, r) in with_ones(&t).iter().enumerate() {
        let w = sig(dot(r, &ret));
        ensure!((p[i] - w).abs() <= 1e-12 && p[i] >= 0. && p[i] <= 1., "prediction {} is {}, the sigmoid of the linear part is {}", i, p[i], w);
    }
    ensure!(p.size() == t.len(), "{} predictions for {} rows", p.size(), t.len());
    Ok(n > 1)
}
/// Data on which the unregularised maximum likelihood exists and is moderate.
fn gen_logit(g: &mut G) -> Option<(Rows, Vec<f64>, Vec<f64>)> {
    let d = g.dim(1, 3);
    let n = g.rows(8, 24);
    let x = gen_rows(g, n, d, -2., 2.);
    let b = g.fs(d + 1, -0.7, 0.7);
    let y: Vec<f64> = with_ones(&x).iter().map(|r| if g.unit() < sig(dot(r, &b)) { 1. } else { 0. }).collect();
    g.note("inputs", &x);
    g.note("targets", &y);
    let x1 = with_ones(&x);
    if sym_cond(&gram(&x1)) > 100. {
        return None;
    }
    // Newton with step halving
    let mut p = vec![0.; d + 1];
    for _ in 0..60 {
        let (c, gr) = logit_cost(&x1, &y, &p);
        let mut h = vec![vec![0.; d + 1]; d + 1];
        for r in &x1 {
            let s = sig(dot(r, &p));
            for i in 0..=d {
                for j in 0..=d {
                    h[i][j] += s * (1. - s) * r[i] * r[j] / y.len() as f64;
                }
            }
        }
        let st = solve(&h, &gr, 1e-13)?;
        let mut t = 1.;
        loop {
            let q: Vec<f64> = p.iter().zip(&st).map(|(a, b)| a - t * b).collect();
            if logit_cost(&x1, &y, &q).0 <= c || t < 1e-6 {
                p = q;
                break;
            }
            t /= 2.;
        }
        if norm(&gr) < 1e-13 {
            break;
        }
    }
    if norm(&logit_cost(&x1, &y, &p).1) > 1e-10 || x1.iter().any(|r| dot(r, &p).abs() > 4.) {
        return None;
    }
    Some((x, y, p))
}
fn logistic_fits(g: &mut G) -> Res {
    let (x, y, best) = match gen_logit(g) {
        Some(v) => v,
        None => return Ok(false),
    };
    let d = x[0].len();
    let x1 = with_ones(&x);
    g.note("maximum likelihood", &best);
    let c_best = logit_cost(&x1, &y, &best).0;
    let mut m = LogisticRegressor::new(ConjugateGD::default());
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let b = m.parameters().unwrap().data().clone();
    ensure!(norm(&logit_cost(&x1, &y, &b).1) < 1e-3, "conjugate gradients end at {:?} with gradient {:?}", b, logit_cost(&x1, &y, &b).1);
    let mut m = LogisticRegressor::new(GradientDesc::new(0.3, 3000));
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let b = m.parameters().unwrap().data().clone();
    let c = logit_cost(&x1, &y, &b).0;
    ensure!(c <= c_best + 1e-3, "gradient descent ends at {:?} with cost {:e}, the minimum is {:e} at {:?}", b, c, c_best, best);
    let mut m = LogisticRegressor::default();
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let b = m.parameters().unwrap().data().clone();
    let c = logit_cost(&x1, &y, &b).0;
    let n = y.len() as f64;
    let rate = y.iter().sum::<f64>() / n;
    let null = if rate > 0. && rate < 1. { -(rate * rate.ln() + (1. - rate) * (1. - rate).ln()) } else { 0. };
    ensure!(c <= c_best + 0.1 * (1. + null), "the default model ends with cost {:e}, the minimum is {:e}", c, c_best);
    Ok(norm(&best) > 0.2)
}

// ---------------------------------------------------------------- generalised linear models
fn glm_links(g: &mut G) -> Res {
    fn one<L: LinkFunc>(name: &str, mu: f64, want: f64, grad: f64) -> Res {
        let (f, gr, back) = (L::func(mu), L::func_grad(mu), L::func_inv(L::func(mu)));
        ensure!(close(f, want, 1e-10), "{} link of {:e} is {:e}, {:e} expected", name, mu, f, want);
        ensure!(engine::rel_close(gr, grad, 1e-9), "{} link has derivative {:e} at {:e}, {:e} expected", name, gr, mu, grad);
        ensure!(close(back, mu, 1e-9), "{} link: {:e} comes back as {:e}", name, mu, back);
        Ok(true)
    }
    let p = match g.draw(3) {
        0 => g.scale(-6., -0.4),
        1 => 1. - g.scale(-6., -0.4),
        _ => g.uni(0.001, 0.999),
    };
    let q = g.scale(-6., 6.);
    let x = g.f(-50., 50.);
    g.note("arguments", &(p, q, x));
    one::<glm::Logit>("logit", p, p.ln() - (1. - p).ln(), 1. / p + 1. / (1. - p))?;
    one::<glm::Log>("log", q, q.ln(), 1. / q)?;
    one::<glm::Identity>("identity", x, x, 1.)?;
    // inverse links on the whole line
    let l = glm::Logit::func_inv(x);
    ensure!((l - sig(x)).abs() < 1e-12 && l >= 0. && l <= 1., "inverse logit of {} is {}", x, l);
    let e = glm::Log::func_inv(x);
    ensure!(engine::rel_close(e, x.exp(), 1e-12), "inverse log of {} is {:e}", x, e);
    // variances and working weights 1/(V(mu) g'(mu)^2), adjusted responses
    use glm::Criterion;
    let pm = p.max(1e-4).min(1. - 1e-4);
    let ws = Bernoulli.compute_working_weight(&[pm, 0.5]);
    ensure!(close(ws[0], pm * (1. - pm), 1e-10) && close(ws[1], 0.25, 1e-12), "Bernoulli working weights at {:e}: {:?}", pm, ws);
    ensure!(close(Bernoulli.model_variance(pm), pm * (1. - pm), 1e-10), "Bernoulli variance at {:e} is {:e}", pm, Bernoulli.model_variance(pm));
    ensure!(close(Poisson.model_variance(q), q, 1e-12), "Poisson variance at {:e} is {:e}", q, Poisson.model_variance(q));
    let wp = Poisson.compute_working_weight(&[q, 2. * q]);
    ensure!(engine::rel_close(wp[0], q, 1e-9) && engine::rel_close(wp[1], 2. * q, 1e-9), "Poisson working weights at {:e}: {:?}", q, wp);
    let wn = Normal.compute_working_weight(&[x, q]);
    ensure!(wn == vec![1., 1.], "Normal working weights {:?}", wn);
    let y = g.draw(2) as f64;
    let yb = Bernoulli.compute_y_bar(&[y], &[pm]);
    ensure!(close(yb[0], (y - pm) / (pm * (1. - pm)), 1e-9), "Bernoulli adjusted response {:e} at y={} mu={:e}", yb[0], y, pm);
    let k = g.int(0, 30) as f64;
    let yb = Poisson.compute_y_bar(&[k], &[q]);
    ensure!(close(yb[0], (k - q) / q, 1e-9), "Poisson adjusted response {:e} at y={} mu={:e}", yb[0], k, q);
    let yb = Normal.compute_y_bar(&[k], &[x]);
    ensure!(close(yb[0], k - x, 1e-12), "Normal adjusted response {:e}", yb[0]);
    Ok(true)
}
fn glm_bernoulli(g: &mut G) -> Res {
    let (x, y, best) = match gen_logit(g) {
        Some(v) => v,
        None => return Ok(false),
    };
    let d = x[0].len();
    g.note("maximum likelihood", &best);
    let mut m = GenLinearModel::new(Bernoulli);
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let t = { let k = g.size(1, 5); gen_rows(g, k, d, -2., 2.) };
    let p = m.predict(&mat(&t, d)).map_err(|e| format!("prediction failed: {}", e))?;
    for (i, r) in with_ones(&t).iter().enumerate() {
        let w = sig(dot(r, &best));
        ensure!((p[i] - w).abs() < 1e-5, "probability {} at {:?}, maximum likelihood gives {}", p[i], t[i], w);
    }
    Ok(y.iter().any(|v| *v == 0.) && y.iter().any(|v| *v == 1.))
}
fn glm_normal(g: &mut G) -> Res {
    let (x, cond) = match gen_design(g, 20, 1e5) {
        Some(v) => v,
        None => return Ok(false),
    };
    let (n, d) = (x.len(), x[0].len());
    let s = g.scale(-1., 2.);
    let y: Vec<f64> = g.fs(n, -3., 3.).iter().map(|v| v * s).collect();
    g.note("targets", &y);
    let x1 = with_ones(&x);
    let b = match solve(&gram(&x1), &mulv(&transpose(&x1), &y), 1e-14) {
        Some(b) => b,
        None => return Ok(false),
    };
    let mut m = GenLinearModel::new(Normal);
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
    let t = { let k = g.size(1, 5); gen_rows(g, k, d, -3., 3.) };
    let p = m.predict(&mat(&t, d)).map_err(|e| format!("prediction failed: {}", e))?;
    for (i, r) in with_ones(&t).iter().enumerate() {
        let w = dot(r, &b);
        ensure!((p[i] - w).abs() <= 1e-11 * cond * (s + norm(&b)) + 1e-9 * s, "prediction {} at {:?}, least squares gives {}", p[i], t[i], w);
    }
    Ok(n > d + 1)
}
/// log-likelihood of a model with log link: poisson, or gamma with fixed shape (variance mu^2)
struct Gamma;
impl glm::Criterion for Gamma {
    type Link = glm::Log;
    fn model_variance(&self, mu: f64) -> f64 {
        mu * mu
    }
}
fn newton_log_link(x1: &Rows, y: &[f64], gamma: bool) -> Option<Vec<f64>> {
    // minimise  sum mu - y eta  (poisson)  or  sum y/mu + eta (gamma),  mu = exp(eta)
    let k = x1[0].len();
    let mut p = vec![0.; k];
    p[0] = (y.iter().sum::<f64>() / y.len() as f64).max(0.1).ln();
    let cost = |p: &[f64]| -> f64 { x1.iter().zip(y).map(|(r, t)| { let e = dot(r, p); if gamma { t * (-e).exp() + e } else { e.exp() - t * e } }).sum() };
    for _ in 0..100 {
        let mut gr = vec![0.; k];
        let mut h = vec![vec![0.; k]; k];
        for (r, t) in x1.iter().zip(y) {
            let mu = dot(r, &p).exp();
            let (a, w) = if gamma { (1. - t / mu, t / mu) } else { (mu - t, mu) };
            for i in 0..k {
                gr[i] += a * r[i];
                for j in 0..k {
                    h[i][j] += w * r[i] * r[j];
                }
            }
        }
        if norm(&gr) < 1e-11 * (1. + norm(y)) {
            return Some(p);
        }
        let st = solve(&h, &gr, 1e-12)?;
        let c = cost(&p);
        let mut t = 1.;
        loop {
            let q: Vec<f64> = p.iter().zip(&st).map(|(a, b)| a - t * b).collect();
            if cost(&q) <= c || t < 1e-8 {
                p = q;
                break;
            }
            t /= 2.;
        }
    }
    None
}
fn glm_log_link(g: &mut G, gamma: bool) -> Res {
    let d = g.dim(1, 3);
    let n = g.rows(6, 20);
    let x = gen_rows(g, n, d, -1., 1.);
    let x1 = with_ones(&x);
    if sym_cond(&gram(&x1)) > 100. {
        return Ok(false);
    }
    let mut b = g.fs(d + 1, -0.6, 0.6);
    let level = g.scale(-0.3, 3.);
    b[0] += level.ln();
    let y: Vec<f64> = x1
        .iter()
        .map(|r| {
            let mu = dot(r, &b).exp();
            if gamma {
                mu * g.uni(0.5, 1.6)
            } else {
                (mu + g.normal() * mu.sqrt()).round().max(0.)
            }
        })
        .collect();
    g.note("inputs", &x);
    g.note("targets", &y);
    let zeros = y.iter().filter(|v| **v < 0.5).count();
    if !gamma && zeros * 2 > n {
        return Ok(false);
    }
    let best = match newton_log_link(&x1, &y, gamma) {
        Some(p) => p,
        None => return Ok(false),
    };
    if best[1..].iter().any(|v| v.abs() > 1.5) {
        return Ok(false);
    }
    g.note("maximum likelihood", &best);
    let t = { let k = g.size(1, 5); gen_rows(g, k, d, -1., 1.) };
    let p = if gamma {
        let mut m = GenLinearModel::new(Gamma);
        m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
        m.predict(&mat(&t, d))
    } else {
        let mut m = GenLinearModel::new(Poisson);
        m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("training failed: {}", e))?;
        m.predict(&mat(&t, d))
    };
    let p = p.map_err(|e| format!("prediction failed: {}", e))?;
    for (i, r) in with_ones(&t).iter().enumerate() {
        let w = dot(r, &best).exp();
        ensure!(engine::rel_close(p[i], w, 1e-5), "mean {:e} at {:?}, maximum likelihood gives {:e}", p[i], t[i], w);
    }
    Ok(y.iter().any(|v| *v != y[0]))
}
fn glm_poisson(g: &mut G) -> Res {
    glm_log_link(g, false)
}
fn glm_gamma(g: &mut G) -> Res {
    glm_log_link(g, true)
}
/// A regression family of the user's own, built on the defaults of the trait:
/// variance c mu^k, any of several links (not only canonical ones).
struct Family<L> {
    c: f64,
    k: i32,
    start: Option<f64>,
    link: std::marker::PhantomData<L>,
}
impl<L: LinkFunc> glm::Criterion for Family<L> {
    type Link = L;
    fn model_variance(&self, mu: f64) -> f64 {
        self.c * mu.powi(self.k)
    }
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
        match self.start {
            None => y.to_vec(),
            Some(w) => {
                let m = y.iter().sum::<f64>() / y.len() as f64;
                y.iter().map(|v| w * v + (1. - w) * m).collect()
            }
        }
    }
}
struct Sqrt;
impl LinkFunc for Sqrt {
    fn func(x: f64) -> f64 { x.sqrt() }
    fn func_grad(x: f64) -> f64 { 0.5 / x.sqrt() }
    fn func_inv(x: f64) -> f64 { x * x }
}
struct Reciprocal;
impl LinkFunc for Reciprocal {
    fn func(x: f64) -> f64 { 1. / x }
    fn func_grad(x: f64) -> f64 { -1. / (x * x) }
    fn func_inv(x: f64) -> f64 { 1. / x }
}
/// A link whose gradient is not the derivative one would read off (a scaled logarithm)
struct HalfLog;
impl LinkFunc for HalfLog {
    fn func(x: f64) -> f64 { 0.5 * x.ln() }
    fn func_grad(x: f64) -> f64 { 0.5 / x }
    fn func_inv(x: f64) -> f64 { (2. * x).exp() }
}
/// The trait's defaults for a family and the fit of a model with it: the quasi-likelihood
/// equations  sum (y - mu) / (V(mu) g'(mu)) x = 0  hold at the trained coefficients.
fn family<L: LinkFunc>(g: &mut G, name: &str) -> Res {
    use glm::Criterion;
    let fam = Family::<L> { c: g.scale(-2., 2.), k: g.sint(0, 3) as i32, start: if g.draw(2) == 0 { None } else { Some(g.uni(0., 1.)) }, link: std::marker::PhantomData };
    g.note("family", &(name, fam.c, fam.k, fam.start));
    // the defaults of the trait
    let len = g.dim(1, 4);
    let mus: Vec<f64> = g.vec(len, |g| g.scale(-3., 3.));
    let ys: Vec<f64> = g.fs(len, -5., 5.);
    let (w, yb) = (fam.compute_working_weight(&mus), fam.compute_y_bar(&ys, &mus));
    let (to, back) = (fam.apply_link_func(vecd(&mus)), fam.apply_link_inv(vecd(&mus)));
    ensure!(w.len() == len && yb.len() == len && to.size() == len && back.size() == len, "{} family: {} means, {} weights, {} responses", name, len, w.len(), yb.len());
    for i in 0..len {
        let (m, d) = (mus[i], L::func_grad(mus[i]));
        let v = fam.c * m.powi(fam.k);
        ensure!(engine::rel_close(w[i], 1. / (v * d * d), 1e-9), "{} family: working weight {:e} at {:e}, 1/(V g'^2) is {:e}", name, w[i], m, 1. / (v * d * d));
        ensure!(close(yb[i], d * (ys[i] - m), 1e-9), "{} family: adjusted response {:e} at y={:e} mu={:e}, {:e} expected", name, yb[i], ys[i], m, d * (ys[i] - m));
        ensure!(fam.link_grad(m) == d && to[i] == L::func(m) && back[i] == L::func_inv(m), "{} family: the link is not the one declared at {:e}", name, m);
    }
    // the fit
    let d = g.dim(1, 3);
    let n = g.rows(6, 20);
    let x = gen_rows(g, n, d, -1., 1.);
    let x1 = with_ones(&x);
    if sym_cond(&gram(&x1)) > 100. {
        return Ok(false);
    }
    let b = { let mut b = g.fs(d + 1, -0.1, 0.1); b[0] += L::func(g.scale(-0.3, 0.7)); b };
    let mean: Vec<f64> = x1.iter().map(|r| L::func_inv(dot(r, &b))).collect();
    let y: Vec<f64> = mean.iter().map(|m| m * g.uni(0.85, 1.15)).collect();
    g.note("inputs", &x);
    g.note("targets", &y);
    // does the textbook iteration settle from that start?
    let mut mu = fam.initialize_mu(&y);
    let mut beta = vec![0.; d + 1];
    let mut steps = 0;
    loop {
        let wz: Vec<(f64, f64)> = mu.iter().zip(&y).map(|(m, y)| { let gr = L::func_grad(*m); (1. / (fam.c * m.powi(fam.k) * gr * gr), L::func(*m) + gr * (y - m)) }).collect();
        let mut h = vec![vec![0.; d + 1]; d + 1];
        let mut r = vec![0.; d + 1];
        for (row, (w, z)) in x1.iter().zip(&wz) {
            for i in 0..=d {
                r[i] += w * row[i] * z;
                for j in 0..=d {
                    h[i][j] += w * row[i] * row[j];
                }
            }
        }
        let next = match solve(&h, &r, 1e-12) {
            Some(v) => v,
            None => return Ok(false),
        };
        let change = next.iter().zip(&beta).map(|(a, b)| (a - b).abs()).sum::<f64>();
        beta = next;
        mu = x1.iter().map(|r| L::func_inv(dot(r, &beta))).collect();
        if mu.iter().any(|m| !(*m > 1e-3 && *m < 1e4)) || x1.iter().zip(&b).any(|(r, _)| !(dot(r, &beta) * dot(r, &b) > 0.)) && name != "log" && name != "half-log" && name != "identity" {
            return Ok(false);
        }
        if change < 1e-9 {
            break;
        }
        steps += 1;
        if steps > 15 {
            return Ok(false);
        }
    }
    let mut m = GenLinearModel::new(fam);
    m.train(&mat(&x, d), &vecd(&y)).map_err(|e| format!("{} family: training failed: {}", name, e))?;
    let p = m.predict(&mat(&x, d)).map_err(|e| format!("{} family: prediction failed: {}", name, e))?;
    for i in 0..n {
        ensure!(engine::rel_close(p[i], mu[i], 1e-6), "{} family: mean {:e} at {:?}, the estimating equations give {:e}", name, p[i], x[i], mu[i]);
    }
    let t = { let k = g.size(1, 4); gen_rows(g, k, d, -1., 1.) };
    let p = m.predict(&mat(&t, d)).map_err(|e| format!("{} family: prediction failed: {}", name, e))?;
    for (i, r) in with_ones(&t).iter().enumerate() {
        let (e, gr) = (dot(r, &beta), 1e-6 * (1. + norm(&beta)) * norm(r));
        let (lo, hi) = (L::func_inv(e - gr), L::func_inv(e + gr));
        let (lo, hi) = (lo.min(hi).min(L::func_inv(e)), lo.max(hi).max(L::func_inv(e)));
        let s = 1e-9 * (lo.abs() + hi.abs());
        if e.abs() > 2. * gr {
            ensure!(p[i] >= lo - s && p[i] <= hi + s, "{} family: mean {:e} at {:?}, the coefficients give {:e}", name, p[i], t[i], L::func_inv(e));
        }
    }
    Ok(steps > 1)
}
fn glm_families(g: &mut G) -> Res {
    match g.draw(5) {
        0 => family::<glm::Log>(g, "log"),
        1 => family::<glm::Identity>(g, "identity"),
        2 => family::<Sqrt>(g, "square root"),
        3 => family::<Reciprocal>(g, "reciprocal"),
        _ => family::<HalfLog>(g, "half-log"),
    }
}
/// Singular designs and mismatched data are reported as errors.
fn glm_errors(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let n = g.rows(3, 10);
    let mut x = gen_rows(g, n, d, -2., 2.);
    let y: Vec<f64> = g.vec(n, |g| g.draw(2) as f64);
    let kind = g.draw(3);
    g.note("kind", &["mismatched targets", "constant zero column", "fewer targets"][kind as usize]);
    let mut yy = y.clone();
    match kind {
        0 => yy.push(1.),
        1 => {
            let j = g.int(0, d - 1);
            for r in &mut x {
                r[j] = 0.;
            }
        }
        _ => {
            yy.pop();
        }
    }
    g.note("inputs", &x);
    g.note("targets", &yy);
    let (xm, ym) = (mat(&x, d), vecd(&yy));
    let b = guard(|| GenLinearModel::new(Bernoulli).train(&xm, &ym).is_err());
    let n2 = guard(|| GenLinearModel::new(Normal).train(&xm, &ym).is_err());
    let p = guard(|| GenLinearModel::new(Poisson).train(&xm, &ym).is_err());
    for (name, r) in [("Bernoulli", b), ("Normal", n2), ("Poisson", p)] {
        match r {
            Ok(true) => {}
            Ok(false) => engine::fail!("{} model trained on invalid data without an error", name),
            Err(e) => engine::fail!("{} model panics on invalid data instead of returning an error: {}", name, e),
        }
    }
    Ok(true)
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
large!(lin_optimal_large, lin_optimal, 8);
large!(lin_gradient_large, lin_gradient, 8);
large!(logistic_plumbing_large, logistic_plumbing, 20);
large!(logistic_fits_large, logistic_fits, 4);
large!(glm_links_large, glm_links, 20);
large!(glm_bernoulli_large, glm_bernoulli, 4);
large!(glm_normal_large, glm_normal, 6);
large!(glm_poisson_large, glm_poisson, 4);
large!(glm_gamma_large, glm_gamma, 4);
large!(glm_families_large, glm_families, 4);
many!(lin_optimal_many, lin_optimal, 9000);
many!(lin_gradient_many, lin_gradient, 9000);
many!(logistic_plumbing_many, logistic_plumbing, 9000);
many!(logistic_fits_many, logistic_fits, 3000);
many!(glm_bernoulli_many, glm_bernoulli, 1200);
many!(glm_normal_many, glm_normal, 1200);
many!(glm_poisson_many, glm_poisson, 1200);
static CHECKS: &[Check] = &[
    Check {
        id: "C16",
        rule: "1..5 inputs, up to 25 rows, generic, gridded or integer designs with a condition number below 1e7; non-trivial: more rows than coefficients and a residual that is not zero",
        sections: &[
            sec("least-squares", 90000, 1000000, lin_optimal), sec("large", 300, 3000, lin_optimal_large), sec("many-rows", 10, 100, lin_optimal_many),
            sec("exact-data", 45000, 500000, lin_recovers),
            sec("equivariance", 24000, 300000, lin_equivariant),
            sec("gradient-form", 24000, 300000, lin_gradient), sec("large-gradient-form", 300, 3000, lin_gradient_large), sec("many-rows-gradient-form", 10, 100, lin_gradient_many),
        ],
        assumptions: &[LA],
    },
    Check {
        id: "C17",
        rule: "1..5 inputs; an optimiser that records what it is handed and returns generated parameters (plumbing), and noisy labels on which the maximum likelihood exists (fit); non-trivial: more than one row, a fitted slope",
        sections: &[sec("plumbing", 120000, 1500000, logistic_plumbing), sec("large", 600, 6000, logistic_plumbing_large), sec("many-rows", 30, 300, logistic_plumbing_many), sec("fit", 4500, 40000, logistic_fits), sec("large-fit", 60, 600, logistic_fits_large), sec("many-rows-fit", 3, 30, logistic_fits_many)],
        assumptions: &[LA],
    },
    Check {
        id: "C18",
        rule: "1..3 inputs, up to 24 rows on which the maximum likelihood exists and is moderate, found by a damped Newton search; non-trivial: the targets differ",
        sections: &[
            sec("links-and-weights", 120000, 1000000, glm_links), sec("large-links", 600, 6000, glm_links_large),
            sec("bernoulli", 18000, 200000, glm_bernoulli), sec("large-bernoulli", 120, 1200, glm_bernoulli_large), sec("many-rows-bernoulli", 2, 20, glm_bernoulli_many),
            sec("normal", 24000, 200000, glm_normal), sec("large-normal", 120, 1200, glm_normal_large), sec("many-rows-normal", 2, 20, glm_normal_many),
            sec("poisson", 18000, 200000, glm_poisson), sec("large-poisson", 120, 1200, glm_poisson_large), sec("many-rows-poisson", 2, 20, glm_poisson_many),
            sec("gamma", 18000, 200000, glm_gamma), sec("large-gamma", 120, 1200, glm_gamma_large),
            sec("families", 24000, 250000, glm_families), sec("large-families", 120, 1200, glm_families_large),
            sec("errors", 12000, 100000, glm_errors),
        ],
        assumptions: &[LA],
    },
];

fn main() {
    engine::main(CHECKS)
}
