//! Gradient descent family and conjugate gradients.
use engine::stat::chi2_p;
use engine::{large, ensure, guard, sec, Check, Res, G};
use full_checks::*;
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::{Cell, RefCell};

/// A model that answers with whatever costs and gradients the case wants, and records what it is asked.
struct Script<F: Fn(usize, &[f64], &[usize]) -> (f64, Vec<f64>)> {
    answer: F,
    calls: RefCell<Vec<Call>>,
    input: Rows,
    target: Rows,
    bad: RefCell<Option<String>>,
}
#[derive(Clone)]
struct Call {
    params: Vec<f64>,
    rows: Vec<usize>,
    cost: f64,
    grad: Vec<f64>,
}
impl<F: Fn(usize, &[f64], &[usize]) -> (f64, Vec<f64>)> Optimizable for Script<F> {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, params: &[f64], inputs: &Matrix<f64>, targets: &Matrix<f64>) -> (f64, Vec<f64>) {
        // column 0 of the inputs is the row's number
        let got_i = rows_of(inputs);
        let got_t = rows_of(targets);
        let rows: Vec<usize> = got_i.iter().map(|r| r[0] as usize).collect();
        let ok = got_t.len() == got_i.len() && rows.iter().zip(got_i.iter().zip(&got_t)).all(|(&k, (i, t))| k < self.input.len() && i == &self.input[k] && t == &self.target[k]);
        if !ok {
            *self.bad.borrow_mut() = Some(format!("call {} was given inputs {:?} with targets {:?}", self.calls.borrow().len(), got_i, got_t));
        }
        let n = self.calls.borrow().len();
        let (cost, grad) = (self.answer)(n, params, &rows);
        self.calls.borrow_mut().push(Call { params: params.to_vec(), rows, cost, grad: grad.clone() });
        (cost, grad)
    }
}

#[derive(Clone, Debug)]
enum Alg {
    Gd(f64, usize),
    Sgd(f64, f64, usize),
    Ada(f64, f64, usize),
    Rms(f64, f64, f64, usize),
}
impl Alg {
    fn iters(&self) -> usize {
        match *self {
            Alg::Gd(_, n) | Alg::Sgd(_, _, n) | Alg::Ada(_, _, n) | Alg::Rms(_, _, _, n) => n,
        }
    }
    fn run<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>>(&self, default: bool, m: &M, start: &[f64], i: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> {
        if default {
            return match self {
                Alg::Gd(..) => GradientDesc::default().optimize(m, start, i, t),
                Alg::Sgd(..) => StochasticGD::default().optimize(m, start, i, t),
                Alg::Ada(..) => AdaGrad::default().optimize(m, start, i, t),
                Alg::Rms(..) => RMSProp::default().optimize(m, start, i, t),
            };
        }
        match *self {
            Alg::Gd(a, n) => GradientDesc::new(a, n).optimize(m, start, i, t),
            Alg::Sgd(a, b, n) => StochasticGD::new(a, b, n).optimize(m, start, i, t),
            Alg::Ada(a, b, n) => AdaGrad::new(a, b, n).optimize(m, start, i, t),
            Alg::Rms(a, b, c, n) => RMSProp::new(a, b, c, n).optimize(m, start, i, t),
        }
    }
}
fn gen_alg(g: &mut G, max: usize) -> (Alg, bool) {
    let default = g.chance(1, 6);
    let k = g.draw(4);
    let it = g.size(0, max);
    let a = match k {
        0 if default => Alg::Gd(0.3, 100),
        1 if default => Alg::Sgd(0.1, 0.1, 20),
        2 if default => Alg::Ada(1., 3., 100),
        _ if default => Alg::Rms(0.01, 0.9, 1e-5, 50),
        0 => Alg::Gd(g.scale(-3., 0.5), it),
        1 => Alg::Sgd(g.scale(-2., 0.), g.scale(-3., 0.5), it),
        2 => Alg::Ada(g.scale(-2., 0.7), if g.chance(1, 4) { 0. } else { g.scale(-3., 1.) }, it),
        _ => Alg::Rms(g.scale(-3., 0.), g.uni(0.05, 0.98), g.scale(-8., -1.), it),
    };
    (a, default)
}
fn make_data(g: &mut G, n: usize, extra: usize) -> (Rows, Rows) {
    let input: Rows = (0..n).map(|i| { let mut r = vec![i as f64]; r.extend(g.fs(extra, -2., 2.)); r }).collect();
    let t = g.int(1, 3);
    let target: Rows = (0..n).map(|_| g.fs(t, -2., 2.)).collect();
    (input, target)
}
/// Follows the recorded calls with the documented update rule.
fn follow(alg: &Alg, n: usize, start: &[f64], calls: &[Call], out: &[f64]) -> Result<usize, engine::Fail> {
    let d = start.len();
    let batch = matches!(alg, Alg::Gd(..));
    let mut x = start.to_vec();
    let mut st = vec![0.; d];
    let per = if batch { 1 } else { n };
    ensure!(calls.len() % per == 0, "{} gradient evaluations do not make whole passes over {} rows", calls.len(), n);
    let passes = calls.len() / per;
    ensure!(passes <= alg.iters(), "{} passes made, {} allowed", passes, alg.iters());
    let near = |a: f64, b: f64, s: f64| a == b || (a - b).abs() <= 1e-11 * s;
    let mut prev: Option<f64> = None;
    let mut stopped = false;
    for p in 0..passes {
        ensure!(!stopped, "went on after a pass whose cost had not changed (pass {})", p);
        let mut seen = vec![false; n];
        let mut total = 0.;
        for (q, c) in calls[p * per..(p + 1) * per].iter().enumerate() {
            for j in 0..d {
                ensure!(near(c.params[j], x[j], 1. + x[j].abs()), "pass {} step {}: parameter {} is {:e}, the update rule gives {:e}", p, q, j, c.params[j], x[j]);
            }
            x = c.params.clone();
            if batch {
                ensure!(c.rows == (0..n).collect::<Vec<_>>(), "the data were handed on as rows {:?}", c.rows);
            } else {
                ensure!(c.rows.len() == 1, "{} rows in one stochastic step", c.rows.len());
                ensure!(!seen[c.rows[0]], "row {} used twice in pass {}", c.rows[0], p);
                seen[c.rows[0]] = true;
            }
            total += c.cost;
            let g = &c.grad;
            if batch {
                // batch descent looks at the cost first and only then moves
                if let Some(q) = prev {
                    if (q - c.cost as f64).abs() < 1e-20 {
                        stopped = true;
                        continue;
                    }
                }
            }
            for j in 0..d {
                match *alg {
                    Alg::Gd(a, _) => x[j] -= a * g[j],
                    Alg::Sgd(a, mu, _) => {
                        let old = st[j];
                        st[j] = mu * g[j] + a * old;
                        x[j] -= (1. + a) * st[j] - a * old;
                    }
                    Alg::Ada(a, tau, _) => {
                        st[j] += g[j] * g[j];
                        let s = tau + st[j].sqrt();
                        if g[j] != 0. {
                            x[j] -= a * g[j] / s;
                        }
                    }
                    Alg::Rms(lr, dec, eps, _) => {
                        st[j] = dec * st[j] + (1. - dec) * g[j] * g[j];
                        x[j] -= lr * g[j] / (st[j] + eps).sqrt();
                    }
                }
            }
        }
        let mean = total / per as f64;
        if let Some(q) = prev {
            if (q - mean).abs() < 1e-20 {
                stopped = true;
            }
        }
        prev = Some(mean);
    }
    for j in 0..d {
        ensure!(near(out[j], x[j], 1. + x[j].abs()), "result {} is {:e}, the update rule gives {:e}", j, out[j], x[j]);
    }
    ensure!(out.len() == d, "{} parameters returned for {}", out.len(), d);
    ensure!(stopped || passes == alg.iters(), "stopped after {} of {} passes although the cost had changed", passes, alg.iters());
    Ok(passes)
}
fn follows_rule(g: &mut G) -> Res {
    let (alg, default) = gen_alg(g, 6);
    let n = g.dim(1, 6);
    let d = g.dim(1, 5);
    let start = g.fs(d, -3., 3.);
    let ex = g.int(0, 2);
    let (input, target) = make_data(g, n, ex);
    // costs: free values, with repeats and zeros; the pass means then coincide now and then
    let ncost = g.size(1, 8);
    let style = g.draw(4);
    let costs: Vec<f64> = g.vec(ncost, |g| match style {
        0 => g.f(-2., 2.),
        1 => g.sint(-1, 1) as f64,
        2 => 0.,
        _ => g.uni(0., 5.),
    });
    let ng = g.size(1, 10);
    let gs = g.scale(-3., 2.);
    let grads: Vec<Vec<f64>> = (0..ng).map(|_| g.fs(d, -1., 1.).iter().map(|x| x * gs).collect()).collect();
    g.note("algorithm", &alg);
    g.note("default", &default);
    g.note("rows", &n);
    g.note("start", &start);
    g.note("costs in turn", &costs);
    g.note("gradients in turn", &grads);
    let seed = g.seed();
    rand::harness::seed(seed);
    let m = Script {
        answer: |k, _: &[f64], _: &[usize]| (costs[k % costs.len()], grads[k % grads.len()].clone()),
        calls: RefCell::new(vec![]),
        input: input.clone(),
        target: target.clone(),
        bad: RefCell::new(None),
    };
    let (im, tm) = (mat(&input, input[0].len()), mat(&target, target[0].len()));
    let out = alg.run(default, &m, &start, &im, &tm);
    if let Some(b) = m.bad.borrow().as_ref() {
        engine::fail!("{}", b);
    }
    let calls = m.calls.borrow();
    let p = follow(&alg, n, &start, &calls, &out)?;
    Ok(p >= 2)
}
/// On convex quadratic sums the parameters go where they should.
fn converges(g: &mut G) -> Res {
    let d = g.dim(1, 4);
    let n = g.dim(1, 8);
    let (mut input, target) = make_data(g, n, 0);
    // row k pulls every parameter towards centre[j] with strength w[k][j] in [0.5, 2]
    let centre = g.fs(d, -3., 3.);
    for r in &mut input {
        for _ in 0..d {
            r.push(g.uni(0.5, 2.));
        }
    }
    let start = g.fs(d, -5., 5.);
    g.note("centre", &centre);
    g.note("weights", &input);
    g.note("start", &start);
    let which = g.draw(4);
    g.note("algorithm", &["GradientDesc", "StochasticGD", "AdaGrad", "RMSProp"][which as usize]);
    let seed = g.seed();
    rand::harness::seed(seed);
    let m = Script {
        answer: |_, p: &[f64], rows: &[usize]| {
            let mut c = 0.;
            let mut gr = vec![0.; d];
            for &r in rows {
                for j in 0..d {
                    let w = input[r][1 + j];
                    c += w * (p[j] - centre[j]) * (p[j] - centre[j]) / 2. / rows.len() as f64;
                    gr[j] += w * (p[j] - centre[j]) / rows.len() as f64;
                }
            }
            (c, gr)
        },
        calls: RefCell::new(vec![]),
        input: input.clone(),
        target: target.clone(),
        bad: RefCell::new(None),
    };
    let (im, tm) = (mat(&input, d + 1), mat(&target, target[0].len()));
    let (out, tol) = match which {
        0 => (GradientDesc::new(0.4, 200).optimize(&m, &start, &im, &tm), 1e-7),
        1 => (StochasticGD::new(0.2, 0.2, 200).optimize(&m, &start, &im, &tm), 1e-7),
        2 => (AdaGrad::new(3., 0.1, 300).optimize(&m, &start, &im, &tm), 1e-4),
        _ => (RMSProp::new(0.02, 0.9, 1e-5, 900).optimize(&m, &start, &im, &tm), 0.1),
    };
    if let Some(b) = m.bad.borrow().as_ref() {
        engine::fail!("{}", b);
    }
    for j in 0..d {
        ensure!((out[j] - centre[j]).abs() <= tol, "parameter {} ended at {}, the minimum is at {} (start {})", j, out[j], centre[j], start[j]);
    }
    Ok(start.iter().zip(&centre).any(|(a, b)| (a - b).abs() > 0.5))
}
fn bad_settings(g: &mut G) -> Res {
    let bad = |g: &mut G| match g.draw(4) {
        0 => 0.,
        1 => -g.scale(-3., 3.),
        2 => f64::NAN,
        _ => -f64::INFINITY,
    };
    let good = |g: &mut G| g.scale(-3., -0.1);
    let n = g.int(0, 50);
    let k = g.draw(8);
    let (name, r) = match k {
        0 => { let a = bad(g); (format!("GradientDesc({}, {})", a, n), guard(|| { GradientDesc::new(a, n); })) }
        1 => { let (a, b) = (bad(g), good(g)); (format!("StochasticGD({}, {}, {})", a, b, n), guard(|| { StochasticGD::new(a, b, n); })) }
        2 => { let (a, b) = (good(g), bad(g)); (format!("StochasticGD({}, {}, {})", a, b, n), guard(|| { StochasticGD::new(a, b, n); })) }
        3 => { let (a, b) = (bad(g), good(g)); (format!("AdaGrad({}, {}, {})", a, b, n), guard(|| { AdaGrad::new(a, b, n); })) }
        4 => {
            let (a, b) = (good(g), bad(g));
            if b == 0. {
                ensure!(guard(|| { AdaGrad::new(a, b, n); }).is_ok(), "AdaGrad rejected tau = 0");
                return Ok(false);
            }
            (format!("AdaGrad({}, {}, {})", a, b, n), guard(|| { AdaGrad::new(a, b, n); }))
        }
        5 => { let (a, b, c) = (bad(g), good(g), good(g)); (format!("RMSProp({}, {}, {}, {})", a, b, c, n), guard(|| { RMSProp::new(a, b, c, n); })) }
        6 => {
            let a = good(g);
            let b = if g.bool() { bad(g) } else { 1. + if g.bool() { 0. } else { g.scale(-3., 2.) } };
            let c = good(g);
            (format!("RMSProp({}, {}, {}, {})", a, b, c, n), guard(|| { RMSProp::new(a, b, c, n); }))
        }
        _ => { let (a, b, c) = (good(g), good(g), bad(g)); (format!("RMSProp({}, {}, {}, {})", a, b, c, n), guard(|| { RMSProp::new(a, b, c, n); })) }
    };
    g.note("settings", &name);
    ensure!(r.is_err(), "{} was accepted", name);
    // and valid ones are not
    let (a, b, c) = (good(g), good(g), good(g));
    ensure!(guard(|| { GradientDesc::new(a, n); StochasticGD::new(a, b, n); AdaGrad::new(a, b, n); RMSProp::new(a, b, c, n); }).is_ok(), "valid settings {:?} rejected", (a, b, c, n));
    Ok(true)
}
/// Each pass of a stochastic method visits the rows in a fresh uniform order.
fn orders(g: &mut G) -> Res {
    let n = g.int(2, 4);
    let which = g.draw(3);
    let passes = g.int(2, 3);
    let runs = if g.tier_thorough { 6000 } else { 1500 };
    g.note("rows", &n);
    g.note("algorithm", &["StochasticGD", "AdaGrad", "RMSProp"][which as usize]);
    g.note("passes", &passes);
    let seed = g.seed();
    rand::harness::seed(seed);
    let input: Rows = (0..n).map(|i| vec![i as f64]).collect();
    let (im, tm) = (mat(&input, 1), mat(&input, 1));
    let mut perms: Vec<Vec<usize>> = vec![];
    let mut counts: Vec<Vec<u64>> = vec![vec![]; passes];
    let mut same = 0u64;
    for _ in 0..runs {
        let m = Script { answer: |k, _: &[f64], _: &[usize]| (k as f64, vec![0.5]), calls: RefCell::new(vec![]), input: input.clone(), target: input.clone(), bad: RefCell::new(None) };
        let _ = match which {
            0 => StochasticGD::new(0.1, 0.1, passes).optimize(&m, &[1.], &im, &tm),
            1 => AdaGrad::new(0.1, 0.1, passes).optimize(&m, &[1.], &im, &tm),
            _ => RMSProp::new(0.1, 0.5, 0.1, passes).optimize(&m, &[1.], &im, &tm),
        };
        let order: Vec<usize> = m.calls.borrow().iter().map(|c| c.rows[0]).collect();
        ensure!(order.len() == n * passes, "{} steps in {} passes over {} rows", order.len(), passes, n);
        for p in 0..passes {
            let o = order[p * n..(p + 1) * n].to_vec();
            let k = match perms.iter().position(|q| q == &o) {
                Some(k) => k,
                None => {
                    perms.push(o);
                    for c in &mut counts {
                        c.push(0);
                    }
                    perms.len() - 1
                }
            };
            counts[p][k] += 1;
        }
        if order[..n] == order[n..2 * n] {
            same += 1;
        }
    }
    let f: usize = (1..=n).product();
    ensure!(perms.len() == f, "only {} of {} orders ever occur", perms.len(), f);
    for p in 0..passes {
        let e = runs as f64 / f as f64;
        let pv = chi2_p(&counts[p], &vec![e; f]);
        ensure!(pv > 1e-9, "orders of pass {} are not uniform: {:?} over {:?} (p = {:e})", p, counts[p], perms, pv);
    }
    let q = 1. / f as f64;
    let sd = (runs as f64 * q * (1. - q)).sqrt();
    ensure!((same as f64 - runs as f64 * q).abs() < 7. * sd, "pass 2 repeats the order of pass 1 in {} of {} runs, {} expected", same, runs, runs as f64 * q);
    Ok(true)
}

// ---------------------------------------------------------------- conjugate gradients
#[derive(Clone, Debug)]
enum Fun {
    /// |A x - b|^2 / 2
    Quad(Rows, Vec<f64>),
    Rosen(f64),
    /// sum of log(1+exp(-y w.x)) + r |w|^2
    Logit(Rows, Vec<f64>, f64),
    /// sin bumps on a quadratic bowl
    Bumpy(Vec<f64>, f64),
    Quartic(Vec<f64>),
}
impl Fun {
    fn at(&self, p: &[f64]) -> (f64, Vec<f64>) {
        match self {
            Fun::Quad(a, b) => {
                let r: Vec<f64> = mulv(a, p).iter().zip(b).map(|(x, y)| x - y).collect();
                (dot(&r, &r) / 2., mulv(&transpose(a), &r))
            }
            Fun::Rosen(k) => {
                let (x, y) = (p[0], p[1]);
                ((1. - x) * (1. - x) + k * (y - x * x) * (y - x * x), vec![-2. * (1. - x) - 4. * k * x * (y - x * x), 2. * k * (y - x * x)])
            }
            Fun::Logit(x, y, r) => {
                let mut c = r * dot(p, p);
                let mut g: Vec<f64> = p.iter().map(|v| 2. * r * v).collect();
                for (row, s) in x.iter().zip(y) {
                    let z = s * dot(row, p);
                    c += if z > 0. { (-z).exp().ln_1p() } else { -z + z.exp().ln_1p() };
                    let k = -s / (1. + z.exp());
                    for j in 0..p.len() {
                        g[j] += k * row[j];
                    }
                }
                (c, g)
            }
            Fun::Bumpy(c, f) => {
                let mut v = 0.;
                let mut g = vec![];
                for (x, m) in p.iter().zip(c) {
                    v += (x - m) * (x - m) / 2. + (f * x).sin();
                    g.push((x - m) + f * (f * x).cos());
                }
                (v, g)
            }
            Fun::Quartic(c) => {
                let mut v = 0.;
                let mut g = vec![];
                for (x, m) in p.iter().zip(c) {
                    let e = x - m;
                    v += e * e * e * e + 0.1 * e * e;
                    g.push(4. * e * e * e + 0.2 * e);
                }
                (v, g)
            }
        }
    }
}
struct FModel {
    f: Fun,
    calls: RefCell<Vec<(Vec<f64>, f64)>>,
}
impl Optimizable for FModel {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) {
        let r = self.f.at(p);
        self.calls.borrow_mut().push((p.to_vec(), r.0));
        r
    }
}
fn gen_fun(g: &mut G) -> (Fun, Vec<f64>) {
    let d = g.dim(1, 6);
    match g.draw(5) {
        0 => {
            let a = gen_rows(g, d + 1, d, -2., 2.);
            let b = g.fs(d + 1, -5., 5.);
            (Fun::Quad(a, b), g.fs(d, -10., 10.))
        }
        1 => (Fun::Rosen(g.scale(0., 2.)), g.fs(2, -2., 2.)),
        2 => {
            let n = g.dim(2, 10);
            let x = gen_rows(g, n, d, -2., 2.);
            let y = g.vec(n, |g| if g.bool() { 1. } else { -1. });
            (Fun::Logit(x, y, g.scale(-2., 0.)), g.fs(d, -3., 3.))
        }
        3 => (Fun::Bumpy(g.fs(d, -5., 5.), g.f(0.5, 4.)), g.fs(d, -10., 10.)),
        _ => (Fun::Quartic(g.fs(d, -3., 3.)), g.fs(d, -5., 5.)),
    }
}
fn gen_cgd(g: &mut G) -> ConjugateGD {
    let mut c = ConjugateGD::default();
    if g.bool() {
        c.iters = g.size(0, 30);
    }
    if g.chance(1, 3) {
        c.max = g.int(1, 20);
    }
    if g.chance(1, 4) {
        c.rho = g.uni(0.001, 0.2);
        c.sig = g.uni(0.25, 0.9);
        c.int = g.uni(0.05, 0.3);
        c.ext = g.uni(2., 5.);
        c.ratio = g.uni(10., 200.);
    }
    c
}
fn cg_never_worse(g: &mut G) -> Res {
    let (f, start) = gen_fun(g);
    let c = gen_cgd(g);
    g.note("function", &f);
    g.note("start", &start);
    g.note("settings", &c);
    let m = FModel { f: f.clone(), calls: RefCell::new(vec![]) };
    let z = Matrix::zeros(1, 1);
    let out = c.optimize(&m, &start, &z, &z);
    ensure!(out.len() == start.len(), "{} parameters returned for {}", out.len(), start.len());
    let (f0, f1) = (f.at(&start).0, f.at(&out).0);
    ensure!(f1 <= f0, "the cost went from {:e} at the start to {:e}", f0, f1);
    if c.iters == 0 {
        ensure!(out == start, "moved without iterations");
    }
    let calls = m.calls.borrow();
    ensure!(calls.len() <= 1 + c.iters * (1 + c.max), "{} evaluations with {} iterations of at most {}", calls.len(), c.iters, c.max);
    ensure!(c.iters == 0 || calls.iter().any(|k| k.0 == out) , "the result is no point at which the cost was evaluated");
    // fewer iterations cannot end lower: the path is the same up to there
    if c.iters >= 2 {
        let mut c2 = c;
        c2.iters = g.int(1, c.iters - 1);
        let half = c2.optimize(&m_clone(&f), &start, &z, &z);
        let fh = f.at(&half).0;
        ensure!(f1 <= fh, "{} iterations reach cost {:e}, {} only {:e}", c2.iters, fh, c.iters, f1);
    }
    Ok(f1 < f0)
}
/// Counts evaluations, and refuses more than allowed.
struct Counted {
    f: Fun,
    calls: Cell<usize>,
    most: usize,
}
impl Optimizable for Counted {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) {
        self.calls.set(self.calls.get() + 1);
        assert!(self.calls.get() <= self.most, "evaluations used up");
        self.f.at(p)
    }
}
/// Bounds beyond the reach of the search are no bounds, whatever their size.
fn cg_unbounded(g: &mut G) -> Res {
    let (f, start) = gen_fun(g);
    let mut c = gen_cgd(g);
    let which = 1 + g.draw(3);
    let mut huge = || match g.draw(10) {
        0 => usize::MAX,
        1 => (1usize << 31) - 1,
        2 => 1 << 31,
        3 => 1 << 32,
        4 => (1 << 32) + g.int(0, 10),
        5 => (1 << 31) + g.int(0, 10),
        6 => usize::MAX / 2 + g.int(0, 10),
        7 => usize::MAX - g.int(0, 100),
        8 => 1usize << g.int(31, 63),
        _ => g.int(1 << 31, usize::MAX >> 1),
    };
    let mut big = c;
    const ENOUGH: usize = 4000;
    if which & 1 != 0 {
        c.iters = ENOUGH;
        big.iters = huge();
    }
    if which & 2 != 0 {
        c.max = ENOUGH;
        big.max = huge();
    }
    g.note("function", &f);
    g.note("start", &start);
    g.note("settings", &big);
    let z = Matrix::zeros(1, 1);
    let m = Counted { f: f.clone(), calls: Cell::new(0), most: ENOUGH };
    let want = match engine::guard(|| c.optimize(&m, &start, &z, &z)) {
        Ok(v) => v,
        Err(_) => return Ok(false), // they are within its reach
    };
    let n = m.calls.get();
    let m = Counted { f: f.clone(), calls: Cell::new(0), most: n };
    match engine::guard(|| big.optimize(&m, &start, &z, &z)) {
        Ok(v) => {
            ensure!(m.calls.get() == n, "the search ends by itself after {} evaluations, but after {} with bounds far beyond it", n, m.calls.get());
            ensure!(same_bits(&v, &want), "the search ends by itself at {:?}, but at {:?} with bounds far beyond it", want, v);
        }
        Err(e) => engine::fail!("the search ends by itself after {} evaluations, but with bounds far beyond it: {}", n, e),
    }
    Ok(n > 3)
}
fn m_clone(f: &Fun) -> FModel {
    FModel { f: f.clone(), calls: RefCell::new(vec![]) }
}
fn cg_converges(g: &mut G) -> Res {
    // strictly convex quadratics and regularised logistic losses, well conditioned
    let d = g.dim(1, 5);
    let f = if g.bool() {
        let mut a = gen_rows(g, d, d, -0.4, 0.4);
        for i in 0..d {
            a[i][i] += if a[i][i] < 0. { -2. } else { 2. };
        }
        Fun::Quad(a, g.fs(d, -5., 5.))
    } else {
        let n = g.dim(2, 10);
        let x = gen_rows(g, n, d, -2., 2.);
        let y = g.vec(n, |g| if g.bool() { 1. } else { -1. });
        Fun::Logit(x, y, g.uni(0.2, 2.))
    };
    let start = g.fs(d, -10., 10.);
    g.note("function", &f);
    g.note("start", &start);
    let m = m_clone(&f);
    let z = Matrix::zeros(1, 1);
    let out = ConjugateGD::default().optimize(&m, &start, &z, &z);
    let (f1, gr) = f.at(&out);
    // the functions are strongly convex with modulus >= 0.4: f - min <= |grad|^2 / 0.8
    ensure!(norm(&gr) <= 1e-3, "gradient {:?} at the result {:?} (cost {:e})", gr, out, f1);
    Ok(norm(&f.at(&start).1) > 0.1)
}

/// A function with regions in which it has no value, or whose gradient is wrong: line searches fail.
#[derive(Clone, Debug)]
struct Hostile {
    f: Fun,
    start: Vec<f64>,
    /// 0: beyond a distance, 1: above a plane, 2: in shells
    region: u64,
    at: f64,
    cost: Option<f64>,
    grad: Option<f64>,
    /// the gradients are multiplied by this, the cost rounded to multiples of that
    factor: f64,
    step: f64,
}
impl Hostile {
    fn at(&self, p: &[f64]) -> (f64, Vec<f64>) {
        let (mut c, mut g) = self.f.at(p);
        let d = dist2(p, &self.start).sqrt();
        let bad = match self.region {
            0 => d > self.at,
            1 => p.iter().zip(&self.start).map(|(x, s)| x - s).sum::<f64>() > self.at,
            _ => d > 0. && (d / self.at).floor() % 2. != 0.,
        };
        for x in g.iter_mut() {
            *x *= self.factor;
        }
        if self.step > 0. {
            c = (c / self.step).floor() * self.step;
        }
        if bad {
            c = self.cost.unwrap_or(c);
            if let Some(v) = self.grad {
                g = vec![v; g.len()];
            }
        }
        (c, g)
    }
}
struct HModel {
    f: Hostile,
    calls: RefCell<Vec<Vec<f64>>>,
}
impl Optimizable for HModel {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) {
        self.calls.borrow_mut().push(p.to_vec());
        self.f.at(p)
    }
}
fn cg_hostile(g: &mut G) -> Res {
    let (f, start) = gen_fun(g);
    let c = gen_cgd(g);
    let none = |g: &mut G| match g.draw(4) {
        0 => None,
        1 => Some(f64::INFINITY),
        _ => Some(f64::NAN),
    };
    let h = Hostile {
        f,
        start: start.clone(),
        region: g.draw(3),
        at: g.scale(-3., 1.),
        cost: none(g),
        grad: none(g),
        factor: if g.chance(1, 6) { -1. } else { 1. },
        step: if g.chance(1, 6) { g.scale(-3., 0.) } else { 0. },
    };
    g.note("function", &h);
    g.note("settings", &c);
    let m = HModel { f: h.clone(), calls: RefCell::new(vec![]) };
    let z = Matrix::zeros(1, 1);
    let out = c.optimize(&m, &start, &z, &z);
    let calls = m.calls.borrow();
    ensure!(calls.len() <= 1 + c.iters * (1 + c.max), "{} evaluations with {} iterations of at most {}", calls.len(), c.iters, c.max);
    ensure!(out == start || calls.iter().any(|k| *k == out), "the result {:?} is no point at which the cost was evaluated", out);
    let (f0, f1) = (h.at(&start).0, h.at(&out).0);
    ensure!(f1 <= f0, "the cost went from {:e} at the start to {:e} at {:?}", f0, f1, out);
    Ok(calls.iter().any(|k| { let r = h.at(k); !r.0.is_finite() || !r.1.iter().all(|x| x.is_finite()) }))
}

// ---------------------------------------------------------------- the published algorithm
/// Rasmussen's fmincg, from its MATLAB text; the points at which it evaluates the cost, the result,
/// and how many of the points are no outcome of differences between nearly equal numbers.
fn fmincg(c: &ConjugateGD, f: &Fun, start: &[f64], most: usize) -> (Vec<Vec<f64>>, Option<Vec<f64>>, usize) {
    let mut seen: Vec<Vec<f64>> = vec![];
    let mut sure = usize::MAX;
    let add = |x: &[f64], s: &[f64], z: f64| -> Vec<f64> { x.iter().zip(s).map(|(a, b)| a + z * b).collect() };
    let neg = |v: &[f64]| -> Vec<f64> { v.iter().map(|a| -a).collect() };
    let mut x = start.to_vec();
    seen.push(x.clone());
    let (mut f1, mut df1) = f.at(&x);
    let mut s = neg(&df1);
    let mut d1 = -dot(&s, &s);
    let mut z1 = 1. / (1. - d1);
    let mut failed = false;
    let mut i = 0;
    while i < c.iters {
        i += 1;
        let (x0, f0) = (x.clone(), f1);
        x = add(&x, &s, z1);
        seen.push(x.clone());
        let (mut f2, mut df2) = f.at(&x);
        let mut d2 = dot(&df2, &s);
        let (mut f3, mut d3, mut z3) = (f1, d1, -z1);
        let mut m = c.max;
        let mut success = false;
        let mut limit: Option<f64> = None;
        loop {
            if seen.len() > most {
                return (seen, None, sure);
            }
            while (f2 > f1 + z1 * c.rho * d1 || d2 > -c.sig * d1) && m > 0 {
                // tighten the bracket
                limit = Some(z1);
                let mut z2 = if f2 > f1 {
                    // quadratic fit
                    z3 - 0.5 * d3 * z3 * z3 / (d3 * z3 + f2 - f3)
                } else {
                    // cubic fit
                    let a = 6. * (f2 - f3) / z3 + 3. * (d2 + d3);
                    let b = 3. * (f3 - f2) - z3 * (d3 + 2. * d2);
                    let root = b * b - a * d2 * z3 * z3;
                    let terms = (6. * (f2 - f3) / z3).abs() + 3. * (d2.abs() + d3.abs());
                    if a.abs() < 1e-4 * terms || root.abs() < 1e-4 * b * b || (b > 0. && (root.sqrt() - b).abs() < 1e-4 * b) || (f3 - f2).abs() < 1e-6 * f2.abs() {
                        sure = sure.min(seen.len());
                    }
                    (root.sqrt() - b) / a
                };
                if !z2.is_finite() {
                    z2 = z3 / 2.;
                }
                z2 = z2.min(c.int * z3).max((1. - c.int) * z3);
                z1 += z2;
                x = add(&x, &s, z2);
                seen.push(x.clone());
                let r = f.at(&x);
                f2 = r.0;
                df2 = r.1;
                m -= 1;
                d2 = dot(&df2, &s);
                z3 -= z2;
            }
            if f2 > f1 + z1 * c.rho * d1 || d2 > -c.sig * d1 {
                break;
            }
            if d2 > c.sig * d1 {
                success = true;
                break;
            }
            if m == 0 {
                break;
            }
            // cubic extrapolation
            let a = 6. * (f2 - f3) / z3 + 3. * (d2 + d3);
            let b = 3. * (f3 - f2) - z3 * (d3 + 2. * d2);
            let root = b * b - a * d2 * z3 * z3;
            let mut z2 = -d2 * z3 * z3 / (b + root.sqrt());
            if root.abs() < 1e-4 * b * b || (b < 0. && (b + root.sqrt()).abs() < 1e-4 * b.abs()) || (f3 - f2).abs() < 1e-6 * f2.abs() {
                sure = sure.min(seen.len());
            }
            z2 = match limit {
                _ if !z2.is_finite() || z2 < 0. => match limit {
                    None => z1 * (c.ext - 1.),
                    Some(l) => (l - z1) / 2.,
                },
                Some(l) if z2 + z1 > l => (l - z1) / 2.,
                None if z2 + z1 > z1 * c.ext => z1 * (c.ext - 1.),
                _ if z2 < -z3 * c.int => -z3 * c.int,
                Some(l) if z2 < (l - z1) * (1. - c.int) => (l - z1) * (1. - c.int),
                _ => z2,
            };
            f3 = f2;
            d3 = d2;
            z3 = -z2;
            z1 += z2;
            x = add(&x, &s, z2);
            seen.push(x.clone());
            let r = f.at(&x);
            f2 = r.0;
            df2 = r.1;
            m -= 1;
            d2 = dot(&df2, &s);
        }
        if success {
            f1 = f2;
            // Polack-Ribiere direction
            let beta = (dot(&df2, &df2) - dot(&df1, &df2)) / dot(&df1, &df1);
            s = s.iter().zip(&df2).map(|(a, b)| beta * a - b).collect();
            df1 = df2;
            d2 = dot(&df1, &s);
            if d2 > 0. {
                s = neg(&df1);
                d2 = -dot(&s, &s);
            }
            z1 *= c.ratio.min(d1 / (d2 - f64::MIN_POSITIVE));
            d1 = d2;
            failed = false;
        } else {
            x = x0;
            f1 = f0;
            if failed {
                break;
            }
            // steepest descent
            df1 = df2;
            s = neg(&df1);
            d1 = -dot(&s, &s);
            z1 = 1. / (1. - d1);
            failed = true;
        }
    }
    (seen, Some(x), sure)
}
fn cg_published(g: &mut G) -> Res {
    let (f, start) = gen_fun(g);
    let c = gen_cgd(g);
    g.note("function", &f);
    g.note("start", &start);
    g.note("settings", &c);
    let d = ConjugateGD::default();
    let set = (d.rho, d.sig, d.int, d.ext, d.max, d.ratio, d.iters);
    ensure!(set == (0.01, 0.5, 0.1, 3., 20, 100., 100), "the default settings are {:?}", set);
    let m = m_clone(&f);
    let z = Matrix::zeros(1, 1);
    let out = c.optimize(&m, &start, &z, &z);
    let calls = m.calls.borrow();
    const MOST: usize = 60;
    let (want, end, sure) = fmincg(&c, &f, &start, MOST);
    // Rounding errors grow from step to step. How fast is seen from starts that differ by a few of them:
    // the points are compared as far as those agree.
    let off: Vec<Vec<Vec<f64>>> = (0..3)
        .map(|k| {
            let s: Vec<f64> = start.iter().enumerate().map(|(j, x)| x + x.abs().max(0.1) * 2e-14 * if (j + k) % 2 == 0 { 1. } else { -1. } * (1. + k as f64)).collect();
            fmincg(&c, &f, &s, MOST).0
        })
        .collect();
    let mut compared = 0;
    let dist = |a: &[f64], b: &[f64]| -> f64 { a.iter().zip(b).map(|(x, y)| (x - y).abs()).fold(0., |m: f64, d| if d.is_nan() { f64::INFINITY } else { m.max(d) }) };
    let mut worst = 1e-11f64;
    let mut all = true;
    for i in 0..want.len().min(MOST) {
        let w = &want[i];
        let size = 1. + w.iter().fold(0f64, |m, x| m.max(x.abs()));
        for o in &off {
            worst = worst.max(if i < o.len() { dist(w, &o[i]) / size } else { f64::INFINITY });
        }
        // at the bottom rounding decides where to go
        let (v, gr) = f.at(w);
        let flat = i > 0 && {
            let u = f.at(&want[i - 1]).0;
            (u - v).abs() <= 1e-8 * (u.abs() + v.abs())
        };
        if !(worst < 1e-7) || i >= sure || flat || norm(&gr) <= 1e-6 {
            all = false;
            break;
        }
        ensure!(i < calls.len(), "the cost is evaluated {} times, the published algorithm goes on with {:?}", calls.len(), w);
        ensure!(calls[i].0.len() == w.len() && dist(&calls[i].0, w) <= 1e3 * worst * size, "evaluation {} is at {:?}, that of the published algorithm at {:?}", i, calls[i].0, w);
        compared += 1;
    }
    if let (true, Some(end)) = (all, end) {
        if off.iter().all(|o| o.len() == want.len()) {
            ensure!(calls.len() == want.len(), "{} evaluations, {} of the published algorithm", calls.len(), want.len());
            ensure!(dist(&out, &end) <= 1e3 * worst * (1. + norm(&end)), "the result is {:?}, that of the published algorithm {:?}", out, end);
        }
    }
    Ok(compared > 3)
}

large!(follows_rule_large, follows_rule, 20);
large!(converges_large, converges, 4);
large!(cg_never_worse_large, cg_never_worse, 8);
large!(cg_published_large, cg_published, 8);
large!(cg_converges_large, cg_converges, 6);
static CHECKS: &[Check] = &[
    Check {
        id: "C13",
        rule: "one of the four methods with random or default settings on a model that answers with generated costs and gradients and records every call (rule), on strongly convex sums (convergence), and many runs for the order of the rows; non-trivial: at least two passes (rule), a start away from the minimum (convergence)",
        sections: &[
            sec("update-rule", 300000, 4000000, follows_rule), sec("large", 600, 6000, follows_rule_large),
            sec("convergence", 9000, 60000, converges), sec("large-convergence", 60, 600, converges_large),
            sec("settings", 60000, 400000, bad_settings),
            sec("orders", 72, 300, orders),
        ],
        assumptions: &["thread_rng is replaced by a seedable stream (shim/rand)", "the linear algebra crate is a stand-in (shim/vendor/rulinalg)"],
    },
    Check {
        id: "C14",
        rule: "quadratics, Rosenbrock, logistic losses, bumpy bowls and quartics of 1..6 parameters, default and random settings; non-trivial: the cost fell",
        sections: &[sec("never-worse", 120000, 2000000, cg_never_worse), sec("large", 800, 10000, cg_never_worse_large), sec("hostile", 80000, 1000000, cg_hostile), sec("unbounded", 20000, 300000, cg_unbounded), sec("convergence", 40000, 600000, cg_converges), sec("large-convergence", 400, 6000, cg_converges_large)],
        assumptions: &["the linear algebra crate is a stand-in (shim/vendor/rulinalg)"],
    },
    Check {
        id: "C42",
        rule: "functions, starts and settings as in C14; the points of evaluation are compared with those of a transcription of the published algorithm, up to 60 of them and as far as rounding errors have not grown to 1e-7; non-trivial: more than three points compared",
        sections: &[sec("published-algorithm", 120000, 1000000, cg_published), sec("large", 1200, 10000, cg_published_large)],
        assumptions: &["the linear algebra crate is a stand-in (shim/vendor/rulinalg)"],
    },
];

fn main() {
    engine::main(CHECKS)
}
