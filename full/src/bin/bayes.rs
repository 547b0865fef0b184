//! Naive Bayes.
use engine::{large, many, close, ensure, guard, sec, Check, Res, G};
use full_checks::*;
use rusty_machine::learning::naive_bayes::{Bernoulli, Distribution, Gaussian, Multinomial, NaiveBayes};
use rusty_machine::learning::SupModel;
use rusty_machine::linalg::{BaseMatrix, Matrix};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Gauss,
    Bern,
    Multi,
}
struct Data {
    kind: Kind,
    x: Rows,
    class: Vec<usize>,
    k: usize,
    d: usize,
}
fn one_hot(class: &[usize], k: usize) -> Matrix<f64> {
    Matrix::from_fn(class.len(), k, |j, i| if class[i] == j { 1. } else { 0. })
}
fn onehot_rows(class: &[usize], k: usize) -> Matrix<f64> {
    let mut v = vec![0.; class.len() * k];
    for (i, &c) in class.iter().enumerate() {
        v[i * k + c] = 1.;
    }
    Matrix::new(class.len(), k, v)
}
fn point(g: &mut G, kind: Kind, d: usize, c: usize, style: u64) -> Vec<f64> {
    match kind {
        Kind::Gauss => (0..d).map(|j| (c as f64 - 1.) * (1. + j as f64) + g.normal() * [1., 0.3, 5.][style as usize % 3] + if style == 4 { 100. } else { 0. }).collect(),
        Kind::Bern => (0..d).map(|j| if g.chance(1 + ((c + j) % 3) as u64, 4) { 1. } else { 0. }).collect(),
        Kind::Multi => (0..d).map(|j| if g.chance(1, 4) { 0. } else { g.int(0, 3 + 9 * ((c + j) % 3)) as f64 }).collect(),
    }
}
fn gen_data(g: &mut G, empty_ok: bool) -> Data {
    let kind = *g.pick(&[Kind::Gauss, Kind::Bern, Kind::Multi]);
    let k = g.dim(1, 5);
    let d = g.dim(1, 6);
    let style = g.draw(5);
    let per = if kind == Kind::Gauss { 2 } else { 1 };
    let mut class = vec![];
    let empty = if empty_ok && k > 1 && g.chance(1, 3) { Some(g.int(0, k - 1)) } else { None };
    for c in 0..k {
        if Some(c) == empty {
            continue;
        }
        for _ in 0..g.rows(per, 8) {
            class.push(c);
        }
    }
    let p = g.perm(class.len());
    let class = permute(&class, &p);
    let x: Rows = class.iter().map(|&c| point(g, kind, d, c, style)).collect();
    g.note("distribution", &kind);
    g.note("classes", &k);
    g.note("inputs", &x);
    g.note("class of each row", &class);
    Data { kind, x, class, k, d }
}
/// Reference: prior, and per class and feature the parameters (mean, variance) or (log-probability, -).
fn reference(t: &Data) -> (Vec<f64>, Vec<Vec<(f64, f64)>>) {
    let n = t.x.len() as f64;
    let mut prior = vec![];
    let mut par = vec![];
    for c in 0..t.k {
        let rows: Vec<&Vec<f64>> = t.x.iter().zip(&t.class).filter(|(_, k)| **k == c).map(|(r, _)| r).collect();
        let m = rows.len() as f64;
        prior.push(m / n);
        let sums: Vec<f64> = (0..t.d).map(|j| rows.iter().map(|r| r[j]).sum()).collect();
        let tot: f64 = sums.iter().sum::<f64>() + t.d as f64;
        par.push(
            (0..t.d)
                .map(|j| match t.kind {
                    Kind::Gauss => {
                        let mu = sums[j] / m;
                        (mu, rows.iter().map(|r| (r[j] - mu) * (r[j] - mu)).sum::<f64>() / (m - 1.))
                    }
                    Kind::Bern => (((sums[j] + 1.) / (m + 2.)).ln(), 0.),
                    Kind::Multi => (((sums[j] + 1.) / tot).ln(), 0.),
                })
                .collect(),
        );
    }
    (prior, par)
}
/// Joint log-likelihood of a row and class, with the size of its terms.
fn joint(t: &Data, prior: f64, par: &[(f64, f64)], row: &[f64]) -> (f64, f64) {
    if prior == 0. {
        return (f64::NEG_INFINITY, 0.);
    }
    let mut s = prior.ln();
    let mut mag = s.abs();
    for (x, &(a, b)) in row.iter().zip(par) {
        let v = match t.kind {
            Kind::Gauss => -0.5 * (2. * std::f64::consts::PI * b).ln() - (x - a) * (x - a) / (2. * b),
            Kind::Bern => x * a + (1. - x) * (1. - a.exp()).ln(),
            Kind::Multi => x * a,
        };
        s += v;
        mag += v.abs();
    }
    (s, mag)
}
enum Model {
    G(NaiveBayes<Gaussian>),
    B(NaiveBayes<Bernoulli>),
    M(NaiveBayes<Multinomial>),
}
macro_rules! with {
    ($m:expr, $n:ident => $e:expr) => {
        match $m {
            Model::G($n) => $e,
            Model::B($n) => $e,
            Model::M($n) => $e,
        }
    };
}
impl Model {
    fn new(k: Kind) -> Model {
        match k {
            Kind::Gauss => Model::G(NaiveBayes::new()),
            Kind::Bern => Model::B(NaiveBayes::new()),
            Kind::Multi => Model::M(NaiveBayes::new()),
        }
    }
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> Result<(), String> {
        with!(self, m => m.train(x, y).map_err(|e| format!("{:?}", e)))
    }
    fn predict(&self, x: &Matrix<f64>) -> Result<Matrix<f64>, String> {
        with!(self, m => m.predict(x).map_err(|e| format!("{:?}", e)))
    }
    fn log_probs(&self, x: &Matrix<f64>) -> Result<Matrix<f64>, String> {
        with!(self, m => m.get_log_probs(x).map_err(|e| format!("{:?}", e)))
    }
    fn prior(&self) -> Option<Vec<f64>> {
        with!(self, m => m.class_prior().cloned())
    }
    fn count(&self) -> Option<usize> {
        with!(self, m => m.cluster_count().cloned())
    }
}
fn check_against(g: &mut G, t: &Data, m: &Model, test: &Rows) -> Res {
    let (prior, par) = reference(t);
    ensure!(m.count() == Some(t.k), "number of classes {:?}, {} expected", m.count(), t.k);
    let pr = m.prior().unwrap_or_default();
    ensure!(engine::all_close(&pr, &prior, 1e-12), "class priors {:?}, class frequencies {:?}", pr, prior);
    for c in 0..t.k {
        if prior[c] == 0. {
            continue;
        }
        for j in 0..t.d {
            let (a, b) = par[c][j];
            match m {
                Model::G(m) => {
                    let d = m.distr().unwrap();
                    ensure!(close(d.theta()[[c, j]], a, 1e-10), "mean of class {} feature {}: {}, {} expected", c, j, d.theta()[[c, j]], a);
                    ensure!(engine::rel_close(d.sigma()[[c, j]], b, 1e-8 * (1. + a * a / b)), "variance of class {} feature {}: {}, {} expected", c, j, d.sigma()[[c, j]], b);
                }
                Model::B(m) => ensure!(close(m.distr().unwrap().log_probs()[[c, j]], a, 1e-11), "log-probability of class {} feature {}: {}, {} expected", c, j, m.distr().unwrap().log_probs()[[c, j]], a),
                Model::M(m) => ensure!(close(m.distr().unwrap().log_probs()[[c, j]], a, 1e-11), "log-probability of class {} feature {}: {}, {} expected", c, j, m.distr().unwrap().log_probs()[[c, j]], a),
            }
        }
    }
    let tm = mat(test, t.d);
    let lp = m.log_probs(&tm)?;
    let out = m.predict(&tm)?;
    ensure!(lp.rows() == test.len() && lp.cols() == t.k, "log-probabilities have shape {}x{}", lp.rows(), lp.cols());
    ensure!(out.rows() == test.len() && out.cols() == t.k, "predictions have shape {}x{}", out.rows(), out.cols());
    let _ = g;
    let mut decided = false;
    for (i, row) in test.iter().enumerate() {
        let want: Vec<(f64, f64)> = (0..t.k).map(|c| joint(t, prior[c], &par[c], row)).collect();
        for c in 0..t.k {
            let tol = 1e-9 * (1. + want[c].1);
            let got = lp[[i, c]];
            ensure!(got == want[c].0 || (got - want[c].0).abs() <= tol, "log-probability of class {} for {:?} is {}, the model's formula gives {}", c, row, got, want[c].0);
        }
        let ones: Vec<usize> = (0..t.k).filter(|&c| out[[i, c]] == 1.).collect();
        let zeros = (0..t.k).filter(|&c| out[[i, c]] == 0.).count();
        ensure!(ones.len() == 1 && zeros == t.k - 1, "prediction {:?} is not one class", out.select_rows(&[i]).data());
        let best = want.iter().map(|w| w.0).fold(f64::NEG_INFINITY, f64::max);
        let tol = 1e-9 * (1. + want.iter().filter(|w| w.0.is_finite()).map(|w| w.1).fold(0., f64::max));
        ensure!(want[ones[0]].0 >= best - tol, "class {} (log-probability {}) predicted for {:?}, the most probable has {}", ones[0], want[ones[0]].0, row, best);
        decided |= t.k > 1;
    }
    Ok(decided)
}
fn posterior(g: &mut G) -> Res {
    let t = gen_data(g, false);
    if t.kind == Kind::Gauss {
        let (_, par) = reference(&t);
        if par.iter().flatten().any(|p| !(p.1 > 1e-9)) {
            return Ok(false);
        }
    }
    let nt = g.rows(1, 6);
    let st = g.draw(5);
    let test: Rows = (0..nt).map(|_| { let c = g.int(0, t.k - 1); point(g, t.kind, t.d, c, st) }).collect();
    g.note("new rows", &test);
    let mut m = Model::new(t.kind);
    m.train(&mat(&t.x, t.d), &onehot_rows(&t.class, t.k)).map_err(|e| format!("training failed: {}", e))?;
    check_against(g, &t, &m, &test)
}
fn empty_classes(g: &mut G) -> Res {
    let t = gen_data(g, true);
    if t.class.is_empty() {
        return Ok(false);
    }
    if t.kind == Kind::Gauss {
        let (pr, par) = reference(&t);
        if par.iter().zip(&pr).any(|(r, p)| *p > 0. && r.iter().any(|q| !(q.1 > 1e-9))) {
            return Ok(false);
        }
    }
    let nt = g.size(1, 6);
    let test: Rows = (0..nt).map(|_| { let c = g.int(0, t.k - 1); point(g, t.kind, t.d, c, 0) }).collect();
    g.note("new rows", &test);
    let mut m = Model::new(t.kind);
    m.train(&mat(&t.x, t.d), &onehot_rows(&t.class, t.k)).map_err(|e| format!("training failed: {}", e))?;
    check_against(g, &t, &m, &test)?;
    Ok((0..t.k).any(|c| !t.class.contains(&c)))
}
/// The order of the rows and of the classes does not matter.
fn relabel(g: &mut G) -> Res {
    let t = gen_data(g, false);
    let nt = g.size(1, 5);
    let test: Rows = (0..nt).map(|_| { let c = g.int(0, t.k - 1); point(g, t.kind, t.d, c, 0) }).collect();
    let pr = g.perm(t.x.len());
    let pc = g.perm(t.k);
    g.note("row order", &pr);
    g.note("class numbers", &pc);
    g.note("new rows", &test);
    let tm = mat(&test, t.d);
    let mut a = Model::new(t.kind);
    let mut b = Model::new(t.kind);
    let ra = a.train(&mat(&t.x, t.d), &onehot_rows(&t.class, t.k));
    let c2: Vec<usize> = pr.iter().map(|&i| pc[t.class[i]]).collect();
    let rb = b.train(&mat(&permute(&t.x, &pr), t.d), &onehot_rows(&c2, t.k));
    ensure!(ra.is_ok() && rb.is_ok(), "training gave {:?} and, reordered, {:?}", ra, rb);
    let (la, lb) = (a.log_probs(&tm)?, b.log_probs(&tm)?);
    for i in 0..nt {
        for c in 0..t.k {
            let (u, v) = (la[[i, c]], lb[[i, pc[c]]]);
            if u.is_finite() && v.is_finite() && u.abs() < 1e8 {
                ensure!(close(u, v, 1e-7), "log-probability of class {} is {}, after reordering {}", c, u, v);
            }
        }
    }
    let _ = one_hot;
    Ok(t.k > 1)
}
/// A failed training reports an error and leaves the model usable as it was.
fn failures(g: &mut G) -> Res {
    let t = gen_data(g, false);
    let (pr, par) = reference(&t);
    if t.kind == Kind::Gauss && par.iter().flatten().any(|p| !(p.1 > 1e-9)) {
        return Ok(false);
    }
    let _ = pr;
    let fresh = g.bool();
    let test: Rows = vec![point(g, t.kind, t.d, 0, 0), point(g, t.kind, t.d, t.k - 1, 0)];
    let tm = mat(&test, t.d);
    let mut m = Model::new(t.kind);
    if !fresh {
        m.train(&mat(&t.x, t.d), &onehot_rows(&t.class, t.k)).map_err(|e| format!("training failed: {}", e))?;
    }
    let bad = g.draw(4);
    g.note("kind of bad data", &["a row without class", "a one-sample class (Gaussian)", "more targets than inputs", "more inputs than targets"][bad as usize]);
    let d2 = g.size(1, 4);
    let k2 = g.size(2, 4);
    let n2 = g.size(3, 8);
    let mut y2: Vec<usize> = (0..n2).map(|i| if k2 > 1 { 1 + i % (k2 - 1) } else { 0 }).collect();
    let mut xs: Rows = (0..n2).map(|i| point(g, t.kind, d2, y2[i], 0)).collect();
    let mut ym;
    match bad {
        0 => {
            ym = onehot_rows(&y2, k2);
            let r = g.int(0, n2 - 1);
            ym[[r, y2[r]]] = if g.bool() { 0. } else { 0.5 };
        }
        1 => {
            if t.kind != Kind::Gauss {
                return Ok(false);
            }
            y2[n2 - 1] = 0;
            if y2.iter().filter(|c| **c == 0).count() != 1 {
                return Ok(false);
            }
            ym = onehot_rows(&y2, k2);
        }
        2 => {
            let mut y3 = y2.clone();
            for _ in 0..g.int(1, 3) {
                y3.push(0);
            }
            ym = onehot_rows(&y3, k2);
        }
        _ => {
            for _ in 0..g.int(1, 3) {
                let p = point(g, t.kind, d2, 0, 0);
                xs.push(p);
            }
            ym = onehot_rows(&y2, k2);
        }
    }
    g.note("bad inputs", &xs);
    g.note("bad targets", &rows_of(&ym));
    let xm = mat(&xs, d2);
    let r = guard(|| m.train(&xm, &ym));
    match r {
        Ok(Err(_)) => {}
        Ok(Ok(())) => engine::fail!("training on bad data succeeded"),
        Err(e) => engine::fail!("training on bad data panics: {}", e),
    }
    if fresh {
        ensure!(m.predict(&tm).is_err() && m.log_probs(&tm).is_err(), "a model whose only training failed predicts");
        ensure!(m.prior().is_none() && m.count().is_none(), "a model whose only training failed has priors {:?}", m.prior());
    } else {
        check_against(g, &t, &m, &test)?;
    }
    Ok(true)
}
/// A user-defined distribution is driven as documented: one update per class that has data.
#[derive(Debug)]
struct Recorder {
    k: usize,
    d: usize,
    seen: Vec<(usize, Rows)>,
}
impl Distribution for Recorder {
    fn from_model_params(class_count: usize, features: usize) -> Recorder {
        Recorder { k: class_count, d: features, seen: vec![] }
    }
    fn update_params(&mut self, data: &Matrix<f64>, class: usize) -> rusty_machine::learning::LearningResult<()> {
        self.seen.push((class, rows_of(data)));
        Ok(())
    }
    fn joint_log_lik(&self, data: &Matrix<f64>, prior: &[f64]) -> rusty_machine::learning::LearningResult<Matrix<f64>> {
        let mut v = vec![];
        for r in rows_of(data) {
            for c in 0..prior.len() {
                v.push(-(r[0] - c as f64).abs() + prior[c] * 1e-3);
            }
        }
        Ok(Matrix::new(data.rows(), prior.len(), v))
    }
}
fn custom(g: &mut G) -> Res {
    let t = gen_data(g, true);
    if t.class.is_empty() {
        return Ok(false);
    }
    let mut m = NaiveBayes::<Recorder>::new();
    m.train(&mat(&t.x, t.d), &onehot_rows(&t.class, t.k)).map_err(|e| format!("training failed: {}", e))?;
    let r = m.distr().unwrap();
    ensure!(r.k == t.k && r.d == t.d, "distribution made for {} classes and {} features, {} and {} expected", r.k, r.d, t.k, t.d);
    let mut seen = r.seen.iter().map(|s| s.0).collect::<Vec<_>>();
    seen.sort();
    let mut have = t.class.clone();
    have.sort();
    have.dedup();
    ensure!(seen == have, "classes updated {:?}, classes with data {:?}", seen, have);
    for (c, rows) in &r.seen {
        let mut a: Rows = t.x.iter().zip(&t.class).filter(|(_, k)| *k == c).map(|(r, _)| r.clone()).collect();
        let mut b = rows.clone();
        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
        b.sort_by(|x, y| x.partial_cmp(y).unwrap());
        ensure!(a == b, "class {} was given rows {:?}, {:?} belong to it", c, rows, a);
    }
    let x = have[g.int(0, have.len() - 1)];
    let out = m.predict(&Matrix::new(1, t.d, vec![x as f64; t.d])).map_err(|e| format!("prediction failed: {}", e))?;
    ensure!(out.data().iter().position(|v| *v == 1.) == Some(x), "prediction {:?}, class {} is the most probable", out.data(), x);
    Ok(have.len() > 1)
}

large!(posterior_large, posterior, 20);
large!(relabel_large, relabel, 12);
many!(posterior_many, posterior, 9000);
static CHECKS: &[Check] = &[Check {
    id: "C19",
    rule: "Gaussian, Bernoulli or multinomial data of 1..5 classes, 1..6 features and up to 8 rows per class in any order, some with classes without data; non-trivial: more than one class",
    sections: &[
        sec("posterior", 180000, 2000000, posterior), sec("large", 600, 6000, posterior_large), sec("many-rows", 20, 200, posterior_many),
        sec("empty-classes", 60000, 600000, empty_classes),
        sec("relabelling", 45000, 500000, relabel), sec("large-relabelling", 600, 6000, relabel_large),
        sec("failures", 45000, 500000, failures),
        sec("custom-distribution", 30000, 300000, custom),
    ],
    assumptions: &["the linear algebra crate is a stand-in (shim/vendor/rulinalg)"],
}];

fn main() {
    engine::main(CHECKS)
}
