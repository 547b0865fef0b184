//! What every model promises: no answers before training, none for data of the wrong shape, training
//! again forgets, rows are predicted one by one, the order of the training rows is of no importance.
use engine::{large, many, close, ensure, guard, sec, Check, Res, G};
use full_checks::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::glm::{self, GenLinearModel};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{Bernoulli, Gaussian, Multinomial, NaiveBayes};
use rusty_machine::learning::nnet::{BCECriterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn;
use rusty_machine::learning::toolkit::kernel::*;
use rusty_machine::learning::{LearningResult, SupModel, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};

/// Any model, on nested vectors.  A panic counts as a refusal, like an error.
trait Model {
    fn train(&mut self, x: &Rows, y: &[f64]) -> Result<(), String>;
    fn predict(&self, x: &Rows) -> Result<Rows, String>;
}
fn flat<T>(r: Result<LearningResult<T>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{}", e)),
        Err(p) => Err(p),
    }
}
fn m(x: &Rows) -> Matrix<f64> {
    mat(x, if x.is_empty() { 0 } else { x[0].len() })
}
struct Reg<T>(T);
impl<T: SupModel<Matrix<f64>, Vector<f64>>> Model for Reg<T> {
    fn train(&mut self, x: &Rows, y: &[f64]) -> Result<(), String> {
        flat(guard(|| self.0.train(&m(x), &vecd(y))))
    }
    fn predict(&self, x: &Rows) -> Result<Rows, String> {
        flat(guard(|| self.0.predict(&m(x)))).map(|v| v.into_vec().into_iter().map(|a| vec![a]).collect())
    }
}
/// Targets are class numbers; the model wants indicator rows.
struct Hot<T>(T, usize);
impl<T: SupModel<Matrix<f64>, Matrix<f64>>> Model for Hot<T> {
    fn train(&mut self, x: &Rows, y: &[f64]) -> Result<(), String> {
        let t: Rows = y.iter().map(|c| (0..self.1).map(|j| if j == *c as usize { 1. } else { 0. }).collect()).collect();
        let c = self.1;
        flat(guard(|| self.0.train(&m(x), &mat(&t, c))))
    }
    fn predict(&self, x: &Rows) -> Result<Rows, String> {
        flat(guard(|| self.0.predict(&m(x)))).map(|v| rows_of(&v))
    }
}
struct Knn<T>(T);
impl<T: SupModel<Matrix<f64>, Vector<usize>>> Model for Knn<T> {
    fn train(&mut self, x: &Rows, y: &[f64]) -> Result<(), String> {
        let t: Vec<usize> = y.iter().map(|c| *c as usize).collect();
        flat(guard(|| self.0.train(&m(x), &Vector::new(t.clone()))))
    }
    fn predict(&self, x: &Rows) -> Result<Rows, String> {
        flat(guard(|| self.0.predict(&m(x)))).map(|v| v.into_vec().into_iter().map(|a| vec![a as f64]).collect())
    }
}
struct Km<T>(T);
impl<T: UnSupModel<Matrix<f64>, Vector<usize>>> Model for Km<T> {
    fn train(&mut self, x: &Rows, _: &[f64]) -> Result<(), String> {
        flat(guard(|| self.0.train(&m(x))))
    }
    fn predict(&self, x: &Rows) -> Result<Rows, String> {
        flat(guard(|| self.0.predict(&m(x)))).map(|v| v.into_vec().into_iter().map(|a| vec![a as f64]).collect())
    }
}
struct Un<T>(T);
impl<T: UnSupModel<Matrix<f64>, Matrix<f64>>> Model for Un<T> {
    fn train(&mut self, x: &Rows, _: &[f64]) -> Result<(), String> {
        flat(guard(|| self.0.train(&m(x))))
    }
    fn predict(&self, x: &Rows) -> Result<Rows, String> {
        flat(guard(|| self.0.predict(&m(x)))).map(|v| rows_of(&v))
    }
}
struct Db(DBSCAN);
impl Model for Db {
    fn train(&mut self, x: &Rows, _: &[f64]) -> Result<(), String> {
        flat(guard(|| self.0.train(&m(x))))
    }
    fn predict(&self, x: &Rows) -> Result<Rows, String> {
        flat(guard(|| self.0.predict(&m(x)))).map(|v| v.into_vec().into_iter().map(|a| vec![a.map(|c| c as f64).unwrap_or(-1.)]).collect())
    }
}
/// Starts from the corners of a fixed grid.
#[derive(Debug)]
struct Fixed;
impl Initializer for Fixed {
    fn init_centroids(&self, k: usize, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        let d = x.cols();
        Ok(Matrix::new(k, d, (0..k * d).map(|i| ((i / d) as f64 - 1.) * (1. + 0.1 * (i % d) as f64)).collect::<Vec<_>>()))
    }
}

/// What the targets of a model are
#[derive(Debug, Clone, Copy, PartialEq)]
enum Y {
    Real,
    Binary, // 0, 1
    Sign,   // -1, 1
    Count,
    Class,
    None,
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum K {
    Lin, LinGd, LogGd, LogCg, GlmB, GlmN, GlmP, NbG, NbB, NbM, SvmS, SvmL, GpS, GpR, NetGd, NetSgd, NetAda, NetRms,
    KnnKd, KnnBall, KnnBrute, Kpp, Forg, RandPart, KFixed, GmmF, GmmR, GmmD, Dbs, Pca, PcaN,
}
use K::*;
const ALL: &[K] = &[Lin, LinGd, LogGd, LogCg, GlmB, GlmN, GlmP, NbG, NbB, NbM, SvmS, SvmL, GpS, GpR, NetGd, NetSgd, NetAda, NetRms, KnnKd, KnnBall, KnnBrute, Kpp, Forg, RandPart, KFixed, GmmF, GmmR, GmmD, Dbs, Pca, PcaN];
/// Hyperparameters
#[derive(Debug, Clone)]
struct H {
    a: f64,
    k: usize,
    leaf: usize,
    iters: usize,
    hidden: usize,
    classes: usize,
}
fn hyper(g: &mut G) -> H {
    H { a: g.uni(0.3, 2.), k: g.int(1, 3), leaf: g.int(2, 4), iters: g.int(1, 15), hidden: g.int(1, 3), classes: g.int(1, 3) }
}
struct LinGdModel(LinRegressor);
impl Model for LinGdModel {
    fn train(&mut self, x: &Rows, y: &[f64]) -> Result<(), String> {
        guard(|| self.0.train_with_optimization(&m(x), &vecd(y)))
    }
    fn predict(&self, x: &Rows) -> Result<Rows, String> {
        flat(guard(|| self.0.predict(&m(x)))).map(|v| v.into_vec().into_iter().map(|a| vec![a]).collect())
    }
}
fn target(k: K) -> Y {
    match k {
        Lin | LinGd | GlmN | GpS | GpR => Y::Real,
        LogGd | LogCg | GlmB => Y::Binary,
        SvmS | SvmL => Y::Sign,
        GlmP => Y::Count,
        NbG | NbB | NbM | NetGd | NetSgd | NetAda | NetRms | KnnKd | KnnBall | KnnBrute => Y::Class,
        _ => Y::None,
    }
}
fn new(k: K, h: &H, d: usize) -> Box<dyn Model> {
    let gd = || GradientDesc::new(0.1, h.iters);
    let sizes = [d, h.hidden, h.classes];
    let gmm = |o: CovOption| {
        let mut g = GaussianMixtureModel::new(h.k);
        g.cov_option = o;
        g.set_max_iters(h.iters);
        Box::new(Un(g))
    };
    match k {
        Lin => Box::new(Reg(LinRegressor::default())),
        LinGd => Box::new(LinGdModel(LinRegressor::default())),
        LogGd => Box::new(Reg(LogisticRegressor::new(gd()))),
        LogCg => Box::new(Reg(LogisticRegressor::new(ConjugateGD::default()))),
        GlmB => Box::new(Reg(GenLinearModel::new(glm::Bernoulli))),
        GlmN => Box::new(Reg(GenLinearModel::new(glm::Normal))),
        GlmP => Box::new(Reg(GenLinearModel::new(glm::Poisson))),
        NbG => Box::new(Hot(NaiveBayes::<Gaussian>::new(), h.classes)),
        NbB => Box::new(Hot(NaiveBayes::<Bernoulli>::new(), h.classes)),
        NbM => Box::new(Hot(NaiveBayes::<Multinomial>::new(), h.classes)),
        SvmS => {
            let mut s = SVM::new(SquaredExp::new(h.a, 1.), 0.3);
            s.optim_iters = h.iters + 5;
            Box::new(Reg(s))
        }
        SvmL => {
            let mut s = SVM::new(Linear::new(h.a), 0.3);
            s.optim_iters = h.iters + 5;
            Box::new(Reg(s))
        }
        GpS => Box::new(Reg(GaussianProcess::new(SquaredExp::new(h.a, 1.), ConstMean::default(), 0.1))),
        GpR => Box::new(Reg(GaussianProcess::new(RationalQuadratic::new(1., h.a), ConstMean::default(), 0.1))),
        NetGd => Box::new(Hot(NeuralNet::mlp(&sizes, BCECriterion::default(), gd(), activ_fn::Sigmoid), h.classes)),
        NetSgd => Box::new(Hot(NeuralNet::mlp(&sizes, MSECriterion::default(), StochasticGD::new(0.1, 0.1, h.iters), activ_fn::Tanh), h.classes)),
        NetAda => Box::new(Hot(NeuralNet::mlp(&sizes, MSECriterion::default(), AdaGrad::new(0.1, 1., h.iters), activ_fn::Sigmoid), h.classes)),
        NetRms => Box::new(Hot(NeuralNet::mlp(&sizes, MSECriterion::default(), RMSProp::new(0.01, 0.9, 1e-5, h.iters), activ_fn::Linear), h.classes)),
        KnnKd => Box::new(Knn(KNNClassifier::new_specified(h.k, KDTree::new(h.leaf)))),
        KnnBall => Box::new(Knn(KNNClassifier::new_specified(h.k, BallTree::new(h.leaf)))),
        KnnBrute => Box::new(Knn(KNNClassifier::new_specified(h.k, BruteForce::new()))),
        Kpp => Box::new(Km(KMeansClassifier::new_specified(h.k, h.iters, KPlusPlus))),
        Forg => Box::new(Km(KMeansClassifier::new_specified(h.k, h.iters, Forgy))),
        RandPart => Box::new(Km(KMeansClassifier::new_specified(h.k, h.iters, RandomPartition))),
        KFixed => Box::new(Km(KMeansClassifier::new_specified(h.k, h.iters, Fixed))),
        GmmF => gmm(CovOption::Full),
        GmmR => gmm(CovOption::Regularized(0.1)),
        GmmD => gmm(CovOption::Diagonal),
        Dbs => {
            let mut m = DBSCAN::new(h.a, h.k);
            m.set_predictive(true);
            Box::new(Db(m))
        }
        Pca => Box::new(Un(PCA::default())),
        PcaN => Box::new(Un(PCA::new(1, h.iters % 2 == 0))),
    }
}
/// Training data a model of this kind can learn from.
fn data(g: &mut G, k: K, h: &H, n: usize, d: usize) -> (Rows, Vec<f64>) {
    let x: Rows = match k {
        NbB => (0..n).map(|_| (0..d).map(|_| g.int(0, 1) as f64).collect()).collect(),
        NbM => (0..n).map(|_| (0..d).map(|_| g.int(0, 6) as f64).collect()).collect(),
        _ => gen_generic(g, n, d),
    };
    let y: Vec<f64> = match target(k) {
        Y::Real => (0..n).map(|_| g.normal()).collect(),
        Y::Binary => (0..n).map(|_| g.int(0, 1) as f64).collect(),
        Y::Sign => (0..n).map(|_| g.int(0, 1) as f64 * 2. - 1.).collect(),
        Y::Count => (0..n).map(|_| g.int(0, 5) as f64 + 0.5).collect(),
        Y::Class => (0..n).map(|i| if i < 2 * h.classes { (i % h.classes) as f64 } else { g.int(0, h.classes - 1) as f64 }).collect(),
        Y::None => vec![0.; n],
    };
    (x, y)
}
fn points(g: &mut G, k: K, x: &Rows, n: usize) -> Rows {
    let d = x[0].len();
    (0..n)
        .map(|_| {
            if g.chance(1, 4) {
                let i = g.int(0, x.len() - 1);
                return x[i].clone();
            }
            match k {
                NbB => (0..d).map(|_| g.int(0, 1) as f64).collect(),
                NbM => (0..d).map(|_| g.int(0, 6) as f64).collect(),
                _ => {
                    let i = g.int(0, x.len() - 1);
                    x[i].iter().map(|v| v + g.normal()).collect()
                }
            }
        })
        .collect()
}
fn same(a: &Rows, b: &Rows, tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p.len() == q.len() && p.iter().zip(q).all(|(u, v)| u.to_bits() == v.to_bits() || (u.is_nan() && v.is_nan()) || close(*u, *v, tol)))
}

/// A size: as `int`, or beyond hi in the sections of large cases.
fn sz(g: &mut G, lo: usize, hi: usize) -> usize {
    if g.boost == 1 { g.int(lo, hi) } else { g.dim(lo, hi) }
}
fn is_gp(k: K) -> bool {
    matches!(k, GpS | GpR)
}
fn is_glm(k: K) -> bool {
    matches!(k, GlmB | GlmN | GlmP)
}
/// A number of rows for training such a model, whose cost may be cubic in it.
fn szr(g: &mut G, k: K, lo: usize, hi: usize) -> usize {
    if g.rows_max == 0 {
        return sz(g, lo, hi);
    }
    let m = g.rows_max;
    g.rows_max = m.min(if is_gp(k) { 120 } else if is_glm(k) { 700 } else { usize::MAX });
    let n = g.rows(lo, hi);
    if is_gp(k) {
        g.rows_max = m.min(400);
    }
    n
}

// ---------------------------------------------------------------- refusals
fn untrained(g: &mut G) -> Res {
    let k = *g.pick(ALL);
    let h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 1, 5);
    let x = gen_rows(g, n, d, -2., 2.);
    g.note("model, settings", &(k, &h));
    g.note("rows", &x);
    if matches!(k, NetGd | NetSgd | NetAda | NetRms) {
        // a net predicts with its initial weights
        let m = new(k, &h, d);
        let r = m.predict(&x)?;
        ensure!(r.len() == n && r.iter().all(|r| r.len() == h.classes), "a new net answers {:?}", r);
        return Ok(true);
    }
    let m = new(k, &h, d);
    let r = m.predict(&x);
    ensure!(r.is_err(), "untrained, it answers {:?}", r);
    // an error, not a panic
    let e = r.unwrap_err();
    ensure!(!e.contains("panicked at"), "untrained, it panics: {}", e);
    Ok(true)
}
fn columns(g: &mut G) -> Res {
    let k = *g.pick(ALL);
    let h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 9, 14);
    let seed = g.seed();
    let (x, y) = data(g, k, &h, n, d);
    let e = { let e = g.int(1, 6); if e == d { d + 1 } else { e } };
    let q = { let nq = g.int(1, 5); gen_rows(g, nq, e, 0., 2.) };
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("asked for", &q);
    rand::harness::seed(seed);
    let mut m = new(k, &h, d);
    if m.train(&x, &y).is_err() {
        return Ok(false);
    }
    let t = points(g, k, &x, 3);
    let before = m.predict(&t);
    if before.is_err() {
        return Ok(false);
    }
    let r = m.predict(&q);
    ensure!(r.is_err(), "trained on {} columns, it answers {:?} for {}", d, r, e);
    let after = m.predict(&t);
    ensure!(match (&before, &after) { (Ok(a), Ok(b)) => a.len() == 3 && same(a, b, 0.), _ => false }, "before the refusal it answers {:?}, after it {:?}", before, after);
    Ok(true)
}
fn heights(g: &mut G) -> Res {
    let k = { let s: Vec<K> = ALL.iter().cloned().filter(|k| target(*k) != Y::None).collect(); *g.pick(&s) };
    let h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 7, 12);
    let seed = g.seed();
    let (x, y) = data(g, k, &h, n, d);
    let (mut xs, mut ys) = (x.clone(), y.clone());
    let by = g.int(1, 3);
    if g.bool() {
        xs.truncate(n - by);
    } else {
        ys.truncate(n - by);
    }
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("rows", &xs);
    g.note("targets", &ys);
    rand::harness::seed(seed);
    let mut m = new(k, &h, d);
    let r = m.train(&xs, &ys);
    ensure!(r.is_err(), "{} rows with {} targets are learned from", xs.len(), ys.len());
    Ok(true)
}
// ---------------------------------------------------------------- training again
fn again(g: &mut G) -> Res {
    // Nets go on from their weights and mixtures from their mixture weights: by design.
    let s: Vec<K> = ALL.iter().cloned().filter(|k| !matches!(k, NetGd | NetSgd | NetAda | NetRms | GmmF | GmmR | GmmD)).collect();
    let k = *g.pick(&s);
    let h = hyper(g);
    let times = g.int(1, 3);
    let seed = g.seed();
    let mut before = vec![];
    for _ in 0..times {
        let d = sz(g, 1, 4);
        let n = szr(g, k, 2, 14);
        let mut h2 = h.clone();
        if matches!(k, NbG | NbB | NbM) {
            h2.classes = h.classes;
        }
        before.push(data(g, k, &h2, n, d));
    }
    let d = sz(g, 1, 4);
    let n = szr(g, k, 2, 14);
    let (x, y) = data(g, k, &h, n, d);
    let q = points(g, k, &x, 6);
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained before on", &before);
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("asked for", &q);
    let mut fresh = new(k, &h, d);
    rand::harness::seed(seed);
    let rf = fresh.train(&x, &y);
    let mut old = new(k, &h, d);
    let mut ok = 0;
    for (bx, by) in &before {
        if old.train(bx, by).is_ok() {
            ok += 1;
        }
    }
    rand::harness::seed(seed);
    let ro = old.train(&x, &y);
    ensure!(rf.is_ok() == ro.is_ok(), "a new model: {:?}, one trained before: {:?}", rf, ro);
    if rf.is_err() {
        return Ok(false);
    }
    let (pf, po) = (fresh.predict(&q), old.predict(&q));
    match (&pf, &po) {
        (Ok(a), Ok(b)) => ensure!(same(a, b, 0.), "a new model answers {:?}, one trained before {:?}", a, b),
        (Err(_), Err(_)) => return Ok(false),
        _ => engine::fail!("a new model: {:?}, one trained before: {:?}", pf, po),
    }
    Ok(ok > 0)
}
// ---------------------------------------------------------------- row by row
fn rowwise(g: &mut G) -> Res {
    let k = *g.pick(ALL);
    let h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 5, 14);
    let seed = g.seed();
    let (x, y) = data(g, k, &h, n, d);
    let nq = g.rows(1, 9);
    let q = points(g, k, &x, nq);
    let p: Vec<usize> = { let m = g.int(1, 2 * nq); g.vec(m, |g| g.int(0, nq - 1)) };
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("asked for", &q);
    g.note("and for these of them", &p);
    rand::harness::seed(seed);
    let mut m = new(k, &h, d);
    if m.train(&x, &y).is_err() {
        return Ok(false);
    }
    let all = match m.predict(&q) {
        Ok(a) => a,
        Err(_) => return Ok(false),
    };
    ensure!(all.len() == nq, "{} answers for {} rows", all.len(), nq);
    ensure!(same(&all, &m.predict(&q)?, 0.), "asked twice, it answers differently");
    for i in 0..nq {
        let one = m.predict(&vec![q[i].clone()])?;
        ensure!(same(&one, &vec![all[i].clone()], 1e-12), "row {} alone: {:?}, among others: {:?}", i, one, all[i]);
    }
    let sel = m.predict(&permute(&q, &p))?;
    ensure!(same(&sel, &permute(&all, &p), 1e-12), "rows {:?}: {:?}, expected {:?}", p, sel, permute(&all, &p));
    Ok(nq > 1)
}
// ---------------------------------------------------------------- order of training rows
fn order(g: &mut G) -> Res {
    let s = [Lin, LogGd, GlmB, GlmN, GlmP, NbG, NbB, NbM, GpS, GpR, NetGd, KnnKd, KnnBall, KnnBrute, KFixed, Dbs, Pca, PcaN];
    let k = *g.pick(&s);
    let h = hyper(g);
    let d = sz(g, 1, 3);
    let n = szr(g, k, 8, 14);
    let seed = g.seed();
    let (x, y) = data(g, k, &h, n, d);
    let p = g.perm(n);
    let q = points(g, k, &x, 6);
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("order", &p);
    g.note("asked for", &q);
    let (px, py) = (permute(&x, &p), permute(&y, &p));
    let fit = |x: &Rows, y: &[f64]| {
        rand::harness::seed(seed);
        let mut m = new(k, &h, d);
        m.train(x, y).and_then(|_| m.predict(&q))
    };
    let (a, b) = (fit(&x, &y), fit(&px, &py));
    // badly conditioned fits have no digits to compare
    let design: Rows = x.iter().map(|r| std::iter::once(1.).chain(r.iter().cloned()).collect()).collect();
    let cond = sym_cond(&mul(&transpose(&design), &design));
    if matches!(k, Lin | GlmB | GlmN | GlmP | LogGd | NetGd) && !(cond < 1e6) {
        return Ok(false);
    }
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return Ok(false),
        // a separable or degenerate fit fails at one rounding and not at another
        (a, b) if matches!(k, GlmB | GlmP) => { let _ = (a, b); return Ok(false) }
        (a, b) => engine::fail!("in one order {:?}, in the other {:?}", a, b),
    };
    let tol = match k {
        GlmB | GlmP => {
            if a.iter().chain(&b).any(|r| !(r[0] > 1e-3 && r[0] < if k == GlmB { 0.999 } else { 50. })) {
                return Ok(false);
            }
            1e-5
        }
        NbG | NbB | NbM => {
            // answers are classes: only ties in probability could differ, they do not count
            let t: usize = a.iter().zip(&b).filter(|(p, q)| p != q).count();
            if k != NbG && t > 0 {
                return tie_check(k, &h, &x, &y, &q, &a, &b);
            }
            0.
        }
        KnnKd | KnnBall | KnnBrute => {
            return knn_same(&h, &x, &y, &q, &a, &b, 1e-12);
        }
        KFixed => {
            // a point as near to one centre as to another may go to either, and take the centres with it
            0.
        }
        Dbs => {
            // the same partition, numbered in another order; border points belong to either cluster
            let core = |t: &Vec<f64>| {
                let near = x.iter().enumerate().min_by(|u, v| dist2(u.1, t).partial_cmp(&dist2(v.1, t)).unwrap()).unwrap();
                (dist2(near.1, t).sqrt() < h.a, x.iter().filter(|r| dist2(r, near.1).sqrt() < h.a).count() >= h.k)
            };
            for i in 0..q.len() {
                ensure!((a[i][0] < 0.) == (b[i][0] < 0.), "row {}: cluster {:?} in one order, {:?} in the other", i, a[i], b[i]);
                for j in 0..i {
                    if core(&q[i]) == (true, true) && core(&q[j]) == (true, true) {
                        ensure!((a[i] == a[j]) == (b[i] == b[j]), "rows {} and {}: clusters {:?}, {:?} in one order, {:?}, {:?} in the other", i, j, a[i], a[j], b[i], b[j]);
                    }
                }
            }
            return Ok(true);
        }
        Pca | PcaN => {
            return pca_same(k, &h, &x, &a, &b);
        }
        GpS | GpR => 1e-7,
        _ => 1e-7,
    };
    ensure!(same(&a, &b, tol), "in one order {:?}, in the other {:?}", a, b);
    Ok(true)
}
/// Two classes as likely as each other to twelve digits: either is an answer.
fn tie_check(k: K, h: &H, x: &Rows, y: &[f64], q: &Rows, a: &Rows, b: &Rows) -> Res {
    let t: Rows = y.iter().map(|c| (0..h.classes).map(|j| if j == *c as usize { 1. } else { 0. }).collect()).collect();
    let lp = match k {
        NbB => {
            let mut m = NaiveBayes::<Bernoulli>::new();
            m.train(&mat(x, x[0].len()), &mat(&t, h.classes)).map_err(|e| format!("{}", e))?;
            m.get_log_probs(&mat(q, q[0].len())).map_err(|e| format!("{}", e))?
        }
        _ => {
            let mut m = NaiveBayes::<Multinomial>::new();
            m.train(&mat(x, x[0].len()), &mat(&t, h.classes)).map_err(|e| format!("{}", e))?;
            m.get_log_probs(&mat(q, q[0].len())).map_err(|e| format!("{}", e))?
        }
    };
    for i in 0..q.len() {
        if a[i] != b[i] {
            let c = |r: &Vec<f64>| r.iter().position(|v| *v == 1.).unwrap();
            let (u, v) = (lp[[i, c(&a[i])]], lp[[i, c(&b[i])]]);
            ensure!(close(u, v, 1e-9), "row {}: class {:?} in one order, {:?} in the other, log probabilities {} and {}", i, a[i], b[i], u, v);
        }
    }
    Ok(true)
}

/// Classes by vote are the same, except where votes or the distances at the border tie.
fn knn_same(h: &H, x: &Rows, y: &[f64], q: &Rows, a: &Rows, b: &Rows, tol: f64) -> Res {
    for (i, t) in q.iter().enumerate() {
        let mut dist: Vec<(f64, f64)> = x.iter().zip(y).map(|(r, c)| (dist2(r, t).sqrt(), *c)).collect();
        dist.sort_by(|u, v| u.partial_cmp(v).unwrap());
        let kk = h.k.min(x.len());
        let votes: Vec<usize> = (0..h.classes).map(|c| dist[..kk].iter().filter(|d| d.1 as usize == c).count()).collect();
        let top = votes.iter().max().unwrap();
        if votes.iter().filter(|v| *v == top).count() > 1 || (kk < x.len() && close(dist[kk - 1].0, dist[kk].0, tol)) {
            continue;
        }
        ensure!(a[i] == b[i], "row {}: class {:?} one way, {:?} the other", i, a[i], b[i]);
    }
    Ok(true)
}
/// Directions have no sign, and none at all when two of them explain as much as each other.
fn pca_same(k: K, h: &H, x: &Rows, a: &Rows, b: &Rows) -> Res {
    let d = x[0].len();
    let center = k == Pca || h.iters % 2 == 0;
    let mean = if center { col_means(x) } else { vec![0.; d] };
    let (ev, _) = sym_eigen(&scatter(x, &mean));
    if (1..d).any(|i| ev[i - 1] - ev[i] < 1e-3 * ev[0]) {
        return Ok(false);
    }
    // nor where there is nothing to explain
    for j in (0..a[0].len()).filter(|&j| ev[j] > 1e-3 * ev[0]) {
        let s = if (0..a.len()).map(|i| a[i][j] * b[i][j]).sum::<f64>() < 0. { -1. } else { 1. };
        for i in 0..a.len() {
            ensure!(close(a[i][j], s * b[i][j], 1e-7), "row {}, component {}: {} one way, {} the other", i, j, a[i][j], b[i][j]);
        }
    }
    Ok(true)
}
fn design_cond(x: &Rows) -> f64 {
    let design: Rows = x.iter().map(|r| std::iter::once(1.).chain(r.iter().cloned()).collect()).collect();
    sym_cond(&mul(&transpose(&design), &design))
}
fn times(x: &Rows, u: f64) -> Rows {
    x.iter().map(|r| r.iter().map(|v| v * u).collect()).collect()
}
/// Trains and predicts, always from the same stream.
fn fit(k: K, h: &H, seed: u64, x: &Rows, y: &[f64], q: &Rows) -> Result<Rows, String> {
    rand::harness::seed(seed);
    let mut m = new(k, h, x[0].len());
    m.train(x, y).and_then(|_| m.predict(q))
}
fn centres(k: K, h: &H, seed: u64, x: &Rows) -> Result<Rows, String> {
    fn run<I: Initializer>(i: I, h: &H, x: &Rows) -> Result<Rows, String> {
        let mut c = KMeansClassifier::new_specified(h.k, h.iters, i);
        flat(guard(|| c.train(&m(x)))).map(|_| rows_of(c.centroids().as_ref().unwrap()))
    }
    rand::harness::seed(seed);
    match k {
        Kpp => run(KPlusPlus, h, x),
        Forg => run(Forgy, h, x),
        _ => run(RandomPartition, h, x),
    }
}
/// Are the covariances of the mixture far from singular?
fn regular(k: K, h: &H, seed: u64, x: &Rows) -> bool {
    let mut g = GaussianMixtureModel::new(h.k);
    g.cov_option = match k { GmmF => CovOption::Full, GmmR => CovOption::Regularized(0.1), _ => CovOption::Diagonal };
    // the last step decides
    (0..h.iters + 1).all(|i| {
        g = { let mut n = GaussianMixtureModel::new(h.k); n.cov_option = g.cov_option; n };
        g.set_max_iters(i);
        rand::harness::seed(seed);
        g.train(&m(x)).is_ok() && g.covariances().map_or(false, |c| c.iter().all(|c| {
            let c = rows_of(c);
            c.iter().all(|r| r.iter().all(|v| v.is_finite())) && sym_cond(&c) < 1e6 && sym_eigen(&c).0.iter().all(|v| *v > 1e-7)
        }))
    })
}
// ---------------------------------------------------------------- units
fn units(g: &mut G) -> Res {
    let s = [KnnKd, KnnBall, KnnBrute, Kpp, Forg, RandPart, Dbs, GpS, GpR, NbG, Pca, PcaN, GmmF, GmmD, Lin, GlmN];
    let k = *g.pick(&s);
    let mut h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 8, 14);
    let seed = g.seed();
    // a regular covariance, or none: the linear algebra refuses tiny pivots whatever the units
    let e = if matches!(k, GmmF | GmmD | Lin | GlmN) { g.int(0, 40) as i32 } else { g.sint(-80, 80) as i32 };
    if matches!(k, GmmF | GmmD) {
        h.iters = h.iters.min(3);
    }
    let u = 2f64.powi(e);
    let (x, y) = data(g, k, &h, n, d);
    let q = points(g, k, &x, 6);
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("units", &u);
    g.note("asked for", &q);
    if matches!(k, GmmF | GmmR | GmmD) && !regular(k, &h, seed, &x) {
        return Ok(false);
    }
    if matches!(k, Lin | GlmN) && !(design_cond(&x) < 1e4) {
        return Ok(false);
    }
    let (ux, uq) = (times(&x, u), times(&q, u));
    let mut uh = h.clone();
    if matches!(k, Dbs | GpS | GpR) {
        uh.a *= u;
    }
    if matches!(k, Kpp | Forg | RandPart) {
        let (a, b) = (centres(k, &h, seed, &x), centres(k, &uh, seed, &ux));
        match (&a, &b) {
            (Ok(a), Ok(b)) => ensure!(times(a, u) == *b, "the centres {:?} become {:?} in units of {:e}", a, b, u),
            (Err(_), Err(_)) => return Ok(false),
            _ => engine::fail!("{:?}, in other units {:?}", a, b),
        }
    }
    let (a, b) = (fit(k, &h, seed, &x, &y, &q), fit(k, &uh, seed, &ux, &y, &uq));
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return Ok(false),
        _ if matches!(k, GmmF | GmmD) => return Ok(false),
        (a, b) => engine::fail!("{:?}, in units of {:e} {:?}", a, u, b),
    };
    match k {
        // powers of two change no digit, only exponents
        KnnKd | KnnBall | KnnBrute | Kpp | Forg | RandPart | Dbs | GpS | GpR => ensure!(same(&a, &b, 0.), "{:?}, in units of {:e} {:?}", a, u, b),
        Pca | PcaN => return pca_same(k, &h, &x, &a, &times(&b, 1. / u)),
        Lin | GlmN => {
            // the digits that the units cost the normal equations
            ensure!(e > 8 || same(&a, &b, 1e-6), "{:?}, in units of {:e} {:?}", a, u, b)
        }
        _ => ensure!(same(&a, &b, 1e-6), "{:?}, in units of {:e} {:?}", a, u, b),
    }
    Ok(true)
}
/// The units of the targets are those of the answers.
fn target_units(g: &mut G) -> Res {
    let k = *g.pick(&[Lin, GlmN, GpS, GpR]);
    let h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 8, 14);
    let u = 2f64.powi(g.sint(-80, 80) as i32);
    let (x, y) = data(g, k, &h, n, d);
    let q = points(g, k, &x, 6);
    g.note("model, settings", &(k, &h));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("units", &u);
    g.note("asked for", &q);
    if matches!(k, Lin | GlmN) && !(design_cond(&x) < 1e6) {
        return Ok(false);
    }
    let uy: Vec<f64> = y.iter().map(|v| v * u).collect();
    let (a, b) = match (fit(k, &h, 0, &x, &y, &q), fit(k, &h, 0, &x, &uy, &q)) {
        (Ok(a), Ok(b)) => (a, times(&b, 1. / u)),
        (Err(_), Err(_)) => return Ok(false),
        (a, b) => engine::fail!("{:?}, with targets in units of {:e} {:?}", a, u, b),
    };
    ensure!(same(&a, &b, if k == GlmN { 1e-7 } else { 0. }), "{:?}, with targets in units of {:e} {:?} times that", a, u, b);
    Ok(true)
}
/// The origin of the data does not matter to what looks at differences only.
fn origin(g: &mut G) -> Res {
    let s = [KnnKd, KnnBall, KnnBrute, Kpp, Forg, RandPart, Dbs, GpS, GpR, NbG, Pca, GmmF, GmmR, GmmD, Lin, GlmN];
    let k = *g.pick(&s);
    let mut h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 8, 14);
    let seed = g.seed();
    if matches!(k, GmmF | GmmR | GmmD) {
        h.iters = h.iters.min(3);
    }
    let (x, y) = data(g, k, &h, n, d);
    let q = points(g, k, &x, 6);
    // multiples of 1/4096: moving them rounds nothing
    let round = |x: Rows| -> Rows { x.into_iter().map(|r| r.into_iter().map(|v| (v * 4096.).round() / 4096.).collect()).collect() };
    let (x, q) = (round(x), round(q));
    // as far as the arithmetic of the method stays exact, or nearly so
    let far = if matches!(k, KnnKd | KnnBall | KnnBrute | Dbs | GpS | GpR) { 1 << 28 } else if matches!(k, Kpp | Forg | RandPart) { 1 << 12 } else { 64 };
    let by: Vec<f64> = { let far = if g.bool() { far } else { 64 }; (0..d).map(|_| g.sint(-far, far) as f64).collect() };
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("moved by", &by);
    g.note("asked for", &q);
    if matches!(k, GmmF | GmmR | GmmD) && !regular(k, &h, seed, &x) {
        return Ok(false);
    }
    let moved = |x: &Rows| -> Rows { x.iter().map(|r| r.iter().zip(&by).map(|(v, b)| v + b).collect()).collect() };
    let (mx, mq) = (moved(&x), moved(&q));
    if matches!(k, Lin | GlmN) && !(design_cond(&x) < 1e6 && design_cond(&mx) < 1e8) {
        return Ok(false);
    }
    if matches!(k, Kpp | Forg | RandPart) {
        let (a, b) = (centres(k, &h, seed, &x), centres(k, &h, seed, &mx));
        match (&a, &b) {
            (Ok(a), Ok(b)) => ensure!(same(&moved(a), b, 1e-9), "the centres {:?} become {:?}, moved by {:?}", a, b, by),
            (Err(_), Err(_)) => return Ok(false),
            _ => engine::fail!("{:?}, moved {:?}", a, b),
        }
    }
    let (a, b) = match (fit(k, &h, seed, &x, &y, &q), fit(k, &h, seed, &mx, &y, &mq)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return Ok(false),
        _ if matches!(k, GmmF | GmmD | GmmR) => return Ok(false),
        (a, b) => engine::fail!("{:?}, moved by {:?} {:?}", a, by, b),
    };
    match k {
        KnnKd | KnnBall | KnnBrute => return knn_same(&h, &x, &y, &q, &a, &b, 1e-12),
        Pca => return pca_same(k, &h, &x, &a, &b),
        Dbs | GpS | GpR => ensure!(same(&a, &b, 0.), "{:?}, moved by {:?} {:?}", a, by, b),
        Kpp | Forg | RandPart | NbG => ensure!(same(&a, &b, 0.), "{:?}, moved by {:?} {:?}", a, by, b),
        _ => ensure!(same(&a, &b, 1e-6), "{:?}, moved by {:?} {:?}", a, by, b),
    }
    Ok(true)
}
// ---------------------------------------------------------------- columns
fn column_order(g: &mut G) -> Res {
    let s = [Lin, LogGd, GlmB, GlmN, GlmP, NbG, NbB, NbM, SvmS, SvmL, GpS, GpR, KnnKd, KnnBall, KnnBrute, Kpp, Forg, RandPart, GmmF, GmmR, GmmD, Dbs, Pca, PcaN];
    let k = *g.pick(&s);
    let mut h = hyper(g);
    let d = sz(g, 2, 5);
    let n = szr(g, k, 8, 14);
    let seed = g.seed();
    if matches!(k, GmmF | GmmR | GmmD) {
        h.iters = h.iters.min(3);
    }
    let (x, y) = data(g, k, &h, n, d);
    let p = g.perm(d);
    let q = points(g, k, &x, 6);
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("order of the columns", &p);
    g.note("asked for", &q);
    if matches!(k, GmmF | GmmR | GmmD) && !regular(k, &h, seed, &x) {
        return Ok(false);
    }
    let turn = |x: &Rows| -> Rows { x.iter().map(|r| permute(r, &p)).collect() };
    let (px, pq) = (turn(&x), turn(&q));
    if matches!(k, Kpp | Forg | RandPart) {
        let (a, b) = (centres(k, &h, seed, &x), centres(k, &h, seed, &px));
        match (&a, &b) {
            (Ok(a), Ok(b)) => ensure!(same(&turn(a), b, 1e-9), "the centres {:?} become {:?}", a, b),
            (Err(_), Err(_)) => return Ok(false),
            _ => engine::fail!("{:?}, with the columns in another order {:?}", a, b),
        }
    }
    let (a, b) = (fit(k, &h, seed, &x, &y, &q), fit(k, &h, seed, &px, &y, &pq));
    if matches!(k, Lin | GlmB | GlmN | GlmP | LogGd) && !(design_cond(&x) < 1e6) {
        return Ok(false);
    }
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return Ok(false),
        _ if matches!(k, GlmB | GlmP | GmmF | GmmR | GmmD) => return Ok(false),
        (a, b) => engine::fail!("{:?}, with the columns in another order {:?}", a, b),
    };
    let tol = match k {
        GlmB | GlmP => {
            if a.iter().chain(&b).any(|r| !(r[0] > 1e-3 && r[0] < if k == GlmB { 0.999 } else { 50. })) {
                return Ok(false);
            }
            1e-5
        }
        NbB | NbM => return tie_check(k, &h, &x, &y, &q, &a, &b),
        KnnKd | KnnBall | KnnBrute => return knn_same(&h, &x, &y, &q, &a, &b, 1e-12),
        Pca | PcaN => return pca_same(k, &h, &x, &a, &b),
        NbG | SvmS | SvmL | Kpp | Forg | RandPart | Dbs => 0.,
        GmmF | GmmR | GmmD => 1e-6,
        _ => 1e-7,
    };
    ensure!(same(&a, &b, tol), "{:?}, with the columns in another order {:?}", a, b);
    Ok(true)
}
/// A column without any difference makes none.
fn constant_column(g: &mut G) -> Res {
    let s = [KnnKd, KnnBall, KnnBrute, Kpp, Forg, RandPart, GpS, GpR, Dbs, Pca];
    let k = *g.pick(&s);
    let h = hyper(g);
    let d = sz(g, 1, 4);
    let n = szr(g, k, 8, 14);
    let seed = g.seed();
    let (x, y) = data(g, k, &h, n, d);
    let q = points(g, k, &x, 6);
    // sums of small integers are exact: the mean of the column too
    let c = g.sint(-9, 9) as f64;
    let at = g.int(0, d);
    g.note("model, settings, stream", &(k, &h, seed));
    g.note("trained on", &x);
    g.note("targets", &y);
    g.note("value and position of the column", &(c, at));
    g.note("asked for", &q);
    let with = |x: &Rows| -> Rows { x.iter().map(|r| { let mut r = r.clone(); r.insert(at, c); r }).collect() };
    let (wx, wq) = (with(&x), with(&q));
    if matches!(k, Kpp | Forg | RandPart) {
        let (a, b) = (centres(k, &h, seed, &x), centres(k, &h, seed, &wx));
        match (&a, &b) {
            (Ok(a), Ok(b)) => ensure!(with(a) == *b, "the centres {:?} become {:?} with a column of {}", a, b, c),
            (Err(_), Err(_)) => return Ok(false),
            _ => engine::fail!("{:?}, with a column of {} {:?}", a, c, b),
        }
    }
    let (a, b) = match (fit(k, &h, seed, &x, &y, &q), fit(k, &h, seed, &wx, &y, &wq)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return Ok(false),
        (a, b) => engine::fail!("{:?}, with a column of {} {:?}", a, c, b),
    };
    match k {
        KnnKd | KnnBall | KnnBrute => return knn_same(&h, &x, &y, &q, &a, &b, 1e-12),
        Pca => {
            let b: Rows = b.iter().map(|r| r[..a[0].len()].to_vec()).collect();
            return pca_same(k, &h, &x, &a, &b);
        }
        _ => ensure!(same(&a, &b, 0.), "{:?}, with a column of {} {:?}", a, c, b),
    }
    Ok(true)
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
const RNG: &str = "thread_rng is replaced by a seedable stream (shim/rand)";
const MODELS: &str = "every model with every optimiser, kernel family, search structure, initialiser and covariance option in turn";
large!(untrained_large, untrained, 20);
large!(columns_large, columns, 6);
large!(heights_large, heights, 6);
large!(again_large, again, 6);
large!(rowwise_large, rowwise, 6);
large!(order_large, order, 6);
many!(columns_many, columns, 2500);
many!(heights_many, heights, 2500);
many!(again_many, again, 2500);
many!(rowwise_many, rowwise, 2500);
many!(order_many, order, 2500);
large!(units_large, units, 6);
large!(target_units_large, target_units, 6);
large!(origin_large, origin, 6);
large!(column_order_large, column_order, 6);
large!(constant_column_large, constant_column, 6);
many!(units_many, units, 2500);
many!(origin_many, origin, 2500);
many!(column_order_many, column_order, 2500);
static CHECKS: &[Check] = &[
    Check {
        id: "C38",
        rule: "31 kinds of model untrained, trained on 9..14 rows of 1..4 columns and asked for 1..6 others, trained on rows and targets of different numbers; non-trivial: the model can be trained",
        sections: &[sec("untrained", 45000, 300000, untrained), sec("large-untrained", 300, 2000, untrained_large), sec("columns", 90000, 600000, columns), sec("large-columns", 300, 2000, columns_large), sec("many-rows-columns", 20, 200, columns_many), sec("heights", 60000, 400000, heights), sec("large-heights", 300, 2000, heights_large), sec("many-rows-heights", 20, 200, heights_many)],
        assumptions: &[LA, RNG, MODELS, "a panic is a refusal, as an error is"],
    },
    Check {
        id: "C39",
        rule: "24 kinds of model trained on one to three other data sets (other widths and heights) before the one in question, against a new model with the same random stream; non-trivial: an earlier training succeeded",
        sections: &[sec("retrain", 120000, 800000, again), sec("large", 300, 2000, again_large), sec("many-rows", 20, 200, again_many)],
        assumptions: &[LA, RNG, MODELS, "nets and mixtures continue from their weights by design and are left out"],
    },
    Check {
        id: "C40",
        rule: "31 kinds of model trained on 5..14 rows and asked for 1..9 rows together, alone, repeated and in another order; non-trivial: more than one row",
        sections: &[sec("rowwise", 120000, 800000, rowwise), sec("large", 300, 2000, rowwise_large), sec("many-rows", 30, 300, rowwise_many)],
        assumptions: &[LA, RNG, MODELS],
    },
    Check {
        id: "C41",
        rule: "18 kinds of deterministic models trained on 8..14 rows in two orders; ties, indistinct directions and badly conditioned fits do not count; non-trivial: the fits are compared",
        sections: &[sec("order", 120000, 800000, order), sec("large", 300, 2000, order_large), sec("many-rows", 20, 200, order_many)],
        assumptions: &[LA, RNG],
    },
    Check {
        id: "C44",
        rule: "16 kinds of model trained on the same 8..14 rows in units that differ by a power of two, with another origin, and with targets in other units; non-trivial: the answers are compared",
        sections: &[sec("units", 120000, 800000, units), sec("large-units", 300, 2000, units_large), sec("many-rows-units", 20, 200, units_many), sec("target-units", 30000, 200000, target_units), sec("large-target-units", 100, 800, target_units_large), sec("origin", 90000, 600000, origin), sec("large-origin", 300, 2000, origin_large), sec("many-rows-origin", 20, 200, origin_many)],
        assumptions: &[LA, RNG],
    },
    Check {
        id: "C45",
        rule: "24 kinds of model trained on the same 8..14 rows with their columns in two orders, ten with a constant column besides; ties, indistinct directions and badly conditioned fits do not count; non-trivial: the answers are compared",
        sections: &[sec("column-order", 120000, 800000, column_order), sec("large-column-order", 300, 2000, column_order_large), sec("many-rows-column-order", 20, 200, column_order_many), sec("constant-column", 60000, 400000, constant_column), sec("large-constant-column", 300, 2000, constant_column_large)],
        assumptions: &[LA, RNG],
    },
];
fn main() {
    engine::main(CHECKS)
}
