//! No call of the safe interface makes undefined behaviour: odd sizes, odd numbers, wrong orders of calls, and traits
//! implemented by the user against their documentation.  The sequences run natively, where the standard library's
//! checks of unchecked accesses are on, and under Miri, which watches every access; so do the cases of the other checks.
use engine::{guard, sec, Check, Fail, Res, G};
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::analysis::score;
use rusty_machine::data::transforms::{MinMaxFitter, Normalizer, Shuffler, StandardizerFitter};
use rusty_machine::data::transforms::{Invertible, TransformFitter, Transformer};
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::error::Error;
use rusty_machine::learning::glm::{self, GenLinearModel};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{self, Bernoulli, Gaussian, Multinomial, NaiveBayes};
use rusty_machine::learning::nnet::net_layer::{Linear, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, Criterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::cost_fn::{CostFunc, CrossEntropyError, MeanSqError};
use rusty_machine::learning::toolkit::kernel::{Kernel, SquaredExp};
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::toolkit::{activ_fn, rand_utils};
use rusty_machine::learning::{LearningResult, SupModel, UnSupModel};
use rusty_machine::linalg::norm::Euclidean;
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice, Vector};
use std::cell::Cell;
use std::hint::black_box;
use std::num::NonZeroU32;

// ---------------------------------------------------------------- data
const SPECIAL: &[f64] = &[0., 1., -1., 0.5, 2., -0., f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, 5e-324, 1e-308, 1e16];
/// Mostly tame numbers, now and then anything.
fn num(g: &mut G, wild: bool) -> f64 {
    if wild && g.chance(1, 4) {
        *g.pick(SPECIAL)
    } else {
        g.sint(-3, 3) as f64
    }
}
fn table(g: &mut G, cols: usize, max: usize) -> Matrix<f64> {
    let wild = g.chance(1, 3);
    let r = g.int(0, max.min(g.cap.saturating_add(1)));
    let v: Vec<f64> = (0..r * cols).map(|_| num(g, wild)).collect();
    Matrix::new(r, cols, v)
}
/// As `table`; interpreted, mostly without the magnitudes of which a tree of hundreds of levels comes.
fn tree_table(g: &mut G, cols: usize, max: usize) -> Matrix<f64> {
    let m = table(g, cols, max);
    if g.cap == usize::MAX || g.chance(1, 12) {
        return m;
    }
    let v: Vec<f64> = m.data().iter().map(|&v| if v.is_finite() && v != 0. && !(1e-300..1e300).contains(&v.abs()) { v.signum() * 1e16 } else { v }).collect();
    Matrix::new(m.rows(), cols, v)
}
/// A width that mostly fits.
fn width(g: &mut G, d: usize) -> usize {
    if g.chance(1, 4) { g.int(0, 5) } else { d }
}
fn indicators(g: &mut G, rows: usize) -> Matrix<f64> {
    let c = g.int(0, 3);
    let r = if g.chance(1, 6) { g.int(0, 6) } else { rows };
    let hot = g.chance(3, 4);
    let mut v = vec![0.; r * c];
    for i in 0..r {
        if hot && c > 0 {
            let k = g.int(0, c - 1);
            v[i * c + k] = 1.;
        } else {
            for x in &mut v[i * c..i * c + c] {
                *x = num(g, true);
            }
        }
    }
    Matrix::new(r, c, v)
}
fn targets(g: &mut G, rows: usize) -> Vector<f64> {
    let n = if g.chance(1, 6) { g.int(0, 6) } else { rows };
    let kind = g.draw(3);
    Vector::new((0..n).map(|_| match kind { 0 => g.int(0, 1) as f64, 1 => if g.bool() { 1. } else { -1. }, _ => num(g, true) }).collect::<Vec<_>>())
}
fn labels(g: &mut G, rows: usize) -> Vector<usize> {
    let n = if g.chance(1, 6) { g.int(0, 6) } else { rows };
    Vector::new((0..n).map(|_| g.int(0, 3)).collect::<Vec<_>>())
}
/// Looks at every number, so that one which was never written is noticed.
fn eat(v: &[f64]) -> u64 {
    black_box(v.iter().fold(0, |a, x| if x.to_bits() & 1 == 0 { a + 1 } else { a }))
}
thread_local! {
    static DONE: Cell<usize> = Cell::new(0);
}
/// A call may refuse as it likes.
fn call<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    let r = guard(f).ok();
    if r.is_some() {
        DONE.with(|d| d.set(d.get() + 1));
    }
    r
}
fn calls(g: &mut G) -> usize {
    g.size(1, 6)
}
fn ate(m: Option<LearningResult<Matrix<f64>>>) {
    if let Some(Ok(m)) = m {
        eat(m.data());
    }
}
fn ate_v(m: Option<LearningResult<Vector<f64>>>) {
    if let Some(Ok(m)) = m {
        eat(m.data());
    }
}

// ---------------------------------------------------------------- families
fn searchers(g: &mut G) {
    fn one<S: KNearestSearch>(g: &mut G, mut s: S) {
        let d = g.int(0, 4);
        for _ in 0..calls(g) {
            if g.chance(1, 3) {
                let w = width(g, d);
                let m = tree_table(g, w, 9);
                call(|| s.build(m));
            } else {
                let w = width(g, d);
                let q: Vec<f64> = (0..w).map(|_| num(g, true)).collect();
                let k = g.int(0, 10);
                if let Some(Ok((i, d))) = call(|| s.search(&q, k)) {
                    black_box(i.iter().sum::<usize>());
                    eat(&d);
                }
            }
        }
    }
    let leaf = g.int(0, 4);
    match g.draw(3) {
        0 => one(g, KDTree::new(leaf)),
        1 => one(g, BallTree::new(leaf)),
        _ => one(g, BruteForce::new()),
    }
}
/// Names rows that do not exist, other than asked for.
#[derive(Default, Debug)]
struct LyingSearch(usize);
impl KNearestSearch for LyingSearch {
    fn build(&mut self, _: Matrix<f64>) {}
    fn search(&self, _: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
        Ok(match self.0 {
            0 => ((0..k).map(|i| i * 1000).collect(), vec![0.; k]),
            1 => (vec![], vec![]),
            2 => (vec![usize::MAX; k + 1], vec![f64::NAN]),
            _ => (vec![0; 50], vec![]),
        })
    }
}
fn knn(g: &mut G) {
    fn one<S: KNearestSearch>(g: &mut G, s: S) {
        let d = g.int(0, 3);
        let k = g.int(0, 5);
        let mut m = match call(|| KNNClassifier::new_specified(k, s)) {
            Some(m) => m,
            None => return,
        };
        for _ in 0..calls(g) {
            let w = width(g, d);
            let x = tree_table(g, w, 7);
            if g.bool() {
                let y = labels(g, x.rows());
                let _ = call(|| m.train(&x, &y));
            } else if let Some(Ok(p)) = call(|| m.predict(&x)) {
                black_box(p.data().iter().fold(0usize, |a, b| a ^ b));
            }
        }
    }
    let leaf = g.int(0, 4);
    match g.draw(4) {
        0 => one(g, KDTree::new(leaf)),
        1 => one(g, BallTree::new(leaf)),
        2 => one(g, BruteForce::new()),
        _ => {
            let l = LyingSearch(g.int(0, 3));
            one(g, l)
        }
    }
}
#[derive(Debug)]
struct LyingInit(usize, usize);
impl Initializer for LyingInit {
    fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        Ok(Matrix::new(self.0, self.1, vec![0.5; self.0 * self.1]))
    }
}
fn k_means(g: &mut G) {
    fn one<I: Initializer>(g: &mut G, i: I) {
        let d = g.int(0, 3);
        let (k, it) = (g.int(0, 5), g.int(0, 4));
        let mut m = match call(|| KMeansClassifier::new_specified(k, it, i)) {
            Some(m) => m,
            None => return,
        };
        for _ in 0..calls(g) {
            let w = width(g, d);
            let x = table(g, w, 8);
            match g.draw(3) {
                0 => {
                    let _ = call(|| m.train(&x));
                }
                1 => {
                    if let Some(Ok(p)) = call(|| m.predict(&x)) {
                        black_box(p.data().iter().fold(0usize, |a, b| a ^ b));
                    }
                }
                _ => m.set_iters(g.int(0, 3)),
            }
            if let Some(c) = m.centroids().as_ref() {
                eat(c.data());
            }
        }
    }
    match g.draw(4) {
        0 => one(g, KPlusPlus),
        1 => one(g, Forgy),
        2 => one(g, RandomPartition),
        _ => {
            let i = LyingInit(g.int(0, 6), g.int(0, 4));
            one(g, i)
        }
    }
}
fn dbscan(g: &mut G) {
    let d = g.int(0, 3);
    let eps = if g.chance(1, 4) { *g.pick(SPECIAL) } else { g.int(1, 4) as f64 };
    let minp = g.int(0, 4);
    let mut m = match call(|| DBSCAN::new(eps, minp)) {
        Some(m) => m,
        None => return,
    };
    for _ in 0..calls(g) {
        let w = width(g, d);
        let x = table(g, w, 9);
        match g.draw(4) {
            0 => m.set_predictive(g.bool()),
            1 => {
                if let Some(Ok(p)) = call(|| m.predict(&x)) {
                    black_box(p.data().iter().filter(|c| c.is_some()).count());
                }
            }
            _ => {
                let _ = call(|| m.train(&x));
            }
        }
        if let Some(c) = m.clusters() {
            black_box(c.data().iter().filter(|c| c.is_some()).count());
        }
    }
}
/// Says different things about its own size, and returns tables of any shape.
#[derive(Debug, Clone)]
struct LyingLayer {
    shape: (usize, usize),
    params: usize,
    defaults: usize,
    out: usize,
    back: (usize, usize),
}
impl NetLayer for LyingLayer {
    fn forward(&self, input: &Matrix<f64>, params: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        let s: f64 = params.iter().sum();
        Ok(Matrix::new(input.rows(), self.out, vec![s; input.rows() * self.out]))
    }
    fn back_input(&self, _: &Matrix<f64>, _: &Matrix<f64>, _: &Matrix<f64>, _: MatrixSlice<f64>) -> Matrix<f64> {
        Matrix::new(self.back.0, self.back.1, vec![0.25; self.back.0 * self.back.1])
    }
    fn back_params(&self, _: &Matrix<f64>, _: &Matrix<f64>, _: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        black_box(p.iter().sum::<f64>());
        Matrix::new(self.back.0, self.back.1, vec![0.25; self.back.0 * self.back.1])
    }
    fn default_params(&self) -> Vec<f64> {
        vec![0.5; self.defaults]
    }
    fn param_shape(&self) -> (usize, usize) {
        self.shape
    }
    fn num_params(&self) -> usize {
        self.params
    }
}
/// Evaluates the model at parameters of its own choice and length, and returns as many as it likes.
#[derive(Debug)]
struct LyingAlg(Vec<usize>, usize);
impl<M: Optimizable> OptimAlgorithm<M> for LyingAlg {
    fn optimize(&self, model: &M, start: &[f64], inputs: &M::Inputs, targets: &M::Targets) -> Vec<f64> {
        for &n in &self.0 {
            let p: Vec<f64> = start.iter().cloned().cycle().take(n).collect();
            let p = if p.is_empty() { vec![0.5; n] } else { p };
            if let Some((c, v)) = call(|| model.compute_grad(&p, inputs, targets)) {
                eat(&[c]);
                eat(&v);
            }
        }
        vec![0.125; self.1]
    }
}
fn lying_alg(g: &mut G) -> LyingAlg {
    let n = g.int(0, 2);
    LyingAlg((0..n).map(|_| g.int(0, 12)).collect(), g.int(0, 12))
}
fn gen_layer(g: &mut G, from: usize, to: usize) -> Box<dyn NetLayer> {
    match g.draw(6) {
        0 | 1 => Box::new(Linear::new(from, to)),
        2 => Box::new(Linear::without_bias(from, to)),
        3 => Box::new(activ_fn::Sigmoid),
        4 => Box::new(activ_fn::Tanh),
        _ => {
            let n = g.int(0, 6);
            let s = (g.int(0, 3), g.int(0, 3));
            let honest = g.bool();
            Box::new(LyingLayer {
                shape: s,
                params: if honest { s.0 * s.1 } else { n },
                defaults: if honest { s.0 * s.1 } else { g.int(0, 6) },
                out: to,
                back: (g.int(0, 4), g.int(0, 4)),
            })
        }
    }
}
fn nets(g: &mut G) {
    fn drive<C: Criterion, A: OptimAlgorithm<rusty_machine::learning::nnet::BaseNeuralNet<C>>>(g: &mut G, mut m: NeuralNet<C, A>, d: usize) {
        let mut at = d;
        for _ in 0..g.int(0, 3) {
            let to = g.int(0, 3);
            let l = gen_layer(g, at, to);
            call(|| {
                m.add(l);
            });
            at = to;
        }
        for _ in 0..calls(g) {
            let w = width(g, d);
            let x = table(g, w, 5);
            match g.draw(5) {
                0 => ate(call(|| m.predict(&x))),
                1 => {
                    let i = g.int(0, 5);
                    call(|| {
                        let w = m.get_net_weights(i);
                        let v: Vec<f64> = w.iter().cloned().collect();
                        eat(&v)
                    });
                }
                2 => {
                    let to = g.int(0, 3);
                    let l = gen_layer(g, at, to);
                    call(|| {
                        m.add(l);
                    });
                    at = to;
                }
                _ => {
                    let y = if g.chance(3, 4) {
                        let wild = g.bool();
                        let c = if g.bool() { at } else { g.int(0, 3) };
                        Matrix::new(x.rows(), c, (0..x.rows() * c).map(|_| num(g, wild)).collect::<Vec<_>>())
                    } else {
                        indicators(g, x.rows())
                    };
                    let _ = call(|| m.train(&x, &y));
                }
            }
        }
    }
    let d = g.int(0, 3);
    let reg = match g.draw(4) {
        0 => Regularization::L1(0.1),
        1 => Regularization::L2(0.1),
        2 => Regularization::ElasticNet(0.1, 0.2),
        _ => Regularization::None,
    };
    match g.draw(5) {
        0 => drive(g, NeuralNet::new(BCECriterion::new(reg), GradientDesc::new(0.1, 2)), d),
        1 => drive(g, NeuralNet::new(MSECriterion::new(reg), StochasticGD::new(0.1, 0.1, 2)), d),
        2 => drive(g, NeuralNet::new(MSECriterion::new(reg), AdaGrad::new(0.1, 1., 2)), d),
        3 => drive(g, NeuralNet::new(BCECriterion::new(reg), ConjugateGD { iters: 2, ..Default::default() }), d),
        _ => {
            let a = lying_alg(g);
            drive(g, NeuralNet::new(MSECriterion::new(reg), a), d)
        }
    }
}
fn pca(g: &mut G) {
    let d = g.int(0, 4);
    let (n, c) = (g.int(0, 5), g.bool());
    let mut m = if g.chance(1, 4) { PCA::default() } else {
        match call(|| PCA::new(n, c)) {
            Some(m) => m,
            None => return,
        }
    };
    for _ in 0..calls(g) {
        let w = width(g, d);
        // values that are no numbers make a decomposition run on for ever
        let r = g.int(0, 5);
        let x = Matrix::new(r, w, (0..r * w).map(|_| num(g, false)).collect::<Vec<_>>());
        if g.bool() {
            let _ = call(|| m.train(&x));
        } else {
            ate(call(|| m.predict(&x)));
        }
        if let Some(Ok(c)) = call(|| m.components()) {
            eat(c.data());
        }
    }
}
fn mixture(g: &mut G) {
    let d = g.int(0, 3);
    let k = g.int(0, 3);
    let m = if g.bool() {
        let w = targets(g, k);
        call(|| GaussianMixtureModel::with_weights(k, w)).and_then(|m| m.ok())
    } else {
        call(|| GaussianMixtureModel::new(k))
    };
    let mut m = match m {
        Some(m) => m,
        None => return,
    };
    m.cov_option = match g.draw(3) {
        0 => CovOption::Full,
        1 => CovOption::Regularized(0.1),
        _ => CovOption::Diagonal,
    };
    m.set_max_iters(g.int(0, 2));
    for _ in 0..calls(g) {
        let w = width(g, d);
        let x = table(g, w, 5);
        if g.bool() {
            let _ = call(|| m.train(&x));
        } else {
            ate(call(|| m.predict(&x)));
        }
        if let Some(c) = m.means() {
            eat(c.data());
        }
        eat(m.mixture_weights().data());
    }
}
struct LyingDistr(usize);
impl naive_bayes::Distribution for LyingDistr {
    fn from_model_params(c: usize, f: usize) -> LyingDistr {
        LyingDistr((c + 2 * f) % 4)
    }
    fn update_params(&mut self, _: &Matrix<f64>, _: usize) -> LearningResult<()> {
        Ok(())
    }
    fn joint_log_lik(&self, data: &Matrix<f64>, _: &[f64]) -> LearningResult<Matrix<f64>> {
        let (r, c) = [(0, 0), (data.rows(), 9), (3, 1), (data.rows(), 0)][self.0];
        Ok(Matrix::new(r, c, vec![f64::NAN; r * c]))
    }
}
fn bayes(g: &mut G) {
    fn one<D: naive_bayes::Distribution>(g: &mut G) {
        let mut m = NaiveBayes::<D>::new();
        let d = g.int(0, 3);
        for _ in 0..calls(g) {
            let w = width(g, d);
            let x = table(g, w, 5);
            match g.draw(4) {
                0 => ate(call(|| m.predict(&x))),
                1 => ate(call(|| m.get_log_probs(&x))),
                _ => {
                    let y = indicators(g, x.rows());
                    let _ = call(|| m.train(&x, &y));
                }
            }
            if let Some(p) = m.class_prior() {
                eat(p);
            }
        }
    }
    match g.draw(4) {
        0 => one::<Gaussian>(g),
        1 => one::<Bernoulli>(g),
        2 => one::<Multinomial>(g),
        _ => one::<LyingDistr>(g),
    }
}
struct LyingKernel(f64);
impl Kernel for LyingKernel {
    fn kernel(&self, x: &[f64], _: &[f64]) -> f64 {
        self.0 * x.len() as f64
    }
}
struct LyingMean(usize);
impl MeanFunc for LyingMean {
    fn func(&self, _: Matrix<f64>) -> Vector<f64> {
        Vector::new(vec![1.; self.0])
    }
}
struct LyingFamily(usize);
impl glm::Criterion for LyingFamily {
    type Link = glm::Logit;
    fn model_variance(&self, mu: f64) -> f64 {
        mu
    }
    fn initialize_mu(&self, _: &[f64]) -> Vec<f64> {
        vec![0.5; self.0]
    }
    fn compute_working_weight(&self, _: &[f64]) -> Vec<f64> {
        vec![0.5; self.0]
    }
}
fn regressions(g: &mut G) {
    fn drive<M: SupModel<Matrix<f64>, Vector<f64>>>(g: &mut G, mut m: M) {
        let d = g.int(0, 3);
        for _ in 0..calls(g) {
            let w = width(g, d);
            let x = table(g, w, 5);
            if g.bool() {
                ate_v(call(|| m.predict(&x)));
            } else {
                let y = targets(g, x.rows());
                let _ = call(|| m.train(&x, &y));
            }
        }
    }
    match g.draw(11) {
        0 => drive(g, LinRegressor::default()),
        1 => drive(g, LogisticRegressor::new(GradientDesc::new(0.1, 2))),
        2 => {
            let a = lying_alg(g);
            drive(g, LogisticRegressor::new(a))
        }
        3 => drive(g, GenLinearModel::new(glm::Bernoulli)),
        4 => drive(g, GenLinearModel::new(glm::Poisson)),
        5 => {
            let n = g.int(0, 6);
            drive(g, GenLinearModel::new(LyingFamily(n)))
        }
        6 => {
            let mut s = SVM::new(SquaredExp::new(1., 1.), 0.3);
            s.optim_iters = g.int(0, 4);
            drive(g, s)
        }
        7 => {
            let mut s = SVM::new(LyingKernel(num(g, true)), 0.3);
            s.optim_iters = g.int(0, 4);
            drive(g, s)
        }
        8 => drive(g, GaussianProcess::new(SquaredExp::new(1., 1.), ConstMean::default(), 0.1)),
        9 => {
            let n = g.int(0, 6);
            drive(g, GaussianProcess::new(SquaredExp::new(1., 1.), LyingMean(n), 0.1))
        }
        _ => {
            let v = num(g, true);
            drive(g, GaussianProcess::new(LyingKernel(v), ConstMean::default(), 0.1))
        }
    }
}
fn transforms(g: &mut G) {
    let d = g.int(0, 4);
    let x = table(g, d, 6);
    let more: Vec<Matrix<f64>> = (0..g.int(1, 3)).map(|_| { let w = width(g, d); table(g, w, 6) }).collect();
    fn use_it<T: Transformer<Matrix<f64>>>(t: &mut T, m: Matrix<f64>) {
        if let Some(Ok(m)) = call(|| t.transform(m)) {
            eat(m.data());
        }
    }
    match g.draw(4) {
        0 => {
            if let Some(Ok(mut t)) = call(|| MinMaxFitter::new(0., 1.).fit(&x)) {
                for m in more {
                    use_it(&mut t, m.clone());
                    if let Some(Ok(m)) = call(|| t.inv_transform(m)) {
                        eat(m.data());
                    }
                }
            }
        }
        1 => {
            if let Some(Ok(mut t)) = call(|| StandardizerFitter::new(0., 1.).fit(&x)) {
                for m in more {
                    use_it(&mut t, m.clone());
                    if let Some(Ok(m)) = call(|| t.inv_transform(m)) {
                        eat(m.data());
                    }
                }
            }
        }
        2 => {
            let mut t = Normalizer::<f64, Euclidean>::default();
            for m in more {
                use_it(&mut t, m);
            }
        }
        _ => {
            let mut t = Shuffler::default();
            for m in more {
                use_it(&mut t, m);
            }
            let n = g.int(0, 6);
            let c = g.int(0, 2);
            let words = Matrix::new(n, c, (0..n * c).map(|i| Box::new(i)).collect::<Vec<_>>());
            if let Some(Ok(m)) = call(|| t.transform(words)) {
                black_box(m.data().iter().map(|b| **b).sum::<usize>());
            }
        }
    }
}
struct Odd(usize, usize);
impl SupModel<Matrix<f64>, Matrix<f64>> for Odd {
    fn predict(&self, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        Ok(Matrix::new(self.0, self.1, vec![1.; self.0 * self.1]))
    }
    fn train(&mut self, _: &Matrix<f64>, _: &Matrix<f64>) -> LearningResult<()> {
        Ok(())
    }
}
fn analysis(g: &mut G) {
    let (n, c) = (g.int(0, 8), g.int(0, 3));
    match g.draw(3) {
        0 => {
            let a: Vec<u8> = (0..n).map(|_| g.int(0, 4) as u8).collect();
            let k = if g.chance(1, 4) { g.int(0, 8) } else { n };
            let b: Vec<u8> = (0..k).map(|_| g.int(0, 4) as u8).collect();
            let l: Option<Vec<u8>> = if g.bool() { let k = g.int(0, 6); Some((0..k).map(|_| g.int(0, 6) as u8).collect()) } else { None };
            call(|| confusion_matrix(&a, &b, l).data().iter().sum::<usize>());
            call(|| score::accuracy(a.iter(), b.iter()));
        }
        1 => {
            let (x, y) = (table(g, c, 8), indicators(g, n));
            call(|| score::row_accuracy(&x, &y));
            call(|| score::neg_mean_squared_error(&x, &y));
            let a: Vec<i32> = (0..n).map(|_| g.int(0, 2) as i32).collect();
            let b: Vec<i32> = (0..g.int(0, 8)).map(|_| g.int(0, 2) as i32).collect();
            call(|| score::precision(a.iter(), b.iter()));
            call(|| score::recall(a.iter(), b.iter()));
            call(|| score::f1(a.iter(), b.iter()));
        }
        _ => {
            let x = table(g, c, 8);
            let y = indicators(g, x.rows());
            let k = g.int(0, 9);
            let mut m = Odd(g.int(0, 4), g.int(0, 3));
            if let Some(Ok(v)) = call(|| k_fold_validate(&mut m, &x, &y, k, score::row_accuracy)) {
                eat(&v);
            }
            if let Some(Ok(v)) = call(|| k_fold_validate(&mut NaiveBayes::<Gaussian>::new(), &x, &y, k, score::row_accuracy)) {
                eat(&v);
            }
        }
    }
}
fn tools(g: &mut G) {
    let n = g.size(0, 40);
    let k = g.int(0, n + 1);
    match g.draw(8) {
        0 => {
            let v: Vec<bool> = (0..n).map(|_| g.bool()).collect();
            if let Some(s) = call(|| rand_utils::reservoir_sample(&v, k)) {
                black_box(s.iter().filter(|x| **x).count());
            }
            black_box(rand_utils::fisher_yates(&v).iter().filter(|x| **x).count());
        }
        1 => {
            let v: Vec<char> = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            if let Some(s) = call(|| rand_utils::reservoir_sample(&v, k)) {
                black_box(s.iter().collect::<String>());
            }
            black_box(rand_utils::fisher_yates(&v).iter().collect::<String>());
        }
        2 => {
            let own: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            let v: Vec<&str> = own.iter().map(|s| &s[..]).collect();
            if let Some(s) = call(|| rand_utils::reservoir_sample(&v, k)) {
                black_box(s.concat());
            }
            black_box(rand_utils::fisher_yates(&v).concat());
        }
        3 => {
            let v: Vec<Option<NonZeroU32>> = (0..n).map(|i| NonZeroU32::new(i as u32)).collect();
            if let Some(s) = call(|| rand_utils::reservoir_sample(&v, k)) {
                black_box(s.iter().flatten().map(|x| x.get()).sum::<u32>());
            }
            black_box(rand_utils::fisher_yates(&v).iter().flatten().map(|x| x.get()).sum::<u32>());
        }
        4 => {
            let v = vec![[7u8; 33]; n];
            if let Some(s) = call(|| rand_utils::reservoir_sample(&v, k)) {
                black_box(s.iter().flatten().map(|x| *x as usize).sum::<usize>());
            }
            black_box(rand_utils::fisher_yates(&v).iter().flatten().map(|x| *x as usize).sum::<usize>());
            black_box(rand_utils::fisher_yates(&vec![(); n]).len());
        }
        5 => {
            let mut v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            rand_utils::in_place_fisher_yates(&mut v);
            black_box(v.concat());
            let mut v: Vec<Box<u8>> = (0..n).map(|i| Box::new(i as u8)).collect();
            let a = g.int(0, n);
            rand_utils::in_place_fisher_yates(&mut v[a..]);
            black_box(v.iter().map(|x| **x as usize).sum::<usize>());
        }
        6 => {
            let (c, d) = (g.int(0, 3), g.int(0, 3));
            let (x, y) = (table(g, c, 4), table(g, d, 4));
            call(|| eat(&[MeanSqError::cost(&x, &y)]));
            call(|| eat(&[CrossEntropyError::cost(&x, &y)]));
            call(|| eat(MeanSqError::grad_cost(&x, &y).data()));
            call(|| eat(CrossEntropyError::grad_cost(&x, &y).data()));
            let (x, y) = (targets(g, 4), targets(g, 4));
            call(|| eat(&[CrossEntropyError::cost(&x, &y)]));
            call(|| eat(CrossEntropyError::grad_cost(&x, &y).data()));
        }
        _ => {
            let c = g.int(0, 4);
            let x = table(g, c, 5);
            let (a, b) = (g.int(0, x.rows()), g.int(0, c));
            let s = MatrixSlice::from_matrix(&x, [a, b], x.rows() - a, c - b);
            for r in [Regularization::L1(0.5), Regularization::L2(0.5), Regularization::ElasticNet(0.5, 0.5), Regularization::None] {
                call(|| eat(&[r.reg_cost(s)]));
                call(|| eat(r.reg_grad(s).data()));
            }
        }
    }
    let _ = RMSProp::default();
}

fn misuse(g: &mut G) -> Res {
    DONE.with(|d| d.set(0));
    let f = g.draw(12);
    let all: [(&str, fn(&mut G)); 12] = [
        ("searchers", searchers), ("k nearest neighbours", knn), ("k-means", k_means), ("DBSCAN", dbscan), ("networks", nets), ("PCA", pca),
        ("mixtures", mixture), ("naive Bayes", bayes), ("regressions", regressions), ("transforms", transforms), ("analysis", analysis), ("tools", tools),
    ];
    let (name, run) = all[f as usize];
    g.note("family", &name);
    run(g);
    Ok(DONE.with(|d| d.get()) > 0)
}
/// Undefined behaviour on purpose: the interpreter has to notice it.
fn canary(_: &mut G) -> Res {
    let mut v: Vec<u64> = Vec::with_capacity(4);
    unsafe { v.set_len(4) };
    Ok(black_box(v[2]) == 1)
}

// ---------------------------------------------------------------- the interpreter
struct Miri {
    tools: String,
    sysroot: String,
    dir: String,
    core: String,
    src: String,
}
fn miri() -> &'static Miri {
    static M: std::sync::OnceLock<Miri> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        let get = |k: &str| std::env::var(k).unwrap_or_else(|_| { eprintln!("{} is not set: run check.sh", k); std::process::exit(2) });
        let m = Miri { tools: get("VERIF_MIRI_TOOLS"), sysroot: get("VERIF_MIRI_SYSROOT"), dir: get("VERIF_MIRI_BINS"), core: get("VERIF_MIRI_CORE"), src: get("VERIF_MIRI_SRC") };
        // it has to work, and to notice
        match interpret(&m, "memory", "C43", "misuse", 1, 1, 1) {
            Ok(_) => {}
            Err(e) => {
                if e.contains("Undefined Behavior") || e.contains("aborted") {
                    return m; // a finding, which the cases will make again
                }
                eprintln!("the interpreter does not run: {}", e);
                std::process::exit(2)
            }
        }
        match interpret(&m, "memory", "canary", "canary", 1, 1, 1) {
            Err(e) if e.contains("Undefined Behavior") => {}
            r => {
                eprintln!("the interpreter does not notice undefined behaviour: {:?}", r);
                std::process::exit(2)
            }
        }
        m
    })
}
/// Number of cases that were non-trivial; None when it took too long; Err with the report of the interpreter.
fn interpret(m: &Miri, bin: &str, check: &str, section: &str, seed: u64, cap: usize, count: usize) -> Result<Option<usize>, String> {
    let base = "-Zmiri-disable-isolation -Zmiri-ignore-leaks";
    match interpret_with(m, base, bin, check, section, seed, cap, count) {
        // the rules of borrows are not settled yet: only what breaks both proposals counts
        Err(e) if e.contains("experimental") => interpret_with(m, &format!("{} -Zmiri-tree-borrows", base), bin, check, section, seed, cap, count),
        r => r,
    }
}
#[allow(clippy::too_many_arguments)]
fn interpret_with(m: &Miri, flags: &str, bin: &str, check: &str, section: &str, seed: u64, cap: usize, count: usize) -> Result<Option<usize>, String> {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let dir = if bin == "core-checks" { &m.core } else { &m.dir };
    let sub = if bin == "core-checks" { "core" } else { "full" };
    let mut c = Command::new(format!("{}/bin/cargo-miri", m.tools))
        .env("MIRI", format!("{}/bin/miri", m.tools))
        .env("MIRI_SYSROOT", &m.sysroot)
        .env("MIRIFLAGS", flags)
        .env("VERIF_LITERALS_SCANNED", engine::literals::pass_on())
        .env("LD_LIBRARY_PATH", format!("{}/lib", m.tools))
        .arg("runner")
        .arg(format!("{}/{}", dir, bin))
        .args([check, "--interp", &format!("{},{},{},{}", section, seed, cap, count)])
        .current_dir(format!("{}/{}", m.src, sub))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start {}/bin/cargo-miri: {}", m.tools, e))?;
    let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let a = std::thread::spawn(move || { let mut s = vec![]; let _ = o.read_to_end(&mut s); String::from_utf8_lossy(&s).into_owned() });
    let b = std::thread::spawn(move || { let mut s = vec![]; let _ = e.read_to_end(&mut s); String::from_utf8_lossy(&s).into_owned() });
    let t0 = std::time::Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed().as_secs() > 40 => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(20)),
        }
    };
    let (out, err) = (a.join().unwrap_or_default(), b.join().unwrap_or_default());
    if st.is_none() {
        return Ok(None);
    }
    if let Some(l) = out.lines().find_map(|l| l.strip_prefix("finished ")) {
        return Ok(Some(l.trim().parse().unwrap_or(0)));
    }
    let at = err.find("error: ").unwrap_or(0);
    let report: String = err[at..].lines().filter(|l| !l.trim().is_empty()).take(24).collect::<Vec<_>>().join("\n    ");
    let last = out.lines().last().unwrap_or("").to_string();
    if err.contains("Undefined Behavior") || err.contains("aborted execution") {
        Err(format!("{}: {}", last, report))
    } else if st.and_then(|s| s.code()).is_none() || err.contains("error: unsupported operation") || err.contains("error: resource exhaustion") {
        // ended from outside, or more than the interpreter can do
        Ok(None)
    } else {
        Err(format!("no verdict: {}: {}", last, report))
    }
}
/// On an overloaded machine the interpreted sections end early instead of not at all.
fn late() -> bool {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    START.get_or_init(std::time::Instant::now).elapsed().as_secs() > 560
}
fn verdict(g: &mut G, bin: &str, check: &str, section: &str, count: usize) -> Res {
    let seed = g.draw(1 << 40);
    let cap = 1 + g.draw(4) as usize;
    if late() {
        return Ok(false);
    }
    g.note("cases of", &format!("{} {} {}", bin, check, section));
    g.note("rerun", &format!("{} {} --interp {},{},{},{} under Miri", bin, check, section, seed, cap, count));
    match interpret(miri(), bin, check, section, seed, cap, count) {
        Ok(Some(n)) => Ok(n > 0),
        Ok(None) => Ok(false),
        Err(e) if e.starts_with("no verdict") => {
            eprintln!("{}", e);
            std::process::exit(2)
        }
        Err(e) => Err(Fail { msg: e, known: None }),
    }
}
fn interpreted_misuse(g: &mut G) -> Res {
    verdict(g, "memory", "C43", "misuse", 12)
}
/// Sections of the other checks whose cases are quick enough for an interpreter.
const OTHERS: &[(&str, &str, &str)] = &[
    ("core-checks", "C01", "positions"), ("core-checks", "C03", "copying"), ("core-checks", "C03", "in-place"), ("core-checks", "C03", "owned"),
    ("core-checks", "C05", "inverses"), ("core-checks", "C06", "tails"), ("core-checks", "C07", "density"),
    ("toolkit", "C10", "values"), ("toolkit", "C10", "long-vectors"), ("toolkit", "C10", "arithmetic"), ("toolkit", "C10", "positive-semidefinite"),
    ("toolkit", "C11", "values"), ("toolkit", "C11", "gradients"), ("toolkit", "C11", "shapes"), ("toolkit", "C12", "cost-and-gradient"), ("toolkit", "C12", "slopes"),
    ("optim", "C13", "update-rule"), ("optim", "C14", "never-worse"), ("optim", "C14", "hostile"), ("optim", "C42", "published-algorithm"),
    ("linear", "C16", "least-squares"), ("linear", "C16", "gradient-form"), ("linear", "C17", "plumbing"), ("linear", "C18", "bernoulli"), ("linear", "C18", "poisson"),
    ("linear", "C18", "gamma"), ("linear", "C18", "families"), ("linear", "C18", "errors"),
    ("bayes", "C19", "posterior"), ("bayes", "C19", "empty-classes"), ("bayes", "C19", "failures"), ("bayes", "C19", "custom-distribution"),
    ("svmgp", "C20", "label-flip"), ("svmgp", "C20", "coefficients"), ("svmgp", "C21", "posterior"), ("svmgp", "C21", "order-and-prior"),
    ("nnet", "C22", "forward"), ("nnet", "C22", "perceptron"), ("nnet", "C22", "mismatch"), ("nnet", "C23", "gradient"), ("nnet", "C23", "layers"), ("nnet", "C23", "descent"),
    ("knn", "C24", "search"), ("knn", "C24", "errors"), ("knn", "C25", "majority"), ("knn", "C25", "errors"),
    ("cluster", "C26", "lloyd"), ("cluster", "C26", "own-initialisation"), ("cluster", "C26", "errors"), ("cluster", "C27", "em"), ("cluster", "C27", "errors"),
    ("cluster", "C28", "clusters"), ("cluster", "C28", "histories"), ("cluster", "C28", "order"),
    ("transforms", "C29", "components"), ("transforms", "C29", "variance"), ("transforms", "C30", "minmax"), ("transforms", "C31", "standardize"), ("transforms", "C32", "normalize"), ("transforms", "C33", "rows"),
    ("analysis", "C34", "counts"), ("analysis", "C35", "classes"), ("analysis", "C35", "rows"), ("analysis", "C36", "partition"), ("analysis", "C37", "published"),
    ("contracts", "C38", "untrained"), ("contracts", "C38", "columns"), ("contracts", "C38", "heights"), ("contracts", "C39", "retrain"), ("contracts", "C40", "rowwise"), ("contracts", "C41", "order"),
    ("contracts", "C44", "units"), ("contracts", "C45", "column-order"),
];
fn interpreted_cases(g: &mut G) -> Res {
    let (b, c, s) = OTHERS[g.draw(OTHERS.len() as u64) as usize];
    verdict(g, b, c, s, 1)
}

static CHECKS: &[Check] = &[Check {
    id: "C43",
    rule: "misuse: sequences of 1..6 calls of one of twelve families with tables of 0..9 rows and 0..5 columns, widths and heights that do not fit, numbers that are none, untrained models, and the user's own initialisers, searchers, layers, optimisers, kernels, means, families and distributions that break their word; interpreted: a dozen such sequences, or one case of another check with sizes up to 5 above their least, under Miri; non-trivial: a call returned without refusal (misuse), a case of the kind its own check calls non-trivial (others)",
    sections: &[sec("misuse", 400000, 10000000, misuse), sec("interpreted-misuse", 20, 120, interpreted_misuse), sec("interpreted-cases", 32, 150, interpreted_cases)],
    assumptions: &["rulinalg is a stand-in (shim/vendor/rulinalg), whose unchecked accesses abort when they are out of range", "thread_rng is replaced by a seedable stream (shim/rand)", "Miri judges accesses, initialisation, validity and the aliasing of borrows (counted when Stacked Borrows and Tree Borrows are both broken)", "an interpreted run of over 40 s is given up without a verdict, and so are those not begun 560 s after the first"],
}, Check {
    // not a check: what the interpreter is tried on
    id: "canary",
    rule: "",
    sections: &[sec("canary", 1, 1, canary)],
    assumptions: &[],
}];
fn main() {
    engine::main(CHECKS)
}
