//! Confusion matrices, scores, cross validation, data sets.
use engine::stat::chi2_p;
use engine::{close, ensure, guard, sec, Check, Res, G};
use full_checks::*;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::analysis::score::{accuracy, f1, neg_mean_squared_error, precision, recall, row_accuracy};
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::Hash;

// ---------------------------------------------------------------- confusion matrix
fn cm_case<T: Ord + Eq + Hash + Copy + Debug>(g: &mut G, pool: &[T]) -> Res {
    let n = match g.draw(8) {
        0 => 0,
        1 => g.int(30, 300),
        _ => g.size(1, 12),
    };
    let kp = g.int(1, pool.len());
    let kt = g.int(1, pool.len());
    let off = g.int(0, pool.len() - 1);
    let pred: Vec<T> = g.vec(n, |g| pool[g.int(0, kp - 1)]);
    let truth: Vec<T> = if g.chance(1, 4) { pred.clone() } else { g.vec(n, |g| pool[(off + g.int(0, kt - 1)) % pool.len()]) };
    let given: Option<Vec<T>> = if g.chance(2, 3) {
        let p = g.perm(pool.len());
        let m = g.int(0, pool.len());
        Some(p[..m].iter().map(|&i| pool[i]).collect())
    } else {
        None
    };
    g.note("predictions", &pred);
    g.note("targets", &truth);
    g.note("labels", &given);
    let labels: Vec<T> = match given {
        Some(ref l) => l.clone(),
        None => pred.iter().chain(&truth).cloned().collect::<BTreeSet<T>>().into_iter().collect(),
    };
    let c = confusion_matrix(&pred, &truth, given.clone());
    ensure!(c.rows() == labels.len() && c.cols() == labels.len(), "{}x{} for {} labels", c.rows(), c.cols(), labels.len());
    for (i, a) in labels.iter().enumerate() {
        for (j, b) in labels.iter().enumerate() {
            let want = truth.iter().zip(&pred).filter(|&(t, p)| t == a && p == b).count();
            ensure!(c[[i, j]] == want, "entry {},{} (truth {:?}, prediction {:?}) is {}, counted {}", i, j, a, b, c[[i, j]], want);
        }
    }
    if given.is_none() {
        ensure!(c.data().iter().sum::<usize>() == n, "{} samples are {} in the matrix", n, c.data().iter().sum::<usize>());
    }
    // the roles exchanged: the transpose; the samples in another order: the same
    let s = confusion_matrix(&truth, &pred, given.clone());
    for i in 0..labels.len() {
        for j in 0..labels.len() {
            ensure!(c[[i, j]] == s[[j, i]], "exchanging predictions and targets is no transposition at {},{}", i, j);
        }
    }
    if n > 0 && n < 50 {
        let p = g.perm(n);
        let o = confusion_matrix(&permute(&pred, &p), &permute(&truth, &p), given.clone());
        ensure!(o.data() == c.data(), "the order of the samples matters");
    }
    // refusals
    if n > 0 {
        ensure!(guard(|| confusion_matrix(&pred[..n - 1], &truth, given.clone())).is_err(), "fewer predictions than targets are accepted");
        ensure!(guard(|| confusion_matrix(&pred, &truth[1..], given.clone())).is_err(), "more predictions than targets are accepted");
    }
    if !labels.is_empty() {
        let mut l = labels.clone();
        let at = g.int(0, l.len());
        let which = *g.pick(&labels);
        l.insert(at, which);
        g.note("labels with a repetition", &l);
        ensure!(guard(|| confusion_matrix(&pred, &truth, Some(l.clone()))).is_err(), "repeated labels are accepted");
    }
    Ok(n > 1 && labels.len() > 1)
}
fn confusion(g: &mut G) -> Res {
    match g.draw(5) {
        0 => cm_case(g, &[0usize, 1, 2, 3, 7]),
        1 => cm_case(g, &[-3i64, 5, 0, i64::MAX, i64::MIN]),
        2 => cm_case(g, &["dog", "cat", "", "Dog", "zebra"]),
        3 => cm_case(g, &[false, true]),
        _ => cm_case(g, &[(1u8, 'x'), (0, 'y'), (1, 'a')]),
    }
}

/// Many samples of many labels, counted by a map.
fn confusion_large(g: &mut G) -> Res {
    let n = g.int(300, 20000);
    let m = g.int(2, 260);
    let skew = g.bool();
    let stride = g.int(1, 9_000_000) as i64;
    let low = g.sint(-1_000_000_000, 1_000_000_000);
    let seed = g.seed();
    g.note("samples, labels, skewed, stride, lowest, stream", &(n, m, skew, stride, low, seed));
    let mut st = seed;
    let mut rnd = |k: usize| {
        st = engine::gen::mix(&[st, 1]);
        (st >> 11) as usize % k
    };
    let label = |i: usize| low + i as i64 * stride;
    let mut draw = |rnd: &mut dyn FnMut(usize) -> usize| {
        let a = rnd(m);
        if skew { a.min(rnd(m)).min(rnd(m)) } else { a }
    };
    let pred: Vec<usize> = (0..n).map(|_| draw(&mut rnd)).collect();
    let truth: Vec<usize> = (0..n).map(|i| if rnd(3) == 0 { pred[i] } else { draw(&mut rnd) }).collect();
    let mut want = std::collections::BTreeMap::new();
    for (t, p) in truth.iter().zip(&pred) {
        *want.entry((*t, *p)).or_insert(0usize) += 1;
    }
    let (lp, lt): (Vec<i64>, Vec<i64>) = (pred.iter().map(|i| label(*i)).collect(), truth.iter().map(|i| label(*i)).collect());
    let all: Vec<usize> = if g.bool() { g.perm(m) } else { pred.iter().chain(&truth).cloned().collect::<BTreeSet<_>>().into_iter().collect() };
    let given = if all.len() == m && g.bool() { Some(all.iter().map(|i| label(*i)).collect::<Vec<i64>>()) } else { None };
    let order: Vec<usize> = match given {
        Some(_) => all,
        None => pred.iter().chain(&truth).cloned().collect::<BTreeSet<_>>().into_iter().collect(),
    };
    let c = confusion_matrix(&lp, &lt, given);
    ensure!(c.rows() == order.len() && c.cols() == order.len(), "{}x{} for {} labels", c.rows(), c.cols(), order.len());
    for (i, a) in order.iter().enumerate() {
        for (j, b) in order.iter().enumerate() {
            let w = want.get(&(*a, *b)).cloned().unwrap_or(0);
            ensure!(c[[i, j]] == w, "entry {},{} (truth {}, prediction {}) is {}, counted {}", i, j, label(*a), label(*b), c[[i, j]], w);
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- scores
fn classification(g: &mut G) -> Res {
    let n = match g.draw(8) {
        0 => g.int(30, 400),
        _ => g.size(1, 14),
    };
    classification_of(g, n)
}
fn classification_large(g: &mut G) -> Res {
    let n = g.int(400, 70_000);
    classification_of(g, n)
}
fn classification_of(g: &mut G, n: usize) -> Res {
    // accuracy of arbitrary labels
    let k = g.int(1, 5);
    let o: Vec<usize> = g.vec(n, |g| g.int(0, k));
    let t: Vec<usize> = if g.chance(1, 5) { o.clone() } else { g.vec(n, |g| g.int(0, k)) };
    g.note("outputs", &o);
    g.note("targets", &t);
    let hit = o.iter().zip(&t).filter(|&(a, b)| a == b).count();
    let a = accuracy(o.iter(), t.iter());
    ensure!((a - hit as f64 / n as f64).abs() < 1e-12, "accuracy {} of {} hits in {}", a, hit, n);
    let a = accuracy(o.iter().map(|x| format!("l{}", x)), t.iter().map(|x| format!("l{}", x)));
    ensure!((a - hit as f64 / n as f64).abs() < 1e-12, "accuracy {} of strings, {} hits in {}", a, hit, n);
    ensure!(guard(|| accuracy(o[..n - 1].iter(), t.iter())).is_err() && guard(|| accuracy(o.iter(), t[1..].iter())).is_err(), "accuracy of lists of different lengths");
    // two classes
    let (po, pt) = (g.int(0, 4), g.int(0, 4));
    let ob: Vec<u32> = g.vec(n, |g| (g.int(0, 3) < po) as u32);
    let tb: Vec<u32> = g.vec(n, |g| (g.int(0, 3) < pt) as u32);
    g.note("binary outputs", &ob);
    g.note("binary targets", &tb);
    let tp = ob.iter().zip(&tb).filter(|&(a, b)| *a == 1 && *b == 1).count() as f64;
    let fp = ob.iter().zip(&tb).filter(|&(a, b)| *a == 1 && *b == 0).count() as f64;
    let fneg = ob.iter().zip(&tb).filter(|&(a, b)| *a == 0 && *b == 1).count() as f64;
    let of: Vec<f64> = ob.iter().map(|x| *x as f64).collect();
    let tf: Vec<f64> = tb.iter().map(|x| *x as f64).collect();
    let oi: Vec<i8> = ob.iter().map(|x| *x as i8).collect();
    let ti: Vec<i8> = tb.iter().map(|x| *x as i8).collect();
    // each score where its denominator is not zero
    let mut some = 0;
    for (name, num, den, got) in [
        ("precision", tp, tp + fp, [precision(ob.iter(), tb.iter()), precision(of.iter(), tf.iter()), precision(oi.iter(), ti.iter())]),
        ("recall", tp, tp + fneg, [recall(ob.iter(), tb.iter()), recall(of.iter(), tf.iter()), recall(oi.iter(), ti.iter())]),
        ("f1", 2. * tp, 2. * tp + fp + fneg, [f1(ob.iter(), tb.iter()), f1(of.iter(), tf.iter()), f1(oi.iter(), ti.iter())]),
    ] {
        for x in &got {
            if den > 0. {
                ensure!((x - num / den).abs() < 1e-12, "{} is {}, of {} true positives, {} false positives, {} false negatives", name, x, tp, fp, fneg);
            } else {
                ensure!(x.is_nan() || (*x >= 0. && *x <= 1.), "{} without any positive is {}", name, x);
            }
        }
        if den > 0. {
            some += 1;
        }
    }
    // lengths
    if n > 0 {
        ensure!(guard(|| precision(ob[..n - 1].iter(), tb.iter())).is_err() && guard(|| precision(ob.iter(), tb[1..].iter())).is_err(), "precision of lists of different lengths");
        ensure!(guard(|| recall(ob[..n - 1].iter(), tb.iter())).is_err() && guard(|| recall(ob.iter(), tb[1..].iter())).is_err(), "recall of lists of different lengths");
        ensure!(guard(|| f1(ob[..n - 1].iter(), tb.iter())).is_err() && guard(|| f1(ob.iter(), tb[1..].iter())).is_err(), "f1 of lists of different lengths");
    }
    // a third class anywhere is refused
    let at = g.int(0, n - 1);
    let bad = g.int(2, 9) as u32;
    g.note("third class at", &(at, bad));
    let mut ox = ob.clone();
    ox[at] = bad;
    let mut tx = tb.clone();
    tx[at] = bad;
    for (o, t) in [(&ox, &tb), (&ob, &tx), (&ox, &tx)] {
        ensure!(guard(|| precision(o.iter(), t.iter())).is_err(), "precision of three classes");
        ensure!(guard(|| recall(o.iter(), t.iter())).is_err(), "recall of three classes");
        ensure!(guard(|| f1(o.iter(), t.iter())).is_err(), "f1 of three classes");
    }
    Ok(some == 3 && n > 1)
}
fn regression(g: &mut G) -> Res {
    let n = match g.draw(8) {
        0 => g.int(20, 100),
        _ => g.size(1, 8),
    };
    let d = g.size(1, 4);
    regression_of(g, n, d)
}
fn regression_large(g: &mut G) -> Res {
    let d = g.int(1, 40);
    let n = g.int(100, 40_000) / d + 1;
    regression_of(g, n, d)
}
fn regression_of(g: &mut G, n: usize, d: usize) -> Res {
    let s = g.scale(-3., 3.);
    let t: Rows = (0..n).map(|_| (0..d).map(|_| g.sint(-3, 3) as f64 * s).collect()).collect();
    let o: Rows = t.iter().map(|r| if g.chance(1, 2) { r.clone() } else { r.iter().map(|x| if g.chance(1, 2) { *x } else { g.sint(-3, 3) as f64 * s }).collect() }).collect();
    g.note("outputs", &o);
    g.note("targets", &t);
    let (mo, mt) = (mat(&o, d), mat(&t, d));
    let hit = o.iter().zip(&t).filter(|&(a, b)| a == b).count();
    let a = row_accuracy(&mo, &mt);
    ensure!((a - hit as f64 / n as f64).abs() < 1e-12, "row accuracy {} of {} equal rows in {}", a, hit, n);
    let sq: f64 = o.iter().zip(&t).map(|(a, b)| dist2(a, b)).sum();
    let e = neg_mean_squared_error(&mo, &mt);
    ensure!(close(e / (s * s), -sq / n as f64 / (s * s), 1e-10), "negative mean squared error {:e}, by hand {:e}", e, -sq / n as f64);
    ensure!(e <= 0., "negative mean squared error {:e}", e);
    if n > 1 {
        let q = mat(&o[..n - 1].to_vec(), d);
        ensure!(guard(|| row_accuracy(&q, &mt)).is_err() && guard(|| neg_mean_squared_error(&q, &mt)).is_err(), "scores of matrices of different heights");
    }
    Ok(n > 1 && hit < n)
}

// ---------------------------------------------------------------- cross validation
#[derive(Debug, Clone, PartialEq)]
enum Call {
    Train(Vec<usize>, Vec<usize>),
    Predict(Vec<usize>),
}
/// Records the rows it is given (column 0 holds the row's number), answers with a marker of the training.
struct Spy {
    calls: RefCell<Vec<Call>>,
    fail_train: Option<usize>,
    fail_predict: Option<usize>,
    trained: usize,
}
fn ids(m: &Matrix<f64>) -> Vec<usize> {
    (0..m.rows()).map(|i| m[[i, 0]] as usize).collect()
}
impl SupModel<Matrix<f64>, Matrix<f64>> for Spy {
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> {
        self.calls.borrow_mut().push(Call::Train(ids(x), ids(y)));
        self.trained += 1;
        if Some(self.trained) == self.fail_train {
            return Err(Error::new(ErrorKind::InvalidState, "told to fail"));
        }
        Ok(())
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        self.calls.borrow_mut().push(Call::Predict(ids(x)));
        if Some(self.trained) == self.fail_predict {
            return Err(Error::new(ErrorKind::UntrainedModel, "told to fail"));
        }
        // outputs: the row's number and how often the model was trained
        let d: Vec<f64> = (0..x.rows()).flat_map(|i| vec![x[[i, 0]], self.trained as f64, 77.]).collect();
        Ok(Matrix::new(x.rows(), 3, d))
    }
}
fn cv_data(g: &mut G, n: usize, d: usize, e: usize) -> (Rows, Rows) {
    let x: Rows = (0..n).map(|i| (0..d).map(|j| if j == 0 { i as f64 } else { g.sint(-1, 1) as f64 }).collect()).collect();
    let y: Rows = (0..n).map(|i| (0..e).map(|j| if j == 0 { i as f64 } else { g.sint(-1, 1) as f64 }).collect()).collect();
    (x, y)
}
fn folds(g: &mut G) -> Res {
    let n = match g.draw(10) {
        0 => g.int(20, 120),
        _ => g.size(1, 14),
    };
    folds_of(g, n)
}
fn folds_large(g: &mut G) -> Res {
    let n = if g.chance(1, 6) { g.int(1000, 6000) } else { g.int(120, 1000) };
    folds_of(g, n)
}
/// The folds of many rows are as random as those of few: neighbours are separated, blocks spread.
fn random_folds_large(g: &mut G) -> Res {
    let seed = g.seed();
    let n = if g.chance(1, 8) { g.int(3000, 70_000) } else { g.int(10, 3000) };
    let k = match g.draw(3) {
        0 => 2,
        1 => g.int(2, 20.min(n)),
        _ => g.int(2, n.min(if n > 3000 { 20 } else { 200 })),
    };
    g.note("rows, folds, stream", &(n, k, seed));
    rand::harness::seed(seed);
    let x = Matrix::new(n, 1, (0..n).map(|i| i as f64).collect::<Vec<f64>>());
    let reps = (60_000 / n / k).max(2).min(400);
    const B: usize = 8;
    let b = B.min(n / 4).max(1);
    let mut at = vec![vec![0f64; b]; 2];
    let mut near = 0f64;
    let mut share = 0f64;
    let (mut first_half, mut var) = (vec![0f64; b], vec![0f64; b]);
    let mut size = vec![0f64; b];
    for i in 0..n {
        size[i * b / n] += 1.;
    }
    for _ in 0..reps {
        let mut spy = Spy { calls: RefCell::new(vec![]), fail_train: None, fail_predict: None, trained: 0 };
        k_fold_validate(&mut spy, &x, &x, k, |_, _| 0.).map_err(|e| format!("failed: {}", e))?;
        let tests: Vec<Vec<usize>> = spy.calls.borrow().iter().filter_map(|c| match *c { Call::Predict(ref a) => Some(a.clone()), _ => None }).collect();
        ensure!(tests.len() == k && tests.iter().map(|t| t.len()).sum::<usize>() == n, "{} folds of {} rows", tests.len(), n);
        let mut fold = vec![0; n];
        for (f, t) in tests.iter().enumerate() {
            for &i in t {
                fold[i] = f;
            }
        }
        share += tests.iter().map(|t| (t.len() * t.len().saturating_sub(1)) as f64).sum::<f64>() / (n as f64 * (n - 1) as f64);
        near += fold.windows(2).filter(|w| w[0] == w[1]).count() as f64;
        // rows of the earlier half of the folds, by blocks of the data
        let cut = k / 2;
        let m = tests[..cut].iter().map(|t| t.len()).sum::<usize>() as f64;
        let p = m / n as f64;
        for i in 0..n {
            if fold[i] < cut {
                at[0][i * b / n] += 1.;
            }
        }
        for j in 0..b {
            first_half[j] += size[j] * p;
            var[j] += size[j] * p * (1. - p) * (n as f64 - size[j]) / (n as f64 - 1.);
        }
    }
    // neighbours share a fold as often as any two rows (pairs of neighbours are nearly independent)
    let e = share * (n - 1) as f64;
    ensure!((near - e).abs() < 9. * (e + 1.).sqrt() + 20., "{} rows, {} folds: {} neighbouring rows share a fold, expected {:.1}", n, k, near, e);
    for j in 0..b {
        ensure!(
            (at[0][j] - first_half[j]).abs() < 7. * var[j].sqrt() + 6.,
            "{} rows, {} folds: block {} of the rows is in the first half of the folds {} times, expected {:.1}", n, k, j, at[0][j], first_half[j]
        );
    }
    Ok(true)
}
fn folds_of(g: &mut G, n: usize) -> Res {
    let k = match g.draw(8) {
        // (the work grows with rows times folds)
        0 | 3..=7 if n > 1000 => g.int(2, 1_000_000 / n),
        0 => n,
        1 => g.int(0, 1),
        2 => n + g.int(1, 3),
        _ => g.int(2.min(n), n),
    };
    let (d, e) = (g.int(1, 3), g.int(1, 2));
    let seed = g.seed();
    let (x, y) = cv_data(g, n, d, e);
    let fail_train = if g.chance(1, 8) { Some(g.int(1, k.max(1))) } else { None };
    let fail_predict = if g.chance(1, 8) { Some(g.int(1, k.max(1))) } else { None };
    g.note("rows, folds, stream", &(n, k, seed));
    g.note("training fails at, prediction fails at", &(fail_train, fail_predict));
    rand::harness::seed(seed);
    let (mx, my) = (mat(&x, d), mat(&y, e));
    let mut spy = Spy { calls: RefCell::new(vec![]), fail_train, fail_predict, trained: 0 };
    let scored: RefCell<Vec<(Vec<usize>, Vec<usize>, Vec<f64>, usize)>> = RefCell::new(vec![]);
    let score = |o: &Matrix<f64>, t: &Matrix<f64>| {
        let mut s = scored.borrow_mut();
        let marks: Vec<f64> = if o.cols() == 3 { (0..o.rows()).map(|i| o[[i, 1]]).collect() } else { vec![] };
        s.push((ids(o), ids(t), marks, t.cols()));
        s.len() as f64 * 10. + o.rows() as f64 / 1000.
    };
    let res = guard(|| k_fold_validate(&mut spy, &mx, &my, k, &score));
    if k < 2 || k > n {
        ensure!(res.is_err(), "{} folds of {} rows are accepted", k, n);
        ensure!(spy.trained == 0, "the model was trained before {} folds of {} rows were refused", k, n);
        return Ok(true);
    }
    let res = res.map_err(|p| format!("panic: {}", p))?;
    let calls = spy.calls.borrow().clone();
    let scored = scored.borrow().clone();
    g.note("calls", &calls);
    // the first failure ends the validation, with its error
    let ft = fail_train.unwrap_or(usize::MAX);
    let fp = fail_predict.unwrap_or(usize::MAX);
    let stop = ft.min(fp);
    let done = if stop == usize::MAX { k } else { stop - 1 };
    ensure!(scored.len() == done, "{} folds are scored, expected {}", scored.len(), done);
    let mut seen = vec![0usize; n];
    let mut it = calls.iter();
    let mut sizes = vec![];
    for f in 0..done {
        let (tx, ty) = match it.next() {
            Some(&Call::Train(ref a, ref b)) => (a, b),
            c => engine::fail!("fold {} begins with {:?}", f, c),
        };
        let test = match it.next() {
            Some(&Call::Predict(ref a)) => a,
            c => engine::fail!("fold {} goes on with {:?}", f, c),
        };
        ensure!(tx == ty, "fold {}: trained on rows {:?} with targets of {:?}", f, tx, ty);
        let mut all: Vec<usize> = tx.iter().chain(test).cloned().collect();
        all.sort();
        ensure!(all == (0..n).collect::<Vec<_>>(), "fold {}: rows {:?} train, {:?} test", f, tx, test);
        for &i in test {
            seen[i] += 1;
        }
        sizes.push(test.len());
        let s = &scored[f];
        ensure!(&s.0 == test && &s.1 == test && s.3 == e, "fold {}: tests rows {:?}, scores outputs {:?} against targets {:?}", f, test, s.0, s.1);
        ensure!(s.2.iter().all(|m| *m == (f + 1) as f64), "fold {}: the scored outputs are not those of the training of this fold", f);
    }
    if stop != usize::MAX {
        let err = match res {
            Err(e) => e,
            Ok(v) => engine::fail!("a failure in fold {} is not reported: {:?}", stop, v),
        };
        let want_train = ft <= fp;
        let ok = match *err.kind() {
            ErrorKind::InvalidState => want_train,
            ErrorKind::UntrainedModel => !want_train,
            _ => false,
        };
        ensure!(ok, "the failure in fold {} is reported as {:?}", stop, err);
        return Ok(true);
    }
    ensure!(it.next().is_none(), "the model is used after the last fold");
    ensure!(seen.iter().all(|c| *c == 1), "rows are tested {:?} times", seen);
    ensure!(sizes.iter().max().unwrap() - sizes.iter().min().unwrap() <= 1, "folds of sizes {:?}", sizes);
    let v = res.map_err(|e| format!("failed: {}", e))?;
    let want: Vec<f64> = sizes.iter().enumerate().map(|(i, s)| (i + 1) as f64 * 10. + *s as f64 / 1000.).collect();
    ensure!(v == want, "scores {:?}, the score function returned {:?}", v, want);
    ensure!(rows_of(&mx) == x && rows_of(&my) == y, "the data is changed");
    // rows and targets must match
    let short = mat(&y[..n - 1].to_vec(), e);
    let mut spy = Spy { calls: RefCell::new(vec![]), fail_train: None, fail_predict: None, trained: 0 };
    let r = guard(|| k_fold_validate(&mut spy, &mx, &short, 2, |_, _| 0.));
    ensure!(match r { Err(_) => true, Ok(r) => r.is_err() }, "{} rows with {} targets are accepted", n, n - 1);
    Ok(n > 2)
}
fn random_folds(g: &mut G) -> Res {
    let seed = g.seed();
    let n = g.int(3, 9);
    let k = g.int(2, n.min(5));
    g.note("rows, folds, stream", &(n, k, seed));
    rand::harness::seed(seed);
    let (x, y) = cv_data(g, n, 1, 1);
    let (mx, my) = (mat(&x, 1), mat(&y, 1));
    let reps = 2000usize;
    let mut at = vec![vec![0u64; k]; n];
    let mut pair = vec![vec![0u64; n]; n];
    let mut sizes = vec![];
    let mut again = 0u64;
    let mut last: Vec<usize> = vec![];
    for _ in 0..reps {
        let mut spy = Spy { calls: RefCell::new(vec![]), fail_train: None, fail_predict: None, trained: 0 };
        k_fold_validate(&mut spy, &mx, &my, k, |_, _| 0.).map_err(|e| format!("failed: {}", e))?;
        let tests: Vec<Vec<usize>> = spy.calls.borrow().iter().filter_map(|c| match *c { Call::Predict(ref a) => Some(a.clone()), _ => None }).collect();
        ensure!(tests.len() == k, "{} folds", tests.len());
        sizes = tests.iter().map(|t| t.len()).collect();
        for (f, t) in tests.iter().enumerate() {
            for &i in t {
                at[i][f] += 1;
                for &j in t {
                    pair[i][j] += 1;
                }
            }
        }
        let flat: Vec<usize> = tests.concat();
        if flat == last {
            again += 1;
        }
        last = flat;
    }
    // each row is equally likely at each place of the shuffled order
    for i in 0..n {
        let want: Vec<f64> = sizes.iter().map(|s| reps as f64 * *s as f64 / n as f64).collect();
        let p = chi2_p(&at[i], &want);
        ensure!(p > 1e-9, "row {} is in folds {:?} times, expected {:?}", i, at[i], want);
    }
    let together: f64 = sizes.iter().map(|s| (s * (s - 1)) as f64).sum::<f64>() / (n * (n - 1)) as f64;
    if together > 0. {
        for i in 0..n {
            for j in 0..i {
                let (o, m) = (pair[i][j], reps as f64);
                let p = chi2_p(&[o, reps as u64 - o], &[m * together, m * (1. - together)]);
                ensure!(p > 1e-9, "rows {} and {} are in one fold {} times in {}, expected {}", i, j, o, reps, m * together);
            }
        }
    }
    let orders: f64 = (1..=n).map(|i| i as f64).product();
    ensure!((again as f64) < 60. + 4. * reps as f64 / orders, "{} of {} successive validations use the same folds", again, reps);
    Ok(true)
}

// ---------------------------------------------------------------- data sets
fn fixture(s: &str) -> Rows {
    s.lines().filter(|l| !l.starts_with('#') && !l.is_empty()).map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect()).collect()
}
fn datasets(g: &mut G) -> Res {
    use rusty_machine::datasets::{iris, trees};
    let which = g.bool();
    let calls = g.int(1, 3);
    let (fix, w) = if which { (fixture(include_str!("../../fixtures/trees.txt")), 2) } else { (fixture(include_str!("../../fixtures/iris.txt")), 4) };
    let i = g.int(0, fix.len() - 1);
    g.note("trees, row, loads", &(which, i, calls));
    for c in 0..calls {
        let (data, target): (Matrix<f64>, Vec<f64>) = if which {
            let d = trees::load();
            if c > 0 {
                let e = d.clone();
                ensure!(e.data().data() == d.data().data() && e.target().data() == d.target().data(), "a copy differs");
            }
            (d.data().clone(), d.target().data().to_vec())
        } else {
            let d = iris::load();
            (d.data().clone(), d.target().data().iter().map(|x| *x as f64).collect())
        };
        ensure!(data.rows() == fix.len() && data.cols() == w && target.len() == fix.len(), "{}x{} with {} targets", data.rows(), data.cols(), target.len());
        // the row asked for, its mirror image and its neighbours
        for r in [i, fix.len() - 1 - i, (i + 1) % fix.len()] {
            for j in 0..w {
                ensure!(data[[r, j]] == fix[r][j], "row {} column {} is {}, published {}", r, j, data[[r, j]], fix[r][j]);
            }
            ensure!(target[r] == fix[r][w], "target {} is {}, published {}", r, target[r], fix[r][w]);
        }
    }
    Ok(true)
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
static CHECKS: &[Check] = &[
    Check {
        id: "C34",
        rule: "0..300 samples (and up to 20000, of up to 260 labels) of labels of five types, with all labels, some, none or those found, in any order; non-trivial: more than one sample and one label",
        sections: &[sec("counts", 180000, 2000000, confusion), sec("large", 900, 9000, confusion_large)],
        assumptions: &[LA],
    },
    Check {
        id: "C35",
        rule: "1..400 labels of several types (and up to 70000), 1..100 rows of 1..4 columns (and up to 40000 entries); lengths that differ and a third class are refused; non-trivial: every score is defined, or some rows differ",
        sections: &[sec("classes", 120000, 2000000, classification), sec("rows", 80000, 1000000, regression), sec("large-classes", 48, 600, classification_large), sec("large-rows", 120, 1500, regression_large)],
        assumptions: &[LA],
    },
    Check {
        id: "C36",
        rule: "1..120 rows (and up to 6000), 0..n+3 folds, a recording model that fails at a chosen fold in some cases; frequencies of folds of 3..9 rows, neighbours and blocks of folds of up to 70000 rows; non-trivial: more than two rows, a refusal or a failure",
        sections: &[sec("partition", 120000, 1500000, folds), sec("random", 200, 2000, random_folds), sec("large", 120, 1500, folds_large), sec("random-large", 160, 4000, random_folds_large)],
        assumptions: &[LA, "thread_rng is replaced by a seedable stream (shim/rand)"],
    },
    Check {
        id: "C37",
        rule: "every row of both data sets, loaded once to three times, against the published data (full/fixtures); all cases are non-trivial",
        sections: &[sec("published", 4000, 40000, datasets)],
        assumptions: &["the fixtures agree with the class means and totals published for the two data sets"],
    },
];
fn main() {
    engine::main(CHECKS)
}
