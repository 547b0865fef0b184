//! k-means, Gaussian mixtures, DBSCAN.
use engine::stat::chi2_p;
use engine::{large, many, all_close, close, ensure, sec, Check, Fail, Res, G};
use full_checks::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::error::ErrorKind;
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::{LearningResult, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- k-means
#[derive(Debug, Clone)]
struct Given(Rows, usize);
impl Initializer for Given {
    fn init_centroids(&self, _k: usize, _inputs: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        Ok(mat(&self.0, self.1))
    }
}
fn gen_blobs(g: &mut G, n: usize, d: usize) -> Rows {
    if g.bool() {
        return gen_generic(g, n, d);
    }
    let k = g.size(1, 4);
    let c = gen_rows(g, k, d, -8., 8.);
    (0..n).map(|_| { let i = g.int(0, k - 1); (0..d).map(|j| c[i][j] + g.normal()).collect() }).collect()
}
/// Nearest centroid of every row, its squared distance, and the smallest gap to the second nearest.
fn nearest(c: &Rows, x: &Rows) -> (Vec<usize>, Vec<f64>, f64) {
    let (mut idx, mut ds, mut gap) = (vec![], vec![], f64::INFINITY);
    for r in x {
        let all: Vec<f64> = c.iter().map(|m| dist2(m, r)).collect();
        let mut b = 0;
        for j in 1..all.len() {
            if all[j] < all[b] {
                b = j;
            }
        }
        for j in 0..all.len() {
            if j != b {
                gap = gap.min((all[j] - all[b]) / (1. + all[b]));
            }
        }
        idx.push(b);
        ds.push(all[b]);
    }
    (idx, ds, gap)
}
fn lloyd(c: &Rows, x: &Rows) -> (Rows, f64, f64, bool) {
    let (idx, ds, gap) = nearest(c, x);
    let mut new = c.clone();
    let mut empty = false;
    for j in 0..c.len() {
        let mine: Rows = (0..x.len()).filter(|&i| idx[i] == j).map(|i| x[i].clone()).collect();
        if mine.is_empty() {
            empty = true;
        } else {
            new[j] = col_means(&mine);
        }
    }
    (new, ds.iter().sum(), gap, empty)
}
fn get_centroids<I: Initializer>(m: &KMeansClassifier<I>) -> Result<Rows, Fail> {
    match *m.centroids() {
        Some(ref c) => Ok(rows_of(c)),
        None => engine::fail!("no centroids after training"),
    }
}
fn km_lloyd(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let n = g.rows(1, 24);
    let k = g.size(1, n.min(6));
    let x = gen_blobs(g, n, d);
    let init: Rows = if g.bool() { let p = g.perm(n); p[..k].iter().map(|&i| x[i].clone()).collect() } else { gen_generic(g, k, d) };
    let iters = if g.chance(1, 3) { 200 } else { g.int(0, 6) };
    let t = { let nt = g.rows(1, 6); gen_generic(g, nt, d) };
    // in some units: a power of two changes no digit
    let u = if g.chance(1, 4) { 2f64.powi(g.sint(-60, 60) as i32) } else { 1. };
    let scaled = |x: &Rows| -> Rows { x.iter().map(|r| r.iter().map(|v| v * u).collect()).collect() };
    g.note("rows", &x);
    g.note("units", &u);
    g.note("initial centroids", &init);
    g.note("iterations", &iters);
    g.note("new rows", &t);
    let mut m = KMeansClassifier::new_specified(k, if iters == 0 { 1 } else { iters }, Given(scaled(&init), d));
    m.set_iters(iters);
    ensure!(m.k() == k && m.iters() == iters, "k and iterations are reported as {} and {}", m.k(), m.iters());
    ensure!(m.init_algorithm().0 == scaled(&init), "the initialisation is not the one given");
    ensure!(m.predict(&mat(&scaled(&x), d)).is_err() && m.centroids().is_none(), "an untrained model predicts");
    m.train(&mat(&scaled(&x), d)).map_err(|e| format!("training failed: {}", e))?;
    let got: Rows = get_centroids(&m)?.iter().map(|r| r.iter().map(|v| v / u).collect()).collect();
    // reference
    let mut c = init.clone();
    let mut moved = false;
    for _ in 0..iters {
        let (new, _, gap, _) = lloyd(&c, &x);
        if gap < 1e-9 {
            return Ok(false); // a tie decides
        }
        if new == c {
            break;
        }
        moved = true;
        c = new;
    }
    ensure!(got.len() == k && got.iter().all(|r| r.len() == d), "{} centroids", got.len());
    for j in 0..k {
        ensure!(all_close(&got[j], &c[j], 1e-9), "centroid {} is {:?}, by hand {:?}", j, got[j], c[j]);
    }
    for rows in [&x, &t] {
        let (idx, _, gap) = nearest(&got, rows);
        if gap < 1e-12 {
            continue;
        }
        let p = m.predict(&mat(&scaled(rows), d)).map_err(|e| format!("prediction failed: {}", e))?.into_vec();
        ensure!(p == idx, "rows are predicted {:?}, the nearest centroids are {:?}", p, idx);
    }
    Ok(moved && k > 1)
}
fn cost_of(c: &Rows, x: &Rows) -> f64 {
    nearest(c, x).1.iter().sum()
}
/// Trained with its own initialisations, from the same stream with growing iteration bounds.
fn km_own_init(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let n = g.rows(1, 30);
    let k = g.size(1, n.min(6));
    let x = gen_blobs(g, n, d);
    let kind = g.draw(4);
    let seed = g.seed();
    g.note("rows", &x);
    g.note("k, initialisation", &(k, ["k-means++", "Forgy", "random partition", "new()"][kind as usize]));
    fn train<I: Initializer>(mut m: KMeansClassifier<I>, seed: u64, iters: Option<usize>, x: &Rows, kk: usize) -> Result<(Rows, Vec<usize>), Fail> {
        let d = x[0].len();
        if let Some(i) = iters {
            m.set_iters(i);
        } else {
            ensure!(m.iters() == 100 && m.k() == kk, "new({}) has k = {} and {} iterations", kk, m.k(), m.iters());
        }
        rand::harness::seed(seed);
        m.train(&mat(x, d)).map_err(|e| format!("training failed: {}", e))?;
        Ok((get_centroids(&m)?, m.predict(&mat(x, d)).map_err(|e| format!("prediction failed: {}", e))?.into_vec()))
    }
    let run = |iters: Option<usize>| match kind {
        0 => train(KMeansClassifier::new_specified(k, 3, KPlusPlus), seed, Some(iters.unwrap_or(100)), &x, k),
        1 => train(KMeansClassifier::new_specified(k, 3, Forgy), seed, Some(iters.unwrap_or(100)), &x, k),
        2 => train(KMeansClassifier::new_specified(k, 3, RandomPartition), seed, Some(iters.unwrap_or(100)), &x, k),
        _ => train(KMeansClassifier::new(k), seed, iters, &x, k),
    };
    if kind == 3 {
        let same = train(KMeansClassifier::new_specified(k, 100, KPlusPlus), seed, Some(100), &x, k)?;
        ensure!(run(None)? == same, "new({}) is not k-means++ with 100 iterations", k);
    }
    let mut prev = run(Some(0))?.0;
    ensure!(prev.len() == k, "{} initial centroids", prev.len());
    if kind != 2 {
        let mut used = BTreeSet::new();
        for c in &prev {
            // a row each
            let i = x.iter().position(|r| r == c);
            ensure!(i.is_some(), "initial centroid {:?} is no row", c);
            used.insert(i.unwrap());
        }
        ensure!(used.len() == k, "initial centroids {:?} repeat a row", prev);
    } else {
        for c in &prev {
            for j in 0..d {
                let (lo, hi) = x.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, r| (a.0.min(r[j]), a.1.max(r[j])));
                ensure!(c[j] >= lo - 1e-9 * (1. + lo.abs()) && c[j] <= hi + 1e-9 * (1. + hi.abs()), "initial centroid {:?} lies outside of the data", c);
            }
        }
        if k == 1 {
            ensure!(all_close(&prev[0], &col_means(&x), 1e-9), "the single initial centroid {:?} is not the mean", prev[0]);
        }
    }
    for it in 1..4 {
        let (c, _) = run(Some(it))?;
        let (a, b) = (cost_of(&prev, &x), cost_of(&c, &x));
        ensure!(b <= a * (1. + 1e-12) + 1e-12, "iteration {} raises the cost from {:e} to {:e}", it, a, b);
        prev = c;
    }
    let (c, p) = run(None)?;
    let (new, _, gap, _) = lloyd(&c, &x);
    let (idx, _, _) = nearest(&c, &x);
    if gap > 1e-9 {
        ensure!(p == idx, "rows are predicted {:?}, the nearest centroids are {:?}", p, idx);
        // 30 rows settle in 100 iterations
        for j in 0..k {
            ensure!(all_close(&new[j], &c[j], 1e-9), "after training centroid {} is {:?}, the mean of its rows {:?}", j, c[j], new[j]);
        }
    }
    Ok(k > 1 && k < n)
}
/// Random partitions decoded from powers of two; distribution of all initialisations.
fn km_init(g: &mut G) -> Res {
    let seed = g.seed();
    let what = g.draw(4);
    g.note("what", &["partition", "Forgy", "k-means++", "partition statistics"][what as usize]);
    rand::harness::seed(seed);
    match what {
        0 => {
            let n = g.size(1, 20);
            let k = g.size(1, n);
            let x: Rows = (0..n).map(|i| vec![(1u64 << i) as f64]).collect();
            g.note("rows, k", &(n, k));
            let c = RandomPartition.init_centroids(k, &mat(&x, 1)).map_err(|e| format!("failed: {}", e))?;
            ensure!(c.rows() == k && c.cols() == 1, "{}x{} centroids", c.rows(), c.cols());
            // which sets of rows have these means?  search sizes so that the sets are a partition
            let cand: Vec<Vec<u64>> = c.data().iter().map(|v| (1..=n).filter_map(|s| { let sum = v * s as f64; let r = sum.round(); if (sum - r).abs() < 1e-6 && r < (1u64 << n) as f64 && (r as u64).count_ones() as usize == s { Some(r as u64) } else { None } }).collect()).collect();
            fn cover(c: &[Vec<u64>], seen: u64, all: u64) -> bool {
                match c.first() {
                    None => seen == all,
                    Some(v) => v.iter().any(|&b| b & seen == 0 && cover(&c[1..], seen | b, all)),
                }
            }
            ensure!(cover(&cand, 0, (1u64 << n) - 1), "centroids {:?} are no means of a partition of the rows 1, 2, 4, ...", c.data());
            Ok(k > 1 && k < n)
        }
        1 => {
            let n = g.int(2, 7);
            let k = g.int(1, n - 1);
            let x: Rows = (0..n).map(|i| vec![i as f64]).collect();
            g.note("rows, k", &(n, k));
            let (mut inc, mut first) = (vec![0u64; n], vec![0u64; n]);
            let draws = 2000;
            for _ in 0..draws {
                let c = Forgy.init_centroids(k, &mat(&x, 1)).map_err(|e| format!("failed: {}", e))?.into_vec();
                let set: BTreeSet<usize> = c.iter().map(|v| *v as usize).collect();
                ensure!(c.len() == k && set.len() == k, "centroids {:?} for k = {}", c, k);
                for i in set {
                    inc[i] += 1;
                }
                first[c[0] as usize] += 1;
            }
            let e = draws as f64 * k as f64 / n as f64;
            let sd = (draws as f64 * (k as f64 / n as f64) * (1. - k as f64 / n as f64)).sqrt();
            for i in 0..n {
                ensure!((inc[i] as f64 - e).abs() < 7. * sd + 1., "row {} is drawn {} times in {}, expected {}", i, inc[i], draws, e);
            }
            let p = chi2_p(&first, &vec![draws as f64 / n as f64; n]);
            ensure!(p > 1e-9, "the first row drawn is not uniform: {:?}", first);
            Ok(true)
        }
        2 => {
            let n = g.int(3, 6);
            let x: Vec<f64> = (0..n).map(|i| i as f64 + g.unit() * 0.7 + if g.chance(1, 4) { 3. } else { 0. }).collect();
            g.note("rows", &x);
            let xm = Matrix::new(n, 1, x.clone());
            let (mut first, mut pair) = (vec![0u64; n], vec![vec![0u64; n]; n]);
            let draws = 4000;
            for _ in 0..draws {
                let c = KPlusPlus.init_centroids(2, &xm).map_err(|e| format!("failed: {}", e))?.into_vec();
                let a = x.iter().position(|v| *v == c[0]);
                let b = x.iter().position(|v| *v == c[1]);
                ensure!(a.is_some() && b.is_some() && a != b, "centroids {:?} of rows {:?}", c, x);
                first[a.unwrap()] += 1;
                pair[a.unwrap()][b.unwrap()] += 1;
            }
            let p = chi2_p(&first, &vec![draws as f64 / n as f64; n]);
            ensure!(p > 1e-9, "the first centroid is not uniform: {:?}", first);
            for a in 0..n {
                let w: Vec<f64> = (0..n).map(|b| (x[a] - x[b]) * (x[a] - x[b])).collect();
                let tot: f64 = w.iter().sum();
                // merge small cells
                let (mut o, mut e) = (vec![], vec![]);
                let (mut ro, mut re) = (0u64, 0f64);
                for b in 0..n {
                    if b == a {
                        continue;
                    }
                    let ex = first[a] as f64 * w[b] / tot;
                    if ex < 8. {
                        ro += pair[a][b];
                        re += ex;
                    } else {
                        o.push(pair[a][b]);
                        e.push(ex);
                    }
                }
                if re >= 8. {
                    o.push(ro);
                    e.push(re);
                }
                if o.len() < 2 {
                    continue;
                }
                let p = chi2_p(&o, &e);
                ensure!(p > 1e-9, "after row {} the second centroid is drawn {:?} times, in proportion to squared distances {:?}", a, o, e);
            }
            Ok(true)
        }
        _ => {
            // rows beyond the first k go to every part equally
            let k = g.int(2, 4);
            let n = k + 1;
            g.note("k", &k);
            let mut x = vec![0.; n];
            x[k] = 1.;
            let xm = Matrix::new(n, 1, x);
            let mut count = vec![0u64; k];
            for _ in 0..2000 {
                let c = RandomPartition.init_centroids(k, &xm).map_err(|e| format!("failed: {}", e))?.into_vec();
                let hot: Vec<usize> = (0..k).filter(|&i| c[i] != 0.).collect();
                ensure!(hot.len() == 1 && c[hot[0]] == 0.5, "centroids {:?} of one row 1 among {} rows 0", c, k);
                count[hot[0]] += 1;
            }
            let p = chi2_p(&count, &vec![2000. / k as f64; k]);
            ensure!(p > 1e-9, "the last row joins parts {:?} times", count);
            Ok(true)
        }
    }
}
fn km_errors(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let n = g.rows(1, 8);
    let what = g.draw(4);
    let x = gen_generic(g, n, d);
    g.note("rows", &x);
    g.note("case", &["more clusters than rows", "initial centroids of wrong shape", "repeated rows", "non-finite rows"][what as usize]);
    rand::harness::seed(g.seed());
    match what {
        0 => {
            let k = n + g.int(1, 3);
            let kind = |e: Option<rusty_machine::learning::error::Error>| matches!(e.as_ref().map(|e| e.kind()), Some(&ErrorKind::InvalidData));
            ensure!(kind(KMeansClassifier::new(k).train(&mat(&x, d)).err()), "k = {} of {} rows is not refused", k, n);
            ensure!(kind(KMeansClassifier::new_specified(k, 5, Forgy).train(&mat(&x, d)).err()), "k = {} of {} rows is not refused (Forgy)", k, n);
            ensure!(kind(KMeansClassifier::new_specified(k, 5, RandomPartition).train(&mat(&x, d)).err()), "k = {} of {} rows is not refused (partition)", k, n);
        }
        1 => {
            let k = g.size(1, n);
            let (r, c) = if g.bool() { (k + 1, d) } else { (k, d + 1) };
            let mut m = KMeansClassifier::new_specified(k, 5, Given(gen_generic(g, r, c), c));
            let e = m.train(&mat(&x, d)).err();
            ensure!(matches!(e.as_ref().map(|e| e.kind()), Some(&ErrorKind::InvalidState)), "initial centroids of {}x{} for k = {} and {} columns: {:?}", r, c, k, d, e.map(|e| e.to_string()));
            ensure!(m.predict(&mat(&x, d)).is_err(), "predicts after a failed training");
        }
        2 => {
            // u different rows, repeated
            let u = g.size(1, n);
            let xx: Rows = (0..n + 4).map(|i| x[i % u].clone()).collect();
            let k = g.size(1, 6);
            let mut m = KMeansClassifier::new(k);
            match m.train(&mat(&xx, d)) {
                Ok(()) => {
                    ensure!(k <= u, "{} clusters of {} different rows", k, u);
                    let c = get_centroids(&m)?;
                    ensure!(c.iter().flat_map(|r| r.iter()).all(|v| v.is_finite()), "centroids {:?} of finite data", c);
                    if k == u {
                        ensure!(cost_of(&c, &xx) < 1e-18 * (1. + norm(&xx[0])), "k-means++ with k = {} different rows leaves the cost {}", u, cost_of(&c, &xx));
                    }
                }
                Err(e) => ensure!(k > u && matches!(e.kind(), &ErrorKind::InvalidData), "k = {} of {} different rows: {}", k, u, e),
            }
            // other initialisations cope
            let mut m = KMeansClassifier::new_specified(k.min(n), 20, Forgy);
            m.train(&mat(&xx, d)).map_err(|e| format!("training failed: {}", e))?;
            let c = get_centroids(&m)?;
            ensure!(c.iter().flat_map(|r| r.iter()).all(|v| v.is_finite()), "centroids {:?} of finite data with repeated rows", c);
        }
        _ => {
            if n < 2 {
                return Ok(false);
            }
            let mut xx = x.clone();
            xx[g.int(0, n - 1)][g.int(0, d - 1)] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            let e = KMeansClassifier::new(2).train(&mat(&xx, d)).err();
            ensure!(matches!(e.as_ref().map(|e| e.kind()), Some(&ErrorKind::InvalidData)), "rows that are not finite: {:?}", e.map(|e| e.to_string()));
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- Gaussian mixtures
#[derive(Clone, Debug)]
struct Mix {
    w: Vec<f64>,
    m: Rows,
    c: Vec<Rows>,
}
fn read(g: &GaussianMixtureModel) -> Result<Mix, Fail> {
    match (g.means(), g.covariances()) {
        (Some(m), Some(c)) => Ok(Mix { w: g.mixture_weights().data().clone(), m: rows_of(m), c: c.iter().map(rows_of).collect() }),
        _ => engine::fail!("no means or covariances after training"),
    }
}
/// Posterior probabilities and log likelihood; None when a covariance is close to singular.
fn posterior(mix: &Mix, x: &Rows) -> Option<(Rows, f64)> {
    let d = x[0].len() as f64;
    let mut inv = vec![];
    for c in &mix.c {
        let flat: Vec<f64> = c.iter().flat_map(|r| r.iter().cloned()).collect();
        // collapsed components: close to singular, or with absolutely tiny variances
        if !flat.iter().all(|v| v.is_finite()) || sym_cond(c) > 1e8 || sym_eigen(c).0.iter().any(|v| !(*v > 1e-10)) {
            return None;
        }
        inv.push((inverse(c, 1e-13)?, det(c)));
    }
    let mut out = vec![];
    let mut ll = 0.;
    for r in x {
        let l: Vec<f64> = (0..mix.w.len())
            .map(|k| {
                let diff: Vec<f64> = r.iter().zip(&mix.m[k]).map(|(a, b)| a - b).collect();
                mix.w[k].ln() - 0.5 * dot(&diff, &mulv(&inv[k].0, &diff)) - 0.5 * inv[k].1.ln() - 0.5 * d * (2. * std::f64::consts::PI).ln()
            })
            .collect();
        let mx = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let s: f64 = l.iter().map(|v| (v - mx).exp()).sum();
        out.push(l.iter().map(|v| (v - mx).exp() / s).collect());
        ll += mx + s.ln();
    }
    Some((out, ll))
}
fn em_step(mix: &Mix, x: &Rows, opt: CovOption) -> Option<Mix> {
    let (p, _) = posterior(mix, x)?;
    let (n, d, k) = (x.len(), x[0].len(), mix.w.len());
    let mut new = mix.clone();
    for j in 0..k {
        let s: f64 = p.iter().map(|r| r[j]).sum();
        new.w[j] = s / n as f64;
        if s == 0. {
            continue;
        }
        // faint components: only where the rounding of the exponents cannot matter
        if s < 1e-6 && !(s > 1e-250 && mix.c.iter().all(|c| sym_cond(c) < 1e4)) {
            return None;
        }
        new.m[j] = (0..d).map(|c| (0..n).map(|i| p[i][j] * x[i][c]).sum::<f64>() / s).collect();
        for a in 0..d {
            for b in 0..d {
                let v = (0..n).map(|i| p[i][j] * (x[i][a] - new.m[j][a]) * (x[i][b] - new.m[j][b])).sum::<f64>() / s;
                new.c[j][a][b] = match opt {
                    CovOption::Diagonal if a != b => 0.,
                    CovOption::Regularized(e) if a == b => v + e,
                    _ => v,
                };
            }
        }
    }
    Some(new)
}
fn gen_opt(g: &mut G) -> CovOption {
    match g.draw(3) {
        0 => CovOption::Full,
        1 => CovOption::Diagonal,
        _ => CovOption::Regularized(g.scale(-3., 0.)),
    }
}
fn mix_close(a: &Mix, b: &Mix, tol: f64) -> Result<(), Fail> {
    ensure!(all_close(&a.w, &b.w, tol), "weights {:?}, by hand {:?}", a.w, b.w);
    // small weights relative to themselves
    ensure!(a.w.iter().zip(&b.w).all(|(v, w)| *w < 1e-250 || (v - w).abs() <= 10. * tol * w), "weights {:?}, by hand {:?}", a.w, b.w);
    for k in 0..a.w.len() {
        ensure!(all_close(&a.m[k], &b.m[k], tol), "mean {} {:?}, by hand {:?}", k, a.m[k], b.m[k]);
        for (r, s) in a.c[k].iter().zip(&b.c[k]) {
            ensure!(all_close(r, s, tol), "covariance {} {:?}, by hand {:?}", k, a.c[k], b.c[k]);
        }
    }
    Ok(())
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn gm_em(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let k = g.size(1, 3);
    let n = (d + 2) * k + g.rows(1, 20);
    let x = gen_blobs(g, n, d);
    let opt = gen_opt(g);
    let steps = g.size(1, 4);
    let weights: Option<Vec<f64>> = if g.bool() { Some(g.vec(k, |g| if g.chance(1, 8) { 0. } else if g.chance(1, 8) { g.scale(-200., -1.) } else { g.uni(0.1, 3.) })) } else { None };
    let weights = weights.filter(|w| w.iter().sum::<f64>() > 0.);
    let t = { let nt = g.size(1, 4); gen_rows(g, nt, d, -30., 30.) };
    let seed = g.seed();
    let before = g.chance(1, 3);
    let far = g.f(-1e4, 1e4);
    let defaults = g.chance(1, 8);
    g.note("rows", &x);
    g.note("k, covariance option, iterations", &(k, opt, steps));
    g.note("weights", &weights);
    g.note("new rows", &t);
    let fit = |iters: usize| -> Result<Option<(Mix, GaussianMixtureModel)>, Fail> {
        let mut m = match weights {
            Some(ref w) => GaussianMixtureModel::with_weights(k, vecd(w)).map_err(|e| format!("weights refused: {}", e))?,
            None => GaussianMixtureModel::new(k),
        };
        m.cov_option = opt;
        m.set_max_iters(iters);
        ensure!(m.predict(&mat(&x, d)).is_err(), "an untrained model predicts");
        ensure!((m.mixture_weights().sum() - 1.).abs() < 1e-12, "weights {:?} before training", m.mixture_weights().data());
        if before {
            // weights survive, everything else starts anew
            m.set_max_iters(0);
            rand::harness::seed(seed ^ 1);
            m.train(&mat(&x, d)).map_err(|e| format!("training failed: {}", e))?;
            m.set_max_iters(iters);
        }
        rand::harness::seed(seed);
        match m.train(&mat(&x, d)) {
            Ok(()) => Ok(Some((read(&m)?, m))),
            Err(_) if iters > 0 => Ok(None), // a singular covariance
            Err(e) => engine::fail!("training failed: {}", e),
        }
    };
    if defaults {
        // a hundred iterations with full covariances, unless told otherwise
        let run = |explicit: bool| {
            let mut m = match weights {
                Some(ref w) => GaussianMixtureModel::with_weights(k, vecd(w)).unwrap(),
                None => GaussianMixtureModel::new(k),
            };
            if explicit {
                m.cov_option = CovOption::Full;
                m.set_max_iters(100);
            }
            rand::harness::seed(seed);
            m.train(&mat(&x, d)).ok().map(|_| {
                let means = m.means().map(|m| bits(m.data()));
                let covs = m.covariances().map(|c| c.iter().map(|c| bits(c.data())).collect::<Vec<_>>());
                (means, covs, bits(m.mixture_weights().data()))
            })
        };
        ensure!(run(false) == run(true), "a model as constructed does not run 100 iterations with full covariances");
    }
    let (first, _) = fit(0)?.unwrap();
    // the start: rows as means, covariance of the data
    let mut used = BTreeSet::new();
    for m in &first.m {
        let i = x.iter().position(|r| r == m);
        ensure!(i.is_some(), "initial mean {:?} is no row", m);
        used.insert(i);
    }
    let distinct = (0..n).all(|i| !x[..i].contains(&x[i]));
    ensure!((used.len() == k || !distinct) && first.c.len() == k && first.w.len() == k, "{} different initial means of {}", used.len(), k);
    match weights {
        Some(ref w) => { let s: f64 = w.iter().sum(); ensure!(all_close(&first.w, &w.iter().map(|v| v / s).collect::<Vec<_>>(), 1e-12), "initial weights {:?} for {:?}", first.w, w) }
        None => ensure!(first.w.iter().all(|v| (v * k as f64 - 1.).abs() < 1e-12), "initial weights {:?}", first.w),
    }
    let sc = scatter(&x, &col_means(&x));
    for c in &first.c {
        for a in 0..d {
            for b in 0..d {
                let v = sc[a][b] / (n as f64 - 1.);
                match opt {
                    CovOption::Full => ensure!(close(c[a][b], v, 1e-9), "initial covariance {:?}, of the data [{},{}] {}", c, a, b, v),
                    CovOption::Regularized(e) => ensure!(close(c[a][b], v + if a == b { e } else { 0. }, 1e-9), "initial covariance {:?}, of the data [{},{}] {} + {}", c, a, b, v, e),
                    CovOption::Diagonal => {
                        ensure!(a == b || c[a][b] == 0., "initial diagonal covariance {:?}", c);
                        ensure!(a != b || c[a][b] > 0. || v <= 0., "initial diagonal covariance {:?}", c);
                    }
                }
            }
        }
    }
    let mut prev = first;
    let mut ll_before: Option<f64> = None;
    for it in 1..=steps {
        let want = match em_step(&prev, &x, opt) {
            Some(w) => w,
            None => return Ok(false),
        };
        let (got, model) = match fit(it)? {
            Some(v) => v,
            None => engine::fail!("training fails although all covariances are regular"),
        };
        if posterior(&got, &x).is_none() && posterior(&want, &x).is_none() {
            return Ok(false);
        }
        let ll0 = posterior(&prev, &x).unwrap().1;
        // training ends where the likelihood no longer changes
        let same = got.w == prev.w && got.m == prev.m && got.c == prev.c;
        if same && ll_before.map_or(false, |v| (ll0 - v).abs() <= 1e-9 * (1. + v.abs())) {
            return Ok(k > 1);
        }
        ll_before = Some(ll0);
        if let Err(f) = mix_close(&got, &want, 1e-6) {
            engine::fail!("iteration {} is no expectation-maximisation step from {:?}: {:?}", it, prev, f);
        }
        let (pw, ll) = match posterior(&got, &x) {
            Some(v) => v,
            None => return Ok(false),
        };
        if !matches!(opt, CovOption::Regularized(_)) {
            ensure!(ll >= ll0 - 1e-6 * (1. + ll0.abs()), "iteration {} lowers the log likelihood from {} to {}", it, ll0, ll);
        }
        ensure!((got.w.iter().sum::<f64>() - 1.).abs() < 1e-9 && got.w.iter().all(|v| *v >= 0.), "mixture weights {:?}", got.w);
        let mut new = t.clone();
        new.push(vec![far; d]);
        for (rows, want) in [(&x, Some(pw)), (&new, posterior(&got, &new).map(|v| v.0))] {
            let p = rows_of(&model.predict(&mat(rows, d)).map_err(|e| format!("prediction failed: {}", e))?);
            let want = match want {
                Some(w) => w,
                None => continue,
            };
            for i in 0..rows.len() {
                ensure!(p[i].len() == k && (p[i].iter().sum::<f64>() - 1.).abs() < 1e-9 && p[i].iter().all(|v| *v >= 0.), "memberships {:?} of row {:?} are no distribution", p[i], rows[i]);
                // the exponent grows with the squared distance: so does its rounding
                let z = rows[i].iter().map(|v| v.abs()).fold(1., f64::max);
                ensure!(all_close(&p[i], &want[i], 1e-6 + 1e-9 * z * z), "memberships {:?} of row {:?}, by Bayes' rule {:?}", p[i], rows[i], want[i]);
            }
        }
        prev = got;
    }
    Ok(k > 1)
}
fn gm_errors(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let k = g.size(1, 4);
    let what = g.draw(4);
    g.note("case", &["weights", "rows", "singular", "single component"][what as usize]);
    rand::harness::seed(g.seed());
    match what {
        0 => {
            let len = if g.bool() { k } else { g.int(0, 6) };
            let w: Vec<f64> = g.vec(len, |g| if g.chance(1, 6) { -g.uni(0.01, 1.) } else if g.chance(1, 3) { 0. } else { g.uni(0., 5.) });
            g.note("k, weights", &(k, &w));
            let ok = len == k && w.iter().all(|v| *v >= 0.) && w.iter().sum::<f64>() > 0.;
            match GaussianMixtureModel::with_weights(k, vecd(&w)) {
                Ok(m) => {
                    ensure!(ok, "weights {:?} for k = {} are accepted", w, k);
                    let s: f64 = w.iter().sum();
                    ensure!(all_close(m.mixture_weights().data(), &w.iter().map(|v| v / s).collect::<Vec<_>>(), 1e-12), "weights {:?} become {:?}", w, m.mixture_weights().data());
                }
                Err(e) => ensure!(!ok && matches!(e.kind(), &ErrorKind::InvalidParameters), "weights {:?} for k = {}: {}", w, k, e),
            }
        }
        1 => {
            let n = g.int(1, 4);
            let x = gen_generic(g, n, d);
            let mut m = GaussianMixtureModel::new(k);
            m.cov_option = CovOption::Regularized(0.5);
            g.note("k, rows", &(k, n));
            match m.train(&mat(&x, d)) {
                Ok(()) => ensure!(n >= 2 && n >= k, "{} components of {} rows", k, n),
                Err(e) => ensure!((n < 2 || n < k) && matches!(e.kind(), &ErrorKind::InvalidData), "{} components of {} rows: {}", k, n, e),
            }
        }
        2 => {
            // a constant column: no regular covariance without regularisation
            let n = g.int(2, 12);
            let k = k.min(n);
            let mut x = gen_generic(g, n, d);
            let c = g.int(0, d - 1);
            for r in &mut x {
                r[c] = 2.;
            }
            g.note("k, rows", &(k, &x));
            let mut m = GaussianMixtureModel::new(k);
            m.cov_option = if g.bool() { CovOption::Full } else { CovOption::Diagonal };
            ensure!(m.train(&mat(&x, d)).is_err(), "a singular covariance is accepted");
            let mut m = GaussianMixtureModel::new(k);
            m.cov_option = CovOption::Regularized(0.1);
            m.set_max_iters(5);
            m.train(&mat(&x, d)).map_err(|e| format!("training with regularisation failed: {}", e))?;
            let mix = read(&m)?;
            ensure!(mix.c.iter().all(|v| close(v[c][c], 0.1, 1e-6)), "regularised variance of a constant column: {:?}", mix.c);
        }
        _ => {
            // one component: mean and covariance of the data
            let n = g.int(d + 2, 30);
            let x = gen_generic(g, n, d);
            g.note("rows", &x);
            let mut m = GaussianMixtureModel::new(1);
            m.cov_option = CovOption::Regularized(1e-3);
            m.train(&mat(&x, d)).map_err(|e| format!("training failed: {}", e))?;
            let mix = read(&m)?;
            let mean = col_means(&x);
            ensure!(close(mix.w[0], 1., 1e-12) && all_close(&mix.m[0], &mean, 1e-8), "a single component has weight {} and mean {:?}, the data {:?}", mix.w[0], mix.m[0], mean);
            let sc = scatter(&x, &mean);
            for a in 0..d {
                for b in 0..d {
                    let v = sc[a][b] / n as f64 + if a == b { 1e-3 } else { 0. };
                    ensure!(close(mix.c[0][a][b], v, 1e-8), "covariance [{},{}] of a single component is {}, of the data {}", a, b, mix.c[0][a][b], v);
                }
            }
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- DBSCAN
struct Ref {
    core: Vec<bool>,
    comp: Vec<usize>,
    near: Vec<Vec<usize>>,
}
fn ref_dbscan(x: &Rows, eps: f64, minp: usize) -> Ref {
    let n = x.len();
    let near: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|&j| dist2(&x[i], &x[j]).sqrt() < eps).collect()).collect();
    ref_from(near, minp)
}
fn ref_from(near: Vec<Vec<usize>>, minp: usize) -> Ref {
    let n = near.len();
    let core: Vec<bool> = near.iter().map(|v| v.len() >= minp).collect();
    let mut comp = vec![usize::MAX; n];
    for s in 0..n {
        if !core[s] || comp[s] != usize::MAX {
            continue;
        }
        comp[s] = s;
        let mut stack = vec![s];
        while let Some(i) = stack.pop() {
            for &j in &near[i] {
                if core[j] && comp[j] == usize::MAX {
                    comp[j] = s;
                    stack.push(j);
                }
            }
        }
    }
    Ref { core, comp, near }
}
fn check_clusters(x: &Rows, eps: f64, minp: usize, got: &[Option<usize>]) -> Result<usize, Fail> {
    check_against(&ref_dbscan(x, eps, minp), x.len(), got)
}
fn check_against(r: &Ref, n: usize, got: &[Option<usize>]) -> Result<usize, Fail> {
    ensure!(got.len() == n, "{} entries for {} rows", got.len(), n);
    let (mut fwd, mut back) = (BTreeMap::new(), BTreeMap::new());
    for i in 0..n {
        if r.core[i] {
            let c = match got[i] {
                Some(c) => c,
                None => engine::fail!("row {} has {} neighbours and is in no cluster", i, r.near[i].len()),
            };
            let a = *fwd.entry(r.comp[i]).or_insert(c);
            ensure!(a == c, "rows {} and {} are connected and are in clusters {} and {}", r.comp[i], i, a, c);
            let b = *back.entry(c).or_insert(r.comp[i]);
            ensure!(b == r.comp[i], "rows {} and {} are not connected and are both in cluster {}", b, i, c);
        }
    }
    for i in 0..n {
        if !r.core[i] {
            let ok: BTreeSet<usize> = r.near[i].iter().filter(|&&j| r.core[j]).map(|&j| got[j].unwrap()).collect();
            match got[i] {
                None => ensure!(ok.is_empty(), "row {} is within reach of clusters {:?} and is in none", i, ok),
                Some(c) => ensure!(ok.contains(&c), "row {} is in cluster {}, the clusters within reach are {:?}", i, c, ok),
            }
        }
    }
    for c in 0..back.len() {
        ensure!(back.contains_key(&c), "{} clusters are numbered {:?}", back.len(), back.keys().collect::<Vec<_>>());
    }
    Ok(back.len())
}
fn gen_dense(g: &mut G) -> (Rows, f64, usize) {
    let d = g.dim(1, 3);
    let n = g.rows(1, 40);
    match g.draw(4) {
        0 => {
            // integer points on a line: distances equal to epsilon do occur
            let w = g.size(1, 30) as i64;
            let x = (0..n).map(|_| { let mut v = vec![0.; d]; v[0] = g.sint(-w, w) as f64; v }).collect();
            (x, g.int(1, 3) as f64, g.size(0, 5))
        }
        1 => {
            // a chain in random order
            let step = g.uni(0.5, 1.);
            let p = g.perm(n);
            let x = p.iter().map(|&i| { let mut v = vec![1.; d]; v[0] = i as f64 * step; v }).collect();
            (x, g.uni(0.4, 2.6), g.size(1, 5))
        }
        2 => {
            let k = g.size(1, 4);
            let c = gen_rows(g, k, d, -6., 6.);
            let x = (0..n).map(|_| { let i = g.int(0, k - 1); (0..d).map(|j| c[i][j] + g.normal()).collect() }).collect();
            (x, g.uni(0.2, 2.5), g.size(1, 7))
        }
        _ => (gen_rows(g, n, d, -4., 4.), g.uni(0.2, 3.), g.size(1, 6)),
    }
}
/// Thousands of rows in one cluster: integer points along a curve, in several orders, trained in a thread whose
/// stack is 1 MB (as large as a program's first stack is on some systems).
fn db_long(g: &mut G) -> Res {
    let n = g.size(10, 6500);
    let d = g.size(1, 2);
    let minp = g.int(1, 3);
    let order = g.draw(3);
    let breaks = g.size(0, 3);
    let gaps: Vec<usize> = (0..breaks).map(|_| g.int(1, n - 1)).collect();
    let seedling = g.seed();
    g.note("rows, columns, minimum of points, order, gaps, stream", &(n, d, minp, order, gaps.clone(), seedling));
    let mut at: Vec<usize> = (0..n).collect();
    match order {
        0 => {}
        1 => at.reverse(),
        _ => {
            let mut s = seedling | 1;
            for i in (1..n).rev() {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                at.swap(i, (s >> 20) as usize % (i + 1));
            }
        }
    }
    // place on the line; a gap is three steps wide
    let place = |i: usize| (i + 2 * gaps.iter().filter(|&&b| b <= i).count()) as f64;
    let x: Rows = at.iter().map(|&i| { let mut v = vec![2.; d]; v[d - 1] = place(i); v }).collect();
    let eps = 1.5;
    let mut whereis = vec![0; n];
    for (row, &i) in at.iter().enumerate() {
        whereis[i] = row;
    }
    let near: Vec<Vec<usize>> = at.iter().map(|&i| (i.saturating_sub(2)..n.min(i + 3)).filter(|&j| (place(i) - place(j)).abs() < eps).map(|j| whereis[j]).collect()).collect();
    let r = ref_from(near, minp);
    let m = mat(&x, d);
    let got = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(sc, || {
                let mut model = DBSCAN::new(eps, minp);
                model.train(&m).map(|_| model.clusters().map(|c| c.data().clone()))
            })
            .unwrap()
            .join()
    });
    let got = match got {
        Ok(v) => v.map_err(|e| format!("training failed: {}", e))?.ok_or("no clusters after training")?,
        Err(p) => std::panic::resume_unwind(p),
    };
    check_against(&r, n, &got)?;
    Ok(n > 1000)
}
/// Distances that are not exactly representable must keep away from epsilon.
fn clear(x: &Rows, y: &Rows, eps: f64) -> bool {
    x.iter().all(|a| y.iter().all(|b| { let v = dist2(a, b).sqrt(); v == v.round() || (v - eps).abs() > 1e-9 }))
}
fn db_clusters(g: &mut G) -> Res {
    let (x, eps, minp) = gen_dense(g);
    let d = x[0].len();
    g.note("rows", &x);
    g.note("epsilon, minimum of points", &(eps, minp));
    if !clear(&x, &x, eps) {
        return Ok(false);
    }
    let mut m = DBSCAN::new(eps, minp);
    ensure!(m.clusters().is_none(), "clusters before training");
    m.train(&mat(&x, d)).map_err(|e| format!("training failed: {}", e))?;
    let c = m.clusters().ok_or("no clusters after training")?.data().clone();
    let k = check_clusters(&x, eps, minp, &c)?;
    let r = ref_dbscan(&x, eps, minp);
    // border and noise rows, or several clusters
    Ok(k > 1 || (k == 1 && r.core.iter().any(|c| !c)))
}
#[derive(Debug)]
enum Op {
    Predictive(bool),
    Train(usize),
    Predict(Rows),
}
fn db_history(g: &mut G) -> Res {
    let (x, eps, minp) = gen_dense(g);
    let d = x[0].len();
    let mut sets = vec![x];
    for _ in 0..2 {
        let n = g.size(1, 20);
        let s = gen_rows(g, n, d, -5., 5.);
        sets.push(s);
    }
    let dflt = g.chance(1, 5);
    let (eps, minp) = if dflt { (0.5, 5) } else { (eps, minp) };
    let len = g.size(1, 8);
    let ops: Vec<Op> = g.vec(len, |g| match g.draw(3) {
        0 => Op::Predictive(g.chance(2, 3)),
        1 => Op::Train(g.int(0, 2)),
        _ => {
            let nt = g.size(1, 5);
            Op::Predict((0..nt).map(|_| if g.bool() { let s = g.int(0, 2); let mut v = g.pick(&sets[s]).clone(); v[0] += g.uni(-2., 2.); v } else { (0..d).map(|_| g.uni(-6., 6.)).collect() }).collect())
        }
    });
    g.note("data sets", &sets);
    g.note("epsilon, minimum of points", &(eps, minp));
    g.note("operations", &ops);
    for s in &sets {
        if !clear(s, s, eps) {
            return Ok(false);
        }
    }
    let mut m = if dflt { DBSCAN::default() } else { DBSCAN::new(eps, minp) };
    let mut predictive = false;
    let mut trained: Option<(usize, bool)> = None; // data set, data kept
    let mut good = 0;
    for op in &ops {
        match op {
            Op::Predictive(b) => {
                m.set_predictive(*b);
                predictive = *b;
            }
            Op::Train(s) => {
                m.train(&mat(&sets[*s], d)).map_err(|e| format!("training failed: {}", e))?;
                trained = Some((*s, predictive));
            }
            Op::Predict(t) => {
                let p = m.predict(&mat(t, d));
                let usable = predictive && matches!(trained, Some((_, true)));
                if !usable {
                    match p {
                        Ok(p) => engine::fail!("predicts {:?} from {}", p.data(), if predictive { "data it has not kept" } else { "a model that is not predictive" }),
                        Err(e) => {
                            let want_state = !predictive;
                            let ok = if want_state { matches!(e.kind(), &ErrorKind::InvalidState) } else { matches!(e.kind(), &ErrorKind::UntrainedModel) };
                            ensure!(ok, "error {:?} of a {} model", e.kind(), if predictive { "predictive, untrained" } else { "non-predictive" });
                        }
                    }
                    continue;
                }
                let p = p.map_err(|e| format!("prediction failed: {}", e))?.into_vec();
                ensure!(p.len() == t.len(), "{} predictions for {} rows", p.len(), t.len());
                let x = &sets[trained.unwrap().0];
                let c = m.clusters().ok_or("no clusters")?.data().clone();
                for (q, l) in t.iter().zip(&p) {
                    let ds: Vec<f64> = x.iter().map(|r| dist2(r, q).sqrt()).collect();
                    let best = ds.iter().cloned().fold(f64::INFINITY, f64::min);
                    if (best - eps).abs() < 1e-9 {
                        continue;
                    }
                    let ok: Vec<Option<usize>> = if best < eps { (0..x.len()).filter(|&i| ds[i] <= best + 1e-12).map(|i| c[i]).collect() } else { vec![None] };
                    ensure!(ok.contains(l), "{:?} is predicted {:?}; the nearest training row at distance {} is in {:?} (epsilon {})", q, l, best, ok, eps);
                    good += 1;
                }
            }
        }
        match trained {
            Some((s, _)) => {
                check_clusters(&sets[s], eps, minp, m.clusters().ok_or("no clusters after training")?.data())?;
            }
            None => ensure!(m.clusters().is_none(), "clusters before training"),
        }
    }
    Ok(good > 0)
}
fn db_invariance(g: &mut G) -> Res {
    // reordering rows renames clusters only; border rows may change sides
    let (x, eps, minp) = gen_dense(g);
    let d = x[0].len();
    let n = x.len();
    let p = g.perm(n);
    g.note("rows", &x);
    g.note("order", &p);
    g.note("epsilon, minimum of points", &(eps, minp));
    if !clear(&x, &x, eps) {
        return Ok(false);
    }
    let run = |r: &Rows| -> Result<Vec<Option<usize>>, Fail> {
        let mut m = DBSCAN::new(eps, minp);
        m.train(&mat(r, d)).map_err(|e| format!("training failed: {}", e))?;
        Ok(m.clusters().ok_or("no clusters")?.data().clone())
    };
    let a = run(&x)?;
    let b = run(&permute(&x, &p))?;
    let r = ref_dbscan(&x, eps, minp);
    let mut name = BTreeMap::new();
    for (at, &i) in p.iter().enumerate() {
        ensure!(a[i].is_some() == b[at].is_some(), "row {} is {} a cluster, reordered it is {:?}", i, if a[i].is_some() { "in" } else { "in no" }, b[at]);
        if r.core[i] {
            let v = name.entry(a[i]).or_insert(b[at]);
            ensure!(*v == b[at], "reordering the rows changes the clusters: {:?} becomes {:?}", a, b);
        }
    }
    let _: Option<Vector<f64>> = None;
    Ok(name.len() > 1)
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
const RNG: &str = "thread_rng is replaced by a seedable stream (shim/rand)";
large!(km_lloyd_large, km_lloyd, 20);
large!(km_own_init_large, km_own_init, 12);
large!(gm_em_large, gm_em, 4);
large!(db_clusters_large, db_clusters, 15);
large!(db_invariance_large, db_invariance, 8);
many!(km_lloyd_many, km_lloyd, 9000);
many!(km_own_init_many, km_own_init, 3000);
many!(gm_em_many, gm_em, 3000);
many!(db_clusters_many, db_clusters, 2500);
static CHECKS: &[Check] = &[
    Check {
        id: "C26",
        rule: "1..30 rows of 1..3 columns (blobs and normals), k 1..6, given initial centroids (rows or elsewhere, also such that clusters run empty) and the three own initialisations; iteration bounds 0..6, 100, 200; non-trivial: k > 1 and centroids move",
        sections: &[sec("lloyd", 60000, 600000, km_lloyd), sec("large-lloyd", 180, 2000, km_lloyd_large), sec("many-rows", 8, 100, km_lloyd_many), sec("own-initialisation", 18000, 150000, km_own_init), sec("large-own-initialisation", 120, 1000, km_own_init_large), sec("many-rows-own-initialisation", 6, 60, km_own_init_many), sec("initialisers", 900, 6000, km_init), sec("errors", 24000, 200000, km_errors)],
        assumptions: &[LA, RNG, "cases whose assignment is decided by a tie are skipped"],
    },
    Check {
        id: "C27",
        rule: "1..3 components in 1..3 dimensions, three covariance options, given and default weights (also zero ones), up to four iterations compared step by step, new rows near and far; non-trivial: more than one component, covariances of condition below 1e8",
        sections: &[sec("em", 18000, 150000, gm_em), sec("large-em", 120, 1000, gm_em_large), sec("many-rows", 6, 60, gm_em_many), sec("errors", 24000, 200000, gm_errors)],
        assumptions: &[LA, RNG],
    },
    Check {
        id: "C28",
        rule: "1..40 rows of 1..3 columns: integer lines with distances equal to epsilon, chains, blobs, boxes; chains of up to 6500 rows in a thread of 1 MB of stack; epsilon 0.2..3, minimum 0..7 points; operation sequences of training, prediction and switching; non-trivial: several clusters, or one with rows that are not core",
        sections: &[sec("clusters", 80000, 1500000, db_clusters), sec("large", 200, 3000, db_clusters_large), sec("many-rows", 4, 60, db_clusters_many), sec("long-clusters", 24, 200, db_long), sec("histories", 40000, 600000, db_history), sec("order", 40000, 600000, db_invariance), sec("large-order", 200, 3000, db_invariance_large)],
        assumptions: &[LA, "rows whose distance is within 1e-9 of epsilon without being an integer are skipped"],
    },
];
fn main() {
    engine::main(CHECKS)
}
