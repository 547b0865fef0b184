//! k-nearest search and the classifier on top of it.
use engine::{large, many, ensure, sec, Check, Fail, Res, G};
use full_checks::*;
use rusty_machine::learning::error::ErrorKind;
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rusty_machine::learning::SupModel;
use rusty_machine::linalg::{Matrix, Vector};
use std::collections::{BTreeMap, BTreeSet};

fn gen_points(g: &mut G, max: usize) -> (Rows, &'static str) {
    let d = g.dim(1, 4);
    let n = g.rows(1, max);
    match g.draw(8) {
        0 | 1 => (gen_rows(g, n, d, -10., 10.), "boxed"),
        2 => {
            // integer grid: ties and repeated rows
            let w = g.size(1, 4) as i64;
            ((0..n).map(|_| (0..d).map(|_| g.sint(-w, w) as f64).collect()).collect(), "grid")
        }
        3 => {
            // clusters of very different sizes
            let k = g.size(1, 4);
            let c = gen_rows(g, k, d, -100., 100.);
            let s: Vec<f64> = (0..k).map(|_| g.scale(-4., 1.)).collect();
            ((0..n).map(|_| { let i = g.int(0, k - 1); (0..d).map(|j| c[i][j] + s[i] * g.normal()).collect() }).collect(), "clusters")
        }
        4 => {
            let r = g.fs(d, -5., 5.);
            let odd = g.int(0, n - 1);
            let mut v = vec![r; n];
            if g.bool() {
                v[odd] = g.fs(d, -5., 5.);
            }
            (v, "identical")
        }
        5 => {
            // on a line
            let (a, b) = (g.fs(d, -3., 3.), g.fs(d, -3., 3.));
            ((0..n).map(|_| { let t = g.f(-4., 4.); (0..d).map(|j| a[j] + t * b[j]).collect() }).collect(), "line")
        }
        6 => {
            // columns of different scale, far from the origin
            let off = g.fs(d, -1e4, 1e4);
            let s: Vec<f64> = (0..d).map(|_| g.scale(-3., 4.)).collect();
            ((0..n).map(|_| (0..d).map(|j| off[j] + s[j] * g.f(-1., 1.)).collect()).collect(), "scaled")
        }
        _ => {
            // exponentially spread: unbalanced trees
            ((0..n).map(|_| (0..d).map(|_| { let s = if g.bool() { 1. } else { -1. }; s * g.scale(-6., 6.) }).collect()).collect(), "spread")
        }
    }
}
fn gen_query(g: &mut G, x: &Rows) -> Vec<f64> {
    let d = x[0].len();
    match g.draw(5) {
        0 => g.pick(x).clone(),
        1 => { let mut q = g.pick(x).clone(); let j = g.int(0, d - 1); q[j] += g.f(-1., 1.); q }
        2 => { let (a, b) = (g.pick(x).clone(), g.pick(x).clone()); (0..d).map(|j| (a[j] + b[j]) / 2.).collect() }
        3 => g.fs(d, -12., 12.),
        _ => { let s = g.scale(-1., 4.); (0..d).map(|_| s * g.f(-1., 1.)).collect() }
    }
}
fn check_answer(who: &str, x: &Rows, q: &[f64], k: usize, ans: Result<(Vec<usize>, Vec<f64>), rusty_machine::learning::error::Error>) -> Result<(), Fail> {
    let (idx, ds) = ans.map_err(|e| format!("{}: search failed: {}", who, e))?;
    let want = k.min(x.len());
    ensure!(idx.len() == want && ds.len() == want, "{}: {} indices and {} distances for k = {} of {} rows", who, idx.len(), ds.len(), k, x.len());
    ensure!(idx.iter().all(|&i| i < x.len()), "{}: indices {:?} of {} rows", who, idx, x.len());
    ensure!(idx.iter().collect::<BTreeSet<_>>().len() == idx.len(), "{}: a row is named twice: {:?}", who, idx);
    let mut all: Vec<f64> = x.iter().map(|r| dist2(r, q).sqrt()).collect();
    // rounding grows with the coordinates, not with the distance
    let mag = x.iter().flat_map(|r| r.iter()).chain(q).fold(0f64, |m, v| m.max(v.abs()));
    let tol = |d: f64| 1e-12 * d + 4e-15 * mag;
    for (i, d) in idx.iter().zip(&ds) {
        ensure!((d - all[*i]).abs() <= 1e-13 * all[*i], "{}: row {} is at distance {:e}, reported {:e}", who, i, all[*i], d);
    }
    ensure!(ds.windows(2).all(|w| w[0] <= w[1]), "{}: distances are not ascending: {:?}", who, ds);
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for j in 0..want {
        ensure!((ds[j] - all[j]).abs() <= tol(all[j]), "{}: the {}-th nearest row is at distance {:e}, reported {:e} (row {})", who, j + 1, all[j], ds[j], idx[j]);
    }
    Ok(())
}
fn search_all(g: &mut G) -> Res {
    let (x, kind) = gen_points(g, 90);
    let d = x[0].len();
    let leaf = if g.chance(1, 8) { g.int(0, 1) } else { g.size(1, 30) };
    let rebuild = g.chance(1, 4);
    let first = if rebuild { gen_points(g, 20).0 } else { vec![] };
    let nq = g.size(1, 4);
    let qs: Vec<(Vec<f64>, usize)> = g.vec(nq, |g| {
        let q = gen_query(g, &x);
        let k = if g.chance(1, 6) { x.len() + g.int(0, 3) } else { g.size(1, x.len().min(20)) };
        (q, k)
    });
    g.note("kind of data", &kind);
    g.note("leaf size", &leaf);
    if rebuild {
        g.note("built before with", &first);
    }
    g.note("rows", &x);
    g.note("queries (point, k)", &qs);
    fn one<S: KNearestSearch>(who: &str, mut s: S, first: &Rows, x: &Rows, qs: &[(Vec<f64>, usize)]) -> Result<(), Fail> {
        ensure!(s.search(&qs[0].0, qs[0].1).is_err(), "{}: a search before building gives an answer", who);
        if !first.is_empty() {
            s.build(mat(first, first[0].len()));
            s.search(&first[0], 1).map_err(|e| format!("{}: search failed: {}", who, e))?;
        }
        s.build(mat(x, x[0].len()));
        for (q, k) in qs {
            check_answer(who, x, q, *k, s.search(q, *k))?;
        }
        Ok(())
    }
    one("k-d tree", KDTree::new(leaf), &first, &x, &qs)?;
    one("ball tree", BallTree::new(leaf), &first, &x, &qs)?;
    one("brute force", BruteForce::new(), &first, &x, &qs)?;
    if g.chance(1, 4) {
        one("default k-d tree", KDTree::default(), &first, &x, &qs)?;
        one("default ball tree", BallTree::default(), &first, &x, &qs)?;
        one("default brute force", BruteForce::default(), &first, &x, &qs)?;
    }
    let _ = d;
    Ok(x.len() > leaf.max(2))
}
fn search_big(g: &mut G) -> Res {
    // deep trees
    let d = g.dim(1, 6);
    let n = g.rows(50, 600);
    let seedling = g.seed();
    g.note("rows, columns, stream", &(n, d, seedling));
    let mut s = seedling | 1;
    let mut next = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) as f64 / (1u64 << 53) as f64
    };
    let round = g.bool();
    let x: Rows = (0..n).map(|_| (0..d).map(|_| { let v = 20. * next() - 10.; if round { v.round() } else { v } }).collect()).collect();
    let leaf = g.size(1, 40);
    let (mut kd, mut ball, mut brute) = (KDTree::new(leaf), BallTree::new(leaf), BruteForce::new());
    kd.build(mat(&x, d));
    ball.build(mat(&x, d));
    brute.build(mat(&x, d));
    for _ in 0..g.size(1, 6) {
        let q = gen_query(g, &x);
        let k = g.size(1, 40);
        g.note("leaf, query, k", &(leaf, q.clone(), k));
        check_answer("k-d tree", &x, &q, k, kd.search(&q, k))?;
        check_answer("ball tree", &x, &q, k, ball.search(&q, k))?;
        check_answer("brute force", &x, &q, k, brute.search(&q, k))?;
    }
    Ok(true)
}
/// Rows whose columns span hundreds of powers of two: midpoint splits take them off one by one, so trees get deep.
/// Built, searched and dropped in a thread of 1 MB of stack.
fn magnitudes(g: &mut G) -> Res {
    let d = g.size(1, 8);
    let per = g.size(2, 900);
    let leaf = g.size(1, 4);
    let mixed = g.bool();
    let k = g.size(1, 5);
    let seedling = g.seed();
    g.note("columns, magnitudes of each, leaf, several columns in a row, k, stream", &(d, per, leaf, mixed, k, seedling));
    let mut s = seedling | 1;
    let mut next = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut x: Rows = vec![];
    for i in 0..per {
        for c in 0..d {
            let mut v = vec![0.; d];
            let e = 480 - i as i32;
            v[c] = 2f64.powi(e);
            if mixed && next() % 4 == 0 {
                let o = (next() % d as u64) as usize;
                v[o] += 2f64.powi(e - (next() % 50) as i32);
            }
            if next() % 8 == 0 {
                v[c] = -v[c];
            }
            x.push(v);
        }
    }
    let pick = (next() % x.len() as u64) as usize;
    let qs = [x[pick].clone(), vec![0.; d], x[0].iter().map(|v| v * 0.75).collect()];
    let m = mat(&x, d);
    fn all<S: KNearestSearch>(mut s: S, m: &Matrix<f64>, qs: &[Vec<f64>], k: usize) -> Vec<Result<(Vec<usize>, Vec<f64>), rusty_machine::learning::error::Error>> {
        s.build(m.clone());
        qs.iter().map(|q| s.search(q, k)).collect()
    }
    let k = k.min(x.len());
    let got = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(sc, || (all(KDTree::new(leaf), &m, &qs, k), all(BallTree::new(leaf), &m, &qs, k), all(BruteForce::new(), &m, &qs, k)))
            .unwrap()
            .join()
    });
    let (kd, ball, brute) = match got {
        Ok(v) => v,
        Err(p) => std::panic::resume_unwind(p),
    };
    for (who, got) in [("k-d tree", kd), ("ball tree", ball), ("brute force", brute)] {
        for (q, a) in qs.iter().zip(got) {
            check_answer(who, &x, q, k, a)?;
        }
    }
    Ok(per > 20)
}
fn search_errors(g: &mut G) -> Res {
    let (x, _) = gen_points(g, 20);
    let d = x[0].len();
    let leaf = g.size(1, 10);
    let bad = if d > 1 && g.bool() { d - 1 } else { d + g.int(1, 2) };
    let q = g.fs(bad, -3., 3.);
    let k = g.size(1, x.len());
    g.note("rows", &x);
    g.note("point of wrong length", &q);
    fn one<S: KNearestSearch>(who: &str, mut s: S, x: &Rows, q: &[f64], k: usize) -> Result<(), Fail> {
        s.build(mat(x, x[0].len()));
        ensure!(s.search(q, k).is_err(), "{}: a point of {} elements is compared with rows of {}", who, q.len(), x[0].len());
        match s.search(&x[0], 0) {
            Err(_) => Ok(()),
            Ok((i, dd)) => {
                ensure!(i.is_empty() && dd.is_empty(), "{}: {} neighbours for k = 0", who, i.len());
                Ok(())
            }
        }
    }
    one("k-d tree", KDTree::new(leaf), &x, &q, k)?;
    one("ball tree", BallTree::new(leaf), &x, &q, k)?;
    one("brute force", BruteForce::new(), &x, &q, k)?;
    Ok(true)
}

/// Can `p` be a most frequent label among k nearest rows, however ties in the distance are cut?
fn feasible(p: usize, near: &BTreeMap<usize, usize>, tied: &BTreeMap<usize, usize>, m: usize) -> bool {
    let own_tied = *tied.get(&p).unwrap_or(&0);
    let t = own_tied.min(m);
    let cap = near.get(&p).unwrap_or(&0) + t;
    if cap == 0 {
        return false;
    }
    let mut rest = m - t;
    let labels: BTreeSet<usize> = near.keys().chain(tied.keys()).cloned().collect();
    for l in labels {
        if l == p {
            continue;
        }
        let have = *near.get(&l).unwrap_or(&0);
        if have > cap {
            return false;
        }
        rest -= rest.min((cap - have).min(*tied.get(&l).unwrap_or(&0)));
    }
    rest == 0
}
fn classify(g: &mut G) -> Res {
    let (x, kind) = gen_points(g, 60);
    let (n, d) = (x.len(), x[0].len());
    let labels = g.dim(1, 4);
    let far = g.chance(1, 4);
    let y: Vec<usize> = g.vec(n, |g| { let l = g.int(0, labels - 1); if far { l * 1000 + 7 } else { l } });
    let k = if g.chance(1, 8) { g.size(1, n) } else { g.size(1, n.min(9)) };
    let leaf = g.size(2, 20);
    let which = g.draw(5);
    let nq = g.size(1, 4);
    let qs: Rows = g.vec(nq, |g| gen_query(g, &x));
    g.note("kind of data", &kind);
    g.note("rows", &x);
    g.note("labels", &y);
    g.note("k", &k);
    g.note("new rows", &qs);
    fn run<S: KNearestSearch>(mut m: KNNClassifier<S>, x: &Rows, y: &[usize], q: &Rows) -> Result<Vec<usize>, Fail> {
        let d = x[0].len();
        ensure!(m.predict(&mat(q, d)).is_err(), "an untrained classifier predicts");
        m.train(&mat(x, d), &Vector::new(y.to_vec())).map_err(|e| format!("training failed: {}", e))?;
        Ok(m.predict(&mat(q, d)).map_err(|e| format!("prediction failed: {}", e))?.into_vec())
    }
    let (k, p) = match which {
        0 => (k, run(KNNClassifier::new(k), &x, &y, &qs)?),
        1 => (k, run(KNNClassifier::new_specified(k, KDTree::new(leaf)), &x, &y, &qs)?),
        2 => (k, run(KNNClassifier::new_specified(k, BallTree::new(leaf)), &x, &y, &qs)?),
        3 => (k, run(KNNClassifier::new_specified(k, BruteForce::new()), &x, &y, &qs)?),
        _ => {
            if n < 5 {
                return Ok(false);
            }
            (5, run(KNNClassifier::default(), &x, &y, &qs)?)
        }
    };
    ensure!(p.len() == qs.len(), "{} predictions for {} rows", p.len(), qs.len());
    let mag = x.iter().chain(&qs).flat_map(|r| r.iter()).fold(0f64, |m, v| m.max(v.abs()));
    let mut decided = false;
    for (q, l) in qs.iter().zip(&p) {
        let ds: Vec<f64> = x.iter().map(|r| dist2(r, q).sqrt()).collect();
        let mut s = ds.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let kth = s[k - 1];
        let tol = 1e-11 * kth + 1e-14 * mag;
        let (mut near, mut tied) = (BTreeMap::new(), BTreeMap::new());
        let mut sure = 0;
        for i in 0..n {
            if ds[i] < kth - tol {
                *near.entry(y[i]).or_insert(0) += 1;
                sure += 1;
            } else if ds[i] <= kth + tol {
                *tied.entry(y[i]).or_insert(0) += 1;
            }
        }
        ensure!(feasible(*l, &near, &tied, k - sure), "{:?} is predicted {}; among its {} nearest rows the labels are {:?} and {} of {:?}", q, l, k, near, k - sure, tied);
        decided |= near.len() + tied.len() > 1;
    }
    let _ = d;
    Ok(decided)
}
fn classify_errors(g: &mut G) -> Res {
    let (x, _) = gen_points(g, 12);
    let (n, d) = (x.len(), x[0].len());
    let k = g.size(1, 16);
    let other = if g.bool() { n } else { g.int(0, n + 3) };
    let y: Vec<usize> = g.vec(other, |g| g.int(0, 2));
    let cols = if g.bool() { d } else if d > 1 && g.bool() { d - 1 } else { d + 1 };
    let q = gen_rows(g, 2, cols, -3., 3.);
    g.note("rows", &x);
    g.note("labels", &y);
    g.note("k", &k);
    g.note("new rows", &q);
    let mut m = KNNClassifier::new_specified(k, BallTree::new(g.size(2, 5)));
    let r = m.train(&mat(&x, d), &Vector::new(y.clone()));
    if other != n || n < k {
        match r {
            Ok(()) => engine::fail!("{} labels for {} rows and k = {} are accepted", other, n, k),
            Err(e) => ensure!(matches!(e.kind(), &ErrorKind::InvalidData), "error {:?} for data that does not fit", e.kind()),
        }
        ensure!(m.predict(&mat(&x, d)).is_err(), "the classifier predicts after a failed training");
    } else {
        r.map_err(|e| format!("training failed: {}", e))?;
        let p = m.predict(&mat(&q, cols));
        ensure!(p.is_ok() == (cols == d), "rows of {} columns after training with {}: {}", cols, d, if p.is_ok() { "predicted" } else { "refused" });
    }
    Ok(other != n || n < k || cols != d)
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
large!(search_all_large, search_all, 12);
large!(classify_large, classify, 12);
many!(search_all_many, search_all, 9000);
many!(classify_many, classify, 9000);
static CHECKS: &[Check] = &[
    Check {
        id: "C24",
        rule: "1..90 rows (50..600 in the deep-tree section) of 1..6 columns: boxed, integer grids with ties and repeated rows, clusters, identical rows, lines, columns of mixed scale, exponentially spread; leaf sizes 0..40, k from 1 beyond the number of rows, queries on, between, near and far from rows, rebuilt searchers; non-trivial: more rows than a leaf holds",
        sections: &[sec("search", 20000, 800000, search_all), sec("large", 200, 6000, search_all_large), sec("many-rows", 8, 200, search_all_many), sec("deep-trees", 600, 20000, search_big), sec("magnitudes", 60, 1500, magnitudes), sec("errors", 4000, 100000, search_errors)],
        assumptions: &[LA, "distances of rows that decide a boundary may differ by rounding (1e-12 relative)"],
    },
    Check {
        id: "C25",
        rule: "1..60 rows as for the search, 1..4 labels, k 1..9, all three searchers; prediction must be a most frequent label among the k nearest rows for some way of cutting distance ties; non-trivial: labels differ among the candidates",
        sections: &[sec("majority", 90000, 1000000, classify), sec("large", 600, 6000, classify_large), sec("many-rows", 30, 300, classify_many), sec("errors", 30000, 300000, classify_errors)],
        assumptions: &[LA],
    },
];
fn main() {
    engine::main(CHECKS)
}
