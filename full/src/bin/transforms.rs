//! Principal components, scaling, normalising, shuffling.
use engine::stat::chi2_p;
use engine::{large, many, all_close, close, ensure, sec, Check, Fail, Res, G};
use full_checks::*;
use rand::{thread_rng, SeedableRng, StdRng};
use rulinalg::norm::{Euclidean, Lp, MatrixNorm};
use rusty_machine::data::transforms::{Invertible, MinMaxFitter, Normalizer, Shuffler, StandardizerFitter, TransformFitter, Transformer};
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::UnSupModel;
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice};
use std::collections::BTreeMap;

fn is_data(e: &Error) -> bool {
    matches!(e.kind(), &ErrorKind::InvalidData)
}

// ---------------------------------------------------------------- PCA
struct Fit {
    comps: Rows, // one component per row
    model: PCA,
}
fn check_pca(x: &Rows, center: bool, n: Option<usize>, model: PCA, t: &Rows) -> Result<Option<Fit>, Fail> {
    let (r, d) = (x.len(), x[0].len());
    let full = r.min(d);
    let k = n.unwrap_or(full);
    let m = model.components().map_err(|e| format!("no components: {}", e))?;
    let wide = d > r;
    let comps = if wide { rows_of(m) } else { transpose(&rows_of(m)) };
    ensure!(comps.len() == k && comps.iter().all(|c| c.len() == d), "components are {}x{} for {} rows, {} columns, {} asked for", m.rows(), m.cols(), r, d, k);
    let mean = if center { col_means(x) } else { vec![0.; d] };
    let s = scatter(x, &mean);
    let (val, _) = sym_eigen(&s);
    let big = val[0].abs().max(1e-300);
    for i in 0..k {
        for j in 0..=i {
            let want = if i == j { 1. } else { 0. };
            ensure!((dot(&comps[i], &comps[j]) - want).abs() < 1e-7, "components {} and {} have inner product {}", j, i, dot(&comps[i], &comps[j]));
        }
        // an eigenvector of the scatter matrix, of the i-th largest eigenvalue
        let sv = mulv(&s, &comps[i]);
        for c in 0..d {
            ensure!((sv[c] - val[i] * comps[i][c]).abs() <= 1e-7 * big, "component {} {:?} is no principal direction: scatter times it is {:?}, eigenvalue {:e}", i, comps[i], sv, val[i]);
        }
    }
    // projection
    for rows in [x, t] {
        let p = model.predict(&mat(rows, d)).map_err(|e| format!("prediction failed: {}", e))?;
        ensure!(p.rows() == rows.len() && p.cols() == k, "projections are {}x{}", p.rows(), p.cols());
        for (i, row) in rows.iter().enumerate() {
            let diff: Vec<f64> = row.iter().zip(&mean).map(|(a, b)| a - b).collect();
            let z = 1. + norm(&diff) + norm(&mean);
            for j in 0..k {
                ensure!((p[[i, j]] - dot(&diff, &comps[j])).abs() < 1e-9 * z, "projection {} of row {} is {:e}, by hand {:e}", j, i, p[[i, j]], dot(&diff, &comps[j]));
            }
        }
    }
    Ok(Some(Fit { comps, model }))
}
fn gen_pca_data(g: &mut G) -> Rows {
    let d = g.dim(1, 5);
    let n = g.rows(1, 10);
    match g.draw(4) {
        0 => {
            // low rank
            let b = gen_generic(g, 2, d);
            (0..n).map(|_| { let (p, q) = (g.normal(), g.normal()); (0..d).map(|j| p * b[0][j] + q * b[1][j]).collect() }).collect()
        }
        1 => gen_rows(g, n, d, -3., 3.),
        _ => gen_generic(g, n, d),
    }
}
fn pca(g: &mut G) -> Res {
    let x = gen_pca_data(g);
    let (r, d) = (x.len(), x[0].len());
    let center = g.bool();
    let n = if g.bool() { Some(g.size(1, d)) } else { None };
    let first = if g.chance(1, 3) { Some(gen_pca_data(g)) } else { None };
    let t = { let nt = g.size(1, 4); gen_rows(g, nt, d, -6., 6.) };
    let perm = g.perm(r);
    let units = g.sint(-100, 100) as i32;
    let center = center || n.is_none();
    g.note("rows", &x);
    g.note("components, centred", &(n, center));
    g.note("trained before with", &first);
    g.note("new rows", &t);
    let new = || match n {
        Some(k) => PCA::new(k, center),
        None => PCA::default(),
    };
    let mut m = new();
    ensure!(m.predict(&mat(&x, d)).is_err() && m.components().is_err(), "an untrained model answers");
    if let Some(ref f) = first {
        let _ = m.train(&mat(f, f[0].len()));
    }
    let res = m.train(&mat(&x, d));
    if let Some(k) = n {
        if k > r {
            // no more components than rows
            return match res {
                Err(_) => Ok(true),
                Ok(()) => {
                    let c = m.components().map_err(|e| format!("{}", e))?;
                    engine::fail!("{} components of {} rows are accepted: {}x{}", k, r, c.rows(), c.cols())
                }
            };
        }
    }
    res.map_err(|e| format!("training failed: {}", e))?;
    let mean = if center { col_means(&x) } else { vec![0.; d] };
    let (val, _) = sym_eigen(&scatter(&x, &mean));
    // clearly different eigenvalues, or the directions are not unique; all zero: nothing to say
    if !(val[0] > 1e-12) {
        return Ok(false);
    }
    let k = n.unwrap_or(r.min(d));
    let a = match check_pca(&x, center, n, m, &t)? {
        Some(a) => a,
        None => return Ok(false),
    };
    for c in [d + 1, d - 1] {
        ensure!(a.model.predict(&Matrix::new(1, c, vec![1.; c])).is_err(), "rows of {} columns are projected after training with {}", c, d);
    }
    // order of rows only changes signs
    let unique = (0..k).all(|i| val[i] > 1e-6 * val[0] && (i == 0 || val[i - 1] - val[i] > 1e-3 * val[0]) && (i + 1 >= val.len() || val[i] - val[i + 1] > 1e-3 * val[0]));
    if unique {
        // other units of the data: the same directions
        let u = 2f64.powi(units);
        let in_units = |x: &Rows| -> Rows { x.iter().map(|r| r.iter().map(|v| v * u).collect()).collect() };
        let mut m = new();
        m.train(&mat(&in_units(&x), d)).map_err(|e| format!("training with units of {:e} failed: {}", u, e))?;
        let c = m.components().map_err(|e| format!("{}", e))?;
        // one per row for wide data
        let c = if d > r { transpose(&rows_of(c)) } else { rows_of(c) };
        let p = rows_of(&m.predict(&mat(&in_units(&t), d)).map_err(|e| format!("prediction failed: {}", e))?);
        ensure!(c.len() == d && c[0].len() == k, "{}x{} components with units of {:e}", c.len(), c[0].len(), u);
        for i in 0..k {
            let ci: Vec<f64> = c.iter().map(|r| r[i]).collect();
            let s = dot(&a.comps[i], &ci);
            ensure!((s.abs() - 1.).abs() < 1e-6, "units of {:e} turn component {} from {:?} to {:?}", u, i, a.comps[i], ci);
            for j in 0..t.len() {
                let diff: Vec<f64> = t[j].iter().zip(&mean).map(|(a, b)| a - b).collect();
                let want = s.signum() * dot(&diff, &a.comps[i]);
                ensure!((p[j][i] / u - want).abs() <= 1e-5 * (1. + norm(&diff)), "units of {:e} turn coordinate {} of {:?} from {:e} to {:e}", u, i, t[j], want, p[j][i] / u);
            }
        }
        let y = permute(&x, &perm);
        let mut m = new();
        m.train(&mat(&y, d)).map_err(|e| format!("training failed: {}", e))?;
        if let Some(b) = check_pca(&y, center, n, m, &t)? {
            for i in 0..k {
                ensure!((dot(&a.comps[i], &b.comps[i]).abs() - 1.).abs() < 1e-6, "reordering the rows turns component {} from {:?} to {:?}", i, a.comps[i], b.comps[i]);
            }
        }
    }
    Ok(d > 1 && r > 1)
}
fn pca_variance(g: &mut G) -> Res {
    // projections of the training rows: uncorrelated, of descending variance; nothing is lost with all components
    let d = g.dim(2, 5);
    let r = d + g.int(1, 12);
    let x = gen_generic(g, r, d);
    g.note("rows", &x);
    let mut m = PCA::default();
    m.train(&mat(&x, d)).map_err(|e| format!("training failed: {}", e))?;
    let p = rows_of(&m.predict(&mat(&x, d)).map_err(|e| format!("prediction failed: {}", e))?);
    let mp = col_means(&p);
    let s = scatter(&p, &mp);
    let tot: f64 = (0..d).map(|i| s[i][i]).sum();
    for i in 0..d {
        ensure!(mp[i].abs() < 1e-9 * (1. + tot), "projections have mean {:?}", mp);
        for j in 0..i {
            ensure!(s[i][j].abs() < 1e-8 * tot, "projections {} and {} are correlated: {:e} of {:e}", j, i, s[i][j], tot);
        }
        if i > 0 {
            ensure!(s[i][i] <= s[i - 1][i - 1] * (1. + 1e-9) + 1e-9 * tot, "the variance rises from component {} to {}", i - 1, i);
        }
    }
    let sx = scatter(&x, &col_means(&x));
    ensure!(close(tot, (0..d).map(|i| sx[i][i]).sum(), 1e-9), "total scatter {} becomes {}", (0..d).map(|i| sx[i][i]).sum::<f64>(), tot);
    for i in 0..r {
        for j in 0..i {
            ensure!(close(dist2(&x[i], &x[j]), dist2(&p[i], &p[j]), 1e-8), "the squared distance of rows {} and {} changes from {} to {}", j, i, dist2(&x[i], &x[j]), dist2(&p[i], &p[j]));
        }
    }
    let mut m = PCA::new(d + 1, g.bool());
    ensure!(m.train(&mat(&x, d)).is_err(), "{} components of {} columns are accepted", d + 1, d);
    Ok(true)
}

// ---------------------------------------------------------------- scaling
fn gen_table(g: &mut G) -> Rows {
    let d = g.dim(1, 4);
    let n = g.rows(1, 8);
    let off: Vec<f64> = (0..d).map(|_| if g.bool() { 0. } else { g.f(-100., 100.) }).collect();
    let sc: Vec<f64> = (0..d).map(|_| g.scale(-2., 3.)).collect();
    let grid = g.chance(1, 3);
    let unit: Vec<f64> = (0..d).map(|_| if g.chance(1, 6) { 2f64.powi(g.sint(-60, 60) as i32) } else { 1. }).collect();
    (0..n).map(|_| (0..d).map(|j| unit[j] * if grid { g.sint(-3, 3) as f64 } else { off[j] + sc[j] * g.f(-1., 1.) }).collect()).collect()
}
fn range(x: &Rows, j: usize) -> (f64, f64) {
    x.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, r| (a.0.min(r[j]), a.1.max(r[j])))
}
fn spoil(g: &mut G, x: &mut Rows) -> bool {
    if g.chance(1, 6) {
        let (i, j) = (g.int(0, x.len() - 1), g.int(0, x[0].len() - 1));
        x[i][j] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        true
    } else {
        false
    }
}
fn minmax(g: &mut G) -> Res {
    let mut x = gen_table(g);
    let d = x[0].len();
    let bad = spoil(g, &mut x);
    let dflt = g.chance(1, 4);
    let (lo, hi) = if dflt { (0., 1.) } else { let a = g.f(-5., 5.); (a, a + g.scale(-1., 2.) * if g.chance(1, 8) { -1. } else { 1. }) };
    let t = { let nt = g.size(1, 4); let mut t = gen_rows(g, nt, d, -200., 200.); if !bad { t[0] = x[0].clone(); } t };
    g.note("rows", &x);
    g.note("range", &(lo, hi));
    g.note("new rows", &t);
    let fitter = if dflt { MinMaxFitter::default() } else { MinMaxFitter::new(lo, hi) };
    let r: Vec<(f64, f64)> = (0..d).map(|j| range(&x, j)).collect();
    let constant = r.iter().any(|v| v.0 == v.1);
    let mut s = match fitter.fit(&mat(&x, d)) {
        Err(e) => {
            ensure!((bad || constant) && is_data(&e), "fitting failed: {}", e);
            return Ok(true);
        }
        Ok(s) => s,
    };
    ensure!(!bad, "rows that are not finite are fitted");
    ensure!(!constant, "constant columns are fitted: {:?}", r);
    let want = |v: f64, j: usize| lo + (v - r[j].0) * (hi - lo) / (r[j].1 - r[j].0);
    for rows in [&x, &t] {
        let y = rows_of(&s.transform(mat(rows, d)).map_err(|e| format!("transform failed: {}", e))?);
        ensure!(y.len() == rows.len(), "{} rows of {}", y.len(), rows.len());
        for i in 0..rows.len() {
            for j in 0..d {
                // rounding of scale * value + constant
                let mag = ((hi - lo) / (r[j].1 - r[j].0)).abs() * rows[i][j].abs().max(r[j].0.abs()).max(r[j].1.abs()) + lo.abs() + hi.abs();
                ensure!((y[i][j] - want(rows[i][j], j)).abs() <= 1e-14 * mag, "column {}: {} becomes {}, expected {}", j, rows[i][j], y[i][j], want(rows[i][j], j));
            }
        }
        let back = rows_of(&s.inv_transform(mat(&y, d)).map_err(|e| format!("inverse failed: {}", e))?);
        for i in 0..rows.len() {
            for j in 0..d {
                let mag = rows[i][j].abs() + r[j].0.abs() + r[j].1.abs() + ((r[j].1 - r[j].0) / (hi - lo)).abs() * (lo.abs() + hi.abs());
                ensure!((back[i][j] - rows[i][j]).abs() <= 1e-13 * mag, "column {}: {} becomes {} and back {}", j, rows[i][j], y[i][j], back[i][j]);
            }
        }
    }
    let y = rows_of(&s.transform(mat(&x, d)).unwrap());
    for j in 0..d {
        let (a, b) = range(&y, j);
        let (l, h) = (lo.min(hi), lo.max(hi));
        let mag = ((hi - lo) / (r[j].1 - r[j].0)).abs() * r[j].0.abs().max(r[j].1.abs()) + lo.abs() + hi.abs();
        ensure!((a - l).abs() <= 1e-14 * mag && (b - h).abs() <= 1e-14 * mag, "column {} has range [{}, {}], not [{}, {}]", j, a, b, l, h);
    }
    for c in [d + 1, d - 1] {
        let m = Matrix::new(2, c, vec![1.; 2 * c]);
        let e = s.transform(m.clone()).err();
        ensure!(e.as_ref().map(is_data) == Some(true), "rows of {} columns are transformed after fitting {}", c, d);
        let e = s.inv_transform(m).err();
        ensure!(e.as_ref().map(is_data) == Some(true), "rows of {} columns are transformed back after fitting {}", c, d);
    }
    // single precision
    let xf: Matrix<f32> = Matrix::new(x.len(), d, x.iter().flat_map(|r| r.iter().map(|v| *v as f32)).collect::<Vec<f32>>());
    if let Ok(mut s) = MinMaxFitter::new(lo as f32, hi as f32).fit(&xf) {
        let y = s.transform(xf.clone()).map_err(|e| format!("transform failed: {}", e))?;
        for i in 0..x.len() {
            for j in 0..d {
                let mag = ((hi - lo) / (r[j].1 - r[j].0)).abs() * r[j].0.abs().max(r[j].1.abs()) + lo.abs() + hi.abs();
                ensure!((y[[i, j]] as f64 - want(x[i][j], j)).abs() <= 2e-6 * mag, "f32: {} becomes {}, expected {}", x[i][j], y[[i, j]], want(x[i][j], j));
            }
        }
    }
    Ok(x.len() > 2)
}
fn standardize(g: &mut G) -> Res {
    let mut x = gen_table(g);
    let (n, d) = (x.len(), x[0].len());
    let bad = spoil(g, &mut x);
    let dflt = g.chance(1, 4);
    let (mu, sd) = if dflt { (0., 1.) } else { (g.f(-5., 5.), g.scale(-1., 2.)) };
    let t = { let nt = g.size(1, 4); gen_rows(g, nt, d, -200., 200.) };
    g.note("rows", &x);
    g.note("mean, deviation", &(mu, sd));
    g.note("new rows", &t);
    let fitter = if dflt { StandardizerFitter::default() } else { StandardizerFitter::new(mu, sd) };
    let constant = !bad && (0..d).any(|j| { let r = range(&x, j); r.0 == r.1 });
    let mut s = match fitter.fit(&mat(&x, d)) {
        Err(e) => {
            ensure!((bad || n < 2 || constant) && is_data(&e), "fitting failed: {}", e);
            return Ok(true);
        }
        Ok(s) => s,
    };
    ensure!(!bad && n > 1, "{} are fitted", if bad { "rows that are not finite" } else { "single rows" });
    if constant {
        // the mean of equal values may be off by rounding: a constant column is then not recognised
        let exact = (0..d).any(|j| { let r = range(&x, j); r.0 == r.1 && r.0 == r.0.trunc() && r.0.abs() < 1e6 });
        ensure!(!exact, "a constant column is fitted");
        return Ok(false);
    }
    let m = col_means(&x);
    let v: Vec<f64> = (0..d).map(|j| (x.iter().map(|r| (r[j] - m[j]) * (r[j] - m[j])).sum::<f64>() / (n as f64 - 1.)).sqrt()).collect();
    if (0..d).any(|j| !(v[j] > 1e-6 * m[j].abs())) {
        return Ok(false);
    }
    let want = |a: f64, j: usize| mu + (a - m[j]) / v[j] * sd;
    for rows in [&x, &t] {
        let y = rows_of(&s.transform(mat(rows, d)).map_err(|e| format!("transform failed: {}", e))?);
        ensure!(y.len() == rows.len(), "{} rows of {}", y.len(), rows.len());
        for i in 0..rows.len() {
            for j in 0..d {
                let mag = 1. + want(rows[i][j], j).abs() + mu.abs() + sd * m[j].abs() / v[j];
                ensure!((y[i][j] - want(rows[i][j], j)).abs() <= 1e-9 * mag, "column {}: {} becomes {}, expected {}", j, rows[i][j], y[i][j], want(rows[i][j], j));
            }
        }
        let back = rows_of(&s.inv_transform(mat(&y, d)).map_err(|e| format!("inverse failed: {}", e))?);
        for i in 0..rows.len() {
            for j in 0..d {
                let mag = rows[i][j].abs() + m[j].abs() + v[j] * (1. + mu.abs() / sd);
                ensure!((back[i][j] - rows[i][j]).abs() <= 1e-12 * mag, "column {}: {} becomes {} and back {}", j, rows[i][j], y[i][j], back[i][j]);
            }
        }
    }
    let y = rows_of(&s.transform(mat(&x, d)).unwrap());
    let ym = col_means(&y);
    for j in 0..d {
        let w = (y.iter().map(|r| (r[j] - ym[j]) * (r[j] - ym[j])).sum::<f64>() / (n as f64 - 1.)).sqrt();
        ensure!((ym[j] - mu).abs() < 1e-8 * (1. + mu.abs() + sd) && (w - sd).abs() < 1e-8 * (1. + sd + mu.abs()), "column {} has mean {} and deviation {}, not {} and {}", j, ym[j], w, mu, sd);
    }
    for c in [d + 1, d - 1] {
        let m = Matrix::new(2, c, vec![1.; 2 * c]);
        let e = s.transform(m.clone()).err();
        ensure!(e.as_ref().map(is_data) == Some(true), "rows of {} columns are transformed after fitting {}", c, d);
        let e = s.inv_transform(m).err();
        ensure!(e.as_ref().map(is_data) == Some(true), "rows of {} columns are transformed back after fitting {}", c, d);
    }
    let xf: Matrix<f32> = Matrix::new(n, d, x.iter().flat_map(|r| r.iter().map(|v| *v as f32)).collect::<Vec<f32>>());
    if (0..d).all(|j| v[j] > 1e-2 * m[j].abs() && v[j] > 1e-15 && v[j] < 1e15) {
        let mut s = StandardizerFitter::new(mu as f32, sd as f32).fit(&xf).map_err(|e| format!("f32: fitting failed: {}", e))?;
        let y = s.transform(xf).map_err(|e| format!("f32: transform failed: {}", e))?;
        for i in 0..n {
            for j in 0..d {
                let mag = 1. + mu.abs() + sd * (1. + want(x[i][j], j).abs() + m[j].abs() / v[j]);
                ensure!((y[[i, j]] as f64 - want(x[i][j], j)).abs() <= 1e-4 * mag, "f32: {} becomes {}, expected {}", x[i][j], y[[i, j]], want(x[i][j], j));
            }
        }
    }
    Ok(n > 2)
}
struct Weird(f64);
impl<'a> MatrixNorm<f64, MatrixSlice<'a, f64>> for Weird {
    fn norm(&self, m: &MatrixSlice<'a, f64>) -> f64 {
        assert!(m.rows() == 1, "the norm is asked for {} rows", m.rows());
        self.0 * m.iter().map(|v| v.abs()).sum::<f64>()
    }
}
fn normalize(g: &mut G) -> Res {
    let d = g.dim(1, 5);
    let n = g.rows(1, 6);
    let mut x: Rows = (0..n).map(|_| { let s = if g.chance(1, 6) { g.scale(-90., 90.) } else { g.scale(-6., 6.) }; g.fs(d, -1., 1.).iter().map(|v| v * s).collect() }).collect();
    if g.chance(1, 3) {
        let k = g.int(0, n - 1);
        x[k] = vec![0.; d];
    }
    let bad = spoil(g, &mut x);
    let kind = g.draw(6);
    let f = g.uni(0.5, 3.);
    g.note("rows", &x);
    g.note("norm", &(["Euclidean (default)", "Euclidean", "Lp Integer 1", "Lp Infinity", "Lp Integer 3", "f * sum of absolute values"][kind as usize], f));
    let nrm = |r: &[f64]| -> f64 {
        match kind {
            0 | 1 => norm(r),
            2 => r.iter().map(|v| v.abs()).sum(),
            3 => r.iter().fold(0., |a: f64, v| a.max(v.abs())),
            4 => r.iter().map(|v| v.abs().powi(3)).sum::<f64>().powf(1. / 3.),
            _ => f * r.iter().map(|v| v.abs()).sum::<f64>(),
        }
    };
    let run = |m: Matrix<f64>| -> Result<Matrix<f64>, Error> {
        match kind {
            0 => Normalizer::default().transform(m),
            1 => Normalizer::new(Euclidean).transform(m),
            2 => Normalizer::new(Lp::Integer(1)).transform(m),
            3 => Normalizer::new(Lp::Infinity).transform(m),
            4 => Normalizer::new(Lp::Integer(3)).transform(m),
            _ => Normalizer::new(Weird(f)).transform(m),
        }
    };
    let y = match run(mat(&x, d)) {
        Err(e) => {
            ensure!(bad && is_data(&e), "normalising failed: {}", e);
            return Ok(true);
        }
        Ok(y) => rows_of(&y),
    };
    // the maximum norm drops NaN depending on order; only infinite entries must be seen
    if bad {
        let nan_only = x.iter().flat_map(|r| r.iter()).all(|v| !v.is_infinite());
        ensure!(kind == 3 && nan_only, "rows that are not finite are normalised to {:?}", y);
        return Ok(false);
    }
    for i in 0..n {
        let s = nrm(&x[i]);
        if s == 0. {
            ensure!(y[i] == x[i], "a zero row becomes {:?}", y[i]);
            continue;
        }
        ensure!((nrm(&y[i]) - 1.).abs() < 1e-12, "row {:?} becomes {:?} of norm {}", x[i], y[i], nrm(&y[i]));
        for j in 0..d {
            ensure!(close(y[i][j], x[i][j] / s, 1e-12), "row {:?} becomes {:?}, of another direction", x[i], y[i]);
        }
    }
    let z = rows_of(&run(mat(&y, d)).map_err(|e| format!("normalising again failed: {}", e))?);
    for i in 0..n {
        ensure!(all_close(&z[i], &y[i], 1e-12), "normalising {:?} again gives {:?}", y[i], z[i]);
    }
    // one row at a time
    for i in 0..n {
        let one = run(mat(&vec![x[i].clone()], d)).map_err(|e| format!("normalising one row failed: {}", e))?;
        ensure!(all_close(one.data(), &y[i], 1e-13), "row {} alone becomes {:?}, with others {:?}", i, one.data(), y[i]);
    }
    if kind < 2 && x.iter().map(|r| norm(r)).all(|v| v == 0. || v > 1e-15 && v < 1e15) {
        let m = Matrix::new(n, d, x.iter().flat_map(|r| r.iter().map(|v| *v as f32)).collect::<Vec<f32>>());
        let q = Normalizer::<f32, _>::default().transform(m).map_err(|e| format!("f32: normalising failed: {}", e))?;
        for i in 0..n {
            for j in 0..d {
                ensure!((q[[i, j]] as f64 - y[i][j]).abs() < 1e-5, "f32: row {:?} becomes {}", x[i], q[[i, j]]);
            }
        }
    }
    Ok(d > 1)
}
fn shuffle(g: &mut G) -> Res {
    let d = g.dim(1, 3);
    let n = g.rows(1, 12);
    let dup = g.bool();
    let x: Rows = (0..n).map(|i| (0..d).map(|j| if dup { g.sint(-1, 1) as f64 } else { (i * 10 + j) as f64 }).collect()).collect();
    let seed = g.seed();
    let own = g.bool();
    let again = g.bool();
    g.note("rows", &x);
    g.note("seed", &seed);
    rand::harness::seed(seed);
    let std = || StdRng::from_seed(&[seed as usize, 7][..]);
    let m = mat(&x, d);
    let mut y = if own { Shuffler::new(std()).transform(m.clone()) } else if g.bool() { Shuffler::default().transform(m.clone()) } else { Shuffler::new(thread_rng()).transform(m.clone()) }.map_err(|e| format!("shuffling failed: {}", e))?;
    if again {
        let mut s = Shuffler::new(std());
        y = s.transform(y).map_err(|e| format!("shuffling failed: {}", e))?;
        y = s.transform(y).map_err(|e| format!("shuffling failed: {}", e))?;
    }
    ensure!(y.rows() == n && y.cols() == d, "{}x{} becomes {}x{}", n, d, y.rows(), y.cols());
    let key = |r: &Rows| { let mut k: Vec<Vec<u64>> = r.iter().map(|v| v.iter().map(|a| a.to_bits()).collect()).collect(); k.sort(); k };
    ensure!(key(&rows_of(&y)) == key(&x), "the rows become {:?}", rows_of(&y));
    // any element type
    let w = Matrix::new(n, 2, (0..2 * n).collect::<Vec<usize>>());
    let q = Shuffler::new(std()).transform(w).map_err(|e| format!("shuffling failed: {}", e))?;
    let mut seen: Vec<(usize, usize)> = (0..n).map(|i| (q[[i, 0]], q[[i, 1]])).collect();
    seen.sort();
    ensure!(seen == (0..n).map(|i| (2 * i, 2 * i + 1)).collect::<Vec<_>>(), "integer rows become {:?}", q.data());
    if own {
        let b = Shuffler::new(std()).transform(m.clone()).map_err(|e| format!("shuffling failed: {}", e))?;
        let c = Shuffler::new(std()).transform(m).map_err(|e| format!("shuffling failed: {}", e))?;
        ensure!(b.data() == c.data(), "the same generator shuffles differently");
    }
    let e: Matrix<f64> = Matrix::new(0, 0, vec![]);
    let r = Shuffler::new(std()).transform(e);
    ensure!(r.is_ok(), "shuffling no rows fails");
    Ok(n > 1)
}
fn shuffle_uniform(g: &mut G) -> Res {
    let seed = g.seed();
    let n = g.int(2, 5);
    let draws = if n == 5 { 6000 } else { 2400 };
    g.note("rows, stream", &(n, seed));
    rand::harness::seed(seed);
    let m = Matrix::new(n, 1, (0..n).collect::<Vec<usize>>());
    let mut count: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    let mut s = Shuffler::default();
    for _ in 0..draws {
        let y = s.transform(m.clone()).map_err(|e| format!("shuffling failed: {}", e))?;
        *count.entry(y.into_vec()).or_insert(0) += 1;
    }
    let f: usize = (1..=n).product();
    let mut o: Vec<u64> = count.values().cloned().collect();
    o.resize(f.max(o.len()), 0);
    ensure!(o.len() == f, "{} orders of {} rows", o.len(), n);
    let p = chi2_p(&o, &vec![draws as f64 / f as f64; f]);
    ensure!(p > 1e-9, "orders are not equally likely: p = {:e}, {:?}", p, count);
    // position by row
    for pos in 0..n {
        let mut o = vec![0u64; n];
        for (k, v) in &count {
            o[k[pos]] += v;
        }
        let p = chi2_p(&o, &vec![draws as f64 / n as f64; n]);
        ensure!(p > 1e-9, "position {} holds rows {:?} times", pos, o);
    }
    Ok(true)
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
large!(pca_large, pca, 10);
large!(pca_variance_large, pca_variance, 10);
large!(minmax_large, minmax, 150);
large!(standardize_large, standardize, 150);
large!(normalize_large, normalize, 150);
large!(shuffle_large, shuffle, 150);
many!(pca_many, pca, 9000);
many!(minmax_many, minmax, 70000);
many!(standardize_many, standardize, 70000);
many!(normalize_many, normalize, 70000);
many!(shuffle_many, shuffle, 70000);
static CHECKS: &[Check] = &[
    Check {
        id: "C29",
        rule: "tall, square and wide data of 1..10 rows and 1..5 columns, generic and of low rank, centred or not, all or some components, trained before on other data; non-trivial: more than one row and column",
        sections: &[sec("components", 45000, 400000, pca), sec("large", 900, 9000, pca_large), sec("many-rows", 10, 100, pca_many), sec("variance", 30000, 300000, pca_variance), sec("large-variance", 900, 9000, pca_variance_large)],
        assumptions: &[LA, "the order of singular values is that of the stand-in's decomposition (descending, as rulinalg's)"],
    },
    Check {
        id: "C30",
        rule: "1..8 rows of 1..4 columns of mixed offset and scale, grids with constant columns, entries that are not finite, target ranges of either direction, both precisions; non-trivial: more than two rows or a refusal",
        sections: &[sec("minmax", 180000, 2000000, minmax), sec("large", 900, 9000, minmax_large), sec("many-rows", 20, 200, minmax_many)],
        assumptions: &[LA],
    },
    Check {
        id: "C31",
        rule: "1..8 rows of 1..4 columns of mixed offset and scale, grids with constant columns, entries that are not finite, target means and deviations, both precisions; non-trivial: more than two rows or a refusal",
        sections: &[sec("standardize", 180000, 2000000, standardize), sec("large", 900, 9000, standardize_large), sec("many-rows", 20, 200, standardize_many)],
        assumptions: &[LA],
    },
    Check {
        id: "C32",
        rule: "1..6 rows of 1..5 columns of scales 1e-6..1e6, zero rows, entries that are not finite, five norms and one of the harness; non-trivial: more than one column",
        sections: &[sec("normalize", 180000, 2000000, normalize), sec("large", 900, 9000, normalize_large), sec("many-rows", 20, 200, normalize_many)],
        assumptions: &[LA],
    },
    Check {
        id: "C33",
        rule: "0..12 rows, repeated ones among them, own and thread generators, shuffled up to three times; frequencies of all orders of 2..5 rows; non-trivial: more than one row",
        sections: &[sec("rows", 120000, 1000000, shuffle), sec("large", 900, 9000, shuffle_large), sec("many-rows", 20, 200, shuffle_many), sec("uniform", 300, 3000, shuffle_uniform)],
        assumptions: &[LA, "thread_rng is replaced by a seedable stream (shim/rand)"],
    },
];
fn main() {
    engine::main(CHECKS)
}
