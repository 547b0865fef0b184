//! Distributions.
use engine::{ensure, guard, stat, Res, G};
use rand::distributions::{IndependentSample, Sample};
use rand::{ChaChaRng, Isaac64Rng, IsaacRng, Rng, SeedableRng, StdRng, XorShiftRng};
use rusty_machine::stats::dist::{Distribution, Exponential, Gaussian};

const P_REJECT: f64 = 1e-9;
const LN_2PI: f64 = 1.8378770664093454836;

fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_finite() && b.is_finite() && (a - b).abs() <= tol * (1f64).max(a.abs()).max(b.abs()))
}
/// Relative comparison of positive quantities down to the underflow threshold.
fn near_rel(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_finite() && b.is_finite() && (a - b).abs() <= tol * a.abs().max(b.abs()) + 1e-300)
}

fn rate(g: &mut G) -> f64 {
    if g.chance(1, 24) {
        g.scale(-290., 290.)
    } else if g.chance(1, 4) {
        g.scale(-100., 100.)
    } else {
        g.scale(-4., 4.)
    }
}

pub fn exp_functions(g: &mut G) -> Res {
    let l = rate(g);
    let t = match g.draw(5) {
        0 => g.f(0., 3.),
        1 => g.scale(-10., 0.),
        2 => g.scale(-200., 0.),
        _ => g.f(0., 40.),
    };
    let x = if g.chance(1, 8) { g.lit(0., 1e6) } else { t / l };
    let x = if x * l <= 600. { x } else { t / l };
    g.note("lambda", &l);
    g.note("x", &x);
    let d = if l == 1. && g.bool() { Exponential::default() } else { Exponential::new(l) };
    ensure!(d.lambda() == l, "lambda() = {} for Exponential::new({})", d.lambda(), l);
    let z = l * x;
    let (p, lp, c) = (d.pdf(x), d.logpdf(x), d.cdf(x));
    ensure!(near_rel(p, l * (-z).exp(), 1e-11), "pdf({}) = {:e}, should be {:e}", x, p, l * (-z).exp());
    ensure!(near(lp, l.ln() - z, 1e-11), "logpdf({}) = {}, should be {}", x, lp, l.ln() - z);
    ensure!(near(c, -(-z).exp_m1(), 1e-12), "cdf({}) = {:e}, should be {:e}", x, c, -(-z).exp_m1());
    ensure!(c >= 0. && c <= 1., "cdf({}) = {:e} is not a probability", x, c);
    ensure!(near(lp, p.ln(), 1e-9), "logpdf({}) = {} is not the logarithm of the pdf {:e}", x, lp, p);
    let x2 = x + g.scale(-3., 2.) / l;
    ensure!(d.cdf(x2) >= c, "cdf decreases from {} to {}", x, x2);
    ensure!(d.pdf(x2) <= p, "pdf increases from {} to {}", x, x2);
    Ok(x > 0.)
}

pub fn exp_tails(g: &mut G) -> Res {
    let l = rate(g);
    let z = 10f64.powf(g.uni(1.5, 12.));
    let x = z / l;
    g.note("lambda", &l);
    g.note("x", &x);
    let d = Exponential::new(l);
    let z = l * x;
    ensure!(near_rel(d.pdf(x), l * (-z).exp(), 1e-9), "pdf({:e}) = {:e}", x, d.pdf(x));
    ensure!(near_rel(d.logpdf(x), l.ln() - z, 1e-11), "logpdf({:e}) = {:e}, should be {:e}", x, d.logpdf(x), l.ln() - z);
    ensure!(near(d.cdf(x), 1., 1e-12), "cdf({:e}) = {:e}", x, d.cdf(x));
    let i = f64::INFINITY;
    ensure!(d.pdf(i) == 0. && d.logpdf(i) == -i && d.cdf(i) == 1., "limits at infinity: {} {} {}", d.pdf(i), d.logpdf(i), d.cdf(i));
    Ok(true)
}

/// The cdf is the integral of the pdf.
pub fn exp_integral(g: &mut G) -> Res {
    let l = rate(g);
    let a = g.f(0., 5.) / l;
    let b = a + g.uni(0.01, 5.) / l;
    g.note("lambda", &l);
    g.note("a", &a);
    g.note("b", &b);
    let d = Exponential::new(l);
    let i = simpson(|x| d.pdf(x), a, b);
    let c = d.cdf(b) - d.cdf(a);
    ensure!((i - c).abs() <= 1e-8, "integral of the pdf over [{}, {}] is {}, the cdf grows by {}", a, b, i, c);
    Ok(true)
}
fn simpson<F: Fn(f64) -> f64>(f: F, a: f64, b: f64) -> f64 {
    let n = 200;
    let h = (b - a) / n as f64;
    let mut s = f(a) + f(b);
    for i in 1..n {
        s += f(a + h * i as f64) * if i % 2 == 1 { 4. } else { 2. };
    }
    s * h / 3.
}

/// Outside the support the functions refuse; at its edge they take their limits.
pub fn exp_support(g: &mut G) -> Res {
    let l = rate(g);
    let x = -g.scale(-300., 300.);
    g.note("lambda", &l);
    g.note("x", &x);
    let d = Exponential::new(l);
    ensure!(guard(|| d.pdf(x)).is_err(), "pdf({:e}) did not panic", x);
    ensure!(guard(|| d.logpdf(x)).is_err(), "logpdf({:e}) did not panic", x);
    ensure!(guard(|| d.cdf(x)).is_err(), "cdf({:e}) did not panic", x);
    ensure!(near_rel(d.pdf(0.), l, 1e-14), "pdf(0) = {:e}, lambda = {:e}", d.pdf(0.), l);
    ensure!(near(d.logpdf(0.), l.ln(), 1e-14), "logpdf(0) = {}", d.logpdf(0.));
    ensure!(d.cdf(0.) == 0., "cdf(0) = {:e}", d.cdf(0.));
    match guard(|| (d.pdf(-0.), d.logpdf(-0.), d.cdf(-0.))) {
        Ok((p, lp, c)) => ensure!(near_rel(p, l, 1e-14) && near(lp, l.ln(), 1e-14) && c == 0., "at -0: {:e} {:e} {:e}", p, lp, c),
        Err(e) => engine::fail!("zero with a sign is refused: {}", e),
    }
    Ok(true)
}

fn gauss_params(g: &mut G) -> (f64, f64) {
    let m = g.f(-1000., 1000.);
    let m = if g.bool() { m / 1000. } else { m };
    let s = g.scale(-3., 3.);
    let (m, s) = match g.draw(4) {
        3 => {
            let u = if g.chance(1, 8) { g.scale(-140., 140.) } else { g.scale(-60., 60.) };
            (m * u, u)
        }
        _ => (m, s),
    };
    g.note("mean", &m);
    g.note("std_dev", &s);
    (m, s)
}
fn make(g: &mut G, m: f64, s: f64) -> (Gaussian, &'static str) {
    if g.bool() {
        (Gaussian::from_std_dev(m, s), "from_std_dev")
    } else {
        (Gaussian::new(m, s * s), "new")
    }
}

/// Now and then a point that is written in the sources, at most `far` deviations from the mean.
fn point(g: &mut G, x: f64, m: f64, s: f64, far: f64) -> f64 {
    if g.chance(1, 8) {
        let c = g.lit(-1e3, 1e3);
        let c = if g.bool() { c } else { m + s * g.lit(-far, far) };
        if ((c - m) / s).abs() <= far {
            return c;
        }
    }
    x
}
pub fn gauss_density(g: &mut G) -> Res {
    let (m, s) = gauss_params(g);
    let (d, how) = make(g, m, s);
    let far = if g.bool() { 4. } else { 30. };
    let x = if g.chance(1, 6) { m + s * g.scale(-12., 0.) } else { m + s * g.f(-far, far) };
    let x = point(g, x, m, s, 30.);
    let z = (x - m) / s;
    g.note("constructor", &how);
    g.note("x", &x);
    let lp = -0.5 * z * z - s.ln() - 0.5 * LN_2PI;
    ensure!(near(d.logpdf(x), lp, 1e-11), "logpdf({}) = {}, should be {}", x, d.logpdf(x), lp);
    ensure!(near_rel(d.pdf(x), lp.exp(), 1e-9), "pdf({}) = {:e}, should be {:e}", x, d.pdf(x), lp.exp());
    let mirror = m - (x - m);
    let zm = (mirror - m) / s;
    let want = (-0.5 * zm * zm - s.ln() - 0.5 * LN_2PI).exp();
    ensure!(near_rel(d.pdf(mirror), want, 1e-9), "pdf({}) = {:e}, should be {:e}", mirror, d.pdf(mirror), want);
    ensure!(d.pdf(x) <= d.pdf(m) * (1. + 1e-12), "pdf({}) exceeds the mode", x);
    Ok(x != m)
}

pub fn gauss_cdf(g: &mut G) -> Res {
    let (m, s) = gauss_params(g);
    let (d, how) = make(g, m, s);
    let far = *g.pick(&[3., 8., 40., 1e4]);
    let x = if g.chance(1, 6) { m - s * g.scale(-12., 0.) } else { m + s * g.f(-far, far) };
    let x = point(g, x, m, s, 1e4);
    let z = (x - m) / s;
    g.note("constructor", &how);
    g.note("x", &x);
    let c = d.cdf(x);
    ensure!(c >= 0. && c <= 1., "cdf({}) = {:e} is not a probability", x, c);
    ensure!((c - stat::phi(z)).abs() <= 0.0035, "cdf({}) = {}, should be {} within 0.003", x, c, stat::phi(z));
    let mirror = m - (x - m);
    let round = 8. * f64::EPSILON * x.abs().max(m.abs()) / s;
    ensure!((c + d.cdf(mirror) - 1.).abs() <= 1e-9 + round, "cdf({}) + cdf({}) != 1", x, mirror);
    let x2 = x + s * g.scale(-4., 1.);
    ensure!(d.cdf(x2) >= c - 1e-15, "cdf decreases from {} ({:e}) to {} ({:e})", x, c, x2, d.cdf(x2));
    ensure!((d.cdf(m) - 0.5).abs() <= 1e-12, "cdf at the mean is {}", d.cdf(m));
    Ok(x != m)
}

pub fn gauss_constructors(g: &mut G) -> Res {
    let (m, s) = gauss_params(g);
    let x = m + s * g.f(-6., 6.);
    g.note("x", &x);
    let seed = g.seed() as u32;
    let a = Gaussian::new(m, s * s);
    let b = Gaussian::from_std_dev(m, s);
    ensure!(near_rel(a.pdf(x), b.pdf(x), 1e-9), "pdf differs: {:e} {:e}", a.pdf(x), b.pdf(x));
    ensure!(near(a.logpdf(x), b.logpdf(x), 1e-10), "logpdf differs: {} {}", a.logpdf(x), b.logpdf(x));
    ensure!(near(a.cdf(x), b.cdf(x), 1e-9), "cdf differs: {} {}", a.cdf(x), b.cdf(x));
    let mut r1 = ChaChaRng::from_seed(&[seed, 1]);
    let mut r2 = ChaChaRng::from_seed(&[seed, 1]);
    for _ in 0..4 {
        // both represent the same law
        let (p, q) = (a.ind_sample(&mut r1), b.ind_sample(&mut r2));
        ensure!((p - q).abs() <= 1e-9 * (s + m.abs()), "the same random draws give {} and {}", p, q);
    }
    Ok(x != m)
}

pub fn gauss_default(g: &mut G) -> Res {
    let x = g.f(-30., 30.);
    g.note("x", &x);
    let d = Gaussian::default();
    let lp = -0.5 * x * x - 0.5 * LN_2PI;
    ensure!(near(d.logpdf(x), lp, 1e-12), "default logpdf({}) = {}", x, d.logpdf(x));
    ensure!(near_rel(d.pdf(x), lp.exp(), 1e-10), "default pdf({}) = {:e}", x, d.pdf(x));
    ensure!((d.cdf(x) - stat::phi(x)).abs() <= 0.0035, "default cdf({}) = {}", x, d.cdf(x));
    Ok(x != 0.)
}

pub fn gauss_integral(g: &mut G) -> Res {
    let (m, s) = gauss_params(g);
    let (d, _) = make(g, m, s);
    let a = m + s * g.uni(-6., 4.);
    let b = a + s * g.uni(0.05, 4.);
    g.note("a", &a);
    g.note("b", &b);
    let i = simpson(|x| d.pdf(x), a, b);
    let want = stat::phi((b - m) / s) - stat::phi((a - m) / s);
    ensure!((i - want).abs() <= 1e-7, "integral of the pdf over [{}, {}] is {}, should be {}", a, b, i, want);
    let c = d.cdf(b) - d.cdf(a);
    ensure!((i - c).abs() <= 0.007, "integral of the pdf over [{}, {}] is {}, the cdf grows by {}", a, b, i, c);
    Ok(true)
}

/// Far in the tails the logarithm stays exact although the density underflows.
pub fn gauss_tails(g: &mut G) -> Res {
    let (m, s) = gauss_params(g);
    let (d, how) = make(g, m, s);
    let z = 10f64.powf(g.uni(1., 9.));
    let x = if g.bool() { m + s * z } else { m - s * z };
    g.note("constructor", &how);
    g.note("x", &x);
    let z = (x - m) / s;
    let lp = -0.5 * z * z - s.ln() - 0.5 * LN_2PI;
    ensure!(near(d.logpdf(x), lp, 1e-11), "logpdf({:e}) = {:e}, should be {:e}", x, d.logpdf(x), lp);
    // the exponential may underflow before it is scaled by 1/s
    let p = d.pdf(x);
    ensure!(near_rel(p, lp.exp(), 1e-8) || (p - lp.exp()).abs() <= 1e-295 / s, "pdf({:e}) = {:e}, should be {:e}", x, p, lp.exp());
    let want = if z > 0. { 1. } else { 0. };
    ensure!((d.cdf(x) - want).abs() <= 1e-12, "cdf({:e}) = {:e}", x, d.cdf(x));
    let i = f64::INFINITY;
    for &x in &[-i, i] {
        ensure!(d.pdf(x) == 0. && d.logpdf(x) == -i && d.cdf(x) == (if x > 0. { 1. } else { 0. }), "limits at {}: {} {} {}", x, d.pdf(x), d.logpdf(x), d.cdf(x));
    }
    Ok(true)
}

#[derive(Clone)]
struct Custom(f64);
impl Distribution<f64> for Custom {
    fn pdf(&self, x: f64) -> f64 {
        self.0 / (1. + x * x)
    }
    fn cdf(&self, _: f64) -> f64 {
        0.5
    }
}
/// A distribution that declares only its density gets the logarithm of it; and the constants.
pub fn default_logpdf(g: &mut G) -> Res {
    use rusty_machine::stats::dist::consts;
    let a = g.scale(-100., 100.);
    let x = g.f(-100., 100.);
    g.note("a", &a);
    g.note("x", &x);
    let d = Custom(a);
    let want = a.ln() - (1. + x * x).ln();
    ensure!(near(d.logpdf(x), want, 1e-11), "logpdf({}) = {}, should be {}", x, d.logpdf(x), want);
    ensure!(near(consts::LN_2_PI, LN_2PI, 1e-15), "LN_2_PI = {}", consts::LN_2_PI);
    ensure!(near(consts::SQRT_2_PI, (2. * std::f64::consts::PI).sqrt(), 1e-15), "SQRT_2_PI = {}", consts::SQRT_2_PI);
    Ok(x != 0.)
}

const DRAWS: usize = 40000;

fn law<F: Fn(f64) -> f64>(xs: &[f64], mean: f64, sd: f64, cdf: F) -> Result<(), String> {
    if xs.iter().any(|x| !x.is_finite()) {
        return Err("a draw is not finite".into());
    }
    let n = xs.len() as f64;
    let m = xs.iter().sum::<f64>() / n;
    if (m - mean).abs() > 7. * sd / n.sqrt() {
        return Err(format!("sample mean {} of a law with mean {} (sd {})", m, mean, sd));
    }
    let c: f64 = xs.windows(2).map(|w| (w[0] - mean) * (w[1] - mean)).sum::<f64>() / (n - 1.) / (sd * sd);
    if c.abs() > 7. / n.sqrt() {
        return Err(format!("successive draws are correlated: {}", c));
    }
    let mut s = xs.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let p = stat::ks_p(&s, cdf);
    if p < P_REJECT {
        return Err(format!("draws do not follow the law (Kolmogorov-Smirnov p = {:e}, median {})", p, s[s.len() / 2]));
    }
    let mut d = s.clone();
    d.dedup();
    if d.len() + 40 < s.len() {
        return Err("draws repeat".into());
    }
    Ok(())
}

fn take<S: Sample<f64> + IndependentSample<f64>, R: Rng>(d: &mut S, r: &mut R, mode: u64) -> Vec<f64> {
    (0..DRAWS)
        .map(|i| match mode {
            0 => d.ind_sample(r),
            1 => d.sample(r),
            _ => {
                if i % 2 == 0 {
                    d.ind_sample(r)
                } else {
                    d.sample(r)
                }
            }
        })
        .collect()
}

/// Probabilities of successive draws, uniform and independent when the draws follow their laws.
fn independent(u: &[f64], v: &[f64], lag: usize) -> Result<(), String> {
    const B: usize = 6;
    let n = u.len() - lag;
    let cell = |x: f64| ((x * B as f64) as usize).min(B - 1);
    let mut c = vec![0u64; B * B];
    let (mut r, mut q) = (0f64, 0f64);
    for t in 0..n {
        let (a, b) = (u[t], v[t + lag]);
        c[cell(a) * B + cell(b)] += 1;
        r += (a - 0.5) * (b - 0.5) * 12.;
        // |u - 1/2| has mean 1/4 and variance 1/48
        q += ((a - 0.5).abs() - 0.25) * ((b - 0.5).abs() - 0.25) * 48.;
    }
    let sd = (n as f64).sqrt();
    if r.abs() > 7. * sd || q.abs() > 7. * sd {
        return Err(format!("draws {} apart are correlated: {}, their distances from the median {}", lag, r / n as f64, q / n as f64));
    }
    let p = stat::chi2_p(&c, &vec![n as f64 / (B * B) as f64; B * B]);
    if p < P_REJECT {
        return Err(format!("draws {} apart are not independent (p = {:e})", lag, p));
    }
    Ok(())
}
/// A history of draws from several distributions, and maybe several generators, in turn: each follows
/// its law, and all are independent of each other.
pub fn sample_histories(g: &mut G) -> Res {
    let m = g.int(1, 3);
    let gens = g.int(1, 2);
    let clones = g.bool();
    let seed = g.seed() as u32;
    let mut ds: Vec<(bool, f64, f64, u64)> = vec![];
    for _ in 0..m {
        let gauss = g.bool();
        let (a, s) = if gauss { gauss_params(g) } else { (0., 1. / rate(g)) };
        ds.push((gauss, a, s, g.draw(3)));
    }
    // as often as not they have the same parameters
    if m > 1 && g.bool() {
        let d = ds[0];
        for e in ds.iter_mut() {
            *e = (d.0, d.1, d.2, e.3);
        }
    }
    g.note("distributions (gaussian, mean, scale, trait)", &ds);
    g.note("generators", &gens);
    g.note("clones", &clones);
    enum D {
        G(Gaussian),
        E(Exponential),
    }
    let mut objs: Vec<D> = ds.iter().map(|d| if d.0 { D::G(Gaussian::from_std_dev(d.1, d.2)) } else { D::E(Exponential::new(1. / d.2)) }).collect();
    if clones {
        objs = ds
            .iter()
            .zip(objs)
            .map(|(d, mut o)| {
                let mut r = ChaChaRng::from_seed(&[seed, 9]);
                match &mut o {
                    D::G(x) if d.0 => {
                        x.sample(&mut r);
                        D::G(x.clone())
                    }
                    D::E(x) => {
                        x.sample(&mut r);
                        D::E(x.clone())
                    }
                    D::G(x) => D::G(x.clone()),
                }
            })
            .collect();
    }
    let mut rs: Vec<ChaChaRng> = (0..gens).map(|i| ChaChaRng::from_seed(&[seed, 3, i as u32])).collect();
    let n = 30000;
    let mut u: Vec<Vec<f64>> = vec![vec![]; m];
    for t in 0..n {
        for i in 0..m {
            let r = &mut rs[(t + i) % gens];
            let mode = match ds[i].3 {
                2 => (t % 2) as u64,
                x => x,
            };
            let x = match (&mut objs[i], mode) {
                (D::G(d), 0) => d.ind_sample(r),
                (D::G(d), _) => d.sample(r),
                (D::E(d), 0) => d.ind_sample(r),
                (D::E(d), _) => d.sample(r),
            };
            let (gauss, a, s, _) = ds[i];
            u[i].push(if gauss { stat::phi((x - a) / s) } else { -(-x / s).exp_m1() });
        }
    }
    for i in 0..m {
        let mut s = u[i].clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let p = stat::ks_p(&s, |x| x);
        ensure!(p >= P_REJECT, "the draws from distribution {} do not follow its law (p = {:e})", i + 1, p);
        for lag in (1..=12).chain(vec![16, 24, 32, 64, 100, 128, 256, 512, 1000, 1024]) {
            independent(&u[i], &u[i], lag).map_err(|e| format!("distribution {}: {}", i + 1, e))?;
        }
        for j in 0..m {
            if j != i {
                for lag in (if i < j { 0 } else { 1 })..=3 {
                    independent(&u[i], &u[j], lag).map_err(|e| format!("distributions {} and {}: {}", i + 1, j + 1, e))?;
                }
            }
        }
    }
    Ok(true)
}

pub fn sample_exp(g: &mut G) -> Res {
    let l = rate(g);
    let mode = g.draw(3);
    let seed = g.seed() as u32;
    g.note("lambda", &l);
    g.note("mode", &["ind_sample", "sample", "alternating"][mode as usize]);
    let mut d = if l == 1. && g.bool() { Exponential::default() } else { Exponential::new(l) };
    let xs = take(&mut d, &mut ChaChaRng::from_seed(&[seed]), mode);
    ensure!(xs.iter().all(|&x| x >= 0.), "a negative draw");
    law(&xs, 1. / l, 1. / l, |x| -(-l * x).exp_m1())?;
    ensure!(d.lambda() == l, "sampling changed lambda");
    Ok(true)
}

pub fn sample_gauss(g: &mut G) -> Res {
    let (m, s) = gauss_params(g);
    let (mut d, how) = if m == 0. && s == 1. && g.bool() { (Gaussian::default(), "default") } else { make(g, m, s) };
    let mode = g.draw(3);
    let seed = g.seed() as u32;
    g.note("constructor", &how);
    g.note("mode", &["ind_sample", "sample", "alternating"][mode as usize]);
    let probe: Vec<f64> = vec![m, m + s, m - 3. * s];
    let before: Vec<f64> = probe.iter().flat_map(|&x| vec![d.pdf(x), d.logpdf(x), d.cdf(x)]).collect();
    let xs = take(&mut d, &mut ChaChaRng::from_seed(&[seed, 2]), mode);
    let after: Vec<f64> = probe.iter().flat_map(|&x| vec![d.pdf(x), d.logpdf(x), d.cdf(x)]).collect();
    ensure!(before == after, "sampling changed the distribution: {:?} became {:?}", before, after);
    law(&xs, m, s, |x| stat::phi((x - m) / s))?;
    let v = xs.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / xs.len() as f64 / (s * s);
    ensure!((v - 1.).abs() <= 7. * (2. / xs.len() as f64).sqrt(), "sample variance is {} of the declared one", v);
    Ok(true)
}

pub fn sample_generators(g: &mut G) -> Res {
    let which = g.draw(6);
    let gauss = g.bool();
    let mode = g.draw(3);
    let seed = g.seed() as u32;
    g.note("generator", &which);
    g.note("gaussian", &gauss);
    let l = 2.5;
    let mut e = Exponential::new(l);
    let mut n = Gaussian::new(1., 9.);
    macro_rules! go {
        ($r:expr) => {{
            let mut r = $r;
            if gauss {
                take(&mut n, &mut r, mode)
            } else {
                take(&mut e, &mut r, mode)
            }
        }};
    }
    let xs = match which {
        0 => go!(ChaChaRng::from_seed(&[seed])),
        1 => go!(IsaacRng::from_seed(&[seed])),
        2 => go!(Isaac64Rng::from_seed(&[seed as u64])),
        3 => go!(XorShiftRng::from_seed([seed | 1, 2, 3, 4])),
        4 => go!({
            let s: &[_] = &[seed as usize];
            let r: StdRng = SeedableRng::from_seed(s);
            r
        }),
        _ => {
            rand::harness::seed(seed as u64);
            go!(rand::thread_rng())
        }
    };
    if gauss {
        law(&xs, 1., 3., |x| stat::phi((x - 1.) / 3.))?;
    } else {
        law(&xs, 1. / l, 1. / l, |x| -(-l * x).exp_m1())?;
    }
    Ok(true)
}

/// A generator whose words are now and then extreme: many leading, or trailing, zeros or ones.
struct Extreme(u64, u64);
impl Rng for Extreme {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = engine::mix(&[self.0, 1]);
        let (w, c) = (self.0, engine::mix(&[self.0, 2]));
        let sh = (c >> 8) % 64;
        match c % self.1 {
            0 => w >> sh,
            1 => !(w >> sh),
            2 => (w >> sh) & !0xff,
            3 => !(w >> sh) & !0xff,
            4 => w & !0xff,
            _ => w,
        }
    }
}
/// Whatever words the generator gives: where the draws are those of `rand` itself, scaled and
/// shifted, they are so in the far tails, which no test of frequencies reaches. (Streams on which an
/// ordinary start differs are left out: the law does not say how it is drawn from.)
pub fn sample_extreme(g: &mut G) -> Res {
    use rand::distributions::exponential::Exp1;
    use rand::distributions::normal::StandardNormal;
    let gauss = g.bool();
    let mode = g.draw(2);
    let rough = g.int(6, 30) as u64;
    let seed = g.seed();
    g.note("gaussian", &gauss);
    g.note("mode", &["ind_sample", "sample"][mode as usize]);
    let (m, s) = if gauss { gauss_params(g) } else { (0., 1. / rate(g)) };
    let mut e = Exponential::new(1. / s);
    let (mut n, how) = if gauss { make(g, m, s) } else { (Gaussian::default(), "-") };
    g.note("scale", &s);
    g.note("constructor", &how);
    let mut one = |r: &mut Extreme| -> f64 {
        match (gauss, mode) {
            (true, 0) => n.ind_sample(r),
            (true, _) => n.sample(r),
            (false, 0) => e.ind_sample(r),
            (false, _) => e.sample(r),
        }
    };
    let own = |r: &mut Extreme| -> f64 {
        if gauss {
            let StandardNormal(z) = r.gen();
            m + s * z
        } else {
            let Exp1(z) = r.gen();
            s * z
        }
    };
    let same = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-12 * (a.abs() + b.abs() + m.abs());
    let (mut a, mut b) = (Extreme(seed, 1 << 40), Extreme(seed, 1 << 40));
    for _ in 0..50 {
        if !same(one(&mut a), own(&mut b)) || a.0 != b.0 {
            return Ok(false);
        }
    }
    let (mut a, mut b) = (Extreme(seed, rough), Extreme(seed, rough));
    for _ in 0..60 {
        let (x, y) = (one(&mut a), own(&mut b));
        ensure!(same(x, y), "a draw is {:e} where the generator stands for {:e} ({:.2} {})", x, y, (y - m) / s, if gauss { "standard deviations" } else { "means" });
        ensure!(a.0 == b.0, "the generator is not used as on ordinary streams");
    }
    Ok(true)
}

/// The tails are sampled as often as they should be.
pub fn sample_tails(g: &mut G) -> Res {
    let gauss = g.bool();
    let mode = g.draw(2);
    let seed = g.seed();
    let (m, s) = (g.f(-5., 5.), g.scale(-2., 2.));
    g.note("gaussian", &gauss);
    g.note("mode", &["ind_sample", "sample"][mode as usize]);
    rand::harness::seed(seed);
    let mut r = rand::thread_rng();
    let reps = 2_000_000u64;
    if gauss {
        g.note("mean", &m);
        g.note("std_dev", &s);
        let mut d = Gaussian::from_std_dev(m, s);
        let cuts = [-4.75, -4.25, -3.75, -3.0, -2.0, -0.001, 0.001, 2.0, 3.0, 3.75, 4.25, 4.75];
        let mut c = [0u64; 12];
        for _ in 0..reps {
            let z = ((if mode == 0 { d.ind_sample(&mut r) } else { d.sample(&mut r) }) - m) / s;
            for i in 0..12 {
                if (cuts[i] < 0. && z < cuts[i]) || (cuts[i] > 0. && z > cuts[i]) {
                    c[i] += 1;
                }
            }
        }
        for i in 0..12 {
            let p = stat::phi(-(cuts[i] as f64).abs());
            rare(c[i], reps, p).map_err(|e| format!("beyond {} sd: {}", cuts[i], e))?;
        }
    } else {
        let l = 1. / s;
        g.note("lambda", &l);
        let mut d = Exponential::new(l);
        let cuts = [0.00001, 0.001, 1., 4., 7., 9., 11., 12.];
        let mut c = [0u64; 8];
        for _ in 0..reps {
            let z = (if mode == 0 { d.ind_sample(&mut r) } else { d.sample(&mut r) }) * l;
            for i in 0..8 {
                if (i < 2 && z < cuts[i]) || (i >= 2 && z > cuts[i]) {
                    c[i] += 1;
                }
            }
        }
        for i in 0..8 {
            let p = if i < 2 { -(-cuts[i] as f64).exp_m1() } else { (-cuts[i] as f64).exp() };
            rare(c[i], reps, p).map_err(|e| format!("{} {} mean: {}", if i < 2 { "below" } else { "above" }, cuts[i], e))?;
        }
    }
    Ok(true)
}
/// Binomial count against its law: tail bounds below 1e-9 (Chernoff).
fn rare(c: u64, n: u64, p: f64) -> Result<(), String> {
    let e = n as f64 * p;
    let x = c as f64;
    let kl = |q: f64| {
        let a = if q > 0. { q * (q / p).ln() } else { 0. };
        let b = if q < 1. { (1. - q) * ((1. - q) / (1. - p)).ln() } else { 0. };
        n as f64 * (a + b)
    };
    if kl(x / n as f64) > 22. {
        return Err(format!("{} of {} draws, expected {:.2}", c, n, e));
    }
    Ok(())
}
