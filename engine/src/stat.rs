//! Reference special functions and goodness-of-fit tests.

/// ln Gamma (Lanczos, about 1e-14 relative).
pub fn ln_gamma(x: f64) -> f64 {
    const C: [f64; 9] = [
        0.99999999999980993,
        676.5203681218851,
        -1259.1392167224028,
        771.32342877765313,
        -176.61502916214059,
        12.507343278686905,
        -0.13857109526572012,
        9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    if x < 0.5 {
        return (std::f64::consts::PI / (std::f64::consts::PI * x).sin()).ln() - ln_gamma(1. - x);
    }
    let x = x - 1.;
    let mut a = C[0];
    let t = x + 7.5;
    for (i, c) in C.iter().enumerate().skip(1) {
        a += c / (x + i as f64);
    }
    0.5 * (2. * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Regularised upper incomplete gamma Q(a, x).
pub fn gamma_q(a: f64, x: f64) -> f64 {
    if x <= 0. {
        return 1.;
    }
    if x < a + 1. {
        let mut s = 1. / a;
        let mut t = s;
        let mut n = a;
        for _ in 0..10000 {
            n += 1.;
            t *= x / n;
            s += t;
            if t.abs() < s.abs() * 1e-16 {
                break;
            }
        }
        1. - s * (-x + a * x.ln() - ln_gamma(a)).exp()
    } else {
        let tiny = 1e-300;
        let mut b = x + 1. - a;
        let mut c = 1. / tiny;
        let mut d = 1. / b;
        let mut h = d;
        for i in 1..10000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1. / d;
            let del = d * c;
            h *= del;
            if (del - 1.).abs() < 1e-15 {
                break;
            }
        }
        (-x + a * x.ln() - ln_gamma(a)).exp() * h
    }
}

pub fn erfc(x: f64) -> f64 {
    if x >= 0. {
        gamma_q(0.5, x * x)
    } else {
        2. - gamma_q(0.5, x * x)
    }
}

/// Standard normal distribution function.
pub fn phi(z: f64) -> f64 {
    0.5 * erfc(-z / std::f64::consts::SQRT_2)
}

/// p-value of a chi-square test of `obs` against `expected`.
pub fn chi2_p(obs: &[u64], expected: &[f64]) -> f64 {
    let mut s = 0.;
    let mut df = -1.;
    for (o, e) in obs.iter().zip(expected) {
        if *e <= 0. {
            if *o > 0 {
                return 0.;
            }
            continue;
        }
        s += (*o as f64 - e) * (*o as f64 - e) / e;
        df += 1.;
    }
    if df < 1. {
        return 1.;
    }
    gamma_q(df / 2., s / 2.)
}

/// Kolmogorov-Smirnov p-value (asymptotic) of sorted samples against a continuous cdf.
pub fn ks_p<F: Fn(f64) -> f64>(sorted: &[f64], cdf: F) -> f64 {
    let n = sorted.len() as f64;
    let mut d: f64 = 0.;
    for (i, &x) in sorted.iter().enumerate() {
        let c = cdf(x);
        if c.is_nan() {
            return 0.;
        }
        d = d.max((c - i as f64 / n).abs()).max(((i + 1) as f64 / n - c).abs());
    }
    let l = (n.sqrt() + 0.12 + 0.11 / n.sqrt()) * d;
    if l < 0.2 {
        return 1.;
    }
    let mut s = 0.;
    for k in 1..=100 {
        let k = k as f64;
        let t = 2. * (if k as i64 % 2 == 1 { 1. } else { -1. }) * (-2. * k * k * l * l).exp();
        s += t;
        if t.abs() < 1e-18 {
            break;
        }
    }
    s.max(0.).min(1.)
}
