//! Kernels, cost functions, regularisation.
use engine::{large, many, close, ensure, guard, known, sec, Check, Res, G};
use full_checks::*;
use rusty_machine::learning::toolkit::cost_fn::{CostFunc, CrossEntropyError, MeanSqError};
use rusty_machine::learning::toolkit::kernel::*;
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};

// ---------------------------------------------------------------- kernels
#[derive(Clone, Debug)]
enum K {
    Lin(f64),
    Poly(f64, f64, f64),
    SqExp(f64, f64),
    Expo(f64, f64),
    Tanh(f64, f64),
    Multi(f64),
    RatQ(f64, f64),
}
impl K {
    fn boxed(&self) -> Box<dyn Kernel> {
        match *self {
            K::Lin(c) => Box::new(Linear::new(c)),
            K::Poly(a, c, d) => Box::new(Polynomial::new(a, c, d)),
            K::SqExp(l, a) => Box::new(SquaredExp::new(l, a)),
            K::Expo(l, a) => Box::new(Exponential::new(l, a)),
            K::Tanh(a, c) => Box::new(HyperTan::new(a, c)),
            K::Multi(c) => Box::new(Multiquadric::new(c)),
            K::RatQ(a, l) => Box::new(RationalQuadratic::new(a, l)),
        }
    }
    /// Value and the error allowed for rounding of the intermediate sums.
    fn reference(&self, x: &[f64], y: &[f64]) -> (f64, f64) {
        let d = dot(x, y);
        let da = x.iter().zip(y).map(|(a, b)| (a * b).abs()).sum::<f64>() + 1e-300;
        let q = dist2(x, y);
        let e = 1e-13;
        match *self {
            K::Lin(c) => (d + c, e * (da + c.abs())),
            K::Poly(a, c, p) => {
                let b = a * d + c;
                let v = b.powf(p);
                let db = e * ((a * da).abs() + c.abs());
                // derivative of the power over the interval b +- db
                let s = (p.abs() * (b.abs() + db).powf(p - 1.) * db).abs() + (p.abs() * b.abs().powf(p - 1.) * db).abs();
                (v, s + 1e-12 * v.abs())
            }
            K::SqExp(l, a) => {
                let z = q / (2. * l * l);
                (a * (-z).exp(), a.abs() * (-z).exp() * e * (1. + z) + 1e-300)
            }
            K::Expo(l, a) => {
                let z = q.sqrt() / (2. * l * l);
                (a * (-z).exp(), a.abs() * (-z).exp() * e * (1. + z) + 1e-300)
            }
            K::Tanh(a, c) => ((a * d + c).tanh(), e * (1. + (a * da).abs() + c.abs())),
            K::Multi(c) => {
                let v = (q + c * c).sqrt();
                (v, e * v)
            }
            K::RatQ(a, l) => {
                let b = 1. + q / (2. * a * l * l);
                let v = b.powf(-a);
                (v, v * e * (1. + a * (1. + b.ln())))
            }
        }
    }
    fn psd(&self) -> bool {
        match *self {
            K::Lin(c) => c >= 0.,
            K::Poly(a, c, d) => a >= 0. && c >= 0. && d.fract() == 0. && d >= 1.,
            K::SqExp(..) | K::Expo(..) | K::RatQ(..) => true,
            _ => false,
        }
    }
}
fn gen_k(g: &mut G) -> K {
    match g.draw(7) {
        0 => K::Lin(g.f(-5., 5.)),
        1 => {
            if g.bool() {
                K::Poly(g.f(-2., 2.), g.f(-5., 5.), g.int(1, 5) as f64)
            } else {
                K::Poly(g.f(0., 2.), g.f(0., 5.), g.f(0., 4.))
            }
        }
        2 => K::SqExp(g.scale(-1., 1.5), g.scale(-1., 1.)),
        3 => K::Expo(g.scale(-1., 1.5), g.scale(-1., 1.)),
        4 => K::Tanh(g.f(-2., 2.), g.f(-3., 3.)),
        5 => K::Multi(g.f(-5., 5.)),
        _ => K::RatQ(g.scale(-1., 1.), g.scale(-1., 1.)),
    }
}
fn gen_xy(g: &mut G) -> (Vec<f64>, Vec<f64>) {
    let n = g.rows(0, 12);
    let s = g.scale(-2., 2.);
    let x: Vec<f64> = g.fs(n, -3., 3.).iter().map(|v| v * s).collect();
    let y: Vec<f64> = match g.draw(6) {
        0 => x.clone(),
        1 => x.iter().map(|v| -v).collect(),
        2 => x.iter().map(|v| v + 1e-6 * s * g.normal()).collect(),
        _ => g.fs(n, -3., 3.).iter().map(|v| v * s).collect(),
    };
    (x, y)
}
fn kernel_values(g: &mut G) -> Res {
    let k = gen_k(g);
    let (x, y) = gen_xy(g);
    g.note("kernel", &k);
    g.note("x", &x);
    g.note("y", &y);
    let b = k.boxed();
    let v = b.kernel(&x, &y);
    let w = b.kernel(&y, &x);
    let (r, tol) = k.reference(&x, &y);
    if r.is_nan() {
        // a fractional power of a negative number
        return Ok(false);
    }
    ensure!(v == r || (v - r).abs() <= tol, "{:?} gives {:e}, its definition {:e} (allowed error {:e})", k, v, r, tol);
    ensure!(v == w || (v - w).abs() <= tol, "{:?} is not symmetric: {:e} and {:e}", k, v, w);
    let v2 = b.kernel(&x, &y);
    ensure!(v.to_bits() == v2.to_bits(), "the same arguments gave {:e}, then {:e}", v, v2);
    Ok(x.len() > 0 && v != 0.)
}
fn kernel_defaults(g: &mut G) -> Res {
    let (x, y) = gen_xy(g);
    g.note("x", &x);
    g.note("y", &y);
    let pairs: Vec<(&str, f64, K)> = vec![
        ("Linear", Linear::default().kernel(&x, &y), K::Lin(0.)),
        ("Polynomial", Polynomial::default().kernel(&x, &y), K::Poly(1., 0., 1.)),
        ("SquaredExp", SquaredExp::default().kernel(&x, &y), K::SqExp(1., 1.)),
        ("Exponential", Exponential::default().kernel(&x, &y), K::Expo(1., 1.)),
        ("HyperTan", HyperTan::default().kernel(&x, &y), K::Tanh(1., 0.)),
        ("Multiquadric", Multiquadric::default().kernel(&x, &y), K::Multi(0.)),
        ("RationalQuadratic", RationalQuadratic::default().kernel(&x, &y), K::RatQ(1., 1.)),
    ];
    for (name, v, k) in &pairs {
        let (r, tol) = k.reference(&x, &y);
        ensure!((v - r).abs() <= tol, "default {} gives {:e}, documented default {:e}", name, v, r);
    }
    Ok(x.len() > 0)
}
fn kernel_arith(g: &mut G) -> Res {
    let (a, b, c) = (gen_k(g), gen_k(g), gen_k(g));
    let (x, y) = gen_xy(g);
    g.note("kernels", &(&a, &b, &c));
    g.note("x", &x);
    g.note("y", &y);
    let (va, vb, vc) = (a.boxed().kernel(&x, &y), b.boxed().kernel(&x, &y), c.boxed().kernel(&x, &y));
    // typed kernels: wrap the boxed ones
    struct W(Box<dyn Kernel>);
    impl Kernel for W {
        fn kernel(&self, x: &[f64], y: &[f64]) -> f64 {
            self.0.kernel(x, y)
        }
    }
    let w = |k: &K| KernelArith(W(k.boxed()));
    let sum = (w(&a) + w(&b)).kernel(&x, &y);
    let prod = (w(&a) * w(&b)).kernel(&x, &y);
    let nested = (KernelArith(w(&a) + w(&b)) * w(&c)).kernel(&x, &y);
    let nested2 = (KernelArith(w(&a) * w(&b)) + w(&c)).kernel(&x, &y);
    let eq = |u: f64, v: f64| u == v || (u.is_nan() && v.is_nan()) || (u - v).abs() <= 1e-13 * (va.abs() + vb.abs() + 1.) * (vc.abs() + 1.) * (1. + va.abs().max(vb.abs()));
    ensure!(eq(sum, va + vb), "sum of kernels {:e}, {:e}+{:e} expected", sum, va, vb);
    ensure!(eq(prod, va * vb), "product of kernels {:e}, {:e}*{:e} expected", prod, va, vb);
    ensure!(eq(nested, (va + vb) * vc), "(a+b)*c gives {:e}, {:e} expected", nested, (va + vb) * vc);
    ensure!(eq(nested2, va * vb + vc), "a*b+c gives {:e}, {:e} expected", nested2, va * vb + vc);
    Ok(va != 0. && vb != 0. && va != vb)
}
fn kernel_psd(g: &mut G) -> Res {
    let k1 = gen_k(g);
    let k2 = gen_k(g);
    let n = g.dim(1, 8);
    let d = g.dim(1, 4);
    let pts = gen_rows(g, n, d, -2., 2.);
    g.note("k1", &k1);
    g.note("k2", &k2);
    g.note("points", &pts);
    if !k1.psd() || !k2.psd() {
        return Ok(false);
    }
    let (b1, b2) = (k1.boxed(), k2.boxed());
    let gram = |f: &dyn Fn(&[f64], &[f64]) -> f64| -> Rows { pts.iter().map(|x| pts.iter().map(|y| f(x, y)).collect()).collect() };
    let grams = vec![
        ("k1", gram(&|x, y| b1.kernel(x, y))),
        ("k1+k2", gram(&|x, y| b1.kernel(x, y) + b2.kernel(x, y))),
        ("k1*k2", gram(&|x, y| b1.kernel(x, y) * b2.kernel(x, y))),
    ];
    for (name, m) in grams {
        let (e, _) = sym_eigen(&m);
        let lo = e[n - 1];
        let big = e[0].abs().max(lo.abs());
        ensure!(lo >= -1e-9 * big - 1e-300, "Gram matrix of {} has eigenvalue {:e} (largest {:e})", name, lo, big);
    }
    Ok(n >= 3)
}

// ---------------------------------------------------------------- cost functions
fn gen_outputs(g: &mut G, n: usize, ce: bool) -> Vec<f64> {
    g.vec(n, |g| {
        if ce {
            match g.draw(4) {
                0 => { let lo = if g.chance(1, 4) { -300. } else { -15. }; g.scale(lo, -1.).min(0.5) }
                1 => 1. - g.scale(-15., -1.).min(0.5),
                _ => g.uni(0.01, 0.99),
            }
        } else {
            g.f(-20., 20.)
        }
    })
}
fn gen_targets(g: &mut G, n: usize, ce: bool) -> Vec<f64> {
    let kind = g.draw(3);
    g.vec(n, |g| {
        if ce {
            if kind < 2 {
                g.draw(2) as f64
            } else {
                g.f(0., 1.)
            }
        } else {
            g.f(-20., 20.)
        }
    })
}
/// cost / summed over elements, then divided by rows
fn ref_cost(ce: bool, o: &[f64], t: &[f64], rows: usize) -> f64 {
    let s: f64 = o
        .iter()
        .zip(t)
        .map(|(&o, &t)| if ce { -(if t == 0. { 0. } else { t * o.ln() } + if t == 1. { 0. } else { (1. - t) * (1. - o).ln() }) } else { (o - t) * (o - t) / 2. })
        .sum();
    s / rows as f64
}
fn cost_m(ce: bool, o: &[f64], t: &[f64], r: usize, c: usize) -> (f64, Vec<f64>) {
    let (o, t) = (Matrix::new(r, c, o.to_vec()), Matrix::new(r, c, t.to_vec()));
    if ce {
        (CrossEntropyError::cost(&o, &t), CrossEntropyError::grad_cost(&o, &t).into_vec())
    } else {
        (MeanSqError::cost(&o, &t), MeanSqError::grad_cost(&o, &t).into_vec())
    }
}
fn cost_v(ce: bool, o: &[f64], t: &[f64]) -> (f64, Vec<f64>) {
    let (o, t) = (Vector::new(o.to_vec()), Vector::new(t.to_vec()));
    if ce {
        (CrossEntropyError::cost(&o, &t), CrossEntropyError::grad_cost(&o, &t).into_vec())
    } else {
        (MeanSqError::cost(&o, &t), MeanSqError::grad_cost(&o, &t).into_vec())
    }
}
struct CostCase {
    ce: bool,
    r: usize,
    c: usize,
    o: Vec<f64>,
    t: Vec<f64>,
}
fn gen_cost(g: &mut G) -> CostCase {
    let ce = g.bool();
    let (r, c) = (g.rows(1, 12), g.dim(1, 6));
    let o = gen_outputs(g, r * c, ce);
    let t = gen_targets(g, r * c, ce);
    g.note("cross entropy", &ce);
    g.note("rows, cols", &(r, c));
    g.note("outputs", &o);
    g.note("targets", &t);
    CostCase { ce, r, c, o, t }
}
fn cost_values(g: &mut G) -> Res {
    let k = gen_cost(g);
    let want = ref_cost(k.ce, &k.o, &k.t, k.r);
    let got = cost_m(k.ce, &k.o, &k.t, k.r, k.c).0;
    ensure!(close(got, want, 1e-10), "cost of {}x{} outputs {:e}, mean over the rows of the summed losses {:e}", k.r, k.c, got, want);
    ensure!(got >= -1e-12, "negative cost {:e}", got);
    let wantv = ref_cost(k.ce, &k.o, &k.t, k.o.len());
    let gotv = cost_v(k.ce, &k.o, &k.t).0;
    ensure!(close(gotv, wantv, 1e-10), "cost of a vector of {} outputs {:e}, mean loss {:e}", k.o.len(), gotv, wantv);
    Ok(k.o != k.t && k.r > 1)
}
fn cost_zero(g: &mut G) -> Res {
    // a perfect prediction costs nothing (squared error) and any other one more than the best
    let k = gen_cost(g);
    let t: Vec<f64> = if k.ce { k.t.iter().map(|t| t.max(1e-6).min(1. - 1e-6)).collect() } else { k.t.clone() };
    let best = cost_m(k.ce, &t, &t, k.r, k.c);
    if !k.ce {
        ensure!(best.0 == 0., "a perfect prediction costs {:e}", best.0);
    }
    ensure!(best.1.iter().all(|x| x.abs() < 1e-9), "gradient at a perfect prediction is {:?}", best.1);
    let other = cost_m(k.ce, &k.o, &t, k.r, k.c).0;
    ensure!(other >= best.0 - 1e-12 * (1. + best.0), "cost {:e} is below the cost of a perfect prediction {:e}", other, best.0);
    Ok(k.o != t)
}
fn cost_grads(g: &mut G) -> Res {
    let k = gen_cost(g);
    let n = k.o.len();
    for form in 0..2 {
        let rows = if form == 0 { k.r } else { n };
        let (_, gr) = if form == 0 { cost_m(k.ce, &k.o, &k.t, k.r, k.c) } else { cost_v(k.ce, &k.o, &k.t) };
        ensure!(gr.len() == n, "gradient of {} outputs has {} entries", n, gr.len());
        for i in 0..n {
            let (o, t) = (k.o[i], k.t[i]);
            let per = if k.ce { (o - t) / (o * (1. - o)) } else { o - t };
            let want = per / rows as f64;
            ensure!(
                close(gr[i], want, 1e-9),
                "{} form: gradient entry {} is {:e}, the derivative of the cost is {:e}",
                if form == 0 { "matrix" } else { "vector" }, i, gr[i], want
            );
            // and the cost really moves that way
            if i < 3 && (!k.ce || (o > 1e-15 && 1. - o > 1e-6)) {
                let h = if k.ce { 1e-4 * o.min(1. - o) } else { 1e-3 };
                let at = |d: f64| {
                    let mut p = k.o.clone();
                    p[i] += d;
                    if form == 0 { cost_m(k.ce, &p, &k.t, k.r, k.c).0 } else { cost_v(k.ce, &p, &k.t).0 }
                };
                let slope = (at(h) - at(-h)) / (2. * h);
                let noise = 1e-15 * (1. + at(0.).abs()) * (n as f64) / h;
                // what the central difference leaves out: h^2 / 6 times the third derivative
                let third = if k.ce { 2. * (t / o.powi(3) + (1. - t) / (1. - o).powi(3)) } else { 0. };
                ensure!(
                    (slope - gr[i]).abs() <= 1e-5 * (slope.abs() + gr[i].abs()) + noise * 10. + h * h * third / 3.,
                    "gradient entry {} is {:e} but the cost has slope {:e}", i, gr[i], slope
                );
            }
        }
    }
    Ok(k.r > 1 && k.o != k.t)
}
fn cost_dims(g: &mut G) -> Res {
    // outputs and targets of different shapes never give a number
    let (r, c) = (g.dim(1, 6), g.dim(1, 4));
    let (r2, c2) = if g.bool() { (r + g.int(1, 3), c) } else { (r, c + g.int(1, 3)) };
    let o = Matrix::new(r, c, g.fs(r * c, 0.1, 0.9));
    let t = Matrix::new(r2, c2, g.fs(r2 * c2, 0., 1.));
    g.note("shapes", &((r, c), (r2, c2)));
    ensure!(guard(|| MeanSqError::cost(&o, &t)).is_err(), "squared error of {}x{} against {}x{} gave a value", r, c, r2, c2);
    ensure!(guard(|| CrossEntropyError::cost(&o, &t)).is_err(), "cross entropy of {}x{} against {}x{} gave a value", r, c, r2, c2);
    Ok(true)
}

// ---------------------------------------------------------------- regularisation
fn reg_cases(g: &mut G) -> Res {
    let (r, c) = (g.rows(1, 8), g.dim(1, 6));
    let nz = g.chance(1, 4);
    let mut w = g.vec(r * c, |g| if g.bool() { g.normal() * 3. } else { g.f(-3., 3.) });
    if nz {
        for x in &mut w {
            if g.chance(1, 3) {
                *x = 0.;
            }
        }
    }
    let (x, y) = (g.f(0., 5.), g.f(0., 5.));
    let kind = g.draw(4);
    // a slice of a bigger matrix, or all of it
    let (top, left, pad) = if g.bool() { (g.int(0, 2), g.int(0, 2), g.int(0, 2)) } else { (0, 0, 0) };
    g.note("kind", &["L1", "L2", "ElasticNet", "None"][kind as usize]);
    g.note("strengths", &(x, y));
    g.note("shape", &(r, c));
    g.note("weights", &w);
    g.note("window", &(top, left, pad));
    let (br, bc) = (r + top, c + left + pad);
    let mut big = Matrix::from_fn(br, bc, |_, _| 77.);
    for i in 0..r {
        for j in 0..c {
            big[[top + i, left + j]] = w[i * c + j];
        }
    }
    let before = big.clone();
    let reg = match kind {
        0 => Regularization::L1(x),
        1 => Regularization::L2(x),
        2 => Regularization::ElasticNet(x, y),
        _ => Regularization::None,
    };
    let slice = || big.sub_slice([top, left], r, c);
    let cost = reg.reg_cost(slice());
    let grad = reg.reg_grad(slice());
    ensure!(big.data() == before.data(), "the weights were changed");
    ensure!(grad.rows() == r && grad.cols() == c, "gradient of {}x{} weights is {}x{}", r, c, grad.rows(), grad.cols());
    let m = r as f64;
    let l1: f64 = w.iter().map(|v| v.abs()).sum::<f64>() / (2. * m);
    let sq: f64 = w.iter().map(|v| v * v).sum::<f64>() / (2. * m);
    let unsq: f64 = w.iter().map(|v| v * v).sum::<f64>().sqrt() / (2. * m);
    let (s1, s2) = match kind {
        0 => (x, 0.),
        1 => (0., x),
        2 => (x, y),
        _ => (0., 0.),
    };
    for i in 0..w.len() {
        let got = grad.data()[i];
        if w[i] == 0. && s1 != 0. {
            // any subgradient of |.| will do
            let mid = 0.;
            ensure!((got - mid).abs() <= s1 / (2. * m) * (1. + 1e-12), "gradient at a zero weight is {:e}", got);
        } else {
            let want = s1 * w[i].signum() / (2. * m) + s2 * w[i] / m;
            ensure!(close(got, want, 1e-11), "gradient entry {} (weight {}) is {:e}, {:e} expected", i, w[i], got, want);
        }
    }
    let want = s1 * l1 + s2 * sq;
    if !close(cost, want, 1e-11) {
        if s2 != 0. && close(cost, s1 * l1 + s2 * unsq, 1e-11) {
            known!("l2-cost-not-squared", "cost {:e} uses the norm of the weights, its gradient belongs to the squared norm ({:e})", cost, want);
        }
        engine::fail!("cost {:e}, {:e} expected", cost, want);
    }
    Ok(kind != 3 && x > 0.)
}
/// The gradient is the derivative of the cost, by differences (L1 part away from its kinks).
fn reg_slopes(g: &mut G) -> Res {
    let (r, c) = (g.rows(1, 6), g.dim(1, 5));
    let w: Vec<f64> = g.vec(r * c, |g| {
        let s = if g.bool() { -1. } else { 1. };
        s * g.uni(0.1, 3.)
    });
    let x = g.f(0., 5.);
    g.note("weights", &w);
    g.note("strength", &x);
    let reg = Regularization::L1(x);
    let grad = reg.reg_grad(Matrix::new(r, c, w.clone()).as_slice());
    let i = g.int(0, w.len() - 1);
    let at = |d: f64| {
        let mut v = w.clone();
        v[i] += d;
        let m = Matrix::new(r, c, v);
        reg.reg_cost(m.as_slice())
    };
    let s = (at(1e-2) - at(-1e-2)) / 2e-2;
    ensure!(close(s, grad.data()[i], 1e-8), "L1: cost has slope {:e} in entry {}, gradient {:e}", s, i, grad.data()[i]);
    // single precision as well
    let w32: Vec<f32> = w.iter().map(|v| *v as f32).collect();
    let m32 = Matrix::new(r, c, w32);
    for reg32 in [Regularization::L1(x as f32), Regularization::ElasticNet(x as f32, 0f32)] {
        let c32 = reg32.reg_cost(m32.as_slice());
        ensure!(close(c32 as f64, reg.reg_cost(Matrix::new(r, c, w.clone()).as_slice()), 1e-4), "single precision cost {} differs", c32);
    }
    Ok(x > 0.)
}

large!(kernel_values_large, kernel_values, 200);
large!(kernel_psd_large, kernel_psd, 8);
large!(cost_values_large, cost_values, 30);
large!(cost_grads_large, cost_grads, 16);
large!(reg_cases_large, reg_cases, 40);
large!(reg_slopes_large, reg_slopes, 20);
many!(kernel_values_many, kernel_values, 70000);
many!(cost_values_many, cost_values, 70000);
many!(cost_grads_many, cost_grads, 9000);
many!(reg_cases_many, reg_cases, 70000);
static CHECKS: &[Check] = &[
    Check {
        id: "C10",
        rule: "one of seven kernels with random parameters, vectors of 0..12 entries of varied magnitude (equal, opposite, nearly equal or unrelated); Gram matrices of up to 8 points; non-trivial: non-empty vectors and a non-zero value (values), at least 3 points (Gram)",
        sections: &[
            sec("values", 600000, 6000000, kernel_values), sec("long-vectors", 6000, 60000, kernel_values_large), sec("very-long-vectors", 60, 600, kernel_values_many),
            sec("defaults", 60000, 500000, kernel_defaults),
            sec("arithmetic", 180000, 2000000, kernel_arith),
            sec("positive-semidefinite", 30000, 400000, kernel_psd), sec("large-psd", 120, 1200, kernel_psd_large),
        ],
        assumptions: &["the linear algebra crate is a stand-in (shim/vendor/rulinalg)"],
    },
    Check {
        id: "C11",
        rule: "1..12 by 1..6 outputs and targets (probabilities for the cross entropy, down to 1e-15 from 0 and 1); non-trivial: more than one row and outputs that differ from the targets",
        sections: &[
            sec("values", 120000, 2000000, cost_values), sec("large-values", 3000, 40000, cost_values_large), sec("many-rows", 20, 300, cost_values_many),
            sec("minimum", 60000, 1000000, cost_zero),
            sec("gradients", 60000, 1000000, cost_grads), sec("large-gradients", 400, 6000, cost_grads_large), sec("many-rows-gradients", 20, 300, cost_grads_many),
            sec("shapes", 10000, 100000, cost_dims),
        ],
        assumptions: &["the linear algebra crate is a stand-in (shim/vendor/rulinalg)"],
    },
    Check {
        id: "C12",
        rule: "weights of 1..8 by 1..6, whole matrices and windows of larger ones, every kind of regularisation and strengths 0..5; non-trivial: a positive strength",
        sections: &[
            sec("cost-and-gradient", 180000, 2000000, reg_cases), sec("large", 3000, 30000, reg_cases_large), sec("many-rows", 20, 300, reg_cases_many),
            sec("slopes", 90000, 1000000, reg_slopes), sec("large-slopes", 300, 3000, reg_slopes_large),
        ],
        assumptions: &["the linear algebra crate is a stand-in (shim/vendor/rulinalg)"],
    },
];

fn main() {
    engine::main(CHECKS)
}
