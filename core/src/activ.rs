//! Activation functions.
use engine::{ensure, Res, G};
use rusty_machine::learning::toolkit::activ_fn::{ActivationFunc, Exp, Linear, Sigmoid, Tanh};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Sigmoid,
    Linear,
    Exp,
    Tanh,
}
const ALL: [Kind; 4] = [Kind::Sigmoid, Kind::Linear, Kind::Exp, Kind::Tanh];

impl Kind {
    fn func(self, x: f64) -> f64 {
        match self {
            Kind::Sigmoid => Sigmoid::func(x),
            Kind::Linear => Linear::func(x),
            Kind::Exp => Exp::func(x),
            Kind::Tanh => Tanh::func(x),
        }
    }
    fn grad(self, x: f64) -> f64 {
        match self {
            Kind::Sigmoid => Sigmoid::func_grad(x),
            Kind::Linear => Linear::func_grad(x),
            Kind::Exp => Exp::func_grad(x),
            Kind::Tanh => Tanh::func_grad(x),
        }
    }
    fn grad_out(self, y: f64) -> f64 {
        match self {
            Kind::Sigmoid => Sigmoid::func_grad_from_output(y),
            Kind::Linear => Linear::func_grad_from_output(y),
            Kind::Exp => Exp::func_grad_from_output(y),
            Kind::Tanh => Tanh::func_grad_from_output(y),
        }
    }
    fn inv(self, y: f64) -> f64 {
        match self {
            Kind::Sigmoid => Sigmoid::func_inv(y),
            Kind::Linear => Linear::func_inv(y),
            Kind::Exp => Exp::func_inv(y),
            Kind::Tanh => Tanh::func_inv(y),
        }
    }
    /// Reference value and reference derivative, from independent formulas.
    fn reference(self, x: f64) -> (f64, f64) {
        match self {
            Kind::Sigmoid => {
                let t = (x.abs() * -0.5).exp();
                let d = t * t + 1.;
                let y = if x >= 0. { 1. / d } else { t * t / d };
                (y, (t / d) * (t / d))
            }
            Kind::Linear => (x, 1.),
            Kind::Exp => (x.exp(), x.exp()),
            Kind::Tanh => {
                let e = (-2. * x.abs()).exp();
                let y = -(-2. * x.abs()).exp_m1() / (1. + e);
                (if x < 0. { -y } else { y }, 4. * e / ((1. + e) * (1. + e)))
            }
        }
    }
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_finite() && b.is_finite() && (a - b).abs() <= tol * (1f64).max(a.abs()).max(b.abs()))
}
fn arg(g: &mut G) -> f64 {
    match g.draw(6) {
        5 => g.lit(-745., 745.),
        4 => g.f(-745., 745.),
        0 => g.f(-3., 3.),
        1 => g.f(-30., 30.),
        2 => {
            let s = if g.chance(1, 8) { g.scale(-300., 0.) } else { g.scale(-12., 0.) };
            if g.bool() {
                -s
            } else {
                s
            }
        }
        _ => g.f(-300., 300.),
    }
}

pub fn values(g: &mut G) -> Res {
    let k = *g.pick(&ALL);
    let x = arg(g);
    g.note("function", &k);
    g.note("x", &x);
    let y = k.func(x);
    let r = k.reference(x).0;
    ensure!(near(y, r, 1e-12), "{:?}({}) = {:e}, should be {:e}", k, x, y, r);
    let in_range = match k {
        Kind::Sigmoid => y >= 0. && y <= 1.,
        Kind::Linear => y == x,
        Kind::Exp => y >= 0.,
        Kind::Tanh => y >= -1. && y <= 1.,
    };
    ensure!(in_range, "{:?}({}) = {:e} is out of range", k, x, y);
    // small values are accurate in their own scale
    let tol = match k {
        Kind::Sigmoid if x < 0. => 1e-6,
        Kind::Exp => 1e-11,
        Kind::Tanh if x.abs() > 1e-9 => 1e-5,
        _ => 1e300,
    };
    ensure!(y == r || (y - r).abs() <= tol * r.abs() + 1e-300, "{:?}({:e}) = {:e}, should be {:e}", k, x, y, r);
    // symmetry of the two squashing functions
    match k {
        Kind::Sigmoid => ensure!(near(y + k.func(-x), 1., 1e-12), "sigmoid(x)+sigmoid(-x) != 1 at {}", x),
        Kind::Tanh => ensure!(near(y, -k.func(-x), 1e-12), "tanh is not odd at {}", x),
        _ => {}
    }
    Ok(x != 0.)
}

pub fn derivatives(g: &mut G) -> Res {
    let k = *g.pick(&ALL);
    let x = arg(g);
    g.note("function", &k);
    g.note("x", &x);
    let d = k.grad(x);
    let r = k.reference(x).1;
    ensure!(near(d, r, 1e-10), "{:?}'({}) = {:e}, should be {:e}", k, x, d, r);
    let o = k.grad_out(k.func(x));
    ensure!(near(o, r, 1e-10), "{:?}: derivative from the output at {} is {:e}, should be {:e}", k, x, o, r);
    if (k == Kind::Sigmoid && x < 0.) || k == Kind::Exp {
        ensure!(d == r || (d - r).abs() <= 1e-6 * r + 1e-300, "{:?}'({}) = {:e}, should be {:e}", k, x, d, r);
        ensure!(o == r || (o - r).abs() <= 1e-6 * r + 1e-300, "{:?}: derivative from the output at {} is {:e}, should be {:e}", k, x, o, r);
    }
    // the derivative is also the slope of the function itself
    if x.abs() < 20. {
        let h = 1e-4;
        let slope = (8. * (k.func(x + h) - k.func(x - h)) - (k.func(x + 2. * h) - k.func(x - 2. * h))) / (12. * h);
        let scale = 1f64.max(k.func(x).abs());
        ensure!((slope - d).abs() <= 1e-8 * scale, "{:?}: slope at {} is {:e}, declared {:e}", k, x, slope, d);
    }
    Ok(x != 0.)
}

pub fn inverses(g: &mut G) -> Res {
    let k = *g.pick(&ALL);
    g.note("function", &k);
    // output -> input -> output, over the range of the function
    let y = match k {
        Kind::Sigmoid => match g.draw(3) {
            0 => g.uni(1e-6, 1. - 1e-6),
            1 => g.scale(-300., -1.),
            _ => 1. - g.scale(-9., -1.),
        },
        Kind::Linear => g.f(-1e6, 1e6),
        Kind::Exp => g.scale(-300., 300.),
        Kind::Tanh => match g.draw(3) {
            2 => {
                let s = g.scale(-300., 0.) * 0.99;
                if g.bool() {
                    -s
                } else {
                    s
                }
            }
            0 => g.uni(-1. + 1e-9, 1. - 1e-9),
            _ => {
                let s = 1. - g.scale(-9., -1.);
                if g.bool() {
                    -s
                } else {
                    s
                }
            }
        },
    };
    let y = if g.chance(1, 12) {
        match k {
            Kind::Sigmoid => g.lit(1e-300, 1. - 1e-9),
            Kind::Tanh => g.lit(-1. + 1e-9, 1. - 1e-9),
            Kind::Linear => g.lit(-1e6, 1e6),
            Kind::Exp => g.lit(1e-300, 1e300),
        }
    } else {
        y
    };
    // up to the last number below the end of the range
    let y = match k {
        Kind::Sigmoid if g.chance(1, 8) => 1. - 0.5f64.powi(g.int(1, 53) as i32),
        Kind::Tanh if g.chance(1, 8) => {
            let v = 1. - 0.5f64.powi(g.int(1, 53) as i32);
            if g.bool() {
                v
            } else {
                -v
            }
        }
        _ => y,
    };
    let y = if k == Kind::Sigmoid && y >= 1. { 0.5 } else { y };
    g.note("y", &y);
    let x = k.inv(y);
    ensure!(x.is_finite(), "{:?}: inverse of {} is {}", k, y, x);
    let want = match k {
        Kind::Sigmoid => y.ln() - (-y).ln_1p(),
        Kind::Linear => y,
        Kind::Exp => y.ln(),
        Kind::Tanh => 0.5 * (y.ln_1p() - (-y).ln_1p()),
    };
    ensure!(near(x, want, 1e-11), "{:?}: inverse of {:e} is {}, should be {}", k, y, x, want);
    let back = k.func(x);
    ensure!(k != Kind::Sigmoid || (back - y).abs() <= 1e-9 * y, "sigmoid({:e}) = {:e}, but {:e} is the inverse of {:e}", x, back, x, y);
    ensure!((back - y).abs() <= 1e-10 * y.abs().max(if k == Kind::Exp { 0. } else { 1e-3 }), "{:?}({:e}) = {:e}, but {:e} is the inverse of {:e}", k, x, back, x, y);
    // input -> output -> input where the function is well conditioned
    let x = match k {
        Kind::Sigmoid | Kind::Tanh => g.f(-8., 8.),
        Kind::Exp => g.f(-700., 700.),
        Kind::Linear => {
            let v = g.scale(-300., 300.);
            if g.bool() {
                v
            } else {
                -v
            }
        }
    };
    g.note("x", &x);
    let back = k.inv(k.func(x));
    ensure!(near(back, x, 1e-7), "{:?}: inverse of the value at {} is {}", k, x, back);
    Ok(x != 0.)
}

pub fn monotone(g: &mut G) -> Res {
    let k = *g.pick(&ALL);
    let a = arg(g);
    let b = match g.draw(2) {
        0 => arg(g),
        _ => a + g.scale(-9., 1.),
    };
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    g.note("function", &k);
    g.note("a", &lo);
    g.note("b", &hi);
    let (x, y) = (k.func(lo), k.func(hi));
    ensure!(x <= y, "{:?} is not increasing: f({}) = {:e} > f({}) = {:e}", k, lo, x, hi, y);
    if hi - lo > 1e-3 && lo > -15. && hi < 15. {
        ensure!(x < y, "{:?} is flat between {} and {}", k, lo, hi);
    }
    ensure!(k.grad(lo) >= -1e-15, "{:?} has a negative slope at {}", k, lo);
    Ok(lo < hi)
}

/// Far outside the useful range the functions saturate instead of becoming NaN.
pub fn extremes(g: &mut G) -> Res {
    let k = *g.pick(&[Kind::Sigmoid, Kind::Tanh, Kind::Exp]);
    let m = 10f64.powf(g.uni(2.5, 300.));
    let x = if g.bool() { m } else { -m };
    g.note("function", &k);
    g.note("x", &x);
    let y = k.func(x);
    let (want, slope) = match (k, x > 0.) {
        (Kind::Sigmoid, true) => (1., 0.),
        (Kind::Sigmoid, false) => (0., 0.),
        (Kind::Tanh, true) => (1., 0.),
        (Kind::Tanh, false) => (-1., 0.),
        (_, true) => (if x > 710. { f64::INFINITY } else { x.exp() }, if x > 710. { f64::INFINITY } else { x.exp() }),
        (_, false) => (0., 0.),
    };
    ensure!(near(y, want, 1e-12), "{:?}({:e}) = {:e}, should be {:e}", k, x, y, want);
    let d = k.grad(x);
    ensure!(near(d, slope, 1e-12), "{:?}'({:e}) = {:e}, should be {:e}", k, x, d, slope);
    let o = k.grad_out(y);
    ensure!(near(o, slope, 1e-12), "{:?}: slope from the output at {:e} = {:e}, should be {:e}", k, x, o, slope);
    // the ends of the range are the images of the infinities
    let ends: &[(f64, f64)] = match k {
        Kind::Sigmoid => &[(0., f64::NEG_INFINITY), (1., f64::INFINITY)],
        Kind::Tanh => &[(-1., f64::NEG_INFINITY), (1., f64::INFINITY)],
        _ => &[(0., f64::NEG_INFINITY)],
    };
    for &(y, x) in ends {
        ensure!(k.inv(y) == x, "{:?}: inverse of {} is {:e}", k, y, k.inv(y));
        ensure!(k.func(x) == y, "{:?}({}) = {:e}", k, x, k.func(x));
    }
    Ok(true)
}
