//! Neural networks: forward propagation, parameter layout, and the back-propagated gradient.
use engine::stat::ks_p;
use engine::{large, many, close, ensure, sec, Check, Fail, Res, G};
use full_checks::*;
use rusty_machine::learning::error::ErrorKind;
use rusty_machine::learning::nnet::net_layer::{Linear, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, BaseNeuralNet, Criterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::grad_desc::GradientDesc;
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::toolkit::activ_fn;
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice};
use std::cell::RefCell;
use std::ops::{Add, Div, Mul, Neg, Sub};
use std::rc::Rc;

// ---- dual numbers: value and one directional derivative
#[derive(Clone, Copy, Debug)]
struct D(f64, f64);
impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        D(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        D(self.0 - o.0, self.1 - o.1)
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        D(self.0 * o.0, self.0 * o.1 + self.1 * o.0)
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        D(self.0 / o.0, (self.1 * o.0 - self.0 * o.1) / (o.0 * o.0))
    }
}
impl Neg for D {
    type Output = D;
    fn neg(self) -> D {
        D(-self.0, -self.1)
    }
}
impl D {
    fn exp(self) -> D {
        let e = self.0.exp();
        D(e, self.1 * e)
    }
    fn sigmoid(self) -> D {
        let s = 1. / (1. + (-self.0).exp());
        // s(1-s) without cancellation or overflow
        let e = (-self.0.abs()).exp();
        D(s, self.1 * (e / ((1. + e) * (1. + e))))
    }
    fn ln(self) -> D {
        D(self.0.ln(), self.1 / self.0)
    }
    fn tanh(self) -> D {
        let t = self.0.tanh();
        D(t, self.1 * (1. - t * t))
    }
}
fn c(v: f64) -> D {
    D(v, 0.)
}

// ---- reference network
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Sigmoid,
    Identity,
    Exp,
    Tanh,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lay {
    Lin(usize, usize),
    NoBias(usize, usize),
    Act(Act),
    /// a layer of the harness: x -> x^2 * p0 + p1 elementwise
    Quad,
}
#[derive(Debug)]
struct Quad;
impl NetLayer for Quad {
    fn forward(&self, input: &Matrix<f64>, p: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        let (a, b) = (p[[0, 0]], p[[0, 1]]);
        Ok(Matrix::new(input.rows(), input.cols(), input.data().iter().map(|x| x * x * a + b).collect::<Vec<_>>()))
    }
    fn back_input(&self, g: &Matrix<f64>, input: &Matrix<f64>, output: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        let (a, b) = (p[[0, 0]], p[[0, 1]]);
        for (x, y) in input.data().iter().zip(output.data()) {
            assert!(x * x * a + b == *y, "back_input was not given this layer's input, output and parameters");
        }
        Matrix::new(input.rows(), input.cols(), input.data().iter().zip(g.data()).map(|(x, g)| 2. * x * a * g).collect::<Vec<_>>())
    }
    fn back_params(&self, g: &Matrix<f64>, input: &Matrix<f64>, output: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        let (a, b) = (p[[0, 0]], p[[0, 1]]);
        for (x, y) in input.data().iter().zip(output.data()) {
            assert!(x * x * a + b == *y, "back_params was not given this layer's input, output and parameters");
        }
        let da = input.data().iter().zip(g.data()).map(|(x, g)| x * x * g).sum::<f64>();
        let db = g.data().iter().sum::<f64>();
        Matrix::new(1, 2, vec![da, db])
    }
    fn default_params(&self) -> Vec<f64> {
        vec![0.5, 0.25]
    }
    fn param_shape(&self) -> (usize, usize) {
        (1, 2)
    }
}
impl Lay {
    fn shape(&self) -> (usize, usize) {
        match *self {
            Lay::Lin(i, o) => (i + 1, o),
            Lay::NoBias(i, o) => (i, o),
            Lay::Act(_) => (0, 0),
            Lay::Quad => (1, 2),
        }
    }
    fn params(&self) -> usize {
        self.shape().0 * self.shape().1
    }
    fn boxed(&self) -> Box<dyn NetLayer> {
        match *self {
            Lay::Lin(i, o) => Box::new(Linear::new(i, o)),
            Lay::NoBias(i, o) => Box::new(Linear::without_bias(i, o)),
            Lay::Act(Act::Sigmoid) => Box::new(activ_fn::Sigmoid),
            Lay::Act(Act::Identity) => Box::new(activ_fn::Linear),
            Lay::Act(Act::Exp) => Box::new(activ_fn::Exp),
            Lay::Act(Act::Tanh) => Box::new(activ_fn::Tanh),
            Lay::Quad => Box::new(Quad),
        }
    }
    fn forward(&self, p: &[D], x: &[D]) -> Vec<D> {
        match *self {
            Lay::Lin(i, o) => {
                assert_eq!(x.len(), i);
                (0..o).map(|k| (0..i).fold(p[k], |s, j| s + x[j] * p[(j + 1) * o + k])).collect()
            }
            Lay::NoBias(i, o) => {
                assert_eq!(x.len(), i);
                (0..o).map(|k| (0..i).fold(c(0.), |s, j| s + x[j] * p[j * o + k])).collect()
            }
            Lay::Act(Act::Sigmoid) => x.iter().map(|v| v.sigmoid()).collect(),
            Lay::Act(Act::Identity) => x.to_vec(),
            Lay::Act(Act::Exp) => x.iter().map(|v| v.exp()).collect(),
            Lay::Act(Act::Tanh) => x.iter().map(|v| v.tanh()).collect(),
            Lay::Quad => x.iter().map(|v| *v * *v * p[0] + p[1]).collect(),
        }
    }
}
fn total(net: &[Lay]) -> usize {
    net.iter().map(|l| l.params()).sum()
}
fn ref_forward(net: &[Lay], w: &[D], x: &[f64]) -> Vec<D> {
    let mut v: Vec<D> = x.iter().map(|a| c(*a)).collect();
    let mut at = 0;
    for l in net {
        v = l.forward(&w[at..at + l.params()], &v);
        at += l.params();
    }
    v
}
fn plain(w: &[f64]) -> Vec<D> {
    w.iter().map(|v| c(*v)).collect()
}
fn ref_cost(net: &[Lay], w: &[D], x: &Rows, y: &Rows, bce: bool) -> D {
    let mut s = c(0.);
    for (a, t) in x.iter().zip(y) {
        for (o, t) in ref_forward(net, w, a).iter().zip(t) {
            s = s + if bce { -(c(*t) * o.ln() + c(1. - t) * (c(1.) - *o).ln()) } else { (*o - c(*t)) * (*o - c(*t)) * c(0.5) };
        }
    }
    s / c(x.len() as f64)
}

// ---- an optimiser of the harness that looks at the model and installs chosen weights
type Report = (f64, Vec<f64>);
#[derive(Clone)]
struct Spy {
    /// points at which the gradient is asked for; the last one is returned as the optimum
    points: Rc<RefCell<Vec<Vec<f64>>>>,
    seen: Rc<RefCell<Option<(Vec<f64>, Rows, Rows)>>>,
    reports: Rc<RefCell<Vec<Report>>>,
}
impl Spy {
    fn new() -> Spy {
        Spy { points: Rc::new(RefCell::new(vec![])), seen: Rc::new(RefCell::new(None)), reports: Rc::new(RefCell::new(vec![])) }
    }
}
impl<T: Criterion> OptimAlgorithm<BaseNeuralNet<T>> for Spy {
    fn optimize(&self, model: &BaseNeuralNet<T>, start: &[f64], inputs: &Matrix<f64>, targets: &Matrix<f64>) -> Vec<f64> {
        *self.seen.borrow_mut() = Some((start.to_vec(), rows_of(inputs), rows_of(targets)));
        let mut last = start.to_vec();
        for p in self.points.borrow().iter() {
            let r = Optimizable::compute_grad(model, p, inputs, targets);
            self.reports.borrow_mut().push(r);
            last = p.clone();
        }
        last
    }
}

fn gen_act(g: &mut G) -> Act {
    *g.pick(&[Act::Sigmoid, Act::Identity, Act::Exp, Act::Tanh])
}
/// A network that lines up, and its input width.
fn gen_net(g: &mut G, out_sigmoid: bool) -> (Vec<Lay>, usize) {
    let d = g.dim(1, 4);
    let mut w = d;
    let mut net = vec![];
    let mut grown = 0;
    for _ in 0..g.size(1, 6) {
        match g.draw(8) {
            0..=3 => {
                let o = g.dim(1, 4);
                net.push(if g.chance(2, 3) { Lay::Lin(w, o) } else { Lay::NoBias(w, o) });
                w = o;
            }
            4..=6 => {
                let a = gen_act(g);
                // no towers of exponentials and squares
                if a == Act::Exp {
                    grown += 1;
                }
                if !(a == Act::Exp && grown > 1) {
                    net.push(Lay::Act(a));
                }
            }
            _ => {
                grown += 1;
                if grown <= 1 {
                    net.push(Lay::Quad);
                }
            }
        }
    }
    if net.is_empty() {
        net.push(Lay::Lin(w, 1));
        w = 1;
    }
    if out_sigmoid {
        net.push(Lay::Lin(w, g.dim(1, 3)));
        net.push(Lay::Act(Act::Sigmoid));
    }
    (net, d)
}
fn width(net: &[Lay], d: usize) -> usize {
    net.iter().fold(d, |w, l| match *l {
        Lay::Lin(_, o) | Lay::NoBias(_, o) => o,
        _ => w,
    })
}
fn build<T: Criterion>(net: &[Lay], crit: T, spy: &Spy, oneshot: bool) -> NeuralNet<T, Spy> {
    let mut nn = NeuralNet::new(crit, spy.clone());
    if oneshot {
        nn.add_layers(net.iter().map(|l| l.boxed()).collect::<Vec<_>>());
    } else {
        for l in net {
            nn.add(l.boxed());
        }
    }
    nn
}
fn flat<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>>(nn: &NeuralNet<T, A>, net: &[Lay]) -> Result<Vec<f64>, Fail> {
    let mut out = vec![];
    for (i, l) in net.iter().enumerate() {
        let s = nn.get_net_weights(i);
        ensure!((s.rows(), s.cols()) == l.shape(), "weights of layer {} {:?} are {}x{}", i, l, s.rows(), s.cols());
        out.extend(s.iter().cloned());
    }
    Ok(out)
}

fn same_out(net: &[Lay], w: &[f64], x: &Rows, got: &Matrix<f64>, d: usize) -> Result<(), Fail> {
    let o = width(net, d);
    ensure!(got.rows() == x.len() && got.cols() == o, "the outputs are {}x{} for {} rows and an output width of {}", got.rows(), got.cols(), x.len(), o);
    let w = plain(w);
    for (i, r) in x.iter().enumerate() {
        let want = ref_forward(net, &w, r);
        for k in 0..o {
            ensure!(close(got[[i, k]], want[k].0, 1e-11), "output {} of row {} {:?} is {:e}, by hand {:e}", k, i, r, got[[i, k]], want[k].0);
        }
    }
    Ok(())
}
fn nn_forward(g: &mut G) -> Res {
    let (net, d) = gen_net(g, false);
    let n = g.rows(1, 6);
    let x = gen_rows(g, n, d, -2., 2.);
    let y = gen_rows(g, n, width(&net, d), -2., 2.);
    let w = g.fs(total(&net), -1.2, 1.2);
    let oneshot = g.bool();
    let seed = g.seed();
    g.note("layers", &net);
    g.note("inputs", &x);
    g.note("weights", &w);
    rand::harness::seed(seed);
    let spy = Spy::new();
    let mut nn = build(&net, MSECriterion::default(), &spy, oneshot);
    // as initialised
    let w0 = flat(&nn, &net)?;
    let p0 = nn.predict(&mat(&x, d)).map_err(|e| format!("prediction failed: {}", e))?;
    same_out(&net, &w0, &x, &p0, d)?;
    ensure!(w0.iter().all(|v| v.is_finite()), "initial weights {:?}", w0);
    // after training with an optimiser that answers w
    spy.points.borrow_mut().push(w.clone());
    nn.train(&mat(&x, d), &mat(&y, width(&net, d))).map_err(|e| format!("training failed: {}", e))?;
    let (start, si, st) = spy.seen.borrow().clone().unwrap();
    ensure!(same_bits(&start, &w0), "the optimiser starts from {:?}, the weights are {:?}", start, w0);
    ensure!(si == x && st == y, "the optimiser was given inputs {:?} and targets {:?}", si, st);
    let got = flat(&nn, &net)?;
    ensure!(same_bits(&got, &w), "the optimiser returned {:?}, the weights are {:?}", w, got);
    let p = nn.predict(&mat(&x, d)).map_err(|e| format!("prediction failed: {}", e))?;
    same_out(&net, &w, &x, &p, d)?;
    // one row at a time
    for (i, r) in x.iter().enumerate() {
        let one = nn.predict(&mat(&vec![r.clone()], d)).map_err(|e| format!("prediction failed: {}", e))?;
        ensure!(engine::all_close(one.data(), &p.data()[i * p.cols()..(i + 1) * p.cols()], 1e-12), "row {} alone gives {:?}", i, one.data());
    }
    Ok(total(&net) > 0 && net.len() > 1)
}
fn nn_mlp(g: &mut G) -> Res {
    let k = g.size(2, 5);
    let sizes: Vec<usize> = g.vec(k, |g| g.dim(1, 4));
    let act = gen_act(g);
    let n = g.rows(1, 5);
    let x = gen_rows(g, n, sizes[0], -2., 2.);
    let seed = g.seed();
    let kind = g.draw(3);
    g.note("sizes", &sizes);
    g.note("activation", &act);
    g.note("inputs", &x);
    rand::harness::seed(seed);
    let act = if kind == 0 { Act::Sigmoid } else { act };
    let net: Vec<Lay> = sizes.windows(2).flat_map(|s| vec![Lay::Lin(s[0], s[1]), Lay::Act(act)]).collect();
    let spy = Spy::new();
    // without layers nothing happens to the inputs
    let none = NeuralNet::new(MSECriterion::default(), Spy::new());
    let p0 = none.predict(&mat(&x, sizes[0])).map_err(|e| format!("prediction failed: {}", e))?;
    ensure!(p0.rows() == n && p0.cols() == sizes[0] && same_bits(p0.data(), &x.concat()), "a network without layers answers {:?}", p0.data());
    macro_rules! look {
        ($nn:expr) => {{
            let nn = $nn;
            let w = flat(&nn, &net)?;
            let p = nn.predict(&mat(&x, sizes[0])).map_err(|e| format!("prediction failed: {}", e))?;
            (w, p)
        }};
    }
    let (w, p) = if kind == 0 {
        look!(NeuralNet::default(&sizes))
    } else if kind == 1 {
        match act {
            Act::Sigmoid => look!(NeuralNet::mlp(&sizes, BCECriterion::default(), spy, activ_fn::Sigmoid)),
            Act::Identity => look!(NeuralNet::mlp(&sizes, BCECriterion::default(), spy, activ_fn::Linear)),
            Act::Exp => look!(NeuralNet::mlp(&sizes, BCECriterion::default(), spy, activ_fn::Exp)),
            Act::Tanh => look!(NeuralNet::mlp(&sizes, BCECriterion::default(), spy, activ_fn::Tanh)),
        }
    } else {
        match act {
            Act::Sigmoid => look!(NeuralNet::mlp(&sizes, MSECriterion::default(), GradientDesc::default(), activ_fn::Sigmoid)),
            Act::Identity => look!(NeuralNet::mlp(&sizes, MSECriterion::default(), GradientDesc::default(), activ_fn::Linear)),
            Act::Exp => look!(NeuralNet::mlp(&sizes, MSECriterion::default(), GradientDesc::default(), activ_fn::Exp)),
            Act::Tanh => look!(NeuralNet::mlp(&sizes, MSECriterion::default(), GradientDesc::default(), activ_fn::Tanh)),
        }
    };
    if act == Act::Exp && ref_forward(&net, &plain(&w), &x[0]).iter().any(|v| !(v.0.abs() < 1e12)) {
        return Ok(false);
    }
    let o = width(&net, sizes[0]);
    ensure!(p.rows() == n && p.cols() == o, "the outputs are {}x{}", p.rows(), p.cols());
    let wd = plain(&w);
    for (i, r) in x.iter().enumerate() {
        let want = ref_forward(&net, &wd, r);
        for k in 0..o {
            let v = want[k].0;
            if act == Act::Exp && !(v.abs() < 1e12) {
                continue;
            }
            // towers of exponentials magnify rounding
            let tol = if act == Act::Exp { 1e-6 } else { 1e-11 };
            ensure!(close(p[[i, k]], v, tol), "output {} of row {} is {:e}, by hand {:e}", k, i, p[[i, k]], v);
        }
    }
    Ok(sizes.len() > 2)
}
/// Widths that do not line up are errors.
fn nn_mismatch(g: &mut G) -> Res {
    let (net, d) = gen_net(g, false);
    let mut net = net;
    let wrong_first = g.bool();
    let seed = g.seed();
    rand::harness::seed(seed);
    let n = g.rows(1, 4);
    let (mut cols, mut which) = (d, usize::MAX);
    let lins: Vec<usize> = (0..net.len()).filter(|&i| matches!(net[i], Lay::Lin(..) | Lay::NoBias(..))).collect();
    if lins.is_empty() {
        return Ok(false);
    }
    if wrong_first {
        cols = if g.bool() || d == 1 { d + 1 } else { d - 1 };
        which = lins[0];
    } else {
        let k = *g.pick(&lins);
        if k == 0 {
            return Ok(false);
        }
        net[k] = match net[k] {
            Lay::Lin(i, o) => Lay::Lin(i + 1, o),
            Lay::NoBias(i, o) => Lay::NoBias(i + 1, o),
            l => l,
        };
        which = which.min(k);
    }
    let x = gen_rows(g, n, cols, -1., 1.);
    g.note("layers", &net);
    g.note("input columns", &cols);
    g.note("layer that does not fit", &which);
    let nn = build(&net, MSECriterion::default(), &Spy::new(), true);
    match nn.predict(&mat(&x, cols)) {
        Ok(m) => engine::fail!("layers that do not line up give an output of {}x{}", m.rows(), m.cols()),
        Err(e) => {
            let want = if which == 0 { "InvalidData" } else { "InvalidParameters" };
            let ok = match (which, e.kind()) {
                (0, &ErrorKind::InvalidData) => true,
                (0, _) => false,
                (_, &ErrorKind::InvalidParameters) => true,
                _ => false,
            };
            ensure!(ok, "layer {} does not fit: error {:?} ({}), expected {}", which, e.kind(), e, want);
        }
    }
    Ok(true)
}
/// Initial weights: normal, mean zero, variance 2/(inputs+outputs).
fn nn_init(g: &mut G) -> Res {
    let seed = g.seed();
    let (i, o) = (g.int(1, 30), g.int(1, 30));
    let bias = g.bool();
    g.note("inputs, outputs, bias", &(i, o, bias));
    rand::harness::seed(seed);
    let fan = (i + o + if bias { 1 } else { 0 }) as f64;
    let sd = (2. / fan).sqrt();
    let mut z = vec![];
    while z.len() < 4000 {
        let l = if bias { Linear::new(i, o) } else { Linear::without_bias(i, o) };
        let p = l.default_params();
        ensure!(p.len() == (if bias { i + 1 } else { i }) * o, "{} initial weights of a layer {}x{}", p.len(), i, o);
        z.extend(p.iter().map(|v| v / sd));
    }
    let mut u = z.clone();
    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let p = ks_p(&u, engine::stat::phi);
    ensure!(p > 1e-9, "{} initial weights do not follow N(0, 2/(inputs+outputs)): p = {:e}", u.len(), p);
    let m2 = z.iter().map(|v| v * v).sum::<f64>() / z.len() as f64;
    ensure!((m2 - 1.).abs() < 0.16, "the variance of initial weights is {} times 2/(inputs+outputs)", m2);
    Ok(true)
}

fn gen_reg(g: &mut G) -> Regularization<f64> {
    match g.draw(5) {
        0 | 1 => Regularization::None,
        2 => Regularization::L1(g.uni(0.01, 2.)),
        3 => Regularization::L2(g.uni(0.01, 2.)),
        _ => Regularization::ElasticNet(g.uni(0.01, 2.), g.uni(0.01, 2.)),
    }
}
fn nn_gradient(g: &mut G) -> Res {
    let bce = g.bool();
    let (net, d) = gen_net(g, bce);
    let n = g.rows(1, 6);
    let x = gen_rows(g, n, d, -2., 2.);
    let o = width(&net, d);
    let y: Rows = if bce { (0..n).map(|_| g.vec(o, |g| if g.chance(4, 5) { if g.bool() { 1. } else { 0. } } else { g.unit() })).collect() } else { gen_rows(g, n, o, -2., 2.) };
    let reg = gen_reg(g);
    let k = g.size(1, 3);
    let points: Rows = g.vec(k, |g| g.fs(total(&net), -1.2, 1.2));
    let seed = g.seed();
    g.note("layers", &net);
    g.note("criterion", &(if bce { "BCE" } else { "MSE" }, reg));
    g.note("inputs", &x);
    g.note("targets", &y);
    g.note("weights", &points);
    rand::harness::seed(seed);
    let spy = Spy::new();
    *spy.points.borrow_mut() = points.clone();
    let (xm, ym) = (mat(&x, d), mat(&y, o));
    let np = total(&net);
    let none = matches!(reg, Regularization::None);
    if np == 0 && !none {
        return Ok(false);
    }
    let reports = {
        if bce {
            let crit = if none && g.bool() { BCECriterion::default() } else { BCECriterion::new(reg) };
            build(&net, crit, &spy, true).train(&xm, &ym).map_err(|e| format!("training failed: {}", e))?;
        } else {
            let crit = if none && g.bool() { MSECriterion::default() } else { MSECriterion::new(reg) };
            build(&net, crit, &spy, false).train(&xm, &ym).map_err(|e| format!("training failed: {}", e))?;
        }
        spy.reports.borrow().clone()
    };
    ensure!(reports.len() == points.len(), "{} reports", reports.len());
    for (p, (cost, grad)) in points.iter().zip(&reports) {
        let base = ref_cost(&net, &plain(p), &x, &y, bce).0;
        let pm = Matrix::new(np, 1, p.clone());
        let (rc, rg) = if none { (0., vec![0.; np]) } else { (reg.reg_cost(MatrixSlice::from_matrix(&pm, [0, 0], np, 1)), reg.reg_grad(MatrixSlice::from_matrix(&pm, [0, 0], np, 1)).into_vec()) };
        // the cross entropy has no finite value at outputs rounded to exactly 0 or 1
        let sat = if bce { x.iter().flat_map(|r| ref_forward(&net, &plain(p), r)).map(|v| 1. / (v.0 * (1. - v.0))).fold(1., f64::max) } else { 1. };
        if !(sat < 1e8) {
            return Ok(false);
        }
        ensure!(close(*cost, base + rc, 1e-10), "the cost at {:?} is {:e}, by hand {:e} + {:e}", p, cost, base, rc);
        ensure!(grad.len() == np, "{} gradient entries for {} weights", grad.len(), np);
        let mut size = base.abs();
        let mut want = vec![];
        for j in 0..np {
            let mut w = plain(p);
            w[j].1 = 1.;
            let v = ref_cost(&net, &w, &x, &y, bce).1;
            size = size.max(v.abs());
            want.push(v);
        }
        for j in 0..np {
            // the library divides by o(1-o) and multiplies it back: outputs near 0 and 1 lose digits
            let tol = 1e-10 * (1. + size) + 1e-14 * sat * (1. + size);
            ensure!((grad[j] - want[j] - rg[j]).abs() <= tol, "derivative by weight {} at {:?} is {:e}; of the cost {:e}, of the regularisation {:e}", j, p, grad[j], want[j], rg[j]);
        }
    }
    Ok(np > 1 && net.len() > 1)
}
/// Each layer alone: its back-propagated gradients are the derivatives of its forward map.
fn nn_layer(g: &mut G) -> Res {
    let lay = match g.draw(3) {
        0 => Lay::Lin(g.dim(1, 4), g.dim(1, 4)),
        1 => Lay::NoBias(g.dim(1, 4), g.dim(1, 4)),
        _ => Lay::Act(gen_act(g)),
    };
    let d = match lay {
        Lay::Lin(i, _) | Lay::NoBias(i, _) => i,
        _ => g.dim(1, 4),
    };
    let o = width(&[lay], d);
    let n = g.rows(1, 5);
    let x = gen_rows(g, n, d, -2.5, 2.5);
    let og = gen_rows(g, n, o, -2., 2.);
    let w = g.fs(lay.params(), -1.5, 1.5);
    g.note("layer", &lay);
    g.note("inputs", &x);
    g.note("gradient by outputs", &og);
    g.note("parameters", &w);
    let l = lay.boxed();
    let sh = l.param_shape();
    ensure!(sh == lay.shape() && l.num_params() == lay.params(), "parameters of {:?} are {:?} / {}", lay, sh, l.num_params());
    let (xm, gm, wm) = (mat(&x, d), mat(&og, o), Matrix::new(sh.0, sh.1, w.clone()));
    let sl = || MatrixSlice::from_matrix(&wm, [0, 0], sh.0, sh.1);
    let out = l.forward(&xm, sl()).map_err(|e| format!("forward failed: {}", e))?;
    same_out(&[lay], &w, &x, &out, d)?;
    let gi = l.back_input(&gm, &xm, &out, sl());
    let gp = l.back_params(&gm, &xm, &out, sl());
    ensure!(gi.rows() == n && gi.cols() == d, "gradient by inputs is {}x{}", gi.rows(), gi.cols());
    ensure!(gp.data().len() == lay.params(), "gradient by parameters has {} entries", gp.data().len());
    // scalar s = sum(out * og); ds/dinput and ds/dparam
    for i in 0..n {
        for j in 0..d {
            let mut r: Vec<D> = x[i].iter().map(|v| c(*v)).collect();
            r[j].1 = 1.;
            let v: f64 = lay.forward(&plain(&w), &r).iter().zip(&og[i]).map(|(a, b)| a.1 * b).sum();
            ensure!(close(gi[[i, j]], v, 1e-9), "gradient by input {} of row {} is {:e}, derivative {:e}", j, i, gi[[i, j]], v);
        }
    }
    for k in 0..lay.params() {
        let mut wd = plain(&w);
        wd[k].1 = 1.;
        let v: f64 = (0..n).map(|i| lay.forward(&wd, &plain(&x[i])).iter().zip(&og[i]).map(|(a, b)| a.1 * b).sum::<f64>()).sum();
        ensure!(close(gp.data()[k], v, 1e-10), "gradient by parameter {} is {:e}, derivative {:e}", k, gp.data()[k], v);
    }
    Ok(n > 1)
}
/// Training by gradient descent walks along the reference gradient.
fn nn_descend(g: &mut G) -> Res {
    let k = g.size(2, 4);
    let sizes: Vec<usize> = g.vec(k, |g| g.size(1, 3));
    let bce = g.bool();
    let net: Vec<Lay> = sizes.windows(2).flat_map(|s| vec![Lay::Lin(s[0], s[1]), Lay::Act(Act::Sigmoid)]).collect();
    let (d, o) = (sizes[0], *sizes.last().unwrap());
    // later trainings go on from the weights of the earlier ones
    let sets: Vec<(Rows, Rows)> = {
        let times = g.size(1, 3);
        g.vec(times, |g| {
            let n = g.size(1, 6);
            (gen_rows(g, n, d, -2., 2.), (0..n).map(|_| g.vec(o, |g| if g.bool() { 1. } else { 0. })).collect())
        })
    };
    let (alpha, iters) = (g.uni(0.05, 0.3), g.size(1, 4));
    let seed = g.seed();
    g.note("sizes", &sizes);
    g.note("alpha, iterations", &(alpha, iters));
    g.note("inputs and targets of each training", &sets);
    rand::harness::seed(seed);
    struct Ref {
        net: Vec<Lay>,
        bce: bool,
    }
    impl Optimizable for Ref {
        type Inputs = Matrix<f64>;
        type Targets = Matrix<f64>;
        fn compute_grad(&self, p: &[f64], i: &Matrix<f64>, t: &Matrix<f64>) -> (f64, Vec<f64>) {
            let (x, y) = (rows_of(i), rows_of(t));
            let gr = (0..p.len())
                .map(|j| {
                    let mut w = plain(p);
                    w[j].1 = 1.;
                    ref_cost(&self.net, &w, &x, &y, self.bce).1
                })
                .collect();
            (ref_cost(&self.net, &plain(p), &x, &y, self.bce).0, gr)
        }
    }
    let alg = || GradientDesc::new(alpha, iters);
    let (w0, w1) = if bce {
        let mut nn = NeuralNet::mlp(&sizes, BCECriterion::default(), alg(), activ_fn::Sigmoid);
        let a = flat(&nn, &net)?;
        for (x, y) in &sets {
            nn.train(&mat(x, d), &mat(y, o)).map_err(|e| format!("training failed: {}", e))?;
        }
        (a, flat(&nn, &net)?)
    } else {
        let mut nn = NeuralNet::mlp(&sizes, MSECriterion::default(), alg(), activ_fn::Sigmoid);
        let a = flat(&nn, &net)?;
        for (x, y) in &sets {
            nn.train(&mat(x, d), &mat(y, o)).map_err(|e| format!("training failed: {}", e))?;
        }
        (a, flat(&nn, &net)?)
    };
    let by_hand = Ref { net, bce };
    let want = sets.iter().fold(w0.clone(), |w, (x, y)| alg().optimize(&by_hand, &w, &mat(x, d), &mat(y, o)));
    ensure!(engine::all_close(&w1, &want, 1e-7), "training from {:?} ends at {:?}, gradient descent by hand at {:?}", w0, w1, want);
    Ok(iters > 1 && sets.len() > 1)
}

const LA: &str = "the linear algebra crate is a stand-in (shim/vendor/rulinalg)";
large!(nn_forward_large, nn_forward, 8);
large!(nn_mlp_large, nn_mlp, 8);
large!(nn_gradient_large, nn_gradient, 4);
large!(nn_layer_large, nn_layer, 16);
many!(nn_forward_many, nn_forward, 9000);
many!(nn_mlp_many, nn_mlp, 9000);
many!(nn_gradient_many, nn_gradient, 4000);
many!(nn_layer_many, nn_layer, 9000);
static CHECKS: &[Check] = &[
    Check {
        id: "C22",
        rule: "networks of 1..6 layers (linear with and without bias, four activations, a layer type of the harness) of widths 1..4, built layer by layer, at once, or as multilayer perceptrons, 1..6 rows; initial weights and weights installed by an optimiser of the harness; non-trivial: at least two layers and one parameter",
        sections: &[sec("forward", 90000, 1000000, nn_forward), sec("large-forward", 300, 3000, nn_forward_large), sec("many-rows", 20, 200, nn_forward_many), sec("perceptron", 60000, 500000, nn_mlp), sec("large-perceptron", 300, 3000, nn_mlp_large), sec("many-rows-perceptron", 20, 200, nn_mlp_many), sec("mismatch", 30000, 300000, nn_mismatch), sec("initial-weights", 600, 4000, nn_init)],
        assumptions: &[LA, "thread_rng is replaced by a seedable stream (shim/rand)"],
    },
    Check {
        id: "C23",
        rule: "the same networks under both criteria and four regularisations, gradients at up to three weight vectors against exact derivatives by dual numbers; single layers; training by gradient descent; non-trivial: at least two layers and two parameters",
        sections: &[sec("gradient", 30000, 500000, nn_gradient), sec("large-gradient", 120, 2000, nn_gradient_large), sec("many-rows", 8, 100, nn_gradient_many), sec("layers", 60000, 1000000, nn_layer), sec("large-layers", 400, 6000, nn_layer_large), sec("many-rows-layers", 20, 200, nn_layer_many), sec("descent", 8000, 100000, nn_descend)],
        assumptions: &[LA, "thread_rng is replaced by a seedable stream (shim/rand)", "the derivative of the cost is checked without the L2 cost, whose factor is a known finding of C12"],
    },
];

fn main() {
    engine::main(CHECKS)
}
