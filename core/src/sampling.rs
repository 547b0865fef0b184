//! Reservoir sampling and shuffling.
use engine::{ensure, guard, stat, Res, G};
use rand::harness;
use rusty_machine::learning::toolkit::rand_utils::{fisher_yates, in_place_fisher_yates, reservoir_sample};
use std::rc::Rc;

pub const P_REJECT: f64 = 1e-9;

/// Elements that know their position, of many sizes and alignments.
trait El: Copy + 'static {
    fn of(i: usize) -> Self;
    fn id(self) -> usize;
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl El for $t {
        fn of(i: usize) -> $t { i as $t }
        fn id(self) -> usize { self as usize }
    })* };
}
ints!(u8, u16, u32, u64, u128, i32, f32, f64, usize);
impl El for [u8; 3] {
    fn of(i: usize) -> [u8; 3] {
        [i as u8, (i >> 8) as u8, (i >> 16) as u8]
    }
    fn id(self) -> usize {
        self[0] as usize | (self[1] as usize) << 8 | (self[2] as usize) << 16
    }
}
impl El for (u8, u64, u16) {
    fn of(i: usize) -> Self {
        (i as u8, i as u64, (i * 7) as u16)
    }
    fn id(self) -> usize {
        if self.0 == self.1 as u8 && self.2 == (self.1 * 7) as u16 { self.1 as usize } else { usize::MAX }
    }
}
impl El for [u64; 9] {
    fn of(i: usize) -> Self {
        let mut a = [!(i as u64); 9];
        a[0] = i as u64;
        a
    }
    fn id(self) -> usize {
        if self[1..].iter().all(|x| *x == !self[0]) { self[0] as usize } else { usize::MAX }
    }
}
impl El for [u64; 40] {
    fn of(i: usize) -> Self {
        let mut a = [!(i as u64); 40];
        a[0] = i as u64;
        a
    }
    fn id(self) -> usize {
        if self[1..].iter().step_by(3).all(|x| *x == !self[0]) { self[0] as usize } else { usize::MAX }
    }
}
/// Aligned to a cache line
#[derive(Clone, Copy)]
#[repr(align(64))]
struct Line(u32, u32);
impl El for Line {
    fn of(i: usize) -> Self {
        Line(i as u32, !(i as u32))
    }
    fn id(self) -> usize {
        if self.0 == !self.1 { self.0 as usize } else { usize::MAX }
    }
}
impl El for [u8; 1500] {
    fn of(i: usize) -> Self {
        let mut a = [i as u8; 1500];
        a[1499] = (i >> 8) as u8;
        a
    }
    fn id(self) -> usize {
        if self[..1499].iter().step_by(151).all(|x| *x == self[0]) && self[1498] == self[0] { self[0] as usize | (self[1499] as usize) << 8 } else { usize::MAX }
    }
}
impl El for char {
    fn of(i: usize) -> char {
        std::char::from_u32(0x4e00 + i as u32).unwrap()
    }
    fn id(self) -> usize {
        self as usize - 0x4e00
    }
}
impl El for &'static str {
    fn of(i: usize) -> &'static str {
        &ONES[..i.min(ONES.len())]
    }
    fn id(self) -> usize {
        self.len()
    }
}
impl El for Option<u32> {
    fn of(i: usize) -> Option<u32> {
        if i == 0 { None } else { Some(i as u32) }
    }
    fn id(self) -> usize {
        self.map_or(0, |i| i as usize)
    }
}
static ONES: &str = "11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111";
const KINDS: [&str; 17] = ["usize", "u8", "u16", "u32", "u64", "u128", "i32", "f32", "f64", "[u8; 3]", "(u8, u64, u16)", "[u64; 9]", "char", "[u64; 40]", "64 byte aligned", "[u8; 1500]", "Option<u32>"];
/// Half of the time the plain one.
fn kind(g: &mut G) -> usize {
    let k = if g.bool() { 0 } else { g.int(0, KINDS.len() - 1) };
    g.note("element type", &KINDS[k]);
    k
}
macro_rules! by_kind {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f::<usize>($($a),*),
            1 => $f::<u8>($($a),*),
            2 => $f::<u16>($($a),*),
            3 => $f::<u32>($($a),*),
            4 => $f::<u64>($($a),*),
            5 => $f::<u128>($($a),*),
            6 => $f::<i32>($($a),*),
            7 => $f::<f32>($($a),*),
            8 => $f::<f64>($($a),*),
            9 => $f::<[u8; 3]>($($a),*),
            10 => $f::<(u8, u64, u16)>($($a),*),
            11 => $f::<[u64; 9]>($($a),*),
            12 => $f::<char>($($a),*),
            13 => $f::<[u64; 40]>($($a),*),
            14 => $f::<Line>($($a),*),
            15 => $f::<[u8; 1500]>($($a),*),
            _ => $f::<Option<u32>>($($a),*),
        }
    };
}
type Draw = Box<dyn Fn() -> Vec<usize>>;
fn ids<T: El>(v: Vec<T>) -> Vec<usize> {
    v.into_iter().map(|x| x.id()).collect()
}
fn sampler_of<T: El>(n: usize, k: usize) -> Draw {
    // a part of something larger, at any offset from the allocation
    let off = (n * 7 + k) % 4;
    let mut pool: Vec<T> = vec![T::of(0); off];
    pool.extend((0..n).map(T::of));
    Box::new(move || ids(reservoir_sample(&pool[off..], k)))
}
/// A function that samples k of the positions 0..n, by way of elements of the given kind.
fn sampler(kind: usize, n: usize, k: usize) -> Draw {
    by_kind!(kind, sampler_of, n, k)
}
fn shuffler_of<T: El>(n: usize, inplace: bool) -> Draw {
    let off = n % 3;
    let mut v: Vec<T> = vec![T::of(0); off];
    v.extend((0..n).map(T::of));
    if inplace {
        Box::new(move || {
            let mut t = v.clone();
            in_place_fisher_yates(&mut t[off..]);
            ids(t[off..].to_vec())
        })
    } else {
        Box::new(move || ids(fisher_yates(&v[off..])))
    }
}
/// The in place shuffle also takes elements that own something.
fn owned_shuffler(n: usize, how: usize) -> Draw {
    match how {
        0 => Box::new(move || {
            let mut t: Vec<Box<usize>> = (0..n).map(Box::new).collect();
            in_place_fisher_yates(&mut t);
            t.into_iter().map(|x| *x).collect()
        }),
        1 => Box::new(move || {
            let mut t: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            in_place_fisher_yates(&mut t);
            t.into_iter().map(|x| x.parse().unwrap()).collect()
        }),
        2 => Box::new(move || {
            let mut t: Vec<(u8, Option<Rc<usize>>)> = (0..n).map(|i| (1, Some(Rc::new(i)))).collect();
            in_place_fisher_yates(&mut t);
            t.into_iter().map(|x| *x.1.unwrap()).collect()
        }),
        _ => Box::new(move || {
            // references that may be changed through
            let mut v: Vec<usize> = (0..n).collect();
            let mut t: Vec<&mut usize> = v.iter_mut().collect();
            in_place_fisher_yates(&mut t);
            t.into_iter().map(|x| *x).collect()
        }),
    }
}
/// A shuffle of 0..n, by way of elements of some kind.
fn any_shuffler(g: &mut G, n: usize, inplace: bool) -> Draw {
    if inplace && g.chance(1, 4) {
        let how = g.int(0, 3);
        g.note("element type", &["Box", "String", "(u8, Option<Rc>)", "&mut"][how]);
        return owned_shuffler(n, how);
    }
    let kd = kind(g);
    shuffler(kd, n, inplace)
}
/// A function that shuffles 0..n, by way of elements of the given kind.
fn shuffler(kind: usize, n: usize, inplace: bool) -> Draw {
    by_kind!(kind, shuffler_of, n, inplace)
}
/// Streams whose words are now and then extreme.
fn stream(g: &mut G) -> u64 {
    let seed = g.seed();
    harness::seed(seed);
    if g.chance(1, 4) {
        let r = g.int(6, 30) as u64;
        g.note("extreme words one in", &(r as f64 / 5.));
        harness::rough(r);
    }
    seed
}

fn distinct(v: &[usize], n: usize) -> Result<(), String> {
    let mut seen = vec![false; n];
    for &x in v {
        if x >= n {
            return Err(format!("element {} was not in the pool of {}", x, n));
        }
        if seen[x] {
            return Err(format!("position {} sampled twice", x));
        }
        seen[x] = true;
    }
    Ok(())
}

pub fn positions(g: &mut G) -> Res {
    let n = g.size(0, 60);
    let k = g.int(0, n);
    let (before, after) = if g.chance(1, 4) { (g.int(0, 5), g.int(0, 5)) } else { (0, 0) };
    g.note("n", &n);
    g.note("k", &k);
    let seed = stream(g);
    g.note("seed", &seed);
    // the pool may be a part of something larger
    let all: Vec<usize> = (0..before + n + after).map(|i| i.wrapping_sub(before)).collect();
    let pool = &all[before..before + n];
    let s = reservoir_sample(pool, k);
    g.note("sample", &s);
    ensure!(s.len() == k, "asked for {} of {}, got {}", k, n, s.len());
    distinct(&s, n)?;
    ensure!(pool.iter().enumerate().all(|(i, &x)| i == x), "the pool was modified");
    Ok(k > 0 && k < n)
}
/// Every element type; every length up to a thousand.
pub fn every_type(g: &mut G) -> Res {
    let kd = kind(g);
    let n = if kd == 1 { g.int(0, 256) } else { g.int(0, 1100) };
    let k = match g.draw(4) {
        0 => g.int(0, n.min(20)),
        1 => n - g.int(0, n.min(20)),
        2 => n / 2,
        _ => g.int(0, n),
    };
    g.note("n", &n);
    g.note("k", &k);
    stream(g);
    let s = sampler(kd, n, k)();
    ensure!(s.len() == k, "asked for {} of {}, got {}", k, n, s.len());
    distinct(&s, n)?;
    // elements without size, and borrowed ones
    let u = reservoir_sample(&vec![(); n], k);
    ensure!(u.len() == k, "units: asked for {} of {}, got {}", k, n, u.len());
    let m = n % 100;
    let t = sampler_of::<&'static str>(m, k.min(m))();
    ensure!(t.len() == k.min(m), "strings: asked for {} of {}, got {}", k.min(m), m, t.len());
    distinct(&t, m)?;
    Ok(k > 0 && k < n)
}

/// Samples contain no value more often than the pool does, whatever the element type.
pub fn payloads(g: &mut G) -> Res {
    let n = g.size(0, 40);
    let k = g.int(0, n);
    let seed = g.seed();
    harness::seed(seed);
    let vals: Vec<f64> = g.vec(n, |g| match g.draw(6) {
        0 => f64::NAN,
        1 => -0.0,
        2 => f64::INFINITY,
        _ => g.sint(-3, 3) as f64,
    });
    g.note("pool", &vals);
    g.note("k", &k);
    let s = reservoir_sample(&vals, k);
    g.note("sample", &s);
    ensure!(s.len() == k, "asked for {} of {}, got {}", k, n, s.len());
    let mut a: Vec<u64> = vals.iter().map(|x| x.to_bits()).collect();
    for x in s {
        match a.iter().position(|&y| y == x.to_bits()) {
            Some(i) => {
                a.swap_remove(i);
            }
            None => engine::fail!("{:?} occurs more often in the sample than in the pool", x),
        }
    }
    // a wide element type must be moved as a whole
    let wide: Vec<[u64; 5]> = (0..n as u64).map(|i| [i, i * 3, i ^ 0xFF, !i, i + 7]).collect();
    harness::seed(seed ^ 1);
    let s = reservoir_sample(&wide, k);
    ensure!(s.len() == k, "wide: asked for {} of {}, got {}", k, n, s.len());
    for x in &s {
        let i = x[0];
        ensure!(*x == [i, i * 3, i ^ 0xFF, !i, i + 7], "torn element {:?}", x);
    }
    distinct(&s.iter().map(|x| x[0] as usize).collect::<Vec<_>>(), n)?;
    // bytes: a pool longer than the element type can count
    let m = n * 10;
    let bytes: Vec<u8> = (0..m).map(|i| (i % 251) as u8).collect();
    let kk = if m == 0 { 0 } else { g.int(0, m) };
    let s = reservoir_sample(&bytes, kk);
    ensure!(s.len() == kk, "bytes: asked for {} of {}, got {}", kk, m, s.len());
    let mut cnt = [0i64; 256];
    for b in bytes {
        cnt[b as usize] += 1;
    }
    for b in s {
        cnt[b as usize] -= 1;
    }
    ensure!(cnt.iter().all(|&c| c >= 0), "bytes: a value occurs more often in the sample than in the pool");
    Ok(k > 0 && k < n)
}

pub fn oversized(g: &mut G) -> Res {
    let n = g.size(0, 30);
    let over = g.int(1, 40);
    let seed = g.seed();
    g.note("n", &n);
    g.note("k", &(n + over));
    harness::seed(seed);
    let pool: Vec<usize> = (0..n).collect();
    let r = guard(|| reservoir_sample(&pool, n + over));
    ensure!(r.is_err(), "a sample larger than the pool was accepted: {:?}", r.unwrap());
    // the whole pool is a legal sample and contains everything
    let s = reservoir_sample(&pool, n);
    ensure!(s.len() == n, "whole pool: got {} of {}", s.len(), n);
    distinct(&s, n)?;
    ensure!(reservoir_sample(&pool, 0).is_empty(), "an empty sample is not empty");
    Ok(true)
}

/// Millions: more than single precision numbers can tell apart.
fn huge_size(g: &mut G) -> usize {
    let n = (1usize << 24) + g.int(0, 20_000_000);
    g.note("n", &n);
    n
}
pub fn huge_pool(g: &mut G) -> Res {
    let n = huge_size(g);
    let k = match g.draw(4) {
        0 => g.int(1, 1000),
        1 => n - g.int(1, 1000),
        2 => n - 1_000_000,
        _ => n / g.int(2, 6),
    };
    g.note("k", &k);
    stream(g);
    let smooth = harness::is_smooth();
    let pool: Vec<u32> = (0..n as u32).collect();
    let s = reservoir_sample(&pool, k);
    drop(pool);
    ensure!(s.len() == k, "asked for {} of {}, got {}", k, n, s.len());
    let mut seen = vec![0u64; n / 64 + 1];
    let mut blocks = [0u64; 16];
    let mut residues = vec![0u64; MODULI.iter().sum()];
    for &x in &s {
        let x = x as usize;
        ensure!(x < n, "element {} was not in the pool of {}", x, n);
        ensure!(seen[x / 64] >> (x % 64) & 1 == 0, "position {} sampled twice", x);
        seen[x / 64] |= 1 << (x % 64);
        blocks[x * 16 / n] += 1;
        let mut base = 0;
        for &m in &MODULI {
            residues[base + x % m] += 1;
            base += m;
        }
    }
    if smooth {
        let p = k as f64 / n as f64;
        let test = |c: u64, size: f64| {
            let e = size * p;
            (c as f64 - e).abs() <= 8. * (e * (1. - p) * (1. - (size - 1.) / (n as f64 - 1.))).sqrt() + 14.
        };
        for i in 0..16 {
            let size = (((i + 1) * n + 15) / 16 - (i * n + 15) / 16) as f64;
            ensure!(test(blocks[i], size), "sixteenth {} of the pool sampled {} times, expected {:.0}", i + 1, blocks[i], size * p);
        }
        let mut base = 0;
        for &m in &MODULI {
            for r in 0..m {
                let size = ((n - r + m - 1) / m) as f64;
                ensure!(test(residues[base + r], size), "positions {} modulo {} sampled {} times, expected {:.0}", r, m, residues[base + r], size * p);
            }
            base += m;
        }
    }
    Ok(true)
}
pub fn huge_shuffle(g: &mut G) -> Res {
    let n = huge_size(g);
    let inplace = g.bool();
    g.note("in place", &inplace);
    stream(g);
    let smooth = harness::is_smooth();
    let mut v: Vec<u32> = (0..n as u32).collect();
    if inplace {
        in_place_fisher_yates(&mut v);
    } else {
        v = fisher_yates(&v);
    }
    ensure!(v.len() == n, "{} elements in, {} out", n, v.len());
    let mut seen = vec![0u64; n / 64 + 1];
    let mut blocks = [0u64; 256];
    let mut residues = vec![0u64; SQUARES.iter().map(|m| m * m).sum()];
    for (i, &x) in v.iter().enumerate() {
        let x = x as usize;
        ensure!(x < n, "element {} was not there", x);
        ensure!(seen[x / 64] >> (x % 64) & 1 == 0, "element {} is there twice", x);
        seen[x / 64] |= 1 << (x % 64);
        blocks[i * 16 / n * 16 + x * 16 / n] += 1;
        let mut base = 0;
        for &m in &SQUARES {
            residues[base + (i % m) * m + x % m] += 1;
            base += m * m;
        }
    }
    if smooth {
        for i in 0..256 {
            let e = n as f64 / 256.;
            ensure!((blocks[i] as f64 - e).abs() <= 8. * e.sqrt() + 14., "elements of sixteenth {} land in sixteenth {} {} times, expected {:.0}", i % 16 + 1, i / 16 + 1, blocks[i], e);
        }
        let mut base = 0;
        for &m in &SQUARES {
            for i in 0..m * m {
                let e = n as f64 / (m * m) as f64;
                ensure!((residues[base + i] as f64 - e).abs() <= 8. * e.sqrt() + 14., "elements {} modulo {} land at positions {} modulo {} {} times, expected {:.0}", i % m, m, i / m, m, residues[base + i], e);
            }
            base += m * m;
        }
    }
    Ok(true)
}
/// Sizes that do not fit into 32 bits.
pub fn beyond_32_bits(g: &mut G) -> Res {
    const TOP: usize = 1 << 32;
    static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let before = g.int(0, 40);
    let after = g.int(1, 60);
    g.note("k", &(TOP - before));
    g.note("n", &(TOP + after));
    let seed = g.seed();
    harness::seed(seed);
    let s = reservoir_sample(&vec![(); TOP + after], TOP - before);
    ensure!(s.len() == TOP - before, "asked for {} of {} units, got {}", TOP - before, TOP + after, s.len());
    // the shuffle of units, as far as a few draws
    let mut u = vec![(); TOP + after];
    harness::fuse(1000);
    if let Err(e) = guard(|| in_place_fisher_yates(&mut u)) {
        ensure!(e.contains("enough random words"), "shuffling {} units panics: {}", TOP + after, e);
    }
    harness::seed(seed);
    if g.draw(4) == 3 {
        let _one = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
        g.note("elements", &"bytes");
        let n = TOP + after;
        let mut pool = vec![0u8; n];
        for x in &mut pool[TOP - before..] {
            *x = 1;
        }
        let s = reservoir_sample(&pool, TOP - before);
        drop(pool);
        ensure!(s.len() == TOP - before, "asked for {} of {} bytes, got {}", TOP - before, n, s.len());
        // all of the last few positions are sampled but for an accident of probability 1e-6
        let ones: usize = s.chunks(1 << 16).map(|c| c.iter().map(|x| *x as usize).sum::<usize>()).sum();
        ensure!(ones <= before + after && ones + 2 >= before + after, "{} of the last {} positions were sampled", ones, before + after);
    }
    Ok(true)
}
/// Calls in several threads at once.
fn concurrent(g: &mut G, what: &str, n: usize, run: fn(usize) -> Vec<usize>) -> Res {
    let seed = g.seed();
    g.note("n", &n);
    const THREADS: usize = 4;
    const T: usize = 12_000;
    let gate = std::sync::Barrier::new(THREADS);
    let all: Vec<Result<Vec<(u64, usize)>, ()>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|i| {
                let gate = &gate;
                sc.spawn(move || {
                    harness::seed(engine::mix(&[seed, i as u64]));
                    gate.wait();
                    (0..T)
                        .map(|_| {
                            let v = run(n);
                            let h = v.iter().fold(17, |a, x| engine::mix(&[a, *x as u64]));
                            (h, v.iter().position(|x| *x == 0).map_or(0, |i| 1 + i * 3 / v.len()))
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| ())).collect()
    });
    let mut per: Vec<Vec<(u64, usize)>> = vec![];
    for r in all {
        match r {
            Ok(v) => per.push(v),
            Err(_) => engine::fail!("a thread panicked"),
        }
    }
    let mut h: Vec<u64> = per.iter().flatten().map(|x| x.0).collect();
    h.sort();
    let twice = h.windows(2).filter(|w| w[0] == w[1]).count();
    ensure!(twice == 0, "{} of {} {} taken in {} threads at once are repetitions", twice, THREADS * T, what, THREADS);
    for i in 0..THREADS {
        for j in 0..i {
            for lag in -2i64..=2 {
                let mut c = vec![0u64; 16];
                let (mut a, mut b, mut m) = ([0f64; 4], [0f64; 4], 0.);
                for t in 2..T - 2 {
                    let (x, y) = (per[i][t].1, per[j][(t as i64 + lag) as usize].1);
                    c[x * 4 + y] += 1;
                    a[x] += 1.;
                    b[y] += 1.;
                    m += 1.;
                }
                let e: Vec<f64> = (0..16).map(|q| a[q / 4] * b[q % 4] / m).collect();
                let p = stat::chi2_p(&c, &e);
                ensure!(p >= P_REJECT, "{} of two threads are not independent (p = {:e})", what, p);
            }
        }
    }
    Ok(true)
}
pub fn concurrent_samples(g: &mut G) -> Res {
    let n = g.int(70, 90);
    concurrent(g, "samples", n, |n| {
        let mut v = reservoir_sample(&(0..n).collect::<Vec<usize>>(), n / 2);
        v.sort();
        v
    })
}
pub fn concurrent_shuffles(g: &mut G) -> Res {
    let n = g.int(30, 60);
    if g.bool() {
        concurrent(g, "shuffles", n, |n| fisher_yates(&(0..n).collect::<Vec<usize>>()))
    } else {
        concurrent(g, "shuffles in place", n, |n| {
            let mut v: Vec<usize> = (0..n).collect();
            in_place_fisher_yates(&mut v);
            v
        })
    }
}

/// Log-uniform sizes; now and then millions.
fn big(g: &mut G, lo: usize, hi: usize) -> usize {
    if g.chance(1, 5) {
        if let Some(n) = g.dict_size(lo, 4_000_000) {
            return n;
        }
    }
    if g.chance(1, 24) {
        g.int(hi, 4_000_000)
    } else if g.chance(1, 4) {
        // round numbers and their neighbours
        let r = if g.bool() { 1usize << g.int(6, 17) } else { 10usize.pow(g.int(2, 5) as u32) };
        (r + g.int(0, 2) - 1).max(lo)
    } else {
        let x = g.uni((lo as f64).ln(), (hi as f64).ln());
        (x.exp() as usize).max(lo).min(hi)
    }
}
pub fn large_pools(g: &mut G) -> Res {
    let n = big(g, 60, 140_000);
    let k = match g.draw(13) / 4 {
        0 => g.int(1, 50),
        1 => n - g.int(0, 50),
        3 => g.lit_size(0, n),
        _ => g.int(0, n),
    };
    let seed = g.seed();
    g.note("n", &n);
    g.note("k", &k);
    harness::seed(seed);
    let pool: Vec<usize> = (0..n).collect();
    let s = reservoir_sample(&pool, k);
    ensure!(s.len() == k, "asked for {} of {}, got {}", k, n, s.len());
    distinct(&s, n)?;
    Ok(k > 0 && k < n)
}

fn binom(n: usize, k: usize) -> usize {
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}

/// Every k-subset is equally likely.
pub fn subset_law(g: &mut G) -> Res {
    let n = g.int(1, 7);
    let k = g.int(0, n);
    let seed = g.seed();
    g.note("n", &n);
    g.note("k", &k);
    harness::seed(seed);
    let kd = kind(g);
    let draw = sampler(kd, n, k);
    let m = binom(n, k);
    let reps = 400 * m + 2000;
    let mut counts = vec![0u64; 1 << n];
    for _ in 0..reps {
        let s = draw();
        ensure!(s.len() == k, "asked for {} of {}, got {}", k, n, s.len());
        distinct(&s, n)?;
        let mut mask = 0usize;
        for x in s {
            mask |= 1 << x;
        }
        counts[mask] += 1;
    }
    let mut exp = vec![0f64; 1 << n];
    for mask in 0..1usize << n {
        if mask.count_ones() as usize == k {
            exp[mask] = reps as f64 / m as f64;
        }
    }
    let p = stat::chi2_p(&counts, &exp);
    ensure!(p >= P_REJECT, "subsets of size {} of {} are not equally likely (p = {:e}): {:?}", k, n, p, counts);
    Ok(k > 0 && k < n)
}

/// Each position is included with probability k/n, each pair with probability k(k-1)/(n(n-1)).
pub fn inclusion_law(g: &mut G) -> Res {
    let n = g.int(2, 60);
    let k = match g.draw(3) {
        0 => g.int(1, n.min(3)),
        1 => n - g.int(1, (n - 1).min(3)),
        _ => g.int(1, n - 1),
    };
    let seed = g.seed();
    g.note("n", &n);
    g.note("k", &k);
    harness::seed(seed);
    let kd = kind(g);
    let draw = sampler(kd, n, k);
    let reps = 6000u64;
    let mut c1 = vec![0u64; n];
    let mut c2 = vec![0u64; n * n];
    for _ in 0..reps {
        let s = draw();
        distinct(&s, n)?;
        for (i, &x) in s.iter().enumerate() {
            c1[x] += 1;
            for &y in &s[..i] {
                c2[x * n + y] += 1;
                c2[y * n + x] += 1;
            }
        }
    }
    let p1 = k as f64 / n as f64;
    let p2 = p1 * (k as f64 - 1.) / (n as f64 - 1.);
    for i in 0..n {
        bound(c1[i], reps, p1).map_err(|e| format!("position {} of {} (k={}): {}", i, n, k, e))?;
        for j in 0..i {
            bound(c2[i * n + j], reps, p2).map_err(|e| format!("positions {} and {} of {} together (k={}): {}", i, j, n, k, e))?;
        }
    }
    Ok(true)
}

/// Seven standard deviations of a binomial count, with a floor for rare events.
fn bound(c: u64, reps: u64, p: f64) -> Result<(), String> {
    let e = reps as f64 * p;
    let sd = (e * (1. - p)).sqrt();
    if (c as f64 - e).abs() > 7. * sd + 12. {
        return Err(format!("seen {} times, expected {:.1} (sd {:.1})", c, e, sd));
    }
    Ok(())
}

const MODULI: [usize; 5] = [2, 3, 5, 8, 64];
/// Element types that can number many elements; half of the time the plain one.
fn wide_kind(g: &mut G) -> usize {
    let k = if g.bool() { 0 } else { *g.pick(&[3usize, 4, 5, 6, 8, 11]) };
    g.note("element type", &KINDS[k]);
    k
}
fn wide_length(g: &mut G, lo: usize) -> usize {
    if g.chance(1, 6) {
        if let Some(n) = g.dict_size(lo, 2_000_000) {
            return n;
        }
    }
    if g.chance(1, 24) {
        g.int(140_000, 2_000_000)
    } else if g.chance(1, 4) {
        g.int(5000, 140_000)
    } else {
        g.int(lo, 5000)
    }
}
pub fn inclusion_blocks(g: &mut G) -> Res {
    let n = wide_length(g, 64);
    let k = match g.draw(13) / 4 {
        0 => g.int(1, 64),
        1 => n / g.int(2, 10),
        3 => g.lit_size(1, n - 1),
        _ => n - g.int(1, 40),
    };
    let seed = g.seed();
    g.note("n", &n);
    g.note("k", &k);
    harness::seed(seed);
    let kd = wide_kind(g);
    let draw = sampler(kd, n, k);
    let reps = if n > 140_000 { 6 } else { (400_000 / n).max(150) };
    let b = 16usize;
    let mut earlier: [Vec<u32>; 2] = [vec![0; n], vec![0; n]];
    let mut common = [0u64; 3];
    let mut residues = vec![0u64; MODULI.iter().sum()];
    let mut c = vec![0u64; b];
    let mut neighbours = 0u64;
    let mut spread = 0f64;
    let mut mark = vec![0u32; n];
    let mut size = vec![0f64; b];
    for i in 0..n {
        size[i * b / n] += 1.;
    }
    let mut last = 0u64;
    let mut first = 0u64;
    let p = k as f64 / n as f64;
    for rep in 0..reps {
        let mut one = vec![0u64; b];
        let sample = draw();
        ensure!(sample.len() == k, "asked for {} of {}, got {}", k, n, sample.len());
        distinct(&sample, n)?;
        for &x in &sample {
            let mut base = 0;
            for &m in &MODULI {
                residues[base + x % m] += 1;
                base += m;
            }
            if rep > 0 {
                let last = rep as u32;
                common[0] += (earlier[(rep + 1) % 2][x] == last) as u64;
                common[1] += (earlier[(rep + 1) % 2][n - 1 - x] == last) as u64;
                common[2] += (rep > 1 && earlier[rep % 2][x] == last - 1) as u64;
            }
            one[x * b / n] += 1;
            mark[x] = rep as u32 + 1;
            if x == n - 1 {
                last += 1;
            }
            if x == 0 {
                first += 1;
            }
        }
        for &x in &sample {
            if x + 1 < n && mark[x + 1] == rep as u32 + 1 {
                neighbours += 1;
            }
            earlier[rep % 2][x] = rep as u32 + 1;
        }
        for i in 0..b {
            c[i] += one[i];
            let e = size[i] * p;
            spread += (one[i] as f64 - e) * (one[i] as f64 - e) / (e * (1. - p) * (1. - (size[i] - 1.) / (n as f64 - 1.)));
        }
    }
    // Neighbours come together as often as any two positions, and the counts per block vary as much
    // as those of random subsets (stratified or systematic samples vary too little).
    if n <= 140_000 {
        let (nf, kf) = (n as f64, k as f64);
        let e = reps as f64 * (nf - 1.) * kf * (kf - 1.) / (nf * (nf - 1.));
        let sd = (e * (1. - p) * (1. - p)).sqrt();
        ensure!((neighbours as f64 - e).abs() <= 8. * sd + 14., "pool of {} (k={}): {} neighbours sampled together, expected {:.1} (sd {:.1})", n, k, neighbours, e, sd);
        let m = (reps * b) as f64;
        let kurt = if (k.min(n - k)) < 400 { 1. + b as f64 / k.min(n - k) as f64 } else { 1. };
        let tol = 8. * (2. * m * kurt).sqrt() + 12.;
        ensure!((spread - m).abs() <= tol, "pool of {} (k={}): the counts per block vary {:.3} times as much as those of random subsets", n, k, spread / m);
    }
    // independent samples have k^2/n positions in common
    for (i, what) in ["the one before", "the one before, mirrored,", "the one but one before"].iter().enumerate() {
        let m = reps as f64 - if i == 2 { 2. } else { 1. };
        let nf = n as f64;
        let e = m * nf * p * p;
        let sd = (e * (1. - p) * (1. - p) * nf / (nf - 1.)).sqrt();
        ensure!((common[i] as f64 - e).abs() <= 8. * sd + 14., "pool of {} (k={}): a sample and {} have {} positions in common in {} pairs, expected {:.1} (sd {:.1})", n, k, what, common[i], m, e, sd);
    }
    let mut base = 0;
    for &m in &MODULI {
        for r in 0..m {
            let size = ((n - r + m - 1) / m) as f64;
            let e = reps as f64 * size * p;
            let var = e * (1. - p) * (1. - (size - 1.) / (n as f64 - 1.));
            ensure!((residues[base + r] as f64 - e).abs() <= 8. * var.sqrt() + 14., "pool of {} (k={}): positions {} modulo {} sampled {} times, expected {:.1}", n, k, r, m, residues[base + r], e);
        }
        base += m;
    }
    for i in 0..b {
        // sum over repetitions of a hypergeometric count
        let e = reps as f64 * size[i] * p;
        let var = e * (1. - p) * (1. - (size[i] - 1.) / (n as f64 - 1.));
        ensure!(
            (c[i] as f64 - e).abs() <= 7. * var.sqrt() + 12.,
            "block {} of 16 of a pool of {} (k={}) sampled {} times, expected {:.1}",
            i,
            n,
            k,
            c[i],
            e
        );
    }
    bound(last, reps as u64, p).map_err(|e| format!("last of {} (k={}): {}", n, k, e))?;
    bound(first, reps as u64, p).map_err(|e| format!("first of {} (k={}): {}", n, k, e))?;
    Ok(true)
}

/// Positions at small distances of each other are sampled together as often as any others, wherever in
/// the pool they are: small samples of pools many times as large.
pub fn gap_law(g: &mut G) -> Res {
    let k = g.int(2, 5);
    let n = k * g.int(8, 80) + g.draw(9) as usize;
    let seed = g.seed();
    g.note("n", &n);
    g.note("k", &k);
    harness::seed(seed);
    let pool: Vec<usize> = (0..n).collect();
    let reps = (16_000_000 / n).min(150_000) as u64;
    const GAPS: usize = 4;
    const PARTS: usize = 4;
    let mut c = [[0u64; GAPS]; PARTS];
    let mut size = [0f64; PARTS];
    for i in 0..n {
        size[i * PARTS / n] += 1.;
    }
    for _ in 0..reps {
        let s = reservoir_sample(&pool, k);
        for &a in &s {
            for &b in &s {
                if b > a && b - a <= GAPS {
                    c[b * PARTS / n][b - a - 1] += 1;
                }
            }
        }
    }
    let pair = (k * (k - 1)) as f64 / (n * (n - 1)) as f64;
    for q in 0..PARTS {
        for d in 0..GAPS {
            let pairs = if q == 0 { size[0] - (d + 1) as f64 } else { size[q] };
            let e = reps as f64 * pairs * pair;
            // pairs of one sample overlap little, the count is nearly Poisson
            let tol = 8. * (e * (1. + k as f64 / n as f64)).sqrt() + 14.;
            ensure!(
                (c[q][d] as f64 - e).abs() <= tol,
                "pool of {} (k={}): positions {} apart in quarter {} of the pool were sampled together {} times, expected {:.1}",
                n, k, d + 1, q + 1, c[q][d], e
            );
        }
    }
    Ok(true)
}

/// What the first call in a new thread returns follows the law, too: randomness comes neither from a
/// constant nor from state that every thread starts with.
fn fresh_threads(g: &mut G, which: u64) -> Res {
    let n = 4usize;
    let seed = g.seed();
    g.note("function", &["reservoir_sample", "fisher_yates", "in_place_fisher_yates"][which as usize]);
    let reps = 600u64;
    let mut c = vec![0u64; n];
    for i in 0..reps {
        let r = std::thread::Builder::new()
            .stack_size(1 << 18)
            .spawn(move || {
                harness::seed(seed ^ (i << 20));
                let v: Vec<usize> = (0..n).collect();
                match which {
                    0 => reservoir_sample(&v, 1)[0],
                    1 => fisher_yates(&v)[0],
                    _ => {
                        let mut t = v.clone();
                        in_place_fisher_yates(&mut t);
                        t[0]
                    }
                }
            })
            .unwrap()
            .join();
        match r {
            Ok(x) => c[x] += 1,
            Err(_) => engine::fail!("panicked in a new thread"),
        }
    }
    let p = stat::chi2_p(&c, &vec![reps as f64 / n as f64; n]);
    ensure!(p >= P_REJECT, "the first results of new threads are not uniform (p = {:e}): {:?}", p, c);
    Ok(true)
}
/// Where the call is made changes nothing: while a panic unwinds, in a thread named like the main one, on a small stack.
fn contexts(g: &mut G, which: u64) -> Res {
    let n = if g.chance(1, 8) { big(g, 60, 60_000) } else { g.size(0, 60) };
    let k = g.size(0, n);
    let seed = g.seed();
    let place = g.draw(3);
    g.note("function", &["reservoir_sample", "fisher_yates", "in_place_fisher_yates"][which as usize]);
    g.note("n, k", &(n, k));
    g.note("where", &["while unwinding", "a thread named main", "a small stack"][place as usize]);
    let call = move || {
        harness::seed(seed);
        let v: Vec<usize> = (0..n).collect();
        match which {
            0 => reservoir_sample(&v, k),
            1 => fisher_yates(&v),
            _ => {
                let mut t = v;
                in_place_fisher_yates(&mut t);
                t
            }
        }
    };
    struct OnDrop<'a, F: Fn() -> Vec<usize>>(F, &'a mut Option<Vec<usize>>);
    impl<'a, F: Fn() -> Vec<usize>> Drop for OnDrop<'a, F> {
        fn drop(&mut self) {
            *self.1 = Some((self.0)());
        }
    }
    let here = call();
    let there = if place == 0 {
        let mut out = None;
        let _ = guard(|| {
            let _d = OnDrop(call, &mut out);
            panic!("unwinding");
        });
        out.unwrap()
    } else {
        let b = std::thread::Builder::new();
        let b = if place == 1 { b.name("main".to_string()) } else { b.stack_size(1 << 16) };
        match b.spawn(call).unwrap().join() {
            Ok(v) => v,
            Err(_) => engine::fail!("panics"),
        }
    };
    let size = if which == 0 { k } else { n };
    for (v, at) in [(&here, "here"), (&there, "there")] {
        ensure!(v.len() == size, "{} elements {} instead of {}", v.len(), at, size);
        distinct(v, n).map_err(|e| format!("{} ({})", e, at))?;
    }
    Ok(size > 1)
}
pub fn contexts_reservoir(g: &mut G) -> Res {
    contexts(g, 0)
}
pub fn contexts_shuffle(g: &mut G) -> Res {
    let w = 1 + g.draw(2);
    contexts(g, w)
}
pub fn fresh_threads_reservoir(g: &mut G) -> Res {
    fresh_threads(g, 0)
}
pub fn fresh_threads_shuffle(g: &mut G) -> Res {
    let which = 1 + g.draw(2);
    fresh_threads(g, which)
}

pub fn reservoir_independent(g: &mut G) -> Res {
    let n = g.int(2, 4);
    let seed = g.seed();
    g.note("n", &n);
    harness::seed(seed);
    let pool: Vec<usize> = (0..n).collect();
    let mut c = vec![0u64; n * n];
    let reps = 20000;
    for _ in 0..reps {
        let a = reservoir_sample(&pool, 1)[0];
        let b = reservoir_sample(&pool, 1)[0];
        c[a * n + b] += 1;
    }
    let e = vec![reps as f64 / (n * n) as f64; n * n];
    let p = stat::chi2_p(&c, &e);
    ensure!(p >= P_REJECT, "two successive samples are not independent (p = {:e}): {:?}", p, c);
    Ok(true)
}

/// The outcomes of a long history of calls are independent at every distance up to 24 and at many
/// larger ones, whatever is called in between; and of what is called in between.
fn history(g: &mut G, m: usize, mut main: Box<dyn FnMut() -> usize>) -> Result<(), String> {
    let seed = g.seed();
    harness::seed(seed);
    const T: usize = 48000;
    let between = g.int(0, 4);
    g.note("called in between", &["nothing", "another sample", "another shuffle", "another shuffle in place", "a refused sample"][between]);
    let bn = g.int(2, 9);
    let bk = g.int(1, bn - 1);
    let pool: Vec<usize> = (0..bn).collect();
    let (mut a, mut b) = (Vec::with_capacity(T), Vec::with_capacity(T));
    for _ in 0..T {
        a.push(main());
        match between {
            0 => {}
            1 => b.push(if reservoir_sample(&pool, bk).contains(&(bn - 1)) { 1 } else { 0 }),
            2 => b.push(if fisher_yates(&pool)[0] * 2 < bn { 1usize } else { 0 }),
            4 => {
                if guard(|| reservoir_sample(&pool, bn + bk)).is_ok() {
                    return Err("a sample larger than the pool was accepted".into());
                }
            }
            _ => {
                let mut t = pool.clone();
                in_place_fisher_yates(&mut t);
                b.push(if t[0] * 2 < bn { 1 } else { 0 });
            }
        }
    }
    let joint = |x: &[usize], y: &[usize], my: usize, lag: usize, what: &str| -> Result<(), String> {
        let n = x.len() - lag;
        let mut c = vec![0u64; m * my];
        let (mut cx, mut cy) = (vec![0f64; m], vec![0f64; my]);
        for t in 0..n {
            c[x[t] * my + y[t + lag]] += 1;
            cx[x[t]] += 1.;
            cy[y[t + lag]] += 1.;
        }
        let e: Vec<f64> = (0..m * my).map(|i| cx[i / my] * cy[i % my] / n as f64).collect();
        let p = stat::chi2_p(&c, &e);
        if p < P_REJECT {
            return Err(format!("the outcomes of a call and of {} {} later are not independent (p = {:e})", what, lag, p));
        }
        Ok(())
    };
    for lag in (1..=24).chain(vec![32, 40, 48, 50, 64, 96, 100, 128, 192, 256, 384, 500, 512, 768, 1000, 1024, 2048, 4096]) {
        joint(&a, &a, m, lag, "the same call")?;
    }
    if !b.is_empty() {
        for lag in 0..=4 {
            joint(&a, &b, 2, lag, "the one in between")?;
        }
    }
    // the law holds in every stretch of the history
    for (i, s) in a.chunks(T / 6).enumerate() {
        let mut c = vec![0u64; m];
        for x in s {
            c[*x] += 1;
        }
        let p = stat::chi2_p(&c, &vec![s.len() as f64 / m as f64; m]);
        if p < P_REJECT {
            return Err(format!("the outcomes are not equally likely in sixth {} of the history (p = {:e})", i + 1, p));
        }
    }
    Ok(())
}
pub fn reservoir_history(g: &mut G) -> Res {
    let n = g.int(2, 5);
    let k = g.int(1, n - 1);
    g.note("n", &n);
    g.note("k", &k);
    let kd = kind(g);
    let draw = sampler(kd, n, k);
    // the subsets in order of their masks
    let mut number = vec![usize::MAX; 1 << n];
    let mut m = 0;
    for mask in 0..1usize << n {
        if mask.count_ones() as usize == k {
            number[mask] = m;
            m += 1;
        }
    }
    history(g, m, Box::new(move || number[draw().iter().fold(0, |a, x| a | 1 << x)]))?;
    Ok(true)
}
pub fn shuffle_history(g: &mut G) -> Res {
    let n = g.int(2, 4);
    let inplace = g.bool();
    g.note("n", &n);
    g.note("in_place", &inplace);
    let draw = any_shuffler(g, n, inplace);
    history(g, (1..=n).product(), Box::new(move || rank(&draw())))?;
    Ok(true)
}
/// Results that cannot come twice do not: a generator with few states (reseeded from a small number,
/// say) repeats itself long before chance does.
fn repeats(g: &mut G, what: &str, draw: Draw, order: bool) -> Res {
    let seed = g.seed();
    harness::seed(seed);
    const T: usize = 400_000;
    let mut h: Vec<u64> = Vec::with_capacity(T);
    for _ in 0..T {
        let mut v = draw();
        if !order {
            v.sort();
        }
        h.push(v.iter().fold(17, |a, x| engine::mix(&[a, *x as u64])));
    }
    h.sort();
    let twice = h.windows(2).filter(|w| w[0] == w[1]).count();
    ensure!(twice == 0, "{} of {} {} are repetitions", twice, T, what);
    Ok(true)
}
pub fn reservoir_repeats(g: &mut G) -> Res {
    let n = g.int(60, 66);
    g.note("n", &n);
    repeats(g, "samples of half of the pool", sampler(0, n, n / 2), false)
}
pub fn shuffle_repeats(g: &mut G) -> Res {
    let n = g.int(25, 30);
    let inplace = g.bool();
    g.note("n", &n);
    g.note("in_place", &inplace);
    repeats(g, "shuffles", shuffler(0, n, inplace), true)
}

// ------------------------------------------------------------------ shuffles

fn values(g: &mut G, n: usize) -> Vec<i64> {
    if g.bool() {
        (0..n as i64).collect()
    } else {
        g.vec(n, |g| g.sint(-4, 4))
    }
}
fn same_multiset<T: Ord + Clone + std::fmt::Debug>(a: &[T], b: &[T]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} elements in, {} out", a.len(), b.len()));
    }
    let (mut x, mut y) = (a.to_vec(), b.to_vec());
    x.sort();
    y.sort();
    if x != y {
        return Err(format!("not a permutation: {:?} became {:?}", a, b));
    }
    Ok(())
}

/// Every element type; every length up to a thousand.
pub fn fy_types(g: &mut G) -> Res {
    let kd = kind(g);
    let n = if kd == 1 { g.int(0, 256) } else { g.int(0, 1100) };
    g.note("n", &n);
    stream(g);
    for &inplace in &[false, true] {
        g.note("in place", &inplace);
        let s = shuffler(kd, n, inplace)();
        ensure!(s.len() == n, "{} elements in, {} out", n, s.len());
        distinct(&s, n)?;
        let t = shuffler_of::<&'static str>(n % 100, inplace)();
        ensure!(t.len() == n % 100, "{} strings in, {} out", n % 100, t.len());
        distinct(&t, n % 100)?;
    }
    Ok(n > 1)
}
pub fn fy_copy(g: &mut G) -> Res {
    let n = g.size(0, 60);
    let v = values(g, n);
    g.note("input", &v);
    let seed = stream(g);
    g.note("seed", &seed);
    let before = v.clone();
    let out = if g.bool() {
        fisher_yates(&v)
    } else {
        // as a part of something larger
        let all: Vec<i64> = std::iter::once(77).chain(v.iter().cloned()).chain(vec![78, 79]).collect();
        let out = fisher_yates(&all[1..=n]);
        ensure!(all[0] == 77 && all[1..=n] == v[..] && all[n + 1..] == [78, 79], "the input was modified");
        out
    };
    g.note("output", &out);
    same_multiset(&v, &out)?;
    ensure!(v == before, "the input was modified");
    let fl: Vec<f64> = v.iter().map(|&x| match x {
        -4 => f64::NAN,
        -3 => -0.0,
        3 => f64::NEG_INFINITY,
        x => x as f64 / 3.,
    }).collect();
    let fo = fisher_yates(&fl);
    let bits = |x: &[f64]| x.iter().map(|y| y.to_bits()).collect::<Vec<_>>();
    same_multiset(&bits(&fl), &bits(&fo))?;
    let wide: Vec<(u8, u64, u16)> = v.iter().enumerate().map(|(i, &x)| (i as u8, x as u64, (i * 7) as u16)).collect();
    same_multiset(&wide, &fisher_yates(&wide))?;
    Ok(n >= 2 && out != v)
}

pub fn fy_inplace(g: &mut G) -> Res {
    let n = g.size(0, 60);
    let v = values(g, n);
    let lo = g.int(0, n);
    let hi = g.int(lo, n);
    g.note("input", &v);
    stream(g);
    let mut out = v.clone();
    in_place_fisher_yates(&mut out);
    g.note("output", &out);
    same_multiset(&v, &out)?;
    // a sub-slice: the rest of the array must stay as it is
    let mut part = v.clone();
    in_place_fisher_yates(&mut part[lo..hi]);
    ensure!(part[..lo] == v[..lo] && part[hi..] == v[hi..], "shuffling [{}..{}] moved elements outside", lo, hi);
    same_multiset(&v[lo..hi], &part[lo..hi])?;
    Ok(n >= 2 && out != v)
}

pub fn fy_owned(g: &mut G) -> Res {
    let n = g.size(0, 40);
    let v = values(g, n);
    let seed = g.seed();
    g.note("input", &v);
    harness::seed(seed);
    let s: Vec<String> = v.iter().map(|x| format!("v{}", x)).collect();
    let mut t = s.clone();
    in_place_fisher_yates(&mut t);
    same_multiset(&s, &t)?;
    let rc: Vec<Rc<i64>> = v.iter().map(|&x| Rc::new(x)).collect();
    let mut sh = rc.clone();
    in_place_fisher_yates(&mut sh);
    for r in &rc {
        ensure!(Rc::strong_count(r) == 2, "a shuffled value is held {} times instead of twice", Rc::strong_count(r));
    }
    drop(sh);
    for r in &rc {
        ensure!(Rc::strong_count(r) == 1, "a shuffled value was leaked or dropped twice");
    }
    let mut z = vec![(); n];
    in_place_fisher_yates(&mut z);
    ensure!(fisher_yates(&z).len() == n, "unit values lost");
    Ok(n >= 2)
}

pub fn fy_large(g: &mut G) -> Res {
    let n = big(g, 60, 140_000);
    let seed = g.seed();
    g.note("n", &n);
    harness::seed(seed);
    let v: Vec<usize> = (0..n).collect();
    let c = fisher_yates(&v);
    ensure!(c.len() == n, "copying shuffle of {} has {} elements", n, c.len());
    distinct(&c, n).map_err(|e| format!("copying shuffle of {}: {}", n, e))?;
    let mut t = v.clone();
    in_place_fisher_yates(&mut t);
    distinct(&t, n).map_err(|e| format!("in place shuffle of {}: {}", n, e))?;
    Ok(t != v)
}

fn shuffle(inplace: bool, v: &[usize]) -> Vec<usize> {
    if inplace {
        let mut t = v.to_vec();
        in_place_fisher_yates(&mut t);
        t
    } else {
        fisher_yates(v)
    }
}
fn rank(p: &[usize]) -> usize {
    let n = p.len();
    let mut r = 0;
    for i in 0..n {
        let less = p[i + 1..].iter().filter(|&&x| x < p[i]).count();
        r = r * (n - i) + less;
    }
    r
}

pub fn fy_law(g: &mut G) -> Res {
    let n = g.int(2, 6);
    let inplace = g.bool();
    let seed = g.seed();
    g.note("n", &n);
    g.note("in_place", &inplace);
    harness::seed(seed);
    let f: usize = (1..=n).product();
    let reps = 300 * f + 3000;
    let draw = any_shuffler(g, n, inplace);
    let mut c = vec![0u64; f];
    for _ in 0..reps {
        let p = draw();
        ensure!(p.len() == n, "length changed");
        distinct(&p, n)?;
        c[rank(&p)] += 1;
    }
    let p = stat::chi2_p(&c, &vec![reps as f64 / f as f64; f]);
    ensure!(p >= P_REJECT, "the {} permutations of {} elements are not equally likely (p = {:e})", f, n, p);
    Ok(true)
}

pub fn fy_pairs(g: &mut G) -> Res {
    let n = g.int(2, 48);
    let inplace = g.bool();
    let seed = g.seed();
    g.note("n", &n);
    g.note("in_place", &inplace);
    harness::seed(seed);
    let draw = any_shuffler(g, n, inplace);
    let reps = 8000u64;
    let mut c = vec![0u64; n * n];
    let (mut even, mut descents, mut fixed, mut near) = (0u64, 0u64, 0u64, 0u64);
    for _ in 0..reps {
        let p = draw();
        ensure!(p.len() == n, "length changed");
        distinct(&p, n)?;
        for (i, &x) in p.iter().enumerate() {
            c[i * n + x] += 1;
            if i == x {
                fixed += 1;
            }
        }
        // parity from the cycle count
        let mut seen = vec![false; n];
        let mut cycles = 0;
        for i in 0..n {
            if !seen[i] {
                cycles += 1;
                let mut j = i;
                while !seen[j] {
                    seen[j] = true;
                    j = p[j];
                }
            }
        }
        if (n - cycles) % 2 == 0 {
            even += 1;
        }
        if p[0] > p[1] {
            descents += 1;
        }
        near += p.windows(2).filter(|w| w[1] == w[0] + 1 || w[0] == w[1] + 1).count() as u64;
    }
    for i in 0..n {
        for x in 0..n {
            bound(c[i * n + x], reps, 1. / n as f64).map_err(|e| format!("element {} at position {} of {}: {}", x, i, n, e))?;
        }
    }
    bound(even, reps, 0.5).map_err(|e| format!("even permutations of {}: {}", n, e))?;
    bound(descents, reps, 0.5).map_err(|e| format!("first pair of {} in descending order: {}", n, e))?;
    let e = reps as f64 * 2. * (n as f64 - 1.) / n as f64;
    ensure!((near as f64 - e).abs() <= 8. * (2. * reps as f64).sqrt() + 14., "{} neighbours in {} shuffles of {}, expected {:.0}", near, reps, n, e);
    // the number of fixed points has mean 1 and variance 1
    let sd = (reps as f64).sqrt();
    ensure!((fixed as f64 - reps as f64).abs() <= 7. * sd, "{} fixed points in {} shuffles of {}", fixed, reps, n);
    Ok(true)
}

const SQUARES: [usize; 4] = [2, 3, 8, 10];
pub fn fy_blocks(g: &mut G) -> Res {
    let n = wide_length(g, 50);
    let inplace = g.bool();
    let seed = g.seed();
    g.note("n", &n);
    g.note("in_place", &inplace);
    harness::seed(seed);
    let kd = wide_kind(g);
    let draw = shuffler(kd, n, inplace);
    let mut residues = vec![0u64; SQUARES.iter().map(|m| m * m).sum()];
    let mut before: Vec<usize> = vec![];
    let mut relations = [0u64; 5];
    let mut place = vec![0usize; n];
    let b = 8usize;
    let reps = if n > 140_000 { 4 } else { (400_000 / n).max(100) };
    let (mut up, mut down) = (0u64, 0u64);
    let mut c = vec![0u64; b * b];
    let mut size = vec![0f64; b];
    for i in 0..n {
        size[i * b / n] += 1.;
    }
    let mut fixed = 0u64;
    for _ in 0..reps {
        let out = draw();
        ensure!(out.len() == n, "length changed");
        distinct(&out, n)?;
        for (i, &x) in out.iter().enumerate() {
            let mut base = 0;
            for &m in &SQUARES {
                residues[base + (i % m) * m + x % m] += 1;
                base += m * m;
            }
            relations[0] += (x == n - 1 - i) as u64;
            if !before.is_empty() {
                relations[1] += (x == before[i]) as u64;
                relations[2] += (x == before[n - 1 - i]) as u64;
                relations[3] += (before[x] == i) as u64;
                relations[4] += (i > 0 && place[x] == place[out[i - 1]] + 1) as u64;
            }
        }
        before.clone_from(&out);
        for (i, &x) in out.iter().enumerate() {
            place[x] = i;
        }
        for w in out.windows(2) {
            if w[1] == w[0] + 1 {
                up += 1;
            }
            if w[0] == w[1] + 1 {
                down += 1;
            }
        }
        for (i, x) in out.into_iter().enumerate() {
            c[(i * b / n) * b + x * b / n] += 1;
            if i == x {
                fixed += 1;
            }
        }
    }
    for i in 0..b {
        for j in 0..b {
            let e = reps as f64 * size[i] * size[j] / n as f64;
            let ok = (c[i * b + j] as f64 - e).abs() <= 7. * e.sqrt() + 12.;
            ensure!(ok, "n={}: elements of block {} land in block {} {} times, expected {:.0}", n, j, i, c[i * b + j], e);
        }
    }
    let mut base = 0;
    for &m in &SQUARES {
        for i in 0..m {
            for x in 0..m {
                let size = |r: usize| ((n - r + m - 1) / m) as f64;
                let e = reps as f64 * size(i) * size(x) / n as f64;
                let c = residues[base + i * m + x];
                ensure!((c as f64 - e).abs() <= 8. * e.sqrt() + 14., "n={}: elements {} modulo {} land at positions {} modulo {} {} times, expected {:.0}", n, x, m, i, m, c, e);
            }
        }
        base += m * m;
    }
    // each about Poisson with mean one per shuffle
    for (i, what) in ["is the mirrored order", "is where it was in the shuffle before", "is where it was in the shuffle before, mirrored", "undoes the shuffle before", "keeps neighbours of the shuffle before"].iter().enumerate() {
        let e = reps as f64 - (i > 0) as u64 as f64;
        ensure!((relations[i] as f64 - e).abs() <= 8. * e.sqrt() + 14., "n={}: {} places where a shuffle {}, expected {}", n, relations[i], what, e);
    }
    let sd = (reps as f64).sqrt();
    ensure!((fixed as f64 - reps as f64).abs() <= 7. * sd + 3., "{} fixed points in {} shuffles of {}", fixed, reps, n);
    // neighbours that stay neighbours: (n-1)/n on average in either direction, about Poisson
    let e = reps as f64 * (n as f64 - 1.) / n as f64;
    for (what, count) in [("ascending", up), ("descending", down)] {
        ensure!((count as f64 - e).abs() <= 8. * sd + 14., "{} {} neighbours in {} shuffles of {}, expected {:.0}", count, what, reps, n, e);
    }
    Ok(true)
}

pub fn fy_independent(g: &mut G) -> Res {
    let inplace = g.bool();
    let seed = g.seed();
    g.note("in_place", &inplace);
    harness::seed(seed);
    let v = [0usize, 1, 2];
    let mut c = vec![0u64; 36];
    let reps = 20000;
    for _ in 0..reps {
        let a = rank(&shuffle(inplace, &v));
        let b = rank(&shuffle(inplace, &v));
        c[a * 6 + b] += 1;
    }
    let p = stat::chi2_p(&c, &vec![reps as f64 / 36.; 36]);
    ensure!(p >= P_REJECT, "two successive shuffles are not independent (p = {:e}): {:?}", p, c);
    Ok(true)
}
