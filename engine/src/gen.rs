//! The generator.  A case is the list of bounded integers ("choices") a check draws while it builds
//! its input; generation, shrinking and replay all work on that list.
use crate::literals::literals;
use std::fmt::Debug;

#[derive(Clone)]
pub struct SplitMix(pub u64);

impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &p in parts {
        let mut s = SplitMix(h ^ p);
        h = s.next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct G {
    rng: SplitMix,
    script: Option<Vec<u64>>,
    pub choices: Vec<u64>,
    pub notes: Vec<(String, String)>,
    pub recording: bool,
    pub tier_thorough: bool,
    /// Factor on the upper bound of `dim`, set by the sections of large cases.
    pub boost: usize,
    /// Upper bound of `rows`, set by the sections of many rows (0: `rows` is `dim`).
    pub rows_max: usize,
    /// Sizes are at most this much above their lower bounds (set in interpreted runs, which are slow).
    pub cap: usize,
}

impl G {
    pub fn fresh(seed: u64, thorough: bool) -> G {
        G {
            rng: SplitMix(seed),
            script: None,
            choices: Vec::new(),
            notes: Vec::new(),
            recording: false,
            tier_thorough: thorough,
            boost: 1,
            rows_max: 0,
            cap: usize::MAX,
        }
    }
    pub fn scripted(script: Vec<u64>, recording: bool, thorough: bool) -> G {
        G {
            rng: SplitMix(0),
            script: Some(script),
            choices: Vec::new(),
            notes: Vec::new(),
            recording,
            tier_thorough: thorough,
            boost: 1,
            rows_max: 0,
            cap: usize::MAX,
        }
    }

    /// A choice in 0..n.  Smaller is simpler: the shrinker drives choices towards 0.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match self.script {
            Some(ref s) => s.get(self.choices.len()).cloned().unwrap_or(0).min(n - 1),
            None => {
                if n == u64::MAX {
                    self.rng.next() >> 1
                } else {
                    ((self.rng.next() as u128 * n as u128) >> 64) as u64
                }
            }
        };
        self.choices.push(v);
        v
    }
    /// Uniform integer in lo..=hi, simplest at lo.
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.draw((hi - lo) as u64 + 1) as usize
    }
    /// Integer in lo..=hi biased to the low end, with the top end reached regularly.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        let span = (hi - lo).min(self.cap);
        let hi = lo + span;
        match self.draw(66) / 16 {
            0 => self.int(lo, lo + span.min(3)),
            1 => self.int(lo, lo + (span + 1) / 2),
            4 => self.lit_size(lo, hi),
            _ => self.int(lo, hi),
        }
    }
    /// A size of the data: as `size`, or beyond hi in the sections of large cases.
    pub fn dim(&mut self, lo: usize, hi: usize) -> usize {
        if self.boost == 1 || self.cap < usize::MAX {
            return self.size(lo, hi);
        }
        match self.draw(4) {
            0 => self.int(lo, hi),
            1 => self.int(hi, hi * 2),
            _ => self.int(hi, hi * self.boost),
        }
    }
    /// A number of rows: as `dim`, or up to `rows_max` in the sections of many rows, there with
    /// every magnitude equally often and some of the sizes at which blocks and counters end.
    pub fn rows(&mut self, lo: usize, hi: usize) -> usize {
        if self.rows_max <= hi || self.cap < usize::MAX {
            return self.dim(lo, hi);
        }
        if self.draw(4) == 0 {
            return self.size(lo, hi);
        }
        let span = (self.rows_max as f64 / hi as f64).ln();
        let n = (hi as f64 * (span * self.unit()).exp()) as usize;
        let n = if self.draw(4) == 3 {
            let p = n.next_power_of_two() >> self.draw(2);
            p + self.draw(3) as usize - 1
        } else {
            n
        };
        let n = n.max(lo).min(self.rows_max);
        if n > 16 * hi {
            // one size of a case is of another magnitude, the others only now and then
            self.rows_max = if self.draw(4) == 3 { self.rows_max / 4 } else { 0 };
        }
        n
    }
    pub fn sint(&mut self, lo: i64, hi: i64) -> i64 {
        // simplest at 0 (or the bound nearest to it)
        let n = (hi - lo) as u64 + 1;
        let d = self.draw(n) as i64;
        let base = 0i64.max(lo).min(hi);
        let v = base + d;
        if v <= hi {
            v
        } else {
            base - (v - hi)
        }
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True with probability num/den; simplest is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Uniform in [0,1) with full precision.
    pub fn unit(&mut self) -> f64 {
        self.draw(1 << 53) as f64 / (1u64 << 53) as f64
    }
    /// A float in [lo, hi]: an integer, a dyadic fraction or an arbitrary point of the interval.
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        let v = match self.draw(66) / 16 {
            4 => self.lit(lo, hi),
            0 if hi.floor() >= lo.ceil() => self.sint(lo.ceil() as i64, hi.floor() as i64) as f64,
            1 if (hi * 8.).floor() >= (lo * 8.).ceil() => self.sint((lo * 8.).ceil() as i64, (hi * 8.).floor() as i64) as f64 / 8.,
            _ => lo + (hi - lo) * self.unit(),
        };
        v.max(lo).min(hi)
    }
    /// A number in lo..=hi next to one that is written in the sources under test; any number if there is none.
    pub fn lit_size(&mut self, lo: usize, hi: usize) -> usize {
        match self.dict_size(lo, hi) {
            Some(v) => v,
            None => self.int(lo, hi),
        }
    }
    /// A number in lo..=hi next to one that is written in the sources under test, if there is one.
    pub fn dict_size(&mut self, lo: usize, hi: usize) -> Option<usize> {
        let l = &literals().ints;
        for _ in 0..8 {
            if l.is_empty() {
                break;
            }
            let v = *self.pick(l) as u128;
            let v = match self.draw(8) {
                0..=2 => v,
                3 => v + 1,
                4 => v.saturating_sub(1),
                5 => 2 * v,
                6 => v / 2,
                _ => v * self.draw(9) as u128,
            };
            if v >= lo as u128 && v <= hi as u128 {
                return Some(v as usize);
            }
        }
        None
    }
    /// A point of the interval next to a number that is written in the sources under test, or to a simple function of one; any
    /// point if there is none.
    pub fn lit(&mut self, lo: f64, hi: f64) -> f64 {
        let l = &literals().floats;
        for _ in 0..4 {
            if l.is_empty() {
                break;
            }
            let v = *self.pick(l);
            let v = match self.draw(16) {
                8 => 2. * v,
                9 => v / 2.,
                10 => 1. / v,
                11 => v.sqrt(),
                12 => v.ln(),
                13 => v.exp(),
                14 => v * v,
                15 => v + 1.,
                _ => v,
            };
            let v = if self.bool() { -v } else { v };
            let v = match self.draw(8) {
                5 => v * (1. + f64::EPSILON),
                6 => v * (1. - f64::EPSILON),
                7 => v * (1. + 0.01 * (self.unit() - 0.5)),
                _ => v,
            };
            if v >= lo && v <= hi {
                return v;
            }
        }
        lo + (hi - lo) * self.unit()
    }
    /// Arbitrary precision point of the interval (no ties).
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// A positive scale, log-uniform in [10^a, 10^b]; simplest 1 when in range.
    pub fn scale(&mut self, a: f64, b: f64) -> f64 {
        match self.draw(66) / 16 {
            0 if a <= 0. && b >= 0. => 1.,
            4 => self.lit(10f64.powf(a), 10f64.powf(b)),
            _ => 10f64.powf(self.uni(a, b)),
        }
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1. - self.unit();
        let v = self.unit();
        (-2. * u.ln()).sqrt() * (2. * std::f64::consts::PI * v).cos()
    }
    pub fn vec<T, F: FnMut(&mut G) -> T>(&mut self, n: usize, mut f: F) -> Vec<T> {
        (0..n).map(|_| f(self)).collect()
    }
    pub fn fs(&mut self, n: usize, lo: f64, hi: f64) -> Vec<f64> {
        (0..n).map(|_| self.f(lo, hi)).collect()
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 1..n {
            // choice 0 keeps the element where it is
            let j = self.int(0, i);
            p.swap(i, i - j);
        }
        p
    }
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 32)
    }
    pub fn note<T: Debug + ?Sized>(&mut self, name: &str, v: &T) {
        if self.recording {
            let mut s = format!("{:?}", v);
            if s.len() > 4000 {
                let mut k = 4000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.notes.push((name.to_string(), s));
        }
    }
}
