//! `rand` 0.4.6 re-exported unchanged, except that the generators which the operating system would
//! seed (`thread_rng`, `random`, `weak_rng`) draw from a thread-local stream that a test can seed,
//! so that every failing case can be replayed.
pub use real_rand::distributions;
pub use real_rand::{chacha, isaac, jitter, os, read, reseeding, seq};
pub use real_rand::{
    AsciiGenerator, ChaChaRng, Closed01, Generator, Isaac64Rng, IsaacRng, JitterRng, Open01, OsRng, Rand, Rng,
    SeedableRng, StdRng, XorShiftRng,
};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

thread_local! {
    static STATE: Cell<u64> = Cell::new(0x9E3779B97F4A7C15);
    static DRAWS: Cell<u64> = Cell::new(0);
    static ROUGH: Cell<u64> = Cell::new(0);
    static FUSE: Cell<u64> = Cell::new(0);
}

/// Control of the thread-local stream (only the harness uses this).
pub mod harness {
    /// Restart this thread's stream from `seed`.
    pub fn seed(seed: u64) {
        super::STATE.with(|s| s.set(seed.wrapping_mul(0xD1342543DE82EF95) ^ 0x2545F4914F6CDD1D));
        super::DRAWS.with(|s| s.set(0));
        super::ROUGH.with(|s| s.set(0));
        super::FUSE.with(|s| s.set(0));
    }
    /// Until the next seed, the word after `n` more of them is a panic that says so.
    pub fn fuse(n: u64) {
        super::FUSE.with(|s| s.set(super::DRAWS.with(|d| d.get()) + n + 1));
    }
    /// Until the next seed, five in `n` words have many leading or trailing zeros or ones.
    pub fn rough(n: u64) {
        super::ROUGH.with(|s| s.set(n));
    }
    /// Whether the words are as they come.
    pub fn is_smooth() -> bool {
        super::ROUGH.with(|s| s.get()) == 0
    }
    /// Words drawn from the stream since it was last seeded.
    pub fn draws() -> u64 {
        super::DRAWS.with(|s| s.get())
    }
}

fn next() -> u64 {
    let w = word();
    let rough = ROUGH.with(|r| r.get());
    if rough == 0 {
        return w;
    }
    let c = (w ^ 0x5851F42D4C957F2D).wrapping_mul(0xD1342543DE82EF95) >> 20;
    let sh = (c >> 20) % 64;
    match c % rough {
        0 => w >> sh,
        1 => !(w >> sh),
        2 => (w >> sh) << 8,
        3 => !(w << sh),
        4 => w & !0xffff_ffff,
        _ => w,
    }
}
fn word() -> u64 {
    let d = DRAWS.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    if FUSE.with(|f| f.get()) == d {
        panic!("enough random words for the harness");
    }
    STATE.with(|s| {
        let z = s.get().wrapping_add(0x9E3779B97F4A7C15);
        s.set(z);
        let mut z = z;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}

/// The harness-seeded thread-local generator.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: Rc<RefCell<()>>,
}

pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: Rc::new(RefCell::new(())) }
}

impl Rng for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        next()
    }
}

pub fn random<T: Rand>() -> T {
    thread_rng().gen()
}

pub fn weak_rng() -> XorShiftRng {
    thread_rng().gen()
}

pub fn sample<T, I, R>(rng: &mut R, iterable: I, amount: usize) -> Vec<T>
where
    I: IntoIterator<Item = T>,
    R: Rng,
{
    let mut iter = iterable.into_iter();
    let mut reservoir: Vec<T> = iter.by_ref().take(amount).collect();
    if reservoir.len() == amount {
        for (i, elem) in iter.enumerate() {
            let k = rng.gen_range(0, i + 1 + amount);
            if let Some(spot) = reservoir.get_mut(k) {
                *spot = elem;
            }
        }
    }
    reservoir
}
