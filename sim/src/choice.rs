//! The stream of decisions. Everything the simulator decides goes through
//! `choose`; the values drawn are kept in memory shared with the parent process
//! so that they survive whatever happens to the run.

use crate::sys;

pub const MAX_CHOICES: usize = 1 << 22;

pub struct Choices {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    buf: *mut u64, // buf[0] = count, then values
}

static mut CH: Option<Choices> = None;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn run_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(verif_seed ^ hash_str(prop)).wrapping_add(mix(idx)))
}

pub fn alloc_buf() -> *mut u64 {
    sys::shared((MAX_CHOICES + 1) * 8) as *mut u64
}

pub fn start(seed: u64, replay: Option<Vec<u64>>, buf: *mut u64) {
    unsafe {
        *buf = 0;
        let ch = &mut *std::ptr::addr_of_mut!(CH);
        *ch = Some(Choices { state: seed, replay, pos: 0, buf });
    }
}

pub fn recorded(buf: *const u64) -> Vec<u64> {
    unsafe {
        let n = (*buf as usize).min(MAX_CHOICES);
        std::slice::from_raw_parts(buf.add(1), n).to_vec()
    }
}

fn ch() -> &'static mut Choices {
    unsafe { (*std::ptr::addr_of_mut!(CH)).as_mut().expect("choices not started") }
}

/// A decision among `n` alternatives; 0 is the simplest one.
pub fn choose(n: usize) -> usize {
    choose64(n as u64) as usize
}

pub fn choose64(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let c = ch();
    let v = match &c.replay {
        Some(list) => list.get(c.pos).copied().unwrap_or(0).min(n - 1),
        None => {
            c.state = c.state.wrapping_add(0x9E3779B97F4A7C15);
            let r = mix(c.state);
            ((r as u128 * n as u128) >> 64) as u64
        }
    };
    c.pos += 1;
    unsafe {
        let k = *c.buf as usize;
        if k >= MAX_CHOICES {
            return 0;
        }
        *c.buf.add(1 + k) = v;
        *c.buf = (k + 1) as u64;
    }
    v
}

/// True once a replayed list is used up: from there on nothing more happens.
pub fn exhausted() -> bool {
    let c = ch();
    matches!(&c.replay, Some(l) if c.pos >= l.len())
}

pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}

/// True with probability num/den; the simple outcome is false.
pub fn chance(num: usize, den: usize) -> bool {
    choose(den) >= den - num
}

/// A number of threads: usually between the two, sometimes many.
pub fn crew(lo: usize, hi: usize) -> usize {
    if chance(1, 40) {
        range(5, 36)
    } else {
        range(lo, hi)
    }
}

pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}

/// Data generator derived from one decision; used for bulk values.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn drawn() -> Rng {
        Rng(choose64(1 << 32))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// in [-1, 1]
    pub fn sym(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}
