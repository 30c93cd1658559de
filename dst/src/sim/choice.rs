//! The only source of nondeterminism: a sequence of bounded draws.
//!
//! Every decision of a run (schedule, fault, generated operation, delay, random byte) is a
//! draw `choose(n)`; 0 is always the simplest outcome (carry on, no fault, smallest value).
//! A run is therefore a pure function of (code, scenario, sequence of draws), the sequence
//! can be recorded, shrunk and replayed, and a seed is one exactly repeatable execution.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0x5851f42d4c957f2d) | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
}

pub struct Choices {
    rng: Option<Rng>,
    script: Vec<u32>,
    pos: usize,
    pub trace: Vec<u32>,
}

impl Choices {
    pub fn random(seed: u64) -> Choices {
        Choices { rng: Some(Rng::new(seed)), script: vec![], pos: 0, trace: vec![] }
    }
    /// Replays a script; past its end every draw is 0.
    pub fn replay(script: Vec<u32>) -> Choices {
        Choices { rng: None, script, pos: 0, trace: vec![] }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => (r.next() >> 11) % (n as u64),
            None => {
                let v = self.script.get(self.pos).copied().unwrap_or(0) as u64;
                v.min(n as u64 - 1)
            }
        };
        self.pos += 1;
        self.trace.push(v as u32);
        v as usize
    }
    /// True with probability p/1000; the draw 0 means false.
    pub fn chance(&mut self, p: u32) -> bool {
        if p == 0 {
            return false;
        }
        self.choose(1000) >= 1000usize.saturating_sub(p as usize)
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.choose(hi_incl - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// A size whose magnitude is spread out: mostly small.
    pub fn size(&mut self, max: usize) -> usize {
        let bits = (usize::BITS - max.leading_zeros()) as usize;
        let b = self.choose(bits + 1);
        let cap = if b >= bits { max } else { (1usize << b) - 1 }.min(max);
        self.choose(cap + 1)
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.choose(1 << 31) as u64;
        let b = self.choose(1 << 31) as u64;
        (a << 31) ^ b
    }
    /// Deterministic filler derived from one draw.
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let mut r = Rng::new(self.choose(1 << 30) as u64);
        let mut out = Vec::with_capacity(len + 8);
        while out.len() < len {
            out.extend_from_slice(&r.next().to_le_bytes());
        }
        out.truncate(len);
        out
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.choose(i + 1); // draw 0 = identity
            xs.swap(i, j);
        }
    }
}
