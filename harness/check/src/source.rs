//! Choice source: every random decision of a case is one draw. A case is
//! therefore a tape of raw 32-bit draws, which is what is shrunk, stored in a
//! replay file and replayed. A draw maps 0 to the simplest choice, so smaller
//! and shorter tapes are simpler cases.

use std::io::Write;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub struct Source {
    pub tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    log: Option<std::fs::File>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), log: None }
    }

    /// Writes every draw to a file as it is made, for cases that end the process.
    pub fn logged(seed: u64, log: std::fs::File) -> Self {
        Source { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), log: Some(log) }
    }

    pub fn replay(tape: Vec<u32>) -> Self {
        Source { tape, pos: 0, rng: None, log: None }
    }

    pub fn used(&self) -> usize {
        self.pos
    }

    pub fn raw(&mut self) -> u32 {
        let v = if let Some(rng) = &mut self.rng {
            let v = rng.next() as u32;
            self.tape.push(v);
            if let Some(log) = &mut self.log {
                let _ = log.write_all(&v.to_le_bytes());
            }
            v
        } else {
            self.tape.get(self.pos).copied().unwrap_or(0)
        };
        self.pos += 1;
        v
    }

    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }

    /// Uniform in lo..=hi, shrinking towards lo.
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True in about `percent` of the draws, shrinking towards false.
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) >= 100 - percent
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    /// Index drawn by weight; earlier entries are simpler.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }

    /// Small numbers often, up to `hi` sometimes.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        match self.weighted(&[5, 4, 2]) {
            0 => self.int(lo, lo + span.min(3)),
            1 => self.int(lo, lo + span.min(span / 3 + 1)),
            _ => self.int(lo, hi),
        }
    }

    /// Whether another element follows, for lists of about `avg` elements;
    /// deleting draws from the tape then deletes elements.
    pub fn more(&mut self, len: usize, min: usize, max: usize, avg: usize) -> bool {
        if len >= max {
            return false;
        }
        if len < min {
            return true;
        }
        let avg = avg.max(1);
        self.below(avg + 1) != 0
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            // A zero draw keeps the order.
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }

    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let r = self.raw();
            for b in r.to_be_bytes() {
                if v.len() < n {
                    v.push(b);
                }
            }
        }
        v
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32));
    r.next() ^ b
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1_0000_01b3);
    }
    h ^ (h >> 29)
}
