//! Choice tapes. A generated input is decoded from a tape of numbers that comes from a proptest
//! strategy; 0 always stands for the simplest choice, also past the end of the tape, so that a
//! failure can be shrunk by cutting the tape and lowering its numbers.

#[derive(Clone)]
pub struct Tape {
    data: Vec<u32>,
    pos: usize,
}

impl Tape {
    pub fn new(data: Vec<u32>) -> Self {
        Tape { data, pos: 0 }
    }

    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }

    pub fn raw(&mut self) -> u32 {
        let x = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        x
    }

    /// in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }

    /// in `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability `pct` %; false is the simple choice
    pub fn chance(&mut self, pct: u32) -> bool {
        self.below(100) >= (100 - pct.min(100)) as usize
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }

    /// index chosen with the given weights
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }

    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }

    /// seed for a `Noise`
    pub fn noise(&mut self) -> Noise {
        let x = self.raw();
        Noise::new(x as u64)
    }
}

/// Small generator derived from one number of the tape, for details that need no shrinking of their
/// own; seed 0 makes the simplest choice everywhere.
#[derive(Clone, Debug)]
pub struct Noise {
    zero: bool,
    s: u64,
}

impl Noise {
    pub fn new(seed: u64) -> Self {
        Noise {
            zero: seed == 0,
            s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03,
        }
    }

    pub fn next(&mut self) -> u64 {
        if self.zero {
            return 0;
        }
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as usize
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, pct: u32) -> bool {
        self.below(100) >= (100 - pct.min(100)) as usize
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        if self.zero {
            return;
        }
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }

    pub fn fork(&mut self) -> Noise {
        let z = self.next();
        Noise {
            zero: self.zero,
            s: z,
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
