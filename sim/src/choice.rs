//! Every choice of a run comes from here: one integer (the run's seed)
//! decides everything, and the recorded sequence of choices replays it.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub rec: Vec<u32>,
    /// Choices written out as they are drawn
    pub tee: Option<std::fs::File>,
}

impl Src {
    pub fn seeded(seed: u64) -> Self {
        Src { state: seed, replay: None, pos: 0, rec: Vec::new(), tee: None }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { state: 0, replay: Some(choices), pos: 0, rec: Vec::new(), tee: None }
    }
    /// A choice in 0..n; 0 is always the simplest one
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u32;
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v < n { v } else { v % n }
            }
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                ((mix(self.state) >> 32) as u32) % n
            }
        };
        self.rec.push(v);
        if let Some(f) = self.tee.as_mut() {
            use std::io::Write;
            let _ = write!(f, "{},", v);
        }
        v as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true in about 1 of n runs (0 / false is the simplest)
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1 && n > 1 || n == 1
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        let i = self.below(xs.len());
        xs[i]
    }
    pub fn used(&self) -> usize {
        self.rec.len()
    }
}
