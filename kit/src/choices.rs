//! The one source of every generated value: a recorded sequence of bounded choices.
//! A case is a pure function of its choices, so a choice sequence replays it, shrinks it and,
//! walked like an odometer, enumerates every case of a generator.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

enum Src {
    Rng,
    Given(Vec<u32>),
    Bytes(Vec<u8>),
}
pub struct Ch {
    rng: Rng,
    src: Src,
    pos: usize,
    /// (choice, number of alternatives)
    pub rec: Vec<(u32, u32)>,
}
impl Ch {
    pub fn random(rng: Rng) -> Self {
        Ch { rng, src: Src::Rng, pos: 0, rec: Vec::with_capacity(256) }
    }
    pub fn given(v: Vec<u32>) -> Self {
        Ch { rng: Rng::new(0), src: Src::Given(v), pos: 0, rec: Vec::with_capacity(64) }
    }
    pub fn bytes(v: &[u8]) -> Self {
        Ch { rng: Rng::new(0), src: Src::Bytes(v.to_vec()), pos: 0, rec: vec![] }
    }
    /// Starts the next case of a random stream.
    pub fn again(&mut self) {
        self.rec.clear();
        self.pos = 0;
    }
    pub fn regive(&mut self, v: &[u32]) {
        self.rec.clear();
        self.pos = 0;
        self.src = Src::Given(v.to_vec());
    }
    pub fn exhausted(&self) -> bool {
        match &self.src {
            Src::Rng => false,
            Src::Given(v) => self.pos >= v.len(),
            Src::Bytes(v) => self.pos >= v.len(),
        }
    }
    /// A number below `n`. Zero is the simplest.
    pub fn pick(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = if n <= 1 {
            return 0;
        } else {
            match &self.src {
                Src::Rng => ((self.rng.next() >> 32) * n as u64 >> 32) as u32,
                Src::Given(v) => {
                    let x = v.get(self.pos).copied().unwrap_or(0);
                    self.pos += 1;
                    x % n
                }
                Src::Bytes(v) => {
                    let k = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 4 };
                    let mut x = 0u32;
                    for _ in 0..k {
                        x = x << 8 | v.get(self.pos).copied().unwrap_or(0) as u32;
                        self.pos += 1;
                    }
                    x % n
                }
            }
        };
        self.rec.push((v, n));
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.pick((hi - lo + 1) as u32) as i64
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// true with probability a/b
    pub fn chance(&mut self, a: u32, b: u32) -> bool {
        self.pick(b) >= b - a
    }
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len() as u32) as usize]
    }
    /// Index into `w` with probability proportional to the weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.pick(total);
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    pub fn u64(&mut self) -> u64 {
        // four bounded picks keep replay files in one format
        let mut x = 0;
        for _ in 0..4 {
            x = x << 16 | self.pick(65536) as u64;
        }
        x
    }
    pub fn choices(&self) -> Vec<u32> {
        self.rec.iter().map(|r| r.0).collect()
    }
}

/// The next sequence in odometer order, keeping the first `fixed` choices; None when all are done.
pub fn next_odometer(rec: &[(u32, u32)], fixed: usize) -> Option<Vec<u32>> {
    let mut i = rec.len();
    while i > fixed {
        i -= 1;
        let (v, n) = rec[i];
        if v + 1 < n {
            let mut out: Vec<u32> = rec[..i].iter().map(|r| r.0).collect();
            out.push(v + 1);
            return Some(out);
        }
    }
    None
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn odometer_covers_everything_once() {
        let gen = |c: &mut Ch| {
            let n = c.pick(4);
            (0..n).map(|_| c.pick(3)).collect::<Vec<_>>()
        };
        let mut seen = std::collections::HashSet::new();
        let mut next = Some(vec![]);
        let mut n = 0;
        while let Some(v) = next {
            let mut c = Ch::given(v);
            assert!(seen.insert(gen(&mut c)));
            n += 1;
            next = next_odometer(&c.rec, 0);
        }
        assert_eq!(n, 1 + 3 + 9 + 27);
    }
}
