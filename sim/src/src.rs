//! The single source of every choice of a simulated run.
//!
//! A run is a pure function of the code and of the sequence of numbers drawn here. The numbers
//! come from a PRNG seeded by (VERIF_SEED, property, run index), or, on replay, from a recorded
//! list; draws beyond the end of the list return 0, which is the simplest choice everywhere
//! (no fault, smallest document, end of the program).

pub struct Src {
    state: [u64; 4],
    replay: Option<Vec<u64>>,
    pub log: Vec<u64>,
    /// Where choices are also recorded as they are made, for runs which do not end.
    pub tee: Option<std::fs::File>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn seeded(seed: u64, prop: &str, run: u64) -> Self {
        let mut x = seed ^ 0x5E2D_E2E5;
        for b in prop.bytes() {
            x = x.rotate_left(7) ^ u64::from(b);
            splitmix(&mut x);
        }
        x ^= run.wrapping_mul(0xD1342543DE82EF95);
        let state = [
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ];
        Self {
            state,
            replay: None,
            log: Vec::new(),
            tee: None,
        }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Self {
            state: [1, 2, 3, 4],
            replay: Some(choices),
            log: Vec::new(),
            tee: None,
        }
    }

    fn next(&mut self) -> u64 {
        // xoshiro256**
        let s = &mut self.state;
        let res = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        res
    }

    /// Draws a number below `n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(list) => list.get(self.log.len()).copied().unwrap_or(0) % n,
            None => ((u128::from(self.next()) * u128::from(n)) >> 64) as u64,
        };
        self.log.push(v);
        if let Some(tee) = &mut self.tee {
            let _ = std::io::Write::write_all(tee, &v.to_le_bytes());
        }
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// Draws a number in `lo..=hi`, `lo` being the simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// Returns `true` with probability `num / den`; `false` is the simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T: ?Sized>(&mut self, items: &[&'a T]) -> &'a T {
        items[self.below(items.len())]
    }

    pub fn pick_copy<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.below(items.len())]
    }

    /// Draws an index with the given weights, index 0 being the simplest.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }

    /// Draws a size that is usually small, up to `max`.
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.weighted(&[6, 3, 1]) {
            0 => max.min(3),
            1 => max.min(8),
            _ => max,
        };
        self.range(0, m)
    }

    pub fn bits(&mut self) -> u64 {
        (self.draw(1 << 32) << 32) | self.draw(1 << 32)
    }
}
