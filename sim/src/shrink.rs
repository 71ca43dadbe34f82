//! Minimisation of a failing list of choices.

use std::time::Instant;

/// Shrinks `best`. The test returns the choices actually drawn if the given ones still fail in the
/// same way.
pub fn shrink(
    mut best: Vec<u64>,
    deadline: Instant,
    test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
    improved: &mut dyn FnMut(&[u64]),
) -> Vec<u64> {
    trim(&mut best);
    let mut attempt = |best: &mut Vec<u64>, mut cand: Vec<u64>| -> bool {
        trim(&mut cand);
        if !simpler(&cand, best) {
            return false;
        }
        let Some(mut drawn) = test(&cand) else {
            return false;
        };
        trim(&mut drawn);
        *best = if simpler(&drawn, &cand) { drawn } else { cand };
        improved(best);
        true
    };
    loop {
        let before = best.clone();
        // Cut the end off
        let mut cut = best.len() / 2;
        while cut > 0 {
            if Instant::now() > deadline {
                return best;
            }
            let n = best.len();
            if cut <= n {
                let cand = best[..n - cut].to_vec();
                if attempt(&mut best, cand) {
                    continue;
                }
            }
            cut /= 2;
        }
        // Delete pieces
        for size in [64, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                if Instant::now() > deadline {
                    return best;
                }
                let lo = i.saturating_sub(size);
                if i <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(lo..i);
                    if attempt(&mut best, cand) {
                        i = i.min(best.len());
                        continue;
                    }
                }
                i = if size > 4 { lo } else { i - 1 };
            }
        }
        // Replace pieces with zeros
        for size in [8, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > deadline {
                    return best;
                }
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].fill(0);
                    attempt(&mut best, cand);
                }
                i += size;
            }
        }
        // Reduce single choices
        let mut i = 0;
        while i < best.len() {
            if Instant::now() > deadline {
                return best;
            }
            let v = best[i];
            for to in [1, v / 2, v.saturating_sub(1)] {
                if i < best.len() && to < best[i] {
                    let mut cand = best.clone();
                    cand[i] = to;
                    attempt(&mut best, cand);
                }
            }
            i += 1;
        }
        // Delete a choice and lower one before it (such as the count of what it was part of)
        let mut i = 1;
        while i < best.len() && best.len() < 200 {
            if Instant::now() > deadline {
                return best;
            }
            for size in [1, 2, 4] {
                for back in 1..=4usize {
                    if i + size <= best.len() && i >= back && best[i - back] > 0 {
                        let mut cand = best.clone();
                        cand[i - back] -= 1;
                        cand.drain(i..i + size);
                        attempt(&mut best, cand);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

fn trim(v: &mut Vec<u64>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a.iter().map(|x| u128::from(*x)).sum::<u128>(), a)
        < (b.len(), b.iter().map(|x| u128::from(*x)).sum::<u128>(), b)
}
