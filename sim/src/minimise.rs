//! Shrinks a failing choice sequence while the same violation class persists.

use std::time::Instant;

/// `test` returns the recorded choices if the candidate fails in the same class.
pub fn minimise(
    start: Vec<u32>,
    deadline: Instant,
    mut test: impl FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    let mut best = start;
    let simpler = |a: &[u32], b: &[u32]| (a.len(), a) < (b.len(), b);
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size);
            loop {
                if Instant::now() >= deadline {
                    return best;
                }
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if let Some(r) = test(&c) {
                        if simpler(&r, &best) {
                            best = r;
                            progress = true;
                        }
                    } else if size > 1 {
                        let mut c = best.clone();
                        c[i..i + size].iter_mut().for_each(|v| *v = 0);
                        if c != best {
                            if let Some(r) = test(&c) {
                                if simpler(&r, &best) {
                                    best = r;
                                    progress = true;
                                }
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i -= 1.max(size / 2).min(i);
            }
        }
        let mut i = 0;
        while i < best.len() {
            if Instant::now() >= deadline {
                return best;
            }
            let v = best[i];
            for cand in [0, v / 2, v.saturating_sub(1)] {
                if cand >= v {
                    continue;
                }
                let mut c = best.clone();
                c[i] = cand;
                if let Some(r) = test(&c) {
                    if simpler(&r, &best) {
                        best = r;
                        progress = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}
