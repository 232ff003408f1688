//! The single source of every decision of a run.

use std::io::Write;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

enum Mode {
    Random(u64),
    Replay(Vec<u32>),
}

pub struct Source {
    mode: Mode,
    pos: usize,
    rec: Vec<u32>,
    /// Written choice by choice, so that it survives an abort of the process.
    stream: Option<std::fs::File>,
    pub limit: usize,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { mode: Mode::Random(seed), pos: 0, rec: Vec::with_capacity(256), stream: None, limit: 200_000 }
    }
    pub fn replay(c: Vec<u32>) -> Self {
        Source { mode: Mode::Replay(c), pos: 0, rec: Vec::with_capacity(256), stream: None, limit: 200_000 }
    }
    pub fn stream_to(&mut self, f: std::fs::File) {
        self.stream = Some(f);
    }
    /// A number below `n`. Zero is always the simplest choice.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let z = mix(*s);
                ((z >> 32) % n as u64) as u32
            }
            Mode::Replay(c) => c.get(self.pos).map_or(0, |v| v % n),
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.stream {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v
    }
    pub fn recorded(&self) -> &[u32] {
        &self.rec
    }
    pub fn into_recorded(self) -> Vec<u32> {
        self.rec
    }
}
