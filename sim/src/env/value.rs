//! Simulated streamed values: text formatted in arbitrary pieces, failing part-way.

use super::{injected_panic, sched};
use crate::rng::Source;
use std::fmt::{self, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Ok,
    /// `Display::fmt` returns an error after the pieces.
    Fail,
    Panic,
}

/// A value whose `Display` writes the given pieces.
#[derive(Clone, Debug)]
pub struct Val {
    pub pieces: Vec<String>,
    /// How each piece is written.
    pub how: Vec<u8>,
    pub end: End,
}

impl Val {
    pub fn whole(s: &str) -> Val {
        Val { pieces: vec![s.to_string()], how: vec![0], end: End::Ok }
    }
    pub fn text(&self) -> String {
        self.pieces.concat()
    }
    /// Cuts the text at arbitrary character boundaries, with empty pieces now and then.
    pub fn cut(src: &mut Source, s: &str) -> Val {
        let mut pieces = Vec::new();
        let mut how = Vec::new();
        match src.below(4) {
            0 => pieces.push(s.to_string()),
            1 => pieces.extend(s.chars().map(|c| c.to_string())),
            _ => {
                let mut cur = String::new();
                for c in s.chars() {
                    if src.below(3) == 1 {
                        pieces.push(std::mem::take(&mut cur));
                        if src.below(6) == 1 {
                            pieces.push(String::new());
                        }
                    }
                    cur.push(c);
                }
                pieces.push(cur);
                if src.below(6) == 1 {
                    pieces.push(String::new());
                }
            }
        }
        for _ in 0..pieces.len() {
            how.push(if pieces.len() > 1 { src.below(3) as u8 } else { 0 });
        }
        Val { pieces, how, end: End::Ok }
    }
}

impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (p, how) in self.pieces.iter().zip(&self.how) {
            sched::yield_point();
            match how {
                0 => f.write_str(p)?,
                1 => write!(f, "{p}")?,
                _ => {
                    for c in p.chars() {
                        f.write_char(c)?;
                    }
                }
            }
        }
        match self.end {
            End::Ok => Ok(()),
            End::Fail => Err(fmt::Error),
            End::Panic => injected_panic(),
        }
    }
}
