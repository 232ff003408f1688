//! Simulated output device.

use super::{alloc, injected_panic, sched};
use crate::rng::Source;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Plan {
    /// Accepts everything.
    Good,
    /// The nth non-empty write fails and so does everything afterwards.
    FailAt(u32),
    /// The nth non-empty write fails after accepting some bytes of it.
    PartialAt(u32, u32),
    /// The device is full after this many bytes; `partial` if it takes what fits.
    Capacity(u32, bool),
    /// The nth write fails; later ones would succeed.
    TransientAt(u32),
    /// The nth write panics.
    PanicAt(u32),
}

impl Plan {
    pub fn name(self) -> &'static str {
        match self {
            Plan::Good => "sink_good",
            Plan::FailAt(_) => "sink_fail_at_write",
            Plan::PartialAt(..) => "sink_partial_write",
            Plan::Capacity(_, true) => "sink_full_partial",
            Plan::Capacity(_, false) => "sink_full",
            Plan::TransientAt(_) => "sink_transient_error",
            Plan::PanicAt(_) => "sink_panic",
        }
    }
    pub fn draw(src: &mut Source, full_len: usize) -> Plan {
        let n = (full_len as u32).min(40) + 2;
        match src.below(7) {
            0 => Plan::Good,
            1 => Plan::FailAt(src.below(n.min(12))),
            2 => Plan::PartialAt(src.below(n.min(12)), src.below(6)),
            3 => Plan::Capacity(src.below(n), true),
            4 => Plan::Capacity(src.below(n), false),
            5 => Plan::TransientAt(src.below(n.min(12))),
            _ => Plan::PanicAt(src.below(n.min(12))),
        }
    }
}

#[derive(Debug)]
pub struct Sink {
    pub plan: Plan,
    pub accepted: String,
    /// Everything offered until the error, including what the failing write held.
    pub offered: String,
    /// Non-empty writes offered.
    pub writes: u32,
    /// The device has reported an error.
    pub failed: bool,
    /// Text offered after the device had reported an error.
    pub offered_after_error: String,
    pub writes_after_error: u32,
}

impl Sink {
    pub fn new(plan: Plan) -> Self {
        Sink {
            plan,
            accepted: String::new(),
            offered: String::new(),
            writes: 0,
            failed: false,
            offered_after_error: String::new(),
            writes_after_error: 0,
        }
    }

    fn floor(s: &str, mut n: usize) -> usize {
        n = n.min(s.len());
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        n
    }

    fn write(&mut self, s: &str) -> fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        if self.failed {
            self.writes_after_error += 1;
            self.offered_after_error.push_str(s);
            if !matches!(self.plan, Plan::TransientAt(_)) {
                return Err(fmt::Error);
            }
            self.accepted.push_str(s);
            return Ok(());
        }
        let i = self.writes;
        self.writes += 1;
        self.offered.push_str(s);
        match self.plan {
            Plan::Good => {}
            Plan::FailAt(n) | Plan::TransientAt(n) => {
                if i == n {
                    self.failed = true;
                    return Err(fmt::Error);
                }
            }
            Plan::PartialAt(n, k) => {
                if i == n {
                    let k = Self::floor(s, k as usize);
                    self.accepted.push_str(&s[..k]);
                    self.failed = true;
                    return Err(fmt::Error);
                }
            }
            Plan::Capacity(c, partial) => {
                let room = (c as usize).saturating_sub(self.accepted.len());
                if s.len() > room {
                    if partial {
                        let k = Self::floor(s, room);
                        self.accepted.push_str(&s[..k]);
                    }
                    self.failed = true;
                    return Err(fmt::Error);
                }
            }
            Plan::PanicAt(n) => {
                if i == n {
                    self.failed = true;
                    injected_panic();
                }
            }
        }
        self.accepted.push_str(s);
        Ok(())
    }
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        sched::yield_point();
        alloc::suspended(|| self.write(s))
    }
}
