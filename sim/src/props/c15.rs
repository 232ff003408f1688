//! C15: percent-encoding a streamed value does not depend on how it arrives.

use super::c04::judge;
use crate::ctx::{guarded, no_panic, Ctx, Outcome, Res};
use crate::env::sink::{Plan, Sink};
use crate::env::value::{End, Val};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::pct::{self, Comp};
use crate::render::percent_encoded;
use crate::{ensure, ensure_eq};
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::{PercentEncodedForIri, PercentEncodedForUri};
use iri_string::spec::{IriSpec, UriSpec};
use std::fmt::Write;

pub fn run(c: &mut Ctx) -> Res {
    c.long_values = true;
    if c.below(2) == 0 {
        go::<UriSpec>(c)
    } else {
        go::<IriSpec>(c)
    }
}

const EDGES: &[u32] = &[
    0x7F, 0x80, 0x9F, 0xA0, 0xD7FF, 0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFEF, 0xFFF0, 0xFFFF, 0x10000, 0x1FFFD, 0x1FFFE, 0x20000,
    0x2FFFD, 0x3FFFE, 0xDFFFD, 0xDFFFE, 0xE0000, 0xE0FFF, 0xE1000, 0xEFFFD, 0xEFFFE, 0xF0000, 0xFFFFD, 0xFFFFE, 0x100000, 0x10FFFD, 0x10FFFF,
];

fn text(c: &mut Ctx) -> String {
    let mut s = String::new();
    if c.chance(1, 30) {
        // A long run of common characters and one other, as a fast path would want it.
        let common = *c.pick(&["a", "aZ0", "a-_.~", "q/", "é", "あa"]);
        let other = char::from(c.below(128) as u8);
        let set: Vec<char> = common.chars().chain([other]).collect();
        for _ in 0..1 + c.below(150) {
            s.push(*c.pick(&set));
        }
        return s;
    }
    for _ in 0..c.below(10) {
        match c.below(5) {
            0 => s.push(char::from(c.below(128) as u8)),
            1 => s.push(char::from_u32(*c.pick(EDGES)).unwrap()),
            2 => {
                let x = c.below(0x11_0000);
                s.push(char::from_u32(x).unwrap_or('%'));
            }
            _ => s.push_str(&gt::value_text(c)),
        }
    }
    s
}

fn render(how: u32, iri: bool, comp: Comp, v: &Val, s: &mut Sink) -> std::fmt::Result {
    match (how, iri) {
        (0, true) => write!(s, "{}", percent_encoded::<IriSpec, _>(comp, v)),
        (0, false) => write!(s, "{}", percent_encoded::<UriSpec, _>(comp, v)),
        // By the aliases, behind a reference.
        (_, true) => {
            let p: PercentEncodedForIri<&Val> = percent_encoded(comp, v);
            write!(s, "{}", &p)
        }
        (_, false) => {
            let p: PercentEncodedForUri<&Val> = percent_encoded(comp, v);
            write!(s, "{}", &p)
        }
    }
}

fn go<S: Sp>(c: &mut Ctx) -> Res {
    let raw = text(c);
    let comp = *c.pick(&pct::COMPS);
    let expected = pct::encode(S::IRI, comp, &raw);
    for _ in 0..1 + c.below(4) {
        let mut v = Val::cut(&mut c.src, &raw);
        c.shape(v.pieces.iter().fold(comp as u64, |a, p| a.wrapping_mul(31).wrapping_add(p.len() as u64)));
        let what = format!("{:?} for {comp:?} ({})", v.pieces, if S::IRI { "IRI" } else { "URI" });
        let how = c.below(2);
        match c.below(4) {
            0 | 1 => {
                c.op("encode");
                c.note(|| format!("encode {what}"));
                let mut s = Sink::new(Plan::Good);
                let r = no_panic("percent_encode", || render(how, S::IRI, comp, &v, &mut s))?;
                ensure!(r.is_ok(), "spurious error", "{what}");
                ensure_eq!(s.accepted, expected, "wrong encoding", "{what}");
                let out = s.accepted;
                let b = out.as_bytes();
                let mut i = 0;
                for (k, ch) in out.char_indices() {
                    if k < i {
                        continue;
                    }
                    if ch == '%' {
                        let ok = b.len() > k + 2 && [b[k + 1], b[k + 2]].iter().all(|x| x.is_ascii_digit() || (b'A'..=b'F').contains(x));
                        ensure!(ok, "character not allowed", "{what} gives {out:?} with a stray percent sign");
                        i = k + 3;
                    } else {
                        ensure!(pct::allowed(S::IRI, comp, ch), "character not allowed", "{what} gives {out:?} with {ch:?}");
                    }
                }
                let back = no_panic("decode", || decode_whatwg_bytes(b).into_string().ok())?;
                ensure_eq!(back.as_deref(), Some(raw.as_str()), "decoding does not restore", "{what} gives {out:?}");
            }
            2 => {
                c.op("encode into a failing sink");
                c.note(|| format!("encode {what} into a failing sink"));
                let mut s = Sink::new(Plan::draw(&mut c.src, expected.len()));
                let r = guarded("percent_encode", || render(how, S::IRI, comp, &v, &mut s))?;
                judge(c, &what, &expected, &s, &r)?;
            }
            _ => {
                let keep = c.below(v.pieces.len() as u32 + 1) as usize;
                v.pieces.truncate(keep);
                v.how.truncate(keep);
                let panics = c.chance(1, 4);
                v.end = if panics { End::Panic } else { End::Fail };
                c.op("encode a breaking value");
                c.fault(if panics { "value_panics" } else { "value_fails" });
                c.note(|| format!("encode {:?} which then breaks off", v.pieces));
                let mut s = Sink::new(Plan::Good);
                let r = guarded("percent_encode", || render(how, S::IRI, comp, &v, &mut s))?;
                let ok = if panics { matches!(r, Outcome::Injected) } else { matches!(r, Outcome::Done(Err(_))) };
                ensure!(ok, "failure of a value swallowed", "{what}: {r:?}");
                let part = pct::encode(S::IRI, comp, &v.text());
                if panics {
                    ensure!(part.starts_with(&s.accepted), "wrong encoding", "{what}: wrote {:?}, no prefix of {part:?}", s.accepted);
                } else {
                    ensure_eq!(s.accepted, part, "wrong encoding", "{:?} which then fails", v.pieces);
                }
            }
        }
    }
    Ok(())
}
