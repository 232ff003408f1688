//! C07: normalization settles, preserves meaning, and agrees with its own checks.

use super::c04::judge;
use crate::ctx::{guarded, no_panic, vio, Ctx, Res};
use crate::env::sink::{Plan, Sink};
use crate::gen::{self, Swarm};
use crate::kinds::Sp;
use crate::model::grammar::{self as g, Kind};
use crate::model::normalize::{self as nm, Mode};
use crate::model::pct;
use crate::render::switch;
use crate::{ensure, ensure_eq};
use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::fmt::Write;

pub fn run(c: &mut Ctx) -> Res {
    if c.below(2) == 0 {
        passes::<UriSpec>(c)
    } else {
        passes::<IriSpec>(c)
    }
}

fn passes<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let kind = if c.chance(1, 3) { Kind::Abs } else { Kind::Full };
    let mut text = gen::ident(c, sw, S::IRI, kind);
    let n = 1 + c.below(4);
    let mut last: Option<Mode> = None;
    for _ in 0..n {
        text = match kind {
            Kind::Abs => pass_abs::<S>(c, &text, &mut last)?,
            _ => pass_full::<S>(c, &text, &mut last)?,
        };
    }
    Ok(())
}

/// The text with everything decoded which may be decoded without changing its meaning,
/// i.e. what two equivalent texts have in common (dot segments aside).
fn reserved_signature(s: &str) -> Vec<String> {
    // Reserved characters, raw and encoded, in order.
    let p = g::split(s);
    let mut out = Vec::new();
    for comp in [p.authority, p.query, p.fragment].into_iter().flatten() {
        let b = comp.as_bytes();
        let mut sig = String::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' {
                let v = pct::hexval(b[i + 1]).unwrap_or(0) * 16 + pct::hexval(b[i + 2]).unwrap_or(0);
                let ch = v as char;
                if g::is_gendelim(ch) || g::is_subdelim(ch) || ch == '%' {
                    sig.push_str(&format!("<{ch}>"));
                }
                i += 3;
            } else {
                let ch = b[i] as char;
                if g::is_gendelim(ch) || g::is_subdelim(ch) {
                    sig.push(ch);
                }
                i += 1;
            }
        }
        out.push(sig);
    }
    out
}

macro_rules! pass {
    ($name:ident, $ty:ident, $oty:ident, $kind:expr) => {
        fn $name<S: Sp>(c: &mut Ctx, text: &str, last: &mut Option<Mode>) -> Res<String> {
            let Ok(v) = $ty::<S>::new(text) else {
                return vio("ill-formed result", format!("{text:?} is not a valid {:?} any more", $kind));
            };
            let keep = c.chance(1, 2);
            let t = if keep { v.normalize_but_preserve_authorityless_relative_path() } else { v.normalize() };
            let (t, sw) = switch::<S, _>(c, t);
            let mode = match sw {
                None if keep => Mode::Preserve,
                None => Mode::Default,
                Some(true) => Mode::Default,
                Some(false) => Mode::Preserve,
            };
            c.op(if mode == Mode::Default { "normalize" } else { "normalize preserving" });
            let (full, ok) = nm::normalize_str(S::IRI, mode, text);
            let what = format!("{text:?} as {:?} ({mode:?})", $kind);
            c.note(|| format!("normalize {what}: expected {full:?}, representable={ok}"));
            if !ok {
                c.probe("not_representable");
            }
            if full == text {
                c.probe("already_normalized");
            }
            if c.chance(1, 3) {
                let mut s = Sink::new(Plan::draw(&mut c.src, full.len()));
                let r = guarded("normalization", || write!(s, "{t}"))?;
                judge(c, &what, &full, &s, &r)?;
            }
            let got = no_panic("normalization", || t.to_string())?;
            ensure_eq!(got, full, "wrong normal form", "normalizing {what}");
            let route = c.below(2);
            let d = no_panic("normalization", || match route {
                0 => t.to_dedicated_string(),
                _ => $oty::<S>::from(&t),
            })?;
            ensure_eq!(d.as_str(), full.as_str(), "wrong normal form", "normalizing {what} into a typed string");
            ensure!(g::valid(S::IRI, $kind, d.as_str()), "ill-formed result", "normalizing {what} gave {full:?}");
            let flag = no_panic("ensure_rfc3986_normalizable", || t.ensure_rfc3986_normalizable().is_ok())?;
            ensure_eq!(flag, ok, "representability flag", "ensure_rfc3986_normalizable of the task for {what}");
            let d = no_panic("normalization", || $oty::<S>::from(t))?;
            ensure_eq!(d.as_str(), full.as_str(), "wrong normal form", "normalizing {what} into a typed string");
            // Same mode again: nothing changes.
            if *last == Some(mode) {
                ensure_eq!(full.as_str(), text, "not idempotent", "second pass over {what}");
            }
            *last = Some(mode);
            // Independent of the model: reserved characters stay as they are. The port
            // delimiter is the one exception.
            let (mut a, mut b) = (reserved_signature(text), reserved_signature(&full));
            if let Some(au) = g::split(text).authority {
                if g::split_auth(&au).port.as_deref() == Some("") {
                    a[0].pop();
                }
            }
            ensure_eq!(b, a, "reserved character changed", "reserved characters of {what}, result {full:?}");
            a.clear();
            b.clear();
            // The checks about the text itself.
            let (df, dok) = nm::normalize_str(S::IRI, Mode::Default, text);
            let (pf, _) = nm::normalize_str(S::IRI, Mode::Preserve, text);
            let q = no_panic("is_normalized", || v.is_normalized())?;
            ensure_eq!(q, df == text, "is_normalized", "of {text:?}, whose normal form is {df:?}");
            let q = no_panic("is_normalized_rfc3986", || v.is_normalized_rfc3986())?;
            ensure_eq!(q, dok && df == text, "is_normalized_rfc3986", "of {text:?}, normal form {df:?}, representable={dok}");
            let q = no_panic("is_normalized_but_...", || v.is_normalized_but_authorityless_relative_path_preserved())?;
            ensure_eq!(q, pf == text, "is_normalized_but_authorityless_relative_path_preserved", "of {text:?}, whose normal form is {pf:?}");
            let q = no_panic("ensure_rfc3986_normalizable", || v.ensure_rfc3986_normalizable().is_ok())?;
            ensure_eq!(q, dok, "representability flag", "ensure_rfc3986_normalizable of {text:?}");
            Ok(full)
        }
    };
}
pass!(pass_full, RiStr, RiString, Kind::Full);
pass!(pass_abs, RiAbsoluteStr, RiAbsoluteString, Kind::Abs);
