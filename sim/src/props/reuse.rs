//! Part of C17: what a text gives does not depend on what lay in the same memory before.
//!
//! A program that keeps one buffer and reads one text after the other into it shares that
//! memory between all the values it has borrowed from it, one at a time. Whatever the
//! library observes about a text there has to be what it observes about the same text in
//! memory of its own.

use crate::ctx::{no_panic, Ctx, Res};
use crate::ensure_eq;
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::grammar::{self as g, Kind};
use iri_string::build::Builder;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::VarName;
use iri_string::template::simple_context::SimpleContext;
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use iri_string::validate;
use std::fmt::Write;

pub fn run(c: &mut Ctx) -> Res {
    if c.below(2) == 0 {
        reused::<UriSpec>(c)
    } else {
        reused::<IriSpec>(c)
    }
}

/// Another text, most often of the same length.
fn next(c: &mut Ctx, sw: Swarm, iri: bool, old: &str) -> String {
    const SAME: &[&str] = &["a", "A", "f", "F", "0", "2", ".", "/", ":", "?", "#", "%", "@", "-", "~", "{", "}", "+", ",", "*", "[", "]"];
    if c.chance(1, 8) {
        let kind = *c.pick(&g::KINDS);
        return gen::near(c, sw, iri, kind);
    }
    let mut b: Vec<char> = old.chars().collect();
    if b.is_empty() {
        return c.pick(SAME).to_string();
    }
    match c.below(6) {
        // The case of one letter, of all letters.
        0 | 1 => {
            let from = c.below(b.len() as u32) as usize;
            if let Some(x) = (from..b.len()).chain(0..from).find(|&i| b[i].is_ascii_alphabetic()) {
                b[x] = if b[x].is_ascii_lowercase() { b[x].to_ascii_uppercase() } else { b[x].to_ascii_lowercase() };
            }
        }
        2 => return if c.below(2) == 0 { old.to_ascii_uppercase() } else { old.to_ascii_lowercase() },
        // Two characters exchanged.
        3 => {
            let (x, y) = (c.below(b.len() as u32) as usize, c.below(b.len() as u32) as usize);
            b.swap(x, y);
        }
        // One ASCII character replaced.
        4 => {
            let from = c.below(b.len() as u32) as usize;
            if let Some(x) = (from..b.len()).chain(0..from).find(|&i| b[i].is_ascii()) {
                b[x] = c.pick(SAME).chars().next().unwrap();
            }
        }
        _ => return gen::related(c, old),
    }
    b.into_iter().collect()
}

fn reused<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    c.op("reused memory");
    let base = gen::ident(c, sw, S::IRI, Kind::Abs);
    let mut text = match c.below(4) {
        0 => gt::valid(c),
        1 => gt::value_text(c),
        _ => {
            let kind = *c.pick(&g::KINDS);
            gen::near(c, sw, S::IRI, kind)
        }
    };
    let mut texts = vec![text.clone()];
    for _ in 0..1 + c.below(3) {
        text = next(c, sw, S::IRI, &text);
        texts.push(text.clone());
    }
    // First every text in memory of its own, then one after the other in the same memory,
    // a little of each or all of each at a time.
    let own = no_panic("reused memory", || texts.iter().map(|t| observe::<S>(t, &base, ALL)).collect::<Vec<_>>())?;
    c.note(|| format!("texts {texts:?}: {own:?}"));
    let mut mem = String::with_capacity(512);
    let step = if c.below(2) == 0 { ALL } else { 1 };
    let mut seen = vec![vec![String::new(); PARTS]; texts.len()];
    let mut parts = ALL;
    while parts != 0 {
        let some = if step == ALL { ALL } else { parts & parts.wrapping_neg() };
        parts &= !some;
        for (k, t) in texts.iter().enumerate() {
            mem.clear();
            mem.push_str(t);
            let r = no_panic("reused memory", || observe::<S>(&mem, &base, some))?;
            for (to, from) in seen[k].iter_mut().zip(r) {
                to.push_str(&from);
            }
        }
    }
    for (k, t) in texts.iter().enumerate() {
        ensure_eq!(seen[k], own[k], "disturbed", "{t:?} in memory used for {:?} before, compared with memory of its own", &texts[..k]);
    }
    c.probe("memory_reused");
    Ok(())
}

const PARTS: usize = 12;
const ALL: u32 = (1 << PARTS) - 1;

/// What can be observed about a borrowed text, in the chosen parts.
fn observe<S: Sp>(t: &str, base: &str, parts: u32) -> Vec<String> {
    (0..PARTS)
        .map(|k| {
            let mut o = String::new();
            if parts >> k & 1 != 0 {
                part::<S>(t, base, k, &mut o);
            }
            o
        })
        .collect()
}

fn part<S: Sp>(t: &str, base: &str, k: usize, o: &mut String) {
    macro_rules! o {
        ($($x:tt)*) => { { let _ = write!(o, $($x)*); } };
    }
    macro_rules! predicates {
        ($($f:ident)*) => { $(o!("{}", validate::$f::<S>(t).is_ok() as u8);)* };
    }
    let full = RiStr::<S>::new(t);
    let abs = RiAbsoluteStr::<S>::new(t);
    let refr = RiReferenceStr::<S>::new(t);
    match k {
        0 => {
            predicates!(iri iri_reference absolute_iri relative_ref path path_segment query fragment authority host userinfo reg_name);
            o!("{}{}{}", validate::scheme(t).is_ok() as u8, validate::port(t).is_ok() as u8, VarName::new(t).is_ok() as u8);
        }
        1 => {
            if let Ok(v) = full {
                o!("{}", v.is_normalized());
            }
        }
        2 => {
            if let Ok(v) = full {
                o!("{} {}", v.is_normalized_rfc3986(), v.ensure_rfc3986_normalizable().is_ok());
            }
        }
        3 => {
            if let Ok(v) = full {
                o!("{} <{}> <{}>", v.is_normalized_but_authorityless_relative_path_preserved(), v.normalize(), v.normalize_but_preserve_authorityless_relative_path());
            }
        }
        4 => {
            if let Ok(v) = abs {
                o!("{} {} {}", v.is_normalized(), v.is_normalized_rfc3986(), v.is_normalized_but_authorityless_relative_path_preserved());
            }
        }
        5 => {
            if let Ok(v) = abs {
                let r = FixedBaseResolver::new(v);
                for x in ["", "?q", "../x", "//h/..", "x:y"] {
                    o!("<{}> ", r.resolve(RiReferenceStr::<S>::new(x).unwrap()));
                }
            }
        }
        6 => {
            if let Ok(v) = refr {
                o!("{:?} {:?} {:?} {:?} {:?} ", v.scheme_str(), v.authority_str(), v.path_str(), v.query_str(), v.fragment_str());
                if let Some(a) = v.authority_components() {
                    o!("{:?} {:?} {:?} {:?}", a.userinfo(), a.host(), a.port(), a.reg_name());
                }
            }
            if let Ok(v) = full {
                let (a, f) = v.to_absolute_and_fragment();
                o!("{:?} {:?}", a.as_str(), f.map(|f| f.as_str()));
            }
        }
        7 => {
            if let Ok(v) = refr {
                o!("<{}> {:?} ", v.mask_password(), v.to_iri().is_ok());
            }
            if let Ok(v) = IriReferenceStr::new(t) {
                o!("<{}>", v.encode_to_uri());
            }
        }
        8 => {
            if let (Ok(v), Ok(b)) = (refr, RiAbsoluteStr::<S>::new(base)) {
                let n = v.resolve_against(b);
                o!("<{n}> {} ", n.ensure_rfc3986_normalizable().is_ok());
                o!("<{}>", n.and_normalize());
            }
        }
        9 => {
            if let Ok(v) = UriTemplateStr::new(t) {
                for n in v.variables() {
                    o!("{},", n.as_str());
                }
                let mut ctx = SimpleContext::new();
                for n in ["a", "b", "x", "var", "list"] {
                    ctx.insert(n, t);
                }
                if let Ok(e) = v.expand::<S, _>(&ctx) {
                    o!("<{e}>");
                }
            }
        }
        10 => {
            let d = decode_whatwg_bytes(t.as_bytes());
            o!("{:?} {:?} ", d.to_bytes(), d.into_bytes());
            for f in d.bytes_fragments() {
                o!("{f:?}");
            }
            o!(" <{}> <{}>", PercentEncoded::<_, S>::from_path(t), PercentEncoded::<_, S>::characters(t));
        }
        _ => {
            for n in 0..2 {
                let mut b = Builder::new();
                b.host(t);
                b.path(t);
                b.query(t);
                if n == 1 {
                    b.normalize();
                }
                if let Ok(x) = b.build::<RiReferenceStr<S>>() {
                    o!("<{x}>");
                }
            }
        }
    }
}
