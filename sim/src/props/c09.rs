//! C09: IRI-to-URI mapping is the same on every route and loses nothing.

use super::c04::judge;
use crate::ctx::{guarded, no_panic, vio, Ctx, Res};
use crate::env::alloc::Plan as APlan;
use crate::env::sink::{Plan, Sink};
use crate::gen::{self, Swarm};
use crate::kinds::Own;
use crate::model::grammar as g;
use crate::model::pct;
use crate::{each, each_to, ensure, ensure_eq};
use iri_string::convert::MappedToUri;
use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::fmt::Write;

/// The replaced characters, decoded again, restore the IRI.
fn undo(iri: &str, uri: &str) -> Option<()> {
    let mut u = uri;
    for ch in iri.chars() {
        if ch.is_ascii() {
            u = u.strip_prefix(ch)?;
        } else {
            let n = 3 * ch.len_utf8();
            let (t, rest) = (u.get(..n)?, u.get(n..)?);
            if pct::decode(t.as_bytes()) != ch.to_string().into_bytes() || t.contains(|c: char| c.is_ascii_lowercase()) {
                return None;
            }
            u = rest;
        }
    }
    u.is_empty().then_some(())
}

pub fn run(c: &mut Ctx) -> Res {
    let mut sw = Swarm::draw(c);
    sw.wide = sw.wide || c.chance(1, 2);
    if c.below(4) == 3 {
        return component(c, sw);
    }
    let kind = *c.pick(&g::KINDS);
    let s = gen::ident(c, sw, true, kind);
    let Some(mut own) = Own::<IriSpec>::new(kind, &s) else {
        return vio("valid text refused", format!("{s:?} as {kind:?}"));
    };
    let full = pct::iri_to_uri(&s);
    c.note(|| format!("{kind:?} {s:?}, expected URI {full:?}"));
    ensure!(undo(&s, &full).is_some(), "model", "model");
    let what = format!("{s:?}");
    if c.chance(1, 2) {
        each!(&mut own, v => v.shrink_to_fit());
    }
    for _ in 0..1 + c.below(4) {
        match c.below(7) {
            0 => {
                c.op("stream");
                let plan = Plan::draw(&mut c.src, full.len());
                let mut k = Sink::new(plan);
                let r = each!(&own, v => guarded("mapping", || write!(k, "{}", v.encode_to_uri())))?;
                judge(c, &what, &full, &k, &r)?;
                let t = each!(&own, v => no_panic("mapping", || v.encode_to_uri().to_string()))?;
                ensure_eq!(t, full, "wrong URI", "streaming {what}");
            }
            1 => {
                c.op("borrowed to owned");
                let u: Own<UriSpec> = no_panic("to_dedicated_string", || each_to!(&own, v => v.encode_to_uri().to_dedicated_string()))?;
                result(&u, &full, &what)?;
            }
            2 => {
                c.op("by value");
                let copy = own.clone();
                let u: Own<UriSpec> = no_panic("encode_into_uri", || each_to!(copy, v => v.encode_into_uri()))?;
                result(&u, &full, &what)?;
            }
            3 => {
                c.op("by value, faulty memory");
                let copy = own.clone();
                let plan = c.alloc_plan();
                let (r, l) = c.armed(plan, || {
                    no_panic("try_encode_into_uri", || {
                        let r: Result<Own<UriSpec>, ()> = (|| Ok(each_to!(copy, v => v.try_encode_into_uri().map_err(|_| ())?)))();
                        r
                    })
                });
                match r? {
                    Ok(u) => result(&u, &full, &what)?,
                    Err(()) => ensure!(l.failed > 0, "spurious failure", "{what}"),
                }
            }
            4 => {
                c.op("in place, faulty memory, then again");
                let mut copy = own.clone();
                each!(&mut copy, v => v.shrink_to_fit());
                let mut plan = c.alloc_plan();
                for _ in 0..2 {
                    let (r, _) = c.armed(plan, || no_panic("in place", || each!(&mut copy, v => v.try_encode_to_uri_inline().is_ok())));
                    if r? {
                        break;
                    }
                    c.probe("retried_after_failure");
                    plan = APlan::Never;
                }
                ensure_eq!(copy.as_str(), full.as_str(), "wrong URI", "mapping {what} in place with retry");
            }
            5 => {
                c.op("in place");
                let mut copy = own.clone();
                no_panic("encode_to_uri_inline", || each!(&mut copy, v => v.encode_to_uri_inline()))?;
                ensure_eq!(copy.as_str(), full.as_str(), "wrong URI", "mapping {what} in place");
                // A second time nothing changes.
                no_panic("encode_to_uri_inline", || each!(&mut copy, v => v.encode_to_uri_inline()))?;
                ensure_eq!(copy.as_str(), full.as_str(), "not idempotent", "mapping {what} twice");
            }
            _ => {
                c.op("no-op conversions");
                let same = each!(&own, v => v.as_uri().map(|u| u.as_str().to_string()));
                ensure_eq!(same, s.is_ascii().then(|| s.clone()), "as_uri", "of {what}");
                let m = match &own {
                    Own::Full(v) => no_panic("From", || MappedToUri::from(v).to_string())?,
                    Own::Abs(v) => no_panic("From", || MappedToUri::from(v).to_string())?,
                    Own::Ref(v) => no_panic("From", || MappedToUri::from(v).to_string())?,
                    Own::Rel(v) => no_panic("From", || MappedToUri::from(v).to_string())?,
                };
                ensure_eq!(m, full, "wrong URI", "mapping {what}");
            }
        }
        ensure_eq!(own.as_str(), s.as_str(), "source changed", "the IRI after mapping it");
    }
    Ok(())
}

fn result(u: &Own<UriSpec>, full: &str, what: &str) -> Res {
    ensure_eq!(u.as_str(), full, "wrong URI", "mapping {what}");
    ensure!(g::valid(false, u.kind(), full), "ill-formed URI", "{what} became {full:?}");
    ensure_eq!(u.parts(), g::split(full), "components moved", "components of the URI of {what}");
    Ok(())
}

fn component(c: &mut Ctx, sw: Swarm) -> Res {
    let is_query = c.chance(1, 2);
    let s = if is_query { gen::query(c, sw, true) } else { gen::fragment(c, sw, true) };
    let full = pct::iri_to_uri(&s);
    let what = format!("{s:?}");
    c.note(|| format!("query={is_query} {s:?}, expected {full:?}"));
    macro_rules! go {
        ($b:ident, $o:ident, $uri:ident) => {{
            let Ok(v) = $o::try_from(s.clone()) else { return vio("valid text refused", what) };
            c.op("stream");
            let mut k = Sink::new(Plan::draw(&mut c.src, full.len()));
            let r = guarded("mapping", || write!(k, "{}", v.encode_to_uri()))?;
            judge(c, &what, &full, &k, &r)?;
            let u: $uri = no_panic("mapping", || v.encode_to_uri().to_dedicated_string())?;
            ensure_eq!(u.as_str(), full.as_str(), "wrong URI", "mapping {what}");
            c.op("by value");
            let u: $uri = no_panic("mapping", || v.clone().encode_into_uri())?;
            ensure_eq!(u.as_str(), full.as_str(), "wrong URI", "mapping {what} by value");
            c.op("in place");
            let mut w = v.clone();
            let mut plan = c.alloc_plan();
            for _ in 0..2 {
                let (r, _) = c.armed(plan, || no_panic("in place", || w.try_encode_to_uri_inline().is_ok()));
                if r? {
                    break;
                }
                plan = APlan::Never;
            }
            ensure_eq!(w.as_str(), full.as_str(), "wrong URI", "mapping {what} in place with retry");
            ensure_eq!($b::new(&s).ok().and_then(|v| v.as_uri()).map(|u| u.as_str()), s.is_ascii().then_some(s.as_str()), "as_uri", "of {what}");
        }};
    }
    if is_query {
        go!(IriQueryStr, IriQueryString, UriQueryString)
    } else {
        go!(IriFragmentStr, IriFragmentString, UriFragmentString)
    }
    Ok(())
}
