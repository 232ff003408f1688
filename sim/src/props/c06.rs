//! C06: a reused resolver resolves every reference of a chain as RFC 3986 says.

use super::c04::judge;
use crate::ctx::{guarded, no_panic, vio, Ctx, Res};
use crate::env::sink::{Plan, Sink};
use crate::gen::{self, Swarm};
use crate::kinds::Sp;
use crate::model::grammar::{self as g, Kind, Parts};
use crate::model::normalize::Mode;
use crate::model::resolve;
use crate::render::switch;
use crate::{ensure, ensure_eq};
use iri_string::format::ToDedicatedString;
use iri_string::normalize::Normalized;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::fmt::Write;

pub fn run(c: &mut Ctx) -> Res {
    if c.below(2) == 0 {
        start::<UriSpec>(c)
    } else {
        start::<IriSpec>(c)
    }
}

struct Live<'a, S: Sp> {
    r: FixedBaseResolver<'a, S>,
    base: Parts,
    text: String,
}

fn start<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let base = gen::ident(c, sw, S::IRI, Kind::Abs);
    let Ok(b) = RiAbsoluteStr::<S>::new(&base) else {
        return vio("valid text refused", format!("{base:?} refused as absolute"));
    };
    c.note(|| format!("base {base:?} iri={}", S::IRI));
    let mut budget = 1 + c.below(8);
    level(c, sw, b, &[], &mut budget)
}

/// One more live resolver on top of those of the callers; any of them may be used.
fn level<S: Sp>(c: &mut Ctx, sw: Swarm, base: &RiAbsoluteStr<S>, outer: &[&Live<S>], budget: &mut u32) -> Res {
    let me = Live { r: FixedBaseResolver::new(base), base: g::split(base.as_str()), text: base.as_str().to_string() };
    let live: Vec<&Live<S>> = outer.iter().copied().chain([&me]).collect();
    getters(&me)?;
    while *budget > 0 {
        *budget -= 1;
        let which = live.len() - 1 - c.below(live.len() as u32) as usize;
        let l = live[which];
        if which + 1 < live.len() {
            c.probe("outer_resolver_reused");
        }
        let kind = if c.chance(1, 3) { Kind::Rel } else { Kind::Ref };
        let refs = gen::ident(c, sw, S::IRI, kind);
        let result = one(c, sw, l, kind, &refs)?;
        getters(l)?;
        // Follow the redirect?
        if *budget > 0 && c.chance(1, 3) {
            let Some(t) = result else { continue };
            c.op("redirect");
            c.note(|| format!("redirect to {:?}", t.as_str()));
            if live.len() > 2 {
                c.probe("redirect_chain_of_3");
            }
            level(c, sw, t.to_absolute(), &live, budget)?;
            if c.chance(1, 2) {
                return Ok(());
            }
        }
    }
    Ok(())
}

fn getters<S: Sp>(l: &Live<S>) -> Res {
    let r = &l.r;
    ensure_eq!(r.base().as_str(), l.text.as_str(), "resolver changed", "base of a resolver");
    ensure!(
        Some(r.scheme_str()) == l.base.scheme.as_deref()
            && r.authority_str() == l.base.authority.as_deref()
            && r.path_str() == l.base.path
            && r.query_str() == l.base.query.as_deref()
            && r.query().map(|q| q.as_str()) == l.base.query.as_deref(),
        "resolver changed",
        "components of the resolver for {:?} are wrong",
        l.text
    );
    Ok(())
}

fn one<S: Sp>(c: &mut Ctx, sw: Swarm, l: &Live<S>, kind: Kind, refs: &str) -> Res<Option<RiString<S>>> {
    let refs = refs.to_string();
    let Ok(r) = RiReferenceStr::<S>::new(&refs) else {
        return vio("valid text refused", format!("{refs:?} refused as reference"));
    };
    c.op("resolve");
    let task = no_panic("resolve", || l.r.resolve(r))?;
    // Another resolution in between must not matter.
    let other = gen::ident(c, sw, S::IRI, Kind::Ref);
    if let (true, Ok(o)) = (c.chance(1, 4), RiReferenceStr::<S>::new(&other)) {
        let _ = no_panic("resolve", || l.r.resolve(o).to_string())?;
    }
    let (task, last) = switch::<S, _>(c, task);
    let mode = match last {
        None => Mode::None,
        Some(true) => Mode::Default,
        Some(false) => Mode::Preserve,
    };
    let (m, ok) = resolve::resolve(S::IRI, mode, &l.base, &g::split(&refs));
    let full = g::compose(&m);
    let what = format!("{refs:?} against {:?} ({mode:?})", l.text);
    c.note(|| format!("resolve {what}: expected {full:?}, representable={ok}"));
    if !ok {
        c.probe("not_representable");
    }
    // A faulty sink first, then a good one.
    if c.chance(1, 2) {
        let mut s = Sink::new(Plan::draw(&mut c.src, full.len()));
        let r = guarded("resolution", || write!(s, "{task}"))?;
        judge(c, &what, &full, &s, &r)?;
    }
    check(&task, &full, ok, &what)?;
    let route = c.below(3);
    let dedicated: RiString<S> = no_panic("to_dedicated_string", || match route {
        0 => task.to_dedicated_string(),
        1 => RiString::from(&task),
        _ => RiString::from(task),
    })?;
    ensure_eq!(dedicated.as_str(), full.as_str(), "wrong target", "resolution of {what}, as typed string");
    ensure!(g::valid(S::IRI, Kind::Full, dedicated.as_str()), "ill-formed target", "{what} gave {:?}", dedicated.as_str());
    // Once more from scratch, by the one-shot methods.
    let Ok(base) = RiAbsoluteStr::<S>::new(&l.text) else { return vio("valid text refused", l.text.clone()) };
    let again = match RiRelativeStr::<S>::new(&refs) {
        Ok(rel) if kind == Kind::Rel => rel.resolve_against(base),
        _ => r.resolve_against(base),
    };
    check(&set_mode(again, mode), &full, ok, &format!("{what}, one-shot"))?;
    Ok(Some(dedicated))
}

fn set_mode<T: ?Sized>(mut n: Normalized<T>, mode: Mode) -> Normalized<T> {
    match mode {
        Mode::None => {}
        Mode::Default => n.enable_normalization(),
        Mode::Preserve => n.enable_normalization_preserving_authorityless_relative_path(),
    }
    n
}

fn check<S: Sp>(t: &Normalized<RiStr<S>>, full: &str, ok: bool, what: &str) -> Res {
    let got = no_panic("resolution", || t.to_string())?;
    ensure_eq!(got.as_str(), full, "wrong target", "resolution of {what}");
    let flag = no_panic("ensure_rfc3986_normalizable", || t.ensure_rfc3986_normalizable().is_ok())?;
    ensure_eq!(flag, ok, "representability flag", "ensure_rfc3986_normalizable for {what} (written as {full:?})");
    Ok(())
}
