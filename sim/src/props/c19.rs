//! C19: once accepted, a template can always be used; rejected text is handed back.

use crate::ctx::{guarded, no_panic, Ctx, Outcome, Res};
use crate::env::context::{DynContext, SimContext};
use crate::env::sink::{Plan, Sink};
use crate::env::transport::{Deliver, Fail, Wire};
use crate::env::value::{End, Val};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::template as t;
use crate::props::c03;
use crate::typed::{In, Typed};
use crate::{ensure, ensure_eq};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use std::fmt::Write;

pub fn run(c: &mut Ctx) -> Res {
    match c.below(3) {
        0 => c03::routes::<UriTemplateStr>(c),
        _ => life(c),
    }
}

/// Lets a text become a template, possibly not for the first time.
fn admit(c: &mut Ctx, text: &str) -> Res<Option<UriTemplateString>> {
    let want = t::valid(text);
    let route = c.below(UriTemplateStr::OWNED.len() as u32) as usize;
    let how = UriTemplateStr::OWNED[route];
    c.op("admit");
    c.shape(route as u64 * 2 + want as u64);
    c.note(|| format!("{text:?} by {how}: expected {want}"));
    Ok(match no_panic(how, || UriTemplateStr::own_in(route, text.to_string()))? {
        In::Ok(v) => {
            ensure!(want, "ill-formed text accepted", "{text:?} by {how}");
            ensure_eq!(v.as_slice().as_str(), text, "text changed", "{text:?} by {how}");
            Some(v)
        }
        In::Refused => {
            c.probe("refused");
            ensure!(!want, "valid text refused", "{text:?} by {how}");
            None
        }
        In::HandedBack(s) => {
            c.probe("handed_back");
            ensure!(!want, "valid text refused", "{text:?} by {how}");
            ensure_eq!(s, text, "handed back something else", "{text:?} by {how}");
            None
        }
    })
}

fn life(c: &mut Ctx) -> Res {
    let mut text = if c.chance(1, 3) { gt::near(c) } else { gt::valid(c) };
    let mut own = loop {
        match admit(c, &text)? {
            Some(v) => break v,
            None => text = gt::valid(c),
        }
    };
    for _ in 0..1 + c.below(8) {
        match c.below(9) {
            0 | 1 => {
                let route = c.below(UriTemplateStr::HANDOVERS as u32) as usize;
                c.op("handover");
                c.shape(route as u64);
                c.note(|| format!("hand over by route {route}"));
                own = match no_panic("handover", || UriTemplateStr::handover(own, route))? {
                    Ok(v) => v,
                    Err(m) => return crate::ctx::vio("text changed", format!("{text:?}: {m}")),
                };
            }
            2 => {
                let more = gt::valid(c);
                let Some(other) = admit(c, &more)? else { return Ok(()) };
                c.op("append");
                c.note(|| format!("append {more:?}"));
                no_panic("append", || own.append(&other))?;
                text.push_str(&more);
            }
            3 => {
                // The text goes out, is damaged and comes back.
                c.op("edit");
                let mut s: String = own.into();
                ensure_eq!(s, text, "text changed", "into String");
                if c.chance(2, 3) {
                    gt::damage(c, &mut s);
                }
                own = match admit(c, &s)? {
                    Some(v) => {
                        text = s;
                        v
                    }
                    None => match admit(c, &text)? {
                        Some(v) => v,
                        None => return Ok(()),
                    },
                };
            }
            4 => {
                c.op("transport");
                let mut got = Vec::new();
                let sent = no_panic("serialization", || own.as_slice().ser(true, Fail::No, &mut got))?;
                ensure!(sent.is_ok(), "serialization failed", "{text:?}");
                let how = *c.pick(&[Deliver::Borrowed, Deliver::Transient, Deliver::Owned]);
                let r = no_panic("deserialization", || UriTemplateStr::de_owned(Wire::good(&text, how)))?;
                ensure!(r.is_ok(), "valid text refused", "{text:?} delivered {how:?}: {r:?}");
                own = r.unwrap();
            }
            _ => {
                if c.below(2) == 0 {
                    usage::<UriSpec>(c, &own, &text)?
                } else {
                    usage::<IriSpec>(c, &own, &text)?
                }
            }
        }
        ensure_eq!(own.as_str(), text.as_str(), "text changed", "after this step");
    }
    // What is left is a template by every other route, too.
    for (i, how) in UriTemplateStr::BORROWED.iter().enumerate() {
        let r = no_panic(how, || UriTemplateStr::borrow_in(i, &text))?;
        ensure!(r.is_some_and(|r| r == own.as_slice()), "valid text refused", "{text:?} by {how}");
    }
    Ok(())
}

/// Uses an accepted template in whatever environment: no panic, and a refusal only for a
/// reason.
fn usage<S: Sp>(c: &mut Ctx, own: &UriTemplateString, text: &str) -> Res {
    let Some(chunks) = t::parse(text) else { panic!("harness: {text:?} is no template") };
    let tt: &UriTemplateStr = own;
    let names = t::names(&chunks);
    let got: Vec<String> = no_panic("variables", || tt.variables().map(|v| v.as_str().to_string()).collect())?;
    ensure_eq!(got, names, "variables", "{text:?}");
    let mut ctx = gt::context_for(c, &chunks);
    gt::shape(c, &chunks, &ctx);
    let mut broken = false;
    if c.chance(1, 4) {
        let mut vals: Vec<&mut Val> = ctx.vars.iter_mut().flat_map(|(_, v)| v.vals_mut()).collect();
        if !vals.is_empty() {
            let k = c.below(vals.len() as u32) as usize;
            vals[k].end = if c.chance(1, 3) { End::Panic } else { End::Fail };
            broken = true;
        }
    }
    let plan = if c.chance(1, 3) { Plan::draw(&mut c.src, 40) } else { Plan::Good };
    let fits = t::expand(S::IRI, &chunks, &mut |n| ctx.model(n)).is_ok();
    let what = format!("{text:?} iri={} with {:?} in style {} into {plan:?}", S::IRI, ctx.vars, ctx.style);
    c.note(|| format!("expand {what}; types fit: {fits}"));
    if !fits {
        c.probe("prefix_on_list");
    }
    if c.chance(1, 2) {
        c.op("expand");
        let e = guarded("expand", || tt.expand::<S, SimContext>(&ctx))?;
        let e = match e {
            Outcome::Done(Ok(e)) => e,
            Outcome::Done(Err(e)) => {
                no_panic("error message", || (e.to_string(), format!("{e:?}")))?;
                ensure!(!fits || broken, "expansion refused", "{what}: {e}");
                return Ok(());
            }
            Outcome::Injected => return Ok(()),
        };
        ensure!(fits, "mismatch accepted", "{what}");
        let mut s = Sink::new(plan);
        let r = guarded("write of an expansion", || write!(s, "{e}"))?;
        if let Outcome::Done(Err(_)) = r {
            ensure!(broken || s.failed, "spurious error", "{what}");
        }
        c.sink_done(&s);
    } else {
        c.op("expand_dynamic");
        let mut d = DynContext { inner: ctx, events: vec![] };
        let mut s = Sink::new(plan);
        let r = guarded("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut s, &mut d))?;
        match r {
            Outcome::Done(Err(e)) => {
                no_panic("error message", || (e.to_string(), format!("{e:?}")))?;
                ensure!(!fits || broken || s.failed, "expansion refused", "{what}: {e}");
            }
            Outcome::Done(Ok(())) => ensure!(fits || broken, "mismatch accepted", "{what}"),
            Outcome::Injected => {}
        }
        c.sink_done(&s);
    }
    Ok(())
}
