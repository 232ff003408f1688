//! C02: a failed or rejected operation leaves the value intact and usable.

use super::c01::observe;
use crate::ctx::{no_panic, vio, Ctx, Res};
use crate::gen::{self, Swarm};
use crate::kinds::*;
use crate::model::grammar::{self as g, Parts};
use crate::model::{pct, template};
use crate::{each, each_to, ensure, ensure_eq};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::UriTemplateString;
use iri_string::types::*;

pub fn run(c: &mut Ctx) -> Res {
    match c.below(8) {
        0..=2 => history::<UriSpec>(c),
        7 => component(c),
        _ => history::<IriSpec>(c),
    }
}

fn history<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let start = gen::ident(c, sw, S::IRI, kind);
    c.note(|| format!("start {kind:?} iri={} {start:?}", S::IRI));
    let Some(mut own) = Own::<S>::new(kind, &start) else {
        return vio("valid text refused", format!("{start:?} is a valid {kind:?} but was refused"));
    };
    let mut m = g::split(&start);
    let n = 1 + c.below(8);
    for _ in 0..n {
        if c.chance(1, 3) {
            // The less room there is, the more an edit has to allocate.
            each!(&mut own, v => v.shrink_to_fit());
        }
        step(c, sw, &mut own, &mut m)?;
        observe(&own, &m, "the history so far")?;
    }
    Ok(())
}

/// The memory held by the value before and after explains the allocator's balance.
fn balance(l: &crate::env::alloc::Ledger, before: usize, after: usize, what: &str) -> Res {
    ensure_eq!(l.balance, after as i64 - before as i64, "leak", "allocator balance of {what}");
    Ok(())
}

fn step<S: Sp>(c: &mut Ctx, sw: Swarm, own: &mut Own<S>, m: &mut Parts) -> Res {
    let before = own.as_str().to_string();
    match c.below(8) {
        0 | 1 | 2 => {
            let mut h = gen::host(c, sw, S::IRI);
            if c.chance(1, 5) {
                gen::mutate(c, &mut h);
            }
            if c.chance(1, 3) {
                h.push_str("longlonglonglonglonglong");
            }
            let reg = c.chance(1, 2);
            c.op(if reg { "try_replace_host_reg_name" } else { "try_replace_host" });
            let ma = m.authority.as_deref().map(g::split_auth);
            let applies = matches!(&ma, Some(a) if g::host_ok(S::IRI, &h)
                && !(reg && (a.host.starts_with('[') || g::is_ipv4(&a.host))));
            let mut plan = c.alloc_plan();
            for attempt in 0..2 {
                let cap = each!(&*own, v => v.capacity());
                let (r, l) = c.armed(plan, || {
                    no_panic("try_replace_host", || {
                        each!(&mut *own, v => {
                            let r = if reg { v.try_replace_host_reg_name(&h) } else { v.try_replace_host(&h) };
                            r.map(|o| o.map(|s| s == h)).map_err(|_| ())
                        })
                    })
                });
                let r = r?;
                c.note(|| format!("replace host of {before:?} by {h:?} reg={reg} under {plan:?}: {r:?} {l:?}"));
                balance(&l, cap, each!(&*own, v => v.capacity()), "replacing the host")?;
                match r {
                    Err(()) => {
                        ensure!(l.failed > 0, "spurious failure", "replacing the host of {before:?} by {h:?} failed although no allocation did");
                        ensure_eq!(own.as_str(), before.as_str(), "value changed by failed operation", "failed replacement of the host by {h:?}");
                        observe(own, m, "a failed replacement of the host")?;
                        c.probe("edit_failed_then_retried");
                        ensure!(attempt == 0, "retry failed", "retrying without fault failed");
                        plan = crate::env::alloc::Plan::Never;
                        continue;
                    }
                    Ok(got) => {
                        ensure_eq!(got, applies.then_some(true), "replace_host result", "replacing the host of {before:?} by {h:?}");
                        if applies {
                            let mut a = ma.clone().unwrap();
                            a.host = h.clone();
                            m.authority = Some(g::compose_auth(&a));
                        } else {
                            c.probe("edit_rejected");
                            ensure_eq!(own.as_str(), before.as_str(), "value changed by rejected operation", "rejected host {h:?}");
                        }
                        break;
                    }
                }
            }
        }
        3 | 4 => {
            let by_value = c.chance(1, 2);
            let mut plan = c.alloc_plan();
            if !S::IRI {
                return Ok(());
            }
            c.op(if by_value { "try_encode_into_uri" } else { "try_encode_to_uri_inline" });
            let expect = pct::iri_to_uri(&before);
            if by_value {
                let copy = iri_ref(own).unwrap().clone();
                let (r, l) = c.armed(plan, || {
                    no_panic("try_encode_into_uri", || {
                        let r: Result<Own<UriSpec>, ()> = (|| Ok(each_to!(copy, v => v.try_encode_into_uri().map_err(|_| ())?)))();
                        r
                    })
                });
                let r = r?;
                c.note(|| format!("encode {before:?} by value under {plan:?}: {r:?} {l:?}"));
                match r {
                    Ok(u) => ensure_eq!(u.as_str(), expect.as_str(), "encoded text", "encoding {before:?}"),
                    Err(()) => ensure!(l.failed > 0, "spurious failure", "encoding {before:?} failed although no allocation did"),
                }
                return Ok(());
            }
            for attempt in 0..2 {
                let cap = each!(&*own, v => v.capacity());
                let (r, l) = {
                    let iri = iri_mut(own).unwrap();
                    c.armed(plan, || no_panic("try_encode_to_uri_inline", || each!(iri, v => v.try_encode_to_uri_inline().map_err(|_| ()))))
                };
                let r = r?;
                c.note(|| format!("encode {before:?} in place under {plan:?}: {r:?} {l:?}"));
                balance(&l, cap, each!(&*own, v => v.capacity()), "encoding in place")?;
                match r {
                    Err(()) => {
                        ensure!(l.failed > 0, "spurious failure", "encoding {before:?} failed although no allocation did");
                        ensure_eq!(own.as_str(), before.as_str(), "value changed by failed operation", "failed encoding");
                        observe(own, m, "a failed encoding")?;
                        c.probe("edit_failed_then_retried");
                        ensure!(attempt == 0, "retry failed", "retrying without fault failed");
                        plan = crate::env::alloc::Plan::Never;
                    }
                    Ok(()) => {
                        *m = g::split(&expect);
                        break;
                    }
                }
            }
        }
        5 => {
            c.op("convert kind");
            let to = *c.pick(&g::KINDS);
            let named = c.chance(1, 2);
            let ok = g::valid(S::IRI, to, &before);
            let from = own.kind();
            let r = no_panic("convert", || convert(own.clone(), to, named))?;
            c.note(|| format!("convert {before:?} from {from:?} to {to:?}: expected {ok}"));
            match r {
                Conv::Ok(v) => {
                    ensure!(ok, "ill-formed accepted", "{before:?} became {to:?}");
                    ensure_eq!(v.as_str(), before.as_str(), "conversion changed text", "{from:?} to {to:?}");
                    *own = v;
                }
                Conv::Back(v) => {
                    ensure!(!ok, "valid text refused", "{before:?} ({from:?}) is a valid {to:?} but was refused");
                    ensure_eq!(v.as_str(), before.as_str(), "source not handed back", "refused {from:?} to {to:?}");
                    c.probe("conversion_refused");
                    *own = v;
                }
                Conv::BackText(t) => {
                    ensure!(!ok, "valid text refused", "{before:?} ({from:?}) is a valid {to:?} but was refused");
                    ensure_eq!(t, before, "source not handed back", "refused {from:?} to {to:?}");
                    c.probe("conversion_refused");
                }
            }
        }
        6 => {
            c.op("String to kind");
            let to = *c.pick(&g::KINDS);
            let t = gen::near(c, sw, S::IRI, to);
            let ok = g::valid(S::IRI, to, &t);
            c.note(|| format!("{to:?} from string {t:?}: expected {ok}"));
            match no_panic("TryFrom<String>", || from_text::<S>(to, t.clone()))? {
                Ok(v) => {
                    ensure!(ok, "ill-formed accepted", "{t:?} became {to:?}");
                    ensure_eq!(v.as_str(), t.as_str(), "conversion changed text", "String to {to:?}");
                    *m = g::split(&t);
                    *own = v;
                }
                Err(s) => {
                    ensure!(!ok, "valid text refused", "{t:?} is a valid {to:?} but was refused");
                    ensure_eq!(s, t, "source not handed back", "refused {to:?}");
                    c.probe("conversion_refused");
                }
            }
        }
        _ => {
            c.op("IRI to URI without encoding");
            if let Some(iri) = iri_ref(own) {
                let ok = before.is_ascii();
                let back: Result<Own<UriSpec>, Own<IriSpec>> = match iri.clone() {
                    Own::Full(v) => v.try_into_uri().map(Own::Full).map_err(Own::Full),
                    Own::Abs(v) => v.try_into_uri().map(Own::Abs).map_err(Own::Abs),
                    Own::Ref(v) => v.try_into_uri().map(Own::Ref).map_err(Own::Ref),
                    Own::Rel(v) => v.try_into_uri().map(Own::Rel).map_err(Own::Rel),
                };
                match back {
                    Ok(u) => {
                        ensure!(ok, "ill-formed accepted", "{before:?} became a URI");
                        ensure_eq!(u.as_str(), before.as_str(), "conversion changed text", "IRI to URI");
                    }
                    Err(i) => {
                        ensure!(!ok, "valid text refused", "{before:?} is ASCII but was refused as URI");
                        ensure_eq!(i.as_str(), before.as_str(), "source not handed back", "IRI to URI");
                        c.probe("conversion_refused");
                    }
                }
            }
        }
    }
    Ok(())
}

/// Query and fragment strings, and templates.
fn component(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    match c.below(3) {
        0 => {
            c.op("template from String");
            let t = crate::gen_template::near(c);
            let ok = template::valid(&t);
            c.note(|| format!("template {t:?}: expected {ok}"));
            match UriTemplateString::try_from(t.clone()) {
                Ok(v) => {
                    ensure!(ok, "ill-formed accepted", "template {t:?}");
                    ensure_eq!(v.as_str(), t.as_str(), "conversion changed text", "template");
                }
                Err(e) => {
                    ensure!(!ok, "valid text refused", "template {t:?}");
                    let _ = e.validation_error();
                    ensure_eq!(e.into_source(), t, "source not handed back", "template");
                    c.probe("conversion_refused");
                }
            }
        }
        n => {
            let mut t = if n == 1 { gen::query(c, sw, true) } else { gen::fragment(c, sw, true) };
            if c.chance(1, 3) {
                gen::mutate(c, &mut t);
            }
            let ok = if n == 1 { g::query_ok(true, &t) } else { g::fragment_ok(true, &t) };
            c.note(|| format!("query/fragment {t:?}: expected {ok}"));
            macro_rules! comp {
                ($ty:ident) => {{
                    let mut v = match $ty::try_from(t.clone()) {
                        Ok(v) => {
                            ensure!(ok, "ill-formed accepted", "{t:?}");
                            v
                        }
                        Err(e) => {
                            ensure!(!ok, "valid text refused", "{t:?}");
                            ensure_eq!(e.into_source(), t, "source not handed back", "component");
                            c.probe("conversion_refused");
                            return Ok(());
                        }
                    };
                    v.shrink_to_fit();
                    let mut plan = c.alloc_plan();
                    for _ in 0..2 {
                        c.op("encode component in place");
                        let cap = v.capacity();
                        let (r, l) = c.armed(plan, || no_panic("try_encode_to_uri_inline", || v.try_encode_to_uri_inline().map_err(|_| ())));
                        let r = r?;
                        balance(&l, cap, v.capacity(), "encoding in place")?;
                        if r.is_ok() {
                            ensure_eq!(v.as_str(), pct::iri_to_uri(&t), "encoded text", "encoding {t:?}");
                            return Ok(());
                        }
                        ensure!(l.failed > 0, "spurious failure", "encoding {t:?}");
                        ensure_eq!(v.as_str(), t.as_str(), "value changed by failed operation", "failed encoding");
                        plan = crate::env::alloc::Plan::Never;
                        c.probe("edit_failed_then_retried");
                    }
                    return vio("retry failed", format!("encoding {t:?} twice"));
                }};
            }
            if n == 1 {
                comp!(IriQueryString)
            } else {
                comp!(IriFragmentString)
            }
        }
    }
    Ok(())
}
