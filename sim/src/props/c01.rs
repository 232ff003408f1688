//! C01: in-place edits change exactly the named component, over any edit history.

use crate::ctx::{vio, Ctx, Res};
use crate::each;
use crate::gen::{self, Swarm};
use crate::kinds::{getters, Own, Sp};
use crate::model::grammar::{self as g, Kind, Parts};
use crate::model::pct;
use crate::{ensure, ensure_eq};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;

pub fn run(c: &mut Ctx) -> Res {
    if c.below(2) == 0 {
        history::<UriSpec>(c)
    } else {
        history::<IriSpec>(c)
    }
}

/// Every observation of the value agrees with the model.
pub fn observe<S: Sp>(own: &Own<S>, m: &Parts, what: &str) -> Res {
    let text = g::compose(m);
    ensure_eq!(own.as_str(), text.as_str(), "wrong text after edit", "text after {what}");
    ensure_eq!(own.parts(), *m, "wrong components after edit", "components after {what} of {text:?}");
    ensure!(
        g::valid(S::IRI, own.kind(), &text),
        "ill-formed after edit",
        "{what} left {text:?}, not a valid {:?}",
        own.kind()
    );
    getters(own)
}

fn has_fragment(k: Kind) -> bool {
    k != Kind::Abs
}

fn history<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let start = gen::ident(c, sw, S::IRI, kind);
    c.note(|| format!("start {kind:?} iri={} {start:?}", S::IRI));
    let Some(mut own) = Own::<S>::new(kind, &start) else {
        return vio("valid text refused", format!("{start:?} is a valid {kind:?} but was refused"));
    };
    let mut m = g::split(&start);
    observe(&own, &m, "parsing")?;
    let n = 1 + c.below(8);
    for _ in 0..n {
        step(c, sw, &mut own, &mut m)?;
    }
    Ok(())
}

fn new_host<S: Sp>(c: &mut Ctx, sw: Swarm) -> String {
    let mut h = gen::host(c, sw, S::IRI);
    if c.chance(1, 6) {
        gen::mutate(c, &mut h);
    }
    h
}

fn step<S: Sp>(c: &mut Ctx, sw: Swarm, own: &mut Own<S>, m: &mut Parts) -> Res {
    let before = own.as_str().to_string();
    match c.below(8) {
        0 if has_fragment(own.kind()) => {
            let mut f = if c.chance(3, 4) { Some(gen::fragment(c, sw, S::IRI)) } else { None };
            if let (Some(old), true) = (&m.fragment, c.chance(1, 4)) {
                let new = gen::related(c, old);
                if g::fragment_ok(S::IRI, &new) {
                    f = Some(new);
                }
            }
            c.op("set_fragment");
            c.note(|| format!("set_fragment({f:?})"));
            let ft = match &f {
                None => None,
                Some(x) => match RiFragmentStr::<S>::new(x) {
                    Ok(v) => Some(v),
                    Err(_) => return vio("valid text refused", format!("fragment {x:?} refused")),
                },
            };
            match own {
                Own::Full(v) => v.set_fragment(ft),
                Own::Ref(v) => v.set_fragment(ft),
                Own::Rel(v) => v.set_fragment(ft),
                Own::Abs(_) => unreachable!(),
            }
            m.fragment = f;
            observe(own, m, "set_fragment")?;
        }
        1 | 2 => {
            let mut h = new_host::<S>(c, sw);
            if let (Some(a), true) = (m.authority.as_deref(), c.chance(1, 4)) {
                h = gen::related(c, &g::split_auth(a).host);
            }
            let reg_only = c.chance(1, 2);
            let fallible = c.chance(1, 2);
            c.op(if reg_only { "replace_host_reg_name" } else { "replace_host" });
            c.note(|| format!("replace_host reg_only={reg_only} fallible={fallible} {h:?} on {before:?}"));
            let plan = if fallible { c.alloc_plan() } else { crate::env::alloc::Plan::Never };
            // The returned slice borrows the object: copy it out.
            let (ret, _) = c.armed(plan, || each!(own, v => {
                let r = match (reg_only, fallible) {
                    (false, false) => Ok(v.replace_host(&h)),
                    (true, false) => Ok(v.replace_host_reg_name(&h)),
                    (false, true) => v.try_replace_host(&h),
                    (true, true) => v.try_replace_host_reg_name(&h),
                };
                crate::env::alloc::suspended(|| r.map(|o| o.map(|x| x.to_string())).map_err(|_| ()))
            }));
            let Ok(ret) = ret else {
                ensure!(plan != crate::env::alloc::Plan::Never, "spurious error", "replacing the host of {before:?} by {h:?}");
                return observe(own, m, "replace_host without memory");
            };
            let ma = m.authority.as_deref().map(g::split_auth);
            let applies = match &ma {
                None => false,
                Some(a) => {
                    g::host_ok(S::IRI, &h)
                        && !(reg_only && (a.host.starts_with('[') || g::is_ipv4(&a.host)))
                }
            };
            if applies {
                let mut a = ma.unwrap();
                a.host = h.clone();
                m.authority = Some(g::compose_auth(&a));
                ensure_eq!(ret.as_deref(), Some(h.as_str()), "replace_host result", "replacing the host of {before:?} by {h:?}");
            } else {
                ensure_eq!(ret, None, "replace_host result", "replacing the host of {before:?} by {h:?}");
                c.fault("rejected_edit");
            }
            observe(own, m, "replace_host")?;
        }
        3 | 4 => {
            let nonempty = c.chance(1, 2);
            c.op(if nonempty { "remove_nonempty_password" } else { "remove_password" });
            c.note(|| format!("remove_password nonempty={nonempty} on {before:?}"));
            each!(own, v => if nonempty { v.remove_nonempty_password_inline() } else { v.remove_password_inline() });
            if let Some(mut a) = m.authority.as_deref().map(g::split_auth) {
                if let Some(u) = a.userinfo.clone() {
                    if let Some(i) = u.find(':') {
                        if nonempty {
                            a.userinfo = Some(u[..=i].to_string());
                            if i + 1 < u.len() {
                                c.probe("password_removed");
                            }
                        } else {
                            a.userinfo = Some(u[..i].to_string());
                            c.probe("password_removed");
                        }
                    }
                }
                m.authority = Some(g::compose_auth(&a));
            }
            observe(own, m, "removing the password")?;
        }
        5 => {
            c.op("split_fragment");
            split(c, own, m)?;
        }
        6 => {
            c.op("percent_encode");
            c.note(|| format!("percent-encode {before:?} in place"));
            if S::IRI {
                encode_inline(own);
                *m = g::split(&pct::iri_to_uri(&g::compose(m)));
                observe(own, m, "percent-encoding in place")?;
            }
        }
        _ => {
            // Storage management never changes the text.
            c.op("storage");
            c.note(|| "shrink_to_fit / clone".into());
            if c.chance(1, 2) {
                each!(own, v => v.shrink_to_fit());
            } else {
                let copy = own.clone();
                *own = copy;
            }
            ensure!(each!(own, v => v.capacity()) >= own.as_str().len(), "capacity", "capacity below length");
            observe(own, m, "storage management")?;
        }
    }
    // Interleave reads through a second kind of view.
    let r = own.as_ref_str();
    ensure_eq!(crate::kinds::parts_ref(r), *m, "wrong components after edit", "reference view of {:?}", r.as_str());
    Ok(())
}

/// Percent-encodes an IRI in place (the method exists for the IRI spec only).
fn encode_inline<S: Sp>(own: &mut Own<S>) {
    use std::any::Any;
    let any: &mut dyn Any = own;
    if let Some(own) = any.downcast_mut::<Own<IriSpec>>() {
        each!(own, v => v.encode_to_uri_inline());
    }
}

fn split<S: Sp>(c: &mut Ctx, own: &mut Own<S>, m: &mut Parts) -> Res {
    let before = own.as_str().to_string();
    c.note(|| format!("split off the fragment of {before:?}"));
    let Own::Full(v) = own else { return Ok(()) };
    let without = Parts { fragment: None, ..m.clone() };
    // Borrowed split.
    {
        let (a, f) = v.to_absolute_and_fragment();
        ensure_eq!(a.as_str(), g::compose(&without), "split", "absolute part of {before:?}");
        ensure_eq!(f.map(|f| f.as_str()), m.fragment.as_deref(), "split", "fragment of {before:?}");
        ensure_eq!(v.to_absolute().as_str(), g::compose(&without), "split", "absolute part of {before:?}");
    }
    match c.below(3) {
        0 => {
            let (a, f) = v.clone().into_absolute_and_fragment();
            ensure_eq!(a.as_str(), g::compose(&without), "split", "absolute part of {before:?}");
            ensure_eq!(f.as_ref().map(|f| f.as_str()), m.fragment.as_deref(), "split", "fragment of {before:?}");
            // Put it back together.
            let mut back: RiString<S> = a.into();
            back.set_fragment(f.as_deref());
            ensure_eq!(back.as_str(), before.as_str(), "split", "recombination");
            *own = Own::Full(back);
        }
        1 => {
            let a = v.clone().into_absolute();
            *m = without;
            *own = Own::Abs(a);
        }
        _ => {
            let a = v.clone().into_absolute();
            *m = without;
            *own = Own::Full(a.into());
        }
    }
    observe(own, m, "splitting")
}
