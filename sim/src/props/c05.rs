//! C05: fallible output reports exhaustion: no abort, truncation, leak or overrun.

use crate::ctx::{no_panic, Ctx, Res};
use crate::env::alloc::Plan;
use crate::env::context::DynContext;
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::*;
use crate::model::grammar as g;
use crate::model::{pct, template};
use crate::render::{self, Item};
use crate::{each, each_to, ensure, ensure_eq};
use iri_string::format::{try_append_to_string, write_to_slice, ToStringFallible};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::fmt::Display;

pub fn run(c: &mut Ctx) -> Res {
    match c.below(8) {
        6 => conversions(c),
        7 => dynamic(c),
        _ => render::any(c, &mut |c, it| check(c, it)),
    }
}

fn check(c: &mut Ctx, it: &Item) -> Res {
    let what = format!("{} of {}", it.name, it.what);
    let full = it.text.to_string();
    for _ in 0..1 + c.below(4) {
        match c.below(4) {
            0 => slice(c, it.text, &full, &what)?,
            1 => append(c, it.text, &full, &what)?,
            n => {
                if let (Some(d), true) = (it.dedicated, n == 2) {
                    whole(c, "try_to_dedicated_string", &full, &what, &|| d().ok())?
                } else {
                    let t = it.text;
                    whole(c, "try_to_string", &full, &what, &|| Wrap(t).try_to_string().ok())?
                }
            }
        }
    }
    Ok(())
}

/// `dyn Display` cannot be passed to functions which need a sized type.
struct Wrap<'a>(&'a dyn Display);
impl Display for Wrap<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

fn slice(c: &mut Ctx, t: &dyn Display, full: &str, what: &str) -> Res {
    let n = full.len() as u32;
    let cap = match c.below(6) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => 0,
        _ => c.below(n + 4),
    } as usize;
    let guard = 8;
    let mut buf = vec![0xA5u8; cap + 2 * guard];
    for (i, b) in buf.iter_mut().enumerate() {
        *b = 0x80 | (i as u8 & 0x3f); // never valid UTF-8 on its own
    }
    let orig = buf.clone();
    c.op("write_to_slice");
    let r = no_panic("write_to_slice", || {
        write_to_slice(&mut buf[guard..guard + cap], &Wrap(t)).map(|s| s.to_string()).map_err(|e| e.to_string())
    })?;
    c.note(|| format!("write_to_slice with room for {cap} of {n}: {r:?}"));
    c.shape((cap as u64) << 1 | r.is_ok() as u64);
    match &r {
        Ok(s) => {
            ensure_eq!(s.as_str(), full, "truncated or wrong text", "write_to_slice of {what}, room for {cap}");
            ensure_eq!(&buf[guard..guard + full.len()], full.as_bytes(), "truncated or wrong text", "buffer of {what}");
            // Nothing beyond what was reported.
            ensure_eq!(buf[guard + full.len()..], orig[guard + full.len()..], "overrun", "bytes after the text of {what}");
        }
        Err(_) => {
            ensure!(cap < full.len(), "spurious failure", "{what} needs {n} bytes and there were {cap}, but write_to_slice failed");
            c.fault("fixed_buffer_too_small");
        }
    }
    ensure_eq!(buf[..guard], orig[..guard], "overrun", "bytes before the buffer");
    ensure_eq!(buf[guard + cap..], orig[guard + cap..], "overrun", "bytes after the buffer");
    ensure!(r.is_ok() == (cap >= full.len()), "overrun", "{what} of {n} bytes reported as written into {cap}");
    Ok(())
}

fn append(c: &mut Ctx, t: &dyn Display, full: &str, what: &str) -> Res {
    let before = ["", "x", "previous text é"][c.below(3) as usize];
    let mut dest = String::with_capacity(before.len() + c.below(8) as usize);
    dest.push_str(before);
    let mut plan = c.alloc_plan();
    for attempt in 0..2 {
        c.op("try_append_to_string");
        let cap = dest.capacity();
        let len = dest.len();
        let (r, l) = c.armed(plan, || no_panic("try_append_to_string", || try_append_to_string(&mut dest, &Wrap(t)).is_ok()));
        let ok = r?;
        c.note(|| format!("try_append_to_string to {before:?} under {plan:?}: ok={ok} {l:?}, destination {dest:?}"));
        ensure_eq!(l.balance, dest.capacity() as i64 - cap as i64, "leak", "allocator balance of appending {what}");
        if ok {
            ensure_eq!(dest[..len], before[..len.min(before.len())], "destination damaged", "what was in the destination before {what}");
            ensure_eq!(&dest[len..], full, "truncated or wrong text", "appending {what}");
            return Ok(());
        }
        ensure!(l.failed > 0, "spurious failure", "appending {what} failed although no allocation did");
        ensure!(dest.starts_with(before), "destination damaged", "a failed append of {what} left {dest:?}");
        ensure!(full.starts_with(&dest[before.len()..]), "destination damaged", "a failed append of {what} left {dest:?}");
        ensure!(attempt == 0, "retry failed", "appending {what} failed without any fault");
        c.probe("failed_then_retried");
        dest.truncate(before.len());
        plan = Plan::Never;
    }
    Ok(())
}

fn whole(c: &mut Ctx, name: &'static str, full: &str, what: &str, f: &dyn Fn() -> Option<String>) -> Res {
    let mut plan = c.alloc_plan();
    for attempt in 0..2 {
        c.op(name);
        let (r, l) = c.armed(plan, || no_panic(name, f));
        let r = r?;
        c.note(|| format!("{name} under {plan:?}: {r:?} {l:?}"));
        let held = r.as_ref().map_or(0, |s| s.capacity()) as i64;
        ensure_eq!(l.balance, held, "leak", "allocator balance of {name} of {what}");
        match r {
            Some(s) => {
                ensure_eq!(s.as_str(), full, "truncated or wrong text", "{name} of {what}");
                return Ok(());
            }
            None => {
                ensure!(l.failed > 0, "spurious failure", "{name} of {what} failed although no allocation did");
                ensure!(attempt == 0, "retry failed", "{name} of {what} failed without any fault");
                c.probe("failed_then_retried");
                plan = Plan::Never;
            }
        }
    }
    Ok(())
}

/// The fallible in-place and by-value operations.
fn conversions(c: &mut Ctx) -> Res {
    let mut sw = Swarm::draw(c);
    sw.wide = true;
    let kind = *c.pick(&g::KINDS);
    let s = gen::ident(c, sw, true, kind);
    let Some(mut own) = Own::<IriSpec>::new(kind, &s) else { return Ok(()) };
    if c.chance(1, 2) {
        each!(&mut own, v => v.shrink_to_fit());
    }
    let plan = c.alloc_plan();
    match c.below(3) {
        0 => {
            c.op("try_encode_into_uri");
            let copy = own.clone();
            let cap = each!(&copy, v => v.capacity());
            let (r, l) = c.armed(plan, || {
                no_panic("try_encode_into_uri", || {
                    let r: Result<Own<UriSpec>, ()> = (|| Ok(each_to!(copy, v => v.try_encode_into_uri().map_err(|_| ())?)))();
                    r
                })
            });
            let r = r?;
            c.note(|| format!("try_encode_into_uri of {s:?} under {plan:?}: {r:?} {l:?}"));
            match r {
                Ok(u) => {
                    ensure_eq!(u.as_str(), pct::iri_to_uri(&s), "truncated or wrong text", "encoding {s:?}");
                    let held = each!(&u, v => v.capacity()) as i64;
                    ensure_eq!(l.balance, held - cap as i64, "leak", "allocator balance of encoding {s:?}");
                }
                Err(()) => {
                    ensure!(l.failed > 0, "spurious failure", "encoding {s:?} failed although no allocation did");
                    ensure_eq!(l.balance, -(cap as i64), "leak", "allocator balance of encoding {s:?}");
                }
            }
        }
        1 => {
            c.op("try_encode_to_uri_inline");
            let cap = each!(&own, v => v.capacity());
            let (r, l) = c.armed(plan, || no_panic("try_encode_to_uri_inline", || each!(&mut own, v => v.try_encode_to_uri_inline().is_ok())));
            let ok = r?;
            c.note(|| format!("try_encode_to_uri_inline of {s:?} under {plan:?}: ok={ok} {l:?}"));
            ensure!(ok || l.failed > 0, "spurious failure", "encoding {s:?} failed although no allocation did");
            let expect = if ok { pct::iri_to_uri(&s) } else { s.clone() };
            ensure_eq!(own.as_str(), expect, "truncated or wrong text", "encoding {s:?}, ok={ok}");
            ensure_eq!(l.balance, each!(&own, v => v.capacity()) as i64 - cap as i64, "leak", "allocator balance of encoding {s:?}");
        }
        _ => {
            c.op("try_replace_host");
            let h = gen::host(c, sw, true);
            let cap = each!(&own, v => v.capacity());
            let (r, l) = c.armed(plan, || {
                no_panic("try_replace_host", || each!(&mut own, v => v.try_replace_host(&h).map(|o| o.is_some()).map_err(|_| ())))
            });
            let r = r?;
            c.note(|| format!("try_replace_host of {s:?} by {h:?} under {plan:?}: {r:?} {l:?}"));
            ensure_eq!(l.balance, each!(&own, v => v.capacity()) as i64 - cap as i64, "leak", "allocator balance of replacing the host");
            match r {
                Err(()) => {
                    ensure!(l.failed > 0, "spurious failure", "replacing the host failed although no allocation did");
                    ensure_eq!(own.as_str(), s.as_str(), "truncated or wrong text", "failed replacement of the host");
                }
                Ok(done) => {
                    let mut m = g::split(&s);
                    if done {
                        let mut a = g::split_auth(m.authority.as_deref().unwrap_or(""));
                        a.host = h.clone();
                        m.authority = Some(g::compose_auth(&a));
                    }
                    ensure_eq!(own.as_str(), g::compose(&m), "truncated or wrong text", "replacing the host of {s:?} by {h:?}");
                }
            }
        }
    }
    Ok(())
}

/// Expansion into a string appends or fails, but is no fallible-memory interface: only
/// the refusal is checked here.
fn dynamic(c: &mut Ctx) -> Res {
    let t = gt::valid(c);
    let Some(chunks) = template::parse(&t) else { return Ok(()) };
    let ctx = gt::context_for(c, &chunks);
    let Ok(tt) = iri_string::template::UriTemplateStr::new(&t) else { return Ok(()) };
    c.op("expand_dynamic to fixed buffer");
    let mut d = DynContext { inner: ctx, events: vec![] };
    let Ok(full) = no_panic("expand_dynamic_to_string", || tt.expand_dynamic_to_string::<UriSpec, _>(&mut d).map_err(|_| ()))? else {
        return Ok(());
    };
    let Ok(e) = tt.expand::<UriSpec, _>(&d.inner) else { return Ok(()) };
    slice(c, &e, &full, "expansion")?;
    append(c, &e, &full, "expansion")
}

#[allow(dead_code)]
fn unused(_: &IriStr) {}
