//! C04: streaming to a failing sink gives an exact prefix, and is repeatable.

use crate::ctx::{guarded, no_panic, Ctx, Outcome, Res};
use crate::env::context::DynContext;
use crate::env::sink::{Plan, Sink};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::template;
use crate::render::{self, Item};
use crate::{ensure, ensure_eq};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::UriTemplateStr;
use std::fmt::{self, Write};

pub fn run(c: &mut Ctx) -> Res {
    if c.below(6) == 5 {
        return if c.below(2) == 0 { dynamic::<UriSpec>(c) } else { dynamic::<IriSpec>(c) };
    }
    render::any(c, &mut |c, it| check(c, it))
}

/// Judges one rendering into a sink. `full` is what a good sink gets.
pub fn judge(c: &mut Ctx, what: &str, full: &str, sink: &Sink, r: &Outcome<fmt::Result>) -> Res {
    c.sink_done(sink);
    c.note(|| format!("sink {:?}: {r:?}, {} writes, accepted {:?}", sink.plan, sink.writes, sink.accepted));
    match r {
        Outcome::Done(Ok(())) => {
            ensure!(!sink.failed, "sink error swallowed", "rendering {what} returned Ok although the sink {:?} failed", sink.plan);
            ensure_eq!(sink.accepted.as_str(), full, "sink got different text", "rendering {what}");
        }
        Outcome::Done(Err(_)) => {
            ensure!(sink.failed, "spurious error", "rendering {what} failed although the sink {:?} did not", sink.plan);
        }
        Outcome::Injected => {
            ensure!(sink.failed, "spurious unwinding", "rendering {what} unwound without a panic of the sink");
        }
    }
    if sink.failed {
        ensure_eq!(sink.writes_after_error, 0, "write after error", "{what}: writes after the sink's error ({:?})", sink.offered_after_error);
        ensure!(
            full.starts_with(&sink.accepted),
            "not a prefix",
            "{what}: the sink accepted {:?}, no prefix of {full:?}",
            sink.accepted
        );
        ensure!(
            full.starts_with(&sink.offered),
            "not a prefix",
            "{what}: the sink was offered {:?}, no prefix of {full:?}",
            sink.offered
        );
        if !sink.accepted.is_empty() && sink.accepted.len() < full.len() {
            c.probe("interrupted_midway");
        }
    }
    Ok(())
}

fn check(c: &mut Ctx, it: &Item) -> Res {
    let what = format!("{} of {}", it.name, it.what);
    let mut good = Sink::new(Plan::Good);
    let r = no_panic(it.name, || write!(good, "{}", it.text))?;
    ensure!(r.is_ok(), "spurious error", "rendering {what} into a good sink failed");
    let full = good.accepted;
    c.note(|| format!("full text {full:?}"));
    let n = 1 + c.below(4);
    for _ in 0..n {
        let mut s = Sink::new(Plan::draw(&mut c.src, full.len()));
        let r = guarded(it.name, || write!(s, "{}", it.text))?;
        judge(c, &what, &full, &s, &r)?;
    }
    // Formatting flags may be ignored or apply to the text as a whole, but not to its parts.
    if c.chance(1, 3) {
        let k = c.below(7);
        let (got, whole) = no_panic("formatting with flags", || {
            let (t, f) = (it.text, &full);
            match k {
                0 => (format!("{t:.0}"), format!("{f:.0}")),
                1 => (format!("{t:.2}"), format!("{f:.2}")),
                2 => (format!("{t:>12}"), format!("{f:>12}")),
                3 => (format!("{t:*<3}"), format!("{f:*<3}")),
                4 => (format!("{t:^40.5}"), format!("{f:^40.5}")),
                5 => (format!("{t:#}"), full.clone()),
                _ => (format!("{t:+015}"), format!("{f:+015}")),
            }
        })?;
        c.op("formatting flags");
        ensure!(got == full || got == whole, "flags got inside", "{what} with formatting flags {k}: {got:?} instead of {full:?}");
    }
    // The object is unaffected.
    let mut again = Sink::new(Plan::Good);
    let r = no_panic(it.name, || write!(again, "{}", it.text))?;
    ensure!(r.is_ok(), "spurious error", "rendering {what} again failed");
    ensure_eq!(again.accepted, full, "not repeatable", "rendering {what} again");
    if let Some(d) = it.dedicated {
        let t = no_panic("try_to_dedicated_string", || d().map_err(|_| ()))?;
        ensure_eq!(t, Ok(full), "sink got different text", "dedicated string of {what}");
    }
    Ok(())
}

/// Expansion with a dynamic context writes into the sink directly.
fn dynamic<S: Sp>(c: &mut Ctx) -> Res {
    let t = gt::valid(c);
    let Some(chunks) = template::parse(&t) else { return Ok(()) };
    let ctx = gt::context_for(c, &chunks);
    let Ok(tt) = UriTemplateStr::new(&t) else { return Ok(()) };
    c.op("dynamic expansion");
    c.note(|| format!("dynamic expansion of {t:?} with {:?}", ctx.vars));
    let mut d = DynContext { inner: ctx, events: vec![] };
    let what = format!("dynamic expansion of {t:?} with {:?}", d.inner.vars);
    let mut good = Sink::new(Plan::Good);
    let ok = no_panic("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut good, &mut d).is_ok())?;
    let full = good.accepted;
    c.note(|| format!("full text {full:?} ok={ok}"));
    for _ in 0..1 + c.below(4) {
        let mut s = Sink::new(Plan::draw(&mut c.src, full.len()));
        let r = guarded("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut s, &mut d).map_err(|_| fmt::Error))?;
        if !ok && !s.failed {
            // Refused for a type mismatch: the same text up to there.
            c.note(|| format!("type mismatch; accepted {:?}", s.accepted));
            ensure!(matches!(r, Outcome::Done(Err(_))), "not repeatable", "{what}: failed before, now {r:?}");
            ensure_eq!(s.accepted, full, "not repeatable", "{what}: text before the type mismatch");
            continue;
        }
        judge(c, &what, &full, &s, &r)?;
    }
    let mut again = Sink::new(Plan::Good);
    let ok2 = no_panic("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut again, &mut d).is_ok())?;
    ensure_eq!((ok2, again.accepted), (ok, full), "not repeatable", "{what} again");
    Ok(())
}
