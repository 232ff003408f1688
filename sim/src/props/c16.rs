//! C16: serialized identifiers survive any transport delivery and bad input is refused.

use crate::ctx::{guarded, vio, Ctx, Outcome, Res};
use crate::env::transport::{Deliver, Fail, Wire, WireError, OTHERS, STRINGS};
use crate::gen::Swarm;
use crate::typed::{In, Typed};
use crate::{ensure, ensure_eq, with_typed};

pub fn run(c: &mut Ctx) -> Res {
    with_typed!(c, exchange)
}

fn note_fault(c: &mut Ctx, f: Fail) {
    match f {
        Fail::No => {}
        Fail::Before(_) => c.fault("transport_error_before"),
        Fail::After(_) => c.fault("transport_error_after"),
        Fail::Panic => c.fault("transport_panic"),
    }
}

/// Several messages through the transport, some good, some not.
fn exchange<T: Typed + ?Sized>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    for _ in 0..1 + c.below(4) {
        if c.below(3) == 2 {
            send::<T>(c, sw)?;
        } else {
            receive::<T>(c, sw)?;
        }
    }
    Ok(())
}

/// Judges what the type made of a delivery.
fn judge<T: Typed + ?Sized>(c: &mut Ctx, w: Wire, owned: bool, got: Outcome<Result<String, WireError>>) -> Res {
    let name = if owned { "owned" } else { "slice" };
    let what = format!("{} {name} from {w:?}", T::NAME);
    if !w.described {
        c.probe("format_without_descriptions");
    }
    c.note(|| format!("{what}: {got:?}"));
    let valid = T::grammar(w.text);
    let got = match (got, w.fail) {
        (Outcome::Injected, Fail::Panic) => {
            c.fault("transport_panic");
            return Ok(());
        }
        (Outcome::Injected, _) => panic!("harness: unwound without cause"),
        (Outcome::Done(r), Fail::Panic) => {
            ensure!(false, "transport panic swallowed", "{what} gave {r:?}");
            return Ok(());
        }
        (Outcome::Done(r), _) => r,
    };
    match w.fail {
        Fail::Before(n) => {
            note_fault(c, w.fail);
            ensure_eq!(got, Err(WireError::Transport(n)), "transport error changed", "{what}");
            return Ok(());
        }
        Fail::After(n) => {
            note_fault(c, w.fail);
            // Either the type had refused already, or the transport's error comes through.
            match &got {
                Err(WireError::Transport(m)) => ensure_eq!(*m, n, "transport error changed", "{what}"),
                Err(WireError::Type(_)) => ensure!(!takes(&w, owned) || !valid, "refused", "{what} was refused: {got:?}"),
                Ok(t) => ensure!(false, "transport error swallowed", "{what} gave {t:?}"),
            }
            return Ok(());
        }
        _ => {}
    }
    match got {
        Ok(t) => {
            c.probe("accepted");
            let sent = if w.how == Deliver::Char { w.text.chars().next().unwrap_or('a').to_string() } else { w.text.to_string() };
            ensure!(
                takes(&w, owned) || matches!(w.how, Deliver::Char | Deliver::Bytes | Deliver::BorrowedBytes | Deliver::ByteBuf),
                "accepted something else",
                "{what} gave {t:?}"
            );
            ensure_eq!(t, sent, "text changed", "{what}");
            ensure!(T::grammar(&t), "ill-formed text accepted", "{what} gave {t:?}");
        }
        Err(e) => {
            c.probe("refused");
            ensure!(!(takes(&w, owned) && valid), "valid text refused", "{what}: {e:?}");
            ensure!(!matches!(e, WireError::Transport(_)), "wrong error", "{what}: {e:?}");
        }
    }
    Ok(())
}

/// Whether this delivery is a string the type can keep.
fn takes(w: &Wire, owned: bool) -> bool {
    if owned {
        STRINGS.contains(&w.how)
    } else {
        w.how == Deliver::Borrowed
    }
}

fn receive<T: Typed + ?Sized>(c: &mut Ctx, sw: Swarm) -> Res {
    let text = if c.chance(1, 2) { T::near(c, sw) } else { T::generate(c, sw) };
    for _ in 0..1 + c.below(3) {
        let how = if c.below(3) == 2 { *c.pick(&OTHERS) } else { *c.pick(&STRINGS) };
        let w = Wire { text: &text, how, fail: Fail::draw(c), human: c.below(2) == 0, described: c.chance(2, 3) || !STRINGS.contains(&how) };
        let owned = c.below(2) == 0;
        // A place with a value from an earlier message.
        let mut place = match (owned && c.chance(1, 3)).then(|| T::generate(c, sw)) {
            Some(t) => match T::own_in(0, t.clone()) {
                In::Ok(v) => Some(v),
                _ => return vio("valid text refused", format!("{} {t:?}", T::NAME)),
            },
            None => None,
        };
        c.op("receive");
        c.shape(how as u64 * 2 + owned as u64);
        if how != Deliver::Borrowed {
            c.fault(if STRINGS.contains(&how) { "copied_delivery" } else { "wrong_token" });
        }
        let got = guarded("deserialize", || {
            if let Some(p) = &mut place {
                T::de_in_place(w, p).map(|()| T::slice(p).text().to_string())
            } else if owned {
                T::de_owned(w).map(|v| T::into_string(v))
            } else {
                T::de_borrowed(w).map(|v| v.text().to_string())
            }
        })?;
        if let Some(p) = place {
            // Whatever happened, what is there is well-formed.
            let t = T::into_string(p);
            c.probe("in_place");
            ensure!(T::grammar(&t), "ill-formed text accepted", "{} {w:?} left {t:?} in place", T::NAME);
        }
        judge::<T>(c, w, owned, got)?;
    }
    Ok(())
}

fn send<T: Typed + ?Sized>(c: &mut Ctx, sw: Swarm) -> Res {
    let text = T::generate(c, sw);
    let In::Ok(own) = T::own_in(0, text.clone()) else {
        ensure!(false, "valid text refused", "{} {text:?}", T::NAME);
        return Ok(());
    };
    for _ in 0..1 + c.below(2) {
        let fail = Fail::draw(c);
        let owned = c.below(2) == 0;
        c.op("send");
        let human = c.below(2) == 0;
        let mut got = Vec::new();
        let r = guarded("serialize", || if owned { T::ser_owned(&own, human, fail, &mut got) } else { T::slice(&own).ser(human, fail, &mut got) })?;
        let what = format!("{} {text:?} to a transport with {fail:?}, for people: {human}", T::NAME);
        c.note(|| format!("{what}: {r:?} {got:?}"));
        note_fault(c, fail);
        match fail {
            Fail::No => {
                ensure_eq!(r, Outcome::Done(Ok(())), "serialization failed", "{what}");
                ensure_eq!(got, vec![text.clone()], "wrong token", "{what}");
                // And back again.
                let back = guarded("deserialize", || T::de_owned(Wire::good(&got[0], Deliver::Transient)))?;
                ensure!(matches!(&back, Outcome::Done(Ok(v)) if *v == own), "round trip", "{what} came back as {back:?}");
            }
            Fail::Before(n) => {
                ensure_eq!(r, Outcome::Done(Err(WireError::Transport(n))), "transport error changed", "{what}");
                ensure!(got.is_empty(), "tried again", "{what}: {got:?}");
            }
            Fail::After(n) => {
                ensure_eq!(r, Outcome::Done(Err(WireError::Transport(n))), "transport error changed", "{what}");
                ensure_eq!(got, vec![text.clone()], "wrong token", "{what}");
            }
            Fail::Panic => ensure_eq!(r, Outcome::Injected, "transport panic swallowed", "{what}"),
        }
        ensure_eq!(T::slice(&own).text(), text.as_str(), "value changed", "{what}");
    }
    Ok(())
}
