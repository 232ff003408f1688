//! C08: a masked password never reaches any output, and nothing else is altered.

use super::c04::judge;
use crate::ctx::{guarded, no_panic, vio, Ctx, Outcome, Res};
use crate::env::sink::{Plan, Sink};
use crate::env::value::{End, Val};
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::{Own, Sp};
use crate::model::grammar::{self as g, Parts};
use crate::{each, ensure, ensure_eq};
use iri_string::build::{Builder, UserinfoBuilder};
use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::cell::RefCell;
use std::fmt::{self, Debug, Display, Write};

pub fn run(c: &mut Ctx) -> Res {
    match c.below(8) {
        7 => builder_debug(c),
        n if n % 2 == 0 => outputs::<UriSpec>(c),
        _ => outputs::<IriSpec>(c),
    }
}

/// Where the password is: everything between the first colon of the user info and the at-sign.
fn password(p: &Parts) -> Option<(usize, usize)> {
    let a = g::split_auth(p.authority.as_deref()?);
    let u = a.userinfo?;
    let colon = u.find(':')?;
    let start = p.scheme.as_ref().map_or(0, |s| s.len() + 1) + 2;
    Some((start + colon + 1, start + u.len()))
}

fn subject<S: Sp>(c: &mut Ctx) -> (Own<S>, String) {
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let mut p = gen::parts(c, sw, S::IRI, kind);
    if c.chance(3, 4) {
        let mut a = g::split_auth(&p.authority.clone().unwrap_or_default());
        if c.chance(2, 3) || a.userinfo.is_none() {
            let secret = *c.pick(&["S3cret", "", ":", "pw", "a:b:c", "%40x", "u", "s", "//u:p"]);
            let secret = secret.replace('/', "%2f");
            a.userinfo = Some(format!("{}:{secret}", gen::text(c, sw, S::IRI, &[], 2)));
        }
        if p.authority.is_none() {
            p.path = format!("/{}", p.path.trim_start_matches('/'));
        }
        p.authority = Some(g::compose_auth(&a));
        if c.chance(1, 5) {
            // Look-alikes elsewhere.
            p.path = "//a:b@c".into();
            p.query = Some("//q:w@e".into());
        }
    }
    let s = g::compose(&p);
    match Own::<S>::new(kind, &s) {
        Some(o) => (o, s),
        None => panic!("valid {s:?} refused as {kind:?}"),
    }
}

/// A replacement which calls back into the library while it is being written.
struct Reentrant<'a> {
    iri: String,
    inner: &'a Val,
    log: RefCell<Vec<(&'static str, String)>>,
}
impl Display for Reentrant<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let masked = IriReferenceStr::new(&self.iri).map(|i| i.mask_password().to_string()).unwrap_or_default();
        self.log.borrow_mut().push(("http://u:@h/", masked));
        Display::fmt(self.inner, f)?;
        let masked = IriReferenceStr::new(&self.iri).map(|i| i.mask_password().replace_password("x").to_string()).unwrap_or_default();
        self.log.borrow_mut().push(("http://u:x@h/", masked));
        Ok(())
    }
}

fn outputs<S: Sp>(c: &mut Ctx) -> Res {
    let (own, s) = subject::<S>(c);
    let p = g::split(&s);
    let pw = password(&p);
    c.note(|| format!("{own:?}, password {:?}", pw.map(|(a, b)| &s[a..b])));
    if let Some((a, b)) = pw {
        c.probe(if a == b { "empty_password" } else { "password" });
    }
    let with = |alt: &str| match pw {
        Some((a, b)) => format!("{}{alt}{}", &s[..a], &s[b..]),
        None => s.clone(),
    };
    for _ in 0..1 + c.below(3) {
        match &own {
            Own::Full(v) => once(c, &v.mask_password(), &with, pw, &s)?,
            Own::Abs(v) => once(c, &v.mask_password(), &with, pw, &s)?,
            Own::Ref(v) => once(c, &v.mask_password(), &with, pw, &s)?,
            Own::Rel(v) => once(c, &v.mask_password(), &with, pw, &s)?,
        }
        if c.chance(1, 4) {
            inplace(c, own.clone(), &p, &s)?;
        }
    }
    Ok(())
}

fn inplace<S: Sp>(c: &mut Ctx, mut own: Own<S>, p: &Parts, s: &str) -> Res {
    let nonempty = c.chance(1, 2);
    c.op("remove in place");
    no_panic("remove_password_inline", || {
        each!(&mut own, v => if nonempty { v.remove_nonempty_password_inline() } else { v.remove_password_inline() })
    })?;
    let mut m = p.clone();
    if let Some((_, _)) = password(p) {
        let mut a = g::split_auth(p.authority.as_deref().unwrap_or(""));
        let u = a.userinfo.clone().unwrap_or_default();
        let colon = u.find(':').unwrap_or(0);
        a.userinfo = Some(if nonempty { u[..=colon].to_string() } else { u[..colon].to_string() });
        m.authority = Some(g::compose_auth(&a));
    }
    ensure_eq!(own.as_str(), g::compose(&m), "in-place removal", "removing the password of {s:?}, nonempty={nonempty}");
    Ok(())
}

/// What the library offers on a masked identifier of any kind.
trait Mask: Display + Debug {
    fn replace<'x>(&'x self, v: &'x dyn Display) -> (String, Box<dyn Both + 'x>);
    fn replace_with<'x>(&'x self, f: &'x mut dyn FnMut(&str) -> &'x dyn Display) -> Box<dyn Both + 'x>;
    fn dedicated(&self) -> String;
}
trait Both: Display + Debug {}
impl<T: Display + Debug> Both for T {}

macro_rules! mask {
    ($ty:ident) => {
        impl<S: Sp> Mask for iri_string::mask_password::PasswordMasked<'_, $ty<S>> {
            fn replace<'x>(&'x self, v: &'x dyn Display) -> (String, Box<dyn Both + 'x>) {
                (String::new(), Box::new(self.replace_password(v)))
            }
            fn replace_with<'x>(&'x self, f: &'x mut dyn FnMut(&str) -> &'x dyn Display) -> Box<dyn Both + 'x> {
                Box::new(self.replace_password_with(f))
            }
            fn dedicated(&self) -> String {
                self.to_dedicated_string().into()
            }
        }
    };
}
mask!(RiStr);
mask!(RiAbsoluteStr);
mask!(RiReferenceStr);
mask!(RiRelativeStr);

fn sinks(c: &mut Ctx, t: &dyn Both, full: &str, what: &str) -> Res {
    let good = no_panic("masked Display", || t.to_string())?;
    ensure_eq!(good, full, "wrong masked text", "{what}");
    for _ in 0..c.below(3) {
        let debug = c.chance(1, 3);
        let full = if debug { format!("<{full}>") } else { full.to_string() };
        let mut k = Sink::new(Plan::draw(&mut c.src, full.len()));
        let r = guarded("masked output", || if debug { write!(k, "{t:?}") } else { write!(k, "{t}") })?;
        judge(c, what, &full, &k, &r)?;
    }
    Ok(())
}

fn once(c: &mut Ctx, m: &dyn Mask, with: &dyn Fn(&str) -> String, pw: Option<(usize, usize)>, s: &str) -> Res {
    match c.below(5) {
        0 | 1 => {
            c.op("mask");
            let full = with("");
            let t = no_panic("masked Display", || m.to_string())?;
            ensure_eq!(t, full, "wrong masked text", "masking {s:?}");
            let d = no_panic("masked Debug", || format!("{m:?}"))?;
            ensure_eq!(d, format!("<{full}>"), "wrong masked text", "debug output of masked {s:?}");
            for _ in 0..c.below(3) {
                let debug = c.chance(1, 3);
                let full = if debug { format!("<{full}>") } else { full.clone() };
                let mut k = Sink::new(Plan::draw(&mut c.src, full.len()));
                let r = guarded("masked output", || if debug { write!(k, "{m:?}") } else { write!(k, "{m}") })?;
                judge(c, &format!("masking {s:?}"), &full, &k, &r)?;
            }
            let o = no_panic("to_dedicated_string", || m.dedicated())?;
            ensure_eq!(o, full, "wrong masked text", "masking {s:?} into a typed string");
        }
        2 => {
            let v = gt::val(c);
            let re = Reentrant { iri: "http://u:hidden@h/".into(), inner: &v, log: RefCell::default() };
            let reentrant = c.chance(1, 4);
            c.op(if reentrant { "replace, re-entrant" } else { "replace" });
            let alt = v.text();
            let full = with(&alt);
            c.note(|| format!("replace by {:?}", v.pieces));
            let t = if reentrant { m.replace(&re).1 } else { m.replace(&v).1 };
            sinks(c, &*t, &full, &format!("replacing the password of {s:?} by {alt:?}"))?;
            drop(t);
            for (expect, got) in re.log.borrow().iter() {
                ensure_eq!(got, expect, "wrong masked text", "masking from inside a replacement");
            }
        }
        3 => {
            c.op("replace with callback");
            let v = gt::val(c);
            let alt = v.text();
            let mut calls = Vec::new();
            {
                let mut f = |p: &str| -> &dyn Display {
                    calls.push(p.to_string());
                    &v
                };
                let t = no_panic("replace_password_with", || m.replace_with(&mut f))?;
                sinks(c, &*t, &with(&alt), &format!("replacing the password of {s:?} by {alt:?}"))?;
            }
            let expect: Vec<String> = pw.iter().map(|(a, b)| s[*a..*b].to_string()).collect();
            ensure_eq!(calls, expect, "callback arguments", "passwords handed to the callback for {s:?}");
        }
        _ => {
            // The replacement itself fails or panics.
            let mut v = gt::val(c);
            v.end = if c.chance(1, 2) { End::Panic } else { End::Fail };
            c.op("replace, failing replacement");
            let alt = v.text();
            c.note(|| format!("replacement {:?} ending in {:?}", v.pieces, v.end));
            let (_, t) = m.replace(&v);
            let mut k = Sink::new(Plan::Good);
            let r = guarded("replaced output", || write!(k, "{t}"))?;
            match pw {
                None => {
                    ensure!(matches!(r, Outcome::Done(Ok(()))), "replacement used", "no password in {s:?}, yet the replacement was written: {r:?}");
                    ensure_eq!(k.accepted.as_str(), s, "wrong masked text", "{s:?} has no password");
                }
                Some((a, _)) => {
                    c.fault(if v.end == End::Panic { "value_panic" } else { "value_error" });
                    let ok = match v.end {
                        End::Panic => r == Outcome::Injected,
                        _ => r == Outcome::Done(Err(fmt::Error)),
                    };
                    ensure!(ok, "error swallowed", "replacement for {s:?} ended in {:?} but writing gave {r:?}", v.end);
                    ensure_eq!(k.accepted, format!("{}{alt}", &s[..a]), "wrong masked text", "{s:?} with a failing replacement {alt:?}");
                }
            }
        }
    }
    Ok(())
}

/// The builder holds passwords too, and hides them from its debug output.
fn builder_debug(c: &mut Ctx) -> Res {
    c.op("debug of a builder");
    const SECRETS: [&str; 4] = ["QQSECRETQQ", "QQ:SEC:QQ", "QQ", "%51%51"];
    let secret = *c.pick(&SECRETS);
    let user = *c.pick(&["u", "", "user"]);
    let direct = format!("{user}:{secret}");
    let ui: UserinfoBuilder = match c.below(3) {
        0 => UserinfoBuilder::from((user, secret)),
        1 => UserinfoBuilder::from((user, Some(secret))),
        _ => UserinfoBuilder::from(direct.as_str()),
    };
    let iri_text = format!("s://{direct}@h/");
    let mut b = if c.chance(1, 4) {
        match IriReferenceStr::new(&iri_text) {
            Ok(i) => Builder::from(i),
            Err(_) => return vio("valid text refused", iri_text),
        }
    } else {
        let mut b = Builder::new();
        b.scheme("s");
        b.host("h");
        b.userinfo(ui.clone());
        b
    };
    if c.chance(1, 2) {
        b.normalize();
    }
    c.note(|| format!("builder with user info {direct:?}"));
    let pretty = c.chance(1, 3);
    let plan = Plan::draw(&mut c.src, 200);
    let mut k = Sink::new(plan);
    let built = b.clone().build::<IriStr>();
    let which = c.below(3);
    let r = guarded("debug output", || match (which, &built) {
        (0, _) => write!(k, "{ui:?}"),
        (1, Ok(t)) => {
            if pretty {
                write!(k, "{t:#?}")
            } else {
                write!(k, "{t:?}")
            }
        }
        _ => {
            if pretty {
                write!(k, "{b:#?}")
            } else {
                write!(k, "{b:?}")
            }
        }
    })?;
    c.sink_done(&k);
    c.note(|| format!("{plan:?}: {r:?} {:?}", k.accepted));
    for t in [&k.accepted, &k.offered, &k.offered_after_error] {
        ensure!(!t.contains(secret) && !t.contains("SEC") && !t.contains("QQ"), "password in debug output", "{t:?} contains {secret:?}");
    }
    Ok(())
}
