//! C22: feature sets differ in what they offer, not in how it behaves.
//!
//! This workload only uses what every feature set offers, and writes down everything it
//! observes. The same seeds run on builds with different features; the supervisor compares
//! the histories. What exists with `alloc` only is written into a second history.

use crate::ctx::{Ctx, Res};
use crate::env::sink::{Plan, Sink};
use crate::env::InjectedPanic;
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::model::grammar::{self as g, Kind};
use crate::model::pct::{Comp, COMPS};
use crate::model::template;
use iri_string::build::Builder;
use iri_string::format::write_to_slice;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use iri_string::validate;
use std::fmt::{Display, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Calls into the library and writes down the outcome, whatever it is.
fn see(c: &mut Ctx, what: &str, f: impl FnOnce() -> String) -> Option<String> {
    let r = caught(f);
    c.see(&format!("{what}: {}", r.as_deref().unwrap_or_else(|e| e)));
    r.ok()
}
#[cfg(feature = "a")]
fn see_alloc(c: &mut Ctx, what: &str, f: impl FnOnce() -> String) {
    let r = caught(f);
    c.see_alloc(&format!("{what}: {}", r.unwrap_or_else(|e| e)));
}
fn caught(f: impl FnOnce() -> String) -> Result<String, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => Ok(s),
        Err(e) if e.is::<InjectedPanic>() => Err("injected panic".into()),
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default()
        )),
    }
}

/// Renders into a good sink, a faulty sink and a bounded slice. Where the text was cut into
/// writes is not part of the behaviour, so the faults depend on the number of bytes only.
fn renders(c: &mut Ctx, what: &str, t: &dyn Display) {
    let mut good = Sink::new(Plan::Good);
    see(c, what, || {
        let r = write!(good, "{t}");
        format!("{r:?} {:?}", good.accepted)
    });
    let len = good.accepted.len() as u32;
    let mut s = Sink::new(Plan::Capacity(c.below(len.min(60) + 2), true));
    see(c, what, || {
        let r = write!(s, "{t}");
        format!("{:?} {r:?} {:?}", s.plan, s.accepted)
    });
    c.sink_done(&s);
    let mut buf = [b'#'; 64];
    let n = c.below(len.min(62) + 2) as usize;
    see(c, what, || {
        let r = write_to_slice(&mut buf[..n], &t).map(|s| s.to_string());
        // After an error the buffer's content depends on where the writes were cut.
        format!("{n} {r:?} {:?}", &buf[n..])
    });
    #[cfg(feature = "a")]
    see_alloc(c, what, || {
        use iri_string::format::{try_append_to_string, ToStringFallible};
        let mut s = String::from("x");
        let r = try_append_to_string(&mut s, &t);
        format!("{:?} {} {r:?} {s:?}", t.try_to_string(), t)
    });
}

pub fn run(c: &mut Ctx) -> Res {
    match c.below(7) {
        0 | 1 => {
            if c.below(2) == 0 {
                texts::<UriSpec>(c)
            } else {
                texts::<IriSpec>(c)
            }
        }
        2 => {
            if c.below(2) == 0 {
                built::<UriSpec>(c)
            } else {
                built::<IriSpec>(c)
            }
        }
        3 => {
            if c.below(2) == 0 {
                templates::<UriSpec>(c)
            } else {
                templates::<IriSpec>(c)
            }
        }
        4 => {
            if c.below(2) == 0 {
                encoded::<UriSpec>(c)
            } else {
                encoded::<IriSpec>(c)
            }
        }
        5 => {
            if c.below(2) == 0 {
                edited::<UriSpec>(c)
            } else {
                edited::<IriSpec>(c)
            }
        }
        _ => decoded(c),
    }
    // Histories that observed different things are different histories.
    c.shape(c.seen[0]);
    Ok(())
}

fn iri_of<S: Spec + 'static, T: 'static + ?Sized, U: 'static + ?Sized>(v: &T) -> Option<&U> {
    // The same type under another name, if it is the same type.
    (std::any::TypeId::of::<T>() == std::any::TypeId::of::<U>() && std::any::TypeId::of::<S>() == std::any::TypeId::of::<IriSpec>())
        .then(|| unsafe { std::mem::transmute_copy::<&T, &U>(&v) })
}

fn texts<S: Spec + 'static>(c: &mut Ctx) {
    let iri = std::any::TypeId::of::<S>() == std::any::TypeId::of::<IriSpec>();
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let text = gen::near(c, sw, iri, kind);
    let base = gen::ident(c, sw, iri, Kind::Abs);
    let alt = gt::val(c);
    c.op("texts");
    c.see(&format!("{text:?} and {base:?}"));
    macro_rules! checks {
        ($($f:ident)*) => { $(see(c, stringify!($f), || format!("{:?}", validate::$f::<S>(&text)));)* };
    }
    checks!(iri iri_reference absolute_iri relative_ref path path_segment query fragment);
    checks!(authority host userinfo reg_name);
    see(c, "scheme", || format!("{:?} {:?}", validate::scheme(&text), validate::port(&text)));
    // Components by themselves.
    for (k, part) in text.split(['/', '?', '#', '@']).enumerate().take(6) {
        see(c, "part", || {
            format!(
                "{k} {part:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                validate::authority::<S>(part),
                validate::host::<S>(part),
                validate::userinfo::<S>(part),
                validate::reg_name::<S>(part),
                validate::scheme(part),
                validate::port(part)
            )
        });
    }
    macro_rules! one {
        ($ty:ident, $owned:ident, $($getter:ident)*) => {{
            let what = stringify!($ty);
            see(c, what, || match $ty::<S>::new(&text) {
                Ok(v) => format!("{v:?} {v}"),
                Err(e) => format!("{e:?} {e}"),
            });
            if let Ok(Ok(v)) = catch_unwind(|| $ty::<S>::new(&text)) {
                $(see(c, stringify!($getter), || format!("{:?}", v.$getter()));)*
                see(c, "authority", || match v.authority_components() {
                    None => String::new(),
                    Some(a) => format!("{a:?} {:?} {:?} {:?} {:?}", a.userinfo(), a.host(), a.port(), a.reg_name()),
                });
                let m = v.mask_password();
                renders(c, "mask", &m);
                renders(c, "replaced password", &m.replace_password(&alt));
                renders(c, "computed password", &m.replace_password_with(|p| format!("{}{alt}", p.len())));
                if let Some(v) = iri_of::<S, $ty<S>, $ty<IriSpec>>(v) {
                    renders(c, "as URI", &v.encode_to_uri());
                    see(c, "as_uri", || format!("{:?}", v.as_uri()));
                }
                #[cfg(feature = "a")]
                see_alloc(c, "owned", || {
                    let mut o = $owned::<S>::try_from(text.clone()).map_err(|_| ()).unwrap();
                    let mut log = format!("{o:?} {:?}", v.to_owned());
                    if let Some(o) = (&mut o as &mut dyn std::any::Any).downcast_mut::<$owned<IriSpec>>() {
                        o.encode_to_uri_inline();
                        log.push_str(o.as_str());
                    }
                    log
                });
            }
        }};
    }
    one!(RiStr, RiString, scheme_str authority_str path_str query_str fragment_str is_normalized is_normalized_rfc3986 is_normalized_but_authorityless_relative_path_preserved ensure_rfc3986_normalizable to_absolute_and_fragment to_absolute);
    one!(RiAbsoluteStr, RiAbsoluteString, scheme_str authority_str path_str query_str is_normalized is_normalized_rfc3986 is_normalized_but_authorityless_relative_path_preserved ensure_rfc3986_normalizable);
    one!(RiReferenceStr, RiReferenceString, scheme_str authority_str path_str query_str fragment_str to_iri);
    one!(RiRelativeStr, RiRelativeString, authority_str path_str query_str fragment_str);
    macro_rules! piece {
        ($ty:ident) => {{
            see(c, stringify!($ty), || match $ty::<S>::new(&text) {
                Ok(v) => format!("{v:?}"),
                Err(e) => format!("{e:?} {e}"),
            });
            let part = text.rsplit(['#', '?']).next().unwrap_or("");
            see(c, stringify!($ty), || format!("{part:?} {:?}", $ty::<S>::new(part)));
        }};
    }
    piece!(RiFragmentStr);
    piece!(RiQueryStr);
    if let Ok(v) = RiStr::<S>::new(&text) {
        renders(c, "normalized", &v.normalize());
        renders(c, "normalized, path preserved", &v.normalize_but_preserve_authorityless_relative_path());
        #[cfg(feature = "a")]
        see_alloc(c, "normalized", || {
            use iri_string::format::ToDedicatedString;
            format!("{:?}", v.normalize().to_dedicated_string())
        });
    }
    let (Ok(b), Ok(r)) = (RiAbsoluteStr::<S>::new(&base), RiReferenceStr::<S>::new(&text)) else { return };
    let resolver = FixedBaseResolver::new(b);
    see(c, "resolver", || format!("{:?} {:?} {:?}", resolver.scheme_str(), resolver.authority_str(), resolver.path_str()));
    let n = resolver.resolve(r);
    see(c, "normalizable", || format!("{:?} {:?}", n.ensure_rfc3986_normalizable(), resolver.resolve(r).and_normalize().ensure_rfc3986_normalizable()));
    renders(c, "resolved", &n);
    renders(c, "resolved, normalized", &r.resolve_against(b).and_normalize());
    renders(c, "resolved, path preserved", &r.resolve_against(b).and_normalize_but_preserve_authorityless_relative_path());
}

/// Bytes which may not be text, comparisons, and (with memory) a history of edits.
fn edited<S: Spec + 'static>(c: &mut Ctx) {
    let iri = std::any::TypeId::of::<S>() == std::any::TypeId::of::<IriSpec>();
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let text = gen::ident(c, sw, iri, kind);
    let other = if c.chance(1, 3) { gen::ident(c, sw, iri, kind) } else { gen::related(c, &text) };
    let mut bytes = if c.chance(1, 4) { gt::near(c).into_bytes() } else { text.clone().into_bytes() };
    if c.chance(2, 3) {
        let i = c.below(bytes.len() as u32 + 1) as usize;
        bytes.insert(i, *c.pick(b"\xff\xc3\x80\0%"));
    }
    // What is done is drawn whether or not it can be done here.
    let steps: Vec<(u32, Option<String>)> = (0..1 + c.below(8))
        .map(|_| {
            let f = c.chance(3, 4).then(|| gen::fragment(c, sw, iri));
            (c.below(12), f)
        })
        .collect();
    c.op("edited");
    c.see(&format!("{text:?} {other:?} {bytes:?} {steps:?}"));
    macro_rules! bytes {
        ($($ty:ty)*) => {$(
            see(c, stringify!($ty), || match <&$ty>::try_from(&bytes[..]) {
                Ok(v) => format!("{v:?}"),
                Err(e) => format!("{e:?} {e}"),
            });
        )*};
    }
    bytes!(RiStr<S> RiAbsoluteStr<S> RiReferenceStr<S> RiRelativeStr<S> RiQueryStr<S> RiFragmentStr<S> UriTemplateStr);
    see(c, "compared", || {
        let (a, b) = (RiReferenceStr::<S>::new(&text), RiReferenceStr::<S>::new(&other));
        match (a, b) {
            (Ok(a), Ok(b)) => format!("{} {:?} {:?}", a == b, a.cmp(b), a.partial_cmp(other.as_str())),
            (a, b) => format!("{a:?} {b:?}"),
        }
    });
    #[cfg(feature = "a")]
    {
        macro_rules! edits {
            ($owned:ident $slice:ident; $($extra:tt)*) => {
                see_alloc(c, stringify!($owned), || {
                    let mut o = match $owned::<S>::try_from(text.clone()) {
                        Ok(o) => o,
                        Err(e) => return format!("{e:?} {e} {:?}", e.clone().into_source()),
                    };
                    let mut log = String::new();
                    for (what, f) in &steps {
                        match what {
                            0 | 1 => o.remove_password_inline(),
                            2 | 3 => o.remove_nonempty_password_inline(),
                            4 => log += &format!("{:?} ", $owned::<S>::try_from(&bytes[..]).is_ok()),
                            5 => {
                                use iri_string::format::ToDedicatedString;
                                log += o.mask_password().to_dedicated_string().as_str();
                            }
                            6 => {
                                let b: Box<$slice<S>> = o.into();
                                o = (*b).to_owned();
                            }
                            7 => {
                                let t: String = o.into();
                                o = $owned::<S>::try_from(t).unwrap();
                            }
                            8 => o = std::borrow::Cow::from(&*o).into_owned(),
                            _ => edit!($($extra)* S o f),
                        }
                        log += &format!("{what} {o:?} ");
                    }
                    log
                });
            };
        }
        macro_rules! edit {
            (fragment $s:ident $o:ident $f:ident) => {
                $o.set_fragment($f.as_deref().and_then(|f| RiFragmentStr::<$s>::new(f).ok()))
            };
            (none $s:ident $o:ident $f:ident) => {{
                let _ = $f;
            }};
        }
        edits!(RiString RiStr; fragment);
        edits!(RiAbsoluteString RiAbsoluteStr; none);
        edits!(RiReferenceString RiReferenceStr; fragment);
        edits!(RiRelativeString RiRelativeStr; fragment);
        see_alloc(c, "parts", || match RiReferenceString::<S>::try_from(text.clone()).map(|r| r.into_iri()) {
            Ok(Ok(i)) => format!("{:?} {:?}", i.clone().into_absolute(), i.into_absolute_and_fragment()),
            Ok(Err(r)) => format!("{r:?}"),
            Err(e) => format!("{e:?}"),
        });
    }
}

fn built<S: Spec + 'static>(c: &mut Ctx) {
    let iri = std::any::TypeId::of::<S>() == std::any::TypeId::of::<IriSpec>();
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let mut p = gen::parts(c, sw, iri, kind);
    if c.chance(1, 4) {
        gen::mutate(c, &mut p.path);
    }
    let mut a = p.authority.as_deref().map(g::split_auth);
    if let (Some(a), true) = (&mut a, c.chance(1, 5)) {
        gen::mutate(c, &mut a.host);
    }
    let norm = c.chance(1, 2);
    c.op("built");
    c.see(&format!("{p:?} normalize={norm}"));
    let mut b = Builder::new();
    if let Some(s) = &p.scheme {
        b.scheme(s);
    }
    let mut ip = None;
    if let Some(a) = &a {
        if let Some(u) = &a.userinfo {
            match u.split_once(':') {
                Some((n, pw)) if norm => b.userinfo((n, pw)),
                _ => b.userinfo(u.as_str()),
            }
        }
        b.host(&a.host);
        if let Some(x) = &a.port {
            match x.parse::<u16>() {
                Ok(n) if !norm => b.port(n),
                _ => b.port(x.as_str()),
            }
        }
        ip = a.host.trim_matches(['[', ']']).parse::<std::net::IpAddr>().ok();
    }
    let _ = ip;
    b.path(&p.path);
    if let Some(s) = &p.query {
        b.query(s);
    }
    if let Some(s) = &p.fragment {
        b.fragment(s);
    }
    if norm {
        b.normalize();
    }
    macro_rules! go {
        ($ty:ident) => {{
            see(c, stringify!($ty), || match b.clone().build::<$ty<S>>() {
                Ok(t) => format!("{t:?} {:?}", t.ensure_rfc3986_normalizable()),
                Err(e) => format!("{e:?} {e}"),
            });
            if let Ok(Ok(t)) = catch_unwind(AssertUnwindSafe(|| b.clone().build::<$ty<S>>())) {
                renders(c, stringify!($ty), &t);
            }
        }};
    }
    go!(RiStr);
    go!(RiAbsoluteStr);
    go!(RiReferenceStr);
    go!(RiRelativeStr);
}

fn templates<S: Spec + 'static>(c: &mut Ctx) {
    let near = gt::near(c);
    let valid = gt::valid(c);
    c.op("templates");
    see(c, "near", || match UriTemplateStr::new(&near) {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("{near:?} {e:?} {e}"),
    });
    let chunks = template::parse(&valid).unwrap_or_default();
    let ctx = gt::context_for(c, &chunks);
    for text in [&near, &valid] {
        let Ok(Ok(t)) = catch_unwind(|| UriTemplateStr::new(text)) else { continue };
        see(c, "variables", || format!("{text:?} {:?}", t.variables().map(|v| v.as_str()).collect::<Vec<_>>()));
        see(c, "expand", || match t.expand::<S, _>(&ctx) {
            Ok(_) => "ok".into(),
            Err(e) => format!("{e:?} {e}"),
        });
        if let Ok(e) = t.expand::<S, _>(&ctx) {
            renders(c, "expansion", &e);
        }
        let mut s = Sink::new(Plan::Capacity(c.below(40), true));
        see(c, "expand_dynamic", || {
            let mut d = crate::env::context::DynContext { inner: ctx.clone(), events: vec![] };
            let r = t.expand_dynamic::<S, _, _>(&mut s, &mut d);
            format!("{:?} {:?} {:?}", r.map_err(|e| e.to_string()), s.accepted, d.events)
        });
        c.sink_done(&s);
        #[cfg(feature = "a")]
        see_alloc(c, "to string", || {
            use iri_string::template::UriTemplateString;
            let mut d = crate::env::context::DynContext { inner: ctx.clone(), events: vec![] };
            let r = t.expand_dynamic_to_string::<S, _>(&mut d);
            let o = UriTemplateString::try_from(text.as_str()).map(|o| (o.clone(), Box::<UriTemplateStr>::from(o)));
            format!("{:?} {:?} {o:?}", r.map_err(|e| e.to_string()), d.events)
        });
    }
}

fn percent<S: Spec, T: Display>(comp: Comp, v: T) -> PercentEncoded<T, S> {
    match comp {
        Comp::RegName => PercentEncoded::from_reg_name(v),
        Comp::User => PercentEncoded::from_user(v),
        Comp::Password => PercentEncoded::from_password(v),
        Comp::PathSegment => PercentEncoded::from_path_segment(v),
        Comp::Path => PercentEncoded::from_path(v),
        Comp::Query => PercentEncoded::from_query(v),
        Comp::Fragment => PercentEncoded::from_fragment(v),
        Comp::Unreserve => PercentEncoded::unreserve(v),
        Comp::Characters => PercentEncoded::characters(v),
    }
}

fn encoded<S: Spec>(c: &mut Ctx) {
    let v = gt::val(c);
    c.op("encoded");
    c.see(&format!("{:?}", v.pieces));
    for comp in COMPS {
        renders(c, &format!("{comp:?}"), &percent::<S, _>(comp, &v));
    }
}

fn decoded(c: &mut Ctx) {
    let mut text = gt::value_text(c);
    if c.chance(1, 2) {
        gen::mutate(c, &mut text);
    }
    let mut bytes = text.into_bytes();
    for _ in 0..c.below(3) {
        let i = c.below(bytes.len() as u32 + 1) as usize;
        let b = *c.pick(b"%%4fF\xff\xc3\xa9\x80");
        bytes.insert(i, b);
    }
    c.op("decoded");
    let d = decode_whatwg_bytes(&bytes);
    let mut fr = d.bytes_fragments();
    see(c, "fragments", || {
        use iri_string::percent_encode::decode::DecodedFragment as F;
        let mut all = Vec::new();
        let mut strays = Vec::new();
        // How the bytes are cut into fragments is not looked at, only what they give.
        for f in fr.by_ref() {
            match f {
                F::Direct(b) => all.extend_from_slice(b),
                F::DecodedByte(b) => all.push(b),
                F::StrayPercent => strays.push(all.len()),
            }
        }
        format!("{bytes:?} {all:?} {strays:?} {:?}", fr.not_yet_decoded())
    });
    see(c, "whole", || format!("{:?}", d.not_yet_decoded()));
    #[cfg(feature = "a")]
    see_alloc(c, "into", || format!("{:?} {:?} {:?}", d.to_bytes(), d.into_bytes(), d.into_string()));
}
