//! C03: only well-formed text enters a typed string, by whatever route it came.

use crate::ctx::{no_panic, vio, Ctx, Res};
use crate::env::context::{CVal, SimContext};
use crate::env::value::Val;
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::{convert, from_text, getters, iri_ref, Conv, Own, Sp};
use crate::model::grammar::{self as g, Kind};
use crate::model::template;
use crate::typed::{In, Typed};
use crate::{each, each_to, ensure, ensure_eq, render, with_typed};
use iri_string::build::Builder;
use iri_string::format::ToDedicatedString;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;

pub fn run(c: &mut Ctx) -> Res {
    match c.below(8) {
        0..=2 => with_typed!(c, routes),
        3 if c.chance(1, 2) => components(c),
        3 => prefixed(c),
        _ => {
            if c.below(2) == 0 {
                walk::<UriSpec>(c)
            } else {
                walk::<IriSpec>(c)
            }
        }
    }
}

/// One text by every route into one type.
pub fn routes<T: Typed + ?Sized>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let text = T::near(c, sw);
    let want = T::grammar(&text);
    let what = format!("{} iri={} {text:?}", T::NAME, T::iri());
    c.note(|| format!("{what}: expected {want}"));
    c.probe(if want { "well_formed" } else { "ill_formed" });
    c.op("routes");
    c.op(T::NAME);
    let judge = |got: Option<&str>, route: &str| -> Res {
        match got {
            Some(t) => {
                ensure!(want, "ill-formed text accepted", "{what} by {route}");
                ensure_eq!(t, text.as_str(), "text changed", "{what} by {route}");
            }
            None => ensure!(!want, "valid text refused", "{what} by {route}"),
        }
        Ok(())
    };
    for (i, route) in T::BORROWED.iter().enumerate() {
        let got = no_panic(route, || T::borrow_in(i, &text))?;
        judge(got.map(|v| v.text()), route)?;
    }
    for (i, route) in T::OWNED.iter().enumerate() {
        match no_panic(route, || T::own_in(i, text.clone()))? {
            In::Ok(o) => judge(Some(T::slice(&o).text()), route)?,
            In::Refused => judge(None, route)?,
            In::HandedBack(t) => {
                judge(None, route)?;
                ensure_eq!(t, text, "handed back something else", "{what} by {route}");
            }
        }
    }
    if let Some(ok) = no_panic("validate", || T::check(&text))? {
        ensure_eq!(ok, want, "validation function", "{what}");
    }
    // Bytes which are no text at all.
    let mut b = text.clone().into_bytes();
    let at = c.below(b.len() as u32 + 1) as usize;
    let junk: &[u8] = c.pick(&[&b"\xff"[..], b"\xc3", b"\xe3\x81", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\x80"]);
    b.splice(at..at, junk.iter().copied());
    let text = std::str::from_utf8(&b).ok();
    let want = text.map_or(false, T::grammar);
    c.fault("undecodable_bytes");
    let got = no_panic("TryFrom<&[u8]>", || (T::bytes_in(&b).is_some(), T::own_bytes_in(&b).is_some()))?;
    ensure_eq!(got, (want, want), "bytes", "{} iri={} from {b:?}", T::NAME, T::iri());
    Ok(())
}

/// Queries and fragments with their delimiter in front.
fn prefixed(c: &mut Ctx) -> Res {
    fn go<S: Sp>(c: &mut Ctx) -> Res {
        let sw = Swarm::draw(c);
        let (mut s, q) = if c.below(2) == 0 { (gen::query(c, sw, true), true) } else { (gen::fragment(c, sw, true), false) };
        if c.chance(3, 4) {
            // Only the first one is the delimiter.
            let n = if c.chance(1, 6) { 1 + c.below(3) as usize } else { 1 };
            s.insert_str(0, &(if q { "?" } else { "#" }).repeat(n));
        }
        for _ in 0..c.below(2) {
            gen::mutate(c, &mut s);
        }
        c.op("from_prefixed");
        c.note(|| format!("query={q} {s:?}"));
        let d = if q { '?' } else { '#' };
        let want = s.strip_prefix(d).filter(|t| if q { g::query_ok(S::IRI, t) } else { g::fragment_ok(S::IRI, t) });
        let got = no_panic("from_prefixed", || {
            if q {
                RiQueryStr::<S>::from_prefixed(&s).ok().map(|v| v.as_str())
            } else {
                RiFragmentStr::<S>::from_prefixed(&s).ok().map(|v| v.as_str())
            }
        })?;
        ensure_eq!(got, want, "from_prefixed", "query={q} iri={} {s:?}", S::IRI);
        Ok(())
    }
    for _ in 0..2 {
        if c.below(2) == 0 {
            go::<UriSpec>(c)?;
        } else {
            go::<IriSpec>(c)?;
        }
    }
    Ok(())
}

/// The predicates which guard single components (in builders, among others).
fn components(c: &mut Ctx) -> Res {
    fn go<S: Sp>(c: &mut Ctx, text: &str, others: bool) -> Res {
        use iri_string::validate as v;
        let i = S::IRI;
        let verdicts: [(&str, bool, bool); 9] = [
            ("userinfo", v::userinfo::<S>(text).is_ok(), g::userinfo_ok(i, text)),
            ("host", v::host::<S>(text).is_ok(), g::host_ok(i, text)),
            // As documented: what looks like an address is one.
            ("reg_name", v::reg_name::<S>(text).is_ok(), g::reg_name_ok(i, text) && !g::is_ipv4(text)),
            ("authority", v::authority::<S>(text).is_ok(), g::authority_ok(i, text)),
            ("path", v::path::<S>(text).is_ok(), g::path_chars_ok(i, text)),
            ("path_segment", v::path_segment::<S>(text).is_ok(), g::path_chars_ok(i, text) && !text.contains('/')),
            ("query", v::query::<S>(text).is_ok(), g::query_ok(i, text)),
            ("fragment", v::fragment::<S>(text).is_ok(), g::fragment_ok(i, text)),
            ("port", v::port(text).is_ok(), g::port_ok(text)),
        ];
        for (name, got, want) in verdicts {
            ensure_eq!(got, want, "component predicate", "validate::{name} iri={i} {text:?}");
        }
        if others {
            ensure_eq!(v::scheme(text).is_ok(), g::scheme_ok(text), "component predicate", "validate::scheme {text:?}");
        }
        c.shape(verdicts.iter().fold(0, |a, x| a * 2 + x.1 as u64));
        Ok(())
    }
    let sw = Swarm::draw(c);
    let mut text = match c.below(9) {
        0 => gen::scheme(c),
        1 => gen::userinfo(c, sw, true),
        2 => gen::host(c, sw, true),
        3 => gen::near_host(c),
        4 => gen::port(c),
        5 => gen::authority(c, sw, true),
        6 => gen::path(c, sw, true, true, true),
        7 => gen::query(c, sw, true),
        _ => gen::fragment(c, sw, true),
    };
    for _ in 0..c.below(3) {
        gen::mutate(c, &mut text);
    }
    c.op("component predicates");
    c.note(|| format!("component {text:?}"));
    no_panic("component predicates", || go::<UriSpec>(c, &text, true))??;
    no_panic("component predicates", || go::<IriSpec>(c, &text, false))??;
    Ok(())
}

/// What came out of some operation is well-formed, and every route takes it.
fn admit<S: Sp>(c: &mut Ctx, own: &Own<S>, how: &str) -> Res {
    let (k, t) = (own.kind(), own.as_str());
    c.note(|| format!("{how}: {own:?} iri={}", S::IRI));
    ensure!(g::valid(S::IRI, k, t), "ill-formed value", "{how} made a {k:?} iri={} of {t:?}", S::IRI);
    getters(own)?;
    let route = c.below(7) as usize;
    macro_rules! again {
        ($b:ident) => {
            match no_panic("parsing", || $b::<S>::own_in(route, t.to_string()))? {
                In::Ok(v) => v.as_str() == t,
                _ => false,
            }
        };
    }
    let same = match k {
        Kind::Full => again!(RiStr),
        Kind::Abs => again!(RiAbsoluteStr),
        Kind::Ref => again!(RiReferenceStr),
        Kind::Rel => again!(RiRelativeStr),
    };
    ensure!(same, "routes disagree", "{how} made {own:?} iri={}, which route {route} does not give", S::IRI);
    Ok(())
}

fn walk<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let text = gen::near(c, sw, S::IRI, kind);
    let Ok(mut own) = no_panic("parsing", || from_text::<S>(kind, text.clone()))? else {
        ensure!(!g::valid(S::IRI, kind, &text), "valid text refused", "{text:?} as {kind:?}");
        return Ok(());
    };
    admit(c, &own, "parsing")?;
    for _ in 0..1 + c.below(9) {
        let (next, how) = step(c, sw, own)?;
        c.op(how);
        admit(c, &next, how)?;
        own = next;
        // An IRI may go on as a URI.
        if c.below(8) == 7 {
            if let Some(i) = iri_ref(&own) {
                let u: Own<UriSpec> = each_to!(i.clone(), v => v.encode_into_uri());
                c.op("to URI");
                admit(c, &u, "encode_into_uri")?;
                if let Some(back) = (&u as &dyn std::any::Any).downcast_ref::<Own<S>>() {
                    own = back.clone();
                } else {
                    let i: Own<IriSpec> = each_to!(u, v => v.into());
                    admit(c, &i, "URI to IRI")?;
                }
            }
        }
    }
    Ok(())
}

fn step<S: Sp>(c: &mut Ctx, sw: Swarm, own: Own<S>) -> Res<(Own<S>, &'static str)> {
    let before = own.clone();
    Ok(match c.below(10) {
        0 => {
            let to = *c.pick(&g::KINDS);
            match no_panic("conversion", || convert(own, to, true))? {
                Conv::Ok(v) | Conv::Back(v) => (v, "conversion"),
                Conv::BackText(_) => (before, "conversion"),
            }
        }
        1 => {
            let mut f = gen::fragment(c, sw, S::IRI);
            if c.chance(1, 4) {
                gen::mutate(c, &mut f);
            }
            let f = RiFragmentStr::<S>::new(&f).ok();
            let mut own = own;
            no_panic("set_fragment", || match &mut own {
                Own::Full(v) => v.set_fragment(f),
                Own::Ref(v) => v.set_fragment(f),
                Own::Rel(v) => v.set_fragment(f),
                Own::Abs(_) => {}
            })?;
            (own, "set_fragment")
        }
        2 => {
            let mut h = gen::host(c, sw, true);
            if c.chance(1, 4) {
                gen::mutate(c, &mut h);
            }
            let reg = c.chance(1, 2);
            let mut own = own;
            let plan = c.alloc_plan();
            let (r, _) = c.armed(plan, || {
                no_panic("replace_host", || {
                    each!(&mut own, v => if reg { v.try_replace_host_reg_name(&h).is_ok() } else { v.try_replace_host(&h).is_ok() })
                })
            });
            r?;
            (own, "replace_host")
        }
        3 => {
            let how = c.below(4);
            let mut own = own;
            no_panic("password", || match how {
                0 => each!(&mut own, v => v.remove_password_inline()),
                1 => each!(&mut own, v => v.remove_nonempty_password_inline()),
                _ => own = each_to!(&own, v => v.mask_password().to_dedicated_string()),
            })?;
            (own, "password removal")
        }
        4 | 5 => {
            let kind = if c.chance(1, 2) { Kind::Ref } else { Kind::Abs };
            let other = gen::ident(c, sw, S::IRI, kind);
            let Ok(other) = RiReferenceStr::<S>::new(&other) else { return vio("valid text refused", other) };
            let this = own.as_ref_str();
            // The current value is the base if it can be, or the reference.
            let (base, r) = match (this.to_iri(), other.to_iri()) {
                (Ok(b), _) if c.chance(1, 2) => (b.to_absolute(), other),
                (_, Ok(b)) => (b.to_absolute(), this),
                (Ok(b), _) => (b.to_absolute(), other),
                _ => return Ok((own, "nothing")),
            };
            let resolver = FixedBaseResolver::new(base);
            let t = resolver.resolve(r);
            let (t, _) = render::switch::<S, _>(c, t);
            c.note(|| format!("resolve {r:?} against {base:?}"));
            (Own::Full(no_panic("resolution", || t.to_dedicated_string())?), "resolution")
        }
        6 => {
            let keep = c.chance(1, 2);
            let n = no_panic("normalization", || match &own {
                Own::Full(v) if keep => Some(Own::Full(v.normalize_but_preserve_authorityless_relative_path().to_dedicated_string())),
                Own::Full(v) => Some(Own::Full(v.normalize().to_dedicated_string())),
                Own::Abs(v) if keep => Some(Own::Abs(v.normalize_but_preserve_authorityless_relative_path().to_dedicated_string())),
                Own::Abs(v) => Some(Own::Abs(v.normalize().to_dedicated_string())),
                _ => None,
            })?;
            (n.unwrap_or(own), "normalization")
        }
        7 | 8 => {
            let p = gen::parts(c, sw, true, Kind::Ref);
            let (mut host, mut path) = (gen::host(c, sw, true), p.path.clone());
            if c.chance(1, 3) {
                gen::mutate(c, &mut host);
            }
            if c.chance(1, 3) {
                gen::mutate(c, &mut path);
            }
            let which = c.below(512);
            let to = *c.pick(&g::KINDS);
            let odd = |c: &mut Ctx, mut s: String| {
                if c.chance(1, 3) {
                    gen::mutate(c, &mut s);
                }
                s
            };
            let (port, user, word) = if which >= 64 {
                let (port, user, word) = (gen::port(c), gen::userinfo(c, sw, true), gen::text(c, sw, true, &[":"], 3));
                (odd(c, port), odd(c, user), odd(c, word))
            } else {
                Default::default()
            };
            c.note(|| format!("builder: {which:06b} {host:?} {path:?} {port:?} {user:?} {word:?} {p:?} as {to:?}"));
            let built = {
                let mut b = Builder::from(own.as_ref_str());
                if which & 1 != 0 {
                    b.host(&host);
                }
                if which & 2 != 0 {
                    b.path(&path);
                }
                if which & 4 != 0 {
                    match &p.scheme {
                        Some(s) => b.scheme(s),
                        None => b.unset_scheme(),
                    }
                }
                if which & 8 != 0 {
                    b.unset_authority();
                }
                if which & 16 != 0 {
                    b.normalize();
                }
                if which & 32 != 0 {
                    match &p.query {
                        Some(s) => b.query(s),
                        None => b.unset_query(),
                    }
                }
                if which & 64 != 0 {
                    b.port(port.as_str());
                }
                if which & 128 != 0 {
                    b.userinfo(user.as_str());
                }
                if which & 256 != 0 {
                    b.userinfo((word.as_str(), user.as_str()));
                }
                no_panic("builder", || match to {
                    Kind::Full => b.build::<RiStr<S>>().ok().map(|x| Own::Full(x.into())),
                    Kind::Abs => b.build::<RiAbsoluteStr<S>>().ok().map(|x| Own::Abs(x.into())),
                    Kind::Ref => b.build::<RiReferenceStr<S>>().ok().map(|x| Own::Ref(x.into())),
                    Kind::Rel => b.build::<RiRelativeStr<S>>().ok().map(|x| Own::Rel(x.into())),
                })?
            };
            (built.unwrap_or(own), "builder")
        }
        _ => {
            // Through a template: the text as a value, with other things around it.
            let mut t = gt::valid(c);
            match c.below(3) {
                0 => t = "{+zz}".into(),
                1 => t.insert_str(0, "{+zz}"),
                _ => {}
            }
            let Some(chunks) = template::parse(&t) else { return Ok((own, "nothing")) };
            let mut ctx: SimContext = gt::context_for(c, &chunks);
            ctx.vars.retain(|(n, _)| n != "zz");
            ctx.vars.push(("zz".into(), CVal::Str(Val::cut(&mut c.src, own.as_str()))));
            let to = *c.pick(&g::KINDS);
            let Ok(tt) = UriTemplateStr::new(&t) else { return vio("valid text refused", t) };
            c.note(|| format!("template {t:?} with {:?} as {to:?}", ctx.vars));
            let Ok(e) = tt.expand::<S, _>(&ctx) else { return Ok((own, "nothing")) };
            let text = e.to_string();
            let fits = g::valid(S::IRI, to, &text);
            let r = no_panic("TryFrom<Expanded>", || match to {
                Kind::Full => RiString::<S>::try_from(e).map(Own::Full),
                Kind::Abs => RiAbsoluteString::<S>::try_from(e).map(Own::Abs),
                Kind::Ref => RiReferenceString::<S>::try_from(e).map(Own::Ref),
                Kind::Rel => RiRelativeString::<S>::try_from(e).map(Own::Rel),
            })?;
            match r {
                Ok(v) => {
                    ensure!(fits, "ill-formed text accepted", "expansion {text:?} as {to:?} iri={}", S::IRI);
                    (v, "expansion")
                }
                Err(e) => {
                    ensure!(!fits, "valid text refused", "expansion {text:?} as {to:?} iri={}", S::IRI);
                    ensure_eq!(e.into_source(), text, "handed back something else", "expansion");
                    (own, "expansion refused")
                }
            }
        }
    })
}
