//! Lazily rendered results of every kind, as abstract objects.

use crate::ctx::{Ctx, Res};
use crate::env::alloc;
use crate::env::value::Val;
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::{Own, Sp};
use crate::model::grammar::{self as g, Kind, Parts};
use crate::model::pct::Comp;
use crate::model::template;
use iri_string::build::Builder;
use iri_string::format::ToDedicatedString;
use iri_string::normalize::Normalized;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use std::collections::TryReserveError;
use std::fmt::Display;

pub type Dedicated<'a> = &'a dyn Fn() -> Result<String, TryReserveError>;

pub struct Item<'a> {
    pub name: &'static str,
    /// What is being rendered, for the log.
    pub what: String,
    pub text: &'a dyn Display,
    pub dedicated: Option<Dedicated<'a>>,
}

type Use<'f> = &'f mut dyn FnMut(&mut Ctx, &Item) -> Res;

fn emit<T: Display>(c: &mut Ctx, name: &'static str, what: String, t: &T, ded: Option<Dedicated>, f: Use) -> Res {
    c.op(name);
    c.note(|| format!("{name}: {what}"));
    f(c, &Item { name, what, text: t, dedicated: ded })
}

macro_rules! with_ded {
    ($c:expr, $name:expr, $what:expr, $t:expr, $f:expr) => {{
        let t = $t;
        emit($c, $name, $what, &t, Some(&|| Ok(String::from(t.try_to_dedicated_string()?))), $f)
    }};
}

/// Makes one renderable object and hands it over.
pub fn any(c: &mut Ctx, f: Use) -> Res {
    let sw = Swarm::draw(c);
    match c.below(10) {
        0 | 1 => {
            if c.below(2) == 0 {
                resolved::<UriSpec>(c, sw, f)
            } else {
                resolved::<IriSpec>(c, sw, f)
            }
        }
        2 => {
            if c.below(2) == 0 {
                normalized::<UriSpec>(c, sw, f)
            } else {
                normalized::<IriSpec>(c, sw, f)
            }
        }
        3 => {
            if c.below(2) == 0 {
                masked::<UriSpec>(c, sw, f)
            } else {
                masked::<IriSpec>(c, sw, f)
            }
        }
        4 | 5 => mapped(c, sw, f),
        6 => {
            if c.below(2) == 0 {
                built::<UriSpec>(c, sw, f)
            } else {
                built::<IriSpec>(c, sw, f)
            }
        }
        7 => {
            if c.below(2) == 0 {
                encoded::<UriSpec>(c, f)
            } else {
                encoded::<IriSpec>(c, f)
            }
        }
        8 => {
            if c.below(2) == 0 {
                expanded::<UriSpec>(c, f)
            } else {
                expanded::<IriSpec>(c, f)
            }
        }
        _ => typed::<IriSpec>(c, sw, f),
    }
}

/// Switches modes on a task; the last switch counts.
pub fn switch<'a, S: Sp, T: ?Sized>(c: &mut Ctx, mut n: Normalized<'a, T>) -> (Normalized<'a, T>, Option<bool>) {
    let mut last = None;
    for _ in 0..c.below(3) {
        match c.below(4) {
            0 => {
                n.enable_normalization();
                last = Some(true);
            }
            1 => {
                n.enable_normalization_preserving_authorityless_relative_path();
                last = Some(false);
            }
            2 => {
                n = n.and_normalize();
                last = Some(true);
            }
            _ => {
                n = n.and_normalize_but_preserve_authorityless_relative_path();
                last = Some(false);
            }
        }
    }
    (n, last)
}

fn resolved<S: Sp>(c: &mut Ctx, sw: Swarm, f: Use) -> Res {
    let base = gen::ident(c, sw, S::IRI, Kind::Abs);
    let r = gen::ident(c, sw, S::IRI, Kind::Ref);
    let (Ok(b), Ok(rr)) = (RiAbsoluteStr::<S>::new(&base), RiReferenceStr::<S>::new(&r)) else { return Ok(()) };
    let oneshot = c.chance(1, 2);
    let resolver = FixedBaseResolver::new(b);
    let t = if oneshot { rr.resolve_against(b) } else { resolver.resolve(rr) };
    let (t, mode) = switch::<S, _>(c, t);
    with_ded!(c, "resolution", format!("{r:?} against {base:?}, mode {mode:?}"), t, f)
}

fn normalized<S: Sp>(c: &mut Ctx, sw: Swarm, f: Use) -> Res {
    let kind = if c.chance(1, 2) { Kind::Abs } else { Kind::Full };
    let s = gen::ident(c, sw, S::IRI, kind);
    let keep = c.chance(1, 2);
    macro_rules! go {
        ($ty:ident) => {{
            let Ok(v) = $ty::<S>::new(&s) else { return Ok(()) };
            let t = if keep { v.normalize_but_preserve_authorityless_relative_path() } else { v.normalize() };
            with_ded!(c, "normalization", format!("{s:?} preserve={keep}"), t, f)
        }};
    }
    if kind == Kind::Abs {
        go!(RiAbsoluteStr)
    } else {
        go!(RiStr)
    }
}

fn masked<S: Sp>(c: &mut Ctx, sw: Swarm, f: Use) -> Res {
    let kind = *c.pick(&g::KINDS);
    let mut p = gen::parts(c, sw, S::IRI, kind);
    if p.authority.is_none() && c.chance(2, 3) {
        p = Parts { authority: Some(gen::authority(c, sw, S::IRI)), path: format!("/{}", p.path.trim_start_matches('/')), ..p };
    }
    let s = g::compose(&p);
    let Some(own) = Own::<S>::new(kind, &s) else { return Ok(()) };
    let how = c.below(4);
    let alt = gt::val(c);
    macro_rules! go {
        ($v:expr) => {{
            let m = $v.mask_password();
            match how {
                0 | 1 => with_ded!(c, "mask", format!("{s:?}"), m, f),
                2 => emit(c, "replace_password", format!("{s:?} by {:?}", alt.text()), &m.replace_password(&alt), None, f),
                _ => emit(
                    c,
                    "replace_password_with",
                    format!("{s:?} by {:?}", alt.text()),
                    &m.replace_password_with(|pw| alloc::suspended(|| format!("{}{}", pw.len(), alt))),
                    None,
                    f,
                ),
            }
        }};
    }
    match &own {
        Own::Full(v) => go!(v),
        Own::Abs(v) => go!(v),
        Own::Ref(v) => go!(v),
        Own::Rel(v) => go!(v),
    }
}

fn mapped(c: &mut Ctx, mut sw: Swarm, f: Use) -> Res {
    sw.wide = true;
    match c.below(6) {
        0 => {
            let s = gen::query(c, sw, true);
            let Ok(v) = IriQueryStr::new(&s) else { return Ok(()) };
            with_ded!(c, "map query", format!("{s:?}"), v.encode_to_uri(), f)
        }
        1 => {
            let s = gen::fragment(c, sw, true);
            let Ok(v) = IriFragmentStr::new(&s) else { return Ok(()) };
            with_ded!(c, "map fragment", format!("{s:?}"), v.encode_to_uri(), f)
        }
        _ => {
            let kind = *c.pick(&g::KINDS);
            let s = gen::ident(c, sw, true, kind);
            let Some(own) = Own::<IriSpec>::new(kind, &s) else { return Ok(()) };
            let w = format!("{s:?}");
            match &own {
                Own::Full(v) => with_ded!(c, "map IRI", w, v.encode_to_uri(), f),
                Own::Abs(v) => with_ded!(c, "map IRI", w, v.encode_to_uri(), f),
                Own::Ref(v) => with_ded!(c, "map IRI", w, v.encode_to_uri(), f),
                Own::Rel(v) => with_ded!(c, "map IRI", w, v.encode_to_uri(), f),
            }
        }
    }
}

/// Sets every component of a valid identifier on a builder.
pub fn fill<'a>(p: &'a Parts, a: &'a Option<g::Auth>, b: &mut Builder<'a>) {
    if let Some(s) = &p.scheme {
        b.scheme(s);
    }
    if let Some(a) = a {
        if let Some(u) = &a.userinfo {
            b.userinfo(u.as_str());
        }
        b.host(&a.host);
        if let Some(x) = &a.port {
            b.port(x.as_str());
        }
    }
    b.path(&p.path);
    if let Some(s) = &p.query {
        b.query(s);
    }
    if let Some(s) = &p.fragment {
        b.fragment(s);
    }
}

fn built<S: Sp>(c: &mut Ctx, sw: Swarm, f: Use) -> Res {
    let kind = *c.pick(&g::KINDS);
    let p = gen::parts(c, sw, S::IRI, kind);
    let a = p.authority.as_deref().map(g::split_auth);
    let mut b = Builder::new();
    fill(&p, &a, &mut b);
    let norm = c.chance(1, 2);
    if norm {
        b.normalize();
    }
    let w = format!("{:?} normalize={norm}", g::compose(&p));
    macro_rules! go {
        ($ty:ident) => {
            match b.build::<$ty<S>>() {
                Ok(t) => with_ded!(c, "builder", w, t, f),
                Err(_) => Ok(()),
            }
        };
    }
    match kind {
        Kind::Full => go!(RiStr),
        Kind::Abs => go!(RiAbsoluteStr),
        Kind::Ref => go!(RiReferenceStr),
        Kind::Rel => go!(RiRelativeStr),
    }
}

pub fn percent_encoded<S: Sp, T: Display>(comp: Comp, v: T) -> PercentEncoded<T, S> {
    match comp {
        Comp::RegName => PercentEncoded::from_reg_name(v),
        Comp::User => PercentEncoded::from_user(v),
        Comp::Password => PercentEncoded::from_password(v),
        Comp::PathSegment => PercentEncoded::from_path_segment(v),
        Comp::Path => PercentEncoded::from_path(v),
        Comp::Query => PercentEncoded::from_query(v),
        Comp::Fragment => PercentEncoded::from_fragment(v),
        Comp::Unreserve => PercentEncoded::unreserve(v),
        Comp::Characters => PercentEncoded::characters(v),
    }
}

fn encoded<S: Sp>(c: &mut Ctx, f: Use) -> Res {
    let comp = *c.pick(&crate::model::pct::COMPS);
    let v: Val = gt::val(c);
    emit(c, "percent_encode", format!("{:?} for {comp:?}", v.pieces), &percent_encoded::<S, _>(comp, &v), None, f)
}

fn expanded<S: Sp>(c: &mut Ctx, f: Use) -> Res {
    let t = gt::valid(c);
    let Some(chunks) = template::parse(&t) else { return Ok(()) };
    let ctx = gt::context_for(c, &chunks);
    let Ok(tt) = UriTemplateStr::new(&t) else { return Ok(()) };
    let Ok(e) = tt.expand::<S, _>(&ctx) else { return Ok(()) };
    emit(c, "expansion", format!("{t:?} with {:?}", ctx.vars), &e, None, f)
}

fn typed<S: Sp>(c: &mut Ctx, sw: Swarm, f: Use) -> Res {
    let kind = *c.pick(&g::KINDS);
    let s = gen::ident(c, sw, S::IRI, kind);
    let Some(own) = Own::<S>::new(kind, &s) else { return Ok(()) };
    let w = format!("{s:?}");
    match &own {
        Own::Full(v) => emit(c, "typed string", w, v, None, f),
        Own::Abs(v) => emit(c, "typed string", w, v, None, f),
        Own::Ref(v) => emit(c, "typed string", w, v, None, f),
        Own::Rel(v) => emit(c, "typed string", w, v, None, f),
    }
}
