//! C10: the builder's result depends only on its final settings and is faithful.

use super::c04::judge;
use crate::ctx::{guarded, no_panic, vio, Ctx, Res};
use crate::env::sink::{Plan, Sink};
use crate::gen::{self, Swarm};
use crate::kinds::{Own, Sp};
use crate::model::builder::{ASet, Settings, User};
use crate::model::grammar::{self as g, Kind, Parts};
use crate::model::normalize::{self, Mode};
use crate::{each, ensure, ensure_eq};
use iri_string::build::{Builder, PortBuilder, UserinfoBuilder};
use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::fmt::Write;

#[derive(Debug)]
enum Op<S: Sp> {
    Scheme(String),
    UnsetScheme,
    Path(String),
    UnsetAuth,
    Userinfo(User, u8),
    UnsetUserinfo,
    Host(String),
    #[cfg(feature = "checked")]
    Ip(std::net::IpAddr),
    Port(String),
    Port16(u16),
    Port8(u8),
    UnsetPort,
    Query(String),
    UnsetQuery,
    Fragment(String),
    UnsetFragment,
    Normalize(bool),
    Load(Own<S>, u8),
    Fresh,
    /// Keep a copy of the builder aside.
    Fork,
    /// Swap with the copy kept aside.
    Swap,
    Build(Kind),
}

fn maybe_bad(c: &mut Ctx, s: String) -> String {
    let mut s = s;
    if c.chance(1, 14) {
        gen::mutate(c, &mut s);
    }
    s
}

fn a_path(c: &mut Ctx, sw: Swarm, iri: bool) -> String {
    match c.below(8) {
        0 => "".into(),
        1 => c
            .pick(&[
                "//a", "a:b", "/..//x", "..//x", ".", "..", "/.", "/..", "./a:b", "//", "/.//a", "a/../b:c", "a//b", "/a/..//b", "%2e/x:y", "../a:b",
                "/%2e%2e//x", "a/..", "./", "a/..//b",
            ])
            .to_string(),
        // A long first segment, maybe with a colon.
        2 if c.chance(1, 8) => {
            let n = if c.chance(1, 8) { c.below(3000) } else { c.below(150) } as usize;
            format!("{}{}{}", c.pick(&["a", "%41", "%2f", "b.c-"]).repeat(n), c.pick(&[":", "", "%3A", ":/"]), c.pick(&["x", "/", "y/z", ""]))
        }
        2 | 3 => gen::path(c, sw, iri, true, false),
        4 | 5 => gen::path(c, sw, iri, false, true),
        _ => gen::path(c, sw, iri, false, false),
    }
}

fn user(c: &mut Ctx, sw: Swarm, iri: bool) -> User {
    match c.below(3) {
        0 => User::Direct(maybe_bad_of(c, |c| gen::userinfo(c, sw, iri))),
        1 => {
            let u = maybe_bad_of(c, |c| gen::text(c, sw, iri, &[], 3));
            User::Pair(u, None)
        }
        _ => {
            let u = maybe_bad_of(c, |c| gen::text(c, sw, iri, &[], 3));
            let p = maybe_bad_of(c, |c| gen::text(c, sw, iri, &[":"], 3));
            User::Pair(u, Some(p))
        }
    }
}
fn maybe_bad_of(c: &mut Ctx, f: impl FnOnce(&mut Ctx) -> String) -> String {
    let s = f(c);
    maybe_bad(c, s)
}

fn op<S: Sp>(c: &mut Ctx, sw: Swarm) -> Op<S> {
    let iri = S::IRI;
    match c.below(28) {
        0..=4 => Op::Build(*c.pick(&g::KINDS)),
        5 | 6 => Op::Scheme(maybe_bad_of(c, gen::scheme)),
        7 => Op::UnsetScheme,
        8..=10 => Op::Path(maybe_bad_of(c, |c| a_path(c, sw, iri))),
        11 => Op::UnsetAuth,
        12 | 13 => {
            let u = user(c, sw, iri);
            Op::Userinfo(u, c.below(2) as u8)
        }
        14 => Op::UnsetUserinfo,
        15 | 16 => Op::Host(maybe_bad_of(c, |c| gen::host(c, sw, iri))),
        17 => ip(c, sw),
        18 => match c.below(3) {
            0 => Op::Port(maybe_bad_of(c, gen::port)),
            1 => Op::Port16(*c.pick(&[80, 0, 65535, 8080])),
            _ => Op::Port8(*c.pick(&[80, 0, 255])),
        },
        19 => Op::UnsetPort,
        20 => Op::Query(maybe_bad_of(c, |c| gen::query(c, sw, iri))),
        21 => Op::UnsetQuery,
        22 => Op::Fragment(maybe_bad_of(c, |c| gen::fragment(c, sw, iri))),
        23 => Op::UnsetFragment,
        24 => Op::Normalize(c.below(3) != 2),
        25 => {
            let kind = *c.pick(&g::KINDS);
            let s = gen::ident(c, sw, iri, kind);
            match Own::<S>::new(kind, &s) {
                Some(o) => Op::Load(o, c.below(3) as u8),
                None => Op::Fresh,
            }
        }
        26 => {
            if c.below(4) == 3 {
                Op::Fresh
            } else {
                Op::Fork
            }
        }
        _ => Op::Swap,
    }
}

#[cfg(feature = "checked")]
fn ip<S: Sp>(c: &mut Ctx, _sw: Swarm) -> Op<S> {
    use std::net::IpAddr;
    let v4 = c.below(2) == 0;
    if v4 {
        Op::Ip(IpAddr::from([c.below(256) as u8, c.below(2) as u8 * 255, 0, c.below(256) as u8]))
    } else {
        let mut w = [0u16; 8];
        for x in w.iter_mut() {
            *x = *c.pick(&[0u16, 0, 1, 0xffff, 0xabcd]);
        }
        Op::Ip(IpAddr::from(w))
    }
}
#[cfg(not(feature = "checked"))]
fn ip<S: Sp>(c: &mut Ctx, sw: Swarm) -> Op<S> {
    Op::Host(gen::host(c, sw, S::IRI))
}

pub fn run(c: &mut Ctx) -> Res {
    if c.below(2) == 0 {
        history::<UriSpec>(c)
    } else {
        history::<IriSpec>(c)
    }
}

fn history<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let n = 3 + c.below(14);
    let mut script: Vec<Op<S>> = (0..n).map(|_| op(c, sw)).collect();
    script.push(Op::Build(*c.pick(&g::KINDS)));
    let script = script;

    let mut b = Builder::new();
    let mut m = Settings::default();
    let mut aside: Option<(Builder, Settings)> = None;
    for o in &script {
        c.note(|| format!("{o:?}"));
        macro_rules! auth {
            () => {
                m.auth.get_or_insert_with(ASet::default)
            };
        }
        match o {
            Op::Scheme(s) => {
                c.op("scheme");
                b.scheme(s);
                m.scheme = Some(s.clone());
            }
            Op::UnsetScheme => {
                c.op("unset_scheme");
                b.unset_scheme();
                m.scheme = None;
            }
            Op::Path(s) => {
                c.op("path");
                b.path(s);
                m.path = s.clone();
            }
            Op::UnsetAuth => {
                c.op("unset_authority");
                b.unset_authority();
                m.auth = None;
            }
            Op::Userinfo(u, how) => {
                c.op("userinfo");
                let ui: UserinfoBuilder = match (u, how) {
                    (User::Direct(s), 0) => s.as_str().into(),
                    (User::Direct(s), _) => s.into(),
                    (User::Pair(u, None), _) => (u.as_str(), None).into(),
                    (User::Pair(u, Some(p)), 0) => (u.as_str(), p.as_str()).into(),
                    (User::Pair(u, Some(p)), _) => (u.as_str(), Some(p.as_str())).into(),
                };
                b.userinfo(ui);
                auth!().user = Some(u.clone());
            }
            // Clearing a part of the authority leaves an (empty) authority, as documented.
            Op::UnsetUserinfo => {
                c.op("unset_userinfo");
                b.unset_userinfo();
                auth!().user = None;
            }
            Op::Host(s) => {
                c.op("host");
                b.host(s);
                auth!().host = s.clone();
            }
            #[cfg(feature = "checked")]
            Op::Ip(a) => {
                c.op("ip_address");
                b.ip_address(*a);
                auth!().host = match a {
                    std::net::IpAddr::V4(v) => v.to_string(),
                    std::net::IpAddr::V6(v) => format!("[{v}]"),
                };
            }
            Op::Port(s) => {
                c.op("port");
                if s.len() % 2 == 0 {
                    b.port(s.as_str());
                } else {
                    b.port(s);
                }
                auth!().port = Some(s.clone());
            }
            Op::Port16(n) => {
                c.op("port");
                b.port(*n);
                auth!().port = Some(n.to_string());
            }
            Op::Port8(n) => {
                c.op("port");
                b.port(PortBuilder::from(*n));
                auth!().port = Some(n.to_string());
            }
            Op::UnsetPort => {
                c.op("unset_port");
                b.unset_port();
                auth!().port = None;
            }
            Op::Query(s) => {
                c.op("query");
                b.query(s);
                m.query = Some(s.clone());
            }
            Op::UnsetQuery => {
                c.op("unset_query");
                b.unset_query();
                m.query = None;
            }
            Op::Fragment(s) => {
                c.op("fragment");
                b.fragment(s);
                m.fragment = Some(s.clone());
            }
            Op::UnsetFragment => {
                c.op("unset_fragment");
                b.unset_fragment();
                m.fragment = None;
            }
            Op::Normalize(on) => {
                c.op("normalize");
                if *on {
                    b.normalize();
                } else {
                    b.unset_normalize();
                }
                m.normalize = *on;
            }
            Op::Load(own, how) => {
                c.op("load");
                b = load(own, *how);
                m = Settings::load(own.as_str());
            }
            Op::Fresh => {
                c.op("fresh");
                b = Builder::default();
                m = Settings::default();
            }
            Op::Fork => {
                c.op("fork");
                aside = Some((b.clone(), m.clone()));
            }
            Op::Swap => {
                if let Some((ob, om)) = aside.take() {
                    c.op("swap");
                    aside = Some((std::mem::replace(&mut b, ob), std::mem::replace(&mut m, om)));
                }
            }
            Op::Build(k) => {
                c.op("build");
                match k {
                    Kind::Full => build::<S, RiStr<S>>(c, *k, &b, &m)?,
                    Kind::Abs => build::<S, RiAbsoluteStr<S>>(c, *k, &b, &m)?,
                    Kind::Ref => build::<S, RiReferenceStr<S>>(c, *k, &b, &m)?,
                    Kind::Rel => build::<S, RiRelativeStr<S>>(c, *k, &b, &m)?,
                }
            }
        }
    }
    Ok(())
}

/// Loads the components of an identifier by one of the conversions.
fn load<S: Sp>(own: &Own<S>, how: u8) -> Builder<'_> {
    match how {
        0 => each!(own, v => Builder::from(v)),
        1 => each!(own, v => Builder::from(v.as_slice())),
        _ => Builder::from(own.as_ref_str()),
    }
}

/// What the four target kinds have in common.
trait Target<S: Sp>: 'static {
    fn build<'a>(b: Builder<'a>) -> Result<Box<dyn BuiltAny<S> + 'a>, ()>;
}
trait BuiltAny<S: Sp> {
    fn text(&self) -> &dyn std::fmt::Display;
    fn normalizable(&self) -> bool;
    fn owned(&self, how: u8) -> Own<S>;
}
macro_rules! target {
    ($($b:ident $o:ident $v:ident;)*) => {$(
        impl<S: Sp> Target<S> for $b<S> {
            fn build<'a>(b: Builder<'a>) -> Result<Box<dyn BuiltAny<S> + 'a>, ()> {
                match b.build::<$b<S>>() {
                    Ok(x) => Ok(Box::new(x)),
                    Err(_) => Err(()),
                }
            }
        }
        impl<'a, S: Sp> BuiltAny<S> for iri_string::build::Built<'a, $b<S>> {
            fn text(&self) -> &dyn std::fmt::Display {
                self
            }
            fn normalizable(&self) -> bool {
                self.ensure_rfc3986_normalizable().is_ok()
            }
            fn owned(&self, how: u8) -> Own<S> {
                Own::$v(match how {
                    0 => self.to_dedicated_string(),
                    1 => $o::from(self),
                    2 => $o::from(self.clone()),
                    _ => self.clone().into(),
                })
            }
        }
    )*};
}
target! {
    RiStr RiString Full;
    RiAbsoluteStr RiAbsoluteString Abs;
    RiReferenceStr RiReferenceString Ref;
    RiRelativeStr RiRelativeString Rel;
}

fn build<S: Sp, T: Target<S> + ?Sized>(c: &mut Ctx, kind: Kind, b: &Builder, m: &Settings) -> Res {
    let what = format!("{m:?} as {kind:?}");
    let want = m.build(S::IRI, kind);
    let got = no_panic("build", || T::build(b.clone()))?;
    let (p, built) = match (want, got) {
        (None, Err(())) => {
            c.probe("refused");
            return Ok(());
        }
        (None, Ok(x)) => {
            let t = no_panic("rendering", || x.text().to_string())?;
            return vio("accepted what cannot be built", format!("{what} gave {t:?}"));
        }
        (Some(p), Err(())) => return vio("refused what can be built", format!("{what}; expected {:?}", g::compose(&p))),
        (Some(p), Ok(x)) => (p, x),
    };
    let full = g::compose(&p);
    c.note(|| format!("expected {full:?}"));
    c.probe("built");
    if c.chance(1, 2) {
        let mut k = Sink::new(Plan::draw(&mut c.src, full.len()));
        let r = guarded("rendering", || write!(k, "{}", built.text()))?;
        judge(c, &what, &full, &k, &r)?;
    }
    let t = no_panic("rendering", || built.text().to_string())?;
    ensure_eq!(t, full, "unfaithful", "{what}");
    let how = c.below(4) as u8;
    let own = no_panic("rendering", || built.owned(how))?;
    ensure_eq!(own.as_str(), full.as_str(), "unfaithful", "{what}, owned");
    ensure!(g::valid(S::IRI, kind, &full), "ill-formed", "{what} gave {full:?}");
    ensure_eq!(own.parts(), p, "components moved", "components of {full:?} built from {what}");
    // Whether plain RFC 3986 normalization can represent it, whatever was asked for.
    let raw = Parts { authority: m.auth.as_ref().map(|_| String::new()), path: m.path.clone(), ..p.clone() };
    let nable = normalize::normalize(S::IRI, Mode::Default, &raw).1;
    let got = no_panic("ensure_rfc3986_normalizable", || built.normalizable())?;
    ensure_eq!(got, nable, "normalizability", "{what}");
    // Rebuilding from the components.
    let how = c.below(3) as u8;
    let again = if c.chance(1, 2) {
        let b = load(&own, how);
        no_panic("rebuild", || T::build(b).map(|x| x.text().to_string()))?
    } else {
        let a = p.authority.as_deref().map(g::split_auth);
        let mut b = Builder::new();
        crate::render::fill(&p, &a, &mut b);
        no_panic("rebuild", || T::build(b).map(|x| x.text().to_string()))?
    };
    ensure_eq!(again, Ok(full), "rebuild differs", "rebuilding {what}");
    Ok(())
}
