//! C24: what returns no owned value works without any memory; what does asks for little.

use crate::ctx::{guarded, no_panic, Ctx, Outcome, Res};
use crate::env::alloc::{self, Plan as Mem};
use crate::env::context::SimContext;
use crate::env::sink::{Plan, Sink};
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::{Own, Sp};
use crate::model::grammar::{self as g, Kind};
use crate::model::template;
use crate::props::c04;
use crate::render;
use crate::typed::Typed;
use crate::{each, ensure, ensure_eq, with_typed};
use iri_string::build::Builder;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::{Context, DynamicContext, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use iri_string::validate;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};

/// Writes down what was seen, without memory of its own.
struct Seen {
    buf: [u8; 3000],
    len: usize,
    hash: u64,
}
impl Seen {
    fn new() -> Self {
        Seen { buf: [0; 3000], len: 0, hash: 0 }
    }
    fn text(&self) -> String {
        String::from_utf8_lossy(&self.buf[..self.len.min(self.buf.len())]).into_owned()
    }
}
impl fmt::Write for Seen {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            if self.len < self.buf.len() {
                self.buf[self.len] = b;
            }
            self.len += 1;
            self.hash = self.hash.wrapping_mul(0x100_0000_01b3) ^ u64::from(b);
        }
        Ok(())
    }
}
/// A hasher which needs no memory either.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
}
macro_rules! see {
    ($o:expr, $($a:tt)*) => { writeln!($o, $($a)*).expect("harness: always accepts") };
}

/// Does the same with memory and without.
fn starved(c: &mut Ctx, what: &str, f: &dyn Fn(&mut Seen)) -> Res {
    let mut with = Seen::new();
    let (r, l) = alloc::with_plan(Mem::Never, || no_panic(what, || f(&mut with)));
    r?;
    c.note(|| format!("{what}, with memory: {:?}", with.text()));
    ensure_eq!(l.attempts, 0, "asks for memory", "{what} asked for memory ({} bytes at most); {:?}", l.peak, with.text());
    let mut without = Seen::new();
    let (r, l) = c.armed(Mem::From(0), || no_panic(what, || f(&mut without)));
    r?;
    c.fault("out_of_memory_throughout");
    ensure_eq!(l.attempts, 0, "asks for memory", "{what} asked for memory");
    ensure_eq!(
        (without.len, without.hash, without.text()),
        (with.len, with.hash, with.text()),
        "different without memory",
        "{what} without memory"
    );
    Ok(())
}

pub fn run(c: &mut Ctx) -> Res {
    c.long_values = c.chance(1, 40);
    for _ in 0..1 + c.below(3) {
        match c.below(13) {
            0 => {
                if c.below(2) == 0 {
                    borrowed::<UriSpec>(c)?
                } else {
                    borrowed::<IriSpec>(c)?
                }
            }
            1 => with_typed!(c, texts)?,
            2 => {
                if c.below(2) == 0 {
                    lazy::<UriSpec>(c)?
                } else {
                    lazy::<IriSpec>(c)?
                }
            }
            3 => render::any(c, &mut sinks)?,
            4 => {
                if c.below(2) == 0 {
                    templates::<UriSpec>(c)?
                } else {
                    templates::<IriSpec>(c)?
                }
            }
            5 => simple(c)?,
            6 => decode(c)?,
            7 => {
                if c.below(2) == 0 {
                    build::<UriSpec>(c)?
                } else {
                    build::<IriSpec>(c)?
                }
            }
            8 => {
                if c.below(2) == 0 {
                    by_value::<UriSpec>(c)?
                } else {
                    by_value::<IriSpec>(c)?
                }
            }
            9 => with_typed!(c, owned_in)?,
            10 => render::any(c, &mut proportion)?,
            11 => {
                if c.below(2) == 0 {
                    refusals::<UriSpec>(c)?
                } else {
                    refusals::<IriSpec>(c)?
                }
            }
            _ => encode_inline(c)?,
        }
    }
    Ok(())
}

/// Text of any length: now and then a very long one.
fn ident(c: &mut Ctx, sw: Swarm, iri: bool, kind: Kind) -> String {
    let mut p = gen::parts(c, sw, iri, kind);
    if c.long_values && c.chance(1, 2) {
        let unit = format!("/{}", gen::segment(c, sw, iri));
        // Normalization takes time quadratic in the number of segments before a dot segment.
        let n = 1 + c.below(3_000) as usize / unit.len();
        p.path = format!("{}{}", p.path.trim_end_matches('/'), unit.repeat(n));
    }
    let s = g::compose(&p);
    if g::valid(iri, kind, &s) {
        s
    } else {
        gen::ident(c, sw, iri, kind)
    }
}

fn ord(o: Option<Ordering>) -> i8 {
    o.map_or(9, |o| o as i8)
}

/// Parsing, getters, checks, comparisons of borrowed identifiers.
fn borrowed<S: Sp>(c: &mut Ctx) -> Res {
    c.op("borrowed access");
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let s = if c.chance(1, 3) { gen::near(c, sw, S::IRI, kind) } else { ident(c, sw, S::IRI, kind) };
    let other = gen::ident(c, sw, S::IRI, kind);
    starved(c, "borrowed access", &|o| {
        macro_rules! common {
            ($v:expr) => {{
                let v = $v;
                see!(o, "{} {:?} {} {}", v.as_str(), v, v.len(), v.is_empty());
                see!(o, "{:?} {:?} {:?} {:?}", v.authority_str(), v.path_str(), v.query_str(), v.query().map(|q| q.as_str()));
                if let Some(a) = v.authority_components() {
                    see!(o, "{:?} {:?} {:?} {:?}", a.userinfo(), a.host(), a.reg_name(), a.port());
                }
                let mut h = Fnv(1);
                v.hash(&mut h);
                see!(o, "{}", h.finish());
                see!(o, "{} {}", ord(PartialOrd::<str>::partial_cmp(v, &other)), *v == *other.as_str());
            }};
        }
        macro_rules! checks {
            ($v:expr) => {
                see!(
                    o,
                    "{} {} {} {:?}",
                    $v.is_normalized(),
                    $v.is_normalized_rfc3986(),
                    $v.is_normalized_but_authorityless_relative_path_preserved(),
                    $v.ensure_rfc3986_normalizable().map_err(|e| ErrText(e))
                )
            };
        }
        match RiStr::<S>::new(&s) {
            Ok(v) => {
                common!(v);
                checks!(v);
                let (a, f) = v.to_absolute_and_fragment();
                see!(o, "{:?} {:?} {:?} {}", a, f, v.fragment_str(), v.to_absolute());
                see!(o, "{:?}", <&RiAbsoluteStr<S>>::try_from(v).map_err(ErrText));
                see!(o, "{:?}", AsRef::<RiReferenceStr<S>>::as_ref(v));
            }
            Err(e) => see!(o, "{e} {e:?}"),
        }
        match RiAbsoluteStr::<S>::new(&s) {
            Ok(v) => {
                common!(v);
                checks!(v);
                see!(o, "{:?} {:?}", AsRef::<RiReferenceStr<S>>::as_ref(v), AsRef::<RiStr<S>>::as_ref(v));
            }
            Err(e) => see!(o, "{e} {e:?}"),
        }
        match RiReferenceStr::<S>::new(&s) {
            Ok(v) => {
                common!(v);
                see!(o, "{:?} {:?} {:?}", v.fragment(), v.scheme_str(), v.to_iri());
                see!(o, "{:?}", v.to_relative_iri());
                see!(o, "{:?}", <&RiStr<S>>::try_from(v).map_err(ErrText));
                if let Ok(w) = RiReferenceStr::<S>::new(&other) {
                    see!(o, "{:?} {}", v.cmp(w), v == w);
                }
            }
            Err(e) => see!(o, "{e} {e:?}"),
        }
        match RiRelativeStr::<S>::new(&s) {
            Ok(v) => {
                common!(v);
                see!(o, "{:?} {:?}", v.fragment(), AsRef::<RiReferenceStr<S>>::as_ref(v));
            }
            Err(e) => see!(o, "{e} {e:?}"),
        }
        let t = s.as_str();
        see!(
            o,
            "{} {} {} {} {}",
            validate::iri::<S>(t).is_ok(),
            validate::iri_reference::<S>(t).is_ok(),
            validate::absolute_iri::<S>(t).is_ok(),
            validate::relative_ref::<S>(t).is_ok(),
            validate::path::<S>(t).is_ok()
        );
    })
}

/// Errors are values one can print without memory.
struct ErrText<E>(E);
impl<E: fmt::Display + fmt::Debug> fmt::Debug for ErrText<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {:?}", self.0, self.0)
    }
}

/// Every route of a borrowed text into the 13 types.
fn texts<T: Typed + ?Sized>(c: &mut Ctx) -> Res {
    c.op("validation");
    let sw = Swarm::draw(c);
    let s = if c.chance(1, 2) { T::near(c, sw) } else { T::generate(c, sw) };
    starved(c, "validation", &|o| {
        for r in 0..3 {
            see!(o, "{:?}", T::borrow_in(r, &s));
        }
        see!(o, "{:?}", T::check(&s));
        if let Some(v) = T::borrow_in(0, &s) {
            let mut h = Fnv(7);
            v.hash(&mut h);
            see!(o, "{v} {} {:?}", h.finish(), v.cmp(v));
        }
    })
}

/// The errors which refused text gives, shown without memory.
fn refusals<S: Sp>(c: &mut Ctx) -> Res {
    c.op("refusals");
    let sw = Swarm::draw(c);
    let iri = S::IRI || c.chance(1, 3);
    let s = match c.below(4) {
        0 => {
            let kind = *c.pick(&g::KINDS);
            gen::near(c, sw, iri, kind)
        }
        1 => gen::segment(c, sw, iri),
        2 => gt::near(c),
        _ => gen::parts(c, sw, true, Kind::Ref).authority.unwrap_or_default(),
    };
    let at = c.below(s.len() as u32 + 1) as usize;
    let bad = *c.pick(&[0x80u8, 0xFF, 0xC3, 0xED, 0xF5]);
    let mut bytes = s.clone().into_bytes();
    if c.chance(1, 2) {
        bytes.insert(at, bad);
    }
    starved(c, "refusals", &|o| {
        macro_rules! go {
            ($($f:ident),*) => { $(match iri_string::validate::$f::<S>(&s) {
                Ok(()) => see!(o, "ok "),
                Err(e) => see!(o, "{e} {e:?} "),
            })* };
        }
        go!(iri, iri_reference, absolute_iri, relative_ref, path, query, fragment, userinfo, host, reg_name, authority, path_segment);
        for r in [iri_string::validate::scheme(&s), iri_string::validate::port(&s)] {
            match r {
                Ok(()) => see!(o, "ok "),
                Err(e) => see!(o, "{e} {e:?} "),
            }
        }
        macro_rules! bytes {
            ($($t:ty),*) => { $(match <&$t>::try_from(&bytes[..]) {
                Ok(v) => see!(o, "{v} "),
                Err(e) => see!(o, "{e} {e:?} "),
            })* };
        }
        bytes!(RiStr<S>, RiAbsoluteStr<S>, RiReferenceStr<S>, RiRelativeStr<S>, RiFragmentStr<S>, RiQueryStr<S>, UriTemplateStr);
    })
}

/// Lazy objects made and rendered without memory.
fn lazy<S: Sp>(c: &mut Ctx) -> Res {
    c.op("lazy objects");
    let sw = Swarm::draw(c);
    let base = ident(c, sw, S::IRI, Kind::Abs);
    let r = ident(c, sw, S::IRI, Kind::Ref);
    let keep = c.chance(1, 2);
    starved(c, "lazy objects", &|o| {
        let (Ok(b), Ok(r)) = (RiAbsoluteStr::<S>::new(&base), RiReferenceStr::<S>::new(&r)) else { return };
        let resolver = FixedBaseResolver::new(b);
        let mut n = resolver.resolve(r);
        see!(o, "{n}");
        see!(o, "{}", r.resolve_against(b).and_normalize());
        if keep {
            n.enable_normalization_preserving_authorityless_relative_path();
        } else {
            n.enable_normalization();
        }
        see!(o, "{n} {n:?} {:?}", n.ensure_rfc3986_normalizable().map_err(ErrText));
        see!(o, "{resolver:?} {:?} {} {:?}", resolver.query_str(), resolver.path_str(), resolver.authority_str());
        see!(o, "{} {}", b.normalize(), b.normalize_but_preserve_authorityless_relative_path());
        let m = r.mask_password();
        see!(o, "{m} {m:?} {}", m.replace_password("***"));
        // Decided in the callback.
        let n = Cell::new(0);
        see!(
            o,
            "{} {}",
            m.replace_password_with(|p| {
                n.set(p.len());
                "x"
            }),
            n.get()
        );
        // The same text as an IRI, streamed as a URI.
        if let Ok(i) = IriReferenceStr::new(r.as_str()) {
            see!(o, "{} {:?}", i.encode_to_uri(), i.as_uri());
        }
    })
}

/// Rendering of any object, made before, while memory is out and the sink misbehaves.
fn sinks(c: &mut Ctx, it: &render::Item) -> Res {
    let what = format!("{} of {}", it.name, it.what);
    let mut good = Sink::new(Plan::Good);
    let (r, l) = alloc::with_plan(Mem::Never, || no_panic(it.name, || write!(good, "{}", it.text)));
    ensure!(r?.is_ok(), "spurious error", "rendering {what} into a good sink failed");
    ensure_eq!(l.attempts, 0, "asks for memory", "rendering {what} asked for memory ({} bytes at most)", l.peak);
    let full = good.accepted;
    for _ in 0..1 + c.below(3) {
        let mut s = Sink::new(Plan::draw(&mut c.src, full.len()));
        // Unwinding needs memory itself.
        let mem = if matches!(s.plan, Plan::PanicAt(_)) { Mem::Never } else { Mem::From(0) };
        let (r, l) = c.armed(mem, || guarded(it.name, || write!(s, "{}", it.text)));
        let r = r?;
        if r != Outcome::Injected {
            c.fault("out_of_memory_throughout");
            ensure_eq!(l.attempts, 0, "asks for memory", "rendering {what} asked for memory");
        }
        c04::judge(c, &what, &full, &s, &r)?;
    }
    Ok(())
}

struct Conversation<'a> {
    inner: &'a SimContext,
    calls: u32,
}
impl DynamicContext for Conversation<'_> {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        self.calls += 1;
        self.inner.visit(v)
    }
    fn on_expansion_start(&mut self) {
        self.calls += 1000;
    }
    fn on_expansion_end(&mut self) {
        self.calls += 1000;
    }
}

fn templates<S: Sp>(c: &mut Ctx) -> Res {
    c.op("templates");
    let t = if c.chance(1, 4) { gt::near(c) } else { gt::valid(c) };
    let ctx = match template::parse(&t) {
        Some(chunks) => gt::context_for(c, &chunks),
        None => gt::context(c),
    };
    starved(c, "template", &|o| {
        let tt = match UriTemplateStr::new(&t) {
            Ok(t) => t,
            Err(e) => {
                see!(o, "{e} {e:?}");
                return;
            }
        };
        for v in tt.variables() {
            see!(o, "{v:?} {}", v.as_str());
        }
        match tt.expand::<S, _>(&ctx) {
            Ok(e) => see!(o, "{e}"),
            Err(e) => see!(o, "{e} {e:?}"),
        }
        let mut d = Conversation { inner: &ctx, calls: 0 };
        let r = tt.expand_dynamic::<S, _, _>(o, &mut d);
        see!(o, "{r:?} {}", d.calls);
        see!(o, "{tt} {:?} {} {} {:?}", tt, tt.len(), tt.is_empty(), ord(PartialOrd::<str>::partial_cmp(tt, &t)));
    })?;
    let Ok(tt) = UriTemplateStr::new(&t) else { return Ok(()) };
    let mut d = Conversation { inner: &ctx, calls: 0 };
    let (r, l) = alloc::with_plan(Mem::Never, || {
        no_panic("expand_dynamic_to_string", || tt.expand_dynamic_to_string::<S, _>(&mut d).ok().map(|s| s.len()))
    });
    match r? {
        Some(n) => within(&format!("expanding {t:?} with {ctx:?}"), &l, n.max(t.len())),
        // A refused expansion gives no text to compare with.
        None => Ok(()),
    }
}

/// The supplied context: filled with memory at hand, read without.
fn simple(c: &mut Ctx) -> Res {
    c.op("simple context");
    let t = gt::valid(c);
    let mut ctx = SimpleContext::new();
    for _ in 0..c.below(6) {
        let k = c.pick(gt::NAMES).to_string();
        let v = gt::value_text(c);
        match c.below(4) {
            0 => ctx.insert(k, Value::List(vec![v, "b".to_string()])),
            1 => ctx.insert(k, Value::Assoc(vec![(v, "1".to_string())])),
            _ => ctx.insert(k, v),
        };
    }
    starved(c, "simple context", &|o| {
        let Ok(tt) = UriTemplateStr::new(&t) else { return };
        for v in tt.variables() {
            see!(o, "{:?}", ctx.get(v));
        }
        match tt.expand::<IriSpec, _>(&ctx) {
            Ok(e) => see!(o, "{e}"),
            Err(e) => see!(o, "{e}"),
        }
    })
}

fn decode(c: &mut Ctx) -> Res {
    c.op("decoding cursors");
    let s = gt::value_text(c);
    let skip = c.below(4) as usize;
    starved(c, "decoding", &|o| {
        let d = decode_whatwg_bytes(s.as_bytes());
        see!(o, "{:?}", d.to_bytes());
        for f in d.bytes_fragments() {
            see!(o, "{f:?}");
        }
        let mut it = d.bytes_fragments();
        see!(o, "{:?} {:?} {:?}", it.nth(skip), it.clone().count(), it.not_yet_decoded());
        see!(o, "{it:?} {d:?}");
        see!(o, "{:?}", it.last());
        let cut = &s.as_bytes()[..s.len() - s.len().min(skip)];
        let part = decode_whatwg_bytes(cut);
        see!(o, "{part:?} {:?}", part.bytes_fragments());
        if !s.bytes().any(|b| b == b'%') {
            // Nothing to decode, nothing to allocate.
            see!(o, "{:?}", d.into_bytes().len());
        }
    })?;
    // What is decoded into new memory takes no more than it needs.
    let as_text = c.below(2) == 0;
    let (r, l) = alloc::with_plan(Mem::Never, || {
        no_panic("decoding", || {
            let d = decode_whatwg_bytes(s.as_bytes());
            if as_text {
                d.into_string().map_or_else(|e| e.into_bytes().len(), |s| s.len())
            } else {
                d.into_bytes().len()
            }
        })
    });
    let len = r?.max(s.len());
    within(&format!("decoding {s:?}"), &l, len)
}

fn build<S: Sp>(c: &mut Ctx) -> Res {
    c.op("builder");
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let wide = S::IRI || c.chance(1, 6);
    let p = gen::parts(c, sw, wide, kind);
    let a = p.authority.as_deref().map(g::split_auth);
    let norm = c.chance(1, 2);
    let unset = c.below(8);
    starved(c, "builder", &|o| {
        let mut b = Builder::new();
        render::fill(&p, &a, &mut b);
        if norm {
            b.normalize();
        }
        match unset {
            0 => {
                b.unset_authority();
            }
            1 => {
                b.unset_query();
            }
            2 => {
                b.unset_scheme();
            }
            _ => {}
        }
        let again = b.clone();
        macro_rules! go {
            ($ty:ident, $b:expr) => {
                match $b.build::<$ty<S>>() {
                    Ok(v) => see!(o, "{v} {:?}", v.ensure_rfc3986_normalizable().map_err(ErrText)),
                    Err(e) => see!(o, "{e} {e:?}"),
                }
            };
        }
        match kind {
            Kind::Full => go!(RiStr, b),
            Kind::Abs => go!(RiAbsoluteStr, b),
            Kind::Ref => go!(RiReferenceStr, b),
            Kind::Rel => go!(RiRelativeStr, b),
        }
        go!(RiReferenceStr, again);
    })
}

fn place<S: Sp>(v: &Own<S>) -> usize {
    v.as_str().as_ptr() as usize
}

/// Owned values changing kind, or losing a part: the buffer stays, no memory is needed.
fn by_value<S: Sp>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let kind = *c.pick(&g::KINDS);
    let mut p = gen::parts(c, sw, S::IRI, kind);
    if p.authority.is_none() && c.chance(1, 2) && kind != Kind::Rel {
        p.authority = Some(gen::authority(c, sw, S::IRI));
        p.path = format!("/{}", p.path.trim_start_matches('/'));
    }
    let text = g::compose(&p);
    let Some(mut v) = Own::<S>::new(kind, &text) else { return Ok(()) };
    let mut expect = g::split(&text);
    c.note(|| format!("{v:?}"));
    for _ in 0..1 + c.below(5) {
        let at = place(&v);
        let what;
        let (r, l) = match c.below(6) {
            0 | 1 => {
                let to = *c.pick(&g::KINDS);
                let named = c.chance(1, 2);
                what = format!("conversion of {v:?} to {to:?}");
                c.op("conversion by value");
                c.armed(Mem::From(0), || {
                    no_panic("conversion", || match crate::kinds::convert(v, to, named) {
                        crate::kinds::Conv::Ok(v) | crate::kinds::Conv::Back(v) => Ok(v),
                        crate::kinds::Conv::BackText(t) => Err(t),
                    })
                })
            }
            2 => {
                what = format!("removal of the fragment of {v:?}");
                c.op("fragment removed");
                expect.fragment = None;
                let into = c.chance(1, 2);
                c.armed(Mem::From(0), || {
                    no_panic("set_fragment(None)", || {
                        Ok(match v {
                            Own::Full(x) if into => Own::Abs(x.into_absolute()),
                            Own::Full(mut x) => {
                                x.set_fragment(None);
                                Own::Full(x)
                            }
                            Own::Ref(mut x) => {
                                x.set_fragment(None);
                                Own::Ref(x)
                            }
                            Own::Rel(mut x) => {
                                x.set_fragment(None);
                                Own::Rel(x)
                            }
                            v => v,
                        })
                    })
                })
            }
            3 => {
                what = format!("removal of the password of {v:?}");
                c.op("password removed");
                let whole = c.chance(1, 2);
                if let Some(a) = &expect.authority {
                    let mut a = g::split_auth(a);
                    if let Some(u) = &mut a.userinfo {
                        if let Some(i) = u.find(':') {
                            u.truncate(if whole { i } else { i + 1 });
                        }
                    }
                    expect.authority = Some(g::compose_auth(&a));
                }
                c.armed(Mem::From(0), || {
                    no_panic("removal of a password", || {
                        each!(&mut v, x => if whole { x.remove_password_inline() } else { x.remove_nonempty_password_inline() });
                        Ok(v)
                    })
                })
            }
            4 => {
                what = format!("as text and back: {v:?}");
                c.op("text and back");
                c.armed(Mem::From(0), || {
                    no_panic("text and back", || {
                        let k = v.kind();
                        let t: String = each!(v, x => x.into());
                        crate::kinds::from_text::<S>(k, t)
                    })
                })
            }
            _ => {
                what = format!("comparisons of {v:?}");
                c.op("owned access");
                c.armed(Mem::From(0), || {
                    no_panic("owned access", || {
                        let mut o = Seen::new();
                        each!(&v, x => {
                            let mut h = Fnv(3);
                            x.hash(&mut h);
                            see!(o, "{x} {x:?} {} {}", h.finish(), x == x);
                            see!(o, "{:?} {:?}", x.path_str(), x.authority_components().map(|a| a.host()));
                        });
                        Ok(v)
                    })
                })
            }
        };
        c.fault("out_of_memory_throughout");
        let r = r?;
        ensure_eq!(l.attempts, 0, "asks for memory", "{what} asked for memory");
        match r {
            Ok(n) => v = n,
            Err(t) => {
                ensure_eq!(t.as_ptr() as usize, at, "moved", "{what}: text handed back");
                return Ok(());
            }
        }
        ensure_eq!(v.as_str().to_string(), g::compose(&expect), "wrong text", "{what}");
        if l.balance == 0 {
            ensure_eq!(place(&v), at, "moved", "{what}");
        }
    }
    Ok(())
}

/// A text given away keeps its buffer, accepted or not.
fn owned_in<T: Typed + ?Sized>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let s = if c.chance(1, 2) { T::near(c, sw) } else { T::generate(c, sw) };
    c.op("text by value");
    let n = T::TEXT_BY_VALUE;
    let (at, copy) = (s.as_ptr() as usize, s.clone());
    let (r, l) = c.armed(Mem::From(0), || no_panic("TryFrom<String>", || n(s)));
    c.fault("out_of_memory_throughout");
    let (ok, back) = r?;
    ensure_eq!(l.attempts, 0, "asks for memory", "{} from {copy:?} by value, accepted: {ok}", T::NAME);
    ensure_eq!((back.as_ptr() as usize, back.as_str()), (at, copy.as_str()), "moved", "{} from {copy:?}, accepted: {ok}", T::NAME);
    Ok(())
}

/// Output routes ask for memory in proportion to the text.
fn proportion(c: &mut Ctx, it: &render::Item) -> Res {
    use iri_string::format::{try_append_to_string, ToStringFallible};
    let full = no_panic(it.name, || it.text.to_string())?;
    let what = format!("{} of {}", it.name, it.what);
    let k = c.below(4);
    let (r, l) = alloc::with_plan(Mem::Never, || {
        no_panic(it.name, || match k {
            0 => it.text.try_to_string().ok(),
            1 => {
                let mut s = String::new();
                try_append_to_string(&mut s, &it.text).ok().map(|()| s)
            }
            2 => Some(it.text.to_string()),
            _ => match it.dedicated {
                Some(d) => d().ok(),
                None => it.text.try_to_string().ok(),
            },
        })
    });
    let t = r?;
    c.note(|| format!("{what} by route {k}: {} bytes for {} bytes of text, {} requests", l.peak, full.len(), l.attempts));
    ensure_eq!(t.as_deref(), Some(full.as_str()), "wrong text", "{what} by route {k}");
    within(&what, &l, full.len())
}
fn within(what: &str, l: &alloc::Ledger, len: usize) -> Res {
    let bound = 8 * len as i64 + 256;
    ensure!(l.peak <= bound, "out of proportion", "{what}: {} bytes of memory for {len} bytes of text", l.peak);
    Ok(())
}

/// In-place encoding: linear in the result; nothing where nothing changes.
fn encode_inline(c: &mut Ctx) -> Res {
    let mut sw = Swarm::draw(c);
    sw.wide = true;
    let kind = *c.pick(&g::KINDS);
    let iri = c.chance(2, 3);
    let s = ident(c, sw, iri, kind);
    let Some(mut v) = Own::<IriSpec>::new(kind, &s) else { return Ok(()) };
    c.op("encode in place");
    let what = format!("encoding {s:?} in place");
    let ascii = s.is_ascii();
    let mem = if ascii { Mem::From(0) } else { Mem::Never };
    let (r, l) = c.armed(mem, || no_panic("encode_to_uri_inline", || each!(&mut v, x => x.try_encode_to_uri_inline().is_ok())));
    let r = r?;
    if ascii {
        c.fault("out_of_memory_throughout");
        ensure_eq!((r, l.attempts), (true, 0), "asks for memory", "{what} although it is a URI already");
        let at = place(&v);
        let (u, l) = c.armed(Mem::From(0), || {
            no_panic("try_into_uri", || match v {
                Own::Full(x) => x.try_into_uri().map(|u| u.as_str().as_ptr() as usize).map_err(|_| ()),
                Own::Abs(x) => x.try_into_uri().map(|u| u.as_str().as_ptr() as usize).map_err(|_| ()),
                Own::Ref(x) => x.try_into_uri().map(|u| u.as_str().as_ptr() as usize).map_err(|_| ()),
                Own::Rel(x) => x.try_into_uri().map(|u| u.as_str().as_ptr() as usize).map_err(|_| ()),
            })
        });
        c.fault("out_of_memory_throughout");
        ensure_eq!((u?, l.attempts), (Ok(at), 0), "asks for memory", "{s:?} into a URI by value");
        return Ok(());
    }
    ensure!(r, "spurious error", "{what} failed with memory at hand");
    within(&what, &l, v.as_str().len())
}
