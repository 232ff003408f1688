//! C18: conversions between kinds are exact, lossless and reversible.

use crate::ctx::{no_panic, vio, Ctx, Res};
use crate::gen::{self, Swarm};
use crate::kinds::{convert, from_text, Conv, Own, Sp};
use crate::model::grammar::{self as g, Kind, Parts};
use crate::typed::{hash, In, Typed};
use crate::{each, each_to, ensure, ensure_eq, with_typed};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::borrow::Cow;
use std::cmp::Ordering;

enum Any {
    U(Own<UriSpec>),
    I(Own<IriSpec>),
}
impl Any {
    fn as_str(&self) -> &str {
        match self {
            Any::U(o) => o.as_str(),
            Any::I(o) => o.as_str(),
        }
    }
    fn iri(&self) -> bool {
        matches!(self, Any::I(_))
    }
    fn kind(&self) -> Kind {
        match self {
            Any::U(o) => o.kind(),
            Any::I(o) => o.kind(),
        }
    }
}

pub fn run(c: &mut Ctx) -> Res {
    if c.below(4) == 3 {
        return with_typed!(c, holders);
    }
    let sw = Swarm::draw(c);
    let iri = c.chance(1, 2);
    let kind = *c.pick(&g::KINDS);
    let text = gen::ident(c, sw, iri, kind);
    c.note(|| format!("start {kind:?} iri={iri} {text:?}"));
    let start = if iri {
        from_text::<IriSpec>(kind, text.clone()).map(Any::I)
    } else {
        from_text::<UriSpec>(kind, text.clone()).map(Any::U)
    };
    let Ok(mut cur) = start else { return vio("valid text refused", format!("{text:?} as {kind:?}")) };
    for _ in 0..2 + c.below(8) {
        cur = step(c, sw, cur)?;
        ensure_eq!(cur.as_str(), text.as_str(), "text changed", "after a conversion to {:?} iri={}", cur.kind(), cur.iri());
        ensure!(
            g::valid(cur.iri(), cur.kind(), &text),
            "ill-formed",
            "{text:?} ended up as {:?} iri={}",
            cur.kind(),
            cur.iri()
        );
    }
    Ok(())
}

fn step(c: &mut Ctx, sw: Swarm, cur: Any) -> Res<Any> {
    match c.below(8) {
        0..=2 => Ok(match cur {
            Any::U(o) => Any::U(convert_step(c, o)?),
            Any::I(o) => Any::I(convert_step(c, o)?),
        }),
        3 => {
            c.op("change of spec");
            spec_step(c, cur)
        }
        4 => {
            c.op("borrowed conversions");
            match &cur {
                Any::U(o) => {
                    borrowed(o)?;
                    // A URI seen as an IRI.
                    let i: &str = match o {
                        Own::Full(v) => AsRef::<IriStr>::as_ref(v).as_str(),
                        Own::Abs(v) => AsRef::<IriAbsoluteStr>::as_ref(v).as_str(),
                        Own::Ref(v) => AsRef::<IriReferenceStr>::as_ref(v).as_str(),
                        Own::Rel(v) => AsRef::<IriRelativeStr>::as_ref(v).as_str(),
                    };
                    ensure_eq!(i, o.as_str(), "text changed", "URI as IRI");
                }
                Any::I(o) => {
                    borrowed(o)?;
                    let u = each!(o, v => v.as_uri().map(|u| u.as_str().to_string()));
                    ensure_eq!(u, o.as_str().is_ascii().then(|| o.as_str().to_string()), "as_uri", "{o:?}");
                }
            }
            Ok(cur)
        }
        5 => {
            c.op("split and put together");
            Ok(match cur {
                Any::U(o) => Any::U(split(c, o)?),
                Any::I(o) => Any::I(split(c, o)?),
            })
        }
        6 => {
            c.op("compare");
            compare(c, sw, &cur)?;
            Ok(cur)
        }
        _ => {
            c.op("change of holder");
            macro_rules! go {
                ($o:expr, $s:ty) => {{
                    let r = c.below(RiStr::<$s>::HANDOVERS as u32) as usize;
                    let res = match $o {
                        Own::Full(v) => no_panic("handover", || RiStr::<$s>::handover(v, r))?.map(Own::Full),
                        Own::Abs(v) => no_panic("handover", || RiAbsoluteStr::<$s>::handover(v, r))?.map(Own::Abs),
                        Own::Ref(v) => no_panic("handover", || RiReferenceStr::<$s>::handover(v, r))?.map(Own::Ref),
                        Own::Rel(v) => no_panic("handover", || RiRelativeStr::<$s>::handover(v, r))?.map(Own::Rel),
                    };
                    match res {
                        Ok(v) => v,
                        Err(e) => return vio("changed holder", e),
                    }
                }};
            }
            Ok(match cur {
                Any::U(o) => Any::U(go!(o, UriSpec)),
                Any::I(o) => Any::I(go!(o, IriSpec)),
            })
        }
    }
}

fn convert_step<S: Sp>(c: &mut Ctx, own: Own<S>) -> Res<Own<S>> {
    let to = *c.pick(&g::KINDS);
    let named = c.chance(1, 2);
    let (from, text) = (own.kind(), own.as_str().to_string());
    c.op("convert");
    c.shape(to as u64);
    c.note(|| format!("{from:?} to {to:?} named={named}"));
    let should = g::valid(S::IRI, to, &text);
    let what = format!("{text:?} from {from:?} to {to:?} iri={}", S::IRI);
    Ok(match no_panic("conversion", || convert(own, to, named))? {
        Conv::Ok(v) => {
            ensure!(should, "converted what does not fit", "{what}");
            ensure_eq!(v.kind(), to, "kind", "{what}");
            v
        }
        Conv::Back(v) => {
            c.fault("refused_conversion");
            ensure!(!should, "refused what fits", "{what}");
            // The named methods classify: the other kind comes back.
            if !named {
                ensure_eq!(v.kind(), from, "kind of returned value", "{what}");
            }
            v
        }
        Conv::BackText(t) => {
            c.fault("refused_conversion");
            ensure!(!should, "refused what fits", "{what}");
            ensure_eq!(t, text, "returned text", "{what}");
            match from_text::<S>(from, t) {
                Ok(v) => v,
                Err(t) => return vio("refused before accepted text", format!("{t:?} as {from:?}")),
            }
        }
    })
}

fn spec_step(c: &mut Ctx, cur: Any) -> Res<Any> {
    Ok(match cur {
        Any::U(o) => {
            c.note(|| "URI to IRI".into());
            let i: Own<IriSpec> = no_panic("From", || each_to!(o, v => v.into()))?;
            Any::I(i)
        }
        Any::I(o) => {
            c.note(|| "IRI to URI".into());
            let ascii = o.as_str().is_ascii();
            let what = format!("{o:?}");
            macro_rules! go {
                ($v:expr, $k:ident) => {
                    match no_panic("try_into_uri", || $v.try_into_uri())? {
                        Ok(u) => {
                            ensure!(ascii, "converted what does not fit", "{what} to URI");
                            Any::U(Own::$k(u))
                        }
                        Err(i) => {
                            c.fault("refused_conversion");
                            ensure!(!ascii, "refused what fits", "{what} to URI");
                            Any::I(Own::$k(i))
                        }
                    }
                };
            }
            match o {
                Own::Full(v) => go!(v, Full),
                Own::Abs(v) => go!(v, Abs),
                Own::Ref(v) => go!(v, Ref),
                Own::Rel(v) => go!(v, Rel),
            }
        }
    })
}

/// Conversions of borrowed values.
fn borrowed<S: Sp>(o: &Own<S>) -> Res {
    let t = o.as_str();
    let ok = |k| g::valid(S::IRI, k, t);
    macro_rules! fits {
        ($r:expr, $k:ident, $n:literal) => {{
            let r = no_panic($n, || $r.map(|v| v.as_str()))?;
            ensure_eq!(r.ok(), ok(Kind::$k).then_some(t), "borrowed conversion", "{} of {o:?}", $n);
        }};
    }
    macro_rules! same {
        ($v:expr, $n:literal) => {{
            let r = no_panic($n, || $v.as_str())?;
            ensure_eq!(r, t, "borrowed conversion", "{} of {o:?}", $n);
        }};
    }
    match o {
        Own::Full(v) => {
            let v: &RiStr<S> = v;
            fits!(<&RiAbsoluteStr<S>>::try_from(v), Abs, "full to absolute");
            same!(<&RiReferenceStr<S>>::from(v), "full to reference");
            same!(AsRef::<RiReferenceStr<S>>::as_ref(v), "full as reference");
        }
        Own::Abs(v) => {
            same!(AsRef::<RiStr<S>>::as_ref(v), "owned absolute as full");
            same!(AsRef::<RiReferenceStr<S>>::as_ref(v), "owned absolute as reference");
            let v: &RiAbsoluteStr<S> = v;
            same!(<&RiStr<S>>::from(v), "absolute to full");
            same!(<&RiReferenceStr<S>>::from(v), "absolute to reference");
            same!(AsRef::<RiStr<S>>::as_ref(v), "absolute as full");
        }
        Own::Rel(v) => {
            same!(AsRef::<RiReferenceStr<S>>::as_ref(v), "owned relative as reference");
            let v: &RiRelativeStr<S> = v;
            same!(<&RiReferenceStr<S>>::from(v), "relative to reference");
        }
        Own::Ref(v) => {
            let v: &RiReferenceStr<S> = v;
            fits!(<&RiStr<S>>::try_from(v), Full, "reference to full");
            fits!(<&RiAbsoluteStr<S>>::try_from(v), Abs, "reference to absolute");
            fits!(<&RiRelativeStr<S>>::try_from(v), Rel, "reference to relative");
            fits!(v.to_iri(), Full, "to_iri");
            fits!(v.to_relative_iri(), Rel, "to_relative_iri");
            let other = match v.to_iri() {
                Ok(x) => x.as_str(),
                Err(x) => x.as_str(),
            };
            ensure_eq!(other, t, "borrowed conversion", "to_iri");
            let other = match v.to_relative_iri() {
                Ok(x) => x.as_str(),
                Err(x) => x.as_str(),
            };
            ensure_eq!(other, t, "borrowed conversion", "to_relative_iri");
        }
    }
    Ok(())
}

/// Splits off the fragment and puts it back.
fn split<S: Sp>(c: &mut Ctx, o: Own<S>) -> Res<Own<S>> {
    let text = o.as_str().to_string();
    let p = g::split(&text);
    let Own::Full(v) = o else { return Ok(o) };
    let without = g::compose(&Parts { fragment: None, ..p.clone() });
    if c.below(2) == 0 {
        let (a, f) = no_panic("to_absolute_and_fragment", || v.to_absolute_and_fragment())?;
        ensure_eq!((a.as_str(), f.map(|f| f.as_str())), (without.as_str(), p.fragment.as_deref()), "split", "{text:?}");
        ensure_eq!(v.to_absolute().as_str(), without.as_str(), "split", "{text:?}");
        let mut back: RiString<S> = a.to_owned().into();
        no_panic("set_fragment", || back.set_fragment(f))?;
        return Ok(Own::Full(back));
    }
    let (a, f) = no_panic("into_absolute_and_fragment", || v.into_absolute_and_fragment())?;
    ensure_eq!((a.as_str(), f.as_ref().map(|f| f.as_str())), (without.as_str(), p.fragment.as_deref()), "split", "{text:?}");
    if c.below(2) == 0 {
        let mut back: RiString<S> = a.into();
        no_panic("set_fragment", || back.set_fragment(f.as_deref()))?;
        Ok(Own::Full(back))
    } else {
        let mut back: RiReferenceString<S> = a.into();
        no_panic("set_fragment", || back.set_fragment(f.as_deref()))?;
        Ok(Own::Ref(back))
    }
}

type Cmp = (&'static str, Ordering, bool);

/// Every comparison between kinds that exists, of two texts in two specs.
fn cross<S: Sp, T: Sp>(t: &str, u: &str) -> Vec<Cmp> {
    let mut out: Vec<Cmp> = Vec::new();
    macro_rules! p {
        ($n:literal, $x:expr, $y:expr) => {
            out.push(($n, $x.partial_cmp($y).unwrap(), *$x == *$y));
            out.push(($n, $y.partial_cmp($x).unwrap().reverse(), *$y == *$x));
        };
    }
    macro_rules! pair {
        ($fs:ident $fo:ident $ts:ident $to:ident) => {
            if let (Ok(a), Ok(b)) = ($fs::<S>::new(t), $ts::<T>::new(u)) {
                let (ao, bo) = (a.to_owned(), b.to_owned());
                let (ac, bc) = (Cow::Borrowed(a), Cow::<'_, $ts<T>>::Owned(bo.clone()));
                p!("slice, slice", a, b);
                p!("&slice, slice", &a, b);
                p!("slice, &slice", a, &b);
                p!("slice, Cow", a, &bc);
                p!("&slice, Cow", &a, &bc);
                p!("Cow, slice", &ac, b);
                p!("Cow, &slice", &ac, &b);
                p!("slice, owned", a, &bo);
                p!("&slice, owned", &a, &bo);
                p!("Cow, owned", &ac, &bo);
                p!("owned, slice", &ao, b);
                p!("owned, &slice", &ao, &b);
                p!("owned, Cow", &ao, &bc);
                p!("owned, owned", &ao, &bo);
            }
        };
    }
    pair!(RiAbsoluteStr RiAbsoluteString RiStr RiString);
    pair!(RiAbsoluteStr RiAbsoluteString RiReferenceStr RiReferenceString);
    pair!(RiStr RiString RiReferenceStr RiReferenceString);
    pair!(RiRelativeStr RiRelativeString RiReferenceStr RiReferenceString);
    macro_rules! own_kind {
        ($fs:ident $fo:ident) => {
            if let (Ok(a), Ok(b)) = ($fs::<S>::new(t), $fs::<T>::new(u)) {
                let (ao, bo) = (a.to_owned(), b.to_owned());
                let bc = Cow::<'_, $fs<T>>::Owned(bo.clone());
                p!("owned, owned of the kind", &ao, &bo);
                p!("slice, owned of the kind", a, &bo);
                p!("&slice, owned of the kind", &a, &bo);
                p!("&slice, slice of the kind", &a, b);
                p!("&slice, Cow of the kind", &a, &bc);
                p!("Cow, owned of the kind", &bc, &ao);
                let n = out.len();
                for e in &mut out[n - 2..] {
                    e.1 = e.1.reverse();
                }
                if let (Ok(a2), Ok(b2)) = ($fs::<S>::new(t), $fs::<S>::new(u)) {
                    p!("slice, slice of the kind", a2, b2);
                    out.push(("Ord of slices", a2.cmp(b2), hash(a2) == hash(b2)));
                    out.push(("Ord of owned", a2.to_owned().cmp(&b2.to_owned()), hash(&a2.to_owned()) == hash(b2)));
                }
            }
        };
    }
    own_kind!(RiStr RiString);
    own_kind!(RiAbsoluteStr RiAbsoluteString);
    own_kind!(RiReferenceStr RiReferenceString);
    own_kind!(RiRelativeStr RiRelativeString);
    out
}

fn compare(c: &mut Ctx, sw: Swarm, cur: &Any) -> Res {
    let t = cur.as_str().to_string();
    let u = match c.below(3) {
        0 => t.clone(),
        1 => {
            let mut u = t.clone();
            gen::mutate(c, &mut u);
            u
        }
        _ => gen::ident(c, sw, cur.iri(), cur.kind()),
    };
    c.note(|| format!("compare with {u:?}"));
    let all = no_panic("comparison", || {
        let mut v = cross::<UriSpec, UriSpec>(&t, &u);
        v.extend(cross::<UriSpec, IriSpec>(&t, &u));
        v.extend(cross::<IriSpec, UriSpec>(&t, &u));
        v.extend(cross::<IriSpec, IriSpec>(&t, &u));
        v
    })?;
    if !all.is_empty() {
        c.probe("compared_across_kinds");
    }
    for (n, ord, eq) in all {
        ensure_eq!((ord, eq), (t.cmp(&u), t == u), "comparison", "{n} of {t:?} and {u:?}");
    }
    // Hashes do not depend on the kind or spec.
    let h = match cur {
        Any::U(o) => each!(o, v => (hash(v), hash(v.as_slice()))),
        Any::I(o) => each!(o, v => (hash(v), hash(v.as_slice()))),
    };
    ensure_eq!(h, (hash(t.as_str()), hash(t.as_str())), "hash", "{t:?}");
    Ok(())
}

/// Every type, every holder.
fn holders<T: Typed + ?Sized>(c: &mut Ctx) -> Res {
    let sw = Swarm::draw(c);
    let text = T::generate(c, sw);
    c.note(|| format!("{} iri={} {text:?}", T::NAME, T::iri()));
    let In::Ok(mut own) = T::own_in(0, text.clone()) else { return vio("valid text refused", format!("{text:?}")) };
    for _ in 0..1 + c.below(6) {
        match c.below(4) {
            0 | 1 => {
                let r = c.below(T::HANDOVERS as u32) as usize;
                c.op("change of holder");
                c.shape(r as u64);
                own = match no_panic("handover", || T::handover(own, r))? {
                    Ok(v) => v,
                    Err(e) => return vio("changed holder", format!("{} {text:?}: {e}", T::NAME)),
                };
            }
            2 => {
                c.op("compare");
                let mut u = text.clone();
                if c.chance(1, 2) {
                    gen::mutate(c, &mut u);
                }
                if let Some(v) = no_panic("new", || T::borrow_in(0, &u))? {
                    let t = T::slice(&own);
                    let got = no_panic("comparison", || (t == v, t != v, t.cmp(v), t.partial_cmp(v), own == v.own(), own.cmp(&v.own())))?;
                    let ord = text.cmp(&u);
                    ensure_eq!(got, (text == u, text != u, ord, Some(ord), text == u, ord), "comparison", "{} {text:?} and {u:?}", T::NAME);
                }
                for (n, ord, eq) in no_panic("comparison", || T::slice(&own).compares(&own, &u))? {
                    let want = if n.starts_with("slice") || n.starts_with("&slice") { text.cmp(&u) } else { u.cmp(&text) };
                    ensure_eq!((ord, eq), (want, u == text), "comparison", "{n} of {text:?} and {u:?}");
                }
            }
            _ => {
                c.op("copy");
                let w = own.clone();
                ensure!(w == own && w.cmp(&own) == Ordering::Equal && hash(&w) == hash(&own), "comparison", "a copy of {text:?} differs");
                ensure_eq!(hash(&own), hash(text.as_str()), "hash", "{text:?}");
                ensure_eq!(hash(T::slice(&own)), hash(text.as_str()), "hash", "{text:?}");
                let mut w = w;
                T::shrink(&mut w);
                own = w;
            }
        }
        ensure_eq!(T::slice(&own).text(), text.as_str(), "text changed", "{}", T::NAME);
        ensure_eq!(own.to_string(), text, "text changed", "Display of {}", T::NAME);
        ensure!(T::capacity(&own) >= text.len(), "capacity", "capacity below length");
    }
    ensure_eq!(T::into_string(own), text, "text changed", "{}", T::NAME);
    Ok(())
}
