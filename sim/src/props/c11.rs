//! C11: expansion depends on the values only, not on how they are delivered.

use crate::ctx::{guarded, no_panic, vio, Ctx, Outcome, Res};
use crate::env::context::{CVal, DynContext, SimContext};
use crate::env::sink::{Plan, Sink};
use crate::env::value::{End, Val};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::grammar::Kind;
use crate::model::template::{self as t, Chunk, Modifier, Value};
use crate::typed::Typed;
use crate::{ensure, ensure_eq};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::{Context, VisitValueNaive, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value as SValue};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub fn run(c: &mut Ctx) -> Res {
    c.long_values = true;
    if c.below(2) == 0 {
        go::<UriSpec>(c)
    } else {
        go::<IriSpec>(c)
    }
}

fn go<S: Sp>(c: &mut Ctx) -> Res {
    match c.below(16) {
        0..=8 => delivered::<S>(c),
        9..=13 => broken::<S>(c),
        14 => naive::<S>(c),
        _ => derived::<S>(c),
    }
}

/// Delivers every value anew, in different pieces.
fn recut(c: &mut Ctx, ctx: &SimContext) -> SimContext {
    let mut n = ctx.clone();
    for (_, v) in &mut n.vars {
        for x in v.vals_mut() {
            let s = x.text();
            *x = Val::cut(&mut c.src, &s);
        }
    }
    n.style = c.below(3) as u8;
    n
}

fn simple(ctx: &SimContext) -> SimpleContext {
    let mut s = SimpleContext::new();
    for (n, v) in &ctx.vars {
        s.insert(
            n.as_str(),
            match v.model() {
                Value::Undef => SValue::Undefined,
                Value::Str(s) => SValue::String(s),
                Value::List(l) => SValue::List(l),
                Value::Assoc(l) => SValue::Assoc(l),
            },
        );
    }
    s
}

fn cut_inside(v: &CVal) -> bool {
    let many = |v: &Val| v.pieces.len() > 1 && v.pieces.iter().any(|p| p.ends_with('%') || p.contains('%'));
    match v {
        CVal::Undef => false,
        CVal::Str(v) => many(v),
        CVal::List(l) => l.iter().any(many),
        CVal::Assoc(l) => l.iter().any(|(k, v)| many(k) || many(v)),
    }
}

fn delivered<S: Sp>(c: &mut Ctx) -> Res {
    let text = gt::valid(c);
    let Some(chunks) = t::parse(&text) else { return Ok(()) };
    let Ok(tt) = UriTemplateStr::new(&text) else {
        return vio("valid template refused", format!("{text:?} is a template but was refused"));
    };
    let mut ctx = gt::context_for(c, &chunks);
    let expected = t::expand(S::IRI, &chunks, &mut |n| ctx.model(n));
    for i in 0..1 + c.below(4) {
        if i > 0 {
            ctx = recut(c, &ctx);
        }
        if ctx.vars.iter().any(|(_, v)| cut_inside(v)) {
            c.probe("value_cut_near_triplet");
        }
        gt::shape(c, &chunks, &ctx);
        let what = || format!("{text:?} with {:?} delivered in style {}", ctx.vars, ctx.style);
        match c.below(4) {
            0 => {
                c.op("expand");
                c.note(|| format!("expand {}", what()));
                let r = no_panic("expand", || tt.expand::<S, _>(&ctx).map(|e| e.to_string()).map_err(|_| ()))?;
                ensure_eq!(r, expected.clone().map_err(|_| ()), "wrong expansion", "{}", what());
            }
            1 => {
                c.op("expand into a sink");
                c.note(|| format!("expand into a sink {}", what()));
                let Ok(e) = no_panic("expand", || tt.expand::<S, _>(&ctx))? else {
                    ensure!(expected.is_err(), "expansion refused", "{}", what());
                    continue;
                };
                let mut s = Sink::new(Plan::Good);
                let r = no_panic("write of an expansion", || write!(s, "{e}"))?;
                ensure!(r.is_ok(), "spurious error", "{}", what());
                ensure_eq!(Ok(s.accepted), expected, "wrong expansion", "{}", what());
            }
            2 => {
                c.op("expand_dynamic");
                c.note(|| format!("dynamic expansion {}", what()));
                let mut d = DynContext { inner: ctx.clone(), events: vec![] };
                if c.chance(1, 2) {
                    let r = no_panic("expand_dynamic_to_string", || tt.expand_dynamic_to_string::<S, _>(&mut d).map_err(|_| ()))?;
                    ensure_eq!(r, expected.clone().map_err(|_| ()), "wrong expansion", "{}", what());
                } else {
                    let mut s = Sink::new(Plan::Good);
                    let r = no_panic("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut s, &mut d).is_ok())?;
                    let got = if r { Ok(s.accepted) } else { Err(s.accepted) };
                    match &expected {
                        Ok(_) => ensure_eq!(got, expected, "wrong expansion", "{}", what()),
                        Err(prefix) => {
                            ensure!(
                                got.as_ref().is_err_and(|g| g.starts_with(prefix.as_str()) && g.len() <= prefix.len() + 1),
                                "wrong expansion",
                                "{}: got {got:?}, expected an error after {prefix:?}",
                                what()
                            );
                        }
                    }
                }
            }
            _ => {
                c.op("expand with a simple context");
                c.note(|| format!("expand with a simple context {}", what()));
                let mut sc = simple(&ctx);
                let r = if c.chance(1, 2) {
                    no_panic("expand", || tt.expand::<S, _>(&sc).map(|e| e.to_string()).map_err(|_| ()))?
                } else {
                    no_panic("expand_dynamic", || tt.expand_dynamic_to_string::<S, _>(&mut sc).map_err(|_| ()))?
                };
                ensure_eq!(r, expected.clone().map_err(|_| ()), "wrong expansion", "simple context, {}", what());
            }
        }
    }
    Ok(())
}

/// What the delivered part expands to, and how the expansion ends.
fn until(iri: bool, chunks: &[Chunk], ctx: &SimContext, lazy: bool) -> (String, t::Stop) {
    let mut out = String::new();
    let mut occ = 0;
    let mut maybe = None;
    for ch in chunks {
        match ch {
            Chunk::Lit(l) => out.push_str(&t::encode_reserved(iri, l)),
            Chunk::Expr(o, vars) => {
                let o = t::op(*o);
                let mut first = true;
                for v in vars {
                    let cv = ctx.get(&v.name);
                    // The part of the value that arrives.
                    let (part, cut) = delivered_part(cv);
                    match t::expand_var(iri, &o, v, &part) {
                        Err(()) => return (out, t::Stop::Mismatch(occ)),
                        Ok(None) => {}
                        Ok(Some(s)) => {
                            out.push_str(if first { o.first } else { o.sep });
                            first = false;
                            out.push_str(&s);
                        }
                    }
                    if cut {
                        // With a prefix modifier the end of the value may not matter.
                        let enough = match (&part, v.modifier) {
                            (Value::Str(s), Modifier::Prefix(n)) if o.reserved => {
                                t::prefix_reserved(s, n) < s.len() || chars_reserved(s, n)
                            }
                            (Value::Str(s), Modifier::Prefix(n)) => s.chars().count() >= n as usize,
                            _ => false,
                        };
                        if !enough {
                            return (out, t::Stop::Broken(occ));
                        }
                        if !lazy {
                            return (out, t::Stop::MaybeBroken(occ));
                        }
                        maybe = Some(occ);
                    }
                    occ += 1;
                }
            }
        }
    }
    (out, maybe.map_or(t::Stop::Complete, t::Stop::MaybeBroken))
}
/// Whether the text has at least `n` characters in the sense of a reserved expansion.
fn chars_reserved(s: &str, n: u32) -> bool {
    n == 0 || t::prefix_reserved(s, n - 1) < s.len()
}
fn delivered_part(v: &CVal) -> (Value, bool) {
    let bad = |v: &Val| v.end != End::Ok;
    match v {
        CVal::Undef => (Value::Undef, false),
        CVal::Str(x) => (Value::Str(x.text()), bad(x)),
        CVal::List(l) => match l.iter().position(bad) {
            None => (v.model(), false),
            Some(i) => (Value::List(l[..=i].iter().map(|x| x.text()).collect()), true),
        },
        CVal::Assoc(l) => match l.iter().position(|(k, x)| bad(k) || bad(x)) {
            None => (v.model(), false),
            Some(i) => {
                let mut m: Vec<(String, String)> = l[..=i].iter().map(|(k, x)| (k.text(), x.text())).collect();
                if bad(&l[i].0) {
                    m[i].1.clear();
                }
                (Value::Assoc(m), true)
            }
        },
    }
}

/// Some value breaks off part-way: an error, or a panic of the value.
fn broken<S: Sp>(c: &mut Ctx) -> Res {
    let text = gt::valid(c);
    let Some(chunks) = t::parse(&text) else { return Ok(()) };
    let Ok(tt) = UriTemplateStr::new(&text) else {
        return vio("valid template refused", format!("{text:?} is a template but was refused"));
    };
    let mut ctx = gt::context_for(c, &chunks);
    let whole = ctx.clone();
    let mut all: Vec<&mut Val> = ctx.vars.iter_mut().flat_map(|(_, v)| v.vals_mut()).collect();
    if all.is_empty() {
        return Ok(());
    }
    let mut panics = false;
    for _ in 0..1 + c.below(2) {
        let k = c.below(all.len() as u32) as usize;
        let v = &mut *all[k];
        let keep = c.below(v.pieces.len() as u32 + 1) as usize;
        v.pieces.truncate(keep);
        v.how.truncate(keep);
        v.end = if c.chance(1, 4) {
            panics = true;
            End::Panic
        } else {
            End::Fail
        };
    }
    drop(all);
    let (strict, stop) = until(S::IRI, &chunks, &ctx, false);
    let (lazy, lazy_stop) = until(S::IRI, &chunks, &ctx, true);
    let mismatch = t::expand(S::IRI, &chunks, &mut |n| ctx.model(n)).is_err();
    let what = format!("{text:?} with {:?} delivered in style {}", ctx.vars, ctx.style);
    c.note(|| format!("values break off: {what}; expected {strict:?} {stop:?}, at most {lazy:?} {lazy_stop:?}"));
    gt::shape(c, &chunks, &ctx);
    let dynamic = c.chance(1, 2);
    let mut sink = Sink::new(Plan::Good);
    let r = if dynamic {
        c.op("expand_dynamic with breaking values");
        let mut d = DynContext { inner: ctx.clone(), events: vec![] };
        guarded("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut sink, &mut d).map_err(|_| std::fmt::Error))?
    } else {
        c.op("expand with breaking values");
        let e = match no_panic("expand", || tt.expand::<S, _>(&ctx))? {
            Ok(e) => e,
            Err(_) => {
                ensure!(mismatch, "expansion refused", "{what}");
                return Ok(());
            }
        };
        ensure!(!mismatch, "type mismatch accepted", "{what}");
        guarded("write of an expansion", || write!(sink, "{e}"))?
    };
    let got = &sink.accepted;
    match stop {
        t::Stop::Complete => {
            ensure_eq!(r, Outcome::Done(Ok(())), "spurious error", "{what}");
            ensure_eq!(got, &strict, "wrong expansion", "{what}");
        }
        t::Stop::Mismatch(_) => {
            ensure!(matches!(r, Outcome::Done(Err(_))), "type mismatch accepted", "{what}: {r:?}");
            ensure!(got.starts_with(&strict), "not a prefix", "{what}: wrote {got:?}, expected {strict:?}");
        }
        t::Stop::Broken(_) => {
            c.fault(if panics { "value_panics" } else { "value_fails" });
            ensure!(
                match r {
                    Outcome::Done(Err(_)) => true,
                    Outcome::Injected => panics,
                    _ => false,
                },
                "failure of a value swallowed",
                "{what}: {r:?}, wrote {got:?}"
            );
            ensure!(strict.starts_with(got.as_str()), "not a prefix", "{what}: wrote {got:?}, no prefix of {strict:?}");
        }
        t::Stop::MaybeBroken(_) => {
            c.probe("value_breaks_after_its_prefix");
            let failed = !matches!(r, Outcome::Done(Ok(())));
            if failed {
                ensure!(lazy.starts_with(got.as_str()), "not a prefix", "{what}: wrote {got:?}, no prefix of {lazy:?}");
                if !panics {
                    ensure!(matches!(r, Outcome::Done(Err(_))), "panic", "{what}");
                }
            } else {
                ensure!(
                    matches!(lazy_stop, t::Stop::Complete | t::Stop::MaybeBroken(_)),
                    "failure of a value swallowed",
                    "{what}: returned Ok after {got:?}"
                );
                ensure_eq!(got, &lazy, "wrong expansion", "{what}");
            }
        }
    }
    // The next expansion with whole values is not disturbed.
    let r = no_panic("expand", || tt.expand::<S, _>(&whole).map(|e| e.to_string()).map_err(|_| ()))?;
    let expected = t::expand(S::IRI, &chunks, &mut |n| whole.model(n)).map_err(|_| ());
    ensure_eq!(r, expected, "wrong expansion", "after a broken expansion, {text:?} with {:?}", whole.vars);
    Ok(())
}

/// Values of the types the crate implements naive visiting for.
struct Naive {
    a: String,
    b: Option<Box<str>>,
    v: Vec<Val>,
    list: [String; 2],
    keys: BTreeMap<String, String>,
    xy: BTreeSet<String>,
    num: i64,
    unit: (),
}
iri_string::impl_template_context_naive! { Naive {
    a, b, v, list, keys, xy: "x.y", num: "A_1", unit: "_",
    num: "0" => |visitor, n: &i64| visit_number(visitor, *n),
} }
fn visit_number<V: Visitor>(v: V, n: i64) -> V::Result {
    if n < 0 {
        v.visit_undefined()
    } else {
        n.visit_value(v)
    }
}
/// Delegates to the naive values behind references and options.
struct Indirect<'a>(&'a Naive);
impl Context for Indirect<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let n = self.0;
        match v.var_name().as_str() {
            "a" => Some(&*n.a).visit_value(v),
            "b" => n.b.as_deref().visit_value(v),
            "v" => n.v[..].visit_value(v),
            "list" => (&&n.list).visit_value(v),
            "keys" => Some(&n.keys).visit_value(v),
            "x.y" => Some(Some(&n.xy)).visit_value(v),
            "A_1" => (n.num as i128).visit_value(v),
            "0" => (n.num >= 0).then_some(n.num as u64).visit_value(v),
            _ => None::<std::convert::Infallible>.visit_value(v),
        }
    }
}

fn naive<S: Sp>(c: &mut Ctx) -> Res {
    let text = gt::valid(c);
    let Some(chunks) = t::parse(&text) else { return Ok(()) };
    let Ok(tt) = UriTemplateStr::new(&text) else {
        return vio("valid template refused", format!("{text:?} is a template but was refused"));
    };
    let s = gt::value_text;
    let n = Naive {
        a: s(c),
        b: c.chance(1, 2).then(|| s(c).into()),
        v: (0..c.below(3)).map(|_| gt::val(c)).collect(),
        list: [s(c), s(c)],
        keys: (0..c.below(3)).map(|_| (s(c), s(c))).collect(),
        xy: (0..c.below(3)).map(|_| s(c)).collect(),
        num: c.below(40) as i64 - 5,
        unit: (),
    };
    let () = n.unit;
    let mut look = |name: &str| match name {
        "a" => Value::Str(n.a.clone()),
        "b" => n.b.as_ref().map_or(Value::Undef, |b| Value::Str(b.to_string())),
        "v" => Value::List(n.v.iter().map(|v| v.text()).collect()),
        "list" => Value::List(n.list.to_vec()),
        "keys" => Value::Assoc(n.keys.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
        "x.y" => Value::List(n.xy.iter().cloned().collect()),
        "A_1" => Value::Str(n.num.to_string()),
        "0" if n.num >= 0 => Value::Str(n.num.to_string()),
        _ => Value::Undef,
    };
    let expected = t::expand(S::IRI, &chunks, &mut look).map_err(|_| ());
    let k = c.below(3);
    c.shape(expected.as_ref().map_or(1, |e| e.len() as u64));
    c.op("expand with naive values");
    c.note(|| format!("{text:?} with naive values {:?} {:?} {:?} {:?} {:?} {:?} {}, way {k}", n.a, n.b, n.v, n.list, n.keys, n.xy, n.num));
    let r = no_panic("expand", || match k {
        0 => tt.expand::<S, _>(&n).map(|e| e.to_string()),
        1 => tt.expand::<S, _>(&Indirect(&n)).map(|e| e.to_string()),
        _ => tt.expand_dynamic_to_string::<S, _>(&mut Indirect(&n)),
    })?
    .map_err(|_| ());
    ensure_eq!(r, expected, "wrong expansion", "{text:?} with naive values");
    Ok(())
}

/// Typed identifiers made out of expansions.
fn derived<S: Sp>(c: &mut Ctx) -> Res {
    let mut text = gt::valid(c);
    if c.chance(1, 2) {
        text.insert_str(0, *c.pick(&["s:", "http://h/", "/", "?", "//h", "{+a}", "{#v}"]));
    }
    let Some(chunks) = t::parse(&text) else { return Ok(()) };
    let Ok(tt) = UriTemplateStr::new(&text) else {
        return vio("valid template refused", format!("{text:?} is a template but was refused"));
    };
    let ctx = gt::context_for(c, &chunks);
    let Ok(full) = t::expand(S::IRI, &chunks, &mut |n| ctx.model(n)) else { return Ok(()) };
    let Ok(e) = tt.expand::<S, _>(&ctx) else {
        return vio("expansion refused", format!("{text:?} with {:?}", ctx.vars));
    };
    c.op("identifier from an expansion");
    gt::shape(c, &chunks, &ctx);
    c.note(|| format!("{text:?} with {:?} as an identifier; expected {full:?}", ctx.vars));
    macro_rules! go {
        ($ty:ty, $slice:ty) => {
            match no_panic("try_from(expansion)", || <$ty>::try_from(e))? {
                Ok(v) => {
                    ensure_eq!(v.as_str(), full.as_str(), "wrong expansion", "{} from {text:?}", stringify!($ty));
                    ensure!(<$slice as Typed>::grammar(&full), "ill-formed value", "{} holds {full:?}", stringify!($ty));
                }
                Err(err) => {
                    ensure!(!<$slice as Typed>::grammar(&full), "valid text refused", "{} refused {full:?}", stringify!($ty));
                    ensure_eq!(err.into_source(), full, "rejected text changed", "{} from {text:?}", stringify!($ty));
                }
            }
        };
    }
    match *c.pick(&crate::model::grammar::KINDS) {
        Kind::Full => go!(RiString<S>, RiStr<S>),
        Kind::Abs => go!(RiAbsoluteString<S>, RiAbsoluteStr<S>),
        Kind::Ref => go!(RiReferenceString<S>, RiReferenceStr<S>),
        Kind::Rel => go!(RiRelativeString<S>, RiRelativeStr<S>),
    }
    Ok(())
}
