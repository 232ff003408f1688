//! Every typed string of the crate behind one trait: the routes by which a text gets in,
//! and the routes by which a value changes hands.

use crate::ctx::Ctx;
use crate::env::transport::{Deliver, Fail, Tape, Wire, WireError};
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::grammar::{self as g, Kind};
use crate::model::template;
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use iri_string::validate;
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What came of a text on its way into an owned value.
pub enum In<O> {
    Ok(O),
    Refused,
    /// Refused, and the error handed the text back.
    HandedBack(String),
}

pub trait Typed: 'static + Eq + Ord + Hash + Debug + Display {
    type Own: Clone + Eq + Ord + Hash + Debug + Display + 'static;
    const NAME: &'static str;
    /// Routes into the borrowed and the owned type.
    const BORROWED: &'static [&'static str] =
        &["new", "TryFrom<&str>", "TryFrom<&[u8]>", "deserialization"];
    const OWNED: &'static [&'static str] = &[
        "TryFrom<String>", "TryFrom<&str>", "TryFrom<&[u8]>", "FromStr", "deserialization, borrowed",
        "deserialization, transient", "deserialization, owned",
    ];
    fn iri() -> bool;
    /// The documented grammar.
    fn grammar(s: &str) -> bool;
    /// Stand-alone validation function, if there is one.
    fn check(s: &str) -> Option<bool>;
    fn borrow_in(route: usize, s: &str) -> Option<&Self>;
    fn bytes_in(b: &[u8]) -> Option<&Self>;
    fn own_in(route: usize, s: String) -> In<Self::Own>;
    fn own_bytes_in(b: &[u8]) -> Option<Self::Own>;
    fn text(&self) -> &str;
    fn slice(o: &Self::Own) -> &Self;
    fn own(&self) -> Self::Own;
    /// Out and in again by smart pointers and other holders; every step keeps the text.
    fn handover(o: Self::Own, route: usize) -> Result<Self::Own, String>;
    const HANDOVERS: usize = 9;
    fn shrink(o: &mut Self::Own);
    fn capacity(o: &Self::Own) -> usize;
    fn into_string(o: Self::Own) -> String;
    /// Text given by value and taken out again; whether it was accepted.
    const TEXT_BY_VALUE: fn(String) -> (bool, String);
    fn de_borrowed<'a>(w: Wire<'a>) -> Result<&'a Self, WireError>;
    fn de_owned(w: Wire) -> Result<Self::Own, WireError>;
    /// Into a place which holds a value already.
    fn de_in_place(w: Wire, place: &mut Self::Own) -> Result<(), WireError>;
    fn ser(&self, human: bool, fail: Fail, got: &mut Vec<String>) -> Result<(), WireError>;
    fn ser_owned(o: &Self::Own, human: bool, fail: Fail, got: &mut Vec<String>) -> Result<(), WireError>;
    /// Comparisons of the value in all its forms with a text in all its forms.
    fn compares(&self, o: &Self::Own, with: &str) -> Vec<(&'static str, std::cmp::Ordering, bool)>;
    fn generate(c: &mut Ctx, sw: Swarm) -> String;
    /// Text near the grammar.
    fn near(c: &mut Ctx, sw: Swarm) -> String;
}

macro_rules! body {
    ($b:ty, $o:ty, $name:expr) => {
        const NAME: &'static str = $name;
        fn borrow_in(route: usize, s: &str) -> Option<&Self> {
            match route {
                0 => Self::new(s).ok(),
                1 => <&Self>::try_from(s).ok(),
                2 => <&Self>::try_from(s.as_bytes()).ok(),
                _ => Self::de_borrowed(Wire::good(s, Deliver::Borrowed)).ok(),
            }
        }
        fn bytes_in(b: &[u8]) -> Option<&Self> {
            <&Self>::try_from(b).ok()
        }
        fn own_in(route: usize, s: String) -> In<$o> {
            let r = match route {
                0 => {
                    return match <$o>::try_from(s) {
                        Ok(v) => In::Ok(v),
                        Err(e) => {
                            let _ = (e.validation_error(), format!("{e} {e:?}"));
                            In::HandedBack(e.clone().into_source())
                        }
                    }
                }
                1 => <$o>::try_from(s.as_str()).ok(),
                2 => <$o>::try_from(s.as_bytes()).ok(),
                3 => s.parse::<$o>().ok(),
                4 => Self::de_owned(Wire::good(&s, Deliver::Borrowed)).ok(),
                5 => Self::de_owned(Wire::good(&s, Deliver::Transient)).ok(),
                _ => Self::de_owned(Wire::good(&s, Deliver::Owned)).ok(),
            };
            match r {
                Some(v) => In::Ok(v),
                None => In::Refused,
            }
        }
        fn own_bytes_in(b: &[u8]) -> Option<$o> {
            <$o>::try_from(b).ok()
        }
        fn text(&self) -> &str {
            self.as_str()
        }
        fn slice(o: &$o) -> &Self {
            o.as_slice()
        }
        fn own(&self) -> $o {
            self.to_owned()
        }
        fn handover(o: $o, route: usize) -> Result<$o, String> {
            let before = o.as_str().to_string();
            let seen;
            let out = match route {
                0 => {
                    let b: Box<$b> = o.into();
                    seen = b.as_str().to_string();
                    b.as_ref().to_owned()
                }
                1 => {
                    let b: Box<$b> = Box::from(o.as_slice());
                    seen = b.as_str().to_string();
                    <$o>::from(&*b)
                }
                2 => {
                    let b: Arc<$b> = Arc::from(o.as_slice());
                    drop(o);
                    let b2 = b.clone();
                    drop(b);
                    seen = b2.as_str().to_string();
                    b2.as_ref().to_owned()
                }
                3 => {
                    let b: Rc<$b> = Rc::from(o.as_slice());
                    drop(o);
                    seen = b.as_str().to_string();
                    b.as_ref().to_owned()
                }
                4 => {
                    let c: Cow<'_, $b> = o.into();
                    seen = c.as_str().to_string();
                    c.into_owned()
                }
                5 => {
                    let c: Cow<'_, $b> = Cow::from(o.as_slice());
                    seen = c.as_str().to_string();
                    c.into_owned()
                }
                6 => {
                    let s: String = o.into();
                    seen = s.clone();
                    match <$o>::try_from(s) {
                        Ok(v) => v,
                        Err(e) => return Err(format!("its own text was refused: {e:?}")),
                    }
                }
                7 => {
                    let s: &str = o.as_slice().into();
                    seen = s.to_string();
                    let b: &$b = o.borrow();
                    let t: &str = o.borrow();
                    if b.as_str() != t || AsRef::<str>::as_ref(&o) != t || AsRef::<str>::as_ref(b) != t {
                        return Err("borrowed forms differ".into());
                    }
                    let r: &$b = o.as_ref();
                    let rr: &$b = r.as_ref();
                    rr.to_owned()
                }
                _ => {
                    let mut w = o.clone();
                    w.shrink_to_fit();
                    seen = w.to_string();
                    w
                }
            };
            if seen != before {
                return Err(format!("route {route} showed {seen:?} for {before:?}"));
            }
            Ok(out)
        }
        fn shrink(o: &mut $o) {
            o.shrink_to_fit()
        }
        fn capacity(o: &$o) -> usize {
            o.capacity()
        }
        fn into_string(o: $o) -> String {
            o.into()
        }
        const TEXT_BY_VALUE: fn(String) -> (bool, String) = |s| match <$o>::try_from(s) {
            Ok(v) => (true, v.into()),
            Err(e) => (false, e.into_source()),
        };
        fn de_borrowed<'a>(w: Wire<'a>) -> Result<&'a Self, WireError> {
            <&'a Self>::deserialize(w)
        }
        fn de_owned(w: Wire) -> Result<$o, WireError> {
            <$o>::deserialize(w)
        }
        fn de_in_place(w: Wire, place: &mut $o) -> Result<(), WireError> {
            <$o>::deserialize_in_place(w, place)
        }
        fn ser(&self, human: bool, fail: Fail, got: &mut Vec<String>) -> Result<(), WireError> {
            self.serialize(Tape { human, fail, got })
        }
        fn ser_owned(o: &$o, human: bool, fail: Fail, got: &mut Vec<String>) -> Result<(), WireError> {
            o.serialize(Tape { human, fail, got })
        }
        fn compares(&self, o: &$o, with: &str) -> Vec<(&'static str, std::cmp::Ordering, bool)> {
            let mut v = Vec::new();
            let cow: Cow<'_, str> = Cow::Borrowed(with);
            let string = with.to_string();
            macro_rules! pair {
                ($n:literal, $x:expr, $y:expr) => {
                    v.push(($n, $x.partial_cmp($y).unwrap(), *$x == *$y));
                    v.push(($n, $y.partial_cmp($x).unwrap().reverse(), *$y == *$x));
                };
            }
            pair!("str, slice", with, self);
            pair!("&str, slice", &with, self);
            pair!("str, &slice", with, &self);
            pair!("slice, Cow<str>", self, &cow);
            pair!("&slice, Cow<str>", &self, &cow);
            pair!("str, owned", with, o);
            pair!("&str, owned", &with, o);
            pair!("Cow<str>, owned", &cow, o);
            pair!("String, owned", &string, o);
            v
        }
    };
}

macro_rules! ident {
    ($($b:ident $o:ident $k:ident $v:ident $name:literal;)*) => {$(
        impl<S: Sp> Typed for $b<S> {
            type Own = $o<S>;
            body!($b<S>, $o<S>, $name);
            fn iri() -> bool {
                S::IRI
            }
            fn grammar(s: &str) -> bool {
                g::valid(S::IRI, Kind::$k, s)
            }
            fn check(s: &str) -> Option<bool> {
                Some(validate::$v::<S>(s).is_ok())
            }
            fn generate(c: &mut Ctx, sw: Swarm) -> String {
                gen::ident(c, sw, S::IRI, Kind::$k)
            }
            fn near(c: &mut Ctx, sw: Swarm) -> String {
                // Also text meant for another kind or for IRIs.
                let k = if c.chance(1, 3) { *c.pick(&g::KINDS) } else { Kind::$k };
                let iri = S::IRI || c.chance(1, 4);
                gen::near(c, sw, iri, k)
            }
        }
    )*};
}
ident! {
    RiStr RiString Full iri "full";
    RiAbsoluteStr RiAbsoluteString Abs absolute_iri "absolute";
    RiReferenceStr RiReferenceString Ref iri_reference "reference";
    RiRelativeStr RiRelativeString Rel relative_ref "relative";
}

macro_rules! comp {
    ($($b:ident $o:ident $f:ident $ok:ident $name:literal;)*) => {$(
        impl<S: Sp> Typed for $b<S> {
            type Own = $o<S>;
            body!($b<S>, $o<S>, $name);
            fn iri() -> bool {
                S::IRI
            }
            fn grammar(s: &str) -> bool {
                g::$ok(S::IRI, s)
            }
            fn check(s: &str) -> Option<bool> {
                Some(validate::$f::<S>(s).is_ok())
            }
            fn generate(c: &mut Ctx, sw: Swarm) -> String {
                gen::$f(c, sw, S::IRI)
            }
            fn near(c: &mut Ctx, sw: Swarm) -> String {
                let iri = S::IRI || c.chance(1, 4);
                let mut s = gen::$f(c, sw, iri);
                for _ in 0..c.below(3) {
                    gen::mutate(c, &mut s);
                }
                s
            }
        }
    )*};
}
comp! {
    RiQueryStr RiQueryString query query_ok "query";
    RiFragmentStr RiFragmentString fragment fragment_ok "fragment";
}

impl Typed for UriTemplateStr {
    type Own = UriTemplateString;
    body!(UriTemplateStr, UriTemplateString, "template");
    fn iri() -> bool {
        true
    }
    fn grammar(s: &str) -> bool {
        template::valid(s)
    }
    fn check(_: &str) -> Option<bool> {
        None
    }
    fn generate(c: &mut Ctx, _: Swarm) -> String {
        gt::valid(c)
    }
    fn near(c: &mut Ctx, _: Swarm) -> String {
        gt::near(c)
    }
}

/// Calls a generic function with one of the 13 types.
#[macro_export]
macro_rules! with_typed {
    ($c:expr, $f:ident) => {{
        use iri_string::spec::{IriSpec, UriSpec};
        use iri_string::template::UriTemplateStr;
        use iri_string::types::*;
        match $c.below(13) {
            0 => $f::<RiStr<UriSpec>>($c),
            1 => $f::<RiStr<IriSpec>>($c),
            2 => $f::<RiAbsoluteStr<UriSpec>>($c),
            3 => $f::<RiAbsoluteStr<IriSpec>>($c),
            4 => $f::<RiReferenceStr<UriSpec>>($c),
            5 => $f::<RiReferenceStr<IriSpec>>($c),
            6 => $f::<RiRelativeStr<UriSpec>>($c),
            7 => $f::<RiRelativeStr<IriSpec>>($c),
            8 => $f::<RiQueryStr<UriSpec>>($c),
            9 => $f::<RiQueryStr<IriSpec>>($c),
            10 => $f::<RiFragmentStr<UriSpec>>($c),
            11 => $f::<RiFragmentStr<IriSpec>>($c),
            _ => $f::<UriTemplateStr>($c),
        }
    }};
}

