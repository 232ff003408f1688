//! Uniform access to the typed string kinds of both specs.

use crate::ctx::{no_panic, Res};
use crate::ensure_eq;
use crate::model::grammar::{self as g, Kind, Parts};
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

/// Applies the same expression to whichever kind is inside.
#[macro_export]
macro_rules! each {
    ($e:expr, $v:ident => $b:expr) => {
        match $e {
            $crate::kinds::Own::Full($v) => $b,
            $crate::kinds::Own::Abs($v) => $b,
            $crate::kinds::Own::Ref($v) => $b,
            $crate::kinds::Own::Rel($v) => $b,
        }
    };
}

pub trait Sp: Spec + 'static {
    const IRI: bool;
}
impl Sp for UriSpec {
    const IRI: bool = false;
}
impl Sp for IriSpec {
    const IRI: bool = true;
}

/// Reads every component through the getters of the typed string.
pub fn parts_full<S: Spec>(s: &RiStr<S>) -> Parts {
    Parts {
        scheme: Some(s.scheme_str().into()),
        authority: s.authority_str().map(Into::into),
        path: s.path_str().into(),
        query: s.query_str().map(Into::into),
        fragment: s.fragment_str().map(Into::into),
    }
}
pub fn parts_abs<S: Spec>(s: &RiAbsoluteStr<S>) -> Parts {
    Parts {
        scheme: Some(s.scheme_str().into()),
        authority: s.authority_str().map(Into::into),
        path: s.path_str().into(),
        query: s.query_str().map(Into::into),
        fragment: None,
    }
}
pub fn parts_ref<S: Spec>(s: &RiReferenceStr<S>) -> Parts {
    Parts {
        scheme: s.scheme_str().map(Into::into),
        authority: s.authority_str().map(Into::into),
        path: s.path_str().into(),
        query: s.query_str().map(Into::into),
        fragment: s.fragment_str().map(Into::into),
    }
}
pub fn parts_rel<S: Spec>(s: &RiRelativeStr<S>) -> Parts {
    Parts {
        scheme: None,
        authority: s.authority_str().map(Into::into),
        path: s.path_str().into(),
        query: s.query_str().map(Into::into),
        fragment: s.fragment_str().map(Into::into),
    }
}

/// The typed getters, and the ones inside the authority, against the model.
pub fn getters<S: Sp>(own: &Own<S>) -> Res {
    let text = own.as_str();
    let p = g::split(text);
    let a = p.authority.as_deref().map(g::split_auth);
    macro_rules! check {
        ($v:expr) => {{
            ensure_eq!(($v.len(), $v.is_empty()), (text.len(), text.is_empty()), "getter", "length of {own:?}");
            ensure_eq!($v.query().map(|q| q.as_str()), p.query.as_deref(), "getter", "query of {own:?}");
            let c = $v.authority_components();
            ensure_eq!(
                c.as_ref().map(|c| (c.userinfo(), c.host(), c.port())),
                a.as_ref().map(|a| (a.userinfo.as_deref(), a.host.as_str(), a.port.as_deref())),
                "getter",
                "authority of {own:?}"
            );
            if let Some(c) = c {
                let h = c.host();
                let name = !h.starts_with('[') && !g::is_ipv4(h);
                ensure_eq!(c.reg_name(), name.then_some(h), "getter", "registered name of {own:?}");
            }
        }};
    }
    macro_rules! fragment {
        ($v:expr) => {
            ensure_eq!($v.fragment().map(|f| f.as_str()), p.fragment.as_deref(), "getter", "fragment of {own:?}")
        };
    }
    no_panic("getters", || {
        each!(own, v => check!(v));
        match own {
            Own::Full(v) => fragment!(v),
            Own::Ref(v) => fragment!(v),
            Own::Rel(v) => fragment!(v),
            Own::Abs(_) => {}
        }
        ensure_eq!(own.parts(), p, "getter", "components of {own:?}");
        Ok(())
    })?
}

/// An owned identifier of any kind.
#[derive(Clone)]
pub enum Own<S: Spec> {
    Full(RiString<S>),
    Abs(RiAbsoluteString<S>),
    Ref(RiReferenceString<S>),
    Rel(RiRelativeString<S>),
}

impl<S: Sp> Own<S> {
    pub fn new(kind: Kind, s: &str) -> Option<Own<S>> {
        let s = s.to_string();
        Some(match kind {
            Kind::Full => Own::Full(s.try_into().ok()?),
            Kind::Abs => Own::Abs(s.try_into().ok()?),
            Kind::Ref => Own::Ref(s.try_into().ok()?),
            Kind::Rel => Own::Rel(s.try_into().ok()?),
        })
    }
    pub fn kind(&self) -> Kind {
        match self {
            Own::Full(_) => Kind::Full,
            Own::Abs(_) => Kind::Abs,
            Own::Ref(_) => Kind::Ref,
            Own::Rel(_) => Kind::Rel,
        }
    }
    pub fn as_str(&self) -> &str {
        each!(self, v => v.as_str())
    }
    pub fn parts(&self) -> Parts {
        match self {
            Own::Full(v) => parts_full(v),
            Own::Abs(v) => parts_abs(v),
            Own::Ref(v) => parts_ref(v),
            Own::Rel(v) => parts_rel(v),
        }
    }
    pub fn as_ref_str(&self) -> &RiReferenceStr<S> {
        match self {
            Own::Full(v) => v.as_slice().as_ref(),
            Own::Abs(v) => v.as_slice().as_ref(),
            Own::Ref(v) => v.as_slice(),
            Own::Rel(v) => v.as_slice().as_ref(),
        }
    }
}
impl<S: Sp> std::fmt::Debug for Own<S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} {:?}", self.kind(), self.as_str())
    }
}

/// Conversion of an owned value to another kind of the same spec.
pub enum Conv<S: Spec> {
    Ok(Own<S>),
    /// Refused; the value came back with the error.
    Back(Own<S>),
    /// No direct conversion: went through `String`; the text came back.
    BackText(String),
}

pub fn convert<S: Sp>(own: Own<S>, to: Kind, named_method: bool) -> Conv<S> {
    macro_rules! fallible {
        ($v:expr, $from:ident, $to:ident, $ty:ident) => {
            match $ty::<S>::try_from($v) {
                Ok(x) => Conv::Ok(Own::$to(x)),
                Err(e) => {
                    let _ = e.validation_error();
                    Conv::Back(Own::$from(e.into_source()))
                }
            }
        };
    }
    match (own, to) {
        (Own::Full(v), Kind::Abs) => fallible!(v, Full, Abs, RiAbsoluteString),
        (Own::Full(v), Kind::Ref) => Conv::Ok(Own::Ref(v.into())),
        (Own::Abs(v), Kind::Full) => Conv::Ok(Own::Full(v.into())),
        (Own::Abs(v), Kind::Ref) => Conv::Ok(Own::Ref(v.into())),
        (Own::Rel(v), Kind::Ref) => Conv::Ok(Own::Ref(v.into())),
        (Own::Ref(v), Kind::Full) if named_method => match v.into_iri() {
            Ok(x) => Conv::Ok(Own::Full(x)),
            Err(x) => Conv::Back(Own::Rel(x)),
        },
        (Own::Ref(v), Kind::Rel) if named_method => match v.into_relative_iri() {
            Ok(x) => Conv::Ok(Own::Rel(x)),
            Err(x) => Conv::Back(Own::Full(x)),
        },
        (Own::Ref(v), Kind::Full) => fallible!(v, Ref, Full, RiString),
        (Own::Ref(v), Kind::Rel) => fallible!(v, Ref, Rel, RiRelativeString),
        (Own::Ref(v), Kind::Abs) => fallible!(v, Ref, Abs, RiAbsoluteString),
        (own, to) => {
            if own.kind() == to {
                return Conv::Ok(own);
            }
            let text: String = each!(own, v => v.into());
            match from_text::<S>(to, text) {
                Ok(v) => Conv::Ok(v),
                Err(t) => Conv::BackText(t),
            }
        }
    }
}

/// `TryFrom<String>`; the refused text as handed back by the error.
pub fn from_text<S: Sp>(kind: Kind, s: String) -> Result<Own<S>, String> {
    match kind {
        Kind::Full => RiString::try_from(s).map(Own::Full).map_err(|e| e.into_source()),
        Kind::Abs => RiAbsoluteString::try_from(s).map(Own::Abs).map_err(|e| e.into_source()),
        Kind::Ref => RiReferenceString::try_from(s).map(Own::Ref).map_err(|e| e.into_source()),
        Kind::Rel => RiRelativeString::try_from(s).map(Own::Rel).map_err(|e| e.into_source()),
    }
}

/// The same value seen as an IRI, if it is one (some methods exist for the IRI spec only).
pub fn iri_mut<S: Sp>(own: &mut Own<S>) -> Option<&mut Own<IriSpec>> {
    (own as &mut dyn std::any::Any).downcast_mut()
}
pub fn iri_ref<S: Sp>(own: &Own<S>) -> Option<&Own<IriSpec>> {
    (own as &dyn std::any::Any).downcast_ref()
}
pub fn uri_ref<S: Sp>(own: &Own<S>) -> Option<&Own<UriSpec>> {
    (own as &dyn std::any::Any).downcast_ref()
}

/// Applies a conversion which changes the spec but not the kind.
#[macro_export]
macro_rules! each_to {
    ($e:expr, $v:ident => $b:expr) => {
        match $e {
            $crate::kinds::Own::Full($v) => $crate::kinds::Own::Full($b),
            $crate::kinds::Own::Abs($v) => $crate::kinds::Own::Abs($b),
            $crate::kinds::Own::Ref($v) => $crate::kinds::Own::Ref($b),
            $crate::kinds::Own::Rel($v) => $crate::kinds::Own::Rel($b),
        }
    };
}
