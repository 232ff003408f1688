//! Percent coding.
use super::grammar as g;

pub fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

/// WHATWG percent-decoding: every valid triplet is decoded, everything else kept.
pub fn decode(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hexval(b[i + 1]), hexval(b[i + 2])) {
                out.push(h * 16 + l);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

pub fn enc_char(out: &mut String, c: char) {
    let mut buf = [0u8; 4];
    for b in c.encode_utf8(&mut buf).bytes() {
        out.push('%');
        out.push(char::from(b"0123456789ABCDEF"[(b >> 4) as usize]));
        out.push(char::from(b"0123456789ABCDEF"[(b & 15) as usize]));
    }
}

/// IRI to URI: each non-ASCII character becomes triplets.
pub fn iri_to_uri(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii() {
            o.push(c)
        } else {
            enc_char(&mut o, c)
        }
    }
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Comp {
    RegName,
    User,
    Password,
    PathSegment,
    Path,
    Query,
    Fragment,
    Unreserve,
    Characters,
}
pub const COMPS: [Comp; 9] = [
    Comp::RegName,
    Comp::User,
    Comp::Password,
    Comp::PathSegment,
    Comp::Path,
    Comp::Query,
    Comp::Fragment,
    Comp::Unreserve,
    Comp::Characters,
];

/// Whether the character may appear raw in the component.
pub fn allowed(iri: bool, comp: Comp, c: char) -> bool {
    let un = g::is_unreserved(iri, c);
    let sub = g::is_subdelim(c);
    match comp {
        Comp::RegName => un || sub,
        Comp::User => un || sub,
        // The crate documents that a colon is encoded in passwords too.
        Comp::Password => un || sub,
        Comp::PathSegment => un || sub || matches!(c, ':' | '@'),
        Comp::Path => un || sub || matches!(c, ':' | '@' | '/'),
        Comp::Query => {
            un || sub || matches!(c, ':' | '@' | '/' | '?') || (iri && g::is_iprivate(c))
        }
        Comp::Fragment => un || sub || matches!(c, ':' | '@' | '/' | '?'),
        Comp::Unreserve => un,
        Comp::Characters => un || sub || g::is_gendelim(c) || (iri && g::is_iprivate(c)),
    }
}

pub fn encode(iri: bool, comp: Comp, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if allowed(iri, comp, c) {
            o.push(c)
        } else {
            enc_char(&mut o, c)
        }
    }
    o
}
