//! RFC 3986 section 6.2.2 and RFC 3987 section 5.3.2 normalization.
use super::grammar::{self as g, Auth, Parts};
use super::pct::hexval;
use super::resolve;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    None,
    Default,
    Preserve,
}

/// Decodes the triplets at the start of `b` (as many as there are in a row).
fn triplet(b: &[u8]) -> Option<u8> {
    if b.len() >= 3 && b[0] == b'%' {
        if let (Some(h), Some(l)) = (hexval(b[1]), hexval(b[2])) {
            return Some(h * 16 + l);
        }
    }
    None
}

/// Percent-encoding normalization and case normalization of triplets.
pub fn pct(iri: bool, s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        match triplet(&b[i..]) {
            None => {
                let c = s[i..].chars().next().unwrap();
                o.push(c);
                i += c.len_utf8();
            }
            Some(first) => {
                // Longest well-formed character starting here.
                let mut bytes = vec![first];
                let mut found = None;
                let mut j = i + 3;
                loop {
                    if let Ok(t) = std::str::from_utf8(&bytes) {
                        found = t.chars().next();
                        break;
                    }
                    if bytes.len() == 4 {
                        break;
                    }
                    match triplet(&b[j.min(b.len())..]) {
                        Some(x) => {
                            bytes.push(x);
                            j += 3;
                        }
                        None => break,
                    }
                }
                match found {
                    Some(c) if g::is_unreserved(iri, c) => {
                        o.push(c);
                        i += 3 * bytes.len();
                    }
                    Some(c) => {
                        super::pct::enc_char(&mut o, c);
                        i += 3 * bytes.len();
                    }
                    None => {
                        o.push_str(&s[i..i + 3].to_ascii_uppercase());
                        i += 3;
                    }
                }
            }
        }
    }
    o
}

/// A host is "US-ASCII only" if it has no non-ASCII character, even percent-encoded.
pub fn ascii_only(host: &str) -> bool {
    host.is_ascii() && super::pct::decode(host.as_bytes()).is_ascii()
}

pub fn host(iri: bool, h: &str) -> String {
    let n = pct(iri, h);
    if ascii_only(h) {
        // Lower-case everything but the hex digits of triplets.
        let b = n.as_bytes();
        let mut o = String::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' {
                o.push_str(&n[i..i + 3]);
                i += 3;
            } else {
                o.push(b[i].to_ascii_lowercase() as char);
                i += 1;
            }
        }
        o
    } else {
        n
    }
}

pub fn authority(iri: bool, a: &str) -> String {
    let a = g::split_auth(a);
    g::compose_auth(&Auth {
        userinfo: a.userinfo.map(|u| pct(iri, &u)),
        host: host(iri, &a.host),
        port: a.port.filter(|p| !p.is_empty()),
    })
}

/// Returns (components as written, representable by RFC 3986?).
pub fn normalize(iri: bool, mode: Mode, p: &Parts) -> (Parts, bool) {
    if mode == Mode::None {
        return (p.clone(), true);
    }
    let t = Parts {
        scheme: p.scheme.as_ref().map(|s| s.to_ascii_lowercase()),
        authority: p.authority.as_ref().map(|a| authority(iri, a)),
        path: pct(iri, &p.path),
        query: p.query.as_ref().map(|q| pct(iri, q)),
        fragment: p.fragment.as_ref().map(|f| pct(iri, f)),
    };
    let opaque =
        mode == Mode::Preserve && p.authority.is_none() && !p.path.starts_with('/');
    let removed = Parts { path: resolve::remove_dot_segments(&t.path), ..t.clone() };
    let (written, ok) = resolve::serialize(removed);
    if opaque {
        // The path stays as it is. Whether the RFC 3986 algorithm (which would not leave
        // it alone) could represent the result is what the check is documented to tell.
        (t, ok)
    } else {
        (written, ok)
    }
}

pub fn normalize_str(iri: bool, mode: Mode, s: &str) -> (String, bool) {
    let (p, ok) = normalize(iri, mode, &g::split(s));
    (g::compose(&p), ok)
}
