//! RFC 3986 / RFC 3987 grammar: splitting (appendix B) and component validation.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Full,
    Abs,
    Ref,
    Rel,
}
pub const KINDS: [Kind; 4] = [Kind::Full, Kind::Abs, Kind::Ref, Kind::Rel];

/// Components as the generic syntax splits them.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Parts {
    pub scheme: Option<String>,
    pub authority: Option<String>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Auth {
    pub userinfo: Option<String>,
    pub host: String,
    pub port: Option<String>,
}

/// `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`
pub fn split(s: &str) -> Parts {
    let mut p = Parts::default();
    let mut rest = s;
    if let Some(i) = rest.find(|c| matches!(c, ':' | '/' | '?' | '#')) {
        if i > 0 && rest.as_bytes()[i] == b':' {
            p.scheme = Some(rest[..i].to_string());
            rest = &rest[i + 1..];
        }
    }
    if let Some(r) = rest.strip_prefix("//") {
        let e = r.find(|c| matches!(c, '/' | '?' | '#')).unwrap_or(r.len());
        p.authority = Some(r[..e].to_string());
        rest = &r[e..];
    }
    let e = rest.find(|c| matches!(c, '?' | '#')).unwrap_or(rest.len());
    p.path = rest[..e].to_string();
    rest = &rest[e..];
    if let Some(r) = rest.strip_prefix('?') {
        let e = r.find('#').unwrap_or(r.len());
        p.query = Some(r[..e].to_string());
        rest = &r[e..];
    }
    if let Some(r) = rest.strip_prefix('#') {
        p.fragment = Some(r.to_string());
    }
    p
}

pub fn compose(p: &Parts) -> String {
    let mut s = String::new();
    if let Some(x) = &p.scheme {
        s.push_str(x);
        s.push(':');
    }
    if let Some(x) = &p.authority {
        s.push_str("//");
        s.push_str(x);
    }
    s.push_str(&p.path);
    if let Some(x) = &p.query {
        s.push('?');
        s.push_str(x);
    }
    if let Some(x) = &p.fragment {
        s.push('#');
        s.push_str(x);
    }
    s
}

pub fn split_auth(a: &str) -> Auth {
    let (userinfo, hp) = match a.find('@') {
        Some(i) => (Some(a[..i].to_string()), &a[i + 1..]),
        None => (None, a),
    };
    let (host, port) = if hp.starts_with('[') {
        match hp.find(']') {
            Some(i) => match hp[i + 1..].strip_prefix(':') {
                Some(p) => (hp[..=i].to_string(), Some(p.to_string())),
                // Anything else after the bracket stays with the host (and is invalid).
                None => (hp.to_string(), None),
            },
            None => (hp.to_string(), None),
        }
    } else {
        match hp.find(':') {
            Some(i) => (hp[..i].to_string(), Some(hp[i + 1..].to_string())),
            None => (hp.to_string(), None),
        }
    };
    Auth { userinfo, host, port }
}

pub fn compose_auth(a: &Auth) -> String {
    let mut s = String::new();
    if let Some(u) = &a.userinfo {
        s.push_str(u);
        s.push('@');
    }
    s.push_str(&a.host);
    if let Some(p) = &a.port {
        s.push(':');
        s.push_str(p);
    }
    s
}

pub fn is_unreserved_ascii(c: char) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, '-' | '.' | '_' | '~')
}
pub fn is_subdelim(c: char) -> bool {
    matches!(c, '!' | '$' | '&' | '\'' | '(' | ')' | '*' | '+' | ',' | ';' | '=')
}
pub fn is_gendelim(c: char) -> bool {
    matches!(c, ':' | '/' | '?' | '#' | '[' | ']' | '@')
}
/// RFC 3987 `ucschar`.
pub fn is_ucschar(c: char) -> bool {
    let u = c as u32;
    matches!(u, 0xA0..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFEF)
        || (u >= 0x10000 && u <= 0xDFFFF && (u & 0xFFFF) <= 0xFFFD)
        || matches!(u, 0xE1000..=0xEFFFD)
}
/// RFC 3987 `iprivate`.
pub fn is_iprivate(c: char) -> bool {
    let u = c as u32;
    matches!(u, 0xE000..=0xF8FF | 0xF0000..=0xFFFFD | 0x100000..=0x10FFFD)
}
pub fn is_unreserved(iri: bool, c: char) -> bool {
    is_unreserved_ascii(c) || (iri && is_ucschar(c))
}

/// Checks `*( allowed / pct-encoded )`.
fn chars_ok(s: &str, f: impl Fn(char) -> bool) -> bool {
    let b = s.as_bytes();
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        if c == '%' {
            if b.len() < i + 3 || !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
                return false;
            }
            it.next();
            it.next();
        } else if !f(c) {
            return false;
        }
    }
    true
}

pub fn scheme_ok(s: &str) -> bool {
    let mut it = s.chars();
    matches!(it.next(), Some(c) if c.is_ascii_alphabetic())
        && it.all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.'))
}
pub fn userinfo_ok(iri: bool, s: &str) -> bool {
    chars_ok(s, |c| is_unreserved(iri, c) || is_subdelim(c) || c == ':')
}
pub fn reg_name_ok(iri: bool, s: &str) -> bool {
    chars_ok(s, |c| is_unreserved(iri, c) || is_subdelim(c))
}
pub fn port_ok(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit())
}
pub fn is_ipv4(s: &str) -> bool {
    let v: Vec<&str> = s.split('.').collect();
    v.len() == 4
        && v.iter().all(|o| {
            !o.is_empty()
                && o.len() <= 3
                && o.bytes().all(|b| b.is_ascii_digit())
                && (o.len() == 1 || !o.starts_with('0'))
                && o.parse::<u32>().map_or(false, |n| n <= 255)
        })
}
pub fn is_ipv6(s: &str) -> bool {
    // Groups separated by ':'; at most one "::" standing for one or more zero groups;
    // the last 32 bits may be IPv4.
    fn groups(s: &str, allow_v4: bool) -> Option<usize> {
        if s.is_empty() {
            return Some(0);
        }
        let v: Vec<&str> = s.split(':').collect();
        let mut n = 0;
        for (i, g) in v.iter().enumerate() {
            if allow_v4 && i + 1 == v.len() && is_ipv4(g) {
                n += 2;
            } else if !g.is_empty() && g.len() <= 4 && g.bytes().all(|b| b.is_ascii_hexdigit()) {
                n += 1;
            } else {
                return None;
            }
        }
        Some(n)
    }
    match s.find("::") {
        Some(i) => {
            let (l, r) = (&s[..i], &s[i + 2..]);
            match (groups(l, false), groups(r, true)) {
                (Some(a), Some(b)) => a + b <= 7,
                _ => false,
            }
        }
        None => groups(s, true) == Some(8),
    }
}
pub fn is_ipvfuture(s: &str) -> bool {
    let b = s.as_bytes();
    if b.is_empty() || !(b[0] == b'v' || b[0] == b'V') {
        return false;
    }
    let Some(dot) = s.find('.') else { return false };
    let (v, r) = (&s[1..dot], &s[dot + 1..]);
    !v.is_empty()
        && v.bytes().all(|b| b.is_ascii_hexdigit())
        && !r.is_empty()
        && r.chars().all(|c| is_unreserved_ascii(c) || is_subdelim(c) || c == ':')
}
pub fn is_ip_literal(s: &str) -> bool {
    s.len() >= 2
        && s.starts_with('[')
        && s.ends_with(']')
        && (is_ipv6(&s[1..s.len() - 1]) || is_ipvfuture(&s[1..s.len() - 1]))
}
pub fn host_ok(iri: bool, s: &str) -> bool {
    if s.starts_with('[') {
        is_ip_literal(s)
    } else {
        reg_name_ok(iri, s)
    }
}
pub fn authority_ok(iri: bool, s: &str) -> bool {
    let a = split_auth(s);
    a.userinfo.as_deref().map_or(true, |u| userinfo_ok(iri, u))
        && host_ok(iri, &a.host)
        && a.port.as_deref().map_or(true, port_ok)
}
pub fn path_chars_ok(iri: bool, s: &str) -> bool {
    chars_ok(s, |c| {
        is_unreserved(iri, c) || is_subdelim(c) || matches!(c, ':' | '@' | '/')
    })
}
pub fn query_ok(iri: bool, s: &str) -> bool {
    chars_ok(s, |c| {
        is_unreserved(iri, c)
            || is_subdelim(c)
            || matches!(c, ':' | '@' | '/' | '?')
            || (iri && is_iprivate(c))
    })
}
pub fn fragment_ok(iri: bool, s: &str) -> bool {
    chars_ok(s, |c| {
        is_unreserved(iri, c) || is_subdelim(c) || matches!(c, ':' | '@' | '/' | '?')
    })
}

/// Whether these components can be written down and read back as a text of this kind.
pub fn parts_ok(iri: bool, kind: Kind, p: &Parts) -> bool {
    match kind {
        Kind::Full => {
            if p.scheme.is_none() {
                return false;
            }
        }
        Kind::Abs => {
            if p.scheme.is_none() || p.fragment.is_some() {
                return false;
            }
        }
        Kind::Rel => {
            if p.scheme.is_some() {
                return false;
            }
        }
        Kind::Ref => {}
    }
    if !p.scheme.as_deref().map_or(true, scheme_ok)
        || !p.authority.as_deref().map_or(true, |a| authority_ok(iri, a))
        || !path_chars_ok(iri, &p.path)
        || !p.query.as_deref().map_or(true, |q| query_ok(iri, q))
        || !p.fragment.as_deref().map_or(true, |f| fragment_ok(iri, f))
    {
        return false;
    }
    if p.authority.is_some() {
        p.path.is_empty() || p.path.starts_with('/')
    } else {
        if p.path.starts_with("//") {
            return false;
        }
        // path-noscheme: the first segment has no colon.
        p.scheme.is_some() || !p.path.split('/').next().unwrap_or("").contains(':')
    }
}

pub fn valid(iri: bool, kind: Kind, s: &str) -> bool {
    parts_ok(iri, kind, &split(s))
}
