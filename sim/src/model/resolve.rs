//! RFC 3986 section 5.2.
use super::grammar::Parts;

fn dot_kind(seg: &str) -> u8 {
    // `.` may be written percent-encoded (it is unreserved, so both are equivalent).
    let s = seg.replace("%2E", ".").replace("%2e", ".");
    match s.as_str() {
        "." => 1,
        ".." => 2,
        _ => 0,
    }
}

pub fn has_dot_segments(path: &str) -> bool {
    path.split('/').any(|s| dot_kind(s) != 0)
}

/// Section 5.2.4, literally.
pub fn remove_dot_segments(path: &str) -> String {
    let mut input = path.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        let lead = input.starts_with('/');
        let body = if lead { &input[1..] } else { &input[..] };
        let end = body.find('/').unwrap_or(body.len());
        let seg = body[..end].to_string();
        let rest = body[end..].to_string(); // "" or "/..."
        match (lead, dot_kind(&seg)) {
            // 2A / 2D
            (false, 1) | (false, 2) => {
                input = rest.strip_prefix('/').unwrap_or("").to_string();
            }
            // 2B
            (true, 1) => {
                input = if rest.is_empty() { "/".to_string() } else { rest };
            }
            // 2C
            (true, 2) => {
                match out.rfind('/') {
                    Some(i) => out.truncate(i),
                    None => out.clear(),
                }
                input = if rest.is_empty() { "/".to_string() } else { rest };
            }
            // 2E
            _ => {
                if lead {
                    out.push('/');
                }
                out.push_str(&seg);
                input = rest;
            }
        }
    }
    out
}

pub fn merge(base: &Parts, rpath: &str) -> String {
    if base.authority.is_some() && base.path.is_empty() {
        format!("/{rpath}")
    } else {
        match base.path.rfind('/') {
            Some(i) => format!("{}{}", &base.path[..=i], rpath),
            None => rpath.to_string(),
        }
    }
}

/// The documented escape for a target that cannot be written down.
/// Returns (components as written, representable?).
pub fn serialize(mut t: Parts) -> (Parts, bool) {
    if t.authority.is_none() && t.path.starts_with("//") {
        t.path = format!("/.{}", t.path);
        (t, false)
    } else {
        (t, true)
    }
}

/// The target before dot-segment removal, and whether its path is the base's, untouched.
pub fn target(base: &Parts, r: &Parts) -> (Parts, bool) {
    let mut t = Parts { fragment: r.fragment.clone(), ..Parts::default() };
    let mut inherited = false;
    if r.scheme.is_some() {
        t.scheme = r.scheme.clone();
        t.authority = r.authority.clone();
        t.path = r.path.clone();
        t.query = r.query.clone();
    } else {
        t.scheme = base.scheme.clone();
        t.query = r.query.clone();
        if r.authority.is_some() {
            t.authority = r.authority.clone();
            t.path = r.path.clone();
        } else {
            t.authority = base.authority.clone();
            if r.path.is_empty() {
                inherited = true;
                t.path = base.path.clone();
                if r.query.is_none() {
                    t.query = base.query.clone();
                }
            } else if r.path.starts_with('/') {
                t.path = r.path.clone();
            } else {
                t.path = merge(base, &r.path);
            }
        }
    }
    (t, inherited)
}

/// Resolution with optional normalization of the target: (components as written,
/// representable by RFC 3986?).
pub fn resolve(iri: bool, mode: super::normalize::Mode, base: &Parts, r: &Parts) -> (Parts, bool) {
    let (mut t, inherited) = target(base, r);
    if mode == super::normalize::Mode::None {
        if !inherited {
            t.path = remove_dot_segments(&t.path);
        }
        return serialize(t);
    }
    super::normalize::normalize(iri, mode, &t)
}
