//! RFC 6570: grammar (section 2, with errata 6937) and expansion (appendix A).
use super::grammar as g;
use super::pct::{self, enc_char, hexval, Comp};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Value {
    Undef,
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Modifier {
    None,
    Prefix(u32),
    Explode,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct VarSpec {
    pub name: String,
    pub modifier: Modifier,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Chunk {
    Lit(String),
    Expr(Option<char>, Vec<VarSpec>),
}

fn triplet_at(b: &[u8], i: usize) -> Option<u8> {
    if i + 2 < b.len() && b[i] == b'%' {
        return Some(hexval(b[i + 1])? * 16 + hexval(b[i + 2])?);
    }
    None
}

pub fn literal_char(c: char) -> bool {
    if c.is_ascii() {
        !(c.is_ascii_control() || matches!(c, ' ' | '"' | '%' | '<' | '>' | '\\' | '^' | '`' | '{' | '|' | '}'))
    } else {
        g::is_ucschar(c) || g::is_iprivate(c)
    }
}

/// `varname = varchar *( ["."] varchar )`
pub fn varname_ok(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    let mut dot_allowed = false;
    loop {
        if i == b.len() {
            return dot_allowed;
        }
        if b[i] == b'.' {
            if !dot_allowed {
                return false;
            }
            dot_allowed = false;
            i += 1;
        } else if b[i].is_ascii_alphanumeric() || b[i] == b'_' {
            dot_allowed = true;
            i += 1;
        } else if triplet_at(b, i).is_some() {
            dot_allowed = true;
            i += 3;
        } else {
            return false;
        }
    }
}

fn varspec(s: &str) -> Option<VarSpec> {
    let (name, modifier) = if let Some(n) = s.strip_suffix('*') {
        (n, Modifier::Explode)
    } else if let Some((n, len)) = s.split_once(':') {
        let ok = (1..=4).contains(&len.len()) && len.bytes().all(|b| b.is_ascii_digit()) && !len.starts_with('0');
        if !ok {
            return None;
        }
        (n, Modifier::Prefix(len.parse().unwrap()))
    } else {
        (s, Modifier::None)
    };
    varname_ok(name).then(|| VarSpec { name: name.to_string(), modifier })
}

pub fn parse(s: &str) -> Option<Vec<Chunk>> {
    let mut out = Vec::new();
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('{') {
            let (body, after) = r.split_once('}')?;
            rest = after;
            let first = body.chars().next()?;
            let (op, list) = match first {
                '+' | '#' | '.' | '/' | ';' | '?' | '&' => (Some(first), &body[1..]),
                _ => (None, body),
            };
            let vars: Option<Vec<VarSpec>> = list.split(',').map(varspec).collect();
            out.push(Chunk::Expr(op, vars?));
        } else {
            let end = rest.find('{').unwrap_or(rest.len());
            let lit = &rest[..end];
            rest = &rest[end..];
            let b = lit.as_bytes();
            let mut it = lit.char_indices();
            while let Some((i, c)) = it.next() {
                if c == '%' {
                    triplet_at(b, i)?;
                    it.next();
                    it.next();
                } else if !literal_char(c) {
                    return None;
                }
            }
            out.push(Chunk::Lit(lit.to_string()));
        }
    }
    Some(out)
}
pub fn valid(s: &str) -> bool {
    parse(s).is_some()
}

/// `U+R`: reserved, unreserved and triplets stay; everything else is encoded.
pub fn encode_reserved(iri: bool, s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::new();
    let mut skip = 0;
    for (i, c) in s.char_indices() {
        if skip > 0 {
            skip -= 1;
            o.push(c);
        } else if c == '%' {
            if triplet_at(b, i).is_some() {
                skip = 2;
                o.push('%');
            } else {
                o.push_str("%25");
            }
        } else if pct::allowed(iri, Comp::Characters, c) {
            o.push(c);
        } else {
            enc_char(&mut o, c);
        }
    }
    o
}

/// The number of bytes of `s` its first `n` characters take, where a percent-encoded
/// character (and a triplet which is no part of one) counts as one character.
pub fn prefix_reserved(s: &str, n: u32) -> usize {
    let b = s.as_bytes();
    let mut i = 0;
    for _ in 0..n {
        if i >= b.len() {
            break;
        }
        let Some(first) = triplet_at(b, i) else {
            i += s[i..].chars().next().unwrap().len_utf8();
            continue;
        };
        let mut bytes = vec![first];
        let mut j = i + 3;
        let mut len = 3;
        loop {
            if std::str::from_utf8(&bytes).is_ok() {
                len = j - i;
                break;
            }
            if bytes.len() == 4 {
                break;
            }
            match triplet_at(b, j) {
                Some(x) => {
                    bytes.push(x);
                    j += 3;
                }
                None => break,
            }
        }
        i += len;
    }
    i
}
fn prefix_plain(s: &str, n: u32) -> usize {
    s.char_indices().nth(n as usize).map_or(s.len(), |x| x.0)
}

pub struct Op {
    pub first: &'static str,
    pub sep: &'static str,
    pub named: bool,
    pub ifemp: &'static str,
    pub reserved: bool,
}
pub fn op(o: Option<char>) -> Op {
    let f = |first, sep, named, ifemp, reserved| Op { first, sep, named, ifemp, reserved };
    match o {
        None => f("", ",", false, "", false),
        Some('+') => f("", ",", false, "", true),
        Some('#') => f("#", ",", false, "", true),
        Some('.') => f(".", ".", false, "", false),
        Some('/') => f("/", "/", false, "", false),
        Some(';') => f(";", ";", true, "", false),
        Some('?') => f("?", "&", true, "=", false),
        Some('&') => f("&", "&", true, "=", false),
        Some(c) => panic!("harness: operator {c}"),
    }
}

pub fn encode_value(iri: bool, reserved: bool, s: &str) -> String {
    if reserved {
        encode_reserved(iri, s)
    } else {
        pct::encode(iri, Comp::Unreserve, s)
    }
}

/// One variable: what it adds to the text, without the leading `first`/`sep`.
/// `None` if it is undefined; `Err` if its type does not fit the modifier.
pub fn expand_var(iri: bool, o: &Op, v: &VarSpec, val: &Value) -> Result<Option<String>, ()> {
    let enc = |s: &str| encode_value(iri, o.reserved, s);
    let mut out = String::new();
    match val {
        Value::Undef => return Ok(None),
        Value::Str(s) => {
            let s = match v.modifier {
                Modifier::Prefix(n) => {
                    &s[..if o.reserved { prefix_reserved(s, n) } else { prefix_plain(s, n) }]
                }
                _ => s,
            };
            if o.named {
                out.push_str(&v.name);
                if s.is_empty() {
                    out.push_str(o.ifemp);
                } else {
                    out.push('=');
                }
            }
            out.push_str(&enc(s));
        }
        Value::List(l) => {
            // An empty list or map is undefined (section 2.3), so it has no type to refuse.
            if l.is_empty() {
                return Ok(None);
            }
            if matches!(v.modifier, Modifier::Prefix(_)) {
                return Err(());
            }
            if v.modifier == Modifier::Explode {
                let items: Vec<String> = l
                    .iter()
                    .map(|x| {
                        if !o.named {
                            enc(x)
                        } else if x.is_empty() {
                            format!("{}{}", v.name, o.ifemp)
                        } else {
                            format!("{}={}", v.name, enc(x))
                        }
                    })
                    .collect();
                out.push_str(&items.join(o.sep));
            } else {
                if o.named {
                    out.push_str(&v.name);
                    out.push('=');
                }
                out.push_str(&l.iter().map(|x| enc(x)).collect::<Vec<_>>().join(","));
            }
        }
        Value::Assoc(l) => {
            if l.is_empty() {
                return Ok(None);
            }
            if matches!(v.modifier, Modifier::Prefix(_)) {
                return Err(());
            }
            if v.modifier == Modifier::Explode {
                let items: Vec<String> = l
                    .iter()
                    .map(|(k, x)| {
                        if o.named && x.is_empty() {
                            format!("{}{}", enc(k), o.ifemp)
                        } else {
                            format!("{}={}", enc(k), enc(x))
                        }
                    })
                    .collect();
                out.push_str(&items.join(o.sep));
            } else {
                if o.named {
                    out.push_str(&v.name);
                    out.push('=');
                }
                out.push_str(&l.iter().map(|(k, x)| format!("{},{}", enc(k), enc(x))).collect::<Vec<_>>().join(","));
            }
        }
    }
    Ok(Some(out))
}

/// Full expansion, or what comes before the first variable of an unfitting type.
pub fn expand(iri: bool, t: &[Chunk], look: &mut dyn FnMut(&str) -> Value) -> Result<String, String> {
    let mut out = String::new();
    for c in t {
        match c {
            Chunk::Lit(l) => out.push_str(&encode_reserved(iri, l)),
            Chunk::Expr(o, vars) => {
                let o = op(*o);
                let mut first = true;
                for v in vars {
                    match expand_var(iri, &o, v, &look(&v.name)) {
                        Err(()) => return Err(out),
                        Ok(None) => {}
                        Ok(Some(s)) => {
                            out.push_str(if first { o.first } else { o.sep });
                            first = false;
                            out.push_str(&s);
                        }
                    }
                }
            }
        }
    }
    Ok(out)
}

/// The variables in order of occurrence.
pub fn names(t: &[Chunk]) -> Vec<String> {
    t.iter()
        .flat_map(|c| match c {
            Chunk::Lit(_) => vec![],
            Chunk::Expr(_, v) => v.iter().map(|v| v.name.clone()).collect(),
        })
        .collect()
}

/// How a simulated expansion has to end.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Stop {
    Complete,
    /// A prefix modifier meets a list or map at the nth variable occurrence.
    Mismatch(usize),
    /// The delivery of the value of the nth variable occurrence breaks off.
    Broken(usize),
    /// Same, but only after everything that matters has been delivered: an expander
    /// may or may not notice.
    MaybeBroken(usize),
}
