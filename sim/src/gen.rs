//! Generation of identifiers from choices. Zero choices give the simplest text.

use crate::ctx::Ctx;
use crate::model::grammar::{self as g, Kind, Parts};

/// Pieces a component may be made of; the first ones are the simplest.
const COMMON: &[&str] = &["a", "b", "Z", "0", "9", "-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "="];
const TRIPLETS: &[&str] = &[
    "%41", "%7e", "%7E", "%2e", "%2E", "%2f", "%3A", "%25", "%20", "%00", "%e3%81%82", "%E3%81%82", "%C3%a9", "%C2%80",
    "%e3%81", "%81", "%ff", "%F0%9F%98%80", "%f0%9f", "%C0%80", "%ED%A0%80", "%EE%80%80", "%c3", "%3f", "%23", "%5b", "%40",
    "%E3%41", "%F4%90%80%80", "%E2%80%AE", "%EF%BF%BE", "%F3%A0%80%81", "%c3%A9%41",
    // Borders of UTF-8.
    "%C1%BF", "%DF%BF", "%E0%9F%BF", "%E0%A0%80", "%ED%9F%BF", "%EF%BF%BF", "%F0%8F%BF%BF", "%F0%90%80%80", "%F4%8F%BF%BF", "%F5%80%80%80",
    "%C2%A0", "%EF%B7%8F", "%EF%B7%90", "%EF%B7%B0", "%F0%9F%BF%BD", "%F0%9F%BF%BE", "%F3%A0%BF%BF", "%F3%A1%80%80", "%F3%AF%BF%BD",
];
/// Borders of the character ranges of RFC 3987.
const BORDERS: &[u32] = &[
    0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xffef, 0xfff0, 0xfffd, 0xffff, 0x10000,
    0x1fffd, 0x1fffe, 0x20000, 0x2fffd, 0x2ffff, 0x7fffd, 0xdfffd, 0xdfffe, 0xe0000, 0xe0fff, 0xe1000, 0xefffd, 0xeffff, 0xf0000, 0xffffd, 0xffffe, 0x100000,
    0x10fffd, 0x10ffff, 0x200e, 0x200f, 0x202a, 0x202e, 0x2060,
];
/// Characters taken for ASCII ones by Unicode predicates, by case mapping, or by a cut to eight bits.
const LOOKALIKES: &[u32] = &[
    0xb2, 0xbd, 0x660, 0x966, 0x2160, 0x2460, 0xff11, 0xaa, 0xdf, 0x130, 0x131, 0x17f, 0x212a, 0xff21, 0xff41, 0x3000, 0x2028, 0x85, 0xa0, 0xff05, 0xff0f,
    0xff1a, 0xff1f, 0xff03, 0xff20, 0x141, 0x12f, 0x13a, 0x125, 0x12e, 0x13f, 0x123, 0x140, 0x15b, 0x17b, 0x17d, 0x30, 0xa25, 0x4e3a, 0x1f141, 0x10041,
];
/// Any character, most likely one where some rule changes.
pub fn any_char(c: &mut Ctx) -> char {
    let x = match c.below(6) {
        5 => {
            // Where a plane begins and ends.
            let plane = c.below(17);
            plane * 0x1_0000 + *c.pick(&[0, 1, 0xfffc, 0xfffd, 0xfffe, 0xffff])
        }
        4 => *c.pick(LOOKALIKES),
        0 | 1 => *c.pick(BORDERS),
        2 => c.below(0x11_0000),
        _ => c.below(0x3000),
    };
    char::from_u32(x).unwrap_or('\u{FFFD}')
}
/// A triplet, or the triplets of a character, in any case.
fn any_triplets(c: &mut Ctx) -> String {
    let ch = if c.chance(1, 2) { char::from(c.below(128) as u8) } else { any_char(c) };
    let mut buf = [0; 4];
    let bytes: Vec<u8> = match c.below(5) {
        0 => vec![c.below(256) as u8],
        1 => odd_utf8(c, ch as u32),
        _ => ch.encode_utf8(&mut buf).bytes().collect(),
    };
    let case = c.below(3);
    bytes
        .iter()
        .enumerate()
        .map(|(i, b)| if case == 0 || case == 2 && i % 2 == 0 { format!("%{b:02X}") } else { format!("%{b:02x}") })
        .collect()
}
/// The bit pattern of UTF-8 in a length of its own, or cut off, or with a byte changed.
fn odd_utf8(c: &mut Ctx, x: u32) -> Vec<u8> {
    let n = 2 + c.below(3);
    let mut b = vec![(0xf00u32 >> n) as u8 | (x >> (6 * (n - 1))) as u8 & (0x7f >> n) as u8];
    for k in (0..n - 1).rev() {
        b.push(0x80 | (x >> (6 * k)) as u8 & 0x3f);
    }
    match c.below(4) {
        0 => {
            b.pop();
        }
        1 => {
            let k = c.below(n) as usize;
            b[k] = c.below(256) as u8;
        }
        _ => {}
    }
    b
}
const WIDE: &[&str] = &["é", "あ", "😀", "\u{A0}", "\u{D7FF}", "\u{F900}", "\u{FFEF}", "\u{1FFFD}", "ß", "\u{E1000}", "İ"];
const PRIVATE: &[&str] = &["\u{E000}", "\u{F8FF}", "\u{F0000}", "\u{10FFFD}"];

/// Which unusual features this run uses (swarm testing).
#[derive(Clone, Copy, Debug)]
pub struct Swarm {
    pub triplets: bool,
    pub wide: bool,
    pub odd: bool,
    pub long: bool,
}
impl Swarm {
    pub fn draw(c: &mut Ctx) -> Swarm {
        let b = c.below(16);
        Swarm { triplets: b & 1 != 0, wide: b & 2 != 0, odd: b & 4 != 0, long: b & 8 != 0 }
    }
}

pub fn atom(c: &mut Ctx, sw: Swarm, iri: bool, extra: &[&str]) -> String {
    let k = c.below(10);
    match k {
        7 if !extra.is_empty() => c.pick(extra).to_string(),
        8 if sw.triplets => {
            if c.chance(1, 3) {
                any_triplets(c)
            } else {
                c.pick(TRIPLETS).to_string()
            }
        }
        9 if sw.wide && iri => {
            if c.chance(1, 3) {
                let x = any_char(c);
                if g::is_ucschar(x) { x.to_string() } else { "é".into() }
            } else {
                c.pick(WIDE).to_string()
            }
        }
        6 if sw.odd => {
            if c.chance(1, 3) {
                // Any letter or digit.
                let x = c.below(62) as u8;
                char::from(match x {
                    0..=25 => b'a' + x,
                    26..=51 => b'A' + x - 26,
                    _ => b'0' + x - 52,
                })
                .to_string()
            } else {
                c.pick(COMMON).to_string()
            }
        }
        _ => c.pick(&COMMON[..6]).to_string(),
    }
}

pub fn text(c: &mut Ctx, sw: Swarm, iri: bool, extra: &[&str], max: u32) -> String {
    let max = if sw.long { max * 3 } else { max };
    let n = c.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&atom(c, sw, iri, extra));
    }
    if sw.long && c.chance(1, 12) {
        burst(c, sw, iri, extra, &mut s);
    }
    s
}

/// Many atoms of one sort in a row, as long as the buffers and words inside the library.
fn burst(c: &mut Ctx, sw: Swarm, iri: bool, extra: &[&str], s: &mut String) {
    let n = if c.chance(1, 8) { 4 + c.below(300) } else { 4 + c.below(60) };
    let sort = c.below(5);
    let one = atom(c, sw, iri, extra);
    for _ in 0..n {
        match sort {
            // Common ones, and now and then the other.
            4 if c.chance(1, 8) => s.push_str(&one),
            4 => s.push_str(c.pick(&COMMON[..6])),
            0 => s.push_str(&one),
            1 if sw.wide && iri => {
                let x = any_char(c);
                s.push(if g::is_ucschar(x) { x } else { 'あ' });
            }
            2 if sw.triplets => s.push_str(&any_triplets(c)),
            1 => s.push_str(c.pick(&COMMON[..6])),
            _ => s.push_str(&atom(c, sw, iri, extra)),
        }
    }
}

/// Makes one component long: around and beyond the sizes where a length stored in
/// fewer bits, or a fixed buffer, would end.
fn stretch(c: &mut Ctx, iri: bool, p: &mut Parts) {
    let units: &[&str] = &["a", "Zb9", "a-b.c~", "%e3", "%41", "$&", "é", "あ", "😀", "aé", "あb😀"];
    let unit = *c.pick(&units[..if iri { 11 } else { 6 }]);
    let len = match c.below(8) {
        0 => 120 + c.below(20),
        1 | 2 => 250 + c.below(12),
        3 => 505 + c.below(14),
        4 => 1018 + c.below(12),
        5 => 4090 + c.below(12),
        6 => c.below(3000),
        _ => *c.pick(&[65_530, 65_535, 65_536, 65_537, 70_000]) + c.below(3),
    } as usize;
    let n = len / unit.len();
    match c.below(11) {
        10 if p.scheme.is_some() => {
            let end = if c.chance(1, 2) { "H" } else { "" };
            p.scheme = Some(format!("s{}{end}", c.pick(&["c", "cH+", "1.x"]).repeat(len / 3)));
        }
        k => stretch_part(c, p, k % 5, unit, n),
    }
}

fn stretch_part(c: &mut Ctx, p: &mut Parts, part: u32, unit: &str, n: usize) {
    let run = unit.repeat(n);
    let old = |s: Option<&str>| s.unwrap_or("").to_string();
    match part {
        0 => p.query = Some(run + &old(p.query.as_deref())),
        1 if p.fragment.is_some() => p.fragment = Some(run + &old(p.fragment.as_deref())),
        // One long segment at the end.
        2 | 1 => p.path.push_str(&run),
        3 if p.authority.is_some() => {
            let mut a = g::split_auth(p.authority.as_deref().unwrap_or(""));
            match c.below(4) {
                0 => a.userinfo = Some(run + &old(a.userinfo.as_deref())),
                1 => a.userinfo = Some(format!("u:{run}")),
                2 if a.port.is_some() => a.port = Some("7".repeat(n)),
                _ if a.host.starts_with('[') => a.host = run,
                _ => a.host.insert_str(0, &run),
            }
            p.authority = Some(g::compose_auth(&a));
        }
        // Many short segments.
        _ => {
            let n = n.min(900);
            let seg = if p.path.ends_with('/') || p.path.is_empty() && p.authority.is_none() { "a/" } else { "/a" };
            p.path.push_str(&seg.repeat(n / 2));
        }
    }
}

/// Text which is close to `old`: the same, a part of it, or a little more.
pub fn related(c: &mut Ctx, old: &str) -> String {
    let cut = |c: &mut Ctx| {
        let n = old.chars().count() as u32;
        let at = c.below(n + 1) as usize;
        old.char_indices().nth(at).map_or(old.len(), |x| x.0)
    };
    match c.below(9) {
        0 => old.to_string(),
        1 => old[cut(c)..].to_string(),
        2 => old[..cut(c)].to_string(),
        3 => {
            let (a, b) = (cut(c), cut(c));
            old[a.min(b)..a.max(b)].to_string()
        }
        4 => old.to_ascii_lowercase(),
        5 => old.to_ascii_uppercase(),
        6 => {
            let i = cut(c);
            format!("{}{}{}", &old[..i], c.pick(&["a", "0", ".", "%41", "x.y"]), &old[i..])
        }
        7 => format!("{old}{old}"),
        _ => {
            // One character exchanged.
            let i = cut(c);
            let mut rest = old[i..].chars();
            rest.next();
            format!("{}{}{}", &old[..i], c.pick(&["a", "0", "."]), rest.as_str())
        }
    }
}

pub fn scheme(c: &mut Ctx) -> String {
    if c.chance(1, 12) {
        let n = if c.chance(1, 8) { 1 + c.below(60) } else { 1 + c.below(12) };
        let low = c.chance(1, 4);
        return (0..n)
            .map(|i| {
                if low && i + 1 < n {
                    return 'q';
                }
                let x = c.below(if i == 0 { 52 } else { 65 }) as u8;
                char::from(match x {
                    0..=25 => b'a' + x,
                    26..=51 => b'A' + x - 26,
                    52..=61 => b'0' + x - 52,
                    _ => b"+-."[x as usize - 62],
                })
            })
            .collect();
    }
    c.pick(&["s", "http", "HTTP", "foo", "a+b-c.d", "X1", "urn", "mailto", "z.", "f"]).to_string()
}
pub fn userinfo(c: &mut Ctx, sw: Swarm, iri: bool) -> String {
    match c.below(6) {
        0 => "u".into(),
        1 => "".into(),
        2 => {
            let a = text(c, sw, iri, &[], 3);
            let b = text(c, sw, iri, &[":"], 3);
            format!("{a}:{b}")
        }
        3 => ":".into(),
        4 => text(c, sw, iri, &[":"], 4),
        _ => "user:pw".into(),
    }
}
fn hex(c: &mut Ctx, max: u32) -> String {
    let n = 1 + c.below(max);
    (0..n).map(|_| char::from(*c.pick(b"0123456789abcdefABCDEF"))).collect()
}
/// An address in brackets; may well be ill-formed.
fn literal(c: &mut Ctx) -> String {
    if c.chance(1, 4) {
        let v = *c.pick(&["v", "V", "", "vv", "w"]);
        let long = hex(c, 20);
        let n = *c.pick(&["1", "F", "a0", "", "g", "1.", "7fF", &long]);
        let t = *c.pick(&["x", ":", "a:b", "", "%41", "-._~!$&'()*+,;=", "é", "/", "@", "[", "Z9"]);
        return format!("[{v}{n}.{t}]");
    }
    let mut s = String::from("[");
    let groups = if c.chance(1, 2) { 5 + c.below(4) } else { c.below(10) };
    let gap = if c.chance(2, 3) { Some(c.below(groups + 1)) } else { None };
    let gap2 = if c.chance(1, 16) { Some(c.below(groups + 1)) } else { None };
    for i in 0..groups {
        if gap == Some(i) || gap2 == Some(i) {
            s.push_str(if i == 0 || !s.ends_with(':') { "::" } else { ":" });
        }
        if c.chance(1, 12) {
            s.push_str(*c.pick(&["12345", "g", "", "00000", "0000", "00001", "FFFFF", "0001", "é"]));
        } else if c.chance(1, 8) {
            s.push_str(&hex(c, 4));
        } else {
            s.push_str(*c.pick(&["0", "1", "ff", "ABC", "1234", "FfFf", "0", "a"]));
        }
        if i + 1 < groups && gap != Some(i + 1) {
            s.push(':');
        }
    }
    if gap == Some(groups) {
        s.push_str("::");
    }
    if c.chance(1, 4) {
        if !s.ends_with(':') && s.len() > 1 {
            s.push(':');
        }
        if c.chance(1, 2) {
            s.push_str(&address(c));
        } else {
            s.push_str(*c.pick(&["1.2.3.4", "255.0.0.255", "0.0.0.0", "1.2.3", "256.1.1.1", "01.1.1.1", "1.2.3.4.5", "1.2.3."]));
        }
    }
    if c.chance(1, 20) {
        s.push_str(*c.pick(&["%25eth0", "%eth0", ":", "]", " "]));
    }
    s.push(']');
    s
}
fn address(c: &mut Ctx) -> String {
    let n = if c.chance(1, 8) { c.below(7) } else { 4 };
    let odd = if c.chance(1, 3) { 18 } else { 11 };
    let v: Vec<String> = (0..n)
        .map(|_| {
            if c.chance(1, 3) {
                c.below(if odd > 11 { 300 } else { 256 }).to_string()
            } else {
                c.pick(&["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "00", "01", "260", "300", "1000", ""][..odd]).to_string()
            }
        })
        .collect();
    v.join(".")
}
/// Like an address, well-formed or not.
pub fn near_host(c: &mut Ctx) -> String {
    if c.chance(2, 3) {
        literal(c)
    } else {
        address(c)
    }
}
pub fn host(c: &mut Ctx, sw: Swarm, iri: bool) -> String {
    if sw.odd && c.chance(1, 6) {
        let h = if c.chance(2, 3) { literal(c) } else { address(c) };
        if g::host_ok(iri, &h) {
            return h;
        }
    }
    match c.below(8) {
        0 => "h".into(),
        1 => "".into(),
        2 => "eXample.COM".into(),
        3 => c
            .pick(&[
                "[::1]", "[2001:db8::A]", "[::ffff:1.2.3.4]", "[v1.aB:]", "[V7f.x]", "[1:2:3:4:5:6:7:8]", "[::]",
                "[1:2:3:4:5:6:7::]", "[1::8]", "[1:2:3:4:5:6:1.2.3.4]", "[FE80::0:1]", "[::2:3:4:5:6:7:8]",
            ])
            .to_string(),
        4 => c.pick(&["127.0.0.1", "255.255.255.255", "256.1.1.1", "1.2.3", "01.2.3.4", "1.2.3.4.5", "0.0.0.0", "1.2.3.4."]).to_string(),
        5 => c.pick(&["a%41", "%e3%81%82", "A%c3%a9", "%5B", "x.Y", "%41", "A%2e"]).to_string(),
        _ => text(c, sw, iri, &[], 4),
    }
}
pub fn port(c: &mut Ctx) -> String {
    if c.chance(1, 10) {
        let n = c.below(25);
        return (0..n).map(|_| char::from(b'0' + c.below(10) as u8)).collect();
    }
    c.pick(&["80", "", "0", "8080", "65535", "99999", "00080"]).to_string()
}
pub fn authority(c: &mut Ctx, sw: Swarm, iri: bool) -> String {
    let a = g::Auth {
        userinfo: if c.chance(1, 2) { Some(userinfo(c, sw, iri)) } else { None },
        host: host(c, sw, iri),
        port: if c.chance(1, 3) { Some(port(c)) } else { None },
    };
    g::compose_auth(&a)
}
pub fn segment(c: &mut Ctx, sw: Swarm, iri: bool) -> String {
    match c.below(10) {
        0 | 1 => "a".into(),
        2 => "".into(),
        3 => ".".into(),
        4 => "..".into(),
        5 if sw.triplets => c.pick(&["%2e", "%2E%2e", ".%2E", "%2e.", "%2E", "%2e%2E", "%2E."]).to_string(),
        6 => "b".into(),
        7 => c.pick(&["...", ".a", "a.", "..b", ". ", "c;p", "x=1,2"]).trim().to_string(),
        _ => text(c, sw, iri, &[":", "@"], 3),
    }
}
/// A path that fits the context (with or without authority / scheme).
pub fn path(c: &mut Ctx, sw: Swarm, iri: bool, has_auth: bool, has_scheme: bool) -> String {
    let mut segs: Vec<String> = if sw.long && c.chance(1, 3) {
        // Up and down in bulk.
        let mut v = Vec::new();
        for _ in 0..1 + c.below(3) {
            for i in 0..c.below(14) {
                v.push(if i % 5 == 4 { segment(c, sw, iri) } else { char::from(b'a' + i as u8).to_string() });
            }
            for _ in 0..c.below(12) {
                v.push("..".into());
            }
        }
        v
    } else {
        let n = c.below(if sw.long { 18 } else { 6 });
        (0..n).map(|_| segment(c, sw, iri)).collect()
    };
    if sw.long && c.chance(1, 24) {
        // More segments than any queue or word holds, before or after the others.
        let at = c.below(segs.len() as u32 + 1) as usize;
        let n = if c.chance(1, 4) { c.below(300) } else { c.below(80) };
        let one = c.pick(&["a", "bc", "x1", "%41"]).to_string();
        segs.splice(at..at, (0..n).map(|_| one.clone()));
    }
    let n = segs.len();
    if has_auth {
        if n == 0 {
            return String::new();
        }
        return format!("/{}", segs.join("/"));
    }
    let abs = c.chance(1, 2);
    if abs {
        if segs.len() > 1 && segs[0].is_empty() {
            segs[0] = "a".into();
        }
        return format!("/{}", segs.join("/"));
    }
    if segs.is_empty() {
        return String::new();
    }
    if segs.len() > 1 && segs[0].is_empty() {
        segs[0] = ".".into();
    }
    if !has_scheme {
        segs[0] = segs[0].replace(':', "-");
    }
    segs.join("/")
}
pub fn query(c: &mut Ctx, sw: Swarm, iri: bool) -> String {
    let mut s = text(c, sw, iri, &["?", "/", ":", "@", "//", "&", "="], 4);
    if iri && sw.wide && c.chance(1, 3) {
        if c.chance(1, 3) {
            let x = any_char(c);
            s.push(if g::is_iprivate(x) { x } else { '\u{E000}' });
        } else {
            s.push_str(*c.pick(PRIVATE));
        }
    }
    s
}
pub fn fragment(c: &mut Ctx, sw: Swarm, iri: bool) -> String {
    text(c, sw, iri, &["?", "/", ":", "@", "//"], 4)
}

pub fn parts(c: &mut Ctx, sw: Swarm, iri: bool, kind: Kind) -> Parts {
    let scheme = match kind {
        Kind::Full | Kind::Abs => Some(scheme(c)),
        Kind::Rel => None,
        Kind::Ref => {
            if c.chance(1, 2) {
                Some(scheme(c))
            } else {
                None
            }
        }
    };
    let authority = if c.chance(3, 5) { Some(authority(c, sw, iri)) } else { None };
    let path = path(c, sw, iri, authority.is_some(), scheme.is_some());
    let query = if c.chance(2, 5) { Some(query(c, sw, iri)) } else { None };
    let fragment =
        if kind != Kind::Abs && c.chance(2, 5) { Some(fragment(c, sw, iri)) } else { None };
    let mut p = Parts { scheme, authority, path, query, fragment };
    if sw.long && c.chance(1, 100) {
        let short = p.clone();
        stretch(c, iri, &mut p);
        if !g::parts_ok(iri, kind, &p) {
            p = short;
        }
    }
    if !g::parts_ok(iri, kind, &p) {
        panic!("harness: generator made {:?} {:?}", kind, g::compose(&p));
    }
    p
}

/// A valid identifier of the kind.
pub fn ident(c: &mut Ctx, sw: Swarm, iri: bool, kind: Kind) -> String {
    g::compose(&parts(c, sw, iri, kind))
}

const HOT: &[&str] = &[
    "", "%", "#", "?", "/", ":", "@", "[", "]", " ", "<", "\"", "\\", "^", "`", "{", "|", "}", "\u{7f}", "\0", "\u{80}", "\u{FDD0}",
    "\u{FFFE}", "é", "\u{E000}", "%4", "%zz", "%G1", "//", "::", "1", "a", ".", "\u{202E}", "\u{FFFD}", "\u{E0001}", "\u{9f}", "\n", "\u{1FFFE}", "%a",
];

/// Text near the grammar: a valid identifier damaged in a few places, or noise.
pub fn near(c: &mut Ctx, sw: Swarm, iri: bool, kind: Kind) -> String {
    let mut s = ident(c, sw, iri, kind);
    if c.chance(1, 10) {
        // A host that looks like an address.
        let mut p = g::split(&s);
        if let Some(a) = &p.authority {
            let mut a = g::split_auth(a);
            a.host = if c.chance(2, 3) { literal(c) } else { address(c) };
            p.authority = Some(g::compose_auth(&a));
            s = g::compose(&p);
        }
    }
    let n = c.below(3);
    for _ in 0..n {
        mutate(c, &mut s);
    }
    s
}

pub fn mutate(c: &mut Ctx, s: &mut String) {
    let n = s.chars().count();
    let at = c.below(n as u32 + 1) as usize;
    let i = s.char_indices().nth(at).map_or(s.len(), |x| x.0);
    match c.below(5) {
        0 => s.insert_str(i, *c.pick(HOT)),
        1 => {
            if i < s.len() {
                s.remove(i);
            }
        }
        3 => {
            // Any ASCII character.
            let x = char::from(c.below(128) as u8);
            s.insert(i, x);
        }
        4 => {
            let x = any_char(c);
            s.insert(i, x);
        }
        _ => {
            if i < s.len() {
                s.remove(i);
            }
            s.insert_str(i, *c.pick(HOT));
        }
    }
}
