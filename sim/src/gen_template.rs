//! Generation of URI templates and of the values they are expanded with.

use crate::ctx::Ctx;
use crate::env::context::{CVal, SimContext};
use crate::env::value::Val;
use crate::gen;
use crate::model::template as t;

pub const NAMES: &[&str] = &["a", "b", "v", "x.y", "A_1", "%41", "n%e3%81%82.b", "0", "_", "list", "keys", "a.b.c", "%ff"];
const OPS: &[&str] = &["", "+", "#", ".", "/", ";", "?", "&"];
const LITERALS: &[&str] = &[
    "a", "/", "x/y", "http://h/", "?q=", "#", "%41", "%e3%81%82", "%E3%81", "é", "あ", "\u{E000}", "'", ":", "@", "&", "~", "[", "]", "😀", "*",
    ",", "%2F",
];

/// Some variable name; most of the time one of the usual ones.
fn name(c: &mut Ctx) -> String {
    if !c.chance(1, 12) {
        return c.pick(NAMES).to_string();
    }
    let mut s = String::new();
    // Sometimes a long one.
    let n = if c.chance(1, 40) { 10 + c.below(290) } else { 1 + c.below(4) };
    for i in 0..n {
        if i > 0 && c.chance(1, 4) {
            s.push('.');
        }
        match c.below(66) as u8 {
            x @ 0..=25 => s.push(char::from(b'a' + x)),
            x @ 26..=51 => s.push(char::from(b'A' + x - 26)),
            x @ 52..=61 => s.push(char::from(b'0' + x - 52)),
            62 => s.push('_'),
            _ => {
                let b = c.below(256);
                if c.chance(1, 2) {
                    s.push_str(&format!("%{b:02x}"))
                } else {
                    s.push_str(&format!("%{b:02X}"))
                }
            }
        }
    }
    s
}
fn varspec(c: &mut Ctx) -> String {
    let n = name(c);
    match c.below(6) {
        0 | 1 => n.to_string(),
        2 | 3 => format!("{n}*"),
        4 => format!("{n}:{}", 1 + c.below(6)),
        _ if c.chance(1, 5) => format!("{n}:{}", 1 + c.below(9999)),
        _ => format!("{n}:{}", *c.pick(&[3u32, 10, 99, 9999, 1000, 20])),
    }
}
pub fn valid(c: &mut Ctx) -> String {
    let mut s = String::new();
    // Sometimes many expressions, or many variables in one.
    let rare = c.below(300);
    let n = if rare == 299 { 6 + c.below(60) } else { 1 + c.below(5) };
    for _ in 0..n {
        if c.below(3) == 2 {
            if c.chance(1, 200) {
                let n = 1 + c.below(600) as usize;
                s.push_str(&c.pick(LITERALS).repeat(n));
            } else if c.chance(1, 10) {
                let x = gen::any_char(c);
                if t::literal_char(x) {
                    s.push(x);
                }
            } else {
                s.push_str(*c.pick(LITERALS));
            }
        } else {
            let k = if rare == 298 { 4 + c.below(60) } else { 1 + c.below(3) };
            let v: Vec<String> = (0..k).map(|_| varspec(c)).collect();
            s.push_str(&format!("{{{}{}}}", c.pick(OPS), v.join(",")));
        }
    }
    if t::parse(&s).is_none() {
        panic!("harness: generated invalid template {s:?}");
    }
    s
}

const HOT: &[&str] = &[
    "{", "}", ":", "*", ",", ".", "%", "%4", "%a", "%aé", "%é", "0", "1", "{a:0}", "{a:10000}", "{a:65536}", "{a:01}", "{a:}", "{a*:3}", "{=a}",
    "{,a}", "{!a}", "{@a}", "{|a}", "{a,}", "{}", "{+}", "{.}", "{a b}", "{a.}", "{.a}", "{..a}", "{a..b}", "{é}", " ", "<", ">", "\"", "\\", "^",
    "`", "|", "\u{7f}", "\u{80}", "\u{FDD0}", "\u{E0001}", "é", "\u{FFFF}", "{a:99999}", "{a:1a}", "{a**}", "{%}", "{%4}", "{%zz}", "{a%41}", "{$a}",
    "{-a}", "{(a)}", "{{a}}", "{a:9999}", "\n",
];
/// Text near the template grammar.
pub fn near(c: &mut Ctx) -> String {
    let mut s = valid(c);
    for _ in 0..c.below(3) {
        damage(c, &mut s);
    }
    s
}
/// One small change, likely at the border of the grammar.
pub fn damage(c: &mut Ctx, s: &mut String) {
    let n = s.chars().count() as u32;
    let at = c.below(n + 1) as usize;
    let i = s.char_indices().nth(at).map_or(s.len(), |x| x.0);
    match c.below(4) {
        0 => s.insert_str(i, *c.pick(HOT)),
        1 => {
            if i < s.len() {
                s.remove(i);
            }
        }
        2 => {
            if i < s.len() {
                s.remove(i);
            }
            s.insert_str(i, *c.pick(HOT));
        }
        _ => gen::mutate(c, s),
    }
}

const VALUE_ATOMS: &[&str] = &[
    "a", "Z", "0", "~", "-", " ", "/", "?", "#", ":", "é", "あ", "😀", "%", "%4", "%41", "%2f", "%e3%81%82", "%E3%81", "%81", "%f0%9f%98%80",
    "%f0%9f%98", "%C3%a9", "%ff", "\u{E000}", "\u{FDD0}", "&", "=", ",", "!", "'", "%zz", "%%", "%e3%41", "\u{0}", "\"", "%ED%A0%80",
];
pub fn value_text(c: &mut Ctx) -> String {
    let mut s = String::new();
    for _ in 0..c.below(6) {
        if c.chance(1, 24) {
            s.push(gen::any_char(c));
        } else {
            s.push_str(*c.pick(VALUE_ATOMS));
        }
    }
    if !c.long_values {
        return s;
    }
    match c.below(400) {
        // Around the larger prefix lengths.
        398 => s = s.repeat(1 + c.below(40) as usize),
        // Beyond them, and now and then beyond what fits into sixteen bits.
        399 if s.len() < 8 => {
            let n = if c.chance(1, 12) && s.len() < 4 { 65_500 + c.below(100) } else { 900 + c.below(9200) };
            s = s.repeat(n as usize);
            if c.chance(1, 2) {
                s.push_str(*c.pick(VALUE_ATOMS));
                s.push_str("b9");
            }
        }
        // A long run of a few characters.
        386..=389 => {
            let set: Vec<&str> = if c.chance(1, 2) {
                // Common ones and one other.
                let other = *c.pick(VALUE_ATOMS);
                ["a", "Z", "0", "-", "a"].into_iter().chain([other]).collect()
            } else {
                (0..1 + c.below(3)).map(|_| *c.pick(VALUE_ATOMS)).collect()
            };
            s.clear();
            for _ in 0..8 + c.below(150) {
                s.push_str(*c.pick(&set));
            }
        }
        390..=397 => {
            // Any character at all.
            let x = c.below(0x11_0000);
            s.push(char::from_u32(x).unwrap_or('\u{FFFD}'));
        }
        _ => {}
    }
    s
}
/// Records the form of a template and of the delivery of its values.
pub fn shape(c: &mut Ctx, chunks: &[t::Chunk], ctx: &SimContext) {
    let mut h = ctx.style as u64;
    let mut add = |x: u64| h = crate::rng::mix(h ^ x);
    let pieces = |v: &Val| v.pieces.iter().fold(v.pieces.len() as u64, |a, p| a.wrapping_mul(31) + p.len().min(9) as u64);
    for ch in chunks {
        match ch {
            t::Chunk::Lit(_) => add(1),
            t::Chunk::Expr(o, vars) => {
                add(2 + o.map_or(0, |o| o as u64));
                for v in vars {
                    add(match v.modifier {
                        t::Modifier::None => 3,
                        t::Modifier::Explode => 4,
                        t::Modifier::Prefix(n) => 5 + n.min(9) as u64,
                    });
                    match ctx.get(&v.name) {
                        CVal::Undef => add(6),
                        CVal::Str(x) => add(pieces(x)),
                        CVal::List(l) => {
                            add(7);
                            l.iter().for_each(|x| add(pieces(x)));
                        }
                        CVal::Assoc(l) => {
                            add(8);
                            l.iter().for_each(|(k, x)| {
                                add(pieces(k));
                                add(pieces(x))
                            });
                        }
                    }
                }
            }
        }
    }
    c.shape(h);
}
pub fn val(c: &mut Ctx) -> Val {
    let s = value_text(c);
    Val::cut(&mut c.src, &s)
}
pub fn cval(c: &mut Ctx) -> CVal {
    if c.long_values && c.chance(1, 500) {
        // A long list or map.
        let n = if c.chance(1, 6) { 500 + c.below(1000) } else { *c.pick(&[20, 33, 65, 126, 250, 255]) + c.below(8) };
        let (a, b) = (val(c), val(c));
        if a.text().len() + b.text().len() < 40 {
            return if c.chance(1, 2) {
                CVal::List((0..n).map(|i| if i % 3 == 1 { b.clone() } else { a.clone() }).collect())
            } else {
                CVal::Assoc((0..n).map(|i| if i % 3 == 1 { (b.clone(), a.clone()) } else { (a.clone(), b.clone()) }).collect())
            };
        }
    }
    match c.below(8) {
        0..=3 => CVal::Str(val(c)),
        4 => CVal::Undef,
        5 | 6 => {
            let n = c.below(4);
            CVal::List((0..n).map(|_| val(c)).collect())
        }
        _ => {
            let n = c.below(4);
            CVal::Assoc((0..n).map(|_| (val(c), val(c))).collect())
        }
    }
}
/// A context; names not in it are undefined.
pub fn context(c: &mut Ctx) -> SimContext {
    let mut vars = Vec::new();
    for n in NAMES {
        if c.below(4) != 0 {
            let v = cval(c);
            vars.push((n.to_string(), v));
        }
    }
    SimContext::new(vars, c.below(3) as u8)
}
/// A context for the variables of this template only.
pub fn context_for(c: &mut Ctx, chunks: &[t::Chunk]) -> SimContext {
    let mut vars: Vec<(String, CVal)> = Vec::new();
    for n in t::names(chunks) {
        if !vars.iter().any(|(m, _)| *m == n) {
            let v = cval(c);
            vars.push((n, v));
        }
    }
    SimContext::new(vars, c.below(3) as u8)
}
