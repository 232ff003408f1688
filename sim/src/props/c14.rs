//! C14: decoding cursors account for every byte at every point.

use crate::ctx::{no_panic, vio, Ctx, Res};
use crate::gen_template as gt;
use crate::model::{pct, template as t};
use crate::{ensure, ensure_eq};
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment, PercentDecodedBytesFragments, PercentDecodedWhatwgBytes};
use iri_string::template::{UriTemplateStr, UriTemplateVariables};
use std::borrow::Cow;

pub fn run(c: &mut Ctx) -> Res {
    if c.chance(1, 4) {
        variables(c)
    } else {
        bytes(c)
    }
}

const ATOMS: &[&[u8]] = &[
    b"%", b"%", b"%4", b"%41", b"%e3%81%82", b"%E3%81", b"%ff", b"%zz", b"%%", b"%%41", b"%4%31", b"%2525", b"%g1", b"%1g", b"a", b"Z9", b"/", b"+", b"\0",
    b"\xff", b"\xe3\x81\x82", b"\xe3", b"%\xc3\xa9", b"%4\xc3", b"%00", b"%aF", b"%Fa", b"%0", b"long run of plain text ", b"\x81",
];

fn input(c: &mut Ctx) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..c.below(8) {
        match c.below(12) {
            11 => v.push(c.below(256) as u8),
            10 => {
                v.push(b'%');
                v.extend(format!("{:02x}", c.below(256)).as_bytes());
            }
            _ => v.extend_from_slice(*c.pick(ATOMS)),
        }
    }
    v
}

/// The unit the model decodes at the start of the text: its length and its bytes.
fn unit(b: &[u8]) -> (usize, u8) {
    if b[0] == b'%' && b.len() > 2 {
        if let (Some(h), Some(l)) = (pct::hexval(b[1]), pct::hexval(b[2])) {
            return (3, h * 16 + l);
        }
    }
    (1, b[0])
}

struct Cursor<'a> {
    it: PercentDecodedBytesFragments<'a>,
    /// Bytes of the input it has gone through.
    at: usize,
    yielded: Vec<u8>,
}

fn step(c: &mut Ctx, who: usize, whole: &[u8], cur: &mut Cursor) -> Res<bool> {
    let f = no_panic("next", || cur.it.next())?;
    c.note(|| format!("cursor {who} at {}: next gives {f:?}", cur.at));
    let rest = &whole[cur.at..];
    let what = format!("cursor {who} over {:?} at {}", String::from_utf8_lossy(whole), cur.at);
    match f {
        None => {
            ensure!(rest.is_empty(), "input lost", "{what}: ends with {:?} left", String::from_utf8_lossy(rest));
            c.probe("cursor_exhausted");
        }
        Some(f) => {
            ensure!(!rest.is_empty(), "exhausted cursor goes on", "{what}: {f:?}");
            let (len, b) = unit(rest);
            let used = match f {
                DecodedFragment::Direct(d) => {
                    ensure!(rest.starts_with(d) && !d.is_empty(), "wrong fragment", "{what}: {f:?}");
                    ensure!(pct::decode(d) == d, "wrong fragment", "{what}: {f:?} holds an encoded byte");
                    cur.yielded.extend_from_slice(d);
                    d.len()
                }
                DecodedFragment::DecodedByte(x) => {
                    ensure!(len == 3 && x == b, "wrong fragment", "{what}: {f:?}");
                    cur.yielded.push(x);
                    3
                }
                DecodedFragment::StrayPercent => {
                    ensure!(rest[0] == b'%' && len == 1, "wrong fragment", "{what}: {f:?}");
                    c.probe("stray_percent");
                    cur.yielded.push(b'%');
                    1
                }
            };
            cur.at += used;
        }
    }
    let left = cur.it.not_yet_decoded();
    ensure_eq!(left, &whole[cur.at..], "input not accounted for", "{what}: what the cursor still holds");
    Ok(f.is_some())
}

/// What the fragments stand for.
fn bytes_of(v: &[DecodedFragment<'_>]) -> Vec<u8> {
    let mut got = Vec::new();
    for f in v {
        match f {
            DecodedFragment::Direct(b) => got.extend_from_slice(b),
            DecodedFragment::DecodedByte(b) => got.push(*b),
            DecodedFragment::StrayPercent => got.push(b'%'),
        }
    }
    got
}

/// The other ways to drive an iterator do what repeated `next` does.
fn driven(c: &mut Ctx, who: usize, whole: &[u8], cur: &mut Cursor) -> Res {
    let what = format!("cursor {who} over {:?} at {}", String::from_utf8_lossy(whole), cur.at);
    // What `next` gives from here on, one fragment after another, and what it leaves.
    let mut reference = cur.it.clone();
    let mut seq = Vec::new();
    let mut after = Vec::new();
    while let Some(f) = no_panic("next", || reference.next())? {
        ensure!(seq.len() <= whole.len(), "endless cursor", "{what}");
        seq.push(f);
        after.push(reference.not_yet_decoded());
    }
    let hint = cur.it.size_hint();
    ensure!(
        hint.0 <= seq.len() && hint.1.is_none_or(|h| h >= seq.len()),
        "wrong size hint",
        "{what}: {hint:?} with {} fragments to come",
        seq.len()
    );
    let k = c.below(6) as usize;
    let it = &mut cur.it;
    let way = c.below(9);
    c.note(|| format!("cursor {who}: way {way} with {k}"));
    match way {
        0 => {
            let f = no_panic("nth", || it.nth(k))?;
            ensure_eq!(f, seq.get(k).copied(), "skipping differs from stepping", "{what}: nth({k})");
            let left = if k < seq.len() { after[k] } else { &whole[whole.len()..] };
            ensure_eq!(it.not_yet_decoded(), left, "input not accounted for", "{what}: what is left after nth({k})");
            cur.yielded.extend_from_slice(&bytes_of(&seq[..seq.len().min(k + 1)]));
            cur.at = whole.len() - left.len();
        }
        1 => {
            let v: Vec<_> = no_panic("take", || it.by_ref().take(k).collect())?;
            let m = k.min(seq.len());
            ensure_eq!(v, &seq[..m], "skipping differs from stepping", "{what}: take({k})");
            if m > 0 {
                ensure_eq!(it.not_yet_decoded(), after[m - 1], "input not accounted for", "{what}: what is left after take({k})");
                cur.at = whole.len() - after[m - 1].len();
            }
            cur.yielded.extend_from_slice(&bytes_of(&v));
        }
        2 => ensure_eq!(no_panic("count", || it.clone().count())?, seq.len(), "skipping differs from stepping", "{what}: count"),
        3 => ensure_eq!(no_panic("last", || it.clone().last())?, seq.last().copied(), "skipping differs from stepping", "{what}: last"),
        4 => {
            let v = no_panic("fold", || {
                it.clone().fold(Vec::new(), |mut v, f| {
                    v.push(f);
                    v
                })
            })?;
            ensure_eq!(v, seq, "skipping differs from stepping", "{what}: fold");
        }
        5 => {
            let v: Vec<_> = no_panic("skip", || it.clone().skip(k).collect())?;
            ensure_eq!(v, &seq[k.min(seq.len())..], "skipping differs from stepping", "{what}: skip({k})");
        }
        6 => {
            let v: Vec<_> = no_panic("step_by", || it.clone().step_by(k + 1).collect())?;
            let e: Vec<_> = seq.iter().copied().step_by(k + 1).collect();
            ensure_eq!(v, e, "skipping differs from stepping", "{what}: step_by({})", k + 1);
        }
        7 => {
            // Stops in the middle, and goes on.
            let mut n = 0;
            let f = no_panic("find", || {
                it.find(|_| {
                    n += 1;
                    n > k
                })
            })?;
            ensure_eq!(f, seq.get(k).copied(), "skipping differs from stepping", "{what}: find");
            let left = if k < seq.len() { after[k] } else { &whole[whole.len()..] };
            ensure_eq!(it.not_yet_decoded(), left, "input not accounted for", "{what}: what is left after find");
            cur.yielded.extend_from_slice(&bytes_of(&seq[..seq.len().min(k + 1)]));
            cur.at = whole.len() - left.len();
        }
        _ => {
            let mut v = Vec::new();
            no_panic("for_each", || it.clone().for_each(|f| v.push(f)))?;
            ensure_eq!(v, seq, "skipping differs from stepping", "{what}: for_each");
        }
    }
    Ok(())
}

fn collected(c: &mut Ctx, d: &PercentDecodedWhatwgBytes<'_>, whole: &[u8]) -> Res {
    let expected = pct::decode(whole);
    let what = format!("{:?}", String::from_utf8_lossy(whole));
    ensure_eq!(d.not_yet_decoded(), whole, "input not accounted for", "decoder of {what}");
    match c.below(4) {
        0 => {
            let b: Cow<[u8]> = no_panic("into_bytes", || d.into_bytes())?;
            ensure_eq!(b.as_ref(), &expected[..], "wrong bytes", "into_bytes of {what}");
        }
        1 => {
            let s = no_panic("into_string", || d.into_string())?;
            match (&s, String::from_utf8(expected.clone())) {
                (Ok(s), Ok(e)) => ensure_eq!(*s, e, "wrong text", "into_string of {what}"),
                (Err(e), Err(_)) => {
                    c.probe("into_string_not_utf8");
                    ensure_eq!(e.as_bytes(), &expected[..], "wrong bytes", "error of into_string of {what}");
                }
                (s, _) => return vio("wrong text", format!("into_string of {what} gives {s:?}, bytes are {expected:?}")),
            }
        }
        2 => {
            let b = no_panic("to_bytes", || d.to_bytes())?;
            match b {
                Some(b) => ensure_eq!(b, &expected[..], "wrong bytes", "to_bytes of {what}"),
                // Only if there is something to decode.
                None => ensure!(expected != whole, "plain bytes refused", "to_bytes of {what}"),
            }
        }
        _ => {
            let mut got = Vec::new();
            no_panic("bytes_fragments", || {
                for f in d.bytes_fragments() {
                    match f {
                        DecodedFragment::Direct(b) => got.extend_from_slice(b),
                        DecodedFragment::DecodedByte(b) => got.push(b),
                        DecodedFragment::StrayPercent => got.push(b'%'),
                    }
                }
            })?;
            ensure_eq!(got, expected, "wrong bytes", "fragments of {what}");
        }
    }
    Ok(())
}

fn bytes(c: &mut Ctx) -> Res {
    let whole = input(c);
    let d = decode_whatwg_bytes(&whole);
    c.note(|| format!("decode {:?}", String::from_utf8_lossy(&whole)));
    let mut cursors = vec![Cursor { it: d.bytes_fragments(), at: 0, yielded: vec![] }];
    let n = 2 + c.below(24);
    for _ in 0..n {
        let i = c.below(cursors.len() as u32) as usize;
        match c.below(10) {
            8 | 9 => {
                c.op("drive");
                driven(c, i, &whole, &mut cursors[i])?;
            }
            0..=4 => {
                c.op("next");
                c.shape(i as u64);
                step(c, i, &whole, &mut cursors[i])?;
            }
            5 => {
                if cursors.len() < 5 {
                    c.op("clone");
                    let x = Cursor { it: cursors[i].it.clone(), at: cursors[i].at, yielded: cursors[i].yielded.clone() };
                    cursors.push(x);
                } else {
                    c.fault("abandoned_cursor");
                    c.note(|| format!("cursor {i} is abandoned; the last one takes its number"));
                    cursors.swap_remove(i);
                }
            }
            6 => {
                // Decoding what is left gives what is missing.
                c.op("decode the rest");
                let cur = &cursors[i];
                let rest = cur.it.not_yet_decoded();
                let d2 = decode_whatwg_bytes(rest);
                let mut all = cur.yielded.clone();
                all.extend_from_slice(&no_panic("into_bytes", || d2.into_bytes())?);
                ensure_eq!(all, pct::decode(&whole), "input lost", "cursor {i} over {:?}: yielded and the rest decoded", String::from_utf8_lossy(&whole));
                collected(c, &d2, &whole[cur.at..])?;
            }
            _ => {
                c.op("collect");
                collected(c, &d, &whole)?;
            }
        }
        // The others have not moved.
        for (j, cur) in cursors.iter().enumerate() {
            ensure_eq!(cur.it.not_yet_decoded(), &whole[cur.at..], "cursor disturbed", "cursor {j} over {:?}", String::from_utf8_lossy(&whole));
        }
    }
    for (i, cur) in cursors.iter_mut().enumerate() {
        let mut left = whole.len() + 1;
        while step(c, i, &whole, cur)? {
            ensure!(left > 0, "endless cursor", "cursor {i} over {:?}", String::from_utf8_lossy(&whole));
            left -= 1;
        }
        ensure_eq!(cur.yielded, pct::decode(&whole), "wrong bytes", "fragments of cursor {i} over {:?}", String::from_utf8_lossy(&whole));
        ensure!(!step(c, i, &whole, cur)?, "exhausted cursor goes on", "cursor {i}");
        let hint = cur.it.size_hint();
        ensure!(hint.0 == 0, "wrong size hint", "exhausted cursor promises {hint:?}");
    }
    Ok(())
}

fn variables(c: &mut Ctx) -> Res {
    let text = gt::valid(c);
    let Some(chunks) = t::parse(&text) else { return Ok(()) };
    let Ok(tt) = UriTemplateStr::new(&text) else {
        return vio("valid template refused", format!("{text:?} is a template but was refused"));
    };
    let names = t::names(&chunks);
    c.note(|| format!("variables of {text:?}"));
    let mut cursors: Vec<(UriTemplateVariables, usize)> = vec![(tt.variables(), 0)];
    let n = 2 + c.below(16);
    for _ in 0..n {
        let i = c.below(cursors.len() as u32) as usize;
        if cursors.len() == 5 {
            c.fault("abandoned_cursor");
            cursors.swap_remove(i);
            continue;
        }
        if c.below(4) == 3 {
            c.op("clone variables");
            let x = if c.chance(1, 2) { cursors[i].clone() } else { (tt.variables(), 0) };
            cursors.push(x);
            continue;
        }
        if c.below(4) == 3 {
            c.op("drive variables");
            let (it, at) = &mut cursors[i];
            let left: Vec<&str> = names.iter().skip(*at).map(|s| s.as_str()).collect();
            let k = c.below(4) as usize;
            let way = c.below(6);
            let what = format!("cursor {i} at {at} of {text:?}, way {way} with {k}");
            c.note(|| what.clone());
            match way {
                0 => {
                    let got = no_panic("nth variable", || it.nth(k))?;
                    ensure_eq!(got.map(|v| v.as_str()), left.get(k).copied(), "wrong variable", "{what}: nth");
                    *at = (*at + k + 1).min(names.len());
                }
                1 => {
                    let got: Vec<&str> = no_panic("take variables", || it.by_ref().take(k).map(|v| v.as_str()).collect())?;
                    ensure_eq!(got, &left[..k.min(left.len())], "wrong variable", "{what}: take");
                    *at = (*at + k).min(names.len());
                }
                2 => ensure_eq!(no_panic("count", || it.clone().count())?, left.len(), "wrong variable", "{what}: count"),
                3 => ensure_eq!(
                    no_panic("last", || it.clone().last())?.map(|v| v.as_str()),
                    left.last().copied(),
                    "wrong variable",
                    "{what}: last"
                ),
                4 => {
                    let got: Vec<&str> = no_panic("skip", || it.clone().skip(k).map(|v| v.as_str()).collect())?;
                    ensure_eq!(got, &left[k.min(left.len())..], "wrong variable", "{what}: skip");
                }
                _ => {
                    let got = no_panic("fold", || {
                        it.clone().fold(Vec::new(), |mut v, x| {
                            v.push(x.as_str());
                            v
                        })
                    })?;
                    ensure_eq!(got, left, "wrong variable", "{what}: fold");
                }
            }
            continue;
        }
        c.op("next variable");
        c.shape(i as u64);
        let (it, at) = &mut cursors[i];
        let hint = it.size_hint();
        let left = names.len().saturating_sub(*at);
        ensure!(hint.0 <= left && hint.1.is_none_or(|h| h >= left), "wrong size hint", "{hint:?} with {left} variables left of {text:?}");
        let got = no_panic("next variable", || it.next())?;
        c.note(|| format!("cursor {i} at {at}: {got:?}"));
        ensure_eq!(got.map(|v| v.as_str()), names.get(*at).map(|s| s.as_str()), "wrong variable", "cursor {i} at {at} of {text:?}");
        *at = (*at + 1).min(names.len());
    }
    for (i, (it, at)) in cursors.into_iter().enumerate() {
        let rest: Vec<&str> = no_panic("collect variables", || it.map(|v| v.as_str()).collect())?;
        let expected: Vec<&str> = names.iter().skip(at).map(|s| s.as_str()).collect();
        ensure_eq!(rest, expected, "wrong variable", "rest of cursor {i} at {at} of {text:?}");
    }
    Ok(())
}
