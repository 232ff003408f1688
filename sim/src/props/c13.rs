//! C13: the simple context is a map, and expansions see its last state.

use crate::ctx::{guarded, no_panic, vio, Ctx, Res};
use crate::env::sink::{Plan, Sink};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::template::{self as t, Value};
use crate::{ensure, ensure_eq};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::VarName;
use iri_string::template::simple_context::{SimpleContext, Value as SValue};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use std::collections::BTreeMap;

type Map = BTreeMap<String, Value>;

const KEYS: &[&str] = &[
    "a", "b", "v", "x.y", "A_1", "%41", "A", "n%e3%81%82.b", "n%E3%81%82.b", "0", "_", "list", "a.b.c", "%ff", // valid
    "", ".", "a.", ".a", "a..b", "a-b", "%", "%4", "%zz", "a b", "é", "a*", "a:3", "+a", "{a}", "a,b", "a\0", "A\n",
];

pub fn run(c: &mut Ctx) -> Res {
    if c.below(2) == 0 {
        go::<UriSpec>(c)
    } else {
        go::<IriSpec>(c)
    }
}

fn value(c: &mut Ctx) -> Value {
    match c.below(8) {
        0..=3 => Value::Str(gt::value_text(c)),
        4 => Value::Undef,
        5 | 6 => {
            let n = c.below(4);
            Value::List((0..n).map(|_| gt::value_text(c)).collect())
        }
        _ => {
            let n = c.below(4);
            Value::Assoc((0..n).map(|_| (gt::value_text(c), gt::value_text(c))).collect())
        }
    }
}
fn real(v: &Value) -> SValue {
    match v.clone() {
        Value::Undef => SValue::Undefined,
        Value::Str(s) => SValue::String(s),
        Value::List(l) => SValue::List(l),
        Value::Assoc(l) => SValue::Assoc(l),
    }
}
fn model(v: &SValue) -> Value {
    match v.clone() {
        SValue::Undefined => Value::Undef,
        SValue::String(s) => Value::Str(s),
        SValue::List(l) => Value::List(l),
        SValue::Assoc(l) => Value::Assoc(l),
    }
}
fn key(c: &mut Ctx) -> String {
    match c.below(10) {
        // Close to another one.
        9 => {
            let mut k = c.pick(KEYS).to_string();
            match c.below(5) {
                0 => k.make_ascii_uppercase(),
                1 => k.make_ascii_lowercase(),
                2 => {
                    k.pop();
                }
                3 => k.push(*c.pick(&['a', '0', '_', '.'])),
                _ => k = k.repeat(1 + c.below(100) as usize),
            }
            k
        }
        8 => format!("k{}", c.below(90)),
        7 => {
            let mut k = c.pick(KEYS).to_string();
            k.push_str(*c.pick(KEYS));
            k
        }
        _ => c.pick(KEYS).to_string(),
    }
}

fn lookup(c: &mut Ctx, who: &str, ctx: &SimpleContext, m: &Map) -> Res {
    let k = key(c);
    c.note(|| format!("{who}: get {k:?}"));
    match no_panic("VarName::new", || VarName::new(&k))? {
        Ok(n) => {
            ensure!(t::varname_ok(&k), "invalid name accepted", "{k:?} as a variable name");
            ensure_eq!(n.as_str(), k.as_str(), "wrong name", "variable name");
            let got = no_panic("get", || ctx.get(n).map(model))?;
            ensure_eq!(got.as_ref(), m.get(&k), "wrong lookup", "{who}: {k:?}");
        }
        Err(_) => ensure!(!t::varname_ok(&k), "valid name refused", "{k:?} as a variable name"),
    }
    Ok(())
}

/// A template which lives as long as the history: contexts change between its
/// expansions.
struct Kept {
    real: UriTemplateString,
    model: Vec<t::Chunk>,
}

fn keep(c: &mut Ctx, kept: &mut Vec<Kept>) -> Res<usize> {
    if !kept.is_empty() && (kept.len() == 3 || c.chance(1, 2)) {
        return Ok(c.below(kept.len() as u32) as usize);
    }
    let text = gt::valid(c);
    let model = t::parse(&text).expect("harness: generated an invalid template");
    let Ok(real) = UriTemplateString::try_from(text.as_str()) else {
        return vio("valid template refused", format!("{text:?} is a template but was refused"));
    };
    kept.push(Kept { real, model });
    Ok(kept.len() - 1)
}

fn expand<S: Sp>(c: &mut Ctx, who: &str, kept: &mut Vec<Kept>, ctx: &SimpleContext, m: &Map) -> Res {
    let i = keep(c, kept)?;
    let (tt, chunks): (&UriTemplateStr, _) = (kept[i].real.as_ref(), &kept[i].model);
    let text = tt.as_str();
    c.note(|| format!("{who}: expand {text:?}"));
    let expected = t::expand(S::IRI, chunks, &mut |n| m.get(n).cloned().unwrap_or(Value::Undef)).map_err(|_| ());
    let mut by = ctx.clone();
    let dynamic = c.chance(1, 3);
    let got = no_panic("expand", || {
        if dynamic {
            tt.expand_dynamic_to_string::<S, _>(&mut by)
        } else {
            tt.expand::<S, _>(ctx).map(|e| {
                let (a, b) = (e.to_string(), e.to_string());
                assert_eq!(a, b, "two outputs of one expansion");
                a
            })
        }
    })?
    .map_err(|_| ());
    ensure_eq!(got, expected, "wrong expansion", "{who}: {text:?} with {m:?}");
    Ok(())
}

fn go<S: Sp>(c: &mut Ctx) -> Res {
    let mut all: Vec<(SimpleContext, Map)> = vec![(SimpleContext::new(), Map::new())];
    let mut kept: Vec<Kept> = Vec::new();
    let n = 2 + c.below(14);
    for _ in 0..n {
        let i = c.below(all.len() as u32) as usize;
        let who = format!("context {i}");
        match c.below(17) {
            16 if c.chance(1, 8) => {
                // Many names at once.
                let (ctx, m) = &mut all[i];
                let (from, n) = (c.below(40), 5 + c.below(50));
                c.op("insert many");
                c.note(|| format!("{who}: insert k{from}.. ({n} names)"));
                for x in from..from + n {
                    let (k, v) = (format!("k{x}"), format!("{x}"));
                    let old = no_panic("insert", || ctx.insert(k.as_str(), v.as_str()))?;
                    let expected = m.insert(k.clone(), Value::Str(v));
                    ensure_eq!(old.as_ref().map(model), expected, "wrong replaced value", "{who}: insert {k:?}");
                }
            }
            0..=7 | 16 => {
                let mut k = key(c);
                if !kept.is_empty() && c.chance(1, 3) {
                    // A name that a template in use asks for.
                    let i = c.below(kept.len() as u32) as usize;
                    let names = t::names(&kept[i].model);
                    if !names.is_empty() {
                        k = c.pick(&names).clone();
                    }
                }
                let v = value(c);
                let (ctx, m) = &mut all[i];
                c.op("insert");
                c.note(|| format!("{who}: insert {k:?} = {v:?}"));
                let how = c.below(3);
                let old = no_panic("insert", || match &v {
                    Value::Str(s) if how == 1 => ctx.insert(k.as_str(), s.as_str()),
                    Value::Str(s) if how == 2 => ctx.insert(k.clone(), s.clone()),
                    _ => ctx.insert(k.as_str(), real(&v)),
                })?;
                let ok = t::varname_ok(&k);
                let expected = if !ok {
                    c.fault("invalid_name");
                    None
                } else if v == Value::Undef {
                    m.remove(&k)
                } else {
                    m.insert(k.clone(), v.clone())
                };
                c.shape((ok as u64) << 1 | expected.is_some() as u64);
                ensure_eq!(old.as_ref().map(model), expected, "wrong replaced value", "{who}: insert {k:?} = {v:?}");
            }
            8 | 9 => {
                c.op("lookup");
                for _ in 0..1 + c.below(3) {
                    lookup(c, &who, &all[i].0, &all[i].1)?;
                }
            }
            10..=12 => {
                c.op("expand");
                expand::<S>(c, &who, &mut kept, &all[i].0, &all[i].1)?;
            }
            13 if c.chance(1, 2) => {
                // An expansion that breaks off leaves the context as it was.
                let text = gt::valid(c);
                let Ok(tt) = UriTemplateStr::new(&text) else { return vio("valid template refused", text) };
                let plan = Plan::draw(&mut c.src, 30);
                c.op("broken expansion");
                c.note(|| format!("{who}: expand {text:?} into {plan:?}"));
                let mut s = Sink::new(plan);
                let ctx = &mut all[i].0;
                let _ = guarded("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut s, ctx).is_ok())?;
                c.sink_done(&s);
            }
            13 => {
                c.op("clear");
                c.note(|| format!("{who}: clear"));
                all[i].0.clear();
                all[i].1.clear();
            }
            14 => {
                if all.len() < 4 {
                    c.op("clone");
                    c.note(|| format!("{who}: clone into context {}", all.len()));
                    let x = no_panic("clone", || all[i].clone())?;
                    all.push(x);
                }
            }
            _ => {
                if all.len() > 1 {
                    c.op("drop");
                    c.note(|| format!("{who}: drop; the last one takes its number"));
                    all.swap_remove(i);
                }
            }
        }
        // Every context still reflects its own history.
        let j = c.below(all.len() as u32) as usize;
        lookup(c, &format!("context {j}"), &all[j].0, &all[j].1)?;
    }
    for j in 0..all.len() {
        expand::<S>(c, &format!("context {j}"), &mut kept, &all[j].0, &all[j].1)?;
        // Every name used anywhere, and its look-alikes.
        let mut names: Vec<String> = KEYS.iter().map(|k| k.to_string()).collect();
        for (_, m) in &all {
            names.extend(m.keys().cloned());
        }
        let n = names.len();
        for i in 0..n {
            names.push(names[i].to_ascii_lowercase());
            names.push(names[i].to_ascii_uppercase());
        }
        for k in &names {
            let Ok(n) = VarName::new(k) else { continue };
            let got = all[j].0.get(n).map(model);
            ensure_eq!(got.as_ref(), all[j].1.get(k), "wrong lookup", "context {j}: {k:?} at the end");
        }
    }
    Ok(())
}
