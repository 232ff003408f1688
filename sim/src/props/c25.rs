//! C25: every operation ends, in bounded steps and on a bounded stack.
//!
//! Work is counted where the library meets its environment: writes into the sink, renderings
//! of a value it was given, requests to a context, items of an iterator. The stack is measured
//! at these points; besides, long inputs are worked on in a thread with a small stack, where
//! recursion over the input ends the process. An operation without an end meets the watchdog.

use crate::ctx::{guarded, no_panic, panic_violation, vio, Ctx, HarnessBug, Outcome, Res};
use crate::env::context::{CVal, SimContext};
use crate::env::value::{End, Val};
use crate::env::{injected_panic, InjectedPanic};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::pct::{Comp, COMPS};
use crate::model::template;
use crate::{ensure, render};
use iri_string::build::Builder;
use iri_string::format::ToDedicatedString;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, ListVisitor, Visitor};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use iri_string::validate;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Display, Write};
use std::hash::{Hash, Hasher};
use std::ops::ControlFlow;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Stack between the call and a callback, and of the thread for long inputs.
const DEPTH: usize = 48 << 10;
const STACK: usize = 192 << 10;

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

/// What an operation did to its environment.
struct Meter {
    top: usize,
    low: Cell<usize>,
    writes: Cell<u64>,
    bytes: Cell<u64>,
    renders: Cell<u64>,
    visits: Cell<u64>,
    /// No operation may get here: it ends the operation instead of waiting for the watchdog.
    limit: u64,
}
impl Meter {
    fn new() -> Meter {
        let z = || Cell::new(0);
        Meter { top: here(), low: Cell::new(usize::MAX), writes: z(), bytes: z(), renders: z(), visits: z(), limit: 50_000_000 }
    }
    fn mark(&self) {
        self.low.set(self.low.get().min(here()));
    }
    fn depth(&self) -> usize {
        self.top.saturating_sub(self.low.get())
    }
    fn count(&self, n: &Cell<u64>) {
        self.mark();
        n.set(n.get() + 1);
        if n.get() > self.limit {
            injected_panic();
        }
    }
}

/// When the device fails.
#[derive(Clone, Copy, Debug)]
enum Plan {
    Good,
    /// At this write, and at all later ones.
    At(u64),
    /// At this write only.
    Once(u64),
    /// When this many bytes are there.
    Full(u64),
}
struct Device<'a> {
    m: &'a Meter,
    plan: Plan,
    failed: bool,
}
impl Write for Device<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let i = self.m.writes.get();
        self.m.count(&self.m.writes);
        self.m.bytes.set(self.m.bytes.get() + s.len() as u64);
        let bad = match self.plan {
            Plan::Good => false,
            Plan::At(n) => i >= n,
            Plan::Once(n) => i == n,
            Plan::Full(n) => self.m.bytes.get() > n,
        };
        if bad {
            self.failed = true;
            return Err(fmt::Error);
        }
        Ok(())
    }
}

/// A value that knows how often it is asked for its text.
#[derive(Clone, Copy)]
struct Metered<'a>(&'a Val, &'a Meter);
impl Display for Metered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.1.count(&self.1.renders);
        self.0.fmt(f)
    }
}
struct MeteredContext<'a>(&'a SimContext, &'a Meter);
impl MeteredContext<'_> {
    fn deliver<V: Visitor>(&self, v: V) -> V::Result {
        let m = self.1;
        m.count(&m.visits);
        let val = self.0.get(v.var_name().as_str());
        match val {
            CVal::Undef => v.visit_undefined(),
            CVal::Str(s) => v.visit_string(Metered(s, m)),
            CVal::List(l) => {
                let mut lv = v.visit_list();
                for x in l {
                    if let ControlFlow::Break(r) = lv.visit_item(Metered(x, m)) {
                        return r;
                    }
                }
                lv.finish()
            }
            CVal::Assoc(l) => {
                let mut av = v.visit_assoc();
                for (k, x) in l {
                    if let ControlFlow::Break(r) = av.visit_entry(Metered(k, m), Metered(x, m)) {
                        return r;
                    }
                }
                av.finish()
            }
        }
    }
}
impl Context for MeteredContext<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        self.deliver(v)
    }
}
/// The bounds for an operation on so many bytes, values and variables.
#[derive(Clone, Copy, Default)]
struct Size {
    bytes: usize,
    /// Values or items (keys and values are two), with one for each time a variable occurs.
    values: usize,
    vars: usize,
}

fn bounds(c: &mut Ctx, what: &dyn Fn() -> String, m: &Meter, z: Size) -> Res {
    let all = z.bytes as u64 + m.bytes.get();
    c.steps += m.writes.get() + m.renders.get() + m.visits.get();
    ensure!(
        m.writes.get() <= 8 * all + 16 * (z.values + z.vars) as u64 + 64,
        "too many writes",
        "{} for {all} bytes by {}",
        m.writes.get(),
        what()
    );
    ensure!(m.renders.get() <= 8 * z.values as u64, "too many renderings", "{} of {} values by {}", m.renders.get(), z.values, what());
    ensure!(m.visits.get() <= 8 * z.vars as u64, "too many requests", "{} for {} variables by {}", m.visits.get(), z.vars, what());
    ensure!(m.low.get() == usize::MAX || m.depth() <= DEPTH, "stack grows", "{} bytes deep for {all} bytes by {}", m.depth(), what());
    match m.depth() {
        _ if m.low.get() == usize::MAX => {}
        0..=2047 => c.probe("stack_2k"),
        2048..=4095 => c.probe("stack_4k"),
        4096..=8191 => c.probe("stack_8k"),
        _ => c.probe("stack_more"),
    }
    Ok(())
}

/// Runs an operation on a device: well, then with a fault, then well again.
fn metered(
    c: &mut Ctx,
    what: &dyn Fn() -> String,
    z: Size,
    breaks: bool,
    op: &mut dyn FnMut(&Meter, &mut Device) -> Result<(), ()>,
) -> Res {
    let mut attempt = |c: &mut Ctx, plan: Plan| -> Res<(u64, u64)> {
        let m = Meter::new();
        let mut d = Device { m: &m, plan, failed: false };
        let r = guarded("rendering", || op(&m, &mut d))?;
        let failed = d.failed;
        c.note(|| format!("{} with {plan:?}: {r:?}, {} writes, {} deep", what(), m.writes.get(), m.depth()));
        match r {
            Outcome::Injected => return vio("no end", format!("{} on {plan:?}: {} writes and more", what(), m.writes.get())),
            Outcome::Done(Err(())) => ensure!(failed || breaks, "no progress", "{} failed on {plan:?} without a cause", what()),
            Outcome::Done(Ok(())) => {}
        }
        if failed {
            c.fault(match plan {
                Plan::Good => unreachable!(),
                Plan::At(_) => "sink_fail_at_write",
                Plan::Once(_) => "sink_transient_error",
                Plan::Full(_) => "sink_full",
            });
            c.shape(m.writes.get());
        }
        bounds(c, what, &m, z)?;
        Ok((m.writes.get(), m.bytes.get()))
    };
    let (writes, bytes) = attempt(c, Plan::Good)?;
    let plan = match c.below(4) {
        0 => return Ok(()),
        1 => Plan::At(c.below(writes.min(1 << 20) as u32 + 1) as u64),
        2 => Plan::Once(c.below(writes.min(1 << 20) as u32 + 1) as u64),
        _ => Plan::Full(c.below(bytes.min(1 << 20) as u32 + 1) as u64),
    };
    attempt(c, plan)?;
    // The fault is gone.
    attempt(c, Plan::Good)?;
    Ok(())
}

fn display(c: &mut Ctx, what: &dyn Fn() -> String, bytes: usize, t: &dyn Display) -> Res {
    metered(c, what, Size { bytes, ..Size::default() }, false, &mut |_, d| write!(d, "{t}").map_err(|_| ()))
}

/// A few bytes of a text for the log.
fn brief(s: &str) -> String {
    let mut n = s.len().min(60);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{:?} ({} bytes)", &s[..n], s.len())
}

pub fn run(c: &mut Ctx) -> Res {
    match c.below(16) {
        0..=7 => {
            let mut f = |c: &mut Ctx, i: &render::Item| {
                // The text of what goes in is part of `what`.
                display(c, &|| format!("{} {}", i.name, brief(&i.what)), i.what.len() + 256, i.text)
            };
            render::any(c, &mut f)
        }
        8..=10 => templates(c, false),
        11..=12 => encode(c, false),
        _ => small_stack(c, long),
    }
}

fn small_stack(c: &mut Ctx, f: fn(&mut Ctx) -> Res) -> Res {
    c.probe("small_stack");
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || match catch_unwind(AssertUnwindSafe(|| f(c))) {
                Ok(r) => r,
                Err(e) if e.is::<InjectedPanic>() || e.is::<HarnessBug>() => resume_unwind(e),
                Err(e) => Err(panic_violation("C25", e)),
            })
            .expect("harness: no thread")
            .join()
    });
    r.unwrap_or_else(|e| resume_unwind(e))
}

/// A long text of a few parts, each of them a short one many times.
fn repeated(c: &mut Ctx, units: &[&str], max: usize) -> String {
    let mut s = String::new();
    let runs = 1 + c.below(3);
    for _ in 0..runs {
        let u = *c.pick(units);
        let n = 1usize << c.below(18);
        let n = n + c.below(3) as usize;
        for _ in 0..n {
            if s.len() + u.len() > max {
                return s;
            }
            s.push_str(u);
        }
    }
    s
}

fn long(c: &mut Ctx) -> Res {
    match c.below(8) {
        0 | 1 | 2 => {
            if c.below(2) == 0 {
                identifiers::<UriSpec>(c)
            } else {
                identifiers::<IriSpec>(c)
            }
        }
        3 | 4 => templates(c, true),
        5 => encode(c, true),
        6 => decode(c),
        _ => hostile(c),
    }
}

const PLAIN: [&str; 12] = ["a", "A", "%41", "%c3%a9", "%C3", "-", ";", "%2f", "~", "%e3%81%82", "!", "%00"];
const NONASCII: [&str; 3] = ["é", "\u{3042}", "\u{10000}"];
const HOSTS: [&str; 8] = ["a.", "A", "1.", "255", "%41", "x-", "%e3%81%82", "0"];
const PATHS: [&str; 12] = ["/a", "/", "//", "/%41", "/..", "/.", "/%2E", "/a/..", "/b/", "/a:b", "/%2e%2E", "/.a"];

fn identifiers<S: Sp>(c: &mut Ctx) -> Res {
    let mut units = PLAIN.to_vec();
    if S::IRI {
        units.extend(NONASCII);
    }
    let max = 40_000;
    let mut s = String::new();
    let lengthy = c.below(7);
    // Dot segments behind many segments take quadratic time; not what is looked for here.
    let cap = 3000;
    if c.chance(5, 6) {
        s.push_str(&if lengthy == 0 { format!("a{}", repeated(c, &["b", "C", "+", "1"], max)) } else { "scheme".into() });
        s.push(':');
    }
    let authority = c.chance(2, 3);
    if authority {
        s.push_str("//");
        if lengthy == 1 {
            s.push_str(&repeated(c, &units, max));
            if c.chance(1, 2) {
                s.push(':');
                s.push_str(&repeated(c, &units, max));
            }
            s.push('@');
        } else if c.chance(1, 4) {
            s.push_str("user:pw@");
        }
        s.push_str(&if lengthy == 2 { repeated(c, &HOSTS, max) } else { "host".into() });
        if lengthy == 3 {
            s.push(':');
            s.push_str(&repeated(c, &["0", "8"], max));
        }
    }
    let mut path = match lengthy {
        4 => repeated(c, &PATHS, cap),
        5 => format!("/{}", repeated(c, &["a/", "b", "/", "%41", "B/c/"], max)),
        _ => String::from(if c.chance(1, 2) { "/a/../b" } else { "" }),
    };
    if !authority && path.starts_with("//") {
        path.insert_str(0, "/x");
    }
    s.push_str(&path);
    if c.chance(1, 2) {
        s.push('?');
        s.push_str(&repeated(c, &units, if lengthy == 6 { max } else { 5 }));
    }
    if c.chance(1, 2) {
        s.push('#');
        s.push_str(&repeated(c, &units, if lengthy == 6 { max } else { 5 }));
    }
    let n = s.len();
    c.op("long_identifier");
    c.shape(n as u64);
    let what = |op: &'static str| {
        let s = &s;
        move || format!("{op} of {}", brief(s))
    };
    let Ok(r) = no_panic("parsing", || RiReferenceStr::<S>::new(&s))? else {
        c.probe("long_refused");
        return Ok(());
    };
    c.probe("long_accepted");
    no_panic("getters", || {
        let a = r.authority_components().map(|a| (a.host().len(), a.port().map(str::len), a.userinfo().map(str::len)));
        (r.scheme_str().map(str::len), a, r.path_str().len(), r.query_str().map(str::len), r.fragment().map(|f| f.len()))
    })?;
    no_panic("comparison", || {
        let mut h = DefaultHasher::new();
        r.hash(&mut h);
        (h.finish(), *r == *s.as_str(), r.cmp(r))
    })?;
    display(c, &what("Debug"), n, &format_args!("{r:?}"))?;
    display(c, &what("masking"), n, &r.mask_password())?;
    display(c, &what("replacing the password"), n, &r.mask_password().replace_password("x"))?;
    if S::IRI {
        if let Ok(i) = IriReferenceStr::new(&s) {
            display(c, &what("mapping to URI"), n, &i.encode_to_uri())?;
            let mut o = i.to_owned();
            no_panic("mapping in place", || o.encode_to_uri_inline())?;
        }
    }
    let base = if c.chance(1, 4) { format!("b://h/{}", repeated(c, &["p/", "q", "/"], 3000)) } else { "b://h/p/q?r".into() };
    let Ok(b) = RiAbsoluteStr::<S>::new(&base) else { return vio("valid text refused", brief(&base)) };
    let resolver = FixedBaseResolver::new(b);
    let z = n + base.len();
    display(c, &what("resolution"), z, &resolver.resolve(r))?;
    display(c, &what("resolution and normalization"), z, &resolver.resolve(r).and_normalize())?;
    no_panic("resolution", || resolver.resolve(r).ensure_rfc3986_normalizable().is_ok())?;
    if let Ok(i) = RiStr::<S>::new(&s) {
        display(c, &what("normalization"), n, &i.normalize())?;
        display(c, &what("normalization, paths preserved"), n, &i.normalize_but_preserve_authorityless_relative_path())?;
        no_panic("normalization checks", || {
            (i.is_normalized(), i.is_normalized_rfc3986(), i.is_normalized_but_authorityless_relative_path_preserved(), i.ensure_rfc3986_normalizable().is_ok())
        })?;
        let t = no_panic("normalization", || i.normalize().to_dedicated_string())?;
        ensure!(no_panic("check", || t.is_normalized())?, "no progress", "normalization of {} gave what is not normalized", brief(&s));
        no_panic("conversions", || {
            let mut o = i.to_owned();
            o.set_fragment(None);
            o.remove_password_inline();
            o.remove_nonempty_password_inline();
            o.into_absolute_and_fragment()
        })?;
    }
    // And out of its parts again.
    let mut bld = Builder::from(r);
    if c.chance(1, 2) {
        bld.normalize();
    }
    if let Outcome::Done(Ok(t)) = guarded("building", || bld.build::<RiReferenceStr<S>>())? {
        display(c, &what("building"), n, &t)?;
    }
    Ok(())
}

/// Texts which are mostly not well-formed, at any length.
fn hostile(c: &mut Ctx) -> Res {
    const UNITS: [&str; 30] = [
        "[", "]", ":", "::", "1:", "@", "/", "?", "#", "%", "%4", "%zz", "1.", ".", "..", "/..", "v1.", "a", "0", "{", "}", "{a}", "{a,",
        ",", "*", ":9", "\u{e000}", "é", " ", "\0",
    ];
    let mut s = String::new();
    for _ in 0..1 + c.below(3) {
        if c.chance(1, 3) {
            s.push_str(*c.pick(&["s:", "//", "s://", "s://[", "a@", "{", "http://a/"]));
        }
        s.push_str(&repeated(c, &UNITS, 60_000));
    }
    c.op("hostile_text");
    c.shape(s.len() as u64);
    no_panic("validation", || {
        macro_rules! all {
            ($($f:ident)*) => {$(
                let _ = (validate::$f::<UriSpec>(&s).is_ok(), validate::$f::<IriSpec>(&s).is_ok());
            )*};
        }
        all!(iri iri_reference absolute_iri relative_ref path path_segment query fragment authority host userinfo reg_name);
        (validate::scheme(&s).is_ok(), validate::port(&s).is_ok())
    })?;
    no_panic("owned parsing", || (IriString::try_from(s.clone()).is_ok(), UriReferenceString::try_from(s.as_bytes()).is_ok()))?;
    no_panic("template", || UriTemplateString::try_from(s.clone()).map(|t| t.variables().count()).ok())?;
    let mut b = Builder::new();
    b.scheme("s");
    match c.below(5) {
        0 => b.host(&s),
        1 => b.path(&s),
        2 => b.userinfo(s.as_str()),
        3 => b.port(s.as_str()),
        _ => b.query(&s),
    }
    if let Outcome::Done(Ok(t)) = guarded("building", || b.build::<IriStr>())? {
        c.probe("hostile_built");
        display(c, &|| format!("building of {}", brief(&s)), s.len(), &t)?;
    }
    Ok(())
}

fn decode(c: &mut Ctx) -> Res {
    let s = repeated(c, &["%41", "%", "a", "%4", "%ff", "é", "%zz", "%%", "xyz"], 50_000);
    c.op("long_decoding");
    c.shape(s.len() as u64);
    let d = decode_whatwg_bytes(s.as_bytes());
    let got = no_panic("decoding", || d.into_bytes().len())?;
    ensure!(got <= s.len(), "too much", "{got} bytes from {}", brief(&s));
    let _ = no_panic("decoding", || d.into_string().is_ok())?;
    let _ = no_panic("decoding", || d.to_bytes().map(<[u8]>::len))?;
    let mut i = d.bytes_fragments();
    let mut left = s.len();
    let mut items = 0;
    while let Some(_f) = no_panic("decoding", || i.next())? {
        let now = i.not_yet_decoded().len();
        ensure!(now < left, "no progress", "an item of {} left {now} bytes of {left}", brief(&s));
        left = now;
        items += 1;
    }
    c.steps += items;
    ensure!(left == 0, "no progress", "{left} bytes of {} were left", brief(&s));
    Ok(())
}

fn encode(c: &mut Ctx, big: bool) -> Res {
    let mut v = if big {
        let s = repeated(c, &["a", " ", "é", "%41", "%", "\u{10ffff}", "/"], 30_000);
        match c.below(3) {
            0 => Val::whole(&s),
            1 => Val { pieces: s.chars().map(String::from).collect(), how: vec![0; s.chars().count()], end: End::Ok },
            _ => Val { pieces: vec![s], how: vec![2], end: End::Ok },
        }
    } else {
        gt::val(c)
    };
    let breaks = c.chance(1, 5);
    if breaks {
        v.end = End::Fail;
        c.fault("value_error");
    }
    c.op("encoding");
    let text = v.text();
    for comp in COMPS {
        if c.chance(1, 2) {
            continue;
        }
        let z = Size { bytes: 12 * text.len() + v.pieces.len(), values: 1, vars: 0 };
        let what = || format!("encoding {comp:?} of {}", brief(&text));
        metered(c, &what, z, breaks, &mut |m, d| {
            let v = Metered(&v, m);
            macro_rules! go {
                ($f:ident) => {
                    write!(d, "{}", PercentEncoded::<_, IriSpec>::$f(v)).map_err(|_| ())
                };
            }
            match comp {
                Comp::RegName => go!(from_reg_name),
                Comp::User => go!(from_user),
                Comp::Password => go!(from_password),
                Comp::PathSegment => go!(from_path_segment),
                Comp::Path => go!(from_path),
                Comp::Query => go!(from_query),
                Comp::Fragment => go!(from_fragment),
                Comp::Unreserve => go!(unreserve),
                Comp::Characters => go!(characters),
            }
        })?;
    }
    Ok(())
}

fn templates(c: &mut Ctx, big: bool) -> Res {
    let text = if big {
        let mut s = String::new();
        for _ in 0..1 + c.below(3) {
            match c.below(3) {
                0 => s.push_str(&repeated(c, &["a", "/", "%41", "é", "?"], 30_000)),
                1 => s.push_str(&repeated(c, &["{a}", "{?a,b}", "{/c*}", "x{+b:3}", "{;d*}"], 4000)),
                _ => {
                    s.push('{');
                    if c.chance(1, 2) {
                        s.push_str(*c.pick(&["+", "#", ".", "/", ";", "?", "&"]));
                    }
                    s.push_str(&repeated(c, &["a,", "b:12,", "c*,", "d.e,", "%41,"], 4000));
                    s.push_str(&repeated(c, &["z", "_", ".y"], 4000));
                    s.push_str("z}");
                }
            }
        }
        s
    } else {
        gt::valid(c)
    };
    let Ok(t) = no_panic("template", || UriTemplateStr::new(&text))? else {
        // Such as a period where none may be.
        return Ok(());
    };
    c.op("template");
    c.shape(text.len() as u64);
    let ctx = if big {
        let long = |c: &mut Ctx, max: usize| {
            let s = repeated(c, &["v", " ", "é", "%41", "%", "%e3%81%82"], max);
            if c.chance(1, 4) {
                Val { pieces: s.chars().map(String::from).collect(), how: vec![0; s.chars().count()], end: End::Ok }
            } else {
                Val::whole(&s)
            }
        };
        let few = text.len() < 200;
        let max = if few { 20_000 } else { 20 };
        let items = if few { 1u32 << c.below(12) } else { c.below(4) };
        let (a, b) = (long(c, max), long(c, max));
        let item = long(c, 10);
        SimContext::new(
            vec![
                ("a".into(), CVal::Str(a)),
                ("b".into(), CVal::Str(b)),
                ("c".into(), CVal::List(vec![item.clone(); items as usize])),
                ("d".into(), CVal::Assoc(vec![(item.clone(), item); items as usize])),
            ],
            0,
        )
    } else {
        let chunks = template::parse(&text).unwrap_or_default();
        gt::context_for(c, &chunks)
    };
    let names: Vec<String> = no_panic("listing", || t.variables().take(text.len() + 2).map(|v| v.as_str().to_string()).collect())?;
    ensure!(names.len() <= text.len(), "no end", "{} variables and more in {}", names.len(), brief(&text));
    let mut z = Size { bytes: text.len(), values: 0, vars: names.len() };
    let mut breaks = false;
    let size = |v: &Val| 12 * v.pieces.iter().map(|p| p.len() + 1).sum::<usize>();
    for n in &names {
        z.bytes += n.len();
        let mut add = |v: &Val| {
            z.values += 1;
            z.bytes += size(v) + n.len() + 4;
            breaks |= v.end != End::Ok;
        };
        match ctx.get(n) {
            CVal::Undef => {}
            CVal::Str(v) => add(v),
            CVal::List(l) => l.iter().for_each(add),
            CVal::Assoc(l) => l.iter().for_each(|(k, v)| {
                add(k);
                add(v)
            }),
        }
    }
    // A first look for the type may take one item.
    z.values += z.vars;
    if z.bytes > 3_000_000 || names.len() > 3000 && ctx.vars.len() > 40 {
        return Ok(());
    }
    let mut panics = false;
    for (_, v) in &ctx.vars {
        v.clone().vals_mut().iter().for_each(|v| panics |= v.end == End::Panic);
    }
    if panics {
        return Ok(());
    }
    let what = || format!("expansion of {}", brief(&text));
    // Made first, so that a refusal is no failure to go on.
    let m = Meter::new();
    let accepted = no_panic("type check", || t.expand::<IriSpec, _>(&MeteredContext(&ctx, &m)).is_ok())?;
    bounds(c, &what, &m, z)?;
    if !accepted {
        c.probe("expansion_refused");
    }
    metered(c, &what, z, breaks || !accepted, &mut |m, d| {
        let ctx = MeteredContext(&ctx, m);
        let e = t.expand::<IriSpec, _>(&ctx).map_err(|_| ())?;
        write!(d, "{e}").map_err(|_| ())
    })?;
    metered(c, &what, z, breaks || !accepted, &mut |m, d| {
        let mut ctx = MeteredContext(&ctx, m);
        t.expand_dynamic::<UriSpec, _, _>(d, &mut ctx).map_err(|_| ())
    })
}
