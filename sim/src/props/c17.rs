//! C17: shared values behave the same under any interleaving and re-entrant use.
//!
//! A run makes a pool of operations over shared objects (the same resolver, rendered
//! object, template or context serves several operations), notes what each gives alone,
//! and then lets several tasks perform them, switching tasks at writes, value pieces and
//! callbacks, and entering the library again from inside those.

use crate::ctx::{guarded, Ctx, Outcome, Res, Violation};
use crate::ensure_eq;
use crate::env::context::{CVal, DynContext, SimContext};
use crate::env::sched;
use crate::env::sink::{Plan, Sink};
use crate::env::value::{End, Val};
use crate::gen::{self, Swarm};
use crate::gen_template as gt;
use crate::kinds::{Own, Sp};
use crate::model::grammar::{self as g, Kind};
use crate::model::pct;
use crate::render::{self, Item};
use crate::rng::Source;
use iri_string::format::ToDedicatedString;
use iri_string::normalize::Normalized;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::{Expanded, UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::cell::RefCell;
use std::fmt::{self, Write};

pub fn run(c: &mut Ctx) -> Res {
    if c.chance(1, 6) {
        return super::reuse::run(c);
    }
    let n = c.below(3);
    gather(c, n, None)
}

struct Node<'a> {
    item: &'a Item<'a>,
    next: Option<&'a Node<'a>>,
}

fn gather(c: &mut Ctx, n: u32, list: Option<&Node>) -> Res {
    if n > 0 {
        return render::any(c, &mut |c, it| gather(c, n - 1, Some(&Node { item: it, next: list })));
    }
    if c.below(2) == 0 {
        pool::<UriSpec>(c, list)
    } else {
        pool::<IriSpec>(c, list)
    }
}

type Op<'a> = (String, Box<dyn Fn(&mut Sink) -> fmt::Result + 'a>);

fn pool<S: Sp>(c: &mut Ctx, list: Option<&Node>) -> Res {
    let sw = Swarm::draw(c);
    // The shared objects.
    let ids: Vec<Own<S>> = (0..2 + c.below(2))
        .filter_map(|_| {
            let kind = *c.pick(&g::KINDS);
            let s = gen::ident(c, sw, S::IRI, kind);
            Own::<S>::new(kind, &s)
        })
        .collect();
    let base_text = gen::ident(c, sw, S::IRI, Kind::Abs);
    let Ok(base) = RiAbsoluteStr::<S>::new(&base_text) else { return Ok(()) };
    let resolver = FixedBaseResolver::new(base);
    let resolved: Vec<Normalized<RiStr<S>>> = ids.iter().map(|i| render::switch::<S, _>(c, resolver.resolve(i.as_ref_str())).0).collect();
    let mut ctx = gt::context(c);
    if c.chance(1, 5) {
        let mut vals: Vec<&mut Val> = ctx.vars.iter_mut().flat_map(|(_, v)| v.vals_mut()).collect();
        if !vals.is_empty() {
            let k = c.below(vals.len() as u32) as usize;
            vals[k].end = if c.chance(1, 3) { End::Panic } else { End::Fail };
        }
    }
    let templates: Vec<UriTemplateString> = (0..1 + c.below(2)).filter_map(|_| UriTemplateString::try_from(gt::valid(c)).ok()).collect();
    let expanded: Vec<(usize, Expanded<S, SimContext>)> =
        templates.iter().enumerate().filter_map(|(i, t)| Some((i, t.expand::<S, _>(&ctx).ok()?))).collect();
    let raw = gt::value_text(c).into_bytes();
    let decoder = decode_whatwg_bytes(&raw);
    let cursor = decoder.bytes_fragments();
    let streamed = gt::val(c);
    let comp = *c.pick(&pct::COMPS);
    let encoded = render::percent_encoded::<S, _>(comp, &streamed);

    let mut ops: Vec<Op> = Vec::new();
    let mut node = list;
    while let Some(n) = node {
        let it = n.item;
        ops.push((format!("{} of {}", it.name, it.what), Box::new(move |s| write!(s, "{}", it.text))));
        if let Some(d) = it.dedicated {
            ops.push((format!("dedicated string of {} of {}", it.name, it.what), Box::new(move |s| {
                let t = d().map_err(|_| fmt::Error)?;
                s.write_str(&t)
            })));
        }
        node = n.next;
    }
    for (k, id) in ids.iter().enumerate() {
        let r = &resolver;
        ops.push((format!("resolve {id:?} against {base_text:?}"), Box::new(move |s| write!(s, "{}", r.resolve(id.as_ref_str())))));
        let n = &resolved[k];
        ops.push((format!("shared resolution of {id:?} against {base_text:?}"), Box::new(move |s| write!(s, "{n}"))));
        ops.push((format!("string of a shared resolution of {id:?} against {base_text:?}"), Box::new(move |s| {
            let ok = n.ensure_rfc3986_normalizable().is_ok();
            let t = n.to_dedicated_string();
            sched::yield_point();
            write!(s, "{t} {ok}")
        })));
        ops.push((format!("mask {id:?}"), Box::new(move |s| match id {
            Own::Full(v) => write!(s, "{}", v.mask_password()),
            Own::Abs(v) => write!(s, "{}", v.mask_password()),
            Own::Ref(v) => write!(s, "{}", v.mask_password()),
            Own::Rel(v) => write!(s, "{}", v.mask_password()),
        })));
        let other = &ids[(k + 1) % ids.len()];
        ops.push((format!("compare {id:?} and {other:?}"), Box::new(move |s| {
            let (a, b) = (id.as_ref_str(), other.as_ref_str());
            let o = a.cmp(b);
            sched::yield_point();
            let p = id.parts();
            sched::yield_point();
            write!(s, "{o:?} {} {} {p:?}", a == b, a == other.as_str())
        })));
    }
    for (i, e) in &expanded {
        ops.push((format!("expansion of {:?}", templates[*i].as_str()), Box::new(move |s| write!(s, "{e}"))));
    }
    for t in &templates {
        let ctx = &ctx;
        let tt: &UriTemplateStr = t;
        ops.push((format!("expand {:?}", t.as_str()), Box::new(move |s| {
            let e = tt.expand::<S, _>(ctx).map_err(|_| fmt::Error)?;
            sched::yield_point();
            write!(s, "{e}")
        })));
        ops.push((format!("dynamic expansion of {:?}", t.as_str()), Box::new(move |s| {
            let mut d = DynContext { inner: ctx.clone(), events: vec![] };
            tt.expand_dynamic::<S, _, _>(s, &mut d).map_err(|_| fmt::Error)
        })));
        ops.push((format!("variables of {:?}", t.as_str()), Box::new(move |s| {
            for v in tt.variables() {
                write!(s, "{},", v.as_str())?;
            }
            Ok(())
        })));
    }
    let cursor = &cursor;
    ops.push((format!("fragments of {:?}", String::from_utf8_lossy(&raw)), Box::new(move |s| {
        let mut it = cursor.clone();
        while let Some(f) = it.next() {
            write!(s, "{f:?}, {} left;", it.not_yet_decoded().len())?;
        }
        Ok(())
    })));
    let decoder = &decoder;
    ops.push((format!("bytes of {:?}", String::from_utf8_lossy(&raw)), Box::new(move |s| write!(s, "{:?}", decoder.into_bytes()))));
    let encoded = &encoded;
    ops.push((format!("encoding of {:?} for {comp:?}", streamed.pieces), Box::new(move |s| write!(s, "{encoded}"))));
    for (n, v) in &ctx.vars {
        if !matches!(v, CVal::Undef) {
            c.note(|| format!("shared value {n} = {v:?}"));
        }
    }
    simulate(c, &ops)
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Got {
    text: String,
    end: &'static str,
}

fn perform(op: &Op, plan: Plan) -> Result<(Got, Sink), Violation> {
    let mut s = Sink::new(plan);
    let r = guarded("shared use", || (op.1)(&mut s))?;
    let end = match r {
        Outcome::Done(Ok(())) => "ok",
        Outcome::Done(Err(_)) => "error",
        Outcome::Injected => "unwound",
    };
    Ok((Got { text: s.accepted.clone(), end }, s))
}

/// An operation, where it is written, and the operation to enter at which yield points.
struct Job {
    op: usize,
    plan: Plan,
    nested: Vec<(u32, usize, Plan)>,
}

fn simulate(c: &mut Ctx, ops: &[Op]) -> Res {
    let n_tasks = 1 + c.below(4) as usize;
    let n_ops = ops.len() as u32;
    let mut tasks: Vec<Vec<Job>> = Vec::new();
    for _ in 0..n_tasks {
        let mut jobs = Vec::new();
        for _ in 0..1 + c.below(3) {
            let op = c.below(n_ops) as usize;
            let plan = if c.chance(1, 3) { Plan::draw(&mut c.src, 30) } else { Plan::Good };
            let mut nested = Vec::new();
            for _ in 0..c.below(3) {
                let at = c.below(10);
                let op = c.below(n_ops) as usize;
                let plan = if c.chance(1, 4) { Plan::draw(&mut c.src, 20) } else { Plan::Good };
                nested.push((at, op, plan));
            }
            jobs.push(Job { op, plan, nested });
        }
        tasks.push(jobs);
    }
    // Alone.
    let mut alone: Vec<(usize, Plan, Got)> = Vec::new();
    for (op, plan) in tasks.iter().flatten().flat_map(|j| std::iter::once((j.op, j.plan)).chain(j.nested.iter().map(|n| (n.1, n.2)))) {
        if alone.iter().any(|a| a.0 == op && a.1 == plan) {
            continue;
        }
        let (got, s) = perform(&ops[op], plan)?;
        c.sink_done(&s);
        alone.push((op, plan, got));
    }
    let expected = |op: usize, plan: Plan| &alone.iter().find(|a| a.0 == op && a.1 == plan).unwrap().2;
    for (t, jobs) in tasks.iter().enumerate() {
        for j in jobs {
            c.op("shared operation");
            c.note(|| format!("task {t}: {} into sink {:?}; alone: {:?}", ops[j.op].0, j.plan, expected(j.op, j.plan)));
            for (at, op, plan) in &j.nested {
                c.note(|| format!("  from inside, at its yield point {at}: {} into sink {plan:?}", ops[*op].0));
            }
        }
    }
    // Together. Every task leaves the first difference it sees.
    let slots: Vec<RefCell<Option<Res<u32>>>> = (0..n_tasks).map(|_| RefCell::new(None)).collect();
    let mut fns: Vec<sched::TaskFn> = Vec::new();
    for (t, jobs) in tasks.iter().enumerate() {
        let slot = &slots[t];
        let expected = &expected;
        fns.push(Box::new(move || {
            *slot.borrow_mut() = Some(task(jobs, ops, expected));
        }));
    }
    let src = std::mem::replace(&mut c.src, Source::replay(vec![]));
    let (src, trace) = sched::run(src, fns, 60);
    c.src = src;
    c.steps += trace.len() as u64;
    let mut switches = 0;
    for w in trace.windows(2) {
        switches += (w[0] != w[1]) as u32;
        c.shape(w[1] as u64 + 1);
    }
    if switches > 3 {
        c.probe("interleaved");
    }
    c.note(|| format!("schedule {trace:?}"));
    for (t, s) in slots.iter().enumerate() {
        match s.borrow_mut().take() {
            None => panic!("harness: task {t} vanished"),
            Some(Err(v)) => return Err(Violation { class: v.class, msg: format!("task {t}: {}", v.msg) }),
            Some(Ok(entered)) => {
                for _ in 0..entered {
                    c.fault("re_entered");
                }
            }
        }
    }
    // Afterwards, alone again.
    for (op, plan, got) in alone.iter().take(4) {
        let (again, _) = perform(&ops[*op], *plan)?;
        ensure_eq!(again, *got, "disturbed", "{} into sink {plan:?}, alone after the others", ops[*op].0);
    }
    Ok(())
}

fn task<'a>(jobs: &[Job], ops: &[Op], expected: &impl Fn(usize, Plan) -> &'a Got) -> Res<u32> {
    let mut entered = 0;
    for j in jobs {
        let mut at = 0;
        let mut bad: Option<Violation> = None;
        let mut hook = || {
            for (_, op, plan) in j.nested.iter().filter(|n| n.0 == at) {
                entered += 1;
                match perform(&ops[*op], *plan) {
                    Ok((got, _)) if got == *expected(*op, *plan) => {}
                    Ok((got, _)) => {
                        bad = Some(Violation {
                            class: "disturbed".into(),
                            msg: format!("{} into sink {plan:?}, from inside {}: {got:?}, alone {:?}", ops[*op].0, ops[j.op].0, expected(*op, *plan)),
                        })
                    }
                    Err(v) => bad = Some(v),
                }
            }
            at += 1;
        };
        let r = sched::with_hook(&mut hook, || perform(&ops[j.op], j.plan));
        if let Some(v) = bad {
            return Err(v);
        }
        let (got, _) = r?;
        ensure_eq!(got, *expected(j.op, j.plan), "disturbed", "{} into sink {:?} among others", ops[j.op].0, j.plan);
    }
    Ok(entered)
}
