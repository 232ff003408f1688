//! C12: the conversation with a dynamic context is complete, ordered and bracketed.

use crate::ctx::{guarded, no_panic, vio, Ctx, Outcome, Res};
use crate::env::context::{CVal, SimContext};
use crate::env::sink::{Plan, Sink};
use crate::env::value::{End, Val};
use crate::env::{alloc, sched};
use crate::gen_template as gt;
use crate::kinds::Sp;
use crate::model::template::{self as t, Chunk};
use crate::{ensure, ensure_eq};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::{Context, DynamicContext, VisitPurpose, Visitor};
use iri_string::template::UriTemplateStr;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
enum Ev {
    Start,
    End,
    Check(String),
    Expand(String),
    Write,
    SinkError,
}
type Log = Rc<RefCell<Vec<Ev>>>;
fn push(log: &Log, e: impl FnOnce() -> Ev) {
    alloc::suspended(|| log.borrow_mut().push(e()));
}

struct LoggedSink {
    sink: Sink,
    log: Log,
}
impl fmt::Write for LoggedSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        // Logged first: the write may unwind.
        push(&self.log, || Ev::Write);
        let r = self.sink.write_str(s);
        if r.is_err() {
            push(&self.log, || Ev::SinkError);
        }
        r
    }
}

/// Values by name, or one per expansion request, whatever the name: then the nth request
/// ever gets the nth value.
struct Stateful {
    by_name: SimContext,
    script: Option<Vec<CVal>>,
    served: usize,
    log: Log,
}
impl Stateful {
    fn current(&self) -> Option<CVal> {
        self.script.as_ref().map(|s| s[self.served % s.len()].clone())
    }
}
impl DynamicContext for Stateful {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        let expand = matches!(v.purpose(), VisitPurpose::Expand);
        let name = v.var_name().as_str().to_string();
        push(&self.log, || if expand { Ev::Expand(name.clone()) } else { Ev::Check(name.clone()) });
        sched::yield_point();
        match self.current() {
            None => self.by_name.visit(v),
            Some(val) => {
                if expand {
                    self.served += 1;
                }
                SimContext::new(vec![(name, val)], self.by_name.style).visit(v)
            }
        }
    }
    fn on_expansion_start(&mut self) {
        push(&self.log, || Ev::Start);
    }
    fn on_expansion_end(&mut self) {
        push(&self.log, || Ev::End);
    }
}

pub fn run(c: &mut Ctx) -> Res {
    if c.below(2) == 0 {
        go::<UriSpec>(c)
    } else {
        go::<IriSpec>(c)
    }
}

fn spoil(c: &mut Ctx, v: &mut Val) {
    let keep = c.below(v.pieces.len() as u32 + 1) as usize;
    v.pieces.truncate(keep);
    v.how.truncate(keep);
    v.end = if c.chance(1, 4) { End::Panic } else { End::Fail };
}

fn go<S: Sp>(c: &mut Ctx) -> Res {
    let log: Log = Default::default();
    let mut d = Stateful { by_name: gt::context(c), script: None, served: 0, log: log.clone() };
    let scripted = c.chance(1, 3);
    if scripted {
        // Strings only: an implementation may check types in whatever order it likes.
        let n = 1 + c.below(5);
        d.script = Some(
            (0..n)
                .map(|_| if c.chance(1, 6) { CVal::Undef } else { CVal::Str(gt::val(c)) })
                .collect(),
        );
    }
    for _ in 0..1 + c.below(4) {
        one::<S>(c, &mut d, &log)?;
        if c.chance(1, 4) {
            d.by_name = gt::context(c);
        }
    }
    Ok(())
}

fn one<S: Sp>(c: &mut Ctx, d: &mut Stateful, log: &Log) -> Res {
    let text = gt::valid(c);
    let Some(chunks) = t::parse(&text) else { return Ok(()) };
    let Ok(tt) = UriTemplateStr::new(&text) else {
        return vio("valid template refused", format!("{text:?} is a template but was refused"));
    };
    let names = t::names(&chunks);
    let listed: Vec<String> = no_panic("variables", || tt.variables().map(|v| v.as_str().to_string()).collect())?;
    ensure_eq!(listed, names, "wrong variable list", "variables of {text:?}");

    // Values, with one of them breaking off now and then.
    let saved = d.by_name.clone();
    let saved_script = d.script.clone();
    if c.chance(1, 4) {
        let vals: Vec<&mut Val> = match &mut d.script {
            Some(s) => s.iter_mut().flat_map(|v| v.vals_mut()).collect(),
            None => d.by_name.vars.iter_mut().filter(|(n, _)| names.contains(n)).flat_map(|(_, v)| v.vals_mut()).collect(),
        };
        let mut vals = vals;
        if !vals.is_empty() {
            let k = c.below(vals.len() as u32) as usize;
            spoil(c, vals[k]);
        }
    }
    // Occurrence by occurrence: the value that will be asked for.
    let values: Vec<CVal> = (0..names.len())
        .map(|i| match &d.script {
            Some(s) => s[(d.served + i) % s.len()].clone(),
            None => d.by_name.get(&names[i]).clone(),
        })
        .collect();
    let breaks: Vec<bool> = values.iter().map(|v| v.clone().vals_mut().iter().any(|v| v.end != End::Ok)).collect();
    let mut i = 0;
    let full = t::expand(S::IRI, &chunks, &mut |_| {
        i += 1;
        values[i - 1].model()
    });
    // The first occurrence whose type is refused.
    let refused = full.is_err().then(|| {
        let mut k = 0;
        for ch in &chunks {
            if let Chunk::Expr(o, vars) = ch {
                for v in vars {
                    if t::expand_var(S::IRI, &t::op(*o), v, &values[k].model()).is_err() {
                        return k;
                    }
                    k += 1;
                }
            }
        }
        unreachable!("harness: no refused occurrence")
    });
    let first_break = breaks.iter().position(|b| *b);

    log.borrow_mut().clear();
    let what = format!("{text:?} with {values:?} delivered in style {}", d.by_name.style);
    let to_string = c.chance(1, 4);
    let len = full.as_ref().map_or_else(|p| p.len(), |p| p.len());
    let plan = if to_string || c.chance(1, 3) { Plan::Good } else { Plan::draw(&mut c.src, len) };
    c.op(if to_string { "expand_dynamic_to_string" } else { "expand_dynamic" });
    c.note(|| format!("expand {what} into sink {plan:?}, as string {to_string}"));
    let mut sink = LoggedSink { sink: Sink::new(plan), log: log.clone() };
    let (r, got): (Outcome<Result<(), ()>>, Option<String>) = if to_string {
        match guarded("expand_dynamic_to_string", || tt.expand_dynamic_to_string::<S, _>(d))? {
            Outcome::Done(Ok(s)) => (Outcome::Done(Ok(())), Some(s)),
            Outcome::Done(Err(_)) => (Outcome::Done(Err(())), None),
            Outcome::Injected => (Outcome::Injected, None),
        }
    } else {
        let r = guarded("expand_dynamic", || tt.expand_dynamic::<S, _, _>(&mut sink, d).map_err(|_| ()))?;
        (r, Some(sink.sink.accepted.clone()))
    };
    c.sink_done(&sink.sink);
    let ev = log.borrow().clone();
    c.steps += ev.len() as u64;
    c.note(|| format!("{r:?}, wrote {got:?}, conversation {ev:?}"));
    let ended_well = matches!(r, Outcome::Done(_));

    // Bracketing.
    ensure_eq!(ev.iter().filter(|e| **e == Ev::Start).count(), 1, "wrong number of start notifications", "{what}");
    ensure_eq!(ev.first(), Some(&Ev::Start), "something before the start notification", "{what}");
    let ends = ev.iter().filter(|e| **e == Ev::End).count();
    if ended_well || ends > 0 {
        ensure_eq!(ends, 1, "wrong number of end notifications", "{what}");
        ensure_eq!(ev.last(), Some(&Ev::End), "something after the end notification", "{what}");
    }
    // Requests in template order, one per occurrence, none after a failure.
    let asked: Vec<&String> = ev.iter().filter_map(|e| if let Ev::Expand(n) = e { Some(n) } else { None }).collect();
    ensure!(
        asked.len() <= names.len() && asked.iter().zip(&names).all(|(a, b)| *a == b),
        "variables asked for out of order",
        "{what}: asked for {asked:?}, occurrences are {names:?}"
    );
    for e in &ev {
        if let Ev::Check(n) = e {
            ensure!(names.contains(n), "asked for a variable not in the template", "{what}: {n:?}");
        }
    }
    if let Some(p) = ev.iter().position(|e| *e == Ev::SinkError) {
        ensure!(ev[p + 1..].iter().all(|e| *e == Ev::End), "goes on after a failure", "{what}: {ev:?}");
    }
    let failed = !matches!(r, Outcome::Done(Ok(())));
    if sink.sink.failed {
        ensure!(failed, "sink error swallowed", "{what}: {:?}", sink.sink.plan);
    } else {
        match (refused, first_break) {
            (Some(k), b) if b.is_none_or(|b| b >= k) => {
                c.probe("type_refused_midway");
                ensure!(failed, "type mismatch accepted", "{what}");
                ensure!(asked.len() <= k, "goes on after a failure", "{what}: asked for {asked:?} although occurrence {k} is refused");
            }
            (_, Some(b)) => {
                c.fault(if values[b].clone().vals_mut().iter().any(|v| v.end == End::Panic) { "value_panics" } else { "value_fails" });
                // A prefix may have been complete before the value broke off; otherwise it
                // is the last one asked for.
                if failed {
                    ensure!(asked.len() > b, "fails too early", "{what}: asked for {asked:?} only");
                    ensure!(breaks[asked.len() - 1] || refused == Some(asked.len()), "goes on after a failure", "{what}: asked for {asked:?}");
                }
            }
            (None, None) => {
                ensure_eq!(r, Outcome::Done(Ok(())), "spurious error", "{what}");
            }
            (Some(_), None) => unreachable!(),
        }
    }
    if !failed {
        ensure_eq!(asked.len(), names.len(), "variable not asked for", "{what}: asked for {asked:?}");
    }
    if !failed && first_break.is_none() {
        ensure_eq!(got.as_ref().map(|s| s.as_str()), full.as_deref().ok(), "wrong expansion", "{what}");
    }
    d.by_name = saved;
    d.script = saved_script;
    // The same values by a static context.
    if d.script.is_none() && c.chance(1, 2) {
        let s = no_panic("expand", || tt.expand::<S, _>(&d.by_name).map(|e| e.to_string()).map_err(|_| ()))?;
        log.borrow_mut().clear();
        let dy = no_panic("expand_dynamic", || tt.expand_dynamic_to_string::<S, _>(d).map_err(|_| ()))?;
        ensure_eq!(dy, s, "dynamic and static expansions differ", "{text:?} with {:?}", d.by_name.vars);
        // A shared context may be used as a dynamic one.
        let by = no_panic("expand_dynamic", || tt.expand_dynamic_to_string::<S, _>(&mut d.by_name).map_err(|_| ()))?;
        ensure_eq!(by, s, "dynamic and static expansions differ", "{text:?} with {:?}", d.by_name.vars);
    }
    gt::shape(c, &chunks, &d.by_name);
    Ok(())
}
