//! Simulated template contexts: values delivered in pieces, with every request logged.

use super::value::Val;
use super::sched;
use crate::model::template::Value;
use iri_string::template::context::{AssocVisitor, Context, DynamicContext, ListVisitor, VisitPurpose, Visitor};
use std::ops::ControlFlow;

#[derive(Clone, Debug)]
pub enum CVal {
    Undef,
    Str(Val),
    List(Vec<Val>),
    Assoc(Vec<(Val, Val)>),
}
impl CVal {
    pub fn model(&self) -> Value {
        match self {
            CVal::Undef => Value::Undef,
            CVal::Str(v) => Value::Str(v.text()),
            CVal::List(l) => Value::List(l.iter().map(|v| v.text()).collect()),
            CVal::Assoc(l) => Value::Assoc(l.iter().map(|(k, v)| (k.text(), v.text())).collect()),
        }
    }
    /// Every streamed value inside.
    pub fn vals_mut(&mut self) -> Vec<&mut Val> {
        match self {
            CVal::Undef => vec![],
            CVal::Str(v) => vec![v],
            CVal::List(l) => l.iter_mut().collect(),
            CVal::Assoc(l) => l.iter_mut().flat_map(|(k, v)| [k, v]).collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct SimContext {
    pub vars: Vec<(String, CVal)>,
    /// How lists are delivered: item by item, all at once, or with the one-call helper.
    pub style: u8,
}
impl SimContext {
    pub fn new(vars: Vec<(String, CVal)>, style: u8) -> Self {
        SimContext { vars, style }
    }
    pub fn get(&self, name: &str) -> &CVal {
        self.vars.iter().find(|(n, _)| n == name).map_or(&CVal::Undef, |(_, v)| v)
    }
    pub fn model(&self, name: &str) -> Value {
        self.get(name).model()
    }
    fn deliver<V: Visitor>(&self, v: V) -> V::Result {
        // No allocation here: this runs in armed regions.
        let val = self.get(v.var_name().as_str());
        sched::yield_point();
        match val {
            CVal::Undef => v.visit_undefined(),
            CVal::Str(s) => v.visit_string(s),
            CVal::List(l) => match self.style {
                0 => {
                    let mut lv = v.visit_list();
                    for x in l {
                        sched::yield_point();
                        if let ControlFlow::Break(r) = lv.visit_item(x) {
                            return r;
                        }
                    }
                    lv.finish()
                }
                1 => v.visit_list().visit_items_and_finish(l.iter()),
                _ => v.visit_list_direct(l.iter()),
            },
            CVal::Assoc(l) => match self.style {
                0 => {
                    let mut av = v.visit_assoc();
                    for (k, x) in l {
                        sched::yield_point();
                        if let ControlFlow::Break(r) = av.visit_entry(k, x) {
                            return r;
                        }
                    }
                    av.finish()
                }
                1 => v.visit_assoc().visit_entries_and_finish(l.iter().map(|(k, x)| (k, x))),
                _ => v.visit_assoc_direct(l.iter().map(|(k, x)| (k, x))),
            },
        }
    }
}
impl Context for SimContext {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        self.deliver(v)
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Event {
    Start,
    Check(String),
    Expand(String),
    End,
}

/// A context that changes its state and records the conversation.
pub struct DynContext {
    pub inner: SimContext,
    pub events: Vec<Event>,
}
impl DynamicContext for DynContext {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        let expand = matches!(v.purpose(), VisitPurpose::Expand);
        super::alloc::suspended(|| {
            let name = v.var_name().as_str().to_string();
            self.events.push(if expand { Event::Expand(name) } else { Event::Check(name) });
        });
        self.inner.deliver(v)
    }
    fn on_expansion_start(&mut self) {
        super::alloc::suspended(|| self.events.push(Event::Start));
    }
    fn on_expansion_end(&mut self) {
        super::alloc::suspended(|| self.events.push(Event::End));
    }
}
