//! Owned view of the event stream and every way the public API offers to get it.
use crate::src::{MiniSource, StepSource};
use yam_core::parsing::{Event, EventReceiver, Parser, ScalarValue, Source, SpannedEventReceiver, StrSource, Tag};
use yam_core::prelude::{Marker, ScalarType, Span, YamlError};

pub type T = Option<(String, String)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum St {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

pub fn st(s: ScalarType) -> St {
    match s {
        ScalarType::Plain => St::Plain,
        ScalarType::SingleQuote => St::Single,
        ScalarType::DoubleQuote => St::Double,
        ScalarType::Literal => St::Literal,
        ScalarType::Folded => St::Folded,
        #[allow(unreachable_patterns)]
        _ => St::Plain,
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Nothing,
    StreamStart,
    StreamEnd,
    DocStart(bool),
    DocEnd,
    Alias(usize),
    Comment(String),
    Scalar { v: String, st: St, a: usize, tag: T },
    SeqStart(usize, T),
    SeqEnd,
    MapStart(usize, T),
    MapEnd,
}

/// A copy of a string handed out by the code under test, which builds it unchecked.
pub fn own(s: &str) -> String {
    match std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        Ok(s) => s.to_string(),
        Err(_) => panic!("a string that is not UTF-8: {:?}", String::from_utf8_lossy(s.as_bytes())),
    }
}
pub fn tag(t: &Option<std::borrow::Cow<'_, Tag>>) -> T {
    t.as_ref().map(|t| (own(&t.handle), own(&t.suffix)))
}

pub fn conv(e: &Event<'_>) -> E {
    match e {
        Event::Nothing => E::Nothing,
        Event::StreamStart => E::StreamStart,
        Event::StreamEnd => E::StreamEnd,
        Event::DocumentStart(b) => E::DocStart(*b),
        Event::DocumentEnd => E::DocEnd,
        Event::Alias(a) => E::Alias(*a),
        Event::Comment(c) => E::Comment(own(c)),
        Event::Scalar(ScalarValue { value, scalar_type, anchor_id, tag: t }) => {
            E::Scalar { v: own(value), st: st(*scalar_type), a: *anchor_id, tag: tag(t) }
        }
        Event::SequenceStart(a, t) => E::SeqStart(*a, tag(t)),
        Event::SequenceEnd => E::SeqEnd,
        Event::MappingStart(a, t) => E::MapStart(*a, tag(t)),
        Event::MappingEnd => E::MapEnd,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Run {
    pub evs: Vec<(E, Span)>,
    pub err: Option<YamlError>,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
    pub fn events(&self) -> Vec<E> {
        self.evs.iter().map(|x| x.0.clone()).collect()
    }
    pub fn errs(&self) -> String {
        match &self.err {
            None => "ok".into(),
            Some(e) => format!("{e}"),
        }
    }
}

/// Safety cap on the number of events: no valid run over an n-byte input can emit more.
pub fn ev_cap(len: usize) -> usize {
    8 * len + 64
}

pub fn run_parser<S: Source>(mut p: Parser<'_, S>, len: usize) -> Run {
    let mut r = Run { evs: vec![], err: None };
    let cap = ev_cap(len);
    while let Some(x) = p.next() {
        match x {
            Ok((e, s)) => r.evs.push((conv(&e), s)),
            Err(e) => {
                r.err = Some(e);
                break;
            }
        }
        if r.evs.len() > cap {
            panic!("runaway: more than {cap} events for {len} bytes of input");
        }
    }
    r
}

pub fn run_iter(input: &str) -> Run {
    run_parser(Parser::new_from_str(input), input.len())
}
pub fn run_keep_tags(input: &str) -> Run {
    run_parser(Parser::new_from_str(input).keep_tags(true), input.len())
}
pub fn run_mini(input: &str) -> Run {
    run_parser(Parser::new(MiniSource::new(input)), input.len())
}
/// Runs over a step-counting source; Err(()) when the step budget ran out.
pub fn run_steps(input: &str, budget: u64) -> (Run, u64) {
    let cell = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let r = run_parser(Parser::new(StepSource::new(input, cell.clone(), budget)), input.len());
    (r, cell.get())
}

#[derive(Default)]
pub struct Rec {
    pub evs: Vec<(E, Span)>,
}
impl<'i> SpannedEventReceiver<'i> for Rec {
    fn on_event(&mut self, ev: Event<'i>, span: Span) {
        self.evs.push((conv(&ev), span));
    }
}
#[derive(Default)]
pub struct RecNoSpan {
    pub evs: Vec<E>,
}
impl<'i> EventReceiver<'i> for RecNoSpan {
    fn on_event(&mut self, ev: Event<'i>) {
        self.evs.push(conv(&ev));
    }
}

pub fn run_load(input: &str, multi: bool) -> Run {
    let mut rec = Rec::default();
    let mut p = Parser::new(StrSource::new(input));
    if multi {
        let res = p.load(&mut rec, true);
        return Run { evs: rec.evs, err: res.err() };
    }
    let cap = ev_cap(input.len());
    let mut err = None;
    for i in 0.. {
        if let Err(e) = p.load(&mut rec, false) {
            err = Some(e);
            break;
        }
        if rec.evs.last().is_some_and(|e| e.0 == E::StreamEnd) {
            break;
        }
        assert!(i <= cap, "runaway: {cap} documents loaded from {} bytes of input", input.len());
    }
    Run { evs: rec.evs, err }
}
/// `next_event`, after up to `peeks` calls of `peek` each time.
pub fn run_next_event(input: &str, peeks: usize) -> Run {
    let mut p = Parser::new_from_str(input);
    let mut g = Run { evs: vec![], err: None };
    let cap = ev_cap(input.len());
    loop {
        for _ in 0..peeks {
            if let Some(Err(e)) = p.peek() {
                g.err = Some(e);
                return g;
            }
        }
        match p.next_event() {
            None => break,
            Some(Ok((e, sp))) => g.evs.push((conv(&e), sp)),
            Some(Err(e)) => {
                g.err = Some(e);
                break;
            }
        }
        assert!(g.evs.len() <= cap, "runaway: more than {cap} events for {} bytes of input", input.len());
    }
    g
}

pub fn marker(m: Marker) -> String {
    format!("{}@{}:{}", m.pos, m.line, m.col)
}

/// yaml-test-suite style rendering, for messages.
pub fn show(evs: &[E]) -> String {
    let mut o = String::new();
    for e in evs {
        let t = |t: &T| t.as_ref().map_or(String::new(), |(h, s)| format!(" <{h}{s}>"));
        let an = |a: usize| if a == 0 { String::new() } else { format!(" &{a}") };
        let line = match e {
            E::Nothing => "NOTHING".to_string(),
            E::StreamStart => "+STR".into(),
            E::StreamEnd => "-STR".into(),
            E::DocStart(x) => format!("+DOC{}", if *x { " ---" } else { "" }),
            E::DocEnd => "-DOC".into(),
            E::Alias(a) => format!("=ALI *{a}"),
            E::Comment(c) => format!("#{c:?}"),
            E::Scalar { v, st, a, tag } => format!("=VAL{}{} {st:?} {v:?}", an(*a), t(tag)),
            E::SeqStart(a, g) => format!("+SEQ{}{}", an(*a), t(g)),
            E::SeqEnd => "-SEQ".into(),
            E::MapStart(a, g) => format!("+MAP{}{}", an(*a), t(g)),
            E::MapEnd => "-MAP".into(),
        };
        o.push_str(&line);
        o.push('\n');
    }
    o
}
