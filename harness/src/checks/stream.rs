//! P04 event grammar, P05 equivalence of the interfaces, P06 spans.
use super::util::*;
use crate::ev::{self, E, Run, St};
use crate::r#gen::{self, Opts};
use crate::refp;
use crate::rt::{self, Check, Ctx, Rng, Tier};
use yam_core::parsing::{Parser, ParserIter, StrSource};
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::Event;
use yam_core::prelude::{Marker, YamlError};

fn workload(r: &mut Rng, idx: u64) -> (String, &'static str) {
    match r.below(10) {
        0 => {
            let mx = r.range(10, 500);
            (pumped(r, mx).0, "pumped")
        }
        1..=3 => (r#gen::gen_stream(r, &Opts::default()).text, "generated stream"),
        4 => (r#gen::gen_stream(r, &Opts { anchors: 30, aliases: 30, max_docs: 5, ..Opts::default() }).text, "generated anchors"),
        5 => (r#gen::gen_stream(r, &Opts { flow: 90, odd_keys: 60, ..Opts::default() }).text, "generated flow"),
        _ => hostile(r, idx, true),
    }
}

// ------------------------------------------------------------------ P04
pub struct Grammar;

#[derive(Clone, Copy, PartialEq)]
enum Fr {
    Stream,
    Doc(bool), // root seen
    Seq,
    Map(bool), // a key is waiting for its value
}

/// Online checker of the event grammar; Err((rule, explanation)).
pub struct Monitor {
    st: Vec<Fr>,
    started: bool,
    ended: bool,
    last_anchor: usize,
    doc_anchors: std::collections::HashSet<usize>,
    pub trans: std::collections::HashSet<(u8, u8)>,
    prev: u8,
    pub depth: usize,
}
impl Monitor {
    pub fn new() -> Self {
        Monitor { st: vec![], started: false, ended: false, last_anchor: 0, doc_anchors: Default::default(), trans: Default::default(), prev: 0, depth: 0 }
    }
    fn anchor(&mut self, a: usize) -> Result<(), String> {
        if a != 0 {
            if a <= self.last_anchor {
                return Err(format!("anchor id {a} after {}: ids must be fresh", self.last_anchor));
            }
            self.last_anchor = a;
            self.doc_anchors.insert(a);
        }
        Ok(())
    }
    fn value(&mut self) -> Result<(), String> {
        match self.st.last_mut() {
            Some(Fr::Doc(seen)) => {
                if *seen {
                    return Err("second root node in a document".into());
                }
                *seen = true;
                Ok(())
            }
            Some(Fr::Map(k)) => {
                *k = !*k;
                Ok(())
            }
            Some(Fr::Seq) => Ok(()),
            _ => Err("node outside a document".into()),
        }
    }
    pub fn push(&mut self, e: &E) -> Result<(), String> {
        let code = match e {
            E::Nothing => 1,
            E::StreamStart => 2,
            E::StreamEnd => 3,
            E::DocStart(_) => 4,
            E::DocEnd => 5,
            E::Alias(_) => 6,
            E::Comment(_) => 7,
            E::Scalar { .. } => 8,
            E::SeqStart(..) => 9,
            E::SeqEnd => 10,
            E::MapStart(..) => 11,
            E::MapEnd => 12,
        };
        let top = match self.st.last() {
            None => 0,
            Some(Fr::Stream) => 1,
            Some(Fr::Doc(b)) => 2 + u8::from(*b),
            Some(Fr::Seq) => 4,
            Some(Fr::Map(b)) => 5 + u8::from(*b),
        };
        self.trans.insert((self.prev * 8 + top, code));
        self.prev = code;
        if self.ended {
            return Err("event after StreamEnd".into());
        }
        if !self.started && *e != E::StreamStart {
            return Err("the first event is not StreamStart".into());
        }
        match e {
            E::Nothing => return Err("placeholder event emitted".into()),
            E::Comment(_) => {
                if cfg!(not(feature = "comment")) {
                    return Err("comment event without the comment feature".into());
                }
            }
            E::StreamStart => {
                if self.started {
                    return Err("second StreamStart".into());
                }
                self.started = true;
                self.st.push(Fr::Stream);
            }
            E::StreamEnd => {
                if self.st != [Fr::Stream] {
                    return Err("StreamEnd inside a document".into());
                }
                self.st.pop();
                self.ended = true;
            }
            E::DocStart(_) => {
                if self.st != [Fr::Stream] {
                    return Err("DocumentStart inside a document".into());
                }
                self.doc_anchors.clear();
                self.st.push(Fr::Doc(false));
            }
            E::DocEnd => match self.st.pop() {
                Some(Fr::Doc(true)) => {}
                Some(Fr::Doc(false)) => return Err("document without a root node".into()),
                _ => return Err("DocumentEnd inside a collection or outside a document".into()),
            },
            E::Alias(a) => {
                self.value()?;
                if !self.doc_anchors.contains(a) {
                    return Err(format!("alias to id {a}, which no earlier node of this document carries"));
                }
            }
            E::Scalar { a, .. } => {
                self.value()?;
                self.anchor(*a)?;
            }
            E::SeqStart(a, _) => {
                self.value()?;
                self.anchor(*a)?;
                self.st.push(Fr::Seq);
            }
            E::MapStart(a, _) => {
                self.value()?;
                self.anchor(*a)?;
                self.st.push(Fr::Map(false));
            }
            E::SeqEnd => {
                if self.st.pop() != Some(Fr::Seq) {
                    return Err("SequenceEnd does not match".into());
                }
            }
            E::MapEnd => match self.st.pop() {
                Some(Fr::Map(false)) => {}
                Some(Fr::Map(true)) => return Err("MappingEnd after a key without a value".into()),
                _ => return Err("MappingEnd does not match".into()),
            },
        }
        self.depth = self.depth.max(self.st.len());
        Ok(())
    }
    pub fn complete(&self) -> bool {
        self.ended
    }
}

impl Check for Grammar {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2_400_000 } else { 25_000_000 }
    }
    fn rule(&self) -> String {
        "inputs: generated streams (also anchor-heavy and flow-heavy), mutated/truncated/spliced documents, token soup, exhaustive short strings, pumped repetitions; every event is fed to an online monitor of the event grammar; non-trivial: distinct input with at least 4 events".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["complete streams", "streams cut by an error", "event: Alias", "event: MappingStart", "event: SequenceStart"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the monitor checks what precedes the first error; after StreamEnd the iterator must stay exhausted".into()]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p04");
        let (s, kind) = workload(&mut r, idx);
        ctx.cover(kind);
        rt::note(&s);
        let other = r.chance(1, 2);
        let res = if other { iter(ctx, &s).map(|run| (run, 0)) } else { call(ctx, "iterating the parser", &s, || {
            let mut p = Parser::new_from_str(&s);
            let mut evs = vec![];
            let mut err = None;
            for _ in 0..=ev::ev_cap(s.len()) {
                match p.next() {
                    Some(Ok((e, sp))) => evs.push((ev::conv(&e), sp)),
                    Some(Err(e)) => {
                        err = Some(e);
                        break;
                    }
                    None => break,
                }
            }
            let after = if err.is_none() { (0..5).filter(|_| p.next().is_some()).count() } else { 0 };
            (Run { evs, err }, after)
        }) };
        let Some((run, after)) = res else { return };
        if run.evs.len() >= 4 {
            ctx.nontrivial(s.as_bytes());
        }
        cover_events(ctx, &run.evs);
        let mut m = Monitor::new();
        for (i, (e, _)) in run.evs.iter().enumerate() {
            if let Err(why) = m.push(e) {
                ctx.violation(why.chars().filter(|c| !c.is_ascii_digit()).collect::<String>(), &s, format!("event {i} {e:?}: {why}\n{}", ev::show(&run.events())));
                return;
            }
        }
        ctx.max("nesting depth", m.depth as u64);
        ctx.max("events of one stream", run.evs.len() as u64);
        for (a, b) in &m.trans {
            ctx.cover(TR.with(|_| trans_name(*a, *b)));
        }
        if run.ok() {
            ctx.cover("complete streams");
            if !m.complete() {
                ctx.violation("the stream ends without StreamEnd", &s, ev::show(&run.events()));
            }
            if after > 0 {
                ctx.violation("events after StreamEnd", &s, format!("{after} of 5 further polls returned something"));
            }
        } else {
            ctx.cover("streams cut by an error");
            if m.complete() {
                ctx.violation("an error after StreamEnd", &s, run.errs());
            }
        }
        if idx % 9001 == 0 {
            ctx.sample(format!("{s:?}\n{}", ev::show(&run.events())));
        }
    }
}
thread_local! { static TR: () = const {}; }
/// Names of monitor transitions, interned once.
fn trans_name(a: u8, b: u8) -> &'static str {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<String>> = OnceLock::new();
    let t = N.get_or_init(|| {
        const EV: [&str; 13] = ["(begin)", "Nothing", "StreamStart", "StreamEnd", "DocStart", "DocEnd", "Alias", "Comment", "Scalar", "SeqStart", "SeqEnd", "MapStart", "MapEnd"];
        const FR: [&str; 8] = ["none", "stream", "doc", "doc+root", "seq", "map/key", "map/value", "?"];
        let mut v = vec![];
        for a in 0..104u8 {
            for e in EV {
                v.push(format!("transition: {} in {} -> {e}", EV[(a / 8) as usize], FR[(a % 8) as usize]));
            }
        }
        v
    });
    &t[a as usize * 13 + b as usize]
}

// ------------------------------------------------------------------ P05
pub struct Paths;

fn same(ctx: &mut Ctx, s: &str, base: &Run, got: &Run, what: &str, spans: bool) {
    ctx.cover(what);
    let ev_same = if spans { base.evs == got.evs } else { base.evs.len() == got.evs.len() && base.evs.iter().zip(&got.evs).all(|(a, b)| a.0 == b.0) };
    if !ev_same {
        let d = first_diff(&got.events(), &base.events());
        let sp = base.evs.iter().zip(&got.evs).find(|(a, b)| a != b).map_or(String::new(), |(a, b)| format!("\n  iterator {a:?}\n  {what} {b:?}"));
        ctx.violation(format!("{what} differs from the iterator"), s, format!("{d}{sp}"));
    } else if base.err != got.err {
        ctx.violation(format!("{what}: different error"), s, format!("iterator: {}\n{what}: {}", base.errs(), got.errs()));
    }
}

impl Check for Paths {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 6_000_000 }
    }
    fn rule(&self) -> String {
        "inputs: generated streams, mutated/truncated documents, token soup, exhaustive short strings; the event sequence, spans and error of the plain iterator are compared with every other way to obtain them (next_event, a random peek schedule, load of all or single documents, receivers with and without spans, a caller-supplied Source, a counting Source, ParserIter, keep_tags); non-trivial: distinct input with at least 4 events".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["next_event", "peek schedule", "load (all documents)", "load (one document at a time)", "load and next in turns", "caller-supplied Source", "counting Source", "keep_tags", "ParserIter", "receiver without spans"]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p05");
        let (s, kind) = workload(&mut r, idx);
        ctx.cover(kind);
        let Some(base) = iter_plain(ctx, &s) else { return };
        if base.evs.len() >= 4 {
            ctx.nontrivial(s.as_bytes());
        }
        cover_events(ctx, &base.evs);
        if idx % 9001 == 0 {
            ctx.sample(format!("{s:?}: {} events, {}", base.evs.len(), base.errs()));
        }
        let cap = ev::ev_cap(s.len());
        // next_event
        if let Some(g) = call(ctx, "next_event", &s, || ev::run_next_event(&s, 0)) {
            same(ctx, &s, &base, &g, "next_event", true);
        }
        // peek schedule
        let plan: Vec<usize> = (0..13).map(|_| r.below(4)).collect();
        if let Some((g, bad)) = call(ctx, "peek", &s, || {
            let mut p = Parser::new_from_str(&s);
            let mut g = Run { evs: vec![], err: None };
            let mut bad = None;
            let mut i = 0;
            loop {
                let mut seen: Option<Option<Result<(E, yam_core::prelude::Span), YamlError>>> = None;
                for _ in 0..plan[i % plan.len()] {
                    let x = p.peek().map(|x| x.map(|(e, sp)| (ev::conv(e), *sp)));
                    if let Some(prev) = &seen
                        && *prev != x
                    {
                        bad = Some(format!("two peeks in a row differ: {prev:?} then {x:?}"));
                    }
                    seen = Some(x);
                }
                let n = if i % 2 == 0 { p.next() } else { p.next_event() };
                let n = n.map(|x| x.map(|(e, sp)| (ev::conv(&e), sp)));
                if let Some(prev) = seen
                    && prev != n
                {
                    bad = Some(format!("peek returned {prev:?}, the next event is {n:?}"));
                }
                match n {
                    Some(Ok(x)) => g.evs.push(x),
                    Some(Err(e)) => {
                        g.err = Some(e);
                        break;
                    }
                    None => break,
                }
                i += 1;
                if i > cap {
                    break;
                }
            }
            (g, bad)
        }) {
            if let Some(b) = bad {
                ctx.violation("peek does not show the next event", &s, b);
            }
            same(ctx, &s, &base, &g, "peek schedule", true);
        }
        // sources
        if let Some(g) = call(ctx, "a caller-supplied Source", &s, || ev::run_mini(&s)) {
            same(ctx, &s, &base, &g, "caller-supplied Source", true);
        }
        if let Some((g, _)) = call(ctx, "a counting Source", &s, || ev::run_steps(&s, u64::MAX)) {
            same(ctx, &s, &base, &g, "counting Source", true);
        }
        // keep_tags only matters for %TAG directives seen earlier
        if let Some(g) = call(ctx, "keep_tags", &s, || ev::run_keep_tags(&s)) {
            let ndoc = base.evs.iter().filter(|e| matches!(e.0, E::DocStart(_))).count();
            if !s.contains('%') || (ndoc <= 1 && base.ok()) {
                same(ctx, &s, &base, &g, "keep_tags", true);
            }
        }
        // ParserIter: the single document of the stream
        if let Some((items, err)) = call(ctx, "ParserIter", &s, || {
            let mut it = ParserIter::from_str_ref(&s);
            let mut v = vec![];
            for e in it.by_ref() {
                v.push(match e {
                    YamEvent::DocStart => E::DocStart(true),
                    YamEvent::DocEnd => E::DocEnd,
                    YamEvent::StreamEnd => E::StreamEnd,
                    YamEvent::Alias(a) => E::Alias(a),
                    YamEvent::Scalar(x) => ev::conv(&yam_core::parsing::Event::Scalar(x)),
                    YamEvent::SeqStart(a, t) => E::SeqStart(a, ev::tag(&t)),
                    YamEvent::SeqEnd => E::SeqEnd,
                    YamEvent::MapStart(a, t) => E::MapStart(a, ev::tag(&t)),
                    YamEvent::MapEnd => E::MapEnd,
                });
                if v.len() > cap {
                    break;
                }
            }
            (v, it.take_error())
        }) {
            ctx.cover("ParserIter");
            // what the iterator says about the first document
            let mut want = vec![];
            let mut closed = false;
            for (e, _) in &base.evs {
                match e {
                    E::StreamStart => {}
                    E::Comment(_) => {}
                    E::DocStart(_) => want.push(E::DocStart(true)),
                    E::DocEnd => {
                        want.push(E::DocEnd);
                        closed = true;
                    }
                    E::StreamEnd => break,
                    x => want.push(x.clone()),
                }
                if closed {
                    break;
                }
            }
            if items != want {
                ctx.violation("ParserIter differs from the iterator", &s, first_diff(&items, &want));
            }
            let docs = base.evs.iter().filter(|e| matches!(e.0, E::DocStart(_))).count();
            let fine = base.ok() && docs == 1;
            if fine != err.is_none() {
                ctx.violation("ParserIter error", &s, format!("{docs} documents, iterator {}; ParserIter error {err:?}", base.errs()));
            }
            if docs <= 1 && !base.ok() && err != base.err {
                ctx.violation("ParserIter reports another error", &s, format!("{:?} instead of {:?}", err, base.err));
            }
        }
        // recursive entry points
        if nesting_bound(&s) > 600 {
            return;
        }
        if let Some(g) = call(ctx, "Parser::load", &s, || ev::run_load(&s, true)) {
            same(ctx, &s, &base, &g, "load (all documents)", true);
        }
        if let Some(g) = call(ctx, "Parser::load with an EventReceiver", &s, || {
            let mut rec = ev::RecNoSpan::default();
            let err = Parser::new_from_str(&s).load(&mut rec, true).err();
            Run { evs: rec.evs.into_iter().map(|e| (e, Default::default())).collect(), err }
        }) {
            same(ctx, &s, &base, &g, "receiver without spans", false);
        }
        if let Some(g) = call(ctx, "Parser::load one document at a time", &s, || ev::run_load(&s, false)) {
            same(ctx, &s, &base, &g, "load (one document at a time)", true);
        }
        // documents that are loaded, iterated over and peeked at in turns
        let plan: Vec<usize> = (0..7).map(|_| r.below(8)).collect();
        if let Some(g) = call(ctx, "load and next in turns", &s, || {
            let mut rec = ev::Rec::default();
            let mut p = Parser::new_from_str(&s);
            let mut i = 0;
            let mut boundary = true;
            loop {
                let w = plan[i % plan.len()];
                i += 1;
                if w & 1 == 1 {
                    let _ = p.peek();
                }
                if boundary && w & 2 == 2 {
                    if let Err(e) = p.load(&mut rec, w & 4 == 4) {
                        return Run { evs: rec.evs, err: Some(e) };
                    }
                    if matches!(rec.evs.last(), Some((E::StreamEnd, _))) {
                        break;
                    }
                    continue;
                }
                match p.next() {
                    Some(Ok((e, sp))) => {
                        boundary = matches!(e, Event::StreamStart | Event::DocumentEnd);
                        rec.evs.push((ev::conv(&e), sp));
                    }
                    Some(Err(e)) => return Run { evs: rec.evs, err: Some(e) },
                    None => break,
                }
                if i > 2 * cap {
                    break;
                }
            }
            Run { evs: rec.evs, err: None }
        }) {
            same(ctx, &s, &base, &g, "load and next in turns", true);
        }
        // a load that takes over from an iteration in progress
        let k = r.below(3);
        if let Some(g) = call(ctx, "Parser::load after a peek", &s, || {
            let mut rec = ev::Rec::default();
            let mut p = Parser::new_from_str(&s);
            for _ in 0..k {
                let _ = p.peek();
            }
            let err = p.load(&mut rec, true).err();
            Run { evs: rec.evs, err }
        }) {
            // A peeked StreamStart is delivered to the receiver as well
            same(ctx, &s, &base, &g, "load after a peek", true);
        }
    }
}

// ------------------------------------------------------------------ P06
pub struct Spans;

/// Where the lines of a text start, found once so that long texts can be checked marker by marker.
struct Lines<'a> {
    t: &'a str,
    starts: Vec<usize>,
}
impl<'a> Lines<'a> {
    fn new(t: &'a str) -> Self {
        let b = t.as_bytes();
        let mut starts = vec![0];
        for i in 0..b.len() {
            if b[i] == b'\n' || b[i] == b'\r' && b.get(i + 1) != Some(&b'\n') {
                starts.push(i + 1);
            }
        }
        Lines { t, starts }
    }
    /// What is wrong with this marker as a position in the text?
    fn bad(&self, m: Marker, eof_ok: bool) -> Option<String> {
        let t = self.t;
        if m.pos > t.len() {
            return Some(format!("offset {} beyond the {} bytes of input", m.pos, t.len()));
        }
        if !t.is_char_boundary(m.pos) {
            return Some(format!("offset {} inside a character", m.pos));
        }
        if eof_ok && m.pos == t.len() {
            return None;
        }
        let line = self.starts.partition_point(|s| *s <= m.pos);
        let mut start = self.starts[line - 1];
        if m.line as usize != line {
            return Some(format!("line {} at offset {}, which is on line {line}", m.line, m.pos));
        }
        let col = (m.pos - start) as u32 + 1;
        // a byte order mark in front of a document takes up no column
        let mut marks = 0;
        while t[start..].starts_with('\u{feff}') {
            marks += 1;
            start += 3;
        }
        let after = marks > 0 && m.pos >= start && m.col == (m.pos - start) as u32 + 1;
        if m.col != col && !after {
            return Some(format!("column {} at offset {}, which is column {col}", m.col, m.pos));
        }
        None
    }
}

impl Check for Spans {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 10_000_000 }
    }
    fn rule(&self) -> String {
        "inputs: generated streams with LF, CRLF or CR line breaks and hostile documents; every marker is checked against the text, and the extents of scalars, aliases and flow collections against an independent reference parser; non-trivial: distinct accepted input with at least 5 events".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["exact extents compared", "error markers checked", "byte order marks", "more than 65535 lines or columns", "breaks: CRLF", "breaks: LF", "breaks: CR"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["line and column are not compared for markers at the very end of the input (implied ends may be reported one line further), nor is it said whether a byte order mark at the start of a line takes up a column".into()]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p06");
        let bulky = r.chance(1, 4000);
        let (mut s, generated) = if bulky {
            ctx.cover("more than 65535 lines or columns");
            (bulk(&mut r), true)
        } else if r.chance(2, 3) { (r#gen::gen_stream(&mut r, &Opts::default()).text, true) } else { (hostile(&mut r, idx, false).0, false) };
        if !generated {
            s = s.replace('\u{feff}', "");
        } else if s.contains('\u{feff}') {
            ctx.cover("byte order marks");
        }
        if generated && !s.contains('\r') {
            match r.below(4) {
                0 => {
                    s = s.replace('\n', "\r\n");
                    ctx.cover("breaks: CRLF");
                }
                1 => {
                    s = s.replace('\n', "\r");
                    ctx.cover("breaks: CR");
                }
                _ => ctx.cover("breaks: LF"),
            }
        }
        let Some(run) = iter(ctx, &s) else { return };
        let lines = Lines::new(&s);
        if let Some(YamlError::ScannerErr { mark, .. }) = &run.err {
            ctx.cover("error markers checked");
            if let Some(b) = lines.bad(*mark, true) {
                ctx.violation("error marker", &s, format!("{b}: {}", run.errs()));
            }
        }
        let mut last: Option<usize> = None;
        for (i, (e, sp)) in run.evs.iter().enumerate() {
            let implied = matches!(e, E::StreamEnd | E::DocEnd | E::MapEnd | E::SeqEnd | E::DocStart(false)) || matches!(e, E::Scalar { v, st: St::Plain, .. } if v.is_empty());
            for (w, m) in [("start", sp.start), ("end", sp.end)] {
                let eof = m.pos == s.len();
                if let Some(b) = lines.bad(m, implied && eof) {
                    ctx.violation(format!("{w} marker of {}: {}", ev_kind(e), b.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()), &s, format!("event {i} {e:?} {w} {}: {b}", ev::marker(m)));
                }
            }
            if sp.start.pos > sp.end.pos {
                ctx.violation("a span ends before it starts", &s, format!("event {i} {e:?} {}-{}", ev::marker(sp.start), ev::marker(sp.end)));
            }
            if !matches!(e, E::MapEnd | E::SeqEnd) {
                if last.is_some_and(|l| l > sp.start.pos) {
                    ctx.violation("spans go backwards", &s, format!("event {i} {e:?} starts at {} after {last:?}", sp.start.pos));
                }
                last = Some(sp.start.pos);
            }
        }
        ctx.cover_n("markers checked", run.evs.len() as u64 * 2);
        if !run.ok() {
            return;
        }
        if run.evs.len() >= 5 {
            ctx.nontrivial(s.as_bytes());
        }
        cover_events(ctx, &run.evs);
        if s.contains('\r') || bulky {
            return;
        }
        let refp::Verdict::Valid(want) = refp::judge(&s) else { return };
        if want.len() != run.evs.len() || want.iter().zip(&run.evs).any(|(a, b)| a.0 != b.0) {
            return;
        }
        let offs: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len(), s.len() + 1]).collect();
        let bad = |ctx: &mut Ctx, e: &E, what: &str, got: usize, want: usize| {
            ctx.violation(format!("{what} of {}", ev_kind(e)), &s, format!("{e:?}: {what} reported at {got}, it is at {want}"));
        };
        for ((e, sp), (_, a, b)) in run.evs.iter().zip(&want) {
            if *a == usize::MAX {
                continue;
            }
            let a = offs[(*a).min(offs.len() - 1)];
            let b = offs[(*b).min(offs.len() - 1)];
            let (st, en) = match e {
                E::Alias(_) => (true, true),
                E::Scalar { v, st: St::Plain, .. } => (!v.is_empty(), !v.is_empty()),
                E::Scalar { st: St::Single | St::Double, .. } => (true, false),
                E::SeqStart(..) | E::MapStart(..) => (matches!(s.as_bytes().get(a), Some(b'[' | b'{')) && matches!(s.as_bytes().get(sp.start.pos), Some(b'[' | b'{')), false),
                _ => (false, false),
            };
            if st {
                ctx.cover("exact extents compared");
                if sp.start.pos != a {
                    bad(ctx, e, "start", sp.start.pos, a);
                }
            }
            if en && sp.end.pos != b {
                bad(ctx, e, "end", sp.end.pos, b);
            }
            if matches!(e, E::Scalar { st: St::Single | St::Double, .. }) {
                let rest = s.get(b..sp.end.pos);
                if rest.is_none_or(|x| x.chars().any(|c| !c.is_whitespace()) && !x.contains('#')) {
                    bad(ctx, e, "end", sp.end.pos, b);
                }
            }
            if let E::Scalar { st: St::Literal | St::Folded, v, .. } = e {
                // the header precedes the span; the content lies within it
                if !v.trim().is_empty() {
                    let w = v.split_whitespace().next().unwrap();
                    if s.get(sp.start.pos..sp.end.pos).is_none_or(|x| !x.contains(w)) {
                        bad(ctx, e, "extent", sp.start.pos, a);
                    }
                    ctx.cover("block scalar extents compared");
                }
            }
        }
        if idx % 9001 == 0 {
            ctx.sample(format!("{s:?}: {} spans", run.evs.len()));
        }
    }
}
