//! P01 memory safety and UTF-8 validity, P02 bounded progress, P03 no panic.
use super::util::*;
use crate::ev::{self, E};
use crate::r#gen::{self, Opts};
use crate::rt::{self, Check, Ctx, Rng, Tier};
use crate::src::{MiniSource, STEP_PANIC};
use std::borrow::Cow;
use yam_core::parsing::{Event, Parser, ParserIter, StrSource};
use yam_core::prelude::{Yaml, YamlData, YamlDocAccess, YamlLoader, YamlScalar};

fn utf8(ctx: &mut Ctx, what: &str, input: &str, s: &str) {
    let b = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() {
        ctx.violation(format!("{what} is not UTF-8"), input, format!("{what}: bytes {b:02x?}"));
    }
}
pub fn utf8_events(ctx: &mut Ctx, input: &str, evs: &[(E, yam_core::prelude::Span)]) {
    for (e, _) in evs {
        match e {
            E::Scalar { v, tag, .. } => {
                utf8(ctx, "scalar value", input, v);
                if let Some((h, s)) = tag {
                    utf8(ctx, "tag", input, h);
                    utf8(ctx, "tag", input, s);
                }
            }
            E::SeqStart(_, Some((h, s))) | E::MapStart(_, Some((h, s))) => {
                utf8(ctx, "tag", input, h);
                utf8(ctx, "tag", input, s);
            }
            E::Comment(c) => utf8(ctx, "comment", input, c),
            _ => {}
        }
    }
}
pub fn utf8_tree(ctx: &mut Ctx, input: &str, y: &Yaml) {
    match &y.0 {
        YamlData::Scalar(YamlScalar::String(s)) => utf8(ctx, "loaded string", input, s),
        YamlData::Sequence(v) => v.iter().for_each(|x| utf8_tree(ctx, input, x)),
        YamlData::Mapping(v) => v.iter().for_each(|x| {
            utf8_tree(ctx, input, &x.key);
            utf8_tree(ctx, input, &x.value);
        }),
        YamlData::Tagged(t, b) => {
            utf8(ctx, "loaded tag", input, &t.handle);
            utf8(ctx, "loaded tag", input, &t.suffix);
            utf8_tree(ctx, input, b);
        }
        _ => {}
    }
}

/// Hostile text that also covers long inputs and every kind of block/vector boundary.
pub fn any_input(r: &mut Rng, idx: u64) -> (String, &'static str) {
    match r.below(14) {
        0 => (pumped(r, 600).0, "pumped"),
        12 => {
            // valid escapes in a row: every character the library can be made to decode
            let k = r.next();
            let s: String = escape_block(r, k).into_iter().filter(|x| x.1.is_some()).map(|x| x.0).collect();
            (format!("{}\"{s}\"", r.pick(&["", "- ", "{a: ", "k: "])), "escape row")
        }
        13 => {
            let k = r.next();
            let b = percent_block(r, k);
            let i = r.below(b.len());
            let t = &b[i].0;
            (format!("{}{t} v", r.pick(&["!", "!!", "!a", "%TAG !e! a\n--- !e!", "%TAG !e! "])), "percent escape")
        }
        1 => {
            // random scalar values: exercises the UTF-8 paths
            let n = r.range(1, 40);
            let s: String = (0..n)
                .map(|_| match r.below(6) {
                    0 => char::from_u32(r.below(0x80) as u32).unwrap(),
                    1 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
                    2 => char::from_u32(0x800 + r.below(0xD000) as u32).unwrap_or('x'),
                    3 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap_or('x'),
                    _ => *r.pick(&[' ', '\n', '-', ':', '\'', '"', '\\', '%', '!', '&', '#', '|', 'x', '4', 'u', '1', '<', '>']),
                })
                .collect();
            (s, "random characters")
        }
        2 => {
            // escapes and percent escapes, possibly broken
            const T: &[&str] = &["\"", "\\x", "\\u", "\\U", "41", "e9", "00", "d800", "D83D", "DE00", "0010FFFF", "00110000", "FFFFFFFF", "263A", "\\0", "\\a", "\\_", "\\N", "\\L", "\\P", "\\ ", "\\\t", "\\\n", "!", "%", "%C3", "%A9", "%E6%97", "%F0%9F%98%80", "%FF", "%80", "<", ">", "%4", "é", " ", "x"];
            let n = r.range(1, 12);
            let s: String = (0..n).map(|_| *r.pick(T)).collect();
            let s = match r.below(4) {
                0 => format!("\"{s}"),
                1 => format!("!{s}"),
                2 => format!("!<{s}"),
                _ => format!("%TAG !a! {s}\n---\n!a!{s} x"),
            };
            (s, "escapes")
        }
        _ => {
            let (s, k) = hostile(r, idx, true);
            (s, k)
        }
    }
}

// ------------------------------------------------------------------ P01
pub struct Memory;
impl Check for Memory {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 350_000 } else { 6_000_000 }
    }
    fn rule(&self) -> String {
        "inputs: token soup, exhaustive short strings, mutated/truncated test-suite and generated documents, pumped repetitions, random characters, broken escapes; each handed over in an exactly sized heap block and again as a prefix of a larger one; a case is non-trivial when the input is non-empty and distinct".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["strings validated", "prefix runs compared", "loaded trees walked after the input was freed"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "run in an AddressSanitizer build: any heap/stack out-of-bounds or use-after-free access reached is reported; the plain build adds the standard library's unsafe-precondition checks".into(),
            "reads past the end of the input that stay inside a larger live allocation are detected by comparing with an exactly sized copy".into(),
        ]
    }
    fn limits(&self) -> (u64, usize) {
        (30, 2 << 30)
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p01");
        let (s, kind) = any_input(&mut r, idx);
        if nesting_bound(&s) > 600 {
            ctx.cover("skipped: too deep");
            return;
        }
        ctx.cover(&format!("input: {kind}"));
        if !s.is_empty() {
            ctx.nontrivial(s.as_bytes());
        }
        if idx % 5000 == 0 {
            ctx.sample(format!("{s:?}"));
        }
        rt::note(&s);
        let exact: Box<str> = s.clone().into_boxed_str();
        let a = call(ctx, "iterating the parser", &s, || ev::run_iter(&exact));
        if let Some(a) = &a {
            utf8_events(ctx, &s, &a.evs);
            ctx.cover_n("strings validated", a.evs.len() as u64);
        }
        // prefix of a larger block
        const TAILS: &[&str] = &["a", "]", "}", "\n", "'", "\"", ": x", "\n- ", "-", "é", "9", ".", "--", "\u{feff}", " #", "\r\n", "}", "\\", "4142"];
        let t = *r.pick(TAILS);
        let big = format!("{s}{}", t.repeat(80));
        let b = call(ctx, "iterating the parser over a prefix", &s, || ev::run_iter(&big[..s.len()]));
        if let (Some(a), Some(b)) = (&a, &b) {
            ctx.cover("prefix runs compared");
            if a != b {
                ctx.violation(
                    "result depends on bytes after the input",
                    &s,
                    format!("with {t:?} behind the input: {}\n{} vs {}", first_diff(&b.events(), &a.events()), b.errs(), a.errs()),
                );
            }
        }
        match idx % 4 {
            0 => {
                // every result must survive its input
                let mut owned = s.clone();
                let docs = call(ctx, "Yaml::load_from", &s, || Yaml::load_from(&owned));
                unsafe { owned.as_mut_vec().fill(b'X') };
                drop(owned);
                if let Some(Ok(d)) = docs {
                    ctx.cover("loaded trees walked after the input was freed");
                    d.iter().for_each(|y| utf8_tree(ctx, &s, y));
                    let c = d.clone();
                    drop(d);
                    c.iter().for_each(|y| utf8_tree(ctx, &s, y));
                }
            }
            1 => {
                if let Some(k) = call(ctx, "keep_tags iteration", &s, || ev::run_keep_tags(&exact)) {
                    utf8_events(ctx, &s, &k.evs);
                }
                if let Some(k) = call(ctx, "Parser::load", &s, || ev::run_load(&exact, true)) {
                    utf8_events(ctx, &s, &k.evs);
                }
            }
            2 => {
                if let Some(Ok(v)) = call(ctx, "from_str", &s, || yam_serde::from_str::<serde_json::Value>(&exact)) {
                    ctx.cover("deserialized values walked");
                    walk_json(ctx, &s, &v);
                }
                if let Some(Ok(v)) = call(ctx, "from_str::<String>", &s, || yam_serde::from_str::<String>(&exact)) {
                    utf8(ctx, "deserialized string", &s, &v);
                }
            }
            _ => {
                let mut f = yam_serde::ser::PrettyFormatter::pretty();
                f.pref_string_length = r.below(30);
                if let Some(Ok(o)) = call(ctx, "to_pretty_string", &s, || yam_serde::to_pretty_string(&&*exact, f)) {
                    ctx.cover("serialized strings validated");
                    utf8(ctx, "serialized string", &s, &o);
                }
                for out in [yam_core::escaper::escape_plain(Cow::Borrowed(exact.as_bytes())), yam_core::escaper::escape_single_quotes(Cow::Borrowed(exact.as_bytes()))] {
                    if std::str::from_utf8(&out).is_err() {
                        ctx.violation("escaper output is not UTF-8", &s, format!("{out:02x?}"));
                    }
                }
            }
        }
    }
}
pub fn walk_json(ctx: &mut Ctx, input: &str, v: &serde_json::Value) {
    match v {
        serde_json::Value::String(s) => utf8(ctx, "deserialized string", input, s),
        serde_json::Value::Array(a) => a.iter().for_each(|x| walk_json(ctx, input, x)),
        serde_json::Value::Object(o) => o.iter().for_each(|(k, x)| {
            utf8(ctx, "deserialized key", input, k);
            walk_json(ctx, input, x);
        }),
        _ => {}
    }
}

// ------------------------------------------------------------------ P02
pub struct Progress;
pub const STEPS_PER_BYTE: u64 = 40;
pub const STEPS_BASE: u64 = 400;
/// Bytes of a large input.
pub const LARGE: usize = 1_500_000;
pub const MEM_PER_BYTE: usize = 1200;
pub const MEM_BASE: usize = 64 << 10;
impl Progress {
    fn eval(ctx: &mut Ctx, s: &str, desc: &str) {
        let len = s.len() as u64;
        let budget = STEPS_PER_BYTE * len + STEPS_BASE;
        rt::note(s);
        rt::mem_reset_peak();
        let m0 = rt::mem_current();
        ctx.eval();
        match rt::guarded(|| ev::run_steps(s, budget)) {
            Ok((run, steps)) => {
                let mem = rt::mem_peak() - m0;
                ctx.max("source steps of one input", steps);
                ctx.max("input bytes", len);
                ctx.max("milli-steps per byte (inputs over 1 kB)", if len > 1000 { steps * 1000 / len } else { 0 });
                ctx.max("peak bytes per input byte (inputs over 1 kB)", if len > 1000 { mem as u64 / len } else { 0 });
                ctx.max("events of one input", run.evs.len() as u64);
                ctx.cover_n("events seen", run.evs.len() as u64);
                ctx.cover(if run.ok() { "runs to the end of the stream" } else { "runs to an error" });
                if mem > MEM_PER_BYTE * s.len() + MEM_BASE {
                    ctx.violation("memory not proportional to the input", s, format!("{desc}: {mem} bytes allocated at the peak for {len} bytes of input"));
                }
            }
            Err(p) if p.contains(STEP_PANIC) => {
                ctx.violation("source steps not proportional to the input", s, format!("{desc}: more than {budget} source steps for {len} bytes of input"));
            }
            Err(p) => ctx.violation(format!("panic: {}", short(&p)), s, format!("{desc}: {p}")),
        }
    }
}
impl Progress {
    /// Loops that do not go through the source show in the CPU time of large inputs: eight times
    /// the input may take about eight times as long. Far below the threshold on linear code,
    /// far above it on quadratic code.
    fn large(ctx: &mut Ctx, r: &mut Rng) {
        const NUMBERED: &[(&str, &str, &str)] = &[
            ("", "k@: v\n", ""), ("- ", "? k@\n  : v\n  ", ""), ("{", "k@: v@, ", "}"), ("", "- &a@ v\n", ""), ("- &a0 x\n", "- &a@ v\n- *a@\n- *a0\n", ""), ("", "%TAG !t@! tag:x\n", "--- !t1!a b"),
            ("%TAG !t! tag:x\n---\n", "- !t!u@ v\n", ""), ("", "--- &a x@\n", ""), ("", "&a@ k@: &b@ v\n", ""), ("[", "k@: v, ", "]"), ("[", "[k@]: v, ", "]"), ("", "\"k@\": |\n v@\n", ""), ("a: >\n", "  l@\n\n", "\n"), ("\"", "l@\n\n", "\""),
            ("", "- k@: v\n  l@: w\n", ""), ("", "# c@\n", "a"), ("", "k@:\n  - v\n", ""),
        ];
        let (p, u, s) = if r.chance(2, 3) {
            pump_parts(r)
        } else {
            let (p, u, s) = *r.pick(NUMBERED);
            (p, u.to_string(), s)
        };
        let make = |n: usize| {
            let mut t = p.to_string();
            let mut i = 0;
            while t.len() < n {
                if u.contains('@') && u.len() > 1 {
                    t.push_str(&u.replace('@', &i.to_string()));
                } else {
                    t.push_str(&u);
                }
                i += 1;
            }
            t + s
        };
        let (small, big) = (make(LARGE / 8), make(LARGE));
        let desc = format!("{p:?} + {u:?} x {} + {s:?}", LARGE / u.len());
        rt::note(&desc);
        let tree = nesting_bound(&big) <= 600 && !(big.contains('*') && big.contains('&') && !u.contains('@'));
        let mut apis: Vec<(&str, Box<dyn Fn(&str) -> bool>)> = vec![("iterating", Box::new(|x: &str| ev::run_iter(x).ok()))];
        if tree {
            apis.push(("Yaml::load_from", Box::new(|x: &str| Yaml::load_from(x).is_ok())));
            apis.push(("from_str", Box::new(|x: &str| yam_serde::from_str::<serde_json::Value>(x).is_ok())));
        }
        for (name, f) in apis {
            let time = |x: &str| {
                let t = rt::cpu_us();
                let r = rt::guarded(|| f(x));
                (rt::cpu_us() - t, r)
            };
            ctx.evals(2);
            let (t1, _) = time(&small);
            let (t2, out) = time(&big);
            ctx.max(&format!("CPU ms of {name} on a {} kB input", LARGE / 1000), t2 / 1000);
            ctx.cover(&format!("large input: {name}"));
            if let Err(e) = out {
                ctx.violation(format!("panic: {}", short(&e)), &small, format!("{desc}: {e}"));
            } else if t2 > 5_000_000 && t2 > 28 * t1 {
                ctx.violation("time not proportional to the input", &small, format!("{desc}: {name} took {t1} us on an eighth of the input and {t2} us on all of it"));
            }
        }
    }
}
impl Check for Progress {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 2_000_000 }
    }
    fn rule(&self) -> String {
        "inputs: as for P03, plus prefix + unit repeated up to 3 kB (every 40th case up to 40 kB, every 301st 1.5 MB) + suffix; parsed over a source that counts every call; non-trivial: distinct input of at least 2 bytes".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["runs to the end of the stream", "runs to an error", "input: pumped"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            format!("budget: {STEPS_PER_BYTE} source calls per input byte + {STEPS_BASE}, {MEM_PER_BYTE} bytes of memory per input byte + {MEM_BASE}, 8 events per byte + 64"),
            "loops that never touch the source are caught by a CPU-time limit of 20 s per case (the largest case takes well under 1 s), and by comparing the CPU time of a 1.5 MB input with that of an eighth of it (violation: over 5 s and over 28 times as long)".into(),
            "alias expansion by the loader is outside this property".into(),
        ]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p02");
        if idx % 301 == 7 {
            return Self::large(ctx, &mut r);
        }
        let (s, desc, kind) = if r.chance(1, 4) {
            let max = if idx % 40 == 0 { 40_000 } else { 3_000 };
            let (s, d) = pumped(&mut r, max);
            (s, d, "pumped")
        } else {
            let (s, k) = any_input(&mut r, idx);
            (s, k.to_string(), k)
        };
        ctx.cover(&format!("input: {kind}"));
        if s.len() >= 2 {
            ctx.nontrivial(s.as_bytes());
        }
        if idx % 3001 == 0 {
            ctx.sample(format!("{desc}: {:?}", s.chars().take(80).collect::<String>()));
        }
        Self::eval(ctx, &s, &desc);
        if idx % 8 == 0 && nesting_bound(&s) <= 600 && !s.contains('*') {
            // the pulling interfaces must end too (CPU watchdog)
            call(ctx, "Yaml::load_from", &s, || Yaml::load_from(&s).is_ok());
            call(ctx, "from_str", &s, || yam_serde::from_str::<serde_json::Value>(&s).is_ok());
            let n = s.len() * 8 + 64;
            let k = call(ctx, "ParserIter", &s, || ParserIter::from_str_ref(&s).take(n + 1).count());
            if k.is_some_and(|k| k > n) {
                ctx.violation("ParserIter does not end", &s, "more items than any document of this size has");
            }
            ctx.cover("pulling interfaces run");
        }
    }
}

// ------------------------------------------------------------------ P03
pub struct NoPanic;
impl NoPanic {
    fn apis(ctx: &mut Ctx, s: &str, r: &mut Rng) {
        rt::note(s);
        // iterator, then keep polling after the end or the error
        let ended = call(ctx, "Parser iteration and polling after its end", s, || {
            let mut p = Parser::new_from_str(s);
            let mut n = 0;
            let mut err = false;
            for _ in 0..ev::ev_cap(s.len()) {
                match p.next() {
                    Some(Ok((e, sp))) => {
                        n += 1;
                        let _ = (e.is_scalar(), e.is_doc_start(), e.as_simple_str(), format!("{e:?}{sp:?}").len());
                        if let Event::Scalar(v) = &e {
                            let _ = v.is_null();
                            let _ = YamlScalar::<f64, i64, Cow<str>>::parse_from_cow(v.value.clone());
                            let _ = v.tag.as_ref().map(|t| t.to_string());
                        }
                        let _ = p.get_anchor(n);
                    }
                    Some(Err(e)) => {
                        let _ = format!("{e} {e:?}");
                        err = true;
                        break;
                    }
                    None => break,
                }
            }
            for _ in 0..20 {
                let _ = p.next();
                let _ = p.peek();
                let _ = p.next_event();
            }
            let mut rec = ev::Rec::default();
            let _ = p.load(&mut rec, true);
            err
        });
        if let Some(e) = ended {
            ctx.cover(if e { "runs ending in an error" } else { "runs ending in success" });
        }
        let plan: Vec<u8> = (0..16).map(|_| r.below(3) as u8).collect();
        call(ctx, "peek/next_event interleaving", s, || {
            let mut p = Parser::new(StrSource::new(s)).keep_tags(true);
            for i in 0..ev::ev_cap(s.len()) {
                let stop = match plan[i % plan.len()] {
                    0 => p.peek().is_none_or(|x| x.is_err()) && p.next_event().is_none_or(|x| x.is_err()),
                    1 => p.next_event().is_none_or(|x| x.is_err()),
                    _ => p.next().is_none_or(|x| x.is_err()),
                };
                if stop {
                    break;
                }
            }
        });
        call(ctx, "ParserIter", s, || {
            let mut it = ParserIter::from_str_ref(&s);
            let mut n = 0;
            while let Some(e) = it.next() {
                let _ = e.as_simple_str();
                n += 1;
                if n > ev::ev_cap(s.len()) {
                    break;
                }
            }
            let _ = it.take_error();
            for _ in 0..10 {
                let _ = it.next();
            }
        });
        call(ctx, "a caller-supplied Source", s, || {
            let r = ev::run_mini(s);
            r.evs.len()
        });
        if nesting_bound(s) > 600 {
            ctx.cover("deep input: recursive entry points skipped");
            return;
        }
        call(ctx, "Parser::load", s, || {
            let mut rec = ev::Rec::default();
            let mut p = Parser::new_from_str(s);
            for _ in 0..40 {
                if p.load(&mut rec, false).is_err() {
                    break;
                }
            }
            let mut rec = ev::RecNoSpan::default();
            let _ = Parser::new_from_str(s).load(&mut rec, true);
        });
        call(ctx, "YamlLoader", s, || {
            let docs = Yaml::load_from(s);
            let _ = Yaml::load_single(s);
            let mut p = Parser::new_from_str(s);
            let _ = YamlLoader::<Yaml>::load_from_parser(&mut p);
            let _ = YamlLoader::<Yaml>::load_single_from_parser(&mut p);
            let mut p = Parser::new_from_str(s);
            for _ in 0..10 {
                if YamlLoader::<Yaml>::load_single_from_parser(&mut p).is_err() {
                    break;
                }
            }
            let _ = YamlLoader::<Yaml>::load_single_source(MiniSource::new(s));
            if let Ok(d) = docs {
                let _ = format!("{d:?}").len();
                let _ = d == d.clone();
                for y in &d {
                    let _ = (y.as_bool(), y.as_i64(), y.as_f64(), y.as_str(), y.as_mapping().is_ok(), y.as_sequence().is_ok(), y.get_tag(), y.get_type(), y.is_non_empty_collection());
                }
            }
        });
        call(ctx, "serde from_str", s, || {
            use std::collections::BTreeMap;
            let _ = yam_serde::from_str::<serde_json::Value>(s);
            let _ = yam_serde::from_str::<String>(s);
            let _ = yam_serde::from_str::<i8>(s);
            let _ = yam_serde::from_str::<u64>(s);
            let _ = yam_serde::from_str::<f32>(s);
            let _ = yam_serde::from_str::<char>(s);
            let _ = yam_serde::from_str::<bool>(s);
            let _ = yam_serde::from_str::<Option<i32>>(s);
            let _ = yam_serde::from_str::<()>(s);
            let _ = yam_serde::from_str::<Vec<Option<String>>>(s);
            let _ = yam_serde::from_str::<(i16, String)>(s);
            let _ = yam_serde::from_str::<BTreeMap<String, Vec<serde_json::Value>>>(s);
            let _ = yam_serde::from_str::<super::serde_ck::En>(s);
            let _ = yam_serde::from_str::<Vec<super::serde_ck::En>>(s);
            let _ = yam_serde::from_str::<super::serde_ck::Cfg>(s).map_err(|e| e.to_string());
            let _ = yam_serde::from_str::<serde::de::IgnoredAny>(s);
        });
        call(ctx, "to_pretty_string", s, || {
            let mut f = yam_serde::ser::PrettyFormatter::pretty();
            f.pref_string_length = plan[0] as usize * 7;
            f.depth_limit = plan[1] as usize;
            let _ = yam_serde::to_pretty_string(&s, f);
            for c in s.chars().take(4) {
                let _ = yam_serde::to_pretty_string(&c, yam_serde::ser::PrettyFormatter::pretty());
            }
            let _ = yam_serde::to_pretty_string(&s, yam_serde::ser::PrettyFormatter::default());
        });
        for st in [yam_core::prelude::ScalarType::Plain, yam_core::prelude::ScalarType::Literal] {
            call(ctx, "scalar resolution", s, || {
                let _ = YamlScalar::<f64, i64, Cow<str>>::parse_from_cow(Cow::Borrowed(s));
                for t in ["bool", "int", "float", "null", "str", "map", ""] {
                    let tag = yam_core::parsing::Tag::new("tag:yaml.org,2002:", t);
                    let _ = YamlScalar::<f64, i64, Cow<str>>::parse_from_cow_and_metadata(Cow::Borrowed(s), st, Some(Cow::Borrowed(&tag)));
                }
            });
        }
    }
}
impl Check for NoPanic {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 90_000 } else { 2_000_000 }
    }
    fn rule(&self) -> String {
        "inputs: token soup, exhaustive short strings over 33 characters, mutated/truncated/spliced test-suite and generated documents, pumped repetitions, random characters, broken escapes; every public entry point is called on each; non-trivial: distinct non-empty input".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["runs ending in an error", "runs ending in success"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "debug build: arithmetic overflow and the standard library's unsafe-precondition checks panic or abort".into(),
            "nesting deeper than 600 goes to the non-recursive interfaces only (known finding: recursion in load/from_str)".into(),
            "serializing sequences, maps, structs, enums, newtypes and bytes is unimplemented upstream and outside the domain".into(),
        ]
    }
    fn probe(&self, input: &str) -> Option<String> {
        let s = match input {
            "nest:[" => "[".repeat(100_000),
            "laughs" => {
                // ten levels of nine aliases each
                let mut t = String::from("- &a0 x\n");
                for i in 1..=10 {
                    t.push_str(&format!("- &a{i} [{}]\n", vec![format!("*a{}", i - 1); 9].join(",")));
                }
                return rt::guarded(|| Yaml::load_from(&t).map(|d| d.len())).err();
            }
            x => x.to_string(),
        };
        let r = rt::guarded(|| {
            let mut rec = ev::Rec::default();
            let _ = Parser::new_from_str(&s).load(&mut rec, true);
        });
        r.err()
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p03");
        let (s, kind) = if r.chance(1, 12) {
            let mx = r.range(10, 1200);
            (pumped(&mut r, mx).0, "pumped")
        } else {
            any_input(&mut r, idx)
        };
        ctx.cover(&format!("input: {kind}"));
        if !s.is_empty() {
            ctx.nontrivial(s.as_bytes());
        }
        if idx % 5003 == 0 {
            ctx.sample(format!("{s:?}"));
        }
        Self::apis(ctx, &s, &mut r);
        if idx % 64 == 0 {
            // dimensions: long runs and deep nesting on the non-recursive interface
            let (s, d) = pumped(&mut r, 20_000);
            ctx.nontrivial(s.as_bytes());
            ctx.cover("input: large pumped");
            rt::note(&s);
            call(ctx, &format!("iterating {d}"), &s, || ev::run_iter(&s).evs.len());
        }
        if idx % 16 == 0 {
            let o = Opts { big: 100, ..Opts::default() };
            let t = r#gen::gen_stream(&mut r, &o).text;
            ctx.cover("input: large generated");
            Self::apis(ctx, &t, &mut r);
        }
    }
}
