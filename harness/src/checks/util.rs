use crate::corpus::corpus;
use crate::ev::{self, E, Run};
use crate::r#gen::{self, Gen, Opts};
use crate::rt::{self, Ctx, Rng};
use crate::soup;

/// A hostile input and the family it came from.
pub fn hostile(r: &mut Rng, idx: u64, nasty: bool) -> (String, &'static str) {
    let c = corpus();
    match r.below(11) {
        10 => {
            if r.chance(1, 2) {
                (soup::long(r), "one long part")
            } else {
                (soup::directives(r), "directives and markers")
            }
        }
        0 | 1 => (soup::soup(r, 9, nasty), "token soup"),
        2 => (soup::soup(r, 40, nasty), "long token soup"),
        3 => (soup::exhaustive(idx / 3), "exhaustive short"),
        4 | 5 => {
            let (a, b) = (r.below(c.len()), r.below(c.len()));
            (soup::mutate(r, &c[a].input, &c[b].input, nasty), "mutated test-suite document")
        }
        6 => {
            let a = r.below(c.len());
            (c[a].input.clone(), "test-suite document")
        }
        7 => {
            let o = Opts::default();
            (r#gen::gen_stream(r, &o).text, "generated stream")
        }
        8 => {
            let o = Opts::default();
            let g = r#gen::gen_stream(r, &o).text;
            let b = r.below(c.len());
            (soup::mutate(r, &g, &c[b].input, nasty), "mutated generated stream")
        }
        _ => {
            let o = Opts::default();
            let g = r#gen::gen_stream(r, &o).text;
            // cut anywhere
            let cs: Vec<char> = g.chars().collect();
            let k = r.below(cs.len() + 1);
            (cs[..k].iter().collect(), "truncated generated stream")
        }
    }
}

pub const PUMPS: &[&str] = &[
    "a", " ", "\n", "\t", "-", "- ", "-\n", "? ", "?\n", ": ", ":\n", "a: ", "a:\n", "a: b\n", "- a\n", "[", "]", "{", "}", ",", "[a,", "{a: b,", "a,", "'", "''", "\"", "\\", "\"a\" ", "'a' ", "#", " # c\n", "# c\n", "&a ", "*a ", "*a\n", "!t ", "!!str ",
    "|\n", "|\n a\n", ">\n a\n", ">\n\n", " \n", "\n ", "\r", "\r\n", "%a\n", "%TAG !a! b\n", "---\n", "--- a\n", "...\n", "...", "é", "日", "😀", "\u{feff}", "\0", "a b ", "a\n", "a\n\n", "- - ", "? ? ", "- ? ", "- a: ", "[[", "[]", "{}", "[],", "{},", "[a]: ", "? a\n: b\n", "x: &a a\n", "x: *a\n",
    "\\n", "\\x41", "\\u263a", "%41", "!%41", "!<a> ", "\"\\\n", "'\n", "\"\n", "a:b", "a#b", "::", ": :", "--", "..", "!", "!!", "&", "*", "@", "`", "|", ">", "|1", ">-", "|+\n", "- |\n", "- >\n  a\n", "0", "0x", "1.", "~", "null,",
];

/// prefix + pump^k + suffix
pub fn pumped(r: &mut Rng, max: usize) -> (String, String) {
    let (p, u, s) = pump_parts(r);
    let k = (max / u.len()).max(1);
    let k = if r.chance(1, 3) { r.range(1, k) } else { k };
    (format!("{p}{}{s}", u.repeat(k)), format!("{p:?} + {u:?} x {k} + {s:?}"))
}
/// Prefix, unit and suffix of a repetition.
pub fn pump_parts(r: &mut Rng) -> (&'static str, String, &'static str) {
    const PRE: &[&str] = &["", "", "", "a", "- ", "a: ", "? ", "[", "{", "{a: ", "'", "\"", "|\n ", ">\n ", "|\n", "# ", "&", "*", "!", "!<", "%", "---\n", "--- |\n", "- [", "[a, {b: ", "%TAG !a! ", "&a ", "a:\n  ", "\u{feff}", "- - - "];
    const SUF: &[&str] = &["", "", "", "\n", "a", "]", "}", "'", "\"", "\n\n", "\n---\n", "\n...\n", ": b", ": b\n", ">", " #c", "\n a", "\na: b", ",", "]]]]", "\0"];
    let p = *r.pick(PRE);
    let u: String = if r.chance(2, 3) {
        (*r.pick(PUMPS)).to_string()
    } else {
        let n = r.range(2, 3);
        (0..n).map(|_| *r.pick(PUMPS)).collect()
    };
    (p, u, *r.pick(SUF))
}

/// Deepest bracket / indicator nesting an input could possibly have: keeps the
/// recursive entry points away from the listed stack-overflow finding.
pub fn nesting_bound(s: &str) -> usize {
    let mut best = 0usize;
    let mut cur = 0usize;
    let mut line_cols = 0usize;
    for c in s.bytes() {
        match c {
            b'[' | b'{' => {
                cur += 1;
                line_cols += 1;
            }
            b']' | b'}' => cur = cur.saturating_sub(1),
            b'-' | b'?' | b':' => line_cols += 1,
            b'\n' | b'\r' => {
                best = best.max(line_cols);
                line_cols = 0;
            }
            _ => {}
        }
        best = best.max(cur);
    }
    best = best.max(line_cols);
    // indentation nesting: each deeper line can open two more levels
    let mut depth = 0;
    let mut prev = 0;
    for l in s.split(['\n', '\r']) {
        let i = l.len() - l.trim_start_matches(' ').len();
        if i > prev {
            depth += 2;
        }
        prev = i;
    }
    best + depth
}
pub const MAX_NEST: usize = 1500;

/// Runs `f` on the code under test; a panic is a violation.
pub fn call<R>(ctx: &mut Ctx, api: &str, input: &str, f: impl FnOnce() -> R) -> Option<R> {
    ctx.eval();
    match rt::guarded(f) {
        Ok(r) => Some(r),
        Err(p) => {
            ctx.violation(format!("panic in {api}: {}", short(&p)), input, format!("{api} panicked: {p}"));
            None
        }
    }
}
pub fn short(p: &str) -> String {
    p.chars().filter(|c| !c.is_ascii_digit()).take(80).collect()
}

/// The event stream of `input`, read through one of the public interfaces. Which one depends on
/// the input only, so a failing input stays failing while it is minimised or replayed.
pub fn iter(ctx: &mut Ctx, input: &str) -> Option<Run> {
    rt::note(input);
    match rt::fnv(input.as_bytes()) >> 20 & 15 {
        0 | 1 => {
            ctx.cover("read through: next_event");
            call(ctx, "next_event", input, || ev::run_next_event(input, 0))
        }
        2 => {
            ctx.cover("read through: peek and next_event");
            call(ctx, "peek and next_event", input, || ev::run_next_event(input, 1))
        }
        3 => {
            ctx.cover("read through: a caller-supplied source");
            call(ctx, "a caller-supplied Source", input, || ev::run_mini(input))
        }
        4..=6 if nesting_bound(input) <= 600 => {
            ctx.cover("read through: load");
            call(ctx, "Parser::load", input, || ev::run_load(input, true))
        }
        7 if nesting_bound(input) <= 600 => {
            ctx.cover("read through: load, one document at a time");
            call(ctx, "Parser::load one document at a time", input, || ev::run_load(input, false))
        }
        _ => iter_plain(ctx, input),
    }
}
pub fn iter_plain(ctx: &mut Ctx, input: &str) -> Option<Run> {
    rt::note(input);
    call(ctx, "iterating the parser", input, || ev::run_iter(input))
}

pub fn first_diff(got: &[E], want: &[E]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let g = got.get(i).map_or("(end)".to_string(), |e| format!("{e:?}"));
    let w = want.get(i).map_or("(end)".to_string(), |e| format!("{e:?}"));
    format!("first difference at event {i}:\n  got  {g}\n  want {w}")
}

/// The generated stream must parse to exactly the model's events.
pub fn expect(ctx: &mut Ctx, sig: &str, text: &str, want: &[E]) -> bool {
    let Some(run) = iter(ctx, text) else { return false };
    if !run.ok() {
        ctx.violation(format!("{sig}: rejected"), text, format!("well-formed input rejected: {}", run.errs()));
        return false;
    }
    let got = run.events();
    if got != want {
        ctx.violation(format!("{sig}: wrong events"), text, format!("{}\ngot:\n{}want:\n{}", first_diff(&got, want), ev::show(&got), ev::show(want)));
        return false;
    }
    true
}

pub fn gen_in(ctx: &mut Ctx, salt: &str, o: &Opts) -> Option<Gen> {
    let mut r = ctx.rng(salt);
    match rt::guarded(|| r#gen::gen_stream(&mut r, o)) {
        Ok(g) => {
            for (k, v) in &g.feats {
                ctx.cover_n(&format!("layout: {k}"), *v);
            }
            Some(g)
        }
        Err(p) => {
            ctx.inconclusive(&format!("generator failed: {}", short(&p)));
            None
        }
    }
}

pub fn ev_kind(e: &E) -> &'static str {
    use ev::St;
    match e {
        E::Nothing => "event: Nothing",
        E::StreamStart => "event: StreamStart",
        E::StreamEnd => "event: StreamEnd",
        E::DocStart(true) => "event: DocumentStart explicit",
        E::DocStart(false) => "event: DocumentStart implicit",
        E::DocEnd => "event: DocumentEnd",
        E::Alias(_) => "event: Alias",
        E::Comment(_) => "event: Comment",
        E::Scalar { st: St::Plain, .. } => "event: Scalar plain",
        E::Scalar { st: St::Single, .. } => "event: Scalar single",
        E::Scalar { st: St::Double, .. } => "event: Scalar double",
        E::Scalar { st: St::Literal, .. } => "event: Scalar literal",
        E::Scalar { st: St::Folded, .. } => "event: Scalar folded",
        E::SeqStart(..) => "event: SequenceStart",
        E::SeqEnd => "event: SequenceEnd",
        E::MapStart(..) => "event: MappingStart",
        E::MapEnd => "event: MappingEnd",
    }
}
pub fn cover_events(ctx: &mut Ctx, evs: &[(E, yam_core::prelude::Span)]) {
    for (e, _) in evs {
        ctx.cover(ev_kind(e));
    }
}

/// Escape sequences of double quoted scalars, enumerated: what stands between the quotes and
/// what it denotes (`None`: ill-formed).
pub fn escape_block(r: &mut Rng, b: u64) -> Vec<(String, Option<String>)> {
    let hex = |r: &mut Rng, v: u32, w: usize| match r.below(3) {
        0 => format!("{v:0w$x}"),
        1 => format!("{v:0w$X}"),
        _ => format!("{v:0w$x}").chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
    };
    let mut out = vec![];
    match b % 1200 {
        // \x00 .. \xff
        k @ 0..8 => {
            for v in k * 32..(k + 1) * 32 {
                let v = v as u32;
                out.push((format!("\\x{}", hex(r, v, 2)), char::from_u32(v).map(String::from)));
            }
        }
        // \u0000 .. \uffff
        k @ 8..1032 => {
            for v in (k - 8) * 64..(k - 7) * 64 {
                let v = v as u32;
                out.push((format!("\\u{}", hex(r, v, 4)), char::from_u32(v).map(String::from)));
            }
        }
        // \U: around every power of two and plane, beyond Unicode, random
        1032..1100 => {
            for _ in 0..40 {
                let v = match r.below(4) {
                    0 => (1u32 << r.below(32)).wrapping_add(r.below(3) as u32).wrapping_sub(1),
                    1 => ((r.below(18) as u32) << 16).wrapping_add(r.below(3) as u32).wrapping_sub(1),
                    2 => r.next() as u32 % 0x110000,
                    _ => r.next() as u32,
                };
                out.push((format!("\\U{}", hex(r, v, 8)), char::from_u32(v).map(String::from)));
            }
        }
        // the letter escapes and everything that is not one
        1100..1120 => {
            for c in (0x20u8..0x7f).map(char::from).chain(['\t', 'é', '\u{85}', '日', '😀', '\u{7f}']) {
                let w = match c {
                    '0' => "\0", 'a' => "\x07", 'b' => "\x08", 't' | '\t' => "\t", 'n' => "\n", 'v' => "\x0b", 'f' => "\x0c", 'r' => "\r", 'e' => "\x1b", ' ' => " ", '"' => "\"", '/' => "/", '\\' => "\\", 'N' => "\u{85}", '_' => "\u{a0}", 'L' => "\u{2028}", 'P' => "\u{2029}",
                    // those need digits, the check puts a quote or text behind the escape
                    _ => {
                        out.push((format!("\\{c}"), None));
                        continue;
                    }
                };
                out.push((format!("\\{c}"), Some(w.to_string())));
            }
        }
        // too few or wrong digits
        _ => {
            for (l, w) in [('x', 2), ('u', 4), ('U', 8)] {
                for have in 0..w {
                    let d: String = (0..have).map(|_| *r.pick(&['0', '1', '9', 'a', 'F'])).collect();
                    for junk in ["", "g", "G", " ", "\n", "'", "\\", "\\n", "é", "/", ":", "@", "`", "+", "-", ".", "\t", "x", "[", "\u{660}", "#", "{", "\u{ff11}"] {
                        if r.chance(1, 4) {
                            out.push((format!("\\{l}{d}{junk}"), None));
                        }
                    }
                }
            }
        }
    }
    out
}

/// Percent escapes of tags, enumerated: the text and what it denotes (`None`: ill-formed).
pub fn percent_block(r: &mut Rng, b: u64) -> Vec<(String, Option<String>)> {
    let enc = |r: &mut Rng, bs: &[u8]| -> String { bs.iter().map(|b| if r.chance(1, 2) { format!("%{b:02x}") } else { format!("%{b:02X}") }).collect() };
    let mut out = vec![];
    match b % 600 {
        // every single byte, every pair
        0 => {
            for v in 0..=255u8 {
                out.push((enc(r, &[v]), std::str::from_utf8(&[v]).ok().map(String::from)));
            }
        }
        k @ 1..257 => {
            for v in 0..=255u8 {
                let bs = [(k - 1) as u8, v];
                out.push((enc(r, &bs), std::str::from_utf8(&bs).ok().map(String::from)));
            }
        }
        257..500 => {
            for _ in 0..48 {
                let c = match r.below(4) {
                    0 => char::from_u32(r.below(0x80) as u32),
                    1 => char::from_u32(r.below(0x800) as u32),
                    2 => char::from_u32(r.below(0x10000) as u32),
                    _ => char::from_u32(r.below(0x110000) as u32),
                };
                let Some(c) = c else { continue };
                let s = c.to_string();
                out.push((enc(r, s.as_bytes()), Some(s.clone())));
                // cut short, or with a byte off
                let mut bs = s.into_bytes();
                if r.chance(1, 2) {
                    bs.pop();
                } else {
                    let i = r.below(bs.len());
                    bs[i] = r.below(256) as u8;
                }
                if !bs.is_empty() {
                    out.push((enc(r, &bs), std::str::from_utf8(&bs).ok().map(String::from)));
                }
            }
        }
        _ => {
            for _ in 0..48 {
                let n = r.range(1, 5);
                let bs: Vec<u8> = (0..n).map(|_| *r.pick(&[0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xa0, 0x9f, 0xed, 0xef, 0xf0, 0x90, 0x8f, 0xf4, 0xf5, 0xff, 0xfe])).collect();
                out.push((enc(r, &bs), std::str::from_utf8(&bs).ok().map(String::from)));
            }
            for x in ["%", "%4", "%g0", "%0g", "%%41", "% 41", "%+1", "%C3", "%C3a", "%C3%", "%C3%4", "%E6%97", "%F0%9F%98"] {
                out.push((x.to_string(), None));
            }
        }
    }
    out
}

/// A well-formed stream with one token, line or collection beyond what fits in sixteen bits, and a small document after it.
pub fn bulk(r: &mut Rng) -> String {
    let n = r.range(65_400, 68_000);
    let unit = *r.pick(&["a", "é", "x y", "日"]);
    let head = match r.below(13) {
        0 => "\n".repeat(n),
        1 => "# c\n".repeat(n),
        2 => "- a\n".repeat(n),
        3 => format!("- \"{unit}{}{unit}\"\n", "\n".repeat(n)),
        4 => format!("- '{}'\n", format!("{unit}\n ").repeat(n)),
        5 => format!("- |\n{}", format!("  {unit}\n").repeat(n)),
        6 => format!("- >\n{}", format!("  {unit}\n").repeat(n)),
        7 => format!("- {unit}\n{}", format!("  {unit}\n").repeat(n)),
        8 => format!("- {}\n", unit.repeat(n)),
        9 => format!("- [{}{unit}]\n", "a, ".repeat(n / 2)),
        10 => format!("- {}{unit} # {}\n", " ".repeat(n), unit.repeat(9)),
        11 => format!("# {}\n", unit.repeat(n)),
        _ => format!("- [a, # {}\n {unit}{}, \"b\" ,{}c]\n", unit.repeat(n), "\n".repeat(3), " ".repeat(n)),
    };
    let tail = crate::r#gen::gen_stream(r, &crate::r#gen::Opts { max_docs: 1, dirs: 0, ..Default::default() }).text;
    format!("{head}{}{}", if head.starts_with(['#', '\n']) { "" } else { "...\n" }, tail.trim_start_matches('\u{feff}'))
}
