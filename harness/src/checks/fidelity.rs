//! P07 anchors, P08 tags and directives, P09 structure, P10 scalar content,
//! P13 document independence, P14 layout invariance, P15 rejection.
use super::util::*;
use crate::corpus::corpus;
use crate::ev::{self, E, Run, St};
use crate::r#gen::{self, M, MDoc, MK, ModelGen, Opts};
use crate::refp::{self, Verdict};
use crate::rt::{self, Check, Ctx, Rng, Tier};
use crate::soup;
use yam_core::parsing::Parser;
use yam_core::prelude::{Yaml, YamlLoader};

pub fn m(k: MK) -> M {
    M { anchor: None, tag: None, k }
}
pub fn plain(s: &str) -> M {
    m(MK::Plain(s.to_string()))
}
fn doc(root: M) -> MDoc {
    MDoc { root, yaml_dir: None, tag_dirs: vec![], other_dir: false }
}

/// Differential verdict of one input against the reference parser.
pub enum Cmp {
    Same(usize),
    BothReject,
    Differ(String),
    RejectsValid,
    AcceptsInvalid,
    Skip(&'static str),
}
pub fn compare(s: &str, run: &Run) -> Cmp {
    if s.contains('\0') {
        return Cmp::Skip("contains NUL");
    }
    if !s.ends_with(['\n', '\r']) && s.contains('+') && s.rsplit(['\n', '\r']).next().is_some_and(|l| !l.is_empty() && l.chars().all(|c| c == ' ')) {
        return Cmp::Skip("kept block scalar whose last line has no break");
    }
    match (refp::judge(s), run.ok()) {
        (Verdict::Unknown, _) => Cmp::Skip("reference undecided"),
        (Verdict::Valid(v), true) => {
            if v.len() == run.evs.len() && v.iter().zip(&run.evs).all(|(a, b)| a.0 == b.0) {
                Cmp::Same(v.len())
            } else {
                let want: Vec<E> = v.into_iter().map(|x| x.0).collect();
                Cmp::Differ(format!("{}\ngot:\n{}reference:\n{}", first_diff(&run.events(), &want), ev::show(&run.events()), ev::show(&want)))
            }
        }
        (Verdict::Invalid(_), false) => Cmp::BothReject,
        (Verdict::Valid(_), false) if tab_in_empty_scalar(s) => Cmp::Skip("block scalar without content before a line of tabs"),
        (Verdict::Valid(_), false) => Cmp::RejectsValid,
        (Verdict::Invalid(_), true) => match refp::judge_lenient(s) {
            Verdict::Valid(_) => Cmp::Skip("accepted leniency"),
            Verdict::Unknown => Cmp::Skip("reference undecided"),
            Verdict::Invalid(_) => Cmp::AcceptsInvalid,
        },
    }
}

/// Whether a blank or comment line with tabs comes first after what may be the header of a block scalar.
fn tab_in_empty_scalar(s: &str) -> bool {
    let mut header = false;
    s.split(['\n', '\r']).any(|l| {
        let white = l.trim_start_matches([' ', '\t']);
        let blank = white.is_empty();
        let hit = header && (blank || white.starts_with('#')) && l[..l.len() - white.len()].contains('\t');
        header = l.contains(['|', '>']) || header && blank;
        hit
    })
}

/// Hostile text without byte order marks and NULs, mostly without tabs.
fn judged(r: &mut Rng, idx: u64) -> String {
    let mut s = match r.below(24) {
        0 | 1 => soup::directives(r),
        2 => soup::long(r),
        _ => hostile(r, idx, false).0,
    };
    s = s.replace('\u{feff}', "");
    if r.chance(2, 3) {
        s = s.replace('\t', " ");
    }
    s
}

// ------------------------------------------------------------------ P07
pub struct Anchors;
fn anchor_names(x: &M, out: &mut Vec<String>) {
    if let Some(a) = &x.anchor {
        out.push(a.clone());
    }
    match &x.k {
        MK::Seq(v) => v.iter().for_each(|x| anchor_names(x, out)),
        MK::Map(v) => v.iter().for_each(|(k, x)| {
            anchor_names(k, out);
            anchor_names(x, out);
        }),
        _ => {}
    }
}
const HOLE: &str = "ZZholeZZ";
/// A document with a hole somewhere in it.
fn with_hole(r: &mut Rng, root: M) -> M {
    match r.below(5) {
        0 => m(MK::Seq(vec![root, plain(HOLE)])),
        1 => m(MK::Seq(vec![plain(HOLE), root])),
        2 => m(MK::Map(vec![(plain("h"), plain(HOLE)), (plain("r"), root)])),
        3 => m(MK::Map(vec![(plain("r"), root), (plain("h"), plain(HOLE))])),
        _ => m(MK::Seq(vec![m(MK::Map(vec![(plain("a"), m(MK::Seq(vec![plain("x"), plain(HOLE)])))])), root])),
    }
}
impl Check for Anchors {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_600_000 } else { 20_000_000 }
    }
    fn rule(&self) -> String {
        "model streams rich in anchors, redefinitions and (also recursive) aliases, rendered with random layout; ids, alias targets and anchor names are checked against the model; streams with an alias to an undefined or other-document anchor must be rejected; non-trivial: distinct stream with at least one alias".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["aliases resolved", "names looked up", "redefinitions", "undefined alias rejected", "other-document alias rejected"]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p07");
        let o = Opts { anchors: 45, aliases: 30, tags: 10, rich: 20, max_docs: 3, big: 2, depth: r.range(2, 5), ..Opts::default() };
        let Some(g) = gen_in(ctx, "p07m", &o) else { return };
        if !expect(ctx, "anchors", &g.text, &g.evs) {
            return;
        }
        let mut names = vec![];
        g.docs.iter().for_each(|d| anchor_names(&d.root, &mut names));
        let na = g.evs.iter().filter(|e| matches!(e, E::Alias(_))).count();
        ctx.cover_n("aliases resolved", na as u64);
        if na > 0 {
            ctx.nontrivial(g.text.as_bytes());
        }
        ctx.max("anchors in one stream", names.len() as u64);
        let mut uniq = names.clone();
        uniq.sort();
        uniq.dedup();
        ctx.cover_n("redefinitions", (names.len() - uniq.len()) as u64);
        // the name of an anchor right after its node was announced
        let bad = call(ctx, "get_anchor", &g.text, || {
            let mut p = Parser::new_from_str(&g.text);
            let mut bad = None;
            let mut n = 0u64;
            while let Some(Ok((e, _))) = p.next() {
                let id = match ev::conv(&e) {
                    E::Scalar { a, .. } | E::SeqStart(a, _) | E::MapStart(a, _) | E::Alias(a) => a,
                    _ => 0,
                };
                if id > 0 {
                    n += 1;
                    let got = p.get_anchor(id).map(ToString::to_string);
                    if got.as_ref() != names.get(id - 1) {
                        bad = Some(format!("get_anchor({id}) after {e:?} is {got:?}, the name is {:?}", names.get(id - 1)));
                        break;
                    }
                    if p.get_anchor(0).is_some() || p.get_anchor(names.len() + 1).is_some() {
                        bad = Some("get_anchor of an id nothing carries".to_string());
                        break;
                    }
                }
            }
            (bad, n)
        });
        if let Some((bad, n)) = bad {
            ctx.cover_n("names looked up", n);
            if let Some(b) = bad {
                ctx.violation("anchor name", &g.text, b);
            }
        }
        if idx % 5003 == 0 {
            ctx.sample(format!("{:?}\n{}", g.text, ev::show(&g.evs)));
        }
        // an alias without a target
        if idx % 3 == 0 {
            let mut d = g.docs[0].clone();
            d.root = with_hole(&mut r, d.root);
            let cross = r.chance(1, 2);
            let mut docs = vec![d];
            let mut name = "undefined-name".to_string();
            if cross {
                // defined in the document before, not in this one
                name = "only-before".into();
                docs.insert(0, doc(m(MK::Seq(vec![M { anchor: Some(name.clone()), tag: None, k: MK::Plain("v".into()) }, m(MK::Alias(name.clone()))]))));
            }
            let o2 = Opts { big: 0, ..o };
            let (t, _, _) = r#gen::render(&mut r, &o2, &docs);
            let t = t.replace(HOLE, &format!("*{name} "));
            let Some(run) = iter(ctx, &t) else { return };
            if run.ok() {
                ctx.violation(if cross { "alias to an anchor of another document accepted" } else { "alias to an undefined anchor accepted" }, &t, ev::show(&run.events()));
            } else {
                ctx.cover(if cross { "other-document alias rejected" } else { "undefined alias rejected" });
            }
            if !nesting_deep(&t)
                && let Some(Ok(_)) = call(ctx, "Yaml::load_from", &t, || Yaml::load_from(&t))
            {
                ctx.violation("loader accepts an alias without a target", &t, "Yaml::load_from succeeded");
            }
        }
    }
}
fn nesting_deep(t: &str) -> bool {
    nesting_bound(t) > MAX_NEST
}

// ------------------------------------------------------------------ P08
pub struct Tags;
impl Check for Tags {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 10_000_000 }
    }
    fn rule(&self) -> String {
        "model streams rich in tags (verbatim, local, secondary, named handles, percent escapes) and directives, rendered with random layout; the resolved tag of every node is checked against the model; directive scoping and keep_tags are checked on constructed streams; random sequences of directives, document markers and small documents must give the verdict and events of an independent reference parser; non-trivial: distinct stream with at least one tag".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["percent escapes decoded", "ill-formed percent escapes rejected", "tags resolved", "layout: tag-directive", "undeclared handle rejected", "leaking directive rejected", "keep_tags kept", "keep_tags: handle redeclared in a later document", "keep_tags: handle of an earlier document", "duplicate directive rejected", "directive soup: same events", "directive soup: both reject"]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p08");
        if idx % 40 == 1 {
            percents(ctx, &mut r, idx / 40);
            return;
        }
        let o = Opts { anchors: 15, aliases: 8, tags: 50, dirs: 60, rich: 15, max_docs: 4, depth: r.range(1, 4), ..Opts::default() };
        let Some(g) = gen_in(ctx, "p08m", &o) else { return };
        if !expect(ctx, "tags", &g.text, &g.evs) {
            return;
        }
        let nt = g.evs.iter().filter(|e| matches!(e, E::Scalar { tag: Some(_), .. } | E::SeqStart(_, Some(_)) | E::MapStart(_, Some(_)))).count();
        ctx.cover_n("tags resolved", nt as u64);
        if nt > 0 {
            ctx.nontrivial(g.text.as_bytes());
        }
        if idx % 5003 == 0 {
            ctx.sample(format!("{:?}\n{}", g.text, ev::show(&g.evs)));
        }
        let o2 = Opts { big: 0, dirs: 0, ..o.clone() };
        let mut one = |ctx: &mut Ctx, r: &mut Rng, frag: &str| -> Option<String> {
            // a directive-free document with `frag` as one of its nodes
            let mut d = rt::guarded(|| ModelGen::new(r, &o2).doc()).ok()?;
            d.root = with_hole(r, d.root);
            let _ = &ctx;
            let (t, _, _) = r#gen::render(r, &Opts { max_docs: 1, ..o2.clone() }, &[d]);
            Some(t.trim_start_matches('\u{feff}').replace(HOLE, frag))
        };
        match idx % 4 {
            0 => {
                let h = *r.pick(&["!e!", "!nope!", "!a-b!", "!1!"]);
                let Some(t) = one(ctx, &mut r, &format!("{h}x v")) else { return };
                let Some(run) = iter(ctx, &t) else { return };
                if run.ok() {
                    ctx.violation("undeclared tag handle accepted", &t, ev::show(&run.events()));
                } else {
                    ctx.cover("undeclared handle rejected");
                }
            }
            1 => {
                // a directive is scoped to its document, unless keep_tags is set
                let h = *r.pick(&["!e!", "!x1!", "!a-b!"]);
                let p = *r.pick(&["tag:one,2000:", "!pre-", "tag:y:"]);
                let Some(t2) = one(ctx, &mut r, &format!("{h}leak v")) else { return };
                let sep = *r.pick(&["\n...\n", "\n"]);
                let extra = r.chance(1, 3);
                let dir2 = if extra && sep != "\n" { "%TAG !other! tag:other:\n" } else { "" };
                let t2 = t2.trim_start();
                let t2 = t2.strip_prefix("---").unwrap_or(t2);
                let t = format!("%TAG {h} {p}\n---\n{h}first x{sep}{dir2}--- {t2}");
                // only meaningful while `--- <content>` still is what it was
                let probe = t.replace(&format!("{h}leak v"), "!leak v");
                let Some(pr) = iter(ctx, &probe) else { return };
                if !pr.ok() {
                    ctx.inconclusive("second document does not survive being moved after ---");
                    return;
                }
                let Some(run) = iter(ctx, &t) else { return };
                if run.ok() {
                    ctx.violation("a %TAG directive leaks into the next document", &t, ev::show(&run.events()));
                } else {
                    ctx.cover("leaking directive rejected");
                }
                let Some(run) = call(ctx, "keep_tags", &t, || ev::run_keep_tags(&t)) else { return };
                // keep_tags: as if the directive had been written again
                let want: Vec<E> = pr
                    .events()
                    .into_iter()
                    .map(|e| match e {
                        E::Scalar { v, st, a, tag: Some((hh, ss)) } if hh == "!" && ss == "leak" => E::Scalar { v, st, a, tag: Some((p.to_string(), "leak".to_string())) },
                        x => x,
                    })
                    .collect();
                if !run.ok() || run.events() != want {
                    ctx.violation("keep_tags does not keep the directive", &t, format!("{}\n{}", run.errs(), first_diff(&run.events(), &want)));
                } else {
                    ctx.cover("keep_tags kept");
                }
            }
            2 if r.chance(1, 2) => {
                let t = soup::directives(&mut r);
                let Some(run) = iter(ctx, &t) else { return };
                match compare(&t, &run) {
                    Cmp::Same(_) => {
                        ctx.cover("directive soup: same events");
                        ctx.nontrivial(t.as_bytes());
                    }
                    Cmp::BothReject => {
                        ctx.cover("directive soup: both reject");
                        ctx.nontrivial(t.as_bytes());
                    }
                    Cmp::Differ(d) => ctx.violation("directives: events differ from the reference parser", &t, d),
                    Cmp::RejectsValid => ctx.violation("directives: well-formed stream rejected", &t, run.errs()),
                    Cmp::AcceptsInvalid => ctx.violation("directives: ill-formed stream accepted", &t, ev::show(&run.events())),
                    Cmp::Skip(w) => ctx.inconclusive(w),
                }
            }
            2 => {
                let (a, b) = match r.below(3) {
                    0 => ("%YAML 1.2\n", "%YAML 1.2\n"),
                    1 => ("%TAG !e! tag:a:\n", "%TAG !e! tag:b:\n"),
                    _ => ("%TAG ! tag:a:\n", "%TAG ! tag:a:\n"),
                };
                let mids = ["", "", "# c\n", "%TAG !z! z:\n", "%FOO bar\n", "\n", "%FOO bar\n%TAG !z! z:\n"];
                let (pre, mid) = (*r.pick(&mids), *r.pick(&mids));
                let post = if pre.contains('z') || mid.contains('z') { *r.pick(&mids[..3]) } else { *r.pick(&mids) };
                if pre.contains('z') && mid.contains('z') {
                    return;
                }
                let t = format!("{pre}{a}{mid}{b}{post}---\n{}", r.pick(&["x\n", "- !e!a b\n", "a: b\n"]));
                let Some(run) = iter(ctx, &t) else { return };
                if run.ok() {
                    ctx.violation("duplicate directive accepted", &t, ev::show(&run.events()));
                } else {
                    ctx.cover("duplicate directive rejected");
                }
            }
            _ => {
                // every prefix / suffix combination of a random set of handles
                let hs = ["!", "!!", "!e!", "!e1!", "!a-b!", "!A!", "!0!"];
                let keep = r.chance(1, 2);
                let mut used: Vec<(&str, String)> = vec![];
                let mut t = String::new();
                let mut want = vec![];
                let docs = if r.chance(1, 2) { 1 } else { r.range(2, 5) };
                for d in 0..docs {
                    if !keep {
                        used.clear();
                    }
                    let mut here: Vec<&str> = vec![];
                    for _ in 0..r.range(usize::from(d == 0), 5) {
                        let h = *r.pick(&hs);
                        if here.contains(&h) {
                            continue;
                        }
                        here.push(h);
                        if used.iter().any(|x| x.0 == h) {
                            ctx.cover("keep_tags: handle redeclared in a later document");
                        }
                        used.retain(|x| x.0 != h);
                        let k = r.below(1000);
                        let p = match r.below(4) {
                            3 => (*r.pick(&["tag:yaml.org,2002:", "tag:yaml.org,2022:x/", "tag:yaml.org,2002:x/", "tag:yaml.org,", "!!", "!e!", "!", "t", "tag:yaml.org,2002"])).to_string(),
                            0 => format!("tag:x{k}:"),
                            1 => format!("!l{k}-"),
                            _ => format!("http://e.x/{k}#"),
                        };
                        t.push_str(&format!("%TAG {h}{}{p}\n", " ".repeat(r.range(1, 3))));
                        used.push((h, p));
                    }
                    t.push_str("---\n");
                    for _ in 0..r.range(1, 6) {
                        let (h, p) = if !used.is_empty() && r.chance(2, 3) {
                            r.pick(&used).clone()
                        } else {
                            let h = *r.pick(&["!", "!!"]);
                            let dflt = if h == "!" { "!" } else { "tag:yaml.org,2002:" };
                            (h, used.iter().find(|x| x.0 == h).map_or(dflt.to_string(), |x| x.1.clone()))
                        };
                        if keep && !here.contains(&h) && used.iter().any(|x| x.0 == h) {
                            ctx.cover("keep_tags: handle of an earlier document");
                        }
                        let s = *r.pick(&["a", "str", "x-y", "p.q", "9", "a:b", "k=v", "%C3%A9", "a%20b"]);
                        let sv = match s {
                            "%C3%A9" => "é",
                            "a%20b" => "a b",
                            x => x,
                        };
                        t.push_str(&format!("- {h}{s} v\n"));
                        want.push(Some((p, sv.to_string())));
                    }
                    t.push_str("...\n");
                }
                let run = if keep { call(ctx, "keep_tags", &t, || ev::run_keep_tags(&t)) } else { iter(ctx, &t) };
                let Some(run) = run else { return };
                let got: Vec<_> = run.events().into_iter().filter_map(|e| if let E::Scalar { tag, .. } = e { Some(tag) } else { None }).collect();
                if !run.ok() || got != want {
                    ctx.violation(if keep { "tag resolution with keep_tags" } else { "tag resolution" }, &t, format!("{}\ngot  {got:?}\nwant {want:?}", run.errs()));
                }
                ctx.cover_n("tags resolved", want.len() as u64);
                ctx.nontrivial(t.as_bytes());
            }
        }
    }
}

/// Every percent escape, in shorthand and verbatim tags and in %TAG prefixes.
fn percents(ctx: &mut Ctx, r: &mut Rng, b: u64) {
    for (t, w) in percent_block(r, b) {
        let (pre, post) = (*r.pick(&["", "", "a", "x-y"]), if w.is_some() { *r.pick(&["", "", "b", "9"]) } else { "" });
        let (text, tag) = match r.below(5) {
            0 => (format!("- !{pre}{t}{post} v\n"), ("!".to_string(), w.as_ref().map(|w| format!("{pre}{w}{post}")))),
            1 => (format!("- !!{pre}{t}{post} v\n"), ("tag:yaml.org,2002:".to_string(), w.as_ref().map(|w| format!("{pre}{w}{post}")))),
            2 => (format!("- !<{pre}{t}{post}> v\n"), (String::new(), w.as_ref().map(|w| format!("{pre}{w}{post}")))),
            3 => (format!("%TAG !e! p:{t}{post}\n---\n- !e!s v\n"), (format!("p:{}{post}", w.as_deref().unwrap_or("")), w.as_ref().map(|_| "s".to_string()))),
            _ => (format!("%TAG !e! p:\n---\n- !e!{pre}{t}{post} v\n"), ("p:".to_string(), w.as_ref().map(|w| format!("{pre}{w}{post}")))),
        };
        let Some(run) = iter(ctx, &text) else { return };
        let got = run.events().into_iter().find_map(|e| if let E::Scalar { tag, .. } = e { Some(tag) } else { None }).flatten();
        match tag.1 {
            Some(s) => {
                if !run.ok() || got != Some((tag.0.clone(), s.clone())) {
                    ctx.violation("percent escape misread", &text, format!("{}\ngot  {got:?}\nwant {:?}", run.errs(), (tag.0, s)));
                    return;
                }
                ctx.cover("percent escapes decoded");
            }
            None => {
                if run.ok() {
                    ctx.violation("ill-formed percent escape accepted", &text, format!("{got:?}"));
                    return;
                }
                ctx.cover("ill-formed percent escapes rejected");
            }
        }
        ctx.nontrivial(text.as_bytes());
    }
}

// ------------------------------------------------------------------ P09
pub struct Structure;
impl Check for Structure {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2_600_000 } else { 30_000_000 }
    }
    fn rule(&self) -> String {
        "two thirds: model streams (nested block/flow collections, explicit and implicit keys, compact forms, empty nodes, node properties) rendered with random layout, whose events must equal the model's; one third: hostile text on which the implementation and an independent reference parser both succeed must give the same events, and text the reference parser finds well-formed must be accepted; non-trivial: distinct accepted input with a collection".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["model streams equal", "hostile inputs: same events", "event: MappingStart", "event: SequenceStart"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the model renderer and the reference parser were written from the YAML 1.2.2 specification and agree with each other on every generated stream".into(),
            "an empty block scalar directly before a blank or comment line with tabs is compared only where the implementation accepts it".into(),
        ]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p09");
        if idx % 3 != 2 {
            let o = Opts {
                rich: 10,
                strs: 30,
                anchors: r.below(15),
                tags: r.below(15),
                depth: r.range(2, 7),
                width: r.range(1, 6),
                layout: r.range(0, 60),
                flow: *r.pick(&[0, 20, 50, 90, 100]),
                odd_keys: *r.pick(&[0, 20, 60]),
                big: 3,
                max_docs: 2,
                ..Opts::default()
            };
            let Some(g) = gen_in(ctx, "p09m", &o) else { return };
            if expect(ctx, "structure", &g.text, &g.evs) {
                ctx.cover("model streams equal");
                if g.evs.iter().any(|e| matches!(e, E::SeqStart(..) | E::MapStart(..))) {
                    ctx.nontrivial(g.text.as_bytes());
                }
                for e in &g.evs {
                    ctx.cover(ev_kind(e));
                }
                ctx.max("events of one stream", g.evs.len() as u64);
            }
            if idx % 5001 == 0 {
                ctx.sample(format!("{:?}\n{}", g.text, ev::show(&g.evs)));
            }
        } else {
            let s = judged(&mut r, idx);
            let Some(run) = iter(ctx, &s) else { return };
            match compare(&s, &run) {
                Cmp::Same(n) => {
                    ctx.cover("hostile inputs: same events");
                    if n > 5 {
                        ctx.nontrivial(s.as_bytes());
                    }
                }
                Cmp::BothReject => ctx.cover("hostile inputs: both reject"),
                Cmp::Differ(d) => ctx.violation("events differ from the reference parser", &s, d),
                Cmp::RejectsValid => ctx.violation("well-formed input rejected", &s, format!("{}\nreference accepts it", run.errs())),
                Cmp::AcceptsInvalid => ctx.cover("hostile inputs: only the implementation accepts (P15)"),
                Cmp::Skip(w) => ctx.inconclusive(w),
            }
        }
    }
}

// ------------------------------------------------------------------ P10
pub struct Scalars;
const AL: &[&str] = &["a", " ", "\n", "\t", "'", "\"", "\\", ":", "#", "-", "é", ",", "[", "\r", "\u{85}", "0", "\0", "."];
impl Check for Scalars {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3_600_000 } else { 40_000_000 }
    }
    fn rule(&self) -> String {
        "every escape sequence (all \\x and \\u codes, boundary and random \\U codes, every letter, truncated and broken ones); string values: an enumeration of every string of up to 4 characters over an 18-character alphabet, a nasty-string list, random mixes, long strings; each presented in every style its content allows (plain, single, double with random escapes and folds, literal, folded with all chomping/indentation headers) in block and flow contexts; the parsed value and style must be the model's; non-trivial: distinct stream with a non-empty scalar".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["escape sequences decoded", "ill-formed escape sequences rejected", "event: Scalar plain", "event: Scalar single", "event: Scalar double", "event: Scalar literal", "event: Scalar folded", "enumerated values"]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p10");
        if idx % 25 == 1 {
            escapes(ctx, &mut r, idx / 25);
            return;
        }
        let lay = r.range(0, 60);
        let o = Opts { rich: 80, strs: 70, anchors: 4, aliases: 2, tags: 4, depth: r.range(0, 3), width: 4, layout: lay, dirs: 3, big: 3, max_docs: 2, flow: 40, ..Opts::default() };
        let (text, evs) = if idx % 2 == 0 {
            // enumerated value in a small document
            let mut k = (idx / 2).wrapping_mul(7919) % (1 + 18 + 324 + 5832 + 104_976);
            let mut n = 0;
            let mut block = 1;
            while k >= block {
                k -= block;
                n += 1;
                block *= 18;
            }
            let mut v = String::new();
            for _ in 0..n {
                v.push_str(AL[(k % 18) as usize]);
                k /= 18;
            }
            if r.chance(1, 4) {
                v.insert_str(0, r.pick(&["word ", "x\n", "\n", " "]));
            }
            if r.chance(1, 4) {
                v.push_str(r.pick(&[" word", "\nx", "\n", " ", "\n\n"]));
            }
            ctx.cover("enumerated values");
            let leaf = || m(MK::Str(v.clone()));
            let root = match r.below(7) {
                0 => leaf(),
                1 => m(MK::Seq(vec![leaf(), leaf(), leaf()])),
                2 => m(MK::Map(vec![(plain("k"), leaf()), (plain("l"), leaf())])),
                3 => m(MK::Map(vec![(leaf(), plain("v"))])),
                4 => m(MK::Seq(vec![m(MK::Seq(vec![m(MK::Map(vec![(plain("k"), leaf())])), leaf()]))])),
                5 => m(MK::Map(vec![(plain("k"), m(MK::Map(vec![(plain("k"), leaf()), (plain("z"), plain("y"))])))])),
                _ => m(MK::Seq(vec![m(MK::Map(vec![(plain("a"), leaf()), (plain("b"), leaf())]))])),
            };
            match rt::guarded(|| r#gen::render(&mut r, &o, &[doc(root.clone()), doc(root)])) {
                Ok((t, e, _)) => (t, e),
                Err(p) => {
                    ctx.inconclusive(&format!("generator failed: {}", short(&p)));
                    return;
                }
            }
        } else {
            match gen_in(ctx, "p10m", &o) {
                Some(g) => (g.text, g.evs),
                None => return,
            }
        };
        if expect(ctx, "scalars", &text, &evs) {
            let mut nt = false;
            for e in &evs {
                if let E::Scalar { v, .. } = e {
                    ctx.cover(ev_kind(e));
                    nt |= !v.is_empty();
                    ctx.max("bytes of one scalar", v.len() as u64);
                }
            }
            if nt {
                ctx.nontrivial(text.as_bytes());
            }
        }
        if idx % 5001 == 0 {
            ctx.sample(format!("{text:?}\n{}", ev::show(&evs)));
        }
    }
}

/// Every escape sequence, one by one and in a row.
fn escapes(ctx: &mut Ctx, r: &mut Rng, b: u64) {
    let block = escape_block(r, b);
    let mut row = (String::new(), String::new());
    let mut checks: Vec<(String, Option<String>)> = vec![];
    for (t, w) in block {
        match w {
            Some(w) => {
                row.0.push_str(&t);
                row.1.push_str(&w);
                if r.chance(1, 8) {
                    let (a, z) = (*r.pick(&["", "a", "é ", "x  y", "\\n"]), *r.pick(&["", "0", "f", "F1", " b", "\\\\", "é"]));
                    let un = |x: &str| x.replace("\\n", "\n").replace("\\\\", "\\");
                    checks.push((format!("{a}{t}{z}"), Some(format!("{}{w}{}", un(a), un(z)))));
                }
            }
            None => checks.push((t, None)),
        }
    }
    checks.push((row.0, Some(row.1)));
    for (t, w) in checks {
        let (pre, post, n) = *r.pick(&[("", "", 0), ("- ", "\n", 0), ("k: ", "\n", 1), ("[x, ", "]", 1), ("{k: ", ", z: y}", 1), ("", ": v\n", 0), ("? ", "\n", 0)]);
        let text = format!("{pre}\"{t}\"{post}");
        let Some(run) = iter(ctx, &text) else { return };
        let got: Vec<_> = run.events().into_iter().filter_map(|e| if let E::Scalar { v, st, .. } = e { Some((v, st)) } else { None }).collect();
        match w {
            Some(w) => {
                if !run.ok() || got.get(n) != Some(&(w.clone(), St::Double)) {
                    ctx.violation("escape sequence misread", &text, format!("{}\ngot  {:?}\nwant {w:?}", run.errs(), got.get(n)));
                    return;
                }
                ctx.cover("escape sequences decoded");
            }
            None => {
                if run.ok() {
                    ctx.violation("ill-formed escape sequence accepted", &text, format!("{got:?}"));
                    return;
                }
                ctx.cover("ill-formed escape sequences rejected");
            }
        }
        ctx.nontrivial(text.as_bytes());
    }
}

// ------------------------------------------------------------------ P13
pub struct Documents;
impl Check for Documents {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 500_000 } else { 5_000_000 }
    }
    fn rule(&self) -> String {
        "streams of 2..6 documents joined by ---, ... or both; the events of each document must be those of the document parsed alone (anchor ids shifted); then a broken document (unterminated, undefined alias, bad directive, random text) is appended and must leave every event and loaded tree of the earlier documents as they were; non-trivial: distinct stream of at least 2 documents".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["documents compared", "streams with a broken last document", "documents loaded one by one", "joined with ---", "joined with ...", "joined with ... and a byte order mark"]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p13");
        let o = Opts { max_docs: 1, anchors: 15, aliases: 15, tags: 12, dirs: 25, big: 1, depth: 3, ..Opts::default() };
        let n = if r.chance(1, 60) { r.range(20, 80) } else { r.range(2, 6) };
        let mut text = String::new();
        let mut want = vec![E::StreamStart];
        let mut ids = 0;
        let mut k = 0;
        let mut per_doc: Vec<usize> = vec![];
        let mut tries = 0;
        while k < n && tries < 400 {
            tries += 1;
            let g = match rt::guarded(|| r#gen::gen_stream(&mut r, &o)) {
                Ok(g) => g,
                Err(_) => continue,
            };
            let t = g.text.trim_start_matches('\u{feff}');
            if !t.ends_with('\n') || g.docs.len() != 1 {
                continue;
            }
            let Some(alone) = iter(ctx, t) else { return };
            if !alone.ok() {
                ctx.violation("document alone: rejected", t, alone.errs());
                return;
            }
            if alone.events() != g.evs {
                ctx.violation("document alone: wrong events", t, first_diff(&alone.events(), &g.evs));
                return;
            }
            let explicit = g.evs.contains(&E::DocStart(true));
            if k > 0 {
                if explicit && g.docs[0].yaml_dir.is_none() && g.docs[0].tag_dirs.is_empty() && !g.docs[0].other_dir && t.starts_with("---") && r.chance(1, 2) {
                    ctx.cover("joined with ---");
                } else {
                    text.push_str(r.pick(&["...\n", "... # end\n", "...\n# between\n\n", "...  \n"]));
                    ctx.cover("joined with ...");
                    if r.chance(1, 6) {
                        text.push('\u{feff}');
                        ctx.cover("joined with ... and a byte order mark");
                    }
                }
            }
            text.push_str(t);
            let mut mx = ids;
            for e in &g.evs[1..g.evs.len() - 1] {
                let sh = |a: usize| if a == 0 { 0 } else { a + ids };
                let e = match e.clone() {
                    E::Alias(a) => E::Alias(sh(a)),
                    E::Scalar { v, st, a, tag } => E::Scalar { v, st, a: sh(a), tag },
                    E::SeqStart(a, t) => E::SeqStart(sh(a), t),
                    E::MapStart(a, t) => E::MapStart(sh(a), t),
                    x => x,
                };
                if let E::Scalar { a, .. } | E::SeqStart(a, _) | E::MapStart(a, _) = e {
                    mx = mx.max(a);
                }
                want.push(e);
            }
            ids = mx;
            k += 1;
            per_doc.push(want.len());
        }
        let body = want.clone();
        want.push(E::StreamEnd);
        if !expect(ctx, "joined documents", &text, &want) {
            return;
        }
        ctx.nontrivial(text.as_bytes());
        ctx.cover_n("documents compared", k as u64);
        ctx.max("documents of one stream", k as u64);
        if idx % 5001 == 0 {
            ctx.sample(format!("{text:?}"));
        }
        // a broken document at the end
        const BROKEN: &[&str] = &[
            "[a, b", "{a: b", "'abc", "\"abc", "*nope", "a: b: c", "- a\nb", "a\nb: c", "%YAML 1.2\n%YAML 1.2\n---\nx", "!x!y z", "\"\\q\"", "a: - b", "|0\n x", "]", "}", "k: v\n - x", "%TAG !a! b\nx", "&a &b c", "[a]]", "- [\n- b", "\"a\" b", "'a' 'b'", "@x", "`x", "a: 'b' c", "{a: b}}", "k:\n  a: b\n c: d",
        ];
        let tail = if r.chance(3, 4) { (*r.pick(BROKEN)).to_string() } else { soup::soup(&mut r, 6, true) };
        let sep = if tail.starts_with('%') || r.chance(1, 2) { "...\n" } else { "---\n" };
        let t = format!("{text}{sep}{tail}");
        let Some(run) = iter(ctx, &t) else { return };
        ctx.cover("streams with a broken last document");
        let got = run.events();
        if got.len() < body.len() || got[..body.len()] != body[..] {
            ctx.violation("a later document changes the events of an earlier one", &t, format!("{}\n{}", run.errs(), first_diff(&got, &body)));
        }
        // the same through the loader, one document at a time
        if nesting_deep(&t) || nesting_bound(&t) > 800 {
            return;
        }
        let Some(Ok(all)) = call(ctx, "Yaml::load_from", &text, || Yaml::load_from(&text)) else {
            ctx.violation("joined documents do not load", &text, "Yaml::load_from failed");
            return;
        };
        if all.len() != k {
            ctx.violation("wrong number of loaded documents", &text, format!("{} instead of {k}", all.len()));
            return;
        }
        let r2 = call(ctx, "load_single_from_parser", &t, || {
            let mut p = Parser::new_from_str(&t);
            for (i, d) in all.iter().enumerate() {
                match YamlLoader::<Yaml>::load_single_from_parser(&mut p) {
                    Ok(y) if same_yaml(&y, d) => {}
                    Ok(y) => return Some(format!("document {i}: {y:?} instead of {d:?}")),
                    Err(e) => return Some(format!("document {i}: {e}")),
                }
            }
            None
        });
        ctx.cover_n("documents loaded one by one", k as u64);
        if let Some(Some(b)) = r2 {
            ctx.violation("a later document changes the loading of an earlier one", &t, b);
        }
    }
}
/// Equality with NaN equal to itself.
pub fn same_yaml(a: &Yaml, b: &Yaml) -> bool {
    a == b || format!("{a:?}") == format!("{b:?}")
}

// ------------------------------------------------------------------ P14
pub struct Layout;
/// Events without presentation details.
fn norm(evs: &[E], model_styles: bool) -> Vec<E> {
    evs.iter()
        .map(|e| match e {
            E::DocStart(_) => E::DocStart(true),
            E::Scalar { v, st, a, tag } => E::Scalar { v: v.clone(), st: if *st == St::Plain || !model_styles { *st } else { St::Double }, a: *a, tag: tag.clone() },
            x => x.clone(),
        })
        .collect()
}
impl Check for Layout {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 6_000_000 }
    }
    fn rule(&self) -> String {
        "two independent renderings of one model (styles, indentation, comments, blank lines, flow/block, markers) must give the same nodes; one text with LF, CRLF and CR breaks, with a byte order mark, with an end marker or a comment appended, must give the same events and verdict, also for hostile text; non-trivial: distinct pair of different texts".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["renderings compared", "CRLF compared", "CR compared", "hostile: line breaks compared", "byte order mark compared", "appended tail compared"]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p14");
        let hostile_case = idx % 3 == 2;
        let (text, evs) = if hostile_case {
            let s = hostile(&mut r, idx, false).0.replace(['\u{feff}', '\r'], "");
            let Some(run) = iter(ctx, &s) else { return };
            if !run.ok() && s.contains('\0') {
                return;
            }
            (s, run)
        } else {
            let o = Opts { layout: r.range(10, 80), big: 1, tags: 6, anchors: 8, ..Opts::default() };
            let docs = match rt::guarded(|| r#gen::models(&mut r, &o)) {
                Ok(d) => d,
                Err(_) => return,
            };
            let Ok((t1, e1, _)) = rt::guarded(|| r#gen::render(&mut r, &o, &docs)) else { return };
            let o2 = Opts { layout: r.range(0, 100), flow: *r.pick(&[0, 30, 100]), ..o };
            let Ok((t2, _, _)) = rt::guarded(|| r#gen::render(&mut r, &o2, &docs)) else { return };
            let (Some(a), Some(b)) = (iter(ctx, &t1), iter(ctx, &t2)) else { return };
            let (na, nb) = (norm(&a.events(), true), norm(&b.events(), true));
            ctx.cover("renderings compared");
            if t1 != t2 {
                ctx.nontrivial(format!("{t1}\u{1}{t2}").as_bytes());
            }
            if !a.ok() || a.events() != e1 {
                ctx.violation("presentation changes the content", &t1, format!("{}\n{}", a.errs(), first_diff(&a.events(), &e1)));
                return;
            }
            if !b.ok() || na != nb {
                ctx.violation("presentation changes the content", &t2, format!("{}\n{}\nother presentation: {t1:?}", b.errs(), first_diff(&nb, &na)));
                return;
            }
            if idx % 5001 == 0 {
                ctx.sample(format!("{t1:?}\n{t2:?}"));
            }
            (t1.replace('\u{feff}', ""), a)
        };
        let what = if hostile_case { "hostile: line breaks compared" } else { "line breaks compared" };
        if !text.contains('\r') {
            for (nl, k) in [("\r\n", "CRLF compared"), ("\r", "CR compared")] {
                let t = text.replace('\n', nl);
                if t == text {
                    continue;
                }
                let Some(run) = iter(ctx, &t) else { continue };
                ctx.cover(k);
                ctx.cover(what);
                let Some(base) = iter(ctx, &text) else { continue };
                if run.ok() != base.ok() {
                    ctx.violation("line break style changes the verdict", &t, format!("{}; with LF: {}", run.errs(), base.errs()));
                } else if base.ok() && run.events() != base.events() {
                    ctx.violation("line break style changes the content", &t, first_diff(&run.events(), &base.events()));
                }
            }
        }
        if !evs.ok() {
            return;
        }
        let base = text;
        if !base.contains('\u{feff}') && !base.is_empty() {
            let t = format!("\u{feff}{base}");
            if let (Some(a), Some(b)) = (iter(ctx, &t), iter(ctx, &base)) {
                ctx.cover("byte order mark compared");
                if a.ok() != b.ok() || a.events() != b.events() {
                    ctx.violation("a byte order mark changes the content", &t, format!("{}\n{}", a.errs(), first_diff(&a.events(), &b.events())));
                }
            }
        }
        // appending what adds nothing
        if base.ends_with('\n') && !hostile_case && base.contains(':') | base.contains('-') {
            // a comment would be content of an open block scalar only when indented
            // (a root block scalar's content may start in column one, as the comment does)
            let open = evs.events().iter().rev().find_map(|e| match e {
                E::Scalar { st, .. } => Some(matches!(st, St::Literal | St::Folded)),
                _ => None,
            });
            let tails: &[&str] = if open == Some(true) { &["...\n", "...", "... # x\n"] } else { &["# the end\n", "# the end", "...\n", "...", "... # x\n"] };
            let tail = (*r.pick(tails)).to_string();
            let tail = if tail.contains('#') && r.chance(1, 2) { format!("{}{}\n", tail.trim_end(), r#gen::comment_text(&mut r)) } else { tail };
            let t = format!("{base}{tail}");
            if let (Some(a), Some(b)) = (iter(ctx, &t), iter(ctx, &base)) {
                ctx.cover("appended tail compared");
                if a.ok() != b.ok() || a.events() != b.events() {
                    ctx.violation("a trailing comment or end marker changes the content", &t, format!("{}\n{}", a.errs(), first_diff(&a.events(), &b.events())));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ P15
pub struct Reject;
/// Fragments that are ill-formed wherever a node is expected.
const BADNODE: &[&str] = &[
    "\"\\q\"", "\"\\x4\"", "\"\\uD800\"", "\"\\U00110000\"", "\"\\xzz\"", "*undefined-alias", "&a &b x", "!a !b x", "&a *b", "!x!y z", "@x", "`x", "%x", "[a", "{a: b", "[a}", "{a]", "'abc", "\"abc", "[a, , b]", "[,]", "{,}", "{a: b,, c}", "]", "}", "\"a\"b", "'a'b", "[a]b", "{a: b}c", "!<tag:x", "!<> x",
    "& x", "* x", "!a%zz x", "!%4 x", "[a: b: c]", "\"a\" \"b\"", "'a' b", "|x\n", "|0\n", "|10\n", "|--\n", "|1-1\n", ">+-\n", "| text", "|#c\n", "> text\n", "[\"a\"b]", "[- a]", "{- a}", "[a\n---\n]", "*", "&", "!a{b} c", "\"a\n---\nb\"", "'a\n...\nb'",
];
impl Check for Reject {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3_600_000 } else { 40_000_000 }
    }
    fn rule(&self) -> String {
        "(a) hostile text (token soup, mutated and truncated documents) that an independent reference parser, strict and then lenient, finds ill-formed must be an error; (b) ill-formed fragments planted in otherwise well-formed generated documents; (c) the error cases of the YAML test suite with neutral edits around them; non-trivial: distinct ill-formed input".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["rejected: hostile text", "rejected: planted fragment", "rejected: test suite"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "documented leniencies are outside the property: in flow collections the further lines of a plain scalar with any indentation and everything after one at the parent's indentation, quoted continuation lines at the parent's indentation, blank lines with tabs where indentation is expected, a block collection right after a keyless ':', underscores in tag handles (a word character, as in libyaml)".into(),
            "verdicts are not compared on text containing NUL".into(),
        ]
    }
    fn probe(&self, input: &str) -> Option<String> {
        let run = rt::guarded(|| ev::run_iter(input)).ok()?;
        if run.ok() { Some("accepted".into()) } else { None }
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p15");
        match idx % 6 {
            0 => {
                let o = Opts { big: 0, depth: 3, max_docs: 1, ..Opts::default() };
                let Ok(mut d) = rt::guarded(|| ModelGen::new(&mut r, &o).doc()) else { return };
                d.root = with_hole(&mut r, d.root);
                let Ok((t, _, _)) = rt::guarded(|| r#gen::render(&mut r, &o, &[d])) else { return };
                // tabs that stand for indentation of a continuation line
                let tabbed;
                let frag = if r.chance(1, 8) {
                    let (a, b) = *r.pick(&[("\"x", "y\""), ("'x", "y'"), ("\"x\\", "y\""), ("x", "y"), ("[\"x", "y\"]"), ("{k: 'x", "y'}"), ("&a \"x", "y\""), ("!!str 'x", "y'")]);
                    let blanks: String = (0..r.below(3)).map(|_| if r.chance(1, 3) { " \n" } else { "\n" }).collect();
                    tabbed = format!("{a}\n{blanks}{}\t{}{b}", " ".repeat(r.below(5)), *r.pick(&["", " ", "\t"]));
                    ctx.cover("tab-indented continuation planted");
                    tabbed.as_str()
                } else {
                    *r.pick(BADNODE)
                };
                let t = t.replace(HOLE, frag);
                // the planted line breaks may close a scope legally: ask the reference
                if let Verdict::Valid(_) | Verdict::Unknown = refp::judge(&t) {
                    ctx.inconclusive("fragment became well-formed in its context");
                    return;
                }
                if let Verdict::Valid(_) | Verdict::Unknown = refp::judge_lenient(&t) {
                    ctx.inconclusive("accepted leniency");
                    return;
                }
                let Some(run) = iter(ctx, &t) else { return };
                ctx.nontrivial(t.as_bytes());
                if run.ok() {
                    ctx.violation(format!("ill-formed {frag:?} accepted"), &t, ev::show(&run.events()));
                } else {
                    ctx.cover("rejected: planted fragment");
                    ctx.cover(match &run.err {
                        Some(yam_core::prelude::YamlError::ScannerErr { info, .. }) => intern(info),
                        _ => "error: other",
                    });
                }
                if nesting_bound(&t) < 600
                    && let Some(Ok(_)) = call(ctx, "Yaml::load_from", &t, || Yaml::load_from(&t))
                {
                    ctx.violation("loader accepts ill-formed input", &t, "Yaml::load_from succeeded");
                }
            }
            1 => {
                let c = corpus();
                let errs: Vec<_> = c.iter().filter(|c| c.is_err()).collect();
                let k = &errs[r.below(errs.len())];
                let pre = *r.pick(&["", "# c\n", "\n", "first\n...\n", "- a\n- b\n...\n", "{a: b}\n...\n"]);
                let t = format!("{pre}{}", k.input);
                let Some(run) = iter(ctx, &t) else { return };
                ctx.nontrivial(t.as_bytes());
                if run.ok() {
                    // documents the implementation deliberately accepts are not in the list
                    if let Some(b) = iter(ctx, &k.input)
                        && (b.ok() || matches!(refp::judge(&t), Verdict::Valid(_) | Verdict::Unknown))
                    {
                        ctx.inconclusive("test-suite error case the reference accepts");
                        if b.ok() && matches!(refp::judge(&k.input), Verdict::Invalid(_)) {
                            ctx.violation("test-suite error case accepted", &k.input, k.name.clone());
                        }
                        return;
                    }
                    ctx.violation("test-suite error case accepted behind a neutral prefix", &t, k.name.clone());
                } else {
                    ctx.cover("rejected: test suite");
                }
            }
            _ => {
                let s = if r.chance(1, 2) {
                    judged(&mut r, idx)
                } else {
                    let o = Opts { big: 0, depth: 3, max_docs: 2, ..Opts::default() };
                    let Ok(g) = rt::guarded(|| r#gen::gen_stream(&mut r, &o)) else { return };
                    soup::mutate(&mut r, &g.text, "", false).replace('\u{feff}', "")
                };

                let Some(run) = iter(ctx, &s) else { return };
                match compare(&s, &run) {
                    Cmp::BothReject => {
                        ctx.cover("rejected: hostile text");
                        ctx.nontrivial(s.as_bytes());
                        if let Some(yam_core::prelude::YamlError::ScannerErr { info, .. }) = &run.err {
                            ctx.cover(intern(info));
                        }
                        if idx % 5001 == 3 {
                            ctx.sample(format!("{s:?}: {}", run.errs()));
                        }
                    }
                    Cmp::AcceptsInvalid => {
                        let why = match refp::judge(&s) {
                            Verdict::Invalid(w) => format!("{w:?}"),
                            _ => String::new(),
                        };
                        ctx.violation("ill-formed input accepted", &s, format!("reference: {why}\n{}", ev::show(&run.events())));
                    }
                    Cmp::Same(_) => ctx.cover("well-formed after all"),
                    Cmp::Differ(_) | Cmp::RejectsValid => ctx.cover("well-formed but different (P09)"),
                    Cmp::Skip(w) => ctx.inconclusive(w),
                }
            }
        }
    }
}
/// Error messages are a small fixed set: intern them for the coverage table.
fn intern(s: &str) -> &'static str {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static T: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = T.lock().unwrap();
    let t = g.get_or_insert_with(HashMap::new);
    if let Some(x) = t.get(s) {
        return x;
    }
    if t.len() > 300 {
        return "error: other";
    }
    let x: &'static str = Box::leak(format!("error: {s}").into_boxed_str());
    t.insert(s.to_string(), x);
    x
}
