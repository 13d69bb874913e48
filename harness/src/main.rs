mod checks;
mod corpus;
mod ev;
mod r#gen;
mod miri;
mod refp;
mod rt;
mod run;
mod soup;
mod src;

#[global_allocator]
static A: rt::CountingAlloc = rt::CountingAlloc;

fn main() {
    rt::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("show") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            rt::start_watchdog(5, 1 << 28);
            let r = ev::run_iter(&s);
            for (e, sp) in &r.evs {
                print!("{:<24} {}", format!("{} - {}", ev::marker(sp.start), ev::marker(sp.end)), ev::show(&[e.clone()]));
            }
            println!("{}", r.errs());
        }
        Some("diff") => diff(a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("ref") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            match refp::judge(&s) {
                refp::Verdict::Valid(v) => print!("{}", ev::show(&v.into_iter().map(|x| x.0).collect::<Vec<_>>())),
                x => println!("{x:?}"),
            }
        }
        Some("refl") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            println!("{:?}", refp::judge_lenient(&s));
        }
        Some("gencheck") => gencheck(a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("refcorpus") => refcorpus(),
        Some("spans") => spans(a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("worker") => run::worker(&a[2..]),
        Some("mirisweep") => miri::sweep(&a[2..]),
        Some("one") => run::one(&a[2..]),
        Some("probe") => run::probe(&a[2..]),
        Some("replay") => run::replay(&a[2..]),
        Some("check") => std::process::exit(run::check(&a[2..])),
        _ => {
            eprintln!("usage: yv check <ID> <quick|thorough> | replay <file> | one <ID> <tier> <seed> <case>");
            std::process::exit(2);
        }
    }
}

fn refcorpus() {
    let (mut ok, mut bad) = (0, 0);
    for c in corpus::corpus() {
        let r = refp::judge(&c.input);
        let run = ev::run_iter(&c.input);
        let m = match (&r, run.ok(), c.is_err()) {
            (refp::Verdict::Valid(v), true, false) => v.iter().map(|x| x.0.clone()).collect::<Vec<_>>() == run.events(),
            (refp::Verdict::Invalid(_), false, true) => true,
            _ => false,
        };
        if m {
            ok += 1;
        } else {
            bad += 1;
            println!("== {} err={} input={:?}\nimpl {} {}", c.name, c.is_err(), c.input, run.errs(), ev::show(&run.events()));
            match r {
                refp::Verdict::Valid(v) => println!("ref valid\n{}", ev::show(&v.into_iter().map(|x| x.0).collect::<Vec<_>>())),
                x => println!("ref {x:?}"),
            }
        }
    }
    println!("{ok} agree, {bad} differ");
}


pub fn categ(s: &str) -> (String, String) {
        let run = ev::run_iter(&s);
        let v = refp::judge(&s);
        match (&v, run.ok()) {
            (refp::Verdict::Unknown, _) => ("unknown".to_string(), String::new()),
            (refp::Verdict::Valid(v), true) => {
                let e: Vec<_> = v.iter().map(|x| x.0.clone()).collect();
                if e == run.events() { ("same".to_string(), String::new()) } else { ("DIFF".to_string(), format!("impl:\n{}ref:\n{}", ev::show(&run.events()), ev::show(&e))) }
            }
            (refp::Verdict::Valid(_), false) => (format!("REJECT {}", match run.err.as_ref().unwrap() { yam_core::prelude::YamlError::ScannerErr { info, .. } => info.clone(), x => format!("{x:?}") }), String::new()),
            (refp::Verdict::Invalid(_), true) => match refp::judge_lenient(s) {
                refp::Verdict::Valid(v) => {
                    let e: Vec<_> = v.iter().map(|x| x.0.clone()).collect();
                    if e == run.events() { ("lenient".to_string(), String::new()) } else { ("LENDIFF".to_string(), format!("impl:\n{}ref:\n{}", ev::show(&run.events()), ev::show(&e))) }
                }
                _ => ("ACCEPT".to_string(), ev::show(&run.events())),
            },
            (refp::Verdict::Invalid(_), false) => ("invalid".to_string(), String::new()),
        }
}

fn shrink(s: &str, cat: &str) -> String {
    let mut cur: Vec<char> = s.chars().collect();
    loop {
        let mut changed = false;
        for w in [8, 4, 2, 1] {
            let mut i = 0;
            while i + w <= cur.len() {
                let mut c = cur.clone();
                c.drain(i..i + w);
                let t: String = c.iter().collect();
                if categ(&t).0 == cat {
                    cur = c;
                    changed = true;
                } else {
                    i += 1;
                }
            }
        }
        // simplify chars
        for i in 0..cur.len() {
            if cur[i].is_alphanumeric() && cur[i] != 'a' {
                let mut c = cur.clone();
                c[i] = 'a';
                let t: String = c.iter().collect();
                if categ(&t).0 == cat { cur = c; changed = true; }
            }
        }
        if !changed {
            return cur.into_iter().collect();
        }
    }
}

fn diff(seed: u64, n: u64) {
    let filt: Option<String> = std::env::var("CAT").ok();
    let c = corpus::corpus();
    let mut cnt: std::collections::BTreeMap<String, (u64, std::collections::BTreeMap<String, (u64, String)>)> = Default::default();
    for i in 0..n {
        let mut r = rt::Rng::new(seed, "diff", i);
        let mut s = match r.below(3) {
            0 => soup::soup(&mut r, 8, false),
            1 => soup::exhaustive(i / 3),
            _ => {
                let a = r.below(c.len());
                let b = r.below(c.len());
                soup::mutate(&mut r, &c[a].input, &c[b].input, false)
            }
        };
        if std::env::var_os("NOTAB").is_some() { s = s.replace('\t', " "); }
        if s.contains('\0') {
            continue;
        }
        s = s.replace('\u{feff}', "");
        let (k, _) = categ(&s);
        let en = cnt.entry(k.clone()).or_default();
        en.0 += 1;
        if (!matches!(k.as_str(), "same" | "invalid" | "unknown" | "lenient") || filt.as_deref() == Some("lenient") && k == "lenient") && filt.as_ref().is_none_or(|f| k.starts_with(f.as_str())) {
            let sh = shrink(&s, &k);
            let d = categ(&sh).1;
            en.1.entry(sh).or_insert((0, d)).0 += 1;
        }
    }
    for (k, v) in cnt {
        println!("{:7} {k}", v.0);
        let mut l: Vec<_> = v.1.into_iter().collect();
        l.sort_by_key(|x| std::cmp::Reverse(x.1.0));
        for (s, (n, d)) in l.iter().take(30) {
            println!("       {n} {s:?}");
            if k.contains("DIFF") { println!("{d}"); }
        }
    }
}

/// Development: the generator against the reference parser and the implementation.
fn gencheck(seed: u64, n: u64) {
    let (mut same, mut refbad, mut implbad) = (0, 0, 0);
    let mut out: Vec<(usize, String)> = vec![];
    let mut feats: std::collections::BTreeMap<&str, u64> = Default::default();
    for i in 0..n {
        let mut r = rt::Rng::new(seed, "gencheck", i);
        let o = r#gen::Opts::default();
        let g = match rt::guarded(|| r#gen::gen_stream(&mut r, &o)) { Ok(g) => g, Err(e) => { println!("GEN PANIC {i} {e}"); continue } };
        for (k, v) in &g.feats { *feats.entry(k).or_insert(0) += v; }
        let rv = match refp::judge(&g.text) {
            refp::Verdict::Valid(v) => Ok(v.into_iter().map(|x| x.0).collect::<Vec<_>>()),
            x => Err(format!("{x:?}")),
        };
        let iv = match rt::guarded(|| ev::run_iter(&g.text)) { Ok(r) => if r.ok() { Ok(r.events()) } else { Err(r.errs()) }, Err(e) => Err(e) };
        let pr = |k: &str, x: &Result<Vec<ev::E>, String>| {
            let d = match x { Ok(e) => { let i = e.iter().zip(&g.evs).take_while(|(a, b)| a == b).count(); format!("first difference at {i}: got {:?} gen {:?}", e.get(i), g.evs.get(i)) } Err(e) => e.clone() };
            (g.text.len(), format!("== {k} {i}\n{}\n{:?}\n-- {d}", g.text, g.text))
        };
        if rv.as_ref() != Ok(&g.evs) {
            refbad += 1;
            out.push(pr("REF", &rv));
        } else if iv.as_ref() != Ok(&g.evs) {
            implbad += 1;
            out.push(pr("IMPL", &iv));
        } else { same += 1; }
    }
    out.sort();
    for (_, x) in out.iter().take(12) { println!("{x}"); }
    println!("same {same} refbad {refbad} implbad {implbad}\n{feats:?}");
}

/// Development: what relations hold between spans and the text.
fn spans(seed: u64, n: u64) {
    use std::collections::BTreeMap;
    let mut cnt: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for i in 0..n {
        let mut r = rt::Rng::new(seed, "spans", i);
        let o = r#gen::Opts::default();
        let g = r#gen::gen_stream(&mut r, &o);
        let t = g.text.replace('\u{feff}', "");
        let refp::Verdict::Valid(rv) = refp::judge(&t) else { continue };
        let run = ev::run_iter(&t);
        if !run.ok() || run.evs.len() != rv.len() { continue }
        let offs: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len(), t.len() + 1]).collect();
        let mut prev: Option<yam_core::prelude::Span> = None;
        for ((e, sp), (_, a, b)) in run.evs.iter().zip(&rv) {
            let kind = match e { ev::E::Scalar { v, st, .. } => format!("Scalar {st:?}{}", if v.is_empty() { " empty" } else { "" }), x => format!("{x:?}").split(['(', ' ']).next().unwrap().to_string() };
            let mut note = |k: String| { let en = cnt.entry(format!("{kind:20} {k}")).or_insert((0, t.clone())); en.0 += 1; if t.len() < en.1.len() { en.1 = t.clone(); } };
            let lc = |m: yam_core::prelude::Marker| {
                if m.pos > t.len() || !t.is_char_boundary(m.pos) { return "pos-bad".to_string(); }
                let pre = &t[..m.pos];
                let line = pre.matches('\n').count() + 1;
                let ls = pre.rfind('\n').map_or(0, |x| x + 1);
                let bc = m.pos - ls + 1;
                let cc = t[ls..m.pos].chars().count() + 1;
                let l = if m.line as usize == line { "L".to_string() } else { format!("line{:+}", m.line as i64 - line as i64) };
                let c = if m.col as usize == bc && bc == cc { "C" } else if m.col as usize == bc { "Cbyte" } else if m.col as usize == cc { "Cchar" } else { "C?" };
                format!("{l}{c}")
            };
            note(format!("start {}", lc(sp.start)));
            note(format!("end {}", lc(sp.end)));
            if sp.start.pos > sp.end.pos { note("start>end".into()); }
            if let Some(p) = prev { if p.start.pos > sp.start.pos { note("start before previous start".into()); } }
            if *a != usize::MAX {
                let ra = offs[(*a).min(offs.len() - 1)];
                let rb = offs[(*b).min(offs.len() - 1)];
                note(format!("start vs ref {}", if sp.start.pos == ra { "=" } else if sp.start.pos < ra { "<" } else { ">" }));
                note(format!("end vs ref {}", if sp.end.pos == rb { "=" } else if sp.end.pos < rb { "<" } else { ">" }));
            }
            prev = Some(*sp);
        }
    }
    for (k, (n, t)) in cnt { println!("{n:8} {k}   {:?}", if t.len() < 60 { t } else { "..".into() }); }
}
