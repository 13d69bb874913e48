//! Parent / worker protocol: shards the cases of a check over processes, attributes
//! deaths to cases, re-confirms them, writes the evidence and the verdict.
use crate::checks;
use crate::rt::{self, Ctx, Tier, Violation};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn tier_of(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}
fn verif() -> PathBuf {
    PathBuf::from(std::env::var("YV_HOME").unwrap_or_else(|_| "/verif".into()))
}
fn nshards() -> u64 {
    std::env::var("YV_SHARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(8)
}
/// Development aid: run only a fraction of the cases.
fn scale() -> u64 {
    std::env::var("YV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}
fn wall_cap(t: Tier) -> u64 {
    let d = if t == Tier::Quick { 150 } else { 720 };
    std::env::var("YV_WALL").ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

// ------------------------------------------------------------------ worker
fn dump(ctx: &Ctx, cases: u64, done: bool, out: &Path) {
    let v: Vec<Value> = ctx.violations.iter().map(|v| json!({"idx": v.idx, "sig": v.sig, "input": v.input, "detail": v.detail})).collect();
    let j = json!({"evaluations": ctx.evaluations, "cover": ctx.cover, "maxes": ctx.maxes, "samples": ctx.samples, "violations": v, "inconclusive": ctx.inconclusive, "cases": cases, "done": done});
    let tmp = out.with_extension("tmp");
    let _ = std::fs::write(&tmp, j.to_string());
    let _ = std::fs::rename(&tmp, out);
    let mut h: Vec<u8> = Vec::with_capacity(ctx.distinct.len() * 8);
    for d in &ctx.distinct {
        h.extend_from_slice(&d.to_le_bytes());
    }
    let _ = std::fs::write(out.with_extension("hashes"), h);
}

pub fn worker(a: &[String]) {
    let (id, tier, seed) = (&a[0], tier_of(&a[1]), a[2].parse::<u64>().unwrap());
    let (shard, n, start) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
    let out = PathBuf::from(&a[6]);
    let slot = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(&a[7]).unwrap();
    let fd = std::os::fd::IntoRawFd::into_raw_fd(slot);
    rt::set_slot(fd);
    let ck = checks::get(id).expect("unknown check");
    let (cpu, mem) = ck.limits();
    rt::start_watchdog(cpu, mem);
    let mut ctx = Ctx::new(tier, seed);
    let total = (ck.cases(tier) / scale()).max(1);
    let t0 = Instant::now();
    let cap = Duration::from_secs(wall_cap(tier));
    let mut last = Instant::now();
    let mut idx = start.max(shard);
    idx += (n + shard - idx % n) % n;
    let mut cases = 0;
    while idx < total {
        rt::write_slot(fd, idx);
        rt::watchdog_reset();
        ctx.idx = idx;
        let nv = ctx.violations.len();
        if let Err(p) = rt::guarded(|| ck.run(&mut ctx, idx)) {
            // Every call into the code under test is guarded: this is the harness itself.
            ctx.inconclusive(&format!("harness panic: {p} (case {idx})"));
        }
        cases += 1;
        if ctx.violations.len() > nv || last.elapsed() > Duration::from_secs(4) {
            dump(&ctx, cases, false, &out);
            last = Instant::now();
        }
        if t0.elapsed() > cap {
            break;
        }
        if ctx.violations.len() >= 40 {
            break;
        }
        idx += n;
    }
    dump(&ctx, cases, true, &out);
}

pub fn one(a: &[String]) {
    let (id, tier, seed, idx) = (&a[0], tier_of(&a[1]), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let ck = checks::get(id).expect("unknown check");
    let (cpu, mem) = ck.limits();
    rt::start_watchdog(cpu, mem);
    let mut ctx = Ctx::new(tier, seed);
    ctx.verbose = true;
    ctx.idx = idx;
    if let Err(p) = rt::guarded(|| ck.run(&mut ctx, idx)) {
        println!("harness panic {p}");
    }
    println!("case {idx}: {} violations, {} evaluations", ctx.violations.len(), ctx.evaluations);
    if !ctx.violations.is_empty() {
        std::process::exit(1);
    }
}

/// Runs the probe of a known finding; exit 1 when it still fails.
pub fn probe(a: &[String]) {
    let ck = checks::get(&a[0]).expect("unknown check");
    let (cpu, mem) = ck.limits();
    rt::start_watchdog(cpu, mem);
    match ck.probe(&a[1]) {
        Some(d) => {
            println!("{d}");
            std::process::exit(1);
        }
        None => println!("holds"),
    }
}

pub fn replay(a: &[String]) {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    println!("{}", serde_json::to_string_pretty(&j).unwrap());
    let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
    if j["idx"].as_u64() == Some(u64::MAX) {
        std::process::exit(crate::miri::again(&verif(), &s("input")));
    }
    one(&[s("property"), s("tier"), j["seed"].to_string(), j["idx"].to_string()]);
}

// ------------------------------------------------------------------ parent
struct Live {
    child: std::process::Child,
    out: PathBuf,
    slot: PathBuf,
    err: PathBuf,
    shard: u64,
    restarts: u32,
    t0: Instant,
}

fn spawn(id: &str, tier: Tier, seed: u64, shard: u64, n: u64, start: u64, dir: &Path, gen_: u32) -> Live {
    let out = dir.join(format!("w{shard}_{gen_}.json"));
    let slot = dir.join(format!("s{shard}"));
    let err = dir.join(format!("e{shard}_{gen_}"));
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tier.name(), &seed.to_string(), &shard.to_string(), &n.to_string(), &start.to_string()])
        .arg(&out)
        .arg(&slot)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&err).unwrap())
        .spawn()
        .expect("spawn worker");
    Live { child, out, slot, err, shard, restarts: gen_, t0: Instant::now() }
}

fn death(st: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(rt::EXIT_CPU), _) => "no progress: the CPU-time limit of one case ran out".into(),
        (Some(rt::EXIT_MEM), _) => "runaway allocation: the memory limit of one case ran out".into(),
        (Some(99), _) => "AddressSanitizer report".into(),
        (Some(c), _) => format!("exit code {c}"),
        (None, Some(6)) => "abort (SIGABRT)".into(),
        (None, Some(11)) => "SIGSEGV (invalid access or stack overflow)".into(),
        (None, Some(9)) => "killed from outside".into(),
        (None, s) => format!("signal {s:?}"),
    }
}

fn tail(p: &Path, n: usize) -> String {
    let s = String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(n)..].join("\n")
}

fn wait_limit(c: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub struct Finding {
    pub property: String,
    pub input: String,
    pub what: String,
}

/// known_findings.txt: `finding: property=<id> input=<json string> <what>`
pub fn findings(id: &str) -> Vec<Finding> {
    let t = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let Some((p, r)) = r.split_once(" input=") else { continue };
        let mut de = serde_json::Deserializer::from_str(r).into_iter::<String>();
        let Some(Ok(input)) = de.next() else { continue };
        let what = r[de.byte_offset()..].trim().to_string();
        if p == id {
            v.push(Finding { property: p.into(), input, what });
        }
    }
    v
}

pub fn check(a: &[String]) -> i32 {
    let id = a[0].clone();
    let tier = tier_of(a.get(1).map_or("quick", String::as_str));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let Some(ck) = checks::get(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let base = std::env::temp_dir().join(format!("yv-{id}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&base);
    let n = nshards();
    let total = (ck.cases(tier) / scale()).max(1);
    let mut live: Vec<Live> = (0..n).map(|s| spawn(&id, tier, seed, s, n, 0, &base, 0)).collect();
    let mut outs: Vec<PathBuf> = vec![];
    let mut viol: Vec<Violation> = vec![];
    let mut inc: BTreeMap<String, u64> = BTreeMap::new();
    let hard = Duration::from_secs(wall_cap(tier) + 60);
    let mut died = 0;
    let mut confirmed = 0;
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        let mut next = vec![];
        for mut w in live {
            match w.child.try_wait() {
                Ok(None) => {
                    // a few confirmed deaths settle the verdict: no need to collect more
                    if t0.elapsed() > hard || confirmed >= 3 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        let why = if confirmed >= 3 { "worker stopped: the verdict is settled" } else { "worker over the wall-clock limit" };
                        *inc.entry(why.into()).or_insert(0) += 1;
                        outs.push(w.out);
                    } else {
                        next.push(w);
                    }
                }
                Ok(Some(st)) => {
                    outs.push(w.out.clone());
                    if st.success() {
                        continue;
                    }
                    died += 1;
                    if confirmed >= 3 {
                        continue;
                    }
                    let sl = std::fs::read(&w.slot).unwrap_or_default();
                    let word = |i: usize| sl.get(i..i + 8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()));
                    let idx = word(0);
                    let ln = (word(8) as usize).min(sl.len().saturating_sub(16));
                    let input = String::from_utf8_lossy(&sl[16.min(sl.len())..(16 + ln).min(sl.len())]).into_owned();
                    let why = death(st);
                    // Re-confirm in a fresh process before believing it.
                    let err2 = base.join(format!("c{}_{}", w.shard, w.restarts));
                    let mut c = Command::new(std::env::current_exe().unwrap())
                        .args(["one", &id, tier.name(), &seed.to_string(), &idx.to_string()])
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .stderr(std::fs::File::create(&err2).unwrap())
                        .spawn()
                        .unwrap();
                    let r = wait_limit(&mut c, 150);
                    let again = match r {
                        None => true,
                        Some(s) => !s.success() && s.code() != Some(2),
                    };
                    if again {
                        confirmed += 1;
                        let mut tl = tail(&err2, 25);
                        if tl.is_empty() {
                            tl = tail(&w.err, 25);
                        }
                        viol.push(Violation { idx, sig: format!("process died: {why}"), input, detail: tl });
                    } else {
                        *inc.entry(format!("worker died ({why}) but case {idx} does not reproduce it")).or_insert(0) += 1;
                    }
                    if w.restarts < 2 && died < 12 && confirmed < 3 && w.t0.elapsed() < hard && t0.elapsed() < Duration::from_secs(wall_cap(tier) / 2) {
                        next.push(spawn(&id, tier, seed, w.shard, n, idx + 1, &base, w.restarts + 1));
                    }
                }
                Err(_) => {}
            }
        }
        live = next;
    }
    // ---- merge
    let mut evaluations = 0u64;
    let mut cases = 0u64;
    let mut cover: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    for o in &outs {
        // the code under test may have handed out strings that are not UTF-8
        let Ok(t) = std::fs::read(o) else { continue };
        let t = String::from_utf8_lossy(&t).into_owned();
        let Ok(j) = serde_json::from_str::<Value>(&t) else {
            *inc.entry("unreadable worker report".into()).or_insert(0) += 1;
            continue;
        };
        evaluations += j["evaluations"].as_u64().unwrap_or(0);
        cases += j["cases"].as_u64().unwrap_or(0);
        let mut merge = |k: &str, m: &mut BTreeMap<String, u64>, mx: bool| {
            if let Some(o) = j[k].as_object() {
                for (k, v) in o {
                    let e = m.entry(k.clone()).or_insert(0);
                    let v = v.as_u64().unwrap_or(0);
                    if mx { *e = (*e).max(v) } else { *e += v }
                }
            }
        };
        merge("cover", &mut cover, false);
        merge("maxes", &mut maxes, true);
        merge("inconclusive", &mut inc, false);
        for s in j["samples"].as_array().into_iter().flatten() {
            samples.push(s.as_str().unwrap_or("").to_string());
        }
        for v in j["violations"].as_array().into_iter().flatten() {
            let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
            viol.push(Violation { idx: v["idx"].as_u64().unwrap_or(0), sig: g("sig"), input: g("input"), detail: g("detail") });
        }
        if let Ok(h) = std::fs::read(o.with_extension("hashes")) {
            for c in h.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    if id == "P01" && viol.is_empty() {
        let secs = std::env::var("YV_MIRI").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == Tier::Quick { 40 } else { 240 });
        match crate::miri::start(&verif(), &base, seed, n, secs, |r, i| {
            // half of them where bytes are put together by hand: escapes and unusual characters
            let mut s = checks::robust::any_input(r, i);
            let mut k = 0;
            while i % 2 == 1 && k < 40 && !["escapes", "percent escape", "random characters"].contains(&s.1) {
                s = checks::robust::any_input(r, i);
                k += 1;
            }
            s.0
        }) {
            Some(m) => {
                for (sig, input, detail) in m.finish(secs, &mut cover, &mut inc) {
                    viol.push(Violation { idx: u64::MAX, sig, input, detail });
                }
            }
            None => *inc.entry("Miri is not usable here".into()).or_insert(0) += 1,
        }
    }
    samples.sort_by_key(|s| std::cmp::Reverse(s.len()));
    samples.truncate(6);
    // ---- known findings
    let kf = findings(&id);
    let mut known = vec![];
    for f in &kf {
        let e = base.join("probe.err");
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["probe", &id, &f.input])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(&e).unwrap())
            .spawn()
            .unwrap();
        let still = !wait_limit(&mut c, 120).is_some_and(|s| s.success());
        known.push(json!({"input": f.input, "what": f.what, "still_fails": still}));
        if still {
            println!("KNOWN-FINDING: property={id} {}", f.what);
        }
    }
    let listed = |v: &Violation| kf.iter().any(|f| f.input == v.input);
    let suppressed = viol.iter().filter(|v| listed(v)).count();
    viol.retain(|v| !listed(v));
    // ---- replays and verdict
    let rdir = verif().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    viol.sort_by(|a, b| a.input.len().cmp(&b.input.len()).then(a.idx.cmp(&b.idx)));
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let mut printed = 0;
    for v in &viol {
        let k = seen.entry(v.sig.clone()).or_insert(0);
        *k += 1;
        if *k > 1 || printed >= 15 {
            continue;
        }
        let p = rdir.join(format!("{id}-{}-{printed}.json", tier.name()));
        let j = json!({"property": id, "tier": tier.name(), "seed": seed, "idx": v.idx, "sig": v.sig, "input": v.input, "detail": v.detail,
            "how": format!("{} replay <this file>", std::env::current_exe().unwrap().display())});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
        println!("VIOLATION property={id} replay={}", p.display());
        let mut inp: String = v.input.chars().take(300).collect();
        if inp.len() < v.input.len() {
            inp.push('…');
        }
        println!("  [{}] case {} input {:?}", v.sig, v.idx, inp);
        for l in v.detail.lines().take(14) {
            let l: String = l.chars().take(240).collect();
            println!("    {l}");
        }
        printed += 1;
    }
    let distinct = hashes.len() as u64;
    let mut gaps = vec![];
    if viol.is_empty() {
        if distinct < ck.min_nontrivial(tier) {
            gaps.push(format!("only {distinct} distinct non-trivial cases, {} wanted", ck.min_nontrivial(tier)));
        }
        for k in ck.must_cover() {
            if cover.get(k).copied().unwrap_or(0) == 0 {
                gaps.push(format!("never observed: {k}"));
            }
        }
    }
    let ev = json!({
        "property": id, "tier": tier.name(), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": ck.rule(), "samples": samples,
            "cases_planned": total, "cases_run": cases, "workers": n, "worker_deaths": died,
            "observed": cover, "maxima": maxes, "inconclusive": inc, "known_findings": known, "suppressed_known": suppressed, "gaps": gaps,
            "binary": std::env::current_exe().unwrap().display().to_string(),
        },
        "assumptions": ck.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol.len(),
    });
    let edir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    let _ = std::fs::remove_dir_all(&base);
    println!(
        "{id} {}: {cases}/{total} cases, {evaluations} evaluations, {distinct} distinct non-trivial, {} violations, {:.1} s",
        tier.name(),
        viol.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &inc {
        println!("  inconclusive: {v} x {k}");
    }
    for g in &gaps {
        println!("  gap: {g}");
    }
    let _ = std::io::stdout().flush();
    if !viol.is_empty() {
        1
    } else if cases == 0 {
        2
    } else {
        0
    }
}
