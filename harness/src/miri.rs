//! P01 under Miri: the same entry points on short inputs, interpreted, so that every kind of
//! undefined behaviour is seen (in-allocation over-reads, uninitialised bytes, aliasing, invalid
//! values), not only what AddressSanitizer can see. The inputs are made natively and read here.
use crate::checks::robust::{utf8_events, utf8_tree, walk_json};
use crate::checks::util::nesting_bound;
use crate::ev;
use crate::rt::{self, Ctx, Rng, Tier};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use yam_core::prelude::{Yaml, YamlLoader};

const LONGEST: usize = 56;

/// `mirisweep FILE SECONDS`: runs the inputs of FILE (length-prefixed) until time is up.
/// Prints `i <n>` before each input, `d <n> <strings> <trees>` at the end, `v <sig>` for a violation.
pub fn sweep(a: &[String]) {
    let b = std::fs::read(&a[0]).unwrap();
    let cap = Duration::from_secs(a[1].parse().unwrap());
    let t0 = Instant::now();
    let mut ctx = Ctx::new(Tier::Thorough, 1);
    let (mut at, mut n) = (0, 0u64);
    let out = std::io::stdout();
    while at + 2 <= b.len() && t0.elapsed() < cap {
        let len = usize::from(b[at]) + 256 * usize::from(b[at + 1]);
        let s = std::str::from_utf8(&b[at + 2..at + 2 + len]).unwrap();
        at += 2 + len;
        writeln!(out.lock(), "i {n}").unwrap();
        case(&mut ctx, s, n);
        n += 1;
        if let Some(v) = ctx.violations.first() {
            writeln!(out.lock(), "v {}", v.sig.replace('\n', " ")).unwrap();
            std::process::exit(1);
        }
    }
    let g = |k: &str| ctx.cover.get(k).copied().unwrap_or(0);
    writeln!(out.lock(), "d {n} {} {}", g("strings"), g("trees")).unwrap();
}

fn case(ctx: &mut Ctx, s: &str, n: u64) {
    let exact: Box<str> = s.into();
    // a panic is not this property's business
    if let Ok(r) = rt::guarded(|| ev::run_iter(&exact)) {
        utf8_events(ctx, s, &r.evs);
        ctx.cover_n("strings", r.evs.len() as u64);
    }
    match n % 4 {
        0 => {
            let owned: Box<str> = s.into();
            let docs = rt::guarded(|| Yaml::load_from(&owned));
            drop(owned);
            if let Ok(Ok(d)) = docs {
                ctx.cover("trees");
                d.iter().for_each(|y| utf8_tree(ctx, s, y));
                let c = d.clone();
                drop(d);
                c.iter().for_each(|y| utf8_tree(ctx, s, y));
            }
        }
        1 => {
            if let Ok(r) = rt::guarded(|| ev::run_load(&exact, true)) {
                utf8_events(ctx, s, &r.evs);
            }
        }
        2 => {
            if let Ok(Ok(v)) = rt::guarded(|| yam_serde::from_str::<serde_json::Value>(&exact)) {
                ctx.cover("trees");
                walk_json(ctx, s, &v);
            }
        }
        _ => {
            let mut f = yam_serde::ser::PrettyFormatter::pretty();
            f.pref_string_length = (n / 4 % 20) as usize;
            if let Ok(Ok(o)) = rt::guarded(|| yam_serde::to_pretty_string(&&*exact, f)) {
                if std::str::from_utf8(std::hint::black_box(o.as_bytes())).is_err() {
                    ctx.violation("serialized string is not UTF-8", s, "");
                }
                let _ = rt::guarded(|| ev::run_keep_tags(&o));
            }
            let _ = rt::guarded(|| yam_core::escaper::escape_plain(Cow::Borrowed(exact.as_bytes())).len());
            let _ = rt::guarded(|| yam_core::escaper::escape_single_quotes(Cow::Borrowed(exact.as_bytes())).len());
        }
    }
}

pub struct Sweep {
    live: Vec<(Child, Vec<String>, std::path::PathBuf)>,
}

fn miri(dir: &Path) -> Command {
    let mut c = Command::new("cargo");
    c.current_dir(dir.join("harness"))
        .args(["miri", "run", "-q", "--offline", "--locked", "--target-dir"])
        .arg(dir.join("target/miri"))
        .args(["--", "mirisweep"])
        .env("RUSTUP_TOOLCHAIN", "nightly")
        .env("RUSTFLAGS", "--cfg yam_verif")
        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
        .env("HOME", "/root")
        .stdin(Stdio::null());
    c
}

/// Makes the inputs and starts the interpreters; None when Miri cannot be run here.
pub fn start(verif: &Path, tmp: &Path, seed: u64, n: u64, secs: u64, make: impl Fn(&mut Rng, u64) -> String) -> Option<Sweep> {
    // the first run only builds
    let empty = tmp.join("m.none");
    std::fs::write(&empty, "").ok()?;
    let o = miri(verif).arg(&empty).arg("0").output().ok()?;
    if !o.status.success() || !o.stdout.starts_with(b"d 0") {
        eprintln!("Miri is not usable: {}", String::from_utf8_lossy(&o.stderr).lines().take(5).collect::<Vec<_>>().join(" | "));
        return None;
    }
    let mut seen = HashSet::new();
    let mut live = vec![];
    for shard in 0..n {
        let (mut ins, mut b, mut i) = (vec![], vec![], 0u64);
        while ins.len() < 8000 && i < 400_000 {
            let mut r = Rng::new(seed, "miri", i * n + shard);
            let s = make(&mut r, i * n + shard);
            i += 1;
            if s.len() <= if i % 4 == 0 { LONGEST } else { LONGEST / 3 } && nesting_bound(&s) < 20 && seen.insert(rt::fnv(s.as_bytes())) {
                b.extend_from_slice(&(s.len() as u16).to_le_bytes());
                b.extend_from_slice(s.as_bytes());
                ins.push(s);
            }
        }
        let f = tmp.join(format!("m{shard}.in"));
        std::fs::write(&f, b).ok()?;
        let out = tmp.join(format!("m{shard}.out"));
        let c = miri(verif)
            .arg(&f)
            .arg(secs.to_string())
            .stdout(std::fs::File::create(&out).ok()?)
            .stderr(std::fs::File::create(out.with_extension("err")).ok()?)
            .spawn()
            .ok()?;
        live.push((c, ins, out));
    }
    Some(Sweep { live })
}

/// Interprets one input again, in the four ways.
pub fn again(verif: &Path, input: &str) -> i32 {
    let f = std::env::temp_dir().join(format!("yv-miri-{}", std::process::id()));
    let mut one = (input.len() as u16).to_le_bytes().to_vec();
    one.extend_from_slice(input.as_bytes());
    let _ = std::fs::write(&f, one.repeat(4));
    let st = miri(verif).arg(&f).arg("600").status();
    let _ = std::fs::remove_file(&f);
    st.map_or(2, |s| s.code().unwrap_or(1))
}

impl Sweep {
    /// Waits and reports (input, what) for every interpreter that found something.
    pub fn finish(self, secs: u64, cover: &mut BTreeMap<String, u64>, inc: &mut BTreeMap<String, u64>) -> Vec<(String, String, String)> {
        let t0 = Instant::now();
        let mut bad = vec![];
        for (mut c, ins, out) in self.live {
            let st = loop {
                if let Ok(Some(s)) = c.try_wait() {
                    break Some(s);
                }
                if t0.elapsed().as_secs() > secs + 120 {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(50));
            };
            let t = String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).into_owned();
            let err = String::from_utf8_lossy(&std::fs::read(out.with_extension("err")).unwrap_or_default()).into_owned();
            let last = t.lines().rev().find_map(|l| l.strip_prefix("i ")).and_then(|x| x.parse::<usize>().ok());
            if let Some(d) = t.lines().find_map(|l| l.strip_prefix("d ")) {
                let k: Vec<u64> = d.split(' ').filter_map(|x| x.parse().ok()).collect();
                *cover.entry("inputs interpreted by Miri".into()).or_insert(0) += k[0];
                *cover.entry("events validated under Miri".into()).or_insert(0) += k[1];
                *cover.entry("trees walked under Miri".into()).or_insert(0) += k[2];
                continue;
            }
            let v = t.lines().find_map(|l| l.strip_prefix("v "));
            let ub = err.contains("Undefined Behavior") || err.contains("unsafe precondition");
            match (v, last) {
                (Some(v), Some(i)) => bad.push((v.to_string(), ins[i].clone(), "found under Miri".to_string())),
                (None, Some(i)) if ub => {
                    let l: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).take(14).collect();
                    bad.push(("Miri: undefined behaviour".to_string(), ins[i].clone(), l.join("\n")));
                }
                _ => {
                    let why = format!("Miri ended without a result ({st:?}): {}", err.lines().next().unwrap_or(""));
                    *inc.entry(why).or_insert(0) += 1;
                }
            }
        }
        bad
    }
}
