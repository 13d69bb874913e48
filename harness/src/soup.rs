//! Hostile-text generators: token soup, corpus mutation, short exhaustive strings.
use crate::rt::Rng;

pub const TOKENS: &[&str] = &[
    "-", "- ", "?", "? ", ":", ": ", ",", "[", "]", "{", "}", "#", " #", " # c\n", "&a", "&b ", "*a", "*b ", "!", "!!str ", "!!int ", "!t ",
    "!e!x ", "!<tag:x> ", "|", "|\n", "|-\n", "|+\n", "|2\n", ">", ">\n", ">-\n", ">+\n", ">1-\n", "'", "''", "'q'", "\"", "\"q\"", "\"\\n\"", "\\", "\"\\x41\"", "\"\\u263A\"",
    "%", "%YAML 1.2\n", "%TAG !e! tag:e,2000:\n", "%TAG ! tag:f:\n", "@", "`", "---", "---\n", "--- ", "...", "...\n", "\n", "\n\n", "\n ", "\n  ", "\n    ", " ", "  ", "\t",
    "\r", "\r\n", "a", "b", "key", "word", "1", "0x1F", "1.5", "true", "null", "~", "a: b", "a: ", "- a\n", "x y", "é", "日本", "😀", "\u{85}", "\u{2028}", "\u{feff}",
    "'a\n b'", "\"a\n b\"", "\"a\\\n  b\"", "[a, b]", "{a: b}", "[a]: b\n", "{a}: b\n", "? a\n: b\n", "- - a\n", "- ? a\n", "-\n", "a:\n", " - ", "a:b", "<<", "=", ":a", "?a", "-a",
];

pub const NASTY: &[&str] = &["\0", "\u{1}", "\u{7f}", "\u{feff}", "\u{85}", "\u{a0}", "\u{2029}", "\r", "\r\r", "\n\r", "\u{fffd}", "\u{fffe}", "\u{10ffff}", "\x1b"];

pub fn soup(r: &mut Rng, max_tokens: usize, nasty: bool) -> String {
    let n = r.range(1, max_tokens);
    let mut s = String::new();
    for _ in 0..n {
        if nasty && r.chance(1, 12) {
            s.push_str(r.pick(NASTY));
        } else {
            s.push_str(r.pick(TOKENS));
        }
    }
    s
}

pub const ALPHA: &[&str] = &[
    "a", "-", "?", ":", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", "\\", " ", "\t", "\n", "\r", "0", "\0", "é", ".", "=", "~", "<", "\u{feff}",
];

/// idx-th string over ALPHA (length-lexicographic order).
pub fn exhaustive(mut idx: u64) -> String {
    let k = ALPHA.len() as u64;
    let mut len = 0u32;
    let mut block = 1u64;
    while idx >= block {
        idx -= block;
        len += 1;
        block *= k;
    }
    let mut s = vec![];
    for _ in 0..len {
        s.push(ALPHA[(idx % k) as usize]);
        idx /= k;
    }
    s.reverse();
    s.concat()
}

pub fn mutate(r: &mut Rng, base: &str, other: &str, nasty: bool) -> String {
    let mut cs: Vec<char> = base.chars().collect();
    let n = r.range(1, 3);
    for _ in 0..n {
        if cs.is_empty() {
            cs.extend(r.pick(TOKENS).chars());
            continue;
        }
        let i = r.below(cs.len());
        match r.below(9) {
            0 => {
                cs.remove(i);
            }
            1 | 2 => {
                let t: Vec<char> = if nasty && r.chance(1, 4) { r.pick(NASTY).chars().collect() } else { r.pick(TOKENS).chars().collect() };
                for (k, c) in t.into_iter().enumerate() {
                    cs.insert(i + k, c);
                }
            }
            3 => {
                let t: Vec<char> = r.pick(ALPHA).chars().collect();
                cs[i] = t[0];
                if cs[i] == '\0' && !nasty {
                    cs[i] = ' ';
                }
            }
            4 => {
                // duplicate a slice
                let j = (i + r.range(1, 12)).min(cs.len());
                let sl: Vec<char> = cs[i..j].to_vec();
                let at = r.below(cs.len() + 1);
                for (k, c) in sl.into_iter().enumerate() {
                    cs.insert(at + k, c);
                }
            }
            5 => {
                // delete a slice
                let j = (i + r.range(1, 12)).min(cs.len());
                cs.drain(i..j);
            }
            6 => {
                cs.truncate(i);
            }
            7 => {
                // splice other
                let o: Vec<char> = other.chars().collect();
                if !o.is_empty() {
                    let a = r.below(o.len());
                    let b = (a + r.range(1, 20)).min(o.len());
                    for (k, c) in o[a..b].iter().enumerate() {
                        cs.insert(i + k, *c);
                    }
                }
            }
            _ => {
                // indent tweak: add/remove a space at a line start
                let starts: Vec<usize> = std::iter::once(0).chain(cs.iter().enumerate().filter(|x| *x.1 == '\n').map(|x| x.0 + 1)).collect();
                let p = *r.pick(&starts);
                if p < cs.len() && cs[p] == ' ' && r.chance(1, 2) {
                    cs.remove(p);
                } else {
                    cs.insert(p.min(cs.len()), ' ');
                }
            }
        }
    }
    cs.into_iter().collect()
}

/// Lines of directives, document markers and small documents in any order.
pub fn directives(r: &mut Rng) -> String {
    const D: &[&str] = &["%YAML 1.2", "%YAML 1.2 # c", "%YAML  1.2", "%TAG ! tag:a:", "%TAG !! tag:b:", "%TAG !e! tag:e:", "%TAG !e! !l-", "%TAG !f! tag:f: # c", "%FOO", "%FOO bar baz", "%FOO bar # c", "%YAMLX 1.2", "%TAGS !e! x"];
    const B: &[&str] = &["%YAML", "%YAML 1.2 1.2", "%YAML 1", "%YAML 1.", "%YAML .2", "%YAML x", "%TAG", "%TAG !e!", "%TAG !e x", "%TAG e! x", "%TAG !e! x y", "%TAG !e!x", "%TAG !a_b! x", " %YAML 1.2", "%TAG !e! ", "%TAG !e! [x", "%YAML 1.2#c"];
    const M: &[&str] = &["---", "---", "---", "...", "...", "--- a", "--- !e!x b", "--- [c]", "--- |", "--- 'q'", "--- # c", "... # c", "---\n...", "--- >\n  f", "... x", "---a", "...a", "--- - a", "--- a: b"];
    const C: &[&str] = &["a", "- a", "- !e!x b", "- !!x b", "- !x b", "- !f!x b", "[a]", "{a: b}", "\"q\"", "'q'", "a: b", "  a", " - b", "# c", "  # c", "", "", "|\n  a", ">\n  a", "&a b", "*a", "- *a", "[a", "]", "\"q", "q\"", "? a", "a\nb", "a:"];
    let n = r.range(2, 9);
    let mut s = String::new();
    for _ in 0..n {
        let l = match r.below(12) {
            0..=3 => r.pick(D),
            4 => r.pick(B),
            5..=8 => r.pick(M),
            _ => r.pick(C),
        };
        s.push_str(l);
        s.push_str(if r.chance(1, 60) { "" } else { "\n" });
    }
    s
}

fn fill(r: &mut Rng, n: usize) -> String {
    let al: &[&str] = r.pick::<&[&str]>(&[&["a"], &["é"], &["日"], &["😀"], &["a", "é", "日", "b", "😀"], &["a", "b", "c", " d"], &["x", "y", "-", "z:z"]]);
    let mut s = String::from("k");
    let mut k = 1;
    while k < n {
        let t = r.pick(al);
        if k + t.chars().count() > n {
            s.push('q');
            k += 1;
        } else {
            s.push_str(t);
            k += t.chars().count();
        }
    }
    s
}

/// Documents with one long part: keys around the 1024 character limit, deep
/// indentation, long names and runs.
pub fn long(r: &mut Rng) -> String {
    match r.below(6) {
        0..=2 => {
            let key_at = |r: &mut Rng, over: usize| {
                let n = if r.chance(4, 5) { r.range(1018, 1030) } else { *r.pick(&[300, 500, 520, 700, 1200, 2000]) };
                n.saturating_sub(over).max(2)
            };
            let form = r.below(8);
            let over = [0, 2, 2, 3, 3, 2, 5, 0][form];
            let n = key_at(r, over);
            let f = fill(r, n);
            let key = match form {
                0 => f,
                1 => format!("\"{f}\""),
                2 => format!("'{f}'"),
                3 => format!("&a {f}"),
                4 => format!("!t {f}"),
                5 => format!("[{f}]"),
                6 => format!("{{{f}: x}}"),
                _ => format!("*{}", "n".repeat(n)),
            };
            let pre = if form == 7 { format!("- &{} x\n", "n".repeat(n)) } else { String::new() };
            let sep = *r.pick(&["", "", " ", "  "]);
            let v = *r.pick(&[" v", "", " [v]", " 'v'"]);
            match r.below(7) {
                _ if !pre.is_empty() => format!("{pre}- {key} :{v}\n"),
                0 => format!("{key}{sep}:{v}\n"),
                1 => format!("- {key}{sep}:{v}\n"),
                2 => format!("m:\n    {key}{sep}:{v}\n    z: y\n"),
                3 => format!("[{key}{sep}:{v} ]\n"),
                4 => format!("{{{key}{sep}:{v} }}\n"),
                5 => format!("[a, ? {key}{sep}:{v} ]\n"),
                _ => format!("? {key}{sep}:{v}\n: w\n"),
            }
        }
        3 => {
            // deep indentation
            let w = *r.pick(&[15, 16, 17, 30, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 200, 300]);
            let ind = " ".repeat(w);
            let sub = " ".repeat(r.range(0, 3));
            let body = match r.below(6) {
                0 => format!("|\n{ind}{sub}a\n{ind}{sub} b\n\n{ind}{sub}c\n"),
                1 => format!(">\n{ind}{sub}a\n{ind}{sub}b\n{ind}{sub}  c\n\n{ind}{sub}d\n"),
                2 => format!("|{}\n{ind}a\n{ind} b\n", r.range(1, 9)),
                3 => format!("a\n{ind} b\n\n{ind} c\n"),
                4 => format!("\"a\n{ind} b\n\n{ind} c\"\n"),
                _ => format!("|-\n{}\n{ind}{sub}a\n{}\n\n", " ".repeat(r.range(0, w)), " ".repeat(r.range(0, w))),
            };
            match r.below(4) {
                0 => format!("k: {body}"),
                1 => format!("- {body}- z\n"),
                2 => format!("m:\n{}x: {body}{}y: z\n", &ind[1..], &ind[1..]),
                _ => format!("-{ind}- {body}"),
            }
        }
        4 => {
            // long runs of separation
            let n = *r.pick(&[15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600]);
            let sp = " ".repeat(n);
            let nl = "\n".repeat(n);
            let c = format!(" #{}", "c".repeat(n));
            let f = fill(r, n);
            match r.below(8) {
                0 => format!("k:{sp}v{sp}{c}\n-x: y\n"),
                1 => format!("k: {f}{nl} {f}\nz: y\n"),
                2 => format!("[{f},{sp}{f}{nl}{c}\n, {{{f}:{sp}x}}]\n"),
                3 => format!("- |\n {f}{nl} {f}{nl}- >+\n {f}{nl}- z\n"),
                4 => format!("- \"{f}{sp}\\\n{sp}{f}{nl} {f}\"\n- '{f}{nl} {f}'\n"),
                5 => format!("%TAG !{0}! tag:{0}\n---{c}\n!{0}!{0} &{0} {f}\n...{c}\n", "h".repeat(n)),
                6 => format!("- &{0} {f}\n-{sp}*{0}\n- !<{0}> x\n", "h".repeat(n)),
                _ => format!("{nl}{sp}{c}{nl}---{nl}{sp}a:{sp}b{nl}...{nl}"),
            }
        }
        _ => {
            // many siblings and deep but narrow nesting
            let n = r.range(20, 70);
            match r.below(5) {
                0 => format!("{}a\n", "- ".repeat(n)),
                1 => (0..n).map(|i| format!("{}k{i}:\n", " ".repeat(i))).collect::<String>() + &format!("{}v\n", " ".repeat(n)),
                2 => format!("{}a{}\n", "[".repeat(n), "]".repeat(n)),
                3 => format!("{}a{}\n", "{a: ".repeat(n), "}".repeat(n)),
                _ => format!("{}a\n", "? ".repeat(n)),
            }
        }
    }
}
