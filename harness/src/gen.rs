//! Model-based document generator: a random abstract stream, rendered with random
//! presentation choices (styles, indentation, comments, folds, line breaks),
//! together with the events it must parse to. Written from the YAML 1.2.2 spec.
use crate::ev::{E, St, T};
use crate::rt::Rng;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub struct MTag {
    pub text: String,
    pub h: String,
    pub s: String,
}
#[derive(Clone, Debug)]
pub enum MK {
    /// must be presented plain ("" is the empty node)
    Plain(String),
    /// must be presented in a quoted or block style
    Str(String),
    Seq(Vec<M>),
    Map(Vec<(M, M)>),
    Alias(String),
}
#[derive(Clone, Debug)]
pub struct M {
    pub anchor: Option<String>,
    pub tag: Option<MTag>,
    pub k: MK,
}
#[derive(Clone, Debug)]
pub struct MDoc {
    pub root: M,
    pub yaml_dir: Option<String>,
    pub tag_dirs: Vec<(String, String)>,
    pub other_dir: bool,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub anchors: usize, // percent of nodes
    pub aliases: usize,
    pub tags: usize,
    pub depth: usize,
    pub width: usize,
    pub rich: usize,   // percent of rich (nasty) scalar values
    pub strs: usize,   // percent of scalars that are Str
    pub layout: usize, // percent of optional noise
    pub flow: usize,   // percent of collections in flow style
    pub max_docs: usize,
    pub dirs: usize,
    pub recursive: bool, // allow an alias inside its own anchor
    pub tabs: bool,
    pub unique_keys: bool,
    pub odd_keys: usize, // percent of keys that are not simple scalars
    pub core_tags: bool, // tags may be core schema ones
    pub big: usize,      // percent of documents with one dimension stretched
}
impl Default for Opts {
    fn default() -> Self {
        Opts { anchors: 8, aliases: 8, tags: 8, depth: 4, width: 4, rich: 35, strs: 45, layout: 30, flow: 35, max_docs: 3, dirs: 15, recursive: true, tabs: true, unique_keys: false, odd_keys: 20, core_tags: true, big: 1 }
    }
}

// ------------------------------------------------------------------ model
pub const WORDS: &[&str] = &["a", "key", "value", "foo", "bar", "x1", "some", "text", "Zed", "é", "日本", "😀", "ß", "naïve", "null_", "item-1", "a.b", "v_2", "n"];
const PLAINS: &[&str] = &[
    "a", "key", "foo bar", "1", "42", "-7", "+3", "0x1F", "0o17", "1.5", "-2.5e3", ".inf", "-.INF", ".nan", "true", "False", "NULL", "null", "~", "yes", "0b1", "1_000", "12e", "a:b", "a#b", "-a", "?a", ":a", "a-b", "a'b", "a\"b",
    "http://x.y/z?q=1#f", "a  b", "-1", "--", "-.", "a - b", "a ? b", "a & b", "a * b", "a ! b", "a | b", "a > b", "a = b", "a\\b", "::", "x::y", "a:", "<<", "=", "x,y", "x, y", "a]b", "[", "a{b", "}x", "a [b] c", "a -", "a ?", "&", "a@b", "a%b",
    "a`b", "2001-12-14", "0.1", "1e400", "99999999999999999999", "-0", "a\u{85}b", "a\u{a0}b", "日本 語", "😀 😀", "a --- b", "a ... b", "---a", "...a", "-- -", "e\u{301}", "x\u{feff}y", "a\tb", "...", "---", ".", "..", "-..", "- -", "=a", "a: b", "a #b", "\\", "a,", ",a", "?", "-", ":",
];
pub const STRS: &[&str] = &[
    "", " ", "a", "\n", "\n\n", "a\n", "a\nb", "a\n\nb", "\na", "\n\na\n\n", " a", "a ", " a ", "a\n b", " a\nb", "a \nb", "a\n\n b\nc", "\ta", "a\t", "a\tb", "'", "''", "\"", "\\", "\\n", "a'b", "it's", "say \"hi\"", "a: b", "a #b", "# a", "- a", "? a", "---", "...",
    "--- a\n... b", "a\n---\nb", "a\n...\nb", "[a, b]", "{a: b}", "*a", "&a b", "!t x", "%a", "@a", "`a`", "|", ">", "null", "1", "true", "~", "\r", "a\rb", "a\r\nb", "\0", "a\0b", "\u{7}", "\u{8}", "\u{1b}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{feff}", "a\u{feff}b", "é",
    "日本語", "😀", "a\n  b\n c\nd", "  \n a", "a\n   \nb", "a\n \nb\n", "x\n\n\ny", "one two three four", "a  b   c", "trailing\n\n\n", "\u{fffd}", "/", "\\x41", "a\\\nb", "word word\nword word\n", "\n a", "\t\n", "a\n\t\nb", "a\n\tb\nc", "#\n#", "a\n#b\nc", "a\n\n\n", "a\n- b", "a:\nb",
];
const WS: &[char] = &[' ', ' ', ' ', '\n', '\n', '\t'];
const ODD: &[char] = &['\'', '"', '\\', ':', '#', '-', '?', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '@', '`', '~', '\0', '\u{7}', '\u{1b}', '\u{85}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}', '\r', '\u{e000}', '\u{10ffff}', '/', '.', '='];

/// A character of any UTF-8 length; controls only if asked for.
pub fn any_char(r: &mut Rng, controls: bool) -> char {
    loop {
        let n = match r.below(10) {
            0..=2 => r.range(0x20, 0x7e),
            3 | 4 => r.range(0x80, 0x7ff),
            5 => r.range(0x800, 0xffff),
            6 => r.range(0x1_0000, 0x10_ffff),
            7 => *r.pick(&[0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0x2000, 0x200b, 0x2030, 0x2060, 0x3000, 0xd7ff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0x1_0000, 0x1_fffe, 0x3_ffff, 0x4_0000, 0xf_ffff, 0x10_0000, 0x10_ffff]),
            // trailing bytes that look like something else when taken alone
            8 => (r.range(2, 0x1f) << 6) | *r.pick(&[0x00, 0x05, 0x20, 0x23, 0x25, 0x28, 0x29, 0x3b, 0x3f]),
            _ => r.range(0, 0x1f),
        };
        if let Some(c) = char::from_u32(n as u32)
            && (controls || printable(c))
        {
            return c;
        }
    }
}
/// Percent-encodes a character the way a URI may spell it.
fn pct(r: &mut Rng, c: char) -> String {
    let mut b = [0; 4];
    c.encode_utf8(&mut b).bytes().map(|x| if r.chance(1, 2) { format!("%{x:02X}") } else { format!("%{x:02x}") }).collect()
}
/// (spelling, meaning) of a random tag part.
fn uri(r: &mut Rng, shorthand: bool) -> (String, String) {
    const W: &[u8] = b"abzAZ019-;/?:@&=+$_.~*'()#";
    const U: &[u8] = b"!,[]";
    let (mut t, mut s) = (String::new(), String::new());
    for _ in 0..if r.chance(1, 30) { r.range(20, 200) } else { r.range(1, 8) } {
        let c = match r.below(12) {
            0 => {
                let mut c = any_char(r, true);
                while c == '\0' {
                    c = any_char(r, true);
                }
                t.push_str(&pct(r, c));
                s.push(c);
                continue;
            }
            1 if !shorthand => *r.pick(U),
            _ => *r.pick(W),
        };
        t.push(c as char);
        s.push(c as char);
    }
    (t, s)
}
fn anchor_name(r: &mut Rng) -> String {
    if r.chance(3, 5) {
        return (*r.pick(&ANCHORS[..4])).to_string();
    }
    if r.chance(2, 3) {
        return (*r.pick(ANCHORS)).to_string();
    }
    let n = if r.chance(1, 40) { r.range(20, 300) } else { r.range(1, 6) };
    let mut s = String::new();
    while s.chars().count() < n {
        let c = any_char(r, false);
        if printable(c) && !white(c) && c != '\n' && !is_flow_ind(c) {
            s.push(c);
        }
    }
    s
}

pub fn is_flow_ind(c: char) -> bool {
    matches!(c, ',' | '[' | ']' | '{' | '}')
}
fn white(c: char) -> bool {
    c == ' ' || c == '\t'
}
fn printable(c: char) -> bool {
    matches!(c, '\t' | '\n' | ' '..='~' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}') && c != '\u{feff}'
}

/// May `v` be presented as a plain scalar in this context (spec 7.3.3)?
pub fn plain_ok(v: &str, flow: bool, key: bool) -> bool {
    let c: Vec<char> = v.chars().collect();
    if c.is_empty() || white(c[0]) || white(c[c.len() - 1]) || c[0] == '\n' || c[c.len() - 1] == '\n' {
        return false;
    }
    if key && v.contains('\n') {
        return false;
    }
    let safe = |x: Option<&char>| x.is_some_and(|&x| !white(x) && x != '\n' && !(flow && is_flow_ind(x)));
    match c[0] {
        '-' | '?' | ':' => {
            if !safe(c.get(1)) {
                return false;
            }
        }
        ',' | '[' | ']' | '{' | '}' | '#' | '&' | '*' | '!' | '|' | '>' | '\'' | '"' | '%' | '@' | '`' => return false,
        _ => {}
    }
    for (i, &x) in c.iter().enumerate() {
        if !printable(x) {
            return false;
        }
        if flow && is_flow_ind(x) {
            return false;
        }
        if x == ':' && !safe(c.get(i + 1)) {
            return false;
        }
        if x == '#' && (white(c[i - 1]) || c[i - 1] == '\n') {
            return false;
        }
        if x == '\n' && (white(c[i - 1]) || white(c[i + 1])) {
            return false;
        }
    }
    // never at the start of a line where it could be a document marker or directive
    !v.split([' ', '\n', '\t']).any(|w| w.starts_with("---") || w.starts_with("...") || w.starts_with('%'))
        || (!v.starts_with("---") && !v.starts_with("...") && !v.contains('\n') && c[0] != '%')
}

fn gen_plain(r: &mut Rng, o: &Opts, key: bool) -> String {
    for _ in 0..20 {
        let v = match r.below(if o.rich > 0 { 4 } else { 2 }) {
            0 => (*r.pick(WORDS)).to_string(),
            1 => {
                let n = r.range(1, 5);
                (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(" ")
            }
            2 if r.below(100) < o.rich => (*r.pick(PLAINS)).to_string(),
            _ => {
                // random characters with an occasional fold
                let n = r.range(1, 12);
                let mut s = String::new();
                for _ in 0..n {
                    match r.below(10) {
                        0 => s.push(' '),
                        1 if !key => s.push('\n'),
                        2 if r.below(100) < o.rich => s.push(*r.pick(ODD)),
                        3 if r.below(100) < o.rich => s.push(any_char(r, false)),
                        _ => s.push_str(r.pick(WORDS)),
                    }
                }
                s
            }
        };
        if !o.tabs && v.contains('\t') {
            continue;
        }
        if plain_ok(&v, false, key) {
            return v;
        }
    }
    "p".into()
}
fn gen_str(r: &mut Rng, o: &Opts) -> String {
    let mut s = gen_str0(r, o);
    if o.rich > 0 && !s.ends_with('\n') {
        match r.below(16) {
            0..=2 => s.push('\n'),
            3 => s.push_str("\n\n"),
            _ => {}
        }
    }
    s
}
fn gen_str0(r: &mut Rng, o: &Opts) -> String {
    for _ in 0..20 {
        let v = match r.below(4) {
            0 => (*r.pick(WORDS)).to_string(),
            1 => {
                let n = r.range(1, 9);
                (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(if r.chance(1, 3) { "\n" } else { " " })
            }
            2 if r.below(100) < o.rich => (*r.pick(STRS)).to_string(),
            _ => {
                let n = r.range(0, 14);
                let mut s = String::new();
                for _ in 0..n {
                    match r.below(10) {
                        0 | 1 | 2 => s.push(*r.pick(WS)),
                        3 if r.below(100) < o.rich => s.push(*r.pick(ODD)),
                        4 if r.below(100) < o.rich => s.push(any_char(r, true)),
                        _ => s.push_str(r.pick(WORDS)),
                    }
                }
                s
            }
        };
        if !o.tabs && v.contains('\t') {
            continue;
        }
        return v;
    }
    "s".into()
}

/// Whatever may stand after the '#' of a comment.
pub fn comment_text(r: &mut Rng) -> String {
    let n = r.range(0, 8);
    (0..n).map(|_| any_char(r, false)).filter(|c| *c != '\n').collect()
}
pub struct ModelGen<'a> {
    pub r: &'a mut Rng,
    pub o: &'a Opts,
    anchors: Vec<String>,
    names: Vec<String>,
    open: Vec<String>,
    dirs: Vec<(String, String)>,
    budget: usize,
}
const ANCHORS: &[&str] = &["a", "b", "a1", "anchor", "é", "a-b", "a.b", "x_y", "1", "a:b", "日", "a'b", "\"q\"", "a#b", "&z", "*s", "!t", "%p", "a@b", "-", "?q"];
const TAGS: &[(&str, &str, &str)] = &[
    ("!local", "!", "local"),
    ("!a-b.c", "!", "a-b.c"),
    ("!x:y/z?w=1&k;u@v", "!", "x:y/z?w=1&k;u@v"),
    ("!%21%7e", "!", "!~"),
    ("!caf%C3%A9", "!", "café"),
    ("!%E6%97%A5", "!", "日"),
    ("!<tag:e.com,2000:x>", "", "tag:e.com,2000:x"),
    ("!<!bar>", "", "!bar"),
    ("!<x%20y>", "", "x y"),
    ("!<a,[b]>", "", "a,[b]"),
    ("!", "", "!"),
    ("!(a)'b'*$", "!", "(a)'b'*$"),
];
const CORE: &[(&str, &str)] = &[("!!str", "str"), ("!!int", "int"), ("!!map", "map"), ("!!seq", "seq"), ("!!custom", "custom"), ("!!null", "null"), ("!!bool", "bool"), ("!!float", "float"), ("!!a%2Cb", "a,b")];
const HANDLES: &[&str] = &["!e!", "!e1!", "!a-b!", "!e2!"];
const PREFIXES: &[(&str, &str)] = &[("tag:e.com,2000:", "tag:e.com,2000:"), ("!my-", "!my-"), ("tag:yaml.org,2002:", "tag:yaml.org,2002:"), ("tag:x%21", "tag:x!"), ("tag:y,[1]:", "tag:y,[1]:"), ("!", "!"), ("tag:yaml.org,2022:x/", "tag:yaml.org,2022:x/"), ("tag:yaml.org,", "tag:yaml.org,"), ("tag:yaml.org,2002", "tag:yaml.org,2002"), ("t", "t"), ("!!", "!!"), ("!e!", "!e!"), ("%21", "!"), ("tag:yaml.org,2002:my/", "tag:yaml.org,2002:my/"), ("TAG:YAML.ORG,2002:", "TAG:YAML.ORG,2002:")];

impl<'a> ModelGen<'a> {
    pub fn new(r: &'a mut Rng, o: &'a Opts) -> Self {
        ModelGen { r, o, anchors: vec![], names: vec![], open: vec![], dirs: vec![], budget: 0 }
    }
    fn tag(&mut self) -> Option<MTag> {
        if self.r.below(100) >= self.o.tags {
            return None;
        }
        let r = self.r.below(10);
        if r < 3 && self.o.core_tags {
            let (t, s) = *self.r.pick(CORE);
            let h = self.dirs.iter().find(|d| d.0 == "!!").map_or("tag:yaml.org,2002:".to_string(), |d| d.1.clone());
            return Some(MTag { text: t.into(), h, s: s.into() });
        }
        if r < 6 && !self.dirs.is_empty() {
            let d = self.r.pick(&self.dirs).clone();
            if d.0 != "!!" || self.o.core_tags {
                if self.r.chance(1, 3) {
                    let (t, s) = uri(self.r, true);
                    return Some(MTag { text: format!("{}{t}", d.0), h: d.1, s });
                }
                let (w, x) = *self.r.pick(&[("x", "x"), ("a-b", "a-b"), ("p%2Fq", "p/q"), ("z:1", "z:1"), ("str", "str"), ("%C3%A9", "é")]);
                return Some(MTag { text: format!("{}{w}", d.0), h: d.1, s: x.into() });
            }
        }
        match self.r.below(6) {
            0 => {
                let (t, s) = uri(self.r, true);
                let h = self.dirs.iter().find(|d| d.0 == "!").map_or("!".to_string(), |d| d.1.clone());
                return Some(MTag { text: format!("!{t}"), h, s });
            }
            1 => {
                let (t, s) = uri(self.r, false);
                // `!<!>` is not a verbatim tag
                let (t, s) = if s == "!" { ("!x".into(), "!x".into()) } else { (t, s) };
                return Some(MTag { text: format!("!<{t}>"), h: String::new(), s });
            }
            _ => {}
        }
        let (t, h, s) = *self.r.pick(TAGS);
        let h = if h == "!" { self.dirs.iter().find(|d| d.0 == "!").map_or("!".to_string(), |d| d.1.clone()) } else { h.to_string() };
        Some(MTag { text: t.into(), h, s: s.into() })
    }
    pub fn node(&mut self, depth: usize, key: bool) -> M {
        self.budget = self.budget.saturating_sub(1);
        if !self.anchors.is_empty() && self.r.below(100) < self.o.aliases {
            let n = self.r.pick(&self.anchors).clone();
            if self.o.recursive || !self.open.contains(&n) {
                return M { anchor: None, tag: None, k: MK::Alias(n) };
            }
        }
        let tag = self.tag();
        let anchor = if self.r.below(100) < self.o.anchors {
            // names are also used again, whatever they look like
            let n = if !self.names.is_empty() && self.r.chance(1, 4) { self.r.pick(&self.names).clone() } else { anchor_name(self.r) };
            self.names.push(n.clone());
            self.anchors.push(n.clone());
            Some(n)
        } else {
            None
        };
        let coll = depth > 0 && self.budget > 0 && self.r.below(100) < if key { self.o.odd_keys } else { 60 };
        let k = if coll {
            if let Some(a) = &anchor {
                self.open.push(a.clone());
            }
            let n = self.r.below(self.o.width + 1);
            let k = if self.r.chance(1, 2) {
                MK::Seq((0..n).map(|_| self.node(depth - 1, false)).collect())
            } else {
                let mut v: Vec<(M, M)> = vec![];
                for _ in 0..n {
                    let kd = if self.r.below(100) < self.o.odd_keys { (depth - 1).min(2) } else { 0 };
                    let k = self.node(kd, true);
                    let x = self.node(depth - 1, false);
                    v.push((k, x));
                }
                MK::Map(v)
            };
            if anchor.is_some() {
                self.open.pop();
            }
            k
        } else if self.r.below(100) < self.o.strs {
            MK::Str(gen_str(self.r, self.o))
        } else if self.r.chance(1, 6) {
            MK::Plain(String::new())
        } else {
            MK::Plain(gen_plain(self.r, self.o, key))
        };
        M { anchor, tag, k }
    }
    pub fn doc(&mut self) -> MDoc {
        self.anchors.clear();
        self.open.clear();
        self.dirs.clear();
        self.budget = 40;
        let d = self.r.below(100) < self.o.dirs;
        let mut w = MDoc { root: M { anchor: None, tag: None, k: MK::Plain(String::new()) }, yaml_dir: None, tag_dirs: vec![], other_dir: false };
        if d {
            if self.r.chance(1, 2) {
                w.yaml_dir = Some((*self.r.pick(&["1.2", "1.1", "1.2"])).to_string());
            }
            let n = if self.r.below(800) < self.o.big { self.r.range(20, 300) } else { self.r.below(4) };
            for i in 0..n {
                let h = match self.r.below(8) {
                    _ if i > 6 => format!("!h{i}!"),
                    0 => "!".to_string(),
                    1 => "!!".to_string(),
                    2 => {
                        let n = self.r.range(1, 6);
                        format!("!{}!", (0..n).map(|_| *self.r.pick(b"abzAZ019-") as char).collect::<String>())
                    }
                    _ => (*self.r.pick(HANDLES)).to_string(),
                };
                if self.dirs.iter().any(|x| x.0 == h) || (h == "!!" && !self.o.core_tags) {
                    continue;
                }
                let rnd;
                let (w0, x) = if self.r.chance(1, 3) {
                    let (t, s) = uri(self.r, false);
                    // the first character may not be a flow indicator
                    let b = *self.r.pick(&["t", "!", ""]);
                    rnd = if t.starts_with([',', '[', ']']) || b != "" { (format!("{}{t}", if b == "" { "t" } else { b }), format!("{}{s}", if b == "" { "t" } else { b })) } else { (t, s) };
                    (rnd.0.as_str(), rnd.1.as_str())
                } else {
                    *self.r.pick(PREFIXES)
                };
                if !self.o.core_tags && x == "tag:yaml.org,2002:" {
                    continue;
                }
                self.dirs.push((h.clone(), x.to_string()));
                w.tag_dirs.push((h, w0.to_string()));
            }
            w.other_dir = self.r.chance(1, 8);
        }
        let depth = self.o.depth;
        w.root = self.node(depth, false);
        if self.r.below(100) < self.o.big {
            w.root = self.stretch(w.root);
        }
        w
    }
    /// Stretch one dimension far beyond what `node` reaches.
    fn stretch(&mut self, root: M) -> M {
        let m = |k: MK| M { anchor: None, tag: None, k };
        let words = |r: &mut Rng, n: usize, nl: usize| {
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push(if r.below(100) < nl { '\n' } else { ' ' });
                }
                s.push_str(r.pick(WORDS));
            }
            s
        };
        match self.r.below(10) {
            0 => {
                let hi = if self.r.chance(1, 12) { 6000 } else { 500 };
                let n = self.r.range(40, hi);
                let s = words(self.r, n, 8);
                m(MK::Seq(vec![m(MK::Str(s)), root]))
            }
            1 => {
                let n = self.r.range(40, 300);
                let s = words(self.r, n, 6);
                m(MK::Map(vec![(m(MK::Plain("long".into())), m(MK::Plain(s))), (m(MK::Plain("rest".into())), root)]))
            }
            2 => {
                let n = self.r.range(60, 300);
                self.budget = n;
                let mut v: Vec<M> = (0..n).map(|_| self.node(0, false)).collect();
                // what refers to the anchors of the root must follow it
                v.retain(|x| !matches!(x.k, MK::Alias(_)) && x.anchor.is_none());
                v.push(root);
                m(MK::Seq(v))
            }
            3 => {
                let n = self.r.range(60, 200);
                let mut v: Vec<(M, M)> = (0..n).map(|i| (m(MK::Plain(format!("k{i}"))), m(MK::Plain(format!("{i}"))))).collect();
                v.push((m(MK::Plain("rest".into())), root));
                m(MK::Map(v))
            }
            4 => {
                // also deeper than fits in eight bits
                let n = if self.r.chance(1, 6) { self.r.range(120, 300) } else { self.r.range(15, 60) };
                let mut x = root;
                for _ in 0..n {
                    x = match self.r.below(3) {
                        0 => m(MK::Map(vec![(m(MK::Plain((*self.r.pick(WORDS)).into())), x)])),
                        1 => m(MK::Seq(vec![x])),
                        _ => m(MK::Seq(vec![m(MK::Plain("i".into())), x, m(MK::Plain("j".into()))])),
                    };
                }
                x
            }
            5 => {
                let n = self.r.range(20, 110);
                let s = words(self.r, n, 0);
                let k = if self.r.chance(1, 2) { MK::Str(s) } else { MK::Plain(s) };
                m(MK::Map(vec![(m(k), root)]))
            }
            6 => {
                let n = self.r.range(10, 300);
                let mut v: Vec<M> = (0..n).map(|i| M { anchor: Some(format!("n{i}")), tag: None, k: MK::Plain(format!("{i}")) }).collect();
                for _ in 0..8 {
                    let i = self.r.below(n);
                    v.push(m(MK::Alias(format!("n{i}"))));
                }
                v.push(root);
                m(MK::Seq(v))
            }
            7 => {
                // many lines of one block or quoted scalar
                let n = self.r.range(30, 200);
                let s = words(self.r, n, 60);
                m(MK::Seq(vec![root, m(MK::Str(s + "\n"))]))
            }
            8 => {
                // a long run of one character
                let n = self.r.range(10, 400);
                let c = *self.r.pick(&["\n", "\n", " ", "'", "\"", "\\", "#", ":", "-", "\n ", " \n", "''", "\u{85}", "%"]);
                let (a, b) = (*self.r.pick(WORDS), *self.r.pick(WORDS));
                let e = *self.r.pick(&["", "", "\n"]);
                m(MK::Seq(vec![root, m(MK::Str(format!("{a}{}{b}{e}", c.repeat(n)))), m(MK::Str(format!("{}{b}{e}", c.repeat(n / 2)))), m(MK::Str(format!("{a}{}", c.repeat(n / 3))))]))
            }
            _ => {
                // one long word
                let hi = if self.r.chance(1, 12) { 70_000 } else { 2000 };
                let n = self.r.range(100, hi);
                let c = *self.r.pick(&["a", "x1", "é", "日", "😀"]);
                m(MK::Seq(vec![root, m(MK::Str(c.repeat(n))), m(MK::Plain(c.repeat(n / 2 + 1)))]))
            }
        }
    }
}

// ------------------------------------------------------------------ renderer
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Top,
    DocMark,
    Dash,
    Quest,
    XColon, // explicit value
    Colon,  // implicit value
}

pub struct Rend<'a> {
    pub o: String,
    pub evs: Vec<E>,
    pub feats: BTreeMap<&'static str, u64>,
    r: &'a mut Rng,
    op: &'a Opts,
    ids: HashMap<String, usize>,
    next: usize,
    /// the last thing written was a block scalar whose content is indented this much
    after_block: bool,
    last_block_ws: bool,
}

fn tagt(m: &M) -> T {
    m.tag.as_ref().map(|t| (t.h.clone(), t.s.clone()))
}

/// Can this node be presented in flow context?
pub fn flowable(m: &M) -> bool {
    match &m.k {
        MK::Plain(v) => v.is_empty() || plain_ok(v, true, false),
        MK::Str(_) | MK::Alias(_) => true,
        MK::Seq(v) => v.iter().all(|x| flowable(x) && !bare_empty(x)),
        MK::Map(v) => v.iter().all(|(k, x)| flowable(k) && flowable(x)),
    }
}
fn bare_empty(m: &M) -> bool {
    matches!(&m.k, MK::Plain(v) if v.is_empty()) && m.anchor.is_none() && m.tag.is_none()
}
/// Can it be an implicit key (one line, flow content)?
fn simple_key(m: &M) -> bool {
    if breadth(m) > 1000 {
        return false;
    }
    match &m.k {
        MK::Plain(v) => v.is_empty() || plain_ok(v, false, true),
        MK::Str(_) | MK::Alias(_) => true,
        MK::Seq(_) | MK::Map(_) => flowable(m) && !has_nl_plain(m),
    }
}
/// At most this many characters when written on one line.
fn breadth(m: &M) -> usize {
    let props = m.anchor.as_ref().map_or(0, |a| a.chars().count() + 4) + m.tag.as_ref().map_or(0, |t| t.text.chars().count() + 4);
    props
        + match &m.k {
            MK::Plain(v) => v.chars().count(),
            MK::Alias(v) => v.chars().count() + 4,
            MK::Str(v) => 10 * v.chars().count() + 2,
            MK::Seq(v) => 8 + v.iter().map(|x| breadth(x) + 8).sum::<usize>(),
            MK::Map(v) => 8 + v.iter().map(|(k, x)| breadth(k) + breadth(x) + 14).sum::<usize>(),
        }
}
fn has_nl_plain(m: &M) -> bool {
    match &m.k {
        MK::Plain(v) => v.contains('\n'),
        MK::Str(_) | MK::Alias(_) => false,
        MK::Seq(v) => v.iter().any(has_nl_plain),
        MK::Map(v) => v.iter().any(|(k, x)| has_nl_plain(k) || has_nl_plain(x)),
    }
}

impl<'a> Rend<'a> {
    pub fn new(r: &'a mut Rng, op: &'a Opts) -> Self {
        Rend { o: String::new(), evs: vec![], feats: BTreeMap::new(), r, op, ids: HashMap::new(), next: 1, after_block: false, last_block_ws: false }
    }
    fn f(&mut self, k: &'static str) {
        *self.feats.entry(k).or_insert(0) += 1;
    }
    fn opt(&mut self) -> bool {
        self.r.below(100) < self.op.layout
    }
    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.o.push(' ');
        }
    }
    /// `n` white characters as separation, rarely with a tab among them.
    fn ws(&mut self, n: usize) {
        let mut n = n;
        if n > 0 && self.op.big > 0 && self.r.chance(1, 3000) {
            self.f("wide white space");
            n += if self.r.chance(1, 4) { self.r.range(200, 300) } else { self.r.range(10, 80) };
        }
        for _ in 0..n {
            let tab = self.op.tabs && self.r.chance(1, 30);
            if tab {
                self.f("tab-separation");
            }
            self.o.push(if tab { '\t' } else { ' ' });
        }
    }
    /// `k` white characters at the start of a line, the first ones indentation below level `n`.
    fn line_prefix(&mut self, n: i32, k: usize) {
        let base = ((n + 1).max(0) as usize).min(k);
        self.sp(base);
        self.ws(k - base);
    }
    fn col(&self) -> usize {
        self.o.chars().rev().take_while(|c| *c != '\n' && *c != '\u{feff}').count()
    }
    fn comment(&mut self) {
        let c = *self.r.pick(&["#", "# comment", "#c", "# a: b", "# - x", "# \"q", "# é [", "#!", "# --- x", "##", "# &a *b", "# 'q"]);
        self.f("comment");
        self.o.push_str(c);
        if self.r.chance(1, 4) {
            let hi = if self.r.chance(1, 10) { 3000 } else { 300 };
            let n = if self.r.chance(1, 40) { self.r.range(50, hi) } else { self.r.range(1, 6) };
            for _ in 0..n {
                let c = any_char(self.r, false);
                if c != '\n' && printable(c) {
                    self.o.push(c);
                }
            }
        }
    }
    /// blank and comment lines; cursor at a line start before and after
    fn noise(&mut self, n: i32) {
        if !self.opt() {
            return;
        }
        if self.after_block {
            if n >= 0 {
                let k = self.r.below(n as usize + 1);
                self.sp(k);
                self.comment();
                self.o.push('\n');
                self.f("comment-after-block-scalar");
                self.after_block = false;
            } else {
                return;
            }
        }
        let n = if self.op.big > 0 && self.r.chance(1, 2000) { self.r.range(10, 300) } else { self.r.range(1, 2) };
        for _ in 0..n {
            match self.r.below(4) {
                0 => self.o.push('\n'),
                1 => {
                    let k = self.r.below(5);
                    self.ws(k);
                    self.o.push('\n');
                    self.f("blank-line");
                }
                _ => {
                    let k = if self.r.chance(1, 2) { 0 } else { self.r.below(7) };
                    self.ws(k);
                    self.comment();
                    self.o.push('\n');
                }
            }
        }
    }
    fn eol(&mut self) {
        if self.opt() {
            let k = self.r.range(1, 2);
            self.ws(k);
            if self.r.chance(1, 2) {
                self.comment();
            }
        }
        self.o.push('\n');
        self.after_block = false;
    }
    fn reg(&mut self, m: &M) -> usize {
        match &m.anchor {
            None => 0,
            Some(n) => {
                let id = self.next;
                self.next += 1;
                if self.ids.insert(n.clone(), id).is_some() {
                    self.f("anchor-redefined");
                }
                self.f("anchor");
                id
            }
        }
    }
    /// writes "&a !t" (no surrounding space); true if anything was written
    fn props(&mut self, m: &M) -> bool {
        let a = m.anchor.as_ref().map(|x| format!("&{x}"));
        let t = m.tag.as_ref().map(|x| x.text.clone());
        if t.is_some() {
            self.f("tag");
        }
        match (a, t) {
            (None, None) => false,
            (Some(a), None) => {
                self.o.push_str(&a);
                true
            }
            (None, Some(t)) => {
                self.o.push_str(&t);
                true
            }
            (Some(a), Some(t)) => {
                let k = if self.opt() { 2 } else { 1 };
                let (x, y) = if self.r.chance(1, 2) { (a, t) } else { (t, a) };
                self.o.push_str(&x);
                self.ws(k);
                self.o.push_str(&y);
                true
            }
        }
    }
    /// Whether a ':' may follow the properties just written at once: a verbatim tag ends with its '>'.
    fn colon_may_follow(&mut self) -> bool {
        let last = self.o.rsplit([' ', '\n', '\r', ',', '[', '{']).next().unwrap_or("");
        let yes = last.starts_with("!<") && last.ends_with('>') && self.opt();
        if yes {
            self.f("adjacent-colon");
        }
        yes
    }
    fn scalar_ev(&mut self, m: &M, v: &str, st: St) {
        let a = self.reg(m);
        self.evs.push(E::Scalar { v: v.to_string(), st, a, tag: tagt(m) });
    }

    /// separation before inline content at indentation > n; returns nothing, cursor ready
    fn sep(&mut self, n: i32, at: At) {
        if at == At::Top {
            if self.r.below(100) < self.op.layout / 3 {
                let k = self.r.below(4);
                self.ws(k);
            }
            return;
        }
        if self.r.below(100) < self.op.layout / 2 {
            self.nl_indent(n);
            self.f("value-on-next-line");
            return;
        }
        let k = if self.opt() { self.r.range(1, 3) } else { 1 };
        self.ws(k);
    }
    fn nl_indent(&mut self, n: i32) {
        self.eol();
        self.noise(n);
        let base = (n + 1).max(0) as usize;
        let k = base + if self.r.chance(1, 2) { self.r.below(4) } else { 0 };
        // never at column 0 for top-level content that might look like a marker
        self.line_prefix(n, k);
    }

    fn block_value(&mut self, m: &M, n: i32, at: At) {
        self.after_block = false;
        match &m.k {
            MK::Alias(name) => {
                self.sep(n, at);
                self.alias(name);
                self.eol();
            }
            MK::Seq(_) | MK::Map(_) => {
                let len = match &m.k {
                    MK::Seq(v) => v.len(),
                    MK::Map(v) => v.len(),
                    _ => 0,
                };
                if len == 0 || (flowable(m) && self.r.below(100) < self.op.flow) {
                    self.sep(n, at);
                    self.flow(m, n, false);
                    self.eol();
                } else {
                    self.block_coll(m, n, at);
                }
            }
            MK::Plain(v) if v.is_empty() => {
                if m.anchor.is_some() || m.tag.is_some() {
                    self.sep(n, at);
                    self.props(m);
                }
                self.f("empty-node");
                self.scalar_ev(m, "", St::Plain);
                self.eol();
            }
            MK::Plain(v) => {
                self.sep(n, at);
                self.props_sep(m, n, false);
                self.scalar_ev(m, v, St::Plain);
                self.plain(v, n, true);
                self.eol();
            }
            MK::Str(v) => {
                let st = self.pick_style(v, n);
                match st {
                    St::Literal | St::Folded => {
                        // header must be on the indicator's line or after a line break
                        self.sep(n, at);
                        self.props_sep(m, n, false);
                        self.scalar_ev(m, v, st);
                        self.block_scalar(v, n, st);
                    }
                    _ => {
                        self.sep(n, at);
                        self.props_sep(m, n, false);
                        self.scalar_ev(m, v, st);
                        self.quoted(v, n, st, true);
                        self.eol();
                    }
                }
            }
        }
    }
    /// properties followed by separation
    fn props_sep(&mut self, m: &M, n: i32, single: bool) {
        if self.props(m) {
            if !single && self.r.below(100) < self.op.layout / 3 {
                self.nl_indent(n);
                self.f("content-on-line-after-properties");
            } else {
                let k = if self.opt() { 2 } else { 1 };
                self.ws(k);
            }
        }
    }
    fn alias(&mut self, name: &str) {
        let id = *self.ids.get(name).expect("alias to a defined anchor");
        self.f("alias");
        self.o.push('*');
        self.o.push_str(name);
        self.evs.push(E::Alias(id));
    }

    fn block_coll(&mut self, m: &M, n: i32, at: At) {
        let is_seq = matches!(m.k, MK::Seq(_));
        let a = self.reg(m);
        self.evs.push(if is_seq { E::SeqStart(a, tagt(m)) } else { E::MapStart(a, tagt(m)) });
        self.f(if is_seq { "block-seq" } else { "block-map" });
        let has_props = m.anchor.is_some() || m.tag.is_some();
        let compact_ok = matches!(at, At::Dash | At::Quest | At::XColon) && !has_props;
        let indent: usize;
        if at == At::Top && !has_props {
            let k = if self.r.below(100) < self.op.layout / 2 { self.r.below(4) } else { 0 };
            self.sp(k);
            indent = k;
        } else if compact_ok && self.r.chance(1, 2) {
            let k = if self.opt() { self.r.range(1, 4) } else { 1 };
            self.sp(k);
            indent = self.col();
            self.f("compact-nested");
        } else {
            if has_props {
                if at != At::Top {
                    let k = if self.opt() { 2 } else { 1 };
                    if self.r.chance(1, 8) {
                        self.nl_indent(n);
                    } else {
                        self.sp(k);
                    }
                }
                self.props(m);
            }
            self.eol();
            self.noise(n);
            let min = if is_seq && matches!(at, At::Colon | At::Quest | At::XColon) && self.r.chance(1, 2) {
                self.f("seq-at-parent-indent");
                n.max(0)
            } else {
                (n + 1).max(0)
            };
            let extra = if min == n { 0 } else { self.r.below(4) };
            indent = min as usize + extra;
            self.sp(indent);
        }
        match &m.k {
            MK::Seq(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.noise(indent as i32);
                        self.sp(indent);
                    }
                    self.o.push('-');
                    self.block_value(x, indent as i32, At::Dash);
                }
                self.evs.push(E::SeqEnd);
            }
            MK::Map(v) => {
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.noise(indent as i32);
                        self.sp(indent);
                    }
                    if simple_key(k) && !self.r.chance(1, 6) {
                        self.key(k, indent as i32);
                        self.block_value(x, indent as i32, At::Colon);
                    } else {
                        self.f("explicit-key");
                        self.o.push('?');
                        self.block_value(k, indent as i32, At::Quest);
                        if bare_empty(x) && !v.get(i + 1).is_some_and(|y| bare_empty(&y.0)) && self.r.chance(1, 2) {
                            self.scalar_ev(x, "", St::Plain);
                            self.f("explicit-key-without-value");
                        } else {
                            self.noise(indent as i32);
                            self.sp(indent);
                            self.o.push(':');
                            self.block_value(x, indent as i32, At::XColon);
                        }
                    }
                }
                self.evs.push(E::MapEnd);
            }
            _ => unreachable!(),
        }
    }

    /// An implicit key and its colon.
    fn key(&mut self, m: &M, n: i32) {
        match &m.k {
            MK::Alias(name) => {
                self.f("alias-key");
                self.alias(name);
                self.ws(1);
            }
            MK::Plain(v) if v.is_empty() => {
                self.f("empty-key");
                if self.props(m) && !self.colon_may_follow() {
                    self.ws(1);
                }
                self.scalar_ev(m, "", St::Plain);
            }
            MK::Plain(v) => {
                self.props_sep(m, n, true);
                self.scalar_ev(m, v, St::Plain);
                self.plain(v, n, false);
                if self.opt() {
                    self.ws(1);
                }
            }
            MK::Str(v) => {
                self.props_sep(m, n, true);
                let st = self.pick_flow_style(v);
                self.scalar_ev(m, v, st);
                self.quoted(v, n, st, false);
                if self.opt() {
                    self.ws(1);
                }
            }
            MK::Seq(_) | MK::Map(_) => {
                self.f("flow-collection-key");
                self.flow(m, n, true);
                if self.opt() {
                    self.ws(1);
                }
            }
        }
        self.o.push(':');
    }

    // -------------------------------------------------------------- flow
    fn fsep(&mut self, n: i32, single: bool) {
        if single {
            if self.r.chance(1, 2) {
                let k = if self.opt() { self.r.range(1, 2) } else { 1 };
                self.ws(k);
            }
            return;
        }
        if self.r.below(100) < self.op.layout / 3 {
            self.nl_indent(n);
            self.f("flow-line-break");
        } else if self.r.chance(1, 2) {
            let k = if self.opt() { self.r.range(1, 2) } else { 1 };
            self.ws(k);
        }
    }
    /// like fsep but at least one white character or line break
    fn fsep1(&mut self, n: i32, single: bool) {
        let l = self.o.len();
        self.fsep(n, single);
        if self.o.len() == l {
            self.ws(1);
        }
    }
    fn flow(&mut self, m: &M, n: i32, single: bool) {
        match &m.k {
            MK::Alias(name) => self.alias(name),
            MK::Plain(v) if v.is_empty() => {
                self.props(m);
                self.scalar_ev(m, "", St::Plain);
                self.f("flow-empty-node");
            }
            MK::Plain(v) => {
                self.flow_props(m, n, single);
                self.scalar_ev(m, v, St::Plain);
                self.plain(v, n, !single);
            }
            MK::Str(v) => {
                self.flow_props(m, n, single);
                let st = self.pick_flow_style(v);
                self.scalar_ev(m, v, st);
                self.quoted(v, n, st, !single);
            }
            MK::Seq(v) => {
                self.flow_props(m, n, single);
                let a = self.reg(m);
                self.evs.push(E::SeqStart(a, tagt(m)));
                self.f("flow-seq");
                self.o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.o.push(',');
                    }
                    self.fsep(n, single);
                    match &x.k {
                        MK::Map(p) if p.len() == 1 && x.anchor.is_none() && x.tag.is_none() && self.r.chance(2, 3) => {
                            self.evs.push(E::MapStart(0, None));
                            self.f("single-pair");
                            self.pair(&p[0].0, &p[0].1, n, single, true);
                            self.evs.push(E::MapEnd);
                        }
                        _ => self.flow(x, n, single),
                    }
                    self.fsep(n, single);
                }
                if !v.is_empty() && self.opt() {
                    self.o.push(',');
                    self.f("trailing-comma");
                    self.fsep(n, single);
                } else if v.is_empty() {
                    self.fsep(n, single);
                }
                self.o.push(']');
                self.evs.push(E::SeqEnd);
            }
            MK::Map(v) => {
                self.flow_props(m, n, single);
                let a = self.reg(m);
                self.evs.push(E::MapStart(a, tagt(m)));
                self.f("flow-map");
                self.o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.o.push(',');
                    }
                    self.fsep(n, single);
                    self.pair(k, x, n, single, false);
                    self.fsep(n, single);
                }
                if !v.is_empty() && self.opt() {
                    self.o.push(',');
                    self.f("trailing-comma");
                    self.fsep(n, single);
                } else if v.is_empty() {
                    self.fsep(n, single);
                }
                self.o.push('}');
                self.evs.push(E::MapEnd);
            }
        }
    }
    fn flow_props(&mut self, m: &M, n: i32, single: bool) {
        if self.props(m) {
            self.fsep1(n, single);
        }
    }
    /// key: value inside a flow collection. `lone` when it is a single pair in a sequence.
    fn pair(&mut self, k: &M, x: &M, n: i32, single: bool, lone: bool) {
        let explicit = self.r.chance(1, 6) || breadth(k) > 1000;
        let mut adjacent = false;
        let key_single = single || lone && !explicit || self.r.chance(4, 5);
        if explicit {
            self.f("flow-explicit-key");
            self.o.push('?');
            if bare_empty(k) && bare_empty(x) && self.r.chance(1, 2) {
                self.scalar_ev(k, "", St::Plain);
                self.scalar_ev(x, "", St::Plain);
                self.fsep1(n, single);
                return;
            }
            self.fsep1(n, single);
        }
        match &k.k {
            MK::Plain(v) if v.is_empty() => {
                if self.props(k) && !self.colon_may_follow() {
                    self.ws(1);
                }
                self.scalar_ev(k, "", St::Plain);
                self.f("flow-empty-key");
            }
            MK::Plain(v) if v.contains('\n') && key_single && !explicit => {
                // a single line is required: present it as one pair with an explicit key instead
                self.o.push('?');
                self.fsep1(n, single);
                self.flow(k, n, single);
                self.fsep1(n, single);
            }
            MK::Plain(_) => {
                self.flow(k, n, key_single);
                if !lone && !explicit && bare_empty(x) && self.r.chance(1, 3) {
                    self.scalar_ev(x, "", St::Plain);
                    self.f("flow-key-without-value");
                    return;
                }
            }
            MK::Alias(_) => {
                self.flow(k, n, key_single);
                if !lone && !explicit && bare_empty(x) && self.r.chance(1, 3) {
                    self.scalar_ev(x, "", St::Plain);
                    return;
                }
                self.ws(1);
            }
            _ => {
                if has_nl_plain(k) && key_single && !explicit {
                    self.o.push('?');
                    self.fsep1(n, single);
                    self.flow(k, n, single);
                } else {
                    self.flow(k, n, key_single);
                }
                adjacent = true;
                if !lone && !explicit && bare_empty(x) && self.r.chance(1, 3) {
                    self.scalar_ev(x, "", St::Plain);
                    self.f("flow-key-without-value");
                    return;
                }
            }
        }
        if explicit && bare_empty(x) && self.r.chance(1, 3) {
            self.scalar_ev(x, "", St::Plain);
            return;
        }
        if self.opt() {
            self.ws(1);
        }
        self.o.push(':');
        if bare_empty(x) {
            self.scalar_ev(x, "", St::Plain);
            self.ws(1);
            return;
        }
        if adjacent && self.r.chance(1, 3) {
            self.f("adjacent-value");
            self.flow(x, n, single);
        } else {
            self.fsep1(n, single);
            self.flow(x, n, single);
        }
    }

    // -------------------------------------------------------------- scalars
    fn brk(&mut self, n: i32) {
        // line break inside a flow scalar, up to the next line's content
        if self.r.chance(1, 6) {
            let k = self.r.range(1, 2);
            self.ws(k);
        }
        self.o.push('\n');
        let _ = n;
    }
    fn blank_line(&mut self, max: usize) {
        if self.r.chance(1, 3) {
            let k = self.r.below(max + 1);
            self.sp(k);
        }
        self.o.push('\n');
    }
    /// A blank line in a flow scalar whose other lines are indented by `max`.
    fn blank_flow(&mut self, n: i32, max: usize) {
        if self.r.chance(1, 3) {
            let k = self.r.below(max + 1);
            self.line_prefix(n, k);
        }
        self.o.push('\n');
    }
    fn cont_indent(&mut self, n: i32) -> usize {
        let base = (n + 1).max(0) as usize;
        base + if self.r.chance(1, 2) { self.r.below(4) } else { 0 }
    }
    fn plain(&mut self, v: &str, n: i32, multi: bool) {
        self.f("plain");
        let c: Vec<char> = v.chars().collect();
        let marker = v.contains("---") || v.contains("...") || v.contains('%');
        let mut i = 0;
        let mut folded = false;
        while i < c.len() {
            if c[i] == '\n' {
                let mut j = 0;
                while c[i] == '\n' {
                    j += 1;
                    i += 1;
                }
                self.brk(n);
                let k = self.cont_indent(n);
                for _ in 0..j {
                    self.blank_flow(n, k);
                }
                self.line_prefix(n, k);
                folded = true;
                continue;
            }
            if multi && c[i] == ' ' && i > 0 && i + 1 < c.len() && !white(c[i - 1]) && !white(c[i + 1]) && c[i + 1] != '\n' && !marker && self.r.below(100) < self.op.layout / 2 {
                self.brk(n);
                let k = self.cont_indent(n);
                self.line_prefix(n, k);
                folded = true;
                i += 1;
                continue;
            }
            self.o.push(c[i]);
            i += 1;
        }
        if folded {
            self.f("plain-multiline");
        }
    }

    fn can_single(v: &str, multi: bool) -> bool {
        let c: Vec<char> = v.chars().collect();
        if !c.iter().all(|x| printable(*x)) {
            return false;
        }
        if !multi && v.contains('\n') {
            return false;
        }
        for i in 0..c.len() {
            if c[i] == '\n' && (i > 0 && white(c[i - 1]) || i + 1 < c.len() && white(c[i + 1])) {
                return false;
            }
        }
        true
    }
    fn can_literal(v: &str) -> bool {
        v.chars().all(printable) && !v.contains('\u{85}') && !v.contains('\u{2028}') && !v.contains('\u{2029}')
    }
    fn can_folded(v: &str) -> bool {
        Self::can_literal(v)
    }
    fn pick_flow_style(&mut self, v: &str) -> St {
        // multi-line presentation is decided later; single quotes need no line breaks then
        if Self::can_single(v, false) && self.r.chance(1, 2) { St::Single } else { St::Double }
    }
    fn pick_style(&mut self, v: &str, n: i32) -> St {
        let mut o = vec![St::Double];
        if Self::can_single(v, true) {
            o.push(St::Single);
        }
        if Self::can_literal(v) && self.block_ok(v, n) {
            o.push(St::Literal);
            if Self::can_folded(v) {
                o.push(St::Folded);
            }
        }
        *self.r.pick(&o)
    }
    fn quoted(&mut self, v: &str, n: i32, st: St, multi: bool) {
        if st == St::Single { self.single(v, n, multi) } else { self.double(v, n, multi) }
    }
    fn single(&mut self, v: &str, n: i32, multi: bool) {
        self.f("single");
        self.o.push('\'');
        let c: Vec<char> = v.chars().collect();
        let marker = v.contains("---") || v.contains("...");
        let mut i = 0;
        let mut folded = false;
        while i < c.len() {
            if c[i] == '\n' {
                let mut j = 0;
                while i < c.len() && c[i] == '\n' {
                    j += 1;
                    i += 1;
                }
                self.brk(n);
                let k = self.cont_indent(n).max(usize::from(marker));
                for _ in 0..j {
                    self.blank_flow(n, k);
                }
                self.line_prefix(n, k);
                folded = true;
                continue;
            }
            if multi && c[i] == ' ' && i > 0 && i + 1 < c.len() && !white(c[i - 1]) && !white(c[i + 1]) && c[i - 1] != '\n' && c[i + 1] != '\n' && self.r.below(100) < self.op.layout / 2 {
                self.brk(n);
                let k = self.cont_indent(n).max(usize::from(marker));
                self.line_prefix(n, k);
                folded = true;
                i += 1;
                continue;
            }
            if c[i] == '\'' {
                self.o.push('\'');
            }
            self.o.push(c[i]);
            i += 1;
        }
        if folded {
            self.f("single-multiline");
        }
        self.o.push('\'');
    }
    fn esc(&mut self, c: char) {
        self.f("escape");
        let named: Option<&str> = match c {
            '\0' => Some("\\0"),
            '\u{7}' => Some("\\a"),
            '\u{8}' => Some("\\b"),
            '\t' => Some("\\t"),
            '\n' => Some("\\n"),
            '\u{b}' => Some("\\v"),
            '\u{c}' => Some("\\f"),
            '\r' => Some("\\r"),
            '\u{1b}' => Some("\\e"),
            ' ' => Some("\\ "),
            '"' => Some("\\\""),
            '/' => Some("\\/"),
            '\\' => Some("\\\\"),
            '\u{85}' => Some("\\N"),
            '\u{a0}' => Some("\\_"),
            '\u{2028}' => Some("\\L"),
            '\u{2029}' => Some("\\P"),
            _ => None,
        };
        let u = c as u32;
        let lower = self.r.chance(1, 2);
        let hex = |w: usize| if lower { format!("{u:0w$x}") } else { format!("{u:0w$X}") };
        match (named, self.r.below(4)) {
            (Some(s), 0 | 1) => self.o.push_str(s),
            (_, x) if u <= 0xff && x < 3 => {
                let h = hex(2);
                self.o.push_str("\\x");
                self.o.push_str(&h);
            }
            (_, x) if u <= 0xffff && x < 3 => {
                let h = hex(4);
                self.o.push_str("\\u");
                self.o.push_str(&h);
            }
            _ => {
                let h = hex(8);
                self.o.push_str("\\U");
                self.o.push_str(&h);
            }
        }
    }
    fn double(&mut self, v: &str, n: i32, multi: bool) {
        self.f("double");
        self.o.push('"');
        let c: Vec<char> = v.chars().collect();
        let mut i = 0;
        let mut folded = false;
        while i < c.len() {
            let x = c[i];
            let prev_ws = i > 0 && white(c[i - 1]);
            let next_ws = i + 1 < c.len() && white(c[i + 1]);
            if x == '\n' && multi && self.r.below(800) < self.op.layout {
                // as blank lines after an escaped line break
                let e = i + c[i..].iter().take_while(|x| **x == '\n').count();
                self.o.push('\\');
                self.o.push('\n');
                let k = self.cont_indent(n).max(1);
                for _ in i..e {
                    self.blank_flow(n, k);
                }
                self.line_prefix(n, k);
                i = e;
                if i < c.len() && white(c[i]) {
                    self.esc(c[i]);
                    i += 1;
                }
                self.f("escaped-line-break-blank-lines");
                continue;
            }
            if x == '\n' && multi && self.r.chance(1, 2) && !prev_ws {
                // as a folded run
                let mut j = 0;
                let mut e = i;
                while e < c.len() && c[e] == '\n' {
                    j += 1;
                    e += 1;
                }
                if e == c.len() || !white(c[e]) {
                    i = e;
                    self.brk(n);
                    let k = self.cont_indent(n).max(1);
                    for _ in 0..j {
                        self.blank_flow(n, k);
                    }
                    self.line_prefix(n, k);
                    folded = true;
                    continue;
                }
            }
            if x == ' ' && multi && i > 0 && i + 1 < c.len() && !prev_ws && !next_ws && c[i - 1] != '\n' && c[i + 1] != '\n' && self.r.below(100) < self.op.layout / 2 {
                self.brk(n);
                let k = self.cont_indent(n).max(1);
                self.line_prefix(n, k);
                folded = true;
                i += 1;
                continue;
            }
            let broken = multi && x != '\n' && self.r.below(400) < self.op.layout;
            if broken {
                // escaped line break
                self.o.push_str("\\\n");
                let k = self.cont_indent(n).max(1);
                self.line_prefix(n, k);
                self.f("escaped-line-break");
            }
            let must = x == '"' || x == '\\' || x == '\n' || x == '\r' || !printable(x) || (broken && white(x));
            if must || self.r.below(100) < 6 {
                self.esc(x);
            } else {
                self.o.push(x);
            }
            i += 1;
        }
        if folded {
            self.f("double-multiline");
        }
        self.o.push('"');
    }

    /// Representable as a block scalar below indentation n?
    fn block_ok(&self, v: &str, n: i32) -> bool {
        let body = v.trim_end_matches('\n');
        let lines: Vec<&str> = body.split('\n').collect();
        // needs an explicit indentation indicator?
        let first = lines.iter().find(|l| !l.is_empty());
        let need = first.is_some_and(|l| l.starts_with(' '));
        !(need && n < 0)
    }
    fn block_scalar(&mut self, v: &str, n: i32, st: St) {
        let lit = st == St::Literal;
        self.f(if lit { "literal" } else { "folded" });
        let body = v.trim_end_matches('\n');
        let t = v.len() - body.len();
        let lines: Vec<&str> = if body.is_empty() { vec![] } else { body.split('\n').collect() };
        let first = lines.iter().find(|l| !l.is_empty());
        let need = first.is_some_and(|l| l.starts_with(' '));
        let risky = lines.iter().any(|l| l.starts_with("---") || l.starts_with("...") || l.starts_with('%') || l.starts_with('#') || l.starts_with('\t'));
        let base = (n + 1).max(0) as usize;
        let mut k = base + self.r.below(4);
        if k == 0 && (risky || self.r.chance(3, 4)) {
            k = 1;
        }
        let explicit = need || (n >= 0 && !body.is_empty() && self.r.chance(1, 6));
        if explicit {
            k = k.max(n as usize + 1).min(n as usize + 9);
        }
        let chomp = if body.is_empty() {
            if t == 0 { if self.r.chance(1, 2) { "-" } else { "" } } else { "+" }
        } else {
            match t {
                0 => "-",
                1 => *self.r.pick(&["", "", "+"]),
                _ => "+",
            }
        };
        self.f(match chomp {
            "-" => "chomp-strip",
            "+" => "chomp-keep",
            _ => "chomp-clip",
        });
        self.o.push(if lit { '|' } else { '>' });
        let ind = if explicit { (k as i32 - n).to_string() } else { String::new() };
        if explicit {
            self.f("indent-indicator");
        }
        if self.r.chance(1, 2) {
            self.o.push_str(&ind);
            self.o.push_str(chomp);
        } else {
            self.o.push_str(chomp);
            self.o.push_str(&ind);
        }
        if self.opt() {
            self.ws(1);
            if self.r.chance(1, 2) {
                self.comment();
            }
        }
        self.o.push('\n');
        if lit {
            for l in &lines {
                self.block_line(l, k);
            }
        } else {
            self.folded_lines(&lines, k);
        }
        let extra = if chomp == "+" { if body.is_empty() { t } else { t - 1 } } else if self.opt() && chomp != "+" { self.r.below(3) } else { 0 };
        for _ in 0..extra {
            self.blank_line(k);
        }
        self.after_block = true;
        self.last_block_ws = true;
    }
    fn block_line(&mut self, l: &str, k: usize) {
        if l.is_empty() {
            self.blank_line(k);
        } else {
            self.sp(k);
            self.o.push_str(l);
            self.o.push('\n');
        }
    }
    fn folded_lines(&mut self, lines: &[&str], k: usize) {
        let spaced = |l: &str| l.starts_with([' ', '\t']);
        let mut prev: Option<&str> = None;
        let mut empties = 0;
        for l in lines {
            if l.is_empty() {
                empties += 1;
                continue;
            }
            match prev {
                None => {
                    for _ in 0..empties {
                        self.blank_line(k);
                    }
                }
                Some(p) => {
                    // the break that ended the previous line has been written
                    let blanks = if spaced(p) || spaced(l) { empties } else { empties + 1 };
                    for _ in 0..blanks {
                        self.blank_line(k);
                    }
                }
            }
            empties = 0;
            self.sp(k);
            if spaced(l) {
                self.f("folded-more-indented");
                self.o.push_str(l);
            } else {
                let c: Vec<char> = l.chars().collect();
                for i in 0..c.len() {
                    let risky: bool = c[i + 1..].iter().take(3).collect::<String>() == "---" || c[i + 1..].iter().take(3).collect::<String>() == "..." || c.get(i + 1) == Some(&'%') || c.get(i + 1) == Some(&'#');
                    if c[i] == ' ' && i > 0 && i + 1 < c.len() && !white(c[i - 1]) && !white(c[i + 1]) && !(risky && k == 0) && self.r.below(100) < self.op.layout {
                        self.o.push('\n');
                        self.sp(k);
                        self.f("folded-line");
                    } else {
                        self.o.push(c[i]);
                    }
                }
            }
            self.o.push('\n');
            prev = Some(l);
        }
    }

    // -------------------------------------------------------------- stream
    pub fn stream(&mut self, docs: &[MDoc]) {
        self.evs.push(E::StreamStart);
        let mut fresh = true;
        if self.r.below(400) < self.op.layout {
            self.o.push('\u{feff}');
            self.f("bom");
        }
        for (i, d) in docs.iter().enumerate() {
            self.after_block = false;
            if fresh && i > 0 && self.r.below(400) < self.op.layout && self.o.ends_with('\n') {
                self.o.push('\u{feff}');
                self.f("bom-later");
            }
            if fresh || i == 0 {
                self.noise(-1);
            }
            let dirs = d.yaml_dir.is_some() || !d.tag_dirs.is_empty() || d.other_dir;
            if dirs && !fresh {
                self.o.push_str("...");
                self.eol();
                self.noise(-1);
                fresh = true;
            }
            if dirs {
                self.directives(d);
            }
            let explicit = dirs || !fresh || bare_empty(&d.root) || self.r.chance(1, 3);
            self.evs.push(E::DocStart(explicit));
            self.ids.clear();
            if explicit {
                self.o.push_str("---");
                self.f("explicit-document");
                self.block_value(&d.root, -1, At::DocMark);
            } else {
                self.f("bare-document");
                self.block_value(&d.root, -1, At::Top);
            }
            self.evs.push(E::DocEnd);
            fresh = false;
            if self.r.chance(1, 4) {
                if !self.after_block {
                    self.noise(-1);
                }
                self.o.push_str("...");
                self.eol();
                self.f("document-end-marker");
                fresh = true;
            }
        }
        self.evs.push(E::StreamEnd);
        if !self.after_block {
            self.noise(-1);
            if self.o.ends_with('\n') && self.r.chance(1, 4) {
                self.o.pop();
                self.f("no-final-line-break");
            }
        }
    }
    fn directives(&mut self, d: &MDoc) {
        let mut lines: Vec<String> = vec![];
        if let Some(v) = &d.yaml_dir {
            lines.push(format!("%YAML {v}"));
            self.f("yaml-directive");
        }
        for (h, p) in &d.tag_dirs {
            lines.push(format!("%TAG {h} {p}"));
            self.f("tag-directive");
        }
        if d.other_dir {
            lines.push("%FOO bar baz".into());
            self.f("reserved-directive");
        }
        // any order
        for i in (1..lines.len()).rev() {
            let j = self.r.below(i + 1);
            lines.swap(i, j);
        }
        for l in lines {
            self.o.push_str(&l);
            if self.r.below(100) < self.op.layout / 2 {
                self.o.push_str(" # c");
            }
            self.o.push('\n');
            if self.r.below(100) < self.op.layout / 3 {
                self.o.push_str("# between\n");
            }
        }
    }
}
pub struct Gen {
    pub text: String,
    pub evs: Vec<E>,
    pub docs: Vec<MDoc>,
    pub feats: BTreeMap<&'static str, u64>,
}

pub fn models(r: &mut Rng, o: &Opts) -> Vec<MDoc> {
    let n = if o.max_docs > 1 && r.below(400) < o.big { if r.chance(1, 12) { r.range(240, 300) } else { r.range(10, 40) } } else { r.range(1, o.max_docs.max(1)) };
    let mut g = ModelGen::new(r, o);
    (0..n).map(|_| g.doc()).collect()
}
pub fn render(r: &mut Rng, o: &Opts, docs: &[MDoc]) -> (String, Vec<E>, BTreeMap<&'static str, u64>) {
    let mut w = Rend::new(r, o);
    w.stream(docs);
    (w.o, w.evs, w.feats)
}
pub fn gen_stream(r: &mut Rng, o: &Opts) -> Gen {
    let docs = models(r, o);
    let (text, evs, feats) = render(r, o, &docs);
    Gen { text, evs, docs, feats }
}
