//! P11 core schema resolution, P12 loaded trees, P18 node access.
use super::util::*;
use crate::ev::{self, E, St, T};
use crate::r#gen::{self, Opts, STRS, WORDS, plain_ok};
use crate::rt::{self, Check, Ctx, Rng, Tier};
use crate::src::MiniSource;
use std::borrow::Cow;
use std::collections::HashMap;
use yam_core::node::parse_i64_from_cow;
use yam_core::parsing::{Parser, ScalarValue, Tag};
use yam_core::prelude::{
    Marker, NodeType, ScalarType, Span, SpannedYaml, Yaml, YamlAccessError, YamlData, YamlDocAccess, YamlEntry, YamlError, YamlLoader, YamlOwned, YamlScalar,
};

// ------------------------------------------------------------------ values
#[derive(Clone, Debug)]
pub enum V {
    Bad,
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Tag(String, String, Box<V>),
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Bad, V::Bad) | (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Float(a), V::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (V::Str(a), V::Str(b)) => a == b,
            (V::Seq(a), V::Seq(b)) => a == b,
            (V::Map(a), V::Map(b)) => a == b,
            (V::Tag(a, b, c), V::Tag(d, e, f)) => a == d && b == e && c == f,
            _ => false,
        }
    }
}
impl V {
    pub fn kind(&self) -> &'static str {
        match self {
            V::Bad => "bad value",
            V::Null => "null",
            V::Bool(_) => "bool",
            V::Int(_) => "int",
            V::Float(_) => "float",
            V::Str(_) => "string",
            V::Seq(_) => "sequence",
            V::Map(_) => "mapping",
            V::Tag(..) => "tagged",
        }
    }
    fn has_nan(&self) -> bool {
        match self {
            V::Float(f) => f.is_nan(),
            V::Seq(v) => v.iter().any(V::has_nan),
            V::Map(v) => v.iter().any(|x| x.0.has_nan() || x.1.has_nan()),
            V::Tag(_, _, b) => b.has_nan(),
            _ => false,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            V::Seq(v) => 1 + v.iter().map(V::size).sum::<usize>(),
            V::Map(v) => 1 + v.iter().map(|x| x.0.size() + x.1.size()).sum::<usize>(),
            V::Tag(_, _, b) => 1 + b.size(),
            _ => 1,
        }
    }
}

// ------------------------------------------------------------------ core schema (spec 10.3.2)
fn digits(b: &[u8], f: impl Fn(&u8) -> bool) -> bool {
    !b.is_empty() && b.iter().all(f)
}
fn unsign(s: &str) -> (bool, &str) {
    match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    }
}
/// The text matches the float production (which includes decimal integers).
fn float_syntax(s: &str) -> bool {
    let (_, u) = unsign(s);
    let (m, e) = match u.find(['e', 'E']) {
        Some(i) => (&u[..i], Some(&u[i + 1..])),
        None => (u, None),
    };
    if let Some(e) = e {
        if !digits(unsign(e).1.as_bytes(), u8::is_ascii_digit) {
            return false;
        }
    }
    match m.find('.') {
        None => digits(m.as_bytes(), u8::is_ascii_digit),
        Some(i) => {
            let (a, b) = (&m.as_bytes()[..i], &m.as_bytes()[i + 1..]);
            if a.is_empty() { digits(b, u8::is_ascii_digit) } else { digits(a, u8::is_ascii_digit) && b.iter().all(u8::is_ascii_digit) }
        }
    }
}
fn radix(d: &str, base: u64) -> Option<i64> {
    let mut v: i128 = 0;
    for c in d.chars() {
        v = v * i128::from(base) + i128::from(c.to_digit(base as u32)?);
        if v > i128::from(i64::MAX) {
            return None;
        }
    }
    Some(v as i64)
}
/// What a plain untagged scalar means. `Err` = an integer beyond 64 bits: the
/// decimal value as a float, or the text when it is hexadecimal or octal.
pub fn core(s: &str) -> V {
    match s {
        "" | "~" | "null" | "Null" | "NULL" => return V::Null,
        "true" | "True" | "TRUE" => return V::Bool(true),
        "false" | "False" | "FALSE" => return V::Bool(false),
        ".nan" | ".NaN" | ".NAN" => return V::Float(f64::NAN),
        _ => {}
    }
    if let Some(h) = s.strip_prefix("0x") {
        if digits(h.as_bytes(), u8::is_ascii_hexdigit) {
            return radix(h, 16).map_or(V::Str(s.into()), V::Int);
        }
    }
    if let Some(h) = s.strip_prefix("0o") {
        if digits(h.as_bytes(), |c| (b'0'..=b'7').contains(c)) {
            return radix(h, 8).map_or(V::Str(s.into()), V::Int);
        }
    }
    let (neg, u) = unsign(s);
    if matches!(u, ".inf" | ".Inf" | ".INF") {
        return V::Float(if neg { f64::NEG_INFINITY } else { f64::INFINITY });
    }
    if digits(u.as_bytes(), u8::is_ascii_digit) {
        let mut v: i128 = 0;
        let mut over = false;
        for c in u.bytes() {
            v = v * 10 + i128::from(c - b'0');
            if v > 1 << 70 {
                over = true;
                break;
            }
        }
        if neg {
            v = -v;
        }
        if !over {
            if let Ok(i) = i64::try_from(v) {
                return V::Int(i);
            }
        }
    }
    if float_syntax(s) {
        return V::Float(s.parse().expect("float syntax"));
    }
    V::Str(s.into())
}
pub const CORE: &str = "tag:yaml.org,2002:";
/// Meaning of a scalar with its style and tag, as YamlScalar reports it; None = not a scalar of that type.
pub fn resolve(v: &str, st: St, tag: &T) -> Option<V> {
    if st != St::Plain {
        return Some(V::Str(v.into()));
    }
    let c = core(v);
    match tag {
        Some((h, s)) if h == CORE => match s.as_str() {
            "str" => Some(V::Str(v.into())),
            "int" => matches!(c, V::Int(_)).then_some(c),
            "bool" => matches!(c, V::Bool(_)).then_some(c),
            "null" => matches!(c, V::Null).then_some(c),
            "float" => match c {
                V::Float(_) => Some(c),
                V::Int(_) if !v.starts_with("0x") && !v.starts_with("0o") => Some(V::Float(v.parse().unwrap())),
                _ => None,
            },
            _ => None,
        },
        _ => Some(c),
    }
}

pub fn of_scalar(y: &YamlScalar<'_>) -> V {
    match y {
        YamlScalar::Null(_) => V::Null,
        YamlScalar::String(s) => V::Str(ev::own(s)),
        YamlScalar::Bool(b) => V::Bool(*b),
        YamlScalar::FloatingPoint(f) => V::Float(*f),
        YamlScalar::Integer(i) => V::Int(*i),
    }
}
pub fn of_yaml(y: &Yaml<'_>) -> V {
    match &y.0 {
        YamlData::BadValue => V::Bad,
        YamlData::Scalar(s) => of_scalar(s),
        YamlData::Sequence(v) => V::Seq(v.iter().map(of_yaml).collect()),
        YamlData::Mapping(v) => V::Map(v.iter().map(|e| (of_yaml(&e.key), of_yaml(&e.value))).collect()),
        YamlData::Tagged(t, b) => V::Tag(t.handle.clone(), t.suffix.clone(), Box::new(of_yaml(b))),
        YamlData::Alias(_) => V::Bad,
    }
}

// ------------------------------------------------------------------ P11
pub struct Schema;
const LIT: &[&str] = &[
    "", "~", "null", "Null", "NULL", "nULL", "nul", "nulll", "true", "True", "TRUE", "tRUE", "tru", "truee", "false", "False", "FALSE", "fALSE", "yes", "no", "on", "off", "y", "n", ".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF", "-.inf", "-.Inf", "-.INF", ".iNF", "inf", "+inf",
    "-inf", "infinity", "Infinity", ".infinity", ".nan", ".NaN", ".NAN", ".Nan", "nan", "NaN", "+.nan", "-.nan", "0", "-0", "+0", "00", "007", "-007", "+7", "++7", "--7", "+-7", "1_000", "1,000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "0x", "0x0", "0xff", "0xFF", "0xFf", "0XFF", "-0xff", "+0xff", "0x-1", "0x+1", "0x 1", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0x00000000000000000001", "0o", "0o0", "0o17", "0o8", "0O7",
    "-0o7", "0o+1", "0o777777777777777777777", "0o1000000000000000000000", "0b1", "1.", ".1", ".", "+.", "-.", "1.5", "-1.5", "+1.5", "1.5e3", "1.5E3", "1.5e+3", "1.5e-3", "1e5", "1e", "e5", "1e+", ".e1", "1.e1", ".5e1", "1e400", "-1e400", "1e-400", "5e-324", "1.7976931348623157e308",
    "1.7976931348623159e308", "0.1", "1e1.5", "1.2.3", "1e2e3", "1:30", "12:30:45", "0x1.8p1", "1f", "1d", "1L", "2001-12-14", "١", "½", "1 ", " 1", "1 000", "<<", "=", "0.0", "-0.0", "4.9e-324", "123456789012345678901234567890.5", "0e0", "1e0", "00.5", "+.5", "-.5e-5", "a", "ab", "abc", "abcd",
    "abcde", "-", "+", "--", "é", "nu\u{0}l", "trues", "falses", "Nulls", "0xg", "0o9", "1.5.", "1..5", "..5", "-.in", ".infx", "in f",
];
pub fn schema_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 | 1 => (*r.pick(LIT)).to_string(),
        2 => {
            // a decimal integer of any size
            let n = r.range(1, 21);
            let mut s: String = (*r.pick(&["", "", "-", "+"])).into();
            for _ in 0..n {
                s.push(*r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9']));
            }
            s
        }
        3 => {
            let k = r.below(64);
            let v = (r.next() >> k) as i64;
            match r.below(5) {
                0 => format!("0x{v:x}"),
                1 => format!("0x{v:X}"),
                2 => format!("0o{v:o}"),
                3 => format!("{v}"),
                _ => format!("{}", v.wrapping_neg()),
            }
        }
        4 | 5 => {
            let f = f64::from_bits(r.next());
            let f = if f.is_finite() { f } else { 1.25 };
            match r.below(4) {
                0 => format!("{f:?}"),
                1 => format!("{f:e}"),
                2 => format!("{f:E}"),
                _ => format!("{:.*}", r.below(6), (r.next() as i64 as f64) / 1e12),
            }
        }
        6..=8 => {
            let n = r.range(1, 9);
            (0..n).map(|_| *r.pick(&['0', '1', '7', '8', '9', '.', 'e', 'E', '+', '-', 'x', 'o', 'a', 'f', 'F', '_', 'i', 'n'])).collect()
        }
        9 | 10 => {
            // one edit away from something special
            let mut c: Vec<char> = r.pick(LIT).chars().collect();
            match r.below(3) {
                0 if !c.is_empty() => {
                    let i = r.below(c.len());
                    c.remove(i);
                }
                1 if !c.is_empty() => {
                    let i = r.below(c.len());
                    c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
                }
                _ => {
                    let i = r.below(c.len() + 1);
                    c.insert(i, *r.pick(&['0', '1', '.', '-', '+', 'e', 'x', 'n', ' ', 'l', 'E', '_']));
                }
            }
            c.into_iter().collect()
        }
        _ => {
            if r.chance(1, 2) {
                (*r.pick(WORDS)).to_string()
            } else {
                (*r.pick(STRS)).to_string()
            }
        }
    }
}
const STYLES: [(St, ScalarType); 5] = [
    (St::Plain, ScalarType::Plain),
    (St::Single, ScalarType::SingleQuote),
    (St::Double, ScalarType::DoubleQuote),
    (St::Literal, ScalarType::Literal),
    (St::Folded, ScalarType::Folded),
];
const SCHEMA_TAGS: &[Option<(&str, &str)>] = &[
    None,
    None,
    Some((CORE, "str")),
    Some((CORE, "int")),
    Some((CORE, "float")),
    Some((CORE, "bool")),
    Some((CORE, "null")),
    Some((CORE, "map")),
    Some((CORE, "binary")),
    Some(("!", "local")),
    Some(("!", "int")),
    Some(("tag:e.com,2000:", "int")),
    Some(("", "!")),
];
impl Schema {
    fn cmp(ctx: &mut Ctx, what: &str, input: &str, got: Option<V>, want: Option<V>) {
        ctx.eval();
        let k = want.as_ref().map_or("not of the tagged type", V::kind);
        ctx.cover(&format!("resolves to: {k}"));
        if got != want {
            ctx.violation(format!("{what}: {k}"), input, format!("{what}: got {got:?}, the core schema says {want:?}"));
        }
    }
    fn one(ctx: &mut Ctx, r: &mut Rng, s: &str) {
        rt::note(s);
        ctx.nontrivial(s.as_bytes());
        let got = call(ctx, "parse_from_cow", s, || of_scalar(&YamlScalar::parse_from_cow(Cow::Borrowed(s))));
        if let Some(g) = got {
            Self::cmp(ctx, "parse_from_cow", s, Some(g), Some(core(s)));
        }
        let i = call(ctx, "parse_i64_from_cow", s, || parse_i64_from_cow(s).ok());
        let wi = match core(s) {
            V::Int(i) if !s.starts_with("0x") && !s.starts_with("0o") => Some(i),
            _ => None,
        };
        if let Some(i) = i {
            if i != wi {
                ctx.violation("parse_i64_from_cow", s, format!("got {i:?} want {wi:?}"));
            }
        }
        // null test used by Option / unit deserialization
        let isn = call(ctx, "ScalarValue::is_null", s, || {
            let mk = |t| ScalarValue { value: Cow::Borrowed(s), scalar_type: t, anchor_id: 0, tag: None };
            (mk(ScalarType::Plain).is_null(), mk(ScalarType::DoubleQuote).is_null())
        });
        if let Some((p, q)) = isn {
            if p != (core(s) == V::Null) || q {
                ctx.violation("is_null", s, format!("plain: {p}, quoted: {q}, the core schema says {:?}", core(s)));
            }
        }
        let (st, sty) = *r.pick(&STYLES);
        let st2 = if r.chance(1, 2) { (St::Plain, ScalarType::Plain) } else { (st, sty) };
        let t = *r.pick(SCHEMA_TAGS);
        let tag = t.map(|(h, x)| Tag::new(h, x));
        let tt: T = t.map(|(h, x)| (h.to_string(), x.to_string()));
        let quoted_core = st2.0 != St::Plain && t.is_some_and(|(h, s)| h == CORE && s != "str");
        if !quoted_core {
            let got = call(ctx, "parse_from_cow_and_metadata", s, || YamlScalar::parse_from_cow_and_metadata(Cow::Borrowed(s), st2.1, tag.as_ref().map(Cow::Borrowed)).map(|x: YamlScalar| of_scalar(&x)));
            if let Some(g) = got {
                ctx.cover(&format!("tag: {}", t.map_or("none".into(), |(h, x)| format!("{h}{x}"))));
                Self::cmp(ctx, "parse_from_cow_and_metadata", s, g, resolve(s, st2.0, &tt));
            }
            let got = call(ctx, "parse_from_scalar", s, || {
                YamlScalar::parse_from_scalar(ScalarValue { value: Cow::Borrowed(s), scalar_type: st2.1, anchor_id: 3, tag: tag.as_ref().map(Cow::Borrowed) }).map(|x| of_scalar(&x))
            });
            if let Some(g) = got {
                Self::cmp(ctx, "parse_from_scalar", s, g, resolve(s, st2.0, &tt));
            }
        }
        // through the loader, in a document
        let t = match r.below(6) {
            0 => Some(("!!str ", CORE, "str")),
            1 => Some(("!!int ", CORE, "int")),
            2 => Some(("!!float ", CORE, "float")),
            3 => Some((*r.pick(&["!!bool ", "!!null "]), CORE, "")),
            _ => None,
        };
        let tt: T = t.map(|(w, h, _)| (h.to_string(), w.trim_matches(['!', ' ']).to_string()));
        let tw = t.map_or("", |x| x.0);
        let plain = s.is_empty() || plain_ok(s, true, true);
        if plain && !s.contains(['\u{85}', '\u{2028}', '\u{2029}']) {
            let doc = match r.below(4) {
                0 => format!("- {tw}{s}\n"),
                1 => format!("[{tw}{s}]"),
                2 => format!("? {tw}{s}\n"),
                _ => format!("k: {tw}{s}\n"),
            };
            if !(s.is_empty() && doc.starts_with('[')) {
                rt::note(&doc);
                let want = resolve(s, St::Plain, &tt).unwrap_or(V::Bad);
                let got = call(ctx, "Yaml::load_from", &doc, || {
                    Yaml::load_from(&doc).map(|d| match of_yaml(&d[0]) {
                        V::Seq(v) => v[0].clone(),
                        V::Map(m) if doc.starts_with('?') => m[0].0.clone(),
                        V::Map(m) => m[0].1.clone(),
                        x => x,
                    })
                });
                match got {
                    Some(Ok(v)) => {
                        ctx.cover("resolved through the loader");
                        Self::cmp(ctx, "loaded value", &doc, Some(v), Some(want));
                    }
                    Some(Err(e)) => ctx.violation("document rejected", &doc, format!("{e}")),
                    None => {}
                }
            }
        }
        if !s.contains('\0') {
            let q = if r.chance(1, 2) && !s.contains(['\n', '\r', '\t', '\u{feff}']) && !s.starts_with(' ') && !s.ends_with(' ') && s.chars().all(|c| c >= ' ' && c != '\u{7f}') {
                format!("'{}'", s.replace('\'', "''"))
            } else {
                let mut q = String::from("\"");
                for c in s.chars() {
                    if matches!(c, '"' | '\\') || (c as u32) < 32 || (c as u32) > 126 {
                        q.push_str(&format!("\\U{:08x}", c as u32));
                    } else {
                        q.push(c);
                    }
                }
                q + "\""
            };
            let w = if t.is_some_and(|x| x.0 == "!!str ") { "!!str " } else { "" };
            let doc = format!("a: {w}{q}\n");
            rt::note(&doc);
            if let Some(g) = call(ctx, "Yaml::load_from", &doc, || Yaml::load_from(&doc).ok().map(|d| of_yaml(&d[0]))) {
                let want = V::Map(vec![(V::Str("a".into()), V::Str(s.into()))]);
                ctx.cover("quoted through the loader");
                Self::cmp(ctx, "loaded quoted value", &doc, g, Some(want));
            }
        }
    }
}
impl Check for Schema {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_200_000 } else { 15_000_000 }
    }
    fn rule(&self) -> String {
        "scalar texts: every special spelling of the core schema and its one-character neighbours, integers around the 64-bit limits in three radixes, printed random doubles, random strings over the number alphabet, ordinary words; each resolved directly (with random style and tag) and through the loader; non-trivial: distinct text".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["resolves to: null", "resolves to: bool", "resolves to: int", "resolves to: float", "resolves to: string", "resolves to: not of the tagged type", "resolved through the loader", "quoted through the loader"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "oracle: the regular expressions of YAML 1.2.2 section 10.3.2, written separately; decimal to double conversion is the standard library's on both sides".into(),
            "decimal integers beyond 64 bits resolve to the nearest double, hexadecimal and octal ones stay strings; quoted scalars with a core tag other than !!str are not judged".into(),
        ]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p11");
        let s = if (idx as usize) < LIT.len() * 6 { LIT[idx as usize % LIT.len()].to_string() } else { schema_text(&mut r) };
        if idx % 4001 == 7 {
            ctx.sample(format!("{s:?} -> {:?}", core(&s)));
        }
        Self::one(ctx, &mut r, &s);
        for _ in 0..7 {
            let s = schema_text(&mut r);
            Self::one(ctx, &mut r, &s);
        }
    }
}

// ------------------------------------------------------------------ P12
/// Independent fold of an event stream into document values.
pub struct Fold<'a> {
    e: &'a [E],
    i: usize,
    anchors: HashMap<usize, V>,
    pub nodes: u64,
    pub aliases: u64,
    budget: usize,
}
impl<'a> Fold<'a> {
    pub fn docs(e: &'a [E]) -> Option<(Vec<V>, u64, u64)> {
        let mut f = Fold { e, i: 0, anchors: HashMap::new(), nodes: 0, aliases: 0, budget: 20_000 };
        let mut v = vec![];
        while f.i < e.len() {
            match &e[f.i] {
                E::DocStart(_) => {
                    f.i += 1;
                    f.anchors.clear();
                    if e.get(f.i) == Some(&E::DocEnd) {
                        v.push(V::Bad);
                    } else {
                        v.push(f.node()?);
                    }
                }
                _ => f.i += 1,
            }
        }
        Some((v, f.nodes, f.aliases))
    }
    fn wrap(v: V, t: &T) -> V {
        match t {
            Some((h, s)) if h != CORE => V::Tag(h.clone(), s.clone(), Box::new(v)),
            _ => v,
        }
    }
    fn node(&mut self) -> Option<V> {
        let e = self.e;
        let i = self.i;
        self.i += 1;
        self.nodes += 1;
        let (v, a) = match &e[i] {
            E::Alias(id) => {
                self.aliases += 1;
                let v = self.anchors.get(id).cloned().unwrap_or(V::Bad);
                let n = v.size();
                if n > self.budget {
                    return None;
                }
                self.budget -= n;
                return Some(v);
            }
            E::Scalar { v, st, a, tag } => {
                let core_tag = tag.as_ref().is_some_and(|t| t.0 == CORE);
                let r = if core_tag { resolve(v, *st, tag).unwrap_or(V::Bad) } else { Self::wrap(resolve(v, *st, &None).unwrap(), tag) };
                (r, *a)
            }
            E::SeqStart(a, t) => {
                let mut x = vec![];
                while e.get(self.i)? != &E::SeqEnd {
                    x.push(self.node()?);
                }
                self.i += 1;
                (Self::wrap(V::Seq(x), t), *a)
            }
            E::MapStart(a, t) => {
                let mut x = vec![];
                while e.get(self.i)? != &E::MapEnd {
                    let k = self.node()?;
                    let v = self.node()?;
                    x.push((k, v));
                }
                self.i += 1;
                (Self::wrap(V::Map(x), t), *a)
            }
            _ => return None,
        };
        if a > 0 {
            self.anchors.insert(a, v.clone());
        }
        Some(v)
    }
}

/// A caller-written node type: what the loader reports to it is recorded.
#[derive(Clone, Debug)]
pub struct Node<'a> {
    pub y: YamlData<'a, Node<'a>>,
    pub start: Option<Marker>,
    pub end: Option<Marker>,
    pub span: Option<Span>,
}
impl<'a> From<YamlData<'a, Node<'a>>> for Node<'a> {
    fn from(y: YamlData<'a, Node<'a>>) -> Self {
        Node { y, start: None, end: None, span: None }
    }
}
impl<'a> From<YamlScalar<'a>> for Node<'a> {
    fn from(y: YamlScalar<'a>) -> Self {
        Node { y: YamlData::Scalar(y), start: None, end: None, span: None }
    }
}
impl<'a> YamlDocAccess<'a> for Node<'a> {
    type OutNode = Self;
    type SequenceNode = Vec<Self>;
    type MappingNode = Vec<YamlEntry<'a, Self>>;
    fn key_from_usize(i: usize) -> Self {
        YamlScalar::Integer(i as i64).into()
    }
    fn key_from_str(i: &str) -> Self {
        YamlScalar::String(Cow::Owned(i.to_string())).into()
    }
    fn is_non_empty_collection(&self) -> bool {
        match &self.y {
            YamlData::Sequence(v) => !v.is_empty(),
            YamlData::Mapping(v) => !v.is_empty(),
            _ => false,
        }
    }
    fn as_bool(&self) -> Option<bool> {
        None
    }
    fn as_bool_mut(&mut self) -> Option<&mut bool> {
        None
    }
    fn as_i64(&self) -> Option<i64> {
        None
    }
    fn as_i64_mut(&mut self) -> Option<&mut i64> {
        None
    }
    fn as_f64(&self) -> Option<f64> {
        None
    }
    fn as_f64_mut(&mut self) -> Option<&mut f64> {
        None
    }
    fn as_sequence(&self) -> Result<&Self::SequenceNode, YamlAccessError> {
        match &self.y {
            YamlData::Sequence(v) => Ok(v),
            _ => Err(YamlAccessError::ExpectedSequence),
        }
    }
    fn as_sequence_mut(&mut self) -> Result<&mut Self::SequenceNode, YamlAccessError> {
        match &mut self.y {
            YamlData::Sequence(v) => Ok(v),
            _ => Err(YamlAccessError::ExpectedSequence),
        }
    }
    fn as_mapping(&self) -> Result<&Self::MappingNode, YamlAccessError> {
        match &self.y {
            YamlData::Mapping(v) => Ok(v),
            _ => Err(YamlAccessError::ExpectedMapping),
        }
    }
    fn as_mapping_mut(&mut self) -> Result<&mut Self::MappingNode, YamlAccessError> {
        match &mut self.y {
            YamlData::Mapping(v) => Ok(v),
            _ => Err(YamlAccessError::ExpectedMapping),
        }
    }
    fn as_str(&self) -> Option<&str> {
        None
    }
    fn as_str_mut(&mut self) -> Option<&mut str> {
        None
    }
    fn sequence_mut(&mut self) -> &mut Self::SequenceNode {
        self.as_sequence_mut().expect("sequence_mut on another node")
    }
    fn sequence(&self) -> &Self::SequenceNode {
        self.as_sequence().expect("sequence on another node")
    }
    fn mapping_mut(&mut self) -> &mut Self::MappingNode {
        self.as_mapping_mut().expect("mapping_mut on another node")
    }
    fn mapping(&self) -> &Self::MappingNode {
        self.as_mapping().expect("mapping on another node")
    }
    fn get_tag(&self) -> Option<Tag> {
        None
    }
    fn get_type(&self) -> NodeType {
        match &self.y {
            YamlData::Sequence(_) => NodeType::Sequence,
            YamlData::Mapping(_) => NodeType::Mapping,
            YamlData::Scalar(YamlScalar::String(_)) => NodeType::String,
            _ => NodeType::Bad,
        }
    }
    fn into_string(self) -> Option<String> {
        None
    }
    fn into_mapping(self) -> Option<Self::MappingNode> {
        None
    }
    fn into_sequence(self) -> Option<Self::SequenceNode> {
        None
    }
    fn into_tagged(self, tag: Cow<'a, Tag>) -> Self {
        Node { start: self.start, end: self.end, span: self.span, y: YamlData::Tagged(tag, Box::new(self)) }
    }
    fn bad_span_value(s: Span) -> Self {
        Node { y: YamlData::BadValue, start: None, end: None, span: Some(s) }
    }
    fn null() -> Self {
        YamlScalar::Null(std::marker::PhantomData).into()
    }
    fn with_start(mut self, m: Marker) -> Self {
        self.start = Some(m);
        self
    }
    fn with_end(mut self, m: Marker) -> Self {
        self.end = Some(m);
        self
    }
    fn with_span(mut self, s: Span) -> Self {
        self.span = Some(s);
        self
    }
}
fn of_node(y: &Node<'_>) -> V {
    match &y.y {
        YamlData::BadValue | YamlData::Alias(_) => V::Bad,
        YamlData::Scalar(s) => of_scalar(s),
        YamlData::Sequence(v) => V::Seq(v.iter().map(of_node).collect()),
        YamlData::Mapping(v) => V::Map(v.iter().map(|e| (of_node(&e.key), of_node(&e.value))).collect()),
        YamlData::Tagged(t, b) => V::Tag(t.handle.clone(), t.suffix.clone(), Box::new(of_node(b))),
    }
}
/// Start markers of the collections, in document order (aliases excluded).
fn starts(y: &Node<'_>, out: &mut Vec<(Option<Marker>, Option<Marker>)>) {
    if y.span.is_some() {
        return;
    }
    match &y.y {
        YamlData::Sequence(v) => {
            out.push((y.start, y.end));
            v.iter().for_each(|x| starts(x, out));
        }
        YamlData::Mapping(v) => {
            out.push((y.start, y.end));
            v.iter().for_each(|e| {
                starts(&e.key, out);
                starts(&e.value, out);
            });
        }
        YamlData::Tagged(_, b) => starts(b, out),
        _ => {}
    }
}

pub struct Tree;
impl Tree {
    fn one(ctx: &mut Ctx, s: &str, focused: bool) {
        let Some(run) = iter(ctx, s) else { return };
        let evs = run.events();
        if evs.iter().any(|e| matches!(e, E::Alias(_))) {
            ctx.cover("streams with aliases");
        }
        let all = call(ctx, "Yaml::load_from", s, || Yaml::load_from(s));
        let Some(all) = all else { return };
        match (&all, &run.err) {
            (Err(e), None) => {
                ctx.violation("load_from rejects what the parser accepts", s, format!("{e}"));
                return;
            }
            (Ok(_), Some(e)) => {
                ctx.violation("load_from accepts what the parser rejects", s, format!("{e}"));
                return;
            }
            (Err(a), Some(b)) => {
                ctx.cover("rejected by both");
                if a != b {
                    ctx.violation("load_from reports another error", s, format!("{a}\nvs {b}"));
                }
                // the documents before the error are still available one by one
                let f = call(ctx, "YamlLoader::load_from", s, || YamlLoader::<Yaml>::load_from(s));
                if let Some(f) = f {
                    if f.as_ref().err() != Some(a) {
                        ctx.violation("YamlLoader::load_from differs from Yaml::load_from", s, format!("{f:?}"));
                    }
                }
                // what follows the first document is ignored when only that one is loaded
                let mut done: Vec<E> = evs.clone();
                let Some(end) = done.iter().rposition(|e| *e == E::DocEnd) else { return };
                done.truncate(end + 1);
                done.push(E::StreamEnd);
                let Some((want, ..)) = Fold::docs(&done) else { return };
                if let Some(r) = call(ctx, "Yaml::load_single", s, || Yaml::load_single(s).map(|d| of_yaml(&d))) {
                    ctx.cover("first document of a stream broken later on");
                    if r.as_ref().ok() != want.first() {
                        ctx.violation("load_single is not the first document", s, format!("{r:?}\nwant {:?}", want.first()));
                    }
                }
                let got = call(ctx, "load_single_from_parser repeatedly", s, || {
                    let mut p = Parser::new_from_str(s);
                    let mut v = vec![];
                    while v.len() <= want.len() {
                        match YamlLoader::<Yaml>::load_single_from_parser(&mut p) {
                            Ok(y) => v.push(of_yaml(&y)),
                            Err(e) => return (v, Some(e)),
                        }
                    }
                    (v, None)
                });
                if let Some((v, e)) = got {
                    ctx.cover_n("documents loaded one by one before an error", v.len() as u64);
                    if v != want || e.as_ref() != Some(b) {
                        ctx.violation("documents before an error, loaded one by one", s, format!("{v:?} {e:?}\nwant {want:?} {b}"));
                    }
                }
                return;
            }
            (Ok(_), None) => {}
        }
        let Ok(all) = all else { return };
        let Some((want, nodes, aliases)) = Fold::docs(&evs) else {
            ctx.inconclusive("event stream too large to fold");
            return;
        };
        ctx.cover_n("nodes compared", nodes);
        ctx.cover_n("aliases expanded", aliases);
        ctx.cover_n("documents compared", want.len() as u64);
        if focused {
            ctx.nontrivial(s.as_bytes());
        }
        let Some(got) = call(ctx, "reading the loaded tree", s, || all.iter().map(of_yaml).collect::<Vec<V>>()) else { return };
        if got != want {
            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            ctx.violation(
                if got.len() == want.len() { "loaded tree differs from the events" } else { "wrong number of documents" },
                s,
                format!("document {i}: got {:?}\nwant {:?}\nevents:\n{}", got.get(i), want.get(i), ev::show(&evs)),
            );
            return;
        }
        for v in &want {
            ctx.cover(&format!("root: {}", v.kind()));
        }
        // every loading path gives the same documents
        macro_rules! same {
            ($name:expr, $f:expr) => {
                if let Some(r) = call(ctx, $name, s, || $f.map(|d| d.iter().map(of_yaml).collect::<Vec<V>>())) {
                    if r.as_ref() != Ok(&want) {
                        ctx.violation(format!("{} differs from load_from", $name), s, format!("{r:?}\nwant {want:?}"));
                    }
                }
            };
        }
        macro_rules! first {
            ($name:expr, $f:expr) => {
                if let Some(r) = call(ctx, $name, s, || $f.map(|d| of_yaml(&d))) {
                    let w = want.first().cloned().ok_or(YamlError::NoDocument);
                    if r != w {
                        ctx.violation(format!("{} is not the first document", $name), s, format!("{r:?}\nwant {w:?}"));
                    }
                }
            };
        }
        same!("YamlLoader::load_from", YamlLoader::<Yaml>::load_from(s));
        same!("load_from_parser", YamlLoader::<Yaml>::load_from_parser(&mut Parser::new_from_str(s)));
        same!("load_from_parser over a caller's source", YamlLoader::<Yaml>::load_from_parser(&mut Parser::new(MiniSource::new(s))));
        let owned = s.to_string();
        same!("load_from an owned string", Yaml::load_from(owned));
        first!("Yaml::load_single", Yaml::load_single(s));
        first!("YamlLoader::load_single", YamlLoader::<Yaml>::load_single(s));
        first!("load_single_source", YamlLoader::<Yaml>::load_single_source(MiniSource::new(s)));
        first!("load_single_from_parser", YamlLoader::<Yaml>::load_single_from_parser(&mut Parser::new_from_str(s)));
        // a receiver of one's own
        let via = call(ctx, "YamlLoader as an event receiver", s, || {
            let mut l = YamlLoader::<Yaml>::default();
            let mut p = Parser::new_from_str(s);
            p.load(&mut l, true).map(|()| l.into_documents().iter().map(of_yaml).collect::<Vec<V>>())
        });
        if let Some(v) = via {
            if v.as_ref() != Ok(&want) {
                ctx.violation("into_documents differs from load_from", s, format!("{v:?}\nwant {want:?}"));
            }
        }
        // one document after the other from one parser
        let seq = call(ctx, "load_single_from_parser repeatedly", s, || {
            let mut p = Parser::new_from_str(s);
            let mut v = vec![];
            for _ in 0..want.len() {
                match YamlLoader::<Yaml>::load_single_from_parser(&mut p) {
                    Ok(y) => v.push(of_yaml(&y)),
                    Err(e) => return Err(e),
                }
            }
            let last = YamlLoader::<Yaml>::load_single_from_parser(&mut p);
            Ok((v, last.map(|y| of_yaml(&y))))
        });
        match seq {
            Some(Ok((v, last))) => {
                ctx.cover("documents loaded one by one");
                if v != want {
                    ctx.violation("documents loaded one by one differ", s, format!("{v:?}\nwant {want:?}"));
                }
                if last.is_ok() {
                    ctx.violation("a document after the last one", s, format!("{last:?}"));
                }
            }
            Some(Err(e)) => ctx.violation("documents loaded one by one: error", s, format!("{e}")),
            None => {}
        }
        // a caller's node type gets the same values, with the positions of the events
        let nd = call(ctx, "YamlLoader with a caller's node type", s, || YamlLoader::<Node>::load_from_parser(&mut Parser::new_from_str(s)).map(|d| {
            let mut st = vec![];
            d.iter().for_each(|x| starts(x, &mut st));
            (d.iter().map(of_node).collect::<Vec<V>>(), st)
        }));
        match nd {
            Some(Ok((v, st))) => {
                if v != want {
                    ctx.violation("a caller's node type gets other values", s, format!("{v:?}\nwant {want:?}"));
                }
                let mut w: Vec<(Option<Marker>, Option<Marker>)> = vec![];
                let mut open = vec![];
                for (e, sp) in &run.evs {
                    match e {
                        E::SeqStart(..) | E::MapStart(..) => {
                            open.push(w.len());
                            w.push((Some(sp.start), None));
                        }
                        E::SeqEnd | E::MapEnd => {
                            let i = open.pop().unwrap_or(0);
                            w[i].1 = Some(sp.start);
                        }
                        _ => {}
                    }
                }
                ctx.cover_n("collection positions compared", w.len() as u64);
                if st != w {
                    ctx.violation("collection positions differ from the events", s, format!("{st:?}\nwant {w:?}"));
                }
            }
            Some(Err(e)) => ctx.violation("a caller's node type: error", s, format!("{e}")),
            None => {}
        }
    }
}
impl Check for Tree {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 5_000_000 }
    }
    fn rule(&self) -> String {
        "generated streams rich in anchors, aliases (also recursive), tags and several documents, test-suite documents, mutations of both and token soup; non-trivial: distinct accepted stream whose loaded documents were compared with an independent fold of its events".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["nodes compared", "aliases expanded", "documents compared", "rejected by both", "documents loaded one by one", "collection positions compared", "root: tagged", "root: mapping", "root: sequence"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "scalars resolve as in P11; a core-schema tag the value does not satisfy, a recursive alias and an empty document give the bad value".into(),
            "documents whose aliases expand to more than 20000 nodes are not judged".into(),
        ]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p12");
        let s = match idx % 4 {
            0 | 1 => {
                let o = Opts { anchors: 25, aliases: 20, tags: 20, max_docs: 4, odd_keys: 30, ..Opts::default() };
                match gen_in(ctx, "p12g", &o) {
                    Some(g) => g.text,
                    None => return,
                }
            }
            2 => {
                let o = Opts { anchors: 5, aliases: 10, tags: 30, rich: 60, strs: 20, depth: 3, ..Opts::default() };
                match gen_in(ctx, "p12h", &o) {
                    Some(g) => g.text,
                    None => return,
                }
            }
            _ => hostile(&mut r, idx, false).0,
        };
        if nesting_bound(&s) > 400 {
            ctx.cover("skipped: too deep");
            return;
        }
        // an alias bomb is outside the claim: bound it before loading anything
        let run = rt::guarded(|| ev::run_iter(&s));
        if let Ok(run) = &run {
            if run.ok() && Fold::docs(&run.events()).is_none() {
                ctx.cover("skipped: aliases expand too far");
                return;
            }
        }
        if idx % 997 == 0 {
            ctx.sample(format!("{s:?}"));
        }
        Self::one(ctx, &s, true);
    }
}

// ------------------------------------------------------------------ P18
pub struct Access;
fn value(r: &mut Rng, d: usize) -> V {
    if d > 0 && r.chance(3, 5) {
        let n = r.below(6);
        if r.chance(1, 2) {
            return V::Seq((0..n).map(|_| value(r, d - 1)).collect());
        }
        return V::Map(
            (0..n)
                .map(|i| {
                    let k = match r.below(8) {
                        0..=2 => V::Str(format!("{}{i}", r.pick(WORDS))),
                        3 | 4 => V::Int(i as i64),
                        5 => V::Str(format!("{i}")),
                        _ => value(r, 1.min(d - 1)),
                    };
                    (k, value(r, d - 1))
                })
                .collect(),
        );
    }
    match r.below(9) {
        0 => V::Null,
        1 => V::Bool(r.chance(1, 2)),
        2 => V::Int(*r.pick(&[0, 1, -1, 5, i64::MAX, i64::MIN])),
        3 => V::Float(*r.pick(&[0.0, -0.0, 1.5, -2.25e9, f64::INFINITY, 1e-300])),
        4 => V::Bad,
        5 if d > 0 => V::Tag("!".into(), (*r.pick(&["t", "u"])).into(), Box::new(value(r, d - 1))),
        _ => V::Str(if r.chance(1, 2) { (*r.pick(WORDS)).into() } else { (*r.pick(STRS)).into() }),
    }
}
trait Build<'a>: YamlDocAccess<'a, OutNode = Self, SequenceNode = Vec<Self>, MappingNode = Vec<YamlEntry<'a, Self>>> {
    fn mk(d: YamlData<'a, Self>) -> Self;
    fn back(&self) -> V;
}
impl<'a> Build<'a> for Yaml<'a> {
    fn mk(d: YamlData<'a, Self>) -> Self {
        Yaml(d)
    }
    fn back(&self) -> V {
        of_yaml(self)
    }
}
impl<'a> Build<'a> for SpannedYaml<'a> {
    fn mk(d: YamlData<'a, Self>) -> Self {
        SpannedYaml { span: Span::default(), yaml: d }
    }
    fn back(&self) -> V {
        match &self.yaml {
            YamlData::BadValue | YamlData::Alias(_) => V::Bad,
            YamlData::Scalar(s) => of_scalar(s),
            YamlData::Sequence(v) => V::Seq(v.iter().map(Build::back).collect()),
            YamlData::Mapping(v) => V::Map(v.iter().map(|e| (e.key.back(), e.value.back())).collect()),
            YamlData::Tagged(t, b) => V::Tag(t.handle.clone(), t.suffix.clone(), Box::new(b.back())),
        }
    }
}
fn to_scalar(v: &V) -> Option<YamlScalar<'_>> {
    Some(match v {
        V::Null => YamlScalar::Null(std::marker::PhantomData),
        V::Bool(b) => YamlScalar::Bool(*b),
        V::Int(i) => YamlScalar::Integer(*i),
        V::Float(f) => YamlScalar::FloatingPoint(*f),
        V::Str(s) => YamlScalar::String(if s.len() % 2 == 0 { Cow::Borrowed(s) } else { Cow::Owned(s.clone()) }),
        _ => return None,
    })
}
fn build<'a, N: Build<'a>>(v: &'a V) -> N {
    match v {
        V::Bad => N::mk(YamlData::BadValue),
        V::Seq(x) => N::mk(YamlData::Sequence(x.iter().map(build).collect())),
        V::Map(x) => N::mk(YamlData::Mapping(x.iter().map(|(k, v)| YamlEntry::new(build(k), build(v))).collect())),
        V::Tag(h, s, b) => N::mk(YamlData::Tagged(Cow::Owned(Tag::new(h, s)), Box::new(build(b)))),
        x => N::mk(YamlData::Scalar(to_scalar(x).unwrap())),
    }
}
fn owned(v: &V) -> YamlOwned {
    YamlOwned(match v {
        V::Bad => YamlData::BadValue,
        V::Null => YamlData::Scalar(YamlScalar::Null(std::marker::PhantomData)),
        V::Bool(b) => YamlData::Scalar(YamlScalar::Bool(*b)),
        V::Int(b) => YamlData::Scalar(YamlScalar::Integer(*b)),
        V::Float(b) => YamlData::Scalar(YamlScalar::FloatingPoint(*b)),
        V::Str(b) => YamlData::Scalar(YamlScalar::String(b.clone())),
        V::Seq(x) => YamlData::Sequence(x.iter().map(owned).collect()),
        V::Map(x) => YamlData::Mapping(x.iter().map(|(k, v)| YamlEntry::new(owned(k), owned(v))).collect()),
        V::Tag(h, s, b) => YamlData::Tagged(Cow::Owned(Tag::new(h, s)), Box::new(owned(b))),
    })
}
/// Numeric-aware equality, as PartialEq of the nodes promises (NaN differs, -0 = 0).
fn node_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Float(a), V::Float(b)) => a == b,
        (V::Seq(a), V::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| node_eq(x, y)),
        (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| node_eq(&x.0, &y.0) && node_eq(&x.1, &y.1)),
        (V::Tag(a, b, c), V::Tag(d, e, f)) => a == d && b == e && node_eq(c, f),
        _ => a == b,
    }
}
macro_rules! ck {
    ($bad:ident, $what:expr, $got:expr, $want:expr) => {{
        $bad.1 += 1;
        let (g, w) = ($got, $want);
        if g != w {
            $bad.0.push(($what.to_string(), format!("{}: got {:?}, want {:?}", $what, g, w)));
        }
    }};
}
type Bad = (Vec<(String, String)>, u64);
/// Every accessor of one node against the value it was made from.
fn accessors<'a, N: Build<'a>>(v: &V, n: &N, bad: &mut Bad) {
    ck!(bad, "as_bool", n.as_bool(), if let V::Bool(b) = v { Some(*b) } else { None });
    ck!(bad, "as_i64", n.as_i64(), if let V::Int(b) = v { Some(*b) } else { None });
    ck!(bad, "as_f64", n.as_f64().map(f64::to_bits), if let V::Float(b) = v { Some(b.to_bits()) } else { None });
    ck!(bad, "as_str", n.as_str(), if let V::Str(b) = v { Some(b.as_str()) } else { None });
    ck!(bad, "into_bool", n.clone().into_bool(), if let V::Bool(b) = v { Some(*b) } else { None });
    ck!(bad, "into_i64", n.clone().into_i64(), if let V::Int(b) = v { Some(*b) } else { None });
    ck!(bad, "into_f64", n.clone().into_f64().map(f64::to_bits), if let V::Float(b) = v { Some(b.to_bits()) } else { None });
    ck!(bad, "into_string", n.clone().into_string(), if let V::Str(b) = v { Some(b.clone()) } else { None });
    ck!(bad, "into_sequence", n.clone().into_sequence().map(|s| V::Seq(s.iter().map(N::back).collect())), if let V::Seq(_) = v { Some(v.clone()) } else { None });
    ck!(bad, "into_mapping", n.clone().into_mapping().map(|s| V::Map(s.iter().map(|e| (e.key.back(), e.value.back())).collect())), if let V::Map(_) = v { Some(v.clone()) } else { None });
    ck!(bad, "as_sequence", n.as_sequence().map(|s| s.len()), if let V::Seq(s) = v { Ok(s.len()) } else { Err(YamlAccessError::ExpectedSequence) });
    ck!(bad, "as_mapping", n.as_mapping().map(|s| s.len()), if let V::Map(s) = v { Ok(s.len()) } else { Err(YamlAccessError::ExpectedMapping) });
    ck!(bad, "is_null", n.is_null(), matches!(v, V::Null));
    ck!(bad, "is_bool", n.is_bool(), matches!(v, V::Bool(_)));
    ck!(bad, "is_integer", n.is_integer(), matches!(v, V::Int(_)));
    ck!(bad, "is_floating_point", n.is_floating_point(), matches!(v, V::Float(_)));
    ck!(bad, "is_string", n.is_string(), matches!(v, V::Str(_)));
    ck!(bad, "is_sequence", n.is_sequence(), matches!(v, V::Seq(_)));
    ck!(bad, "is_mapping", n.is_mapping(), matches!(v, V::Map(_)));
    ck!(bad, "is_collection", n.is_collection(), matches!(v, V::Seq(_) | V::Map(_)));
    ck!(bad, "is_non_empty_collection", n.is_non_empty_collection(), match v {
        V::Seq(s) => !s.is_empty(),
        V::Map(s) => !s.is_empty(),
        _ => false,
    });
    ck!(bad, "is_alias", n.is_alias(), false);
    if !matches!(v, V::Tag(..)) {
        ck!(bad, "is_bad_value", n.is_bad_value(), matches!(v, V::Bad));
        let t = match v {
            V::Bad | V::Tag(..) => NodeType::Bad,
            V::Null => NodeType::Null,
            V::Bool(_) => NodeType::Bool,
            V::Int(_) => NodeType::Integer,
            V::Float(_) => NodeType::Floating,
            V::Str(_) => NodeType::String,
            V::Seq(_) => NodeType::Sequence,
            V::Map(_) => NodeType::Mapping,
        };
        ck!(bad, "get_type", n.get_type(), t);
    }
    ck!(bad, "get_tag", n.get_tag().map(|t| (t.handle, t.suffix)), if let V::Tag(h, s, _) = v { Some((h.clone(), s.clone())) } else { None });
    let tg = Tag::new("!", "wrap");
    ck!(bad, "into_tagged", n.clone().into_tagged(Cow::Owned(tg)).back(), V::Tag("!".into(), "wrap".into(), Box::new(v.clone())));
    ck!(bad, "clone", n.clone().back(), v.clone());
    let mut m = n.clone();
    let t = m.take();
    ck!(bad, "take", (t.back(), m.is_bad_value()), (v.clone(), true));
    // the mutable accessors change exactly what they point at
    let mut m = n.clone();
    let want = match v {
        V::Bool(b) => {
            if let Some(x) = m.as_bool_mut() {
                *x = !*x;
            }
            V::Bool(!*b)
        }
        V::Int(b) => {
            if let Some(x) = m.as_i64_mut() {
                *x = x.wrapping_add(7);
            }
            V::Int(b.wrapping_add(7))
        }
        V::Float(b) => {
            if let Some(x) = m.as_f64_mut() {
                *x = *x / 2.0 + 1.0;
            }
            V::Float(*b / 2.0 + 1.0)
        }
        V::Str(b) => {
            if let Some(x) = m.as_str_mut() {
                x.make_ascii_uppercase();
            }
            V::Str(b.to_ascii_uppercase())
        }
        V::Seq(b) => {
            if let Ok(x) = m.as_sequence_mut() {
                x.push(N::null());
            }
            m.sequence_mut().reverse();
            let mut b = b.clone();
            b.push(V::Null);
            b.reverse();
            V::Seq(b)
        }
        V::Map(b) => {
            if let Ok(x) = m.as_mapping_mut() {
                x.push(YamlEntry::new(N::key_from_str("new"), N::null()));
            }
            m.mapping_mut().reverse();
            let mut b = b.clone();
            b.push((V::Str("new".into()), V::Null));
            b.reverse();
            V::Map(b)
        }
        x => x.clone(),
    };
    ck!(bad, "mutable accessor", m.back(), want);
    let mut m = n.clone();
    let some = (m.as_bool_mut().is_some(), m.as_i64_mut().is_some(), m.as_f64_mut().is_some(), m.as_str_mut().is_some(), m.as_sequence_mut().is_ok(), m.as_mapping_mut().is_ok());
    ck!(bad, "which mutable accessors answer", some, (matches!(v, V::Bool(_)), matches!(v, V::Int(_)), matches!(v, V::Float(_)), matches!(v, V::Str(_)), matches!(v, V::Seq(_)), matches!(v, V::Map(_))));
    ck!(bad, "original after its clone changed", n.back(), v.clone());
    match v {
        V::Seq(s) => {
            for (x, y) in s.iter().zip(n.sequence()) {
                accessors(x, y, bad);
            }
        }
        V::Map(s) => {
            for (x, y) in s.iter().zip(n.mapping()) {
                accessors(&x.0, &y.key, bad);
                accessors(&x.1, &y.value, bad);
            }
        }
        _ => {}
    }
}
/// Indexing: every position of every sequence, every string and integer key of every mapping.
fn indexing(v: &V, y: &Yaml<'_>, bad: &mut Bad) {
    match v {
        V::Seq(s) => {
            for (i, x) in s.iter().enumerate() {
                ck!(bad, "index into a sequence", of_yaml(&y[i]), x.clone());
                indexing(x, &y[i], bad);
                let mut m = y.clone();
                m[i] = Yaml::from("changed");
                let mut w = s.clone();
                w[i] = V::Str("changed".into());
                ck!(bad, "index_mut into a sequence", of_yaml(&m), V::Seq(w));
            }
            let n = s.len();
            ck!(bad, "index past the end does not panic", rt::guarded(|| of_yaml(&y[n])).is_err(), true);
        }
        V::Map(s) => {
            for (k, _) in s {
                match k {
                    V::Str(name) => {
                        let p = s.iter().position(|e| &e.0 == k).unwrap();
                        ck!(bad, "index by a string key", of_yaml(&y[name.as_str()]), s[p].1.clone());
                        indexing(&s[p].1, &y[name.as_str()], bad);
                        let mut m = y.clone();
                        m[name.as_str()] = Yaml::from(7i64);
                        let mut w = s.clone();
                        w[p].1 = V::Int(7);
                        ck!(bad, "index_mut by a string key", of_yaml(&m), V::Map(w));
                    }
                    V::Int(i) if *i >= 0 => {
                        let p = s.iter().position(|e| &e.0 == k).unwrap();
                        ck!(bad, "index by an integer key", of_yaml(&y[*i as usize]), s[p].1.clone());
                        let mut m = y.clone();
                        m[*i as usize] = Yaml::from(true);
                        let mut w = s.clone();
                        w[p].1 = V::Bool(true);
                        ck!(bad, "index_mut by an integer key", of_yaml(&m), V::Map(w));
                    }
                    _ => {}
                }
            }
            if !s.iter().any(|e| e.0 == V::Str("absent key".into())) {
                ck!(bad, "index by an absent key does not panic", rt::guarded(|| of_yaml(&y["absent key"])).is_err(), true);
            }
        }
        V::Tag(..) => {}
        _ => {
            ck!(bad, "index into a scalar does not panic", (rt::guarded(|| of_yaml(&y[0])).is_err(), rt::guarded(|| of_yaml(&y["a"])).is_err()), (true, true));
        }
    }
}
impl Check for Access {
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 7_000_000 }
    }
    fn rule(&self) -> String {
        "random trees (all node kinds, tagged nodes, duplicate, integer, string and collection keys) built as Yaml, SpannedYaml and YamlOwned, every accessor and index of every node compared with the model; non-trivial: distinct tree with at least 3 nodes".into()
    }
    fn must_cover(&self) -> Vec<&'static str> {
        vec!["accessor comparisons", "index comparisons", "equality comparisons: equal", "equality comparisons: different", "trees loaded from text"]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["get_type and is_bad_value of a tagged node are not judged".into()]
    }
    fn run(&self, ctx: &mut Ctx, idx: u64) {
        let mut r = ctx.rng("p18");
        let v = if idx % 5 == 4 {
            // from a document
            let o = Opts { aliases: 0, anchors: 0, max_docs: 1, ..Opts::default() };
            let Some(g) = gen_in(ctx, "p18g", &o) else { return };
            match rt::guarded(|| Yaml::load_single(&g.text).map(|y| of_yaml(&y))) {
                Ok(Ok(v)) if v.size() < 150 => {
                    ctx.cover("trees loaded from text");
                    v
                }
                _ => return,
            }
        } else {
            let d = r.range(1, 4);
            value(&mut r, d)
        };
        if v.size() > 200 {
            return;
        }
        let desc = format!("{v:?}");
        rt::note(&desc);
        if v.size() >= 3 {
            ctx.nontrivial(desc.as_bytes());
        }
        if idx % 1009 == 3 {
            ctx.sample(desc.clone());
        }
        let report = |ctx: &mut Ctx, ty: &str, bad: Bad| {
            ctx.evals(bad.1);
            for (w, d) in bad.0 {
                ctx.violation(format!("{ty}: {w}"), &desc, d);
            }
        };
        let res = call(ctx, "Yaml accessors", &desc, || {
            let y: Yaml = build(&v);
            let mut b: Bad = (vec![], 0);
            accessors(&v, &y, &mut b);
            b
        });
        if let Some(b) = res {
            ctx.cover_n("accessor comparisons", b.1);
            report(ctx, "Yaml", b);
        }
        let res = call(ctx, "SpannedYaml accessors", &desc, || {
            let y: SpannedYaml = build(&v);
            let mut b: Bad = (vec![], 0);
            accessors(&v, &y, &mut b);
            b
        });
        if let Some(b) = res {
            ctx.cover_n("accessor comparisons", b.1);
            report(ctx, "SpannedYaml", b);
        }
        if !v.has_nan() {
            let res = call(ctx, "Yaml indexing", &desc, || {
                let y: Yaml = build(&v);
                let mut b: Bad = (vec![], 0);
                indexing(&v, &y, &mut b);
                b
            });
            if let Some(b) = res {
                ctx.cover_n("index comparisons", b.1);
                report(ctx, "Yaml", b);
            }
        }
        // equality and clones
        let w = if r.chance(1, 2) { edit(&mut r, &v) } else { v.clone() };
        let want = node_eq(&v, &w);
        let res = call(ctx, "equality", &desc, || {
            let (a, b): (Yaml, Yaml) = (build(&v), build(&w));
            let (c, d) = (owned(&v), owned(&w));
            let back = format!("{:?}", c.clone()) == format!("{c:?}");
            (a == b, b == a, c == d, c.clone() == d, back, a.clone() == b)
        });
        if let Some(g) = res {
            ctx.cover(if want { "equality comparisons: equal" } else { "equality comparisons: different" });
            if g != (want, want, want, want, true, want) {
                ctx.violation("equality", &desc, format!("against {w:?}: got {g:?}, want {want}"));
            }
        }
        // conversions
        let i = r.next() as i64 >> r.below(64);
        let f = f64::from_bits(r.next());
        let s = (*r.pick(STRS)).to_string();
        let res = call(ctx, "conversions", &desc, || {
            vec![
                (of_yaml(&Yaml::from(i)), V::Int(i)),
                (of_yaml(&Yaml::from(i as i32)), V::Int(i64::from(i as i32))),
                (of_yaml(&Yaml::from(i as i16)), V::Int(i64::from(i as i16))),
                (of_yaml(&Yaml::from(i as i8)), V::Int(i64::from(i as i8))),
                (of_yaml(&Yaml::from(f)), V::Float(f)),
                (of_yaml(&Yaml::from(f as f32)), V::Float(f64::from(f as f32))),
                (of_yaml(&Yaml::from(i % 2 == 0)), V::Bool(i % 2 == 0)),
                (of_yaml(&Yaml::from(s.as_str())), V::Str(s.clone())),
                (of_yaml(&Yaml::from(vec![Yaml::from(i), Yaml::from(s.as_str())])), V::Seq(vec![V::Int(i), V::Str(s.clone())])),
                (of_yaml(&Yaml::null()), V::Null),
                (of_yaml(&Yaml::bad_value()), V::Bad),
                (of_yaml(&Yaml::key_from_str(&s)), V::Str(s.clone())),
                (of_yaml(&Yaml::key_from_usize((i & 0xffff_ffff) as usize)), V::Int(i & 0xffff_ffff)),
            ]
        });
        for (k, (g, w)) in res.unwrap_or_default().into_iter().enumerate() {
            ctx.eval();
            if g != w {
                ctx.violation(format!("conversion {k}"), &desc, format!("got {g:?} want {w:?}"));
            }
        }
    }
}
/// A copy differing somewhere (or, rarely, nowhere).
fn edit(r: &mut Rng, v: &V) -> V {
    match v {
        V::Seq(s) if !s.is_empty() => {
            let mut s = s.clone();
            let i = r.below(s.len());
            match r.below(4) {
                0 => {
                    s.remove(i);
                }
                1 => {
                    let j = r.below(s.len());
                    s.swap(i, j);
                }
                _ => s[i] = edit(r, &s[i]),
            }
            V::Seq(s)
        }
        V::Map(s) if !s.is_empty() => {
            let mut s = s.clone();
            let i = r.below(s.len());
            match r.below(5) {
                0 => {
                    s.remove(i);
                }
                1 => {
                    let j = r.below(s.len());
                    s.swap(i, j);
                }
                2 => s[i].0 = edit(r, &s[i].0),
                _ => s[i].1 = edit(r, &s[i].1),
            }
            V::Map(s)
        }
        V::Tag(h, s, b) => match r.below(3) {
            0 => V::Tag(h.clone(), format!("{s}x"), b.clone()),
            1 => V::Tag(format!("{h}x"), s.clone(), b.clone()),
            _ => V::Tag(h.clone(), s.clone(), Box::new(edit(r, b))),
        },
        V::Int(i) => r.pick(&[V::Int(i.wrapping_add(1)), V::Int(-1), V::Float(*i as f64), V::Str(i.to_string()), V::Null]).clone(),
        V::Bool(b) => V::Bool(!b),
        V::Str(s) => V::Str(format!("{s}x")),
        V::Null => V::Str(String::new()),
        V::Float(f) => V::Float(-f),
        _ => V::Null,
    }
}
