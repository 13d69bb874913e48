//! Independent reference recogniser for YAML 1.2.2: a memoising transcription of
//! the productions of the specification (numbers in comments are the spec's).
//! It shares nothing with the code under test and is only ever used as an oracle.
use crate::ev::{E, St, T};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    BO,
    BI,
    FO,
    FI,
    BK,
    FK,
}
use C::*;

#[derive(Debug, Clone)]
pub enum K {
    Scalar(St, String),
    /// Completely empty node.
    Empty,
    Alias(String),
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
}
#[derive(Debug)]
pub struct Node {
    pub k: K,
    pub anchor: Option<String>,
    pub tag: Option<RTag>,
    /// char offsets of the content (not the properties)
    pub start: usize,
    pub end: usize,
    pub flow: bool,
}
pub type N = Rc<Node>;

#[derive(Debug, Clone, PartialEq)]
pub enum RTag {
    Verbatim(String),
    NonSpecific,
    Short(String, String),
}

#[derive(Debug, Clone, Default)]
struct Props {
    anchor: Option<String>,
    tag: Option<RTag>,
}

#[derive(Debug)]
pub struct RDoc {
    pub explicit: bool,
    pub root: N,
    pub tags: BTreeMap<String, String>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// Full event list, with char spans of content events (usize::MAX when not applicable).
    Valid(Vec<(E, usize, usize)>),
    /// Not derivable: furthest position reached.
    Invalid(String),
    /// Budget exhausted.
    Unknown,
}

#[derive(Clone)]
enum M {
    Fail,
    Ok(usize, N),
}

pub struct P {
    s: Vec<char>,
    end: usize,
    memo: HashMap<(u8, usize, i32, C), M>,
    steps: u64,
    pub out: bool,
    /// Accept the documented leniencies of the implementation as well (see `judge_lenient`).
    len: bool,
    /// Where the flow collection that is read leniently starts, and where the first plain scalar in it ends.
    lstart: Cell<usize>,
    lplain: RefCell<HashMap<usize, usize>>,
}

/// Added to the indentation while a flow collection is read leniently.
const LENIENT: i32 = 100_000;

type R<X> = Option<(usize, X)>;

pub fn is_printable(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\x20'..='\x7e' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}
fn is_break(c: char) -> bool {
    c == '\n' || c == '\r'
}
fn is_white(c: char) -> bool {
    c == ' ' || c == '\t'
}
fn is_nb(c: char) -> bool {
    is_printable(c) && !is_break(c) && c != '\u{feff}'
}
fn is_ns(c: char) -> bool {
    is_nb(c) && !is_white(c)
}
fn is_flow_ind(c: char) -> bool {
    matches!(c, ',' | '[' | ']' | '{' | '}')
}
fn is_indicator(c: char) -> bool {
    "-?:,[]{}#&*!|>'\"%@`".contains(c)
}
fn is_json(c: char) -> bool {
    c == '\t' || c >= ' '
}
fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '-'
}

impl P {
    fn at(&self, p: usize) -> Option<char> {
        if p < self.end { Some(self.s[p]) } else { None }
    }
    fn is(&self, p: usize, c: char) -> bool {
        self.at(p) == Some(c)
    }
    fn step(&mut self) -> bool {
        self.steps += 1;
        if self.steps > 400_000 {
            self.out = true;
        }
        !self.out
    }
    fn sol(&self, p: usize) -> bool {
        p == 0 || is_break(self.s[p - 1]) && !(p < self.s.len() && self.s[p - 1] == '\r' && self.s[p] == '\n') || (self.s[p - 1] == '\u{feff}' && self.sol(p - 1))
    }
    fn brk(&self, p: usize) -> Option<usize> {
        match self.at(p)? {
            '\r' if self.is(p + 1, '\n') => Some(p + 2),
            '\r' | '\n' => Some(p + 1),
            _ => None,
        }
    }
    fn spaces(&self, mut p: usize) -> usize {
        let s = p;
        while self.is(p, ' ') {
            p += 1;
        }
        p - s
    }
    fn whites(&self, mut p: usize) -> usize {
        while self.at(p).is_some_and(is_white) {
            p += 1;
        }
        p
    }
    /// `n` without the mark of a leniently read flow collection.
    fn plain_n(n: i32) -> i32 {
        if n >= LENIENT { n - LENIENT } else { n }
    }
    // [63] s-indent(n)
    fn indent(&self, p: usize, n: i32) -> Option<usize> {
        let n = Self::plain_n(n).max(0) as usize;
        if self.spaces(p) >= n { Some(p + n) } else { None }
    }
    // [66] s-separate-in-line
    fn sep_in_line(&self, p: usize) -> Option<usize> {
        let q = self.whites(p);
        if q > p || self.sol(p) { Some(q) } else { None }
    }
    // [69] s-flow-line-prefix(n)
    fn flow_prefix(&self, p: usize, n: i32) -> Option<usize> {
        self.indent(p, n).map(|q| self.whites(q))
    }
    // [70] l-empty(n,c)
    fn l_empty(&self, p: usize, n: i32, flow: bool) -> Option<usize> {
        let sp = self.spaces(p);
        let n = Self::plain_n(n).max(0) as usize;
        if sp >= n {
            let q = if flow { self.whites(p + n) } else { p + n };
            if let Some(b) = self.brk(q) {
                return Some(b);
            }
        }
        // s-indent-less-than(n)
        if sp < n {
            // leniency: the blank line may have tabs where it has too few spaces
            self.brk(if self.len && flow { self.whites(p + sp) } else { p + sp })
        } else {
            None
        }
    }
    // [74] s-flow-folded(n) -> folded text
    fn flow_folded(&self, p: usize, n: i32) -> R<String> {
        let q = self.whites(p);
        let mut q = self.brk(q)?;
        let mut k = 0;
        while let Some(e) = self.l_empty(q, n, true) {
            q = e;
            k += 1;
        }
        let q = self.flow_prefix(q, n)?;
        Some((q, if k == 0 { " ".into() } else { "\n".repeat(k) }))
    }
    // [75] c-nb-comment-text
    fn comment_text(&self, p: usize) -> Option<usize> {
        if !self.is(p, '#') {
            return None;
        }
        let mut q = p + 1;
        while self.at(q).is_some_and(is_nb) {
            q += 1;
        }
        Some(q)
    }
    // [76] b-comment
    fn b_comment(&self, p: usize) -> Option<usize> {
        if p >= self.end { Some(p) } else { self.brk(p) }
    }
    // [77] s-b-comment
    fn s_b_comment(&self, p: usize) -> Option<usize> {
        if let Some(q) = self.sep_in_line(p) {
            let q2 = self.comment_text(q).unwrap_or(q);
            if let Some(b) = self.b_comment(q2) {
                return Some(b);
            }
        }
        self.b_comment(p)
    }
    // [78] l-comment
    fn l_comment(&self, p: usize) -> Option<usize> {
        let q = self.sep_in_line(p)?;
        let q = self.comment_text(q).unwrap_or(q);
        let b = self.b_comment(q)?;
        if b > p { Some(b) } else { None }
    }
    fn l_comments(&self, mut p: usize) -> usize {
        while let Some(q) = self.l_comment(p) {
            p = q;
        }
        p
    }
    // [79] s-l-comments
    fn s_l_comments(&self, p: usize) -> Option<usize> {
        let q = match self.s_b_comment(p) {
            Some(q) => q,
            None if self.sol(p) => p,
            None => return None,
        };
        Some(self.l_comments(q))
    }
    /// Whether there is a plain scalar before `p` in the flow collection that is read leniently.
    fn after_plain(&self, p: usize) -> bool {
        self.lplain.borrow().get(&self.lstart.get()).is_some_and(|e| p >= *e)
    }
    // [80] s-separate(n,c)
    fn sep(&self, p: usize, n: i32, c: C) -> Option<usize> {
        match c {
            BK | FK => self.sep_in_line(p),
            _ => {
                if let Some(q) = self.s_l_comments(p)
                    && let Some(q) = self.flow_prefix(q, n)
                {
                    return Some(q);
                }
                // leniency: once there was a plain scalar, an indicator may stand one column further left
                if n > LENIENT
                    && self.after_plain(p)
                    && let Some(q) = self.s_l_comments(p)
                    && let Some(q) = self.flow_prefix(q, n - 1)
                {
                    return Some(q);
                }
                self.sep_in_line(p)
            }
        }
    }
    fn sep_opt(&self, p: usize, n: i32, c: C) -> usize {
        self.sep(p, n, c).unwrap_or(p)
    }

    // ---- properties
    fn uri_char(&self, p: usize) -> R<String> {
        let c = self.at(p)?;
        if c == '%' {
            let h = |i: usize| self.at(p + i).and_then(|c| c.to_digit(16));
            let (Some(_), Some(_)) = (h(1), h(2)) else { return None };
            return Some((p + 3, self.s[p..p + 3].iter().collect()));
        }
        if is_word(c) || "#;/?:@&=+$,_.!~*'()[]".contains(c) { Some((p + 1, c.to_string())) } else { None }
    }
    fn tag_char(&self, p: usize) -> R<String> {
        let c = self.at(p)?;
        if c == '!' || is_flow_ind(c) {
            return None;
        }
        self.uri_char(p)
    }
    fn tag_prop(&self, p: usize) -> R<RTag> {
        if !self.is(p, '!') {
            return None;
        }
        // verbatim
        if self.is(p + 1, '<') {
            let mut q = p + 2;
            let mut o = String::new();
            while let Some((r, x)) = self.uri_char(q) {
                o.push_str(&x);
                q = r;
            }
            if q > p + 2 && self.is(q, '>') {
                return Some((q + 1, RTag::Verbatim(o)));
            }
            return None;
        }
        // shorthand: named, secondary, primary
        let mut handles = vec![];
        let mut q = p + 1;
        while self.at(q).is_some_and(|c| is_word(c) || c == '_') {
            q += 1;
        }
        if q > p + 1 && self.is(q, '!') {
            handles.push(q + 1);
        }
        if self.is(p + 1, '!') {
            handles.push(p + 2);
        }
        handles.push(p + 1);
        for h in handles {
            let mut q = h;
            let mut o = String::new();
            while let Some((r, x)) = self.tag_char(q) {
                o.push_str(&x);
                q = r;
            }
            if q > h {
                return Some((q, RTag::Short(self.s[p..h].iter().collect(), o)));
            }
        }
        Some((p + 1, RTag::NonSpecific))
    }
    fn anchor_name(&self, p: usize) -> R<String> {
        let mut q = p;
        while self.at(q).is_some_and(|c| is_ns(c) && !is_flow_ind(c)) {
            q += 1;
        }
        if q > p { Some((q, self.s[p..q].iter().collect())) } else { None }
    }
    fn anchor_prop(&self, p: usize) -> R<String> {
        if self.is(p, '&') { self.anchor_name(p + 1) } else { None }
    }
    // [96] c-ns-properties(n,c)
    fn props(&self, p: usize, n: i32, c: C) -> R<Props> {
        if let Some((q, t)) = self.tag_prop(p) {
            if let Some(r) = self.sep(q, n, c)
                && let Some((r, a)) = self.anchor_prop(r)
            {
                return Some((r, Props { anchor: Some(a), tag: Some(t) }));
            }
            return Some((q, Props { anchor: None, tag: Some(t) }));
        }
        let (q, a) = self.anchor_prop(p)?;
        if let Some(r) = self.sep(q, n, c)
            && let Some((r, t)) = self.tag_prop(r)
        {
            return Some((r, Props { anchor: Some(a), tag: Some(t) }));
        }
        Some((q, Props { anchor: Some(a), tag: None }))
    }
    fn mk(k: K, start: usize, end: usize, flow: bool) -> N {
        Rc::new(Node { k, anchor: None, tag: None, start, end, flow })
    }
    fn with(n: &N, p: &Props) -> N {
        Rc::new(Node { k: n.k.clone(), anchor: p.anchor.clone(), tag: p.tag.clone(), start: n.start, end: n.end, flow: n.flow })
    }
    fn empty(p: usize) -> N {
        Self::mk(K::Empty, p, p, true)
    }

    // ---- flow scalars
    fn dq_char(&self, p: usize) -> R<char> {
        let c = self.at(p)?;
        if c == '\\' {
            let e = self.at(p + 1)?;
            let hex = |n: usize| -> R<char> {
                let mut v = 0u32;
                for i in 0..n {
                    v = v * 16 + self.at(p + 2 + i)?.to_digit(16)?;
                }
                Some((p + 2 + n, char::from_u32(v)?))
            };
            let r = match e {
                '0' => '\0',
                'a' => '\x07',
                'b' => '\x08',
                't' | '\t' => '\t',
                'n' => '\n',
                'v' => '\x0b',
                'f' => '\x0c',
                'r' => '\r',
                'e' => '\x1b',
                ' ' => ' ',
                '"' => '"',
                '/' => '/',
                '\\' => '\\',
                'N' => '\u{85}',
                '_' => '\u{a0}',
                'L' => '\u{2028}',
                'P' => '\u{2029}',
                'x' => return hex(2),
                'u' => return hex(4),
                'U' => return hex(8),
                _ => return None,
            };
            return Some((p + 2, r));
        }
        if c == '"' || !is_json(c) || is_break(c) { None } else { Some((p + 1, c)) }
    }
    fn sq_char(&self, p: usize) -> R<char> {
        let c = self.at(p)?;
        if c == '\'' {
            return if self.is(p + 1, '\'') { Some((p + 2, '\'')) } else { None };
        }
        if !is_json(c) || is_break(c) { None } else { Some((p + 1, c)) }
    }
    fn quoted(&self, p: usize, n: i32, c: C, dbl: bool) -> R<N> {
        let q0 = if dbl { '"' } else { '\'' };
        if !self.is(p, q0) {
            return None;
        }
        // leniency: once there was a plain scalar, its lines may stand one column further left
        let n = if n > LENIENT && self.after_plain(p) { n - 1 } else { n };
        let ch = |p: usize| if dbl { self.dq_char(p) } else { self.sq_char(p) };
        let mut q = p + 1;
        let mut o = String::new();
        let multi = matches!(c, FO | FI);
        let style = if dbl { St::Double } else { St::Single };
        if !multi {
            while let Some((r, x)) = ch(q) {
                o.push(x);
                q = r;
            }
            return if self.is(q, q0) { Some((q + 1, Self::mk(K::Scalar(style, o), p, q + 1, true))) } else { None };
        }
        loop {
            // nb-ns-*-in-line: (s-white* ns-char)*
            loop {
                let w = self.whites(q);
                match ch(w) {
                    Some((r, x)) if !is_white(self.s[w]) => {
                        o.extend(&self.s[q..w]);
                        o.push(x);
                        q = r;
                    }
                    _ => break,
                }
            }
            // s-*-next-line | s-white*
            let w = self.whites(q);
            if dbl && self.is(w, '\\') && self.brk(w + 1).is_some() {
                // [112] s-double-escaped(n)
                o.extend(&self.s[q..w]);
                let mut r = self.brk(w + 1)?;
                while let Some(e) = self.l_empty(r, n, true) {
                    o.push('\n');
                    r = e;
                }
                q = self.flow_prefix(r, n)?;
                continue;
            }
            if let Some((r, f)) = self.flow_folded(q, n) {
                o.push_str(&f);
                q = r;
                continue;
            }
            o.extend(&self.s[q..w]);
            q = w;
            break;
        }
        if self.is(q, q0) { Some((q + 1, Self::mk(K::Scalar(style, o), p, q + 1, true))) } else { None }
    }
    fn plain_safe(c: char, ctx: C) -> bool {
        is_ns(c) && !(matches!(ctx, FI | FK) && is_flow_ind(c))
    }
    fn plain_first(&self, p: usize, c: C) -> bool {
        match self.at(p) {
            Some(x) if is_ns(x) && !is_indicator(x) => true,
            Some('?' | ':' | '-') => self.at(p + 1).is_some_and(|y| Self::plain_safe(y, c)),
            _ => false,
        }
    }
    fn plain_char(&self, p: usize, c: C) -> bool {
        match self.at(p) {
            Some('#') => p > 0 && is_ns(self.s[p - 1]),
            Some(':') => self.at(p + 1).is_some_and(|y| Self::plain_safe(y, c)),
            Some(x) => Self::plain_safe(x, c),
            None => false,
        }
    }
    fn plain_in_line(&self, mut q: usize, c: C, o: &mut String) -> usize {
        loop {
            let w = self.whites(q);
            if !self.plain_char(w, c) {
                return q;
            }
            o.extend(&self.s[q..=w]);
            q = w + 1;
        }
    }
    // [131] ns-plain(n,c)
    fn plain(&self, p: usize, n: i32, c: C) -> R<N> {
        if !self.plain_first(p, c) {
            return None;
        }
        let mut o = String::new();
        o.push(self.s[p]);
        let mut q = self.plain_in_line(p + 1, c, &mut o);
        if matches!(c, FO | FI) {
            while let Some((r, f)) = self.flow_folded(q, if n >= LENIENT { 0 } else { n }) {
                if !self.plain_char(r, c) {
                    break;
                }
                o.push_str(&f);
                o.push(self.s[r]);
                q = self.plain_in_line(r + 1, c, &mut o);
            }
        }
        if self.len {
            let mut l = self.lplain.borrow_mut();
            let e = l.entry(self.lstart.get()).or_insert(q);
            *e = q.min(*e);
        }
        Some((q, Self::mk(K::Scalar(St::Plain, o), p, q, true)))
    }
    // ---- flow collections
    fn in_flow(c: C) -> C {
        match c {
            FO | FI => FI,
            _ => FK,
        }
    }
    fn flow_seq(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if !self.is(p, '[') || !self.step() {
            return None;
        }
        let ic = Self::in_flow(c);
        let mut q = self.sep_opt(p + 1, n, c);
        let mut items = vec![];
        loop {
            if self.is(q, ']') {
                return Some((q + 1, Self::mk(K::Seq(items), p, q + 1, true)));
            }
            let (r, x) = self.flow_seq_entry(q, n, ic)?;
            items.push(x);
            q = self.sep_opt(r, n, ic);
            if self.is(q, ',') {
                q = self.sep_opt(q + 1, n, ic);
            } else if !self.is(q, ']') {
                return None;
            }
        }
    }
    fn flow_seq_entry(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some((q, (k, v))) = self.flow_pair(p, n, c) {
            return Some((q, Self::mk(K::Map(vec![(k, v)]), p, q, true)));
        }
        self.flow_node(p, n, c)
    }
    fn flow_map(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if !self.is(p, '{') || !self.step() {
            return None;
        }
        let ic = Self::in_flow(c);
        let mut q = self.sep_opt(p + 1, n, c);
        let mut items = vec![];
        loop {
            if self.is(q, '}') {
                return Some((q + 1, Self::mk(K::Map(items), p, q + 1, true)));
            }
            let (r, x) = self.flow_map_entry(q, n, ic)?;
            items.push(x);
            q = self.sep_opt(r, n, ic);
            if self.is(q, ',') {
                q = self.sep_opt(q + 1, n, ic);
            } else if !self.is(q, '}') {
                return None;
            }
        }
    }
    fn flow_map_entry(&mut self, p: usize, n: i32, c: C) -> R<(N, N)> {
        if self.is(p, '?')
            && let Some(q) = self.sep(p + 1, n, c)
        {
            if let Some(x) = self.flow_implicit_entry(q, n, c) {
                return Some(x);
            }
            return Some((q, (Self::empty(q), Self::empty(q))));
        }
        self.flow_implicit_entry(p, n, c)
    }
    // [145] longest of the three alternatives (the grammar is ambiguous only on prefixes)
    fn flow_implicit_entry(&mut self, p: usize, n: i32, c: C) -> R<(N, N)> {
        let mut best: R<(N, N)> = None;
        let better = |best: &R<(N, N)>, q: usize| best.as_ref().is_none_or(|b| q > b.0);
        // yaml key
        if let Some((q, k)) = self.flow_yaml_node(p, n, c) {
            let q2 = self.sep_opt(q, n, c);
            let r = match self.separate_value(q2, n, c) {
                Some((r, v)) => (r, (k, v)),
                None => (q, (k, Self::empty(q))),
            };
            best = Some(r);
        }
        // empty key
        if let Some((q, v)) = self.separate_value(p, n, c)
            && better(&best, q)
        {
            best = Some((q, (Self::empty(p), v)));
        }
        // json key
        if let Some((q, k)) = self.flow_json_node(p, n, c) {
            let q2 = self.sep_opt(q, n, c);
            let r = match self.adjacent_value(q2, n, c) {
                Some((r, v)) => (r, (k, v)),
                None => (q, (k, Self::empty(q))),
            };
            if better(&best, r.0) {
                best = Some(r);
            }
        }
        best
    }
    // [147]
    fn separate_value(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if !self.is(p, ':') || self.at(p + 1).is_some_and(|x| Self::plain_safe(x, c)) {
            return None;
        }
        if let Some(q) = self.sep(p + 1, n, c)
            && let Some(x) = self.flow_node(q, n, c)
        {
            return Some(x);
        }
        Some((p + 1, Self::empty(p + 1)))
    }
    // [149]
    fn adjacent_value(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if !self.is(p, ':') {
            return None;
        }
        let q = self.sep_opt(p + 1, n, c);
        if let Some(x) = self.flow_node(q, n, c) {
            return Some(x);
        }
        Some((p + 1, Self::empty(p + 1)))
    }
    // [150] ns-flow-pair
    fn flow_pair(&mut self, p: usize, n: i32, c: C) -> R<(N, N)> {
        if self.is(p, '?')
            && let Some(q) = self.sep(p + 1, n, c)
        {
            if let Some(x) = self.flow_implicit_entry(q, n, c) {
                return Some(x);
            }
            return Some((q, (Self::empty(q), Self::empty(q))));
        }
        if let Some((q, k)) = self.implicit_yaml_key(p, FK)
            && let Some((r, v)) = self.separate_value(q, n, c)
        {
            return Some((r, (k, v)));
        }
        if let Some((q, v)) = self.separate_value(p, n, c) {
            return Some((q, (Self::empty(p), v)));
        }
        if let Some((q, k)) = self.implicit_json_key(p, FK)
            && let Some((r, v)) = self.adjacent_value(q, n, c)
        {
            return Some((r, (k, v)));
        }
        None
    }
    // [154]
    fn implicit_yaml_key(&mut self, p: usize, c: C) -> R<N> {
        let (q, k) = self.flow_yaml_node(p, 0, c)?;
        let r = self.sep_in_line(q).unwrap_or(q);
        if r - p > 1024 { None } else { Some((r, k)) }
    }
    // [155]
    fn implicit_json_key(&mut self, p: usize, c: C) -> R<N> {
        let (q, k) = self.flow_json_node(p, 0, c)?;
        let r = self.sep_in_line(q).unwrap_or(q);
        if r - p > 1024 { None } else { Some((r, k)) }
    }
    fn alias(&self, p: usize) -> R<N> {
        if !self.is(p, '*') {
            return None;
        }
        let (q, a) = self.anchor_name(p + 1)?;
        Some((q, Self::mk(K::Alias(a), p, q, true)))
    }
    fn json_content(&mut self, p: usize, n: i32, c: C) -> R<N> {
        match self.at(p)? {
            '[' => self.flow_seq(p, n, c),
            '{' => self.flow_map(p, n, c),
            '\'' => self.quoted(p, n, c, false),
            '"' => self.quoted(p, n, c, true),
            _ => None,
        }
    }
    fn flow_content(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some(x) = self.plain(p, n, c) {
            return Some(x);
        }
        self.json_content(p, n, c)
    }
    // [159]
    fn flow_yaml_node(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some(x) = self.alias(p) {
            return Some(x);
        }
        if let Some(x) = self.plain(p, n, c) {
            return Some(x);
        }
        let (q, pr) = self.props(p, n, c)?;
        if let Some(r) = self.sep(q, n, c)
            && let Some((r, x)) = self.plain(r, n, c)
        {
            return Some((r, Self::with(&x, &pr)));
        }
        Some((q, Self::with(&Self::empty(q), &pr)))
    }
    // [160]
    fn flow_json_node(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some(m) = self.memo.get(&(1, p, n, c)) {
            return match m {
                M::Fail => None,
                M::Ok(q, x) => Some((*q, x.clone())),
            };
        }
        let r = self.flow_json_node0(p, n, c);
        self.memo.insert(
            (1, p, n, c),
            match &r {
                None => M::Fail,
                Some((q, x)) => M::Ok(*q, x.clone()),
            },
        );
        r
    }
    fn flow_json_node0(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some((q, pr)) = self.props(p, n, c)
            && let Some(r) = self.sep(q, n, c)
        {
            let (r, x) = self.json_content(r, n, c)?;
            return Some((r, Self::with(&x, &pr)));
        }
        self.json_content(p, n, c)
    }
    // [161]
    fn flow_node(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some(m) = self.memo.get(&(2, p, n, c)) {
            return match m {
                M::Fail => None,
                M::Ok(q, x) => Some((*q, x.clone())),
            };
        }
        if !self.step() {
            return None;
        }
        let r = self.flow_node0(p, n, c);
        self.memo.insert(
            (2, p, n, c),
            match &r {
                None => M::Fail,
                Some((q, x)) => M::Ok(*q, x.clone()),
            },
        );
        r
    }
    fn flow_node0(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some(x) = self.alias(p) {
            return Some(x);
        }
        if let Some(x) = self.flow_content(p, n, c) {
            return Some(x);
        }
        let (q, pr) = self.props(p, n, c)?;
        if let Some(r) = self.sep(q, n, c)
            && let Some((r, x)) = self.flow_content(r, n, c)
        {
            return Some((r, Self::with(&x, &pr)));
        }
        Some((q, Self::with(&Self::empty(q), &pr)))
    }

    // ---- block scalars, by lines
    fn block_scalar(&self, p: usize, n: i32) -> R<N> {
        let fold = match self.at(p)? {
            '|' => false,
            '>' => true,
            _ => return None,
        };
        let mut q = p + 1;
        let (mut ind, mut chomp) = (None, ' ');
        for _ in 0..2 {
            match self.at(q) {
                Some(d @ '1'..='9') if ind.is_none() => {
                    ind = d.to_digit(10);
                    q += 1;
                }
                Some(x @ ('-' | '+')) if chomp == ' ' => {
                    chomp = x;
                    q += 1;
                }
                _ => break,
            }
        }
        let mut q = self.s_b_comment(q)?;
        if q == self.end && !self.sol(q) {
            let st = if fold { St::Folded } else { St::Literal };
            return Some((q, Self::mk(K::Scalar(st, String::new()), p, q, false)));
        }
        let body = q;
        // indentation of content
        let n = n.max(-1);
        let cn: usize = match ind {
            Some(m) => (n + m as i32).max(0) as usize,
            None => {
                let mut r = q;
                let mut longest = 0;
                loop {
                    let sp = self.spaces(r);
                    if let Some(b) = self.brk(r + sp) {
                        longest = longest.max(sp);
                        r = b;
                        continue;
                    }
                    if r + sp >= self.end {
                        longest = longest.max(sp);
                        break longest.max((n + 1) as usize);
                    }
                    // first non-empty line
                    if (sp as i32) < n + 1 {
                        // belongs to a parent: the scalar has no content
                        break longest.max((n + 1) as usize);
                    }
                    // A leading empty line must not be more indented.
                    if longest > sp {
                        return None;
                    }
                    break sp;
                }
            }
        };
        // collect lines
        #[derive(Debug)]
        enum L {
            Empty,
            Text(String),
        }
        let mut lines: Vec<L> = vec![];
        let mut ends: Vec<usize> = vec![];
        let mut last_has_break = false;
        while q < self.end {
            let sp = self.spaces(q);
            // a line of at most cn spaces is empty
            if sp <= cn
                && let Some(b) = self.brk(q + sp)
            {
                lines.push(L::Empty);
                q = b;
                ends.push(q);
                last_has_break = true;
                continue;
            }
            if sp < cn {
                break;
            }
            let mut r = q + cn;
            while self.at(r).is_some_and(is_nb) {
                r += 1;
            }
            if r == q + cn {
                break;
            }
            let t: String = self.s[q + cn..r].iter().collect();
            match self.brk(r) {
                Some(b) => {
                    lines.push(L::Text(t));
                    q = b;
                    ends.push(q);
                    last_has_break = true;
                }
                None if r >= self.end => {
                    lines.push(L::Text(t));
                    q = r;
                    ends.push(q);
                    last_has_break = false;
                }
                None => return None,
            }
        }
        let content = lines.iter().rposition(|l| matches!(l, L::Text(_))).map_or(0, |x| x + 1);
        let trailing = lines.len() - content;
        let mut o = String::new();
        if fold {
            let mut prev: Option<bool> = None; // was the previous text line "spaced"?
            let mut empties = 0usize;
            for l in &lines[..content] {
                match l {
                    L::Empty => empties += 1,
                    L::Text(t) => {
                        let spaced = t.starts_with([' ', '\t']);
                        match prev {
                            None => o.push_str(&"\n".repeat(empties)),
                            Some(ps) => {
                                if ps || spaced {
                                    o.push_str(&"\n".repeat(empties + 1));
                                } else if empties == 0 {
                                    o.push(' ');
                                } else {
                                    o.push_str(&"\n".repeat(empties));
                                }
                            }
                        }
                        o.push_str(t);
                        prev = Some(spaced);
                        empties = 0;
                    }
                }
            }
        } else {
            for (i, l) in lines[..content].iter().enumerate() {
                if let L::Text(t) = l {
                    o.push_str(t);
                }
                if i + 1 < content {
                    o.push('\n');
                }
            }
        }
        match chomp {
            '-' => {}
            '+' => {
                let n = trailing + usize::from(content > 0 && (trailing > 0 || last_has_break));
                o.push_str(&"\n".repeat(n));
            }
            _ => {
                if content > 0 && (trailing > 0 || last_has_break) {
                    o.push('\n');
                }
            }
        }
        // l-trail-comments(n)
        let sp = self.spaces(q);
        if sp < cn
            && self.sol(q)
            && let Some(r) = self.comment_text(q + sp)
            && let Some(r) = self.b_comment(r)
        {
            q = self.l_comments(r);
        } else if self.len && self.sol(q) {
            // leniency: blank lines with tabs and too few spaces may follow
            q = self.l_comments(q);
        }
        let _ = body;
        let end = q;
        let st = if fold { St::Folded } else { St::Literal };
        Some((q, Self::mk(K::Scalar(st, o), p, end, false)))
    }

    // ---- block collections
    fn block_seq(&mut self, p: usize, n: i32) -> R<N> {
        let sp = self.spaces(p) as i32;
        if !self.sol(p) || sp < n + 1 {
            return None;
        }
        let start = p + sp as usize;
        self.seq_entries(start, sp)
    }
    /// entries at indentation n, first one at p
    fn seq_entries(&mut self, p: usize, n: i32) -> R<N> {
        let mut items = vec![];
        let (mut q, x) = self.seq_entry(p, n)?;
        items.push(x);
        while self.sol(q)
            && self.spaces(q) as i32 >= n
            && let Some(r) = self.indent(q, n)
            && let Some((r, x)) = self.seq_entry(r, n)
        {
            items.push(x);
            q = r;
        }
        Some((q, Self::mk(K::Seq(items), p, q, false)))
    }
    fn seq_entry(&mut self, p: usize, n: i32) -> R<N> {
        if !self.is(p, '-') || self.at(p + 1).is_some_and(is_ns) {
            return None;
        }
        self.block_indented(p + 1, n, BI)
    }
    // [185]
    fn block_indented(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some(m) = self.memo.get(&(3, p, n, c)) {
            return match m {
                M::Fail => None,
                M::Ok(q, x) => Some((*q, x.clone())),
            };
        }
        if !self.step() {
            return None;
        }
        let r = self.block_indented0(p, n, c);
        self.memo.insert(
            (3, p, n, c),
            match &r {
                None => M::Fail,
                Some((q, x)) => M::Ok(*q, x.clone()),
            },
        );
        r
    }
    fn block_indented0(&mut self, p: usize, n: i32, c: C) -> R<N> {
        let m = self.spaces(p);
        if m > 0 {
            let q = p + m;
            let nn = n + 1 + m as i32;
            if let Some(x) = self.seq_entries(q, nn) {
                return Some(x);
            }
            if let Some(x) = self.map_entries(q, nn) {
                return Some(x);
            }
        }
        if let Some(x) = self.block_node(p, n, c) {
            return Some(x);
        }
        let q = self.s_l_comments(p)?;
        Some((q, Self::empty(p)))
    }
    fn block_map(&mut self, p: usize, n: i32) -> R<N> {
        let sp = self.spaces(p) as i32;
        if !self.sol(p) || sp < n + 1 {
            return None;
        }
        self.map_entries(p + sp as usize, sp)
    }
    fn map_entries(&mut self, p: usize, n: i32) -> R<N> {
        let mut items = vec![];
        let (mut q, x) = self.map_entry(p, n)?;
        items.push(x);
        while self.sol(q)
            && let Some(r) = self.indent(q, n)
            && let Some((r, x)) = self.map_entry(r, n)
        {
            items.push(x);
            q = r;
        }
        Some((q, Self::mk(K::Map(items), p, q, false)))
    }
    fn map_entry(&mut self, p: usize, n: i32) -> R<(N, N)> {
        if !self.step() {
            return None;
        }
        // explicit
        if self.is(p, '?') && !self.at(p + 1).is_some_and(is_ns) {
            if let Some((q, k)) = self.block_indented(p + 1, n, BO) {
                if self.sol(q)
                    && let Some(r) = self.indent(q, n)
                    && self.is(r, ':')
                    && !self.at(r + 1).is_some_and(is_ns)
                    && let Some((r, v)) = self.block_indented(r + 1, n, BO)
                {
                    return Some((r, (k, v)));
                }
                return Some((q, (k, Self::empty(q))));
            }
        }
        // implicit
        let mut keys: Vec<(usize, N)> = vec![];
        if let Some(k) = self.implicit_json_key(p, BK) {
            keys.push(k);
        }
        if let Some(k) = self.implicit_yaml_key(p, BK) {
            keys.push(k);
        }
        keys.push((p, Self::empty(p)));
        for (q, k) in keys {
            if self.len
                && q == p
                && self.is(p, ':')
                && !self.at(p + 1).is_some_and(is_ns)
                && let Some((r, v)) = self.block_indented(p + 1, n, BO)
            {
                return Some((r, (k, v)));
            }
            if let Some((r, v)) = self.implicit_value(q, n) {
                return Some((r, (k, v)));
            }
        }
        None
    }
    // [194]
    fn implicit_value(&mut self, p: usize, n: i32) -> R<N> {
        if !self.is(p, ':') {
            return None;
        }
        if let Some(x) = self.block_node(p + 1, n, BO) {
            return Some(x);
        }
        let q = self.s_l_comments(p + 1)?;
        Some((q, Self::empty(p + 1)))
    }
    // [196]
    fn block_node(&mut self, p: usize, n: i32, c: C) -> R<N> {
        if let Some(m) = self.memo.get(&(4, p, n, c)) {
            return match m {
                M::Fail => None,
                M::Ok(q, x) => Some((*q, x.clone())),
            };
        }
        if !self.step() {
            return None;
        }
        let r = self.block_node0(p, n, c);
        self.memo.insert(
            (4, p, n, c),
            match &r {
                None => M::Fail,
                Some((q, x)) => M::Ok(*q, x.clone()),
            },
        );
        r
    }
    fn block_node0(&mut self, p: usize, n: i32, c: C) -> R<N> {
        // [199] block scalar
        if let Some(q) = self.sep(p, n + 1, c) {
            if let Some((r, pr)) = self.props(q, n + 1, c)
                && let Some(r) = self.sep(r, n + 1, c)
                && let Some((r, x)) = self.block_scalar(r, n)
            {
                return Some((r, Self::with(&x, &pr)));
            }
            if let Some(x) = self.block_scalar(q, n) {
                return Some(x);
            }
        }
        // [200] block collection
        if let Some(q) = self.sep(p, n + 1, c) {
            let mut alts: Vec<(usize, Props)> = vec![];
            if let Some(x) = self.props(q, n + 1, c) {
                alts.push(x);
            }
            if let Some((r, t)) = self.tag_prop(q) {
                alts.push((r, Props { anchor: None, tag: Some(t) }));
            }
            if let Some((r, a)) = self.anchor_prop(q) {
                alts.push((r, Props { anchor: Some(a), tag: None }));
            }
            for (r, pr) in alts {
                if let Some(r) = self.s_l_comments(r)
                    && let Some((r, x)) = self.block_coll(r, n, c)
                {
                    return Some((r, Self::with(&x, &pr)));
                }
            }
        }
        if let Some(q) = self.s_l_comments(p)
            && let Some(x) = self.block_coll(q, n, c)
        {
            return Some(x);
        }
        // [197] flow in block
        let q = self.sep(p, n + 1, FO)?;
        let strict = self.flow_node(q, n + 1, FO).and_then(|(r, x)| Some((self.s_l_comments(r)?, x)));
        if !self.len || strict.as_ref().is_some_and(|x| !matches!(x.1.k, K::Empty)) {
            return strict;
        }
        let outer = self.lstart.replace(q);
        let json = match self.flow_json_node(q, n + 1 + LENIENT, FO) {
            Some((r, x)) if !matches!(x.k, K::Scalar(..)) => Some((r, x)),
            _ => self.flow_json_node(q, n, FO),
        };
        self.lstart.set(outer);
        let loose = json.and_then(|(r, x)| Some((self.s_l_comments(r)?, x)));
        loose.or(strict)
    }
    fn block_coll(&mut self, p: usize, n: i32, c: C) -> R<N> {
        let sn = if c == BO { n - 1 } else { n };
        if let Some(x) = self.block_seq(p, sn) {
            return Some(x);
        }
        self.block_map(p, n)
    }

    // ---- documents
    fn marker_at(&self, p: usize) -> Option<char> {
        if p + 3 <= self.s.len() && self.sol(p) {
            let c = self.s[p];
            if (c == '-' || c == '.') && self.s[p + 1] == c && self.s[p + 2] == c && self.s.get(p + 3).is_none_or(|x| is_white(*x) || is_break(*x)) {
                return Some(c);
            }
        }
        None
    }
    fn next_marker(&self, from: usize) -> usize {
        (from..self.s.len()).find(|p| self.marker_at(*p).is_some()).unwrap_or(self.s.len())
    }

    fn prefix(&self, mut p: usize) -> usize {
        loop {
            let mut q = p;
            if self.is(q, '\u{feff}') {
                q += 1;
            }
            q = self.l_comments(q);
            if q == p {
                return p;
            }
            p = q;
        }
    }

    fn stream(&mut self) -> Result<Vec<RDoc>, String> {
        let full = self.s.len();
        let mut docs = vec![];
        self.end = full;
        let mut p = self.prefix(0);
        // true when a new bare/directive document may start
        let mut fresh = true;
        loop {
            self.end = full;
            if fresh {
                p = self.prefix(p);
            } else {
                // between documents: comments or BOM
                p = self.prefix(p);
            }
            if p >= full {
                return Ok(docs);
            }
            if self.marker_at(p) == Some('.') {
                p = self.s_l_comments(p + 3).ok_or_else(|| format!("junk after document end marker at {p}"))?;
                fresh = true;
                continue;
            }
            let mut tags = BTreeMap::new();
            let mut explicit = false;
            if self.is(p, '%') && fresh {
                let mut yaml = 0;
                while self.is(p, '%') {
                    p = self.directive(p, &mut tags, &mut yaml)?;
                }
                if self.marker_at(p) != Some('-') {
                    return Err(format!("directives without document at {p}"));
                }
            }
            if self.marker_at(p) == Some('-') {
                explicit = true;
                p += 3;
            } else if !fresh {
                return Err(format!("content after document at {p}"));
            }
            // bare document
            self.end = self.next_marker(if explicit { p } else { p.max(0) });
            self.memo.clear();
            let r = self.block_node(p, -1, BI);
            if self.out {
                return Err("budget".into());
            }
            match r {
                Some((q, root)) => {
                    docs.push(RDoc { explicit, root, tags });
                    p = q;
                }
                None if explicit => {
                    let q = self.s_l_comments(p).ok_or_else(|| format!("junk in document at {p}"))?;
                    docs.push(RDoc { explicit, root: Self::empty(p), tags });
                    p = q;
                }
                None => return Err(format!("no document at {p}")),
            }
            if p < self.end {
                // trailing comments were consumed by the node: anything else is junk
                let q = self.prefix(p);
                if q < self.end {
                    return Err(format!("trailing content at {q}"));
                }
                p = q;
            }
            fresh = false;
        }
    }

    fn directive(&self, p: usize, tags: &mut BTreeMap<String, String>, yaml: &mut u32) -> Result<usize, String> {
        let bad = || format!("bad directive at {p}");
        let mut q = p + 1;
        while self.at(q).is_some_and(is_ns) {
            q += 1;
        }
        let name: String = self.s[p + 1..q].iter().collect();
        if name.is_empty() {
            return Err(bad());
        }
        let word = |q: usize| -> Option<(usize, String)> {
            let a = self.whites(q);
            if a == q {
                return None;
            }
            let mut b = a;
            while self.at(b).is_some_and(is_ns) {
                b += 1;
            }
            if b > a && !self.is(a, '#') { Some((b, self.s[a..b].iter().collect())) } else { None }
        };
        match name.as_str() {
            "YAML" => {
                let (r, v) = word(q).ok_or_else(bad)?;
                let (a, b) = v.split_once('.').ok_or_else(bad)?;
                let num = |x: &str| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit());
                if !num(a) || !num(b) {
                    return Err(bad());
                }
                *yaml += 1;
                if *yaml > 1 {
                    return Err("duplicate %YAML".into());
                }
                q = r;
            }
            "TAG" => {
                let (r, h) = word(q).ok_or_else(bad)?;
                let hv: Vec<char> = h.chars().collect();
                let ok = h == "!" || h == "!!" || (hv.len() > 2 && hv[0] == '!' && hv[hv.len() - 1] == '!' && hv[1..hv.len() - 1].iter().all(|c| is_word(*c) || *c == '_'));
                if !ok {
                    return Err(bad());
                }
                // prefix
                let a = self.whites(r);
                let mut b = a;
                let mut o = String::new();
                if self.is(b, '!') {
                    o.push('!');
                    b += 1;
                } else {
                    let (x, t) = self.tag_char(b).ok_or_else(bad)?;
                    b = x;
                    o.push_str(&t);
                }
                while let Some((x, t)) = self.uri_char(b) {
                    o.push_str(&t);
                    b = x;
                }
                if a == r || pct(&o).is_none() {
                    return Err(bad());
                }
                if tags.insert(h, o).is_some() {
                    return Err("duplicate %TAG".into());
                }
                q = b;
            }
            _ => {
                while let Some((r, _)) = word(q) {
                    q = r;
                }
            }
        }
        self.s_l_comments(q).ok_or_else(bad)
    }
}

fn pct(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: u8| (c as char).to_digit(16);
            o.push((h(*b.get(i + 1)?)? * 16 + h(*b.get(i + 2)?)?) as u8);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}

/// How this library presents a resolved tag: (prefix, suffix).
fn resolve(t: &RTag, tags: &BTreeMap<String, String>) -> Result<(String, String), String> {
    let d = |s: &str| pct(s).ok_or_else(|| "bad % escape".to_string());
    match t {
        RTag::Verbatim(u) => Ok((String::new(), d(u)?)),
        RTag::NonSpecific => Ok((String::new(), "!".into())),
        RTag::Short(h, s) => {
            let pre = match tags.get(h) {
                Some(p) => d(p)?,
                None => match h.as_str() {
                    "!!" => "tag:yaml.org,2002:".to_string(),
                    "!" => "!".to_string(),
                    _ => return Err(format!("undeclared handle {h}")),
                },
            };
            Ok((pre, d(s)?))
        }
    }
}

struct Emit<'a> {
    out: Vec<(E, usize, usize)>,
    ids: HashMap<String, usize>,
    next: usize,
    tags: &'a BTreeMap<String, String>,
}
impl Emit<'_> {
    fn node(&mut self, n: &Node) -> Result<(), String> {
        const NA: usize = usize::MAX;
        let tag: T = match &n.tag {
            None => None,
            Some(t) => Some(resolve(t, self.tags)?),
        };
        let a = match &n.anchor {
            None => 0,
            Some(x) => {
                let id = self.next;
                self.next += 1;
                self.ids.insert(x.clone(), id);
                id
            }
        };
        match &n.k {
            K::Scalar(st, v) => self.out.push((E::Scalar { v: v.clone(), st: *st, a, tag }, n.start, n.end)),
            K::Empty => self.out.push((E::Scalar { v: String::new(), st: St::Plain, a, tag }, NA, NA)),
            K::Alias(x) => match self.ids.get(x) {
                Some(id) => self.out.push((E::Alias(*id), n.start, n.end)),
                None => return Err(format!("unknown alias {x}")),
            },
            K::Seq(v) => {
                self.out.push((E::SeqStart(a, tag), if n.flow { n.start } else { NA }, NA));
                for x in v {
                    self.node(x)?;
                }
                self.out.push((E::SeqEnd, NA, if n.flow { n.end } else { NA }));
            }
            K::Map(v) => {
                self.out.push((E::MapStart(a, tag), if n.flow { n.start } else { NA }, NA));
                for (k, x) in v {
                    self.node(k)?;
                    self.node(x)?;
                }
                self.out.push((E::MapEnd, NA, if n.flow { n.end } else { NA }));
            }
        }
        Ok(())
    }
}

/// Judge a whole stream. Anchor ids are numbered per stream from 1; anchors are per document.
pub fn judge(input: &str) -> Verdict {
    judge0(input, false)
}
/// Like `judge`, but also accepts three things the specification does not and the
/// implementation accepts on purpose (as libyaml does): in a flow collection, the further lines of a
/// plain scalar with any indentation and everything after one at the indentation of the parent node, those of a quoted scalar at the indentation of the parent node; blank lines with tabs where indentation is expected; and a nested block collection on the line of a ':' that has no key.
pub fn judge_lenient(input: &str) -> Verdict {
    judge0(input, true)
}
fn judge0(input: &str, len: bool) -> Verdict {
    let mut s: Vec<char> = input.chars().collect();
    // Convention of the test suite: the end of the input ends the last line.
    if s.last().is_some_and(|c| !is_break(*c)) {
        s.push('\n');
    }
    let end = s.len();
    let mut p = P { s, end, memo: HashMap::new(), steps: 0, out: false, len, lstart: Cell::new(usize::MAX), lplain: RefCell::default() };
    let docs = match p.stream() {
        Ok(d) => d,
        Err(_) if p.out => return Verdict::Unknown,
        Err(e) => return Verdict::Invalid(e),
    };
    let na = usize::MAX;
    let mut out = vec![(E::StreamStart, na, na)];
    let mut next = 1;
    for d in &docs {
        out.push((E::DocStart(d.explicit), na, na));
        let mut e = Emit { out: vec![], ids: HashMap::new(), next, tags: &d.tags };
        if let Err(x) = e.node(&d.root) {
            return Verdict::Invalid(x);
        }
        next = e.next;
        out.append(&mut e.out);
        out.push((E::DocEnd, na, na));
    }
    out.push((E::StreamEnd, na, na));
    Verdict::Valid(out)
}
