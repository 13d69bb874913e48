//! Independent `Source` implementations used as instruments.
use std::cell::Cell;
use std::rc::Rc;
use yam_core::parsing::{Source, StrSource};
use yam_core::verif_hooks::SkipTabs;

/// Payload message of the panic raised when the step budget is exhausted.
pub const STEP_PANIC: &str = "yv: source step budget exhausted";

/// Forwards everything to `StrSource`, counting calls.
pub struct StepSource<'a> {
    inner: StrSource<'a>,
    steps: Rc<Cell<u64>>,
    budget: u64,
}
impl<'a> StepSource<'a> {
    pub fn new(s: &'a str, steps: Rc<Cell<u64>>, budget: u64) -> Self {
        StepSource { inner: StrSource::new(s), steps, budget }
    }
    fn tick(&self) {
        let n = self.steps.get() + 1;
        self.steps.set(n);
        if n > self.budget {
            crate::rt::hit_step_limit();
            panic!("{STEP_PANIC}");
        }
    }
}
unsafe impl Source for StepSource<'_> {
    fn peekz(&self, n: usize) -> u8 {
        self.tick();
        self.inner.peekz(n)
    }
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        self.tick();
        unsafe { self.inner.peek_unsafe(n) }
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.tick();
        self.inner.peek_checked(n)
    }
    fn peek_char(&self) -> char {
        self.tick();
        self.inner.peek_char()
    }
    fn buf_max_len(&self) -> usize {
        self.inner.buf_max_len()
    }
    fn buf_is_empty(&self) -> bool {
        self.tick();
        self.inner.buf_is_empty()
    }
    fn fetch_while_is_alpha(&mut self, out: &mut Vec<u8>) -> usize {
        self.tick();
        self.inner.fetch_while_is_alpha(out)
    }
    fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
        self.tick();
        self.inner.push_non_breakz_chr(vec);
    }
    fn skip(&mut self, n: usize) {
        self.tick();
        self.inner.skip(n);
    }
    fn skip_while_blank(&mut self) -> usize {
        self.tick();
        self.inner.skip_while_blank()
    }
    fn skip_ws_to_eol(&mut self, t: bool, p: bool) -> (u32, Result<SkipTabs, &'static str>) {
        self.tick();
        self.inner.skip_ws_to_eol(t, p)
    }
    fn skip_while_non_breakz(&mut self) -> usize {
        self.tick();
        self.inner.skip_while_non_breakz()
    }
    fn skip_and_accumulate_to_eol(&mut self, acc: &mut Vec<u8>) {
        self.tick();
        self.inner.skip_and_accumulate_to_eol(acc);
    }
    fn next_next_byte_is(&self, c: u8) -> bool {
        self.tick();
        self.inner.next_next_byte_is(c)
    }
    fn next_is_three(&self, c: u8) -> bool {
        self.tick();
        self.inner.next_is_three(c)
    }
    fn next_can_be_plain_scalar(&self, f: bool) -> bool {
        self.tick();
        self.inner.next_can_be_plain_scalar(f)
    }
    fn next_is_document_indicator(&self) -> bool {
        self.tick();
        self.inner.next_is_document_indicator()
    }
}

/// A from-scratch source over the bytes: only the required methods, every
/// provided method of the trait is the default one. All accesses are checked.
pub struct MiniSource<'a> {
    b: &'a [u8],
    s: &'a str,
    pos: usize,
}
impl<'a> MiniSource<'a> {
    pub fn new(s: &'a str) -> Self {
        MiniSource { b: s.as_bytes(), s, pos: 0 }
    }
}
unsafe impl Source for MiniSource<'_> {
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        // The contract says the caller has established that n is in bounds.
        match self.b.get(self.pos + n) {
            Some(b) => *b,
            None => panic!("Source contract: peek_unsafe({n}) past the end of the input"),
        }
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.b.get(self.pos + n).copied()
    }
    fn peek_char(&self) -> char {
        if self.pos >= self.b.len() || !self.s.is_char_boundary(self.pos) {
            return '\u{FFFD}';
        }
        self.s[self.pos..].chars().next().unwrap()
    }
    fn buf_is_empty(&self) -> bool {
        self.pos >= self.b.len()
    }
    fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
        // As in StrSource: up to the next line break.
        while let Some(&c) = self.b.get(self.pos) {
            if c == b'\n' || c == b'\r' {
                break;
            }
            vec.push(c);
            self.pos += 1;
        }
    }
    fn skip(&mut self, n: usize) {
        self.pos += n;
    }
    fn skip_ws_to_eol(&mut self, skip_tabs: bool, prev_ws: bool) -> (u32, Result<SkipTabs, &'static str>) {
        let start = self.pos;
        let (mut tabs, mut ws) = (false, prev_ws);
        loop {
            match self.b.get(self.pos) {
                Some(b' ') => {
                    ws = true;
                    self.pos += 1;
                }
                Some(b'\t') if skip_tabs => {
                    tabs = true;
                    self.pos += 1;
                }
                Some(b'#') if !tabs && !ws => {
                    return (
                        (self.pos - start) as u32,
                        Err("comments must be separated from other tokens by whitespace"),
                    );
                }
                Some(b'#') if cfg!(not(feature = "comment")) => {
                    while let Some(c) = self.b.get(self.pos) {
                        if matches!(c, b'\n' | b'\r' | 0) {
                            break;
                        }
                        self.pos += 1;
                    }
                }
                _ => break,
            }
        }
        ((self.pos - start) as u32, Ok(SkipTabs::Result { any_tabs: tabs, has_yaml_ws: ws }))
    }
}
