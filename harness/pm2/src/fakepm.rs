//! Stand-in for the compiler's `proc_macro`: diagnostics are counted, spans carry nothing.
use std::string::String;
use std::vec::Vec;
use core::sync::atomic::{AtomicUsize, Ordering};
pub static ERRORS: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Copy)]
pub struct Span;
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Level { Error, Warning, Note, Help }
pub trait MultiSpan {}
impl MultiSpan for Span {}
impl MultiSpan for Vec<Span> {}
impl<'a> MultiSpan for &'a [Span] {}
pub struct Diagnostic { level: Level }
impl Diagnostic {
    pub fn new<T: Into<String>>(level: Level, message: T) -> Self { let _ = message; Diagnostic { level } }
    pub fn spanned<S: MultiSpan, T: Into<String>>(spans: S, level: Level, message: T) -> Self { let _ = (spans, message); Diagnostic { level } }
    pub fn level(&self) -> Level { self.level }
    pub fn set_level(&mut self, l: Level) { self.level = l }
    pub fn emit(self) { if self.level == Level::Error { ERRORS.fetch_add(1, Ordering::Relaxed); } }
    pub fn span_error<S: MultiSpan, T: Into<String>>(self, _: S, _: T) -> Self { self }
    pub fn span_warning<S: MultiSpan, T: Into<String>>(self, _: S, _: T) -> Self { self }
    pub fn span_note<S: MultiSpan, T: Into<String>>(self, _: S, _: T) -> Self { self }
    pub fn span_help<S: MultiSpan, T: Into<String>>(self, _: S, _: T) -> Self { self }
    pub fn error<T: Into<String>>(self, _: T) -> Self { self }
    pub fn warning<T: Into<String>>(self, _: T) -> Self { self }
    pub fn note<T: Into<String>>(self, _: T) -> Self { self }
    pub fn help<T: Into<String>>(self, _: T) -> Self { self }
}
impl Span {
    pub fn call_site() -> Span { Span }
    pub fn mixed_site() -> Span { Span }
    pub fn def_site() -> Span { Span }
    pub fn error<T: Into<String>>(self, m: T) -> Diagnostic { Diagnostic::new(Level::Error, m) }
    pub fn warning<T: Into<String>>(self, m: T) -> Diagnostic { Diagnostic::new(Level::Warning, m) }
    pub fn note<T: Into<String>>(self, m: T) -> Diagnostic { Diagnostic::new(Level::Note, m) }
    pub fn help<T: Into<String>>(self, m: T) -> Diagnostic { Diagnostic::new(Level::Help, m) }
    pub fn join(&self, _: Span) -> Option<Span> { Some(Span) }
}
pub struct TokenStream(pub crate::TokenStream);
impl From<TokenStream> for crate::TokenStream { fn from(t: TokenStream) -> Self { t.0 } }
impl From<crate::TokenStream> for TokenStream { fn from(t: crate::TokenStream) -> Self { TokenStream(t) } }
