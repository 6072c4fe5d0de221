//! A minimal language: kinds are plain numbers.
#![allow(dead_code)]
use oak_core::language::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct T(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct K(pub u32);
impl From<T> for K { fn from(t: T) -> K { K(t.0) } }
pub const EOF: T = T(0);
pub const WS: T = T(1);
pub const COMMENT: T = T(2);
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = EOF;
    fn role(&self) -> UniversalTokenRole {
        match self.0 { 0 => UniversalTokenRole::Eof, 1 => UniversalTokenRole::Whitespace, 2 => UniversalTokenRole::Comment, _ => UniversalTokenRole::Name }
    }
}
impl ElementType for K {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole { if self.0 == 1000 { UniversalElementRole::Root } else { UniversalElementRole::Container } }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Mini;
impl Language for Mini {
    const NAME: &'static str = "mini";
    type TokenType = T;
    type ElementType = K;
    type TypedRoot = ();
}
