//! The language of the sources.

use laps::prelude::*;

#[token_kind]
#[derive(Debug, Tokenize)]
pub enum K {
  #[skip(r"\s")]
  _Blank,
  #[skip(r"#[^\n]*\n")]
  _Comment,
  #[regex(r"[abqzé你😂]+")]
  Word(String),
  #[regex(r"[0-9]+")]
  Num(u64),
  #[regex(r";")]
  Semi,
  #[regex(r"\+")]
  Plus,
  #[regex(r"\$\$")]
  Dollars,
  #[eof]
  End,
}

token_ast! {
  #[derive(Debug, PartialEq)]
  pub(crate) macro crate::kinds::Tok<K> {
    [word] => { kind: K::Word(_), prompt: "word" },
    [num] => { kind: K::Num(_), prompt: "number" },
    [;] => { kind: K::Semi },
  }
}
