//! Uses of laps without its derive macros, never called. If this compiles and
//! a harness with derived code does not, the macros are to blame, see `check`.

use laps::ast::*;
use laps::input::InputStream;
use laps::lexer::{Lexer, Tokenize};
use laps::parse::Parse;
use laps::reader::Reader;
use laps::span::{Result, Span, Spanned, TrySpan};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::io::Read;

struct Leaf(Token<char>);

impl<TS: TokenStream<Token = Token<char>>> Parse<TS> for Leaf {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.expect('a').map(Leaf)
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(tokens.peek()?.kind == 'a')
  }
}

impl Spanned for Leaf {
  fn span(&self) -> Span {
    self.0.span()
  }
}

struct Kind;

impl Tokenize for Kind {
  type CharType = char;
  fn next_token<I>(input: &mut I) -> Result<Token<Self>>
  where
    I: InputStream<CharType = char>,
  {
    let (_, span) = input.next_char_span()?;
    Ok(Token::new(Kind, span))
  }
}

fn lex(r: Reader<impl Read>) -> Result<()> {
  let mut lexer: Lexer<_, Kind> = Kind::lexer(r);
  lexer.next_token()?;
  lexer.input_mut().peek()?;
  let _ = lexer.input().span();
  let mut tokens: TokenBuffer<_, Token<Kind>> = TokenBuffer::new(lexer);
  tokens.next_token()?;
  let _ = tokens.inner().input().span();
  let _ = tokens.into_inner().into_input();
  Ok(())
}

type All = (
  NonEmptySeq<Leaf>,
  SepSeq<Leaf, Leaf>,
  NonEmptySepSeq<Leaf, Leaf>,
  OptSepSeq<Leaf, Leaf>,
  NonEmptyOptSepSeq<Leaf, Leaf>,
  NonEmptySepList<Leaf, Leaf>,
  SepList<Leaf, Leaf>,
  NonEmptyOptSepList<Leaf, Leaf>,
  Quoted<Leaf, Box<Leaf>, Leaf>,
  OptPrefix<Leaf, Leaf>,
  OptTokenPrefix<Leaf, Leaf>,
  TokenPrefix<Leaf, Leaf>,
  (Option<Leaf>, Vec<Leaf>),
);

fn parse<T: Tokenizer<Token = Token<char>>>(tokenizer: T) -> Result<bool> {
  let mut tokens = TokenBuffer::new(tokenizer);
  let all: All = tokens.parse()?;
  let _ = (all.0.span(), all.1.try_span(), all.2.span(), all.3.try_span(), all.4.span(), all.5.span());
  let _ = (all.6.try_span(), all.7.span(), all.8.span(), all.9.span(), all.10.span(), all.11.span());
  let _ = (all.0.into_iter().count(), (&all.1).into_iter().count());
  tokens.peek2()?;
  tokens.peek_n(3)?;
  tokens.skip_until(|t| t.kind == 'a')?;
  tokens.collect_until(|t| t.kind == 'a')?;
  let t = tokens.lookahead().peek_next()?;
  tokens.unread(t);
  All::maybe(&mut tokens)
}
