//! The language: tokens and constructs, all derived.

use laps::ast::*;
use laps::lexer::{char_literal, int_literal, str_literal};
use laps::prelude::*;
use laps::span::TrySpan;
use laps::token::Token;
use std::fmt;
use std::str::FromStr;

macro_rules! words {
  ($name:ident, $($id:ident $text:literal)*) => {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum $name {
      $($id,)*
    }

    impl FromStr for $name {
      type Err = ();
      fn from_str(s: &str) -> Result<Self, ()> {
        match s {
          $($text => Ok(Self::$id),)*
          _ => Err(()),
        }
      }
    }

    impl fmt::Display for $name {
      fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self {
          $(Self::$id => $text,)*
        })
      }
    }
  };
}

words! {
  Keyword,
  Fn "fn" Let "let" Mut "mut" If "if" Else "else" While "while" Return "return" True "true" False "false"
}

words! {
  Op,
  Add "+" Sub "-" Mul "*" Div "/" Mod "%" Lt "<" Gt ">" Le "<=" Ge ">=" Eq "==" Ne "!=" And "&&" Or "||" Not "!" Assign "="
}

/// The text of a string literal.
#[derive(Clone, Debug, PartialEq)]
pub struct Text(pub String);

fn text(s: &str) -> Option<Text> {
  str_literal(s).map(Text)
}

impl fmt::Display for Text {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    self.0.fmt(f)
  }
}

/// A character without a meaning of its own.
#[derive(Clone, Debug, PartialEq)]
pub struct Mark(pub char);

impl FromStr for Mark {
  type Err = std::char::ParseCharError;
  fn from_str(s: &str) -> Result<Self, Self::Err> {
    s.parse().map(Self)
  }
}

impl fmt::Display for Mark {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    self.0.fmt(f)
  }
}

#[token_kind]
#[derive(Debug, Tokenize)]
pub enum TokenKind {
  #[skip(r"\s+")]
  _Blank,
  #[skip(r"//[^\n]*")]
  _Line,
  #[skip(r"/\*([^*]|\*+[^*/])*\*+/")]
  _Block,
  #[regex(r"fn|let|mut|if|else|while|return|true|false")]
  Keyword(Keyword),
  /// Name.
  #[regex(r"[_a-zA-Zα-ωぁ-ん][_a-zA-Z0-9α-ωぁ-ん]*")]
  Ident(String),
  /// Integer.
  #[regex(r"[0-9][0-9a-zA-Z]*", int_literal)]
  Int(u64),
  /// String literal.
  #[regex(r#""([^"\\\n]|\\[^\n])*""#, text)]
  Str(Text),
  /// Character literal.
  #[regex(r"'([^'\\\n]|\\[^\n])*'", char_literal)]
  Char(char),
  /// Operator.
  #[regex(r"\+|-|\*|/|%|<|>|<=|>=|==|!=|&&|\|\||!|=")]
  Op(Op),
  /// Other character.
  #[regex(r".")]
  Other(Mark),
  #[eof]
  Eof,
}

token_ast! {
  #[derive(Debug, PartialEq)]
  pub(crate) macro crate::lang::Tok<TokenKind> {
    [fn] => { kind: TokenKind::Keyword(Keyword::Fn) },
    [let] => { kind: TokenKind::Keyword(Keyword::Let) },
    [mut] => { kind: TokenKind::Keyword(Keyword::Mut) },
    [if] => { kind: TokenKind::Keyword(Keyword::If) },
    [else] => { kind: TokenKind::Keyword(Keyword::Else) },
    [while] => { kind: TokenKind::Keyword(Keyword::While) },
    [return] => { kind: TokenKind::Keyword(Keyword::Return) },
    [bool] => { kind: TokenKind::Keyword(Keyword::True | Keyword::False), prompt: "boolean" },
    [ident] => { kind: TokenKind::Ident(_), prompt: "name" },
    [int] => { kind: TokenKind::Int(_), prompt: "integer" },
    [str] => { kind: TokenKind::Str(_), prompt: "string" },
    [chr] => { kind: TokenKind::Char(_), prompt: "character" },
    [relop] => { kind: TokenKind::Op(o) if is_rel(*o), prompt: "comparison" },
    [addop] => { kind: TokenKind::Op(Op::Add | Op::Sub), prompt: "sum operator" },
    [mulop] => { kind: TokenKind::Op(Op::Mul | Op::Div | Op::Mod), prompt: "product operator" },
    [unop] => { kind: TokenKind::Op(o) if *o == Op::Sub || *o == Op::Not, prompt: "unary operator" },
    [&&] => { kind: TokenKind::Op(Op::And) },
    [||] => { kind: TokenKind::Op(Op::Or) },
    [=] => { kind: TokenKind::Op(Op::Assign) },
    [lpr] => { kind: TokenKind::Other(Mark('(')) },
    [rpr] => { kind: TokenKind::Other(Mark(')')) },
    [lbk] => { kind: TokenKind::Other(Mark('[')) },
    [rbk] => { kind: TokenKind::Other(Mark(']')) },
    [lbc] => { kind: TokenKind::Other(Mark('{')) },
    [rbc] => { kind: TokenKind::Other(Mark('}')) },
    [,] => { kind: TokenKind::Other(Mark(',')) },
    [:] => { kind: TokenKind::Other(Mark(':')) },
    [;] => { kind: TokenKind::Other(Mark(';')) },
  }
}

fn is_rel(o: Op) -> bool {
  matches!(o, Op::Lt | Op::Gt | Op::Le | Op::Ge | Op::Eq | Op::Ne)
}

type T = Token<TokenKind>;

#[derive(Parse, Spanned)]
#[token(T)]
pub enum Item {
  Fn(FnDef),
  Stmt(Stmt),
}

#[derive(Parse, Spanned)]
#[token(T)]
pub struct FnDef {
  _fn: Tok![fn],
  pub name: Tok![ident],
  lpr: Tok![lpr],
  params: SepSeq<Param, Tok![,]>,
  rpr: Tok![rpr],
  ret: Option<Ret>,
  body: Block,
}

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Param(OptTokenPrefix<Tok![mut], Tok![ident]>, #[try_span] Option<Ret>);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Ret(Tok![:], Type);

#[derive(Parse, Spanned)]
#[token(T)]
pub enum Type {
  Array(Tok![lbk], Box<Type>, Tok![rbk]),
  Name(Tok![ident]),
}

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Block(Tok![lbc], Vec<Stmt>, Tok![rbc]);

#[derive(Parse, Spanned)]
#[token(T)]
pub enum Stmt {
  Let(Let),
  If(If),
  While(Tok![while], Expr, Block),
  Return(Tok![return], #[try_span] Option<Expr>, #[try_span] Option<Tok![;]>),
  Block(Box<Block>),
  Assign(Assign),
  Nothing(NonEmptySeq<Tok![;]>),
  Expr { expr: Expr, end: Tok![;] },
}

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Let {
  _let: Tok![let],
  name: OptPrefix<Tok![mut], Tok![ident]>,
  ty: Option<Ret>,
  eq: Tok![=],
  value: Expr,
  end: Tok![;],
}

#[derive(Parse, Spanned)]
#[token(T)]
pub struct If(Tok![if], Expr, Box<Block>, #[try_span] Option<Else>);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Else(Tok![else], Box<ElseBody>);

#[derive(Parse, Spanned)]
#[token(T)]
pub enum ElseBody {
  If(If),
  Block(Block),
}

#[derive(Parse, Spanned)]
#[token(T)]
#[starts_with(Tok![ident], Tok![=])]
pub struct Assign(Tok![ident], Tok![=], Expr, Tok![;]);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Expr(NonEmptySepList<And, Tok![||]>);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct And(NonEmptySepSeq<Rel, Tok![&&]>);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Rel(NonEmptySepList<Sum, Tok![relop]>);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Sum(NonEmptySepList<Product, Tok![addop]>);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Product(NonEmptySepList<Unary, Tok![mulop]>);

#[derive(Parse, Spanned)]
#[token(T)]
pub enum Unary {
  Op(Tok![unop], Box<Unary>),
  Value(Value),
}

#[derive(Parse, Spanned)]
#[token(T)]
pub enum Value {
  Int(Tok![int]),
  Str(NonEmptySeq<Tok![str]>),
  Char(Tok![chr]),
  Bool(Tok![bool]),
  Array(Array),
  Paren((Tok![lpr], Box<Expr>, Tok![rpr])),
  Call(Call),
  Name(Tok![ident]),
}

#[derive(Parse, Spanned)]
#[token(T)]
#[starts_with(Tok![ident], Tok![lpr])]
pub struct Call(Tok![ident], Tok![lpr], OptSepList<Box<Expr>, Tok![,]>, Tok![rpr]);

#[derive(Parse, Spanned)]
#[token(T)]
pub struct Array(Tok![lbk], OptSepSeq<Box<Expr>, Tok![,]>, Tok![rbk]);

/// Constructs that show their structure, their values and their spans.
pub trait Show {
  fn show(&self) -> String;
}

/// A construct with a span.
fn node(name: &str, span: &dyn Spanned, parts: &[String]) -> String {
  let mut s = format!("({name}@{}", span.span());
  for p in parts {
    s.push(' ');
    s.push_str(p);
  }
  s.push(')');
  s
}

pub fn show_token(t: &Token<TokenKind>) -> String {
  format!("{}@{}", t.kind, t.span)
}

macro_rules! show_tokens {
  ($($t:tt)*) => {
    $(impl Show for Tok![$t] {
      fn show(&self) -> String {
        show_token(&self.0)
      }
    })*
  };
}

show_tokens!(fn let mut if else while return bool relop addop mulop unop && || = lpr rpr lbk rbk lbc rbc , : ;);

// tokens whose value is taken out
macro_rules! show_values {
  ($($t:ident $ty:ty $(, $f:tt)*;)*) => {
    $(impl Show for Tok![$t] {
      fn show(&self) -> String {
        format!("{:?}@{}", self.unwrap_ref::<&$ty, _>()$(.$f)*, self.span())
      }
    })*
  };
}

show_values! {
  ident String;
  int u64;
  str Text, 0;
  chr char;
}

impl<T: Show> Show for Box<T> {
  fn show(&self) -> String {
    self.as_ref().show()
  }
}

impl<T: Show> Show for Option<T> {
  fn show(&self) -> String {
    self.as_ref().map_or("-".into(), |t| t.show())
  }
}

fn show_all<T: Show>(ts: &[T]) -> Vec<String> {
  ts.iter().map(|t| t.show()).collect()
}

/// Parts that do not need to have a span.
fn bare(name: &str, span: &dyn TrySpan, parts: &[String]) -> String {
  let span = span.try_span().map_or("-".into(), |s| s.to_string());
  format!("({name}@{span}{}{})", if parts.is_empty() { "" } else { " " }, parts.join(" "))
}

impl<T: Show + TrySpan> Show for Vec<T> {
  fn show(&self) -> String {
    bare("vec", self, &show_all(self))
  }
}

macro_rules! show_seqs {
  ($($t:ident $name:literal,)*) => {
    $(impl<T: Show + TrySpan, S> Show for $t<T, S> {
      fn show(&self) -> String {
        bare($name, self, &show_all(&self.0))
      }
    })*
  };
}

show_seqs! {
  SepSeq "seq",
  OptSepSeq "seq",
}

impl<T: Show + Spanned, S> Show for NonEmptySepSeq<T, S> {
  fn show(&self) -> String {
    node("seq", self, &show_all(&self.0))
  }
}

impl<T: Show + Spanned> Show for NonEmptySeq<T> {
  fn show(&self) -> String {
    node("seq", self, &show_all(&self.0))
  }
}

impl<T: Show + Spanned, S: Show> Show for NonEmptySepList<T, S> {
  fn show(&self) -> String {
    match self {
      Self::One(t) => node("one", self, &[t.show()]),
      Self::More(t, s, l) => node("more", self, &[t.show(), s.show(), l.show()]),
    }
  }
}

impl<T: Show + Spanned, S: Show + Spanned> Show for NonEmptyOptSepList<T, S> {
  fn show(&self) -> String {
    match self {
      Self::One(t) => node("one", self, &[t.show()]),
      Self::OneWithSep(t, s) => node("sep", self, &[t.show(), s.show()]),
      Self::More(t, s, l) => node("more", self, &[t.show(), s.show(), l.show()]),
    }
  }
}

impl<P: Show + Spanned, T: Show + Spanned> Show for OptPrefix<P, T> {
  fn show(&self) -> String {
    node("prefix", self, &[self.0.show(), self.1.show()])
  }
}

impl<P: Show + Spanned, T: Show + Spanned> Show for OptTokenPrefix<P, T> {
  fn show(&self) -> String {
    node("prefix", self, &[self.0.show(), self.1.show()])
  }
}

impl Show for (Tok![lpr], Box<Expr>, Tok![rpr]) {
  fn show(&self) -> String {
    node("tuple", self, &[self.0.show(), self.1.show(), self.2.show()])
  }
}

macro_rules! show_structs {
  ($($t:ident $name:literal ($($f:tt)*),)*) => {
    $(impl Show for $t {
      fn show(&self) -> String {
        node($name, self, &[$(self.$f.show(),)*])
      }
    })*
  };
}

show_structs! {
  FnDef "fn" (_fn name lpr params rpr ret body),
  Param "param" (0 1),
  Ret "type" (0 1),
  Block "block" (0 1 2),
  Let "let" (_let name ty eq value end),
  If "if" (0 1 2 3),
  Else "else" (0 1),
  Assign "assign" (0 1 2 3),
  Expr "or" (0),
  And "and" (0),
  Rel "rel" (0),
  Sum "sum" (0),
  Product "product" (0),
  Call "call" (0 1 2 3),
  Array "array" (0 1 2),
}

impl Show for Item {
  fn show(&self) -> String {
    match self {
      Self::Fn(f) => node("item", self, &[f.show()]),
      Self::Stmt(s) => node("item", self, &[s.show()]),
    }
  }
}

impl Show for Type {
  fn show(&self) -> String {
    match self {
      Self::Array(l, t, r) => node("arrays", self, &[l.show(), t.show(), r.show()]),
      Self::Name(n) => node("named", self, &[n.show()]),
    }
  }
}

impl Show for Stmt {
  fn show(&self) -> String {
    match self {
      Self::Let(s) => node("stmt", self, &[s.show()]),
      Self::If(s) => node("stmt", self, &[s.show()]),
      Self::While(w, e, b) => node("while", self, &[w.show(), e.show(), b.show()]),
      Self::Return(r, e, s) => node("return", self, &[r.show(), e.show(), s.show()]),
      Self::Block(b) => node("stmt", self, &[b.show()]),
      Self::Assign(a) => node("stmt", self, &[a.show()]),
      Self::Nothing(n) => node("nothing", self, &[n.show()]),
      Self::Expr { expr, end } => node("expr", self, &[expr.show(), end.show()]),
    }
  }
}

impl Show for ElseBody {
  fn show(&self) -> String {
    match self {
      Self::If(s) => node("else-if", self, &[s.show()]),
      Self::Block(s) => node("else-block", self, &[s.show()]),
    }
  }
}

impl Show for Unary {
  fn show(&self) -> String {
    match self {
      Self::Op(o, u) => node("unary", self, &[o.show(), u.show()]),
      Self::Value(v) => node("value", self, &[v.show()]),
    }
  }
}

impl Show for Value {
  fn show(&self) -> String {
    match self {
      Self::Int(t) => node("int", self, &[t.show()]),
      Self::Str(t) => node("str", self, &[t.show()]),
      Self::Char(t) => node("char", self, &[t.show()]),
      Self::Bool(t) => node("bool", self, &[t.show()]),
      Self::Array(t) => node("v", self, &[t.show()]),
      Self::Paren(t) => node("paren", self, &[t.show()]),
      Self::Call(t) => node("v", self, &[t.show()]),
      Self::Name(t) => node("name", self, &[t.show()]),
    }
  }
}
