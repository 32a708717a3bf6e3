//! The constructs under test.

use crate::grammar::{Gram, Tree, G, R};
use crate::queue::*;
use crate::visible::outer::inner::{Large, Positive, Short};
use crate::visible::outer::{Long, Negative, Paren};
use crate::visible::{Any, Small};
use laps::ast::*;
use laps::parse::Parse;
use laps::span::{Result as LResult, Span, Spanned, TrySpan};
use laps::token::{Token, TokenStream};

type Num = Tok![num];
type Word = Tok![word];
type Plus = Tok![+];
type Minus = Tok![-];
type Lp = Tok![lp];
type Rp = Tok![rp];
type Even = Tok![even];
type Sign = Tok![sign];
type End = Tok![end];

macro_rules! g_tokens {
  ($($t:ty = $i:expr,)*) => {
    $(impl G for $t {
      fn gram() -> Gram {
        Gram::Tok($i)
      }
      fn tree(&self) -> Tree {
        // values that are unwrapped are those of the token
        match &self.0.kind {
          K::Num(n) => assert_eq!(self.unwrap_ref::<&u32, _>(), n),
          K::Word(w) => assert_eq!(self.unwrap_ref::<&String, _>(), w),
          _ => {}
        }
        Tree::Tok(self.0.clone())
      }
    })*
  };
}

g_tokens! {
  Num = 0, Word = 1, Plus = 2, Minus = 3, Lp = 4, Rp = 5, Even = 6, Sign = 7, End = 8,
  Positive = 15, Short = 16,
}

impl<T: G> G for Box<T> {
  fn gram() -> Gram {
    T::gram()
  }
  fn tree(&self) -> Tree {
    self.as_ref().tree()
  }
}

impl<T: G> G for Option<T> {
  fn gram() -> Gram {
    Gram::Opt(T::gram)
  }
  fn tree(&self) -> Tree {
    match self {
      Some(t) => Tree::Node("some", vec![t.tree()]),
      None => Tree::Node("none", vec![]),
    }
  }
}

fn trees<T: G>(v: &[T]) -> Tree {
  Tree::Node("", v.iter().map(G::tree).collect())
}

impl<T: G> G for Vec<T> {
  fn gram() -> Gram {
    Gram::Many(T::gram)
  }
  fn tree(&self) -> Tree {
    trees(self)
  }
}

impl<T: G> G for NonEmptySeq<T> {
  fn gram() -> Gram {
    Gram::Plus(T::gram)
  }
  fn tree(&self) -> Tree {
    assert_eq!(self.into_iter().count(), self.0.len());
    trees(&self.0)
  }
}

macro_rules! g_sep {
  ($($name:ident $some:expr, $trail:expr;)*) => {
    $(impl<T: G, S: G> G for $name<T, S> {
      fn gram() -> Gram {
        Gram::Sep { t: T::gram, s: S::gram, some: $some, trail: $trail }
      }
      fn tree(&self) -> Tree {
        Tree::Node("", self.into_iter().map(G::tree).collect())
      }
    })*
  };
}

g_sep! {
  SepSeq false, false;
  NonEmptySepSeq true, false;
  OptSepSeq false, true;
  NonEmptyOptSepSeq true, true;
}

impl<T: G, S: G> G for NonEmptySepList<T, S> {
  fn gram() -> Gram {
    Gram::List {
      t: T::gram,
      s: S::gram,
      trail: false,
    }
  }
  fn tree(&self) -> Tree {
    match self {
      Self::One(t) => Tree::Node("last", vec![t.tree()]),
      Self::More(t, s, l) => Tree::Node("more", vec![t.tree(), s.tree(), l.tree()]),
    }
  }
}

impl<T: G, S: G> G for NonEmptyOptSepList<T, S> {
  fn gram() -> Gram {
    Gram::List {
      t: T::gram,
      s: S::gram,
      trail: true,
    }
  }
  fn tree(&self) -> Tree {
    match self {
      Self::One(t) => Tree::Node("last", vec![t.tree()]),
      Self::OneWithSep(t, s) => Tree::Node("last", vec![t.tree(), s.tree()]),
      Self::More(t, s, l) => Tree::Node("more", vec![t.tree(), s.tree(), l.tree()]),
    }
  }
}

macro_rules! g_prefix {
  ($($name:ident)*) => {
    $(impl<P: G, T: G> G for $name<P, T> {
      fn gram() -> Gram {
        Gram::$name(P::gram, T::gram)
      }
      fn tree(&self) -> Tree {
        Tree::Node("", vec![self.0.tree(), self.1.tree()])
      }
    })*
  };
}

g_prefix!(OptPrefix OptTokenPrefix TokenPrefix);

#[allow(deprecated)]
impl<A: G, B: G, C: G> G for Quoted<A, B, C> {
  fn gram() -> Gram {
    Gram::Seq(vec![A::gram, B::gram, C::gram])
  }
  fn tree(&self) -> Tree {
    Tree::Node("", vec![self.0.tree(), self.1.tree(), self.2.tree()])
  }
}

macro_rules! g_tuple {
  ($($t:ident)*) => {
    impl<$($t: G),*> G for ($($t,)*) {
      fn gram() -> Gram {
        Gram::Seq(vec![$($t::gram as R),*])
      }
      #[allow(non_snake_case)]
      fn tree(&self) -> Tree {
        let ($($t,)*) = self;
        Tree::Node("", vec![$($t.tree()),*])
      }
    }
  };
}

g_tuple!(A);
g_tuple!(A B);
g_tuple!(A B C);
g_tuple!(A B C D);
g_tuple!(A B C D E);
g_tuple!(A B C D E F);
g_tuple!(A B C D E F H);
g_tuple!(A B C D E F H I);
g_tuple!(A B C D E F H I J);
g_tuple!(A B C D E F H I J L);
g_tuple!(A B C D E F H I J L M);
g_tuple!(A B C D E F H I J L M N);
g_tuple!(A B C D E F H I J L M N O P Q S T);
g_tuple!(A B C D E F H I J L M N O P Q S T U V W X Y Z A1 A2 A3);

/// Describes a derived struct.
macro_rules! g_struct {
  ($name:ty, [$($s:expr),*], $($f:tt: $ty:ty),*) => {
    impl G for $name {
      fn gram() -> Gram {
        Gram::Struct(vec![$($s),*], vec![$(<$ty as G>::gram as R),*])
      }
      fn tree(&self) -> Tree {
        Tree::Node("", vec![$(self.$f.tree()),*])
      }
    }
  };
}

/// Describes a derived enum.
macro_rules! g_enum {
  ($name:ty, [$($s:expr),*], $($v:ident { $($f:tt: $x:ident $ty:ty),* })*) => {
    impl G for $name {
      fn gram() -> Gram {
        Gram::Enum(
          vec![$($s),*],
          vec![$((stringify!($v), vec![$(<$ty as G>::gram as R),*])),*],
        )
      }
      fn tree(&self) -> Tree {
        match self {
          $(Self::$v { $($f: $x),* } => Tree::Node(stringify!($v), vec![$($x.tree()),*]),)*
        }
      }
    }
  };
}

// ---- derived constructs ----

#[derive(Parse)]
#[token(Token<K>)]
struct Unit;
g_struct!(Unit, [],);

#[derive(Parse)]
#[token(Token<K>)]
struct EmptyNamed {}
g_struct!(EmptyNamed, [],);

#[derive(Parse)]
struct EmptyTuple();
g_struct!(EmptyTuple, [],);

#[derive(Parse, Spanned)]
#[token(Token<K>)]
struct Pair {
  word: Word,
  num: Num,
}
g_struct!(Pair, [], word: Word, num: Num);

#[derive(Parse, Spanned)]
#[token(Token<K>)]
struct Three(Num, Sign, Num);
g_struct!(Three, [], 0: Num, 1: Sign, 2: Num);

#[derive(Parse, Spanned)]
#[token(Token<K>)]
struct One(Word);
g_struct!(One, [], 0: Word);

/// Optional first and last fields.
#[derive(Parse, Spanned)]
#[token(Token<K>)]
struct Wrapped {
  #[try_span]
  sign: Option<Sign>,
  #[try_span]
  nums: Vec<Num>,
  word: Word,
  #[try_span]
  args: Option<Args>,
  #[try_span]
  rest: SepSeq<Num, Plus>,
}
g_struct!(Wrapped, [], sign: Option<Sign>, nums: Vec<Num>, word: Word, args: Option<Args>, rest: SepSeq<Num, Plus>);

#[derive(Parse, Spanned)]
#[token(Token<K>)]
struct Tail {
  word: Word,
  #[try_span]
  rest: OptSepSeq<Num, Minus>,
}
g_struct!(Tail, [], word: Word, rest: OptSepSeq<Num, Minus>);

#[derive(Parse, Spanned)]
#[token(Token<K>)]
struct Args {
  lp: Lp,
  args: SepSeq<Expr, Plus>,
  rp: Rp,
}
g_struct!(Args, [], lp: Lp, args: SepSeq<Expr, Plus>, rp: Rp);

/// Starts with two tokens.
#[derive(Parse, Spanned)]
#[token(Token<K>)]
#[starts_with(Tok![word], Tok![lp])]
struct Call {
  name: Word,
  args: Args,
}
g_struct!(Call, [1, 4], name: Word, args: Args);

/// Starts with three tokens.
#[derive(Parse, Spanned)]
#[token(Token<K>)]
#[starts_with(Tok![lp], Tok![word], Tok![rp])]
struct Cast(Lp, Word, Rp, Box<Expr>);
g_struct!(Cast, [4, 1, 5], 0: Lp, 1: Word, 2: Rp, 3: Box<Expr>);

/// The tokens that decide need not be those of the first field.
#[derive(Parse)]
#[token(Token<K>)]
#[starts_with(Tok![num])]
struct Declared {
  sign: Option<Sign>,
  nums: NonEmptySeq<Num>,
}
g_struct!(Declared, [0], sign: Option<Sign>, nums: NonEmptySeq<Num>);

#[derive(Parse, Spanned)]
#[token(Token<K>)]
enum Expr {
  Num(Num),
  Call(Call),
  Word(Word),
  Neg { sign: Minus, expr: Box<Expr> },
  Cast(Cast),
  Paren(Lp, Box<Expr>, Rp),
}
g_enum!(Expr, [],
  Num { 0: a Num }
  Call { 0: a Call }
  Word { 0: a Word }
  Neg { sign: a Minus, expr: b Box<Expr> }
  Cast { 0: a Cast }
  Paren { 0: a Lp, 1: b Box<Expr>, 2: c Rp }
);

#[derive(Parse)]
#[token(Token<K>)]
enum MaybeSign {
  Plus(Plus),
  Minus { minus: Minus },
  None,
}
g_enum!(MaybeSign, [],
  Plus { 0: a Plus }
  Minus { minus: a Minus }
  None { }
);

/// A variant without fields in the middle shadows the others.
#[derive(Parse)]
#[token(Token<K>)]
enum Shadowed {
  Num(Num, Plus),
  Nothing,
  #[allow(unused)]
  Word(Word),
}
g_enum!(Shadowed, [],
  Num { 0: a Num, 1: b Plus }
  Nothing { }
  Word { 0: a Word }
);

#[derive(Parse)]
#[token(Token<K>)]
enum OneVariant {
  Only(Num, Word),
}
g_enum!(OneVariant, [], Only { 0: a Num, 1: b Word });

/// The first variant that may start here wins.
#[derive(Parse, Spanned)]
#[token(Token<K>)]
enum Ordered {
  Even(Even, Word),
  Num(Num, Sign),
  Sign(Sign, Num),
  Minus(Minus),
}
g_enum!(Ordered, [],
  Even { 0: a Even, 1: b Word }
  Num { 0: a Num, 1: b Sign }
  Sign { 0: a Sign, 1: b Num }
  Minus { 0: a Minus }
);

#[derive(Parse)]
#[token(Token<K>)]
#[starts_with(Tok![word], Tok![sign])]
enum StartsEnum {
  Call(Call),
  Sum(Word, Sign, Num),
}
g_enum!(StartsEnum, [1, 7],
  Call { 0: a Call }
  Sum { 0: a Word, 1: b Sign, 2: c Num }
);

#[derive(Parse)]
#[token(Token<K>)]
enum Sexp {
  Word(Word),
  Num(OptTokenPrefix<Minus, Num>),
  List(Lp, Vec<Sexp>, Rp),
}
g_enum!(Sexp, [],
  Word { 0: a Word }
  Num { 0: a OptTokenPrefix<Minus, Num> }
  List { 0: a Lp, 1: b Vec<Sexp>, 2: c Rp }
);

#[derive(Parse)]
#[token(Token<K>)]
struct Sum {
  mul: Box<Product>,
  rest: Vec<(Plus, Product)>,
}
g_struct!(Sum, [], mul: Box<Product>, rest: Vec<(Plus, Product)>);

#[derive(Parse)]
#[token(Token<K>)]
struct Product {
  list: NonEmptySepList<Value, Minus>,
}
g_struct!(Product, [], list: NonEmptySepList<Value, Minus>);

#[derive(Parse)]
#[token(Token<K>)]
enum Value {
  Num(Num),
  Word { name: Word, args: Option<Args> },
  Paren(Lp, Box<Sum>, Rp),
}
g_enum!(Value, [],
  Num { 0: a Num }
  Word { name: a Word, args: b Option<Args> }
  Paren { 0: a Lp, 1: b Box<Sum>, 2: c Rp }
);

#[derive(Parse)]
#[token(Token<K>)]
enum Item {
  Call(Box<Call>),
  Pair(Pair),
  Sum(Sum),
  End(End),
}
g_enum!(Item, [],
  Call { 0: a Box<Call> }
  Pair { 0: a Pair }
  Sum { 0: a Sum }
  End { 0: a End }
);

/// All variants start with the same token, only lookahead decides.
#[derive(Parse)]
#[token(Token<K>)]
enum Looking {
  A(TokenPrefix<Word, Num>),
  B(TokenPrefix<Word, Sign>, Num),
  C(TokenPrefix<Word, TokenPrefix<Lp, Num>>, Rp),
  D(Word, Lp, Word, Rp),
}
g_enum!(Looking, [],
  A { 0: a TokenPrefix<Word, Num> }
  B { 0: a TokenPrefix<Word, Sign>, 1: b Num }
  C { 0: a TokenPrefix<Word, TokenPrefix<Lp, Num>>, 1: b Rp }
  D { 0: a Word, 1: b Lp, 2: c Word, 3: d Rp }
);

#[derive(Parse)]
#[token(Token<K>)]
struct Indexed<const N: usize> {
  num: Num,
  words: Vec<Word>,
}
g_struct!(Indexed<3>, [], num: Num, words: Vec<Word>);

/// A construct with a hand-written parser.
struct Tag<T>(std::marker::PhantomData<T>);
impl<TS: TokenStream, T> Parse<TS> for Tag<T> {
  fn parse(_: &mut TS) -> LResult<Self> {
    Ok(Self(std::marker::PhantomData))
  }
  fn maybe(_: &mut TS) -> LResult<bool> {
    Ok(true)
  }
}
impl<T> G for Tag<T> {
  fn gram() -> Gram {
    Gram::Seq(vec![])
  }
  fn tree(&self) -> Tree {
    Tree::Node("", vec![])
  }
}

#[derive(Parse)]
#[token(Token<K>)]
struct Tagged<'a, T: Clone, const N: usize>
where
  T: PartialEq,
{
  num: Num,
  tag: Tag<(&'a (), T)>,
  word: Word,
}
g_struct!(Tagged<'_, u8, 2>, [], num: Num, tag: Tag<()>, word: Word);

/// Generic spans.
#[derive(Spanned)]
struct Both<A: Spanned, B>
where
  B: TrySpan,
{
  a: A,
  #[try_span]
  b: B,
}

impl<TS, A, B> Parse<TS> for Both<A, B>
where
  TS: TokenStream,
  A: Parse<TS> + Spanned,
  B: Parse<TS> + TrySpan,
{
  fn parse(tokens: &mut TS) -> LResult<Self> {
    Ok(Self {
      a: tokens.parse()?,
      b: tokens.parse()?,
    })
  }
  fn maybe(tokens: &mut TS) -> LResult<bool> {
    A::maybe(tokens)
  }
}

impl<A: G + Spanned, B: G + TrySpan> G for Both<A, B> {
  fn gram() -> Gram {
    Gram::Seq(vec![A::gram, B::gram])
  }
  fn tree(&self) -> Tree {
    Tree::Node("", vec![self.a.tree(), self.b.tree()])
  }
}

/// Spans of enums with optional fields.
#[derive(Parse, Spanned)]
#[token(Token<K>)]
enum Spans {
  A {
    #[try_span]
    signs: NonEmptySeqOpt,
    num: Num,
  },
  B(Word, #[try_span] Option<Num>, #[try_span] SepSeq<Option<Pair>, Plus>, Lp),
  C(Lp, #[try_span] Option<Rp>),
}
type NonEmptySeqOpt = OptPrefix<Minus, Plus>;
g_enum!(Spans, [],
  A { signs: a NonEmptySeqOpt, num: b Num }
  B { 0: a Word, 1: b Option<Num>, 2: c SepSeq<Option<Pair>, Plus>, 3: d Lp }
  C { 0: a Lp, 1: b Option<Rp> }
);

/// Types of tokens of other modules.
#[derive(Parse, Spanned)]
#[token(Token<K>)]
enum Shapes {
  A(Small, Negative, Paren),
  B(Large, #[try_span] Option<Positive>),
  C(Short),
  D(Long, Any),
}
g_enum!(Shapes, [],
  A { 0: a Small, 1: b Negative, 2: c Paren }
  B { 0: a Large, 1: b Option<Positive> }
  C { 0: a Short }
  D { 0: a Long, 1: b Any }
);

// ---- table of constructs ----

/// One construct for one token stream.
pub struct Case<S> {
  pub name: &'static str,
  pub gram: R,
  pub maybe: fn(&mut S) -> LResult<bool>,
  #[allow(clippy::type_complexity)]
  pub parse: fn(&mut S) -> LResult<(Tree, Option<Option<Span>>)>,
}

/// Calls `try_span` if there is such a method.
struct Sp<'a, T>(&'a T);
trait ViaTrySpan {
  fn sp(&self) -> Option<Option<Span>>;
}
impl<T: TrySpan> ViaTrySpan for Sp<'_, T> {
  fn sp(&self) -> Option<Option<Span>> {
    Some(self.0.try_span())
  }
}
trait ViaNothing {
  fn sp(&self) -> Option<Option<Span>>;
}
impl<T> ViaNothing for &Sp<'_, T> {
  fn sp(&self) -> Option<Option<Span>> {
    None
  }
}

macro_rules! table {
  ($($ty:ty,)*) => {
    /// Number of constructs.
    pub const CASES: usize = [$(stringify!($ty)),*].len();

    /// All constructs.
    #[allow(deprecated)]
    pub fn table<S: TokenStream<Token = Token<K>>>() -> Vec<Case<S>> {
      vec![$(Case {
        name: stringify!($ty),
        gram: <$ty as G>::gram,
        maybe: |s| <$ty as Parse<S>>::maybe(s),
        parse: |s| {
          let t = s.parse::<$ty>()?;
          let span = (&Sp(&t)).sp();
          Ok((t.tree(), span))
        },
      }),*]
    }
  };
}

table! {
  Num, Word, Plus, Minus, Lp, Rp, Even, Sign, End,
  Box<Num>, Box<Box<Word>>,
  Option<Num>, Option<Sign>, Option<Option<Word>>, Option<Box<Pair>>,
  Vec<Num>, Vec<Sign>, Vec<(Num, Plus)>, Vec<(Option<Sign>, Num)>, Vec<Box<Expr>>, Vec<Call>,
  (Num,), (Num, Word), (Num, Plus, Num), (Lp, Vec<Num>, Rp, Word), (Option<Num>, Word),
  (Num, Num, Num, Num, Num), (Num, Word, Num, Word, Num, Word), (Sign, Num, Sign, Num, Sign, Num, Sign),
  (Lp, Num, Rp, Lp, Num, Rp, Lp, Rp),
  (Num, Word, Plus, Minus, Lp, Rp, Even, Sign, Num),
  (Num, Word, Plus, Minus, Lp, Rp, Even, Sign, Num, Word),
  (Num, Word, Plus, Minus, Lp, Rp, Even, Sign, Num, Word, Lp),
  (Num, Word, Plus, Minus, Lp, Rp, Even, Sign, Num, Word, Lp, Rp),
  (Num, Word, Plus, Minus, Lp, Rp, Even, Sign, Num, Word, Lp, Rp, Num, Num, Word, Word, Plus),
  (Num, Word, Plus, Minus, Lp, Rp, Even, Sign, Num, Word, Lp, Rp, Num, Num, Word, Word, Plus, Minus, Lp, Rp, Even, Sign, Num, Word, Lp, Rp),
  ((Num, Word), (Plus, Num)), (Box<Num>, Option<(Plus, Num)>),
  NonEmptySeq<Num>, NonEmptySeq<Sign>, NonEmptySeq<Pair>, NonEmptySeq<Call>, NonEmptySeq<(Minus, Option<Num>)>,
  Option<NonEmptySeq<Word>>, Vec<(Word, NonEmptySeq<Num>)>,
  SepSeq<Num, Plus>, SepSeq<Word, Sign>, SepSeq<Pair, Plus>, SepSeq<Num, (Plus, Minus)>, SepSeq<Call, Minus>,
  SepSeq<Option<Num>, Plus>, (Lp, SepSeq<Expr, Plus>, Rp), SepSeq<Even, Plus>,
  SepSeq<SepSeq<Num, Minus>, Plus>,
  NonEmptySepSeq<Num, Plus>, NonEmptySepSeq<Word, Sign>, NonEmptySepSeq<Pair, (Plus, Minus)>,
  NonEmptySepSeq<NonEmptySepSeq<Num, Minus>, Plus>, NonEmptySepSeq<Expr, Sign>,
  OptSepSeq<Num, Plus>, OptSepSeq<Word, Sign>, OptSepSeq<Pair, Plus>, OptSepSeq<Call, Minus>, (Lp, OptSepSeq<Num, Plus>, Rp),
  OptSepSeq<OptSepSeqItem, Plus>,
  NonEmptyOptSepSeq<Num, Plus>, NonEmptyOptSepSeq<Word, Sign>, NonEmptyOptSepSeq<Pair, (Plus, Minus)>, NonEmptyOptSepSeq<Even, Plus>,
  NonEmptyOptSepSeq<Call, Sign>,
  NonEmptySepList<Num, Plus>, NonEmptySepList<Word, Sign>, NonEmptySepList<Pair, (Plus, Minus)>, NonEmptySepList<NonEmptySepList<Num, Minus>, Plus>,
  SepList<Num, Plus>, SepList<Call, Sign>, (Lp, SepList<Word, Minus>, Rp),
  NonEmptyOptSepList<Num, Plus>, NonEmptyOptSepList<Word, Sign>, NonEmptyOptSepList<Pair, (Plus, Minus)>, NonEmptyOptSepList<Even, Plus>,
  NonEmptyOptSepList<Call, Sign>,
  OptSepList<Num, Plus>, OptSepList<Call, Sign>, (Lp, OptSepList<Word, Minus>, Rp),
  Quoted<Lp, Num, Rp>, Quoted<Lp, Vec<Expr>, Rp>, Vec<Quoted<Lp, Option<Word>, Rp>>,
  OptPrefix<Sign, Num>, OptPrefix<(Lp, Rp), Word>, OptPrefix<Call, Word>, OptPrefix<Num, Even>, Option<OptPrefix<Minus, Num>>, Vec<OptPrefix<Minus, Num>>,
  OptTokenPrefix<Sign, Num>, OptTokenPrefix<Word, Call>, OptTokenPrefix<Lp, Word>, OptTokenPrefix<Num, Even>, Option<OptTokenPrefix<Minus, Num>>,
  Vec<OptTokenPrefix<Minus, Num>>, OptTokenPrefix<Minus, OptTokenPrefix<Plus, Num>>, OptTokenPrefix<Word, Option<Num>>,
  TokenPrefix<Sign, Num>, TokenPrefix<Word, Call>, TokenPrefix<Lp, Word>, Option<TokenPrefix<Minus, Num>>, Vec<TokenPrefix<Minus, Num>>,
  TokenPrefix<Word, TokenPrefix<Lp, Num>>, Vec<TokenPrefix<Word, OptTokenPrefix<Sign, Num>>>,
  (Option<TokenPrefix<Minus, Num>>, Option<TokenPrefix<Minus, Word>>, Minus),
  Unit, EmptyNamed, EmptyTuple, Pair, Three, One, Wrapped, Tail, Args, Call, Cast, Declared, Expr, MaybeSign, Shadowed, OneVariant,
  Ordered, StartsEnum, Sexp, Sum, Product, Item, Looking, Indexed<3>, Tagged<'_, u8, 2>, Spans,
  Option<Call>, Option<Cast>, Option<StartsEnum>, Option<Looking>, Option<Ordered>, Option<Declared>, Vec<Looking>, Vec<Ordered>, Vec<Sexp>,
  (MaybeSign, Num), (Unit, Num), SepSeq<Item, Plus>, Vec<Pair>, Vec<Three>, NonEmptySeq<Expr>,
  Both<Num, Option<Word>>, Both<Pair, Vec<Sign>>, Both<NonEmptySeq<Num>, Both<Word, Option<Sign>>>, Both<Both<Num, Vec<Word>>, SepSeq<Call, Plus>>,
  Paren, Long, Large, Negative, Small, Any, Positive, Short,
  (Paren, Vec<Small>, Large, Paren), SepSeq<Long, Negative>, Vec<OptTokenPrefix<Short, Any>>, Shapes, Vec<Shapes>,
  Both<Word, SepSeq<Option<Pair>, Minus>>, Both<NonEmptyOptSepList<Num, Plus>, Option<Word>>, Both<OptPrefix<Sign, Num>, OptSepList<Word, Plus>>,
}

type OptSepSeqItem = (Option<Minus>, Num);
