//! Token types that are declared in nested modules, with every visibility and in
//! every shape that the macro takes.

use laps::prelude::*;

/// The tokens can be seen only where the macro is visible.
macro_rules! describe {
  ($($t:ty = $i:expr,)*) => {
    $(impl crate::grammar::G for $t {
      fn gram() -> crate::grammar::Gram {
        crate::grammar::Gram::Tok($i)
      }
      fn tree(&self) -> crate::grammar::Tree {
        crate::grammar::Tree::Tok(self.0.clone())
      }
    })*
  };
}

describe! {
  Small = 13, Any = 14,
}

pub mod outer {
  use super::*;
  use crate::queue::K;

  token_ast! {
    /// Visible in its own module.
    #[allow(unused_macros)]
    #[derive(Clone, Debug)]
    #[derive(PartialEq, Eq)]
    macro Private<crate::queue::K> {
      [()] => { kind: | K::Left | K::Right, prompt: "parenthesis", },
      [x y] => { kind: K::Word(w) if w.len() > 3, prompt: "long word" },
    }
  }

  pub type Paren = Private![()];
  pub type Long = Private![x y];

  describe! {
    Paren = 9, Long = 10, Negative = 12,
  }

  pub mod inner {
    use crate::queue::K;
    use laps::prelude::*;

    token_ast! {
      #[derive(Debug)]
      #[allow(unused_imports)]
      pub(self) macro Own<K> {
        [n] => { kind: K::Num(n) if *n > 500 && *n % 3 != 0, prompt: "large `number` {}" }
      }
    }

    pub type Large = Own![n];

    describe! {
      Large = 11,
    }

    token_ast! {
      pub(super) macro crate::visible::outer::inner::Above<K> {
        [-] => { kind: K::MinusSign, prompt: "minus" },
      }
    }

    token_ast! {
      #[derive(Debug)]
      pub(in crate::visible) macro crate::visible::outer::inner::Within<K> {
        [num] => { kind: K::Num { 0: 1..=300 }, prompt: "small number" },
        [_] => { kind: K::Num(_) | K::Word(_) | K::PlusSign, prompt: "anything" },
      }
    }

    token_ast! {
      pub macro Everywhere<K> {
        [+] => { kind: K::PlusSign },
        [word 1] => { kind: K::Word(w) if { let n = w.len(); n == 2 }, prompt: "short word" },
      }
    }

    pub type Positive = Everywhere![+];
    pub type Short = Everywhere![word 1];
  }

  pub type Negative = inner::Above![-];
}

pub type Small = outer::inner::Within![num];
pub type Any = outer::inner::Within![_];
