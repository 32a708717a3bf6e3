//! Random regular expressions.

use simcore::Rng;

/// Symbols and classes that an expression is made of.
pub struct Palette {
  syms: Vec<String>,
  classes: Vec<String>,
}

impl Palette {
  pub fn new(r: &mut Rng, bytes: bool) -> Self {
    let s = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    if r.chance(2, 5) {
      // overlapping classes of several ranges over few letters
      let n = r.range(4, 12);
      let k = r.range(1, 6);
      let mut classes: Vec<String> = (0..k).map(|_| letters(r, n, bytes)).collect();
      if r.chance(1, 4) {
        classes.push(if bytes { "(?-u:[^a-z])" } else { "[^b-y]" }.into());
      }
      let k = r.range(1, 4);
      let syms = (0..k).map(|_| ((b'a' + r.below(n) as u8) as char).to_string()).collect();
      return Self { syms, classes };
    }
    let (syms, classes) = if bytes {
      match r.below(5) {
        0 => (s(&["a", "b", "c"]), s(&["(?-u:[ab])", "(?-u:[a-c])", "(?-u:[b-d])", "(?-u:[^a])"])),
        1 => (
          s(&["a", "0", "_", "\u{e9}", "\u{4f60}", r"\n"]),
          s(&["(?-u:[a-z])", "(?-u:[0-9])", "(?-u:[a-z0-9_])", "(?-u:[\\x00-\\x60])", "(?-u:\\w)", "(?-u:\\s)", "(?-u:\\d)"]),
        ),
        2 => (
          s(&["x", "y", "(?-u:\\x7f)", "(?-u:\\x00)", "(?-u:\\xff)", "(?-u:\\xfe)", "(?-u:\\x80)"]),
          s(&["(?-u:[x-z])", "(?-u:[\\x00-\\x1f])", "(?-u:[!-~])", "(?-u:[\\x7e-\\xff])", "(?-u:.)", "(?s-u:.)", "(?-u:[^\\xff])", "(?-u:[\\xf0-\\xff])"]),
        ),
        3 => (s(&["ab", "ba", "aab"]), s(&["(?-u:[a-b])", "(?-u:[[:alpha:]])", "(?i-u:b)"])),
        _ => (s(&["\\+", "-", "=", "<", "\\\\"]), s(&["(?-u:[+*/<>=-])", "(?-u:[[:punct:]])", "(?-u:[!-/])"])),
      }
    } else {
      match r.below(7) {
        0 => (s(&["a", "b", "c"]), s(&["[ab]", "[a-c]", "[^a]", "[b-d]"])),
        1 => (s(&["a", "b", "0", "_", "-", r"\n"]), s(&["[a-z]", "[0-9]", "[a-z0-9_]", "(?-u:\\d)", ".", "(?s:.)", r"\s", r"[0-9_]", "[[:alnum:]]"])),
        2 => (
          s(&["\u{e9}", "\u{4f60}", "\u{1f602}", "z", "\u{10ffff}"]),
          s(&["[\u{80}-\u{fff}]", "[^z]", "[\u{4f60}-\u{597d}]", "[\u{1f600}-\u{10ffff}]", "[y-\u{e9}]", "[\u{10fffe}-\u{10ffff}]"]),
        ),
        3 => (
          s(&["x", "\u{0}", "\u{d7ff}", "\u{e000}", "\\u{e001}"]),
          s(&["[\u{d7f0}-\u{e00f}]", "[\u{0}-x]", "[^x]", "(?s:.)", "[\u{d7ff}\u{e000}]", "[^\u{d7ff}]", "[\u{e000}-\u{ffff}]", "[\u{0}\u{1}]"]),
        ),
        4 => (s(&["ab", "ba", "aab", "(?i:k)"]), s(&["[a-b]", "[a-z&&[^b-y]]", "[a-d--b]", "[a-d~~c-f]", "(?i:[s-t])"])),
        5 => (s(&["\\+", "-", "=", "<", "\\\\", "\\x2b"]), s(&["[+*/<>=-]", "[[:punct:]]", "[!-/]", r"[^\s]"])),
        _ => (s(&["\u{561}", "\u{562}", "a"]), s(&[r"\p{Armenian}", r"[\u{561}-\u{570}a]", r"(?-u:[a-z])", r"[^\p{Armenian}]"])),
      }
    };
    Self { syms, classes }
  }

  fn sym<'a>(&'a self, r: &mut Rng) -> &'a str {
    r.pick(&self.syms)
  }
}

fn letters(r: &mut Rng, n: usize, bytes: bool) -> String {
  let mut set: String = (0..n).filter(|_| r.chance(1, 2)).map(|i| (b'a' + i as u8) as char).collect();
  if set.is_empty() {
    set.push((b'a' + r.below(n) as u8) as char);
  }
  if bytes {
    format!("(?-u:[{set}])")
  } else {
    format!("[{set}]")
  }
}

/// Generates an expression.
pub fn gen(r: &mut Rng, p: &Palette, depth: usize) -> String {
  match r.below(if depth == 0 { 5 } else { 13 }) {
    0 => p.sym(r).to_string(),
    1 => {
      let n = r.range(1, 4);
      (0..n).map(|_| p.sym(r)).collect()
    }
    2 | 3 => r.pick(&p.classes).to_string(),
    4 => {
      let c = r.pick(&p.classes).to_string();
      let q = quantifier(r);
      format!("{c}{q}")
    }
    5..=7 => {
      let n = r.range(2, 3);
      (0..n).map(|_| gen(r, p, depth - 1)).collect()
    }
    8 | 9 => {
      let n = r.range(2, 4);
      let mut v: Vec<_> = (0..n).map(|_| gen(r, p, depth - 1)).collect();
      if r.chance(1, 10) {
        let at = r.below(v.len());
        v[at].clear();
      }
      if r.chance(1, 5) {
        // a common prefix
        let x = gen(r, p, 0);
        v.iter_mut().for_each(|y| *y = format!("{x}{y}"));
      }
      let g = ["(?:", "(", "(?P<n>"][r.weighted(&[6, 3, 0])];
      format!("{g}{})", v.join("|"))
    }
    10 => {
      let x = gen(r, p, depth - 1);
      let q = quantifier(r);
      format!("({x}){q}")
    }
    11 => {
      let x = gen(r, p, depth - 1);
      let y = gen(r, p, depth - 1);
      let s = p.sym(r);
      match r.below(3) {
        0 => format!("(?:{x}|{y})*{s}"),
        1 => format!("(?:{x}{s}*)*{y}"),
        _ => format!("(?:(?:{x})*(?:{y})*)+{s}"),
      }
    }
    _ => match r.below(4) {
      0 => "()".into(),
      1 => format!("(?i){}", gen(r, p, depth - 1)),
      2 => format!("(?x: {} # comment\n)", gen(r, p, 0)),
      _ => {
        let x = gen(r, p, depth - 1);
        format!("(?:(?:{x})?)*")
      }
    },
  }
}

fn quantifier(r: &mut Rng) -> String {
  match r.below(12) {
    0..=2 => "*".into(),
    3..=5 => "+".into(),
    6 | 7 => "?".into(),
    8 => format!("{{{}}}", r.below(4)),
    9 => format!("{{{},}}", r.below(3)),
    _ => {
      let a = r.below(3);
      format!("{{{a},{}}}", a + r.below(4))
    }
  }
}

/// Adds something that is malformed or not supported.
pub fn damage(r: &mut Rng, e: &str) -> String {
  let bad = *r.pick(&[
    "(", ")", "[", "[z-a]", "{2", "*", "\\", "\\q", "(?z)", "(?P<", "a{3,2}", "\\p{Nothing}", "(?=a)", "\\1", "^", "$", "\\b", "\\B", "\\A", "a*?", "b+?",
    "c??", "d{1,2}?", "(?U:a+)", "[a&&b]", "[^\u{0}-\u{10ffff}]", "(?-u:\\xff)", "(?-u:[^a])", "[a-z]", "\\w", "(?m:^)", "(?R)", "\u{e9}", "(?-u:\\b)",
    "[^\\s\\S]", "\\p{Greek}",
  ]);
  match r.below(4) {
    0 => bad.to_string(),
    1 => format!("{bad}{e}"),
    2 => format!("{e}|{bad}"),
    _ => {
      let at = r.below(e.chars().count() + 1);
      e.chars().take(at).chain(bad.chars()).chain(e.chars().skip(at)).collect()
    }
  }
}
