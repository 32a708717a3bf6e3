//! Random programs, mostly right.

use simcore::Rng;

struct Gen<'r> {
  r: &'r mut Rng,
  out: Vec<String>,
  max: usize,
}

const NAMES: &[&str] = &["x", "y1", "_", "fnord", "lets", "αβ", "ことば", "iff", "returns", "e", "truex", "Mut", "f_1"];
const TEXTS: &[&str] = &[
  r#""""#,
  r#""abc""#,
  r#""a b // c""#,
  r#""\"q\"""#,
  r#""\n\t\\""#,
  r#""\u{1F602}""#,
  r#""\x7f\xff""#,
  r#""漢字\'""#,
  r#""/* x""#,
];
const CHARS: &[&str] = &["'a'", r"'\''", "'\"'", r"'\u{e9}'", "'漢'", r"'\\'", "'\u{1f602}'", r"'\0'"];
const BAD: &[&str] = &[
  "12ab", "0x", "0b12", "0o8", "18446744073709551616", "''", "'ab'", r"'\q'", r#""\q""#, r#""\u{d800}""#, "\"open",
  "'", "\"", "/*", "/* *", "@", "#", "&", "|", "€", "\u{1f602}", "\\", "\u{0}", "$", "~",
];

impl Gen<'_> {
  fn p(&mut self, s: &str) {
    self.out.push(s.into());
  }

  fn full(&self) -> bool {
    self.out.len() > self.max
  }

  fn name(&mut self) {
    let n = *self.r.pick(NAMES);
    self.p(n);
  }

  fn item(&mut self) {
    if self.r.chance(1, 3) {
      self.p("fn");
      self.name();
      self.p("(");
      let n = self.r.below(4);
      for i in 0..n {
        if i > 0 {
          self.p(",");
        }
        self.mutable();
        self.opt_type();
      }
      self.p(")");
      self.opt_type();
      self.block(0);
    } else {
      self.stmt(0);
    }
  }

  fn mutable(&mut self) {
    if self.r.chance(1, 3) {
      self.p("mut");
    }
    self.name();
  }

  fn opt_type(&mut self) {
    if self.r.chance(1, 2) {
      self.p(":");
      let n = self.r.below(3);
      (0..n).for_each(|_| self.p("["));
      self.name();
      (0..n).for_each(|_| self.p("]"));
    }
  }

  fn block(&mut self, d: usize) {
    self.p("{");
    let n = if self.full() { 0 } else { self.r.below(4) };
    for _ in 0..n {
      self.stmt(d + 1);
    }
    self.p("}");
  }

  fn stmt(&mut self, d: usize) {
    let simple = d > 4 || self.full();
    match self.r.below(if simple { 4 } else { 10 }) {
      0 => {
        self.expr(d);
        self.p(";");
      }
      1 => (0..self.r.range(1, 3)).for_each(|_| self.p(";")),
      2 => {
        self.name();
        self.p("=");
        self.expr(d);
        self.p(";");
      }
      3 => {
        self.p("return");
        if self.r.chance(1, 2) {
          self.expr(d);
        }
        if self.r.chance(3, 4) {
          self.p(";");
        }
      }
      4 | 5 => {
        self.p("let");
        self.mutable();
        self.opt_type();
        self.p("=");
        self.expr(d);
        self.p(";");
      }
      6 => {
        self.p("if");
        self.expr(d);
        self.block(d);
        while self.r.chance(1, 3) {
          self.p("else");
          self.p("if");
          self.expr(d);
          self.block(d);
        }
        if self.r.chance(1, 3) {
          self.p("else");
          self.block(d);
        }
      }
      7 => {
        self.p("while");
        self.expr(d);
        self.block(d);
      }
      8 => self.block(d),
      _ => {
        self.expr(d);
        self.p(";");
      }
    }
  }

  fn expr(&mut self, d: usize) {
    let n = if self.full() || d > 5 { 1 } else { [1, 1, 1, 2, 2, 3][self.r.below(6)] };
    for i in 0..n {
      if i > 0 {
        let ops = [
          "||", "&&", "<", ">", "<=", ">=", "==", "!=", "+", "-", "*", "/", "%",
        ];
        let o = *self.r.pick(&ops);
        self.p(o);
      }
      while self.r.chance(1, 6) {
        let o = *self.r.pick(&["-", "!"]);
        self.p(o);
      }
      self.value(d + 1);
    }
  }

  fn value(&mut self, d: usize) {
    let simple = d > 5 || self.full();
    match self.r.below(if simple { 6 } else { 10 }) {
      0 | 1 => self.name(),
      2 => {
        let n = *self.r.pick(&["0", "1", "42", "0x1f", "0b101", "0o17", "007", "18446744073709551615"]);
        self.p(n);
      }
      3 => {
        for _ in 0..self.r.range(1, 2) {
          let t = *self.r.pick(TEXTS);
          self.p(t);
        }
      }
      4 => {
        let t = *self.r.pick(CHARS);
        self.p(t);
      }
      5 => {
        let t = *self.r.pick(&["true", "false"]);
        self.p(t);
      }
      6 => {
        self.p("(");
        self.expr(d);
        self.p(")");
      }
      7 => {
        self.p("[");
        self.elements(d);
        self.p("]");
      }
      _ => {
        self.name();
        self.p("(");
        self.elements(d);
        self.p(")");
      }
    }
  }

  fn elements(&mut self, d: usize) {
    let n = self.r.below(4);
    for i in 0..n {
      self.expr(d);
      if i + 1 < n || self.r.chance(1, 4) {
        self.p(",");
      }
    }
  }
}

/// A program.
pub fn program(r: &mut Rng, deep: bool) -> String {
  let items = r.range(1, if deep { 12 } else { 6 });
  let max = r.range(2, if deep { 120 } else { 40 });
  // sometimes long files
  let long = r.chance(1, 1500);
  let (items, max) = if long { (r.range(50, 300), 8000) } else { (items, max) };
  let mut g = Gen { r, out: Vec::new(), max };
  for _ in 0..items {
    g.item();
    if g.full() {
      break;
    }
  }
  let mut toks = g.out;
  // mistakes
  let mistakes = [0, 0, 0, 0, 1, 1, 2, 4][r.below(8)];
  for _ in 0..mistakes {
    if toks.is_empty() {
      break;
    }
    let at = r.below(toks.len());
    match r.below(6) {
      0 => drop(toks.remove(at)),
      1 => toks.insert(at, toks[r.below(toks.len())].clone()),
      2 => {
        let other = r.below(toks.len());
        toks.swap(at, other);
      }
      3 => toks.truncate(at),
      _ => toks.insert(at, r.pick(BAD).to_string()),
    }
  }
  // blanks
  let style = r.below(4);
  let mut s = String::new();
  for t in &toks {
    match r.weighted(&[10, [0, 4, 1, 1][style], [1, 1, 6, 2][style], 1, [0, 1, 0, 4][style]]) {
      0 => s.push(' '),
      1 => {
        // also where it changes the tokens
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        if word(s.chars().last()) && word(t.chars().next()) && !r.chance(1, 12) {
          s.push(' ');
        }
      }
      2 => (0..r.range(1, 2)).for_each(|_| s.push('\n')),
      3 => s.push_str(r.pick(&["\t", "  ", "\r\n", " \t", "\u{3000}"])),
      _ => s.push_str(r.pick(&["// note\n", "/* a */", "/**/", "/* 漢\n * x **/ ", "//\n", " /* '\" */\n"])),
    }
    s.push_str(t);
  }
  if r.chance(1, 2) {
    s.push_str(r.pick(&["\n", " ", "\n\n", "// end", "/* end */"]));
  }
  if r.chance(1, 10) {
    // longer than the buffers
    let pad = "x".repeat(r.range(900, 1030));
    s = match r.below(3) {
      0 => format!("//{pad}\n{s}"),
      1 => format!("{}{s}", " ".repeat(pad.len())),
      _ => format!("\"{pad}\";{s}"),
    };
  }
  s
}
