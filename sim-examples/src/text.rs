//! Random sources of the programs, mostly right.

use simcore::Rng;

const BLANKS: &[&str] = &["\t", "  ", "\r\n", " \t", "\n\n", "\n  "];

/// The tokens as a text, with mistakes, which are taken from `bad`.
fn finish(r: &mut Rng, mut toks: Vec<String>, bad: &[&str], glue: bool) -> String {
  let mistakes = [0, 0, 0, 0, 1, 1, 2][r.below(7)];
  for _ in 0..mistakes {
    if toks.is_empty() {
      break;
    }
    let at = r.below(toks.len());
    match r.below(6) {
      0 => drop(toks.remove(at)),
      1 => toks.insert(at, toks[r.below(toks.len())].clone()),
      2 => {
        let other = r.below(toks.len());
        toks.swap(at, other);
      }
      3 => toks.truncate(at),
      _ => toks.insert(at, r.pick(bad).to_string()),
    }
  }
  let style = r.below(4);
  let mut s = String::new();
  for t in &toks {
    match r.weighted(&[10, [0, 4, 10, 1][style], [1, 1, 3, 5][style], 1]) {
      0 => s.push(' '),
      1 => {
        // also where it changes the tokens
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || "_.\"".contains(c));
        let stick = glue || (word(s.chars().last()) && word(t.chars().next()));
        if stick && !r.chance(1, 20) {
          s.push(' ');
        }
      }
      2 => s.push('\n'),
      _ => s.push_str(r.pick(BLANKS)),
    }
    s.push_str(t);
  }
  if r.chance(2, 3) {
    s.push_str(r.pick(&["\n", " ", "\n\n"]));
  }
  if r.chance(1, 12) {
    // longer than the buffers
    s = format!("{}{s}", " ".repeat(r.range(900, 1030)));
  }
  s
}

fn push(out: &mut Vec<String>, s: impl Into<String>) {
  out.push(s.into());
}

// ---- arithmetic

fn sum(r: &mut Rng, out: &mut Vec<String>, d: usize) {
  let n = if d > 4 || out.len() > 40 { 1 } else { [1, 1, 2, 2, 3, 4][r.below(6)] };
  for i in 0..n {
    if i > 0 {
      push(out, *r.pick(&["+", "-", "-", "*", "/", "%"]));
    }
    while r.chance(1, 8) {
      push(out, "-");
    }
    if d < 5 && r.chance(1, 4) {
      push(out, "(");
      sum(r, out, d + 1);
      push(out, ")");
    } else {
      let n = match r.below(6) {
        0 | 1 => r.below(10).to_string(),
        2 => r.below(1000).to_string(),
        3 => format!("{}.{}", r.below(50), r.below(1000)),
        4 => r.pick(&[".5", "1e3", "2.5E-3", "00", "1e+2", "9007199254740993", ".25e1", "1e400", "0.1"]).to_string(),
        _ => r.range(1, 9).to_string(),
      };
      push(out, n);
    }
  }
}

pub fn calc(r: &mut Rng) -> String {
  let mut out = Vec::new();
  sum(r, &mut out, 0);
  finish(r, out, &["+", "-", "(", ")", "1.", "1e", "x", "2", ",", "1e+", "é", "**", "."], false)
}

// ---- lists

pub fn sexp(r: &mut Rng) -> String {
  let mut out = Vec::new();
  let atoms = ["a", "foo", "1", "漢字", "\"x\"", "x'", "+", "é\u{301}", "#t", "\\n", "b,c", "'q", "\u{1f600}", "<=?"];
  for _ in 0..r.range(1, 5) {
    let mut depth = 0;
    loop {
      match r.below(5) {
        0 | 1 => push(&mut out, *r.pick(&atoms)),
        2 if depth < 6 => {
          depth += 1;
          push(&mut out, "(");
        }
        _ if depth > 0 => {
          depth -= 1;
          push(&mut out, ")");
        }
        _ => push(&mut out, *r.pick(&atoms)),
      }
      if depth == 0 || out.len() > 60 {
        break;
      }
    }
    (0..depth).for_each(|_| push(&mut out, ")"));
  }
  finish(r, out, &[")", "(", "()", "\u{3000}", "x(y)z"], false)
}

// ---- JSON

const STRINGS: &[&str] = &[
  r#""""#, r#""a""#, r#""b c""#, r#""漢字""#, r#""\"\\\/""#, r#""\b\f\n\r\t""#, r#""\u0041""#, r#""\u0000x""#, r#""é'{}""#, r#""\\u0041""#,
  r#""key""#, r#""k2""#, r#""a:b,c""#, r#""\u1234\u5678""#, r#""😀""#,
];
/// Digits that the program does not understand.
const HEX: &[&str] = &[
  r#""\u00e9""#, r#""\u6F22""#, r#""\ud83d\ude00""#, r#""\u000b1""#, r#""\u00b\u0041""#, r#""\ud800""#, r#""\u00Aa""#, r#""\u001f\u0031\u0032""#,
];

fn json_string(r: &mut Rng, hex: bool, den: usize) -> &'static str {
  let list = if hex && r.chance(1, den) { HEX } else { STRINGS };
  r.pick(list)
}

fn json_value(r: &mut Rng, out: &mut Vec<String>, d: usize, hex: bool) {
  let simple = d > 4 || out.len() > 50;
  match r.below(if simple { 4 } else { 7 }) {
    0 => push(out, *r.pick(&["true", "false", "null"])),
    1 => {
      let n = match r.below(4) {
        0 => r.below(100).to_string(),
        1 => format!("-{}", r.below(10)),
        2 => format!("{}.{}", r.below(100), r.below(1000)),
        _ => r.pick(&["0", "-0", "1e5", "1E-7", "12.5e+3", "1e999", "-1.0", "123456789012345678901234567890"]).to_string(),
      };
      push(out, n);
    }
    2 | 3 => push(out, json_string(r, hex, 3)),
    4 => {
      push(out, "[");
      for i in 0..r.below(5) {
        if i > 0 {
          push(out, ",");
        }
        json_value(r, out, d + 1, hex);
      }
      push(out, "]");
    }
    _ => {
      push(out, "{");
      for i in 0..r.below(5) {
        if i > 0 {
          push(out, ",");
        }
        push(out, json_string(r, hex, 6));
        push(out, ":");
        json_value(r, out, d + 1, hex);
      }
      push(out, "}");
    }
  }
}

pub fn json(r: &mut Rng) -> String {
  let mut out = Vec::new();
  let hex = r.chance(1, 4);
  json_value(r, &mut out, 0, hex);
  finish(
    r,
    out,
    &[",", ":", "]", "}", "01", "-", "1.", "tru", "\"open", r#""\x""#, r#""\u12""#, "\u{3000}", "nulll", "'", "+1", "\"a\tb\"", "1e"],
    false,
  )
}

// ---- programs

struct Prog<'r> {
  r: &'r mut Rng,
  out: Vec<String>,
  /// Variables in scope, and the lengths of arrays.
  vars: Vec<(String, usize)>,
  /// Where the current scope starts.
  scope: usize,
  /// Functions with the number of parameters.
  funcs: Vec<(String, usize)>,
  fresh: usize,
  max: usize,
  input: bool,
}

const NAMES: &[&str] = &["x", "y", "a", "_t", "i1", "ints", "ifx", "n"];

impl Prog<'_> {
  fn p(&mut self, s: impl Into<String>) {
    self.out.push(s.into());
  }

  fn all(&mut self, s: &str) {
    s.split(' ').for_each(|s| self.p(s));
  }

  fn enter(&mut self) -> (usize, usize) {
    let old = (self.vars.len(), self.scope);
    self.scope = self.vars.len();
    old
  }

  fn leave(&mut self, old: (usize, usize)) {
    self.vars.truncate(old.0);
    self.scope = old.1;
  }

  fn full(&self) -> bool {
    self.out.len() > self.max
  }

  fn pick_var(&mut self, array: bool) -> Option<(String, usize)> {
    let v: Vec<_> = self.vars.iter().filter(|v| (v.1 > 0) == array).cloned().collect();
    (!v.is_empty()).then(|| self.r.pick(&v).clone())
  }

  fn value(&mut self, d: usize) {
    let simple = d > 4 || self.full();
    match self.r.below(if simple { 4 } else { 8 }) {
      0 | 1 => {
        let n = match self.r.below(8) {
          0 => self.r.pick(&["0x1F", "100", "0xff", "65536", "2147483647", "4294967295", "0"]).to_string(),
          _ => self.r.below(10).to_string(),
        };
        self.p(n);
      }
      2 | 3 => match self.pick_var(false) {
        Some(v) => self.p(v.0),
        None => self.p("1"),
      },
      4 => match self.pick_var(true) {
        Some((v, n)) => {
          self.p(v);
          self.p("[");
          if self.r.chance(1, 15) {
            self.exp(d + 1);
          } else {
            let i = self.r.below(n).to_string();
            self.p(i);
          }
          self.p("]");
        }
        None => self.p("2"),
      },
      5 => {
        self.p("(");
        self.exp(d + 1);
        self.p(")");
      }
      _ => {
        if self.input && self.r.chance(1, 3) {
          self.all("getint ( )");
        } else if !self.funcs.is_empty() && self.r.chance(2, 3) {
          let (f, n) = self.r.pick(&self.funcs).clone();
          self.p(f);
          self.args(n, d);
        } else {
          self.p("putint");
          self.args(1, d);
        }
      }
    }
  }

  fn args(&mut self, n: usize, d: usize) {
    self.p("(");
    for i in 0..n {
      if i > 0 {
        self.p(",");
      }
      self.exp(d + 1);
    }
    self.p(")");
  }

  fn exp(&mut self, d: usize) {
    let n = if d > 4 || self.full() { 1 } else { [1, 1, 1, 2, 2, 3][self.r.below(6)] };
    for i in 0..n {
      if i > 0 {
        let ops = ["+", "-", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||"];
        let op = *self.r.pick(&ops);
        self.p(op);
        if (op == "/" || op == "%") && self.r.chance(4, 5) {
          let n = self.r.range(1, 5).to_string();
          self.p(n);
          continue;
        }
      }
      while self.r.chance(1, 8) {
        let op = *self.r.pick(&["-", "!", "+"]);
        self.p(op);
      }
      self.value(d);
    }
  }

  fn decl(&mut self, d: usize) {
    self.p("int");
    let n = [1, 1, 1, 2, 3][self.r.below(5)];
    for i in 0..n {
      if i > 0 {
        self.p(",");
      }
      let name = if self.r.chance(1, 8) {
        self.r.pick(NAMES).to_string()
      } else if self.scope > 0 && self.r.chance(1, 3) {
        // hides another one
        self.r.pick(&self.vars[..self.scope]).0.clone()
      } else {
        self.fresh += 1;
        format!("{}{}", self.r.pick(&["v", "_w", "Long_name"]), self.fresh)
      };
      self.p(&name);
      let mut len = 0;
      if self.r.chance(1, 4) {
        len = self.r.range(1, 4);
        self.p("[");
        self.p(len.to_string());
        self.p("]");
        if self.r.chance(2, 3) {
          self.all("= {");
          let n = if self.r.chance(1, 12) { self.r.below(4) } else { len };
          for i in 0..n {
            if i > 0 {
              self.p(",");
            }
            self.exp(d + 1);
          }
          self.p("}");
        }
      } else if self.r.chance(3, 4) {
        self.p("=");
        self.exp(d);
      }
      self.vars.push((name, len));
    }
    self.p(";");
  }

  fn block(&mut self, d: usize) {
    let known = self.enter();
    self.p("{");
    let n = if self.full() { 0 } else { self.r.below(4) };
    for _ in 0..n {
      self.item(d + 1, false);
    }
    self.p("}");
    self.leave(known);
  }

  fn item(&mut self, d: usize, in_loop: bool) {
    if self.r.chance(1, 3) {
      self.decl(d);
    } else {
      self.stmt(d, in_loop);
    }
  }

  fn stmt(&mut self, d: usize, in_loop: bool) {
    let simple = d > 4 || self.full();
    match self.r.below(if simple { 7 } else { 11 }) {
      0 => self.p(";"),
      1 | 2 => {
        self.p("putint");
        self.args(1, d);
        self.p(";");
      }
      3 | 4 => {
        let array = self.r.chance(1, 3);
        match self.pick_var(array) {
          Some((v, n)) => {
            self.p(v);
            if n > 0 {
              self.p("[");
              let i = self.r.below(n).to_string();
              self.p(i);
              self.p("]");
            }
            self.p("=");
            self.exp(d);
            self.p(";");
          }
          None => self.p(";"),
        }
      }
      5 => {
        self.exp(d);
        self.p(";");
      }
      6 => {
        if in_loop && self.r.chance(1, 2) {
          let s = *self.r.pick(&["break ;", "continue ;"]);
          self.all(s);
        } else if self.r.chance(1, 4) {
          self.p("return");
          self.exp(d);
          self.p(";");
        } else {
          self.p(";");
        }
      }
      7 => {
        self.all("if (");
        self.exp(d);
        self.p(")");
        self.branch(d, in_loop);
        if self.r.chance(1, 2) {
          self.p("else");
          self.branch(d, in_loop);
        }
      }
      8 | 9 => {
        // some rounds of a loop
        self.fresh += 1;
        let i = format!("k{}", self.fresh);
        let n = self.r.below(4);
        let outer = self.enter();
        self.vars.push((i.clone(), 0));
        self.all(&format!("{{ int {i} = 0 ; while ( {i} < {n} ) {{ {i} = {i} + 1 ;"));
        let known = self.enter();
        for _ in 0..self.r.below(4) {
          self.item(d + 1, true);
        }
        self.p("}");
        self.leave(known);
        // behind the loop, perhaps one that hides a variable when it is left
        if let Some((v, _)) = self.pick_var(false).filter(|_| self.r.chance(1, 3)) {
          let s = *self.r.pick(&["break", "continue"]);
          let n = self.r.below(9);
          let k = format!("{i}_");
          self.all(&format!("int {k} = 2 ; while ( {k} ) {{ {k} = {k} - 1 ; int {v} = {n} ; {v} = {v} + 1 ; {s} ; }} putint ( {v} ) ;"));
        }
        for _ in 0..self.r.below(3) {
          self.item(d + 1, false);
        }
        self.p("}");
        self.leave(outer);
      }
      _ => self.block(d),
    }
  }

  fn branch(&mut self, d: usize, in_loop: bool) {
    match self.r.below(3) {
      0 => self.stmt(d + 1, in_loop),
      _ => {
        let known = self.enter();
        self.p("{");
        for _ in 0..self.r.below(3) {
          self.item(d + 1, in_loop);
        }
        self.p("}");
        self.leave(known);
      }
    }
  }

  fn func(&mut self, name: &str, params: usize) {
    let known = self.enter();
    self.p("int");
    self.p(name);
    self.p("(");
    for i in 0..params {
      if i > 0 {
        self.p(",");
      }
      let p = format!("p{i}");
      self.p("int");
      self.p(&p);
      self.vars.push((p, 0));
    }
    self.all(") {");
    if params > 0 && self.r.chance(1, 4) {
      // a recursion that ends
      self.all("if ( p0 < 1 || p0 > 5 ) return");
      self.exp(3);
      self.all("; return p0 +");
      self.p(name);
      self.all("( p0 - 1");
      for _ in 1..params {
        self.p(",");
        self.exp(3);
      }
      self.all(") ;");
    }
    let n = self.r.below(5);
    for _ in 0..n {
      self.item(1, false);
    }
    if !self.r.chance(1, 25) {
      self.p("return");
      self.exp(1);
      self.p(";");
    }
    self.p("}");
    self.leave(known);
  }
}

pub fn clike(r: &mut Rng, input: bool, deep: bool) -> String {
  let max = r.range(20, if deep { 260 } else { 120 });
  let mut g = Prog {
    r,
    out: Vec::new(),
    vars: Vec::new(),
    scope: 0,
    funcs: Vec::new(),
    fresh: 0,
    max,
    input,
  };
  for i in 0..g.r.below(4) {
    if g.r.chance(1, 2) {
      g.decl(2);
    } else {
      let n = g.r.below(3);
      let name = format!("f{i}");
      g.func(&name, n);
      g.funcs.push((name, n));
    }
  }
  if !g.r.chance(1, 30) {
    g.func("main", 0);
  }
  let out = g.out;
  finish(
    r,
    out,
    &[
      "{", "}", ";", "int", "else", "18446744073709551616", "0x", "@", "x", "main", "=", "&", "|", "(", ")", "[", "break", "é", "08", "void", "return",
      "1 = 2", "undefined_name",
    ],
    false,
  )
}
