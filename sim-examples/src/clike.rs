//! Reference of the interpreter.

use crate::lexer::{Fail, Lang, Res, Span, Tokens, K, P};
use std::collections::HashMap;
use std::rc::Rc;

pub static LANG: Lang = Lang::new(
  &[
    r"\s+",
    r"int|void|if|else|while|break|continue|return",
    r"[_a-zA-Z][_a-zA-Z0-9]*",
    r"[0-9]|[1-9][0-9]+|0x[0-9a-fA-F]+",
    r"\+|-|\*|/|%|<|>|<=|>=|==|!=|&&|\|\||!|=",
    r".",
  ],
  "integer-literal",
  |t, s, _| match t {
    1 => Ok(K::Text(WORD, s.into())),
    2 => Ok(K::Text("identifier", s.into())),
    3 => match s.strip_prefix("0x") {
      Some(h) => u64::from_str_radix(h, 16),
      None => s.parse(),
    }
    .map(K::Int)
    .map_err(|_| "integer-literal"),
    4 => Ok(K::Text(OP, s.into())),
    _ => Ok(K::Text(OTHER, s.into())),
  },
);

const WORD: &str = "keyword";
const OP: &str = "operator";
const OTHER: &str = "other character";
const IDENT: P = P::Kind("identifier", "identifier");
const NUM: P = P::Number("integer literal");

const fn w(s: &'static str) -> P {
  P::Is(WORD, s)
}
const fn o(s: &'static str) -> P {
  P::Is(OP, s)
}
const fn c(s: &'static str) -> P {
  P::Is(OTHER, s)
}

fn join(a: Span, b: Span) -> Span {
  (a.0, b.1)
}

// ---- syntax

pub struct Exp {
  span: Span,
  kind: E,
}

enum E {
  /// Operands and operators of one level, at least two operands.
  Level(Vec<Exp>, Vec<&'static str>),
  Unary(&'static str, Box<Exp>),
  Paren(Box<Exp>),
  Call(String, Span, Vec<Exp>),
  Access(String, Span, Option<Box<Exp>>),
  Int(u64),
}

enum Init {
  List(Vec<Exp>),
  Exp(Exp),
}

struct VarDef {
  name: String,
  at: Span,
  dim: Option<u64>,
  init: Option<(Init, Span)>,
}

struct Block {
  items: Vec<Stmt>,
  span: Span,
}

enum Stmt {
  Decl(Vec<VarDef>),
  Empty,
  Exp(Exp),
  Assign(Exp, Exp),
  Block(Block),
  If(Exp, Box<Stmt>, Option<Box<Stmt>>),
  While(Exp, Box<Stmt>),
  Break,
  Continue,
  Return(Exp),
}

struct Func {
  name: String,
  at: Span,
  params: Vec<String>,
  block: Block,
}

/// Levels of operators, from the weakest.
const LEVELS: &[&[&str]] = &[
  &["||"],
  &["&&"],
  &["==", "!="],
  &["<", ">", "<=", ">="],
  &["+", "-"],
  &["*", "/", "%"],
];

type T<'a, 'b> = &'a mut Tokens<'b>;

fn at_exp(t: T) -> Res<bool> {
  for p in [o("+"), o("-"), o("!"), c("(")] {
    if t.at(p)? {
      return Ok(true);
    }
  }
  Ok(t.at_all(&[IDENT, c("(")])? || t.at(IDENT)? || t.at(NUM)?)
}

fn exp(t: T) -> Res<Exp> {
  level(t, 0)
}

fn level(t: T, l: usize) -> Res<Exp> {
  let Some(ops) = LEVELS.get(l) else { return unary(t) };
  let mut v = vec![level(t, l + 1)?];
  let mut s = Vec::new();
  'more: loop {
    for &op in *ops {
      if t.at(o(op))? {
        t.take(o(op))?;
        s.push(op);
        v.push(level(t, l + 1)?);
        continue 'more;
      }
    }
    break;
  }
  if s.is_empty() {
    return Ok(v.pop().unwrap());
  }
  Ok(Exp {
    span: join(v[0].span, v[v.len() - 1].span),
    kind: E::Level(v, s),
  })
}

fn unary(t: T) -> Res<Exp> {
  for op in ["+", "-", "!"] {
    if t.at(o(op))? {
      let at = t.take(o(op))?.span;
      let e = unary(t)?;
      return Ok(Exp {
        span: join(at, e.span),
        kind: E::Unary(op, Box::new(e)),
      });
    }
  }
  if t.at(c("("))? {
    let l = t.take(c("("))?.span;
    let e = exp(t)?;
    let r = t.take(c(")"))?.span;
    return Ok(Exp {
      span: join(l, r),
      kind: E::Paren(Box::new(e)),
    });
  }
  if t.at_all(&[IDENT, c("(")])? {
    let (name, at) = t.text(IDENT)?;
    t.take(c("("))?;
    let args = exps(t)?;
    let r = t.take(c(")"))?.span;
    return Ok(Exp {
      span: join(at, r),
      kind: E::Call(name, at, args),
    });
  }
  if t.at(IDENT)? {
    let (name, at) = t.text(IDENT)?;
    let mut span = at;
    let mut index = None;
    if t.at(c("["))? {
      t.take(c("["))?;
      index = Some(Box::new(exp(t)?));
      span = join(at, t.take(c("]"))?.span);
    }
    return Ok(Exp {
      span,
      kind: E::Access(name, at, index),
    });
  }
  let n = t.take(NUM)?;
  match n.k {
    K::Int(i) => Ok(Exp {
      span: n.span,
      kind: E::Int(i),
    }),
    _ => unreachable!(),
  }
}

fn exps(t: T) -> Res<Vec<Exp>> {
  let mut v = Vec::new();
  if at_exp(t)? {
    v.push(exp(t)?);
    while t.at(c(","))? {
      t.take(c(","))?;
      v.push(exp(t)?);
    }
  }
  Ok(v)
}

fn var_def(t: T) -> Res<VarDef> {
  let (name, at) = t.text(IDENT)?;
  let mut dim = None;
  if t.at(c("["))? {
    t.take(c("["))?;
    dim = match t.take(NUM)?.k {
      K::Int(i) => Some(i),
      _ => unreachable!(),
    };
    t.take(c("]"))?;
  }
  let mut init = None;
  if t.at(o("="))? {
    t.take(o("="))?;
    init = Some(if t.at(c("{"))? {
      let l = t.take(c("{"))?.span;
      let v = exps(t)?;
      let r = t.take(c("}"))?.span;
      (Init::List(v), join(l, r))
    } else {
      let e = exp(t)?;
      let span = e.span;
      (Init::Exp(e), span)
    });
  }
  Ok(VarDef { name, at, dim, init })
}

fn decl(t: T) -> Res<Vec<VarDef>> {
  t.take(w("int"))?;
  let mut v = vec![var_def(t)?];
  while t.at(c(","))? {
    t.take(c(","))?;
    v.push(var_def(t)?);
  }
  t.take(c(";"))?;
  Ok(v)
}

fn block(t: T) -> Res<Block> {
  let l = t.take(c("{"))?.span;
  let mut items = Vec::new();
  while at_item(t)? {
    items.push(if t.at(w("int"))? { Stmt::Decl(decl(t)?) } else { stmt(t)? });
  }
  let r = t.take(c("}"))?.span;
  Ok(Block {
    items,
    span: join(l, r),
  })
}

fn at_item(t: T) -> Res<bool> {
  if t.at(w("int"))? || t.at(c(";"))? || at_exp(t)? || t.at(c("{"))? {
    return Ok(true);
  }
  for s in ["if", "while", "break", "continue", "return"] {
    if t.at(w(s))? {
      return Ok(true);
    }
  }
  Ok(false)
}

fn stmt(t: T) -> Res<Stmt> {
  if t.at(c(";"))? {
    t.take(c(";"))?;
    return Ok(Stmt::Empty);
  }
  if at_exp(t)? {
    let e = exp(t)?;
    let s = if t.at(o("="))? {
      t.take(o("="))?;
      Stmt::Assign(e, exp(t)?)
    } else {
      Stmt::Exp(e)
    };
    t.take(c(";"))?;
    return Ok(s);
  }
  if t.at(c("{"))? {
    return Ok(Stmt::Block(block(t)?));
  }
  if t.at(w("if"))? {
    t.take(w("if"))?;
    t.take(c("("))?;
    let e = exp(t)?;
    t.take(c(")"))?;
    let a = Box::new(stmt(t)?);
    let mut b = None;
    if t.at(w("else"))? {
      t.take(w("else"))?;
      b = Some(Box::new(stmt(t)?));
    }
    return Ok(Stmt::If(e, a, b));
  }
  if t.at(w("while"))? {
    t.take(w("while"))?;
    t.take(c("("))?;
    let e = exp(t)?;
    t.take(c(")"))?;
    return Ok(Stmt::While(e, Box::new(stmt(t)?)));
  }
  for (s, r) in [("break", Stmt::Break), ("continue", Stmt::Continue)] {
    if t.at(w(s))? {
      t.take(w(s))?;
      t.take(c(";"))?;
      return Ok(r);
    }
  }
  t.take(w("return"))?;
  let e = exp(t)?;
  t.take(c(";"))?;
  Ok(Stmt::Return(e))
}

fn func(t: T) -> Res<Func> {
  t.take(w("int"))?;
  let (name, at) = t.text(IDENT)?;
  t.take(c("("))?;
  let mut params = Vec::new();
  if t.at(w("int"))? {
    loop {
      t.take(w("int"))?;
      params.push(t.text(IDENT)?.0);
      if !t.at(c(","))? {
        break;
      }
      t.take(c(","))?;
    }
  }
  t.take(c(")"))?;
  let block = block(t)?;
  Ok(Func {
    name,
    at,
    params,
    block,
  })
}

// ---- evaluation

enum Val {
  Int(i32),
  Array(Vec<i32>),
}

/// Why a statement or expression was left.
enum Stop {
  Fail(Fail),
  Break,
  Continue,
  Return(i32),
}

impl From<Fail> for Stop {
  fn from(f: Fail) -> Self {
    Self::Fail(f)
  }
}

type Ev<V> = Result<V, Stop>;

fn fail<V>(at: Span, msg: impl Into<String>) -> Ev<V> {
  Err(Stop::Fail(Fail::At(msg.into(), at)))
}

/// The program does something that has no defined result.
fn undefined<V>() -> Ev<V> {
  Err(Stop::Fail(Fail::Undefined))
}

const TYPE: &str = "type mismatch, expected integer type";

/// Known defects of the program.
#[derive(Clone, Copy, Default)]
pub struct Defects {
  /// Operators are folded from the right.
  pub right: bool,
  /// The scopes of blocks that are left by `break` or `continue` stay open.
  pub leak: bool,
}

/// What a read of a line of the standard input gives.
pub type Line = Result<String, ()>;

struct Machine<'a> {
  global: HashMap<String, Val>,
  local: Vec<HashMap<String, Val>>,
  funcs: HashMap<String, Rc<Func>>,
  defects: Defects,
  steps: usize,
  depth: usize,
  lines: &'a mut dyn FnMut() -> Line,
  out: &'a mut String,
}

impl Machine<'_> {
  fn tick(&mut self) -> Ev<()> {
    self.steps += 1;
    if self.steps > 6000 {
      return undefined();
    }
    Ok(())
  }

  fn var(&mut self, name: &str, at: Span) -> Ev<&mut Val> {
    let scope = self.local.iter().rposition(|s| s.contains_key(name));
    let v = match scope {
      Some(i) => self.local[i].get_mut(name),
      None => self.global.get_mut(name),
    };
    match v {
      Some(v) => Ok(v),
      None => fail(at, format!("variable `{name}` not found")),
    }
  }

  fn apply(op: &str, l: i32, r: i32) -> Ev<i32> {
    let r = match op {
      "==" => Some((l == r) as i32),
      "!=" => Some((l != r) as i32),
      "<" => Some((l < r) as i32),
      ">" => Some((l > r) as i32),
      "<=" => Some((l <= r) as i32),
      ">=" => Some((l >= r) as i32),
      "+" => l.checked_add(r),
      "-" => l.checked_sub(r),
      "*" => l.checked_mul(r),
      "/" => l.checked_div(r),
      "%" => l.checked_rem(r),
      _ => unreachable!(),
    };
    r.map_or_else(undefined, Ok)
  }

  fn exp(&mut self, e: &Exp) -> Ev<i32> {
    self.tick()?;
    match &e.kind {
      E::Level(es, ops) if ops[0] == "||" || ops[0] == "&&" => {
        let or = ops[0] == "||";
        for x in &es[..es.len() - 1] {
          let v = self.exp(x)?;
          if (v != 0) == or {
            return Ok(or as i32);
          }
        }
        self.exp(&es[es.len() - 1])
      }
      E::Level(es, ops) => {
        if self.defects.right {
          let mut v = es.iter().map(|x| self.exp(x)).collect::<Ev<Vec<_>>>()?;
          let mut r = v.pop().unwrap();
          for op in ops.iter().rev() {
            r = Self::apply(op, v.pop().unwrap(), r)?;
          }
          return Ok(r);
        }
        let mut l = self.exp(&es[0])?;
        for (op, x) in ops.iter().zip(&es[1..]) {
          let r = self.exp(x)?;
          l = Self::apply(op, l, r)?;
        }
        Ok(l)
      }
      E::Unary(op, x) => {
        let v = self.exp(x)?;
        match *op {
          "+" => Ok(v),
          "-" => v.checked_neg().map_or_else(undefined, Ok),
          _ => Ok((v == 0) as i32),
        }
      }
      E::Paren(x) => self.exp(x),
      E::Int(i) => Ok(*i as i32),
      E::Access(name, at, index) => {
        let index = self.index(index)?;
        match (self.var(name, *at)?, index) {
          (Val::Int(i), None) => Ok(*i),
          (Val::Array(a), Some((i, at))) => match a.get(i as usize).filter(|_| i >= 0) {
            Some(v) => Ok(*v),
            None => fail(at, format!("index {i} out of bounds, the length is {}", a.len())),
          },
          (Val::Int(_), Some(_)) => fail(e.span, "integer type can not be indexed"),
          (Val::Array(_), None) => fail(e.span, TYPE),
        }
      }
      E::Call(name, at, args) => {
        let args = args.iter().map(|x| self.exp(x)).collect::<Ev<Vec<_>>>()?;
        self.call(name, *at, args)
      }
    }
  }

  fn index(&mut self, index: &Option<Box<Exp>>) -> Ev<Option<(i32, Span)>> {
    Ok(match index {
      Some(x) => Some((self.exp(x)?, x.span)),
      None => None,
    })
  }

  fn call(&mut self, name: &str, at: Span, args: Vec<i32>) -> Ev<i32> {
    let count = |n: usize| match args.len() == n {
      true => Ok(()),
      false => fail(at, format!("expected {n} arguments, found {}", args.len())),
    };
    let Some(f) = self.funcs.get(name).cloned() else {
      match name {
        "getint" => {
          count(0)?;
          let Ok(line) = (self.lines)() else {
            return fail(at, "failed to read line from stdin");
          };
          let line = line.trim();
          return line.parse().or_else(|_| fail(at, format!("invalid integer `{line}`")));
        }
        "putint" => {
          count(1)?;
          self.out.push_str(&format!("{}\n", args[0]));
          return Ok(0);
        }
        _ => return fail(at, format!("function `{name}` not found")),
      }
    };
    count(f.params.len())?;
    self.depth += 1;
    if self.depth > 30 {
      return undefined();
    }
    let scope = f.params.iter().cloned().zip(args.iter().copied().map(Val::Int)).collect();
    let old = std::mem::replace(&mut self.local, vec![scope]);
    let r = self.body(&f);
    self.local = old;
    self.depth -= 1;
    r
  }

  fn body(&mut self, f: &Func) -> Ev<i32> {
    match self.block(&f.block) {
      Err(Stop::Return(v)) => Ok(v),
      Err(Stop::Fail(f)) => Err(Stop::Fail(f)),
      // outside of a loop
      Err(_) => undefined(),
      Ok(()) => fail(f.block.span, "function has no `return`"),
    }
  }

  fn block(&mut self, b: &Block) -> Ev<()> {
    self.local.push(HashMap::new());
    let r = b.items.iter().try_for_each(|s| self.stmt(s));
    if !(self.defects.leak && matches!(r, Err(Stop::Break | Stop::Continue))) {
      self.local.pop();
    }
    r
  }

  fn stmt(&mut self, s: &Stmt) -> Ev<()> {
    self.tick()?;
    match s {
      Stmt::Decl(v) => self.decl(v),
      Stmt::Empty => Ok(()),
      Stmt::Exp(e) => self.exp(e).map(|_| ()),
      Stmt::Assign(l, r) => {
        let v = self.exp(r)?;
        let E::Access(name, at, index) = &l.kind else {
          return fail(l.span, "invalid left-value expression");
        };
        let index = self.index(index)?;
        match (self.var(name, *at)?, index) {
          (Val::Int(i), None) => *i = v,
          (Val::Array(a), Some((i, at))) => {
            let len = a.len();
            match a.get_mut(i as usize).filter(|_| i >= 0) {
              Some(x) => *x = v,
              None => return fail(at, format!("index {i} out of bounds, the length is {len}")),
            }
          }
          (Val::Int(_), Some(_)) => return fail(l.span, "integer type can not be indexed"),
          (Val::Array(_), None) => return fail(l.span, TYPE),
        }
        Ok(())
      }
      Stmt::Block(b) => self.block(b),
      Stmt::If(e, a, b) => {
        if self.exp(e)? != 0 {
          return self.stmt(a);
        }
        b.as_ref().map_or(Ok(()), |b| self.stmt(b))
      }
      Stmt::While(e, b) => {
        while self.exp(e)? != 0 {
          match self.stmt(b) {
            Err(Stop::Break) => break,
            Err(Stop::Continue) => {}
            r => r?,
          }
        }
        Ok(())
      }
      Stmt::Break => Err(Stop::Break),
      Stmt::Continue => Err(Stop::Continue),
      Stmt::Return(e) => Err(Stop::Return(self.exp(e)?)),
    }
  }

  fn decl(&mut self, v: &[VarDef]) -> Ev<()> {
    for d in v {
      let init = match &d.init {
        Some((Init::List(es), at)) => {
          let v = es.iter().map(|x| self.exp(x)).collect::<Ev<Vec<_>>>()?;
          Some((Val::Array(v), *at))
        }
        Some((Init::Exp(e), at)) => Some((Val::Int(self.exp(e)?), *at)),
        None => None,
      };
      let v = match (d.dim, init) {
        (Some(n), Some((Val::Array(a), at))) if a.len() != n as usize => {
          return fail(at, format!("expected {n}-element aggregate, found {}-element aggregate", a.len()));
        }
        (None, Some((Val::Array(_), at))) => return fail(at, "expected integer, found array"),
        (Some(_), Some((Val::Int(_), at))) => return fail(at, "expected array, found integer"),
        (_, Some((v, _))) => v,
        (Some(n), None) if n > 4096 => return undefined(),
        (Some(n), None) => Val::Array(vec![0; n as usize]),
        (None, None) => Val::Int(0),
      };
      let scope = self.local.last_mut().unwrap_or(&mut self.global);
      if scope.insert(d.name.clone(), v).is_some() {
        return fail(d.at, format!("variable `{}` has already been defined", d.name));
      }
    }
    Ok(())
  }
}

fn plain<V>(r: Ev<V>) -> Res<V> {
  r.map_err(|s| match s {
    Stop::Fail(f) => f,
    _ => Fail::Undefined,
  })
}

/// Runs a program, the result is the code it exits with.
pub fn run(t: T, defects: Defects, lines: &mut dyn FnMut() -> Line, out: &mut String) -> Res<i32> {
  let mut m = Machine {
    global: HashMap::new(),
    local: Vec::new(),
    funcs: HashMap::new(),
    defects,
    steps: 0,
    depth: 0,
    lines,
    out,
  };
  loop {
    if t.at_all(&[w("int"), IDENT, c("(")])? {
      let f = func(t)?;
      let (name, at) = (f.name.clone(), f.at);
      if m.funcs.insert(name.clone(), Rc::new(f)).is_some() {
        return Err(Fail::At(format!("function `{name}` has already been defined"), at));
      }
    } else if t.at(w("int"))? {
      let v = decl(t)?;
      plain(m.decl(&v))?;
    } else {
      t.take(P::Eof)?;
      break;
    }
  }
  match m.funcs.get("main").cloned() {
    Some(f) => plain(m.body(&f)),
    None => Err(Fail::Plain("function `main` not found".into())),
  }
}
