//! Generic delta debugging over plans written as JSON.

use serde_json::{Number, Value};

/// Path to a node of a JSON value.
type Path = Vec<usize>;

fn children(v: &Value) -> usize {
  match v {
    Value::Array(a) => a.len(),
    Value::Object(o) => o.len(),
    _ => 0,
  }
}

fn child(v: &Value, i: usize) -> Option<&Value> {
  match v {
    Value::Array(a) => a.get(i),
    Value::Object(o) => o.values().nth(i),
    _ => None,
  }
}

fn get_mut<'a>(v: &'a mut Value, p: &[usize]) -> Option<&'a mut Value> {
  let mut v = v;
  for &i in p {
    v = match v {
      Value::Array(a) => a.get_mut(i)?,
      Value::Object(o) => o.values_mut().nth(i)?,
      _ => return None,
    };
  }
  Some(v)
}

fn get<'a>(v: &'a Value, p: &[usize]) -> Option<&'a Value> {
  p.iter().try_fold(v, |v, &i| child(v, i))
}

fn paths(v: &Value, cur: &mut Path, out: &mut Vec<Path>) {
  out.push(cur.clone());
  for i in 0..children(v) {
    cur.push(i);
    paths(child(v, i).unwrap(), cur, out);
    cur.pop();
  }
}

fn with(v: &Value, p: &[usize], f: impl FnOnce(&mut Value)) -> Value {
  let mut v = v.clone();
  if let Some(n) = get_mut(&mut v, p) {
    f(n);
  }
  v
}

/// Minimises `plan`: repeatedly applies simplifications that keep `fails` true.
/// `fails` returns `None` when the budget is used up.
pub fn minimise(plan: &Value, mut fails: impl FnMut(&Value) -> Option<bool>) -> Value {
  let mut best = plan.clone();
  macro_rules! attempt {
    ($cand:expr) => {{
      let cand = $cand;
      if cand != best {
        match fails(&cand) {
          None => return best,
          Some(true) => {
            best = cand;
            true
          }
          Some(false) => false,
        }
      } else {
        false
      }
    }};
  }
  loop {
    let before = best.clone();
    let mut ps = Vec::new();
    paths(&best, &mut Vec::new(), &mut ps);
    for p in ps {
      let Some(node) = get(&best, &p).cloned() else {
        continue;
      };
      match node {
        Value::Array(a) if !a.is_empty() => {
          // remove chunks of decreasing size
          let mut chunk = a.len();
          while chunk > 0 {
            let mut i = 0;
            loop {
              let len = match get(&best, &p) {
                Some(Value::Array(a)) => a.len(),
                _ => break,
              };
              if i >= len {
                break;
              }
              let end = (i + chunk).min(len);
              let ok = attempt!(with(&best, &p, |n| {
                if let Value::Array(a) = n {
                  a.drain(i..end);
                }
              }));
              if !ok {
                i += chunk;
              }
            }
            chunk /= 2;
          }
        }
        Value::String(s) if !s.is_empty() => {
          let mut cur: Vec<char> = s.chars().collect();
          let mut chunk = cur.len();
          while chunk > 0 {
            let mut i = 0;
            while i < cur.len() {
              let mut c = cur.clone();
              c.drain(i..(i + chunk).min(c.len()));
              let text: String = c.iter().collect();
              if attempt!(with(&best, &p, |n| *n = Value::String(text))) {
                cur = c;
              } else {
                i += chunk;
              }
            }
            chunk /= 2;
          }
        }
        Value::Number(n) => {
          if let Some(x) = n.as_u64() {
            let mut lo = 0u64;
            let mut hi = x;
            // smallest failing value, assuming monotonicity
            if x > 0 && attempt!(with(&best, &p, |n| *n = Value::Number(Number::from(0)))) {
              continue;
            }
            let mut tries = 0;
            while lo + 1 < hi && tries < 12 {
              let mid = lo + (hi - lo) / 2;
              if attempt!(with(&best, &p, |n| *n = Value::Number(Number::from(mid)))) {
                hi = mid;
              } else {
                lo = mid;
              }
              tries += 1;
            }
          }
        }
        Value::Bool(true) => {
          attempt!(with(&best, &p, |n| *n = Value::Bool(false)));
        }
        _ => {}
      }
    }
    if best == before {
      return best;
    }
  }
}
