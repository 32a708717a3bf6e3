//! Reference model of excerpts in reports.

use unicode_width::UnicodeWidthChar;

fn cell(c: char) -> usize {
  match c {
    '\t' => 2,
    c => c.width().unwrap_or(0),
  }
}

/// Display cells of the first `n` characters of a line.
fn cells(line: &str, n: u32) -> usize {
  line.chars().take(n as usize).map(cell).sum()
}

/// The excerpt for a span of a document.
pub fn excerpt(doc: &str, s: (u32, u32), e: (u32, u32)) -> String {
  if s.1 == 0 || e.1 == 0 {
    return String::new();
  }
  let lines: Vec<&str> = doc.lines().collect();
  let line = |n: u32| lines.get(n as usize - 1).copied().unwrap_or("");
  let shown = |n: u32| line(n).replace('\t', "  ");
  if s.0 >= e.0 {
    let n = s.0.to_string();
    let pad = " ".repeat(n.len());
    let first = cells(line(s.0), s.1).saturating_sub(1);
    let len = (cells(line(s.0), e.1.max(s.1)) - first).max(1);
    return format!(
      "{pad} |\n{n} | {}\n{pad} | {}{}\n",
      shown(s.0),
      " ".repeat(first),
      "^".repeat(len)
    );
  }
  let w = e.0.to_string().len().max(2);
  let mut out = format!("{:w$} |\n", "");
  out += &format!("{:w$} |   {}\n", s.0, shown(s.0));
  out += &format!("{:w$} |  {}^\n", "", "_".repeat(cells(line(s.0), s.1)));
  let mid: Vec<u32> = (s.0 + 1..e.0).collect();
  let row = |n: u32| format!("{n:w$} | | {}\n", shown(n));
  if mid.len() <= 4 {
    mid.iter().for_each(|n| out += &row(*n));
  } else {
    out += &row(mid[0]);
    out += &row(mid[1]);
    out += &format!("{} | |\n", ".".repeat(w));
    out += &row(*mid.last().unwrap());
  }
  out += &row(e.0);
  let end = cells(line(e.0), e.1);
  let bar = if end == 0 { ' ' } else { '|' };
  out += &format!("{:w$} | {bar}{}^\n", "", "_".repeat(end));
  out
}
