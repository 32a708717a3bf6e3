//! Texts with escape sequences for colours.

/// Removes the sequences that set colours (`ESC [ numbers m`), returns the text
/// and for each of its characters the sequences that are in effect.
pub fn strip(text: &str) -> (String, Vec<String>) {
  let (mut plain, mut styles, mut style) = (String::new(), Vec::new(), String::new());
  let mut rest = text;
  while let Some(c) = rest.chars().next() {
    if let Some(args) = rest.strip_prefix("\u{1b}[") {
      let n = args.find(|c: char| !c.is_ascii_digit() && c != ';').unwrap_or(args.len());
      if args[n..].starts_with('m') {
        match &args[..n] {
          "" | "0" => style.clear(),
          a if style.is_empty() => style = a.into(),
          a => style = format!("{style};{a}"),
        }
        rest = &args[n + 1..];
        continue;
      }
    }
    plain.push(c);
    styles.push(style.clone());
    rest = &rest[c.len_utf8()..];
  }
  // what is in effect behind the text
  styles.push(style);
  (plain, styles)
}

#[test]
fn strips() {
  let (p, s) = strip("\u{1b}[1;31mab\u{1b}[0mc\u{1b}\u{1b}[34m|\u{1b}[0m");
  assert_eq!(p, "abc\u{1b}|");
  assert_eq!(s, ["1;31", "1;31", "", "", "34", ""]);
}
