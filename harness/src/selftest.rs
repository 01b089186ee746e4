//! the engine's models of std against the real std (tools/selftest): every assertion here is about std alone
use crate::vx;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn c(i: usize) -> char {
  vx::ch(&format!("c{i}"), "any")
}
fn chars(n: usize) -> Vec<char> {
  (0..n).map(c).collect()
}
fn string(n: usize) -> String {
  (0..n).map(c).collect()
}
fn num(name: &str) -> usize {
  vx::int(name, 0, 40)
}
fn ok(b: bool) {
  vx::check(b, "as std says");
}
fn eq<T: PartialEq + std::fmt::Debug>(a: T, b: T) {
  vx::check_eq(&a, &b, "as std says");
}

entries2! { SELF
  fn st_io_write() {
    use std::io::{BufWriter, Write};
    let k = vx::choose("case", 15);
    let s = string(2);
    let b = s.as_bytes();
    let mut v: Vec<u8> = Vec::new();
    if k == 0 { ok(v.write_all(b).is_ok() && v == b); }
    if k == 1 { ok(write!(v, "{s}x").is_ok() && v.len() == s.len() + 1 && String::from_utf8(v.clone()).unwrap() == format!("{s}x")); }
    if k == 2 { let mut w = BufWriter::new(&mut v); w.write_all(b).unwrap(); write!(w, "é").unwrap(); w.flush().unwrap(); drop(w); ok(v == format!("{s}é").into_bytes()); }
    if k == 3 { { let mut w = BufWriter::new(&mut v); w.write_all(b).unwrap(); } ok(v == b); }
    if k == 4 { let mut w = BufWriter::with_capacity(3, Vec::new()); w.write_all(b).unwrap(); w.write_all(b"abcd").unwrap(); let v = w.into_inner().unwrap(); ok(v == format!("{s}abcd").into_bytes()); }
    if k == 5 { let w: &mut dyn Write = &mut v; w.write_all(b).unwrap(); w.flush().unwrap(); eq(v.len(), b.len()); }
    if k == 6 { let n = v.write(b).unwrap(); eq(n, s.len()); }
    if k == 7 { let mut c = std::io::Cursor::new(Vec::new()); c.write_all(b).unwrap(); ok(c.into_inner() == b); }
    if k == 8 { let mut a = [0u8; 2]; let mut r: &mut [u8] = &mut a; ok(r.write_all(b).is_err() == (s.len() > 2)); }
    if k == 9 { v.extend_from_slice(b); v.push(b'x'); ok(v.ends_with(b"x") && v.starts_with(b)); }
    if k == 10 { v.extend(b.iter()); ok(v == s.clone().into_bytes()); }
    if k == 11 { v.extend_from_slice(b); v.extend_from_slice(b); eq(String::from_utf8(v.clone()).unwrap(), format!("{s}{s}")); }
    if k == 12 { let mut w = BufWriter::new(v); w.write_all(b).unwrap(); eq(w.buffer().len(), s.len()); }
    if k == 14 { let mut w = vec![b.to_vec(), b"a b".to_vec()]; w.sort(); ok(w[0] <= w[1] && (w[0] == b) == (s.as_str() <= "a b")); }
    if k == 13 { let v: Vec<u8> = b.to_vec(); eq(String::from_utf8_lossy(&v).into_owned(), s.clone()); }
  }
  fn st_io_read() {
    use std::io::{BufReader, Cursor, Read};
    let k = vx::choose("case", 16);
    let s = string(2);
    let b = s.as_bytes();
    let mut v: Vec<u8> = Vec::new();
    let mut t = String::new();
    let mut r = b;
    if k == 0 { eq(r.read_to_end(&mut v).unwrap(), s.len()); ok(v == b && r.is_empty()); }
    if k == 1 { eq(r.read_to_string(&mut t).unwrap(), s.len()); eq(&t, &s); }
    if k == 2 { let mut a = [0u8; 1]; eq(r.read(&mut a).unwrap(), 1); eq(a[0], b[0]); eq(r.len(), b.len() - 1); }
    if k == 3 { let mut a = [0u8; 1]; ok(r.read_exact(&mut a).is_ok() && a[0] == b[0]); }
    if k == 4 { let mut q = BufReader::new(r); q.read_to_end(&mut v).unwrap(); ok(v == b); }
    if k == 5 { let mut q = BufReader::new(r); q.read_to_string(&mut t).unwrap(); eq(&t, &s); }
    if k == 6 { let mut c = Cursor::new(b); c.read_to_end(&mut v).unwrap(); ok(v == b); }
    if k == 7 { eq(r.bytes().map(|x| x.unwrap()).collect::<Vec<u8>>(), b.to_vec()); }
    if k == 8 { eq(std::str::from_utf8(&b[1..]).is_ok(), s.is_char_boundary(1)); }
    if k == 9 { eq(std::str::from_utf8(&b[..1]).is_ok(), b[0] < 0x80); }
    if k == 10 { let f = vx::file(b, 0); ok(std::fs::read(&f).unwrap() == b); vx::remove(&f); }
    if k == 11 { let f = vx::file(b, 0); eq(std::fs::read_to_string(&f).unwrap(), s.clone()); vx::remove(&f); }
    if k == 12 { let f = vx::file(b, vx::choose("fault", 3)); let r = std::fs::File::open(&f); if let Ok(mut x) = r { ok(x.read_to_end(&mut v).is_err() || v == b); } else { ok(std::fs::read(&f).is_err()); } vx::remove(&f); }
    if k == 13 { let f = vx::file(b, 0); let mut q = BufReader::new(std::fs::File::open(&f).unwrap()); q.read_to_end(&mut v).unwrap(); ok(v == b); vx::remove(&f); }
    if k == 14 { eq(r.take(1).read_to_end(&mut v).unwrap(), 1); }
    if k == 15 { let q: &mut dyn Read = &mut r; eq(q.read_to_end(&mut v).unwrap(), b.len()); }
  }
  fn st_io_bad() {
    let b = [vx::int("a", 0, 255) as u8, vx::int("b", 0, 255) as u8];
    let k = vx::choose("case", 4);
    if k == 0 { eq(std::str::from_utf8(&b).is_ok(), b[0] < 128 && b[1] < 128 || (0xc2..=0xdf).contains(&b[0]) && (0x80..=0xbf).contains(&b[1])); }
    if k == 1 { eq(String::from_utf8(b.to_vec()).is_err(), std::str::from_utf8(&b).is_err()); }
    if k == 2 { if let Ok(s) = std::str::from_utf8(&b) { ok(s.as_bytes() == b); } }
    if k == 3 { if let Ok(s) = String::from_utf8(b.to_vec()) { eq(s.len(), 2); } }
  }
  fn st_io_err() {
    use std::io::{Error, ErrorKind};
    let k = vx::choose("case", 6);
    if k == 0 { ok(Error::from(ErrorKind::Interrupted).kind() == ErrorKind::Interrupted); }
    if k == 1 { ok(Error::new(ErrorKind::InvalidData, "x").kind() == ErrorKind::InvalidData); }
    if k == 2 { ok(Error::other("x").kind() == ErrorKind::Other); }
    if k == 3 { ok(std::fs::File::open(vx::file(b"", 1)).map_err(|e| e.kind()).err() == Some(ErrorKind::NotFound)); }
    if k == 4 { let r: std::io::Result<()> = Err(Error::other("x")); ok(r.map_err(|e| e.kind()) == Err(ErrorKind::Other)); }
    if k == 5 { let r: std::io::Result<()> = Err(ErrorKind::WriteZero.into()); ok(r.is_err()); }
  }
  fn st_bytes() {
    let k = vx::choose("case", 8);
    let s = string(2);
    let b = s.as_bytes();
    if k == 0 { eq(b.len(), s.len()); }
    if k == 1 { eq(s.bytes().count(), s.chars().map(char::len_utf8).sum::<usize>()); }
    if k == 2 { ok((b[0] < 0x80) == (c(0) < '\u{80}')); }
    if k == 3 { eq(b.first().copied(), s.bytes().next()); }
    if k == 4 { ok(b.iter().all(|x| x.is_ascii_digit()) == s.chars().all(|x| x.is_ascii_digit())); }
    if k == 5 { eq(b == b"ab", s == "ab"); }
    if k == 6 { eq(s.bytes().rev().next(), b.last().copied()); }
    if k == 7 { eq(s.starts_with("\u{7b2c}"), b.starts_with("\u{7b2c}".as_bytes())); }
  }
  fn st_utf8() {
    let k = vx::choose("case", 3);
    let s = string(1);
    let v = s.clone().into_bytes();
    if k == 0 { ok(v[0] != 0xff); }
    if k == 1 { eq(v.len(), c(0).len_utf8()); }
    let mut buf = [0u8; 4];
    if k == 2 { eq(c(0).encode_utf8(&mut buf).len(), v.len()); }
  }
  fn st_char_preds() {
    let k = vx::choose("case", 14);
    let x = c(0);
    if k == 0 { eq(x.is_ascii_digit(), ('0'..='9').contains(&x)); }
    if k == 1 { eq(x.is_numeric() || !x.is_numeric(), true); }
    if k == 2 { eq(x.to_digit(10).is_some(), x.is_ascii_digit()); }
    if let Some(d) = x.to_digit(10) { eq(char::from_digit(d, 10), Some(x)); eq(char::from(b'0' + d as u8), x); }
    if k == 3 { eq(x.is_ascii(), (x as u32) < 128); }
    if k == 4 { eq(matches!(x, 'a'..='z' | 'A'..='Z'), x.is_ascii_alphabetic()); }
    if k == 5 { eq(x.is_ascii_lowercase(), ('a'..='z').contains(&x)); }
    if k == 6 { eq(x.is_ascii_punctuation(), matches!(x, '!'..='/' | ':'..='@' | '['..='`' | '{'..='~')); }
    if k == 7 { eq(x.is_ascii_whitespace(), matches!(x, ' ' | '\t' | '\n' | '\r' | '\x0c')); }
    if k == 8 { eq(char::from_u32(x as u32), Some(x)); }
    if k == 9 { eq(x.eq_ignore_ascii_case(&'Q'), x == 'q' || x == 'Q'); }
    if k == 10 { eq(x.to_ascii_uppercase(), if ('a'..='z').contains(&x) { char::from_u32(x as u32 - 32).unwrap() } else { x }); }
    if k == 11 { eq(u32::from(x), x as u32); }
    if k == 12 { eq(x.is_alphabetic() && x.is_ascii(), x.is_ascii_alphabetic()); }
    if k == 13 { eq(x.is_control(), matches!(x, '\0'..='\x1f' | '\x7f'..='\u{9f}')); }
  }
  fn st_fullwidth() {
    let k = vx::choose("case", 5);
    let x = c(0);
    let d = ('０'..='９').position(|y| y == x);
    if k == 0 { eq(d.is_some(), ('\u{ff10}'..='\u{ff19}').contains(&x)); }
    if let Some(d) = d { eq(d as u32, x as u32 - '０' as u32); }
    if k == 1 { eq("０１２３４５６７８９".chars().position(|y| y == x), d); }
    if k == 2 { eq("０１２３４５６７８９".find(x).map(|p| p / 3), d); }
    if k == 3 { eq(['ア', 'イ'].contains(&x), x == 'ア' || x == 'イ'); }
    if k == 4 { eq(['ア', 'イ'].iter().any(|y| *y == x), "アイ".contains(x)); }
  }
  fn st_split() {
    let k = vx::choose("case", 12);
    let s = string(3);
    let v: Vec<&str> = s.split('_').collect();
    if k == 0 { eq(v.len(), 1 + chars(3).into_iter().filter(|x| *x == '_').count()); }
    if k == 1 { eq(v.join("_"), s.clone()); }
    if k == 2 { eq(s.split_once('_').map(|(a, _)| a), if s.contains('_') { Some(v[0]) } else { None }); }
    if k == 3 { eq(s.rsplit_once('_').map(|(_, b)| b), if s.contains('_') { v.last().copied() } else { None }); }
    if k == 4 { eq(s.splitn(2, '_').count(), v.len().min(2)); }
    if k == 5 { eq(s.rsplit('_').next(), v.last().copied()); }
    if k == 6 { eq(s.split(['_', ':']).count() >= v.len(), true); }
    if k == 7 { eq(s.split(|x: char| x == '_').count(), v.len()); }
    if k == 8 { eq(s.split("_").count(), v.len()); }
    if k == 9 { eq(s.split_terminator('_').count(), if s.ends_with('_') { v.len() - 1 } else { v.len() }); }
    if k == 10 { eq(s.split_inclusive('_').map(str::len).sum::<usize>(), s.len()); }
    if k == 11 { eq(s.matches('_').count() + 1, v.len()); }
  }
  fn st_find() {
    let k = vx::choose("case", 8);
    let s = string(3);
    if k == 0 { eq(s.find('x').is_some(), s.contains('x')); }
    if let Some(p) = s.find('x') {
      ok(s[p..].starts_with('x'));
      eq(s.split_at(p).1.chars().next(), Some('x'));
    }
    if k == 1 { eq(s.rfind('x').is_some(), s.contains('x')); }
    if k == 2 { eq(s.find(char::is_whitespace).is_some(), s.chars().any(char::is_whitespace)); }
    if k == 3 { eq(s.char_indices().find(|(_, y)| *y == 'x').map(|(i, _)| i), s.find('x')); }
    if k == 4 { eq(s.strip_prefix('x'), if s.starts_with('x') { s.get(1..) } else { None }); }
    if k == 5 { eq(s.strip_suffix("x"), if s.ends_with('x') { s.get(..s.len() - 1) } else { None }); }
    if k == 6 { eq(s.is_char_boundary(1), c(0).is_ascii()); }
    if k == 7 { eq(s.get(1..).is_some(), c(0).is_ascii()); }
  }
  fn st_trim() {
    let k = vx::choose("case", 5);
    let s = string(3);
    if k == 0 { ok(!s.trim().starts_with(char::is_whitespace)); }
    if k == 1 { ok(!s.trim_end().ends_with(char::is_whitespace)); }
    if k == 2 { eq(s.trim_start().len() + s.chars().take_while(|x| x.is_whitespace()).map(|x| x.len_utf8()).sum::<usize>(), s.len()); }
    if k == 3 { ok(!s.trim_start_matches('x').starts_with('x')); }
    if k == 4 { ok(!s.trim_end_matches(['x', 'y']).ends_with('y')); }
    if k == 5 { ok(!s.trim_matches(|z: char| z == 'x').ends_with('x')); }
  }
  fn st_build() {
    let s = string(2);
    let mut t = String::new();
    for x in s.chars().rev() { t.insert(0, x); }
    eq(t.clone(), s.clone());
    t.push('!');
    t.push_str("?");
    t += &s;
    eq(t.len(), 2 * s.len() + 2);
    eq(t.pop(), s.chars().last());
    t.truncate(s.len());
    eq(t.clone(), s.clone());
    t.insert_str(0, "ab");
    eq(t.remove(0), 'a');
    t.clear();
    ok(t.is_empty());
    eq(s.repeat(2).chars().count(), 4);
    eq(s.replace('x', "yy").len() >= s.len(), true);
    eq(s.replace("x", "y").contains('x'), false);
    eq(s.replacen('x', "", 1).len(), if s.contains('x') { s.len() - 1 } else { s.len() });
    t.extend(s.chars());
    t.extend(["p", "q"]);
    eq(format!("{s}pq"), t.clone());
    let mut r = s.clone();
    r.retain(|z| z != 'x');
    ok(!r.contains('x'));
    let mut d = s.clone();
    eq(d.drain(..c(0).len_utf8()).collect::<String>(), c(0).to_string());
    eq(d, c(1).to_string());
    eq([s.as_str(), "z"].concat(), format!("{s}z"));
    eq(vec![s.clone(), s.clone()].join("、").chars().count(), 5);
  }
  fn st_fmt() {
    let k = vx::choose("case", 5);
    let n = num("n");
    let s = string(1);
    let mut t = String::new();
    write!(t, "{}第{n}条{s}", "a").unwrap();
    if k == 0 { eq(t.clone(), ["a第", &n.to_string(), "条", &s].concat()); }
    writeln!(&mut t, "{0}{0}", n).unwrap();
    if k == 1 { ok(t.ends_with('\n')); }
    if k == 2 { eq(format!("{:02}", n).len(), 2); }
    if k == 3 { eq(format!("{n:>3}").len(), 3); }
    if k == 5 { eq(n.to_string().parse::<usize>().ok(), Some(n)); }
  }
  fn st_case() {
    let k = vx::choose("case", 3);
    let s = string(1);
    if k == 0 { eq(s.to_ascii_lowercase().len(), s.len()); }
    if k == 1 { eq(s.eq_ignore_ascii_case("ab"), s.to_ascii_lowercase() == "ab"); }
    if k == 2 { eq(s.is_ascii(), s.chars().all(|x| x.is_ascii())); }
  }
  fn st_parse() {
    let k = vx::choose("case", 7);
    let s = string(2);
    let r = s.parse::<usize>();
    let digits = s.chars().all(|x| x.is_ascii_digit()) || c(0) == '+' && c(1).is_ascii_digit();
    if k == 0 { eq(r.is_ok(), digits); }
    if k == 1 { eq(s.parse::<u8>().is_ok(), digits); }
    if k == 2 { eq(r.as_ref().map(|x| *x < 100).unwrap_or(true), true); }
    if k == 3 { eq(usize::from_str_radix(&s, 10).ok(), r.ok()); }
    if k == 4 { eq(s.parse::<bool>().is_err(), true); }
    if k == 5 { eq(s.parse::<char>().is_err(), true); }
    if k == 6 { eq(s.parse::<String>().is_ok(), true); }
  }
  fn st_cow() {
    let k = vx::choose("case", 7);
    let s = string(1);
    let b: Cow<str> = Cow::Borrowed(&s);
    let o: Cow<str> = Cow::Owned(format!("{s}x"));
    if k == 0 { eq(b.len() + 1, o.len()); }
    if k == 1 { eq(b.clone().into_owned(), s.clone()); }
    if k == 2 { ok(b != o); }
    if k == 3 { eq(o.to_string(), format!("{b}x")); }
    if k == 4 { eq(&*b, s.as_str()); }
    if k == 5 { eq(Cow::from("q").is_empty(), false); }
    let mut m = b.clone();
    m.to_mut().push('x');
    if k == 6 { eq(m, o); }
  }
  fn st_ints() {
    let k = vx::choose("case", 25);
    let (n, m) = (num("n"), num("m"));
    if k == 0 { eq(n.checked_sub(m).is_some(), n >= m); }
    if k == 1 { eq(n.saturating_sub(m), if n > m { n - m } else { 0 }); }
    if k == 2 { eq(n.abs_diff(m), n.max(m) - n.min(m)); }
    if k == 3 { eq(n.checked_add(m), Some(n + m)); }
    if k == 4 { eq(n.checked_mul(10).unwrap() / 10, n); }
    if k == 5 { eq(n.wrapping_sub(m) == 0, n == m); }
    if k == 6 { eq(n.overflowing_sub(m).1, n < m); }
    if k == 7 { eq(n.cmp(&m), m.cmp(&n).reverse()); }
    if k == 8 { eq(n.partial_cmp(&m), Some(n.cmp(&m))); }
    if k == 9 { eq((n, m) < (m, n), n < m); }
    if k == 10 { eq(n.clamp(3, 7), n.max(3).min(7)); }
    if k == 11 { eq(n % 10 + n / 10 * 10, n); }
    if k == 12 { eq(n.pow(2), n * n); }
    if k == 13 { eq(u8::try_from(n).ok(), Some(n as u8)); }
    if k == 14 { eq(n.is_power_of_two(), [1, 2, 4, 8, 16, 32].contains(&n)); }
    if k == 15 { eq(n.div_ceil(3), (n + 2) / 3); }
    if k == 16 { eq(n.rem_euclid(7), n % 7); }
    if k == 17 { eq(std::num::NonZeroUsize::new(n).is_some(), n != 0); }
    if k == 18 { eq(i64::try_from(n).unwrap() - 1 >= 0, n > 0); }
    if k == 19 { eq(n as i32 - m as i32 > 0, n > m); }
    if k == 20 { eq((n..m).len(), m.saturating_sub(n)); }
    if k == 21 { eq((1..=9).contains(&n), n >= 1 && n <= 9); }
    if k == 22 { eq(bool::from(n > m).then_some(n), if n > m { Some(n) } else { None }); }
    if k == 23 { eq((n > m).then(|| m), (n > m).then_some(m)); }
    if k == 24 { eq(usize::from(n > m), if n > m { 1 } else { 0 }); }
  }
  fn st_iter() {
    let k = vx::choose("case", 37);
    let v = chars(3);
    if k == 0 { eq(v.iter().rev().copied().collect::<Vec<_>>(), vec![v[2], v[1], v[0]]); }
    if k == 1 { eq(v.iter().skip(1).step_by(2).count(), 1); }
    if k == 2 { eq(v.iter().zip(v.iter().skip(1)).filter(|(a, b)| a == b).count() <= 2, true); }
    if k == 3 { eq(v.windows(2).any(|w| w[0] == w[1]), v[0] == v[1] || v[1] == v[2]); }
    if k == 4 { eq(v.chunks(2).map(|x| x.len()).collect::<Vec<_>>(), vec![2, 1]); }
    if k == 5 { eq(v.iter().enumerate().filter(|(_, x)| **x == 'x').map(|(i, _)| i).last(), v.iter().rposition(|x| *x == 'x')); }
    if k == 6 { eq(v.iter().position(|x| *x == 'x').is_some(), v.contains(&'x')); }
    if k == 7 { eq(v.iter().take_while(|x| **x == 'x').count() == 3, v.iter().all(|x| *x == 'x')); }
    if k == 8 { eq(v.iter().skip_while(|x| **x == 'x').count() == 0, v.iter().all(|x| *x == 'x')); }
    if k == 9 { eq(v.iter().map_while(|x| x.to_digit(10)).count() == 3, v.iter().all(|x| x.is_ascii_digit())); }
    if k == 10 { eq(v.iter().filter_map(|x| x.to_digit(10)).fold(0, |a, d| a + d) <= 27, true); }
    if k == 11 { eq(v.iter().flat_map(|x| [*x, *x]).count(), 6); }
    if k == 12 { eq(v.iter().scan(0usize, |s, _| { *s += 1; Some(*s) }).collect::<Vec<_>>(), vec![1, 2, 3]); }
    if k == 13 { eq(v.iter().try_fold(0u32, |a, x| x.to_digit(10).map(|d| a * 10 + d)).is_some(), v.iter().all(|x| x.is_ascii_digit())); }
    let (a, b): (Vec<char>, Vec<char>) = v.iter().partition(|x| **x == 'x');
    if k == 14 { eq(a.len() + b.len(), 3); }
    if k == 15 { eq(v.iter().max().is_some(), true); }
    if k == 16 { eq(v.iter().min_by_key(|x| **x as u32).copied(), v.iter().min().copied()); }
    if k == 17 { eq(v.iter().chain(std::iter::once(&'z')).count(), 4); }
    if k == 18 { eq(std::iter::repeat('a').take(2).collect::<String>(), "aa".to_string()); }
    if k == 19 { eq(std::iter::successors(Some(1usize), |x| if *x < 5 { Some(x * 2) } else { None }).sum::<usize>(), 15); }
    if k == 20 { eq(std::iter::from_fn({ let mut n = 0; move || { n += 1; if n < 3 { Some(n) } else { None } } }).count(), 2); }
    let mut p = v.iter().peekable();
    let mut k = 0;
    while let Some(x) = p.next() { if p.peek() == Some(&x) { k += 1; } }
    if k == 21 { eq(k, v.windows(2).filter(|w| w[0] == w[1]).count()); }
    let mut p = v.iter().peekable();
    if k == 22 { eq(p.next_if(|x| **x == 'x').is_some(), v[0] == 'x'); }
    if k == 23 { eq(p.next_if_eq(&&'y').is_some(), v[0] == 'x' && v[1] == 'y' || v[0] == 'y'); }
    if k == 24 { eq(v.iter().cycle().nth(4), Some(&v[1])); }
    if k == 25 { eq(v.iter().inspect(|_| ()).count(), 3); }
    if k == 26 { eq(v.iter().cloned().reduce(|a, b| a.max(b)), v.iter().max().copied()); }
    if k == 27 { eq(v.iter().find_map(|x| x.to_digit(10)), v.iter().filter_map(|x| x.to_digit(10)).next()); }
    if k == 28 { eq(v.iter().eq(v.iter()), true); }
    if k == 29 { eq(v.iter().product_len(), 3); }
    if k == 30 { eq(v.split_first().map(|(x, r)| (*x, r.len())), Some((v[0], 2))); }
    if k == 31 { eq(v.split_last().map(|(x, r)| (*x, r.len())), Some((v[2], 2))); }
    if k == 32 { eq(v.iter().unzip_len(), (3, 3)); }
    if k == 33 { eq(v.iter().nth_back(0), v.last()); }
    if k == 34 { eq(v.iter().rfind(|x| **x == 'x').is_some(), v.contains(&'x')); }
    for (i, x) in v.iter().rev().enumerate() { eq(*x, v[2 - i]); }
    if k == 35 { eq(v.iter().is_sorted(), v[0] <= v[1] && v[1] <= v[2]); }
    if k == 36 { eq(v.iter().count(), v.len()); }
  }
  fn st_vec() {
    let mut v = chars(3);
    v.push('q');
    eq(v.pop(), Some('q'));
    v.insert(1, 'z');
    eq(v.remove(1), 'z');
    eq(v.swap_remove(0), c(0));
    eq(v.len(), 2);
    v.extend_from_slice(&['a', 'b']);
    v.append(&mut vec!['c']);
    eq(v.iter().copied().skip(2).collect::<String>(), "abc".to_string());
    eq(v.drain(2..).count(), 3);
    v.dedup();
    eq(v.len(), if c(1) == c(2) { 1 } else { 2 });
    v.retain(|x| *x != 'x');
    v.truncate(1);
    eq(v.first() == v.last(), true);
    v.clear();
    ok(v.is_empty());
    let mut v = chars(3);
    v.reverse();
    eq(v[0], c(2));
    v.swap(0, 2);
    eq(v[0], c(0));
    let w = v.split_off(1);
    eq((v.len(), w.len()), (1, 2));
    eq(v.get(5), None);
    eq(w.iter().collect::<String>(), [c(1), c(0)].iter().rev().skip(2).collect::<String>() + &w.iter().collect::<String>());
    if let [a, b] = w[..] { eq(a, c(1)); eq(b, c(2)); } else { ok(false) }
    if let [a, rest @ ..] = w.as_slice() { eq(*a, c(1)); eq(rest.len(), 1); }
    if let Some(l) = v.last_mut() { *l = 'k'; }
    eq(v.concat_it(), "k".to_string());
    for x in v.iter_mut() { *x = 'm'; }
    eq(v == ['m'], true);
    eq(v.to_vec(), vec!['m']);
    eq(vec![1, 2, 3].iter().sum::<i32>(), 6);
    v.resize(3, 'n');
    eq(v.len(), 3);
    v.fill('p');
    ok(v.iter().all(|x| *x == 'p'));
    let b: Box<[char]> = v.into_boxed_slice();
    eq(b.len(), 3);
    let mut q: VecDeque<char> = VecDeque::new();
    q.push_back(c(0));
    q.push_back(c(1));
    q.push_front('f');
    eq(q.pop_front(), Some('f'));
    eq(q.pop_back(), Some(c(1)));
    eq(q.front(), Some(&c(0)));
    eq(q.len(), 1);
  }
  fn st_sort() {
    let k = vx::choose("case", 4);
    let mut v = vec![num("a"), num("b"), num("d")];
    v.sort();
    if k == 0 { ok(v[0] <= v[1] && v[1] <= v[2]); }
    v.sort_by(|x, y| y.cmp(x));
    if k == 1 { ok(v[0] >= v[1] && v[1] >= v[2]); }
    v.sort_by_key(|x| *x);
    v.sort_unstable();
    if k == 2 { eq(v.binary_search(&v[0]).is_ok(), true); }
    if k == 3 { eq(v.iter().max(), v.last()); }
  }
  fn st_option() {
    let k = vx::choose("case", 28);
    let o = if vx::choose("o", 2) == 1 { Some(num("n")) } else { None };
    if k == 0 { eq(o.map_or(0, |x| x), o.unwrap_or(0)); }
    if k == 1 { eq(o.map_or_else(|| 0, |x| x), o.unwrap_or_default()); }
    if k == 2 { eq(o.ok_or("e").is_ok(), o.is_some()); }
    if k == 3 { eq(o.filter(|x| *x > 3).is_some(), o.is_some_and(|x| x > 3)); }
    if k == 4 { eq(o.xor(None), o); }
    if k == 5 { eq(o.or(Some(3)).is_some(), true); }
    if k == 6 { eq(o.or_else(|| Some(7)).unwrap(), o.unwrap_or_else(|| 7)); }
    if k == 7 { eq(o.and_then(|x| x.checked_sub(5)), o.filter(|x| *x >= 5).map(|x| x - 5)); }
    if k == 8 { eq(o.zip(Some(1)).map(|(a, _)| a), o); }
    let mut m = o;
    if k == 9 { eq(m.take(), o); }
    if k == 10 { eq(m, None); }
    if k == 11 { eq(*m.get_or_insert(4), 4); }
    if k == 12 { eq(m.replace(5), Some(4)); }
    if k == 13 { eq(*m.insert(6), 6); }
    if k == 14 { eq(o.iter().count(), usize::from(o.is_some())); }
    if k == 15 { eq(o.into_iter().chain([1]).last(), Some(1)); }
    if k == 16 { eq(o.is_none_or(|x| x < 50), true); }
    if k == 17 { eq(Some(o).flatten(), o); }
    if k == 18 { eq(o.as_ref().copied(), o); }
    let r: Result<usize, String> = o.ok_or_else(|| "none".to_string());
    if k == 19 { eq(r.as_ref().ok().copied(), o); }
    if k == 20 { eq(r.clone().map(|x| x + 1).unwrap_or(0), o.map(|x| x + 1).unwrap_or(0)); }
    if k == 21 { eq(r.clone().map_err(|e| e.len()).err(), if o.is_none() { Some(4) } else { None }); }
    if k == 22 { eq(r.as_deref_err(), o.is_none()); }
    if k == 23 { eq(r.iter().count(), o.iter().count()); }
    if k == 24 { eq(Some(r.clone()).transpose().is_ok(), o.is_some()); }
    if k == 25 { eq(r.and_then(|x| if x > 3 { Ok(x) } else { Err(String::new()) }).is_ok(), o.is_some_and(|x| x > 3)); }
    let Some(n) = o else { return };
    if k == 26 { eq(Some(n), o); }
    let s: Option<String> = o.map(|x| x.to_string());
    if k == 27 { eq(s.as_deref().map(str::len), s.as_ref().map(|x| x.len())); }
  }
  fn st_maps() {
    let (a, b) = (num("a"), num("b"));
    let mut m = HashMap::new();
    m.insert(a, 'a');
    m.insert(b, 'b');
    eq(m.len(), if a == b { 1 } else { 2 });
    eq(m.get(&b), Some(&'b'));
    eq(m[&b], 'b');
    *m.entry(a).or_insert('z') = 'y';
    eq(m.get(&a).copied(), Some('y'));
    *m.entry(99).or_default() = 'w';
    m.entry(99).and_modify(|x| *x = 'v').or_insert_with(|| 'u');
    eq(m.remove(&99), Some('v'));
    if let Some(x) = m.get_mut(&a) { *x = 't'; }
    eq(m.get(&a), Some(&'t'));
    eq(m.contains_key(&50), false);
    let t: HashMap<&str, usize> = HashMap::from([("p", a), ("q", b)]);
    eq(t.get("p").copied().unwrap_or(0) + t["q"], a + b);
    let mut bt = BTreeMap::new();
    bt.insert(a, 'a');
    bt.insert(b, 'b');
    ok(bt.keys().zip(bt.keys().skip(1)).all(|(x, y)| x < y));
    eq(bt.values().count(), bt.len());
    eq(bt.into_iter().map(|(k, _)| k).next(), Some(a.min(b)));
    let mut hs: HashSet<usize> = [a, b].into_iter().collect();
    eq(hs.len(), if a == b { 1 } else { 2 });
    eq(hs.insert(a), false);
    ok(hs.contains(&b));
    let bs: BTreeSet<usize> = BTreeSet::from([a, b]);
    eq(bs.iter().next().copied(), Some(a.min(b)));
    let mut counts: BTreeMap<char, usize> = BTreeMap::new();
    for x in chars(2) { *counts.entry(x).or_insert(0) += 1; }
    eq(counts.values().sum::<usize>(), 2);
  }
  fn st_slices() {
    let k = vx::choose("case", 16);
    let s = string(2);
    match s.as_str() {
      "ab" => ok(c(0) == 'a'),
      x if x.starts_with("第") => ok(c(0) == '第'),
      _ => ok(c(0) != '第'),
    }
    match s.chars().collect::<Vec<_>>().as_slice() {
      ['a', x] => eq(*x, c(1)),
      [.., 'b'] => eq(c(1), 'b'),
      _ => ok(c(0) != 'a' && c(1) != 'b'),
    }
    let mut it = s.chars();
    if k == 0 { eq((it.next(), it.next_back(), it.next()), (Some(c(0)), Some(c(1)), None)); }
    if k == 1 { eq(s.chars().nth(1), Some(c(1))); }
    if k == 2 { eq(s.chars().as_str().len(), s.len()); }
    if k == 3 { eq(s.lines().count() <= 2, true); }
    if k == 4 { eq(s.char_indices().map(|(i, _)| i).last(), Some(c(0).len_utf8())); }
    if k == 5 { eq(s.cmp(&"b".to_string()) == std::cmp::Ordering::Less, c(0) < 'b'); }
    if k == 6 { eq(s > "b".to_string(), c(0) >= 'b'); }
    if k == 7 { eq(s.chars().eq("ab".chars()), s == "ab"); }
    if k == 8 { eq(s.split_whitespace().collect::<String>(), s.chars().filter(|x| !x.is_whitespace()).collect::<String>()); }
    if k == 9 { eq(s.chars().rev().collect::<String>().chars().rev().collect::<String>(), s.clone()); }
    if k == 10 { eq(s.char_indices().rev().next().map(|(_, x)| x), Some(c(1))); }
    if k == 11 { eq(s.chars().skip(1).collect::<String>(), s[c(0).len_utf8()..].to_string()); }
    if k == 12 { eq(String::from_utf8(s.clone().into_bytes()).is_ok(), true); }
    if k == 13 { eq(s.chars().last(), s.chars().next_back()); }
    if k == 14 { eq(s.chars().count(), 2); }
    if k == 15 { eq(s.as_str() == s.to_string().as_ref() as &str, true); }
  }
  fn st_box_rc() {
    let k = vx::choose("case", 22);
    let n = num("n");
    let b = Box::new(n);
    if k == 0 { eq(*b + 1, n + 1); }
    let r = std::rc::Rc::new(n);
    let q = std::rc::Rc::clone(&r);
    if k == 1 { eq(*q, n); }
    let cell = std::cell::Cell::new(n);
    cell.set(cell.get() + 1);
    if k == 2 { eq(cell.get(), n + 1); }
    let rc = std::cell::RefCell::new(vec![n]);
    rc.borrow_mut().push(3);
    if k == 3 { eq(rc.borrow().len(), 2); }
    let mut x = n;
    let mut f = || { x += 2; x };
    if k == 4 { eq(f(), n + 2); }
    let g: Box<dyn Fn(usize) -> usize> = Box::new(move |y| y + n);
    if k == 5 { eq(g(1), n + 1); }
    let h: fn(usize) -> usize = |y| y + 1;
    if k == 6 { eq(h(n), n + 1); }
    let mut a = [n, 1, 2];
    a.swap(0, 1);
    if k == 7 { eq(a.map(|y| y + 1), [2, n + 1, 3]); }
    let t = std::mem::replace(&mut a[0], 9);
    if k == 8 { eq((t, a[0]), (1, 9)); }
    if k == 9 { eq(std::mem::take(&mut a[0]), 9); }
    let s: &dyn std::fmt::Display = &n;
    if k == 10 { eq(s.to_string(), n.to_string()); }
    if k == 11 { eq(std::iter::empty::<usize>().next(), None); }
    if k == 12 { eq((0..3).rev().map(|i| i * 2).collect::<Vec<usize>>(), vec![4, 2, 0]); }
    if k == 13 { eq((b'a'..=b'c').map(char::from).collect::<String>(), "abc".to_string()); }
    if k == 14 { eq(('ア'..='ウ').count(), 5); }
    if k == 15 { eq(matches!(n.checked_rem(7), Some(0)), n % 7 == 0); }
    if k == 16 { eq(std::cmp::min(n, 3), n.min(3)); }
    if k == 17 { eq(std::cmp::Reverse(n) < std::cmp::Reverse(n + 1), false); }
    let o: Result<Vec<usize>, ()> = [Ok(n), Err(())].into_iter().collect();
    if k == 18 { eq(o.is_err(), true); }
    let o: Option<Vec<usize>> = [Some(n), Some(1)].into_iter().collect();
    if k == 19 { eq(o.map(|v| v.len()), Some(2)); }
    let o: Option<usize> = [Some(n), None].into_iter().sum();
    if k == 20 { eq(o, None); }
    'outer: for i in 0..3 { for j in 0..3 { if i * j == 2 { break 'outer; } if j > i { continue 'outer; } } }
    let z = loop { break n; };
    if k == 21 { eq(z, n); }
  }
}

trait More: Iterator + Sized {
  fn product_len(self) -> usize {
    let mut n = 0;
    self.for_each(|_| n += 1);
    n
  }
  fn unzip_len(self) -> (usize, usize) {
    let (a, b): (Vec<_>, Vec<_>) = self.map(|x| (x, 1)).unzip();
    (a.len(), b.len())
  }
}
impl<I: Iterator> More for I {}
trait MoreVec {
  fn concat_it(&self) -> String;
}
impl MoreVec for Vec<char> {
  fn concat_it(&self) -> String {
    self.iter().map(|c| c.to_string()).collect::<Vec<_>>().concat()
  }
}
trait MoreRes {
  fn as_deref_err(&self) -> bool;
}
impl<T, E> MoreRes for Result<T, E> {
  fn as_deref_err(&self) -> bool {
    self.is_err()
  }
}
