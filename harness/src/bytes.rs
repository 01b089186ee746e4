//! P19: the XML text in memory and the bytes of a writer or a file, the emitter and the reader
//! of the XML library executed with the library.
use crate::vx;
use japanese_law_xml_schema::{law::*, parse_xml, parse_xml_file, text::*, to_xml, write_file};
use std::io::{Error, ErrorKind, Write};

/// a character XML can carry
fn xml_char(name: &str) -> char {
  let c = vx::ch(name, "any");
  vx::assume((c >= ' ' || c == '\t' || c == '\n' || c == '\r') && !('\u{7f}'..='\u{9f}').contains(&c) && c != '\u{fffe}' && c != '\u{ffff}');
  c
}

/// any text of n characters XML can carry, not all of them spaces (a node of white space is no text)
fn xml_text(name: &str, n: usize) -> String {
  let mut s = String::new();
  let mut blank = true;
  for i in 0..n {
    let c = xml_char(&format!("{name}.{i}"));
    if c != ' ' && c != '\t' && c != '\n' && c != '\r' {
      blank = false;
    }
    s.push(c);
  }
  vx::assume(n == 0 || !blank || vx::param("place") == 2);
  s
}

/// a law with one text of any characters at some place
fn law_with(place: usize, s: String) -> Law {
  let body = if place == 0 {
    "<MainProvision><Article Num=\"1\"><ArticleCaption>（乙）</ArticleCaption><ArticleTitle>第一条</ArticleTitle>\
     <Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence Num=\"1\">甲<Ruby>丙<Rt>ひ</Rt></Ruby>。</Sentence></ParagraphSentence>\
     <Item Num=\"1\"><ItemTitle>一</ItemTitle><ItemSentence><Column Num=\"1\"><Sentence Num=\"1\">丁</Sentence></Column></ItemSentence></Item></Paragraph></Article></MainProvision>\
     <SupplProvision><SupplProvisionLabel>附則</SupplProvisionLabel></SupplProvision>"
  } else {
    "<MainProvision/>"
  };
  let xml = format!("<Law Era=\"Heisei\" Year=\"12\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>平成</LawNum><LawBody><LawTitle>戊</LawTitle>{body}</LawBody></Law>");
  let mut law = parse_xml(xml.as_bytes()).unwrap();
  let title = |contents: Vec<TextElement>, kana: Option<String>| Some(LawTitle { kana, abbrev: None, abbrev_kana: None, text: Text { contents } });
  let t = |s: &str| TextElement::Text(s.to_string());
  let text = |s: &str| Text { contents: vec![TextElement::Text(s.to_string())] };
  match place {
    0 | 1 => law.law_num = s,
    8 => law.law_num = "甲乙丙".repeat(1000) + &s,
    2 => law.law_body.law_title = title(vec![t("甲")], Some(s)),
    3 => law.law_body.law_title = title(vec![TextElement::Text(s), TextElement::Sup(Sup { text: "乙".to_string() }), t("丙")], None),
    4 => law.law_body.law_title = title(vec![t("甲"), TextElement::Ruby(Ruby { text: text("乙"), ruby: s }), t("丙")], None),
    5 => law.law_body.law_title = title(vec![TextElement::Ruby(Ruby { text: text(&s), ruby: "乙".to_string() })], None),
    6 => law.law_body.law_title = title(vec![TextElement::Sup(Sup { text: "甲".to_string() }), TextElement::Text(s), TextElement::Sub(Sub { text: "乙".to_string() })], None),
    _ => law.law_body.enact_statement = vec![Text { contents: vec![t("甲"), TextElement::Sup(Sup { text: s }), TextElement::Sub(Sub { text: "乙".to_string() })] }],
  }
  law
}

/// a writer that takes at most `most` bytes at a time, is interrupted at one call and fails from one call on
struct Sink {
  got: Vec<u8>,
  calls: usize,
  most: usize,
  interrupted: usize,
  fail: usize,
  kind: usize,
  failed: bool,
}

impl Sink {
  fn failure(&mut self) -> Error {
    self.failed = true;
    Error::from([ErrorKind::StorageFull, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::InvalidInput, ErrorKind::Other][self.kind])
  }
}

impl Write for Sink {
  fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if self.calls == self.interrupted {
      return Err(Error::from(ErrorKind::Interrupted));
    }
    if self.calls >= self.fail {
      if self.kind == 7 {
        self.failed = true;
        return Ok(0);
      }
      return Err(self.failure());
    }
    let n = buf.len().min(self.most);
    self.got.extend_from_slice(&buf[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    if self.calls >= self.fail && self.kind < 7 {
      return Err(self.failure());
    }
    Ok(())
  }
}

struct File(String);

impl Drop for File {
  fn drop(&mut self) {
    vx::remove(&self.0);
  }
}

/// where the start tag of the law begins and ends: its attributes come in the order of a hash map
fn law_tag(x: &[u8]) -> (usize, usize) {
  let mut a = 0;
  while a < x.len() && !x[a..].starts_with(b"<Law ") {
    a += 1;
  }
  let mut b = a;
  while b < x.len() && x[b] != b'>' {
    b += 1;
  }
  (a, b)
}

fn attributes(tag: &[u8]) -> Vec<Vec<u8>> {
  let mut v: Vec<Vec<u8>> = vec![Vec::new()];
  for &c in tag {
    if c == b' ' {
      v.push(Vec::new());
    } else {
      v.last_mut().unwrap().push(c);
    }
  }
  v.sort();
  v
}

entries2! { P19
  // what is written in memory is read back
  fn p19_memory() {
    let law = law_with(vx::param("place"), xml_text("text", vx::param("len")));
    match to_xml(&law) {
      Ok(x) => match parse_xml(x.as_bytes()) {
        Ok(l) => vx::check(l == law, "the XML text of a law reads back as the law"),
        Err(_) => vx::check(false, "the XML text of a law can be read"),
      },
      Err(_) => vx::check(false, "a law can be written"),
    }
  }

  // a writer gets the same bytes, its failures are reported
  fn p19_writer() {
    let law = law_with(vx::param("place"), xml_text("text", vx::param("len")));
    let most = [usize::MAX, 1, 2, 5][vx::param("most")];
    let faults = vx::param("faults");
    let interrupted = vx::choose("interrupted", vx::param("interrupts") + 1);
    let fail = vx::choose("fail", faults + 1);
    let kind = if fail == 0 { 0 } else { vx::choose("kind", vx::param("kinds")) };
    let mut w = Sink { kind, got: Vec::new(), calls: 0, most, interrupted, fail: if fail == 0 { usize::MAX } else { fail * vx::param("step") }, failed: false };
    let r = write_file(&law, &mut w);
    vx::check(r.is_err() == w.failed, "a failure of the writer is reported, and nothing else");
    if let Ok(x) = to_xml(&law) {
      let (x, got) = (x.as_bytes(), &w.got);
      let (a, b) = law_tag(x);
      if w.failed {
        let n = got.len();
        vx::check(n <= x.len(), "what was written before the failure is not longer than the XML text");
        vx::check(got[..n.min(a)] == x[..n.min(a)], "what was written before the failure begins the XML text");
        if n >= b {
          vx::check(attributes(&got[a..b]) == attributes(&x[a..b]) && got[b..] == x[b..n], "what was written before the failure goes on as the XML text");
        }
      } else {
        vx::check(got.len() == x.len() && got[..a] == x[..a] && attributes(&got[a..b]) == attributes(&x[a..b]) && got[b..] == x[b..], "the writer got the XML text");
      }
    } else {
      vx::check(false, "a law can be written");
    }
  }

  // a file is read as its bytes are, what cannot be read is an error
  fn p19_file() {
    let law = law_with(vx::param("place"), xml_text("text", vx::param("len")));
    let mut bytes = Vec::new();
    vx::check(write_file(&law, &mut bytes).is_ok(), "a law can be written");
    let fault = vx::choose("fault", 3);
    let file = File(vx::file(&bytes, fault));
    let r = parse_xml_file(&file.0);
    if fault == 0 {
      vx::check(matches!(r, Ok(l) if l == law), "the law in a file is read");
    } else {
      vx::check(r.is_err(), "what cannot be read is an error");
    }
  }

  // a file of any length is read to its end
  fn p19_long() {
    let law = law_with(1, xml_text("text", vx::param("len")));
    let mut x = Vec::new();
    vx::check(write_file(&law, &mut x).is_ok(), "a law can be written");
    let at = law_tag(&x).0;
    let mut bytes = x[..at].to_vec();
    bytes.extend_from_slice(b"<!--");
    bytes.resize(vx::param("size"), b'x');
    bytes.extend_from_slice(b"-->");
    bytes.extend_from_slice(&x[at..]);
    let file = File(vx::file(&bytes, 0));
    vx::check(matches!(parse_xml_file(&file.0), Ok(l) if l == law), "the law at the end of a long file is read");
  }

  // any bytes in a file or in memory are read alike, without panic
  fn p19_bytes() {
    let mut bytes = ["", "<", "<Law", "<Law a='", "<Law>&", "<Law><![CDATA[", "<Law><!-", "<?xml ", "<!DOCTYPE a", "<Law></Law>", "\u{feff}<Law/>"][vx::param("start")].as_bytes().to_vec();
    for i in 0..vx::param("len") {
      bytes.push(vx::int(&format!("b{i}"), 0, 255) as u8);
    }
    let a = parse_xml(&bytes);
    let file = File(vx::file(&bytes, 0));
    let b = parse_xml_file(&file.0);
    vx::check(a.ok() == b.ok(), "a file is read as its bytes are");
  }
}
