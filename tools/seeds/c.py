SEEDS = [
dict(id="S30-iroha-order", property="P08",
  needs="the twelfth or twenty-seventh item in iroha order",
  breaks="ヲ and オ change places in generator and reader alike, so labels still round trip but the twelfth item is called オ",
  edits=[("src/article_number.rs", '''    "ヲ" => Some(12),
''', '''    "オ" => Some(12),
'''), ("src/article_number.rs", '''    "オ" => Some(27),
''', '''    "ヲ" => Some(27),
'''), ("src/article_number.rs", '''    12 => Some("ヲ".to_string()),
''', '''    12 => Some("オ".to_string()),
'''), ("src/article_number.rs", '''    27 => Some("オ".to_string()),
''', '''    27 => Some("ヲ".to_string()),
''')],
  demo='''
fn main() {
  assert_eq!(an(12, &[], &[]).item_text(ItemPattern::NoParenIrohaKatakana), "ヲ");
}
'''),
dict(id="S31-range-suffix", property="P07",
  needs="a range of articles whose end has a branch number",
  breaks="the text of a range of articles repeats the suffix after まで when its end has a branch number; readers match a prefix and do not mind",
  edits=[("src/article_number.rs", '''      s.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));
      for n in l {
        let n_kansuji = Kansuji::from(n);
        s.push_str(&format!("の{}", n_kansuji.to_string()));
      }
      s.push_str("まで");
''', '''      s.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));
      let branched = l.len() > 0;
      for n in l {
        let n_kansuji = Kansuji::from(n);
        s.push_str(&format!("の{}", n_kansuji.to_string()));
      }
      s.push_str("まで");
      if branched {
        s.push_str(suffix);
      }
''')],
  demo='''
fn main() {
  assert_eq!(an(3, &[], &[5, 2]).article_text(), "第三条から第五条の二まで");
  assert_eq!(an(3, &[], &[5]).article_text(), "第三条から第五条まで");
}
'''),
dict(id="S32-bom-slice", property="P19",
  needs="an input of fewer than three bytes",
  breaks="reading an input shorter than a byte order mark panics instead of returning an error",
  edits=[("src/lib.rs", """  let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
  let law = law::Law::parser(&element)?;
""", """  let bom = "\\u{feff}".as_bytes();
  let xml = if &xml[..bom.len()] == bom {
    &xml[bom.len()..]
  } else {
    xml
  };
  let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
  let law = law::Law::parser(&element)?;
""")],
  demo="""
fn main() {
  assert!(jl::parse_xml(b"<a").is_err());
}
"""),
dict(id="S33-broken-pipe", property="P19",
  needs="a writer that fails with a broken pipe",
  breaks="write_file reports success although the writer refused the rest of the text",
  edits=[("src/lib.rs", """    .write_with_config(w, config)
    .map_err(|_| result::Error::Io)
}""", """    .write_with_config(w, config)
    .or_else(|e| match e {
      xmltree::Error::Io(e) if e.kind() == std::io::ErrorKind::BrokenPipe => Ok(()),
      _ => Err(result::Error::Io),
    })
}""")],
  demo="""
struct W;
impl std::io::Write for W {
  fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
    Err(std::io::ErrorKind::BrokenPipe.into())
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}
fn main() {
  assert!(jl::write_file(&jl::parse_xml(law("<MainProvision/>").as_bytes()).unwrap(), &mut W).is_err());
}
"""),
dict(id="S34-buffer-dropped", property="P19",
  needs="a writer that fails, and a law whose text fits the buffer",
  breaks="write_file buffers its output and drops the buffer without looking at the result of the last write, so a failing writer is not reported",
  edits=[("src/lib.rs", """  let config = gen_config();
  law
    .to_xml_element()
    .write_with_config(w, config)
    .map_err(|_| result::Error::Io)
}""", """  let config = gen_config();
  let mut w = std::io::BufWriter::with_capacity(1 << 16, w);
  law
    .to_xml_element()
    .write_with_config(KeepOpen(&mut w), config)
    .map_err(|_| result::Error::Io)
}

struct KeepOpen<'a, W: Write>(&'a mut W);

impl<W: Write> Write for KeepOpen<'_, W> {
  fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
    self.0.write(buf)
  }

  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}""")],
  demo="""
struct W;
impl std::io::Write for W {
  fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
    Err(std::io::ErrorKind::StorageFull.into())
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}
fn main() {
  assert!(jl::write_file(&jl::parse_xml(law("<MainProvision/>").as_bytes()).unwrap(), &mut W).is_err());
}
"""),
dict(id="S35-lost-newline", property="P19",
  needs="a text with a tab or a line break inside it, to_xml",
  breaks="the in-memory writer turns line breaks inside texts into spaces, so to_xml loses them and write_file does not",
  edits=[("src/lib.rs", """    self.0.push_str(s);
    Ok(s.len())""", """    match s.strip_suffix('\\n') {
      Some(line) if !line.is_empty() => {
        self.0.push_str(line);
        self.0.push(' ');
      }
      _ => self.0.push_str(s),
    }
    Ok(s.len())""")],
  demo="""
fn main() {
  let mut l = jl::parse_xml(law("<MainProvision/>").as_bytes()).unwrap();
  l.law_num = "平成\\n".to_string();
  assert!(jl::parse_xml(jl::to_xml(&l).unwrap().as_bytes()).unwrap() == l);
}
"""),
]
