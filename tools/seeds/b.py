TEXT = '''
fn text(s: &str) -> jl::law::Law {
  jl::parse_text(s, 2022, Some(4), Some(1), jl::law::LawType::Act, jl::law::Lang::Ja, None, "n".into(), "t").unwrap()
}
'''
SEEDS = [
dict(id="S12-list-unwrap", property="P04",
  needs="a List whose element has no element child at all",
  breaks="reading an empty List panics instead of returning an error",
  edits=[("src/list.rs", '''      if let Some("ListSentence") = list_sentence.and_then(|node| {
        if let XMLNode::Element(e) = node {
          Some(e.name.as_str())
        } else {
          None
        }
      }) {
''', '''      let name = list_sentence.unwrap().as_element().map(|e| e.name.as_str());
      if name == Some("ListSentence") {
''')],
  demo='''
fn main() {
  let x = para("<List></List>");
  assert!(jl::parse_xml(x.as_bytes()).is_err());
}
'''),
dict(id="S13-function-lenient", property="P05",
  needs="a sentence whose Function is neither main nor proviso",
  breaks="an unknown sentence function is read as no function instead of being an error",
  edits=[("src/sentence.rs", '''        None => None,
        _ => {
          return Err(Error::AttributeParseError {
            tag_name: element.name.clone(),
            attribute_name: "Function".to_string(),
          })
        }
      };
''', '''        _ => None,
      };
''')],
  demo='''
fn main() {
  let x = law("<MainProvision><Paragraph Num=\\"1\\"><ParagraphNum/><ParagraphSentence><Sentence Function=\\"Main\\">s</Sentence></ParagraphSentence></Paragraph></MainProvision>");
  assert!(jl::parse_xml(x.as_bytes()).is_err());
}
'''),
dict(id="S14-remarks-skip", property="P05",
  needs="an appended format whose remarks are malformed",
  breaks="remarks of an AppdxFormat that cannot be read are dropped instead of being an error",
  edits=[("src/appdx.rs", '''            "Remarks" => {
              let v = Remarks::parser(e)?;
              remarks = Some(v)
            }
            s => return Err(Error::unexpected_tag(element, s)),
          }
        }
      }
      Ok(AppdxFormat {
''', '''            "Remarks" => {
              remarks = Remarks::parser(e).ok();
            }
            s => return Err(Error::unexpected_tag(element, s)),
          }
        }
      }
      Ok(AppdxFormat {
''')],
  demo='''
fn main() {
  let x = law("<MainProvision/><AppdxFormat><Remarks><RemarksLabel>l</RemarksLabel><Item/></Remarks></AppdxFormat>");
  assert!(jl::parse_xml(x.as_bytes()).is_err());
}
'''),
dict(id="S15-article-delete-slice", property="P10",
  needs="an article line whose text is longer than 12 bytes with a character across byte 12",
  breaks="building a law from text panics on an article with mixed-width text",
  edits=[("src/parse_from_text.rs", '''    suppl_note: None,
    num: n.clone(),
    delete: text.trim() == "削除" || text.trim() == "（削除）",
''', '''    suppl_note: None,
    num: n.clone(),
    delete: {
      let t = text.trim();
      let head = if t.len() > 12 { &t[..12] } else { t };
      head == "削除" || head == "（削除）" && t.len() == 12
    },
''')],
  demo=TEXT + '''
fn main() {
  let l = text("第一条　a法律はこれを定める。\\n");
  assert_eq!(l.law_body.main_provision.children.len(), 1);
}
'''),
dict(id="S16-division-after-article", property="P11",
  needs="a subsection whose articles are followed by a division",
  breaks="a division after an article of a subsection is not accepted in its place",
  edits=[("src/parse_from_text.rs", '''      Some(LineContents::Division(n, title)) => {
        lines.next();
        let div = parse_division(n, title, lines);
        children.push(article::SubsectionContents::Division(div));
''', '''      Some(LineContents::Division(n, title)) => {
        lines.next();
        let div = parse_division(n, title, lines);
        children.insert(0, article::SubsectionContents::Division(div));
''')],
  demo=TEXT + '''
fn main() {
  let w = write(&text("第一節　a\\n第一款　b\\n第一条　c\\n第一目　d\\n第二条　e\\n"));
  let p = |s: &str| w.find(s).unwrap();
  assert!(p("<Subsection ") < p("<Article Num=\\"1\\"") && p("<Article Num=\\"1\\"") < p("<Division ") && p("<Division ") < p("<Article Num=\\"2\\""), "{w}");
}
'''),
dict(id="S17-subitem7-third", property="P12",
  needs="three sibling items at the eighth nesting level",
  breaks="the third sibling at the depth of Subitem7 is not taken at that level",
  edits=[("src/parse_from_text.rs", '''      let mut subitem8 = Vec::new();
      if let''', '''      let mut subitem8 = Vec::new();
      if v.len() > 1 {
        continue;
      }
      if let''')],
  demo=TEXT + '''
fn main() {
  let w = write(&text("第一条　a\\n一　b\\nイ　b\\n（１）　b\\n（ａ）　b\\n（ア）　b\\n（一）　b\\nあ　b\\n（Ａ）　p\\n（Ｂ）　q\\n（Ｅ）　r\\n"));
  assert!(w.contains("<Subitem7 Num=\\"5\\""), "{w}");
}
'''),
dict(id="S18-law-num-paren", property="P13",
  needs="a supplementary provision line whose law number itself contains parentheses",
  breaks="a 附則 line with nested parentheses is no longer recognised",
  edits=[("src/parse_from_text.rs", "(（(?<law_num>.+)）)?[^（）]*$", "(（(?<law_num>[^（）]+)）)?[^（）]*$")],
  demo=TEXT + '''
fn main() {
  let l = text("第一条　a\\n附則（平成三年法律第一号（抄））\\n１　b\\n");
  assert_eq!(l.law_body.suppl_provision[0].amend_law_num.as_deref(), Some("平成三年法律第一号（抄）"));
}
'''),
dict(id="S19-day-without-month", property="P18",
  needs="a promulgation day given without a month",
  breaks="the given day is dropped when no month is given",
  edits=[("src/lib.rs", '''    promulgate_day: day,
''', '''    promulgate_day: month.and(day),
''')],
  demo='''
fn main() {
  let l = jl::parse_text("第一条　a", 2022, None, Some(4), jl::law::LawType::Act, jl::law::Lang::Ja, None, "n".into(), "t").unwrap();
  assert_eq!(l.promulgate_day, Some(4));
}
'''),
dict(id="S20-item-range-eda", property="P12",
  needs="an item number that is a range and whose start has a branch number",
  breaks="the range end of an item number with branch numbers is lost when the item is built from text",
  edits=[("src/article_number.rs", '''      range_end_numbers: n.range_end_numbers.clone(),
    }
  }
}
''', '''      range_end_numbers: if n.eda_numbers.is_empty() { n.range_end_numbers.clone() } else { Vec::new() },
    }
  }
}
''')],
  demo=TEXT + '''
fn main() {
  let w = write(&text("第一条　a\\n一の二から三まで　b\\n"));
  assert!(w.contains("Num=\\"1_2:3\\""), "{w}");
}
'''),
dict(id="S21-header-dup", property="P03",
  needs="a table header row with two equal neighbouring columns",
  breaks="equal neighbouring columns of a table header are read as one",
  edits=[("src/table.rs", '''            columns.push(text);''', '''            if columns.last() != Some(&text) {
              columns.push(text);
            }''')],
  demo='''
fn main() {
  let x = para("<TableStruct><Table><TableHeaderRow><TableHeaderColumn>a</TableHeaderColumn><TableHeaderColumn>a</TableHeaderColumn></TableHeaderRow></Table></TableStruct>");
  assert_eq!(write(&read(&x)).matches("<TableHeaderColumn>").count(), 2);
}
'''),
dict(id="S22-num-trailing", property="P06",
  needs="the compact number form of a range whose both ends have branch numbers",
  breaks="the branch numbers of the range end come out in reverse order",
  edits=[("src/article_number.rs", '''            Ok(n) => range_end_numbers.push(n),
''', '''            Ok(n) if range_end_numbers.len() < 2 => range_end_numbers.push(n),
            Ok(n) => range_end_numbers.insert(1, n),
''')],
  demo='''
fn main() {
  let n = an(3, &[2], &[7, 4, 1]);
  assert_eq!(ArticleNumber::from_num_str(&n.num_str()).unwrap(), n);
}
'''),
dict(id="S23-paren-roman", property="P08",
  needs="an item number of parenthesised lower-case Roman style with a branch number",
  breaks="the branch numbers of （ｉ） style items are written as letters",
  edits=[("src/article_number.rs", '''      ItemPattern::ParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap(),
      ItemPattern::ParenZenkakuUpper''', '''      ItemPattern::ParenZenkakuRomanLower => to_zenkaku_alphabet_lower(n),
      ItemPattern::ParenZenkakuUpper''')],
  demo='''
fn main() {
  let n = an(2, &[3], &[]);
  let p = parse_item_number(&n.item_text(ItemPattern::ParenZenkakuRomanLower)).unwrap();
  assert_eq!(ArticleNumber::from_item_number(&p), n);
}
'''),
dict(id="S24-suppl-lone", property="P14",
  needs="a supplementary provision with a paragraph before a chapter",
  breaks="lone paragraphs before a chapter of a supplementary provision are joined with those after it",
  edits=[("src/utils.rs", '''      suppl_provision::SupplProvisionChildrenElement::Chapter(t) => {
        para_v.push(para_v_tmp);
        para_v_tmp = Vec::new();
        let mut v2 = article_list_from_chapter(t);
''', '''      suppl_provision::SupplProvisionChildrenElement::Chapter(t) => {
        let mut v2 = article_list_from_chapter(t);
''')],
  demo='''
use jl::utils::*;
fn main() {
  let p = |n: usize| format!("<Paragraph Num=\\"{n}\\"><ParagraphNum/><ParagraphSentence><Sentence>s</Sentence></ParagraphSentence></Paragraph>");
  let x = law(&format!("<MainProvision/><SupplProvision><SupplProvisionLabel>l</SupplProvisionLabel>{}<Chapter Num=\\"1\\"><ChapterTitle>c</ChapterTitle></Chapter>{}</SupplProvision>", p(1), p(2)));
  let l = read(&x);
  let s = &l.law_body.suppl_provision[0];
  assert_eq!(with_number_article_list_from_suppl_provision(s).1, article_list_from_suppl_provision(s).1);
}
'''),
dict(id="S25-toc-empty-division", property="P15",
  needs="a division without articles",
  breaks="the heading of a division without articles is missing from the table of contents list",
  edits=[("src/utils.rs", '''  toc.set_title(Some(t.division_title.to_string()));
  v.push(toc.clone());
''', '''  toc.set_title(Some(t.division_title.to_string()));
  if !t.children.is_empty() {
    v.push(toc.clone());
  }
''')],
  demo='''
use jl::utils::*;
fn main() {
  let l = read(&law("<MainProvision><Section Num=\\"1\\"><SectionTitle>s</SectionTitle><Division Num=\\"1\\"><DivisionTitle>d</DivisionTitle></Division></Section></MainProvision>"));
  assert_eq!(toc_list_from_main_provision(&l.law_body.main_provision).len(), 2);
}
'''),
dict(id="S26-column-join", property="P16",
  needs="an item written in columns of which one has several sentences",
  breaks="an item whose columns hold empty sentences loses its separators",
  edits=[("src/utils.rs", '''              .map(|sentence| sentence_element_to_str(&sentence.contents))
          })
          .collect::<Vec<_>>()
          .join(" "),
''', '''              .map(|sentence| sentence_element_to_str(&sentence.contents))
              .filter(|s| !s.is_empty())
          })
          .collect::<Vec<_>>()
          .join(" "),
''')],
  demo='''
use jl::utils::*;
fn main() {
  let x = para("<Item Num=\\"1\\"><ItemSentence><Column><Sentence>a</Sentence></Column><Column><Sentence></Sentence></Column><Column><Sentence>b</Sentence></Column></ItemSentence></Item>");
  let l = read(&x);
  let (_, ps) = article_list_from_main_provision(&l.law_body.main_provision);
  assert_eq!(text_from_paragraph_list(&ps[0]), "s\\na  b");
}
'''),
dict(id="S27-formula-num", property="P17",
  needs="a numbered formula at the start of a sentence",
  breaks="a numbered formula at the start of a sentence is left out of the plain text",
  edits=[("src/utils.rs", '''      SentenceElement::ArithFormula(arith_formula) => {
        let contents = &arith_formula.contentes.contents;
''', '''      SentenceElement::ArithFormula(arith_formula) if arith_formula.num.is_none() || !s.is_empty() => {
        let contents = &arith_formula.contentes.contents;
''')],
  demo='''
use jl::utils::*;
fn main() {
  let x = para("<Item><ItemSentence><Sentence><ArithFormula Num=\\"1\\">x</ArithFormula></Sentence></ItemSentence></Item>");
  let l = read(&x);
  let (_, ps) = article_list_from_main_provision(&l.law_body.main_provision);
  assert_eq!(text_from_paragraph_list(&ps[0]), "s\\nx");
}
'''),
dict(id="S28-equal-eda", property="P07",
  needs="equal neighbouring branch numbers",
  breaks="equal neighbouring branch numbers are written once in the kanji form",
  edits=[("src/article_number.rs", '''    for n in self.eda_numbers.iter() {
      let n_kansuji = Kansuji::from(n);
      s.push_str(&format!("の{}", n_kansuji.to_string()));
    }
''', '''    let mut eda = self.eda_numbers.clone();
    eda.dedup();
    for n in eda.iter() {
      let n_kansuji = Kansuji::from(n);
      s.push_str(&format!("の{}", n_kansuji.to_string()));
    }
''')],
  demo='''
fn main() {
  let n = an(3, &[2, 2], &[]);
  assert_eq!(parse_article_number(&n.article_text()).unwrap(), n);
}
'''),
dict(id="S29-amend-order", property="P02",
  needs="an old-style paragraph with both a class and an amendment provision",
  breaks="the classes of a paragraph are written before its amendment provisions, against the schema order",
  edits=[("src/paragraph.rs", '''    for v in self.amend_provision.iter() {
      e.children.push(XMLNode::Element(v.to_xml_element()));
    }
    for v in self.class.iter() {
      e.children.push(XMLNode::Element(v.to_xml_element()));
    }
''', '''    for v in self.class.iter() {
      e.children.push(XMLNode::Element(v.to_xml_element()));
    }
    for v in self.amend_provision.iter() {
      e.children.push(XMLNode::Element(v.to_xml_element()));
    }
''')],
  demo='''
fn main() {
  let x = para("<AmendProvision><AmendProvisionSentence><Sentence>a</Sentence></AmendProvisionSentence></AmendProvision><Class Num=\\"1\\"><ClassSentence><Sentence>a</Sentence></ClassSentence></Class>");
  let w = write(&read(&x));
  assert!(w.find("<AmendProvision>").unwrap() < w.find("<Class ").unwrap(), "{w}");
}
'''),
]
