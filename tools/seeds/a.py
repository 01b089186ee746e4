SEEDS = [
dict(id="S01-column-border", property="P01",
  needs="a table column whose top and bottom border are the same non-default style",
  breaks="the bottom border is not written, so it reads back as solid",
  edits=[("src/table.rs", '''    e.attributes.insert(
      "BorderBottom".to_string(),
      self.border_bottom.to_attribute(),
    );
''', '''    if self.border_bottom != self.border_top {
      e.attributes.insert(
        "BorderBottom".to_string(),
        self.border_bottom.to_attribute(),
      );
    }
''')],
  demo='''
fn main() {
  let x = para("<TableStruct><Table><TableRow><TableColumn BorderTop=\\"none\\" BorderBottom=\\"none\\" BorderLeft=\\"dotted\\" BorderRight=\\"solid\\"><Sentence>a</Sentence></TableColumn></TableRow></Table></TableStruct>");
  let l = read(&x);
  assert_eq!(read(&write(&l)), l);
}
'''),
dict(id="S02-class-order", property="P02",
  needs="an old-style paragraph class that has both a title and child items",
  breaks="the class title is written after the class sentence, against the schema order; reading back still works",
  edits=[("src/class.rs", '''    if let Some(title) = &self.class_title {
      e.children.push(XMLNode::Element(
        title.to_xml_element_with_name("ClassTitle"),
      ))
    }
    e.children.push(XMLNode::Element(
      self
        .class_sentence
        .to_xml_element_with_name("ClassSentence"),
    ));
''', '''    e.children.push(XMLNode::Element(
      self
        .class_sentence
        .to_xml_element_with_name("ClassSentence"),
    ));
    if let Some(title) = &self.class_title {
      let pos = if self.children.is_empty() { 0 } else { 1 };
      e.children.insert(
        pos,
        XMLNode::Element(title.to_xml_element_with_name("ClassTitle")),
      )
    }
''')],
  demo='''
fn main() {
  let it = "<Item Num=\\"1\\"><ItemSentence><Sentence>i</Sentence></ItemSentence></Item>";
  let x = para(&format!("<Class Num=\\"1\\"><ClassTitle>ct</ClassTitle><ClassSentence><Sentence>a</Sentence></ClassSentence>{it}</Class>"));
  let w = write(&read(&x));
  let a = w.find("<ClassTitle>").unwrap();
  let b = w.find("<ClassSentence>").unwrap();
  assert!(a < b, "{w}");
}
'''),
dict(id="S03-sentence-indent", property="P03",
  needs="a sentence with an Indent of Subitem10",
  breaks="the reader gives Subitem10 indents the level Subitem1",
  edits=[("src/sentence.rs", '''Some("Subitem10") => Some(SentenceIndent::Subitem10),''', '''Some(s) if s.starts_with("Subitem1") => Some(SentenceIndent::Subitem1),''')],
  demo='''
fn main() {
  let x = law("<MainProvision><Paragraph Num=\\"1\\"><ParagraphNum/><ParagraphSentence><Sentence Indent=\\"Subitem10\\">s</Sentence></ParagraphSentence></Paragraph></MainProvision>");
  assert!(write(&read(&x)).contains("Subitem10"));
}
'''),
dict(id="S04-num-width", property="P06",
  needs="a branch number beyond 16 bits in the compact form",
  breaks="the branch numbers of a range end are read as u16, so large ones fail to parse back",
  edits=[("src/article_number.rs", '''        let n_lst = s.split('_').map(|s| {
          s.parse::<usize>()
            .map_err''', '''        let n_lst = s.split('_').map(|s| {
          s.parse::<u16>()
            .map(usize::from)
            .map_err''')],
  demo='''
fn main() {
  let n = an(3, &[2], &[70000, 1]);
  assert_eq!(ArticleNumber::from_num_str(&n.num_str()).ok(), Some(n));
}
'''),
dict(id="S05-range-branches", property="P07",
  needs="an article range whose end has two or more branch numbers",
  breaks="only the first branch number of the range end is written in heading texts",
  edits=[("src/article_number.rs", '''      s.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));
      for n in l {
''', '''      s.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));
      if let Some(n) = l.next() {
''')],
  demo='''
fn main() {
  let n = an(3, &[2], &[5, 2, 4]);
  assert_eq!(parse_article_number(&n.article_text()), Some(n));
}
'''),
dict(id="S06-iroha", property="P08",
  needs="a hiragana item label at one of two rarely used positions",
  breaks="ゐ and ゑ change places when labels are written",
  edits=[("src/article_number.rs", '''    25 => Some("ゐ".to_string()),''', '''    25 => Some("ゑ".to_string()),'''),
         ("src/article_number.rs", '''    43 => Some("ゑ".to_string()),''', '''    43 => Some("ゐ".to_string()),''')],
  demo='''
fn main() {
  for i in 1..=47 {
    let n = an(i, &[], &[]);
    let s = n.item_text(ItemPattern::ParenIrohaHiragana);
    let r = parse_item_number(&s).unwrap();
    assert_eq!((r.base_number, r.pattern), (i, ItemPattern::ParenIrohaHiragana));
  }
}
'''),
dict(id="S07-lone-paragraphs", property="P14",
  needs="a provision with paragraphs outside articles on both sides of a chapter that holds no article of its own",
  breaks="paragraphs before and after a chapter without direct articles fall into one group",
  edits=[("src/utils.rs", '''      MainProvisionContents::Chapter(t) => {
        para_v.push(para_v_tmp);
        para_v_tmp = Vec::new();
        let mut v2 = article_list_from_chapter(t);
        v.append(&mut v2);
''', '''      MainProvisionContents::Chapter(t) => {
        let mut v2 = article_list_from_chapter(t);
        if v2.iter().any(|w| w.get_section().is_none()) {
          para_v.push(para_v_tmp);
          para_v_tmp = Vec::new();
        }
        v.append(&mut v2);
''')],
  demo='''
use jl::utils::*;
fn main() {
  let p = "<Paragraph Num=\\"1\\"><ParagraphNum/><ParagraphSentence><Sentence>s</Sentence></ParagraphSentence></Paragraph>";
  let art = format!("<Article Num=\\"7\\"><ArticleTitle>a</ArticleTitle>{p}</Article>");
  let x = law(&format!("<MainProvision>{p}<Chapter Num=\\"4\\"><ChapterTitle>s</ChapterTitle><Section Num=\\"9\\"><SectionTitle>d</SectionTitle>{art}</Section></Chapter>{p}</MainProvision>"));
  let l = read(&x);
  let (v, q) = with_number_article_list_from_main_provision(&l.law_body.main_provision);
  assert_eq!(v.len(), 1);
  assert_eq!(q.iter().map(|g| g.len()).collect::<Vec<_>>(), vec![1, 1]);
}
'''),
dict(id="S08-toc-leak", property="P15",
  needs="a supplementary provision with an article followed by a chapter",
  breaks="the number of an article leaks into the contents entries of the chapters after it",
  edits=[("src/utils.rs", '''  let mut v = Vec::new();
  for se in suppl_provision.children.iter() {
    match se {
      suppl_provision::SupplProvisionChildrenElement::Article(t) => {
        let mut toc = Toc::default();
        toc.set_article(Some(t.num.clone()));
        toc.set_title(Some(t.title.to_string()));
        v.push(toc.clone());
      }
      suppl_provision::SupplProvisionChildrenElement::Chapter(t) => {
        let mut toc = Toc::default();
''', '''  let mut v = Vec::new();
  let mut toc = Toc::default();
  for se in suppl_provision.children.iter() {
    match se {
      suppl_provision::SupplProvisionChildrenElement::Article(t) => {
        toc.set_chapter(None);
        toc.set_article(Some(t.num.clone()));
        toc.set_title(Some(t.title.to_string()));
        v.push(toc.clone());
      }
      suppl_provision::SupplProvisionChildrenElement::Chapter(t) => {
''')],
  demo='''
use jl::utils::*;
fn main() {
  let art = "<Article Num=\\"7\\"><ArticleTitle>a</ArticleTitle><Paragraph Num=\\"1\\"><ParagraphNum/><ParagraphSentence><Sentence>s</Sentence></ParagraphSentence></Paragraph></Article>";
  let x = law(&format!("<MainProvision>{art}</MainProvision><SupplProvision><SupplProvisionLabel>l</SupplProvisionLabel>{art}<Chapter Num=\\"9\\"><ChapterTitle>d</ChapterTitle>{art}</Chapter></SupplProvision>"));
  let l = read(&x);
  let v = toc_list_from_suppl_provision(&l.law_body.suppl_provision[0]);
  assert_eq!(v[1].get_article(), None);
}
'''),
dict(id="S09-deep-path", property="P16",
  needs="a sub-item at the eighth level or deeper",
  breaks="the index path loses the number of the seventh-level sub-item above it",
  edits=[("src/utils.rs", '''    let mut v2 = text_list_from_subitem8(para_num, l.clone(), &t.children);
    v.append(&mut v2);
''', '''    if !t.children.is_empty() {
      l.truncate(7);
    }
    let mut v2 = text_list_from_subitem8(para_num, l.clone(), &t.children);
    v.append(&mut v2);
''')],
  demo='''
use jl::utils::*;
fn main() {
  let mut inner = String::new();
  for i in (1..=8).rev() {
    inner = format!("<Subitem{i} Num=\\"{i}\\"><Subitem{i}Sentence><Sentence>s{i}</Sentence></Subitem{i}Sentence>{inner}</Subitem{i}>");
  }
  let x = para(&format!("<Item Num=\\"1\\"><ItemSentence><Sentence>i</Sentence></ItemSentence>{inner}</Item>"));
  let l = read(&x);
  let (_, p) = article_list_from_main_provision(&l.law_body.main_provision);
  let v = text_info_list_from_paragraph(&p[0]);
  assert_eq!(v.last().unwrap().0.items.len(), 9);
}
'''),
dict(id="S10-quote-sup", property="P17",
  needs="a superscript inside a quotation inside a sentence",
  breaks="superscripts in quotations are rendered as subscripts",
  edits=[("src/utils.rs", '''      SentenceElement::QuoteStruct(quote_struct) => {
        let contents = &quote_struct.contentes.contents;
        for c in contents.iter() {
          match c {
            ContentsElement::String(s2) => s.push_str(s2),
            ContentsElement::Ruby(ruby) => {
              s.push_str(&ruby.text.to_string());
            }
            ContentsElement::Sub(s2) => {
              s.push_str("_{");
              s.push_str(&s2.text);
              s.push('}');
            }
            ContentsElement::Sup(s2) => {
              s.push_str("^{");
''', '''      SentenceElement::QuoteStruct(quote_struct) => {
        let contents = &quote_struct.contentes.contents;
        for c in contents.iter() {
          match c {
            ContentsElement::String(s2) => s.push_str(s2),
            ContentsElement::Ruby(ruby) => {
              s.push_str(&ruby.text.to_string());
            }
            ContentsElement::Sub(s2) => {
              s.push_str("_{");
              s.push_str(&s2.text);
              s.push('}');
            }
            ContentsElement::Sup(s2) => {
              s.push_str("_{");
''')],
  demo='''
use jl::utils::*;
fn main() {
  let x = law("<MainProvision><Paragraph Num=\\"1\\"><ParagraphNum/><ParagraphSentence><Sentence>s<QuoteStruct>x<Sup>2</Sup></QuoteStruct></Sentence></ParagraphSentence></Paragraph></MainProvision>");
  let l = read(&x);
  let (_, p) = article_list_from_main_provision(&l.law_body.main_provision);
  assert_eq!(text_from_paragraph_list(&p[0]), "sx^{2}");
}
'''),
dict(id="S11-num-overflow", property="P09",
  needs="a paragraph number line with more full-width digits than fit in a usize",
  breaks="the number parser panics on oversized full-width numbers",
  edits=[("src/article_number.rs", '''    .replace('９', "9")
    .parse::<usize>()
    .ok()
''', '''    .replace('９', "9")
    .chars()
    .try_fold(0usize, |n, c| {
      c.to_digit(10).map(|d| n * 10 + d as usize)
    })
''')],
  demo='''
fn main() {
  assert!(parse_article_number("第１８条").is_some());
  assert!(parse_article_number("９９９９９９９９９９９９９９９９９９９９９９９").is_none());
}
'''),
]
