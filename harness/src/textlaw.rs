//! P10-P13, P18: building a law from plain text, against independently written rules.
//! The law is flattened into its lines again, each with the headings around it and its item
//! depth, and compared with the lines the text was made from.
use crate::numbers::*;
use crate::vx;
use japanese_law_xml_schema::{
  article::*, article_number::*, class::*, law::*, paragraph::*, parse_text, sentence::*, suppl_provision::*, text::*,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
  KPart,
  KChapter,
  KSection,
  KSubsection,
  KDivision,
  KArticle,
  KParagraph,
  KItem,
  KCaption,
  KText,
  KSuppl,
}
use Kind::*;
const KINDS: [Kind; 11] = [KPart, KChapter, KSection, KSubsection, KDivision, KArticle, KParagraph, KItem, KCaption, KText, KSuppl];
const HEADS: [Kind; 5] = [KPart, KChapter, KSection, KSubsection, KDivision];

#[derive(Debug, Clone, PartialEq)]
pub struct Out {
  kind: Kind,
  num: Option<ArticleNumber>,
  text: Option<String>,
  /// where the headings around it stand in the list
  path: Vec<usize>,
  /// number of items around an item
  depth: usize,
  delete: bool,
}

#[derive(Clone)]
pub struct Line {
  kind: Kind,
  num: Option<ArticleNumber>,
  style: usize,
  text: Option<String>,
  /// white space before, between marker and text, and after
  spaces: [String; 3],
}

fn build(title: &str, text: &str) -> japanese_law_xml_schema::result::Result<Law> {
  parse_text(text, 2000, Some(2), Some(3), LawType::Act, Lang::Ja, None, "n".to_string(), title)
}

// ---------------------------------------------------------------- a law as its lines

struct Flat {
  out: Vec<Out>,
  path: Vec<usize>,
}

fn text_str(t: &Text) -> String {
  let mut s = String::new();
  for c in &t.contents {
    match c {
      TextElement::Text(x) => s.push_str(x),
      _ => vx::check(false, "a text holds characters only"),
    }
  }
  s
}

fn sentence_str(s: &Sentence) -> String {
  let mut r = String::new();
  for c in &s.contents {
    match c {
      SentenceElement::String(x) => r.push_str(x),
      _ => vx::check(false, "a sentence holds characters only"),
    }
  }
  r
}

impl Flat {
  fn put(&mut self, kind: Kind, num: Option<&ArticleNumber>, text: Option<String>, depth: usize, delete: bool) {
    self.out.push(Out { kind, num: num.cloned(), text, path: self.path.clone(), depth, delete })
  }

  fn open(&mut self, kind: Kind, num: &ArticleNumber, title: &Text, delete: bool) {
    self.put(kind, Some(num), Some(text_str(title)), 0, delete);
    self.path.push(self.out.len() - 1);
  }

  fn caption(&mut self, c: &Option<Caption>) {
    if let Some(c) = c {
      self.put(KCaption, None, Some(text_str(&c.text)), 0, false);
    }
  }

  /// the sentences of a block: the first is its own line, the others continue it
  fn sentences(&mut self, kind: Kind, num: Option<&ArticleNumber>, l: &[Sentence], depth: usize, delete: bool) {
    vx::check(!l.is_empty(), "a block has a sentence");
    for (i, s) in l.iter().enumerate() {
      vx::check(s.num == Some(i + 1), "the sentences of a block are numbered in order");
      if i == 0 {
        self.put(kind, num, Some(sentence_str(s)), depth, delete);
      } else {
        self.put(KText, None, Some(sentence_str(s)), 0, false);
      }
    }
  }

  fn item_sentences(&mut self, num: &Option<ArticleNumber>, s: &SentenceOrColumnOrTable, depth: usize, delete: bool) {
    match s {
      SentenceOrColumnOrTable::Sentence(l) => self.sentences(KItem, num.as_ref(), l, depth, delete),
      _ => vx::check(false, "an item made from text has sentences"),
    }
  }

  fn paragraph(&mut self, p: &Paragraph, article: Option<&Article>) {
    if article.is_none() {
      self.caption(&p.caption);
    }
    match article {
      Some(a) => self.sentences(KArticle, Some(&a.num), &p.sentence, 0, a.delete),
      None => self.sentences(KParagraph, Some(&p.num), &p.sentence, 0, false),
    }
    for i in &p.children {
      self.item(i);
    }
  }

  fn article(&mut self, a: &Article) {
    self.caption(&a.caption);
    vx::check(!a.paragraph.is_empty(), "an article has a paragraph");
    for (i, p) in a.paragraph.iter().enumerate() {
      if i == 0 {
        vx::check(p.num == number(1), "the first paragraph of an article is paragraph 1");
        vx::check(p.caption.is_none(), "the caption is the article's");
        self.paragraph(p, Some(a));
      } else {
        self.paragraph(p, None);
      }
    }
  }

  fn part(&mut self, t: &Part) {
    self.open(KPart, &t.num, &t.part_title, t.delete);
    for c in &t.children {
      match c {
        PartContents::Article(a) => self.article(a),
        PartContents::Chapter(a) => self.chapter(a),
      }
    }
    self.path.pop();
  }

  fn chapter(&mut self, t: &Chapter) {
    self.open(KChapter, &t.num, &t.chapter_title, t.delete);
    for c in &t.children {
      match c {
        ChapterContents::Article(a) => self.article(a),
        ChapterContents::Section(a) => self.section(a),
      }
    }
    self.path.pop();
  }

  fn section(&mut self, t: &Section) {
    self.open(KSection, &t.num, &t.section_title, t.delete);
    for c in &t.children {
      match c {
        SectionContents::Article(a) => self.article(a),
        SectionContents::Subsection(a) => self.subsection(a),
        SectionContents::Division(a) => self.division(a),
      }
    }
    self.path.pop();
  }

  fn subsection(&mut self, t: &Subsection) {
    self.open(KSubsection, &t.num, &t.subsection_title, t.delete);
    for c in &t.children {
      match c {
        SubsectionContents::Article(a) => self.article(a),
        SubsectionContents::Division(a) => self.division(a),
      }
    }
    self.path.pop();
  }

  fn division(&mut self, t: &Division) {
    self.open(KDivision, &t.num, &t.division_title, t.delete);
    for a in &t.children {
      self.article(a);
    }
    self.path.pop();
  }
}

macro_rules! items {
  ($($f:ident $T:ident $d:literal ($($next:ident)?);)*) => {
    impl Flat {
      $(fn $f(&mut self, i: &$T) {
        self.item_sentences(&i.num, &i.sentence, $d, i.delete);
        $(for c in &i.children {
          self.$next(c);
        })?
      })*
    }
  };
}
items! {
  item Item 0 (subitem1);
  subitem1 Subitem1 1 (subitem2);
  subitem2 Subitem2 2 (subitem3);
  subitem3 Subitem3 3 (subitem4);
  subitem4 Subitem4 4 (subitem5);
  subitem5 Subitem5 5 (subitem6);
  subitem6 Subitem6 6 (subitem7);
  subitem7 Subitem7 7 (subitem8);
  subitem8 Subitem8 8 (subitem9);
  subitem9 Subitem9 9 (subitem10);
  subitem10 Subitem10 10 ();
}

fn flatten(b: &LawBody) -> Vec<Out> {
  vx::check(b.toc.is_none() && b.subject.is_none() && b.enact_statement.is_empty(), "nothing else is in the law");
  vx::check(b.appdx_table.is_empty() && b.appdx_note.is_empty() && b.appdx_style.is_empty(), "nothing else is in the law");
  vx::check(b.appdx.is_empty() && b.appdx_fig.is_empty() && b.appdx_format.is_empty(), "nothing else is in the law");
  let mut f = Flat { out: Vec::new(), path: Vec::new() };
  if let Some(p) = &b.preamble {
    for p in &p.children {
      vx::check(p.children.is_empty() && p.caption.is_none(), "the preamble is plain lines");
      for s in &p.sentence {
        f.put(KText, None, Some(sentence_str(s)), 0, false);
      }
    }
  }
  for c in &b.main_provision.children {
    match c {
      MainProvisionContents::Part(t) => f.part(t),
      MainProvisionContents::Chapter(t) => f.chapter(t),
      MainProvisionContents::Section(t) => f.section(t),
      MainProvisionContents::Article(t) => f.article(t),
      MainProvisionContents::Paragraph(t) => f.paragraph(t, None),
    }
  }
  for s in &b.suppl_provision {
    f.put(KSuppl, None, s.amend_law_num.clone(), 0, false);
    for c in &s.children {
      match c {
        SupplProvisionChildrenElement::Chapter(t) => f.chapter(t),
        SupplProvisionChildrenElement::Article(t) => f.article(t),
        SupplProvisionChildrenElement::Paragraph(t) => f.paragraph(t, None),
        _ => vx::check(false, "a supplementary provision made from text has no appendices"),
      }
    }
  }
  f.out
}

// ---------------------------------------------------------------- what the lines mean

fn number(n: usize) -> ArticleNumber {
  ArticleNumber { base_number: n, eda_numbers: Vec::new(), range_end_numbers: Vec::new() }
}

struct Expected {
  out: Vec<Out>,
  /// every line has a place: the law must be built
  placed: bool,
}

fn expected(lines: &[Line]) -> Expected {
  let mut out: Vec<Out> = Vec::new();
  let mut placed = true;
  // open headings: level and place in the list
  let mut open: Vec<(usize, usize)> = Vec::new();
  let mut styles: Vec<usize> = Vec::new();
  let (mut preamble, mut suppl, mut article, mut block) = (true, false, false, false);
  for (i, l) in lines.iter().enumerate() {
    let mut kind = l.kind;
    let mut text = l.text.clone();
    let mut num = l.num.clone();
    let mut depth = 0;
    if kind == KCaption && !(i + 1 < lines.len() && (lines[i + 1].kind == KArticle || lines[i + 1].kind == KParagraph)) {
      kind = KText;
      text = Some(format!("（{}）", text.unwrap()));
    }
    let mut delete = false;
    if let (Some(t), true) = (&text, kind == KArticle || kind == KItem || HEADS.contains(&kind)) {
      delete = t == "削除" || t == "（削除）";
    }
    match kind {
      KPart | KChapter | KSection | KSubsection | KDivision => {
        let level = HEADS.iter().position(|h| *h == kind).unwrap();
        while open.last().map_or(false, |(l, _)| *l >= level) {
          open.pop();
        }
        let around = open.last().map(|(l, _)| *l);
        placed &= match level {
          0 => around.is_none() && !suppl,
          1 => around.is_none() || around == Some(0),
          2 => around == Some(1) || around.is_none() && !suppl,
          3 => around == Some(2),
          _ => around == Some(2) || around == Some(3),
        };
        preamble = false;
        article = false;
        block = false;
      }
      KArticle => {
        preamble = false;
        article = true;
        block = true;
        styles.clear();
      }
      KParagraph => {
        placed &= article || open.is_empty();
        preamble = false;
        block = true;
        styles.clear();
      }
      KCaption => {
        // told apart from a plain line above
        placed &= lines[i + 1].kind == KArticle || article || open.is_empty();
      }
      KText => {
        if block || preamble {
        } else if suppl && open.is_empty() && !article {
          // a paragraph without a number
          kind = KParagraph;
          num = Some(number(1));
          block = true;
          styles.clear();
        } else {
          placed = false;
        }
      }
      KItem => {
        placed &= block;
        match styles.iter().position(|s| *s == l.style) {
          Some(p) => styles.truncate(p + 1),
          None => styles.push(l.style),
        }
        depth = styles.len() - 1;
        placed &= depth <= 10;
      }
      KSuppl => {
        open.clear();
        suppl = true;
        article = false;
        block = false;
        preamble = false;
        if i + 1 == lines.len() || lines[i + 1].kind == KSuppl {
          continue; // nothing in it
        }
      }
    }
    let path = if kind == KSuppl || kind == KText && preamble { Vec::new() } else { open.iter().map(|(_, p)| *p).collect() };
    let path = if kind == KText && !preamble { around_block(&out) } else { path };
    out.push(Out { kind, num, text, path, depth, delete });
    if let Some(level) = HEADS.iter().position(|h| *h == kind) {
      open.push((level, out.len() - 1));
    }
  }
  Expected { out, placed }
}

/// a plain line stands where the line before it stands
fn around_block(out: &[Out]) -> Vec<usize> {
  out.last().map_or(Vec::new(), |o| o.path.clone())
}

fn check_lines(lines: &[Line], title: &str) {
  let mut text = String::new();
  for l in lines {
    text.push_str(&written(l));
    text.push('\n');
  }
  let e = expected(lines);
  match build(title, &text) {
    Ok(law) => {
      let mut got = flatten(&law.law_body);
      let mut want = e.out;
      if !e.placed {
        // no structure holds the lines as they stand: they are kept, in order, all the same
        for o in got.iter_mut().chain(want.iter_mut()) {
          o.path.clear();
          o.depth = 0;
        }
      }
      vx::check(got.len() == want.len(), "every line is in the law once");
      vx::check_eq(&got, &want, "the lines of the law are those of the text");
      vx::check(
        law.law_body.law_title.as_ref().map(|t| text_str(&t.text)).as_deref() == Some(title),
        "the law has its title",
      );
    }
    Err(_) => vx::check(!e.placed, "a text whose lines all have a place is built"),
  }
}

// ---------------------------------------------------------------- lines as text

/// one numbering style per letter form, with labels for a number
pub const STYLES: [ItemPattern; 15] = [
  ItemPattern::NoParenKansuji,
  ItemPattern::NoParenIrohaKatakana,
  ItemPattern::ParenKansuji,
  ItemPattern::ParenZenkakuNum,
  ItemPattern::ParenIrohaKatakana,
  ItemPattern::ParenZenkakuRomanLower,
  ItemPattern::NoParenIrohaHiragana,
  ItemPattern::ParenIrohaHiragana,
  ItemPattern::NoParenZenkakuUpper,
  ItemPattern::ParenZenkakuUpper,
  ItemPattern::NoParenZenkakuLower,
  ItemPattern::ParenZenkakuLower,
  ItemPattern::NoParenZenkakuRomanUpper,
  ItemPattern::ParenZenkakuRomanUpper,
  ItemPattern::NoParenZenkakuRomanLower,
];

fn marker(l: &Line) -> String {
  let n = l.num.as_ref();
  match l.kind {
    KPart => n.unwrap().part_text(),
    KChapter => n.unwrap().chapter_text(),
    KSection => n.unwrap().section_text(),
    KSubsection => n.unwrap().subsection_text(),
    KDivision => n.unwrap().division_text(),
    KArticle => n.unwrap().article_text(),
    KParagraph => n.unwrap().paragraph_text(),
    KItem => n.unwrap().item_text(STYLES[l.style]),
    _ => String::new(),
  }
}

fn written(l: &Line) -> String {
  let text = l.text.clone().unwrap_or_default();
  let [a, b, c] = &l.spaces;
  match l.kind {
    KCaption => format!("{a}（{text}）{c}"),
    KText => format!("{a}{text}{c}"),
    KSuppl => match &l.text {
      Some(t) => format!("{a}附{b}則{b}（{t}）{c}"),
      None => format!("{a}附{b}則{c}"),
    },
    _ => format!("{a}{}{b}{text}{c}", marker(l)),
  }
}

/// two characters that are neither space nor brackets nor the start of 附則 or 削除
fn word(name: &str) -> String {
  let mut s = String::new();
  s.push(vx::ch(&format!("{name}.a"), "word"));
  s.push(vx::ch(&format!("{name}.b"), "word"));
  s
}

/// the line numbered `i` of a kind: its number tells it from the others, its text is anything
fn line(i: usize, kind: Kind, style: usize) -> Line {
  let n = ArticleNumber {
    base_number: [14, 1, 2, 7, 5, 8, 11, 6][i % 8],
    eda_numbers: if i % 3 == 1 { vec![2, 10] } else { Vec::new() },
    range_end_numbers: if i % 4 == 3 { vec![15, 13] } else { Vec::new() },
  };
  Line {
    kind,
    num: if kind == KCaption || kind == KText || kind == KSuppl { None } else { Some(n) },
    style,
    spaces: [String::new(), if kind == KSuppl { "" } else { "　" }.to_string(), String::new()],
    text: if kind == KSuppl && vx::choose(&format!("l{i}.law"), 2) == 0 { None } else { Some(word(&format!("l{i}"))) },
  }
}

/// the digits of a parameter, each a line kind (1 is a part)
fn script(mut n: usize) -> Vec<Kind> {
  let mut v = Vec::new();
  while n > 0 {
    v.insert(0, KINDS[n % 12 - 1]);
    n /= 12;
  }
  v
}

entries2! { P11
  // a fixed beginning (parameter "script") and every sequence of lines after it
  fn p11_lines() {
    let mut lines = Vec::new();
    for k in script(vx::param("script")) {
      let i = lines.len();
      lines.push(line(i, k, 0));
    }
    let n = vx::param("n");
    for _ in 0..n {
      let i = lines.len();
      let kind = KINDS[vx::choose(&format!("l{i}.kind"), KINDS.len())];
      lines.push(line(i, kind, 0));
    }
    let title = word("title");
    check_lines(&lines, &title);
  }

  // text 削除 marks its heading, article or item deleted
  fn p11_deleted() {
    let mut lines = Vec::new();
    for (i, k) in [KPart, KChapter, KSection, KSubsection, KDivision, KArticle, KItem, KItem].into_iter().enumerate() {
      let mut l = line(i, k, i % 2);
      if i == vx::param("at") {
        l.text = Some(["削除", "（削除）", "削除する", "削"][vx::choose("text", 4)].to_string());
      }
      lines.push(l);
    }
    check_lines(&lines, "t");
  }
}

entries2! { P12
  // every sequence of item lines over `styles` styles
  fn p12_items() {
    let n = vx::param("n");
    let styles = vx::param("styles");
    let mut lines = vec![line(0, KArticle, 0)];
    // a fixed descent through `down` styles
    for d in 0..vx::param("down") {
      lines.push(line(d + 1, KItem, d));
    }
    for _ in 0..n {
      let i = lines.len();
      let k = vx::choose(&format!("l{i}.style"), styles + 2);
      if k == styles {
        lines.push(line(i, KText, 0));
      } else if k == styles + 1 {
        lines.push(line(i, KParagraph, 0));
      } else {
        // the styles last opened
        let first = vx::param("first");
        lines.push(line(i, KItem, first + k));
      }
    }
    check_lines(&lines, "t");
  }
}

// ---------------------------------------------------------------- one line, any characters

/// characters that neither begin nor end with white space
fn phrase(name: &str, len: usize, first: &str, inner: &str) -> String {
  let mut s = String::new();
  for i in 0..len {
    let class = if i == 0 { first } else if i + 1 == len { "ink" } else { inner };
    s.push(vx::ch(&format!("{name}.{i}"), class));
  }
  s
}

fn gap(name: &str, len: usize) -> String {
  let mut s = String::new();
  for i in 0..len {
    s.push(vx::ch(&format!("{name}.{i}"), "gap"));
  }
  s
}

/// the lines around a line that give it a place
fn around(kind: Kind, l: Line) -> Vec<Line> {
  match kind {
    KSubsection | KDivision => vec![line(1, KChapter, 0), line(2, KSection, 0), l, line(3, KArticle, 0)],
    KItem => vec![line(1, KArticle, 0), l, line(2, KText, 0)],
    KCaption | KSuppl => vec![line(1, KArticle, 0), l, line(2, KArticle, 0)],
    KParagraph => vec![line(1, KText, 0), l, line(2, KItem, 0)],
    _ => vec![l, line(1, KArticle, 0)],
  }
}

entries2! { P13
  // a line with a marker: any number, any text, any white space around
  fn p13_marked() {
    let kind = KINDS[vx::param("kind")];
    let num = shaped(vx::param("eda"), vx::param("range"), &|name, _, place| small(name, place), 0);
    let text = phrase("text", vx::param("len"), "ink", "line");
    let g = vx::param("gap");
    let spaces = [gap("before", g), gap("between", 1 + g), gap("after", g)];
    let l = Line { kind, num: Some(num), style: vx::param("style"), text: Some(text), spaces };
    check_lines(&around(kind, l), "t");
  }

  // a parenthesised phrase before an article
  fn p13_caption() {
    let n = vx::param("len");
    let mut text = String::new();
    for i in 0..n {
      text.push(vx::ch(&format!("text.{i}"), "line"));
      vx::assume(!text.ends_with('）'));
    }
    let g = vx::param("gap");
    let l = Line { kind: KCaption, num: None, style: 0, text: Some(text), spaces: [gap("before", g), String::new(), gap("after", g)] };
    check_lines(&around(KCaption, l), "t");
  }

  // a supplementary provision, with or without the law it came with
  fn p13_suppl() {
    let n = vx::param("len");
    let text = if n == 0 { None } else { Some(phrase("law", n, "line", "line")) };
    let g = vx::param("gap");
    let l = Line { kind: KSuppl, num: None, style: 0, text, spaces: [gap("before", g), gap("between", g), gap("after", g)] };
    check_lines(&around(KSuppl, l), "t");
  }

  // a plain line: no marker, no brackets around it. "form" 0 is one word of any characters, 1 words
  // the first of which no enumeration starts with, 2 words the first of which only begins like a label
  fn p13_plain() {
    let n = vx::param("len");
    let text = match vx::param("form") {
      0 => phrase("text", n, "ink", "ink"),
      1 => phrase("text", n, "prose", "line"),
      // a label with a branch or range end that is no number
      3 => format!("{}　{}", ["一のＩＩＩＩ", "（ａ）のＩＩＩＩ", "イからＶＶまで", "一から二のＩＩＩＩまで"][vx::choose("label", 4)], phrase("text", n, "ink", "line")),
      _ => {
        let mut t = phrase("label", 1, ["あいん", "アイン", "ａｉｚ", "ＡＩＺ"][vx::choose("letter", 4)], "ink");
        t.push(vx::ch("second", "prose"));
        t.push_str(&gap("between", 1));
        t.push_str(&phrase("text", n, "ink", "line"));
        t
      }
    };
    vx::assume(!text.starts_with('附') && (!text.starts_with('（') || vx::param("form") == 3));
    let g = vx::param("gap");
    let l = Line { kind: KText, num: None, style: 0, text: Some(text), spaces: [gap("before", g), String::new(), gap("after", g)] };
    let mut lines = Vec::new();
    if vx::param("place") == 1 {
      lines.push(line(1, KArticle, 0));
    }
    lines.push(l);
    check_lines(&lines, "t");
  }

  // line ends and the end of the text do not matter
  fn p13_ends() {
    let lines = [line(0, KPart, 0), line(1, KChapter, 0), line(2, KArticle, 0), line(3, KItem, 0)];
    let mut plain = String::new();
    let mut other = String::new();
    for (i, l) in lines.iter().enumerate() {
      let w = written(l);
      plain.push_str(&w);
      plain.push('\n');
      other.push_str(&w);
      let last = i + 1 == lines.len();
      other.push_str(["\n", "\r\n", ""][vx::choose(&format!("end{i}"), if last { 3 } else { 2 })]);
    }
    let a = build("t", &plain).ok().map(|l| l.law_body);
    let b = build("t", &other).ok().map(|l| l.law_body);
    vx::check(a.is_some(), "the law is built");
    vx::check(a.map(|b| flatten(&b)) == b.map(|b| flatten(&b)), "line ends make no difference");
  }
}

entries2! { P10
  // any text of short lines of any characters
  fn p10_characters() {
    let mut text = String::new();
    for i in 0..vx::param("lines") {
      let n = vx::choose(&format!("len{i}"), vx::param("len") + 1);
      for j in 0..n {
        text.push(vx::ch(&format!("c{i}.{j}"), "line"));
      }
      text.push('\n');
    }
    let r = build("", &text);
    vx::check(r.is_ok() || r.is_err(), "returns");
  }

  // a line of each kind with a text of `len` characters, any but a line break
  fn p10_text() {
    let k = KINDS[vx::param("kind")];
    let mut t = String::new();
    for j in 0..vx::param("len") {
      t.push(vx::ch(&format!("t{j}"), "line"));
    }
    let mut text = String::new();
    if vx::choose("below", 2) == 1 {
      text.push_str(&written(&line(0, KArticle, 0)));
      text.push('\n');
    }
    text.push_str(&written(&Line { text: Some(t), ..line(1, k, 0) }));
    text.push('\n');
    let r = build("t", &text);
    vx::check(r.is_ok() || r.is_err(), "returns");
  }

  // any order of lines of all kinds, items in several styles
  fn p10_order() {
    let mut lines = Vec::new();
    for k in script(vx::param("script")) {
      let i = lines.len();
      lines.push(line(i, k, 0));
    }
    let styles = vx::param("styles");
    for _ in 0..vx::param("n") {
      let i = lines.len();
      let k = vx::choose(&format!("l{i}.kind"), KINDS.len() + styles);
      if k == KINDS.len() + styles - 1 {
        lines.push(Line { text: Some(String::new()), ..line(i, KText, 0) });
      } else if k >= KINDS.len() {
        lines.push(line(i, KItem, k + 1 - KINDS.len()));
      } else {
        lines.push(line(i, KINDS[k], 0));
      }
    }
    let mut text = String::new();
    for l in &lines {
      text.push_str(&written(l));
      text.push('\n');
    }
    let r = build("t", &text);
    vx::check(r.is_ok() || r.is_err(), "returns");
  }
}

entries2! { P10_ITEMS
  // item lines in any style below `down` nested items
  fn p10_items() {
    let mut lines = vec![line(0, KArticle, 0)];
    for d in 0..vx::param("down") {
      lines.push(line(d + 1, KItem, d));
    }
    let styles = vx::param("styles");
    for _ in 0..vx::param("n") {
      let i = lines.len();
      let k = vx::choose(&format!("l{i}.style"), styles + 2);
      lines.push(if k < styles { line(i, KItem, k) } else { line(i, [KText, KParagraph][k - styles], 0) });
    }
    let mut text = String::new();
    for l in &lines {
      text.push_str(&written(l));
      text.push('\n');
    }
    let r = build("t", &text);
    vx::check(r.is_ok() || r.is_err(), "returns");
  }
}

// ---------------------------------------------------------------- the date

fn days(y: usize, m: usize) -> usize {
  match m {
    4 | 6 | 9 | 11 => 30,
    2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
    2 => 28,
    _ => 31,
  }
}

fn not_before(a: (usize, usize, usize), b: (usize, usize, usize)) -> bool {
  a.0 > b.0 || a.0 == b.0 && (a.1 > b.1 || a.1 == b.1 && a.2 >= b.2)
}

entries2! { P18
  fn p18_date() {
    let year: usize = vx::any("year");
    let month: Option<usize> = if vx::choose("month?", 2) == 0 { None } else { Some(vx::any("month")) };
    let day: Option<usize> = if vx::choose("day?", 2) == 0 { None } else { Some(vx::any("day")) };
    let ty = [LawType::Constitution, LawType::Act, LawType::CabinetOrder, LawType::ImperialOrder, LawType::MinisterialOrdinance, LawType::Rule, LawType::Misc][vx::choose("type", vx::param("types"))].clone();
    let lang = [Lang::Ja, Lang::En][vx::choose("lang", vx::param("types").min(2))].clone();
    let num = if vx::choose("num?", 2) == 0 { None } else { Some(number(vx::any("num"))) };
    let law_num = word("law_num");
    let title = word("title");
    let r = parse_text("第一条　本文", year, month, day, ty.clone(), lang.clone(), num.clone(), law_num.clone(), &title);
    let (y, m, d) = (year, month.unwrap_or(1), day.unwrap_or(1));
    let valid = m >= 1 && m <= 12 && d >= 1 && d <= days(y, m);
    let date = (y, m, d);
    let era = if !valid || !not_before(date, (1868, 1, 25)) {
      None
    } else if not_before(date, (2019, 5, 1)) {
      Some(Era::Reiwa)
    } else if not_before(date, (1989, 1, 8)) {
      Some(Era::Heisei)
    } else if not_before(date, (1926, 12, 25)) {
      Some(Era::Showa)
    } else if not_before(date, (1912, 7, 30)) {
      Some(Era::Taisho)
    } else {
      Some(Era::Meiji)
    };
    match (r, era) {
      // the calendar ends there: whatever happens is no panic
      _ if y > 9999 => vx::check(true, "returns"),
      (Err(_), None) => vx::check(true, "a date without an era is an error"),
      (Ok(law), Some(era)) => {
        vx::check(law.era == era, "the era is the one in force on the date");
        vx::check(law.year == year && law.promulgate_month == month && law.promulgate_day == day, "the date is the one given");
        vx::check(law.law_type == ty && law.lang == lang, "type and language are those given");
        vx::check(law.num == num && law.law_num == law_num, "the numbers are those given");
        vx::check(
          law.law_body.law_title.as_ref().map(|t| text_str(&t.text)).as_deref() == Some(&title),
          "the title is the one given",
        );
      }
      (Ok(_), None) => vx::check(false, "a date without an era is an error"),
      (Err(_), Some(_)) => vx::check(false, "a date with an era gives a law"),
    }
  }
}
