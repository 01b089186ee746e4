//! P14-P17: listings and renderings of law values, against independently written rules
use crate::vx;
use japanese_law_xml_schema::{
  article::*, article_number::ArticleNumber, class::*, contents::*, law::*, paragraph::*, sentence::*, suppl_provision::*,
  table::*, text::*, utils::*,
};

/// makes provision trees of at most so many headings, articles and paragraphs, in every shape
struct Maker {
  left: usize,
  made: usize,
  /// the first children taken, before anything is free
  script: Vec<usize>,
}

type Path = [Option<ArticleNumber>; 5];

impl Maker {
  fn name(&mut self) -> String {
    self.made += 1;
    format!("n{}", self.made)
  }

  /// which child comes next, if any
  fn next(&mut self, kinds: usize) -> Option<usize> {
    if !self.script.is_empty() {
      return Some(self.script.remove(0));
    }
    if self.left == 0 {
      return None;
    }
    self.made += 1;
    let k = vx::choose(&format!("child{}", self.made), kinds + 1);
    if k == 0 {
      None
    } else {
      self.left -= 1;
      Some(k - 1)
    }
  }

  fn title(&self, n: &str) -> Text {
    Text::from_value(vx::text(&format!("{n}.title")))
  }

  fn num(&self, n: &str) -> ArticleNumber {
    vx::any(&format!("{n}.num"))
  }

  fn article(&mut self) -> Article {
    let n = self.name();
    Article {
      caption: vx::any(&format!("{n}.caption")),
      title: self.title(&n),
      paragraph: vx::any(&format!("{n}.paragraph")),
      suppl_note: None,
      num: self.num(&n),
      delete: vx::any(&format!("{n}.delete")),
      hide: false,
    }
  }

  fn division(&mut self) -> Division {
    let n = self.name();
    let mut children = Vec::new();
    while self.next(1).is_some() {
      children.push(self.article());
    }
    Division { division_title: self.title(&n), children, num: self.num(&n), delete: false, hide: false }
  }

  fn subsection(&mut self) -> Subsection {
    let n = self.name();
    let mut children = Vec::new();
    while let Some(k) = self.next(2) {
      children.push(match k {
        0 => SubsectionContents::Article(self.article()),
        _ => SubsectionContents::Division(self.division()),
      });
    }
    Subsection { subsection_title: self.title(&n), children, num: self.num(&n), delete: false, hide: false }
  }

  fn section(&mut self) -> Section {
    let n = self.name();
    let mut children = Vec::new();
    while let Some(k) = self.next(3) {
      children.push(match k {
        0 => SectionContents::Article(self.article()),
        1 => SectionContents::Subsection(self.subsection()),
        _ => SectionContents::Division(self.division()),
      });
    }
    Section { section_title: self.title(&n), children, num: self.num(&n), delete: false, hide: false }
  }

  fn chapter(&mut self) -> Chapter {
    let n = self.name();
    let mut children = Vec::new();
    while let Some(k) = self.next(2) {
      children.push(match k {
        0 => ChapterContents::Article(self.article()),
        _ => ChapterContents::Section(self.section()),
      });
    }
    Chapter { chapter_title: self.title(&n), children, num: self.num(&n), delete: false, hide: false }
  }

  fn part(&mut self) -> Part {
    let n = self.name();
    let mut children = Vec::new();
    while let Some(k) = self.next(2) {
      children.push(match k {
        0 => PartContents::Article(self.article()),
        _ => PartContents::Chapter(self.chapter()),
      });
    }
    Part { part_title: self.title(&n), children, num: self.num(&n), delete: false, hide: false }
  }

  fn paragraph(&mut self) -> Paragraph {
    let n = self.name();
    vx::any(&n)
  }

  fn main_provision(&mut self) -> MainProvision {
    let mut children = Vec::new();
    while let Some(k) = self.next(5) {
      children.push(match k {
        0 => MainProvisionContents::Article(self.article()),
        1 => MainProvisionContents::Part(self.part()),
        2 => MainProvisionContents::Chapter(self.chapter()),
        3 => MainProvisionContents::Section(self.section()),
        _ => MainProvisionContents::Paragraph(self.paragraph()),
      });
    }
    MainProvision { children, extract: None }
  }

  fn suppl_provision(&mut self) -> SupplProvision {
    let mut children = Vec::new();
    while let Some(k) = self.next(4) {
      let n = format!("appdx{}", self.made);
      children.push(match k {
        0 => SupplProvisionChildrenElement::Article(self.article()),
        1 => SupplProvisionChildrenElement::Chapter(self.chapter()),
        2 => SupplProvisionChildrenElement::Paragraph(self.paragraph()),
        _ => SupplProvisionChildrenElement::SupplProvisionAppdx(vx::any(&n)),
      });
    }
    SupplProvision {
      label: Text::from_value("附則"),
      children,
      suppl_provision_type: None,
      amend_law_num: None,
      extract: None,
    }
  }
}

// what the documentation of the listings says, over the tree

/// one heading or article met on the way, with the numbers above and including it
enum Met<'a> {
  Heading(Path, &'a Text),
  Article(Path, &'a Article),
  Paragraph(&'a Paragraph),
}

fn at(p: &Path, level: usize, n: &ArticleNumber) -> Path {
  let mut q = p.clone();
  q[level] = Some(n.clone());
  q
}

fn walk_division<'a>(t: &'a Division, p: &Path, out: &mut Vec<Met<'a>>) {
  let p = at(p, 4, &t.num);
  out.push(Met::Heading(p.clone(), &t.division_title));
  for a in &t.children {
    out.push(Met::Article(p.clone(), a));
  }
}

fn walk_subsection<'a>(t: &'a Subsection, p: &Path, out: &mut Vec<Met<'a>>) {
  let p = at(p, 3, &t.num);
  out.push(Met::Heading(p.clone(), &t.subsection_title));
  for c in &t.children {
    match c {
      SubsectionContents::Article(a) => out.push(Met::Article(p.clone(), a)),
      SubsectionContents::Division(d) => walk_division(d, &p, out),
    }
  }
}

fn walk_section<'a>(t: &'a Section, p: &Path, out: &mut Vec<Met<'a>>) {
  let p = at(p, 2, &t.num);
  out.push(Met::Heading(p.clone(), &t.section_title));
  for c in &t.children {
    match c {
      SectionContents::Article(a) => out.push(Met::Article(p.clone(), a)),
      SectionContents::Subsection(d) => walk_subsection(d, &p, out),
      SectionContents::Division(d) => walk_division(d, &p, out),
    }
  }
}

fn walk_chapter<'a>(t: &'a Chapter, p: &Path, out: &mut Vec<Met<'a>>) {
  let p = at(p, 1, &t.num);
  out.push(Met::Heading(p.clone(), &t.chapter_title));
  for c in &t.children {
    match c {
      ChapterContents::Article(a) => out.push(Met::Article(p.clone(), a)),
      ChapterContents::Section(d) => walk_section(d, &p, out),
    }
  }
}

fn walk_part<'a>(t: &'a Part, p: &Path, out: &mut Vec<Met<'a>>) {
  let p = at(p, 0, &t.num);
  out.push(Met::Heading(p.clone(), &t.part_title));
  for c in &t.children {
    match c {
      PartContents::Article(a) => out.push(Met::Article(p.clone(), a)),
      PartContents::Chapter(d) => walk_chapter(d, &p, out),
    }
  }
}

const TOP: Path = [None, None, None, None, None];

fn walk_main(m: &MainProvision) -> Vec<Met> {
  let mut out = Vec::new();
  for c in &m.children {
    match c {
      MainProvisionContents::Article(a) => out.push(Met::Article(TOP, a)),
      MainProvisionContents::Part(t) => walk_part(t, &TOP, &mut out),
      MainProvisionContents::Chapter(t) => walk_chapter(t, &TOP, &mut out),
      MainProvisionContents::Section(t) => walk_section(t, &TOP, &mut out),
      MainProvisionContents::Paragraph(t) => out.push(Met::Paragraph(t)),
    }
  }
  out
}

fn walk_suppl(m: &SupplProvision) -> Vec<Met> {
  let mut out = Vec::new();
  for c in &m.children {
    match c {
      SupplProvisionChildrenElement::Article(a) => out.push(Met::Article(TOP, a)),
      SupplProvisionChildrenElement::Chapter(t) => walk_chapter(t, &TOP, &mut out),
      SupplProvisionChildrenElement::Paragraph(t) => out.push(Met::Paragraph(t)),
      _ => (),
    }
  }
  out
}

/// the runs of paragraphs between the other children, the first and last included, empty ones too;
/// `breaks`: for each child whether it is a paragraph, an interruption, or neither
fn groups(kinds: Vec<Option<Option<Paragraph>>>) -> Vec<Vec<Paragraph>> {
  let mut out = vec![Vec::new()];
  for k in kinds {
    match k {
      Some(Some(p)) => {
        let n = out.len();
        out[n - 1].push(p);
      }
      Some(None) => out.push(Vec::new()),
      None => (),
    }
  }
  out
}

fn main_groups(m: &MainProvision) -> Vec<Vec<Paragraph>> {
  groups(m.children.iter().map(|c| match c {
    MainProvisionContents::Paragraph(p) => Some(Some(p.clone())),
    _ => Some(None),
  }).collect())
}

fn suppl_groups(m: &SupplProvision) -> Vec<Vec<Paragraph>> {
  groups(m.children.iter().map(|c| match c {
    SupplProvisionChildrenElement::Paragraph(p) => Some(Some(p.clone())),
    SupplProvisionChildrenElement::Article(_) | SupplProvisionChildrenElement::Chapter(_) => Some(None),
    _ => None,
  }).collect())
}

fn check_articles(got: &[WithNumberArticle], met: &[Met]) {
  let mut i = 0;
  for m in met {
    if let Met::Article(p, a) = m {
      vx::check(i < got.len(), "every article is listed");
      let w = &got[i];
      i += 1;
      vx::check_eq(&w.get_article(), *a, "the articles are listed in order");
      vx::check_eq(&w.get_part(), &p[0], "the part of a listed article");
      vx::check_eq(&w.get_chapter(), &p[1], "the chapter of a listed article");
      vx::check_eq(&w.get_section(), &p[2], "the section of a listed article");
      vx::check_eq(&w.get_subsection(), &p[3], "the subsection of a listed article");
      vx::check_eq(&w.get_division(), &p[4], "the division of a listed article");
    }
  }
  vx::check(i == got.len(), "no article is listed twice");
}

fn check_plain(got: &[Article], met: &[Met]) {
  let mut i = 0;
  for m in met {
    if let Met::Article(_, a) = m {
      vx::check(i < got.len(), "every article is in the plain list");
      vx::check_eq(&got[i], *a, "the plain list has the articles in order");
      i += 1;
    }
  }
  vx::check(i == got.len(), "the plain list has no article twice");
}

fn check_toc(got: &[Toc], met: &[Met]) {
  let mut i = 0;
  for m in met {
    let (p, a, title) = match m {
      Met::Heading(p, t) => (p, None, *t),
      Met::Article(p, a) => (p, Some(a.num.clone()), &a.title),
      Met::Paragraph(_) => continue,
    };
    vx::check(i < got.len(), "every heading and article has an entry");
    let e = &got[i];
    i += 1;
    vx::check_eq(&e.get_title(), &Some(plain(title)), "the title of an entry");
    vx::check_eq(&e.get_part(), &p[0], "the part number of an entry");
    vx::check_eq(&e.get_chapter(), &p[1], "the chapter number of an entry");
    vx::check_eq(&e.get_section(), &p[2], "the section number of an entry");
    vx::check_eq(&e.get_subsection(), &p[3], "the subsection number of an entry");
    vx::check_eq(&e.get_division(), &p[4], "the division number of an entry");
    vx::check_eq(&e.get_article(), &a, "the article number of an entry");
  }
  vx::check(i == got.len(), "no entry besides the headings and articles");
}

/// `spine` headings nested in each other (the outermost of kind `top`) first, then everything of `nodes` more
fn maker() -> Maker {
  let mut script = vec![1; vx::param("spine")];
  if !script.is_empty() {
    script[0] = vx::param("top");
  }
  Maker { left: vx::param("nodes"), made: 0, script }
}

entries2! { P14
  fn p14_main() {
    let m = maker().main_provision();
    let met = walk_main(&m);
    let (a, p) = with_number_article_list_from_main_provision(&m);
    check_articles(&a, &met);
    vx::check_eq(&p, &main_groups(&m), "the paragraphs outside articles");
    let (a, p) = article_list_from_main_provision(&m);
    check_plain(&a, &met);
    vx::check_eq(&p, &main_groups(&m), "the paragraphs outside articles");
  }
  fn p14_suppl() {
    let m = maker().suppl_provision();
    let met = walk_suppl(&m);
    let (a, p) = with_number_article_list_from_suppl_provision(&m);
    check_articles(&a, &met);
    vx::check_eq(&p, &suppl_groups(&m), "the paragraphs outside articles");
    let (a, p) = article_list_from_suppl_provision(&m);
    check_plain(&a, &met);
    vx::check_eq(&p, &suppl_groups(&m), "the paragraphs outside articles");
  }
}

entries2! { P15
  fn p15_main() {
    let m = maker().main_provision();
    check_toc(&toc_list_from_main_provision(&m), &walk_main(&m));
  }
  fn p15_suppl() {
    let m = maker().suppl_provision();
    check_toc(&toc_list_from_suppl_provision(&m), &walk_suppl(&m));
  }
}

// ------------------------------------------------------------------ P17: rendering

/// the text without its markup
fn plain(t: &Text) -> String {
  plain_elements(&t.contents)
}

fn plain_elements(l: &[TextElement]) -> String {
  let mut s = String::new();
  for e in l {
    match e {
      TextElement::Text(x) => s.push_str(x),
      TextElement::Sup(x) => s.push_str(&x.text),
      TextElement::Sub(x) => s.push_str(&x.text),
      TextElement::Ruby(r) => s.push_str(&plain(&r.text)),
      TextElement::Line(_) => (),
    }
  }
  s
}

fn marked(s: &mut String, mark: &str, text: &str) {
  s.push_str(mark);
  s.push('{');
  s.push_str(text);
  s.push('}');
}

fn inner(c: &Contents) -> String {
  let mut s = String::new();
  for e in &c.contents {
    match e {
      ContentsElement::String(x) => s.push_str(x),
      ContentsElement::Ruby(r) => s.push_str(&plain(&r.text)),
      ContentsElement::Sup(x) => marked(&mut s, "^", &x.text),
      ContentsElement::Sub(x) => marked(&mut s, "_", &x.text),
      _ => (),
    }
  }
  s
}

fn rendered(l: &[SentenceElement]) -> String {
  let mut s = String::new();
  for e in l {
    match e {
      SentenceElement::String(x) => s.push_str(x),
      SentenceElement::Ruby(r) => s.push_str(&plain(&r.text)),
      SentenceElement::Sup(x) => marked(&mut s, "^", &x.text),
      SentenceElement::Sub(x) => marked(&mut s, "_", &x.text),
      SentenceElement::ArithFormula(f) => s.push_str(&inner(&f.contentes)),
      SentenceElement::QuoteStruct(q) => s.push_str(&inner(&q.contentes)),
      SentenceElement::Line(_) => (),
    }
  }
  s
}

fn cell(c: &TableColumn) -> String {
  let mut s = String::new();
  for x in &c.contents {
    match x {
      TableColumnContents::String(t) => s.push_str(t),
      TableColumnContents::Sentence(t) => s.push_str(&rendered(&t.contents)),
      TableColumnContents::Column(c) => {
        for t in &c.sentence {
          s.push_str(&rendered(&t.contents));
        }
      }
      _ => (),
    }
  }
  s
}

/// the header on the first line, then one line per row, columns separated by a space
fn table_text(t: &Table) -> String {
  let mut s = String::new();
  for (i, r) in t.table_header_row.iter().enumerate() {
    if i > 0 {
      s.push(' ');
    }
    for c in &r.columns {
      s.push_str(&plain(c));
    }
  }
  s.push('\n');
  for (i, r) in t.table_row.iter().enumerate() {
    if i > 0 {
      s.push('\n');
    }
    for (j, c) in r.columns.iter().enumerate() {
      if j > 0 {
        s.push(' ');
      }
      s.push_str(&cell(c));
    }
  }
  s
}

entries2! { P17
  fn p17_sentence() {
    let v: Sentence = vx::any("v");
    vx::check_eq(&sentence_element_to_str(&v.contents), &rendered(&v.contents), "the rendered sentence");
  }
  fn p17_text() {
    let v: Text = vx::any("v");
    vx::check_eq(&v.to_string(), &plain(&v), "the text without markup");
    vx::check_eq(&v.with_writing_mode(WritingMode::Horizontal).to_string(), &plain(&v), "the text without markup, with writing mode");
  }
  fn p17_table() {
    let v: Table = vx::any("v");
    vx::check_eq(&table_to_str(&v), &table_text(&v), "the rendered table");
  }
}

// ------------------------------------------------------------------ P16: text listings

struct Items {
  made: usize,
  /// how deep the first child of the first child goes before anything branches
  spine: usize,
  left: usize,
}

fn sentence_of(n: &str) -> Sentence {
  Sentence {
    contents: vec![SentenceElement::String(vx::text(n))],
    num: None,
    function: None,
    indent: None,
    writing_mode: WritingMode::Vertical,
  }
}

fn column_of(n: &str, k: usize) -> Column {
  Column { sentence: (0..k).map(|i| sentence_of(&format!("{n}.{i}"))).collect(), num: None, line_break: false, align: None }
}

impl Items {
  fn name(&mut self) -> String {
    self.made += 1;
    format!("i{}", self.made)
  }

  fn more(&mut self, depth: usize) -> bool {
    if depth < self.spine {
      return false;
    }
    if self.left == 0 {
      return false;
    }
    self.made += 1;
    let r = vx::choose(&format!("more{}", self.made), 2) == 1;
    if r {
      self.left -= 1;
    }
    r
  }

  fn num(&self, n: &str) -> Option<ArticleNumber> {
    vx::any(&format!("{n}.num"))
  }

  /// one of the forms an item's text takes
  fn body(&mut self, n: &str, depth: usize) -> SentenceOrColumnOrTable {
    let form = if depth < self.spine { 0 } else { vx::choose(&format!("{n}.form"), 5) };
    match form {
      0 => SentenceOrColumnOrTable::Sentence(vec![sentence_of(&format!("{n}.s"))]),
      1 => SentenceOrColumnOrTable::Sentence(vec![sentence_of(&format!("{n}.s")), sentence_of(&format!("{n}.t"))]),
      2 => SentenceOrColumnOrTable::Column(vec![column_of(&format!("{n}.c"), 1)]),
      3 => SentenceOrColumnOrTable::Column(vec![column_of(&format!("{n}.c"), 2), column_of(&format!("{n}.d"), 1)]),
      _ => {
        let c = TableColumn {
          contents: vec![TableColumnContents::Sentence(sentence_of(&format!("{n}.cell")))],
          border_top: japanese_law_xml_schema::line::LineStyle::Solid,
          border_bottom: japanese_law_xml_schema::line::LineStyle::Solid,
          border_left: japanese_law_xml_schema::line::LineStyle::Solid,
          border_right: japanese_law_xml_schema::line::LineStyle::Solid,
          rowspan: None,
          colspan: None,
          align: None,
          valign: None,
        };
        SentenceOrColumnOrTable::Table(Table {
          table_header_row: Vec::new(),
          table_row: vec![TableRow { columns: vec![c] }],
          writing_mode: WritingMode::Vertical,
        })
      }
    }
  }
}

fn body_text(b: &SentenceOrColumnOrTable) -> String {
  match b {
    SentenceOrColumnOrTable::Sentence(l) => {
      let mut s = String::new();
      for x in l {
        s.push_str(&rendered(&x.contents));
      }
      s
    }
    SentenceOrColumnOrTable::Column(l) => {
      let mut s = String::new();
      let mut first = true;
      for c in l {
        for x in &c.sentence {
          if !first {
            s.push(' ');
          }
          first = false;
          s.push_str(&rendered(&x.contents));
        }
      }
      s
    }
    SentenceOrColumnOrTable::Table(t) => table_text(t),
  }
}

type Entries = Vec<(Vec<Option<ArticleNumber>>, String)>;

macro_rules! levels {
  ($($t:ident $make:ident $walk:ident $depth:literal $next:tt)*) => {$(level!{ $t $make $walk $depth $next })*};
}
macro_rules! level {
  ($t:ident $make:ident $walk:ident $depth:literal ($nt:ident $nmake:ident $nwalk:ident)) => {
    fn $make(m: &mut Items) -> $t {
      let n = m.name();
      let sentence = m.body(&n, $depth);
      let num = m.num(&n);
      let mut children = Vec::new();
      if $depth < m.spine {
        children.push($nmake(m));
      }
      while m.more($depth + 1) {
        children.push($nmake(m));
      }
      $t { title: None, sentence, children, struct_list: Vec::new(), num, delete: false, hide: false }
    }
    fn $walk(t: &$t, path: &[Option<ArticleNumber>], out: &mut Entries) {
      let mut p = path.to_vec();
      p.push(t.num.clone());
      out.push((p.clone(), body_text(&t.sentence)));
      for c in &t.children {
        $nwalk(c, &p, out);
      }
    }
  };
}
levels! {
  Item make0 walk0 0 (Subitem1 make1 walk1)
  Subitem1 make1 walk1 1 (Subitem2 make2 walk2)
  Subitem2 make2 walk2 2 (Subitem3 make3 walk3)
  Subitem3 make3 walk3 3 (Subitem4 make4 walk4)
  Subitem4 make4 walk4 4 (Subitem5 make5 walk5)
  Subitem5 make5 walk5 5 (Subitem6 make6 walk6)
  Subitem6 make6 walk6 6 (Subitem7 make7 walk7)
  Subitem7 make7 walk7 7 (Subitem8 make8 walk8)
  Subitem8 make8 walk8 8 (Subitem9 make9 walk9)
  Subitem9 make9 walk9 9 (Subitem10 make10 walk10)
}
fn make10(m: &mut Items) -> Subitem10 {
  let n = m.name();
  let sentence = m.body(&n, 10);
  let num = m.num(&n);
  Subitem10 { title: None, sentence, struct_list: Vec::new(), num, delete: false, hide: false }
}
fn walk10(t: &Subitem10, path: &[Option<ArticleNumber>], out: &mut Entries) {
  let mut p = path.to_vec();
  p.push(t.num.clone());
  out.push((p, body_text(&t.sentence)));
}

fn paragraph_of(m: &mut Items, first: bool) -> Paragraph {
  let n = m.name();
  let k = if first { vx::choose(&format!("{n}.sentences"), 3) } else { 1 };
  let mut children = Vec::new();
  if first && vx::param("spine") > 0 {
    children.push(make0(m));
  }
  while m.more(0) {
    children.push(make0(m));
  }
  Paragraph {
    caption: None,
    paragraph_num: Text { contents: Vec::new() },
    amend_provision: Vec::new(),
    class: Vec::new(),
    sentence: (0..k).map(|i| sentence_of(&format!("{n}.s{i}"))).collect(),
    struct_list: Vec::new(),
    children,
    num: vx::any(&format!("{n}.num")),
    old_style: false,
    old_num: false,
    hide: false,
  }
}

entries2! { P16
  fn p16_texts() {
    // a chain of `spine` items below each other, then everything of at most `nodes` more items
    let spine = vx::param("spine");
    let mut m = Items { made: 0, spine: if spine == 0 { 0 } else { spine - 1 }, left: vx::param("nodes") };
    let mut list = vec![paragraph_of(&mut m, true)];
    m.spine = 0;
    if vx::choose("second", 2) == 1 {
      list.push(paragraph_of(&mut m, false));
    }
    let mut want = Vec::new();
    for p in &list {
      let mut out = Vec::new();
      let mut s = String::new();
      for x in &p.sentence {
        s.push_str(&rendered(&x.contents));
      }
      out.push((Vec::new(), s));
      for i in &p.children {
        walk0(i, &[], &mut out);
      }
      for (items, s) in out {
        want.push((TextIndex { paragraph: p.num.clone(), items }, s));
      }
    }
    vx::check_eq(&text_info_list_from_paragraph(&list), &want, "one entry per paragraph, item and sub-item");
    let mut all = String::new();
    for (i, (_, s)) in want.iter().enumerate() {
      if i > 0 {
        all.push('\n');
      }
      all.push_str(s);
    }
    vx::check_eq(&text_from_paragraph_list(&list), &all, "the joined text of paragraphs");
    let a = Article {
      caption: None,
      title: Text { contents: Vec::new() },
      paragraph: list,
      suppl_note: None,
      num: ArticleNumber { base_number: 1, eda_numbers: Vec::new(), range_end_numbers: Vec::new() },
      delete: false,
      hide: false,
    };
    vx::check_eq(&text_from_article(&a), &all, "the joined text of an article");
  }
}
