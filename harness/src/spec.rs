//! The law XML schema (v3) written down once more: how each value looks as an element.
//! Written from the schema, not from the library's writers or readers.
use crate::vx;
use japanese_law_xml_schema::{
  appdx::*, article::*, article_number::ArticleNumber, class::*, contents::*, fig::*, law::*, line::*, list::*, paragraph::*,
  remarks::*, sentence::*, structs::*, suppl_provision::*, table::*, table_of_contents::*, text::*,
};
use xmltree::{Element, XMLNode};

/// a structure with its own element name
pub trait Spec {
  fn enc(&self) -> Element;
  /// values the schema can express (the rest is outside the properties)
  fn wf(&self) -> bool {
    true
  }
}

/// a structure whose element name depends on where it stands
pub trait SpecNamed {
  fn enc_named(&self, name: &str) -> Element;
  fn wf(&self) -> bool {
    true
  }
}

/// attribute values
pub trait Attr {
  fn attr(&self) -> String;
}
impl Attr for String {
  fn attr(&self) -> String {
    self.clone()
  }
}
impl Attr for usize {
  fn attr(&self) -> String {
    self.to_string()
  }
}
impl Attr for bool {
  fn attr(&self) -> String {
    if *self { "true" } else { "false" }.to_string()
  }
}
impl Attr for ArticleNumber {
  fn attr(&self) -> String {
    self.num_str()
  }
}
macro_rules! attr_enum {
  ($t:ty { $($p:pat => $s:expr),* $(,)? }) => {
    impl Attr for $t {
      fn attr(&self) -> String {
        match self { $($p => $s),* }.to_string()
      }
    }
  };
}
attr_enum!(Era { Era::Meiji => "Meiji", Era::Taisho => "Taisho", Era::Showa => "Showa", Era::Heisei => "Heisei", Era::Reiwa => "Reiwa" });
attr_enum!(LawType {
  LawType::Constitution => "Constitution", LawType::Act => "Act", LawType::CabinetOrder => "CabinetOrder",
  LawType::ImperialOrder => "ImperialOrder", LawType::MinisterialOrdinance => "MinisterialOrdinance",
  LawType::Rule => "Rule", LawType::Misc => "Misc",
});
attr_enum!(Lang { Lang::Ja => "ja", Lang::En => "en" });
attr_enum!(Align { Align::Left => "left", Align::Center => "center", Align::Right => "right", Align::Justify => "justify" });
attr_enum!(Position { Position::Top => "top", Position::Middle => "middle", Position::Bottom => "bottom" });
attr_enum!(LineStyle { LineStyle::Dotted => "dotted", LineStyle::Double => "double", LineStyle::Solid => "solid", LineStyle::None => "none" });
attr_enum!(WritingMode { WritingMode::Vertical => "vertical", WritingMode::Horizontal => "horizontal" });
attr_enum!(SentenceFunction { SentenceFunction::Main => "main", SentenceFunction::Proviso => "proviso" });
attr_enum!(SupplProvisionType { SupplProvisionType::New => "New", SupplProvisionType::Amend => "Amend" });
attr_enum!(SentenceIndent {
  SentenceIndent::Paragraph => "Paragraph", SentenceIndent::Item => "Item", SentenceIndent::Subitem1 => "Subitem1",
  SentenceIndent::Subitem2 => "Subitem2", SentenceIndent::Subitem3 => "Subitem3", SentenceIndent::Subitem4 => "Subitem4",
  SentenceIndent::Subitem5 => "Subitem5", SentenceIndent::Subitem6 => "Subitem6", SentenceIndent::Subitem7 => "Subitem7",
  SentenceIndent::Subitem8 => "Subitem8", SentenceIndent::Subitem9 => "Subitem9", SentenceIndent::Subitem10 => "Subitem10",
});

pub struct B(Element);

fn el(name: &str) -> B {
  B(Element::new(name))
}

impl B {
  fn attr<A: Attr>(mut self, name: &str, a: &A) -> B {
    self.0.attributes.insert(name.to_string(), a.attr());
    self
  }
  fn opt<A: Attr>(self, name: &str, a: &Option<A>) -> B {
    match a {
      Some(a) => self.attr(name, a),
      None => self,
    }
  }
  /// an attribute whose absence means `default`
  fn default<A: Attr + PartialEq>(self, name: &str, a: &A, default: &A) -> B {
    if a != default || vx::explicit(name) {
      self.attr(name, a)
    } else {
      self
    }
  }
  fn flag(self, name: &str, a: &bool) -> B {
    self.default(name, a, &false)
  }
  fn push(mut self, e: Element) -> B {
    self.0.children.push(XMLNode::Element(e));
    self
  }
  fn text(mut self, s: &str) -> B {
    self.0.children.push(XMLNode::Text(s.to_string()));
    self
  }
  fn child<S: Spec>(self, s: &S) -> B {
    self.push(s.enc())
  }
  fn opt_child<S: Spec>(self, s: &Option<S>) -> B {
    match s {
      Some(s) => self.child(s),
      None => self,
    }
  }
  fn each<S: Spec>(mut self, l: &[S]) -> B {
    for s in l {
      self = self.child(s);
    }
    self
  }
  fn named<S: SpecNamed>(self, s: &S, name: &str) -> B {
    self.push(s.enc_named(name))
  }
  fn opt_named<S: SpecNamed>(self, s: &Option<S>, name: &str) -> B {
    match s {
      Some(s) => self.named(s, name),
      None => self,
    }
  }
  fn each_named<S: SpecNamed>(mut self, l: &[S], name: &str) -> B {
    for s in l {
      self = self.named(s, name);
    }
    self
  }
  fn done(self) -> Element {
    self.0
  }
}

/// children of an enum list: every variant but strings holds a structure with its own name
macro_rules! mixed {
  ($b:expr, $l:expr, $t:ident { $($v:ident),* $(,)? } $(string $s:ident)?) => {{
    let mut b = $b;
    for x in $l.iter() {
      b = match x {
        $($t::$v(v) => b.child(v),)*
        $($t::$s(s) => b.text(s),)?
      };
    }
    b
  }};
}

// ---------------------------------------------------------------- text

fn inline(b: B, l: &[TextElement]) -> B {
  mixed!(b, l, TextElement { Ruby, Line, Sup, Sub } string Text)
}

impl SpecNamed for Text {
  fn enc_named(&self, name: &str) -> Element {
    inline(el(name), &self.contents).done()
  }
}

impl SpecNamed for TextWithWritingMode {
  fn enc_named(&self, name: &str) -> Element {
    inline(el(name).default("WritingMode", &self.writing_mode, &WritingMode::Vertical), &self.contents).done()
  }
}

impl Spec for Ruby {
  fn enc(&self) -> Element {
    inline(el("Ruby"), &self.text.contents)
      .push(el("Rt").text(&self.ruby).done())
      .done()
  }
  fn wf(&self) -> bool {
    self.text.contents.iter().all(|e| matches!(e, TextElement::Text(_)))
  }
}

impl Spec for Sup {
  fn enc(&self) -> Element {
    el("Sup").text(&self.text).done()
  }
}

impl Spec for Sub {
  fn enc(&self) -> Element {
    el("Sub").text(&self.text).done()
  }
}

impl Spec for Line {
  fn enc(&self) -> Element {
    mixed!(el("Line").default("Style", &self.style, &LineStyle::Solid), self.contents,
      LineContents { QuoteStruct, ArithFormula, Ruby, Sup, Sub } string String)
    .done()
  }
}

impl Spec for Sentence {
  fn enc(&self) -> Element {
    let b = el("Sentence")
      .opt("Num", &self.num)
      .opt("Function", &self.function)
      .opt("Indent", &self.indent)
      .default("WritingMode", &self.writing_mode, &WritingMode::Vertical);
    mixed!(b, self.contents, SentenceElement { Line, QuoteStruct, ArithFormula, Ruby, Sup, Sub } string String).done()
  }
}

impl SpecNamed for Contents {
  fn enc_named(&self, name: &str) -> Element {
    contents(el(name), self).done()
  }
}

fn contents(b: B, c: &Contents) -> B {
  mixed!(b, c.contents, ContentsElement {
    Table, TableStruct, Fig, FigStruct, QuoteStruct, NoteStruct, StyleStruct, AppdxTable, Ruby, Line, Sup, Sub,
    Paragraph, Item, Subitem1, Subitem2, Subitem3, Subitem4, Subitem5, Subitem6, Subitem7, Subitem8, Subitem9,
    Subitem10, List, Sentence, ArithFormula, Remarks, TOC, TOCSection, TableRow,
  } string String)
}

impl Spec for Style {
  fn enc(&self) -> Element {
    contents(el("Style"), &self.contentes).done()
  }
}
impl Spec for Note {
  fn enc(&self) -> Element {
    contents(el("Note"), &self.contentes).done()
  }
}
impl Spec for Format {
  fn enc(&self) -> Element {
    contents(el("Format"), &self.contentes).done()
  }
}
impl Spec for ArithFormula {
  fn enc(&self) -> Element {
    contents(el("ArithFormula").opt("Num", &self.num), &self.contentes).done()
  }
}
impl Spec for QuoteStruct {
  fn enc(&self) -> Element {
    contents(el("QuoteStruct"), &self.contentes).done()
  }
}

impl Spec for Fig {
  fn enc(&self) -> Element {
    el("Fig").attr("src", &self.src).done()
  }
}

// ---------------------------------------------------------------- small structures

impl Spec for Remarks {
  fn enc(&self) -> Element {
    mixed!(el("Remarks").child(&self.label), self.children, RemarksContents { Item, Sentence }).done()
  }
}

impl Spec for RemarksLabel {
  fn enc(&self) -> Element {
    inline(el("RemarksLabel").flag("LineBreak", &self.line_break), &self.text.contents).done()
  }
}

impl Spec for Struct {
  fn enc(&self) -> Element {
    match self {
      Struct::TableStruct(v) => v.enc(),
      Struct::FigStruct(v) => v.enc(),
      Struct::StyleStruct(v) => v.enc(),
      Struct::List(v) => v.enc(),
    }
  }
}

impl Spec for NoteStruct {
  fn enc(&self) -> Element {
    el("NoteStruct")
      .opt_named(&self.title, "NoteStructTitle")
      .each(&self.title_remarks)
      .child(&self.note)
      .each(&self.note_remarks)
      .done()
  }
}

impl Spec for StyleStruct {
  fn enc(&self) -> Element {
    el("StyleStruct")
      .opt_named(&self.title, "StyleStructTitle")
      .each(&self.title_remarks)
      .child(&self.style)
      .each(&self.style_remarks)
      .done()
  }
}

impl Spec for FormatStruct {
  fn enc(&self) -> Element {
    let title: Option<Text> = vx::private_field(self, "title");
    let title_remarks: Vec<Remarks> = vx::private_field(self, "title_remarks");
    let format: Format = vx::private_field(self, "format");
    let format_remarks: Vec<Remarks> = vx::private_field(self, "format_remarks");
    el("FormatStruct")
      .opt_named(&title, "FormatStructTitle")
      .each(&title_remarks)
      .child(&format)
      .each(&format_remarks)
      .done()
  }
}

impl Spec for FigStruct {
  fn enc(&self) -> Element {
    el("FigStruct")
      .opt_named(&self.title, "FigStructTitle")
      .each(&self.title_remarks)
      .child(&self.fig)
      .each(&self.fig_remarks)
      .done()
  }
}

impl Spec for TableStruct {
  fn enc(&self) -> Element {
    el("TableStruct")
      .opt_named(&self.title, "TableStructTitle")
      .each(&self.title_remarks)
      .child(&self.table)
      .each(&self.table_remarks)
      .done()
  }
}

// ---------------------------------------------------------------- tables and lists

impl Spec for Table {
  fn enc(&self) -> Element {
    el("Table")
      .default("WritingMode", &self.writing_mode, &WritingMode::Vertical)
      .each(&self.table_header_row)
      .each(&self.table_row)
      .done()
  }
}

impl Spec for TableHeaderRow {
  fn enc(&self) -> Element {
    el("TableHeaderRow").each_named(&self.columns, "TableHeaderColumn").done()
  }
}

impl Spec for TableRow {
  fn enc(&self) -> Element {
    el("TableRow").each(&self.columns).done()
  }
}

impl Spec for TableColumn {
  fn enc(&self) -> Element {
    let b = el("TableColumn")
      .default("BorderTop", &self.border_top, &LineStyle::Solid)
      .default("BorderBottom", &self.border_bottom, &LineStyle::Solid)
      .default("BorderLeft", &self.border_left, &LineStyle::Solid)
      .default("BorderRight", &self.border_right, &LineStyle::Solid)
      .opt("rowspan", &self.rowspan)
      .opt("colspan", &self.colspan)
      .opt("Align", &self.align)
      .opt("Valign", &self.valign);
    mixed!(b, self.contents, TableColumnContents {
      Part, Chapter, Section, Subsection, Division, Article, Paragraph, Item, Subitem1, Subitem2, Subitem3, Subitem4,
      Subitem5, Subitem6, Subitem7, Subitem8, Subitem9, Subitem10, FigStruct, Sentence, Remarks, Column,
    } string String)
    .done()
  }
}

fn list_sentence(name: &str, l: &[ListSentence]) -> Element {
  mixed!(el(name), l, ListSentence { Sentence, Column }).done()
}

impl Spec for List {
  fn enc(&self) -> Element {
    el("List").push(list_sentence("ListSentence", &self.sentence)).each(&self.children).done()
  }
}
impl Spec for Sublist1 {
  fn enc(&self) -> Element {
    el("Sublist1").push(list_sentence("Sublist1Sentence", &self.sentence)).each(&self.children).done()
  }
}
impl Spec for Sublist2 {
  fn enc(&self) -> Element {
    el("Sublist2").push(list_sentence("Sublist2Sentence", &self.sentence)).each(&self.children).done()
  }
}
impl Spec for Sublist3 {
  fn enc(&self) -> Element {
    el("Sublist3").push(list_sentence("Sublist3Sentence", &self.sentence)).done()
  }
}

// ---------------------------------------------------------------- law

impl Spec for Law {
  fn enc(&self) -> Element {
    let law_num = el("LawNum").text(&self.law_num).done();
    el("Law")
      .attr("Era", &self.era)
      .attr("Year", &self.year)
      .opt("Num", &self.num)
      .opt("PromulgateMonth", &self.promulgate_month)
      .opt("PromulgateDay", &self.promulgate_day)
      .attr("LawType", &self.law_type)
      .attr("Lang", &self.lang)
      .push(law_num)
      .child(&self.law_body)
      .done()
  }
}

impl Spec for LawBody {
  fn enc(&self) -> Element {
    el("LawBody")
      .opt("Subject", &self.subject)
      .opt_child(&self.law_title)
      .each_named(&self.enact_statement, "EnactStatement")
      .opt_child(&self.toc)
      .opt_child(&self.preamble)
      .child(&self.main_provision)
      .each(&self.suppl_provision)
      .each(&self.appdx_table)
      .each(&self.appdx_note)
      .each(&self.appdx_style)
      .each(&self.appdx)
      .each(&self.appdx_fig)
      .each(&self.appdx_format)
      .done()
  }
}

impl Spec for LawTitle {
  fn enc(&self) -> Element {
    inline(
      el("LawTitle").opt("Kana", &self.kana).opt("Abbrev", &self.abbrev).opt("AbbrevKana", &self.abbrev_kana),
      &self.text.contents,
    )
    .done()
  }
}

impl Spec for Preamble {
  fn enc(&self) -> Element {
    el("Preamble").each(&self.children).done()
  }
}

impl Spec for MainProvision {
  fn enc(&self) -> Element {
    mixed!(el("MainProvision").opt("Extract", &self.extract), self.children,
      MainProvisionContents { Part, Chapter, Section, Article, Paragraph })
    .done()
  }
}

impl Spec for AmendProvision {
  fn enc(&self) -> Element {
    let mut b = el("AmendProvision");
    if let Some(s) = &self.sentence {
      b = b.push(el("AmendProvisionSentence").child(s).done());
    }
    for n in self.new_provision.iter() {
      b = b.push(new_provision(n));
    }
    b.done()
  }
}

fn new_provision(n: &NewProvision) -> Element {
  macro_rules! arms {
    ($($v:ident)* ; $($t:ident)*) => {
      match n {
        $(NewProvision::$v(v) => v.enc(),)*
        $(NewProvision::$t(v) => v.enc_named(stringify!($t)),)*
        NewProvision::LawBody(v) => v.as_ref().enc(),
      }
    };
  }
  let e = arms!(LawTitle Preamble TOC Part Chapter Section Subsection Division Article Paragraph Item Subitem1 Subitem2
    Subitem3 Subitem4 Subitem5 Subitem6 Subitem7 Subitem8 Subitem9 Subitem10 List Sentence AmendProvision AppdxTable
    AppdxNote AppdxStyle Appdx AppdxFig AppdxFormat SupplProvisionAppdxStyle SupplProvisionAppdxTable
    SupplProvisionAppdx TableStruct TableRow TableColumn FigStruct NoteStruct StyleStruct FormatStruct Remarks
    ; PartTitle ChapterTitle SectionTitle SubsectionTitle DivisionTitle SupplNote);
  el("NewProvision").push(e).done()
}

// ---------------------------------------------------------------- headings and articles

macro_rules! heading {
  ($t:ident, $title:ident, $c:ident { $($v:ident),* }) => {
    impl Spec for $t {
      fn enc(&self) -> Element {
        mixed!(el(stringify!($t))
          .attr("Num", &self.num)
          .flag("Delete", &self.delete)
          .flag("Hide", &self.hide)
          .named(&self.$title, concat!(stringify!($t), "Title")),
          self.children, $c { $($v),* })
        .done()
      }
    }
  };
}
heading!(Part, part_title, PartContents { Article, Chapter });
heading!(Chapter, chapter_title, ChapterContents { Article, Section });
heading!(Section, section_title, SectionContents { Article, Subsection, Division });
heading!(Subsection, subsection_title, SubsectionContents { Article, Division });

impl Spec for Division {
  fn enc(&self) -> Element {
    el("Division")
      .attr("Num", &self.num)
      .flag("Delete", &self.delete)
      .flag("Hide", &self.hide)
      .named(&self.division_title, "DivisionTitle")
      .each(&self.children)
      .done()
  }
}

impl SpecNamed for Caption {
  fn enc_named(&self, name: &str) -> Element {
    inline(el(name).opt("CommonCaption", &self.common_caption), &self.text.contents).done()
  }
}

impl Spec for Article {
  fn enc(&self) -> Element {
    el("Article")
      .attr("Num", &self.num)
      .flag("Delete", &self.delete)
      .flag("Hide", &self.hide)
      .opt_named(&self.caption, "ArticleCaption")
      .named(&self.title, "ArticleTitle")
      .each(&self.paragraph)
      .opt_named(&self.suppl_note, "SupplNote")
      .done()
  }
}

impl Spec for Paragraph {
  fn enc(&self) -> Element {
    el("Paragraph")
      .attr("Num", &self.num)
      .flag("OldStyle", &self.old_style)
      .flag("OldNum", &self.old_num)
      .flag("Hide", &self.hide)
      .opt_named(&self.caption, "ParagraphCaption")
      .named(&self.paragraph_num, "ParagraphNum")
      .push(el("ParagraphSentence").each(&self.sentence).done())
      .each(&self.amend_provision)
      .each(&self.class)
      .each(&self.struct_list)
      .each(&self.children)
      .done()
  }
}

impl SpecNamed for SentenceOrColumnOrTable {
  fn enc_named(&self, name: &str) -> Element {
    match self {
      SentenceOrColumnOrTable::Sentence(l) => el(name).each(l).done(),
      SentenceOrColumnOrTable::Column(l) => el(name).each(l).done(),
      SentenceOrColumnOrTable::Table(t) => el(name).child(t).done(),
    }
  }
  fn wf(&self) -> bool {
    match self {
      SentenceOrColumnOrTable::Sentence(l) => !l.is_empty(),
      SentenceOrColumnOrTable::Column(l) => !l.is_empty(),
      SentenceOrColumnOrTable::Table(_) => true,
    }
  }
}

impl Spec for Column {
  fn enc(&self) -> Element {
    el("Column")
      .opt("Num", &self.num)
      .flag("LineBreak", &self.line_break)
      .opt("Align", &self.align)
      .each(&self.sentence)
      .done()
  }
}

impl Spec for Class {
  fn enc(&self) -> Element {
    el("Class")
      .attr("Num", &self.num)
      .opt_named(&self.class_title, "ClassTitle")
      .named(&self.class_sentence, "ClassSentence")
      .each(&self.children)
      .done()
  }
  fn wf(&self) -> bool {
    self.class_sentence.wf()
  }
}

macro_rules! item {
  ($t:ident $(, $c:ident)?) => {
    impl Spec for $t {
      fn enc(&self) -> Element {
        el(stringify!($t))
          .opt("Num", &self.num)
          .flag("Delete", &self.delete)
          .flag("Hide", &self.hide)
          .opt_named(&self.title, concat!(stringify!($t), "Title"))
          .named(&self.sentence, concat!(stringify!($t), "Sentence"))
          $(.each(&self.$c))?
          .each(&self.struct_list)
          .done()
      }
      fn wf(&self) -> bool {
        self.sentence.wf()
      }
    }
  };
}
item!(Item, children);
item!(Subitem1, children);
item!(Subitem2, children);
item!(Subitem3, children);
item!(Subitem4, children);
item!(Subitem5, children);
item!(Subitem6, children);
item!(Subitem7, children);
item!(Subitem8, children);
item!(Subitem9, children);
item!(Subitem10);

// ---------------------------------------------------------------- supplementary provisions and appendices

impl Spec for SupplProvision {
  fn wf(&self) -> bool {
    !self.label.contents.is_empty()
  }
  fn enc(&self) -> Element {
    mixed!(el("SupplProvision")
      .opt("Type", &self.suppl_provision_type)
      .opt("AmendLawNum", &self.amend_law_num)
      .opt("Extract", &self.extract)
      .named(&self.label, "SupplProvisionLabel"),
      self.children, SupplProvisionChildrenElement {
        Chapter, Article, Paragraph, SupplProvisionAppdxTable, SupplProvisionAppdxStyle, SupplProvisionAppdx })
    .done()
  }
}

impl Spec for SupplProvisionAppdxTable {
  fn enc(&self) -> Element {
    el("SupplProvisionAppdxTable")
      .opt("Num", &self.num)
      .named(&self.title, "SupplProvisionAppdxTableTitle")
      .opt_named(&self.related_article_num, "RelatedArticleNum")
      .each(&self.table_struct)
      .done()
  }
}

impl Spec for SupplProvisionAppdxStyle {
  fn enc(&self) -> Element {
    el("SupplProvisionAppdxStyle")
      .opt("Num", &self.num)
      .named(&self.title, "SupplProvisionAppdxStyleTitle")
      .opt_named(&self.related_article_num, "RelatedArticleNum")
      .each(&self.style_struct)
      .done()
  }
}

impl Spec for SupplProvisionAppdx {
  fn enc(&self) -> Element {
    el("SupplProvisionAppdx")
      .opt("Num", &self.num)
      .opt_named(&self.arith_formula_num, "ArithFormulaNum")
      .opt_named(&self.related_article_num, "RelatedArticleNum")
      .each(&self.arith_formula)
      .done()
  }
}

impl Spec for AppdxTable {
  fn enc(&self) -> Element {
    mixed!(el("AppdxTable")
      .opt("Num", &self.num)
      .opt_named(&self.title, "AppdxTableTitle")
      .opt_named(&self.related_article_num, "RelatedArticleNum"),
      self.children, AppdxTableContents { TableStruct, Item })
    .opt_child(&self.remarks)
    .done()
  }
}

impl Spec for AppdxNote {
  fn enc(&self) -> Element {
    mixed!(el("AppdxNote")
      .opt("Num", &self.num)
      .opt_named(&self.title, "AppdxNoteTitle")
      .opt_named(&self.related_article_num, "RelatedArticleNum"),
      self.children, AppdxNoteContents { NoteStruct, FigStruct, TableStruct })
    .opt_child(&self.remarks)
    .done()
  }
}

impl Spec for AppdxStyle {
  fn enc(&self) -> Element {
    el("AppdxStyle")
      .opt("Num", &self.num)
      .opt_named(&self.title, "AppdxStyleTitle")
      .opt_named(&self.related_article_num, "RelatedArticleNum")
      .each(&self.children)
      .opt_child(&self.remarks)
      .done()
  }
}

impl Spec for AppdxFormat {
  fn enc(&self) -> Element {
    el("AppdxFormat")
      .opt("Num", &self.num)
      .opt_named(&self.title, "AppdxFormatTitle")
      .opt_named(&self.related_article_num, "RelatedArticleNum")
      .each(&self.children)
      .opt_child(&self.remarks)
      .done()
  }
}

impl Spec for AppdxFig {
  fn enc(&self) -> Element {
    mixed!(el("AppdxFig")
      .opt("Num", &self.num)
      .opt_named(&self.title, "AppdxFigTitle")
      .opt_named(&self.related_article_num, "RelatedArticleNum"),
      self.children, AppdxFigContents { FigStruct, TableStruct })
    .done()
  }
}

impl Spec for Appdx {
  fn enc(&self) -> Element {
    el("Appdx")
      .opt_named(&self.arith_formula_num, "ArithFormulaNum")
      .opt_named(&self.related_article_num, "RelatedArticleNum")
      .each(&self.arith_formula)
      .opt_child(&self.remarks)
      .done()
  }
}

// ---------------------------------------------------------------- table of contents

impl Spec for TOC {
  fn enc(&self) -> Element {
    mixed!(el("TOC")
      .opt_named(&self.toc_label, "TOCLabel")
      .opt_named(&self.toc_preamble_label, "TOCPreambleLabel"),
      self.toc_main_contents, TOCMainContents { TOCPart, TOCChapter, TOCSection, TOCArticle })
    .opt_child(&self.toc_suppl_provision)
    .each_named(&self.toc_appdx_table_label, "TOCAppdxTableLabel")
    .done()
  }
}

macro_rules! toc_heading {
  ($t:ident, $title:ident, $name:expr $(, $c:ident)?) => {
    impl Spec for $t {
      fn enc(&self) -> Element {
        el(stringify!($t))
          .attr("Num", &self.num)
          .flag("Delete", &self.delete)
          .named(&self.$title, $name)
          .opt_named(&self.article_range, "ArticleRange")
          $(.each(&self.$c))?
          .done()
      }
    }
  };
}
toc_heading!(TOCPart, part_title, "PartTitle", children);
toc_heading!(TOCChapter, chapter_title, "ChapterTitle", children);
toc_heading!(TOCSubsection, subsection_title, "SubsectionTitle", children);
toc_heading!(TOCDivision, division_title, "DivisionTitle");

impl Spec for TOCSection {
  fn enc(&self) -> Element {
    mixed!(el("TOCSection")
      .attr("Num", &self.num)
      .flag("Delete", &self.delete)
      .named(&self.section_title, "SectionTitle")
      .opt_named(&self.article_range, "ArticleRange"),
      self.children, TOCSectionContents { TOCSubsection, TOCDivision })
    .done()
  }
}

impl Spec for TOCArticle {
  fn enc(&self) -> Element {
    el("TOCArticle")
      .attr("Num", &self.num)
      .flag("Delete", &self.delete)
      .named(&self.article_title, "ArticleTitle")
      .named(&self.article_caption, "ArticleCaption")
      .done()
  }
}

impl Spec for TOCSupplProvision {
  fn enc(&self) -> Element {
    mixed!(el("TOCSupplProvision")
      .named(&self.suppl_provision_label, "SupplProvisionLabel")
      .opt_named(&self.article_range, "ArticleRange"),
      self.children, TOCSupplProvisionContents { TOCArticle, TOCChapter })
    .done()
  }
}
