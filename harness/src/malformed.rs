//! P05: what is read from an arbitrary element holds all of its child elements, and its
//! attributes are the ones the schema demands, with values the schema allows.
//! The tables below are written from the schema, not from the library's readers.
use crate::spec::Spec;
use crate::vx;
use japanese_law_xml_schema::{
  appdx::*, article::*, article_number::ArticleNumber, class::*, contents::*, fig::*, law::*, line::*, list::*, paragraph::*,
  remarks::*, sentence::*, structs::*, suppl_provision::*, table::*, table_of_contents::*, text::*, verif_hooks,
};
use xmltree::{Element, XMLNode};

enum Kind {
  Text,
  Bool,
  Int,
  Number,
  IntOrEmpty,
  NumberOrEmpty,
  OneOf(&'static [&'static str]),
}
use Kind::*;

const STYLE: Kind = OneOf(&["solid", "none", "dotted", "double"]);
const FLAGS: [(&str, bool, Kind); 2] = [("Delete", false, Bool), ("Hide", false, Bool)];
const HEAD: [(&str, bool, Kind); 3] = [("Num", true, Number), ("Delete", false, Bool), ("Hide", false, Bool)];
const INDENT: Kind = OneOf(&[
  "Paragraph", "Item", "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8",
  "Subitem9", "Subitem10",
]);

/// attributes of a structure: name, required, values
fn attributes(tag: &str) -> &'static [(&'static str, bool, Kind)] {
  match tag {
    "Law" => &[
      ("Era", true, OneOf(&["Meiji", "Taisho", "Showa", "Heisei", "Reiwa"])),
      ("Year", true, Int),
      ("Num", false, NumberOrEmpty),
      ("PromulgateMonth", false, IntOrEmpty),
      ("PromulgateDay", false, IntOrEmpty),
      ("LawType", true, OneOf(&["Constitution", "Act", "CabinetOrder", "ImperialOrder", "MinisterialOrdinance", "Rule", "Misc"])),
      ("Lang", true, OneOf(&["ja", "en"])),
    ],
    "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" => &HEAD,
    "Paragraph" => &[("Num", true, Number), ("OldStyle", false, Bool), ("OldNum", false, Bool), ("Hide", false, Bool)],
    "Item" | "Subitem1" | "Subitem2" | "Subitem3" | "Subitem4" | "Subitem5" | "Subitem6" | "Subitem7" | "Subitem8"
    | "Subitem9" | "Subitem10" => &FLAGS,
    "Class" => &[("Num", true, Text)],
    "Column" => &[("Num", false, Int), ("LineBreak", false, Bool)],
    "Sentence" => &[("Num", false, Int), ("Function", false, OneOf(&["main", "proviso"])), ("Indent", false, INDENT)],
    "Line" => &[("Style", false, STYLE)],
    "RemarksLabel" => &[("LineBreak", false, Bool)],
    "ArithFormula" => &[("Num", false, Int)],
    "Fig" => &[("src", true, Text)],
    "MainProvision" => &[("Extract", false, Bool)],
    "SupplProvision" => &[("Type", false, OneOf(&["New", "Amend"])), ("Extract", false, Bool)],
    "TOCPart" | "TOCChapter" | "TOCSection" | "TOCSubsection" | "TOCDivision" | "TOCArticle" => {
      &[("Num", true, Number), ("Delete", false, Bool)]
    }
    _ => &[],
  }
}

fn allowed(k: &Kind, s: &str) -> bool {
  match k {
    Text => true,
    Bool => s == "true" || s == "false",
    Int => s.parse::<usize>().is_ok(),
    Number => ArticleNumber::from_num_str(s).is_ok(),
    IntOrEmpty => s.is_empty() || s.parse::<usize>().is_ok(),
    NumberOrEmpty => s.is_empty() || ArticleNumber::from_num_str(s).is_ok(),
    OneOf(l) => l.iter().any(|x| *x == s),
  }
}

/// containers without a type of their own: their children are read together with the parent
fn container(tag: &str) -> bool {
  matches!(
    tag,
    "ListSentence" | "Sublist1Sentence" | "Sublist2Sentence" | "Sublist3Sentence" | "ParagraphSentence" | "ItemSentence"
      | "Subitem1Sentence" | "Subitem2Sentence" | "Subitem3Sentence" | "Subitem4Sentence" | "Subitem5Sentence"
      | "Subitem6Sentence" | "Subitem7Sentence" | "Subitem8Sentence" | "Subitem9Sentence" | "Subitem10Sentence"
      | "ClassSentence" | "AmendProvisionSentence" | "NewProvision"
  )
}

/// children that stand at most once under the parent
fn single(parent: &str, tag: &str) -> bool {
  match tag {
    "LawNum" | "LawBody" | "LawTitle" | "TOC" | "Preamble" | "MainProvision" => parent == "Law" || parent == "LawBody",
    "ArticleCaption" | "ParagraphCaption" | "ParagraphNum" | "SupplNote" | "ArticleRange" | "RelatedArticleNum"
    | "ArithFormulaNum" | "RemarksLabel" | "SupplProvisionLabel" | "TOCLabel" | "TOCPreambleLabel" | "TOCSupplProvision" => true,
    "Remarks" => parent != "NoteStruct" && parent != "StyleStruct" && parent != "FormatStruct" && parent != "FigStruct"
      && parent != "TableStruct",
    "Note" => parent == "NoteStruct",
    "Style" => parent == "StyleStruct",
    "Format" => parent == "FormatStruct",
    "Fig" => parent == "FigStruct",
    "Table" => parent == "TableStruct",
    "Rt" => parent == "Ruby",
    _ => tag.ends_with("Title"),
  }
}

fn elements(e: &Element) -> Vec<&Element> {
  let mut l = Vec::new();
  for n in e.children.iter() {
    if let XMLNode::Element(c) = n {
      l.push(c);
    }
  }
  l
}

/// names of the children, and of the children of containers
fn names(e: &Element) -> Vec<&str> {
  let mut l = Vec::new();
  for c in elements(e) {
    if container(&c.name) {
      for d in elements(c) {
        l.push(d.name.as_str());
      }
    } else {
      l.push(c.name.as_str());
    }
  }
  l
}

fn count(l: &[&str], x: &str) -> usize {
  l.iter().filter(|y| **y == x).count()
}

/// structures read wherever they stand: the structure around them looks at their names
fn any_name(tag: &str) -> bool {
  matches!(tag, "Fig" | "Style" | "Note" | "Format" | "ArithFormula" | "QuoteStruct")
}

/// structures that hold running text
fn running_text(tag: &str) -> bool {
  matches!(tag, "LawTitle" | "RemarksLabel" | "Ruby" | "Sup" | "Sub")
}

/// structures whose titles, labels and sentences are empty where the element lacks them
fn lenient(tag: &str) -> bool {
  matches!(tag, "Article" | "Paragraph" | "SupplProvision") || tag.starts_with("TOC")
}

fn faithful(tag: &str, e: &Element, s: &Element) {
  if !any_name(tag) {
    vx::check(e.name == tag, "an element of another name is not read");
  }
  for (name, required, kind) in attributes(tag) {
    match e.attributes.get(*name) {
      None => vx::check(!*required, "an element without a required attribute is not read"),
      Some(a) => vx::check(allowed(kind, a), "an element with an attribute value the schema does not know is not read"),
    }
  }
  if running_text(tag) {
    return;
  }
  if repeated(e) {
    return;
  }
  let ours = names(e);
  let read = names(s);
  if !lenient(tag) {
    for x in read.iter() {
      vx::check(count(&ours, x) > 0, "an element without a required child is not read");
    }
  }
  for x in ours.iter() {
    let n = count(&read, x);
    if tag == "AmendProvision" && *x == "Sentence" && amending_sentences(e) > 1 {
      vx::check(n == count(&ours, x), "every sentence of an AmendProvisionSentence is in the value read");
    }
    vx::check(n > 0, "an element with a child it has no place for is not read");
    vx::check(n == count(&ours, x) || single(tag, x), "every child element is in the value read");
  }
}

/// a sentence container that stands twice: the last one counts, as for all parts that stand once
fn repeated(e: &Element) -> bool {
  let l = elements(e);
  let mut n = 0;
  for c in l.iter() {
    if container(&c.name) && c.name != "NewProvision" {
      n += 1;
    }
  }
  n > 1
}

/// child elements of the AmendProvisionSentences
fn amending_sentences(e: &Element) -> usize {
  elements(e).iter().filter(|c| c.name == "AmendProvisionSentence").map(|c| elements(c).len()).sum()
}

macro_rules! m {
  ($($t:ident)*) => {
    #[allow(non_snake_case)]
    pub mod p05 {
      use super::*;
      $(
        #[inline(never)]
        pub fn $t() {
          let e = vx::any_element("e");
          if let Ok(v) = verif_hooks::from_element::<$t>(&e) {
            let s = vx::spec(&v);
            faithful(stringify!($t), &e, &s);
          }
        }
      )*
      pub const ENTRIES: &[(&str, fn())] = &[$((concat!("p05::", stringify!($t)), $t as fn())),*];
    }
  };
}
crate::structures!(m);
