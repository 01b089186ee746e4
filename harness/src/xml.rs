//! P01, P02, P03: one entry per structure and property
use crate::spec::{Spec, SpecNamed};
use crate::vx;
use japanese_law_xml_schema::{
  appdx::*, article::*, class::*, contents::*, fig::*, law::*, line::*, list::*, paragraph::*, remarks::*, sentence::*,
  structs::*, suppl_provision::*, table::*, table_of_contents::*, text::*, verif_hooks,
};
use xmltree::{Element, XMLNode};

#[macro_export]
macro_rules! structures {
  ($m:ident) => {
    $m! {
      AmendProvision Appdx AppdxFig AppdxFormat AppdxNote AppdxStyle AppdxTable ArithFormula Article Chapter Class Column
      Division Fig FigStruct Format FormatStruct Item Law LawBody LawTitle Line List MainProvision Note NoteStruct
      Paragraph Part Preamble QuoteStruct Remarks RemarksLabel Ruby Section Sentence Style StyleStruct Sub
      Subitem1 Subitem2 Subitem3 Subitem4 Subitem5 Subitem6 Subitem7 Subitem8 Subitem9 Subitem10 Sublist1 Sublist2
      Sublist3 Subsection Sup SupplProvision SupplProvisionAppdx SupplProvisionAppdxStyle SupplProvisionAppdxTable TOC
      TOCArticle TOCChapter TOCDivision TOCPart TOCSection TOCSubsection TOCSupplProvision Table TableColumn
      TableHeaderRow TableRow TableStruct
    }
  };
}

macro_rules! named {
  ($m:ident) => {
    $m! { Caption Contents TextWithWritingMode }
  };
}

/// attributes whose absence means the default, removed when they hold it
fn norm(mut e: Element) -> Element {
  let mut drop = |name: &str, default: &str| {
    if e.attributes.get(name).map(|s| s == default).unwrap_or(false) {
      e.attributes.remove(name);
    }
  };
  drop("Delete", "false");
  drop("Hide", "false");
  drop("OldStyle", "false");
  drop("OldNum", "false");
  drop("LineBreak", "false");
  drop("WritingMode", "vertical");
  drop("Style", "solid");
  drop("BorderTop", "solid");
  drop("BorderBottom", "solid");
  drop("BorderLeft", "solid");
  drop("BorderRight", "solid");
  e
}

/// norm at every depth (native comparison only: the engine compares nested structures by induction)
pub fn norm_all(e: Element) -> Element {
  let mut e = norm(e);
  e.children = e
    .children
    .into_iter()
    .map(|n| match n {
      XMLNode::Element(e) => XMLNode::Element(norm_all(e)),
      n => n,
    })
    .collect();
  e
}

/// a comment at some position among the children
fn with_comment(mut e: Element) -> Element {
  let n = vx::choose("comment_at", e.children.len() + 1);
  e.children.insert(n, XMLNode::Comment("c".to_string()));
  e
}

#[allow(non_snake_case)]
pub mod p01 {
  use super::*;
  macro_rules! m {
    ($($t:ident)*) => {$(
      #[inline(never)]
      pub fn $t() {
        let v: $t = vx::any("v");
        vx::assume(v.wf());
        let e = verif_hooks::to_element(&v);
        match verif_hooks::from_element::<$t>(&e) {
          Ok(w) => vx::check_eq(&w, &v, "reading the written element gives the value"),
          Err(_) => vx::check(false, "the written element can be read"),
        }
      }
    )*
    pub const ENTRIES: &[(&str, fn())] = &[$((concat!("p01::", stringify!($t)), $t as fn())),*];
    };
  }
  structures!(m);
  pub mod named {
    use super::*;
    macro_rules! m {
      ($($t:ident)*) => {$(
        #[inline(never)]
        pub fn $t() {
          let v: $t = vx::any("v");
          let e = verif_hooks::to_element_with_name(&v, "Name");
          match verif_hooks::from_element::<$t>(&e) {
            Ok(w) => vx::check_eq(&w, &v, "reading the written element gives the value"),
            Err(_) => vx::check(false, "the written element can be read"),
          }
        }
      )*
      #[inline(never)]
      pub fn Text() {
        let v: Text = vx::any("v");
        let e = verif_hooks::to_element_with_name(&v, "Name");
        let w = vx::text_of(&e.children);
        vx::check_eq(&w, &v, "reading the written element gives the value");
        let c = v.to_children();
        let w = vx::text_of(&c);
        vx::check_eq(&w, &v, "reading the written children gives the value");
      }
      pub const ENTRIES: &[(&str, fn())] = &[$((concat!("named::", stringify!($t)), $t as fn()),)* ("named::Text", Text as fn())];
      };
    }
    named!(m);
  }
}

#[allow(non_snake_case)]
pub mod p02 {
  use super::*;
  macro_rules! m {
    ($($t:ident)*) => {$(
      #[inline(never)]
      pub fn $t() {
        let v: $t = vx::any("v");
        vx::assume(v.wf());
        let e = norm(verif_hooks::to_element(&v));
        let s = norm(vx::spec(&v));
        vx::check_eq_element(&e, &s, "the written element is the one the schema prescribes");
      }
    )*
    pub const ENTRIES: &[(&str, fn())] = &[$((concat!("p02::", stringify!($t)), $t as fn())),*];
    };
  }
  structures!(m);
  pub mod names {
    use super::*;
    macro_rules! m {
      ($($t:ident)*) => {$(
        #[inline(never)]
        pub fn $t() {
          let v: $t = vx::any("v");
          let e = norm(verif_hooks::to_element_with_name(&v, "Name"));
          let s = norm(vx::spec_named(&v, "Name"));
          vx::check_eq_element(&e, &s, "the written element is the one the schema prescribes");
        }
      )*
      pub const ENTRIES: &[(&str, fn())] = &[$((concat!("names::", stringify!($t)), $t as fn())),*];
      };
    }
    m! { Caption Contents SentenceOrColumnOrTable Text TextWithWritingMode }
  }
}

#[allow(non_snake_case)]
pub mod p03 {
  use super::*;
  macro_rules! m {
    ($($t:ident)*) => {$(
      #[inline(never)]
      pub fn $t() {
        let v: $t = vx::any("v");
        vx::assume(v.wf());
        let mut e = vx::spec(&v);
        if vx::param("comment") == 1 {
          e = with_comment(e);
        }
        match verif_hooks::from_element::<$t>(&e) {
          Ok(w) => vx::check_eq(&w, &v, "the value read has every part of the element"),
          Err(_) => vx::check(false, "an element in the schema's form can be read"),
        }
      }
    )*
    pub const ENTRIES: &[(&str, fn())] = &[$((concat!("p03::", stringify!($t)), $t as fn())),*];
    };
  }
  structures!(m);
  pub mod texts {
    use super::*;
    macro_rules! m {
      ($($t:ident)*) => {$(
        #[inline(never)]
        pub fn $t() {
          let v: $t = vx::any("v");
          let mut e = vx::spec_named(&v, "Name");
          if vx::param("comment") == 1 {
            e = with_comment(e);
          }
          match verif_hooks::from_element::<$t>(&e) {
            Ok(w) => vx::check_eq(&w, &v, "the value read has every part of the element"),
            Err(_) => vx::check(false, "an element in the schema's form can be read"),
          }
        }
      )*
      #[inline(never)]
      pub fn Text() {
        let v: Text = vx::any("v");
        let mut e = vx::spec_named(&v, "Name");
        if vx::param("comment") == 1 {
          e = with_comment(e);
        }
        let w = vx::text_of(&e.children);
        vx::check_eq(&w, &v, "the value read has every part of the element");
      }
      pub const ENTRIES: &[(&str, fn())] = &[$((concat!("texts::", stringify!($t)), $t as fn()),)* ("texts::Text", Text as fn())];
      };
    }
    named!(m);
  }
}

#[allow(non_snake_case)]
pub mod p04 {
  use super::*;
  macro_rules! m {
    ($($t:ident)*) => {$(
      #[inline(never)]
      pub fn $t() {
        let e = vx::any_element("e");
        let r = verif_hooks::from_element::<$t>(&e);
        vx::check(r.is_ok() || r.is_err(), "reading any element ends with a value or an error");
      }
    )*
    pub const ENTRIES: &[(&str, fn())] = &[$((concat!("p04::", stringify!($t)), $t as fn())),*];
    };
  }
  structures!(m);
  pub mod inlines {
    use super::*;
    macro_rules! m {
      ($($t:ident)*) => {$(
        #[inline(never)]
        pub fn $t() {
          let e = vx::any_element("e");
          let r = verif_hooks::from_element::<$t>(&e);
          vx::check(r.is_ok() || r.is_err(), "reading any element ends with a value or an error");
        }
      )*
      #[inline(never)]
      pub fn Text() {
        let e = vx::any_element("e");
        let t = vx::text_of(&e.children);
        vx::check(t.contents.len() <= e.children.len(), "reading any children ends with a text");
      }
      pub const ENTRIES: &[(&str, fn())] = &[$((concat!("inlines::", stringify!($t)), $t as fn()),)* ("inlines::Text", Text as fn())];
      };
    }
    m! { Caption Contents TextWithWritingMode }
  }
}
