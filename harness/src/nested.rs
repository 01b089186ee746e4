//! Concrete child elements for the replay of counterexamples in which the result of a nested
//! reader was left arbitrary.
use crate::spec::{Spec, SpecNamed};
use japanese_law_xml_schema::{
  appdx::*, article::*, class::*, contents::*, fig::*, law::*, line::*, list::*, paragraph::*, remarks::*, sentence::*,
  structs::*, suppl_provision::*, table::*, table_of_contents::*, text::*, verif_hooks,
};
use serde_json::Value;
use xmltree::{Element, XMLNode};

/// elements of that name no reader should accept
fn broken(name: &str) -> Vec<Element> {
  let plain = Element::new(name);
  let mut unknown = Element::new(name);
  unknown.children.push(XMLNode::Element(Element::new("UnknownTag")));
  let mut attrs = Element::new(name);
  for a in ["Num", "Delete", "Hide", "OldStyle", "OldNum", "LineBreak", "Style", "Type", "Extract", "CommonCaption", "Function"] {
    attrs.attributes.insert(a.to_string(), "?".to_string());
  }
  vec![plain, unknown, attrs, Element::new("UnknownTag")]
}

fn failing(name: &str, fails: impl Fn(&Element) -> bool) -> Element {
  broken(name)
    .into_iter()
    .find(|e| fails(e))
    .unwrap_or_else(|| {
      println!("REPLAY-UNREAL no element {name} that cannot be read");
      std::process::exit(4)
    })
}

macro_rules! m {
  ($($t:ident)*) => {
    pub fn make(ty: &str, value: &Value, ok: bool, name: &str) -> Element {
      match ty {
        $(stringify!($t) => {
          if ok {
            let v: $t = serde_json::from_value(value.clone()).unwrap_or_else(|e| panic!("vx: nested {ty}: {e}"));
            v.enc()
          } else {
            failing(name, |e| verif_hooks::from_element::<$t>(e).is_err())
          }
        })*
        _ => named(ty, value, ok, name),
      }
    }
  };
}
crate::structures!(m);

macro_rules! n {
  ($($t:ident)*) => {
    fn named(ty: &str, value: &Value, ok: bool, name: &str) -> Element {
      match ty {
        $(stringify!($t) => {
          if ok {
            let v: $t = serde_json::from_value(value.clone()).unwrap_or_else(|e| panic!("vx: nested {ty}: {e}"));
            v.enc_named(name)
          } else {
            failing(name, |e| verif_hooks::from_element::<$t>(e).is_err())
          }
        })*
        _ => panic!("vx: nested {ty}"),
      }
    }
  };
}
n! { Caption Contents TextWithWritingMode }
