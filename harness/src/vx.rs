//! Inputs and assertions of the entries.  The engine intercepts these by path (inputs become
//! symbolic, assertions become solver queries); the bodies below are what a native replay of
//! a counterexample runs: inputs come from the counterexample file.
use serde::de::DeserializeOwned;
use serde_json::Value;
use std::cell::RefCell;
use xmltree::{Element, XMLNode};

thread_local! {
  static INPUTS: RefCell<Value> = RefCell::new(Value::Null);
}

pub fn load(v: Value) {
  INPUTS.with(|i| *i.borrow_mut() = v);
}

fn input(name: &str) -> Value {
  INPUTS.with(|i| {
    i.borrow()
      .get(name)
      .cloned()
      .unwrap_or_else(|| panic!("vx: no input {name}"))
  })
}

/// any value of the type
#[inline(never)]
pub fn any<T: DeserializeOwned>(name: &str) -> T {
  let v = input(name);
  serde_json::from_value(v).unwrap_or_else(|e| panic!("vx: input {name}: {e}"))
}

/// any integer of lo..=hi
#[inline(never)]
pub fn int(name: &str, lo: usize, hi: usize) -> usize {
  let n: usize = any(name);
  assume(lo <= n && n <= hi);
  n
}

/// any integer of lo..=hi, always as one concrete value per path (for structure)
#[inline(never)]
pub fn choose(name: &str, n: usize) -> usize {
  let x: usize = any(name);
  assume(x < n);
  x
}

/// any number with at most `max` decimal digits, as a sum of digit variables
#[inline(never)]
pub fn digits(name: &str, max: usize) -> usize {
  let n: usize = any(name);
  assume(n.to_string().len() <= max);
  n
}

/// any character of a class ("any", "plain")
#[inline(never)]
pub fn ch(name: &str, _class: &str) -> char {
  any::<String>(name).chars().next().unwrap()
}

/// any string, opaque
#[inline(never)]
pub fn text(name: &str) -> String {
  any(name)
}

/// a bound or mode set by the driver
#[inline(never)]
pub fn param(name: &str) -> usize {
  any(&format!("param:{name}"))
}

/// any element tree
#[inline(never)]
pub fn any_element(name: &str) -> Element {
  element(&input(name))
}

#[inline(never)]
pub fn assume(b: bool) {
  if !b {
    println!("REPLAY-ASSUMPTION-FALSE");
    quit(3);
  }
}

#[inline(never)]
pub fn check(b: bool, msg: &str) {
  if !b {
    println!("REPLAY-CHECK-FAILED {msg}");
    quit(1);
  }
}

#[inline(never)]
pub fn check_eq<T: PartialEq + std::fmt::Debug>(a: &T, b: &T, msg: &str) {
  if a != b {
    println!("REPLAY-CHECK-FAILED {msg}\n  got      {a:?}\n  expected {b:?}");
    quit(1);
  }
}

/// comparison of elements (attribute order and such do not count)
#[inline(never)]
pub fn check_eq_element(a: &Element, b: &Element, msg: &str) {
  check_eq(&crate::xml::norm_all(a.clone()), &crate::xml::norm_all(b.clone()), msg)
}

/// whether an attribute equal to its default is written out (the driver decides)
#[inline(never)]
pub fn explicit(name: &str) -> bool {
  INPUTS.with(|i| i.borrow().get(format!("explicit:{name}")).and_then(|v| v.as_bool()).unwrap_or(false))
}

/// a field the harness cannot name
#[inline(never)]
pub fn private_field<S: serde::Serialize, T: DeserializeOwned>(s: &S, field: &str) -> T {
  serde_json::from_value(serde_json::to_value(s).unwrap()[field].clone()).unwrap()
}

/// the specification's element of a value (called directly, never left abstract)
#[inline(never)]
pub fn spec<S: crate::spec::Spec>(s: &S) -> Element {
  s.enc()
}

#[inline(never)]
pub fn spec_named<S: crate::spec::SpecNamed>(s: &S, name: &str) -> Element {
  s.enc_named(name)
}

/// the reader of texts, called directly
#[inline(never)]
pub fn text_of(children: &[XMLNode]) -> japanese_law_xml_schema::text::Text {
  japanese_law_xml_schema::text::Text::from_children(children)
}

fn s(v: &Value) -> String {
  v.as_str().unwrap_or("").to_string()
}

pub fn element(v: &Value) -> Element {
  if let Some(x) = v.get("$nested") {
    return crate::nested::make(&s(&x["ty"]), &x["value"], x["ok"].as_bool().unwrap_or(true), &s(&x["name"]));
  }
  let mut e = Element::new(&s(&v["name"]));
  if let Some(m) = v["attributes"].as_object() {
    for (k, x) in m {
      e.attributes.insert(k.clone(), s(x));
    }
  }
  if let Some(l) = v["children"].as_array() {
    for c in l {
      let (k, x) = c.as_object().unwrap().iter().next().unwrap();
      e.children.push(match k.as_str() {
        "Element" => XMLNode::Element(element(x)),
        "Comment" => XMLNode::Comment(s(x)),
        "CData" => XMLNode::CData(s(x)),
        "Text" => XMLNode::Text(s(x)),
        _ => XMLNode::ProcessingInstruction(s(&x[0]), x[1].as_str().map(|s| s.to_string())),
      })
    }
  }
  e
}

static FILES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

fn quit(code: i32) {
  let l = FILES.lock().unwrap().clone();
  for p in l {
    remove(&p);
  }
  std::process::exit(code)
}

/// the path of a file of that content (fault 1: there is none, 2: it cannot be read)
#[inline(never)]
pub fn file(content: &[u8], fault: usize) -> String {
  let n = FILES.lock().unwrap().len();
  let p = std::env::temp_dir().join(format!("jlx-{}-{n}", std::process::id()));
  match fault {
    0 => std::fs::write(&p, content).unwrap(),
    1 => {}
    _ => std::fs::create_dir(&p).unwrap(),
  }
  let p = p.to_str().unwrap().to_string();
  FILES.lock().unwrap().push(p.clone());
  p
}

/// removes what `file` made
#[inline(never)]
pub fn remove(path: &str) {
  let _ = std::fs::remove_file(path);
  let _ = std::fs::remove_dir(path);
}
