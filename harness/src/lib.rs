pub mod nested;
pub mod spec;
pub mod vx;
#[macro_use]
pub mod reg;
pub mod bytes;
pub mod listing;
pub mod numbers;
pub mod selftest;
pub mod textlaw;
pub mod malformed;
pub mod xml;

const ALL: &[&[(&str, fn())]] = &[
  numbers::ENTRIES,
  selftest::SELF,
  listing::P14,
  listing::P15,
  listing::P16,
  listing::P17,
  numbers::P07,
  numbers::P08,
  numbers::P09,
  numbers::P09_LONG,
  numbers::P07_NOTATIONS,
  textlaw::P10,
  textlaw::P10_ITEMS,
  textlaw::P11,
  textlaw::P12,
  textlaw::P13,
  textlaw::P18,
  xml::p01::ENTRIES,
  xml::p01::named::ENTRIES,
  xml::p02::ENTRIES,
  xml::p02::names::ENTRIES,
  xml::p03::ENTRIES,
  xml::p03::texts::ENTRIES,
  xml::p04::ENTRIES,
  xml::p04::inlines::ENTRIES,
  malformed::p05::ENTRIES,
  bytes::P19,
];

/// the entry of that name
pub fn entry(name: &str) -> Option<fn()> {
  ALL.iter().flat_map(|l| l.iter()).find(|(n, _)| *n == name).map(|(_, f)| *f)
}
