#[macro_export]
macro_rules! entries {
  ($(fn $n:ident() $b:block)*) => {
    $(#[inline(never)] pub fn $n() $b)*
    pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
  };
}
#[macro_export]
macro_rules! entries2 {
  ($c:ident $(fn $n:ident() $b:block)*) => {
    $(#[inline(never)] pub fn $n() $b)*
    pub const $c: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
  };
}
