//! P06: article numbers and their Num attribute form
use crate::vx;
use japanese_law_xml_schema::article_number::*;

pub fn number(name: &str, max_list: usize) -> ArticleNumber {
  let n_eda = vx::choose(&format!("{name}.n_eda"), max_list + 1);
  let n_range = vx::choose(&format!("{name}.n_range"), max_list + 1);
  ArticleNumber {
    base_number: vx::any(&format!("{name}.base")),
    eda_numbers: (0..n_eda).map(|i| vx::any(&format!("{name}.eda{i}"))).collect(),
    range_end_numbers: (0..n_range).map(|i| vx::any(&format!("{name}.range{i}"))).collect(),
  }
}

entries! {
  fn p06_round_trip() {
    let n = number("n", vx::param("list"));
    let s = n.num_str();
    let mut spelt = join(&n.base_number.to_string(), &n.eda_numbers, "_", &|n| n.to_string());
    if let Some((first, rest)) = n.range_end_numbers.split_first() {
      spelt.push(':');
      spelt.push_str(&join(&first.to_string(), rest, "_", &|n| n.to_string()));
    }
    vx::check_eq(&s, &spelt, "num_str is the schema's spelling of the number");
    match ArticleNumber::from_num_str(&s) {
      Ok(m) => vx::check_eq(&m, &n, "from_num_str(num_str(n)) is n"),
      Err(_) => vx::check(false, "from_num_str reads what num_str wrote"),
    }
    match s.parse::<ArticleNumber>() {
      Ok(m) => vx::check_eq(&m, &n, "num_str(n).parse() is n"),
      Err(_) => vx::check(false, "parse reads what num_str wrote"),
    }
  }

  fn p06_read_total() {
    let l = vx::choose("len", vx::param("len") + 1);
    let s: String = (0..l).map(|i| vx::ch(&format!("c{i}"), "any")).collect();
    let r = ArticleNumber::from_num_str(&s);
    vx::check(r.is_ok() || r.is_err(), "returns");
  }
}

/// a number followed by its branch numbers
fn join(first: &str, rest: &[usize], sep: &str, show: &dyn Fn(usize) -> String) -> String {
  let mut s = first.to_string();
  for x in rest {
    s.push_str(sep);
    s.push_str(&show(*x));
  }
  s
}

/// the spelling of a number with branches and a range, as the laws write it
fn spelt(n: &ArticleNumber, first: &dyn Fn(usize) -> String, branch: &dyn Fn(usize) -> String) -> String {
  let mut s = join(&first(n.base_number), &n.eda_numbers, "の", branch);
  if let Some((f, rest)) = n.range_end_numbers.split_first() {
    s.push_str("から");
    s.push_str(&join(&first(*f), rest, "の", branch));
    s.push_str("まで");
  }
  s
}

fn kanji(n: usize) -> String {
  let digits = n.to_string();
  let mut units = "千百十　".chars().skip(4 - digits.len());
  let mut s = String::new();
  for c in digits.chars() {
    let unit = units.next().unwrap();
    match c {
      '0' => continue,
      '1' if unit != '　' => {}
      '1' => s.push('一'),
      '2' => s.push('二'),
      '3' => s.push('三'),
      '4' => s.push('四'),
      '5' => s.push('五'),
      '6' => s.push('六'),
      '7' => s.push('七'),
      '8' => s.push('八'),
      _ => s.push('九'),
    }
    if unit != '　' {
      s.push(unit);
    }
  }
  s
}

fn wide_digits(n: usize) -> String {
  n.to_string().chars().map(|c| char::from_u32(c as u32 + 0xFEE0).unwrap()).collect()
}

fn roman(n: usize, digits: [char; 5]) -> String {
  let mut s = String::new();
  for (unit, k) in [(100, 4), (10, 2), (1, 0)] {
    let d = n / unit % 10;
    // the digit as ones, fives and tens of its unit
    let shape: &[usize] = [
      &[][..], &[0], &[0, 0], &[0, 0, 0], &[0, 1], &[1], &[1, 0], &[1, 0, 0], &[1, 0, 0, 0], &[0, 2],
    ][d];
    for x in shape {
      s.push(digits[k + x]);
    }
  }
  s
}

/// Ａ..Ｚ, ＡＡ.. (up to three letters)
fn letters(n: usize, first: char) -> String {
  let letter = |k: usize| char::from_u32(first as u32 + k as u32).unwrap();
  let mut s = String::new();
  if n > 702 {
    s.push(letter((n - 703) / 676));
  }
  if n > 26 {
    s.push(letter((n - 27) / 26 % 26));
  }
  s.push(letter((n - 1) % 26));
  s
}

const IROHA_KATAKANA: &str = "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス";
const IROHA_HIRAGANA: &str = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす";

/// the spelling of a number in a style (without parentheses)
fn style(k: usize, n: usize) -> String {
  match k % 8 {
    0 => kanji(n),
    1 => IROHA_KATAKANA.chars().nth(n - 1).unwrap().to_string(),
    2 => IROHA_HIRAGANA.chars().nth(n - 1).unwrap().to_string(),
    3 => wide_digits(n),
    4 => roman(n, ['Ｉ', 'Ｖ', 'Ｘ', 'Ｌ', 'Ｃ']),
    5 => roman(n, ['ｉ', 'ｖ', 'ｘ', 'ｌ', 'ｃ']),
    6 => letters(n, 'Ａ'),
    _ => letters(n, 'ａ'),
  }
}

/// a number whose part `wide` ranges over everything of the domain while the other parts are small
pub fn shaped(n_eda: usize, n_range: usize, part: &dyn Fn(&str, bool, usize) -> usize, wide: usize) -> ArticleNumber {
  let mut k = 0;
  let mut next = |name: &str| {
    let w = k == wide;
    k += 1;
    part(name, w, k)
  };
  let base_number = next("base");
  let mut eda_numbers = Vec::new();
  for i in 0..n_eda {
    eda_numbers.push(next(&format!("eda{i}")));
  }
  let mut range_end_numbers = Vec::new();
  for i in 0..n_range {
    range_end_numbers.push(next(&format!("range{i}")));
  }
  ArticleNumber { base_number, eda_numbers, range_end_numbers }
}

/// a few numbers, different ones at each place (none of them a roman numeral as a letter)
pub fn small(name: &str, place: usize) -> usize {
  [8, 1, 11, 5, 14, 2, 25, 7][(place + vx::choose(name, vx::param("small"))) % 8]
}

pub fn positive_digits(name: &str, max: usize) -> usize {
  let n = vx::digits(name, max);
  vx::assume(n > 0);
  n
}

entries2! { P07
  fn p07_heading_texts() {
    let n = shaped(vx::param("eda"), vx::param("range"), &|name, wide, place| if wide { positive_digits(name, 4) } else { small(name, place) }, vx::param("wide"));
    let s = match vx::param("kind") {
      0 => n.part_text(),
      1 => n.chapter_text(),
      2 => n.section_text(),
      3 => n.subsection_text(),
      4 => n.division_text(),
      _ => n.article_text(),
    };
    let kind = ["編", "章", "節", "款", "目", "条"][vx::param("kind")];
    vx::check_eq(&s, &spelt(&n, &|x| format!("第{}{kind}", kanji(x)), &kanji), "the heading is spelt as laws spell it");
    let r = parse_article_number(&s);
    vx::check_eq(&r, &Some(n), "parse_article_number reads the generated heading");
  }

  fn p07_paragraph_texts() {
    let n = shaped(vx::param("eda"), vx::param("range"), &|name, wide, place| if wide { vx::any(name) } else { small(name, place) }, vx::param("wide"));
    let s = n.paragraph_text();
    vx::check_eq(&s, &spelt(&n, &wide_digits, &wide_digits), "the paragraph number is spelt in full-width digits");
    let r = parse_article_number(&s);
    vx::check_eq(&r, &Some(n), "parse_article_number reads the generated paragraph number");
  }
}

fn pattern(k: usize) -> ItemPattern {
  use ItemPattern::*;
  [
    NoParenKansuji, NoParenIrohaKatakana, NoParenIrohaHiragana, NoParenZenkakuNum, NoParenZenkakuRomanUpper,
    NoParenZenkakuRomanLower, NoParenZenkakuUpper, NoParenZenkakuLower, ParenKansuji, ParenIrohaKatakana,
    ParenIrohaHiragana, ParenZenkakuNum, ParenZenkakuRomanUpper, ParenZenkakuRomanLower, ParenZenkakuUpper,
    ParenZenkakuLower,
  ][k]
}

/// a number the style can express: every number for digits, 1..9999 for kanji numerals, 1..47 for
/// iroha, 1..399 for roman numerals (I V X L C), letters that are not also roman numerals
fn expressible(name: &str, place: usize, k: usize, wide: bool, branch: bool) -> usize {
  match k % 8 {
    0 => if wide { positive_digits(name, 4) } else { small(name, place) },
    1 => if wide { vx::int(name, 1, 47) } else { small(name, place) },
    2 => {
      let n = if wide { vx::int(name, 1, 47) } else { small(name, place) };
      // の is also the separator of branch numbers
      vx::assume(!branch || n != 26);
      n
    }
    3 => if wide { vx::any(name) } else { small(name, place) },
    4 | 5 => if wide { vx::int(name, 1, vx::param("roman")) } else { small(name, place) },
    _ => {
      let n = if wide { vx::int(name, 1, vx::param("letters")) } else { small(name, place) };
      vx::assume(!all_roman_letters(n));
      n
    }
  }
}

fn all_roman_letters(mut n: usize) -> bool {
  while n > 0 {
    let l = (n - 1) % 26 + 1;
    if l != 3 && l != 9 && l != 12 && l != 22 && l != 24 {
      return false;
    }
    n = (n - 1) / 26;
  }
  true
}

entries2! { P08
  fn p08_item_labels() {
    let k = vx::param("pattern");
    let p = pattern(k);
    let n = shaped(vx::param("eda"), vx::param("range"),
      &|name, wide, place| expressible(name, place, k, wide, name.starts_with("eda") || name != "range0" && name.starts_with("range")), vx::param("wide"));
    let s = n.item_text(p);
    let first = |x: usize| if k < 8 { style(k, x) } else { format!("（{}）", style(k, x)) };
    vx::check_eq(&s, &spelt(&n, &first, &|x| style(k, x)), "the label is spelt in its style");
    match parse_item_number(&s) {
      None => vx::check(false, "parse_item_number reads the generated label"),
      Some(r) => {
        vx::check_eq(&r.pattern, &p, "the style of the label is recognised");
        vx::check_eq(&r.str, &s, "the label itself is kept");
        vx::check_eq(&ArticleNumber::from_item_number(&r), &n, "the numbers of the label are read");
      }
    }
  }
}

entries2! { P09
  fn p09_article() {
    let s = string(vx::param("len"));
    let r = parse_article_number(&s);
    vx::check(r.is_some() || r.is_none(), "returns");
  }
  fn p09_item() {
    let s = string(vx::param("len"));
    let r = parse_item_number(&s);
    vx::check(r.is_some() || r.is_none(), "returns");
  }
  fn p09_split() {
    let s = string(vx::param("len"));
    let r = split_number(&s);
    vx::check(r.is_some() || r.is_none(), "returns");
  }
}

/// long runs of digits or letters of one kind at each place of a number
fn run(name: &str, class: usize, len: usize) -> String {
  let class = ["0123456789", "０１２３４５６７８９", "一二三四五六七八九十百千", "ＡＢＺＶＩＸ", "ａｂｚｖｉｘ", "イロアンヴ"][class];
  let mut s = String::new();
  for i in 0..len {
    s.push(vx::ch(&format!("{name}{i}"), class));
  }
  s
}

entries2! { P09_LONG
  fn p09_long() {
    let class = vx::param("class");
    let long = run("c", class, vx::param("len"));
    let short = ["7", "７", "七", "Ｂ", "ｂ", "ロ"][class].to_string();
    let (a, b, c, d) = match vx::param("place") {
      0 => (&long, &short, &short, &short),
      1 => (&short, &long, &short, &short),
      2 => (&short, &short, &long, &short),
      _ => (&short, &short, &short, &long),
    };
    let no = ["の", "ノ"][vx::choose("no", 2)];
    let s = match vx::param("form") {
      0 => format!("第{a}条{no}{b}から第{c}条{no}{d}まで"),
      1 => format!("{a}{no}{b}から{c}{no}{d}まで"),
      _ => format!("（{a}）の{b}から（{c}）の{d}まで"),
    };
    let r = parse_article_number(&s);
    vx::check(r.is_some() || r.is_none(), "returns");
    let r = parse_item_number(&s);
    vx::check(r.is_some() || r.is_none(), "returns");
  }
}

/// the notations of laws that article_text and paragraph_text do not produce
fn digits_of(n: usize, notation: usize) -> String {
  let s = n.to_string();
  if notation == 0 {
    return s;
  }
  s.chars().map(|c| char::from_u32(c as u32 - '0' as u32 + '０' as u32).unwrap()).collect()
}

entries2! { P07_NOTATIONS
  fn p07_notations() {
    let n = shaped(vx::param("eda"), vx::param("range"), &|name, wide, place| if wide { positive_digits(name, 6) } else { small(name, place) }, vx::param("wide"));
    let notation = vx::param("notation");
    let no = ["の", "ノ"][vx::param("no")];
    let kind = vx::param("kind");
    let suffix = ["編", "章", "節", "款", "目", "条", "項", "号", ""][kind];
    let dai = if kind < 8 { "第" } else { "" };
    let first = if kind < 8 { ["", "第"][vx::choose("dai", 2)] } else { "" };
    let mut s = format!("{first}{}{suffix}", digits_of(n.base_number, notation));
    for x in &n.eda_numbers {
      s.push_str(no);
      s.push_str(&digits_of(*x, notation));
    }
    for (i, x) in n.range_end_numbers.iter().enumerate() {
      if i == 0 {
        s.push_str(&format!("から{dai}{}{suffix}", digits_of(*x, notation)));
      } else {
        s.push_str(no);
        s.push_str(&digits_of(*x, notation));
      }
    }
    if !n.range_end_numbers.is_empty() {
      s.push_str("まで");
    }
    let r = parse_article_number(&s);
    vx::check_eq(&r, &Some(n), "parse_article_number reads the notation");
  }
}

fn string(max: usize) -> String {
  let l = vx::choose("len", max + 1);
  let mut s = String::new();
  for i in 0..l {
    s.push(vx::ch(&format!("c{i}"), "any"));
  }
  s
}
