From 5ac178d38b0a6a35a7c2c234e6d416bda053cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:21 +0000
Subject: [PATCH 01/49] verif: expose crate-private entry points behind
 cfg(jlx_verif)

---
 src/lib.rs         |  3 +++
 src/verif_hooks.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 63925fa..47cc6ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,7 @@
 //!
 
 #![recursion_limit = "256"]
+#![allow(unexpected_cfgs)]
 
 pub mod appdx;
 pub mod article;
@@ -43,6 +44,8 @@ mod tests;
 pub mod text;
 pub(crate) mod to_xml;
 pub mod utils;
+#[cfg(jlx_verif)]
+pub mod verif_hooks;
 
 use crate::parser::Parser;
 use koyomi::{era, Date};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..68db327
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,29 @@
+//! 検証用のフック。`--cfg jlx_verif`を付けてビルドしたときのみ公開される。
+
+use crate::parser::Parser;
+use crate::result::Result;
+use crate::to_xml::{ToXmlElement, ToXmlElementWithName};
+use xmltree::Element;
+
+/// `Parser`トレイトを外から呼び出す
+#[allow(private_bounds)]
+pub fn from_element<T: Parser>(element: &Element) -> Result<T> {
+  T::parser(element)
+}
+
+/// `ToXmlElement`トレイトを外から呼び出す
+#[allow(private_bounds)]
+pub fn to_element<T: ToXmlElement>(t: &T) -> Element {
+  t.to_xml_element()
+}
+
+/// `ToXmlElementWithName`トレイトを外から呼び出す
+#[allow(private_bounds)]
+pub fn to_element_with_name<T: ToXmlElementWithName>(t: &T, name: &str) -> Element {
+  t.to_xml_element_with_name(name)
+}
+
+/// `parse_from_text::parse_body`を外から呼び出す
+pub fn parse_body(title: &str, text: &str) -> Result<crate::law::LawBody> {
+  crate::parse_from_text::parse_body(title, text)
+}
-- 
2.43.0


From 9786db25536a752dc57e7433a5664fe44caaeda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:46 +0000
Subject: [PATCH 02/49] fix: num_str writes the range end once and also without
 branch numbers

---
 src/article_number.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..c77100c 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,15 +25,15 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
+    }
+    if !self.range_end_numbers.is_empty() {
+      let l = &self.range_end_numbers;
+      let mut l = l.iter();
+      s.push(':');
+      s.push_str(&l.next().unwrap().to_string());
+      for n in l {
+        s.push('_');
+        s.push_str(&n.to_string());
       }
     }
     s
-- 
2.43.0


From dd901ae3b5033207389de603c39eb06e5c6e0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:30 +0000
Subject: [PATCH 03/49] fix: Remarks writer keeps the RemarksLabel

---
 src/remarks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..3ce447c 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,8 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children
+      .push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From fcc4baf218dfedec938622592a94400f10ce41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:31 +0000
Subject: [PATCH 04/49] fix: ArithFormula writer keeps the Num attribute

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..0006ffa 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(n) = self.num {
+      e.attributes.insert("Num".to_string(), n.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From df16804a99e68bb6aeff6040f07de33336f7f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:32 +0000
Subject: [PATCH 05/49] fix: read the double line style as double

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..0191e5c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,7 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
       _ => None,
     }
   }
-- 
2.43.0


From 8ad170cb4ff592d5df70bd955ed407293ea86ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:34 +0000
Subject: [PATCH 06/49] fix: a Line without Style takes the schema default
 solid

---
 src/line.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 0191e5c..ea58106 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -18,12 +18,13 @@ pub struct Line {
 impl Parser for Line {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Line" {
-      let style = LineStyle::from_attribute(element.attributes.get("Style")).ok_or(
-        Error::AttributeParseError {
+      let style = match element.attributes.get("Style") {
+        None => LineStyle::Solid,
+        style => LineStyle::from_attribute(style).ok_or(Error::AttributeParseError {
           tag_name: "Line".to_string(),
           attribute_name: "Style".to_string(),
-        },
-      )?;
+        })?,
+      };
       let mut contents = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-- 
2.43.0


From e03f3ded940334ecc1aef56f74aa2ef75b02218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:20 +0000
Subject: [PATCH 07/49] fix: reading a Law without Num does not panic

---
 src/law.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..fbff3ce 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,9 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
-      let num = if num_str.is_empty() {
-        None
-      } else {
-        Some(ArticleNumber::from_str(num_str)?)
+      let num = match element.attributes.get("Num") {
+        Some(num_str) if !num_str.is_empty() => Some(ArticleNumber::from_str(num_str)?),
+        _ => None,
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
-- 
2.43.0


From d05a299be840266b292e4f2c9129ea4e9935dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:22 +0000
Subject: [PATCH 08/49] fix: AmendProvision writer writes its new provisions as
 NewProvision

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index fbff3ce..b5c2ff2 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -890,7 +890,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From 3ec99a9b816087288200acf2024b81ac6af4d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:58 +0000
Subject: [PATCH 09/49] fix: an Item or Subitem written without Num can be read
 back

---
 src/paragraph.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..62ff806 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -196,8 +196,8 @@ impl Item {
 impl Parser for Item {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Item" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -340,8 +340,8 @@ impl Subitem1 {
 impl Parser for Subitem1 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem1" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -484,8 +484,8 @@ impl Subitem2 {
 impl Parser for Subitem2 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem2" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -628,8 +628,8 @@ impl Subitem3 {
 impl Parser for Subitem3 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem3" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -772,8 +772,8 @@ impl Subitem4 {
 impl Parser for Subitem4 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem4" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -916,8 +916,8 @@ impl Subitem5 {
 impl Parser for Subitem5 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem5" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1060,8 +1060,8 @@ impl Subitem6 {
 impl Parser for Subitem6 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem6" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1204,8 +1204,8 @@ impl Subitem7 {
 impl Parser for Subitem7 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem7" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1348,8 +1348,8 @@ impl Subitem8 {
 impl Parser for Subitem8 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem8" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1492,8 +1492,8 @@ impl Subitem9 {
 impl Parser for Subitem9 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem9" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1633,8 +1633,8 @@ impl Subitem10 {
 impl Parser for Subitem10 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem10" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
-- 
2.43.0


From 9fd1ede2b4192ac233b464feb81e5f4e735f481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 10/49] fix: TableColumn writer writes Align and Valign under
 their own names

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From a6a6c5d4a9c11fdcc3f08bcc698b742044f708d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:33 +0000
Subject: [PATCH 11/49] fix: SupplProvisionAppdxTable writer spells its title
 element correctly

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..5ce3b42 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-- 
2.43.0


From a6c7a2e44e621b94e26efa2ae587291ec04374f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:01 +0000
Subject: [PATCH 12/49] fix: SupplProvisionAppdx writer uses its own element
 name

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 5ce3b42..7f40d44 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
-- 
2.43.0


From 3ef2fa838c2e65290afe93177e49f1417740bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 13/49] fix: Appdx and SupplProvisionAppdx writers write
 RelatedArticleNum under its own name

---
 src/appdx.rs           | 2 +-
 src/suppl_provision.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 7f40d44..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 30976ba60e4fb3c6c7ff1bf38a15154fadea053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:04 +0000
Subject: [PATCH 14/49] fix: TOC writer writes the preamble label as
 TOCPreambleLabel

---
 src/table_of_contents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..11262f9 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -90,7 +90,7 @@ impl ToXmlElement for TOC {
     }
     if let Some(label) = &self.toc_preamble_label {
       e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+        .push(XMLNode::Element(label.to_xml_element_with_name("TOCPreambleLabel")));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From 487bbc83e96a0dba2b61fa4a5b6a4de7d2668584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:05 +0000
Subject: [PATCH 15/49] fix: an Article element without paragraphs does not
 panic

---
 src/article.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..baec35f 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,9 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let Some(next) = children.next() else {
+          break;
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From bbfcbee7139c3d4d4fe1625c85c9e765d9727fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 16/49] fix: Sup and Sub keep their text when a comment stands
 in or before it

---
 src/text.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index a154f0b..e9e8fa8 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -332,15 +332,15 @@ impl Parser for Sup {
     if element.name.as_str() == "Sup" {
       let text = element
         .children
-        .first()
-        .and_then(|n| {
+        .iter()
+        .filter_map(|n| {
           if let XMLNode::Text(s) = n {
-            Some(s.clone())
+            Some(s.as_str())
           } else {
             None
           }
         })
-        .unwrap_or_default();
+        .collect::<String>();
       Ok(Sup { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sup"))
@@ -367,15 +367,15 @@ impl Parser for Sub {
     if element.name.as_str() == "Sub" {
       let text = element
         .children
-        .first()
-        .and_then(|n| {
+        .iter()
+        .filter_map(|n| {
           if let XMLNode::Text(s) = n {
-            Some(s.clone())
+            Some(s.as_str())
           } else {
             None
           }
         })
-        .unwrap_or_default();
+        .collect::<String>();
       Ok(Sub { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sub"))
-- 
2.43.0


From b7df394229fe98fa9138fec824af4989e2a2cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 17/49] fix: comments before the first child element do not
 fail the reading

---
 src/article.rs | 15 +++++----------
 src/law.rs     | 10 ++++------
 src/list.rs    |  8 ++++----
 3 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/article.rs b/src/article.rs
index baec35f..73e3f8f 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -52,8 +52,7 @@ impl Parser for Part {
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
-        .next()
-        .and_then(|n| {
+        .find_map(|n| {
           if let XMLNode::Element(e) = n {
             Some(e)
           } else {
@@ -170,8 +169,7 @@ impl Parser for Chapter {
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
-        .next()
-        .and_then(|n| {
+        .find_map(|n| {
           if let XMLNode::Element(e) = n {
             Some(e)
           } else {
@@ -288,8 +286,7 @@ impl Parser for Section {
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
-        .next()
-        .and_then(|n| {
+        .find_map(|n| {
           if let XMLNode::Element(e) = n {
             Some(e)
           } else {
@@ -414,8 +411,7 @@ impl Parser for Subsection {
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
-        .next()
-        .and_then(|n| {
+        .find_map(|n| {
           if let XMLNode::Element(e) = n {
             Some(e)
           } else {
@@ -534,8 +530,7 @@ impl Parser for Division {
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
-        .next()
-        .and_then(|n| {
+        .find_map(|n| {
           if let XMLNode::Element(e) = n {
             Some(e)
           } else {
diff --git a/src/law.rs b/src/law.rs
index b5c2ff2..45b7863 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -121,8 +121,7 @@ impl Parser for Law {
       };
       let mut children = element.children.iter();
       let law_num_element = children
-        .next()
-        .and_then(|n| {
+        .find_map(|n| {
           if let XMLNode::Element(e) = n {
             Some(e)
           } else {
@@ -150,8 +149,7 @@ impl Parser for Law {
         });
       };
       let law_body_element = children
-        .next()
-        .and_then(|n| {
+        .find_map(|n| {
           if let XMLNode::Element(e) = n {
             Some(e)
           } else {
@@ -654,8 +652,8 @@ impl Parser for AmendProvision {
             "AmendProvisionSentence" => {
               let n = e
                 .children
-                .first()
-                .and_then(|n| {
+                .iter()
+                .find_map(|n| {
                   if let XMLNode::Element(e) = n {
                     Some(e)
                   } else {
diff --git a/src/list.rs b/src/list.rs
index 5ddb1bd..92e66e2 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -26,7 +26,7 @@ impl Parser for List {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "List" {
       let mut children = element.children.iter();
-      let list_sentence = children.next();
+      let list_sentence = children.find(|node| node.as_element().is_some());
       let mut sentence = Vec::new();
       if let Some("ListSentence") = list_sentence.and_then(|node| {
         if let XMLNode::Element(e) = node {
@@ -109,7 +109,7 @@ impl Parser for Sublist1 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sublist1" {
       let mut children = element.children.iter();
-      let list_sentence = children.next();
+      let list_sentence = children.find(|node| node.as_element().is_some());
       let mut sentence = Vec::new();
       if let Some("Sublist1Sentence") = list_sentence.and_then(|node| {
         if let XMLNode::Element(e) = node {
@@ -186,7 +186,7 @@ impl Parser for Sublist2 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sublist2" {
       let mut children = element.children.iter();
-      let list_sentence = children.next();
+      let list_sentence = children.find(|node| node.as_element().is_some());
       let mut sentence = Vec::new();
       if let Some("Sublist2Sentence") = list_sentence.and_then(|node| {
         if let XMLNode::Element(e) = node {
@@ -262,7 +262,7 @@ impl Parser for Sublist3 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sublist3" {
       let mut children = element.children.iter();
-      let list_sentence = children.next();
+      let list_sentence = children.find(|node| node.as_element().is_some());
       let mut sentence = Vec::new();
       if let Some("Sublist3Sentence") = list_sentence.and_then(|node| {
         if let XMLNode::Element(e) = node {
-- 
2.43.0


From 97bcdcb6ee37bfd7f17242005615312838b9abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:21 +0000
Subject: [PATCH 18/49] fix: Preamble, TableRow and TableHeaderRow reject
 unknown child elements

---
 src/law.rs   | 2 ++
 src/table.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index 45b7863..1980131 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -531,6 +531,8 @@ impl Parser for Preamble {
           if e.name.as_str() == "Paragraph" {
             let v = Paragraph::parser(e)?;
             children.push(v)
+          } else {
+            return Err(Error::unexpected_tag(element, e.name.as_str()));
           }
         }
       }
diff --git a/src/table.rs b/src/table.rs
index b1cab15..14a6e5f 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -88,6 +88,8 @@ impl Parser for TableHeaderRow {
           if e.name.as_str() == "TableHeaderColumn" {
             let text = Text::from_children(&e.children);
             columns.push(text);
+          } else {
+            return Err(Error::unexpected_tag(element, e.name.as_str()));
           }
         }
       }
@@ -124,6 +126,8 @@ impl Parser for TableRow {
           if e.name.as_str() == "TableColumn" {
             let v = TableColumn::parser(e)?;
             columns.push(v);
+          } else {
+            return Err(Error::unexpected_tag(element, e.name.as_str()));
           }
         }
       }
-- 
2.43.0


From 79b55700a07703163ff616a59470f8fb3567c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:14 +0000
Subject: [PATCH 19/49] =?UTF-8?q?fix:=20parse=5Farticle=5Fnumber=20returns?=
 =?UTF-8?q?=20None=20instead=20of=20panicking=20on=20oversized=20numbers?=
 =?UTF-8?q?=20and=20=E3=83=8E=20branches?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/article_number.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index c77100c..07bf4d6 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -217,7 +217,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
@@ -249,7 +249,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
@@ -285,19 +285,13 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
     let eda_numbers = &caps["eda_str"]
-      .split('の')
+      .split(['の', 'ノ'])
       .filter(|s| !s.is_empty())
-      .map(|s| {
-        if let Ok(n) = s.parse::<usize>() {
-          n
-        } else {
-          parse_zenkaku_num(s).unwrap()
-        }
-      })
-      .collect::<Vec<usize>>();
+      .map(parse_zenkaku_num)
+      .collect::<Option<Vec<usize>>>()?;
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
-- 
2.43.0


From d19787b3b951f89d919746ed27871236095c5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:15 +0000
Subject: [PATCH 20/49] fix: parse_article_number keeps the branch numbers of a
 range end

---
 src/article_number.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 07bf4d6..7800562 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -260,7 +260,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
         .as_str()
-        .split('の')
+        .split(['の', 'ノ'])
         .filter(|s| !s.is_empty())
         .collect::<Vec<_>>();
       for s in eda_numbers_2.iter() {
@@ -300,6 +300,11 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         range_end_numbers.push(parse_zenkaku_num(m.as_str())?);
       }
     }
+    if let Some(m) = caps.name("eda_str_2") {
+      for s in m.as_str().split(['の', 'ノ']).filter(|s| !s.is_empty()) {
+        range_end_numbers.push(parse_zenkaku_num(s)?);
+      }
+    }
     Some(ArticleNumber {
       base_number,
       eda_numbers: eda_numbers.clone(),
-- 
2.43.0


From daf04da01cba0bbcd364034dc2ed34bcc1f4cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:50 +0000
Subject: [PATCH 21/49] fix: item labels that are no number are None instead of
 a panic

---
 src/article_number.rs | 56 +++++++++++++------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 7800562..534e6b4 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -438,74 +438,50 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
-      (
-        ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
-      (
-        ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (ParenKansuji, n as usize)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     }
     // 括弧なし
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
-      (
-        NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
-      (
-        NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (NoParenKansuji, n as usize)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else {
       unreachable!()
-- 
2.43.0


From 4729551a80643821122748ef3878a69e3b1767fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:51 +0000
Subject: [PATCH 22/49] fix: an iroha item number is one kana, so branches and
 ranges after it are read

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 534e6b4..f4274ad 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -434,7 +434,7 @@ impl ItemPattern {
 
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
-  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
+  let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン])|(?<paren_iroha_hiragana>[あ-ん])|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン])|(?<no_paren_iroha_hiragana>[あ-ん])|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
@@ -536,7 +536,7 @@ fn check_parse_article_number() {
 }
 
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
-  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
+  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
-- 
2.43.0


From 16960fd072ab23f0a2dcb8a2b4ae2dc4364920e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:52 +0000
Subject: [PATCH 23/49] fix: parse_item_number reads the end of a range

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index f4274ad..ab4fbfe 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -552,12 +552,12 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
+      if let Some(m) = &caps.name("base_number2") {
         if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
           range_end_numbers.push(base_number2);
         }
       }
-      if let Some(m) = &caps.name("eda_number_2") {
+      if let Some(m) = &caps.name("eda_numbers2") {
         let eda_numbers2 = &m
           .as_str()
           .split('の')
-- 
2.43.0


From adba30f39e8132811b00efefcd71376a9bc9cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:54 +0000
Subject: [PATCH 24/49] fix: full-width roman numerals with V are written and
 read

---
 src/article_number.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index ab4fbfe..adcb19d 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -833,14 +833,17 @@ fn parse_roman(str: &str) -> Option<usize> {
     &str
       .replace('i', "I")
       .replace('x', "X")
+      .replace('v', "V")
       .replace('l', "L")
       .replace('c', "C")
       .replace('ｉ', "I")
       .replace('ｘ', "X")
+      .replace('ｖ', "V")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
       .replace('Ｉ', "I")
       .replace('Ｘ', "X")
+      .replace('Ｖ', "V")
       .replace('Ｌ', "L")
       .replace('Ｃ', "C"),
   )
@@ -851,6 +854,7 @@ fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "Ｉ")
       .replace('X', "Ｘ")
+      .replace('V', "Ｖ")
       .replace('L', "Ｌ")
       .replace('C', "Ｃ")
   })
@@ -860,6 +864,7 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "ｉ")
       .replace('X', "ｘ")
+      .replace('V', "ｖ")
       .replace('L', "ｌ")
       .replace('C', "ｃ")
   })
-- 
2.43.0


From 8699ec06b71a7815592a4d4fc9287b04b7dbf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:55 +0000
Subject: [PATCH 25/49] fix: parenthesised roman item labels use the letter
 case of their style

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index adcb19d..a7fee93 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -390,10 +390,10 @@ impl ItemPattern {
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
         format!("（{}）", to_zenkaku_alphabet_upper(n))
-- 
2.43.0


From da527b0ebb2e3c502de9f1f8fbe622e17df0fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:56 +0000
Subject: [PATCH 26/49] fix: a letter label is roman only if all its letters
 are

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index a7fee93..5c95898 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -435,7 +435,7 @@ impl ItemPattern {
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
   let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン])|(?<paren_iroha_hiragana>[あ-ん])|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン])|(?<no_paren_iroha_hiragana>[あ-ん])|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
-  let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
+  let re_is_roman = Regex::new(r"^[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+$").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
       (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
-- 
2.43.0


From 9c6bbd38a08a264f0ccb9ff3966bc949f0acc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:20 +0000
Subject: [PATCH 27/49] =?UTF-8?q?fix:=20letter=20item=20labels=20are=20wri?=
 =?UTF-8?q?tten=20without=20a=20panic=20and=20beyond=20=EF=BD=9A?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/article_number.rs | 47 +++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 5c95898..9244a7d 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -870,42 +870,33 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   })
 }
 
+/// Ａ=1, ..., Ｚ=26, ＡＡ=27, ...
 fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
-  let s = str
-    .chars()
-    .map(|c| {
-      let v = c as u32;
-      let n =
+  str.chars().try_fold(0usize, |acc, c| {
+    let v = c as usize;
     // 大文字
-    if v < 0xFF41 {
-      v - 0xFF20
-    } else {
-      v - 0xFF40
-    };
-      n.to_string()
-    })
-    .collect::<String>();
-  s.parse::<usize>().ok()
+    let n = if v < 0xFF41 { v - 0xFF20 } else { v - 0xFF40 };
+    acc.checked_mul(26)?.checked_add(n)
+  })
+}
+
+fn to_zenkaku_alphabet(n: usize, first: char) -> String {
+  let mut n = n;
+  let mut s = Vec::new();
+  while n > 0 {
+    n -= 1;
+    s.extend(char::from_u32(first as u32 + (n % 26) as u32));
+    n /= 26;
+  }
+  s.iter().rev().collect()
 }
 
 fn to_zenkaku_alphabet_upper(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF20, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'Ａ')
 }
 
 fn to_zenkaku_alphabet_lower(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF40, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'ａ')
 }
 
 #[test]
-- 
2.43.0


From 2bd3b710b405daa5bbd358e50dd8c95a09fd92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:51 +0000
Subject: [PATCH 28/49] fix: article listings label an article with the numbers
 of the headings enclosing it

---
 src/utils.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..6582825 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -211,7 +211,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -219,7 +219,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
       }
       PartContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -227,16 +227,16 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
+fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in chapter.children.iter() {
     match contents {
       ChapterContents::Section(t) => {
         let mut v2 = article_list_from_section(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_chapter(Some(t.num.clone()));
+            w.set_chapter(Some(chapter.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -244,7 +244,7 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
       }
       ChapterContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_chapter(Some(t.num.clone()));
+        w.set_chapter(Some(chapter.num.clone()));
         v.push(w)
       }
     }
@@ -252,16 +252,16 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
+fn article_list_from_section(section: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in section.children.iter() {
     match contents {
       SectionContents::Subsection(t) => {
         let mut v2 = article_list_from_subsection(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -272,7 +272,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -280,7 +280,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
       }
       SectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_section(Some(t.num.clone()));
+        w.set_section(Some(section.num.clone()));
         v.push(w)
       }
     }
@@ -289,16 +289,16 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
+fn article_list_from_subsection(subsection: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in subsection.children.iter() {
     match contents {
       SubsectionContents::Division(t) => {
         let mut v2 = article_list_from_division(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_subsection(Some(t.num.clone()));
+            w.set_subsection(Some(subsection.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -306,7 +306,7 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
       }
       SubsectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_subsection(Some(t.num.clone()));
+        w.set_subsection(Some(subsection.num.clone()));
         v.push(w)
       }
     }
-- 
2.43.0


From 82a30e04a4a95b153a9e0dd38add78c8fd2e5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 29/49] fix: the article number of a contents entry is not
 stored as its division number

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6582825..19f4296 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From b3c220fcc61a1f92924916910c0805398bc23340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 30/49] fix: contents entries carry no number of a preceding
 sibling

---
 src/utils.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 19f4296..31844d5 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1029,12 +1029,13 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       PartContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       PartContents::Chapter(t) => {
-        let mut toc_list = toc_list_from_chapter(t, &mut toc);
+        let mut toc_list = toc_list_from_chapter(t, &mut toc.clone());
         v.append(&mut toc_list);
       }
     }
@@ -1051,9 +1052,10 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       ChapterContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       ChapterContents::Section(t) => {
         let mut toc_list = toc_list_from_section(t, &mut toc.clone());
@@ -1073,9 +1075,10 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SectionContents::Subsection(t) => {
         let mut toc_list = toc_list_from_subsection(t, &mut toc.clone());
@@ -1099,9 +1102,10 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SubsectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SubsectionContents::Division(t) => {
         let mut toc_list = toc_list_from_division(t, &mut toc.clone());
@@ -1119,6 +1123,7 @@ fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.division_title.to_string()));
   v.push(toc.clone());
   for t in t.children.iter() {
+    let mut toc = toc.clone();
     toc.set_article(Some(t.num.clone()));
     toc.set_title(Some(t.title.to_string()));
     v.push(toc.clone());
-- 
2.43.0


From 492c27fedff4d93021599cdadee5d5491faeab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:56 +0000
Subject: [PATCH 31/49] fix: the text listing keeps a table in a sixth level
 sub-item

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 31844d5..0c209fb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From 2ddc378578599cec6317e6d5263aa66db358cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:44 +0000
Subject: [PATCH 32/49] =?UTF-8?q?fix:=20parse=5Ftext=20goes=20on=20after?=
 =?UTF-8?q?=20a=20=E9=99=84=E5=89=87=20line=20instead=20of=20looping=20for?=
 =?UTF-8?q?=20ever?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parse_from_text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..80d7f79 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -808,6 +808,9 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         }
       }
       LineContents::SupplProvision(law_num) => {
+        lines.next();
+        is_preamble = false;
+        caption_opt = None;
         if let Some(amend_law_num) = suppl_provision_law_num_opt {
           if !suppl_provision_children.is_empty() {
             suppl_provision.push(suppl_provision::SupplProvision {
-- 
2.43.0


From 7af1829d8d72e9f93eb8d2243ddcee09177d01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 33/49] fix: a line is split after its number only where a
 space stands

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 9244a7d..5e26a60 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -493,7 +493,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
 }
 
 pub fn split_number(str: &str) -> Option<(String, String)> {
-  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]*(?<text>.+)$").unwrap();
+  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]+(?<text>.+)$").unwrap();
   re.captures(str).map(|caps| {
     let s = &caps["s"];
     let text = &caps["text"];
-- 
2.43.0


From 47e69a9aa8461087d6ab6a74d8a743b7473087d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 34/49] =?UTF-8?q?fix:=20=E9=99=84=E3=80=80=E5=89=87=20with?=
 =?UTF-8?q?=20a=20space=20in=20it=20is=20a=20supplementary=20provision,=20?=
 =?UTF-8?q?not=20a=20plain=20line?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parse_from_text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 80d7f79..b1fb001 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -947,6 +947,9 @@ fn parse_line_contents(line: &str) -> LineContents {
     Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    SupplProvision(law_num)
   } else if let Some((s, text)) = split_number(line) {
     println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
@@ -971,9 +974,6 @@ fn parse_line_contents(line: &str) -> LineContents {
       println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From 346fb8da7a75a6715e985ed1d6afe1af467f86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 35/49] =?UTF-8?q?fix:=20a=20plain=20line=20outside=20the?=
 =?UTF-8?q?=20preamble=20does=20not=20loop=20for=20ever:=20it=20is=20the?=
 =?UTF-8?q?=20paragraph=20of=20its=20=E9=99=84=E5=89=87=20or=20an=20error?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parse_from_text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index b1fb001..da7c447 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -805,6 +805,14 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         if is_preamble {
           preamble_text_list.push(s.to_string());
           lines.next();
+        } else if suppl_provision_law_num_opt.is_some() && suppl_provision_children.is_empty() {
+          // 附則が項番号の無い一つの項だけからなる場合
+          lines.next();
+          let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), s, &mut lines);
+          suppl_provision_children
+            .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(para));
+        } else {
+          return Err(Error::ParsingError("text".to_string(), s.to_string()));
         }
       }
       LineContents::SupplProvision(law_num) => {
-- 
2.43.0


From cd7a6b640349b085c7a55f2352a1efaadd35d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 36/49] fix: paragraphs outside articles are kept and a line
 without a place is an error, not the end of the law

---
 src/parse_from_text.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index da7c447..4a6e62a 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -755,6 +755,18 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = lines.iter().peekable();
 
   while let Some(line_contents) = lines.peek() {
+    // 章や条に属さない項を置くことができる場所かどうか
+    let is_lone_paragraph = if suppl_provision_law_num_opt.is_some() {
+      matches!(
+        suppl_provision_children.last(),
+        None | Some(suppl_provision::SupplProvisionChildrenElement::Paragraph(_))
+      )
+    } else {
+      matches!(
+        main_provision_children.last(),
+        None | Some(law::MainProvisionContents::Paragraph(_))
+      )
+    };
     match line_contents {
       LineContents::Part(n, text) => {
         lines.next();
@@ -801,6 +813,18 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
+      LineContents::Paragraph(n, text) if is_lone_paragraph => {
+        lines.next();
+        let para = parse_paragraph(n, text, &mut lines);
+        if suppl_provision_law_num_opt.is_some() {
+          suppl_provision_children
+            .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(para))
+        } else {
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
+        }
+        caption_opt = None;
+        is_preamble = false;
+      }
       LineContents::Text(s) => {
         if is_preamble {
           preamble_text_list.push(s.to_string());
@@ -833,7 +857,13 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         suppl_provision_law_num_opt = Some(law_num.clone());
         suppl_provision_children = Vec::new();
       }
-      _ => break,
+      // どこにも属することができない行
+      other => {
+        return Err(Error::ParsingError(
+          "text".to_string(),
+          format!("{other:?}"),
+        ))
+      }
     }
   }
 
-- 
2.43.0


From 11ff33195fa8eba3c77bab3541156c67e9aa4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 37/49] =?UTF-8?q?fix:=20a=20part=20or=20section=20after=20?=
 =?UTF-8?q?=E9=99=84=E5=89=87=20is=20an=20error=20instead=20of=20being=20m?=
 =?UTF-8?q?oved=20to=20the=20main=20provision?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parse_from_text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 4a6e62a..f7907c4 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -768,7 +768,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       )
     };
     match line_contents {
-      LineContents::Part(n, text) => {
+      LineContents::Part(n, text) if suppl_provision_law_num_opt.is_none() => {
         lines.next();
         let part = parse_part(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Part(part));
@@ -788,7 +788,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Section(n, text) => {
+      LineContents::Section(n, text) if suppl_provision_law_num_opt.is_none() => {
         lines.next();
         let sec = parse_section(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Section(sec));
-- 
2.43.0


From 8e9ce6f3c442e3aff9db16e0302f687f9f178303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 38/49] fix: a division directly under a section is kept

---
 src/parse_from_text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index f7907c4..01d0631 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -115,6 +115,12 @@ fn parse_section(
         children.push(article::SectionContents::Subsection(subsec));
         caption_opt = None;
       }
+      Some(LineContents::Division(n, title)) => {
+        lines.next();
+        let div = parse_division(n, title, lines);
+        children.push(article::SectionContents::Division(div));
+        caption_opt = None;
+      }
       _ => break,
     }
   }
-- 
2.43.0


From cbcd3a3dd0d3bb1bbdf94f349de3696257da6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 39/49] fix: a parenthesised line that no article or paragraph
 follows is kept as a plain line

---
 src/parse_from_text.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 01d0631..f105a34 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -750,6 +750,17 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
+  // 条や項の直前に無い括弧書きは見出しではなくただのテキスト
+  for i in 0..lines.len() {
+    if let LineContents::Caption(cap) = &lines[i] {
+      if !matches!(
+        lines.get(i + 1),
+        Some(LineContents::Article(_, _) | LineContents::Paragraph(_, _))
+      ) {
+        lines[i] = LineContents::Text(format!("（{cap}）"));
+      }
+    }
+  }
   let mut preamble_text_list: Vec<String> = Vec::new();
   let mut is_preamble = true;
   let mut main_provision_children = Vec::new();
-- 
2.43.0


From 2732a8cf33c08acf3b0b2b054e2b7827d925b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 40/49] fix: the caption of a paragraph is kept

---
 src/parse_from_text.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index f105a34..ed6e1eb 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -215,16 +215,31 @@ fn parse_article(
   text: &str,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> article::Article {
-  let caption = caption_opt.map(|s| class::Caption {
-    text: text::Text::from_value(s),
-    common_caption: None,
-  });
+  let caption = caption_opt.map(text_to_caption);
   let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), text, lines);
   let mut paragraph = vec![para];
-  while let Some(LineContents::Paragraph(n, text)) = lines.peek() {
-    lines.next();
-    let para = parse_paragraph(n, text, lines);
-    paragraph.push(para)
+  loop {
+    match lines.peek() {
+      Some(LineContents::Paragraph(n, text)) => {
+        lines.next();
+        let para = parse_paragraph(n, text, lines);
+        paragraph.push(para)
+      }
+      Some(LineContents::Caption(cap)) => {
+        // 項の見出し
+        let mut next_lines = lines.clone();
+        next_lines.next();
+        if let Some(LineContents::Paragraph(n, text)) = next_lines.next() {
+          *lines = next_lines;
+          let mut para = parse_paragraph(n, text, lines);
+          para.caption = Some(text_to_caption(cap));
+          paragraph.push(para)
+        } else {
+          break;
+        }
+      }
+      _ => break,
+    }
   }
   let article = article::Article {
     caption,
@@ -734,6 +749,13 @@ fn parse_subitem10(
   v
 }
 
+fn text_to_caption(text: &String) -> class::Caption {
+  class::Caption {
+    text: text::Text::from_value(text),
+    common_caption: None,
+  }
+}
+
 fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
   sentence::Sentence {
     contents: vec![sentence::SentenceElement::String(text.to_string())],
@@ -832,7 +854,8 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       }
       LineContents::Paragraph(n, text) if is_lone_paragraph => {
         lines.next();
-        let para = parse_paragraph(n, text, &mut lines);
+        let mut para = parse_paragraph(n, text, &mut lines);
+        para.caption = caption_opt.map(text_to_caption);
         if suppl_provision_law_num_opt.is_some() {
           suppl_provision_children
             .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(para))
-- 
2.43.0


From 8b173a877da8809ca4cd9e507cb9bd6e948ff9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 41/49] fix: an item in the style of an outer level goes back
 to that level instead of panicking

---
 src/parse_from_text.rs | 113 +++++++++++++++++++++++------------------
 1 file changed, 64 insertions(+), 49 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index ed6e1eb..0164cda 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -270,7 +270,12 @@ fn parse_paragraph(
     .collect::<Vec<_>>();
 
   let mut children = Vec::new();
+  let mut pattern = None;
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
+    if *pattern.get_or_insert(item_number.pattern) != item_number.pattern {
+      // 号の階層として表すことができない深さ
+      break;
+    }
     lines.next();
     let mut sentence_text = vec![text];
     while let Some(LineContents::Text(s)) = lines.peek() {
@@ -280,7 +285,7 @@ fn parse_paragraph(
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
       if item_number_sub1.pattern != item_number.pattern {
-        subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
+        subitem1 = parse_subitem1(&[item_number.pattern], item_number_sub1.pattern, lines);
       }
     }
     let item = paragraph::Item {
@@ -317,13 +322,13 @@ fn parse_paragraph(
 }
 
 fn parse_subitem1(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem1> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -334,8 +339,8 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem2 = parse_subitem2(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem1 {
@@ -354,20 +359,21 @@ fn parse_subitem1(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem2(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem2> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -378,8 +384,8 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem3 = parse_subitem3(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem2 {
@@ -398,20 +404,21 @@ fn parse_subitem2(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem3(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem3> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -422,8 +429,8 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem4 = parse_subitem4(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem3 {
@@ -442,20 +449,21 @@ fn parse_subitem3(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem4(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem4> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -466,8 +474,8 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem5 = parse_subitem5(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem4 {
@@ -486,20 +494,21 @@ fn parse_subitem4(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem5(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem5> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -510,8 +519,8 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem6 = parse_subitem6(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem5 {
@@ -530,20 +539,21 @@ fn parse_subitem5(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem6(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem6> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -554,8 +564,8 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem7 = parse_subitem7(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem6 {
@@ -574,20 +584,21 @@ fn parse_subitem6(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem7(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem7> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -598,8 +609,8 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem8 = parse_subitem8(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem7 {
@@ -618,20 +629,21 @@ fn parse_subitem7(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem8(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem8> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -642,8 +654,8 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem9 = parse_subitem9(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem8 {
@@ -662,20 +674,21 @@ fn parse_subitem8(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem9(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem9> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -686,8 +699,8 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem10 = parse_subitem10(&[parent_patterns, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem9 {
@@ -706,20 +719,21 @@ fn parse_subitem9(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
 }
 
 fn parse_subitem10(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -743,7 +757,8 @@ fn parse_subitem10(
         hide: false,
       })
     } else {
-      unreachable!()
+      // 号の階層として表すことができない深さ
+      break;
     }
   }
   v
-- 
2.43.0


From ff7b14734ac2a14856a27f105257a22bca201963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 42/49] fix: parse_text reports a date that does not exist or
 precedes Meiji as an error

---
 src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 47cc6ab..222ae59 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,13 +83,19 @@ pub fn parse_text(
   law_num: String,
   title: &str,
 ) -> Result<law::Law> {
+  let date_error = || {
+    result::Error::ParsingError(
+      "date".to_string(),
+      format!("{year}-{}-{}", month.unwrap_or(1), day.unwrap_or(1)),
+    )
+  };
   let date = Date::from_ymd(
-    year as i32,
-    month.unwrap_or(1) as u32,
-    day.unwrap_or(1) as u32,
+    i32::try_from(year).map_err(|_| date_error())?,
+    u32::try_from(month.unwrap_or(1)).map_err(|_| date_error())?,
+    u32::try_from(day.unwrap_or(1)).map_err(|_| date_error())?,
   )
-  .unwrap();
-  let e = era(&date).unwrap();
+  .map_err(|_| date_error())?;
+  let e = era(&date).ok_or_else(date_error)?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
     "大正" => law::Era::Taisho,
-- 
2.43.0


From 2f92e0aac94f253147418bca969a85abee3b6d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 43/49] fix: an item label with a branch or range end that is
 no number is None, not the rest of it

---
 src/article_number.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 5e26a60..3907533 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -544,28 +544,23 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         m.as_str()
           .split('の')
           .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>()
+          .map(|s| parse_item_number_base(s).map(|(_, n)| n))
+          .collect::<Option<Vec<_>>>()?
       } else {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
       if let Some(m) = &caps.name("base_number2") {
-        if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
-          range_end_numbers.push(base_number2);
-        }
+        let (_, base_number2) = parse_item_number_base(m.as_str())?;
+        range_end_numbers.push(base_number2);
       }
       if let Some(m) = &caps.name("eda_numbers2") {
         let eda_numbers2 = &m
           .as_str()
           .split('の')
           .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>();
+          .map(|s| parse_item_number_base(s).map(|(_, n)| n))
+          .collect::<Option<Vec<_>>>()?;
         for v in eda_numbers2.iter() {
           range_end_numbers.push(*v)
         }
-- 
2.43.0


From 90ac4ef2b5bec27b1e2c8ebf97627179ac4f61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:16 +0000
Subject: [PATCH 44/49] fix: an unreadable Remarks in a NoteStruct,
 StyleStruct, FormatStruct, FigStruct or TableStruct is an error, not dropped

---
 src/structs.rs | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 49713ed..c20ac56 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -83,12 +83,11 @@ impl Parser for NoteStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if note.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  note_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if note.is_none() {
+                title_remarks.push(r);
+              } else {
+                note_remarks.push(r);
               }
             }
             "Note" => {
@@ -159,12 +158,11 @@ impl Parser for StyleStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if style.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  style_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if style.is_none() {
+                title_remarks.push(r);
+              } else {
+                style_remarks.push(r);
               }
             }
             "Style" => {
@@ -235,12 +233,11 @@ impl Parser for FormatStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if format.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  format_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if format.is_none() {
+                title_remarks.push(r);
+              } else {
+                format_remarks.push(r);
               }
             }
             "Format" => {
@@ -311,12 +308,11 @@ impl Parser for FigStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if fig.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  fig_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if fig.is_none() {
+                title_remarks.push(r);
+              } else {
+                fig_remarks.push(r);
               }
             }
             "Fig" => {
@@ -387,12 +383,11 @@ impl Parser for TableStruct {
               title = Some(v);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if table.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  table_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if table.is_none() {
+                title_remarks.push(r);
+              } else {
+                table_remarks.push(r);
               }
             }
             "Table" => {
-- 
2.43.0


From d36b5dd26244be330801d228a5ab15600f3dd7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:17 +0000
Subject: [PATCH 45/49] fix: Sublist3 rejects child elements after its sentence

---
 src/list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index 92e66e2..98482e4 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -291,6 +291,11 @@ impl Parser for Sublist3 {
       } else {
         return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
       }
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Sublist3::new(sentence))
     } else {
       Err(Error::wrong_tag_name(element, "Sublist3"))
-- 
2.43.0


From 67ec495feac5eb594470488981fd5f207985ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:19 +0000
Subject: [PATCH 46/49] fix: Law rejects child elements after its LawBody

---
 src/law.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index 1980131..0f3203f 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -158,6 +158,11 @@ impl Parser for Law {
         })
         .ok_or(Error::missing_required_tag("LawBody"))?;
       let law_body = LawBody::parser(law_body_element)?;
+      for n in children {
+        if let XMLNode::Element(e) = n {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Law {
         era,
         year,
-- 
2.43.0


From faa02fb98dd57757f3a012a9b697228f8e481aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:23 +0000
Subject: [PATCH 47/49] fix: a sentence container with sentences, columns and
 tables mixed, or two tables, is an error instead of losing all but one kind

---
 src/class.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/class.rs b/src/class.rs
index cf7a79a..8d24413 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -129,6 +129,9 @@ impl SentenceOrColumnOrTable {
           }
           "Table" => {
             let v = Table::parser(e)?;
+            if sentence_opt.is_some() {
+              return Err(Error::unexpected_tag(element, "Table"));
+            }
             sentence_opt = Some(SentenceOrColumnOrTable::Table(v));
           }
           s => return Err(Error::unexpected_tag(element, s)),
@@ -136,9 +139,15 @@ impl SentenceOrColumnOrTable {
       }
     }
     if !sentence_list.is_empty() {
+      if sentence_opt.is_some() {
+        return Err(Error::unexpected_tag(element, "Table"));
+      }
       sentence_opt = Some(SentenceOrColumnOrTable::Sentence(sentence_list.clone()));
     }
     if !column_list.is_empty() {
+      if sentence_opt.is_some() {
+        return Err(Error::unexpected_tag(element, "Column"));
+      }
       sentence_opt = Some(SentenceOrColumnOrTable::Column(column_list.clone()));
     }
     if let Some(sentence) = sentence_opt {
-- 
2.43.0


From 87a8700b8316b0e3888b301890bf5bde8c769ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:22 +0000
Subject: [PATCH 48/49] fix: Fig rejects child elements

---
 src/fig.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fig.rs b/src/fig.rs
index 2e70b33..9e94b42 100644
--- a/src/fig.rs
+++ b/src/fig.rs
@@ -4,7 +4,7 @@ use crate::parser::*;
 use crate::to_xml::*;
 use crate::*;
 use serde::{Deserialize, Serialize};
-use xmltree::Element;
+use xmltree::{Element, XMLNode};
 
 #[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]
 pub struct Fig {
@@ -21,6 +21,11 @@ impl Parser for Fig {
         attribute_name: "src".to_string(),
       })?
       .clone();
+    for node in element.children.iter() {
+      if let XMLNode::Element(e) = node {
+        return Err(result::Error::unexpected_tag(element, &e.name));
+      }
+    }
     Ok(Fig { src })
   }
 }
-- 
2.43.0


From 2a162ee9db91ebb6761df8fb6298041fab3e7d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:32 +0000
Subject: [PATCH 49/49] fix: AmendProvisionSentence rejects child elements that
 are no Sentence

---
 src/law.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index 0f3203f..642e497 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -668,6 +668,13 @@ impl Parser for AmendProvision {
                   }
                 })
                 .ok_or(Error::missing_required_tag("AmendProvision"))?;
+              for node in e.children.iter() {
+                if let XMLNode::Element(n) = node {
+                  if n.name.as_str() != "Sentence" {
+                    return Err(Error::unexpected_tag(e, &n.name));
+                  }
+                }
+              }
               let v = Sentence::parser(n)?;
               sentence = Some(v)
             }
-- 
2.43.0

