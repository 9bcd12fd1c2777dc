From 5f4bb36d72fb4cd029974185e137fcbdfcb2440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 01/51] fix: do not panic on an article without paragraphs

---
 src/article.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..11ec962 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,10 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let next = match children.next() {
+          Some(next) => next,
+          None => break,
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From 704dfe0f5ab052ea24bb1dca531e039f8b1668b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 02/51] fix: report a missing law number instead of panicking

---
 src/law.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..2c0fd06 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,11 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
+      let num_str = get_attribute(element, "Num")?;
       let num = if num_str.is_empty() {
         None
       } else {
-        Some(ArticleNumber::from_str(num_str)?)
+        Some(ArticleNumber::from_str(&num_str)?)
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
-- 
2.43.0


From 35b34792dbde3701142fe425f62ee5d385b4b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 03/51] fix: write an empty Num for a law without a number so
 it reads back

---
 src/law.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 2c0fd06..4aea255 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -206,9 +206,9 @@ impl ToXmlElement for Law {
     }
     e.attributes
       .insert("Year".to_string(), self.year.to_string());
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if let Some(n) = &self.promulgate_month {
       e.attributes
         .insert("PromulgateMonth".to_string(), n.to_string());
-- 
2.43.0


From 2683ae6efee1c44c52ac5a5c45ce03d29a62f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:17 +0000
Subject: [PATCH 04/51] fix: write new provisions under their own tag

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index 4aea255..e4aafef 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -892,7 +892,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From 2646d4490f1d35581be9c45d9fa07da8a7180f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:18 +0000
Subject: [PATCH 05/51] fix: read the double line style as double

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..0191e5c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,7 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
       _ => None,
     }
   }
-- 
2.43.0


From a32738800d7d8650e751d7a7209b442d73c1ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 06/51] fix: write the label of remarks

---
 src/remarks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..3ce447c 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,8 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children
+      .push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From 483f677e44ddfbb881817a8a7385d3734f81bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 07/51] fix: correct the tag of a supplementary appendix
 table's title

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..5ce3b42 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-- 
2.43.0


From e1b7345d9beebb995de78cd9861bd53cdacf0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:47 +0000
Subject: [PATCH 08/51] fix: write a supplementary appendix under its own tag

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 5ce3b42..7f40d44 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
-- 
2.43.0


From 532029b60bc8578504aac5f5cdd9ffd0dca2d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 09/51] fix: write related article numbers of appendices under
 their own tag

---
 src/appdx.rs           | 2 +-
 src/suppl_provision.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 7f40d44..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 697ef1a271109edfc12480f2b21a6eac74a43c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:50 +0000
Subject: [PATCH 10/51] fix: write alignment of table cells under its own
 attributes

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From c54a7197b334ab842f2fd5f06d6687941eae36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:51 +0000
Subject: [PATCH 11/51] fix: write the number of a formula

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..0c9625b 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(num) = self.num {
+      e.attributes.insert("Num".to_string(), num.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From 2d4766424291926bbe2906e8b02af0e359862ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 12/51] fix: report broken remarks of tables, figures, styles,
 formats and notes

---
 src/structs.rs | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 49713ed..c20ac56 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -83,12 +83,11 @@ impl Parser for NoteStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if note.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  note_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if note.is_none() {
+                title_remarks.push(r);
+              } else {
+                note_remarks.push(r);
               }
             }
             "Note" => {
@@ -159,12 +158,11 @@ impl Parser for StyleStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if style.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  style_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if style.is_none() {
+                title_remarks.push(r);
+              } else {
+                style_remarks.push(r);
               }
             }
             "Style" => {
@@ -235,12 +233,11 @@ impl Parser for FormatStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if format.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  format_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if format.is_none() {
+                title_remarks.push(r);
+              } else {
+                format_remarks.push(r);
               }
             }
             "Format" => {
@@ -311,12 +308,11 @@ impl Parser for FigStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if fig.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  fig_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if fig.is_none() {
+                title_remarks.push(r);
+              } else {
+                fig_remarks.push(r);
               }
             }
             "Fig" => {
@@ -387,12 +383,11 @@ impl Parser for TableStruct {
               title = Some(v);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if table.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  table_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if table.is_none() {
+                title_remarks.push(r);
+              } else {
+                table_remarks.push(r);
               }
             }
             "Table" => {
-- 
2.43.0


From 6189d9af1ae22ef9b114091e49655b0f2f7aace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 13/51] fix: keep an item whose number is not numeric readable
 after writing

---
 src/paragraph.rs | 66 ++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..2df825d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -289,9 +289,9 @@ impl ToXmlElement for Item {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -433,9 +433,9 @@ impl ToXmlElement for Subitem1 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -577,9 +577,9 @@ impl ToXmlElement for Subitem2 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -721,9 +721,9 @@ impl ToXmlElement for Subitem3 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -865,9 +865,9 @@ impl ToXmlElement for Subitem4 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1009,9 +1009,9 @@ impl ToXmlElement for Subitem5 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1153,9 +1153,9 @@ impl ToXmlElement for Subitem6 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1297,9 +1297,9 @@ impl ToXmlElement for Subitem7 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1441,9 +1441,9 @@ impl ToXmlElement for Subitem8 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1585,9 +1585,9 @@ impl ToXmlElement for Subitem9 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1717,9 +1717,9 @@ impl ToXmlElement for Subitem10 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
-- 
2.43.0


From cbfd4230678bcbd391f82a13afbf5219f377a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:03 +0000
Subject: [PATCH 14/51] fix: write the preamble label of a table of contents
 under its own tag

---
 src/table_of_contents.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..9fffb87 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -89,8 +89,9 @@ impl ToXmlElement for TOC {
         .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
     }
     if let Some(label) = &self.toc_preamble_label {
-      e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+      e.children.push(XMLNode::Element(
+        label.to_xml_element_with_name("TOCPreambleLabel"),
+      ));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From 15f6f05bae9c4a2f36985268b94c05bf87ee36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 15/51] fix: report broken or unknown elements inside texts
 instead of dropping them

---
 src/appdx.rs             | 26 +++++++++++++++++++-------
 src/article.rs           | 14 +++++++-------
 src/class.rs             |  4 ++--
 src/law.rs               | 30 ++++++++++++++++++------------
 src/paragraph.rs         | 24 ++++++++++++------------
 src/remarks.rs           |  2 +-
 src/structs.rs           |  8 ++++----
 src/suppl_provision.rs   | 10 +++++-----
 src/table.rs             |  2 +-
 src/table_of_contents.rs | 32 ++++++++++++++++----------------
 src/text.rs              | 20 +++++++++++++++++++-
 11 files changed, 104 insertions(+), 68 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index d739d31..807fc8c 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -36,7 +36,9 @@ impl Parser for AppdxTable {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxTableContents::TableStruct(v))
@@ -125,7 +127,9 @@ impl Parser for AppdxNote {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxNoteContents::TableStruct(v))
@@ -220,7 +224,9 @@ impl Parser for AppdxStyle {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "StyleStruct" => {
               let v = StyleStruct::parser(e)?;
               children.push(v)
@@ -296,7 +302,9 @@ impl Parser for AppdxFormat {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "FormatStruct" => {
               let v = FormatStruct::parser(e)?;
               children.push(v)
@@ -365,8 +373,10 @@ impl Parser for Appdx {
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
-            "ArithFormulaNum" => arith_formula_num = Some(Text::from_children(&e.children)),
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "ArithFormulaNum" => arith_formula_num = Some(Text::try_from_children(&e.children)?),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "ArithFormula" => {
               let v = ArithFormula::parser(e)?;
               arith_formula.push(v)
@@ -436,7 +446,9 @@ impl Parser for AppdxFig {
               let v = TextWithWritingMode::parser(e)?;
               title = Some(v)
             }
-            "RelatedArticleNum" => related_article_num = Some(Text::from_children(&e.children)),
+            "RelatedArticleNum" => {
+              related_article_num = Some(Text::try_from_children(&e.children)?)
+            }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
               children.push(AppdxFigContents::TableStruct(v))
diff --git a/src/article.rs b/src/article.rs
index 11ec962..30c93b1 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -63,7 +63,7 @@ impl Parser for Part {
         .ok_or(Error::missing_required_tag("PartTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "PartTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -181,7 +181,7 @@ impl Parser for Chapter {
         .ok_or(Error::missing_required_tag("ChapterTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "ChapterTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -299,7 +299,7 @@ impl Parser for Section {
         .ok_or(Error::missing_required_tag("SectionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "SectionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -425,7 +425,7 @@ impl Parser for Subsection {
         .ok_or(Error::missing_required_tag("SubsectionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "SubsectionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -545,7 +545,7 @@ impl Parser for Division {
         .ok_or(Error::missing_required_tag("DivisionTitle"))?;
       let title_element_name = title_element.name.clone();
       let title = if "DivisionTitle" == title_element_name.as_str() {
-        Text::from_children(&title_element.children)
+        Text::try_from_children(&title_element.children)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: title_element_name,
@@ -662,7 +662,7 @@ impl Parser for Article {
               caption = Some(v);
             }
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -677,7 +677,7 @@ impl Parser for Article {
               let v = Paragraph::parser(e)?;
               paragraph.push(v);
             }
-            "SupplNote" => suppl_note = Some(Text::from_children(&e.children)),
+            "SupplNote" => suppl_note = Some(Text::try_from_children(&e.children)?),
 
             s => return Err(Error::unexpected_tag(element, s)),
           }
diff --git a/src/class.rs b/src/class.rs
index cf7a79a..518c1ba 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -31,7 +31,7 @@ impl Parser for Class {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ClassTitle" => {
-              class_title = Some(Text::from_children(&e.children));
+              class_title = Some(Text::try_from_children(&e.children)?);
             }
             "ClassSentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -168,7 +168,7 @@ impl Caption {
 
 impl Parser for Caption {
   fn parser(element: &Element) -> Result<Self> {
-    let text = text::Text::from_children(&element.children);
+    let text = text::Text::try_from_children(&element.children)?;
     let common_caption = get_attribute_opt_with_parse::<bool>(element, "CommonCaption")?;
     Ok(Caption::new(text, common_caption))
   }
diff --git a/src/law.rs b/src/law.rs
index e4aafef..225cbb1 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -354,7 +354,7 @@ impl Parser for LawBody {
               let v = LawTitle::parser(e)?;
               law_title = Some(v);
             }
-            "EnactStatement" => enact_statement.push(Text::from_children(&e.children)),
+            "EnactStatement" => enact_statement.push(Text::try_from_children(&e.children)?),
             "TOC" => {
               let v = TOC::parser(e)?;
               toc = Some(v);
@@ -490,7 +490,7 @@ impl Parser for LawTitle {
       let kana = get_attribute_opt_with_parse(element, "Kana")?;
       let abbrev = get_attribute_opt_with_parse(element, "Abbrev")?;
       let abbrev_kana = get_attribute_opt_with_parse(element, "AbbrevKana")?;
-      let text = Text::from_children(&element.children);
+      let text = Text::try_from_children(&element.children)?;
       Ok(LawTitle {
         kana,
         abbrev,
@@ -689,48 +689,54 @@ impl Parser for AmendProvision {
                       new_provision.push(NewProvision::Part(v));
                     }
                     "PartTitle" => {
-                      new_provision.push(NewProvision::PartTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::PartTitle(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Chapter" => {
                       let v = Chapter::parser(e)?;
                       new_provision.push(NewProvision::Chapter(v));
                     }
                     "ChapterTitle" => {
-                      new_provision
-                        .push(NewProvision::ChapterTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::ChapterTitle(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Section" => {
                       let v = Section::parser(e)?;
                       new_provision.push(NewProvision::Section(v));
                     }
                     "SectionTitle" => {
-                      new_provision
-                        .push(NewProvision::SectionTitle(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::SectionTitle(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Subsection" => {
                       let v = Subsection::parser(e)?;
                       new_provision.push(NewProvision::Subsection(v));
                     }
                     "SubsectionTitle" => {
-                      new_provision.push(NewProvision::SubsectionTitle(Text::from_children(
+                      new_provision.push(NewProvision::SubsectionTitle(Text::try_from_children(
                         &e.children,
-                      )));
+                      )?));
                     }
                     "Division" => {
                       let v = Division::parser(e)?;
                       new_provision.push(NewProvision::Division(v));
                     }
                     "DivisionTitle" => {
-                      new_provision.push(NewProvision::DivisionTitle(Text::from_children(
+                      new_provision.push(NewProvision::DivisionTitle(Text::try_from_children(
                         &e.children,
-                      )));
+                      )?));
                     }
                     "Article" => {
                       let v = Article::parser(e)?;
                       new_provision.push(NewProvision::Article(v));
                     }
                     "SupplNote" => {
-                      new_provision.push(NewProvision::SupplNote(Text::from_children(&e.children)));
+                      new_provision.push(NewProvision::SupplNote(Text::try_from_children(
+                        &e.children,
+                      )?));
                     }
                     "Paragraph" => {
                       let v = Paragraph::parser(e)?;
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 2df825d..5824c99 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -51,7 +51,7 @@ impl Parser for Paragraph {
               caption = Some(v);
             }
             "ParagraphNum" => {
-              paragraph_num = Text::from_children(&e.children);
+              paragraph_num = Text::try_from_children(&e.children)?;
             }
             "ParagraphSentence" => {
               for node in e.children.iter() {
@@ -208,7 +208,7 @@ impl Parser for Item {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ItemTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "ItemSentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -352,7 +352,7 @@ impl Parser for Subitem1 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem1Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem1Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -496,7 +496,7 @@ impl Parser for Subitem2 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem2Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem2Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -640,7 +640,7 @@ impl Parser for Subitem3 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem3Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem3Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -784,7 +784,7 @@ impl Parser for Subitem4 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem4Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem4Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -928,7 +928,7 @@ impl Parser for Subitem5 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem5Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem5Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1072,7 +1072,7 @@ impl Parser for Subitem6 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem6Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem6Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1216,7 +1216,7 @@ impl Parser for Subitem7 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem7Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem7Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1360,7 +1360,7 @@ impl Parser for Subitem8 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem8Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem8Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1504,7 +1504,7 @@ impl Parser for Subitem9 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem9Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem9Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
@@ -1644,7 +1644,7 @@ impl Parser for Subitem10 {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "Subitem10Title" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Subitem10Sentence" => {
               let v = SentenceOrColumnOrTable::from_element(e)?;
diff --git a/src/remarks.rs b/src/remarks.rs
index 3ce447c..214bf2f 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -82,7 +82,7 @@ impl Parser for RemarksLabel {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "RemarksLabel" {
       let line_break = get_attribute_opt_with_parse(element, "LineBreak")?.unwrap_or(false);
-      let text = Text::from_children(&element.children);
+      let text = Text::try_from_children(&element.children)?;
       Ok(RemarksLabel { text, line_break })
     } else {
       Err(Error::wrong_tag_name(element, "RemarksLabel"))
diff --git a/src/structs.rs b/src/structs.rs
index c20ac56..4307051 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -80,7 +80,7 @@ impl Parser for NoteStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "NoteStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
@@ -155,7 +155,7 @@ impl Parser for StyleStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "StyleStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
@@ -230,7 +230,7 @@ impl Parser for FormatStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "FormatStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
@@ -305,7 +305,7 @@ impl Parser for FigStruct {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "FigStructTitle" => {
-              title = Some(Text::from_children(&e.children));
+              title = Some(Text::try_from_children(&e.children)?);
             }
             "Remarks" => {
               let r = Remarks::parser(e)?;
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index a013743..67c3f7f 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -44,7 +44,7 @@ impl Parser for SupplProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SupplProvisionLabel" => {
-              label = Text::from_children(&e.children);
+              label = Text::try_from_children(&e.children)?;
             }
             "Chapter" => {
               let v = Chapter::parser(e)?;
@@ -176,7 +176,7 @@ impl Parser for SupplProvisionAppdxTable {
               title = Some(v);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::try_from_children(&e.children)?);
             }
             "TableStruct" => {
               let v = TableStruct::parser(e)?;
@@ -250,7 +250,7 @@ impl Parser for SupplProvisionAppdxStyle {
               title = Some(v);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::try_from_children(&e.children)?);
             }
             "StyleStruct" => {
               let v = StyleStruct::parser(e)?;
@@ -320,10 +320,10 @@ impl Parser for SupplProvisionAppdx {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ArithFormulaNum" => {
-              arith_formula_num = Some(Text::from_children(&e.children));
+              arith_formula_num = Some(Text::try_from_children(&e.children)?);
             }
             "RelatedArticleNum" => {
-              related_article_num = Some(Text::from_children(&e.children));
+              related_article_num = Some(Text::try_from_children(&e.children)?);
             }
             "ArithFormula" => {
               let v = ArithFormula::parser(e)?;
diff --git a/src/table.rs b/src/table.rs
index b1cab15..9dd1dd2 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -86,7 +86,7 @@ impl Parser for TableHeaderRow {
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           if e.name.as_str() == "TableHeaderColumn" {
-            let text = Text::from_children(&e.children);
+            let text = Text::try_from_children(&e.children)?;
             columns.push(text);
           }
         }
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 9fffb87..ff10f72 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -36,10 +36,10 @@ impl Parser for TOC {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "TOCLabel" => {
-              label = Some(Text::from_children(&e.children));
+              label = Some(Text::try_from_children(&e.children)?);
             }
             "TOCPreambleLabel" => {
-              preamble_label = Some(Text::from_children(&e.children));
+              preamble_label = Some(Text::try_from_children(&e.children)?);
             }
             "TOCPart" => {
               let v = TOCPart::parser(e)?;
@@ -62,7 +62,7 @@ impl Parser for TOC {
               suppl_provision = Some(v);
             }
             "TOCAppdxTableLabel" => {
-              appdx_table_lable.push(Text::from_children(&e.children));
+              appdx_table_lable.push(Text::try_from_children(&e.children)?);
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -152,10 +152,10 @@ impl Parser for TOCPart {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "PartTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCChapter" => {
               let v = TOCChapter::parser(e)?;
@@ -228,10 +228,10 @@ impl Parser for TOCChapter {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ChapterTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCSection" => {
               let v = TOCSection::parser(e)?;
@@ -304,10 +304,10 @@ impl Parser for TOCSection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCSubsection" => {
               let v = TOCSubsection::parser(e)?;
@@ -398,10 +398,10 @@ impl Parser for TOCSubsection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SubsectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCDivision" => {
               let v = TOCDivision::parser(e)?;
@@ -473,10 +473,10 @@ impl Parser for TOCDivision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "DivisionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              article_range = Some(Text::from_children(&e.children));
+              article_range = Some(Text::try_from_children(&e.children)?);
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -540,7 +540,7 @@ impl Parser for TOCArticle {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Text::try_from_children(&e.children)?;
             }
             "ArticleCaption" => {
               let v = Caption::parser(e)?;
@@ -609,10 +609,10 @@ impl Parser for TOCSupplProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SupplProvisionLabel" => {
-              label = Text::from_children(&e.children);
+              label = Text::try_from_children(&e.children)?;
             }
             "ArticleRange" => {
-              range = Some(Text::from_children(&e.children));
+              range = Some(Text::try_from_children(&e.children)?);
             }
             "TOCArticle" => {
               let v = TOCArticle::parser(e)?;
diff --git a/src/text.rs b/src/text.rs
index a154f0b..2d1ed2f 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -56,6 +56,24 @@ impl Text {
     }
     text
   }
+  /// Node列からの生成 解釈できない要素がある場合はエラーを返す
+  pub(crate) fn try_from_children(children: &[XMLNode]) -> result::Result<Self> {
+    let mut text = Text::new();
+    for node in children {
+      if let XMLNode::Element(element) = node {
+        match element.name.as_str() {
+          "Ruby" => text.add_ruby(Ruby::parser(element)?),
+          "Line" => text.add_line(Line::parser(element)?),
+          "Sup" => text.add_sup(Sup::parser(element)?),
+          "Sub" => text.add_sub(Sub::parser(element)?),
+          s => return Err(Error::unexpected_tag(element, s)),
+        }
+      } else if let XMLNode::Text(s) = node {
+        text.add_string(s)
+      }
+    }
+    Ok(text)
+  }
 
   /// 値から
   pub fn from_value<T: ToString>(t: T) -> Self {
@@ -191,7 +209,7 @@ pub struct TextWithWritingMode {
 impl Parser for TextWithWritingMode {
   fn parser(element: &Element) -> result::Result<Self> {
     let writing_mode = element.attributes.get("WritingMode").map(|s| s.as_str());
-    let text = Text::from_children(&element.children);
+    let text = Text::try_from_children(&element.children)?;
     match writing_mode {
       Some("vertical") => Ok(TextWithWritingMode {
         contents: text.contents,
-- 
2.43.0


From 3d95b4faee52ee116e22cadbff88785155833db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:35 +0000
Subject: [PATCH 16/51] fix: report elements inside plain texts (ruby, sup,
 sub, law number) instead of dropping them

---
 src/law.rs  | 12 +-----------
 src/text.rs | 52 ++++++++++++++++++----------------------------------
 2 files changed, 19 insertions(+), 45 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 225cbb1..1c6216f 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -134,17 +134,7 @@ impl Parser for Law {
         .ok_or(Error::missing_required_tag("LawNum"))?;
       let law_num_element_tag_name = law_num_element.name.clone();
       let law_num = if law_num_element_tag_name == "LawNum" {
-        law_num_element
-          .children
-          .iter()
-          .map(|n| {
-            if let XMLNode::Text(s) = n {
-              s.clone()
-            } else {
-              String::new()
-            }
-          })
-          .collect::<String>()
+        plain_text(law_num_element)?
       } else {
         return Err(Error::UnexpectedTag {
           wrong_name: law_num_element_tag_name,
diff --git a/src/text.rs b/src/text.rs
index 2d1ed2f..692f4ea 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -274,6 +274,19 @@ pub enum TextElement {
   Text(String),
 }
 
+/// 文字列だけからなる要素の中身を取り出す
+pub(crate) fn plain_text(element: &Element) -> result::Result<String> {
+  let mut s = String::new();
+  for node in element.children.iter() {
+    match node {
+      XMLNode::Text(t) => s.push_str(t),
+      XMLNode::Element(e) => return Err(Error::unexpected_tag(e, element.name.as_str())),
+      _ => (),
+    }
+  }
+  Ok(s)
+}
+
 /// ルビ
 #[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]
 pub struct Ruby {
@@ -301,18 +314,9 @@ impl Parser for Ruby {
       for children_node in children.iter() {
         if let XMLNode::Element(element) = children_node {
           if "Rt" == element.name.as_str() {
-            let s = element
-              .children
-              .iter()
-              .map(|n| {
-                if let XMLNode::Text(s) = n {
-                  s.clone()
-                } else {
-                  String::new()
-                }
-              })
-              .collect::<String>();
-            ruby = Some(s)
+            ruby = Some(plain_text(element)?)
+          } else {
+            return Err(Error::unexpected_tag(element, "Ruby"));
           }
         } else if let XMLNode::Text(s) = children_node {
           text.add_string(s)
@@ -348,17 +352,7 @@ pub struct Sup {
 impl Parser for Sup {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sup" {
-      let text = element
-        .children
-        .first()
-        .and_then(|n| {
-          if let XMLNode::Text(s) = n {
-            Some(s.clone())
-          } else {
-            None
-          }
-        })
-        .unwrap_or_default();
+      let text = plain_text(element)?;
       Ok(Sup { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sup"))
@@ -383,17 +377,7 @@ pub struct Sub {
 impl Parser for Sub {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Sub" {
-      let text = element
-        .children
-        .first()
-        .and_then(|n| {
-          if let XMLNode::Text(s) = n {
-            Some(s.clone())
-          } else {
-            None
-          }
-        })
-        .unwrap_or_default();
+      let text = plain_text(element)?;
       Ok(Sub { text })
     } else {
       Err(Error::wrong_tag_name(element, "Sub"))
-- 
2.43.0


From 4492b27416479b37a51a9c0fdf1e3a28371de83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:37 +0000
Subject: [PATCH 17/51] fix: report unknown elements that were silently dropped

---
 src/fig.rs   |  3 +++
 src/law.rs   | 21 +++++++++++----------
 src/list.rs  |  3 +++
 src/table.rs |  4 ++++
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/fig.rs b/src/fig.rs
index 2e70b33..ea8bfea 100644
--- a/src/fig.rs
+++ b/src/fig.rs
@@ -21,6 +21,9 @@ impl Parser for Fig {
         attribute_name: "src".to_string(),
       })?
       .clone();
+    if let Some(e) = element.children.iter().find_map(|n| n.as_element()) {
+      return Err(result::Error::unexpected_tag(e, "Fig"));
+    }
     Ok(Fig { src })
   }
 }
diff --git a/src/law.rs b/src/law.rs
index 1c6216f..3e7912c 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -152,6 +152,9 @@ impl Parser for Law {
         })
         .ok_or(Error::missing_required_tag("LawBody"))?;
       let law_body = LawBody::parser(law_body_element)?;
+      if let Some(e) = children.find_map(|n| n.as_element()) {
+        return Err(Error::unexpected_tag(e, "Law"));
+      }
       Ok(Law {
         era,
         year,
@@ -525,6 +528,8 @@ impl Parser for Preamble {
           if e.name.as_str() == "Paragraph" {
             let v = Paragraph::parser(e)?;
             children.push(v)
+          } else {
+            return Err(Error::unexpected_tag(e, "Preamble"));
           }
         }
       }
@@ -644,18 +649,14 @@ impl Parser for AmendProvision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "AmendProvisionSentence" => {
-              let n = e
-                .children
-                .first()
-                .and_then(|n| {
-                  if let XMLNode::Element(e) = n {
-                    Some(e)
-                  } else {
-                    None
-                  }
-                })
+              let mut sentences = e.children.iter().filter_map(|n| n.as_element());
+              let n = sentences
+                .next()
                 .ok_or(Error::missing_required_tag("AmendProvision"))?;
               let v = Sentence::parser(n)?;
+              for n in sentences {
+                Sentence::parser(n)?;
+              }
               sentence = Some(v)
             }
             "NewProvision" => {
diff --git a/src/list.rs b/src/list.rs
index 5ddb1bd..95be79e 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -291,6 +291,9 @@ impl Parser for Sublist3 {
       } else {
         return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
       }
+      if let Some(e) = children.find_map(|n| n.as_element()) {
+        return Err(Error::unexpected_tag(e, "Sublist3"));
+      }
       Ok(Sublist3::new(sentence))
     } else {
       Err(Error::wrong_tag_name(element, "Sublist3"))
diff --git a/src/table.rs b/src/table.rs
index 9dd1dd2..56857d2 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -88,6 +88,8 @@ impl Parser for TableHeaderRow {
           if e.name.as_str() == "TableHeaderColumn" {
             let text = Text::try_from_children(&e.children)?;
             columns.push(text);
+          } else {
+            return Err(Error::unexpected_tag(e, "TableHeaderRow"));
           }
         }
       }
@@ -124,6 +126,8 @@ impl Parser for TableRow {
           if e.name.as_str() == "TableColumn" {
             let v = TableColumn::parser(e)?;
             columns.push(v);
+          } else {
+            return Err(Error::unexpected_tag(e, "TableRow"));
           }
         }
       }
-- 
2.43.0


From 9be84eef82728c761981c150ee832b79575f3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 18/51] fix: comments, processing instructions and CDATA no
 longer change or break the parsed law

---
 src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63925fa..7152251 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,15 +49,35 @@ use koyomi::{era, Date};
 use result::*;
 use std::io::{Read, Write};
 use to_xml::ToXmlElement;
-use xmltree::Element;
+use xmltree::{Element, XMLNode};
 
 /// XML文字列を法律の構造体に変換する
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
-  let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  normalize_nodes(&mut element);
   let law = law::Law::parser(&element)?;
   Ok(law)
 }
 
+/// コメントと処理命令を取り除き、隣り合う文字列とCDATAを一つの文字列にまとめる
+fn normalize_nodes(element: &mut Element) {
+  let mut children = Vec::with_capacity(element.children.len());
+  for node in std::mem::take(&mut element.children) {
+    match node {
+      XMLNode::Element(mut e) => {
+        normalize_nodes(&mut e);
+        children.push(XMLNode::Element(e));
+      }
+      XMLNode::Text(s) | XMLNode::CData(s) => match children.last_mut() {
+        Some(XMLNode::Text(t)) => t.push_str(&s),
+        _ => children.push(XMLNode::Text(s)),
+      },
+      XMLNode::Comment(_) | XMLNode::ProcessingInstruction(_, _) => (),
+    }
+  }
+  element.children = children;
+}
+
 /// ファイルのパスから法律の構造体に変換する
 pub fn parse_xml_file(path: &str) -> Result<law::Law> {
   let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;
-- 
2.43.0


From 80cb380e3a409008a9131e5a7d1062070bf34479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:02 +0000
Subject: [PATCH 19/51] fix: write the end of a number range exactly once

---
 src/article_number.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..f4e7a71 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,15 +25,14 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
+    }
+    let mut l = self.range_end_numbers.iter();
+    if let Some(n) = l.next() {
+      s.push(':');
+      s.push_str(&n.to_string());
+      for n in l {
+        s.push('_');
+        s.push_str(&n.to_string());
       }
     }
     s
-- 
2.43.0


From fa2dc01839e223498050841ccfdf175f6038205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 20/51] fix: reject a number with more than one range mark

---
 src/article_number.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index f4e7a71..adf5d79 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -74,6 +74,12 @@ impl ArticleNumber {
           }
         }
       }
+      if let Some(s) = num_s_lst.next() {
+        return Err(Error::ParsingError(
+          "ArticleNumber".to_string(),
+          s.to_string(),
+        ));
+      }
       Ok(ArticleNumber {
         base_number,
         eda_numbers,
-- 
2.43.0


From 137327ab3756247ae4f47acd0446dd72da59a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:43 +0000
Subject: [PATCH 21/51] fix: keep the base text of a ruby in one piece so it
 reads back equal

---
 src/text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 692f4ea..37af36c 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -319,7 +319,10 @@ impl Parser for Ruby {
             return Err(Error::unexpected_tag(element, "Ruby"));
           }
         } else if let XMLNode::Text(s) = children_node {
-          text.add_string(s)
+          match text.contents.last_mut() {
+            Some(TextElement::Text(t)) => t.push_str(s),
+            _ => text.add_string(s),
+          }
         }
       }
       let r = ruby.unwrap_or_default();
-- 
2.43.0


From 9e0840ba6fc9a849e80b435d430569bca05ed119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 22/51] fix: read an article number only from a text that is
 one as a whole

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index adf5d79..0f0efa3 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -214,9 +214,9 @@ impl FromStr for ArticleNumber {
 }
 
 pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
-  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?").unwrap();
+  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?$").unwrap();
   let re_paragraph = Regex::new(
-    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?",
+    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?$",
   )
   .unwrap();
   if let Some(caps) = re_article.captures(str) {
-- 
2.43.0


From eab5b37976c7fa43e49e8569ae65b2a527ade86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:32 +0000
Subject: [PATCH 23/51] =?UTF-8?q?fix:=20keep=20branch=20numbers=20written?=
 =?UTF-8?q?=20with=20=E3=83=8E=20and=20those=20of=20a=20range=20end?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/article_number.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 0f0efa3..d265174 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -265,7 +265,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
         .as_str()
-        .split('の')
+        .split(['の', 'ノ'])
         .filter(|s| !s.is_empty())
         .collect::<Vec<_>>();
       for s in eda_numbers_2.iter() {
@@ -290,19 +290,13 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
-    let eda_numbers = &caps["eda_str"]
-      .split('の')
+    let eda_numbers = caps["eda_str"]
+      .split(['の', 'ノ'])
       .filter(|s| !s.is_empty())
-      .map(|s| {
-        if let Ok(n) = s.parse::<usize>() {
-          n
-        } else {
-          parse_zenkaku_num(s).unwrap()
-        }
-      })
-      .collect::<Vec<usize>>();
+      .map(parse_zenkaku_num)
+      .collect::<Option<Vec<usize>>>()?;
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
@@ -311,9 +305,14 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         range_end_numbers.push(parse_zenkaku_num(m.as_str())?);
       }
     }
+    if let Some(m) = caps.name("eda_str_2") {
+      for s in m.as_str().split(['の', 'ノ']).filter(|s| !s.is_empty()) {
+        range_end_numbers.push(parse_zenkaku_num(s)?);
+      }
+    }
     Some(ArticleNumber {
       base_number,
-      eda_numbers: eda_numbers.clone(),
+      eda_numbers,
       range_end_numbers,
     })
   } else {
-- 
2.43.0


From 201299e123ccd6fd339c48bbec45fadb73ad8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:34 +0000
Subject: [PATCH 24/51] fix: no panic on an article number too large to hold

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index d265174..d04ceb0 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -222,7 +222,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
@@ -254,7 +254,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
-- 
2.43.0


From 37b7de1edb5c19426864e0acb1f7356817d2dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:37 +0000
Subject: [PATCH 25/51] fix: kanji digits without places are not a number

---
 src/article_number.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index d04ceb0..de8a85d 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -226,9 +226,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
-      let kansuji = Kansuji::try_from(kansuji.as_str()).ok()?;
-      let n: u128 = kansuji.into();
-      n as usize
+      parse_kansuji(kansuji.as_str())?
     } else {
       return None;
     };
@@ -243,9 +241,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
       } else if let Some(n) = parse_zenkaku_num(s) {
         eda_numbers.push(n)
       } else {
-        let kansuji = Kansuji::try_from(s).ok()?;
-        let n: u128 = kansuji.into();
-        eda_numbers.push(n as usize)
+        eda_numbers.push(parse_kansuji(s)?)
       }
     }
     let mut num_str = base_number.to_string();
@@ -258,9 +254,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
-      let kansuji = Kansuji::try_from(kansuji.as_str()).ok()?;
-      let n: u128 = kansuji.into();
-      range_end_numbers.push(n as usize)
+      range_end_numbers.push(parse_kansuji(kansuji.as_str())?)
     };
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
@@ -274,9 +268,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         } else if let Some(n) = parse_zenkaku_num(s) {
           range_end_numbers.push(n);
         } else {
-          let kansuji = Kansuji::try_from(*s).ok()?;
-          let n: u128 = kansuji.into();
-          range_end_numbers.push(n as usize);
+          range_end_numbers.push(parse_kansuji(s)?);
         }
       }
     }
@@ -453,9 +445,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
         parse_iroha_hiragana(s.as_str()).unwrap(),
       )
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
-      let n: u128 = kansuji.into();
-      (ParenKansuji, n as usize)
+      (ParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
       (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
@@ -489,9 +479,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
         parse_iroha_hiragana(s.as_str()).unwrap(),
       )
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
-      let n: u128 = kansuji.into();
-      (NoParenKansuji, n as usize)
+      (NoParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
       (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
@@ -615,6 +603,19 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   }
 }
 
+/// 漢数字を読む。「一二」のように位取りの正しくないものは数として扱わない。
+fn parse_kansuji(str: &str) -> Option<usize> {
+  let re = Regex::new(
+    r"^([一二三四五六七八九]?千)?([一二三四五六七八九]?百)?([一二三四五六七八九]?十)?[一二三四五六七八九]?$",
+  )
+  .unwrap();
+  if str.is_empty() || !re.is_match(str) {
+    return None;
+  }
+  let n: u128 = Kansuji::try_from(str).ok()?.into();
+  Some(n as usize)
+}
+
 fn parse_zenkaku_num(str: &str) -> Option<usize> {
   str
     .replace('０', "0")
-- 
2.43.0


From 060bbc582923baf7e3adfbb991be088a74f50896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:39 +0000
Subject: [PATCH 26/51] fix: an item number that names no number is absent, not
 a panic

---
 src/article_number.rs | 52 ++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index de8a85d..a68f4c7 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -435,70 +435,46 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
-      (
-        ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
-      (
-        ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_kansuji") {
       (ParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     }
     // 括弧なし
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
-      (
-        NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
-      (
-        NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_kansuji") {
       (NoParenKansuji, parse_kansuji(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else {
       unreachable!()
-- 
2.43.0


From 2baac5fa903768602882c923030e29b857104826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:33 +0000
Subject: [PATCH 27/51] fix: do not write debug output to stdout while parsing

---
 src/article_number.rs  | 2 --
 src/parse_from_text.rs | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index a68f4c7..85d67b1 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -531,7 +531,6 @@ fn check_parse_article_number() {
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
-    println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
         m.as_str()
@@ -574,7 +573,6 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
       None
     }
   } else {
-    println!("err!!");
     None
   }
 }
diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..89377dc 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -945,7 +945,6 @@ fn parse_line_contents(line: &str) -> LineContents {
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
   } else if let Some((s, text)) = split_number(line) {
-    println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
         Part(article_number, text)
@@ -965,7 +964,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else if let Some(item_number) = article_number::parse_item_number(&s) {
       Item(item_number, text)
     } else {
-      println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
   } else if let Some(caps) = re_suppl_provision.captures(line) {
-- 
2.43.0


From f38d064222b4fc7786807a52fb70d42c70278f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:36 +0000
Subject: [PATCH 28/51] fix: keep the range of an item number

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 85d67b1..5542d25 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -544,12 +544,12 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
+      if let Some(m) = &caps.name("base_number2") {
         if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
           range_end_numbers.push(base_number2);
         }
       }
-      if let Some(m) = &caps.name("eda_number_2") {
+      if let Some(m) = &caps.name("eda_numbers2") {
         let eda_numbers2 = &m
           .as_str()
           .split('の')
-- 
2.43.0


From 3f40f1ec984afab9567e62fd85cbf5214ba1fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 29/51] fix: read branch numbers of hiragana item numbers, and
 none of them silently dropped

---
 src/article_number.rs | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 5542d25..b2569dc 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -528,39 +528,31 @@ fn check_parse_article_number() {
   }
 }
 
+/// 「のロのハ」のような枝番号の並びを読む。「の」自身もいろはの文字であるため、「の」と番号の組で区切る。
+fn parse_item_eda_numbers(str: &str) -> Option<Vec<usize>> {
+  let re_eda = Regex::new(r"の(?<number>（[^）]+）|[ア-ン]|[あ-ん]|[一二三四五六七八九十百千]+|[０-９]+|[Ａ-Ｚ]+|[ａ-ｚ]+)").unwrap();
+  re_eda
+    .captures_iter(str)
+    .map(|caps| parse_item_number_base(&caps["number"]).map(|(_, n)| n))
+    .collect()
+}
+
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
-  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
+  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
-        m.as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>()
+        parse_item_eda_numbers(m.as_str())?
       } else {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
       if let Some(m) = &caps.name("base_number2") {
-        if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
-          range_end_numbers.push(base_number2);
-        }
+        let (_, base_number2) = parse_item_number_base(m.as_str())?;
+        range_end_numbers.push(base_number2);
       }
       if let Some(m) = &caps.name("eda_numbers2") {
-        let eda_numbers2 = &m
-          .as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>();
-        for v in eda_numbers2.iter() {
-          range_end_numbers.push(*v)
-        }
+        range_end_numbers.extend(parse_item_eda_numbers(m.as_str())?);
       }
       Some(ItemNumber {
         str: str.to_string(),
-- 
2.43.0


From 9ad259386440918e8d4632ea0522db86aa45842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 30/51] fix: read roman item numbers with V, and letters that
 are no roman numeral as letters

---
 src/article_number.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index b2569dc..c30d780 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -432,7 +432,8 @@ impl ItemPattern {
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
   let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
-  let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
+  // ローマ数字として読めないものと、一文字の「Ｃ」や「Ｌ」は英字の番号とみなす
+  let is_roman = |s: &str| parse_roman(s).is_some() && !["Ｃ", "ｃ", "Ｌ", "ｌ"].contains(&s);
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
       (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
@@ -443,13 +444,13 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
       (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
         (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
         (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
@@ -465,13 +466,13 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
       (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
         (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
-      if re_is_roman.is_match(s.as_str()) {
+      if is_roman(s.as_str()) {
         (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
         (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
@@ -828,14 +829,17 @@ fn parse_roman(str: &str) -> Option<usize> {
   roman::from(
     &str
       .replace('i', "I")
+      .replace('v', "V")
       .replace('x', "X")
       .replace('l', "L")
       .replace('c', "C")
       .replace('ｉ', "I")
+      .replace('ｖ', "V")
       .replace('ｘ', "X")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
       .replace('Ｉ', "I")
+      .replace('Ｖ', "V")
       .replace('Ｘ', "X")
       .replace('Ｌ', "L")
       .replace('Ｃ', "C"),
-- 
2.43.0


From 6de4c2a8bb802df0d5326cd9be91d5204762aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:43 +0000
Subject: [PATCH 31/51] fix: write roman item numbers in the case of their
 pattern, with full-width V

---
 src/article_number.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index c30d780..9facc1e 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -387,10 +387,10 @@ impl ItemPattern {
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
         format!("（{}）", to_zenkaku_alphabet_upper(n))
@@ -850,6 +850,7 @@ fn parse_roman(str: &str) -> Option<usize> {
 fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "Ｉ")
+      .replace('V', "Ｖ")
       .replace('X', "Ｘ")
       .replace('L', "Ｌ")
       .replace('C', "Ｃ")
@@ -859,6 +860,7 @@ fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
 fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "ｉ")
+      .replace('V', "ｖ")
       .replace('X', "ｘ")
       .replace('L', "ｌ")
       .replace('C', "ｃ")
-- 
2.43.0


From 98cb42873b3378315b35945900fddb18c525cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:46 +0000
Subject: [PATCH 32/51] fix: write and read item numbers in letters

---
 src/article_number.rs | 49 +++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 9facc1e..a74997e 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -867,42 +867,35 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   })
 }
 
+/// Ａ、Ｂ、……、Ｚ、ＡＡ、ＡＢ、……の順に番号を数える
 fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
-  let s = str
-    .chars()
-    .map(|c| {
-      let v = c as u32;
-      let n =
-    // 大文字
-    if v < 0xFF41 {
-      v - 0xFF20
-    } else {
-      v - 0xFF40
+  str.chars().try_fold(0_usize, |n, c| {
+    let v = match c {
+      'Ａ'..='Ｚ' => c as usize - 0xFF20,
+      'ａ'..='ｚ' => c as usize - 0xFF40,
+      _ => return None,
     };
-      n.to_string()
-    })
-    .collect::<String>();
-  s.parse::<usize>().ok()
+    n.checked_mul(26)?.checked_add(v)
+  })
+}
+
+fn to_zenkaku_alphabet(n: usize, first: char) -> String {
+  let mut n = n;
+  let mut chars = Vec::new();
+  while n > 0 {
+    let v = (n - 1) % 26;
+    chars.extend(char::from_u32(first as u32 + v as u32));
+    n = (n - 1) / 26;
+  }
+  chars.iter().rev().collect()
 }
 
 fn to_zenkaku_alphabet_upper(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF20, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'Ａ')
 }
 
 fn to_zenkaku_alphabet_lower(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF40, 10).unwrap()
-    })
-    .collect::<String>()
+  to_zenkaku_alphabet(n, 'ａ')
 }
 
 #[test]
-- 
2.43.0


From 65a260cbb1c1b4336af1841b8b56bb245d45f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:18 +0000
Subject: [PATCH 33/51] fix: an invalid or pre-Meiji promulgation date is an
 error, not a panic

---
 src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7152251..34ed3ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,13 +100,14 @@ pub fn parse_text(
   law_num: String,
   title: &str,
 ) -> Result<law::Law> {
+  let date_error = || Error::ParsingError("Date".to_string(), format!("{year}-{month:?}-{day:?}"));
   let date = Date::from_ymd(
-    year as i32,
-    month.unwrap_or(1) as u32,
-    day.unwrap_or(1) as u32,
+    i32::try_from(year).map_err(|_| date_error())?,
+    u32::try_from(month.unwrap_or(1)).map_err(|_| date_error())?,
+    u32::try_from(day.unwrap_or(1)).map_err(|_| date_error())?,
   )
-  .unwrap();
-  let e = era(&date).unwrap();
+  .map_err(|_| date_error())?;
+  let e = era(&date).ok_or_else(date_error)?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
     "大正" => law::Era::Taisho,
-- 
2.43.0


From d3783c13dd589cc9449384c954d2c1d4f5878e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:20 +0000
Subject: [PATCH 34/51] fix: store the year in its era when parsing text, as
 XML does

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 34ed3ec..73e477a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,8 @@ pub fn parse_text(
   let body = parse_from_text::parse_body(title, text)?;
   Ok(law::Law {
     era,
-    year,
+    // 西暦ではなく元号での年を持つ
+    year: e.year() as usize,
     num,
     promulgate_month: month,
     promulgate_day: day,
-- 
2.43.0


From 3c8ce8ce061c180ea3406adbd8f87e27ab2a68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:22 +0000
Subject: [PATCH 35/51] fix: blank lines of a law text are not sentences

---
 src/parse_from_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 89377dc..44f1cfe 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -740,7 +740,7 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
 
 pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = Vec::new();
-  for line in text.lines().map(|s| s.trim()) {
+  for line in text.lines().map(|s| s.trim()).filter(|s| !s.is_empty()) {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
-- 
2.43.0


From a4211181b604f55bf42b392c11e2c267778d10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:24 +0000
Subject: [PATCH 36/51] fix: a leading number is separated from its text by a
 space

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index a74997e..676434f 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -487,7 +487,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
 }
 
 pub fn split_number(str: &str) -> Option<(String, String)> {
-  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]*(?<text>.+)$").unwrap();
+  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]+(?<text>.+)$").unwrap();
   re.captures(str).map(|caps| {
     let s = &caps["s"];
     let text = &caps["text"];
-- 
2.43.0


From 99cf8073ae6db0ca1e5e3d3ce20ae0cb475f4406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:26 +0000
Subject: [PATCH 37/51] fix: recognise the heading of a supplementary
 provision, and go on after it

---
 src/parse_from_text.rs | 60 ++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 44f1cfe..86c21b7 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -749,7 +749,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut main_provision_children = Vec::new();
   let mut suppl_provision = Vec::new();
   let mut suppl_provision_children = Vec::new();
-  let mut suppl_provision_law_num_opt: Option<Option<String>> = None;
+  let mut suppl_provision_heading_opt: Option<(Option<String>, bool)> = None;
 
   let mut caption_opt = None;
   let mut lines = lines.iter().peekable();
@@ -766,7 +766,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Chapter(n, text) => {
         lines.next();
         let chap = parse_chapter(n, text, &mut lines);
-        if suppl_provision_law_num_opt.is_some() {
+        if suppl_provision_heading_opt.is_some() {
           suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Chapter(
             chap,
           ))
@@ -791,7 +791,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Article(n, text) => {
         lines.next();
         let article = parse_article(caption_opt, n, text, &mut lines);
-        if suppl_provision_law_num_opt.is_some() {
+        if suppl_provision_heading_opt.is_some() {
           suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Article(
             article,
           ))
@@ -807,20 +807,20 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
           lines.next();
         }
       }
-      LineContents::SupplProvision(law_num) => {
-        if let Some(amend_law_num) = suppl_provision_law_num_opt {
-          if !suppl_provision_children.is_empty() {
-            suppl_provision.push(suppl_provision::SupplProvision {
-              label: text::Text::from_value("附則"),
-              children: suppl_provision_children,
-              suppl_provision_type: None,
-              amend_law_num,
-              extract: None,
-            })
-          }
+      LineContents::SupplProvision(law_num, extract) => {
+        lines.next();
+        if let Some((amend_law_num, extract)) = suppl_provision_heading_opt {
+          suppl_provision.push(suppl_provision::SupplProvision {
+            label: text::Text::from_value("附則"),
+            children: suppl_provision_children,
+            suppl_provision_type: None,
+            amend_law_num,
+            extract: extract.then_some(true),
+          })
         }
-        suppl_provision_law_num_opt = Some(law_num.clone());
+        suppl_provision_heading_opt = Some((law_num.clone(), *extract));
         suppl_provision_children = Vec::new();
+        is_preamble = false;
       }
       _ => break,
     }
@@ -863,16 +863,14 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
     extract: None,
   };
 
-  if let Some(amend_law_num) = suppl_provision_law_num_opt {
-    if !suppl_provision_children.is_empty() {
-      suppl_provision.push(suppl_provision::SupplProvision {
-        label: text::Text::from_value("附則"),
-        children: suppl_provision_children,
-        suppl_provision_type: None,
-        amend_law_num,
-        extract: None,
-      })
-    }
+  if let Some((amend_law_num, extract)) = suppl_provision_heading_opt {
+    suppl_provision.push(suppl_provision::SupplProvision {
+      label: text::Text::from_value("附則"),
+      children: suppl_provision_children,
+      suppl_provision_type: None,
+      amend_law_num,
+      extract: extract.then_some(true),
+    })
   }
 
   let law_title = law::LawTitle {
@@ -930,8 +928,8 @@ enum LineContents {
   /// - <https://elaws.e-gov.go.jp/document?lawid=403M50000400049#Mp-At_9>
   /// - <https://note.com/lawyer_alpaca/n/ne09c189e813b#Gcaq9>
   Item(article_number::ItemNumber, String),
-  /// 附則：附則（昭和三一年四月二日法律第六三号）
-  SupplProvision(Option<String>),
+  /// 附則：附則（昭和三一年四月二日法律第六三号）　抄
+  SupplProvision(Option<String>, bool),
   /// その他テキスト
   Text(String),
 }
@@ -941,9 +939,12 @@ fn parse_line_contents(line: &str) -> LineContents {
   let line = line.trim();
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
-    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
+    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?([　\s]*)(?<extract>抄)?$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    SupplProvision(law_num, caps.name("extract").is_some())
   } else if let Some((s, text)) = split_number(line) {
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
@@ -966,9 +967,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else {
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From f5170d3bc56ae885ac575ee3ca353c439e34b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:28 +0000
Subject: [PATCH 38/51] fix: return from sub-items to any enclosing notation
 instead of panicking

---
 src/parse_from_text.rs | 121 ++++++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 69 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 86c21b7..42a0754 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -249,7 +249,11 @@ fn parse_paragraph(
     .collect::<Vec<_>>();
 
   let mut children = Vec::new();
+  let mut item_pattern = None;
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
+    if *item_pattern.get_or_insert(item_number.pattern) != item_number.pattern {
+      break;
+    }
     lines.next();
     let mut sentence_text = vec![text];
     while let Some(LineContents::Text(s)) = lines.peek() {
@@ -259,7 +263,7 @@ fn parse_paragraph(
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
       if item_number_sub1.pattern != item_number.pattern {
-        subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
+        subitem1 = parse_subitem1(&[item_number.pattern], item_number_sub1.pattern, lines);
       }
     }
     let item = paragraph::Item {
@@ -296,15 +300,13 @@ fn parse_paragraph(
 }
 
 fn parse_subitem1(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem1> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -313,8 +315,8 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem2 = parse_subitem2(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem1 {
@@ -333,22 +335,20 @@ fn parse_subitem1(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem2(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem2> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -357,8 +357,8 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem3 = parse_subitem3(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem2 {
@@ -377,22 +377,20 @@ fn parse_subitem2(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem3(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem3> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -401,8 +399,8 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem4 = parse_subitem4(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem3 {
@@ -421,22 +419,20 @@ fn parse_subitem3(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem4(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem4> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -445,8 +441,8 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem5 = parse_subitem5(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem4 {
@@ -465,22 +461,20 @@ fn parse_subitem4(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem5(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem5> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -489,8 +483,8 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem6 = parse_subitem6(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem5 {
@@ -509,22 +503,20 @@ fn parse_subitem5(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem6(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem6> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -533,8 +525,8 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem7 = parse_subitem7(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem6 {
@@ -553,22 +545,20 @@ fn parse_subitem6(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem7(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem7> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -577,8 +567,8 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem8 = parse_subitem8(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem7 {
@@ -597,22 +587,20 @@ fn parse_subitem7(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem8(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem8> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -621,8 +609,8 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem9 = parse_subitem9(&[parents, &[now_pat]].concat(), item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem8 {
@@ -641,22 +629,20 @@ fn parse_subitem8(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem9(
-  parent_pattern: ItemPattern,
+  parents: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem9> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -665,8 +651,8 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parents.contains(&item_number.pattern) {
+          subitem10 = parse_subitem10(item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem9 {
@@ -685,22 +671,19 @@ fn parse_subitem9(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem10(
-  parent_pattern: ItemPattern,
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
-      break;
-    } else if item_number.pattern == now_pat {
+    if item_number.pattern == now_pat {
       lines.next();
       let mut sentence_text = vec![text];
       while let Some(LineContents::Text(s)) = lines.peek() {
@@ -722,7 +705,7 @@ fn parse_subitem10(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
-- 
2.43.0


From 64c69a096e1f7ad25d55f616ac77055b81d671b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:38 +0000
Subject: [PATCH 39/51] fix: attach captions to the paragraph they stand before

---
 src/parse_from_text.rs | 79 +++++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 20 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 42a0754..9c98d26 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -4,6 +4,26 @@ use crate::*;
 use article_number::ItemPattern;
 use regex::Regex;
 
+/// 次の見出しの直後の行
+fn line_after_caption<'a>(
+  lines: &std::iter::Peekable<std::slice::Iter<'a, LineContents>>,
+) -> Option<&'a LineContents> {
+  lines.clone().nth(1)
+}
+
+/// 次の見出しが条につく見出しかどうか
+fn is_article_caption(lines: &std::iter::Peekable<std::slice::Iter<LineContents>>) -> bool {
+  matches!(line_after_caption(lines), Some(LineContents::Article(_, _)))
+}
+
+/// 見出しを生成する
+fn gen_caption(caption_opt: Option<&String>) -> Option<class::Caption> {
+  caption_opt.map(|s| class::Caption {
+    text: text::Text::from_value(s),
+    common_caption: None,
+  })
+}
+
 fn parse_part(
   n: &ArticleNumber,
   title: &str,
@@ -15,9 +35,9 @@ fn parse_part(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -56,9 +76,9 @@ fn parse_chapter(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -97,9 +117,9 @@ fn parse_section(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -138,9 +158,9 @@ fn parse_subsection(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         caption_opt = Some(cap);
         lines.next();
       }
@@ -179,9 +199,9 @@ fn parse_division(
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_caption(lines) => {
         caption_opt = Some(cap);
         lines.next();
       }
@@ -209,16 +229,34 @@ fn parse_article(
   text: &str,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> article::Article {
-  let caption = caption_opt.map(|s| class::Caption {
-    text: text::Text::from_value(s),
-    common_caption: None,
-  });
-  let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), text, lines);
+  let caption = gen_caption(caption_opt);
+  let para = parse_paragraph(
+    None,
+    &ArticleNumber::from_num_str("1").unwrap(),
+    text,
+    lines,
+  );
   let mut paragraph = vec![para];
-  while let Some(LineContents::Paragraph(n, text)) = lines.peek() {
-    lines.next();
-    let para = parse_paragraph(n, text, lines);
-    paragraph.push(para)
+  let mut caption_opt = None;
+  loop {
+    match lines.peek().copied() {
+      Some(LineContents::Caption(cap))
+        if matches!(
+          line_after_caption(lines),
+          Some(LineContents::Paragraph(_, _))
+        ) =>
+      {
+        lines.next();
+        caption_opt = Some(cap);
+      }
+      Some(LineContents::Paragraph(n, text)) => {
+        lines.next();
+        let para = parse_paragraph(caption_opt, n, text, lines);
+        paragraph.push(para);
+        caption_opt = None;
+      }
+      _ => break,
+    }
   }
   let article = article::Article {
     caption,
@@ -233,6 +271,7 @@ fn parse_article(
 }
 
 fn parse_paragraph(
+  caption_opt: Option<&String>,
   n: &ArticleNumber,
   text: &str,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
@@ -285,7 +324,7 @@ fn parse_paragraph(
   }
 
   paragraph::Paragraph {
-    caption: None,
+    caption: gen_caption(caption_opt),
     paragraph_num: text::Text::new(), // TODO 謎
     amend_provision: Vec::new(),
     class: Vec::new(),
-- 
2.43.0


From e23a1f8529f7ddd1a5887f0491ee189dd663c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:40 +0000
Subject: [PATCH 40/51] fix: report lines that have no place instead of looping
 or dropping the rest

---
 src/parse_from_text.rs | 63 +++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 9c98d26..2348f89 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -760,6 +760,11 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
   }
 }
 
+/// 置くことのできる場所のない行
+fn unexpected_line(line: &LineContents) -> Error {
+  Error::ParsingError("law text".to_string(), format!("{line:?}"))
+}
+
 pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = Vec::new();
   for line in text.lines().map(|s| s.trim()).filter(|s| !s.is_empty()) {
@@ -778,14 +783,16 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
 
   while let Some(line_contents) = lines.peek() {
     match line_contents {
-      LineContents::Part(n, text) => {
+      // 編と節は附則の中に現れない
+      LineContents::Part(n, text)
+        if caption_opt.is_none() && suppl_provision_heading_opt.is_none() =>
+      {
         lines.next();
         let part = parse_part(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Part(part));
-        caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Chapter(n, text) => {
+      LineContents::Chapter(n, text) if caption_opt.is_none() => {
         lines.next();
         let chap = parse_chapter(n, text, &mut lines);
         if suppl_provision_heading_opt.is_some() {
@@ -795,17 +802,17 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         } else {
           main_provision_children.push(law::MainProvisionContents::Chapter(chap));
         }
-        caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Section(n, text) => {
+      LineContents::Section(n, text)
+        if caption_opt.is_none() && suppl_provision_heading_opt.is_none() =>
+      {
         lines.next();
         let sec = parse_section(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Section(sec));
-        caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Caption(cap) => {
+      LineContents::Caption(cap) if caption_opt.is_none() => {
         caption_opt = Some(cap);
         is_preamble = false;
         lines.next();
@@ -823,13 +830,40 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Text(s) => {
-        if is_preamble {
-          preamble_text_list.push(s.to_string());
-          lines.next();
+      LineContents::Paragraph(n, text) => {
+        lines.next();
+        let para = parse_paragraph(caption_opt, n, text, &mut lines);
+        if suppl_provision_heading_opt.is_some() {
+          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+            para,
+          ))
+        } else {
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
         }
+        caption_opt = None;
+        is_preamble = false;
+      }
+      LineContents::Text(s) if is_preamble => {
+        preamble_text_list.push(s.to_string());
+        lines.next();
+      }
+      // 附則の見出しの直後の、番号のない項
+      LineContents::Text(s)
+        if suppl_provision_heading_opt.is_some() && suppl_provision_children.is_empty() =>
+      {
+        lines.next();
+        let para = parse_paragraph(
+          caption_opt,
+          &ArticleNumber::from_num_str("1").unwrap(),
+          s,
+          &mut lines,
+        );
+        suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+          para,
+        ));
+        caption_opt = None;
       }
-      LineContents::SupplProvision(law_num, extract) => {
+      LineContents::SupplProvision(law_num, extract) if caption_opt.is_none() => {
         lines.next();
         if let Some((amend_law_num, extract)) = suppl_provision_heading_opt {
           suppl_provision.push(suppl_provision::SupplProvision {
@@ -844,9 +878,12 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         suppl_provision_children = Vec::new();
         is_preamble = false;
       }
-      _ => break,
+      _ => return Err(unexpected_line(line_contents)),
     }
   }
+  if let Some(cap) = caption_opt {
+    return Err(unexpected_line(&LineContents::Caption(cap.clone())));
+  }
 
   let preamble = if preamble_text_list.is_empty() {
     None
-- 
2.43.0


From 322baf79ed88f9769ba2ade9e3ebc933aa450dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:41 +0000
Subject: [PATCH 41/51] fix: number the paragraphs of a preamble from one

---
 src/parse_from_text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 2348f89..9ce6c4e 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -892,9 +892,9 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       .iter()
       .enumerate()
       .map(|(n, s)| {
-        let sentence = text_to_sentence(0, s);
+        let sentence = text_to_sentence(1, s);
         let num = ArticleNumber {
-          base_number: n,
+          base_number: n + 1,
           eda_numbers: Vec::new(),
           range_end_numbers: Vec::new(),
         };
-- 
2.43.0


From 346128987f965774c6554c659033e31ea778d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:35 +0000
Subject: [PATCH 42/51] fix: parse divisions standing directly in a section

---
 src/parse_from_text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 9ce6c4e..1008bcc 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -135,6 +135,12 @@ fn parse_section(
         children.push(article::SectionContents::Subsection(subsec));
         caption_opt = None;
       }
+      Some(LineContents::Division(n, title)) => {
+        lines.next();
+        let div = parse_division(n, title, lines);
+        children.push(article::SectionContents::Division(div));
+        caption_opt = None;
+      }
       _ => break,
     }
   }
-- 
2.43.0


From ca8a96eedbccb8918b0c8680a8ba52c8291ea9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:46 +0000
Subject: [PATCH 43/51] fix: an empty string is an empty text, as when read
 from XML

---
 src/text.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 37af36c..9aec71a 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -77,9 +77,13 @@ impl Text {
 
   /// 値から
   pub fn from_value<T: ToString>(t: T) -> Self {
-    Text {
-      contents: vec![TextElement::Text(t.to_string())],
+    let mut text = Text::new();
+    let s = t.to_string();
+    // 空の文字列は空のテキストとする（XMLから読んだ場合と同じ）
+    if !s.is_empty() {
+      text.contents.push(TextElement::Text(s));
     }
+    text
   }
 
   /// テキストを追加する
-- 
2.43.0


From 74e6c446e822072322b140fbd5beaf99630d501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:47 +0000
Subject: [PATCH 44/51] fix: blanks in parentheses are no caption

---
 src/parse_from_text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 1008bcc..83ce2ff 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -1005,7 +1005,10 @@ fn parse_line_contents(line: &str) -> LineContents {
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
     Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?([　\s]*)(?<extract>抄)?$").unwrap();
-  if let Some(caps) = re_caption.captures(line) {
+  let caption = re_caption
+    .captures(line)
+    .filter(|caps| !caps["caption"].trim().is_empty());
+  if let Some(caps) = caption {
     Caption(caps["caption"].to_string())
   } else if let Some(caps) = re_suppl_provision.captures(line) {
     let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-- 
2.43.0


From c3f79358a5a6fc570dcfa10055d367bb2e378bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:39 +0000
Subject: [PATCH 45/51] fix: list articles with the numbers of the headings
 that enclose them

---
 src/utils.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..a1955d2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -206,20 +206,20 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
   for contents in part.children.iter() {
     match contents {
-      PartContents::Chapter(t) => {
-        let mut v2 = article_list_from_chapter(t);
+      PartContents::Chapter(chapter) => {
+        let mut v2 = article_list_from_chapter(chapter);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
         v.append(&mut v3)
       }
-      PartContents::Article(t) => {
-        let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+      PartContents::Article(article) => {
+        let mut w = WithNumberArticle::new(article.clone());
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -231,8 +231,8 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
   for contents in t.children.iter() {
     match contents {
-      ChapterContents::Section(t) => {
-        let mut v2 = article_list_from_section(t);
+      ChapterContents::Section(section) => {
+        let mut v2 = article_list_from_section(section);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
@@ -242,8 +242,8 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
           .collect::<Vec<_>>();
         v.append(&mut v3)
       }
-      ChapterContents::Article(t) => {
-        let mut w = WithNumberArticle::new(t.clone());
+      ChapterContents::Article(article) => {
+        let mut w = WithNumberArticle::new(article.clone());
         w.set_chapter(Some(t.num.clone()));
         v.push(w)
       }
@@ -256,8 +256,8 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
   for contents in t.children.iter() {
     match contents {
-      SectionContents::Subsection(t) => {
-        let mut v2 = article_list_from_subsection(t);
+      SectionContents::Subsection(subsection) => {
+        let mut v2 = article_list_from_subsection(subsection);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
@@ -267,8 +267,8 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
           .collect::<Vec<_>>();
         v.append(&mut v3)
       }
-      SectionContents::Division(t) => {
-        let mut v2 = article_list_from_division(t);
+      SectionContents::Division(division) => {
+        let mut v2 = article_list_from_division(division);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
@@ -278,8 +278,8 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
           .collect::<Vec<_>>();
         v.append(&mut v3)
       }
-      SectionContents::Article(t) => {
-        let mut w = WithNumberArticle::new(t.clone());
+      SectionContents::Article(article) => {
+        let mut w = WithNumberArticle::new(article.clone());
         w.set_section(Some(t.num.clone()));
         v.push(w)
       }
@@ -293,8 +293,8 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
   for contents in t.children.iter() {
     match contents {
-      SubsectionContents::Division(t) => {
-        let mut v2 = article_list_from_division(t);
+      SubsectionContents::Division(division) => {
+        let mut v2 = article_list_from_division(division);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
@@ -304,8 +304,8 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
           .collect::<Vec<_>>();
         v.append(&mut v3)
       }
-      SubsectionContents::Article(t) => {
-        let mut w = WithNumberArticle::new(t.clone());
+      SubsectionContents::Article(article) => {
+        let mut w = WithNumberArticle::new(article.clone());
         w.set_subsection(Some(t.num.clone()));
         v.push(w)
       }
-- 
2.43.0


From b79a0434d40d75d06490cacbbe073bb7b9a008a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:40 +0000
Subject: [PATCH 46/51] fix: set the article number of a table of contents
 entry, not its division

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index a1955d2..945b699 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From a4e9286539dcd766540a5601156a4f5261991a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:42 +0000
Subject: [PATCH 47/51] fix: entries of a table of contents keep no numbers of
 siblings

---
 src/utils.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 945b699..f1fbbf9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1029,12 +1029,13 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       PartContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       PartContents::Chapter(t) => {
-        let mut toc_list = toc_list_from_chapter(t, &mut toc);
+        let mut toc_list = toc_list_from_chapter(t, &mut toc.clone());
         v.append(&mut toc_list);
       }
     }
@@ -1051,9 +1052,10 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       ChapterContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       ChapterContents::Section(t) => {
         let mut toc_list = toc_list_from_section(t, &mut toc.clone());
@@ -1073,9 +1075,10 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SectionContents::Subsection(t) => {
         let mut toc_list = toc_list_from_subsection(t, &mut toc.clone());
@@ -1099,9 +1102,10 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SubsectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SubsectionContents::Division(t) => {
         let mut toc_list = toc_list_from_division(t, &mut toc.clone());
@@ -1119,9 +1123,10 @@ fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.division_title.to_string()));
   v.push(toc.clone());
   for t in t.children.iter() {
+    let mut toc = toc.clone();
     toc.set_article(Some(t.num.clone()));
     toc.set_title(Some(t.title.to_string()));
-    v.push(toc.clone());
+    v.push(toc);
   }
   v
 }
-- 
2.43.0


From 0f2bc6619b1117a5aa1e887b34d2a79d6d104e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:44 +0000
Subject: [PATCH 48/51] fix: extract the text of tables in Subitem6 as well

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index f1fbbf9..70bef37 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From b9608401733b3f60b20408593e61d14dd02e1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:34 +0000
Subject: [PATCH 49/51] fix: sentences, formulas and quotations inside a
 formula or quotation gave no text

---
 src/utils.rs | 76 +++++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 70bef37..498485f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -863,48 +863,44 @@ pub fn sentence_element_to_str(element: &[SentenceElement]) -> String {
         s.push('}');
       }
       SentenceElement::ArithFormula(arith_formula) => {
-        let contents = &arith_formula.contentes.contents;
-        for c in contents.iter() {
-          match c {
-            ContentsElement::String(s2) => s.push_str(s2),
-            ContentsElement::Ruby(ruby) => {
-              s.push_str(&ruby.text.to_string());
-            }
-            ContentsElement::Sub(s2) => {
-              s.push_str("_{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            ContentsElement::Sup(s2) => {
-              s.push_str("^{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            _ => (),
-          }
-        }
+        s.push_str(&contents_to_str(&arith_formula.contentes.contents));
       }
       SentenceElement::QuoteStruct(quote_struct) => {
-        let contents = &quote_struct.contentes.contents;
-        for c in contents.iter() {
-          match c {
-            ContentsElement::String(s2) => s.push_str(s2),
-            ContentsElement::Ruby(ruby) => {
-              s.push_str(&ruby.text.to_string());
-            }
-            ContentsElement::Sub(s2) => {
-              s.push_str("_{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            ContentsElement::Sup(s2) => {
-              s.push_str("^{");
-              s.push_str(&s2.text);
-              s.push('}');
-            }
-            _ => (),
-          }
-        }
+        s.push_str(&contents_to_str(&quote_struct.contentes.contents));
+      }
+      _ => (),
+    }
+  }
+  s
+}
+
+/// 算式や引用の中身の文字列を生成する
+fn contents_to_str(contents: &[ContentsElement]) -> String {
+  let mut s = String::new();
+  for c in contents.iter() {
+    match c {
+      ContentsElement::String(s2) => s.push_str(s2),
+      ContentsElement::Ruby(ruby) => {
+        s.push_str(&ruby.text.to_string());
+      }
+      ContentsElement::Sub(s2) => {
+        s.push_str("_{");
+        s.push_str(&s2.text);
+        s.push('}');
+      }
+      ContentsElement::Sup(s2) => {
+        s.push_str("^{");
+        s.push_str(&s2.text);
+        s.push('}');
+      }
+      ContentsElement::Sentence(sentence) => {
+        s.push_str(&sentence_element_to_str(&sentence.contents));
+      }
+      ContentsElement::ArithFormula(arith_formula) => {
+        s.push_str(&contents_to_str(&arith_formula.contentes.contents));
+      }
+      ContentsElement::QuoteStruct(quote_struct) => {
+        s.push_str(&contents_to_str(&quote_struct.contentes.contents));
       }
       _ => (),
     }
-- 
2.43.0


From 816abe8482bb92d77878462fe007a1c7b74d79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 50/51] fix: superscripts and subscripts of table headings were
 given as plain text

---
 src/utils.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 498485f..ec08c33 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -17,6 +17,7 @@ use crate::{
   sentence::SentenceElement,
   suppl_provision::{self, SupplProvision},
   table::{Table, TableColumnContents},
+  text::{Text, TextElement},
 };
 use serde::{Deserialize, Serialize};
 
@@ -802,13 +803,7 @@ pub fn table_to_str(table: &Table) -> String {
   let header_row_str = table
     .table_header_row
     .iter()
-    .map(|row| {
-      row
-        .columns
-        .iter()
-        .map(|text| text.to_string())
-        .collect::<String>()
-    })
+    .map(|row| row.columns.iter().map(text_to_str).collect::<String>())
     .collect::<Vec<_>>()
     .join(" ");
   let row = table
@@ -874,6 +869,29 @@ pub fn sentence_element_to_str(element: &[SentenceElement]) -> String {
   s
 }
 
+/// 表の見出しの文字列を生成する
+fn text_to_str(text: &Text) -> String {
+  let mut s = String::new();
+  for e in text.contents.iter() {
+    match e {
+      TextElement::Text(s2) => s.push_str(s2),
+      TextElement::Ruby(ruby) => s.push_str(&ruby.text.to_string()),
+      TextElement::Sub(s2) => {
+        s.push_str("_{");
+        s.push_str(&s2.text);
+        s.push('}');
+      }
+      TextElement::Sup(s2) => {
+        s.push_str("^{");
+        s.push_str(&s2.text);
+        s.push('}');
+      }
+      TextElement::Line(_) => (),
+    }
+  }
+  s
+}
+
 /// 算式や引用の中身の文字列を生成する
 fn contents_to_str(contents: &[ContentsElement]) -> String {
   let mut s = String::new();
-- 
2.43.0


From 1ea482976dbddf576d73d2a4f91c69da28f9213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 51/51] fix: report sentences, columns and tables standing side
 by side instead of dropping some

---
 src/class.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/class.rs b/src/class.rs
index 518c1ba..66cb328 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -119,15 +119,17 @@ impl SentenceOrColumnOrTable {
     for node in element.children.iter() {
       if let XMLNode::Element(e) = node {
         match e.name.as_str() {
-          "Sentence" => {
+          "Sentence" if sentence_opt.is_none() && column_list.is_empty() => {
             let v = Sentence::parser(e)?;
             sentence_list.push(v);
           }
-          "Column" => {
+          "Column" if sentence_opt.is_none() && sentence_list.is_empty() => {
             let v = Column::parser(e)?;
             column_list.push(v);
           }
-          "Table" => {
+          "Table"
+            if sentence_opt.is_none() && sentence_list.is_empty() && column_list.is_empty() =>
+          {
             let v = Table::parser(e)?;
             sentence_opt = Some(SentenceOrColumnOrTable::Table(v));
           }
-- 
2.43.0

