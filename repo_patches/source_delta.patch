From d6dc29e9d0d740b2f8042fe1f5597bef691a1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 01/97] fix: reject a namespace prefix that ends with '.'

PN_PREFIX may contain but not end with a '.', as PN_LOCAL; Name already
rejects it, Namespace (and so LocalName) accepted "a.:".
---
 rdftk_iri/src/pname.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..0af428b 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -250,6 +250,8 @@ impl FromStr for Namespace {
                 Err(NameParseError::TooManySeparators(s.to_string()))
             } else if pn_prefix.is_empty() {
                 Ok(Self(s.to_string()))
+            } else if pn_prefix.ends_with('.') {
+                Err(NameParseError::InvalidCharacter(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
                 if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
-- 
2.43.0


From dc8297a600d62946dc37d3ef7a77edc31d2f3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 02/97] fix: splitting an opaque or fragment-ended IRI

Iri::split panicked on IRIs without path segments (urn:isbn:123, mailto:x)
and split the namespace <http://h/ns#> into <http://h/#> and "ns".
---
 rdftk_iri/src/iri.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..4d9122b 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -317,13 +317,11 @@ impl Iri {
             } else {
                 None
             }
-        } else if !self.0.path().is_empty()
-            && !self.0.path().ends_with("/")
-            && self.0.query().is_none()
-        {
-            if let Ok(name) = Name::from_str(self.0.path_segments().unwrap().last().unwrap()) {
-                let path = self.0.path();
-                let path = &path[0..path.len() - name.as_ref().len()];
+        } else if self.0.fragment().is_none() && self.0.query().is_none() {
+            let path = self.0.path();
+            let (_, last) = path.rsplit_once('/')?;
+            if let Ok(name) = Name::from_str(last) {
+                let path = &path[0..path.len() - last.len()];
                 Some((self.with_new_path(path), name))
             } else {
                 None
-- 
2.43.0


From 4290476a8ae181789e4c09cdff7ed6b5de151ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 03/97] fix: an IRI with a non-empty fragment is not a
 namespace

<http://h/#a> looked like a namespace, and make_name replaced its fragment,
so distinct 'namespaces' produced the same name IRI.
---
 rdftk_iri/src/iri.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 4d9122b..b5111fc 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -270,7 +270,10 @@ impl Iri {
     /// ```
     ///
     pub fn looks_like_namespace(&self) -> bool {
-        self.0.fragment() == Some("") || (self.0.path().ends_with("/") && self.0.query().is_none())
+        match self.0.fragment() {
+            Some(fragment) => fragment.is_empty(),
+            None => self.0.path().ends_with("/") && self.0.query().is_none(),
+        }
     }
 
     ///
@@ -433,12 +436,12 @@ impl Iri {
     where
         Self: Sized,
     {
-        if self.0.fragment().is_some() {
+        if !self.looks_like_namespace() {
+            None
+        } else if self.0.fragment().is_some() {
             Some(self.with_new_fragment(name.as_ref()))
-        } else if self.0.path().ends_with("/") && self.0.query().is_none() {
-            Some(self.with_new_path(format!("{}{}", self.0.path(), name.as_ref())))
         } else {
-            None
+            Some(self.with_new_path(format!("{}{}", self.0.path(), name.as_ref())))
         }
     }
 
-- 
2.43.0


From 2e64590f1e90bcba799bbe316c0845b552605faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 04/97] fix: validate names when they are deserialized

Derived Deserialize accepted any string, and Namespace::name_string then
panicked on a value without its ':'.
---
 rdftk_iri/src/pname.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 0af428b..152c556 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -98,6 +98,7 @@ pub enum PrefixedName {
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Namespace(String);
 
 /// The character used to separate a [`Namespace`] prefix from a [`Name`] in a
@@ -145,6 +146,7 @@ pub const NAMESPACE_DEFAULT_STRING: &str = ":";
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Name(String);
 
 ///
@@ -266,6 +268,14 @@ impl FromStr for Namespace {
     }
 }
 
+impl TryFrom<String> for Namespace {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Namespace {
     fn as_ref(&self) -> &str {
         &self.0
@@ -406,6 +416,14 @@ impl FromStr for Name {
     }
 }
 
+impl TryFrom<String> for Name {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0


From 2731e1c51046ededaf3cecf82eb1e4861dcb40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 05/97] fix: build of the genid feature without std

---
 rdftk_iri/src/iri.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index b5111fc..d0f2486 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -5,6 +5,9 @@
 #[cfg(not(feature = "std"))]
 use alloc::format;
 
+#[cfg(all(feature = "genid", not(feature = "std")))]
+use alloc::string::ToString;
+
 use crate::{Name, pname::PrefixedName};
 use core::{
     fmt::{Display, Formatter, Result as FmtResult},
-- 
2.43.0


From 8aedcb70d0451fe10c340c2fe6f492d064f89700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 06/97] fix: a new path on an opaque IRI must not add a query
 or fragment

<urn:x> with the path "a?b" became <urn:a?b>.
---
 rdftk_iri/src/iri.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index d0f2486..fced53f 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -161,7 +161,13 @@ impl Iri {
         S: AsRef<str>,
     {
         let mut new_self = self.clone();
-        new_self.0.set_path(path.as_ref());
+        if self.0.cannot_be_a_base() {
+            // `Url::set_path` does not escape these in an opaque path.
+            let path = path.as_ref().replace('?', "%3F").replace('#', "%23");
+            new_self.0.set_path(&path);
+        } else {
+            new_self.0.set_path(path.as_ref());
+        }
         new_self
     }
 
-- 
2.43.0


From c565b0c81028ce621491fb45dd2c4a7f31d2d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 07/97] fix: rdftk_names builds with the current Iri::make_name

---
 rdftk_names/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/lib.rs b/rdftk_names/src/lib.rs
index 0ef0bcb..03f5b3b 100644
--- a/rdftk_names/src/lib.rs
+++ b/rdftk_names/src/lib.rs
@@ -132,7 +132,7 @@ macro_rules! namespace {
                 let _ = cache.insert(
                     $name.to_string(),
                     (
-                        <::rdftk_iri::Iri as ::rdftk_iri::IriExtra>::make_name(
+                        ::rdftk_iri::Iri::make_name(
                                 &NS_IRI,
                                 <::rdftk_iri::Name as ::std::str::FromStr>::from_str($name).unwrap()
                             ).unwrap(),
-- 
2.43.0


From d33245ad5ba4ebe8ef55ba67d0ad734a8dc7c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 08/97] fix: rdftk_core builds with the current rdftk_iri

---
 rdftk_core/src/error.rs                   |  6 +++---
 rdftk_core/src/model/graph.rs             |  4 ++--
 rdftk_core/src/model/literal.rs           | 23 ++++++++++++-----------
 rdftk_core/src/model/statement.rs         |  2 +-
 rdftk_core/src/model/statement/bnode.rs   |  8 ++++----
 rdftk_core/src/model/statement/object.rs  |  2 +-
 rdftk_core/src/model/statement/subject.rs |  2 +-
 7 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 887617f..62f3e5e 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -142,7 +142,7 @@ pub enum Error {
     ///
     /// An error parsing Name strings.
     ///
-    Name(::rdftk_iri::NameParseError),
+    Name(::rdftk_iri::error::NameParseError),
     ///
     /// An error occurred converting to UTF-8 text.
     ///
@@ -426,8 +426,8 @@ impl From<::language_tags::ParseError> for Error {
     }
 }
 
-impl From<::rdftk_iri::NameParseError> for Error {
-    fn from(source: ::rdftk_iri::NameParseError) -> Self {
+impl From<::rdftk_iri::error::NameParseError> for Error {
+    fn from(source: ::rdftk_iri::error::NameParseError) -> Self {
         Self::Name(source)
     }
 }
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 15ec049..32f5fdc 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -19,7 +19,7 @@ fn simple_graph_writer(graph: &Graph)
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::{Iri, IriExtra, IriPrefixMap, Name};
+use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
@@ -81,7 +81,7 @@ impl Display for GraphName {
             "{}",
             match &self {
                 Self::BNode(node) => format!("_:{}", node),
-                Self::Iri(iri) => format!("<{}>", iri),
+                Self::Iri(iri) => iri.to_string(),
             }
         )
     }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 13e7ebe..7050f16 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -51,11 +51,12 @@
  */
 
 use crate::error::Error;
-use rdftk_iri::{Iri, Name, QName};
+use rdftk_iri::{Iri, LocalName, Name};
 use rdftk_names::{rdf, xsd};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
+use std::str::FromStr;
 use std::time::Duration;
 
 #[cfg(feature = "binary_types")]
@@ -372,7 +373,7 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(v.as_ref(), DataType::Iri)
+        Self::with_data_type(format!("{v:#}"), DataType::Iri)
     }
 }
 
@@ -384,7 +385,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Iri)
+        *self.lexical_form() == format!("{other:#}") && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -395,7 +396,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::parse(value.lexical_form())?)
+                    Ok(Iri::from_str(value.lexical_form()).map_err(rdftk_iri::Error::from)?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -578,20 +579,20 @@ impl PartialEq<f32> for Literal {
 // Variant QName
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
-impl From<QName> for Literal {
-    fn from(v: QName) -> Self {
+impl From<LocalName> for Literal {
+    fn from(v: LocalName) -> Self {
         Self::with_data_type(v, DataType::QName)
     }
 }
 
-impl From<&QName> for Literal {
-    fn from(v: &QName) -> Self {
+impl From<&LocalName> for Literal {
+    fn from(v: &LocalName) -> Self {
         Self::from(v.clone())
     }
 }
 
-impl PartialEq<QName> for Literal {
-    fn eq(&self, other: &QName) -> bool {
+impl PartialEq<LocalName> for Literal {
+    fn eq(&self, other: &LocalName) -> bool {
         *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
     }
 }
@@ -847,7 +848,7 @@ impl Display for Literal {
                     "\"{}\"{}",
                     self.lexical_form(),
                     match (self.data_type(), self.language()) {
-                        (Some(data_type), None) => format!("^^<{}>", data_type.as_iri()),
+                        (Some(data_type), None) => format!("^^{}", data_type.as_iri()),
                         (None, Some(language)) => format!("@{}", language),
                         _ => String::new(),
                     }
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index d8ff046..f2a07eb 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -62,7 +62,7 @@ impl Display for Statement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> {}",
+            "{} {} {}",
             &self.subject().to_string(),
             &self.predicate().to_string(),
             &self.object().to_string(),
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 208f4cc..ebe3374 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,4 @@
-use rdftk_iri::{Name, NameParser, QName};
+use rdftk_iri::{LocalName, Name};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -98,7 +98,7 @@ impl BlankNode {
         S: AsRef<str>,
     {
         let s: &str = s.as_ref();
-        NameParser::BlankNode.is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
+        Name::is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
             s
         } else {
             s
@@ -109,7 +109,7 @@ impl BlankNode {
     /// Return a qualified version of the blank node, i.e. with the reserved
     /// namespace value `"_"`.
     ///
-    pub fn to_qname(&self) -> QName {
-        QName::new_blank(Name::new_unchecked(&self.0)).unwrap()
+    pub fn to_qname(&self) -> LocalName {
+        LocalName::new_unchecked(BLANK_NODE_NAMESPACE, &self.0)
     }
 }
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 9443935..7c313a4 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -122,7 +122,7 @@ impl Display for ObjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{BLANK_NODE_NAMESPACE}:{node}"),
-            Self::Resource(iri) => write!(f, "<{iri}>"),
+            Self::Resource(iri) => write!(f, "{iri}"),
             Self::Literal(lit) => {
                 if f.alternate() {
                     write!(f, "{lit:#}")
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 67dd8cd..427caf3 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -94,7 +94,7 @@ impl Display for SubjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{}:{}", BLANK_NODE_NAMESPACE, node),
-            Self::Resource(iri) => write!(f, "<{}>", iri),
+            Self::Resource(iri) => write!(f, "{}", iri),
             Self::Statement(st) => write!(f, "<< {} >>", st),
         }
     }
-- 
2.43.0


From a3848582cf6fcf4526d88f908c37e5a68bfbdf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 09/97] fix: rdftk_io builds with the current rdftk_iri

---
 rdftk_io/src/common/parser/ntriples.rs |  2 +-
 rdftk_io/src/dot/writer.rs             |  6 +++---
 rdftk_io/src/json/reader.rs            |  8 ++++----
 rdftk_io/src/json/writer.rs            |  6 +++---
 rdftk_io/src/nq/writer.rs              |  4 ++--
 rdftk_io/src/nt/writer.rs              |  4 ++--
 rdftk_io/src/turtle/writer.rs          | 26 +++++++++++++-------------
 rdftk_io/src/xml/reader.rs             |  5 +++--
 rdftk_io/src/xml/writer.rs             | 20 ++++++++++----------
 9 files changed, 41 insertions(+), 40 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index d54adf0..ee60037 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -208,7 +208,7 @@ fn iri_ref(input_pair: Pair<'_, Rule>) -> Result<Iri, Error> {
         let iri = input_pair.as_str().to_string();
         // strip the '<' and '>' characters.
         let iri_str = unescape_iri(&iri[1..iri.len() - 1]);
-        Ok(Iri::from_str(&iri_str)?)
+        Ok(Iri::from_str(&iri_str).map_err(rdftk_iri::Error::from)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::IRIREF]))
     }
diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index fdbf428..2b31354 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -296,7 +296,7 @@ impl ObjectWriter<Graph> for DotWriter {
                 self.subject_id(statement.subject()),
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => statement.predicate().to_string(),
+                    None => format!("{:#}", statement.predicate()),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -394,7 +394,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             }
@@ -423,7 +423,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             } else if node.is_literal() {
diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 4d468be..8052a59 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -100,7 +100,7 @@ fn parse_statements(
         let subject = if let Some(subject) = subject.strip_prefix(BNODE_PREFIX) {
             BlankNode::from_str(subject)?.into()
         } else {
-            Iri::from_str(subject)?.into()
+            Iri::from_str(subject).map_err(rdftk_iri::Error::from)?.into()
         };
         for (predicate, objects) in json.iter() {
             parse_predicates(&subject, predicate, objects, graph)?;
@@ -125,7 +125,7 @@ fn parse_predicates(
     parse_rule!("parse_predicates" entry);
 
     if let Value::Array(json) = objects {
-        let predicate = Iri::from_str(predicate)?;
+        let predicate = Iri::from_str(predicate).map_err(rdftk_iri::Error::from)?;
         for object in json {
             parse_object(subject, &predicate, object, graph)?;
         }
@@ -208,7 +208,7 @@ fn parse_literal_object(
             Literal::with_language(v, LanguageTag::from_str(l)?)
         }
         (Some(Value::String(v)), None, Some(Value::String(d))) => {
-            let data_type = Iri::from_str(d)?;
+            let data_type = Iri::from_str(d).map_err(rdftk_iri::Error::from)?;
             Literal::with_data_type(v, DataType::from(data_type))
         }
         _ => {
@@ -257,7 +257,7 @@ fn parse_uri_object(
     parse_rule!("parse_uri_object" entry);
 
     if let Some(Value::String(s)) = object.get(OBJ_KEY_VALUE) {
-        let object = Iri::from_str(s)?;
+        let object = Iri::from_str(s).map_err(rdftk_iri::Error::from)?;
         let st = Statement::new(subject.clone(), predicate.clone(), object);
         graph.insert(st);
         Ok(())
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 63d2590..5e13608 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -89,7 +89,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_resource().unwrap().to_string()),
+                            Value::String(format!("{:#}", object.as_resource().unwrap())),
                         );
                     } else if object.is_literal() {
                         let literal = object.as_literal().unwrap();
@@ -110,7 +110,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         if let Some(data_type) = literal.data_type() {
                             let _ = object_map.insert(
                                 OBJ_KEY_DATATYPE.to_string(),
-                                Value::String(data_type.as_iri().to_string()),
+                                Value::String(format!("{:#}", data_type.as_iri())),
                             );
                         }
                     } else {
@@ -118,7 +118,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                     }
                     objects.push(Value::Object(object_map));
                 }
-                let _ = predicate_map.insert(predicate.to_string(), Value::Array(objects));
+                let _ = predicate_map.insert(format!("{predicate:#}"), Value::Array(objects));
             }
             let _ = json_graph.insert(subject.to_string(), Value::Object(predicate_map));
         }
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 2c4fd2d..99d4630 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} <{}> {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} <{}> {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index 08151e1..b3e8093 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -38,9 +38,9 @@ impl ObjectWriter<Graph> for NTripleWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if self.options().force_string_literals {
-                        writeln!(w, "{subject} <{predicate}> {object:#} .")?;
+                        writeln!(w, "{subject} {predicate} {object:#} .")?;
                     } else {
-                        writeln!(w, "{subject} <{predicate}> {object} .")?;
+                        writeln!(w, "{subject} {predicate} {object} .")?;
                     }
                 }
             }
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index f1c2bb6..cd86d46 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -515,7 +515,7 @@ impl TurtleWriter {
             writeln!(
                 w,
                 "{decl} {IRI_START}{}{IRI_END}{eos}",
-                base.to_string().as_str()
+                format!("{base:#}").as_str()
             )?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
@@ -535,16 +535,16 @@ impl TurtleWriter {
         let mappings = graph.prefix_mappings();
         if !mappings.is_empty() {
             for (prefix, namespace) in mappings.mappings().sorted() {
-                let prefix = prefix.as_ref().map(|n| n.as_ref()).unwrap_or("");
-                let mut namespace_str = namespace.to_string();
+                let prefix = prefix.name_string().unwrap_or("");
+                let mut namespace_str = format!("{namespace:#}");
                 // If we have any base Iri conversions to do for any of the
                 // namespaces, then do it now:
                 for (from_base, to_base) in self.options.convert_base().iter() {
-                    let from_base_str = from_base.to_string();
+                    let from_base_str = format!("{from_base:#}");
                     if namespace_str.starts_with(from_base_str.as_str()) {
                         namespace_str = format!(
                             "{}{}",
-                            to_base.to_string().as_str(),
+                            format!("{to_base:#}").as_str(),
                             &namespace_str[from_base_str.len()..]
                         );
                         break;
@@ -726,10 +726,10 @@ impl TurtleWriter {
     /// Turtle as if it's an Iri with the default base.
     fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
         trace!(name: "compress_iri", ?iri);
-        let mut iri_str = iri.to_string();
+        let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
-                let target_id_base = convert_to_id_base.to_string();
+                let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
                     return Ok(format!(
                         "{IRI_START}{}{IRI_END}",
@@ -737,7 +737,7 @@ impl TurtleWriter {
                     ));
                 }
             }
-            let id_base_str = id_base.to_string();
+            let id_base_str = format!("{id_base:#}");
             if iri_str.starts_with(id_base_str.as_str()) {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
@@ -746,18 +746,18 @@ impl TurtleWriter {
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
-            let from_base_str = from_base.to_string();
+            let from_base_str = format!("{from_base:#}");
             if iri_str.starts_with(from_base_str.as_str()) {
                 iri_str = format!(
                     "{}{}",
-                    to_base.to_string().as_str(),
+                    format!("{to_base:#}").as_str(),
                     &iri_str[from_base_str.len()..]
                 );
             }
         }
-        let iri = Iri::from_str(iri_str.as_str())?;
+        let iri = Iri::from_str(iri_str.as_str()).map_err(rdftk_iri::Error::from)?;
         Ok(match graph.prefix_mappings().compress(&iri) {
-            None => format!("{IRI_START}{iri}{IRI_END}"),
+            None => format!("{IRI_START}{iri:#}{IRI_END}"),
             Some(_qname) => format!("{_qname}"),
         })
     }
@@ -777,7 +777,7 @@ impl TurtleWriter {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
             Some(DataType::Iri) => {
-                let iri = Iri::parse(literal.lexical_form())?;
+                let iri = Iri::from_str(literal.lexical_form()).map_err(rdftk_iri::Error::from)?;
                 self.write_iri(w, graph, &iri)?
             }
             Some(DataType::Boolean)
diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 3f76300..1c6570d 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -249,12 +249,13 @@ fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
         "{}{}",
         name.namespace.as_ref().unwrap(),
         name.local_name
-    ))?)
+    ))
+    .map_err(rdftk_iri::Error::from)?)
 }
 
 #[inline]
 fn value_to_iri(name: &str) -> Result<Iri, Error> {
-    Ok(Iri::from_str(name)?)
+    Ok(Iri::from_str(name).map_err(rdftk_iri::Error::from)?)
 }
 
 fn parse_predicate_attributes(
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 091a67b..88f4820 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -197,31 +197,31 @@ impl XmlWriter {
     fn default_mappings() -> HashMap<String, String> {
         let mappings: HashMap<String, String> = [
             (
-                dc::elements::namespace().to_string(),
+                dc::elements::namespace_str().to_string(),
                 dc::elements::default_prefix().to_string(),
             ),
             (
-                foaf::namespace().to_string(),
+                foaf::namespace_str().to_string(),
                 foaf::default_prefix().to_string(),
             ),
             (
-                geo::namespace().to_string(),
+                geo::namespace_str().to_string(),
                 geo::default_prefix().to_string(),
             ),
             (
-                owl::namespace().to_string(),
+                owl::namespace_str().to_string(),
                 owl::default_prefix().to_string(),
             ),
             (
-                rdf::namespace().to_string(),
+                rdf::namespace_str().to_string(),
                 rdf::default_prefix().to_string(),
             ),
             (
-                rdfs::namespace().to_string(),
+                rdfs::namespace_str().to_string(),
                 rdfs::default_prefix().to_string(),
             ),
             (
-                xsd::namespace().to_string(),
+                xsd::namespace_str().to_string(),
                 xsd::default_prefix().to_string(),
             ),
         ]
@@ -274,7 +274,7 @@ impl XmlWriter {
                 };
 
                 if let Some(iri) = object.as_resource() {
-                    let iri = iri.to_string();
+                    let iri = format!("{iri:#}");
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
@@ -294,7 +294,7 @@ impl XmlWriter {
                         element = element.attr(ATTRIBUTE_XML_LANG_PREFIXED, &language)
                     }
                     if let Some(data_type) = literal.data_type() {
-                        let dt_iri = data_type.as_iri().to_string();
+                        let dt_iri = format!("{:#}", data_type.as_iri());
                         writer
                             .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
                             .map_err(xml_error)?
@@ -334,7 +334,7 @@ fn xml_error(e: xml::writer::Error) -> Error {
 }
 
 fn split_uri(iri: &Iri) -> (String, String) {
-    let iri = iri.to_string();
+    let iri = format!("{iri:#}");
     let index = iri
         .chars()
         .rev()
-- 
2.43.0


From 4cf4f80e4a231ef32f0b04c3d921f3314d11ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 10/97] fix: Graph::matches treats an absent component as any
 value

---
 rdftk_core/src/model/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 32f5fdc..e65bcd6 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -374,9 +374,9 @@ impl Graph {
         self.statements
             .iter()
             .filter(|st| {
-                (subject.is_some() && st.subject() == subject.unwrap())
-                    && (predicate.is_some() && st.predicate() == predicate.unwrap())
-                    && (object.is_some() && st.object() == object.unwrap())
+                subject.map_or(true, |s| st.subject() == s)
+                    && predicate.map_or(true, |p| st.predicate() == p)
+                    && object.map_or(true, |o| st.object() == o)
             })
             .collect()
     }
-- 
2.43.0


From 473a4953cb91b27a07b7bc148c2242bd45d9ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 11/97] fix: Graph::remove_all_for removes the subject's
 statements, not the others

---
 rdftk_core/src/model/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index e65bcd6..2d393c4 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -557,9 +557,9 @@ impl Graph {
             (Default::default(), Default::default()),
             |(mut keep, mut discard): (Vec<Statement>, Vec<Statement>), st| {
                 if st.subject() == subject {
-                    keep.push(st.clone());
-                } else {
                     discard.push(st.clone());
+                } else {
+                    keep.push(st.clone());
                 }
                 (keep, discard)
             },
-- 
2.43.0


From 3bf97cb50574796ab2535505c573cf209a6580a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 12/97] fix: only a non-unique graph supports
 FEATURE_GRAPH_DUPLICATES

---
 rdftk_core/src/model/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 2d393c4..311fc55 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -199,7 +199,7 @@ impl GraphName {
 
 impl Featured for Graph {
     fn supports_feature(&self, feature: &Iri) -> bool {
-        (*feature == *FEATURE_GRAPH_DUPLICATES && self.statements.is_unique())
+        (*feature == *FEATURE_GRAPH_DUPLICATES && !self.statements.is_unique())
             || *feature == *FEATURE_RDF_STAR
     }
 }
-- 
2.43.0


From 6b9ded092945d0176509406f3348201b732fac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 13/97] fix: reification leaves no nested statement or
 collection behind

---
 rdftk_core/src/model/graph.rs                | 36 ++++------------
 rdftk_core/src/model/statement.rs            | 45 ++++++--------------
 rdftk_core/src/model/statement/collection.rs |  3 +-
 rdftk_core/src/model/statement/object.rs     | 14 ++++++
 rdftk_core/src/model/statement/subject.rs    | 12 ++++++
 5 files changed, 51 insertions(+), 59 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 311fc55..0d2340f 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -655,33 +655,15 @@ impl Graph {
             new_graph.set_name(name.clone());
         }
         for statement in self.statements() {
-            if let Some(subject_statement) = statement.subject().as_statement() {
-                let (subject, statements) = subject_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    subject,
-                    statement.predicate().clone(),
-                    statement.object().clone(),
-                ));
-                new_graph.extend(statements);
-            } else if let Some(object_statement) = statement.object().as_statement() {
-                let (subject, statements) = object_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new_graph.extend(statements);
-            } else if let Some(object_collection) = statement.object().as_collection() {
-                let (subject, statements) = object_collection.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new_graph.extend(statements);
-            } else {
-                new_graph.insert(statement.clone());
-            }
+            let (subject, subject_statements) = statement.subject().reify()?;
+            let (object, object_statements) = statement.object().reify()?;
+            new_graph.insert(Statement::new(
+                subject,
+                statement.predicate().clone(),
+                object,
+            ));
+            new_graph.extend(subject_statements);
+            new_graph.extend(object_statements);
         }
 
         Ok(new_graph)
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index f2a07eb..9efe0d6 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -194,42 +194,25 @@ impl Statement {
             rdf::a_type().clone(),
             rdf::statement().clone(),
         ));
-        if let Some(statement) = self.subject().as_statement() {
-            let nested = statement.reify()?;
-            statements.extend(nested.1);
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::subject().clone(),
-                nested.0.to_object(),
-            ));
-        } else {
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::subject().clone(),
-                self.subject().to_object(),
-            ));
-        }
+        let (subject, nested) = self.subject().reify()?;
+        statements.extend(nested);
+        statements.push(Self::new(
+            new_subject.clone(),
+            rdf::subject().clone(),
+            subject.to_object(),
+        ));
         statements.push(Self::new(
             new_subject.clone(),
             rdf::predicate().clone(),
             self.predicate().clone(),
         ));
-        if let Some(statement) = self.object().as_statement() {
-            let nested = statement.reify()?;
-            statements.extend(nested.1);
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::object().clone(),
-                nested.0.to_object(),
-            ));
-        } else {
-            // TODO: check for ObjectNode::Collection
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::object().clone(),
-                self.object().clone(),
-            ));
-        }
+        let (object, nested) = self.object().reify()?;
+        statements.extend(nested);
+        statements.push(Self::new(
+            new_subject.clone(),
+            rdf::object().clone(),
+            object,
+        ));
         Ok((new_subject, statements))
     }
 }
diff --git a/rdftk_core/src/model/statement/collection.rs b/rdftk_core/src/model/statement/collection.rs
index 1aa60ea..dc3a1ac 100644
--- a/rdftk_core/src/model/statement/collection.rs
+++ b/rdftk_core/src/model/statement/collection.rs
@@ -184,7 +184,8 @@ impl Collection {
                     rdf::a_type().clone(),
                     rdf::list().clone(),
                 ));
-                // TODO: deal with recursive ObjectNode::Collection
+                let (object, nested) = object.reify()?;
+                statements.extend(nested);
                 statements.push(Statement::new(
                     subject.clone(),
                     rdf::first().clone(),
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 7c313a4..bdce23d 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_RDF_STAR, FEATURE_STMT_OBJECT_COLLECTIONS};
 use crate::model::literal::Literal;
 use crate::model::statement::{
@@ -309,6 +310,19 @@ impl ObjectNode {
     // --------------------------------------------------------------------------------------------
     // Conversions
     // --------------------------------------------------------------------------------------------
+
+    ///
+    /// Return an object which is neither a nested statement nor a collection, along with the
+    /// statements, if any, which reify this object.
+    ///
+    pub(crate) fn reify(&self) -> Result<(Self, Vec<Statement>), Error> {
+        let (subject, statements) = match self {
+            Self::Collection(v) => v.reify()?,
+            Self::Statement(v) => v.reify()?,
+            _ => return Ok((self.clone(), Default::default())),
+        };
+        Ok((subject.to_object(), statements))
+    }
     pub fn to_subject(&self) -> Option<SubjectNode> {
         match self {
             ObjectNode::Blank(v) => Some(v.clone().into()),
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 427caf3..16b0b40 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, BLANK_NODE_NAMESPACE};
 use rdftk_iri::{Iri, Name};
@@ -217,6 +218,17 @@ impl SubjectNode {
     // Conversion
     // --------------------------------------------------------------------------------------------
 
+    ///
+    /// Return a subject which is not a nested statement, along with the statements, if any, which
+    /// reify this subject.
+    ///
+    pub(crate) fn reify(&self) -> Result<(Self, Vec<Statement>), Error> {
+        match self {
+            Self::Statement(v) => v.reify(),
+            _ => Ok((self.clone(), Default::default())),
+        }
+    }
+
     pub fn to_object(&self) -> ObjectNode {
         match self {
             SubjectNode::Blank(v) => v.clone().into(),
-- 
2.43.0


From 436bd25852c7a036d2ff5542219aed9538e1d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 14/97] fix: Graph::simplify keeps the prefix mappings

---
 rdftk_core/src/model/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 0d2340f..79206a8 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -650,7 +650,7 @@ impl Graph {
     /// 2. RDF collection objects in object nodes are reified into the graph.
     ///
     pub fn simplify(&self) -> Result<Self, Error> {
-        let mut new_graph = Self::default();
+        let mut new_graph = Self::default().with_mappings(self.mappings.clone());
         if let Some(name) = self.name() {
             new_graph.set_name(name.clone());
         }
-- 
2.43.0


From 34a29016bc9b3c45e1d005b1cb791a2ad692a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 15/97] fix: Graph::skolemize replaces nested blank nodes and
 keeps name and mappings

---
 rdftk_core/src/model/graph.rs | 76 ++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 79206a8..ffc3d0b 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -18,7 +18,7 @@ fn simple_graph_writer(graph: &Graph)
 
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
-use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
+use crate::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
@@ -616,27 +616,13 @@ impl Graph {
     pub fn skolemize(&self, base: &Iri) -> Result<Self, Error> {
         let mut mapping: HashMap<BlankNode, Iri> = Default::default();
 
-        let mut new_graph = Self::default();
+        let mut new_graph = Self::default().with_mappings(self.mappings.clone());
+        if let Some(name) = self.name() {
+            new_graph.set_name(name.clone());
+        }
 
         for statement in self.statements() {
-            let mut new_statement = statement.clone();
-            if let Some(blank) = new_statement.subject().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let subject = SubjectNode::from(name);
-                new_statement.set_subject(subject);
-            }
-            if let Some(blank) = new_statement.object().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let object = ObjectNode::from(name);
-                new_statement.set_object(object);
-            }
-            new_graph.insert(new_statement);
+            new_graph.insert(skolemize_statement(statement, base, &mut mapping)?);
         }
 
         Ok(new_graph)
@@ -670,6 +656,56 @@ impl Graph {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn skolemize_blank(
+    blank: &BlankNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Iri, Error> {
+    if !mapping.contains_key(blank) {
+        let _ = mapping.insert(blank.clone(), base.genid()?);
+    }
+    Ok(mapping.get(blank).unwrap().clone())
+}
+
+fn skolemize_object(
+    object: &ObjectNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<ObjectNode, Error> {
+    Ok(match object {
+        ObjectNode::Blank(blank) => skolemize_blank(blank, base, mapping)?.into(),
+        ObjectNode::Statement(st) => skolemize_statement(st, base, mapping)?.into(),
+        ObjectNode::Collection(collection) => collection
+            .iter()
+            .map(|object| skolemize_object(object, base, mapping))
+            .collect::<Result<Collection, Error>>()?
+            .into(),
+        _ => object.clone(),
+    })
+}
+
+fn skolemize_statement(
+    statement: &Statement,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Statement, Error> {
+    let subject: SubjectNode = match statement.subject() {
+        SubjectNode::Blank(blank) => skolemize_blank(blank, base, mapping)?.into(),
+        SubjectNode::Statement(st) => skolemize_statement(st, base, mapping)?.into(),
+        subject => subject.clone(),
+    };
+    let object = skolemize_object(statement.object(), base, mapping)?;
+    Ok(Statement::new(
+        subject,
+        statement.predicate().clone(),
+        object,
+    ))
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Statements Enum
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From ff70f3ac65fce2a2feabeb53d4f3477e3e83a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 16/97] fix: escape control characters in literals as RDF, not
 as Rust, does

---
 rdftk_core/src/model/literal.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 7050f16..676cd2a 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1023,8 +1023,20 @@ fn escape_string<S>(value: S) -> String
 where
     S: Into<String>,
 {
-    let formatted = format!("{:?}", value.into());
-    formatted[1..formatted.len() - 1].to_string()
+    let value = value.into();
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\\' => escaped.push_str("\\\\"),
+            '"' => escaped.push_str("\\\""),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            c if c.is_control() => escaped.push_str(&format!("\\u{:04X}", c as u32)),
+            c => escaped.push(c),
+        }
+    }
+    escaped
 }
 
 fn hex_encode(value: &[u8]) -> String {
-- 
2.43.0


From 70fcddd7eb4a6a59db38a254dc05acd3dff2439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 17/97] fix: compare a literal with the unescaped string

---
 rdftk_core/src/model/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 676cd2a..db10d56 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -615,14 +615,14 @@ impl From<&str> for Literal {
 
 impl PartialEq<String> for Literal {
     fn eq(&self, other: &String) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other)
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
 
 impl PartialEq<str> for Literal {
     fn eq(&self, other: &str) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other)
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
-- 
2.43.0


From 7f037e00144b3e3f5d4d9d148a305b5bf6618388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 18/97] fix: base64 encoded literals are xsd:base64Binary

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index db10d56..427bbcc 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -972,7 +972,7 @@ impl Literal {
 
     #[cfg(feature = "binary_types")]
     pub fn base64_encoded(v: &[u8]) -> Self {
-        Self::with_data_type(STANDARD.encode(v), DataType::HexBinary)
+        Self::with_data_type(STANDARD.encode(v), DataType::Base64Binary)
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 6b16bd63d2d541787e3ca8060f22e598c81085f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 19/97] fix: decode xsd:hexBinary in the form it is encoded

---
 rdftk_core/src/model/literal.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 427bbcc..a3e7ff4 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1056,19 +1056,17 @@ where
     S: AsRef<str>,
 {
     let value = value.as_ref();
-    let mut buffer = Vec::with_capacity((value.len() + 1) / 3);
-    for (index, hex_pair) in value.split(" ").enumerate() {
-        if hex_pair.len() == 2 {
-            let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            })?;
-            buffer.push(byte);
+    let mut buffer = Vec::with_capacity(value.len() / 2);
+    for (index, hex_pair) in value.as_bytes().chunks(2).enumerate() {
+        let error = || Error::HexDecoder {
+            value: String::from_utf8_lossy(hex_pair).into_owned(),
+            index,
+        };
+        if hex_pair.len() == 2 && hex_pair.iter().all(u8::is_ascii_hexdigit) {
+            let hex_pair = std::str::from_utf8(hex_pair).map_err(|_| error())?;
+            buffer.push(u8::from_str_radix(hex_pair, 16).map_err(|_| error())?);
         } else {
-            return Err(Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            });
+            return Err(error());
         }
     }
     Ok(buffer)
-- 
2.43.0


From 41a1112362dceaa3a0862a2566a9e7149143dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 20/97] fix: recognize every known datatype by its IRI

---
 rdftk_core/src/model/literal.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index a3e7ff4..aa7f427 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -295,8 +295,22 @@ impl From<Iri> for DataType {
             Self::Name
         } else if &iri == xsd::any_uri() {
             Self::Iri
+        } else if &iri == xsd::base64_binary() {
+            Self::Base64Binary
         } else if &iri == xsd::boolean() {
             Self::Boolean
+        } else if &iri == xsd::date() {
+            Self::Date
+        } else if &iri == xsd::date_time() {
+            Self::DateTime
+        } else if &iri == xsd::decimal() {
+            Self::Decimal
+        } else if &iri == xsd::hex_binary() {
+            Self::HexBinary
+        } else if &iri == xsd::language() {
+            Self::Language
+        } else if &iri == xsd::time() {
+            Self::Time
         } else if &iri == xsd::float() {
             Self::Float
         } else if &iri == xsd::double() {
@@ -961,7 +975,7 @@ impl Literal {
     {
         Self {
             lexical_form: escape_string(v),
-            data_type: Some(DataType::Other(data_type)),
+            data_type: Some(DataType::from(data_type)),
             language: None,
         }
     }
-- 
2.43.0


From d6dd1aa1592ca04ed9751dc7ae4aacfae14bf5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 21/97] fix: lexical form and comparison of durations

---
 rdftk_core/src/model/literal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index aa7f427..63c47f9 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -530,7 +530,7 @@ impl From<Duration> for Literal {
         let nanos = v.subsec_nanos();
         Self::with_data_type(
             if nanos != 0 {
-                format!("PT{seconds}.{nanos}S")
+                format!("PT{seconds}.{nanos:09}S")
             } else {
                 format!("PT{seconds}S")
             },
@@ -561,8 +561,7 @@ impl From<&chrono::Duration> for Literal {
 
 impl PartialEq<Duration> for Literal {
     fn eq(&self, other: &Duration) -> bool {
-        *self.lexical_form() == other.as_nanos().to_string()
-            && self.data_type() == Some(&DataType::Duration)
+        *self == Self::from(other)
     }
 }
 
-- 
2.43.0


From 55278cdb4ce7dfbe591b7802afd77ea4042c92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 22/97] fix: lexical form of infinite floats

---
 rdftk_core/src/model/literal.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 63c47f9..c66a48a 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -510,13 +510,14 @@ impl PartialEq<rust_decimal::Decimal> for Literal {
 
 impl From<f64> for Literal {
     fn from(v: f64) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Double)
+        Self::with_data_type(float_to_string(v), DataType::Double)
     }
 }
 
 impl PartialEq<f64> for Literal {
     fn eq(&self, other: &f64) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Double)
+        *self.lexical_form() == float_to_string(*other)
+            && self.data_type() == Some(&DataType::Double)
     }
 }
 
@@ -578,13 +579,14 @@ impl PartialEq<chrono::Duration> for Literal {
 
 impl From<f32> for Literal {
     fn from(v: f32) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Float)
+        Self::with_data_type(float_to_string(v), DataType::Float)
     }
 }
 
 impl PartialEq<f32> for Literal {
     fn eq(&self, other: &f32) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Float)
+        *self.lexical_form() == float_to_string(*other)
+            && self.data_type() == Some(&DataType::Float)
     }
 }
 
@@ -1052,6 +1054,14 @@ where
     escaped
 }
 
+/// Rust and XML Schema only differ in the lexical form of the infinities.
+fn float_to_string<T>(value: T) -> String
+where
+    T: Display,
+{
+    value.to_string().replace("inf", "INF")
+}
+
 fn hex_encode(value: &[u8]) -> String {
     if !value.is_empty() {
         let mut buffer = String::with_capacity(value.len() * 2);
-- 
2.43.0


From b36497d9b6bce3d13d5e35acfffcc10052f50f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 23/97] fix: the alternate form of an xsd:anyURI literal is a
 literal

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index c66a48a..8579560 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -841,7 +841,7 @@ impl Eq for Literal {}
 impl Display for Literal {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match (self.data_type(), f.alternate()) {
-            (Some(DataType::Iri), _) => write!(f, "<{}>", self.lexical_form()),
+            (Some(DataType::Iri), false) => write!(f, "<{}>", self.lexical_form()),
             (
                 Some(DataType::Boolean)
                 | Some(DataType::Long)
-- 
2.43.0


From b2efdaa553084a490c6d28cbd4cc2880b522c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 24/97] fix: parsing a blank node drops the '_:' prefix

---
 rdftk_core/src/model/statement/bnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index ebe3374..4d360f8 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -43,7 +43,7 @@ impl FromStr for BlankNode {
 
     fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if BlankNode::is_valid_str(s) {
-            Ok(Self(s.into()))
+            Ok(Self(s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into()))
         } else {
             Err(crate::error::Error::InvalidBlankNodeName { name: s.into() })
         }
-- 
2.43.0


From a8a9ba3a2f250f29af165d2a121d960e4afa1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 25/97] fix: the value of a nested resource is that resource

---
 rdftk_core/src/model/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index 2a73cc6..b01efd0 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -686,7 +686,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                     match object {
                         ResourceObject::Resource(resource) => {
                             flatten(resource, sts);
-                            subject.to_object()
+                            resource.subject.to_object()
                         }
                         ResourceObject::Literal(literal) => ObjectNode::from(literal.clone()),
                         _ => unreachable!(),
-- 
2.43.0


From dec560f9307fdfe9d357ec4c7eea37d424686f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 26/97] fix: number the members of a container from one

---
 rdftk_core/src/model/resource.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index b01efd0..3fb3e38 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -663,7 +663,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                             flatten(resource, sts);
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 resource.subject.to_object(),
                             ));
                         }
@@ -672,7 +672,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                         for (index, literal) in lc.values.iter().enumerate() {
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 literal,
                             ));
                         }
-- 
2.43.0


From b0a0033d1f972af85c9d98a0e23371345729d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 27/97] fix: N-Triples reader recognizes the known datatypes

---
 rdftk_io/src/common/parser/ntriples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index ee60037..40a4bc4 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -148,7 +148,7 @@ fn rdf_literal(input_pair: Pair<'_, Rule>) -> Result<Literal, Error> {
         if let Some(other) = inner_pair.next() {
             match other.as_rule() {
                 Rule::IRIREF => {
-                    let data_type = DataType::Other(iri_ref(other)?);
+                    let data_type = DataType::from(iri_ref(other)?);
                     Ok(Literal::with_data_type(&lexical_form, data_type))
                 }
                 Rule::LANGTAG => {
-- 
2.43.0


From 4bf98d3399617d4087292948639e016f081f7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 28/97] fix: N-Triples reader does not print language tags

---
 rdftk_io/src/common/parser/ntriples.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index 40a4bc4..865d22d 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -219,10 +219,8 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
     if input_pair.as_rule() == Rule::LANGTAG {
         let tag = input_pair.as_str().to_string();
-        println!("**{tag}**");
         // strip the leading '@'
         let tag = &tag[1..];
-        println!("**{tag}**");
         Ok(LanguageTag::parse(tag)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::LANGTAG]))
-- 
2.43.0


From 03fffb54b087859fb1f7262d377b59c842335439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 29/97] fix: N-Triples reader decodes escapes in strings,
 rejects invalid code points

---
 rdftk_io/src/common/parser/ntriples.rs | 62 ++++++++++++++++----------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index 865d22d..a234fa3 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -179,7 +179,7 @@ fn string(input_pair: Pair<'_, Rule>) -> Result<String, Error> {
             Rule::STRING_LITERAL_QUOTE => {
                 let inner_pair = inner_pair.into_inner().next().unwrap();
                 if inner_pair.as_rule() == Rule::QUOTE_INNER {
-                    Ok(inner_pair.as_str().to_string())
+                    unescape_string(inner_pair.as_str())
                 } else {
                     Err(pest_error!(
                         unexpected
@@ -207,7 +207,7 @@ fn iri_ref(input_pair: Pair<'_, Rule>) -> Result<Iri, Error> {
     if input_pair.as_rule() == Rule::IRIREF {
         let iri = input_pair.as_str().to_string();
         // strip the '<' and '>' characters.
-        let iri_str = unescape_iri(&iri[1..iri.len() - 1]);
+        let iri_str = unescape_iri(&iri[1..iri.len() - 1])?;
         Ok(Iri::from_str(&iri_str).map_err(rdftk_iri::Error::from)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::IRIREF]))
@@ -232,31 +232,45 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 lazy_static::lazy_static! {
     static ref UNICODE_ESC: Regex =
         Regex::new(r"(\\U[[:xdigit:]]{8})|(\\u[[:xdigit:]]{4})").unwrap();
+    static ref STRING_ESC: Regex =
+        Regex::new(r"(\\U[[:xdigit:]]{8})|(\\u[[:xdigit:]]{4})|(\\[tbnrf\x22'\\])").unwrap();
 }
 
-fn unescape_iri(iri: &str) -> String {
-    let (new_iri, end) =
-        UNICODE_ESC
-            .captures_iter(iri)
-            .fold((String::new(), 0), |(so_far, start), cap| {
-                let cap = cap.get(0).unwrap();
-                (
-                    format!(
-                        "{}{}{}",
-                        so_far,
-                        &iri[start..cap.start()],
-                        unescape_uchar(cap.as_str())
-                    ),
-                    cap.end(),
-                )
-            });
+fn unescape_iri(iri: &str) -> Result<String, Error> {
+    unescape(iri, &UNICODE_ESC)
+}
 
-    format!("{}{}", new_iri, &iri[end..])
+fn unescape_string(string: &str) -> Result<String, Error> {
+    unescape(string, &STRING_ESC)
 }
 
-fn unescape_uchar(uchar: &str) -> char {
-    use std::char;
-    let uchar = &uchar[2..];
-    let uchar_u32 = u32::from_str_radix(uchar, 16).unwrap();
-    char::from_u32(uchar_u32).unwrap()
+fn unescape(escaped: &str, escapes: &Regex) -> Result<String, Error> {
+    let mut unescaped = String::with_capacity(escaped.len());
+    let mut start = 0;
+    for escape in escapes.find_iter(escaped) {
+        unescaped.push_str(&escaped[start..escape.start()]);
+        unescaped.push(unescape_char(escape.as_str())?);
+        start = escape.end();
+    }
+    unescaped.push_str(&escaped[start..]);
+    Ok(unescaped)
+}
+
+fn unescape_char(escape: &str) -> Result<char, Error> {
+    match &escape[1..2] {
+        "t" => Ok('\t'),
+        "b" => Ok('\u{0008}'),
+        "n" => Ok('\n'),
+        "r" => Ok('\r'),
+        "f" => Ok('\u{000C}'),
+        "u" | "U" => u32::from_str_radix(&escape[2..], 16)
+            .ok()
+            .and_then(char::from_u32)
+            .ok_or_else(|| Error::ParserUnexpected {
+                rule_fn: "unescape_char".into(),
+                given: escape.into(),
+                expecting: vec!["UCHAR".into()],
+            }),
+        quoted => Ok(quoted.chars().next().unwrap()),
+    }
 }
-- 
2.43.0


From e7c7ef7f1683ec5eeb73b2b88873a14717b0213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 30/97] fix: N-Triples writer quotes typed literals by default

---
 rdftk_io/src/nt/writer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index b3e8093..d5755a3 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -8,7 +8,7 @@ use std::io::Write;
 // Public Types
 // ------------------------------------------------------------------------------------------------
 
-#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub struct NTripleWriterOptions {
     force_string_literals: bool,
 }
@@ -63,6 +63,15 @@ impl HasOptions<NTripleWriterOptions> for NTripleWriter {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Default for NTripleWriterOptions {
+    fn default() -> Self {
+        Self {
+            // N-Triples has no other form than the quoted one.
+            force_string_literals: true,
+        }
+    }
+}
+
 impl NTripleWriterOptions {
     pub fn force_string_literals(self, flag: bool) -> Self {
         let mut self_mut = self;
-- 
2.43.0


From 77c20b5bd4a64c6b14a4d80c6aa79adb7b7996ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 31/97] fix: N-Quads writer quotes typed literals

---
 rdftk_io/src/nq/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 99d4630..004113f 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {:#} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {:#} .", subject, predicate, object)?;
                     }
                 }
             }
-- 
2.43.0


From deee869554907b87b2b8a70c6edea65894c70acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 32/97] fix: JSON writer writes the value of a literal without
 RDF escapes

---
 rdftk_core/src/model/literal.rs | 32 ++++++++++++++++++++++++++++++++
 rdftk_io/src/json/writer.rs     |  2 +-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 8579560..8b284e2 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1001,6 +1001,14 @@ impl Literal {
         &self.lexical_form
     }
 
+    ///
+    /// Return the string this literal denotes, that is the lexical form without the escapes
+    /// required by N-Triples and related formats.
+    ///
+    pub fn unescaped_form(&self) -> String {
+        unescape_string(&self.lexical_form)
+    }
+
     ///
     /// Returns `true` if this literal has a specified data type, else `false`.
     ///
@@ -1054,6 +1062,30 @@ where
     escaped
 }
 
+/// The inverse of `escape_string`.
+fn unescape_string(value: &str) -> String {
+    let mut unescaped = String::with_capacity(value.len());
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            unescaped.push(c);
+            continue;
+        }
+        match chars.next() {
+            Some('n') => unescaped.push('\n'),
+            Some('r') => unescaped.push('\r'),
+            Some('t') => unescaped.push('\t'),
+            Some('u') => {
+                let digits: String = chars.by_ref().take(4).collect();
+                unescaped.extend(u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32));
+            }
+            Some(c) => unescaped.push(c),
+            None => {}
+        }
+    }
+    unescaped
+}
+
 /// Rust and XML Schema only differ in the lexical form of the infinities.
 fn float_to_string<T>(value: T) -> String
 where
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 5e13608..1f6aa2a 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -99,7 +99,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(literal.lexical_form().to_string()),
+                            Value::String(literal.unescaped_form()),
                         );
                         if let Some(language) = literal.language() {
                             let _ = object_map.insert(
-- 
2.43.0


From c763bf181a9ce527cf53ced681c3f281b0f875f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 33/97] fix: JSON writer prefixes blank node values with '_:'

---
 rdftk_io/src/json/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 1f6aa2a..a226f99 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -1,6 +1,6 @@
 use crate::json::syntax::{
-    OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
-    OBJ_TYPE_URI,
+    BNODE_PREFIX, OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE,
+    OBJ_TYPE_LITERAL, OBJ_TYPE_URI,
 };
 use crate::json::NAME;
 use crate::GraphWriter;
@@ -80,7 +80,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_blank().unwrap().to_string()),
+                            Value::String(format!("{BNODE_PREFIX}{}", object.as_blank().unwrap())),
                         );
                     } else if object.is_resource() {
                         let _ = object_map.insert(
-- 
2.43.0


From f6e3c4968d0c48558d171f2ac3cc4989fdd75a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 34/97] fix: JSON writer uses bare IRIs for subjects

---
 rdftk_io/src/json/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index a226f99..37041b8 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -68,6 +68,10 @@ impl ObjectWriter<Graph> for JsonWriter {
         let graph = graph.simplify()?;
         let mut json_graph = Map::new();
         for subject in graph.subjects() {
+            let subject_key = match subject.as_resource() {
+                Some(iri) => format!("{iri:#}"),
+                None => subject.to_string(),
+            };
             let mut predicate_map = Map::new();
             for predicate in graph.predicates_for(subject) {
                 let mut objects = Vec::new();
@@ -120,7 +124,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                 }
                 let _ = predicate_map.insert(format!("{predicate:#}"), Value::Array(objects));
             }
-            let _ = json_graph.insert(subject.to_string(), Value::Object(predicate_map));
+            let _ = json_graph.insert(subject_key, Value::Object(predicate_map));
         }
         if self.options.pretty_print() {
             serde_json::to_writer_pretty(w, &Value::Object(json_graph)).map_err(json_error)?;
-- 
2.43.0


From c0be8874d13b604035448164c4412740d9a81313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 35/97] fix: JSON reader does not panic on a blank node value
 without prefix

---
 rdftk_io/src/json/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 8052a59..2184207 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -232,7 +232,7 @@ fn parse_bnode_object(
 ) -> Result<(), Error> {
     parse_rule!("parse_bnode_object" entry);
     if let Some(Value::String(s)) = object.get(OBJ_KEY_VALUE) {
-        let object = BlankNode::from_str(&s[2..])?;
+        let object = BlankNode::from_str(s)?;
         let st = Statement::new(subject.clone(), predicate.clone(), object);
         graph.insert(st);
         Ok(())
-- 
2.43.0


From 9fa3cad025e6ba1da483cd7c6d3a96d0b2840ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 36/97] fix: Turtle writer does not turn subclass and similar
 predicates into rdf:type

---
 rdftk_io/src/turtle/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index cd86d46..dee0908 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -688,12 +688,12 @@ impl TurtleWriter {
         flags: WriterStatusFlags,
     ) -> Result<()> {
         trace!(name: "write_verb", ?predicate, ?group, max_len, ?flags);
-        // Special treatment for `rdf:type`; show it in turtle as just "a"
+        // Special treatment for `rdf:type` and alike; show `rdf:type` in turtle as just "a"
         if group == PredicateGroupOrdering::Type {
-            let type_verb = if self.options.use_rdf_type_a {
+            let type_verb = if self.options.use_rdf_type_a && predicate == rdf::a_type() {
                 RDF_TYPE_A.to_string()
             } else {
-                self.compress_iri(graph, rdf::a_type())?
+                self.compress_iri(graph, predicate)?
             };
             return if self.options.place_type_on_subject_line() {
                 Ok(write!(w, " {type_verb} ")?)
-- 
2.43.0


From d04bbae359b0f8ae7cbac528fc4cdef482ac6695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 37/97] fix: Turtle writer separates the members of a
 collection with space only

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index dee0908..4a43250 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -905,7 +905,7 @@ impl TurtleWriter {
             for (idx, object) in collection.iter().enumerate() {
                 self.write_object(w, graph, object, flags)?;
                 if idx < collection.len() - 1 {
-                    write!(w, "{OBJECT_SEPARATOR}{SPACE_SEPARATOR}")?;
+                    write!(w, "{SPACE_SEPARATOR}")?;
                 }
             }
             if self.options.outdent_collection_end {
-- 
2.43.0


From f29ea51109515b5c54dad49435b343a5ef6757af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 38/97] fix: Turtle writer does not escape literals twice

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 4a43250..a4abbbb 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -793,7 +793,7 @@ impl TurtleWriter {
             | Some(DataType::Double)
             | Some(DataType::Decimal) => write!(w, "{}", literal.lexical_form())?,
             _ => {
-                write!(w, "{:?}", literal.lexical_form())?;
+                write!(w, "\"{}\"", literal.lexical_form())?;
                 match (literal.data_type(), literal.language()) {
                     (Some(data_type), None) => {
                         write!(w, "{DATATYPE_PREFIX}")?;
-- 
2.43.0


From 7c9ceb224543972848863d2fe6ad4bed37c5490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 39/97] fix: Turtle writer writes every blank node once, and
 does not nest shared or cyclic ones

---
 rdftk_io/src/turtle/writer.rs | 95 ++++++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 28 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index a4abbbb..a9fbed6 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -6,7 +6,7 @@ use rdftk_core::{
     model::{
         graph::Graph,
         literal::{DataType, Literal},
-        statement::{Collection, ObjectNode, Statement, SubjectNode},
+        statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode},
     },
 };
 use rdftk_iri::Iri;
@@ -110,7 +110,8 @@ enum PredicateGroupOrdering {
 #[derive(Clone, Debug, Default)]
 struct WriterContext {
     indenter: Indenter,
-    blanks_to_write: HashSet<SubjectNode>,
+    /// The blank nodes which are written in place, rather than referred to by their label.
+    nested_blanks: HashSet<BlankNode>,
 }
 
 const DECL_BASE_TTL: &str = "@base";
@@ -435,6 +436,53 @@ impl TurtleWriter {
             .collect::<Vec<SubjectNode>>()
     }
 
+    /// Only a blank node which is the object of exactly one statement can be written in place, and
+    /// then only if it is not, directly or indirectly, nested in itself.
+    fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
+        trace!("nested_blanks");
+        let mut parents: BTreeMap<&BlankNode, Vec<&SubjectNode>> = BTreeMap::new();
+        for statement in graph.statements().collect::<HashSet<_>>() {
+            let mut objects = vec![statement.object()];
+            while let Some(object) = objects.pop() {
+                match object {
+                    ObjectNode::Blank(blank) => {
+                        parents.entry(blank).or_default().push(statement.subject())
+                    }
+                    ObjectNode::Collection(members) => objects.extend(members.iter()),
+                    _ => {}
+                }
+            }
+        }
+        let only_parent = |blank: &BlankNode| match parents.get(blank).map(Vec::as_slice) {
+            Some([parent]) => Some(*parent),
+            _ => None,
+        };
+        parents
+            .keys()
+            .copied()
+            .filter(|blank| {
+                let mut ancestor = only_parent(blank);
+                let mut seen = HashSet::new();
+                while let Some(SubjectNode::Blank(parent)) = ancestor {
+                    if parent == *blank {
+                        return false;
+                    }
+                    if !seen.insert(parent) {
+                        break;
+                    }
+                    ancestor = only_parent(parent);
+                }
+                only_parent(blank).is_some()
+            })
+            .cloned()
+            .collect()
+    }
+
+    #[inline(always)]
+    fn is_nested_blank(&self, blank: &BlankNode) -> bool {
+        self.context.borrow().nested_blanks.contains(blank)
+    }
+
     /// Calculate the longest predicate name and use as the width of the current indentation.
     fn max_len_predicates(&self, graph: &Graph, predicates: &[&Iri]) -> Result<usize> {
         trace!("max_len_predicates");
@@ -450,7 +498,7 @@ impl TurtleWriter {
     fn object_sort_key(&self, graph: &Graph, object: &ObjectNode) -> Result<String> {
         trace!("object_sort_key");
         let mut buffer = Vec::<u8>::new();
-        let new_writer = Self::default().with_options(self.options.clone());
+        let new_writer = self.clone();
         let flags = WriterStatusFlags {
             is_being_sorted: true,
             ..Default::default()
@@ -476,15 +524,11 @@ impl TurtleWriter {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
-            // Initialize with all the blank nodes in the graph
-            context_mut.blanks_to_write = graph
-                .blank_node_subjects()
-                .iter()
-                .map(|s| {
-                    let s = *s;
-                    s.clone()
-                })
-                .collect();
+            context_mut.nested_blanks = if self.options.nest_blank_nodes() {
+                Self::nested_blanks(graph)
+            } else {
+                Default::default()
+            };
         }
 
         // [3] directives
@@ -586,14 +630,13 @@ impl TurtleWriter {
             writeln!(w)?;
         }
 
-        // The given cursor object collects all the blank-node objects that have not
-        // been written to the turtle file yet but have been referred to during
-        // the call to `write_normal_subjects` above. Now process those
-        // unwritten blank nodes and add them to the end of the file.
-        let context = self.context.borrow();
-        // Iterate over all blank nodes
-        for subject in context.blanks_to_write.iter() {
-            context.indenter.reset_depth();
+        // Now process those blank nodes which were not written in place by the
+        // loop above and add them to the end of the file.
+        for subject in graph.blank_node_subjects().into_iter().sorted() {
+            if self.is_nested_blank(subject.as_blank().unwrap()) {
+                continue;
+            }
+            self.context.borrow().indenter.reset_depth();
             self.write_subject(w, graph, subject, flags)?;
             self.write_predicate_object_list(w, graph, subject, flags)?;
             writeln!(w)?;
@@ -856,16 +899,12 @@ impl TurtleWriter {
         trace!(name: "write_object", ?object, ?flags);
         match &object {
             ObjectNode::Blank(blank) => {
-                if self.options.nest_blank_nodes()
-                    && graph.contains_subject(&object.to_subject().unwrap())
-                {
+                if !self.is_nested_blank(blank) {
+                    write!(w, "{BLANK_NODE_PREFIX}{NAME_SEPARATOR}{blank}",)?;
+                } else if graph.contains_subject(&object.to_subject().unwrap()) {
                     self.write_blank_node_property_list(w, graph, object, flags)?;
-                } else if self.options.nest_blank_nodes()
-                    && !graph.contains_subject(&object.to_subject().unwrap())
-                {
-                    write!(w, "{BLANK_NODE_START}{BLANK_NODE_END}")?;
                 } else {
-                    write!(w, "{BLANK_NODE_PREFIX}{NAME_SEPARATOR}{blank}",)?;
+                    write!(w, "{BLANK_NODE_START}{BLANK_NODE_END}")?;
                 }
             }
             ObjectNode::Resource(iri) => {
-- 
2.43.0


From 8954d7bb1ef8c4eb3fcfce8b395309d001dc019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 40/97] fix: Turtle writer reifies nested statements, not the
 statement they are nested in

---
 rdftk_io/src/turtle/writer.rs | 53 ++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index a9fbed6..35a149a 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -345,25 +345,15 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
-        let (nested, plain): (Vec<_>, Vec<_>) =
-            graph.statements().partition(|stmt| stmt.is_nested());
-
-        let mut reified_statements: Vec<Statement> = nested
-            .into_iter()
-            .map(|stmt| {
-                let (subject, mut new) = stmt.reify().unwrap();
-                new.push(Statement::new(
-                    stmt.subject(),
-                    stmt.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new
-            })
-            .flatten()
-            .collect();
-        plain
-            .into_iter()
-            .for_each(|s| reified_statements.push(s.clone()));
+        let mut reified_statements: Vec<Statement> = Vec::default();
+        for stmt in graph.statements() {
+            let subject = match stmt.subject().as_statement() {
+                Some(nested) => Self::reify(&nested, &mut reified_statements)?,
+                None => stmt.subject().clone(),
+            };
+            let object = Self::reify_object(stmt.object(), &mut reified_statements)?;
+            reified_statements.push(Statement::new(subject, stmt.predicate().clone(), object));
+        }
 
         let mut denested_graph = Graph::from(reified_statements);
         denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
@@ -374,6 +364,31 @@ impl ObjectWriter<Graph> for TurtleWriter {
 impl GraphWriter for TurtleWriter {}
 
 impl TurtleWriter {
+    // ---------------------------------------------------------------------------------------------
+    // RDF-*
+    // ---------------------------------------------------------------------------------------------
+
+    fn reify(statement: &Statement, reified: &mut Vec<Statement>) -> Result<SubjectNode> {
+        let (subject, statements) = statement.reify()?;
+        reified.extend(statements);
+        Ok(subject)
+    }
+
+    /// As there is a syntax for collections these are kept, only statements are reified.
+    fn reify_object(object: &ObjectNode, reified: &mut Vec<Statement>) -> Result<ObjectNode> {
+        Ok(match object {
+            ObjectNode::Statement(nested) => Self::reify(nested, reified)?.to_object(),
+            ObjectNode::Collection(members) => Collection::from(
+                members
+                    .iter()
+                    .map(|member| Self::reify_object(member, reified))
+                    .collect::<Result<Vec<_>>>()?,
+            )
+            .into(),
+            _ => object.clone(),
+        })
+    }
+
     // ---------------------------------------------------------------------------------------------
     // Formatting
     // ---------------------------------------------------------------------------------------------
-- 
2.43.0


From 36be846b520ec2d317107d07aae79be53724c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 41/97] fix: Turtle writer keeps the data type of literals

---
 rdftk_io/src/turtle/writer.rs | 50 ++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 35a149a..15e1835 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -833,23 +833,21 @@ impl TurtleWriter {
     //
     fn write_literal<W: Write>(&self, w: &mut W, graph: &Graph, literal: &Literal) -> Result<()> {
         trace!(name: "write_literal", ?literal);
+        let lexical_form = literal.lexical_form().as_str();
+        // Only these forms are read as a literal of the same data type.
+        let is_abbreviated = match literal.data_type() {
+            Some(DataType::Boolean) => matches!(lexical_form, "true" | "false"),
+            Some(DataType::Decimal) => is_decimal(lexical_form),
+            Some(DataType::Double) => match lexical_form.split_once(['e', 'E']) {
+                Some((mantissa, exponent)) => {
+                    (is_decimal(mantissa) || is_integer(mantissa)) && is_integer(exponent)
+                }
+                None => false,
+            },
+            _ => false,
+        };
         Ok(match literal.data_type() {
-            Some(DataType::Iri) => {
-                let iri = Iri::from_str(literal.lexical_form()).map_err(rdftk_iri::Error::from)?;
-                self.write_iri(w, graph, &iri)?
-            }
-            Some(DataType::Boolean)
-            | Some(DataType::Long)
-            | Some(DataType::Int)
-            | Some(DataType::Short)
-            | Some(DataType::Byte)
-            | Some(DataType::UnsignedLong)
-            | Some(DataType::UnsignedInt)
-            | Some(DataType::UnsignedShort)
-            | Some(DataType::UnsignedByte)
-            | Some(DataType::Float)
-            | Some(DataType::Double)
-            | Some(DataType::Decimal) => write!(w, "{}", literal.lexical_form())?,
+            Some(_) if is_abbreviated => write!(w, "{lexical_form}")?,
             _ => {
                 write!(w, "\"{}\"", literal.lexical_form())?;
                 match (literal.data_type(), literal.language()) {
@@ -1088,6 +1086,26 @@ impl PredicateGroupOrdering {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn is_digits(value: &str) -> bool {
+    !value.is_empty() && value.chars().all(|c| c.is_ascii_digit())
+}
+
+fn is_integer(value: &str) -> bool {
+    is_digits(value.strip_prefix(['+', '-']).unwrap_or(value))
+}
+
+fn is_decimal(value: &str) -> bool {
+    let unsigned = value.strip_prefix(['+', '-']).unwrap_or(value);
+    match unsigned.split_once('.') {
+        Some((whole, fraction)) => (whole.is_empty() || is_digits(whole)) && is_digits(fraction),
+        None => false,
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Unit Tests
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 697e57289551aaa7264beb3f7bb198d85b9a5423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 42/97] fix: Turtle writer keeps the predicates of a group
 together

---
 rdftk_io/src/turtle/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 15e1835..389c24b 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -1047,6 +1047,7 @@ impl PredicateGroupOrdering {
     fn group_predicates<'a>(predicates: &[&'a Iri]) -> Vec<(PredicateGroupOrdering, Vec<&'a Iri>)> {
         let mut result = predicates
             .iter()
+            .sorted_by_key(Self::group_predicate)
             .chunk_by(Self::group_predicate)
             .into_iter()
             .map(|(triple_type, group)| (triple_type, group.cloned().collect()))
-- 
2.43.0


From 3b056cfa52a08e0a6892d75d2c06c2b0c53e7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 43/97] fix: Turtle writer shortens an IRI by the base only if
 it resolves to it

---
 rdftk_io/src/turtle/writer.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 389c24b..b50432a 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -788,19 +788,16 @@ impl TurtleWriter {
         if let Some(id_base) = &self.options.id_base() {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
                 let target_id_base = format!("{convert_to_id_base:#}");
-                if iri_str.starts_with(target_id_base.as_str()) {
-                    return Ok(format!(
-                        "{IRI_START}{}{IRI_END}",
-                        &iri_str[target_id_base.len()..]
-                    ));
+                if let Some(suffix) = iri_str.strip_prefix(target_id_base.as_str()) {
+                    return Ok(format!("{IRI_START}{suffix}{IRI_END}"));
                 }
             }
             let id_base_str = format!("{id_base:#}");
-            if iri_str.starts_with(id_base_str.as_str()) {
-                return Ok(format!(
-                    "{IRI_START}{}{IRI_END}",
-                    &iri_str[id_base_str.len()..]
-                ));
+            // A reader has to resolve what is written to the same Iri.
+            if let Some(suffix) = iri_str.strip_prefix(id_base_str.as_str()) {
+                if resolves_to_suffix(&id_base_str, suffix) {
+                    return Ok(format!("{IRI_START}{suffix}{IRI_END}"));
+                }
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
@@ -1091,6 +1088,17 @@ impl PredicateGroupOrdering {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+/// Returns `true` if the relative Iri `suffix` is resolved, by the base Iri `base`, to the plain
+/// concatenation of the two.
+fn resolves_to_suffix(base: &str, suffix: &str) -> bool {
+    let first_segment = suffix.split(['/', '?', '#']).next().unwrap_or_default();
+    base.contains("://")
+        && base.ends_with('/')
+        && !base.contains(['?', '#'])
+        && !suffix.starts_with('/')
+        && !first_segment.contains(':')
+}
+
 fn is_digits(value: &str) -> bool {
     !value.is_empty() && value.chars().all(|c| c.is_ascii_digit())
 }
-- 
2.43.0


From 7cff95940947eea38632ab26394488c03cd4c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 44/97] fix: DOT writer uses the node prefix for objects too

---
 rdftk_io/src/dot/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 2b31354..5bd91a7 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -291,9 +291,10 @@ impl ObjectWriter<Graph> for DotWriter {
         for statement in graph.statements() {
             writeln!(
                 w,
-                "    \"{}{}\" -> \"node_{}\" [label=\"{}\"];",
+                "    \"{}{}\" -> \"{}{}\" [label=\"{}\"];",
                 self.options.node_prefix,
                 self.subject_id(statement.subject()),
+                self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
                     None => format!("{:#}", statement.predicate()),
-- 
2.43.0


From 120f55cc29b83acad25b87490a954ac92a4b0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 45/97] fix: DOT writer does not repeat the nodes of previously
 written graphs

---
 rdftk_io/src/dot/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 5bd91a7..dd1559d 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -281,6 +281,8 @@ impl ObjectWriter<Graph> for DotWriter {
     where
         W: Write,
     {
+        self.nodes.borrow_mut().clear();
+
         writeln!(w, "digraph {{\n    rankdir=BT\n    charset=\"utf-8\";")?;
 
         // TODO: emit graph name
-- 
2.43.0


From 6b2897c74838e2acdfac754d304ad4deaa16c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 46/97] fix: DOT writer keeps literals of different data types
 apart

---
 rdftk_io/src/dot/writer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index dd1559d..82064ac 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -407,13 +407,15 @@ impl DotWriter {
 
     fn object_id(&self, node: &ObjectNode) -> String {
         let mut nodes = self.nodes.borrow_mut();
-        if let Some(node) = nodes.get(&node.to_string()) {
+        // The alternate form includes the data type of any literal
+        let key = format!("{node:#}");
+        if let Some(node) = nodes.get(&key) {
             node.id.clone()
         } else {
             let id = format!("{}", nodes.len() + 1);
             if node.is_blank() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Blank,
@@ -422,7 +424,7 @@ impl DotWriter {
                 );
             } else if node.is_resource() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
@@ -431,7 +433,7 @@ impl DotWriter {
                 );
             } else if node.is_literal() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Literal,
-- 
2.43.0


From 4f8f84ce4d47fdec814c914504d010795f9a95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 47/97] fix: DOT writer gives nested statements and collections
 nodes of their own

---
 rdftk_io/src/dot/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 82064ac..b4ee6aa 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -289,6 +289,7 @@ impl ObjectWriter<Graph> for DotWriter {
 
         writeln!(w)?;
 
+        let graph = graph.simplify()?;
         let mappings = graph.prefix_mappings();
         for statement in graph.statements() {
             writeln!(
-- 
2.43.0


From 9141eae8f7b2b2385db53612362ac2d155937e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 48/97] fix: XML writer prefixes the name of a property once,
 not for every object

---
 rdftk_io/src/xml/writer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 88f4820..3e8d046 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -263,11 +263,15 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, mut name) = split_uri(predicate);
+            let (ns, local_name) = split_uri(predicate);
+            let prefix = self.mappings.get(&ns);
+            let name = match prefix {
+                Some(prefix) => format!("{prefix}:{local_name}"),
+                None => local_name,
+            };
 
             for object in graph.objects_for(subject, predicate) {
-                let mut element = if let Some(prefix) = self.mappings.get(&ns) {
-                    name = format!("{}:{}", prefix, name);
+                let mut element = if let Some(prefix) = prefix {
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
                 } else {
                     XmlEvent::start_element(name.as_str()).default_ns(&ns)
-- 
2.43.0


From 79847cf34622247a3d7d951813182a2ba0f712ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 49/97] fix: XML writer writes the value of a literal without
 RDF escapes

---
 rdftk_io/src/xml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 3e8d046..3210e96 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -306,7 +306,7 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(literal.lexical_form()))
+                        .write(XmlEvent::Characters(&literal.unescaped_form()))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
-- 
2.43.0


From 26b373b67ff85dee2efc0edfb55bde316c8f766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 50/97] fix: XML writer splits any predicate into a namespace
 and a valid name

---
 rdftk_io/src/xml/writer.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 3210e96..bcbf701 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -6,7 +6,7 @@ use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
 use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
-use rdftk_core::error::{rdf_star_not_supported_error, Error};
+use rdftk_core::error::{invalid_qname_error, rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::SubjectNode;
 use rdftk_iri::Iri;
@@ -263,7 +263,7 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, local_name) = split_uri(predicate);
+            let (ns, local_name) = split_uri(predicate)?;
             let prefix = self.mappings.get(&ns);
             let name = match prefix {
                 Some(prefix) => format!("{prefix}:{local_name}"),
@@ -337,15 +337,16 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
-fn split_uri(iri: &Iri) -> (String, String) {
+/// Split into a namespace, and the longest name that is valid as that of an XML element.
+fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
-    let index = iri
-        .chars()
-        .rev()
-        .enumerate()
-        .find_map(|(i, c)| if c == '#' || c == '/' { Some(i) } else { None })
-        .unwrap();
-    assert_ne!(index, iri.len());
-    let index = iri.len() - index;
-    (iri[..index].to_string(), iri[index..].to_string())
+    let is_name_char = |c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '.');
+    let candidates = iri.rfind(|c| !is_name_char(c)).map_or(0, |index| index + 1);
+    match iri[candidates..].find(|c: char| c.is_ascii_alphabetic() || c == '_') {
+        Some(index) => {
+            let (namespace, name) = iri.split_at(candidates + index);
+            Ok((namespace.to_string(), name.to_string()))
+        }
+        None => Err(invalid_qname_error(iri)),
+    }
 }
-- 
2.43.0


From 6d47c5580a5093b3b70b1c6acbd9b5630096a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 51/97] fix: striped XML keeps blank nodes which are not
 nested, or are in more than one place

---
 rdftk_io/src/common/mod.rs    | 54 +++++++++++++++++++++++++++++++++++
 rdftk_io/src/turtle/writer.rs | 49 ++++---------------------------
 rdftk_io/src/xml/writer.rs    | 26 +++++++++--------
 3 files changed, 73 insertions(+), 56 deletions(-)

diff --git a/rdftk_io/src/common/mod.rs b/rdftk_io/src/common/mod.rs
index 5fa3aad..b0a5cbb 100644
--- a/rdftk_io/src/common/mod.rs
+++ b/rdftk_io/src/common/mod.rs
@@ -2,6 +2,60 @@
 Internal, common, code for reader and writer implementations.
 */
 
+#[cfg(any(feature = "turtle", feature = "xml"))]
+use rdftk_core::model::{
+    graph::Graph,
+    statement::{BlankNode, ObjectNode, SubjectNode},
+};
+#[cfg(any(feature = "turtle", feature = "xml"))]
+use std::collections::{BTreeMap, HashSet};
+
+// ------------------------------------------------------------------------------------------------
+// Public Functions
+// ------------------------------------------------------------------------------------------------
+
+/// Only a blank node which is the object of exactly one statement can be written in place, and
+/// then only if it is not, directly or indirectly, nested in itself.
+#[cfg(any(feature = "turtle", feature = "xml"))]
+pub(crate) fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
+    let mut parents: BTreeMap<&BlankNode, Vec<&SubjectNode>> = BTreeMap::new();
+    for statement in graph.statements().collect::<HashSet<_>>() {
+        let mut objects = vec![statement.object()];
+        while let Some(object) = objects.pop() {
+            match object {
+                ObjectNode::Blank(blank) => {
+                    parents.entry(blank).or_default().push(statement.subject())
+                }
+                ObjectNode::Collection(members) => objects.extend(members.iter()),
+                _ => {}
+            }
+        }
+    }
+    let only_parent = |blank: &BlankNode| match parents.get(blank).map(Vec::as_slice) {
+        Some([parent]) => Some(*parent),
+        _ => None,
+    };
+    parents
+        .keys()
+        .copied()
+        .filter(|blank| {
+            let mut ancestor = only_parent(blank);
+            let mut seen = HashSet::new();
+            while let Some(SubjectNode::Blank(parent)) = ancestor {
+                if parent == *blank {
+                    return false;
+                }
+                if !seen.insert(parent) {
+                    break;
+                }
+                ancestor = only_parent(parent);
+            }
+            only_parent(blank).is_some()
+        })
+        .cloned()
+        .collect()
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index b50432a..b650556 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -1,4 +1,7 @@
-use crate::{common::indenter::Indenter, GraphWriter};
+use crate::{
+    common::{indenter::Indenter, nested_blanks},
+    GraphWriter,
+};
 use itertools::Itertools;
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::{
@@ -451,48 +454,6 @@ impl TurtleWriter {
             .collect::<Vec<SubjectNode>>()
     }
 
-    /// Only a blank node which is the object of exactly one statement can be written in place, and
-    /// then only if it is not, directly or indirectly, nested in itself.
-    fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
-        trace!("nested_blanks");
-        let mut parents: BTreeMap<&BlankNode, Vec<&SubjectNode>> = BTreeMap::new();
-        for statement in graph.statements().collect::<HashSet<_>>() {
-            let mut objects = vec![statement.object()];
-            while let Some(object) = objects.pop() {
-                match object {
-                    ObjectNode::Blank(blank) => {
-                        parents.entry(blank).or_default().push(statement.subject())
-                    }
-                    ObjectNode::Collection(members) => objects.extend(members.iter()),
-                    _ => {}
-                }
-            }
-        }
-        let only_parent = |blank: &BlankNode| match parents.get(blank).map(Vec::as_slice) {
-            Some([parent]) => Some(*parent),
-            _ => None,
-        };
-        parents
-            .keys()
-            .copied()
-            .filter(|blank| {
-                let mut ancestor = only_parent(blank);
-                let mut seen = HashSet::new();
-                while let Some(SubjectNode::Blank(parent)) = ancestor {
-                    if parent == *blank {
-                        return false;
-                    }
-                    if !seen.insert(parent) {
-                        break;
-                    }
-                    ancestor = only_parent(parent);
-                }
-                only_parent(blank).is_some()
-            })
-            .cloned()
-            .collect()
-    }
-
     #[inline(always)]
     fn is_nested_blank(&self, blank: &BlankNode) -> bool {
         self.context.borrow().nested_blanks.contains(blank)
@@ -540,7 +501,7 @@ impl TurtleWriter {
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
             context_mut.nested_blanks = if self.options.nest_blank_nodes() {
-                Self::nested_blanks(graph)
+                nested_blanks(graph)
             } else {
                 Default::default()
             };
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index bcbf701..811659a 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -3,15 +3,16 @@ use super::syntax::{
     ELEMENT_DESCRIPTION, ELEMENT_RDF,
 };
 use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
+use crate::common::nested_blanks;
 use crate::GraphWriter;
 use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
 use rdftk_core::error::{invalid_qname_error, rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
-use rdftk_core::model::statement::SubjectNode;
+use rdftk_core::model::statement::{BlankNode, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use xml::common::XmlVersion;
 use xml::writer::{EventWriter, XmlEvent};
@@ -173,13 +174,14 @@ impl ObjectWriter<Graph> for XmlWriter {
 
         let graph = graph.simplify()?;
 
-        if self.options.style == XmlStyle::Flat {
-            for subject in graph.subjects() {
-                self.write_subject(&mut writer, &graph, subject, true)?;
-            }
+        let nested = if self.options.style == XmlStyle::Flat {
+            Default::default()
         } else {
-            for subject in graph.subjects().iter().filter(|s| s.is_resource()) {
-                self.write_subject(&mut writer, &graph, subject, false)?;
+            nested_blanks(&graph)
+        };
+        for subject in graph.subjects() {
+            if !matches!(subject.as_blank(), Some(blank) if nested.contains(blank)) {
+                self.write_subject(&mut writer, &graph, subject, &nested)?;
             }
         }
 
@@ -236,10 +238,10 @@ impl XmlWriter {
         writer: &mut EventWriter<W>,
         graph: &Graph,
         subject: &SubjectNode,
-        flat: bool,
+        nested: &HashSet<BlankNode>,
     ) -> Result<(), Error> {
         if let Some(blank) = subject.as_blank() {
-            if flat {
+            if !nested.contains(blank) {
                 writer
                     .write(
                         XmlEvent::start_element(RDF_DESCRIPTION.as_str())
@@ -282,12 +284,12 @@ impl XmlWriter {
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
-                    if flat {
+                    if !nested.contains(blank) {
                         element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
                         writer.write(element).map_err(xml_error)?;
                     } else {
                         writer.write(element).map_err(xml_error)?;
-                        self.write_subject(writer, graph, &blank.clone().into(), flat)?;
+                        self.write_subject(writer, graph, &blank.clone().into(), nested)?;
                     }
                 } else if let Some(literal) = object.as_literal() {
                     let language = literal
-- 
2.43.0


From 013e83c74ee23b9a737619900effe1fb4e103eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 52/97] fix: XML reader reads the properties which follow an
 rdf:resource

---
 rdftk_io/src/xml/reader.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 1c6570d..6216de0 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -285,7 +285,6 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
-    let mut no_child_elements = false;
     loop {
         let event = event_reader.next();
         match &event {
@@ -295,9 +294,6 @@ fn parse_predicate_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_predicate_element" => event);
-                if no_child_elements {
-                    error_event!(state => "parse_predicate_element", "child elements not allowed here");
-                }
                 let attributes = parse_attributes(attributes)?;
                 if let Some(resource) = attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
@@ -306,8 +302,7 @@ fn parse_predicate_element<R: Read>(
                         name_to_iri(name)?,
                         resource,
                     ));
-                    // set outer loop value
-                    no_child_elements = true;
+                    parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
                         None => {
@@ -377,6 +372,33 @@ fn parse_predicate_element<R: Read>(
     }
 }
 
+/// Read to the end of an element that may not have any content.
+fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<(), Error> {
+    loop {
+        let event = event_reader.next();
+        match &event {
+            Ok(XmlEvent::EndElement { .. }) => {
+                trace_event!("parse_empty_element" => event);
+                return Ok(());
+            }
+            Ok(
+                XmlEvent::StartElement { .. }
+                | XmlEvent::Characters(_)
+                | XmlEvent::CData(_)
+                | XmlEvent::EndDocument,
+            ) => {
+                error_event!(state => "parse_empty_element", "content not allowed here");
+            }
+            Ok(_) => {
+                trace_event!("parse_empty_element" => ignore event);
+            }
+            Err(e) => {
+                error_event!(parse => "parse_empty_element", e);
+            }
+        }
+    }
+}
+
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
-- 
2.43.0


From 4e7161adbd7bf2b10b9e7b2a22293adaf1a35202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 53/97] fix: XML reader keeps the data type of a literal

---
 rdftk_io/src/xml/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 6216de0..dce6416 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,5 +1,5 @@
 use crate::xml::syntax::{
-    ATTRIBUTE_ABOUT, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
+    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
     ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
     PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
@@ -537,6 +537,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                     Some(SubjectType::RelativeResource(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
+            } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
+                response.data_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
                 if attribute.value == PARSE_TYPE_LITERAL {
                     response.parse_type = Some(ParseType::XmlLiteral);
-- 
2.43.0


From cf8238e66b5b1eb2bfdc1f6c7ead1539a97f8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 54/97] fix: XML reader reads the rdf:nodeID of a property

---
 rdftk_io/src/xml/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index dce6416..356a1c6 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -303,6 +303,14 @@ fn parse_predicate_element<R: Read>(
                         resource,
                     ));
                     parse_empty_element(event_reader)?;
+                } else if let Some(SubjectType::BlankNamed(blank)) = attributes.subject_type {
+                    // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+                    graph.insert(Statement::new(
+                        subject.clone(),
+                        name_to_iri(name)?,
+                        BlankNode::from_str(&blank)?,
+                    ));
+                    parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
                         None => {
-- 
2.43.0


From 33c4ae11be59cf2354aab1df0d9b27d28ae4e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 55/97] fix: XML reader reads nested node elements, and relates
 them to their parent

---
 rdftk_io/src/xml/reader.rs | 203 +++++++++++++++++++++----------------
 1 file changed, 114 insertions(+), 89 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 356a1c6..5901237 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -7,7 +7,7 @@ use objio::ObjectReader;
 use rdftk_core::error::{invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
-use rdftk_core::model::statement::{BlankNode, Statement, SubjectNode};
+use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
 use std::io::Read;
@@ -52,6 +52,13 @@ enum ParseType {
     Collection,
 }
 
+/// The content of a property element.
+#[derive(Clone, Debug)]
+enum Content {
+    Node(SubjectNode),
+    Text(String),
+}
+
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
@@ -149,12 +156,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
                 if rdf_element.matches(name) {
-                    let _ = parse_subject_element(
-                        event_reader,
-                        &attributes.uri_base,
-                        None,
-                        &mut graph,
-                    )?;
+                    parse_subject_element(event_reader, &attributes.uri_base, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -172,11 +174,8 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
 fn parse_subject_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
-    _subject: Option<&SubjectNode>,
     graph: &mut Graph,
-) -> Result<Option<SubjectNode>, Error> {
-    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
-    let mut subject: Option<SubjectNode> = None;
+) -> Result<(), Error> {
     loop {
         let event = event_reader.next();
         match &event {
@@ -186,47 +185,7 @@ fn parse_subject_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_subject_element" => event);
-                let attributes = parse_attributes(attributes)?;
-                let subject_node: SubjectNode = match &attributes.subject_type {
-                    None => {
-                        // SPEC: §2.1 Introduction
-                        BlankNode::generate().into()
-                    }
-                    Some(SubjectType::Resource(subject)) => {
-                        // SPEC: §2.2 Node Elements and Property Elements
-                        subject.clone().into()
-                    }
-                    Some(SubjectType::RelativeResource(subject)) => {
-                        // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-                        let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
-                        value_to_iri(&uri)?.into()
-                    }
-                    Some(SubjectType::BlankNamed(subject)) => {
-                        // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                        BlankNode::from_str(subject)?.into()
-                    }
-                };
-                if !description_element.matches(name) {
-                    // SPEC: §2.13 Typed Node Elements
-                    graph.insert(Statement::new(
-                        subject_node.clone(),
-                        rdf::a_type().clone(),
-                        name_to_iri(name)?,
-                    ));
-                }
-                parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                parse_predicate_element(
-                    event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    &subject_node,
-                    graph,
-                )?;
-                // set outer loop value
-                subject = Some(subject_node);
+                let _ = parse_node_element(event_reader, name, attributes, xml_base, graph)?;
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_subject_element" => event);
@@ -240,7 +199,57 @@ fn parse_subject_element<R: Read>(
             }
         }
     }
-    Ok(subject)
+    Ok(())
+}
+
+fn parse_node_element<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    name: &OwnedName,
+    attributes: &[OwnedAttribute],
+    xml_base: &Option<Iri>,
+    graph: &mut Graph,
+) -> Result<SubjectNode, Error> {
+    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
+    let attributes = parse_attributes(attributes)?;
+    let subject_node: SubjectNode = match &attributes.subject_type {
+        None => {
+            // SPEC: §2.1 Introduction
+            BlankNode::generate().into()
+        }
+        Some(SubjectType::Resource(subject)) => {
+            // SPEC: §2.2 Node Elements and Property Elements
+            subject.clone().into()
+        }
+        Some(SubjectType::RelativeResource(subject)) => {
+            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
+            let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
+            value_to_iri(&uri)?.into()
+        }
+        Some(SubjectType::BlankNamed(subject)) => {
+            // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+            BlankNode::from_str(subject)?.into()
+        }
+    };
+    if !description_element.matches(name) {
+        // SPEC: §2.13 Typed Node Elements
+        graph.insert(Statement::new(
+            subject_node.clone(),
+            rdf::a_type().clone(),
+            name_to_iri(name)?,
+        ));
+    }
+    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
+    parse_predicate_element(
+        event_reader,
+        if attributes.uri_base.is_some() {
+            &attributes.uri_base
+        } else {
+            xml_base
+        },
+        &subject_node,
+        graph,
+    )?;
+    Ok(subject_node)
 }
 
 #[inline]
@@ -314,24 +323,35 @@ fn parse_predicate_element<R: Read>(
                 } else {
                     match attributes.parse_type {
                         None => {
-                            if let Some(content) =
-                                parse_object_element(event_reader, xml_base, graph)?
-                            {
-                                let literal = if let Some(data_type) = attributes.data_type {
-                                    // SPEC: §2.9 Typed Literals: rdf:datatype
-                                    Literal::with_data_type(&content, DataType::from(data_type))
-                                } else if let Some(language) = attributes.language {
-                                    // SPEC: §2.7 Languages: xml:lang
-                                    Literal::with_language(&content, language)
-                                } else {
-                                    Literal::plain(&content)
+                            let xml_base = if attributes.uri_base.is_some() {
+                                &attributes.uri_base
+                            } else {
+                                xml_base
+                            };
+                            let object: ObjectNode =
+                                match parse_object_element(event_reader, xml_base, graph)? {
+                                    Content::Node(node) => node.to_object(),
+                                    Content::Text(content) => {
+                                        if let Some(data_type) = attributes.data_type {
+                                            // SPEC: §2.9 Typed Literals: rdf:datatype
+                                            Literal::with_data_type(
+                                                &content,
+                                                DataType::from(data_type),
+                                            )
+                                        } else if let Some(language) = attributes.language {
+                                            // SPEC: §2.7 Languages: xml:lang
+                                            Literal::with_language(&content, language)
+                                        } else {
+                                            Literal::plain(&content)
+                                        }
+                                        .into()
+                                    }
                                 };
-                                graph.insert(Statement::new(
-                                    subject.clone(),
-                                    name_to_iri(name)?,
-                                    literal,
-                                ));
-                            }
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                object,
+                            ));
                         }
                         Some(ParseType::XmlLiteral) => {
                             // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
@@ -346,18 +366,23 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Resource) => {
                             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
-                            let subject_node = BlankNode::generate().into();
+                            let subject_node: SubjectNode = BlankNode::generate().into();
                             //parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                            let _subject = parse_subject_element(
+                            parse_predicate_element(
                                 event_reader,
                                 if attributes.uri_base.is_some() {
                                     &attributes.uri_base
                                 } else {
                                     xml_base
                                 },
-                                Some(&subject_node),
+                                &subject_node,
                                 graph,
                             )?;
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                subject_node.to_object(),
+                            ));
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
@@ -411,9 +436,9 @@ fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
     graph: &mut Graph,
-) -> Result<Option<String>, Error> {
+) -> Result<Content, Error> {
     let mut content = String::new();
-    let mut has_elements = false;
+    let mut node: Option<SubjectNode> = None;
     let mut has_characters = false;
     loop {
         let event = event_reader.next();
@@ -427,28 +452,28 @@ fn parse_object_element<R: Read>(
                 if has_characters {
                     error_event!(state => "parse_object_element", &format!("found XML content, parseType != Literal ({:?})", name));
                 }
+                if node.is_some() {
+                    error_event!(state => "parse_object_element", "found more than one node element");
+                }
                 // set outer loop value
-                has_elements = true;
-                let attributes = parse_attributes(attributes)?;
-                let subject_node = BlankNode::generate().into();
-                let _subject = parse_subject_element(
+                node = Some(parse_node_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    Some(&subject_node),
+                    name,
+                    attributes,
+                    xml_base,
                     graph,
-                )?;
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
-                return Ok(Some(content));
+                return Ok(match node {
+                    Some(node) => Content::Node(node),
+                    None => Content::Text(content),
+                });
             }
             Ok(XmlEvent::CData(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", format!("found character content after element(s)"));
                 }
                 // set outer loop value
@@ -457,7 +482,7 @@ fn parse_object_element<R: Read>(
             }
             Ok(XmlEvent::Characters(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", "found character content after element(s)");
                 }
                 // set outer loop value
-- 
2.43.0


From c23629a101e3e19b3c57c5c1dba561a1b2fb549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 56/97] fix: XML reader keeps literals which are white space
 only

---
 rdftk_io/src/xml/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 5901237..f892286 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -480,6 +480,10 @@ fn parse_object_element<R: Read>(
                 has_characters = true;
                 content.push_str(value);
             }
+            Ok(XmlEvent::Whitespace(value)) => {
+                trace_event!("parse_content_element" => event);
+                content.push_str(value);
+            }
             Ok(XmlEvent::Characters(value)) => {
                 trace_event!("parse_content_element" => event);
                 if node.is_some() {
-- 
2.43.0


From 00053373ffef2a9da5032e6848e9df7f68bbb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 57/97] fix: XML reader reads XML literals to their end

---
 rdftk_io/src/xml/reader.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index f892286..7a61084 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -252,6 +252,14 @@ fn parse_node_element<R: Read>(
     Ok(subject_node)
 }
 
+#[inline]
+fn xml_error(e: xml::writer::Error) -> Error {
+    Error::Tokenizer {
+        representation: super::NAME.into(),
+        source: Box::new(e),
+    }
+}
+
 #[inline]
 fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
     Ok(Iri::from_str(&format!(
@@ -518,24 +526,24 @@ fn parse_xml_literal_element<R: Read>(
             Ok(XmlEvent::StartElement { .. }) => {
                 trace_event!("parse_content_element" => event);
                 if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
+                    writer.write(event).map_err(xml_error)?
                 }
                 opened += 1;
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
+                if opened == 0 {
+                    return Ok(String::from_utf8(content)?);
+                }
                 if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
+                    writer.write(event).map_err(xml_error)?
                 }
                 opened -= 1;
-                if opened == 0 {
-                    return Ok(String::from_utf8(content).unwrap());
-                }
             }
             Ok(event) => {
                 // We only leave trim_whitespace=false so that these events are also written out.
                 if let Some(event) = event.as_writer_event() {
-                    writer.write(event).unwrap()
+                    writer.write(event).map_err(xml_error)?
                 }
             }
             Err(e) => {
-- 
2.43.0


From c62be0d30e5d90bc53748276b106a95c5b350b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 58/97] fix: XML reader resolves an rdf:ID as a fragment of the
 base

---
 rdftk_io/src/xml/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 7a61084..76acafd 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -222,7 +222,10 @@ fn parse_node_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
+            let Some(base) = attributes.uri_base.as_ref().or(xml_base.as_ref()) else {
+                error_event!(state => "parse_node_element", "rdf:ID requires an xml:base");
+            };
+            let uri = format!("{:#}#{subject}", base.with_no_fragment());
             value_to_iri(&uri)?.into()
         }
         Some(SubjectType::BlankNamed(subject)) => {
-- 
2.43.0


From ec10c6dceb08655c4be159e7f3e8bc4ef533b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 59/97] fix: XML reader does not panic on unknown parse types
 and names without a namespace

---
 rdftk_io/src/xml/reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 76acafd..065fe60 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -4,7 +4,7 @@ use crate::xml::syntax::{
     PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
-use rdftk_core::error::{invalid_state_error, Error};
+use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
@@ -267,7 +267,9 @@ fn xml_error(e: xml::writer::Error) -> Error {
 fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
     Ok(Iri::from_str(&format!(
         "{}{}",
-        name.namespace.as_ref().unwrap(),
+        name.namespace
+            .as_ref()
+            .ok_or_else(|| invalid_qname_error(&name.local_name))?,
         name.local_name
     ))
     .map_err(rdftk_iri::Error::from)?)
@@ -595,7 +597,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                 } else if attribute.value == PARSE_TYPE_COLLECTION {
                     response.parse_type = Some(ParseType::Collection);
                 } else {
-                    panic!();
+                    // SPEC: any other value is as if it were "Literal"
+                    response.parse_type = Some(ParseType::XmlLiteral);
                 }
             }
         } else {
-- 
2.43.0


From 3ecb5c1c928ada96460728dc71dc690dc85c44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 60/97] fix: XML reader reads collections

---
 rdftk_io/src/xml/reader.rs | 52 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 065fe60..d443665 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -7,7 +7,7 @@ use objio::ObjectReader;
 use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
-use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
+use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
 use std::io::Read;
@@ -399,7 +399,20 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
-                            todo!()
+                            let members = parse_collection_element(
+                                event_reader,
+                                if attributes.uri_base.is_some() {
+                                    &attributes.uri_base
+                                } else {
+                                    xml_base
+                                },
+                                graph,
+                            )?;
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                Collection::from(members),
+                            ));
                         }
                     }
                 }
@@ -516,6 +529,41 @@ fn parse_object_element<R: Read>(
     }
 }
 
+fn parse_collection_element<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    xml_base: &Option<Iri>,
+    graph: &mut Graph,
+) -> Result<Vec<ObjectNode>, Error> {
+    let mut members = Vec::default();
+    loop {
+        let event = event_reader.next();
+        match &event {
+            Ok(XmlEvent::StartElement {
+                name, attributes, ..
+            }) => {
+                trace_event!("parse_collection_element" => event);
+                members.push(
+                    parse_node_element(event_reader, name, attributes, xml_base, graph)?
+                        .to_object(),
+                );
+            }
+            Ok(XmlEvent::EndElement { .. }) => {
+                trace_event!("parse_collection_element" => event);
+                return Ok(members);
+            }
+            Ok(XmlEvent::Characters(_) | XmlEvent::CData(_)) => {
+                error_event!(state => "parse_collection_element", "text not allowed here");
+            }
+            Ok(_) => {
+                trace_event!("parse_collection_element" => ignore event);
+            }
+            Err(e) => {
+                error_event!(parse => "parse_collection_element", e);
+            }
+        }
+    }
+}
+
 fn parse_xml_literal_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
 ) -> Result<String, Error> {
-- 
2.43.0


From 5ec17ee10ba3c08d19c41aaa151f07b0e0670c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 61/97] fix: IRI literals whose text needs escaping equal and
 convert back to their IRI

---
 rdftk_core/src/model/literal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 8b284e2..af91aa7 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -399,7 +399,8 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == format!("{other:#}") && self.data_type() == Some(&DataType::Iri)
+        *self.lexical_form() == escape_string(&format!("{other:#}"))
+            && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -410,7 +411,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::from_str(value.lexical_form()).map_err(rdftk_iri::Error::from)?)
+                    Ok(Iri::from_str(&value.unescaped_form()).map_err(rdftk_iri::Error::from)?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
-- 
2.43.0


From a92f4ac188bc4dea578c9d5b7714e528ee9cb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 62/97] fix: misspelt owl:incompatibleWith,
 foaf:isPrimaryTopicOf and xsd:ENTITY

---
 rdftk_names/src/foaf.rs | 2 +-
 rdftk_names/src/owl.rs  | 2 +-
 rdftk_names/src/xsd.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_names/src/foaf.rs b/rdftk_names/src/foaf.rs
index eada607..592913b 100644
--- a/rdftk_names/src/foaf.rs
+++ b/rdftk_names/src/foaf.rs
@@ -22,7 +22,7 @@ namespace! {
         made, "made",
         maker, "maker",
         primary_topic, "primaryTopic",
-        primary_topic_of, "primaryTopicOf",
+        primary_topic_of, "isPrimaryTopicOf",
         project, "Project",
         organization, "Organization",
         group, "Group",
diff --git a/rdftk_names/src/owl.rs b/rdftk_names/src/owl.rs
index 77d5267..e45ccdf 100644
--- a/rdftk_names/src/owl.rs
+++ b/rdftk_names/src/owl.rs
@@ -67,7 +67,7 @@ namespace! {
         version_info, "versionInfo",
         deprecated, "deprecated",
         backward_compatible_with, "backwardCompatibleWith",
-        incompatible_with, "incompatible_with",
+        incompatible_with, "incompatibleWith",
         prior_version, "priorVersion",
         ontology, "Ontology",
         version, "version",
diff --git a/rdftk_names/src/xsd.rs b/rdftk_names/src/xsd.rs
index 61ed016..a29e27f 100644
--- a/rdftk_names/src/xsd.rs
+++ b/rdftk_names/src/xsd.rs
@@ -14,7 +14,7 @@ namespace! {
         day_time_duration, "dayTimeDuration",
         decimal, "decimal",
         duration, "duration",
-        entity, "entity",
+        entity, "ENTITY",
         g_day, "gDay",
         g_month, "gMonth",
         g_month_day, "gMonthDay",
-- 
2.43.0


From cc5dc9cd2aa9d9e2dbcaffd5ec45651d87621ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 63/97] fix: rdftk_core without binary_types, and rdftk_io with
 only trig or turtle, did not build

---
 rdftk_core/src/error.rs         | 1 +
 rdftk_core/src/model/literal.rs | 6 ++++--
 rdftk_io/src/common/mod.rs      | 8 ++++----
 rdftk_io/src/lib.rs             | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 62f3e5e..b179ae4 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -396,6 +396,7 @@ impl std::error::Error for Error {
             Self::LanguageTag(source) => Some(source),
             Self::Name(source) => Some(source),
             Self::Utf8(source) => Some(source),
+            #[cfg(feature = "binary_types")]
             Self::Base64Decoder(source) => Some(source),
             _ => None,
         }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index af91aa7..e493920 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -437,9 +437,11 @@ impl TryFrom<Literal> for Vec<u8> {
     fn try_from(value: Literal) -> Result<Self, Self::Error> {
         match value.data_type() {
             Some(dt) => {
+                #[cfg(feature = "binary_types")]
                 if *dt == DataType::Base64Binary {
-                    Ok(STANDARD.decode(value.lexical_form())?)
-                } else if *dt == DataType::HexBinary {
+                    return Ok(STANDARD.decode(value.lexical_form())?);
+                }
+                if *dt == DataType::HexBinary {
                     Ok(hex_decode(value.lexical_form())?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
diff --git a/rdftk_io/src/common/mod.rs b/rdftk_io/src/common/mod.rs
index b0a5cbb..3ec06d6 100644
--- a/rdftk_io/src/common/mod.rs
+++ b/rdftk_io/src/common/mod.rs
@@ -2,12 +2,12 @@
 Internal, common, code for reader and writer implementations.
 */
 
-#[cfg(any(feature = "turtle", feature = "xml"))]
+#[cfg(any(feature = "trig", feature = "turtle", feature = "xml"))]
 use rdftk_core::model::{
     graph::Graph,
     statement::{BlankNode, ObjectNode, SubjectNode},
 };
-#[cfg(any(feature = "turtle", feature = "xml"))]
+#[cfg(any(feature = "trig", feature = "turtle", feature = "xml"))]
 use std::collections::{BTreeMap, HashSet};
 
 // ------------------------------------------------------------------------------------------------
@@ -16,7 +16,7 @@ use std::collections::{BTreeMap, HashSet};
 
 /// Only a blank node which is the object of exactly one statement can be written in place, and
 /// then only if it is not, directly or indirectly, nested in itself.
-#[cfg(any(feature = "turtle", feature = "xml"))]
+#[cfg(any(feature = "trig", feature = "turtle", feature = "xml"))]
 pub(crate) fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
     let mut parents: BTreeMap<&BlankNode, Vec<&SubjectNode>> = BTreeMap::new();
     for statement in graph.statements().collect::<HashSet<_>>() {
@@ -60,7 +60,7 @@ pub(crate) fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
 // Modules
 // ------------------------------------------------------------------------------------------------
 
-#[cfg(feature = "nt")]
+#[cfg(any(feature = "trig", feature = "turtle"))]
 pub(crate) mod indenter;
 
 #[cfg(any(
diff --git a/rdftk_io/src/lib.rs b/rdftk_io/src/lib.rs
index 6a174e7..885a44f 100644
--- a/rdftk_io/src/lib.rs
+++ b/rdftk_io/src/lib.rs
@@ -63,7 +63,7 @@ pub mod nt;
 #[cfg(feature = "trig")]
 pub mod trig;
 
-#[cfg(feature = "turtle")]
+#[cfg(any(feature = "trig", feature = "turtle"))]
 pub mod turtle;
 
 #[cfg(feature = "xml")]
-- 
2.43.0


From cea1249c39662a1280e5541b1b195e3725ecd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 64/97] fix: the TriG writer left out every statement

---
 rdftk_io/src/trig/writer.rs   | 40 +++++++++++++++++++++++------------
 rdftk_io/src/turtle/writer.rs | 33 +++++++++++++++++++++++------
 2 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/rdftk_io/src/trig/writer.rs b/rdftk_io/src/trig/writer.rs
index 2d0dbea..647ab50 100644
--- a/rdftk_io/src/trig/writer.rs
+++ b/rdftk_io/src/trig/writer.rs
@@ -1,4 +1,4 @@
-use crate::turtle::TurtleWriterOptions;
+use crate::turtle::{TurtleWriter, TurtleWriterOptions};
 use crate::{DataSetWriter, GraphWriter};
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::error::Error;
@@ -75,8 +75,10 @@ impl ObjectWriter<DataSet> for TrigWriter {
     where
         W: std::io::Write,
     {
+        // A blank node may be shared by graphs, and so it has to keep its label.
+        let turtle = self.options.turtle.clone().without_nested_blank_nodes();
         for graph in data_set.graphs() {
-            self.write(w, graph)?;
+            self.write_block(w, graph, turtle.clone())?;
         }
         Ok(())
     }
@@ -91,20 +93,32 @@ impl ObjectWriter<Graph> for TrigWriter {
     where
         W: std::io::prelude::Write,
     {
+        self.write_block(w, graph, self.options.turtle.clone())
+    }
+}
+
+impl GraphWriter for TrigWriter {}
+
+impl TrigWriter {
+    fn write_block<W>(
+        &self,
+        w: &mut W,
+        graph: &Graph,
+        options: TurtleWriterOptions,
+    ) -> Result<(), Error>
+    where
+        W: std::io::Write,
+    {
+        let mut open = String::new();
         if let Some(name) = graph.name() {
             if !self.options().omit_graph_keyword() {
-                w.write_all(b"GRAPH ")?;
+                open.push_str("GRAPH ");
             }
-            w.write_all(name.to_string().as_bytes())?;
-            w.write_all(b" ")?;
+            open.push_str(&format!("{name} "));
         }
-        w.write_all(b"{\n")?;
-
-        // TODO: call the TurtleWriter
-
-        w.write_all(b"}\n")?;
-        Ok(())
+        open.push_str("{\n");
+        TurtleWriter::default()
+            .with_options(options)
+            .write_graph(w, graph, &open, "}\n")
     }
 }
-
-impl GraphWriter for TrigWriter {}
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index b650556..628957d 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -348,6 +348,23 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
+        self.write_graph(w, graph, "", "")
+    }
+}
+
+impl GraphWriter for TurtleWriter {}
+
+impl TurtleWriter {
+    ///
+    /// Write the directives for the graph, followed by its triples between `open` and `close`.
+    ///
+    pub(crate) fn write_graph<W: Write>(
+        &self,
+        w: &mut W,
+        graph: &Graph,
+        open: &str,
+        close: &str,
+    ) -> Result<()> {
         let mut reified_statements: Vec<Statement> = Vec::default();
         for stmt in graph.statements() {
             let subject = match stmt.subject().as_statement() {
@@ -360,13 +377,9 @@ impl ObjectWriter<Graph> for TurtleWriter {
 
         let mut denested_graph = Graph::from(reified_statements);
         denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
-        self.write_turtle_doc(w, &denested_graph)
+        self.write_turtle_doc(w, &denested_graph, open, close)
     }
-}
-
-impl GraphWriter for TurtleWriter {}
 
-impl TurtleWriter {
     // ---------------------------------------------------------------------------------------------
     // RDF-*
     // ---------------------------------------------------------------------------------------------
@@ -494,7 +507,13 @@ impl TurtleWriter {
     /// [3]  directive  ::= prefixID | base | sparqlPrefix | sparqlBase
     ///```
     ///
-    fn write_turtle_doc<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
+    fn write_turtle_doc<W: Write>(
+        &self,
+        w: &mut W,
+        graph: &Graph,
+        open: &str,
+        close: &str,
+    ) -> Result<()> {
         trace!("write_turtle_doc");
         {
             let mut context_mut = self.context.borrow_mut();
@@ -513,7 +532,9 @@ impl TurtleWriter {
 
         // [2] ... triples
         let flags = WriterStatusFlags::default();
+        write!(w, "{open}")?;
         self.write_triples(w, graph, flags)?;
+        write!(w, "{close}")?;
         Ok(())
     }
 
-- 
2.43.0


From 80181b7b00af5b570c265386a8f268fb9d2bf77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 65/97] fix: blank node labels with consecutive full stops are
 valid in N-Triples and N-Quads

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 8c04b42..336e33d 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -338,7 +338,7 @@ BLANK_NODE_LABEL = @{
 
 BLANK_NODE_LABEL_TAIL = {
     PN_CHARS
-  | &("." ~ PN_CHARS) ~ "."
+  | &("."+ ~ PN_CHARS) ~ "."
 }
 
 ANON = {
-- 
2.43.0


From e885fa51d1a2f06621704ec2f66a99a8254a363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 66/97] fix: N-Triples and N-Quads reader accepted '<' in an
 IRI

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 336e33d..d4a0c5a 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -319,7 +319,7 @@ IRIREF_INNER = @{
 
 IRIREF_CHAR = {
     /* #x00=NULL #01-#x1F=control codes #x20=space */
-    !(">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
+    !("<" | ">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
   | UCHAR
 }
 
-- 
2.43.0


From 17b96cc1cd6df89e053544a99fb48e630dc42b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 67/97] fix: N-Quads reader rejected statements without a graph
 name

---
 rdftk_io/src/common/parser/nquads.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/nquads.rs b/rdftk_io/src/common/parser/nquads.rs
index fb0c4ce..38d2c9e 100644
--- a/rdftk_io/src/common/parser/nquads.rs
+++ b/rdftk_io/src/common/parser/nquads.rs
@@ -56,7 +56,10 @@ fn nquad(input_pair: Pair<'_, Rule>, data_set: &mut DataSet) -> Result<(), Error
         let predicate: Iri = nt_predicate(inner_pairs.next().unwrap())?;
         let object: ObjectNode = nt_object(inner_pairs.next().unwrap())?;
         let statement: Statement = Statement::new(subject, predicate, object);
-        let graph: &mut Graph = if let Some(new_inner_pair) = inner_pairs.next() {
+        let graph: &mut Graph = if let Some(new_inner_pair) = inner_pairs
+            .next()
+            .filter(|pair| pair.as_rule() != Rule::END_OF_STATEMENT)
+        {
             let graph_name = subject_to_graph_name(nt_subject(new_inner_pair)?);
             if let Some(graph) = data_set.graph_mut(&Some(graph_name.clone())) {
                 graph
-- 
2.43.0


From c323d9c2f7775951fc40ea2be8591f7737517dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 68/97] fix: Turtle writer shortens converted IRIs only if they
 resolve to the converted IRI

---
 rdftk_io/src/turtle/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 628957d..ea04658 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -768,13 +768,13 @@ impl TurtleWriter {
         trace!(name: "compress_iri", ?iri);
         let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
+            let id_base_str = format!("{id_base:#}");
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
                 let target_id_base = format!("{convert_to_id_base:#}");
                 if let Some(suffix) = iri_str.strip_prefix(target_id_base.as_str()) {
-                    return Ok(format!("{IRI_START}{suffix}{IRI_END}"));
+                    iri_str = format!("{id_base_str}{suffix}");
                 }
             }
-            let id_base_str = format!("{id_base:#}");
             // A reader has to resolve what is written to the same Iri.
             if let Some(suffix) = iri_str.strip_prefix(id_base_str.as_str()) {
                 if resolves_to_suffix(&id_base_str, suffix) {
-- 
2.43.0


From d8c3242d1c5607b7f3e1db967008d3bcc98bc27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 69/97] fix: RDF/XML writer emitted control characters and line
 ends of literals as they are

---
 rdftk_io/src/xml/writer.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 811659a..c66df02 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -15,6 +15,7 @@ use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
 use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use xml::common::XmlVersion;
+use xml::escape::escape_str_attribute;
 use xml::writer::{EventWriter, XmlEvent};
 use xml::EmitterConfig;
 
@@ -151,9 +152,10 @@ impl ObjectWriter<Graph> for XmlWriter {
     where
         W: Write,
     {
-        let config = EmitterConfig::new()
+        let mut config = EmitterConfig::new()
             .perform_indent(self.options.pretty_print)
             .normalize_empty_elements(self.options.pretty_print);
+        config.perform_escaping = false;
         let mut writer = config.create_writer(w);
 
         writer
@@ -257,7 +259,7 @@ impl XmlWriter {
             writer
                 .write(
                     XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                        .attr(RDF_ABOUT.as_str(), subject.as_ref()),
+                        .attr(RDF_ABOUT.as_str(), &escape_str_attribute(subject.as_ref())),
                 )
                 .map_err(xml_error)?;
         } else {
@@ -281,6 +283,7 @@ impl XmlWriter {
 
                 if let Some(iri) = object.as_resource() {
                     let iri = format!("{iri:#}");
+                    let iri = escape_str_attribute(&iri);
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
@@ -301,6 +304,7 @@ impl XmlWriter {
                     }
                     if let Some(data_type) = literal.data_type() {
                         let dt_iri = format!("{:#}", data_type.as_iri());
+                        let dt_iri = escape_str_attribute(&dt_iri);
                         writer
                             .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
                             .map_err(xml_error)?
@@ -308,7 +312,9 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(&literal.unescaped_form()))
+                        .write(XmlEvent::Characters(&escape_text(
+                            &literal.unescaped_form(),
+                        )?))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
@@ -339,6 +345,30 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+/// Escape the characters that are markup, that are not read back as they are, or that may only
+/// be present as a character reference; it is an error if a character may not be present at all.
+fn escape_text(text: &str) -> Result<String, Error> {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '&' => escaped.push_str("&amp;"),
+            '\t' | '\n' => escaped.push(c),
+            '\0' | '\u{fffe}' | '\u{ffff}' => {
+                return Err(Error::Tokenizer {
+                    representation: super::NAME.into(),
+                    source: format!("character {c:?} is not allowed in XML").into(),
+                })
+            }
+            '\u{2028}' => escaped.push_str("&#x2028;"),
+            c if c.is_control() => escaped.push_str(&format!("&#x{:X};", c as u32)),
+            c => escaped.push(c),
+        }
+    }
+    Ok(escaped)
+}
+
 /// Split into a namespace, and the longest name that is valid as that of an XML element.
 fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
-- 
2.43.0


From 85828234b64d3978300a8047bd2e2c8a44be45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 70/97] fix: RDF/XML writer used names of the syntax as if they
 were names of properties

---
 rdftk_io/src/xml/writer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index c66df02..2a06ffe 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -337,6 +337,21 @@ impl XmlWriter {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+const NOT_PROPERTIES: [&str; 12] = [
+    "Description",
+    "RDF",
+    "ID",
+    "about",
+    "parseType",
+    "resource",
+    "nodeID",
+    "datatype",
+    "li",
+    "aboutEach",
+    "aboutEachPrefix",
+    "bagID",
+];
+
 #[inline]
 fn xml_error(e: xml::writer::Error) -> Error {
     Error::Tokenizer {
@@ -377,6 +392,10 @@ fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     match iri[candidates..].find(|c: char| c.is_ascii_alphabetic() || c == '_') {
         Some(index) => {
             let (namespace, name) = iri.split_at(candidates + index);
+            // SPEC: §5.1 The RDF Namespace and Vocabulary, names that are not for properties
+            if namespace == rdf::namespace_str() && NOT_PROPERTIES.contains(&name) {
+                return Err(invalid_qname_error(iri));
+            }
             Ok((namespace.to_string(), name.to_string()))
         }
         None => Err(invalid_qname_error(iri)),
-- 
2.43.0


From fc23863619b76cd30a5823c37fbfdfa08a658b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 71/97] fix: RDF/XML writer emitted blank node labels that are
 not XML names

---
 rdftk_io/src/xml/writer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 2a06ffe..ffc3d06 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -247,7 +247,7 @@ impl XmlWriter {
                 writer
                     .write(
                         XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                            .attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref()),
+                            .attr(RDF_NODE_ID.as_str(), &node_id(blank)),
                     )
                     .map_err(xml_error)?;
             } else {
@@ -288,7 +288,8 @@ impl XmlWriter {
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
                     if !nested.contains(blank) {
-                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
+                        let node_id = node_id(blank);
+                        element = element.attr(RDF_NODE_ID.as_str(), &node_id);
                         writer.write(element).map_err(xml_error)?;
                     } else {
                         writer.write(element).map_err(xml_error)?;
@@ -360,6 +361,16 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+/// The label of a blank node as a valid XML name, different for different labels.
+fn node_id(blank: &BlankNode) -> String {
+    let label: &str = blank.as_ref().as_ref();
+    if label.starts_with(|c: char| c.is_ascii_digit() || c == '_') {
+        format!("_{label}")
+    } else {
+        label.to_string()
+    }
+}
+
 /// Escape the characters that are markup, that are not read back as they are, or that may only
 /// be present as a character reference; it is an error if a character may not be present at all.
 fn escape_text(text: &str) -> Result<String, Error> {
-- 
2.43.0


From f92d2efd6652e2c503a18e24322bc228a3ec603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 72/97] fix: RDF/XML reader dropped property attributes of the
 RDF namespace, such as rdf:type

---
 rdftk_io/src/xml/reader.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index d443665..bd5462e 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -292,11 +292,13 @@ fn parse_predicate_attributes(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
         );
-        graph.insert(Statement::new(
-            subject.clone(),
-            name_to_iri(&attribute.name)?,
-            Literal::plain(&attribute.value),
-        ));
+        let predicate = name_to_iri(&attribute.name)?;
+        let object: ObjectNode = if &predicate == rdf::a_type() {
+            value_to_iri(&attribute.value)?.into()
+        } else {
+            Literal::plain(&attribute.value).into()
+        };
+        graph.insert(Statement::new(subject.clone(), predicate, object));
     }
     Ok(())
 }
@@ -648,6 +650,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                     // SPEC: any other value is as if it were "Literal"
                     response.parse_type = Some(ParseType::XmlLiteral);
                 }
+            } else {
+                response.inner.push(attribute);
             }
         } else {
             response.inner.push(attribute);
-- 
2.43.0


From 1b21e4a0fa7617880a7bd9d79908a29ac8197d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 73/97] fix: RDF/XML reader dropped property attributes on
 empty property elements

---
 rdftk_io/src/xml/reader.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index bd5462e..a3661f1 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -321,6 +321,11 @@ fn parse_predicate_element<R: Read>(
                 let attributes = parse_attributes(attributes)?;
                 if let Some(resource) = attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
+                    parse_predicate_attributes(
+                        &attributes.inner,
+                        &resource.clone().into(),
+                        graph,
+                    )?;
                     graph.insert(Statement::new(
                         subject.clone(),
                         name_to_iri(name)?,
@@ -329,11 +334,15 @@ fn parse_predicate_element<R: Read>(
                     parse_empty_element(event_reader)?;
                 } else if let Some(SubjectType::BlankNamed(blank)) = attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        name_to_iri(name)?,
-                        BlankNode::from_str(&blank)?,
-                    ));
+                    let blank = BlankNode::from_str(&blank)?;
+                    parse_predicate_attributes(&attributes.inner, &blank.clone().into(), graph)?;
+                    graph.insert(Statement::new(subject.clone(), name_to_iri(name)?, blank));
+                    parse_empty_element(event_reader)?;
+                } else if attributes.parse_type.is_none() && !attributes.inner.is_empty() {
+                    // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
+                    let blank = BlankNode::generate();
+                    parse_predicate_attributes(&attributes.inner, &blank.clone().into(), graph)?;
+                    graph.insert(Statement::new(subject.clone(), name_to_iri(name)?, blank));
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
-- 
2.43.0


From 247495ed314b33e39ef760b423dc337319b30a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 74/97] fix: RDF/XML writer declared the reserved xmlns
 namespace

---
 rdftk_io/src/xml/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index ffc3d06..c9ddbd9 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -407,6 +407,10 @@ fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
             if namespace == rdf::namespace_str() && NOT_PROPERTIES.contains(&name) {
                 return Err(invalid_qname_error(iri));
             }
+            // It is an error to declare a prefix for this one.
+            if namespace == "http://www.w3.org/2000/xmlns/" {
+                return Err(invalid_qname_error(iri));
+            }
             Ok((namespace.to_string(), name.to_string()))
         }
         None => Err(invalid_qname_error(iri)),
-- 
2.43.0


From 07939d25ad919e6bc6d07faa300219a72e04c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 75/97] fix: RDF/XML reader accepted documents with more than
 one root element

---
 rdftk_io/src/xml/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index a3661f1..7af12fc 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -16,7 +16,7 @@ use tracing::{error, trace};
 use xml::attribute::OwnedAttribute;
 use xml::name::OwnedName;
 use xml::reader::XmlEvent;
-use xml::{EventReader, EventWriter};
+use xml::{EventReader, EventWriter, ParserConfig};
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -81,7 +81,8 @@ impl ObjectReader<Graph> for XmlReader {
     where
         R: Read,
     {
-        let mut event_reader = EventReader::new(r);
+        let config = ParserConfig::new().allow_multiple_root_elements(false);
+        let mut event_reader = EventReader::new_with_config(r, config);
         parse_document(&mut event_reader)
     }
 }
-- 
2.43.0


From c9c4ba8a50879b6830271c8081c5e74e9fd9a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 76/97] fix: DOT writer escapes the characters which are syntax
 in a label

---
 rdftk_io/src/dot/writer.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index b4ee6aa..d577dd0 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -438,7 +438,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Literal,
-                        label: node.as_literal().unwrap().lexical_form().clone(),
+                        label: escape_label(&node.as_literal().unwrap().unescaped_form()),
                     },
                 );
             }
@@ -446,3 +446,25 @@ impl DotWriter {
         }
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+// In a label a backslash introduces an escape, and in the label of a node with a `record` shape
+// braces, vertical bars and angle brackets are the syntax of fields.
+fn escape_label(text: &str) -> String {
+    let mut label = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '\n' => label.push_str("\\n"),
+            '\r' => label.push_str("\\r"),
+            '"' | '\\' | '{' | '}' | '|' | '<' | '>' => {
+                label.push('\\');
+                label.push(c);
+            }
+            _ => label.push(c),
+        }
+    }
+    label
+}
-- 
2.43.0


From 190048970b297e6ad199f98096849c042f803808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 77/97] fix: log to the standard error, not into the document
 on the standard output

---
 rdftk_cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdftk_cli/src/main.rs b/rdftk_cli/src/main.rs
index ce9f35d..6951784 100644
--- a/rdftk_cli/src/main.rs
+++ b/rdftk_cli/src/main.rs
@@ -105,7 +105,11 @@ fn init_logging(log_filter: LogFilter) -> Result<(), Error> {
             .parse()
             .map_err(unknown_error)?,
     );
-    let subscriber = FmtSubscriber::builder().with_env_filter(filter).finish();
+    let subscriber = FmtSubscriber::builder()
+        .with_env_filter(filter)
+        // the standard output is for documents
+        .with_writer(std::io::stderr)
+        .finish();
 
     tracing::subscriber::set_global_default(subscriber).map_err(unknown_error)?;
 
-- 
2.43.0


From 32424730b75491b072b84d7ddd322897db4a2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 78/97] fix: readers of Turtle, TriG and N3 panicked instead of
 returning an error

---
 rdftk_io/src/common/parser/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/common/parser/mod.rs b/rdftk_io/src/common/parser/mod.rs
index 5364207..dcd86b2 100644
--- a/rdftk_io/src/common/parser/mod.rs
+++ b/rdftk_io/src/common/parser/mod.rs
@@ -102,7 +102,7 @@ where
 {
     let span = span!(Level::TRACE, "Turtle");
     let _guard = span.enter();
-    todo!()
+    Err(unsupported("Turtle"))
 }
 
 pub(crate) fn parse_trig_doc<S>(_source: S) -> Result<DataSet, Error>
@@ -111,7 +111,7 @@ where
 {
     let span = span!(Level::TRACE, "TRiG");
     let _guard = span.enter();
-    todo!()
+    Err(unsupported("TriG"))
 }
 
 pub(crate) fn parse_n3_doc<S>(_source: S) -> Result<Graph, Error>
@@ -120,7 +120,7 @@ where
 {
     let span = span!(Level::TRACE, "N3");
     let _guard = span.enter();
-    todo!()
+    Err(unsupported("N3"))
 }
 
 // ------------------------------------------------------------------------------------------------
@@ -131,6 +131,18 @@ where
 #[grammar = "common/common.pest"]
 struct CommonParser;
 
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn unsupported(representation: &str) -> Error {
+    std::io::Error::new(
+        std::io::ErrorKind::Unsupported,
+        format!("reading {representation} is not supported"),
+    )
+    .into()
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 1b5d3b2e577abc6e50f8312f37c8af5b870f216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 79/97] fix: commands panicked for formats that are not
 supported

---
 rdftk_cli/src/commands/mod.rs        | 18 ++++++++++++++----
 rdftk_cli/src/commands/namespaces.rs |  6 +++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/rdftk_cli/src/commands/mod.rs b/rdftk_cli/src/commands/mod.rs
index 687af36..2822f2a 100644
--- a/rdftk_cli/src/commands/mod.rs
+++ b/rdftk_cli/src/commands/mod.rs
@@ -83,8 +83,9 @@ pub(crate) fn read_graph(
             let reader = json::JsonReader::default();
             reader.read(input)?
         }
-        Representation::JsonLd => todo!(),
-        Representation::N3 => todo!(),
+        Representation::JsonLd | Representation::N3 => {
+            return Err(unsupported("reading", from_repr));
+        }
         Representation::NTriples => {
             let reader = nt::NTripleReader::default();
             reader.read(input)?
@@ -135,8 +136,9 @@ pub(crate) fn write_graph(
             let writer = json::JsonWriter::default();
             writer.write(output, graph)?;
         }
-        Representation::JsonLd => todo!(),
-        Representation::N3 => todo!(),
+        Representation::JsonLd | Representation::N3 => {
+            return Err(unsupported("writing", to_repr));
+        }
         Representation::NQuads => {
             let writer = nq::NQuadWriter::default();
             writer.write(output, graph)?;
@@ -161,6 +163,14 @@ pub(crate) fn write_graph(
     Ok(())
 }
 
+pub(crate) fn unsupported(what: &str, repr: Representation) -> Error {
+    std::io::Error::new(
+        std::io::ErrorKind::Unsupported,
+        format!("{what} {repr:?} is not supported"),
+    )
+    .into()
+}
+
 pub(crate) fn write_dataset(
     dataset: &DataSet,
     output: &mut clio::Output,
diff --git a/rdftk_cli/src/commands/namespaces.rs b/rdftk_cli/src/commands/namespaces.rs
index 4e90eb7..80ab4bc 100644
--- a/rdftk_cli/src/commands/namespaces.rs
+++ b/rdftk_cli/src/commands/namespaces.rs
@@ -50,7 +50,11 @@ pub(crate) enum KnownNamespace {
 
 impl Command for NamespaceCmd {
     fn execute(self) -> Result<ExitCode, Error> {
-        todo!()
+        Err(std::io::Error::new(
+            std::io::ErrorKind::Unsupported,
+            "the namespace command is not supported",
+        )
+        .into())
     }
 }
 
-- 
2.43.0


From bcc34717abef1f6d2145a5d4b9efec6fee6976d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:22 +0000
Subject: [PATCH 80/97] fix: converting a data set panicked

---
 rdftk_cli/src/commands/mod.rs             | 4 +++-
 rdftk_cli/src/commands/representations.rs | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/rdftk_cli/src/commands/mod.rs b/rdftk_cli/src/commands/mod.rs
index 2822f2a..2397fc3 100644
--- a/rdftk_cli/src/commands/mod.rs
+++ b/rdftk_cli/src/commands/mod.rs
@@ -190,7 +190,9 @@ pub(crate) fn write_dataset(
         | Representation::N3
         | Representation::NTriples
         | Representation::Turtle
-        | Representation::Xml => unreachable!(),
+        | Representation::Xml => {
+            return Err(unsupported("writing a data set as", to_repr));
+        }
     };
     Ok(())
 }
diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 171e17e..ac99a84 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -51,8 +51,13 @@ pub(crate) struct ConvertCmd {
 
 impl Command for ConvertCmd {
     fn execute(mut self) -> Result<ExitCode, Error> {
-        let graph = super::read_graph(&mut self.input, self.from)?;
-        super::write_graph(&graph, &mut self.output, self.to)?;
+        if self.from.is_dataset_representation() {
+            let data_set = super::read_dataset(&mut self.input, self.from)?;
+            super::write_dataset(&data_set, &mut self.output, self.to)?;
+        } else {
+            let graph = super::read_graph(&mut self.input, self.from)?;
+            super::write_graph(&graph, &mut self.output, self.to)?;
+        }
         Ok(ExitCode::SUCCESS)
     }
 }
-- 
2.43.0


From 4fedf45cdfc8993299acd184fcd639223ceed759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 81/97] fix: output lost at the end of the standard output went
 unnoticed

---
 rdftk_cli/src/commands/draw.rs            | 2 ++
 rdftk_cli/src/commands/representations.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rdftk_cli/src/commands/draw.rs b/rdftk_cli/src/commands/draw.rs
index b67e130..9fb4fcb 100644
--- a/rdftk_cli/src/commands/draw.rs
+++ b/rdftk_cli/src/commands/draw.rs
@@ -3,6 +3,7 @@ use clap::Args;
 use objio::{ObjectWriter};
 use rdftk_core::{error::Error};
 use rdftk_io::{dot};
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -55,6 +56,7 @@ impl Command for DrawCmd {
             let graph = super::read_graph(&mut self.input, self.from)?;
             let writer = dot::DotWriter::default();
             writer.write(&mut self.output, &graph)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         }
     }
diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index ac99a84..13b781a 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -1,6 +1,7 @@
 use super::{Command, Representation};
 use clap::Args;
 use rdftk_core::error::Error;
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -58,6 +59,7 @@ impl Command for ConvertCmd {
             let graph = super::read_graph(&mut self.input, self.from)?;
             super::write_graph(&graph, &mut self.output, self.to)?;
         }
+        self.output.flush()?;
         Ok(ExitCode::SUCCESS)
     }
 }
-- 
2.43.0


From 426dcf52d80b8eb884ccfa159096493788a03129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 82/97] fix: write the characters of an IRI that IRIREF
 excludes as escapes in N-Triples and N-Quads

---
 rdftk_io/src/common/mod.rs | 66 +++++++++++++++++++++++++++++++++++---
 rdftk_io/src/nq/writer.rs  |  9 ++++--
 rdftk_io/src/nt/writer.rs  | 15 ++++++---
 3 files changed, 79 insertions(+), 11 deletions(-)

diff --git a/rdftk_io/src/common/mod.rs b/rdftk_io/src/common/mod.rs
index 3ec06d6..2f7bc0a 100644
--- a/rdftk_io/src/common/mod.rs
+++ b/rdftk_io/src/common/mod.rs
@@ -3,10 +3,17 @@ Internal, common, code for reader and writer implementations.
 */
 
 #[cfg(any(feature = "trig", feature = "turtle", feature = "xml"))]
-use rdftk_core::model::{
-    graph::Graph,
-    statement::{BlankNode, ObjectNode, SubjectNode},
-};
+use rdftk_core::model::{graph::Graph, statement::BlankNode};
+#[cfg(any(feature = "nq", feature = "trig"))]
+use rdftk_core::model::graph::GraphName;
+#[cfg(any(
+    feature = "nq",
+    feature = "nt",
+    feature = "trig",
+    feature = "turtle",
+    feature = "xml"
+))]
+use rdftk_core::model::statement::{ObjectNode, SubjectNode};
 #[cfg(any(feature = "trig", feature = "turtle", feature = "xml"))]
 use std::collections::{BTreeMap, HashSet};
 
@@ -56,6 +63,57 @@ pub(crate) fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
         .collect()
 }
 
+/// Write an IRI as an `IRIREF`; the characters that are not allowed there, but which the text of
+/// an IRI may have, are written as numeric escapes.
+#[cfg(any(feature = "nq", feature = "nt", feature = "trig", feature = "turtle"))]
+pub(crate) fn iri_ref(iri: &str) -> String {
+    let mut iri_ref = String::with_capacity(iri.len() + 2);
+    iri_ref.push('<');
+    for c in iri.chars() {
+        match c {
+            '\0'..=' ' | '<' | '>' | '"' | '{' | '}' | '|' | '^' | '`' | '\\' => {
+                iri_ref.push_str(&format!("\\u{:04X}", c as u32))
+            }
+            _ => iri_ref.push(c),
+        }
+    }
+    iri_ref.push('>');
+    iri_ref
+}
+
+/// Write the name of a graph as N-Quads and TriG do.
+#[cfg(any(feature = "nq", feature = "trig"))]
+pub(crate) fn graph_name_text(name: &GraphName) -> String {
+    match name.as_iri() {
+        Some(iri) => iri_ref(&format!("{iri:#}")),
+        None => name.to_string(),
+    }
+}
+
+/// Write a subject as N-Triples and N-Quads do.
+#[cfg(any(feature = "nq", feature = "nt"))]
+pub(crate) fn subject_text(subject: &SubjectNode) -> String {
+    match subject.as_resource() {
+        Some(iri) => iri_ref(&format!("{iri:#}")),
+        None => subject.to_string(),
+    }
+}
+
+/// Write an object as N-Triples and N-Quads do.
+#[cfg(any(feature = "nq", feature = "nt"))]
+pub(crate) fn object_text(object: &ObjectNode) -> String {
+    let data_type = object.as_literal().and_then(|literal| literal.data_type());
+    match (object.as_resource(), object.as_literal(), data_type) {
+        (Some(iri), _, _) => iri_ref(&format!("{iri:#}")),
+        (_, Some(literal), Some(data_type)) => format!(
+            "\"{}\"^^{}",
+            literal.lexical_form(),
+            iri_ref(&format!("{:#}", data_type.as_iri()))
+        ),
+        _ => format!("{object:#}"),
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 004113f..6df99e7 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -4,6 +4,7 @@ use rdftk_core::model::data_set::DataSet;
 use rdftk_core::model::graph::Graph;
 use std::io::Write;
 
+use crate::common::{graph_name_text, iri_ref, object_text, subject_text};
 use crate::GraphWriter;
 
 // ------------------------------------------------------------------------------------------------
@@ -46,10 +47,14 @@ impl ObjectWriter<Graph> for NQuadWriter {
         for subject in simple_graph.subjects() {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
+                    let subject = subject_text(subject);
+                    let predicate = iri_ref(&format!("{predicate:#}"));
+                    let object = object_text(object);
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} {} {:#} {} .", subject, predicate, object, graph_name)?;
+                        let graph_name = graph_name_text(graph_name);
+                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} {} {:#} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index d5755a3..526fa7d 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -1,7 +1,9 @@
+use crate::common::{iri_ref, object_text, subject_text};
 use crate::GraphWriter;
 use objio::{HasOptions, ObjectWriter};
 use rdftk_core::error::Error;
 use rdftk_core::model::graph::Graph;
+use rdftk_core::model::literal::DataType;
 use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
@@ -37,11 +39,14 @@ impl ObjectWriter<Graph> for NTripleWriter {
         for subject in simple_graph.subjects() {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
-                    if self.options().force_string_literals {
-                        writeln!(w, "{subject} {predicate} {object:#} .")?;
-                    } else {
-                        writeln!(w, "{subject} {predicate} {object} .")?;
-                    }
+                    let subject = subject_text(subject);
+                    let predicate = iri_ref(&format!("{predicate:#}"));
+                    let object = match object.as_literal().and_then(|l| l.data_type()) {
+                        None | Some(DataType::Other(_)) => object_text(object),
+                        _ if self.options().force_string_literals => object_text(object),
+                        _ => object.to_string(),
+                    };
+                    writeln!(w, "{subject} {predicate} {object} .")?;
                 }
             }
         }
-- 
2.43.0


From 7d80e9105732575bc7f1a358e8e25665057232a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 83/97] fix: write the characters of an IRI that IRIREF
 excludes as escapes in Turtle and TriG

---
 rdftk_io/src/trig/writer.rs   |  3 ++-
 rdftk_io/src/turtle/writer.rs | 19 +++++++------------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/rdftk_io/src/trig/writer.rs b/rdftk_io/src/trig/writer.rs
index 647ab50..b69a15b 100644
--- a/rdftk_io/src/trig/writer.rs
+++ b/rdftk_io/src/trig/writer.rs
@@ -1,3 +1,4 @@
+use crate::common::graph_name_text;
 use crate::turtle::{TurtleWriter, TurtleWriterOptions};
 use crate::{DataSetWriter, GraphWriter};
 use objio::{impl_has_options, HasOptions, ObjectWriter};
@@ -114,7 +115,7 @@ impl TrigWriter {
             if !self.options().omit_graph_keyword() {
                 open.push_str("GRAPH ");
             }
-            open.push_str(&format!("{name} "));
+            open.push_str(&format!("{} ", graph_name_text(name)));
         }
         open.push_str("{\n");
         TurtleWriter::default()
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index ea04658..1baa4ac 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -1,5 +1,5 @@
 use crate::{
-    common::{indenter::Indenter, nested_blanks},
+    common::{indenter::Indenter, iri_ref, nested_blanks},
     GraphWriter,
 };
 use itertools::Itertools;
@@ -122,8 +122,6 @@ const DECL_BASE_SPARQL: &str = "BASE";
 const DECL_PREFIX_TTL: &str = "@prefix";
 const DECL_PREFIX_SPARQL: &str = "PREFIX";
 const NAME_SEPARATOR: &str = ":";
-const IRI_START: &str = "<";
-const IRI_END: &str = ">";
 const BLANK_NODE_PREFIX: &str = "_";
 const BLANK_NODE_START: &str = "[";
 const BLANK_NODE_END: &str = "]";
@@ -553,11 +551,7 @@ impl TurtleWriter {
                 } else {
                     (DECL_BASE_TTL, END_OF_STATEMENT)
                 };
-            writeln!(
-                w,
-                "{decl} {IRI_START}{}{IRI_END}{eos}",
-                format!("{base:#}").as_str()
-            )?;
+            writeln!(w, "{decl} {}{eos}", iri_ref(&format!("{base:#}")))?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
             }
@@ -591,7 +585,8 @@ impl TurtleWriter {
                         break;
                     }
                 }
-                trace!("write_prefixes {prefix}: {IRI_START}{namespace_str}{IRI_END}");
+                let namespace_str = iri_ref(&namespace_str);
+                trace!("write_prefixes {prefix}: {namespace_str}");
                 let (decl, eos) =
                     if self.options.use_sparql_style() && !self.options.use_intellij_style() {
                         (DECL_PREFIX_SPARQL, "")
@@ -600,7 +595,7 @@ impl TurtleWriter {
                     };
                 writeln!(
                     w,
-                    "{decl} {prefix}{NAME_SEPARATOR} {IRI_START}{namespace_str}{IRI_END}{eos}"
+                    "{decl} {prefix}{NAME_SEPARATOR} {namespace_str}{eos}"
                 )?;
             }
             writeln!(w)?;
@@ -778,7 +773,7 @@ impl TurtleWriter {
             // A reader has to resolve what is written to the same Iri.
             if let Some(suffix) = iri_str.strip_prefix(id_base_str.as_str()) {
                 if resolves_to_suffix(&id_base_str, suffix) {
-                    return Ok(format!("{IRI_START}{suffix}{IRI_END}"));
+                    return Ok(iri_ref(suffix));
                 }
             }
         }
@@ -794,7 +789,7 @@ impl TurtleWriter {
         }
         let iri = Iri::from_str(iri_str.as_str()).map_err(rdftk_iri::Error::from)?;
         Ok(match graph.prefix_mappings().compress(&iri) {
-            None => format!("{IRI_START}{iri:#}{IRI_END}"),
+            None => iri_ref(&format!("{iri:#}")),
             Some(_qname) => format!("{_qname}"),
         })
     }
-- 
2.43.0


From b6e071dffda56300fecee84dfddce6c0d1f8ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 84/97] fix: escape IRIs in the strings and labels of DOT

---
 rdftk_io/src/dot/writer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index d577dd0..31c1555 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -300,7 +300,7 @@ impl ObjectWriter<Graph> for DotWriter {
                 self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => format!("{:#}", statement.predicate()),
+                    None => escape_label(&format!("{:#}", statement.predicate())),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -339,8 +339,8 @@ impl ObjectWriter<Graph> for DotWriter {
                         "    \"{}{}\" [URL=\"{}\",label=\"{}\",shape={},color={}];",
                         self.options.node_prefix,
                         node.id,
-                        node.label,
-                        node.label,
+                        escape_string(&node.label),
+                        escape_label(&node.label),
                         self.options.iri_shape,
                         self.options.iri_color
                     )?;
@@ -451,6 +451,11 @@ impl DotWriter {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+// In any string a backslash introduces an escape.
+fn escape_string(text: &str) -> String {
+    text.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 // In a label a backslash introduces an escape, and in the label of a node with a `record` shape
 // braces, vertical bars and angle brackets are the syntax of fields.
 fn escape_label(text: &str) -> String {
-- 
2.43.0


From 04b0cc8999be1aacf958ae6e5133c5bd460fff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 85/97] fix: xml:lang applies to everything in an element,
 including property attributes

---
 rdftk_io/src/xml/reader.rs | 122 +++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 65 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 7af12fc..18f4b18 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -59,13 +59,19 @@ enum Content {
     Text(String),
 }
 
+/// What is in effect for an element, and for all those in it.
+#[derive(Clone, Debug, Default)]
+struct Scope {
+    uri_base: Option<Iri>,
+    language: Option<LanguageTag>,
+}
+
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
+    scope: Scope,
     subject_type: Option<SubjectType>,
     parse_type: Option<ParseType>,
-    uri_base: Option<Iri>,
     data_type: Option<Iri>,
-    language: Option<LanguageTag>,
     resource: Option<Iri>,
     inner: Vec<&'a OwnedAttribute>,
 }
@@ -155,9 +161,9 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 attributes,
             }) => {
                 trace_event!("parse_document" => event);
-                let attributes = parse_attributes(attributes)?;
+                let attributes = parse_attributes(attributes, &Scope::default())?;
                 if rdf_element.matches(name) {
-                    parse_subject_element(event_reader, &attributes.uri_base, &mut graph)?;
+                    parse_subject_element(event_reader, &attributes.scope, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -174,7 +180,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
 
 fn parse_subject_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<(), Error> {
     loop {
@@ -186,7 +192,7 @@ fn parse_subject_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_subject_element" => event);
-                let _ = parse_node_element(event_reader, name, attributes, xml_base, graph)?;
+                let _ = parse_node_element(event_reader, name, attributes, scope, graph)?;
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_subject_element" => event);
@@ -207,11 +213,11 @@ fn parse_node_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     name: &OwnedName,
     attributes: &[OwnedAttribute],
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<SubjectNode, Error> {
     let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
-    let attributes = parse_attributes(attributes)?;
+    let attributes = parse_attributes(attributes, scope)?;
     let subject_node: SubjectNode = match &attributes.subject_type {
         None => {
             // SPEC: §2.1 Introduction
@@ -223,7 +229,7 @@ fn parse_node_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let Some(base) = attributes.uri_base.as_ref().or(xml_base.as_ref()) else {
+            let Some(base) = &attributes.scope.uri_base else {
                 error_event!(state => "parse_node_element", "rdf:ID requires an xml:base");
             };
             let uri = format!("{:#}#{subject}", base.with_no_fragment());
@@ -242,17 +248,8 @@ fn parse_node_element<R: Read>(
             name_to_iri(name)?,
         ));
     }
-    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-    parse_predicate_element(
-        event_reader,
-        if attributes.uri_base.is_some() {
-            &attributes.uri_base
-        } else {
-            xml_base
-        },
-        &subject_node,
-        graph,
-    )?;
+    parse_predicate_attributes(&attributes, &subject_node, graph)?;
+    parse_predicate_element(event_reader, &attributes.scope, &subject_node, graph)?;
     Ok(subject_node)
 }
 
@@ -281,14 +278,22 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
     Ok(Iri::from_str(name).map_err(rdftk_iri::Error::from)?)
 }
 
+/// SPEC: §2.7 Languages: xml:lang
+fn text_literal(text: &str, scope: &Scope) -> Literal {
+    match &scope.language {
+        Some(language) => Literal::with_language(text, language.clone()),
+        None => Literal::plain(text),
+    }
+}
+
 fn parse_predicate_attributes(
-    attributes: &[&OwnedAttribute],
+    attributes: &Attributes<'_>,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
     // SPEC: §2.5 Property Attributes
     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
-    for attribute in attributes {
+    for attribute in &attributes.inner {
         trace!(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
@@ -297,7 +302,7 @@ fn parse_predicate_attributes(
         let object: ObjectNode = if &predicate == rdf::a_type() {
             value_to_iri(&attribute.value)?.into()
         } else {
-            Literal::plain(&attribute.value).into()
+            text_literal(&attribute.value, &attributes.scope).into()
         };
         graph.insert(Statement::new(subject.clone(), predicate, object));
     }
@@ -306,7 +311,7 @@ fn parse_predicate_attributes(
 
 fn parse_predicate_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
@@ -319,42 +324,34 @@ fn parse_predicate_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_predicate_element" => event);
-                let attributes = parse_attributes(attributes)?;
-                if let Some(resource) = attributes.resource {
+                let attributes = parse_attributes(attributes, scope)?;
+                if let Some(resource) = &attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
-                    parse_predicate_attributes(
-                        &attributes.inner,
-                        &resource.clone().into(),
-                        graph,
-                    )?;
+                    parse_predicate_attributes(&attributes, &resource.clone().into(), graph)?;
                     graph.insert(Statement::new(
                         subject.clone(),
                         name_to_iri(name)?,
-                        resource,
+                        resource.clone(),
                     ));
                     parse_empty_element(event_reader)?;
-                } else if let Some(SubjectType::BlankNamed(blank)) = attributes.subject_type {
+                } else if let Some(SubjectType::BlankNamed(blank)) = &attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                    let blank = BlankNode::from_str(&blank)?;
-                    parse_predicate_attributes(&attributes.inner, &blank.clone().into(), graph)?;
+                    let blank = BlankNode::from_str(blank)?;
+                    parse_predicate_attributes(&attributes, &blank.clone().into(), graph)?;
                     graph.insert(Statement::new(subject.clone(), name_to_iri(name)?, blank));
                     parse_empty_element(event_reader)?;
                 } else if attributes.parse_type.is_none() && !attributes.inner.is_empty() {
                     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
                     let blank = BlankNode::generate();
-                    parse_predicate_attributes(&attributes.inner, &blank.clone().into(), graph)?;
+                    parse_predicate_attributes(&attributes, &blank.clone().into(), graph)?;
                     graph.insert(Statement::new(subject.clone(), name_to_iri(name)?, blank));
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
                         None => {
-                            let xml_base = if attributes.uri_base.is_some() {
-                                &attributes.uri_base
-                            } else {
-                                xml_base
-                            };
+                            let scope = &attributes.scope;
                             let object: ObjectNode =
-                                match parse_object_element(event_reader, xml_base, graph)? {
+                                match parse_object_element(event_reader, scope, graph)? {
                                     Content::Node(node) => node.to_object(),
                                     Content::Text(content) => {
                                         if let Some(data_type) = attributes.data_type {
@@ -363,11 +360,8 @@ fn parse_predicate_element<R: Read>(
                                                 &content,
                                                 DataType::from(data_type),
                                             )
-                                        } else if let Some(language) = attributes.language {
-                                            // SPEC: §2.7 Languages: xml:lang
-                                            Literal::with_language(&content, language)
                                         } else {
-                                            Literal::plain(&content)
+                                            text_literal(&content, scope)
                                         }
                                         .into()
                                     }
@@ -395,11 +389,7 @@ fn parse_predicate_element<R: Read>(
                             //parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
                             parse_predicate_element(
                                 event_reader,
-                                if attributes.uri_base.is_some() {
-                                    &attributes.uri_base
-                                } else {
-                                    xml_base
-                                },
+                                &attributes.scope,
                                 &subject_node,
                                 graph,
                             )?;
@@ -413,11 +403,7 @@ fn parse_predicate_element<R: Read>(
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
                             let members = parse_collection_element(
                                 event_reader,
-                                if attributes.uri_base.is_some() {
-                                    &attributes.uri_base
-                                } else {
-                                    xml_base
-                                },
+                                &attributes.scope,
                                 graph,
                             )?;
                             graph.insert(Statement::new(
@@ -472,7 +458,7 @@ fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Resul
 
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<Content, Error> {
     let mut content = String::new();
@@ -498,7 +484,7 @@ fn parse_object_element<R: Read>(
                     event_reader,
                     name,
                     attributes,
-                    xml_base,
+                    scope,
                     graph,
                 )?);
             }
@@ -543,7 +529,7 @@ fn parse_object_element<R: Read>(
 
 fn parse_collection_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<Vec<ObjectNode>, Error> {
     let mut members = Vec::default();
@@ -555,7 +541,7 @@ fn parse_collection_element<R: Read>(
             }) => {
                 trace_event!("parse_collection_element" => event);
                 members.push(
-                    parse_node_element(event_reader, name, attributes, xml_base, graph)?
+                    parse_node_element(event_reader, name, attributes, scope, graph)?
                         .to_object(),
                 );
             }
@@ -618,13 +604,15 @@ fn parse_xml_literal_element<R: Read>(
     }
 }
 
-fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Error> {
+fn parse_attributes<'a>(
+    attributes: &'a [OwnedAttribute],
+    scope: &Scope,
+) -> Result<Attributes<'a>, Error> {
     let mut response = Attributes {
+        scope: scope.clone(),
         subject_type: None,
         parse_type: None,
-        uri_base: None,
         data_type: None,
-        language: None,
         resource: None,
         inner: Default::default(),
     };
@@ -632,9 +620,13 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
     for attribute in attributes {
         if attribute.name.namespace == Some(XML_NAMESPACE.to_string()) {
             if attribute.name.local_name == ATTRIBUTE_XML_BASE {
-                response.uri_base = Some(value_to_iri(&attribute.value)?);
+                response.scope.uri_base = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_XML_LANG {
-                response.language = Some(LanguageTag::from_str(&attribute.value)?);
+                // An empty value is for no language
+                response.scope.language = match attribute.value.as_str() {
+                    "" => None,
+                    language => Some(LanguageTag::from_str(language)?),
+                };
             }
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
-- 
2.43.0


From a1664bfc7149eb97ba6c91a66bf514f2dd6af2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 86/97] fix: rdf:li elements state the numbered membership
 properties

---
 rdftk_io/src/xml/reader.rs | 25 +++++++++++++++++--------
 rdftk_io/src/xml/syntax.rs |  1 +
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 18f4b18..220ee7d 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,6 +1,6 @@
 use crate::xml::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
-    ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_LI, ELEMENT_RDF,
     PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
@@ -315,6 +315,8 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
+    let member_element = ExpectedName::new(ELEMENT_LI, rdf::namespace_str());
+    let mut members = 0;
     loop {
         let event = event_reader.next();
         match &event {
@@ -325,12 +327,19 @@ fn parse_predicate_element<R: Read>(
             }) => {
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes, scope)?;
+                let predicate = if member_element.matches(name) {
+                    // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
+                    members += 1;
+                    value_to_iri(&format!("{}_{members}", rdf::namespace_str()))?
+                } else {
+                    name_to_iri(name)?
+                };
                 if let Some(resource) = &attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
                     parse_predicate_attributes(&attributes, &resource.clone().into(), graph)?;
                     graph.insert(Statement::new(
                         subject.clone(),
-                        name_to_iri(name)?,
+                        predicate,
                         resource.clone(),
                     ));
                     parse_empty_element(event_reader)?;
@@ -338,13 +347,13 @@ fn parse_predicate_element<R: Read>(
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
                     let blank = BlankNode::from_str(blank)?;
                     parse_predicate_attributes(&attributes, &blank.clone().into(), graph)?;
-                    graph.insert(Statement::new(subject.clone(), name_to_iri(name)?, blank));
+                    graph.insert(Statement::new(subject.clone(), predicate, blank));
                     parse_empty_element(event_reader)?;
                 } else if attributes.parse_type.is_none() && !attributes.inner.is_empty() {
                     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
                     let blank = BlankNode::generate();
                     parse_predicate_attributes(&attributes, &blank.clone().into(), graph)?;
-                    graph.insert(Statement::new(subject.clone(), name_to_iri(name)?, blank));
+                    graph.insert(Statement::new(subject.clone(), predicate, blank));
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
@@ -368,7 +377,7 @@ fn parse_predicate_element<R: Read>(
                                 };
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 object,
                             ));
                         }
@@ -379,7 +388,7 @@ fn parse_predicate_element<R: Read>(
                                 .replace('>', "&gt;");
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 Literal::with_data_type(&content, DataType::XmlLiteral),
                             ));
                         }
@@ -395,7 +404,7 @@ fn parse_predicate_element<R: Read>(
                             )?;
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 subject_node.to_object(),
                             ));
                         }
@@ -408,7 +417,7 @@ fn parse_predicate_element<R: Read>(
                             )?;
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 Collection::from(members),
                             ));
                         }
diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index 1cb883b..e266af7 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -21,6 +21,7 @@ pub(super) const ATTRIBUTE_XML_LANG: &str = "lang";
 pub(super) const ATTRIBUTE_XML_LANG_PREFIXED: &str = "xml:lang";
 
 pub(super) const ELEMENT_DESCRIPTION: &str = "Description";
+pub(super) const ELEMENT_LI: &str = "li";
 pub(super) const ELEMENT_RDF: &str = "RDF";
 
 pub(super) const PARSE_TYPE_COLLECTION: &str = "Collection";
-- 
2.43.0


From f796cc6eaf54b9287cc48690f07999eadf9b430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 87/97] fix: rdf:ID of a property element identifies the
 statement

---
 rdftk_io/src/xml/reader.rs | 122 +++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 45 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 220ee7d..956a08c 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,7 +1,7 @@
 use crate::xml::syntax::{
-    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
-    ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_LI, ELEMENT_RDF,
-    PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
+    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_LI,
+    ELEMENT_RDF, PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
@@ -42,7 +42,6 @@ struct ExpectedName {
 enum SubjectType {
     BlankNamed(String),
     Resource(Iri),
-    RelativeResource(String),
 }
 
 #[derive(Clone, Debug)]
@@ -70,6 +69,7 @@ struct Scope {
 struct Attributes<'a> {
     scope: Scope,
     subject_type: Option<SubjectType>,
+    id: Option<String>,
     parse_type: Option<ParseType>,
     data_type: Option<Iri>,
     resource: Option<Iri>,
@@ -219,22 +219,16 @@ fn parse_node_element<R: Read>(
     let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
     let attributes = parse_attributes(attributes, scope)?;
     let subject_node: SubjectNode = match &attributes.subject_type {
-        None => {
+        None => match &attributes.id {
             // SPEC: §2.1 Introduction
-            BlankNode::generate().into()
-        }
+            None => BlankNode::generate().into(),
+            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
+            Some(id) => id_to_iri(id, &attributes)?.into(),
+        },
         Some(SubjectType::Resource(subject)) => {
             // SPEC: §2.2 Node Elements and Property Elements
             subject.clone().into()
         }
-        Some(SubjectType::RelativeResource(subject)) => {
-            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let Some(base) = &attributes.scope.uri_base else {
-                error_event!(state => "parse_node_element", "rdf:ID requires an xml:base");
-            };
-            let uri = format!("{:#}#{subject}", base.with_no_fragment());
-            value_to_iri(&uri)?.into()
-        }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
             BlankNode::from_str(subject)?.into()
@@ -278,6 +272,45 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
     Ok(Iri::from_str(name).map_err(rdftk_iri::Error::from)?)
 }
 
+fn id_to_iri(id: &str, attributes: &Attributes<'_>) -> Result<Iri, Error> {
+    let Some(base) = &attributes.scope.uri_base else {
+        error_event!(state => "id_to_iri", "rdf:ID requires an xml:base");
+    };
+    value_to_iri(&format!("{:#}#{id}", base.with_no_fragment()))
+}
+
+/// Insert the statement, and a description of it if it has an identifier.
+fn insert_property<O: Into<ObjectNode>>(
+    graph: &mut Graph,
+    subject: &SubjectNode,
+    predicate: Iri,
+    object: O,
+    id: &Option<Iri>,
+) {
+    let mut object = object.into();
+    if let Some(id) = id {
+        if let Some(members) = object.clone().as_collection() {
+            // It is one list that both statements have as their object.
+            object = rdf::nil().into();
+            for member in members.iter().collect::<Vec<_>>().into_iter().rev() {
+                let cell = BlankNode::generate();
+                graph.insert(Statement::new(&cell, rdf::first().clone(), member.clone()));
+                graph.insert(Statement::new(&cell, rdf::rest().clone(), object));
+                object = cell.into();
+            }
+        }
+        for (property, value) in [
+            (rdf::a_type(), rdf::statement().into()),
+            (rdf::subject(), subject.to_object()),
+            (rdf::predicate(), predicate.clone().into()),
+            (rdf::object(), object.clone()),
+        ] {
+            graph.insert(Statement::new(id, property.clone(), value));
+        }
+    }
+    graph.insert(Statement::new(subject.clone(), predicate, object));
+}
+
 /// SPEC: §2.7 Languages: xml:lang
 fn text_literal(text: &str, scope: &Scope) -> Literal {
     match &scope.language {
@@ -330,30 +363,31 @@ fn parse_predicate_element<R: Read>(
                 let predicate = if member_element.matches(name) {
                     // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
                     members += 1;
-                    value_to_iri(&format!("{}_{members}", rdf::namespace_str()))?
+                    rdf::member(members)
                 } else {
                     name_to_iri(name)?
                 };
+                // SPEC: §2.17 Reifying Statements: rdf:ID
+                let id = match &attributes.id {
+                    Some(id) => Some(id_to_iri(id, &attributes)?),
+                    None => None,
+                };
                 if let Some(resource) = &attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
                     parse_predicate_attributes(&attributes, &resource.clone().into(), graph)?;
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        predicate,
-                        resource.clone(),
-                    ));
+                    insert_property(graph, subject, predicate, resource.clone(), &id);
                     parse_empty_element(event_reader)?;
                 } else if let Some(SubjectType::BlankNamed(blank)) = &attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
                     let blank = BlankNode::from_str(blank)?;
                     parse_predicate_attributes(&attributes, &blank.clone().into(), graph)?;
-                    graph.insert(Statement::new(subject.clone(), predicate, blank));
+                    insert_property(graph, subject, predicate, blank, &id);
                     parse_empty_element(event_reader)?;
                 } else if attributes.parse_type.is_none() && !attributes.inner.is_empty() {
                     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
                     let blank = BlankNode::generate();
                     parse_predicate_attributes(&attributes, &blank.clone().into(), graph)?;
-                    graph.insert(Statement::new(subject.clone(), predicate, blank));
+                    insert_property(graph, subject, predicate, blank, &id);
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
@@ -375,22 +409,20 @@ fn parse_predicate_element<R: Read>(
                                         .into()
                                     }
                                 };
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                predicate,
-                                object,
-                            ));
+                            insert_property(graph, subject, predicate, object, &id);
                         }
                         Some(ParseType::XmlLiteral) => {
                             // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
                             let content = parse_xml_literal_element(event_reader)?
                                 .replace('<', "&lt;")
                                 .replace('>', "&gt;");
-                            graph.insert(Statement::new(
-                                subject.clone(),
+                            insert_property(
+                                graph,
+                                subject,
                                 predicate,
                                 Literal::with_data_type(&content, DataType::XmlLiteral),
-                            ));
+                                &id,
+                            );
                         }
                         Some(ParseType::Resource) => {
                             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
@@ -402,24 +434,25 @@ fn parse_predicate_element<R: Read>(
                                 &subject_node,
                                 graph,
                             )?;
-                            graph.insert(Statement::new(
-                                subject.clone(),
+                            insert_property(
+                                graph,
+                                subject,
                                 predicate,
                                 subject_node.to_object(),
-                            ));
+                                &id,
+                            );
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
-                            let members = parse_collection_element(
-                                event_reader,
-                                &attributes.scope,
+                            let members =
+                                parse_collection_element(event_reader, &attributes.scope, graph)?;
+                            insert_property(
                                 graph,
-                            )?;
-                            graph.insert(Statement::new(
-                                subject.clone(),
+                                subject,
                                 predicate,
                                 Collection::from(members),
-                            ));
+                                &id,
+                            );
                         }
                     }
                 }
@@ -550,8 +583,7 @@ fn parse_collection_element<R: Read>(
             }) => {
                 trace_event!("parse_collection_element" => event);
                 members.push(
-                    parse_node_element(event_reader, name, attributes, scope, graph)?
-                        .to_object(),
+                    parse_node_element(event_reader, name, attributes, scope, graph)?.to_object(),
                 );
             }
             Ok(XmlEvent::EndElement { .. }) => {
@@ -620,6 +652,7 @@ fn parse_attributes<'a>(
     let mut response = Attributes {
         scope: scope.clone(),
         subject_type: None,
+        id: None,
         parse_type: None,
         data_type: None,
         resource: None,
@@ -644,8 +677,7 @@ fn parse_attributes<'a>(
             } else if attribute.name.local_name == ATTRIBUTE_NODE_ID {
                 response.subject_type = Some(SubjectType::BlankNamed(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_ID {
-                response.subject_type =
-                    Some(SubjectType::RelativeResource(attribute.value.to_string()));
+                response.id = Some(attribute.value.to_string());
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
-- 
2.43.0


From 1d028db523aeb01cad965bac7fdfb752c7807267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 88/97] fix: relative references in RDF/XML are resolved
 against xml:base

---
 rdftk_io/src/xml/reader.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 956a08c..ab6f5b1 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -272,6 +272,19 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
     Ok(Iri::from_str(name).map_err(rdftk_iri::Error::from)?)
 }
 
+/// SPEC: §2.14 Abbreviating URIs: rdf:ID and xml:base
+fn reference_to_iri(reference: &str, scope: &Scope) -> Result<Iri, Error> {
+    match (Iri::from_str(reference), &scope.uri_base) {
+        (Err(_), Some(base)) => Ok(base
+            .clone()
+            .as_mut()
+            .join(reference)
+            .map_err(rdftk_iri::Error::from)?
+            .into()),
+        (iri, _) => Ok(iri.map_err(rdftk_iri::Error::from)?),
+    }
+}
+
 fn id_to_iri(id: &str, attributes: &Attributes<'_>) -> Result<Iri, Error> {
     let Some(base) = &attributes.scope.uri_base else {
         error_event!(state => "id_to_iri", "rdf:ID requires an xml:base");
@@ -333,7 +346,7 @@ fn parse_predicate_attributes(
         );
         let predicate = name_to_iri(&attribute.name)?;
         let object: ObjectNode = if &predicate == rdf::a_type() {
-            value_to_iri(&attribute.value)?.into()
+            reference_to_iri(&attribute.value, &attributes.scope)?.into()
         } else {
             text_literal(&attribute.value, &attributes.scope).into()
         };
@@ -662,7 +675,7 @@ fn parse_attributes<'a>(
     for attribute in attributes {
         if attribute.name.namespace == Some(XML_NAMESPACE.to_string()) {
             if attribute.name.local_name == ATTRIBUTE_XML_BASE {
-                response.scope.uri_base = Some(value_to_iri(&attribute.value)?);
+                response.scope.uri_base = Some(reference_to_iri(&attribute.value, scope)?);
             } else if attribute.name.local_name == ATTRIBUTE_XML_LANG {
                 // An empty value is for no language
                 response.scope.language = match attribute.value.as_str() {
@@ -670,18 +683,27 @@ fn parse_attributes<'a>(
                     language => Some(LanguageTag::from_str(language)?),
                 };
             }
+        }
+    }
+
+    for attribute in attributes {
+        if attribute.name.namespace == Some(XML_NAMESPACE.to_string()) {
+            // These apply to all of the others.
+            continue;
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
-                response.subject_type =
-                    Some(SubjectType::Resource(value_to_iri(&attribute.value)?));
+                response.subject_type = Some(SubjectType::Resource(reference_to_iri(
+                    &attribute.value,
+                    &response.scope,
+                )?));
             } else if attribute.name.local_name == ATTRIBUTE_NODE_ID {
                 response.subject_type = Some(SubjectType::BlankNamed(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_ID {
                 response.id = Some(attribute.value.to_string());
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
-                response.resource = Some(value_to_iri(&attribute.value)?);
+                response.resource = Some(reference_to_iri(&attribute.value, &response.scope)?);
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
-                response.data_type = Some(value_to_iri(&attribute.value)?);
+                response.data_type = Some(reference_to_iri(&attribute.value, &response.scope)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
                 if attribute.value == PARSE_TYPE_LITERAL {
                     response.parse_type = Some(ParseType::XmlLiteral);
-- 
2.43.0


From 70869605100eee31873cb4e764b17bb90648c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 89/97] fix: a single node element is an RDF/XML document
 without rdf:RDF

---
 rdftk_io/src/xml/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index ab6f5b1..553726a 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -161,11 +161,13 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 attributes,
             }) => {
                 trace_event!("parse_document" => event);
-                let attributes = parse_attributes(attributes, &Scope::default())?;
+                let scope = Scope::default();
                 if rdf_element.matches(name) {
+                    let attributes = parse_attributes(attributes, &scope)?;
                     parse_subject_element(event_reader, &attributes.scope, &mut graph)?;
                 } else {
-                    error_event!(state => "parse_document", "expecting rdf:RDF");
+                    // SPEC: §2.6 Completing the Document: Document Element and XML Declaration
+                    let _ = parse_node_element(event_reader, name, attributes, &scope, &mut graph)?;
                 }
             }
             Ok(_) => {
-- 
2.43.0


From 02ec619dc85e25572c5d2bb96afbb8e2284277dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 90/97] fix: text outside of property elements makes an RDF/XML
 document invalid

---
 rdftk_io/src/xml/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 553726a..e80179b 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -14,6 +14,7 @@ use std::io::Read;
 use std::str::FromStr;
 use tracing::{error, trace};
 use xml::attribute::OwnedAttribute;
+use xml::common::is_whitespace_str;
 use xml::name::OwnedName;
 use xml::reader::XmlEvent;
 use xml::{EventReader, EventWriter, ParserConfig};
@@ -200,6 +201,9 @@ fn parse_subject_element<R: Read>(
                 trace_event!("parse_subject_element" => event);
                 break;
             }
+            Ok(XmlEvent::Characters(text) | XmlEvent::CData(text)) if !is_whitespace_str(text) => {
+                error_event!(state => "parse_subject_element", "text not allowed here");
+            }
             Ok(_) => {
                 trace_event!("parse_subject_element" => ignore event);
             }
@@ -476,6 +480,9 @@ fn parse_predicate_element<R: Read>(
                 trace_event!("parse_predicate_element" => event);
                 return Ok(());
             }
+            Ok(XmlEvent::Characters(text) | XmlEvent::CData(text)) if !is_whitespace_str(text) => {
+                error_event!(state => "parse_predicate_element", "text not allowed here");
+            }
             Ok(_) => {
                 trace_event!("parse_predicate_element" => ignore event);
             }
@@ -605,7 +612,7 @@ fn parse_collection_element<R: Read>(
                 trace_event!("parse_collection_element" => event);
                 return Ok(members);
             }
-            Ok(XmlEvent::Characters(_) | XmlEvent::CData(_)) => {
+            Ok(XmlEvent::Characters(text) | XmlEvent::CData(text)) if !is_whitespace_str(text) => {
                 error_event!(state => "parse_collection_element", "text not allowed here");
             }
             Ok(_) => {
-- 
2.43.0


From 3b5059512facac673c5a8352f2a4a26bd788b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:23 +0000
Subject: [PATCH 91/97] fix: reject names, attributes and identifiers that
 RDF/XML does not allow

---
 rdftk_io/src/xml/reader.rs | 156 +++++++++++++++++++++++++++++--------
 rdftk_io/src/xml/syntax.rs |  16 ++++
 rdftk_io/src/xml/writer.rs |  17 +---
 3 files changed, 139 insertions(+), 50 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index e80179b..3b60bce 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,7 +1,8 @@
 use crate::xml::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
     ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_LI,
-    ELEMENT_RDF, PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    ELEMENT_RDF, NOT_PROPERTIES, PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE,
+    XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
@@ -10,11 +11,14 @@ use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
+use std::cell::RefCell;
+use std::collections::HashSet;
 use std::io::Read;
+use std::rc::Rc;
 use std::str::FromStr;
 use tracing::{error, trace};
 use xml::attribute::OwnedAttribute;
-use xml::common::is_whitespace_str;
+use xml::common::{is_name_char, is_name_start_char, is_whitespace_str};
 use xml::name::OwnedName;
 use xml::reader::XmlEvent;
 use xml::{EventReader, EventWriter, ParserConfig};
@@ -64,6 +68,8 @@ enum Content {
 struct Scope {
     uri_base: Option<Iri>,
     language: Option<LanguageTag>,
+    /// The identifiers in the document so far.
+    ids: Rc<RefCell<HashSet<Iri>>>,
 }
 
 #[derive(Clone, Debug)]
@@ -109,6 +115,20 @@ impl ExpectedName {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+
+impl Attributes<'_> {
+    /// True if there is nothing but what is in effect for the element and for all those in it.
+    fn is_empty(&self) -> bool {
+        self.subject_type.is_none()
+            && self.id.is_none()
+            && self.parse_type.is_none()
+            && self.data_type.is_none()
+            && self.resource.is_none()
+            && self.inner.is_empty()
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Private Functions
 // ------------------------------------------------------------------------------------------------
@@ -165,6 +185,9 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 let scope = Scope::default();
                 if rdf_element.matches(name) {
                     let attributes = parse_attributes(attributes, &scope)?;
+                    if !attributes.is_empty() {
+                        error_event!(state => "parse_document", "attribute of rdf:RDF");
+                    }
                     parse_subject_element(event_reader, &attributes.scope, &mut graph)?;
                 } else {
                     // SPEC: §2.6 Completing the Document: Document Element and XML Declaration
@@ -224,6 +247,7 @@ fn parse_node_element<R: Read>(
 ) -> Result<SubjectNode, Error> {
     let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
     let attributes = parse_attributes(attributes, scope)?;
+    check_node_element(name, &attributes)?;
     let subject_node: SubjectNode = match &attributes.subject_type {
         None => match &attributes.id {
             // SPEC: §2.1 Introduction
@@ -237,7 +261,7 @@ fn parse_node_element<R: Read>(
         }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-            BlankNode::from_str(subject)?.into()
+            node_id_to_blank(subject)?.into()
         }
     };
     if !description_element.matches(name) {
@@ -295,7 +319,66 @@ fn id_to_iri(id: &str, attributes: &Attributes<'_>) -> Result<Iri, Error> {
     let Some(base) = &attributes.scope.uri_base else {
         error_event!(state => "id_to_iri", "rdf:ID requires an xml:base");
     };
-    value_to_iri(&format!("{:#}#{id}", base.with_no_fragment()))
+    if !is_ncname(id) {
+        error_event!(state => "id_to_iri", "not a name");
+    }
+    let iri = value_to_iri(&format!("{:#}#{id}", base.with_no_fragment()))?;
+    if !attributes.scope.ids.borrow_mut().insert(iri.clone()) {
+        error_event!(state => "id_to_iri", "not the only one with this rdf:ID");
+    }
+    Ok(iri)
+}
+
+fn node_id_to_blank(id: &str) -> Result<BlankNode, Error> {
+    if !is_ncname(id) {
+        error_event!(state => "node_id_to_blank", "not a name");
+    }
+    BlankNode::from_str(id)
+}
+
+fn is_ncname(name: &str) -> bool {
+    name.starts_with(is_name_start_char) && name.chars().all(|c| c != ':' && is_name_char(c))
+}
+
+/// SPEC: Syntax Grammar, §7.2.5 Production nodeElementURIs and §7.2.11 Production nodeElement
+fn check_node_element(name: &OwnedName, attributes: &Attributes<'_>) -> Result<(), Error> {
+    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
+    if !description_element.matches(name) && is_reserved(name) {
+        error_event!(state => "check_node_element", "not the name of a node element");
+    }
+    if attributes.resource.is_some()
+        || attributes.parse_type.is_some()
+        || attributes.data_type.is_some()
+        || (attributes.id.is_some() && attributes.subject_type.is_some())
+    {
+        error_event!(state => "check_node_element", "not the attributes of a node element");
+    }
+    Ok(())
+}
+
+/// SPEC: Syntax Grammar, §7.2.6 Production propertyElementURIs and §7.2.14 Production propertyElt
+fn check_property_element(name: &OwnedName, attributes: &Attributes<'_>) -> Result<(), Error> {
+    let member_element = ExpectedName::new(ELEMENT_LI, rdf::namespace_str());
+    if !member_element.matches(name) && is_reserved(name) {
+        error_event!(state => "check_property_element", "not the name of a property element");
+    }
+    let is_about = matches!(attributes.subject_type, Some(SubjectType::Resource(_)));
+    let empty = attributes.resource.is_some()
+        || attributes.subject_type.is_some()
+        || !attributes.inner.is_empty();
+    if is_about
+        || (attributes.resource.is_some() && attributes.subject_type.is_some())
+        || (attributes.data_type.is_some() && attributes.parse_type.is_some())
+        || (empty && (attributes.data_type.is_some() || attributes.parse_type.is_some()))
+    {
+        error_event!(state => "check_property_element", "not the attributes of a property element");
+    }
+    Ok(())
+}
+
+fn is_reserved(name: &OwnedName) -> bool {
+    name.namespace.as_deref() == Some(rdf::namespace_str())
+        && NOT_PROPERTIES.contains(&name.local_name.as_str())
 }
 
 /// Insert the statement, and a description of it if it has an identifier.
@@ -379,6 +462,7 @@ fn parse_predicate_element<R: Read>(
             }) => {
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes, scope)?;
+                check_property_element(name, &attributes)?;
                 let predicate = if member_element.matches(name) {
                     // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
                     members += 1;
@@ -398,7 +482,7 @@ fn parse_predicate_element<R: Read>(
                     parse_empty_element(event_reader)?;
                 } else if let Some(SubjectType::BlankNamed(blank)) = &attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                    let blank = BlankNode::from_str(blank)?;
+                    let blank = node_id_to_blank(blank)?;
                     parse_predicate_attributes(&attributes, &blank.clone().into(), graph)?;
                     insert_property(graph, subject, predicate, blank, &id);
                     parse_empty_element(event_reader)?;
@@ -412,22 +496,25 @@ fn parse_predicate_element<R: Read>(
                     match attributes.parse_type {
                         None => {
                             let scope = &attributes.scope;
-                            let object: ObjectNode =
-                                match parse_object_element(event_reader, scope, graph)? {
-                                    Content::Node(node) => node.to_object(),
-                                    Content::Text(content) => {
-                                        if let Some(data_type) = attributes.data_type {
-                                            // SPEC: §2.9 Typed Literals: rdf:datatype
-                                            Literal::with_data_type(
-                                                &content,
-                                                DataType::from(data_type),
-                                            )
-                                        } else {
-                                            text_literal(&content, scope)
-                                        }
-                                        .into()
+                            let object: ObjectNode = match parse_object_element(
+                                event_reader,
+                                scope,
+                                graph,
+                            )? {
+                                Content::Node(_) if attributes.data_type.is_some() => {
+                                    error_event!(state => "parse_predicate_element", "node element in a typed literal");
+                                }
+                                Content::Node(node) => node.to_object(),
+                                Content::Text(content) => {
+                                    if let Some(data_type) = attributes.data_type {
+                                        // SPEC: §2.9 Typed Literals: rdf:datatype
+                                        Literal::with_data_type(&content, DataType::from(data_type))
+                                    } else {
+                                        text_literal(&content, scope)
                                     }
-                                };
+                                    .into()
+                                }
+                            };
                             insert_property(graph, subject, predicate, object, &id);
                         }
                         Some(ParseType::XmlLiteral) => {
@@ -559,28 +646,21 @@ fn parse_object_element<R: Read>(
                     None => Content::Text(content),
                 });
             }
-            Ok(XmlEvent::CData(value)) => {
+            Ok(XmlEvent::Characters(value) | XmlEvent::CData(value)) => {
                 trace_event!("parse_content_element" => event);
-                if node.is_some() {
-                    error_event!(state => "parse_object_element", format!("found character content after element(s)"));
+                if !is_whitespace_str(value) {
+                    if node.is_some() {
+                        error_event!(state => "parse_object_element", "found character content after element(s)");
+                    }
+                    // set outer loop value
+                    has_characters = true;
                 }
-                // set outer loop value
-                has_characters = true;
                 content.push_str(value);
             }
             Ok(XmlEvent::Whitespace(value)) => {
                 trace_event!("parse_content_element" => event);
                 content.push_str(value);
             }
-            Ok(XmlEvent::Characters(value)) => {
-                trace_event!("parse_content_element" => event);
-                if node.is_some() {
-                    error_event!(state => "parse_object_element", "found character content after element(s)");
-                }
-                // set outer loop value
-                has_characters = true;
-                content.push_str(value);
-            }
             Ok(_) => {
                 trace_event!("parse_object_element" => ignore event);
             }
@@ -701,11 +781,17 @@ fn parse_attributes<'a>(
             continue;
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
+                if response.subject_type.is_some() {
+                    error_event!(state => "parse_attributes", "both rdf:about and rdf:nodeID");
+                }
                 response.subject_type = Some(SubjectType::Resource(reference_to_iri(
                     &attribute.value,
                     &response.scope,
                 )?));
             } else if attribute.name.local_name == ATTRIBUTE_NODE_ID {
+                if response.subject_type.is_some() {
+                    error_event!(state => "parse_attributes", "both rdf:about and rdf:nodeID");
+                }
                 response.subject_type = Some(SubjectType::BlankNamed(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_ID {
                 response.id = Some(attribute.value.to_string());
@@ -724,6 +810,8 @@ fn parse_attributes<'a>(
                     // SPEC: any other value is as if it were "Literal"
                     response.parse_type = Some(ParseType::XmlLiteral);
                 }
+            } else if is_reserved(&attribute.name) {
+                error_event!(state => "parse_attributes", "not the name of a property attribute");
             } else {
                 response.inner.push(attribute);
             }
diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index e266af7..9d4df4f 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -27,3 +27,19 @@ pub(super) const ELEMENT_RDF: &str = "RDF";
 pub(super) const PARSE_TYPE_COLLECTION: &str = "Collection";
 pub(super) const PARSE_TYPE_LITERAL: &str = "Literal";
 pub(super) const PARSE_TYPE_RESOURCE: &str = "Resource";
+
+/// The names in the RDF namespace that are not for properties.
+pub(super) const NOT_PROPERTIES: [&str; 12] = [
+    "Description",
+    "RDF",
+    "ID",
+    "about",
+    "parseType",
+    "resource",
+    "nodeID",
+    "datatype",
+    "li",
+    "aboutEach",
+    "aboutEachPrefix",
+    "bagID",
+];
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index c9ddbd9..ac40243 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -1,6 +1,6 @@
 use super::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_NODE_ID, ATTRIBUTE_RESOURCE, DEFAULT_ENCODING,
-    ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    ELEMENT_DESCRIPTION, ELEMENT_RDF, NOT_PROPERTIES,
 };
 use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::common::nested_blanks;
@@ -338,21 +338,6 @@ impl XmlWriter {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
-const NOT_PROPERTIES: [&str; 12] = [
-    "Description",
-    "RDF",
-    "ID",
-    "about",
-    "parseType",
-    "resource",
-    "nodeID",
-    "datatype",
-    "li",
-    "aboutEach",
-    "aboutEachPrefix",
-    "bagID",
-];
-
 #[inline]
 fn xml_error(e: xml::writer::Error) -> Error {
     Error::Tokenizer {
-- 
2.43.0


From 003aed97d4832454a07a71c58001b4ef8a8517a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:00 +0000
Subject: [PATCH 92/97] fix: RDF/JSON reader rejects the label of a subject
 with a second blank node prefix

---
 rdftk_io/src/json/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 2184207..c153b5f 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -97,7 +97,7 @@ fn parse_statements(
     parse_rule!("parse_statements" entry);
 
     if let Value::Object(json) = predicate_objects {
-        let subject = if let Some(subject) = subject.strip_prefix(BNODE_PREFIX) {
+        let subject = if subject.starts_with(BNODE_PREFIX) {
             BlankNode::from_str(subject)?.into()
         } else {
             Iri::from_str(subject).map_err(rdftk_iri::Error::from)?.into()
-- 
2.43.0


From c4f52c45a6dc6fc9e1d1ebe0b1c594d0791ed259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:00 +0000
Subject: [PATCH 93/97] fix: TriG has the media type application/trig

---
 rdftk_io/src/trig/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/trig/mod.rs b/rdftk_io/src/trig/mod.rs
index 9afba26..c5c9b72 100644
--- a/rdftk_io/src/trig/mod.rs
+++ b/rdftk_io/src/trig/mod.rs
@@ -14,7 +14,7 @@ pub const NAME: &str = "TriG";
 pub const FILE_EXTENSION: &str = "trig";
 
 /// The MIME type used for this serialization format.
-pub const MIME_TYPE: &str = "text/trig";
+pub const MIME_TYPE: &str = "application/trig";
 
 // ------------------------------------------------------------------------------------------------
 // Modules
-- 
2.43.0


From 5e9421fcc38859d5692f2f6a7145cb4758d45f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 94/97] fix: N3 has the registered media type text/n3

---
 book/src/crate_io.md   | 2 +-
 rdftk_io/README.md     | 2 +-
 rdftk_io/src/lib.rs    | 2 +-
 rdftk_io/src/n3/mod.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/book/src/crate_io.md b/book/src/crate_io.md
index 09e31b2..15ce838 100644
--- a/book/src/crate_io.md
+++ b/book/src/crate_io.md
@@ -13,7 +13,7 @@ creation of [GraphViz](https://graphviz.gitlab.io/) dot files for a visualizatio
 |----------|---------------|-------------------------------------------------|---------------|-----|
 | `nt`     | N-Triples     | `application/n-triples` | [W3C](https://www.w3.org/TR/n-triples/) | **W** |
 | `nq`     | N-Quads       | `application/n-quads`   | [W3C](https://www.w3.org/TR/n-quads/) | **W** |
-| `n3`     | N3            | `text/rdf+n3`           | [W3C Submission](https://www.w3.org/TeamSubmission/n3/) |     |
+| `n3`     | N3            | `text/n3`               | [W3C Submission](https://www.w3.org/TeamSubmission/n3/) |     |
 | `turtle` | Turtle        | `text/turtle`           | [W3C](https://www.w3.org/TR/turtle/) | **W** |
 | `xml`    | RDF/XML       | `application/rdf+xml`   | [W3C](https://www.w3.org/TR/rdf-syntax-grammar/) |     |
 | `json`   | JSON-LD       | `application/ld+json`   | [W3C](https://www.w3.org/TR/json-ld/) |     |
diff --git a/rdftk_io/README.md b/rdftk_io/README.md
index f92cc61..50d7aa9 100644
--- a/rdftk_io/README.md
+++ b/rdftk_io/README.md
@@ -19,7 +19,7 @@ the creation of [GraphViz](https://graphviz.gitlab.io/) dot files for a visualiz
 | `trig`    | [RDF 1.1 TriG](https://www.w3.org/TR/trig/); RDF Dataset Language                                   | `application/trig`          |         |
 | `xml`     | [RDF 1.1 XML Syntax](https://www.w3.org/TR/rdf-syntax-grammar/)                                     | `application/rdf+xml`       | **W**   |
 | `json`    | [RDF 1.1 JSON Alternate Serialization](https://www.w3.org/TR/rdf-json/)                             | `application/rdf+json`      | **R+W** |
-| `n3`      | [Notation3 (N3): A readable RDF syntax](https://www.w3.org/TeamSubmission/n3/)                      | `text/rdf+n3`               | **W**   |
+| `n3`      | [Notation3 (N3): A readable RDF syntax](https://www.w3.org/TeamSubmission/n3/)                      | `text/n3`                   | **W**   |
 | TBD       | [Binary RDF Representation for Publication and Exchange (HDT)](https://www.w3.org/Submission/HDT/)  | N/A                         |         |
 | TBD       | [RDF Binary using Apache Thrift](https://afs.github.io/rdf-thrift/)                                 | `application/x-binary-rdf`  |         |
 | TBD       | [JSON-LD 1.1](https://www.w3.org/TR/json-ld/); A JSON-based Serialization for Linked Data           | `application/ld+json`       |         |
diff --git a/rdftk_io/src/lib.rs b/rdftk_io/src/lib.rs
index 885a44f..af37e59 100644
--- a/rdftk_io/src/lib.rs
+++ b/rdftk_io/src/lib.rs
@@ -16,7 +16,7 @@
 //! | `trig`    | [RDF 1.1 TriG](https://www.w3.org/TR/trig/); RDF Dataset Language                                   | `application/trig`          |         |
 //! | `xml`     | [RDF 1.1 XML Syntax](https://www.w3.org/TR/rdf-syntax-grammar/)                                     | `application/rdf+xml`       | **W**   |
 //! | `json`    | [RDF 1.1 JSON Alternate Serialization](https://www.w3.org/TR/rdf-json/)                             | `application/rdf+json`      | **W**   |
-//! | `n3`      | [Notation3 (N3): A readable RDF syntax](https://www.w3.org/TeamSubmission/n3/)                      | `text/rdf+n3`               | **W**   |
+//! | `n3`      | [Notation3 (N3): A readable RDF syntax](https://www.w3.org/TeamSubmission/n3/)                      | `text/n3`                   | **W**   |
 //! | TBD       | [Binary RDF Representation for Publication and Exchange (HDT)](https://www.w3.org/Submission/HDT/)  | N/A                         |         |
 //! | TBD       | [RDF Binary using Apache Thrift](https://afs.github.io/rdf-thrift/)                                 | `application/x-binary-rdf`  |         |
 //! | TBD       | [JSON-LD 1.1](https://www.w3.org/TR/json-ld/); A JSON-based Serialization for Linked Data           | `application/ld+json`       |         |
diff --git a/rdftk_io/src/n3/mod.rs b/rdftk_io/src/n3/mod.rs
index 5a267df..54f50dd 100644
--- a/rdftk_io/src/n3/mod.rs
+++ b/rdftk_io/src/n3/mod.rs
@@ -15,7 +15,7 @@ pub const NAME: &str = "N3";
 pub const FILE_EXTENSION: &str = "n3";
 
 /// The MIME type used for this serialization format.
-pub const MIME_TYPE: &str = "application/n3";
+pub const MIME_TYPE: &str = "text/n3";
 
 /// An IRI that defines the language.
 pub const FORMAT_IRI: &str = "http://www.w3.org/ns/formats/N3";
-- 
2.43.0


From 089173bd6072851cb77a48b57a34a218c49d2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 95/97] fix: The cause of a tokenizer error is the error that
 it wraps

---
 rdftk_core/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index b179ae4..ea81d9c 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -389,7 +389,7 @@ impl Display for Error {
 impl std::error::Error for Error {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
         match self {
-            //Self::Tokenizer { source } => Some(source),
+            Self::Tokenizer { source, .. } => Some(source.as_ref()),
             Self::Borrow(source) => Some(source),
             Self::Io(source) => Some(source),
             Self::Iri(source) => Some(source),
-- 
2.43.0


From d71f227bd466ae15b5b515a779fbc593fb14fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:42 +0000
Subject: [PATCH 96/97] fix: a graph answers that it may be named and may hold
 collections

---
 rdftk_core/src/model/graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index ffc3d0b..deb70c1 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -17,7 +17,10 @@ fn simple_graph_writer(graph: &Graph)
 */
 
 use crate::error::Error;
-use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
+use crate::model::features::{
+    Featured, FEATURE_GRAPH_ALLOWS_NAMED, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR,
+    FEATURE_STMT_OBJECT_COLLECTIONS,
+};
 use crate::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
@@ -201,6 +204,8 @@ impl Featured for Graph {
     fn supports_feature(&self, feature: &Iri) -> bool {
         (*feature == *FEATURE_GRAPH_DUPLICATES && !self.statements.is_unique())
             || *feature == *FEATURE_RDF_STAR
+            || *feature == *FEATURE_STMT_OBJECT_COLLECTIONS
+            || *feature == *FEATURE_GRAPH_ALLOWS_NAMED
     }
 }
 
-- 
2.43.0


From c33f8ffdb18f062e8c31af49fcba5922fe94b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:35 +0000
Subject: [PATCH 97/97] fix: the option predicate_padding pads, and not the
 lack of it

---
 rdftk_io/src/turtle/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 1baa4ac..3b530ab 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -154,7 +154,7 @@ impl Default for TurtleWriterOptions {
             convert_to_id_base: None,
             convert_base: Vec::new(),
             indent_width: 4,
-            predicate_padding: false,
+            predicate_padding: true,
         }
     }
 }
@@ -688,9 +688,9 @@ impl TurtleWriter {
         let mut count = 0;
         let total_number = all_predicates.len();
         let max_len = if self.options.predicate_padding {
-            0
-        } else {
             1 + self.max_len_predicates(graph, &all_predicates)?
+        } else {
+            0
         };
 
         for (group, ref mut preds) in PredicateGroupOrdering::group_predicates(&all_predicates) {
-- 
2.43.0

