From 255b019683e9375ab5bf70f76b8029af54861071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 01/26] fix: reject opaque data with truncated padding instead
 of panicking

---
 src/header.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index bd6e379..de0332b 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -133,8 +133,10 @@ pub mod xdr {
 
         /// Try to read an opaque XDR array with a fixed length and padded modulo 4.
         fn read_bytes(&mut self, n: usize) -> Result<Self::Sliced, Error> {
-            // Validate the buffer contains enough data
-            if self.remaining() < n {
+            // Validate the buffer contains enough data, including any padding.
+            //
+            // The two are compared separately as n + padding may overflow.
+            if self.remaining() < n || self.remaining() - n < pad_length(n) {
                 return Err(Error::InvalidLength);
             }
 
-- 
2.43.0


From 315929f3c8796b427e5d379a3cff3b9d27296891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 02/26] fix: do not reserve memory for an untrusted array count

---
 src/header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index de0332b..7a394bd 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -161,8 +161,10 @@ pub mod xdr {
             }
 
             // Try and decode n instances of T.
+            //
+            // The count is not trusted, so space is reserved as elements decode.
             let mut sum = 0;
-            let mut out = Vec::with_capacity(n);
+            let mut out = Vec::new();
             for _ in 0..n {
                 let t = T::try_from(self.clone())?;
                 if self.remaining() < t.wire_size() {
-- 
2.43.0


From a557d00d498c64cdb1731abf692423c398b3b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 03/26] fix: reject arrays with truncated padding instead of
 panicking

---
 src/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 7a394bd..4fde2df 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -175,6 +175,9 @@ pub mod xdr {
                 out.push(t);
             }
 
+            if self.remaining() < pad_length(sum) {
+                return Err(Error::InvalidLength);
+            }
             self.advance(pad_length(sum));
 
             Ok(out)
-- 
2.43.0


From 8976ed7ffcdfa9d6687a41bedd773a0e8233ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:06 +0000
Subject: [PATCH 04/26] fix: count the length prefix of counted opaque fields
 in wire_size()

---
 src/impls/wire_size.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3395dde..8d06ffe 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -22,6 +22,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                                 r#" pad_length(self.{}.wire_size()) +"#,
                                 SafeName(&f.field_name)
                             )?;
+
+                            // Counted opaques carry a length prefix
+                            if matches!(f.field_value, ArrayType::VariableSize(..)) {
+                                writeln!(w, "4 +")?;
+                            }
                         }
                     }
 
-- 
2.43.0


From 734b993b1e90799ae87a55a390511705e4c01c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 05/26] fix: fixed-length opaque typedefs have no length prefix
 in wire_size()

---
 src/impls/wire_size.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 8d06ffe..c45992d 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -95,9 +95,14 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "self.0.wire_size()")?;
 
                         // If the target is opaque, it needs padding, and a
-                        // length prefix adding.
+                        // length prefix adding (unless it has a fixed length).
                         if let BasicType::Opaque = v.target {
-                            writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                            match v.alias {
+                                ArrayType::FixedSize(..) => {
+                                    writeln!(w, "+ pad_length(self.0.wire_size())")?
+                                }
+                                _ => writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?,
+                            }
                         }
 
                         Ok(())
-- 
2.43.0


From a3e00bf234a3f16e4dbae2fc5de2092caa2c5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 06/26] fix: keep the bound of typedef'd counted opaques and
 strings

---
 src/ast/typedef.rs | 5 -----
 src/impls/from.rs  | 7 ++++++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 1ca7ad8..e612394 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -25,11 +25,6 @@ impl Typedef {
             match vs.remove(0) {
                 Node::ArrayFixed(s) => ArrayType::FixedSize(alias, ArraySize::from(s)),
 
-                // Typedefs to opaque types include a variable array identifier so the
-                // caller knows to read the length prefix bytes. This is already handled
-                // by the opaque reader however, so map this to a "no array" wrapper.
-                Node::ArrayVariable(_) if target.is_opaque() => ArrayType::None(alias),
-
                 Node::ArrayVariable(s) => ArrayType::VariableSize(
                     alias,
                     match s.trim() {
diff --git a/src/impls/from.rs b/src/impls/from.rs
index d3194ef..c1e3b52 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -308,9 +308,14 @@ where
     // Print a length-prefixed variable sized array, or a string with a maximum value.
     let print_variable = |w: &mut W, t: &BasicType, size: Option<u32>| -> Result<()> {
         let mut type_str = t.to_string();
+        let mut field = t.clone();
 
         // If requested, resolve a typedef the type to the target type.
         if !resolve_typedefs.use_alias() {
+            if let Some(typedef) = ast.types().typedef_target(t.as_str()) {
+                field = typedef.target.clone();
+            }
+
             type_str = ast
                 .types()
                 .get(&type_str)
@@ -326,7 +331,7 @@ where
             .map(|s| format!("Some({})", s))
             .unwrap_or_else(|| "None".to_string());
 
-        match t {
+        match field {
             BasicType::Opaque => write!(w, "v.read_variable_bytes({})?", size)?,
             BasicType::String => write!(w, "v.read_string({})?", size)?,
             _ => write!(w, "v.read_variable_array::<{}>({})?", type_str, size)?,
-- 
2.43.0


From 41994f4f03740fca54c7ed78ecd5bcf7151b0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 07/26] fix: typedef'd counted strings are Strings, not
 Vec<String>

---
 src/impls/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/impls/types.rs b/src/impls/types.rs
index 974c385..4c5ce97 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -119,6 +119,10 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                 // array container for the target.
                 let target = match &v.alias {
                     ArrayType::None(_) => ArrayType::None(&v.target),
+                    // A string is already a variable length type.
+                    ArrayType::VariableSize(..) if v.target == BasicType::String => {
+                        ArrayType::None(&v.target)
+                    }
                     ArrayType::FixedSize(_, s) => ArrayType::FixedSize(&v.target, s.clone()),
                     ArrayType::VariableSize(_, s) => ArrayType::VariableSize(&v.target, s.clone()),
                 };
-- 
2.43.0


From b83c2c7b2b84a7b18a8795c26b8ee4eef9805c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 08/26] fix: match void TRUE/FALSE labels on the boolean, not a
 binding

---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index c1e3b52..2762fdb 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -157,7 +157,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         enum_name, variant, v.switch.var_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| other.to_string()),
+                                .unwrap_or_else(|| SafeName(other).to_string()),
                         };
                         writeln!(
                             w,
-- 
2.43.0


From c00ca5a4f7424ef954a2793a13053aeeba001423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 09/26] fix: union defaults with a field are declared, decoded
 and sized with it

---
 src/impls/from.rs      |  2 +-
 src/impls/types.rs     | 14 ++++++++++++--
 src/impls/wire_size.rs | 14 +++++++++-----
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 2762fdb..29eeea4 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -176,7 +176,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             template,
                             &d.field_value,
                             ast,
-                            TypeResolve::UseTarget,
+                            TypeResolve::UseAlias,
                             try_from,
                         )?;
                         writeln!(w, "),")?;
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 4c5ce97..a7b77c3 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -91,8 +91,18 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     writeln!(w, "{},", NonDigitName(SafeName(c.as_str())))?;
                 }
 
-                if v.default.is_some() {
-                    writeln!(w, "default,")?;
+                // A default case with a field carries it as the payload
+                if let Some(ref d) = v.default {
+                    write!(w, "default(")?;
+                    match d.field_value.unwrap_array() {
+                        BasicType::Opaque => write!(w, "T")?,
+                        BasicType::String => write!(w, "String")?,
+                        BasicType::Ident(i) if ast.generics().contains(i.as_ref()) => {
+                            write!(w, "{}<T>", i)?
+                        }
+                        _ => write!(w, "{}", d.field_value)?,
+                    }
+                    writeln!(w, "),")?;
                 }
 
                 writeln!(w, "}}")?;
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index c45992d..3ef5160 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -38,9 +38,8 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
                     writeln!(w, "4 + match self {{")?;
-                    // Iterate over all the variants of v, including the
-                    // default.
-                    for case in v.cases.iter().chain(v.default.iter()) {
+                    // Iterate over all the variants of v.
+                    for case in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
                         //
@@ -69,8 +68,13 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "Self::{} => 0,", NonDigitName(SafeName(c.as_str())))?;
                     }
 
-                    if v.default.is_some() {
-                        writeln!(w, "Self::default => 0,")?;
+                    // Labels that fall through to the default decode as default
+                    if let Some(ref d) = v.default {
+                        write!(w, "Self::default(inner) => inner.wire_size()")?;
+                        if d.contains_opaque() {
+                            write!(w, " + pad_length(inner.wire_size())")?;
+                        }
+                        writeln!(w, ",")?;
                     }
 
                     writeln!(w, "}}")?;
-- 
2.43.0


From 8305125e0ceb46b3d84d5699b675ba46922f5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 10/26] fix: resolve typedef'd union discriminants to their
 underlying type

---
 src/ast/indexes/type_index.rs | 17 ++++++++++++++++-
 src/impls/from.rs             |  9 ++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ast/indexes/type_index.rs b/src/ast/indexes/type_index.rs
index 80047e1..df87c59 100644
--- a/src/ast/indexes/type_index.rs
+++ b/src/ast/indexes/type_index.rs
@@ -1,4 +1,4 @@
-use crate::ast::{Enum, Node, Struct, Typedef, Union};
+use crate::ast::{ArrayType, BasicType, Enum, Node, Struct, Typedef, Union};
 use std::collections::BTreeMap;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -72,6 +72,21 @@ impl TypeIndex {
         }
     }
 
+    /// Follows the chain of typedefs starting at `t` to the type it ends in.
+    pub(crate) fn resolve_alias(&self, t: &BasicType) -> BasicType {
+        let mut t = t;
+
+        // A chain without cycles visits each type at most once.
+        for _ in 0..self.0.len() {
+            match self.typedef_target(t.as_str()) {
+                Some(v) if matches!(v.alias, ArrayType::None(_)) => t = &v.target,
+                _ => break,
+            }
+        }
+
+        t.clone()
+    }
+
     /// Iterates over the types in the type index.
     pub fn iter(&self) -> impl std::iter::Iterator<Item = &AstType> {
         self.0.values()
diff --git a/src/impls/from.rs b/src/impls/from.rs
index 29eeea4..664e3f6 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -74,11 +74,14 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
             }
 
             AstType::Union(v) => {
+                // The discriminant may be declared through a chain of typedefs.
+                let switch_type = ast.types().resolve_alias(&v.switch.var_type);
+
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
                     write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
                     print_decode_basic_type(
                         w,
-                        &v.switch.var_type,
+                        &switch_type,
                         ast,
                         TypeResolve::UseTarget,
                         try_from,
@@ -112,7 +115,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, switch_type,
                                     ),
                                 })
                                 .unwrap_or_else(|| SafeName(c_value).to_string());
@@ -154,7 +157,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         ref variant,
                                     } => format!(
                                         "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
+                                        enum_name, variant, switch_type,
                                     ),
                                 })
                                 .unwrap_or_else(|| SafeName(other).to_string()),
-- 
2.43.0


From 758f09fb602395faf0005edf05dfc7f7b0470bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 11/26] fix: union discriminant names cannot collide with the
 buffer, constants or typedefs

---
 src/impls/from.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 664e3f6..876e3c5 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -78,7 +78,17 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 let switch_type = ast.types().resolve_alias(&v.switch.var_type);
 
                 print_try_from(&mut w, template, v.name.as_str(), ast, |w, try_from| {
-                    write!(w, "let {} = ", SafeName(&v.switch.var_name))?;
+                    // Name the discriminant so that it does not hide the buffer (v),
+                    // and is not mistaken for a constant or tuple struct pattern.
+                    let mut var_name = SafeName(&v.switch.var_name).to_string();
+                    while var_name == "v"
+                        || ast.constants().get(&var_name).is_some()
+                        || ast.types().typedef_target(&var_name).is_some()
+                    {
+                        var_name.push_str("_v");
+                    }
+
+                    write!(w, "let {} = ", var_name)?;
                     print_decode_basic_type(
                         w,
                         &switch_type,
@@ -88,7 +98,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     )?;
                     writeln!(w, "?;")?;
 
-                    writeln!(w, "Ok(match {} {{", SafeName(&v.switch.var_name))?;
+                    writeln!(w, "Ok(match {} {{", var_name)?;
                     for c in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
-- 
2.43.0


From bd4040bb3ed16c66842bcb43c93e0e34ccc4ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 12/26] fix: wire_size() of unions with a hyper discriminant
 counts 8 bytes for it

---
 src/impls/wire_size.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3ef5160..3d3111b 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -36,8 +36,14 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
             }
 
             AstType::Union(v) => {
+                // Hyper discriminants are twice the size of all others.
+                let switch_size = match ast.types().resolve_alias(&v.switch.var_type) {
+                    BasicType::I64 | BasicType::U64 => 8,
+                    _ => 4,
+                };
+
                 print_impl(&mut w, template, v.name(), ast, |w| {
-                    writeln!(w, "4 + match self {{")?;
+                    writeln!(w, "{} + match self {{", switch_size)?;
                     // Iterate over all the variants of v.
                     for case in v.cases.iter() {
                         // A single case statement may have many case values tied to it
-- 
2.43.0


From 79be23e906a968e388097cafed3f59dd95d23425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 13/26] fix: numeric labels of enum and bool unions match the
 member they denote

---
 src/impls/from.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 876e3c5..7e3d20c 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType};
+use crate::ast::{indexes::*, ArraySize, ArrayType, Ast, BasicType, VariantValue};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -129,6 +129,8 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                     ),
                                 })
                                 .unwrap_or_else(|| SafeName(c_value).to_string());
+                            let matcher =
+                                typed_label(ast, &switch_type, c_value).unwrap_or(matcher);
 
                             write!(
                                 w,
@@ -172,6 +174,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                 })
                                 .unwrap_or_else(|| SafeName(other).to_string()),
                         };
+                        let matcher = typed_label(ast, &switch_type, variant).unwrap_or(matcher);
                         writeln!(
                             w,
                             "{} => Self::{},",
@@ -239,6 +242,33 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
     Ok(())
 }
 
+/// Returns the pattern for a numeric (or constant) case label of a union with an
+/// enum or bool discriminant, which cannot be matched against a number.
+fn typed_label(ast: &Ast, switch_type: &BasicType, label: &str) -> Option<String> {
+    let value = match ast.constants().get(label) {
+        Some(ConstantType::ConstValue(v)) => VariantValue::from(v),
+        Some(ConstantType::EnumValue { .. }) => return None,
+        None => VariantValue::from(label),
+    };
+
+    match switch_type {
+        BasicType::Bool => match value {
+            VariantValue::Numeric(0) => Some("false".to_string()),
+            VariantValue::Numeric(1) => Some("true".to_string()),
+            _ => None,
+        },
+        BasicType::Ident(name) => match ast.types().get(name) {
+            Some(AstType::Enum(e)) => e
+                .variants
+                .iter()
+                .find(|v| v.value == value)
+                .map(|v| format!("{}::{}", e.name, v.name)),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 /// Prints the `impl TryFrom` block around the output of func.
 ///
 /// `func` should write the body of the `try_from` implementation to `w`, using
-- 
2.43.0


From 83dec41d189355456b8db736aaaf215af9cc637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 14/26] fix: accept hex constants as array sizes

---
 src/impls/from.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 7e3d20c..acf9b16 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -397,7 +397,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or(format!("unknown constant {}", size))?;
 
-            print_fixed(w, t, size.parse()?)?
+            print_fixed(w, t, parse_size(&size)?)?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Known(size))) => {
             print_variable(w, t, Some(*size))?
@@ -410,7 +410,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or("unknown constant")?;
 
-            print_variable(w, t, Some(size.parse()?))?;
+            print_variable(w, t, Some(parse_size(&size)?))?;
         }
         ArrayType::VariableSize(t, None) => {
             print_variable(w, t, None)?;
@@ -420,6 +420,14 @@ where
     Ok(())
 }
 
+/// Parses the value of a constant used as an array size, in decimal or hex.
+fn parse_size(v: &str) -> Result<u32> {
+    Ok(match v.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16)?,
+        None => v.parse()?,
+    })
+}
+
 /// Generates the template required to decode `t` from a variable called `v`
 /// that implements the reader trait.
 ///
-- 
2.43.0


From ab6dc3ae284ed6a84bb2fd7950b2f071ab89825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 15/26] fix: do not implement traits for typedefs that are not
 emitted as a type

---
 src/impls/from.rs      | 3 +++
 src/impls/wire_size.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index acf9b16..58fa38e 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -217,6 +217,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                 })?
             }
 
+            // Typedefs of a primitive to its own name are not declared as a type.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => print_try_from(
                 &mut w,
                 template,
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3d3111b..e1cfe01 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -95,6 +95,9 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                 })?;
             }
 
+            // Typedefs of a primitive to its own name are not declared as a type.
+            AstType::Typedef(v) if v.target == *v.alias.unwrap_array() => continue,
+
             AstType::Typedef(v) => {
                 print_impl(
                     &mut w,
-- 
2.43.0


From 6859f62ca282b1dbfc80e4832671ca47df85954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 16/26] fix: escape the reserved words of the 2018 edition in
 field names

---
 src/ast/basic_type.rs | 4 +++-
 src/impls/mod.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 4adb135..72ff861 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -46,7 +46,9 @@ impl<'a> BasicType {
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => format!("{}_v", name),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => format!("{}_v", name),
             _ => name,
         }
     }
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6a3eedb..6fe5300 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -23,7 +23,9 @@ where
             | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in"
             | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return"
             | "Self" | "self" | "static" | "struct" | "super" | "trait" | "true" | "type"
-            | "union" | "unsafe" | "use" | "where" | "while" => write!(f, "{}_v", self.0.as_ref()),
+            | "union" | "unsafe" | "use" | "where" | "while" | "abstract" | "become" | "box"
+            | "do" | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+            | "virtual" | "yield" => write!(f, "{}_v", self.0.as_ref()),
             "TRUE" | "FALSE" => write!(f, "{}", self.0.as_ref().to_lowercase()),
             _ => write!(f, "{}", self.0.as_ref()),
         }
-- 
2.43.0


From 92609a175a390905a992bf58c3281368db150de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 17/26] fix: decode optional primitives and strings

---
 src/impls/from.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 58fa38e..06dd108 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -46,12 +46,15 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             // 		}
                             writeln!(w, "{{ match v.read_u32()? {{")?;
                             writeln!(w, "0 => None,")?;
-                            writeln!(
+                            write!(w, "1 => Some(Box::new(")?;
+                            print_decode_basic_type(
                                 w,
-                                "1 => Some(Box::new({}::try_from({})?)),",
                                 f.field_value.unwrap_array(),
-                                try_from
+                                ast,
+                                TypeResolve::UseAlias,
+                                try_from,
                             )?;
+                            writeln!(w, "?)),")?;
                             writeln!(w, "d => return Err(Error::UnknownOptionVariant(d)),")?;
                             writeln!(w, "}}}},")?;
                         } else {
-- 
2.43.0


From fd0f743e68812025bb45e06c6c49cd8dd121c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 18/26] fix: accept any layout between the words of unsigned
 int and unsigned hyper

---
 src/ast/mod.rs | 8 +++++++-
 src/xdr.pest   | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 9cd4c38..6d55267 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -114,7 +114,13 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
         Rule::union_void => Node::UnionVoid,
         Rule::option => Node::Option(collect_values(ast)),
         Rule::basic_type => {
-            Node::Type(BasicType::try_from(ast.as_str()).expect("unrecognised type"))
+            // Any whitespace and comments may separate the words of the type.
+            let name = match ast.as_str().trim() {
+                s if s.starts_with("unsigned") && s.ends_with("int") => "unsigned int",
+                s if s.starts_with("unsigned") && s.ends_with("hyper") => "unsigned hyper",
+                s => s,
+            };
+            Node::Type(BasicType::try_from(name).expect("unrecognised type"))
         }
         Rule::EOI => Node::EOF,
         e => panic!("unknown token type {:?}", e),
diff --git a/src/xdr.pest b/src/xdr.pest
index a7690a6..59f1387 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -2,7 +2,7 @@ ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = { ASCII_DIGIT+ }
 basic_type = @{ 
-	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
+	("unsigned" ~ WHITESPACE ~ (WHITESPACE | COMMENT)*)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
 }
 
-- 
2.43.0


From 8fa5a27ca11d1c44a1521106b82ca594780553d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 19/26] fix: out of range or malformed hex enum values do not
 panic

---
 src/ast/enumeration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast/enumeration.rs b/src/ast/enumeration.rs
index a6d6b98..19038c9 100644
--- a/src/ast/enumeration.rs
+++ b/src/ast/enumeration.rs
@@ -51,7 +51,9 @@ where
         let v = v.as_ref();
         if v.starts_with("0x") {
             let clean = v.trim_start_matches("0x");
-            return Self::Numeric(i32::from_str_radix(clean, 16).unwrap());
+            return i32::from_str_radix(clean, 16)
+                .map(Self::Numeric)
+                .unwrap_or_else(|_| Self::String(v.to_string()));
         }
 
         v.parse::<i32>()
-- 
2.43.0


From 79f067e580b91c34f015904331a70e5e44b56946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 20/26] fix: duplicate constants and enum members are an error,
 not a panic

---
 src/ast/indexes/constants.rs | 9 +++++----
 src/ast/mod.rs               | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ast/indexes/constants.rs b/src/ast/indexes/constants.rs
index 647953d..8071912 100644
--- a/src/ast/indexes/constants.rs
+++ b/src/ast/indexes/constants.rs
@@ -1,4 +1,5 @@
 use crate::ast::Node;
+use crate::Result;
 use std::collections::BTreeMap;
 
 #[derive(Debug)]
@@ -21,7 +22,7 @@ pub struct ConstantIndex(pub BTreeMap<String, ConstantType>);
 
 impl ConstantIndex {
     /// Build an index of all consts / enums for use in the union switches.
-    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> ConstantIndex {
+    pub(crate) fn new<'a>(ast: &'a Node<'a>) -> Result<ConstantIndex> {
         let mut case_values = BTreeMap::new();
         if let Node::Root(r) = ast {
             for item in r.iter() {
@@ -35,7 +36,7 @@ impl ConstantIndex {
                             )
                             .is_some()
                         {
-                            panic!("duplicate case keys {}", vs[0].ident_str());
+                            return Err(format!("duplicate case keys {}", vs[0].ident_str()).into());
                         }
                     }
                     Node::Enum(e) => {
@@ -54,7 +55,7 @@ impl ConstantIndex {
                                 )
                                 .is_some()
                             {
-                                panic!("duplicate case keys {}", v.name.as_str());
+                                return Err(format!("duplicate case keys {}", v.name.as_str()).into());
                             }
                         }
                     }
@@ -63,7 +64,7 @@ impl ConstantIndex {
             }
         }
 
-        ConstantIndex(case_values)
+        Ok(ConstantIndex(case_values))
     }
 
     /// Returns the constant value as a string for `name`.
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 6d55267..0647cd7 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -55,7 +55,7 @@ impl Ast {
 
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
-        let constant_index = ConstantIndex::new(&ast);
+        let constant_index = ConstantIndex::new(&ast)?;
         let generic_index = GenericIndex::new(&ast);
         let type_index = TypeIndex::new(&ast);
 
-- 
2.43.0


From 15e4bd69f8e72320eaba5e9efd6b061a412abf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 21/26] fix: fixed length strings are an error, not a panic

---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index 06dd108..3d11ee4 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -341,7 +341,7 @@ where
 
         match field {
             BasicType::Opaque => write!(w, "v.read_bytes({})?", size)?,
-            BasicType::String => unreachable!("unexpected fixed length string"),
+            BasicType::String => return Err("unexpected fixed length string".into()),
             _ => {
                 writeln!(w, "[")?;
                 for _i in 0..size {
-- 
2.43.0


From 0e07872879c57caadc22ed37b7de9190fbbda582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:46 +0000
Subject: [PATCH 22/26] fix: unsupported struct fields and union arms are an
 error, not a panic

---
 src/ast/indexes/generic_types.rs |  1 +
 src/ast/mod.rs                   | 17 +++++++++++++++--
 src/ast/node.rs                  |  3 +++
 src/ast/structure.rs             | 16 ++++++++--------
 src/ast/union.rs                 | 32 ++++++++++++++++----------------
 5 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/ast/indexes/generic_types.rs b/src/ast/indexes/generic_types.rs
index 757cb69..df76e50 100644
--- a/src/ast/indexes/generic_types.rs
+++ b/src/ast/indexes/generic_types.rs
@@ -79,6 +79,7 @@ impl GenericIndex {
                 | Node::Option(_)
                 | Node::UnionDataField(_)
                 | Node::UnionVoid
+                | Node::Invalid(_)
                 | Node::StructDataField(_)
                 | Node::Array(_) => unreachable!("{:?}", &v),
             };
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 0647cd7..224bec9 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -53,6 +53,15 @@ impl Ast {
         // Parse into an AST
         let ast = walk(root.next().ok_or("unable to tokenise input")?);
 
+        // Report the first declaration that is valid XDR but not supported.
+        if let Node::Root(items) = &ast {
+            for item in items {
+                if let Node::Invalid(e) = item {
+                    return Err(e.as_str().into());
+                }
+            }
+        }
+
         // Build some helpful indexes to answer questions about types when
         // generating the Rust code.
         let constant_index = ConstantIndex::new(&ast)?;
@@ -105,10 +114,14 @@ fn walk(ast: Pair<'_, Rule>) -> Node<'_> {
         Rule::array => Node::Array(collect_values(ast)),
         Rule::array_variable => Node::ArrayVariable(ast.into_inner().as_str()),
         Rule::array_fixed => Node::ArrayFixed(ast.into_inner().as_str()),
-        Rule::struct_type => Node::Struct(Struct::new(collect_values(ast))),
+        Rule::struct_type => Struct::new(collect_values(ast))
+            .map(Node::Struct)
+            .unwrap_or_else(|e| Node::Invalid(e.to_string())),
         Rule::struct_data_field => Node::StructDataField(collect_values(ast)),
         Rule::union_data_field => Node::UnionDataField(collect_values(ast)),
-        Rule::union => Node::Union(Union::new(collect_values(ast))),
+        Rule::union => Union::new(collect_values(ast))
+            .map(Node::Union)
+            .unwrap_or_else(|e| Node::Invalid(e.to_string())),
         Rule::union_case => Node::UnionCase(collect_values(ast)),
         Rule::union_default => Node::UnionDefault(collect_values(ast)),
         Rule::union_void => Node::UnionVoid,
diff --git a/src/ast/node.rs b/src/ast/node.rs
index dfdef83..14a5590 100644
--- a/src/ast/node.rs
+++ b/src/ast/node.rs
@@ -20,6 +20,9 @@ pub(crate) enum Node<'a> {
     EnumVariant(Vec<Node<'a>>),
     Root(Vec<Node<'a>>),
 
+    /// A declaration that is grammatically valid, but not supported.
+    Invalid(String),
+
     EOF,
 }
 
diff --git a/src/ast/structure.rs b/src/ast/structure.rs
index b4b94a0..d538691 100644
--- a/src/ast/structure.rs
+++ b/src/ast/structure.rs
@@ -7,15 +7,15 @@ pub struct Struct {
 }
 
 impl Struct {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut fields = Vec::new();
         for v in vs.into_iter().skip(1) {
-            fields.push(StructField::new(v));
+            fields.push(StructField::new(v)?);
         }
 
-        Struct { name, fields }
+        Ok(Struct { name, fields })
     }
 
     pub fn name(&self) -> &str {
@@ -41,13 +41,13 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub(crate) fn new(v: Node<'_>) -> Self {
+    pub(crate) fn new(v: Node<'_>) -> Result<Self> {
         let f = match v {
             Node::StructDataField(f) => f,
             e => panic!("not a struct field: {:?}", e),
         };
 
-        match f.as_slice() {
+        Ok(match f.as_slice() {
             [Node::Type(rhs), Node::Type(BasicType::Ident(lhs))] => Self {
                 field_name: lhs.to_string(),
                 field_value: ArrayType::None(rhs.to_owned()),
@@ -72,7 +72,7 @@ impl StructField {
             [Node::Type(rhs), Node::Option(opt)] => {
                 let lhs = match &opt[0] {
                     Node::Type(BasicType::Ident(lhs)) => lhs,
-                    _ => panic!("unexpected struct field option layout"),
+                    _ => return Err("unexpected struct field option layout".into()),
                 };
 
                 Self {
@@ -81,8 +81,8 @@ impl StructField {
                     is_optional: true,
                 }
             }
-            _ => panic!("invalid number of struct field tokens"),
-        }
+            _ => return Err("unsupported struct field declaration".into()),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
diff --git a/src/ast/union.rs b/src/ast/union.rs
index 7948022..d4a3d32 100644
--- a/src/ast/union.rs
+++ b/src/ast/union.rs
@@ -16,7 +16,7 @@ pub struct Union {
 }
 
 impl Union {
-    pub(crate) fn new(vs: Vec<Node<'_>>) -> Self {
+    pub(crate) fn new(vs: Vec<Node<'_>>) -> Result<Self> {
         let name = vs[0].ident_str().to_string();
 
         let mut cases = Vec::new();
@@ -35,11 +35,11 @@ impl Union {
         for v in vs.into_iter().skip(3) {
             let mut is_default_case = false;
             let stmt = match v {
-                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes),
+                Node::UnionCase(nodes) => CaseStmt::parse(case_values, nodes)?,
                 Node::UnionDefault(nodes) => {
                     is_default_case = true;
                     case_values.push("default".to_string());
-                    CaseStmt::parse(case_values, nodes)
+                    CaseStmt::parse(case_values, nodes)?
                 }
                 v => panic!("unexpected token type for union {:?}", v),
             };
@@ -59,13 +59,13 @@ impl Union {
             case_values = Vec::new()
         }
 
-        Union {
+        Ok(Union {
             name,
             cases,
             default,
             void_cases,
             switch,
-        }
+        })
     }
 
     pub fn name(&self) -> &str {
@@ -102,15 +102,15 @@ pub struct UnionCase {
 }
 
 impl UnionCase {
-    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Self {
-        match field.as_slice() {
+    pub(crate) fn new(case_values: Vec<String>, field: Vec<Node<'_>>) -> Result<Self> {
+        Ok(match field.as_slice() {
             [Node::Type(t), Node::Type(BasicType::Ident(l))] => Self {
                 case_values,
                 field_name: l.to_string(),
                 field_value: ArrayType::None(t.to_owned()),
             },
-            _ => panic!("invalid number of union field tokens"),
-        }
+            _ => return Err("unsupported union arm declaration".into()),
+        })
     }
 
     pub fn contains_opaque(&self) -> bool {
@@ -130,29 +130,29 @@ enum CaseStmt {
 }
 
 impl CaseStmt {
-    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Self {
+    fn parse(mut case_values: Vec<String>, mut nodes: Vec<Node<'_>>) -> Result<Self> {
         match nodes.remove(0) {
             Node::Type(t) => case_values.push(t.as_str().to_string()),
             Node::UnionVoid => {
                 // No ident, this is a default case
-                return Self::Void(case_values);
+                return Ok(Self::Void(case_values));
             }
             Node::UnionDataField(nodes) => {
                 // No ident, this is a default case
-                return Self::Defined(UnionCase::new(case_values, nodes));
+                return Ok(Self::Defined(UnionCase::new(case_values, nodes)?));
             }
             _ => unreachable!(),
         };
 
         if nodes.is_empty() {
-            return Self::Fallthrough(case_values);
+            return Ok(Self::Fallthrough(case_values));
         }
 
-        match nodes.remove(0) {
-            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)),
+        Ok(match nodes.remove(0) {
+            Node::UnionDataField(nodes) => Self::Defined(UnionCase::new(case_values, nodes)?),
             Node::UnionVoid => Self::Void(case_values),
             _ => unreachable!(),
-        }
+        })
     }
 }
 
-- 
2.43.0


From e35f4a337804d5efaff28cbe25a40ad47692539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:33 +0000
Subject: [PATCH 23/26] fix: the CLI prints the generated code without an extra
 newline

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index db6a188..b182a2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ fn main() -> Result<()> {
     for e in env::args().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
-        println!("{}", code);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 85a508286ddd4953e1193539a0240d2d92cc2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 24/26] fix: the CLI accepts paths that are not UTF-8

---
 src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b182a2b..45863d9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,12 +3,15 @@ use fastxdr::Result;
 use std::env;
 
 fn main() -> Result<()> {
-    if env::args().len() < 2 {
-        println!("usage: {} ./path/to/spec.x", env::args().next().unwrap());
+    if env::args_os().len() < 2 {
+        println!(
+            "usage: {} ./path/to/spec.x",
+            env::args_os().next().unwrap_or_default().to_string_lossy()
+        );
         std::process::exit(1);
     }
 
-    for e in env::args().skip(1) {
+    for e in env::args_os().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
         print!("{}", code);
-- 
2.43.0


From fdb108e41e9697f60efd7eb7a2facdbbf521f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 25/26] fix: type keywords may be followed directly by a
 comment or an asterisk

---
 src/xdr.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index 59f1387..8ee2f9b 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -2,8 +2,8 @@ ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = { ASCII_DIGIT+ }
 basic_type = @{ 
-	("unsigned" ~ WHITESPACE ~ (WHITESPACE | COMMENT)*)? ~ ("int" | "hyper") ~ WHITESPACE+ |
-	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
+	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ !(ASCII_ALPHANUMERIC | "_") |
+	("float" | "double" | "string"| "opaque") ~ !(ASCII_ALPHANUMERIC | "_")
 }
 
 // Comment types
-- 
2.43.0


From f7051e3ee214c2354c3610e90cdc5c36a0db7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 26/26] fix: whitespace or a comment after an array size is not
 part of the size

C11 C12: ident_value was not atomic, so `opaque a[8 ]` had the size "8 ".
---
 src/xdr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index 8ee2f9b..20d5e97 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,6 +1,6 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
-ident_value = { ASCII_DIGIT+ }
+ident_value = @{ ASCII_DIGIT+ }
 basic_type = @{ 
 	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ !(ASCII_ALPHANUMERIC | "_") |
 	("float" | "double" | "string"| "opaque") ~ !(ASCII_ALPHANUMERIC | "_")
-- 
2.43.0

