From 93b9e1a5ef0b45c7b119d423023a7d8a1309dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 01/40] fix: memoized: do not wrap the database index after 256
 databases

memoized! keeps its tables in a thread-local vector indexed by the
database's index.  The index was an 8-bit counter, so the 257th database
of a process was answered with the results of the first.
---
 common/memoized.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/memoized.rs b/common/memoized.rs
index 9860ebf..33f88d4 100644
--- a/common/memoized.rs
+++ b/common/memoized.rs
@@ -205,7 +205,7 @@ macro_rules! query_group {
     // The database struct, which contains the lookup tables.
     $vis struct $database_struct $(<$($type_param),*>)? {
       pub __unwinding_cycles: ::core::cell::Cell<u32>,
-      pub __db_index: u8,
+      pub __db_index: usize,
       $(
         $input_function: $input_type,
       )*
@@ -346,7 +346,7 @@ macro_rules! memoized {
     }
     $vis fn $memoized_ident(db: $db_type, $($arg: $arg_type),*) -> $return_type {
       $memoized_ident::TABLES.with(|tables| {
-        let db_index = db.__db_index as usize;
+        let db_index = db.__db_index;
         if tables.borrow().len() <= db_index {
           tables.borrow_mut().resize_with(db_index + 1, Default::default);
         }
@@ -453,8 +453,8 @@ pub mod internal {
         }
     }
 
-    pub fn db_index() -> u8 {
-        static DB_INDEX: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
+    pub fn db_index() -> usize {
+        static DB_INDEX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
         DB_INDEX.fetch_add(1, std::sync::atomic::Ordering::AcqRel)
     }
 }
-- 
2.43.0


From 849ccd4d3994265a3910b673593bb65b2725c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 02/40] fix: cc_bindings_from_rs: relocate transparent types
 that are not Copy through memory

---
 cc_bindings_from_rs/generate_bindings/query_compiler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/query_compiler.rs b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
index 823b5ae..a81b3e0 100644
--- a/cc_bindings_from_rs/generate_bindings/query_compiler.rs
+++ b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
@@ -89,6 +89,12 @@ pub fn is_c_abi_compatible_by_value<'tcx>(db: &BindingsGenerator<'tcx>, ty: Ty<'
                 // If our adt is not transparent, it is not abi compatible by value.
                 return false;
             }
+            if !is_copy(tcx, None, ty) {
+                // The C++ side can only hand over (or assign from) such a value through its special
+                // members, which may be deleted, clone, or access a destination that isn't
+                // initialized yet. Values that aren't `Copy` are relocated through memory instead.
+                return false;
+            }
             let Some(field) = adt.all_fields().next() else {
                 // TODO: b/258259459 - Support zero sized types.
                 return false;
-- 
2.43.0


From dec15a549977875948558517599235bc4005b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 03/40] fix: cc_bindings_from_rs: do not default-construct
 classes returned in tuples

---
 cc_bindings_from_rs/generate_bindings/generate_function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index e871b11..dac6bba 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -379,7 +379,8 @@ fn cc_return_value_from_c_abi<'tcx>(
                 })
             }
         }
-    } else if is_c_abi_compatible_by_value(db, ty) {
+    } else if is_c_abi_compatible_by_value(db, ty) && !ty.is_adt() {
+        // (The C++ class of an ADT isn't necessarily default constructible.)
         let cc_type = &format_ty_for_cc_amending_prereqs(db, ty, prereqs)?;
         let local_name = &expect_format_cc_ident(&format!("__{ident}_ret_val_holder"));
         storage_statements.extend(quote! {
-- 
2.43.0


From 8b029e3fb3b081fdc75667c60fc2753e2b06471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 04/40] fix: support: Slot of an array moves its elements
 instead of copying their bytes

---
 support/internal/slot.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 0d219d8..f4f7890 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -9,7 +9,9 @@
 
 #include <array>
 #include <cstddef>
+#include <cstring>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 namespace crubit {
@@ -105,7 +107,7 @@ class Slot {
 
   // SAFETY REQUIREMENTS: The value contained in `other` must be initialized
   // (but may be moved-from).
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
 
   // Does not destroy the contained value.
   //
@@ -146,10 +148,12 @@ class Slot<std::array<UT, S>> {
   using T = std::array<UT, S>;
   Slot() {}
   explicit constexpr Slot(T&& x) {
-    if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
-      memcpy(value_.data(), x.data(), sizeof(UT) * S);
+    if constexpr (std::is_move_constructible_v<UT>) {
+      // `x` is still going to be destroyed by its owner, so its elements have to
+      // be moved rather than relocated.
+      std::construct_at(&value_, std::move(x));
     } else {
-      value_ = std::move(x);
+      std::memcpy(value_.data(), x.data(), sizeof(UT) * S);
     }
   }
   T* Get() { return &value_; }
@@ -163,7 +167,7 @@ class Slot<std::array<UT, S>> {
       return return_value;
     }
   }
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
   ~Slot() {}
 
   Slot(const Slot&) = delete;
-- 
2.43.0


From fe9652c579df3e193903636498370423ff07e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 05/40] fix: support: TransmuteAbi destroys the value it moved
 out of its buffer

---
 support/bridge.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 1dd49a3..294a50a 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -12,6 +12,8 @@
 #include <concepts>
 #include <cstddef>
 #include <cstring>
+#include <memory>
+#include <new>
 #include <optional>
 #include <tuple>
 #include <utility>
@@ -252,8 +254,12 @@ struct TransmuteAbi {
     alignas(Value) char buf[kSize];
     // Copy the value from the decoder buffer into the intermediate buffer.
     std::memcpy(buf, decoder.Next(kSize), kSize);
-    // Move-construct the value from the buffer.
-    return std::move(*reinterpret_cast<Value*>(buf));
+    // Move-construct the value from the buffer, and destroy what the move left
+    // behind: the buffer owns the value that was encoded.
+    Value* moved_from = std::launder(reinterpret_cast<Value*>(buf));
+    Value value(std::move(*moved_from));
+    std::destroy_at(moved_from);
+    return value;
   }
 };
 
-- 
2.43.0


From 52d29be9678e07ee554f0834e9978e21f15b40c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 06/40] fix: support: TupleAbi moves the elements it encodes

---
 support/bridge.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/bridge.h b/support/bridge.h
index 294a50a..df1366c 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -273,7 +273,8 @@ struct TupleAbi {
         [&](auto&&... args) {
           return std::apply(
               [&](auto&&... abis) {
-                (std::move(abis).Encode(args, encoder), ...);
+                (std::move(abis).Encode(std::forward<decltype(args)>(args), encoder),
+                 ...);
               },
               std::move(abis));
         },
-- 
2.43.0


From 48a569b667770b3ddc66e6253ddefe5b0eda4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 07/40] fix: support: PairAbi::Decode builds a std::pair, which
 is not an aggregate

---
 support/bridge.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index df1366c..c765e8f 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -303,10 +303,9 @@ struct PairAbi {
     std::move(abis.second).Encode(std::move(value.second), encoder);
   }
   Value Decode(Decoder& decoder) && {
-    return {
-        .first = std::move(abis.first).Decode(decoder),
-        .second = std::move(abis.second).Decode(decoder),
-    };
+    // (The elements of a braced list are evaluated in order.)
+    return Value{std::move(abis.first).Decode(decoder),
+                 std::move(abis.second).Decode(decoder)};
   }
 
   std::pair<Abi1, Abi2> abis;
-- 
2.43.0


From f534ef8df7858ed838596e8bedc87e5b9e243156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 08/40] fix: cc_bindings_from_rs: include the header of the
 annotations used by template specializations

---
 .../generate_bindings/generate_template_specialization.rs     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index 6fbbad6..4810b18 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -778,6 +778,7 @@ fn specialize_tuple<'tcx>(
     .into_iter()
     .collect();
 
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
     let qualified_name = cc_fully_qualified_name.to_string();
     let name = escape_non_identifier_chars(&qualified_name);
@@ -1047,6 +1048,7 @@ fn specialize_vec<'tcx>(
     let mut rs_details = rs_details;
     rs_details.tokens.extend(rs_drop);
 
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
     let guard_name = format_ident!("_CRUBIT_BINDINGS_FOR_{}", name);
     let size_literal = Literal::u64_unsuffixed(layout.size().bytes());
@@ -1299,6 +1301,7 @@ fn specialize_result<'tcx>(
     ]
     .into_iter()
     .collect();
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
 
     let qualified_name = cc_fully_qualified_name.to_string();
@@ -1517,6 +1520,7 @@ fn specialize_option<'tcx>(
     ]
     .into_iter()
     .collect();
+    prereqs.includes.insert(db.support_header("annotations_internal.h"));
     let main_api_tokens = main_api.into_tokens(&mut prereqs);
 
     let qualified_name = cc_fully_qualified_name.to_string();
-- 
2.43.0


From ce2a5b7d8d1c06abb20e8c83d82cb07a69c58877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 09/40] fix: compare mutable SliceRefs

The const element type of EqualImpl could not be deduced from a SliceRef of
mutable elements, so comparing one did not compile.
---
 support/rs_std/slice_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index 7e2b5b7..dd9d2e3 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -180,25 +180,25 @@ constexpr bool EqualImpl(SliceRef<const T> a, SliceRef<const T> b) {
 
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<const T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<const T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(const U& a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(SliceRef<T> a, const U& b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 
 template <typename T>
-- 
2.43.0


From 53f4135e63281213b4c38e2c02359187f77af08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 10/40] fix: common: find the root cause of errors that were
 converted more than once

---
 common/arc_anyhow.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/arc_anyhow.rs b/common/arc_anyhow.rs
index 40be950..b998102 100644
--- a/common/arc_anyhow.rs
+++ b/common/arc_anyhow.rs
@@ -61,13 +61,13 @@ impl Error {
     /// Similar to [`anyhow::Error::root_cause`].
     pub fn root_cause(&self) -> &(dyn std::error::Error + 'static) {
         // This crate's `StdError` type is private, so recurse into it to get an
-        // error the caller might expect to find.
-        let e = self.0.root_cause();
-        if let Some(e) = e.downcast_ref::<StdError>() {
-            e.0.root_cause()
-        } else {
-            e
+        // error the caller might expect to find. (It is nested if the error
+        // round-tripped through `anyhow::Error` more than once.)
+        let mut e = self.0.root_cause();
+        while let Some(std_error) = e.downcast_ref::<StdError>() {
+            e = std_error.0.root_cause();
         }
+        e
     }
 
     pub fn context<C>(self, context: C) -> Self
-- 
2.43.0


From 5e5bf38a31b1aba6fe54306c03b46e4414b6d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 11/40] fix: common: print comments and literal text with
 quotes and backslashes as written

---
 common/token_stream_printer.rs | 69 +++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/common/token_stream_printer.rs b/common/token_stream_printer.rs
index 5b77ddd..cf1dd24 100644
--- a/common/token_stream_printer.rs
+++ b/common/token_stream_printer.rs
@@ -203,10 +203,39 @@ pub struct FormattedOffsetsWithProvenance {
 /// records.
 pub type FormattedProvenanceMap = HashMap<usize, FormattedOffsetsWithProvenance>;
 
-/// Unescapes a string literal token (for __CAPTURE_TAG__).
-fn clean_literal(lit: proc_macro2::Literal) -> String {
-    // We'd like to use str_value, but that's only on procmacro2_semver_exempt.
-    lit.to_string().trim_matches('"').replace("\\\"", "\"")
+/// Returns the value of a string literal token.
+///
+/// We'd like to use str_value, but that's only on procmacro2_semver_exempt.
+fn clean_literal(lit: &proc_macro2::Literal) -> String {
+    let repr = lit.to_string();
+    let Some(escaped) = repr.strip_prefix('"').and_then(|s| s.strip_suffix('"')) else {
+        return repr;
+    };
+    let mut value = String::new();
+    let mut chars = escaped.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            value.push(c);
+            continue;
+        }
+        match chars.next() {
+            Some('n') => value.push('\n'),
+            Some('r') => value.push('\r'),
+            Some('t') => value.push('\t'),
+            Some('0') => value.push('\0'),
+            Some(code @ ('u' | 'x')) => {
+                let digits: String = if code == 'u' {
+                    chars.by_ref().skip(1).take_while(|c| *c != '}').filter(|c| *c != '_').collect()
+                } else {
+                    chars.by_ref().take(2).collect()
+                };
+                value.extend(u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32));
+            }
+            Some(c) => value.push(c),
+            None => {}
+        }
+    }
+    value
 }
 
 pub fn write_unformatted_tokens(
@@ -264,9 +293,9 @@ impl<'a, T: std::fmt::Write> TokenOutputState<'a, T> {
                         if let Some(search_start) = (self.cur_len)(self.result) {
                             // __CAPTURE_TAG__ srcpath srcofsstart srcofsend
                             self.current_capture_index += 1;
-                            self.provenance_entry.original_path = clean_literal(original_path);
-                            self.provenance_entry.original_start = clean_literal(original_start);
-                            self.provenance_entry.original_end = clean_literal(original_end);
+                            self.provenance_entry.original_path = clean_literal(&original_path);
+                            self.provenance_entry.original_start = clean_literal(&original_start);
+                            self.provenance_entry.original_end = clean_literal(&original_end);
                             self.provenance_entry.destination_search_start = search_start;
                         }
                     } else {
@@ -292,31 +321,19 @@ impl<'a, T: std::fmt::Write> TokenOutputState<'a, T> {
                 }
                 TokenTree::Ident(tt) if tt == "__COMMENT__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        writeln!(
-                            self.result,
-                            "// {}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\n", "\n// ")
-                        )?;
+                        let mut comment = clean_literal(&lit).replace('\n', "\n// ");
+                        if comment.ends_with('\\') {
+                            // In C++ the comment would continue on the next line.
+                            comment.push_str(" .");
+                        }
+                        writeln!(self.result, "// {comment}")?;
                     } else {
                         bail!("__COMMENT__ must be followed by a literal")
                     }
                 }
                 TokenTree::Ident(tt) if tt == "__LITERALLY__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        // TokenTree::Literal does not provide a structured way to
-                        // get the value out, so we have to use the Display impl to
-                        // print the string literal as Rust syntax and unescape it.
-                        writeln!(
-                            self.result,
-                            "{}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\\\", "\\")
-                        )?;
+                        writeln!(self.result, "{}", clean_literal(&lit))?;
                     } else {
                         bail!("__LITERALLY__ must be followed by a literal")
                     }
-- 
2.43.0


From f5758ba6444a4c6bfb30bda2aea777f2e4d4c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 12/40] fix: common: keep tokens apart that would form a
 comment or a prefixed token

---
 common/token_stream_printer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/token_stream_printer.rs b/common/token_stream_printer.rs
index cf1dd24..60f536c 100644
--- a/common/token_stream_printer.rs
+++ b/common/token_stream_printer.rs
@@ -498,11 +498,17 @@ fn tokens_require_whitespace(
     current: &TokenTree,
     next: &TokenTree,
 ) -> bool {
-    if is_ident_or_literal(current) && is_ident_or_literal(next) {
+    if is_ident_or_literal(current) && (is_ident_or_literal(next) || is_punct(next, "'#")) {
+        // A `'` or `#` starts a new token, but glued to an identifier it would be a part of it:
+        // `break 'a` and `r # a` are different than `break'a` and `r#a`.
+        return true;
+    }
+    if is_punct(current, "/") && is_punct(next, "/*") {
+        // Don't start a comment.
         return true;
     }
 
-    // We (currently) only add a space for `:`.
+    // Otherwise we (currently) only add a space for `:`.
     // A lone `:` always gets a space after it. A lone `::` doesn't.
     // So if the current character is a colon, it gets a space after it if it is not
     // the start or end of a `::`.
@@ -543,6 +549,10 @@ fn is_ident_or_literal(tt: &TokenTree) -> bool {
     }
 }
 
+fn is_punct(tt: &TokenTree, chars: &str) -> bool {
+    matches!(tt, TokenTree::Punct(p) if chars.contains(p.as_char()))
+}
+
 fn pipe_string_through_process<'a>(
     input: String,
     exe_name: &str,
-- 
2.43.0


From 25738d5d816aa524f036da2afa270f559b786cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 13/40] fix: cc_bindings_from_rs: do not specialize
 rs_std::impl for generic types mapped to C++ templates

---
 .../generate_template_specialization.rs       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
index 4810b18..a2be5d2 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs
@@ -1638,6 +1638,15 @@ pub(crate) fn append_trait_impls<'tcx>(
     }
 }
 
+fn has_type_or_const_params(tcx: TyCtxt<'_>, def_id: DefId) -> bool {
+    tcx.generics_of(def_id).own_params.iter().any(|param| {
+        matches!(
+            param.kind,
+            ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. }
+        )
+    })
+}
+
 fn append_explicit_trait_impls<'tcx>(
     db: &BindingsGenerator<'tcx>,
     trait_def_id: DefId,
@@ -1658,6 +1667,10 @@ fn append_explicit_trait_impls<'tcx>(
         if canonical_name.unqualified.cpp_type.is_none() && db.adt_needs_bindings(*did).is_err() {
             continue;
         }
+        // The name of a generic ADT has no template arguments, so it can only name a class template.
+        if has_type_or_const_params(tcx, *did) {
+            continue;
+        }
         let Ok(adt_cc_name) = canonical_name.format_for_cc(db) else {
             continue;
         };
@@ -1687,12 +1700,7 @@ fn append_negative_auto_trait_impls<'tcx>(
             continue;
         };
 
-        if tcx.generics_of(self_def_id).own_params.iter().any(|param| {
-            matches!(
-                param.kind,
-                ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. }
-            )
-        }) {
+        if has_type_or_const_params(tcx, self_def_id) {
             continue;
         }
         let Some(canonical_name) = db.symbol_canonical_name(self_def_id) else {
-- 
2.43.0


From 3b6b92f8e5e7ee7373f4f478a6595d60b7787642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 14/40] fix: report a consumed DynCallable as empty

Calling an FnOnce DynCallable leaves its state behind without an owner, so
moving it does not move the state.  Its operator bool still said it held a
value, and passing it to Rust afterwards handed over whatever bytes were
there, which Rust then dropped a second time.
---
 support/rs_std/dyn_callable.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 8ae7d89..6cff1b4 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -133,7 +133,12 @@ inline ReturnType InvokedAfterMove(TypeErasedState*,
       }                                                                        \
     }                                                                          \
                                                                                \
-    bool HasValue() const { return invoker_ != nullptr; }                      \
+    /* A consumed callable has no state left, just like an empty one. */       \
+    bool HasValue() const {                                                    \
+      return invoker_ != nullptr &&                                            \
+             invoker_ != static_cast<InvokerType*>(                            \
+                             InvokedAfterMove<ReturnType, P...>);              \
+    }                                                                          \
                                                                                \
    protected:                                                                  \
     InvokerType* invoker_ = nullptr;                                           \
-- 
2.43.0


From 1add04525b7f6e42f16fc2e9bd3e9fc008f61efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 15/40] fix: drop the value when the function given to
 ctor_then fails

When the function returned an error or panicked, the already constructed
value was left behind in a place its owner considers uninitialized, and
never dropped.
---
 support/ctor.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index fac28d9..3638bb6 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -314,8 +314,19 @@ unsafe impl<C: Ctor, F: FnOnce(Pin<&mut C::Output>) -> Result<(), C::Error>> Cto
         unsafe {
             self.ctor.ctor(dest)?;
         }
-        let dest = unsafe { Pin::new_unchecked(&mut *dest) };
-        (self.f)(dest)
+        // If `f` fails or unwinds, the caller considers `dest` to be uninitialized.
+        struct DropOnFailure<T: ?Sized>(*mut T);
+        impl<T: ?Sized> Drop for DropOnFailure<T> {
+            fn drop(&mut self) {
+                // SAFETY: only exists while `dest` is initialized.
+                unsafe { core::ptr::drop_in_place(self.0) }
+            }
+        }
+        let guard = DropOnFailure(dest);
+        // SAFETY: `dest` was just initialized, and is pinned.
+        (self.f)(unsafe { Pin::new_unchecked(&mut *dest) })?;
+        core::mem::forget(guard);
+        Ok(())
     }
 }
 
-- 
2.43.0


From bad4addc2971e6146d56a4d8c40b1c2ff7ab4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 16/40] fix: do not drop a Slot's value again when its
 destructor panics

---
 support/ctor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index 3638bb6..b59ae96 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1118,10 +1118,11 @@ impl<T> Slot<T> {
     pub fn clear(self: Pin<&mut Self>) {
         if self.is_initialized {
             let Self { is_initialized, maybe_uninit } = unsafe { Pin::into_inner_unchecked(self) };
+            // Before dropping: if the destructor unwinds, the value must not be dropped again.
+            *is_initialized = false;
             unsafe {
                 core::ptr::drop_in_place(maybe_uninit.as_mut_ptr());
             }
-            *is_initialized = false;
         }
     }
 
-- 
2.43.0


From b3a80b8ab267bf81df44ba258b952f3efe0461ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 17/40] fix: do not bind PartialOrd impls for types that are
 one type in C++

Two impls such as PartialOrd<u64> and PartialOrd<usize> made the generated
header declare operator<=> twice. Treat them as the other operators are.
---
 .../generate_struct_and_union.rs              | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 772368b..5257f95 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1140,9 +1140,24 @@ fn generate_ord_and_partialord_impls<'tcx>(
         ord_rhs_types.insert(erase_regions(tcx, core.common.self_ty));
     }
 
-    for impl_id in tcx.non_blanket_impls_for_ty(partial_ord_trait_id, core.common.self_ty) {
-        let trait_ref = get_trait_ref_from_impl_id(tcx, impl_id);
-        let rhs_ty = trait_ref.args.type_at(1);
+    // As for the other operators, avoid collisions in cases where types may map to the same
+    // underlying C++ type.
+    let partial_ord_impls = tcx
+        .non_blanket_impls_for_ty(partial_ord_trait_id, core.common.self_ty)
+        .map(|impl_id| (impl_id, get_trait_ref_from_impl_id(tcx, impl_id).args.type_at(1)))
+        .avoid_colliding_types(tcx, |(_impl_id, rhs_ty)| *rhs_ty);
+    for res in partial_ord_impls {
+        let (impl_id, rhs_ty) = match res {
+            Ok(item) => item,
+            Err(TypeCollisionRisk { item: (impl_id, _), key_type, preferred_type }) => {
+                let err = anyhow!(
+                    "PartialOrd implementation for `{key_type}` is not supported when \
+                     `PartialOrd<{preferred_type}>` is implemented as it may overlap."
+                );
+                snippets.push(generate_unsupported_def(db, impl_id, err).into_main_api());
+                continue;
+            }
+        };
         let erased_rhs_ty = erase_regions(tcx, rhs_ty);
 
         if ord_rhs_types.contains(&erased_rhs_ty) {
-- 
2.43.0


From dacc9160b5d1d0f057cf2795e8cb0d1754095242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 18/40] fix: see through type arguments when looking for
 colliding types

From<Option<u64>> and From<Option<usize>> (and conversions to Vec<u64> and
Vec<usize>) made the generated header declare a constructor twice.
---
 .../generate_bindings/avoid_colliding_types.rs      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs b/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs
index 2504423..f0e5a2e 100644
--- a/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs
+++ b/cc_bindings_from_rs/generate_bindings/avoid_colliding_types.rs
@@ -66,8 +66,8 @@ impl<'tcx, T: 'tcx, I> AvoidCollidingTypes<'tcx, T> for I where I: Iterator<Item
 /// * Types that may map to the same C++ type (e.g. `usize` and `u64`) are grouped into
 ///   equivalence classes (e.g. `usize`, `u32`, and `u64`) and one of the types is chosen
 ///   as the preferred type (e.g. `usize`, because it is common in `Index<T>`).
-/// * Structured types that need to be recursively handled (e.g. tuples, refs, slices, etc.,
-///   but not ADTs/structs)
+/// * Structured types that need to be recursively handled (e.g. tuples, refs, slices, or
+///   type arguments of generic ADTs like `Option<T>`)
 /// * Types that don't risk a C++ collision (e.g. `char` and `u8`) are returned as their
 ///   own preferred type (i.e. their equivalence class contains only 1 type - themselves).
 fn get_preferred_type<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> Ty<'tcx> {
@@ -97,6 +97,15 @@ fn get_preferred_type<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> Ty<'tcx> {
             let new_elem_ty = get_preferred_type(tcx, *elem_ty);
             Ty::new_array_with_const_len(tcx, new_elem_ty, *const_val)
         }
+        ty::TyKind::Adt(adt_def, substs) => {
+            let new_substs = tcx.mk_args_from_iter(substs.iter().map(|subst| {
+                match subst.as_type() {
+                    Some(subst_ty) => get_preferred_type(tcx, subst_ty).into(),
+                    None => subst,
+                }
+            }));
+            Ty::new_adt(tcx, *adt_def, new_substs)
+        }
         _ => ty,
     }
 }
-- 
2.43.0


From 30d0b5b092f5518617a8235b54123e895f79300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 19/40] fix: make rs_std::Option<bool> from std::optional<bool>

bool can be made from std::optional<bool>, so the constructor and assignment
from a value competed with those from std::optional: an rvalue was ambiguous,
and an lvalue gave Some(value.has_value()).
---
 support/rs_std/option.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/rs_std/option.h b/support/rs_std/option.h
index a8d59a3..06f2be5 100644
--- a/support/rs_std/option.h
+++ b/support/rs_std/option.h
@@ -23,6 +23,7 @@ inline constexpr bool OptionForwardConstructible = std::negation_v<
     std::disjunction<std::is_base_of<OptionType, std::decay_t<U>>,
                      std::is_same<std::decay_t<U>, std::nullopt_t>,
                      std::is_same<std::decay_t<U>, std::in_place_t>,
+                     std::is_same<std::decay_t<U>, std::optional<T>>,
                      std::negation<std::is_constructible<T, U>>>>;
 
 template <typename ArgType, typename Opt>
-- 
2.43.0


From bad85d4d8a5dd984c31285ba24c5db4026688ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 20/40] fix: spell fields with raw identifiers without r# in
 C++

---
 .../generate_bindings/generate_struct_and_union.rs             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 5257f95..f278a1a 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2358,7 +2358,8 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
     fn analyze_field(&self, index: usize, field_def: &ty::FieldDef, offset: u64) -> Field<'tcx> {
         let tcx = self.db.tcx();
         let type_info = self.prepare_field_type(field_def);
-        let name = field_def.ident(tcx).to_string();
+        // Raw identifiers are spelled without `r#` in C++ (`make_rs_ident` adds it back for Rust).
+        let name = field_def.name.to_string();
         let features = self.db.crate_features(self.db.source_crate_num());
         let cc_name = code_gen_utils::unkeyword_cpp_ident(&name, features).to_string();
         let cc_name = if self.member_function_names.contains(&cc_name) {
-- 
2.43.0


From af3d1923706e6542699d89d189bcc1cf22b32550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 21/40] fix: rename fields and variants named like their class

---
 .../generate_struct_and_union.rs              | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index f278a1a..94c36bc 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2362,7 +2362,10 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let name = field_def.name.to_string();
         let features = self.db.crate_features(self.db.source_crate_num());
         let cc_name = code_gen_utils::unkeyword_cpp_ident(&name, features).to_string();
-        let cc_name = if self.member_function_names.contains(&cc_name) {
+        // In C++, a field can't share its name with a method, nor with its class.
+        let cc_name = if self.member_function_names.contains(&cc_name)
+            || *self.cc_short_name == cc_name
+        {
             format!("{cc_name}_")
         } else {
             cc_name
@@ -2404,6 +2407,14 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         }
     }
 
+    /// Returns the name of the C++ data member holding the fields of an enum variant.
+    fn variant_member_name(&self, variant_def: &ty::VariantDef) -> Ident {
+        let cc_name = format_cc_ident(self.db, variant_def.name.as_str())
+            .unwrap_or_else(|_err| format_ident!("err_field"));
+        // In C++, a member can't share its name with its class.
+        if cc_name == *self.cc_short_name { format_ident!("{cc_name}_") } else { cc_name }
+    }
+
     fn generate_common_assertions(&self, fields: &[Field<'tcx>]) -> ApiSnippets<'tcx> {
         let adt_cc_name = self.cc_short_name;
         let adt_rs_name = self.rs_fully_qualified_name;
@@ -2686,10 +2697,9 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                             if variant.size == 0 {
                                 quote! {}
                             } else {
-                                let cc_variant_struct_name = format_cc_ident(self.db, variant_def.ident(tcx).as_str())
-                                    .unwrap_or_else(|_err| format_ident!("err_field"));
+                                let cc_variant_name = self.variant_member_name(variant_def);
                                 let tag_unsuffixed = Literal::u64_unsuffixed(tag_size_with_padding);
-                                quote! { static_assert(#tag_unsuffixed == offsetof(#adt_cc_name, #cc_variant_struct_name)); }
+                                quote! { static_assert(#tag_unsuffixed == offsetof(#adt_cc_name, #cc_variant_name)); }
                             }
                         }).collect();
                     let variant_field_assertions: TokenStream = variants
@@ -2878,8 +2888,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 .variants()
                 .iter_enumerated()
                 .map(|(variant_index, variant_def)| {
-                    let cc_variant_name = format_cc_ident(self.db, variant_def.name.as_str())
-                        .unwrap_or_else(|_err| format_ident!("err_field"));
+                    let cc_variant_name = self.variant_member_name(variant_def);
                     let cc_variant_struct_type = format_cc_ident(
                         self.db,
                         format!("__crubit_{}_struct", variant_def.ident(tcx).as_str()).as_ref(),
-- 
2.43.0


From 5852d7aa4b3e33b805bb985c47c8fdc1f8601059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 22/40] fix: blob of bytes for fields C++ would not pack

---
 .../generate_struct_and_union.rs              | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 94c36bc..10bc5ca 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2174,6 +2174,20 @@ struct AdtFieldGenerator<'a, 'tcx> {
     member_function_names: &'a HashSet<String>,
 }
 
+/// Whether `__attribute__((packed))` reduces the alignment of a C++ field of the given type.
+///
+/// C++ compilers ignore the attribute for fields of (non-POD) class types.
+fn is_cpp_packable(ty: Ty) -> bool {
+    match ty.kind() {
+        ty::TyKind::Array(element_ty, _) => is_cpp_packable(*element_ty),
+        ty::TyKind::FnPtr(..) => true,
+        ty::TyKind::Ref(_, pointee_ty, _) | ty::TyKind::RawPtr(pointee_ty, _) => {
+            !pointee_ty.is_str() && !pointee_ty.is_slice()
+        }
+        _ => ty.is_bool() || ty.is_numeric(),
+    }
+}
+
 impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
     /// Returns the fields of each variant of an ADT. For structs, there will be only one variant.
     ///
@@ -2332,7 +2346,12 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let ty = field_def.ty(tcx, self.adt_generic_args);
         #[rustversion::since(2026-05-13)]
         let ty = crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
-        let size = get_layout(tcx, ty).map(|layout| layout.size().bytes())?;
+        let layout = get_layout(tcx, ty)?;
+        let size = layout.size().bytes();
+
+        if layout.align().abi.bytes() > self.alignment_in_bytes && !is_cpp_packable(ty) {
+            bail!("Fields of class type can't be packed in C++");
+        }
 
         if is_bridged_type(self.db, ty).is_ok_and(|bridged_type| {
             bridged_type.is_some_and(|bridged_type| !bridged_type.is_layout_compatible())
-- 
2.43.0


From 03174306dd70576c004e12cb51dca5274331febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 23/40] fix: omit zero-sized fields whose type has a C++
 counterpart

---
 .../generate_bindings/generate_struct_and_union.rs             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 10bc5ca..c7661d7 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2349,6 +2349,9 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let layout = get_layout(tcx, ty)?;
         let size = layout.size().bytes();
 
+        if size == 0 {
+            bail!("C++ does not support zero-sized types");
+        }
         if layout.align().abi.bytes() > self.alignment_in_bytes && !is_cpp_packable(ty) {
             bail!("Fields of class type can't be packed in C++");
         }
-- 
2.43.0


From 418478390aa683131a08fc27004c132cd4ac511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 24/40] fix: no tuple constructor for fields without a C++ data
 member

---
 .../generate_struct_and_union.rs              | 61 ++++++++++++-------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index c7661d7..e5abffa 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1936,6 +1936,11 @@ fn generate_variant_ctor<'tcx>(
                 bail!("Field `{}` is not movable in C++", field_def.name)
             }
 
+            if adt_def.is_struct() {
+                // The constructor initializes the C++ data members.
+                get_cpp_field_size(db, ty, core.common.alignment_in_bytes)?;
+            }
+
             Ok(ty)
         })
         .collect::<Result<Vec<Ty<'tcx>>>>()?;
@@ -2174,6 +2179,38 @@ struct AdtFieldGenerator<'a, 'tcx> {
     member_function_names: &'a HashSet<String>,
 }
 
+/// Returns the size of a type that a C++ data member can have, in an ADT of the given alignment.
+fn get_cpp_field_size<'tcx>(
+    db: &BindingsGenerator<'tcx>,
+    ty: Ty<'tcx>,
+    adt_alignment_in_bytes: u64,
+) -> Result<u64> {
+    let layout = get_layout(db.tcx(), ty)?;
+    let size = layout.size().bytes();
+
+    if size == 0 {
+        bail!("C++ does not support zero-sized types");
+    }
+    if layout.align().abi.bytes() > adt_alignment_in_bytes && !is_cpp_packable(ty) {
+        bail!("Fields of class type can't be packed in C++");
+    }
+
+    if is_bridged_type(db, ty).is_ok_and(|bridged_type| {
+        bridged_type.is_some_and(|bridged_type| !bridged_type.is_layout_compatible())
+    }) && !ty
+        .ty_adt_def()
+        .and_then(|adt_def| BridgedBuiltin::new(db, adt_def))
+        .is_some_and(|builtin| matches!(builtin, BridgedBuiltin::Option))
+    {
+        bail!(
+            "Field is a bridged type and might not be layout-compatible
+            with the C++ type (b/400633609)"
+        );
+    }
+
+    Ok(size)
+}
+
 /// Whether `__attribute__((packed))` reduces the alignment of a C++ field of the given type.
 ///
 /// C++ compilers ignore the attribute for fields of (non-POD) class types.
@@ -2346,29 +2383,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let ty = field_def.ty(tcx, self.adt_generic_args);
         #[rustversion::since(2026-05-13)]
         let ty = crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
-        let layout = get_layout(tcx, ty)?;
-        let size = layout.size().bytes();
-
-        if size == 0 {
-            bail!("C++ does not support zero-sized types");
-        }
-        if layout.align().abi.bytes() > self.alignment_in_bytes && !is_cpp_packable(ty) {
-            bail!("Fields of class type can't be packed in C++");
-        }
-
-        if is_bridged_type(self.db, ty).is_ok_and(|bridged_type| {
-            bridged_type.is_some_and(|bridged_type| !bridged_type.is_layout_compatible())
-        }) && !ty
-            .ty_adt_def()
-            .and_then(|adt_def| BridgedBuiltin::new(self.db, adt_def))
-            .is_some_and(|builtin| matches!(builtin, BridgedBuiltin::Option))
-        {
-            bail!(
-                "Field is a bridged type and might not be layout-compatible
-                with the C++ type (b/400633609)"
-            );
-        }
-
+        let size = get_cpp_field_size(self.db, ty, self.alignment_in_bytes)?;
         let cpp_type = self
             .db
             .format_ty_for_cc(ty, TypeLocation::Field)?
-- 
2.43.0


From 10040a943211c037b340878386dcfe03b4f8261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 25/40] fix: keep union fields without C++ type as bytes
 wherever they are declared

---
 .../generate_struct_and_union.rs               | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index e5abffa..aa75254 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2317,13 +2317,17 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                     });
                 }
 
-                let next_offsets = fields
-                    .iter()
-                    .map(|Field { offset, .. }| offset)
-                    .skip(1)
-                    .copied()
-                    .chain(once(size))
-                    .collect_vec();
+                let next_offsets = match field_shape {
+                    // The fields of a union may all take the whole of it.
+                    FieldsShape::Union { .. } => vec![size; fields.len()],
+                    _ => fields
+                        .iter()
+                        .map(|Field { offset, .. }| offset)
+                        .skip(1)
+                        .copied()
+                        .chain(once(size))
+                        .collect_vec(),
+                };
                 for (field, next_offset) in fields.iter_mut().zip(next_offsets) {
                     field.offset_of_next_field = next_offset;
                 }
-- 
2.43.0


From 7f098879a88dd99c3b29f3052759cdaf6cc2858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 26/40] fix: keep the padding of repr(C, packed(N))

---
 .../generate_bindings/generate_struct_and_union.rs          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index aa75254..7ffc664 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2351,7 +2351,13 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
 
         match self.adt_def.adt_kind() {
             ty::AdtKind::Struct => {
+                // `__attribute__((packed))` takes away the padding that `packed(N)` leaves.
+                let is_packed = self
+                    .repr_attrs
+                    .iter()
+                    .any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }));
                 let always_omit_padding = self.repr_attrs.contains(&rustc_hir::attrs::ReprC)
+                    && !is_packed
                     && variants_fields.iter().flatten().all(|field| field.type_info.is_ok());
                 let fields = variants_fields.into_iter().next().unwrap_or_default();
                 Ok(AdtLayout::Struct { fields, always_omit_padding })
-- 
2.43.0


From 79fac631cf3210069b2a52d58cb51a9d5bf949e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 27/40] fix: define tuple constructors where their field types
 are complete

---
 .../generate_struct_and_union.rs                 | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 7ffc664..9b51280 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -1981,12 +1981,22 @@ fn generate_variant_ctor<'tcx>(
                     prereqs,
                     tokens: quote! {
                     __NEWLINE__ __COMMENT__ "Synthesized tuple constructor"
-                    #explicit #adt_cc_name (
-                        #( #main_api_params ),*
-                    ) : #( #initializer_list ),* { }
+                    #explicit #adt_cc_name ( #( #main_api_params ),* );
                     __NEWLINE__
                     },
                 },
+                // The definition needs complete field types, which (e.g. for the payload of a
+                // `std::optional`) may only be forward-declared inside the class body.
+                cc_details: CcSnippet {
+                    prereqs: main_api_prereqs,
+                    tokens: quote! {
+                        __NEWLINE__
+                        inline #adt_cc_name::#adt_cc_name (
+                            #( #main_api_params ),*
+                        ) : #( #initializer_list ),* { }
+                        __NEWLINE__
+                    },
+                },
                 ..Default::default()
             })
         }
-- 
2.43.0


From b5f46b7d9bb0a8d28a52ac1550481529f1285a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 28/40] fix: construct copies of Options in place

---
 .../generate_bindings/generate_function_thunk.rs             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index a8d14b3..1f5d7e9 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -446,7 +446,10 @@ fn write_rs_value_to_c_abi_ptr<'tcx>(
     let write_directly = || -> Result<TokenStream> {
         Ok(quote! { ::core::ptr::write(#c_ptr as *mut _, #rs_value); })
     };
-    Ok(if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
+    Ok(if is_constructor && is_bridged_layout_compat_type(db, rs_type) {
+        // The pointer is that of the object to construct: it has the layout of the Rust type.
+        write_directly()?
+    } else if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
         match bridged_type {
             BridgedType::Legacy { conversion_info, .. } => match conversion_info {
                 BridgedTypeConversionInfo::PointerLikeTransmute { .. } => write_directly()?,
-- 
2.43.0


From aff6dd0d7ff372b61f1eb6c46dcc31271d9ce17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 29/40] fix: no bindings for functions taking immovable types
 inside tuples

---
 .../generate_bindings/generate_function.rs             | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index dac6bba..5fc379f 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -21,7 +21,7 @@ use code_gen_utils::{expect_format_cc_ident, make_rs_ident, CcInclude};
 use crubit_abi_type::{CrubitAbiTypeToCppExprTokens, CrubitAbiTypeToCppTokens};
 use database::code_snippet::{ApiSnippets, CcPrerequisites, CcSnippet};
 use database::{BindingsGenerator, StaticMethodMode, TypeLocation};
-use error_report::{anyhow, bail};
+use error_report::{anyhow, bail, ensure};
 use itertools::Itertools;
 use proc_macro2::{Ident, Literal, TokenStream};
 use query_compiler::{
@@ -276,6 +276,14 @@ pub(crate) fn cc_param_to_c_abi<'tcx>(
         // allowing us to avoid one extra memcpy: we could move it directly into its
         // target location, instead of moving to a temporary that we memcpy to its
         // target location.
+        if let Some(adt) = ty.ty_adt_def() {
+            // The parameter itself has been checked by `generate_thunk_decl`, but not the elements
+            // of a tuple.
+            ensure!(
+                db.has_move_ctor_and_assignment_operator(Some(adt.did()), ty).is_some(),
+                "Can't pass type `{ty}` by value without a move constructor. See crubit.rs/rust/movable_types for what types are C++ movable."
+            );
+        }
         includes.insert(db.support_header("internal/slot.h"));
         let slot_name = &expect_format_cc_ident(&format!("{cc_ident}_slot"));
         statements.extend(quote! {
-- 
2.43.0


From 6a82064e5def43cd8db2b57918d2ad1a87d0a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:19 +0000
Subject: [PATCH 30/40] fix: no bindings for functions and constants that share
 the name of a namespace

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 59 +++++++++++++++++++-
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 3a4fa85..d61d94d 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -2166,8 +2166,40 @@ fn generate_specializations_fixpoint<'tcx>(
     GeneratedSpecializations { specializations, impls_cc_details }
 }
 
+/// Returns the namespaces (below the top-level one) of the public items of the source crate.
+fn cpp_namespaces_in_crate(db: &BindingsGenerator<'_>) -> HashSet<Vec<Rc<str>>> {
+    let mut namespaces = HashSet::new();
+    for (def_id, paths) in db.public_paths_by_def_id(db.source_crate_num()) {
+        if db.tcx().def_kind(def_id) == DefKind::Mod {
+            // A module without public items does not become a namespace.
+            continue;
+        }
+        let (canonical_path, aliases) = paths.into_canonical_and_aliases();
+        for path in std::iter::once(canonical_path).chain(aliases) {
+            let parts = path.to_namespace_qualifier(db).namespaces;
+            namespaces.extend((1..=parts.len()).map(|n| parts[..n].to_vec()));
+        }
+    }
+    namespaces
+}
+
+/// Rust modules and values (functions, constants) can share a name, but C++ namespaces and other
+/// entities can't.
+fn check_not_a_namespace(
+    namespaces: &HashSet<Vec<Rc<str>>>,
+    mut cpp_path: Vec<Rc<str>>,
+    cpp_name: &str,
+) -> Result<()> {
+    cpp_path.push(Rc::from(cpp_name));
+    if namespaces.contains(&cpp_path) {
+        bail!("A module has the same name, but a C++ namespace can't share its name with another entity");
+    }
+    Ok(())
+}
+
 fn formatted_items_in_crate<'tcx>(
     db: &BindingsGenerator<'tcx>,
+    namespaces: &HashSet<Vec<Rc<str>>>,
 ) -> impl Iterator<Item = FormattedItem<'tcx>> {
     let tcx = db.tcx();
     let defs_in_crate = db.public_paths_by_def_id(db.source_crate_num());
@@ -2184,7 +2216,22 @@ fn formatted_items_in_crate<'tcx>(
                 // crate DefIds might appear in this map if our crate re-exports them, but we don't
                 // want to regenerate those definitions.
                 error_scope!(db, def_id);
-                let api_snippets = db.generate_item(def_id).transpose()?;
+                let api_snippets = if tcx.def_kind(def_id) == DefKind::Mod {
+                    db.generate_item(def_id)
+                } else {
+                    check_not_a_namespace(
+                        namespaces,
+                        canonical_name.cpp_ns_path.namespaces,
+                        canonical_name.unqualified.cpp_name.as_str(),
+                    )
+                    .inspect_err(|err| {
+                        if crubit_attr::get_attrs(tcx, def_id).unwrap().must_bind {
+                            report_must_bind_error(db, def_id, err);
+                        }
+                    })
+                    .and_then(|()| db.generate_item(def_id))
+                }
+                .transpose()?;
                 let (api_snippets, aliases) = api_snippets.map_or_else(
                     |err| (generate_unsupported_def(db, def_id, err).into_main_api(), vec![]),
                     |api_snippets| {
@@ -2295,14 +2342,20 @@ fn generate_crate(db: &BindingsGenerator) -> Result<BindingsTokens> {
     let mut cc_api_impl = TokenStream::default();
     let mut extern_c_decls = BTreeSet::new();
     let mut main_apis = HashMap::<DefId, CcSnippet>::new();
-    for item in formatted_items_in_crate(db) {
+    let namespaces = cpp_namespaces_in_crate(db);
+    for item in formatted_items_in_crate(db, &namespaces) {
         let def_id = item.def_id;
         error_scope!(db, def_id);
         // We delay handling aliases until after sorting by def id to ensure they are emitted in a
         // deterministic order, same as the main api definitions. This is important for caching and
         // testing.
         for alias in item.aliases.iter() {
-            let using_snippets = generate_using(db, &alias.name, def_id)
+            let using_snippets = check_not_a_namespace(
+                &namespaces,
+                alias.to_namespace_qualifier(db).namespaces,
+                alias.name.as_str(),
+            )
+            .and_then(|()| generate_using(db, &alias.name, def_id))
                 .unwrap_or_else(|err| generate_unsupported_def(db, def_id, err));
             cc_details.push(CcDetails::new(
                 // `def_id` gets used for coalescing namespaces in
-- 
2.43.0


From a14fe8154c4948976249f81995dd9c9380a224c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 31/40] fix: report an unsupported variant, field or impl in
 its own error scope

With --error-report-out, an item whose comment says that it is unsupported but which
is not the item that is being generated (a variant of an enum, an impl, a field) made
the generator panic.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index d61d94d..2e0d20f 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1985,7 +1985,8 @@ pub(crate) fn generate_unsupported_def<'tcx>(
     def_id: DefId,
     err: Error,
 ) -> CcSnippet<'tcx> {
-    db.errors().assert_in_item(item_name_for_error_report(db, def_id));
+    // `def_id` may be a variant, a field or an impl of the item that is being generated.
+    error_scope!(db, def_id);
     db.errors().report(&err);
     let msg = format!(
         "Error generating bindings for {}",
-- 
2.43.0


From b041906c01c344bcdec50eb6eac1ce0b2973ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 32/40] fix: align the variants of repr(C) enums whose fields
 are blobs of bytes

The alignment of a variant was taken as that of its layout minus the size of the tag,
which is 0 for payloads of the alignment of the tag; and empty variants of
repr(C, align(N)) enums were taken to disagree about where the payload is.
---
 .../generate_struct_and_union.rs              | 34 ++++++++++++-------
 .../generate_bindings/query_compiler.rs       | 28 +++++++--------
 2 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 9b51280..2d62f7a 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2885,20 +2885,28 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                 })
                 .collect();
 
-            let layout = &self.layout;
+            // The fields may be blobs of bytes in C++, so that the alignment has to be spelled out.
+            // `rustc`'s layout of a variant includes the tag and any `repr(align(N))`.
             let variant_alignments = match layout_variants {
-                Variants::Multiple { variants: layout_vars, .. } => {
-                    #[rustversion::before(2026-05-18)]
-                    let get_align =
-                        |(_, layout): (VariantIdx, &LayoutData<FieldIdx, VariantIdx>)| {
-                            layout.align.abi.bytes() - tag_size_with_padding
-                        };
-                    #[rustversion::since(2026-05-18)]
-                    let get_align = |(i, _): (VariantIdx, &VariantLayout<FieldIdx>)| {
-                        LayoutData::for_variant(layout, i).align.abi.bytes() - tag_size_with_padding
-                    };
-                    layout_vars.iter_enumerated().map(get_align).collect_vec()
-                }
+                Variants::Multiple { .. } => self
+                    .adt_def
+                    .variants()
+                    .iter()
+                    .map(|variant_def| {
+                        variant_def
+                            .fields
+                            .iter()
+                            .filter_map(|field_def| {
+                                let ty = field_def.ty(tcx, self.adt_generic_args);
+                                #[rustversion::since(2026-05-13)]
+                                let ty =
+                                    crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
+                                Some(get_layout(tcx, ty).ok()?.align().abi.bytes())
+                            })
+                            .max()
+                            .unwrap_or(1)
+                    })
+                    .collect_vec(),
                 Variants::Single { .. } | Variants::Empty => {
                     vec![self.alignment_in_bytes]
                 }
diff --git a/cc_bindings_from_rs/generate_bindings/query_compiler.rs b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
index a81b3e0..10a2c10 100644
--- a/cc_bindings_from_rs/generate_bindings/query_compiler.rs
+++ b/cc_bindings_from_rs/generate_bindings/query_compiler.rs
@@ -349,26 +349,19 @@ pub fn get_tag_size_with_padding(layout: Layout<'_>) -> u64 {
     match layout.variants() {
         Variants::Single { .. } | Variants::Empty => 0,
         Variants::Multiple { tag: _, tag_encoding: _, tag_field: _, variants } => {
+            // A variant without fields is just the tag, possibly with the padding that
+            // `repr(align(N))` asks for: it does not tell where the fields of others are.
             #[rustversion::before(2026-05-18)]
-            let mut variant_offsets = variants.iter().map(|variant| match &variant.fields {
+            let mut variant_offsets = variants.iter().filter_map(|variant| match &variant.fields {
                 FieldsShape::Arbitrary { offsets, .. } => {
-                    if offsets.is_empty() {
-                        variant.size.bytes() // No fields => variant is just the
-                                             // tag.
-                    } else {
-                        offsets[FieldIdx::from_usize(0)].bytes()
-                    }
+                    offsets.get(FieldIdx::from_usize(0)).map(|offset| offset.bytes())
                 }
                 _ => panic!("Internal Error - Detected an enum with non-arbitrary field"),
             });
 
             #[rustversion::since(2026-05-18)]
-            let mut variant_offsets = variants.iter().map(|variant| {
-                if variant.field_offsets.is_empty() {
-                    variant.size.bytes()
-                } else {
-                    variant.field_offsets[FieldIdx::from_usize(0)].bytes()
-                }
+            let mut variant_offsets = variants.iter().filter_map(|variant| {
+                variant.field_offsets.get(FieldIdx::from_usize(0)).map(|offset| offset.bytes())
             });
 
             // There are two equivalent ways to express a rust enum:
@@ -381,7 +374,14 @@ pub fn get_tag_size_with_padding(layout: Layout<'_>) -> u64 {
             //
             // See https://doc.rust-lang.org/beta/nightly-rustc/rustc_abi/enum.FieldsShape.html#variant.Arbitrary
             // and https://doc.rust-lang.org/reference/type-layout.html#reprc-enums-with-fields
-            let expected_offset = variant_offsets.next().expect("At least one variant is required");
+            let Some(expected_offset) = variant_offsets.next() else {
+                return variants
+                    .iter()
+                    .next()
+                    .expect("At least one variant is required")
+                    .size
+                    .bytes();
+            };
             for variant_offset in variant_offsets {
                 if variant_offset != expected_offset {
                     panic!("Internal Error - Detected an enum with different tag offsets.")
-- 
2.43.0


From 0b98871c6b14e6105ad23ab62d88a7bf9e61dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 33/40] fix: take the element of an array field for part of the
 class

A field of type [Option<T>; N] used Option<T> before its specialization.
---
 cc_bindings_from_rs/generate_bindings/format_type.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 8eca442..a51202a 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -452,8 +452,13 @@ pub fn format_ty_for_cc<'tcx>(
             // We need to be able to handle expressions at the type level that are not simple
             // numeric literals.
             let target_size = evaluate_const_as_u64(db.tcx(), length)?;
+            // The elements are as much part of a class as a field of their own.
+            let element_location = match location {
+                TypeLocation::Field | TypeLocation::TemplateArg => location,
+                _ => TypeLocation::Other,
+            };
             let cc_element_ty =
-                db.format_ty_for_cc(element_type, TypeLocation::Other)?.into_tokens(&mut prereqs);
+                db.format_ty_for_cc(element_type, element_location)?.into_tokens(&mut prereqs);
             let c_int = Literal::u64_unsuffixed(target_size);
             CcSnippet { prereqs, tokens: quote! { ::std::array<#cc_element_ty, #c_int> } }
         }
-- 
2.43.0


From ff7388680f6f19f1df20c2b189f4e5c2bafd16bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 34/40] fix: a slice reference needs only a declaration of its
 element type

Two structs of which one has a field &'static [Other] and the other contains the first
one had a cycle of definitions, on which the generator panicked.
---
 cc_bindings_from_rs/generate_bindings/format_type.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index a51202a..edd57dc 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -155,11 +155,17 @@ fn format_slice_ref_for_cc<'tcx>(
     db: &BindingsGenerator<'tcx>,
     element_ty: Ty<'tcx>,
     mutability: rustc_middle::mir::Mutability,
+    location: TypeLocation,
 ) -> Result<CcSnippet<'tcx>> {
     let CcSnippet { mut tokens, mut prereqs } =
         db.format_ty_for_cc(element_ty, TypeLocation::Other).with_context(|| {
             format!("Failed to format the element type of the slice type `{element_ty}`")
         })?;
+    if !matches!(location, TypeLocation::FnReturn { .. } | TypeLocation::FnParam { .. }) {
+        // `SliceRef` is just a pointer and a length, so that what contains one does not need the
+        // definition of the element type (and the element type may well contain the former).
+        prereqs.move_defs_to_fwd_decls();
+    }
     prereqs.includes.insert(db.support_header("rs_std/slice_ref.h"));
 
     if let Mutability::Not = mutability {
@@ -674,7 +680,7 @@ pub fn format_ty_for_cc<'tcx>(
         ty::TyKind::RawPtr(pointee_ty, mutbl) => {
             if let ty::TyKind::Slice(slice_ty) = pointee_ty.kind() {
                 check_slice_layout(db.tcx(), ty);
-                return format_slice_ref_for_cc(db, *slice_ty, mutbl);
+                return format_slice_ref_for_cc(db, *slice_ty, mutbl, location);
             }
             // Early return in case we handle a transparent pointer type.
             if let Some(snippet) =
@@ -692,7 +698,7 @@ pub fn format_ty_for_cc<'tcx>(
         ty::TyKind::Ref(region, referent, mutability) => {
             if let ty::TyKind::Slice(element_ty) = *referent.kind() {
                 check_slice_layout(db.tcx(), ty);
-                return format_slice_ref_for_cc(db, element_ty, mutability);
+                return format_slice_ref_for_cc(db, element_ty, mutability, location);
             }
 
             if matches!(referent.kind(), ty::TyKind::Str) {
-- 
2.43.0


From a368651b3c5cac8e3cb04712e53be74f5e2d31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 35/40] fix: name constants and type aliases by their canonical
 path

A constant or type alias that is reached through a renaming re-export only (`pub use
private::K as L`) was put under the new path but the old name.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 2e0d20f..500b5f8 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1131,7 +1131,11 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
     let cc_type_snippet = db.format_ty_for_cc(rust_type, TypeLocation::Const)?;
 
     let cc_type = cc_type_snippet.tokens;
-    let cc_name = format_cc_ident(db, tcx.item_name(def_id).as_str())?;
+    // Like any other item, a constant goes by the name it has in its canonical path.
+    let unqualified_name = db
+        .symbol_unqualified_name(def_id)
+        .ok_or_else(|| anyhow!("Failed to get the name of {}", tcx.def_path_str(def_id)))?;
+    let cc_name = format_cc_ident(db, unqualified_name.cpp_name.as_str())?;
 
     // Note that `&str` constants may appear as either `ConstValue::Slice` or
     // `ConstValue::Indirect`.
@@ -1931,7 +1935,10 @@ fn generate_item_impl<'tcx>(
             db.adt_needs_bindings(def_id).map(|core| Some(generate_adt(db, core)))
         }
         DefKind::Fn => db.generate_function(def_id, None, StaticMethodMode::Infer).map(Some),
-        DefKind::TyAlias => generate_type_alias(db, def_id, tcx.item_name(def_id).as_str())
+        DefKind::TyAlias => db
+            .symbol_unqualified_name(def_id)
+            .ok_or_else(|| anyhow!("Failed to get the name of {}", tcx.def_path_str(def_id)))
+            .and_then(|name| generate_type_alias(db, def_id, name.cpp_name.as_str()))
             .map(|snippets| Some(snippets.into_main_api())),
         DefKind::Const { .. } => generate_const(db, def_id).map(Some),
         DefKind::Trait => generate_trait(db, def_id).map(Some),
-- 
2.43.0


From 7bb74a85ad66780c59b6f49167386ccffcedc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 36/40] fix: lifetime inference treats namespace-scope
 variables as static

---
 lifetime_analysis/object_repository.cc | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/lifetime_analysis/object_repository.cc b/lifetime_analysis/object_repository.cc
index 0c8b642..f4b38ca 100644
--- a/lifetime_analysis/object_repository.cc
+++ b/lifetime_analysis/object_repository.cc
@@ -232,21 +232,16 @@ class ObjectRepository::VarDeclVisitor
     Lifetime lifetime;
     LifetimeFactory lifetime_factory;
 
-    switch (var->getStorageClass()) {
-      case clang::SC_Extern:
-      case clang::SC_Static:
-      case clang::SC_PrivateExtern:
-        lifetime = Lifetime::Static();
-        lifetime_factory = [](const clang::Expr*) {
-          return Lifetime::Static();
-        };
-        break;
-      default:
-        lifetime = Lifetime::CreateLocal();
-        lifetime_factory = [](const clang::Expr*) {
-          return Lifetime::CreateVariable();
-        };
-        break;
+    // Variables at namespace scope have static storage even if they have no
+    // storage class specifier.
+    if (var->hasGlobalStorage()) {
+      lifetime = Lifetime::Static();
+      lifetime_factory = [](const clang::Expr*) { return Lifetime::Static(); };
+    } else {
+      lifetime = Lifetime::CreateLocal();
+      lifetime_factory = [](const clang::Expr*) {
+        return Lifetime::CreateVariable();
+      };
     }
 
     const Object* object = object_repository_.CreateObject(
-- 
2.43.0


From 53f2b48a87887c60e53c6fd41d141baa6b603166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 37/40] fix: lifetime lattices with different single-valued
 objects are not equal

---
 lifetime_analysis/lifetime_lattice.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lifetime_analysis/lifetime_lattice.cc b/lifetime_analysis/lifetime_lattice.cc
index 6dc3343..24abfad 100644
--- a/lifetime_analysis/lifetime_lattice.cc
+++ b/lifetime_analysis/lifetime_lattice.cc
@@ -85,7 +85,9 @@ bool LifetimeLattice::operator==(const LifetimeLattice& other) const {
     // Any error compares equal to any other error.
     return IsError() && other.IsError();
   }
-  return PointsTo() == other.PointsTo() && Constraints() == other.Constraints();
+  return PointsTo() == other.PointsTo() &&
+         Constraints() == other.Constraints() &&
+         SingleValuedObjects() == other.SingleValuedObjects();
 }
 
 }  // namespace lifetimes
-- 
2.43.0


From 782f127203fb0cdc10fe2ce4f7d9c4c2d5cbaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:37 +0000
Subject: [PATCH 38/40] fix: assignments to static variables keep the
 constraints of earlier values

---
 lifetime_analysis/object_repository.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lifetime_analysis/object_repository.cc b/lifetime_analysis/object_repository.cc
index f4b38ca..58b3ceb 100644
--- a/lifetime_analysis/object_repository.cc
+++ b/lifetime_analysis/object_repository.cc
@@ -248,7 +248,9 @@ class ObjectRepository::VarDeclVisitor
         var->getType(), lifetime, lifetime_factory);
 
     object_repository_.object_repository_[var] = object;
-    if (!var->getType()->isArrayType()) {
+    // Other functions can see what is written to a static variable (and hence
+    // what was in it before it is overwritten), so it is not single-valued.
+    if (!var->getType()->isArrayType() && !var->hasGlobalStorage()) {
       object_repository_.initial_single_valued_objects_.Add(object);
     }
 
-- 
2.43.0


From 1eef165dd45dadf321df913da130b3cb73b06d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:52 +0000
Subject: [PATCH 39/40] fix: floating-point constants are always valid C++
 literals with the same value

---
 .../generate_struct_and_union.rs              | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 2d62f7a..f168009 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 
 extern crate rustc_abi;
+extern crate rustc_apfloat;
 extern crate rustc_hir;
 extern crate rustc_middle;
 extern crate rustc_span;
@@ -45,6 +46,7 @@ use quote::{format_ident, quote};
 #[rustversion::since(2026-05-18)]
 use rustc_abi::VariantLayout;
 use rustc_abi::{Endian, FieldIdx, FieldsShape, LayoutData, VariantIdx, Variants};
+use rustc_apfloat::Float;
 
 use rustc_middle::mir::interpret::Scalar;
 use rustc_middle::mir::ConstValue;
@@ -108,6 +110,19 @@ pub(crate) fn cpp_enum_cpp_underlying_type<'tcx>(
     db.format_ty_for_cc(field_type, TypeLocation::Field)
 }
 
+/// Returns a C++ floating-point literal (without a suffix) with the given value.
+fn cpp_float_literal(value: impl Float) -> Result<String> {
+    if !value.is_finite() {
+        bail!("Floating-point constants that are infinite or not a number are not supported");
+    }
+    let mut literal = value.to_string();
+    if !literal.contains(['.', 'E']) {
+        // Without a fraction or exponent, this would be an integer literal.
+        literal.push_str(".0");
+    }
+    Ok(literal)
+}
+
 /// Returns a string representation of the value of a given numeric Scalar having a given TyKind.
 pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Result<String> {
     let scalar = match scalar {
@@ -138,8 +153,8 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         TyKind::Uint(U16) => format!("UINT16_C({})", scalar.to_u16()),
         TyKind::Uint(U32) => format!("UINT32_C({})", scalar.to_u32()),
         TyKind::Uint(U64) => format!("UINT64_C({})", scalar.to_u64()),
-        TyKind::Float(F32) => format!("{}f", scalar.to_f32()),
-        TyKind::Float(F64) => format!("{}L", scalar.to_f64()),
+        TyKind::Float(F32) => format!("{}f", cpp_float_literal(scalar.to_f32())?),
+        TyKind::Float(F64) => format!("{}L", cpp_float_literal(scalar.to_f64())?),
         TyKind::Uint(Usize) => format!("UINT64_C({})", scalar.to_target_usize(tcx)),
 
         // Signed integer minimums cannot be expressed with literals, as `-<int>` parses as a unary
-- 
2.43.0


From 04e348dc12438ad19c5889eb39722fc9b3f0c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:52 +0000
Subject: [PATCH 40/40] fix: string constants may contain NUL characters

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 500b5f8..7ec25fa 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -54,7 +54,7 @@ pub use database::{
 };
 use error_report::{anyhow, bail, ErrorReporting, ReportFatalError};
 use itertools::Itertools;
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Literal, TokenStream};
 use query_compiler::{
     does_type_implement_trait, get_layout, get_scalar_int_type, get_tag_size_with_padding,
     is_c_abi_compatible_by_value, is_copy, liberate_and_deanonymize_late_bound_regions,
@@ -1153,7 +1153,19 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
                     }
                     if let Some(slice) = const_value.try_get_slice_bytes_for_diagnostics(tcx) {
                         let str_data = std::str::from_utf8(slice).unwrap();
-                        Some(quote! { rs_std::StrRef(#str_data) }.to_string())
+                        if str_data.contains('\0') {
+                            // A C-string would end at the first NUL, so the length is given
+                            // explicitly. There is a separate literal after each NUL because a
+                            // C++ escape sequence would also take the digits which follow it.
+                            let parts = str_data.split_inclusive('\0');
+                            let len = Literal::usize_unsuffixed(str_data.len());
+                            Some(
+                                quote! { rs_std::StrRef(std::string_view(#(#parts)*, #len)) }
+                                    .to_string(),
+                            )
+                        } else {
+                            Some(quote! { rs_std::StrRef(#str_data) }.to_string())
+                        }
                     } else { None }
                 }
                 _ => None
-- 
2.43.0

