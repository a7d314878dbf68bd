From f7ac3c7b220b5d257cc240ad4e4eac8b64398737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 01/26] fix: conditional assembly shift by zero positions
 returns the shifted operand

(5 SLA 0) evaluated to 0 (the shift amount) instead of 5.
---
 .../src/expressions/conditional_assembly/ca_operator_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 55b8056..1a57cb3 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -103,7 +103,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
 {
     auto shift_part = rhs & 0x3f; // first 6 bits
     if (shift_part == 0)
-        return rhs;
+        return lhs;
 
     std::uint32_t unsigned_lhs = lhs;
     auto sign_bit = unsigned_lhs & (1U << 31);
-- 
2.43.0


From bca3f5ef1880e362c6493c742f9fbf9ebfd52704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 02/26] fix: conditional assembly arithmetic shifts preserve
 the sign of the operand

(1 SRA 32) evaluated to -1, and (1 SLA 31) turned a positive operand negative.
---
 .../expressions/conditional_assembly/ca_operator_binary.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 1a57cb3..e5ae1b9 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -118,7 +118,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
                 result = sign_bit;
                 break;
             case ca_expr_ops::SRA:
-                result = ~0U;
+                result = sign_bit ? ~0U : 0U;
                 break;
             default:
                 result = 0;
@@ -130,7 +130,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
     switch (shift)
     {
         case ca_expr_ops::SLA:
-            result = (unsigned_lhs << shift_part) | sign_bit;
+            result = ((unsigned_lhs << shift_part) & ~(1U << 31)) | sign_bit;
             break;
         case ca_expr_ops::SLL:
             result = unsigned_lhs << shift_part;
-- 
2.43.0


From 39782b23d3a9c156401251af2322ca13332cbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 03/26] fix: arithmetic relational operators compare operands
 without overflow

(2147483647 GT -2) was evaluated as false because the difference wrapped around.
---
 .../expressions/conditional_assembly/ca_operator_binary.cpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index e5ae1b9..15266a0 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -233,7 +233,9 @@ int ca_function_binary_operator::compare_relational(
     switch (type)
     {
         case context::SET_t_enum::A_TYPE:
-            return lhs.access_a() - rhs.access_a();
+            if (lhs.access_a() == rhs.access_a())
+                return 0;
+            return lhs.access_a() < rhs.access_a() ? -1 : 1;
         case context::SET_t_enum::C_TYPE:
             return compare_string(lhs.access_c(), rhs.access_c());
         default:
-- 
2.43.0


From 9a25f1268fc352edc1d5bca4f27db93cd9ed4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 04/26] fix: unary minus of the smallest arithmetic value is
 diagnosed instead of overflowing

---
 .../expressions/conditional_assembly/ca_operator_unary.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
index 92c7a09..e0e01d5 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 
+#include "ca_operator_binary.h"
 #include "ebcdic_encoding.h"
 #include "expressions/evaluation_context.h"
 #include "terms/ca_function.h"
@@ -112,9 +113,9 @@ ca_minus_operator::ca_minus_operator(ca_expr_ptr expr, range expr_range)
     : ca_unary_operator(std::move(expr), context::SET_t_enum::A_TYPE, std::move(expr_range))
 {}
 
-context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context&) const
+context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context& eval_ctx) const
 {
-    return -operand.access_a();
+    return ca_sub::operation(context::object_traits<context::A_t>::default_v(), operand, expr_range, eval_ctx);
 }
 
 ca_par_operator::ca_par_operator(ca_expr_ptr expr, range expr_range)
-- 
2.43.0


From ddbd0d91b10645d89c8a21b1c0bcab9dbea054c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:30 +0000
Subject: [PATCH 05/26] fix: decoding of a truncated UTF-8 character never
 moves past the end of the string

---
 parser_library/src/ebcdic_encoding.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/ebcdic_encoding.cpp b/parser_library/src/ebcdic_encoding.cpp
index 0eec00a..286e972 100644
--- a/parser_library/src/ebcdic_encoding.cpp
+++ b/parser_library/src/ebcdic_encoding.cpp
@@ -43,14 +43,14 @@ unsigned char hlasm_plugin::parser_library::ebcdic_encoding::to_pseudoascii(cons
         else if ((*c & 0xF0) == 0xE0) // 1110xxxx 10xxxxxx 10xxxxxx
         {
             ++c;
-            c += !!*c;
+            c += !!*(c + 1);
             return SUB;
         }
         else if ((*c & 0xF8) == 0xF0) // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
         {
             ++c;
-            c += !!*c;
-            c += !!*c;
+            c += !!*(c + 1);
+            c += !!*(c + 1);
             return SUB;
         }
         else
-- 
2.43.0


From ec25fb7ad97920be22b6dcf089fb99bcc64f438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:30 +0000
Subject: [PATCH 06/26] fix: conversion to EBCDIC does not stop at an embedded
 NUL character

---
 parser_library/src/ebcdic_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/ebcdic_encoding.cpp b/parser_library/src/ebcdic_encoding.cpp
index 286e972..6ca4555 100644
--- a/parser_library/src/ebcdic_encoding.cpp
+++ b/parser_library/src/ebcdic_encoding.cpp
@@ -85,7 +85,7 @@ std::string hlasm_plugin::parser_library::ebcdic_encoding::to_ebcdic(const std::
 {
     std::string a;
     a.reserve(s.length());
-    for (const char* i = s.c_str(); *i != 0; ++i)
+    for (const char *i = s.c_str(), *end = i + s.size(); i != end; ++i)
         a.push_back(to_ebcdic(to_pseudoascii(i)));
     return a;
 }
-- 
2.43.0


From aea91216812aa57c085a64a5b211dfddc42232ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:30 +0000
Subject: [PATCH 07/26] fix: X2C diagnoses an invalid character in the second
 digit of a pair

---
 .../src/expressions/conditional_assembly/terms/ca_function.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
index 5502b8b..f59b800 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
@@ -667,7 +667,7 @@ context::SET_t ca_function::X2C(const context::C_t& param, diagnostic_adder& add
     for (auto c = new_string.c_str(); c != new_string.c_str() + new_string.size(); c += 2)
     {
         unsigned char value = 0;
-        if (std::isxdigit(*c))
+        if (std::isxdigit(*c) && std::isxdigit(*(c + 1)))
             std::from_chars(c, c + 2, value, 16);
         else
             RET_ERRPARM;
-- 
2.43.0


From dc4633b497be1c0fe9b8b3651f28db65e6493990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:53 +0000
Subject: [PATCH 08/26] fix: substring with the smallest start value and no
 length does not overflow

---
 .../src/expressions/conditional_assembly/terms/ca_string.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
index 705d98b..e9526c5 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
@@ -79,7 +79,7 @@ context::SET_t ca_string::evaluate(const evaluation_context& eval_ctx) const
     {
         auto start = substring.start->evaluate(eval_ctx).access_a();
         auto count =
-            substring.count ? substring.count->evaluate(eval_ctx).access_a() : (context::A_t)str.size() - start + 1;
+            substring.count ? substring.count->evaluate(eval_ctx).access_a() : (std::int64_t)str.size() - start + 1;
 
         if (start < 0 || count < 0 || (start == 0 && count > 0))
         {
-- 
2.43.0


From 427f88b2f07172b6d3d2ec9e8c5f65a5e3dd709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:53 +0000
Subject: [PATCH 09/26] fix: substitution of the smallest arithmetic value
 yields its magnitude

---
 parser_library/src/semantics/concatenation_term.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/semantics/concatenation_term.cpp b/parser_library/src/semantics/concatenation_term.cpp
index 719d454..d30c5a3 100644
--- a/parser_library/src/semantics/concatenation_term.cpp
+++ b/parser_library/src/semantics/concatenation_term.cpp
@@ -43,7 +43,7 @@ std::string var_sym_conc::evaluate(context::SET_t varsym_value)
     switch (varsym_value.type)
     {
         case context::SET_t_enum::A_TYPE:
-            return std::to_string(std::abs(varsym_value.access_a()));
+            return std::to_string(std::abs((std::int64_t)varsym_value.access_a()));
         case context::SET_t_enum::B_TYPE:
             return varsym_value.access_b() ? "1" : "0";
         case context::SET_t_enum::C_TYPE:
-- 
2.43.0


From 0acfe309a3e50187ea8d1386145f1699e550e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:18 +0000
Subject: [PATCH 10/26] fix: line index stays correct when an edit joins or
 splits line separators or ends past the last line

---
 parser_library/src/workspaces/file_impl.cpp | 47 ++-------------------
 1 file changed, 4 insertions(+), 43 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index efd228d..d260406 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -127,54 +127,15 @@ bool file_impl::get_lsp_editing() { return editing_; }
 // applies a change to the text and updates line begginings
 void file_impl::did_change(range range, std::string new_text)
 {
-    size_t range_end_line = (size_t)range.end.line;
-    size_t range_start_line = (size_t)range.start.line;
-
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
 
     text_.replace(begin, end - begin, new_text);
 
-    std::vector<size_t> new_lines;
-
-    find_newlines(new_text, new_lines);
-
-
-    size_t old_lines_count = range_end_line - range_start_line;
-    size_t new_lines_count = new_lines.size();
-
-    size_t char_diff = new_text.size() - (end - begin);
-
-    // add or remove lines depending on the difference
-    if (new_lines_count > old_lines_count)
-    {
-        size_t diff = new_lines_count - old_lines_count;
-        lines_ind_.insert(lines_ind_.end(), diff, 0);
-
-        for (size_t i = lines_ind_.size() - 1; i > range_end_line + diff; --i)
-        {
-            lines_ind_[i] = lines_ind_[i - diff] + char_diff;
-        }
-    }
-    else
-    {
-        size_t diff = old_lines_count - new_lines_count;
-
-        for (size_t i = range_start_line + 1 + new_lines_count; i < lines_ind_.size() - diff; ++i)
-        {
-            lines_ind_[i] = lines_ind_[i + diff] + char_diff;
-        }
-
-        for (size_t i = 0; i < diff; ++i)
-            lines_ind_.pop_back();
-    }
-
-
-    for (size_t i = range_start_line + 1; i <= range_start_line + new_lines_count; ++i)
-    {
-        lines_ind_[i] = new_lines[i - (size_t)range_start_line - 1] + begin;
-    }
-
+    // the change may join or split line separators on its borders, so the line beginnings are computed anew
+    lines_ind_.clear();
+    lines_ind_.push_back(0);
+    find_newlines(text_, lines_ind_);
 
     ++version_;
 }
-- 
2.43.0


From 01f3ffaaeccb94aa91cfe4e3b2886f0689a6bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:18 +0000
Subject: [PATCH 11/26] fix: position past the end of a line denotes the end of
 that line

---
 parser_library/src/workspaces/file_impl.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index d260406..a2c6f9a 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -199,7 +199,18 @@ size_t file_impl::index_from_position(const std::string& text, const std::vector
     size_t i = line_indices[loc.line];
     size_t utf16_counter = 0;
 
-    while (utf16_counter < end && i < text.size())
+    // column past the end of the line denotes the end of the line
+    size_t line_end = text.size();
+    if (loc.line + 1 < line_indices.size())
+    {
+        line_end = line_indices[loc.line + 1];
+        if (line_end > i && text[line_end - 1] == '\n')
+            --line_end;
+        if (line_end > i && text[line_end - 1] == '\r')
+            --line_end;
+    }
+
+    while (utf16_counter < end && i < line_end)
     {
         if (!utf8_one_byte_begin(text[i]))
         {
-- 
2.43.0


From 7a94e3026f63a926257e06ea6918a0cfe3b4c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:18 +0000
Subject: [PATCH 12/26] fix: overlong and surrogate sequences in loaded files
 are replaced like other invalid UTF-8

---
 parser_library/src/workspaces/file_impl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index a2c6f9a..03809ea 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -266,6 +266,16 @@ std::string file_impl::replace_non_utf8_chars(const std::string& text)
         else
             OK = false;
 
+        // overlong encodings, surrogates and code points over U+10FFFF are not valid UTF-8
+        if (OK && ch_len > 1 && i + 1 < text.size())
+        {
+            const unsigned char first = text[i];
+            const unsigned char second = text[i + 1];
+            if (first < 0xC2 || first > 0xF4 || (first == 0xE0 && second < 0xA0) || (first == 0xED && second >= 0xA0)
+                || (first == 0xF0 && second < 0x90) || (first == 0xF4 && second >= 0x90))
+                OK = false;
+        }
+
         // check whether all subsequent bytes of one character begin with 10
         if (OK)
         {
-- 
2.43.0


From d1425296c1736ae388ab3320bae5b09a75700d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:52 +0000
Subject: [PATCH 13/26] fix: completion on an empty last line does not access
 the text past its end

---
 parser_library/src/lsp/text_data_ref_t.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lsp/text_data_ref_t.cpp b/parser_library/src/lsp/text_data_ref_t.cpp
index 4625d03..cab8334 100644
--- a/parser_library/src/lsp/text_data_ref_t.cpp
+++ b/parser_library/src/lsp/text_data_ref_t.cpp
@@ -29,7 +29,7 @@ std::string_view text_data_ref_t::get_line(size_t line) const
         return "";
     size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text->size();
     size_t line_len = line_end_i - line_indices[line];
-    return { &text->at(line_indices[line]), line_len };
+    return { text->data() + line_indices[line], line_len };
 }
 
 std::string_view text_data_ref_t::get_line_beginning(position pos) const
@@ -38,7 +38,7 @@ std::string_view text_data_ref_t::get_line_beginning(position pos) const
         return "";
     size_t line_end_i = workspaces::file_impl::index_from_position(*text, line_indices, pos);
     size_t line_len = line_end_i - line_indices[pos.line];
-    return { &text->at(line_indices[pos.line]), line_len };
+    return { text->data() + line_indices[pos.line], line_len };
 }
 
 
@@ -48,7 +48,7 @@ char text_data_ref_t::get_character_before(position pos) const
     if (pos.column == 0)
         return '\0';
     size_t index = workspaces::file_impl::index_from_position(*text, line_indices, { pos.line, pos.column - 1 });
-    return text->at(index);
+    return index < text->size() ? (*text)[index] : '\0';
 }
 
 std::string_view text_data_ref_t::get_range_content(range r) const
-- 
2.43.0


From 40719aa81fe4eb51eb79f57cc27fdf9155717741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:32 +0000
Subject: [PATCH 14/26] fix: difference of addresses subtracts the counts of
 shared bases in the right order

---
 parser_library/src/context/ordinary_assembly/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index 12f60c5..ca6fa37 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -241,7 +241,7 @@ std::vector<T> merge_entries(const std::vector<T>& lhs, const std::vector<T>& rh
             if (operation == op::ADD)
                 count = (*it)->second + entry.second;
             else
-                count = (*it)->second - entry.second;
+                count = entry.second - (*it)->second;
 
             if (count != 0)
                 res.emplace_back(entry.first, count);
-- 
2.43.0


From f2572f5e159bbd0d52efc59add2760476fc1e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:32 +0000
Subject: [PATCH 15/26] fix: resolved spaces contribute to an address as many
 times as they occur in it

---
 .../src/context/ordinary_assembly/address.cpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index ca6fa37..71ae4b5 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -128,7 +128,7 @@ int get_space_offset(space_ptr sp)
     {
         offset += sp->resolved_length;
         for (const auto& s : sp->resolved_ptrs)
-            offset += get_space_offset(s.first);
+            offset += s.second * get_space_offset(s.first);
     }
     return offset;
 }
@@ -137,7 +137,7 @@ int address::offset() const
 {
     int offs = offset_;
     for (const auto& s : spaces_)
-        offs += get_space_offset(s.first);
+        offs += s.second * get_space_offset(s.first);
     return offs;
 }
 
@@ -158,18 +158,20 @@ void insert(const address::space_entry& sp,
 
 int get_unresolved_spaces(const std::vector<address::space_entry>& spaces,
     std::unordered_map<space_ptr, size_t>& normalized_map,
-    std::vector<address::space_entry>& normalized_spaces)
+    std::vector<address::space_entry>& normalized_spaces,
+    int multiplier = 1)
 {
     int offset = 0;
     for (const auto& sp : spaces)
     {
         if (sp.first->resolved())
         {
-            offset += sp.first->resolved_length;
-            offset += get_unresolved_spaces(sp.first->resolved_ptrs, normalized_map, normalized_spaces);
+            offset += multiplier * sp.second * sp.first->resolved_length;
+            offset += get_unresolved_spaces(
+                sp.first->resolved_ptrs, normalized_map, normalized_spaces, multiplier * sp.second);
         }
         else
-            insert(sp, normalized_map, normalized_spaces);
+            insert({ sp.first, multiplier * sp.second }, normalized_map, normalized_spaces);
     }
 
     return offset;
-- 
2.43.0


From 8974b2b704144a709b462548d8e3cdbbe8e2c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:32 +0000
Subject: [PATCH 16/26] fix: relocatable term subtracted from an absolute one
 keeps its sign

---
 parser_library/src/context/ordinary_assembly/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/symbol.cpp b/parser_library/src/context/ordinary_assembly/symbol.cpp
index 79bc33f..aaf236c 100644
--- a/parser_library/src/context/ordinary_assembly/symbol.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol.cpp
@@ -72,7 +72,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
         if (value.value_kind() == symbol_value_kind::ABS)
             return get_abs() - value.get_abs();
         else
-            return value.get_reloc() - get_abs();
+            return -value.get_reloc() + get_abs();
     }
     else if (value_kind() == symbol_value_kind::RELOC)
     {
-- 
2.43.0


From a6e16ba69e87110bf4d4df5bcf1d3cb858bfdf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:32 +0000
Subject: [PATCH 17/26] fix: machine expression arithmetic on the limits of the
 32-bit range crashed or was undefined

---
 .../src/context/ordinary_assembly/symbol.cpp      | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/symbol.cpp b/parser_library/src/context/ordinary_assembly/symbol.cpp
index aaf236c..c22bcc2 100644
--- a/parser_library/src/context/ordinary_assembly/symbol.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol.cpp
@@ -20,6 +20,11 @@
 using namespace hlasm_plugin::parser_library;
 using namespace hlasm_plugin::parser_library::context;
 
+namespace {
+// values of symbols are 32-bit two's complement numbers
+symbol_value::abs_value_t wrap(int64_t value) { return static_cast<symbol_value::abs_value_t>(value); }
+} // namespace
+
 symbol_value::symbol_value(abs_value_t value)
     : value_(value)
 {}
@@ -38,7 +43,7 @@ symbol_value symbol_value::operator+(const symbol_value& value) const
     if (value_kind() == symbol_value_kind::ABS)
     {
         if (value.value_kind() == symbol_value_kind::ABS)
-            return get_abs() + value.get_abs();
+            return wrap(int64_t { get_abs() } + value.get_abs());
         else
             return value.get_reloc() + get_abs();
     }
@@ -70,7 +75,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
     if (value_kind() == symbol_value_kind::ABS)
     {
         if (value.value_kind() == symbol_value_kind::ABS)
-            return get_abs() - value.get_abs();
+            return wrap(int64_t { get_abs() } - value.get_abs());
         else
             return -value.get_reloc() + get_abs();
     }
@@ -97,7 +102,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
 symbol_value symbol_value::operator*(const symbol_value& value) const
 {
     if (value_kind() == symbol_value_kind::ABS && value.value_kind() == symbol_value_kind::ABS)
-        return get_abs() * value.get_abs();
+        return wrap(int64_t { get_abs() } * value.get_abs());
 
     return symbol_value();
 }
@@ -105,7 +110,7 @@ symbol_value symbol_value::operator*(const symbol_value& value) const
 symbol_value symbol_value::operator/(const symbol_value& value) const
 {
     if (value_kind() == symbol_value_kind::ABS && value.value_kind() == symbol_value_kind::ABS)
-        return value.get_abs() == 0 ? 0 : get_abs() / value.get_abs();
+        return value.get_abs() == 0 ? 0 : wrap(int64_t { get_abs() } / value.get_abs());
 
     return symbol_value();
 }
@@ -115,7 +120,7 @@ symbol_value symbol_value::operator-() const
     switch (value_kind())
     {
         case symbol_value_kind::ABS:
-            return -get_abs();
+            return wrap(-int64_t { get_abs() });
         case symbol_value_kind::RELOC:
             return -get_reloc();
         case symbol_value_kind::UNDEF:
-- 
2.43.0


From 20491b5839c8591b7fcde7a727c568b8e5478776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:08 +0000
Subject: [PATCH 18/26] fix: alignment behind an unknown space that ends off
 its boundary

---
 .../context/ordinary_assembly/location_counter_data.cpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
index d1f4553..851bb3b 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
@@ -114,7 +114,12 @@ bool location_counter_data::align(alignment align)
     if (need_space_alignment(align))
         return false;
 
-    auto tmp = (int)(((align.boundary - (last_storage() % align.boundary)) + align.byte) % align.boundary);
+    // the last unknown space (if any) ends at its alignment
+    size_t location = last_storage();
+    if (!unknown_parts.empty())
+        location += unknown_parts.back().unknown_space->align.byte;
+
+    auto tmp = (int)(((align.boundary - (location % align.boundary)) + align.byte) % align.boundary);
 
     append_storage(tmp);
 
-- 
2.43.0


From dba6f7270fd036da68ab1631c5411b49063c0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 19/26] fix: storage behind a data definition of unknown length
 with several operands was not aligned

---
 .../src/processing/instruction_sets/asm_processor.cpp          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 60714b0..383489d 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -252,6 +252,9 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack()));
         if (has_length_dependencies)
         {
+            // the end of the area is aligned like its beginning only if no other operand follows the first one
+            if (adder.source_stmt->impl()->operands_ref().value.size() > 1)
+                al = context::no_align;
             auto sp = hlasm_ctx.ord_ctx.register_ordinary_space(al);
             adder.add_dependency(
                 sp, dynamic_cast<const data_def_postponed_statement<instr_type>*>(&*adder.source_stmt));
-- 
2.43.0


From d2f3d3ca6055dd5959f401a652412f53ff7f5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:50 +0000
Subject: [PATCH 20/26] fix: sublist passed in a variable symbol keeps its
 omitted last entry

---
 .../src/processing/instruction_sets/macro_processor.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 9825778..2d0cc51 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -123,6 +123,10 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
         }
         else if (data[begin] == ')')
         {
+            // omitted last entry
+            if (data[begin - 1] == ',')
+                macro_data.top().push_back(std::make_unique<context::macro_param_data_dummy>());
+
             ++begin;
             nests.pop();
 
-- 
2.43.0


From 5d2cd6046630c525d6b0be72299f2af79f10ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:11 +0000
Subject: [PATCH 21/26] fix: omitted entry behind a parenthesised prefix in a
 sublist value is kept

---
 .../src/processing/instruction_sets/macro_processor.cpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 2d0cc51..f7ff752 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -145,9 +145,14 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
                 macro_data.top().emplace_back(std::make_unique<context::macro_param_data_single>(std::move(single)));
             }
             else
+            {
                 macro_data.top().emplace_back(std::make_unique<context::macro_param_data_composite>(std::move(vec)));
 
-            nests.top() = begin + (begin != data.size() && data[begin] == ',' ? 1 : 0);
+                if (begin != data.size() && data[begin] == ',')
+                    ++begin;
+            }
+
+            nests.top() = begin;
 
             if (nests.size() == 1)
             {
-- 
2.43.0


From 000d90dabab5fa31feb355ca14992ce75c0c7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:19 +0000
Subject: [PATCH 22/26] fix: index or length written alone in an address
 operand is range checked

---
 parser_library/src/checking/instr_operand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/checking/instr_operand.cpp b/parser_library/src/checking/instr_operand.cpp
index 0012e4e..dff7a2a 100644
--- a/parser_library/src/checking/instr_operand.cpp
+++ b/parser_library/src/checking/instr_operand.cpp
@@ -172,14 +172,14 @@ bool address_operand::check(diagnostic_op& diag,
 
                 // length parameters can have +1 values specified
                 if (to_check.first.type == machine_operand_type::LENGTH
-                    && !is_length_corresponding(first_op, to_check.first.size))
+                    && !is_length_corresponding(actual_val, to_check.first.size))
                 {
                     diag = get_first_parameter_error(
                         to_check.first.type, instr_name, 0, 1ll << to_check.first.size, stmt_range);
                     return false;
                 }
                 if (to_check.first.type != machine_operand_type::LENGTH
-                    && !is_operand_corresponding(first_op, to_check.first))
+                    && !is_operand_corresponding(actual_val, to_check.first))
                 {
                     assert(!to_check.first.is_signed);
                     diag = get_first_parameter_error(
-- 
2.43.0


From 56df934a04ebea426d6da9f6d2df7b7a8440ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:33 +0000
Subject: [PATCH 23/26] fix: length attribute of a data definition ignores
 spaces in X and B constants and does not throw for P and Z with expressions

---
 .../data_definition/data_def_types_fixed_point.cpp         | 4 ++++
 .../src/checking/data_definition/data_def_types_string.cpp | 7 ++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
index de7bb54..ea4c94b 100644
--- a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
@@ -222,6 +222,8 @@ uint32_t hlasm_plugin::parser_library::checking::data_def_type_P::get_nominal_le
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     const std::string& s = std::get<std::string>(op.value);
 
@@ -264,6 +266,8 @@ uint32_t data_def_type_Z::get_nominal_length_attribute(const nominal_value_t& op
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     uint32_t first_value_len = 0;
     for (char c : std::get<std::string>(op.value))
diff --git a/parser_library/src/checking/data_definition/data_def_types_string.cpp b/parser_library/src/checking/data_definition/data_def_types_string.cpp
index 315b45c..8d6bdf8 100644
--- a/parser_library/src/checking/data_definition/data_def_types_string.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_string.cpp
@@ -43,11 +43,8 @@ uint64_t get_X_B_length(const std::string& s, uint64_t frac)
 
 uint32_t get_X_B_length_attr(const std::string& s, uint64_t frac)
 {
-    size_t first_value_len = s.find(',');
-    if (first_value_len == std::string::npos)
-        first_value_len = s.size();
-    first_value_len = (first_value_len + frac - 1) / frac;
-    return (uint32_t)first_value_len;
+    // only the first value counts, spaces in it are ignored
+    return (uint32_t)get_X_B_length(s.substr(0, s.find(',')), frac);
 }
 
 // Checks comma separated values. is_valid_digit specifies whether the char is valid character of value.
-- 
2.43.0


From f10a066ab25176163f06b1fa4e4a87e2d8d3198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:54 +0000
Subject: [PATCH 24/26] fix: length of C and CU constants counts characters

---
 .../data_definition/data_def_types_string.cpp | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_string.cpp b/parser_library/src/checking/data_definition/data_def_types_string.cpp
index 8d6bdf8..fd6226d 100644
--- a/parser_library/src/checking/data_definition/data_def_types_string.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_string.cpp
@@ -47,6 +47,22 @@ uint32_t get_X_B_length_attr(const std::string& s, uint64_t frac)
     return (uint32_t)get_X_B_length(s.substr(0, s.find(',')), frac);
 }
 
+// Number of characters in UTF-8 text.
+uint64_t get_character_count(const std::string& s)
+{
+    return std::count_if(s.begin(), s.end(), [](unsigned char c) { return (c & 0xC0) != 0x80; });
+}
+
+// Number of UTF-16 code units of UTF-8 text.
+uint64_t get_utf16_count(const std::string& s)
+{
+    uint64_t count = 0;
+    for (unsigned char c : s)
+        if ((c & 0xC0) != 0x80)
+            count += c >= 0xF0 ? 2 : 1;
+    return count;
+}
+
 // Checks comma separated values. is_valid_digit specifies whether the char is valid character of value.
 bool check_comma_separated(const std::string nom, std::function<bool(char c)> is_valid_digit)
 {
@@ -140,7 +156,7 @@ uint64_t data_def_type_CA_CE::get_nominal_length(const nominal_value_t& op) cons
     if (!op.present)
         return 1;
     else
-        return std::get<std::string>(op.value).size();
+        return get_character_count(std::get<std::string>(op.value));
 }
 
 uint32_t data_def_type_CA_CE::get_nominal_length_attribute(const nominal_value_t& nom) const
@@ -152,7 +168,7 @@ uint32_t data_def_type_CA_CE::get_nominal_length_attribute(const nominal_value_t
         if (!std::holds_alternative<std::string>(nom.value))
             return 0;
         else
-            return (uint32_t)std::get<std::string>(nom.value).size();
+            return (uint32_t)get_character_count(std::get<std::string>(nom.value));
     }
 }
 
@@ -178,7 +194,7 @@ uint64_t data_def_type_CU::get_nominal_length(const nominal_value_t& op) const
     if (!op.present)
         return 2;
     else
-        return 2 * (uint64_t)std::get<std::string>(op.value).size();
+        return 2 * get_utf16_count(std::get<std::string>(op.value));
 }
 
 uint32_t data_def_type_CU::get_nominal_length_attribute(const nominal_value_t& nom) const
@@ -190,7 +206,7 @@ uint32_t data_def_type_CU::get_nominal_length_attribute(const nominal_value_t& n
         if (!std::holds_alternative<std::string>(nom.value))
             return 0;
         else
-            return 2 * (uint32_t)std::get<std::string>(nom.value).size();
+            return 2 * (uint32_t)get_utf16_count(std::get<std::string>(nom.value));
     }
 }
 
-- 
2.43.0


From e305a6d0b3204a0340d6d727d945fd2f1f0c760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:54 +0000
Subject: [PATCH 25/26] fix: length attribute of a bit length near the integer
 limit does not overflow

---
 .../src/checking/data_definition/data_def_type_base.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/checking/data_definition/data_def_type_base.cpp b/parser_library/src/checking/data_definition/data_def_type_base.cpp
index 4155a89..63bfcb9 100644
--- a/parser_library/src/checking/data_definition/data_def_type_base.cpp
+++ b/parser_library/src/checking/data_definition/data_def_type_base.cpp
@@ -383,7 +383,7 @@ uint32_t data_def_type::get_length_attribute(const data_def_length_t& length, co
         len_attr = length.value;
         if (length.len_type == data_def_length_t::BIT)
         {
-            len_attr = round_up(length.value, 8);
+            len_attr = round_up((uint32_t)length.value, 8U);
             len_attr /= 8;
         }
         return len_attr;
-- 
2.43.0


From 46c5148cbda79081f2d95a2376314f3895079374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:53 +0000
Subject: [PATCH 26/26] fix: ORG with a negative offset does not lose the
 highest location

---
 .../ordinary_assembly/location_counter.cpp    | 28 +++++++++++++------
 .../ordinary_assembly/location_counter.h      |  1 +
 .../ordinary_assembly_context.cpp             |  6 +---
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 792a08f..4599c96 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -49,6 +49,11 @@ address location_counter::current_address()
 aligned_addr location_counter::reserve_storage_area(size_t length, alignment a)
 {
     space_ptr sp = nullptr;
+
+    // a negative offset of ORG lowers the value, keep the highest one
+    if ((int)length < 0)
+        remember_available_value();
+
     if (!curr_data().has_alignment(a))
     {
         if (curr_data().need_space_alignment(a))
@@ -105,15 +110,11 @@ space_ptr location_counter::set_value(const address& addr, size_t boundary, int
     else
     {
         int diff = addr.offset() - curr_data().storage;
-        if (diff < 0 && curr_data().kind == loctr_data_kind::POTENTIAL_MAX)
-        {
-            // when value of addr is lower than loctr's and current loctr value is at its maximum, create new loctr data
-            // so that we can track new loctr value for later maximum retrieval (in method set_available_value)
-            org_data_.emplace_back(curr_data());
-            curr_data().kind = loctr_data_kind::UNKNOWN_MAX;
-        }
+        if (diff < 0 || offset < 0)
+            remember_available_value();
         curr_data().append_storage(diff);
-        check_available_value();
+        if (offset >= 0) // otherwise the value is not final until the offset is applied
+            check_available_value();
         return nullptr;
     }
 }
@@ -165,6 +166,17 @@ location_counter_data& location_counter::curr_data() { return org_data_.back();
 
 const location_counter_data& location_counter::curr_data() const { return org_data_.back(); }
 
+void location_counter::remember_available_value()
+{
+    if (curr_data().kind != loctr_data_kind::POTENTIAL_MAX)
+        return;
+
+    // when current loctr value is at its maximum and is about to be lowered, create new loctr data
+    // so that we can track new loctr value for later maximum retrieval (in method set_available_value)
+    org_data_.emplace_back(curr_data());
+    curr_data().kind = loctr_data_kind::UNKNOWN_MAX;
+}
+
 void location_counter::check_available_value()
 {
     if (curr_data().kind == loctr_data_kind::POTENTIAL_MAX)
diff --git a/parser_library/src/context/ordinary_assembly/location_counter.h b/parser_library/src/context/ordinary_assembly/location_counter.h
index a5bc19d..d7ea57a 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.h
+++ b/parser_library/src/context/ordinary_assembly/location_counter.h
@@ -101,6 +101,7 @@ private:
     location_counter_data& curr_data();
     const location_counter_data& curr_data() const;
 
+    void remember_available_value();
     void check_available_value();
     bool check_if_higher_value(size_t idx) const;
 };
diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index db9ee7e..f964b96 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -180,11 +180,7 @@ void ordinary_assembly_context::set_available_location_counter_value(size_t boun
         symbol_dependencies.add_dependency(
             sp, std::make_unique<aggregate_address_resolver>(std::move(addr), boundary, offset));
     else
-    {
-        if (boundary)
-            (void)align(alignment { 0, boundary });
-        (void)reserve_storage_area(offset, context::no_align);
-    }
+        (void)reserve_storage_area(offset, alignment { 0, boundary ? boundary : 1 });
 }
 
 bool ordinary_assembly_context::symbol_defined(id_index name) { return symbols_.find(name) != symbols_.end(); }
-- 
2.43.0

