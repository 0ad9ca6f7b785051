From 29ec46a3a668644e0010feb411989cd264237303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 01/36] fix: raise an exception instead of exiting when the
 scanner fails

Out of memory inside of the generated scanner ended the whole process by
std::exit(2), through the default LexerError. Failed (re)allocations now raise
std::bad_alloc, and any other internal error std::runtime_error.
---
 src/mizugaki/parser/sql_scanner.cpp |  5 +++--
 src/mizugaki/parser/sql_scanner.ll  | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_scanner.cpp b/src/mizugaki/parser/sql_scanner.cpp
index 8bfa43f..a6ef36c 100644
--- a/src/mizugaki/parser/sql_scanner.cpp
+++ b/src/mizugaki/parser/sql_scanner.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <array>
+#include <stdexcept>
 #include <utility>
 
 #include <cstdlib>
@@ -13,8 +14,8 @@ sql_scanner::sql_scanner(std::istream& input) :
 {}
 
 void sql_scanner::LexerError(char const* msg) {
-    // FIXME: impl
-    super::LexerError(msg);
+    // NOTE: never exits the process (as the default implementation does)
+    throw std::runtime_error { msg };
 }
 
 void sql_scanner::on_token(::mizugaki::parser::sql_driver& driver, bool eof) {
diff --git a/src/mizugaki/parser/sql_scanner.ll b/src/mizugaki/parser/sql_scanner.ll
index b8cdba6..91a6c2e 100644
--- a/src/mizugaki/parser/sql_scanner.ll
+++ b/src/mizugaki/parser/sql_scanner.ll
@@ -1,4 +1,7 @@
 %{
+#include <cstdlib>
+#include <new>
+
 #include <mizugaki/parser/sql_scanner.h>
 #include <mizugaki/parser/sql_parser_generated.hpp>
 
@@ -16,6 +19,8 @@
 %option noyywrap
 %option c++
 %option caseless
+%option noyyalloc
+%option noyyrealloc
 %option prefix="_generated_mizugaki__parser__sql_scanner_"
 %option yyclass="::mizugaki::parser::sql_scanner"
 
@@ -514,3 +519,17 @@ UTF8_CHAR {ASCII}|{UTF8_2}{U}|{UTF8_3}{U}{U}|{UTF8_4}{U}{U}{U}
 }
 
 %%
+
+void* yyalloc(yy_size_t size) {
+    if (auto* result = std::malloc(size)) {
+        return result;
+    }
+    throw std::bad_alloc {};
+}
+
+void* yyrealloc(void* ptr, yy_size_t size) {
+    if (auto* result = std::realloc(ptr, size)) {
+        return result;
+    }
+    throw std::bad_alloc {};
+}
-- 
2.43.0


From fe8da1c6a5e1f9d68c30c205c0f132bdc4b001f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 02/36] fix: count every node of a syntax tree against the
 parser limits

---
 src/mizugaki/parser/sql_tree_validator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index c60d4ff..77ba579 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -273,6 +273,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::update_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         for (auto&& clause : element.elements()) { // NOLINT(*-use-anyofallof)
             ACCEPT(clause.target());
             ACCEPT(clause.value());
@@ -283,6 +284,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::delete_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         ACCEPT(element.where());
         return true;
     }
@@ -548,6 +550,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::table::apply const& element, std::size_t depth) {
+        ACCEPT(element.operand());
         ACCEPT(element.name());
         ACCEPT(element.arguments());
         ACCEPT(element.correlation().correlation_name());
@@ -672,6 +675,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::scalar::function_invocation const& element, std::size_t depth) {
+        ACCEPT(element.name());
         ACCEPT(element.arguments()); // NOLINT(*-simplify-boolean-expr)
         return true;
     }
-- 
2.43.0


From 08e7c38daf598e4324b5db01a3aea96bfa39bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 03/36] fix: a syntax tree node equals itself

---
 src/mizugaki/ast/common/sort_element.cpp                    | 2 +-
 src/mizugaki/ast/common/target_element.cpp                  | 2 +-
 src/mizugaki/ast/query/binary_expression.cpp                | 2 +-
 src/mizugaki/ast/query/corresponding_clause.cpp             | 2 +-
 src/mizugaki/ast/query/group_by_clause.cpp                  | 2 +-
 src/mizugaki/ast/query/grouping_column.cpp                  | 2 +-
 src/mizugaki/ast/query/query.cpp                            | 2 +-
 src/mizugaki/ast/query/select_asterisk.cpp                  | 2 +-
 src/mizugaki/ast/query/select_column.cpp                    | 2 +-
 src/mizugaki/ast/query/table_reference.cpp                  | 2 +-
 src/mizugaki/ast/query/table_value_constructor.cpp          | 2 +-
 src/mizugaki/ast/query/with_element.cpp                     | 2 +-
 src/mizugaki/ast/query/with_expression.cpp                  | 2 +-
 src/mizugaki/ast/scalar/between_predicate.cpp               | 2 +-
 src/mizugaki/ast/scalar/binary_expression.cpp               | 2 +-
 src/mizugaki/ast/scalar/builtin_function_invocation.cpp     | 2 +-
 src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp | 2 +-
 src/mizugaki/ast/scalar/case_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/case_when_clause.cpp                | 2 +-
 src/mizugaki/ast/scalar/cast_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/comparison_predicate.cpp            | 2 +-
 src/mizugaki/ast/scalar/current_of_cursor.cpp               | 2 +-
 src/mizugaki/ast/scalar/extract_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/field_reference.cpp                 | 2 +-
 src/mizugaki/ast/scalar/function_invocation.cpp             | 2 +-
 src/mizugaki/ast/scalar/host_parameter_reference.cpp        | 2 +-
 src/mizugaki/ast/scalar/in_predicate.cpp                    | 2 +-
 src/mizugaki/ast/scalar/literal_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/method_invocation.cpp               | 2 +-
 src/mizugaki/ast/scalar/new_invocation.cpp                  | 2 +-
 src/mizugaki/ast/scalar/pattern_match_predicate.cpp         | 2 +-
 src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp | 2 +-
 src/mizugaki/ast/scalar/static_method_invocation.cpp        | 2 +-
 src/mizugaki/ast/scalar/subquery.cpp                        | 2 +-
 src/mizugaki/ast/scalar/table_predicate.cpp                 | 2 +-
 src/mizugaki/ast/scalar/trim_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/unary_expression.cpp                | 2 +-
 src/mizugaki/ast/scalar/value_constructor.cpp               | 2 +-
 src/mizugaki/ast/scalar/variable_reference.cpp              | 2 +-
 src/mizugaki/ast/statement/column_constraint_definition.cpp | 2 +-
 src/mizugaki/ast/statement/privilege_action.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_object.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_user.cpp               | 2 +-
 src/mizugaki/ast/statement/set_element.cpp                  | 2 +-
 src/mizugaki/ast/statement/storage_parameter.cpp            | 2 +-
 src/mizugaki/ast/table/join_columns.cpp                     | 2 +-
 src/mizugaki/ast/table/join_condition.cpp                   | 2 +-
 src/mizugaki/ast/type/field_definition.cpp                  | 2 +-
 src/mizugaki/ast/type/row.cpp                               | 2 +-
 src/mizugaki/ast/type/user_defined.cpp                      | 2 +-
 50 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/mizugaki/ast/common/sort_element.cpp b/src/mizugaki/ast/common/sort_element.cpp
index 4c4a8fa..dd25228 100644
--- a/src/mizugaki/ast/common/sort_element.cpp
+++ b/src/mizugaki/ast/common/sort_element.cpp
@@ -140,7 +140,7 @@ std::optional<sort_element::null_location_type> const& sort_element::null_locati
 
 bool operator==(sort_element const& a, sort_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.key_, *b.key_)
         && eq(*a.collation_, *b.collation_)
diff --git a/src/mizugaki/ast/common/target_element.cpp b/src/mizugaki/ast/common/target_element.cpp
index 4e78f26..a9e387d 100644
--- a/src/mizugaki/ast/common/target_element.cpp
+++ b/src/mizugaki/ast/common/target_element.cpp
@@ -51,7 +51,7 @@ std::unique_ptr<name::simple> const& target_element::indicator() const noexcept
 
 bool operator==(target_element const& a, target_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.indicator_, *b.indicator_);
diff --git a/src/mizugaki/ast/query/binary_expression.cpp b/src/mizugaki/ast/query/binary_expression.cpp
index bb64049..e99ddec 100644
--- a/src/mizugaki/ast/query/binary_expression.cpp
+++ b/src/mizugaki/ast/query/binary_expression.cpp
@@ -147,7 +147,7 @@ std::optional<binary_expression::corresponding_type> const& binary_expression::c
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/query/corresponding_clause.cpp b/src/mizugaki/ast/query/corresponding_clause.cpp
index b951795..4d733a1 100644
--- a/src/mizugaki/ast/query/corresponding_clause.cpp
+++ b/src/mizugaki/ast/query/corresponding_clause.cpp
@@ -51,7 +51,7 @@ std::vector<std::unique_ptr<name::simple>> const& corresponding_clause::column_n
 
 bool operator==(corresponding_clause const& a, corresponding_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.column_names_, *b.column_names_);
 }
diff --git a/src/mizugaki/ast/query/group_by_clause.cpp b/src/mizugaki/ast/query/group_by_clause.cpp
index 8fba22e..b1f97fc 100644
--- a/src/mizugaki/ast/query/group_by_clause.cpp
+++ b/src/mizugaki/ast/query/group_by_clause.cpp
@@ -50,7 +50,7 @@ std::vector<std::unique_ptr<group_by_clause::element_type>> const& group_by_clau
 
 bool operator==(group_by_clause const& a, group_by_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.elements_, *b.elements_);
 }
diff --git a/src/mizugaki/ast/query/grouping_column.cpp b/src/mizugaki/ast/query/grouping_column.cpp
index 8022dce..d9148ee 100644
--- a/src/mizugaki/ast/query/grouping_column.cpp
+++ b/src/mizugaki/ast/query/grouping_column.cpp
@@ -94,7 +94,7 @@ std::unique_ptr<name::name> const& grouping_column::collation() const noexcept {
 
 bool operator==(grouping_column const& a, grouping_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.column_, b.column_)
             && eq(a.collation_, b.collation_);
diff --git a/src/mizugaki/ast/query/query.cpp b/src/mizugaki/ast/query/query.cpp
index 8a01ca6..2d978b9 100644
--- a/src/mizugaki/ast/query/query.cpp
+++ b/src/mizugaki/ast/query/query.cpp
@@ -186,7 +186,7 @@ std::optional<query::quantifier_type> const& query::quantifier() const noexcept
 
 bool operator==(query const& a, query const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.from_, b.from_)
diff --git a/src/mizugaki/ast/query/select_asterisk.cpp b/src/mizugaki/ast/query/select_asterisk.cpp
index d69e0b3..a5ce134 100644
--- a/src/mizugaki/ast/query/select_asterisk.cpp
+++ b/src/mizugaki/ast/query/select_asterisk.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& select_asterisk::qualifier() const no
 
 bool operator==(select_asterisk const& a, select_asterisk const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.qualifier_, b.qualifier_);
 }
diff --git a/src/mizugaki/ast/query/select_column.cpp b/src/mizugaki/ast/query/select_column.cpp
index 492ef8c..e5a5ca9 100644
--- a/src/mizugaki/ast/query/select_column.cpp
+++ b/src/mizugaki/ast/query/select_column.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::simple> const& select_column::name() const noexcept {
 
 bool operator==(select_column const& a, select_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_)
             && eq(a.name_, b.name_);
diff --git a/src/mizugaki/ast/query/table_reference.cpp b/src/mizugaki/ast/query/table_reference.cpp
index 6046c39..7cbad8e 100644
--- a/src/mizugaki/ast/query/table_reference.cpp
+++ b/src/mizugaki/ast/query/table_reference.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<name::name> const& table_reference::name() const noexcept {
 
 bool operator==(table_reference const& a, table_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/query/table_value_constructor.cpp b/src/mizugaki/ast/query/table_value_constructor.cpp
index 42389fb..d7933db 100644
--- a/src/mizugaki/ast/query/table_value_constructor.cpp
+++ b/src/mizugaki/ast/query/table_value_constructor.cpp
@@ -62,7 +62,7 @@ std::vector<std::unique_ptr<scalar::expression>> const& table_value_constructor:
 
 bool operator==(table_value_constructor const& a, table_value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/query/with_element.cpp b/src/mizugaki/ast/query/with_element.cpp
index 70e8d86..bf1a26a 100644
--- a/src/mizugaki/ast/query/with_element.cpp
+++ b/src/mizugaki/ast/query/with_element.cpp
@@ -92,7 +92,7 @@ std::vector<std::unique_ptr<name::simple>> const& with_element::column_names() c
 
 bool operator==(with_element const& a, with_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.expression_, *b.expression_)
diff --git a/src/mizugaki/ast/query/with_expression.cpp b/src/mizugaki/ast/query/with_expression.cpp
index ac31a18..5aeb7a4 100644
--- a/src/mizugaki/ast/query/with_expression.cpp
+++ b/src/mizugaki/ast/query/with_expression.cpp
@@ -104,7 +104,7 @@ with_expression::bool_type const& with_expression::is_recursive() const noexcept
 
 bool operator==(with_expression const& a, with_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.expression_, b.expression_)
diff --git a/src/mizugaki/ast/scalar/between_predicate.cpp b/src/mizugaki/ast/scalar/between_predicate.cpp
index 9bac591..a53e283 100644
--- a/src/mizugaki/ast/scalar/between_predicate.cpp
+++ b/src/mizugaki/ast/scalar/between_predicate.cpp
@@ -120,7 +120,7 @@ between_predicate::bool_type const& between_predicate::is_not() const noexcept {
 
 bool operator==(between_predicate const& a, between_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.target_, b.target_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/binary_expression.cpp b/src/mizugaki/ast/scalar/binary_expression.cpp
index 55dc4f0..38061f2 100644
--- a/src/mizugaki/ast/scalar/binary_expression.cpp
+++ b/src/mizugaki/ast/scalar/binary_expression.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& binary_expression::right() const noexcept {
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
index c7c34a1..21a19ba 100644
--- a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
@@ -77,7 +77,7 @@ std::vector<expression::operand_type> const& builtin_function_invocation::argume
 
 bool operator==(builtin_function_invocation const& a, builtin_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
index 0af9940..b3ed382 100644
--- a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
@@ -90,7 +90,7 @@ std::vector<expression::operand_type> const& builtin_set_function_invocation::ar
 
 bool operator==(builtin_set_function_invocation const& a, builtin_set_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.quantifier_, b.quantifier_)
diff --git a/src/mizugaki/ast/scalar/case_expression.cpp b/src/mizugaki/ast/scalar/case_expression.cpp
index 0fa33f3..2f87a0f 100644
--- a/src/mizugaki/ast/scalar/case_expression.cpp
+++ b/src/mizugaki/ast/scalar/case_expression.cpp
@@ -107,7 +107,7 @@ expression::operand_type const& case_expression::default_result() const noexcept
 
 bool operator==(case_expression const& a, case_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operand_, b.operand_)
             && eq(a.when_clauses_, b.when_clauses_)
diff --git a/src/mizugaki/ast/scalar/case_when_clause.cpp b/src/mizugaki/ast/scalar/case_when_clause.cpp
index 50fe752..4bc9a5f 100644
--- a/src/mizugaki/ast/scalar/case_when_clause.cpp
+++ b/src/mizugaki/ast/scalar/case_when_clause.cpp
@@ -64,7 +64,7 @@ expression::operand_type const& case_when_clause::result() const noexcept {
 
 bool operator==(case_when_clause const& a, case_when_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.when_, *b.when_)
             && eq(*a.result_, *b.result_);
diff --git a/src/mizugaki/ast/scalar/cast_expression.cpp b/src/mizugaki/ast/scalar/cast_expression.cpp
index cadc5b0..36ec4fb 100644
--- a/src/mizugaki/ast/scalar/cast_expression.cpp
+++ b/src/mizugaki/ast/scalar/cast_expression.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<type::type> const& cast_expression::type() const noexcept {
 
 bool operator==(cast_expression const& a, cast_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_)
diff --git a/src/mizugaki/ast/scalar/comparison_predicate.cpp b/src/mizugaki/ast/scalar/comparison_predicate.cpp
index d86fb0e..6f82526 100644
--- a/src/mizugaki/ast/scalar/comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/comparison_predicate.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& comparison_predicate::right() const noexcept {
 
 bool operator==(comparison_predicate const& a, comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/current_of_cursor.cpp b/src/mizugaki/ast/scalar/current_of_cursor.cpp
index 7121cc1..297081a 100644
--- a/src/mizugaki/ast/scalar/current_of_cursor.cpp
+++ b/src/mizugaki/ast/scalar/current_of_cursor.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& current_of_cursor::name() const noexcept {
 
 bool operator==(current_of_cursor const& a, current_of_cursor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/extract_expression.cpp b/src/mizugaki/ast/scalar/extract_expression.cpp
index 75ee965..9df2687 100644
--- a/src/mizugaki/ast/scalar/extract_expression.cpp
+++ b/src/mizugaki/ast/scalar/extract_expression.cpp
@@ -114,7 +114,7 @@ expression::operand_type const& extract_expression::operand() const noexcept {
 
 bool operator==(extract_expression const& a, extract_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.field_, b.field_)
         && eq(a.subsecond_digits_, b.subsecond_digits_)
diff --git a/src/mizugaki/ast/scalar/field_reference.cpp b/src/mizugaki/ast/scalar/field_reference.cpp
index 44ec9a4..ae7e42f 100644
--- a/src/mizugaki/ast/scalar/field_reference.cpp
+++ b/src/mizugaki/ast/scalar/field_reference.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<name::simple> const& field_reference::name() const noexcept {
 
 bool operator==(field_reference const& a, field_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/function_invocation.cpp b/src/mizugaki/ast/scalar/function_invocation.cpp
index 0a244cc..d4ba50c 100644
--- a/src/mizugaki/ast/scalar/function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/function_invocation.cpp
@@ -80,7 +80,7 @@ std::vector<expression::operand_type> const& function_invocation::arguments() co
 
 bool operator==(function_invocation const& a, function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/host_parameter_reference.cpp b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
index 98cd768..0fa7e67 100644
--- a/src/mizugaki/ast/scalar/host_parameter_reference.cpp
+++ b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::simple> const& host_parameter_reference::name() const noex
 
 bool operator==(host_parameter_reference const& a, host_parameter_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/in_predicate.cpp b/src/mizugaki/ast/scalar/in_predicate.cpp
index 3c83697..4eea60f 100644
--- a/src/mizugaki/ast/scalar/in_predicate.cpp
+++ b/src/mizugaki/ast/scalar/in_predicate.cpp
@@ -90,7 +90,7 @@ in_predicate::bool_type const& in_predicate::is_not() const noexcept {
 
 bool operator==(in_predicate const& a, in_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.left_, b.left_)
             && eq(a.right_, b.right_)
diff --git a/src/mizugaki/ast/scalar/literal_expression.cpp b/src/mizugaki/ast/scalar/literal_expression.cpp
index af83788..60668b9 100644
--- a/src/mizugaki/ast/scalar/literal_expression.cpp
+++ b/src/mizugaki/ast/scalar/literal_expression.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<literal::literal> const& literal_expression::value() const noexc
 
 bool operator==(literal_expression const& a, literal_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_);
 }
diff --git a/src/mizugaki/ast/scalar/method_invocation.cpp b/src/mizugaki/ast/scalar/method_invocation.cpp
index 60203bd..3bc6eb9 100644
--- a/src/mizugaki/ast/scalar/method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/method_invocation.cpp
@@ -107,7 +107,7 @@ std::vector<expression::operand_type> const& method_invocation::arguments() cons
 
 bool operator==(method_invocation const& a, method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/new_invocation.cpp b/src/mizugaki/ast/scalar/new_invocation.cpp
index 951c379..36c12d6 100644
--- a/src/mizugaki/ast/scalar/new_invocation.cpp
+++ b/src/mizugaki/ast/scalar/new_invocation.cpp
@@ -79,7 +79,7 @@ std::vector<expression::operand_type> const& new_invocation::arguments() const n
 
 bool operator==(new_invocation const& a, new_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
index cf475c3..10d88b0 100644
--- a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
+++ b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
@@ -119,7 +119,7 @@ pattern_match_predicate::bool_type const& pattern_match_predicate::is_not() cons
 
 bool operator==(pattern_match_predicate const& a, pattern_match_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.match_value_, b.match_value_)
diff --git a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
index 07dc504..65f4079 100644
--- a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
@@ -104,7 +104,7 @@ std::unique_ptr<query::expression> const& quantified_comparison_predicate::right
 
 bool operator==(quantified_comparison_predicate const& a, quantified_comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/static_method_invocation.cpp b/src/mizugaki/ast/scalar/static_method_invocation.cpp
index 88a89ac..3533f2b 100644
--- a/src/mizugaki/ast/scalar/static_method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/static_method_invocation.cpp
@@ -93,7 +93,7 @@ std::vector<expression::operand_type> const& static_method_invocation::arguments
 
 bool operator==(static_method_invocation const& a, static_method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.name_, b.name_)
diff --git a/src/mizugaki/ast/scalar/subquery.cpp b/src/mizugaki/ast/scalar/subquery.cpp
index 7b17d24..31a443b 100644
--- a/src/mizugaki/ast/scalar/subquery.cpp
+++ b/src/mizugaki/ast/scalar/subquery.cpp
@@ -76,7 +76,7 @@ subquery::context_kind_type const& subquery::context_kind() const noexcept {
 
 bool operator==(subquery const& a, subquery const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.query_, b.query_) && a.context_kind_ == b.context_kind_;
 }
diff --git a/src/mizugaki/ast/scalar/table_predicate.cpp b/src/mizugaki/ast/scalar/table_predicate.cpp
index 02a3348..ab6c8f1 100644
--- a/src/mizugaki/ast/scalar/table_predicate.cpp
+++ b/src/mizugaki/ast/scalar/table_predicate.cpp
@@ -76,7 +76,7 @@ std::unique_ptr<query::expression> const& table_predicate::operand() const noexc
 
 bool operator==(table_predicate const& a, table_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/trim_expression.cpp b/src/mizugaki/ast/scalar/trim_expression.cpp
index f953adb..beda913 100644
--- a/src/mizugaki/ast/scalar/trim_expression.cpp
+++ b/src/mizugaki/ast/scalar/trim_expression.cpp
@@ -91,7 +91,7 @@ expression::operand_type const& trim_expression::source() const noexcept {
 
 bool operator==(trim_expression const& a, trim_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.specification_, b.specification_)
             && eq(a.character_, b.character_)
diff --git a/src/mizugaki/ast/scalar/unary_expression.cpp b/src/mizugaki/ast/scalar/unary_expression.cpp
index 79ffe1d..b0ffd6b 100644
--- a/src/mizugaki/ast/scalar/unary_expression.cpp
+++ b/src/mizugaki/ast/scalar/unary_expression.cpp
@@ -76,7 +76,7 @@ expression::operand_type const& unary_expression::operand() const noexcept {
 
 bool operator==(unary_expression const& a, unary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/value_constructor.cpp b/src/mizugaki/ast/scalar/value_constructor.cpp
index 240dde1..b747232 100644
--- a/src/mizugaki/ast/scalar/value_constructor.cpp
+++ b/src/mizugaki/ast/scalar/value_constructor.cpp
@@ -86,7 +86,7 @@ std::vector<expression::operand_type> const& value_constructor::elements() const
 
 bool operator==(value_constructor const& a, value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.elements_, b.elements_);
diff --git a/src/mizugaki/ast/scalar/variable_reference.cpp b/src/mizugaki/ast/scalar/variable_reference.cpp
index 6bac267..c2d715b 100644
--- a/src/mizugaki/ast/scalar/variable_reference.cpp
+++ b/src/mizugaki/ast/scalar/variable_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& variable_reference::name() const noexcept {
 
 bool operator==(variable_reference const& a, variable_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/statement/column_constraint_definition.cpp b/src/mizugaki/ast/statement/column_constraint_definition.cpp
index af808c1..5893394 100644
--- a/src/mizugaki/ast/statement/column_constraint_definition.cpp
+++ b/src/mizugaki/ast/statement/column_constraint_definition.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<constraint> const& column_constraint_definition::body() const no
 
 bool operator==(column_constraint_definition const& a, column_constraint_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.body_, *b.body_);
diff --git a/src/mizugaki/ast/statement/privilege_action.cpp b/src/mizugaki/ast/statement/privilege_action.cpp
index fd0bfd5..38aecb4 100644
--- a/src/mizugaki/ast/statement/privilege_action.cpp
+++ b/src/mizugaki/ast/statement/privilege_action.cpp
@@ -40,7 +40,7 @@ privilege_action::action_kind_type const& privilege_action::action_kind() const
 
 bool operator==(privilege_action const& a, privilege_action const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.action_kind_, *b.action_kind_);
 }
diff --git a/src/mizugaki/ast/statement/privilege_object.cpp b/src/mizugaki/ast/statement/privilege_object.cpp
index 9bcaeb6..53bd8fb 100644
--- a/src/mizugaki/ast/statement/privilege_object.cpp
+++ b/src/mizugaki/ast/statement/privilege_object.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::name> const& privilege_object::object_name() const noexcep
 
 bool operator==(privilege_object const& a, privilege_object const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.object_kind_, b.object_kind_)
             && eq(*a.object_name_, *b.object_name_);
diff --git a/src/mizugaki/ast/statement/privilege_user.cpp b/src/mizugaki/ast/statement/privilege_user.cpp
index 457afcc..6ad3b76 100644
--- a/src/mizugaki/ast/statement/privilege_user.cpp
+++ b/src/mizugaki/ast/statement/privilege_user.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::simple> const& privilege_user::authorization_identifier()
 
 bool operator==(privilege_user const& a, privilege_user const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     if (!eq(a.user_kind_, b.user_kind_)) {
         return false;
diff --git a/src/mizugaki/ast/statement/set_element.cpp b/src/mizugaki/ast/statement/set_element.cpp
index 2c6bea2..291f46a 100644
--- a/src/mizugaki/ast/statement/set_element.cpp
+++ b/src/mizugaki/ast/statement/set_element.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& set_element::value() const noexcept {
 
 bool operator==(set_element const& a, set_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/statement/storage_parameter.cpp b/src/mizugaki/ast/statement/storage_parameter.cpp
index 78c03aa..6daef82 100644
--- a/src/mizugaki/ast/statement/storage_parameter.cpp
+++ b/src/mizugaki/ast/statement/storage_parameter.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<scalar::expression> const& storage_parameter::value() const noex
 
 bool operator==(storage_parameter const& a, storage_parameter const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/table/join_columns.cpp b/src/mizugaki/ast/table/join_columns.cpp
index 83841ee..c10cc28 100644
--- a/src/mizugaki/ast/table/join_columns.cpp
+++ b/src/mizugaki/ast/table/join_columns.cpp
@@ -64,7 +64,7 @@ std::vector<std::unique_ptr<name::simple>> const& join_columns::columns() const
 
 bool operator==(join_columns const& a, join_columns const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.columns_, b.columns_);
 }
diff --git a/src/mizugaki/ast/table/join_condition.cpp b/src/mizugaki/ast/table/join_condition.cpp
index 8f508b6..883289f 100644
--- a/src/mizugaki/ast/table/join_condition.cpp
+++ b/src/mizugaki/ast/table/join_condition.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& join_condition::expression() const no
 
 bool operator==(join_condition const& a, join_condition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.expression_, b.expression_);
 }
diff --git a/src/mizugaki/ast/type/field_definition.cpp b/src/mizugaki/ast/type/field_definition.cpp
index 30cbd05..01a7b4c 100644
--- a/src/mizugaki/ast/type/field_definition.cpp
+++ b/src/mizugaki/ast/type/field_definition.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::name> const& field_definition::collation() const noexcept
 
 bool operator==(field_definition const& a, field_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
         && eq(*a.type_, *b.type_)
diff --git a/src/mizugaki/ast/type/row.cpp b/src/mizugaki/ast/type/row.cpp
index d29acd2..0e09e59 100644
--- a/src/mizugaki/ast/type/row.cpp
+++ b/src/mizugaki/ast/type/row.cpp
@@ -61,7 +61,7 @@ std::vector<field_definition> const& row::elements() const noexcept {
 
 bool operator==(row const& a, row const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/type/user_defined.cpp b/src/mizugaki/ast/type/user_defined.cpp
index 00dcd97..10ea1e0 100644
--- a/src/mizugaki/ast/type/user_defined.cpp
+++ b/src/mizugaki/ast/type/user_defined.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& user_defined::name() const noexcept {
 
 bool operator==(user_defined const& a, user_defined const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
-- 
2.43.0


From d1598e3d2f127ca665d41f0d77ff954d2b076624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 04/36] fix: copying a wrapped node may fail, and assignment
 returns the wrapper

---
 include/mizugaki/ast/common/clone_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mizugaki/ast/common/clone_wrapper.h b/include/mizugaki/ast/common/clone_wrapper.h
index d3a4611..7066152 100644
--- a/include/mizugaki/ast/common/clone_wrapper.h
+++ b/include/mizugaki/ast/common/clone_wrapper.h
@@ -98,7 +98,7 @@ public:
 private:
     target_type element_ {};
 
-    [[nodiscard]] target_type clone() const noexcept {
+    [[nodiscard]] target_type clone() const {
         return ::takatori::util::clone_unique(element_);
     }
 };
@@ -146,6 +146,7 @@ public:
      */
     clone_wrapper& operator=(clone_wrapper const& other) {
         element_ = other.clone();
+        return *this;
     }
 
     /**
-- 
2.43.0


From 00a87ea36369e7d11565dfe67809b69c0b99e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 05/36] fix: a cloned truncate statement keeps its region

---
 src/mizugaki/ast/statement/truncate_table_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/ast/statement/truncate_table_statement.cpp b/src/mizugaki/ast/statement/truncate_table_statement.cpp
index b64e990..445538c 100644
--- a/src/mizugaki/ast/statement/truncate_table_statement.cpp
+++ b/src/mizugaki/ast/statement/truncate_table_statement.cpp
@@ -37,6 +37,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             clone_unique(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
@@ -44,6 +45,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             std::move(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
-- 
2.43.0


From 402af9cca9e62552f2e2fb1721ba76ce05d5c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 06/36] fix: comparison and serialization of APPLY include its
 operand

---
 src/mizugaki/ast/table/apply.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index 3c644a6..b3ac7dc 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -127,6 +127,7 @@ void apply::serialize(takatori::serializer::object_acceptor& acceptor) const {
     using namespace std::string_view_literals;
     auto obj = struct_block(acceptor, *this);
     property(acceptor, "operator_kind"sv, operator_kind_);
+    property(acceptor, "operand"sv, operand_);
     property(acceptor, "name"sv, name_);
     property(acceptor, "arguments"sv, arguments_);
     property(acceptor, "correlation"sv, correlation_);
@@ -138,6 +139,7 @@ bool operator==(apply const& a, apply const& b) noexcept {
         return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
+            && eq(a.operand_, b.operand_)
             && eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_)
             && eq(a.correlation_, b.correlation_);
-- 
2.43.0


From 3ebfc90b3cb30bbe8ee83ed5968933ad947caac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 07/36] fix: comparison of table references includes ONLY

---
 src/mizugaki/ast/table/table_reference.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/table_reference.cpp b/src/mizugaki/ast/table/table_reference.cpp
index 10aa4f6..4e75d83 100644
--- a/src/mizugaki/ast/table/table_reference.cpp
+++ b/src/mizugaki/ast/table/table_reference.cpp
@@ -97,7 +97,7 @@ bool operator==(table_reference const& a, table_reference const& b) noexcept {
     }
     return eq(a.name_, b.name_)
             && eq(a.correlation_, b.correlation_)
-            && eq(a.is_only_, a.is_only_);
+            && eq(a.is_only_, b.is_only_);
 }
 
 bool operator!=(table_reference const& a, table_reference const& b) noexcept {
-- 
2.43.0


From 867a511f6e37de2c9dea3df3033fee2b2d9668bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 08/36] fix: a stream which throws while a syntax tree is
 printed does not end the process

---
 src/mizugaki/ast/common/serializers.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/ast/common/serializers.h b/src/mizugaki/ast/common/serializers.h
index 2ad5793..4087cb8 100644
--- a/src/mizugaki/ast/common/serializers.h
+++ b/src/mizugaki/ast/common/serializers.h
@@ -173,8 +173,17 @@ void serialize(::takatori::serializer::object_acceptor& acceptor, T const& eleme
  */
 template<class T>
 std::ostream& print(std::ostream& out, T const& element) {
-    ::takatori::serializer::json_printer acceptor { out };
-    impl::element_serializer<T> {}(acceptor, element);
+    // NOTE: destructors close the blocks, so that the stream must not throw until all of them were closed
+    auto exceptions = out.exceptions();
+    out.exceptions(std::ios_base::goodbit);
+    try {
+        ::takatori::serializer::json_printer acceptor { out };
+        impl::element_serializer<T> {}(acceptor, element);
+    } catch (...) {
+        out.exceptions(exceptions);
+        throw;
+    }
+    out.exceptions(exceptions);
     return out;
 }
 
-- 
2.43.0


From 38376e3699abea64e78d206a33d24c1634df1d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 09/36] fix: the parser keeps ONLY of a table reference

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 1052152..4e4ebcb 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2970,10 +2970,10 @@ table_primary
                     $c,
                     @$);
         }
-    | ONLY "(" table_name[n] ")" correlation_clause_opt[c]
+    | ONLY[o] "(" table_name[n] ")" correlation_clause_opt[c]
         {
             $$ = driver.node<ast::table::table_reference>(
-                    regioned { false },
+                    regioned { true, @o },
                     $n,
                     $c,
                     @$);
-- 
2.43.0


From cb8eab605e422fc46ff7b9a0f4741f86deed8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 10/36] fix: negate the minimum integer literal without signed
 overflow

---
 src/mizugaki/analyzer/details/analyze_literal.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index 44a7463..48fa568 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -265,10 +265,9 @@ private:
             if (triple.coefficient_high() == 0
                 && ((triple.coefficient_low() <= positive_max)
                     || (triple.sign() < 0 && triple.coefficient_low() <= negative_max))) {
-                integer = static_cast<std::int64_t>(triple.coefficient_low());
-                if (triple.sign() < 0) {
-                    integer = -*integer;
-                }
+                // NOTE: negate before converting to signed, because the minimum value has no positive counterpart
+                auto coefficient = static_cast<std::uint64_t>(triple.coefficient_low());
+                integer = static_cast<std::int64_t>(triple.sign() < 0 ? std::uint64_t { 0 } - coefficient : coefficient);
             }
             if (integer) {
                 if (context_.options()->prefer_small_integer_literals()) {
-- 
2.43.0


From 07a75520f8ac511b8f17bfcdaf61785d90fe043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 11/36] fix: report an invalid default precision of decimals at
 the type

---
 src/mizugaki/analyzer/details/analyze_type.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_type.cpp b/src/mizugaki/analyzer/details/analyze_type.cpp
index 7832d29..001c9e3 100644
--- a/src/mizugaki/analyzer/details/analyze_type.cpp
+++ b/src/mizugaki/analyzer/details/analyze_type.cpp
@@ -208,11 +208,13 @@ public:
                 scale = **scale_opt;
             }
         }
+        // NOTE: the precision may come from the default value, even if it is not declared explicitly
+        auto precision_region = type.precision() ? type.precision()->region() : type.region();
         if (precision && precision == 0) {
             context_.report(
                     sql_analyzer_code::invalid_type_length,
                     "decimal type precision must not be zero",
-                    type.precision().value().region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region);
             return {};
         }
         if (precision && precision > options().max_decimal_precision()) {
@@ -222,7 +224,7 @@ public:
                             << "too large decimal precision: " << precision.value()
                             << " (max precision is " << options().max_decimal_precision() << ")"
                             << string_builder::to_string,
-                    type.precision()->region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region);
             return {};
         }
         if (scale && scale.value() > precision.value_or(options().max_decimal_precision())) {
-- 
2.43.0


From 78a946e2ababb43e204f3de67f29f62bbdbd1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 12/36] fix: a syntax tree node without region has no document
 region in analysis results

---
 src/mizugaki/analyzer/details/analyzer_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyzer_context.cpp b/src/mizugaki/analyzer/details/analyzer_context.cpp
index c420766..656b36c 100644
--- a/src/mizugaki/analyzer/details/analyzer_context.cpp
+++ b/src/mizugaki/analyzer/details/analyzer_context.cpp
@@ -152,7 +152,7 @@ sql_analyzer_code analyzer_context::convert_code(
 }
 
 ::takatori::document::region analyzer_context::convert(ast::node_region region) const {
-    if (source_) {
+    if (source_ && region) {
         return diagnostic_type::location_type {
                 *source_,
                 region.begin,
-- 
2.43.0


From 634fc85debaca6db275c9ef8451ed273cdf10c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 13/36] fix: join specifications cannot refer to relations of
 other FROM elements

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b1307dd..cc8c565 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1576,10 +1576,15 @@ private:
 
         optional_ptr<output_port> output {};
         for (auto&& elem : elements) {
-            auto next = dispatch(*elem, scope);
+            // NOTE: join specifications cannot refer the relations of other elements
+            query_scope element_scope { scope, {} };
+            auto next = dispatch(*elem, element_scope);
             if (!next) {
                 return {};
             }
+            for (auto&& relation : element_scope.references()) {
+                scope.add(std::move(relation));
+            }
             if (!output) {
                 output = std::move(next);
             } else {
-- 
2.43.0


From 656463626af6e21613668433fad81f9550a2a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 14/36] fix: analyze the right operand of a join in its own
 scope

Join specifications inside of the right operand (nested joins) could refer to
the relations of the left operand, so that USING columns became ambiguous and
valid queries were refused.
---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index cc8c565..a002aac 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1631,10 +1631,15 @@ private:
             return {};
         }
         auto pivot = scope.create_pivot();
-        auto right = dispatch(*expr.right(), scope);
+        // NOTE: join specifications in the right operand cannot refer the relations of the left operand
+        query_scope right_scope { scope, {} };
+        auto right = dispatch(*expr.right(), right_scope);
         if (!right) {
             return {};
         }
+        for (auto&& relation : right_scope.references()) {
+            scope.add(std::move(relation));
+        }
         if (transpose) {
             std::swap(left, right);
         }
-- 
2.43.0


From 70a0a7b3dd8becf23c6a56792d8422cf3e556c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 15/36] fix: make exactly one group for empty grouping without
 set functions

`GROUP BY ()` or HAVING without any set functions did not emit the aggregation,
so that the query returned a row for each input row.
---
 src/mizugaki/analyzer/details/set_function_processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 0d8ee67..5f9c464 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -338,6 +338,11 @@ optional_ptr<output_port_type> set_function_processor::install(output_port_type&
         current = arguments_->output();
         arguments_.reset();
     }
+    if (active_) {
+        // NOTE: even if there are neither grouping keys nor set functions (e.g. `GROUP BY ()`),
+        //       the aggregation makes just one group from the all input rows
+        (void) aggregations_store();
+    }
     if (aggregations_) {
         if (!context_.resolve(*aggregations_)) {
             return {};
-- 
2.43.0


From a3ac2a028b9b95809650dd25cd3784fbe4e5cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 16/36] fix: give joined columns of RIGHT and FULL JOIN ...
 USING the value of either operand

The columns of USING referred only to the left operand, so that they were NULL
for unmatched rows of the right operand.
---
 .../details/analyze_query_expression.cpp      | 58 +++++++++++++++++--
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index a002aac..ba57151 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -69,6 +69,12 @@ using node_vector = std::vector<std::unique_ptr<T>>;
 
 namespace {
 
+struct join_column_pair {
+    optional_ptr<column_info> left;
+    tdescriptor::variable right;
+    ast::node_region region;
+};
+
 class engine {
 public:
     engine(
@@ -1311,7 +1317,8 @@ public:
     [[nodiscard]] std::unique_ptr<tscalar::expression> operator()(
             ast::table::join_condition const& elem,
             query_scope& scope,
-            query_scope::position_type) {
+            query_scope::position_type,
+            std::vector<join_column_pair>&) {
         auto r = analyze_scalar_expression(context_, *elem.expression(), scope);
         if (!r) {
             return {};
@@ -1329,13 +1336,14 @@ public:
     [[nodiscard]] std::unique_ptr<tscalar::expression> operator()( // NOLINT(*-function-cognitive-complexity)
             ast::table::join_columns const& elem,
             query_scope& scope,
-            query_scope::position_type pivot) {
+            query_scope::position_type pivot,
+            std::vector<join_column_pair>& pairs) {
         std::unique_ptr<tscalar::expression> result {};
 
         for (auto&& name : elem.columns()) {
             auto&& id = normalize_identifier(context_, *name, name_kind::variable);
             auto&& rels = scope.references();
-            optional_ptr<tdescriptor::variable const> left {};
+            optional_ptr<column_info> left {};
             for (query_scope::position_type i = 0, n = pivot; i < n; ++i) {
                 auto&& rel = rels[i];
                 for (auto&& column = rel.find(id); column; column = rel.next(*column)) {
@@ -1352,7 +1360,7 @@ public:
                                 name->region());
                         return {};
                     }
-                    left = column->variable();
+                    left = *column;
                 }
             }
             if (!left) {
@@ -1402,10 +1410,11 @@ public:
                     tscalar::comparison_operator::equal,
                     context_.create<tscalar::variable_reference>(
                             name->region(),
-                            *left),
+                            left->variable()),
                     context_.create<tscalar::variable_reference>(
                             name->region(),
                             *right));
+            pairs.push_back({ left, *right, name->region() });
             if (!result) {
                 result = std::move(term);
             } else {
@@ -1644,6 +1653,7 @@ private:
             std::swap(left, right);
         }
 
+        std::vector<join_column_pair> pairs {};
         std::unique_ptr<tscalar::expression> condition {};
         if (natural) {
             if (expr.specification()) {
@@ -1658,7 +1668,7 @@ private:
                 return {};
             }
         } else if (expr.specification()) {
-            condition = ast::table::dispatch(*this, *expr.specification(), scope, pivot);
+            condition = ast::table::dispatch(*this, *expr.specification(), scope, pivot, pairs);
             if (!condition) {
                 return {};
             }
@@ -1673,6 +1683,42 @@ private:
         }
         op.left().connect_to(*left);
         op.right().connect_to(*right);
+        if (pairs.empty()) {
+            return op.output();
+        }
+        if (transpose) {
+            // NOTE: joined columns of RIGHT JOIN always have the values of RHS
+            for (auto&& pair : pairs) {
+                pair.left->variable() = pair.right;
+            }
+            return op.output();
+        }
+        if (join_type == trelation::join_kind::full_outer) {
+            // NOTE: joined columns of FULL JOIN have the values of either LHS or RHS
+            auto&& project = graph_.emplace<trelation::project>(std::vector<trelation::project::column> {});
+            project.region() = op.region();
+            project.columns().reserve(pairs.size());
+            for (auto&& pair : pairs) {
+                auto alternatives = create_ref_vector<tscalar::expression>(2);
+                alternatives.push_back(context_.create<tscalar::variable_reference>(
+                        pair.region,
+                        pair.left->variable()));
+                alternatives.push_back(context_.create<tscalar::variable_reference>(
+                        pair.region,
+                        pair.right));
+                auto variable = factory_.stream_variable(pair.left->identifier().value_or(""));
+                variable.region() = context_.convert(pair.region);
+                project.columns().emplace_back(
+                        variable,
+                        context_.create<tscalar::coalesce>(pair.region, std::move(alternatives)));
+                pair.left->variable() = std::move(variable);
+            }
+            if (!context_.resolve(project)) {
+                return {};
+            }
+            project.input().connect_to(op.output());
+            return project.output();
+        }
         return op.output();
     }
 
-- 
2.43.0


From 5885eaf172e5e6831daef5fb499d4ebcc1153331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 17/36] fix: normalize the correlation name of APPLY

The name of relations of APPLY was not normalized, so that it could not be
referred to with lowercase_regular_identifiers.
---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index ba57151..4b9bfa2 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1104,7 +1104,7 @@ public:
             return {};
         }
 
-        relation_info info { {}, correlation.correlation_name()->identifier() };
+        relation_info info { {}, normalize_identifier(context_, *correlation.correlation_name(), name_kind::relation) };
         ::tsl::hopscotch_set<std::string> saw_column_names {};
         saw_column_names.reserve(table_type.columns().size());
         for (std::size_t index = 0; index < table_type.columns().size(); ++index) {
-- 
2.43.0


From c0c7f5fa6788cfb1d55f475b1a4436dd29a196fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 18/36] fix: keep queries of WITH clause until the analysis
 ends

The types of expressions are kept by their addresses, so that disposing queries of
WITH clause before the end of the analysis gave their types to other expressions
which were placed at the same address.
---
 .../analyzer/details/analyze_query_expression.cpp     |  3 +++
 src/mizugaki/analyzer/details/analyzer_context.cpp    |  6 ++++++
 src/mizugaki/analyzer/details/analyzer_context.h      | 11 +++++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 4b9bfa2..b397880 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -794,6 +794,9 @@ public:
                 std::move(columns),
                 std::move(column_names));
 
+        // NOTE: the query graph may be disposed with the scope, but its expressions have been resolved
+        context_.retain(subquery);
+
         auto inserted = scope.add(
                 normalize_identifier(context_, *element.name(), name_kind::relation),
                 std::move(subquery));
diff --git a/src/mizugaki/analyzer/details/analyzer_context.cpp b/src/mizugaki/analyzer/details/analyzer_context.cpp
index 656b36c..923a77b 100644
--- a/src/mizugaki/analyzer/details/analyzer_context.cpp
+++ b/src/mizugaki/analyzer/details/analyzer_context.cpp
@@ -41,6 +41,7 @@ finalizer analyzer_context::initialize(
     expression_analyzer_.variables().clear();
     expression_analyzer_.expressions().clear();
     expression_analyzer_.allow_unresolved(false);
+    retained_.clear();
 
     return f;
 }
@@ -58,6 +59,7 @@ void analyzer_context::finalize() {
     expression_analyzer_.clear_diagnostics();
     expression_analyzer_.variables().clear();
     expression_analyzer_.expressions().clear();
+    retained_.clear();
 
     initialized_.store(false, std::memory_order_release);
 }
@@ -109,6 +111,10 @@ void analyzer_context::clear_expression_resolution(::takatori::scalar::expressio
     expression_analyzer_.expressions().unbind(expression);
 }
 
+void analyzer_context::retain(std::shared_ptr<void const> object) {
+    retained_.emplace_back(std::move(object));
+}
+
 bool analyzer_context::is_resolved(takatori::descriptor::variable const& variable) const {
     auto&& resolution = expression_analyzer_.variables().find(variable);
     return resolution.is_resolved();
diff --git a/src/mizugaki/analyzer/details/analyzer_context.h b/src/mizugaki/analyzer/details/analyzer_context.h
index 82d578b..0d4e064 100644
--- a/src/mizugaki/analyzer/details/analyzer_context.h
+++ b/src/mizugaki/analyzer/details/analyzer_context.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <atomic>
+#include <memory>
+#include <vector>
 
 #include <takatori/type/data.h>
 #include <takatori/value/data.h>
@@ -94,6 +96,14 @@ public:
 
     void clear_expression_resolution(::takatori::scalar::expression const& expression);
 
+    /**
+     * @brief keeps the given object until this context is finalized.
+     * @details resolved expressions are identified by their addresses,
+     *      so that the expressions must not be disposed before the resolution of them.
+     * @param object the object to keep
+     */
+    void retain(std::shared_ptr<void const> object);
+
     [[nodiscard]] ::takatori::document::region convert(ast::node_region region) const;
 
     template<class T>
@@ -141,6 +151,7 @@ private:
     ::yugawara::util::object_repository<::takatori::type::data> types_ {};
     ::yugawara::util::object_repository<::takatori::value::data> values_ {};
     ::yugawara::analyzer::expression_analyzer expression_analyzer_ {};
+    std::vector<std::shared_ptr<void const>> retained_ {};
 
     void finalize();
 
-- 
2.43.0


From 9928cb3e7ae456fc1e00de0ea024bb2b938f092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 19/36] fix: correlated subqueries in grouped queries can refer
 to outer columns

A subquery in a grouped query was refused if it refers to a column of the outer
queries of the grouped query.
---
 .../analyzer/details/set_function_processor.cpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 5f9c464..c14cdf0 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -76,12 +76,6 @@ public:
     }
 
     bool operator()(tscalar::variable_reference const& expr, std::size_t depth) {
-        // check only if it is stream variable
-        auto&& variable_info = ::yugawara::binding::unwrap(expr.variable());
-        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
-            return false;
-        }
-
         check_variable(expr.region(), expr.variable(), depth);
         return false;
     }
@@ -90,6 +84,12 @@ public:
             ::takatori::document::region const& region,
             tdescriptor::variable const& variable,
             std::size_t depth) {
+        // check only if it is stream variable
+        auto&& variable_info = ::yugawara::binding::unwrap(variable);
+        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
+            return;
+        }
+
         if (depth == 0) {
             // NOTE: in aggregation depth = 0, you can use grouping keys or aggregated values
             if (!processor_.is_grouping(variable) && !processor_.is_aggregated(variable)) {
@@ -249,14 +249,14 @@ public:
         return true;
     }
 
-    bool operator()(::yugawara::extension::scalar::subquery const& expr, std::size_t depth) noexcept {
+    bool operator()(::yugawara::extension::scalar::subquery const& expr, std::size_t depth) {
         for (auto&& parameter : expr.parameters()) {
             check_variable(expr.region(), parameter.source(), depth);
         }
         return false;
     }
 
-    bool operator()(::yugawara::extension::scalar::exists const& expr, std::size_t depth) noexcept {
+    bool operator()(::yugawara::extension::scalar::exists const& expr, std::size_t depth) {
         for (auto&& parameter : expr.parameters()) {
             check_variable(expr.region(), parameter.source(), depth);
         }
-- 
2.43.0


From dde17c5d5ce115a5ee69d0c0b0cb2d1b18d3c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 20/36] fix: compare rows of set operations before they are
 converted to the types of the destination

---
 .../analyzer/details/analyze_query_expression.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b397880..0acd94d 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -559,11 +559,14 @@ public:
                     expr.region());
             return {};
         }
-        auto left = dispatch(*expr.left(), parent, val);
+        // NOTE: rows must be compared before they are converted into the destination types
+        row_value_context const no_context {};
+        auto&& operand_context = expr.quantifier() == ast::query::set_quantifier::all ? val : no_context;
+        auto left = dispatch(*expr.left(), parent, operand_context);
         if (!left) {
             return {};
         }
-        auto right = dispatch(*expr.right(), parent, val);
+        auto right = dispatch(*expr.right(), parent, operand_context);
         if (!right) {
             return {};
         }
@@ -618,7 +621,7 @@ public:
     [[nodiscard]] result_type process_except_intersect(
             ast::query::binary_expression const& expr,
             optional_ptr<query_scope> parent,
-            row_value_context const& val) {
+            row_value_context const&) {
         using operator_type = T;
         if (expr.corresponding()) {
             context_.report(
@@ -627,11 +630,13 @@ public:
                     expr.region());
             return {};
         }
-        auto left = dispatch(*expr.left(), parent, val);
+        // NOTE: rows must be compared before they are converted into the destination types
+        row_value_context const operand_context {};
+        auto left = dispatch(*expr.left(), parent, operand_context);
         if (!left) {
             return {};
         }
-        auto right = dispatch(*expr.right(), parent, val);
+        auto right = dispatch(*expr.right(), parent, operand_context);
         if (!right) {
             return {};
         }
-- 
2.43.0


From 3e4abd9b5d5ae9ccbf77964d541000184ba63258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 21/36] fix: report the region of the missing column in ALTER
 TABLE RENAME COLUMN

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 902366d..9686940 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1533,7 +1533,7 @@ public:
                             << table->simple_name()
                             << "\""
                             << string_builder::to_string,
-                    action.replacement()->region());
+                    action.column_name()->region());
             return {};
         }
         if (find_column(*table, *action.replacement())) {
-- 
2.43.0


From 680ec72dc3edd335386db31a75000e833ccd32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 22/36] fix: set the region of the value of DATE literals

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 4e4ebcb..d0b408f 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4281,7 +4281,7 @@ literal
         {
             $$ = driver.node<ast::literal::datetime>(
                     regioned { ast::literal::kind::date, @k },
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | TIME[k] with_or_without_time_zone_opt[z] CHARACTER_STRING_LITERAL[t]
-- 
2.43.0


From 5db89e7379587ee630cc310477aa0317dfd7ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 23/36] fix: refuse aggregate functions in VALUES, SET and
 arguments of table-valued functions

---
 .../analyzer/details/analyze_query_expression.cpp  | 14 ++++++++++++++
 .../analyzer/details/analyze_statement.cpp         |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 0acd94d..728ef93 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -463,6 +463,13 @@ public:
                         return {};
                     }
                     // FIXME: can appear agg func if this is in a sub-query
+                    if (elem.saw_aggregate()) {
+                        context_.report(
+                                sql_analyzer_code::unsupported_feature,
+                                "aggregated function in VALUES is not yet supported",
+                                elem_expr->region());
+                        return {};
+                    }
                     row.push_back(elem.release());
                     ++index;
                 }
@@ -1035,6 +1042,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in arguments of table-valued function is not yet supported",
+                        arg->region());
+                return {};
+            }
             auto type = context_.resolve(*value);
             if (!type) {
                 return {};
diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 9686940..fed295f 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -525,6 +525,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in SET clause is not yet supported",
+                        element.value()->region());
+                return {};
+            }
 
             projections.emplace_back(variable, value.release());
 
-- 
2.43.0


From 928d6fe071591a45db41ca9e3c817a720d89312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 24/36] fix: BIT_AND and BIT_OR were scanned as BOOL_AND and
 BOOL_OR

---
 src/mizugaki/parser/sql_scanner.ll | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_scanner.ll b/src/mizugaki/parser/sql_scanner.ll
index 91a6c2e..bf40070 100644
--- a/src/mizugaki/parser/sql_scanner.ll
+++ b/src/mizugaki/parser/sql_scanner.ll
@@ -458,8 +458,8 @@ UTF8_CHAR {ASCII}|{UTF8_2}{U}|{UTF8_3}{U}{U}|{UTF8_4}{U}{U}{U}
 "PLACING" { TRACE_RETURN parser_type::make_PLACING(location()); }
 "TINYINT" { TRACE_RETURN parser_type::make_TINYINT(location()); }
 "BIGINT" { TRACE_RETURN parser_type::make_BIGINT(location()); }
-"BIT_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
-"BIT_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
+"BIT_AND" { TRACE_RETURN parser_type::make_BIT_AND(location()); }
+"BIT_OR" { TRACE_RETURN parser_type::make_BIT_OR(location()); }
 "BOOL_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
 "BOOL_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
 
-- 
2.43.0


From 8c77c33eba801fdfd157d5c1706219412c0fb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 25/36] fix: an argument list accepted a leading comma

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index d0b408f..12c6edb 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4182,7 +4182,7 @@ sql_argument_list_opt
     ;
 
 sql_argument_list
-    : sql_argument_list_opt[L] ","[s] sql_argument[e]
+    : sql_argument_list[L] ","[s] sql_argument[e]
         {
             $$ = $L;
             $$.emplace_back($e);
-- 
2.43.0


From 51fceda931f7fa1f1dda6851fc9d8b150ef4b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 26/36] fix: the place of a privilege object's kind spanned the
 object's name

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 12c6edb..5b5b323 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2242,10 +2242,10 @@ privilege_object
                     @$
             };
         }
-    | TABLE table_name[n]
+    | TABLE[k] table_name[n]
         {
             $$ = ast::statement::privilege_object {
-                    regioned { ast::statement::privilege_object_kind::table, @$ },
+                    regioned { ast::statement::privilege_object_kind::table, @k },
                     $n,
                     @$
             };
-- 
2.43.0


From 1217ae398c9b0b479ad0eadfa7f0e7ef0e88bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 27/36] fix: the value of a numeric literal had no region

---
 src/mizugaki/parser/sql_parser.yy | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 5b5b323..ef184d3 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4250,7 +4250,7 @@ literal
             $$ = driver.node<ast::literal::numeric>(
                     ast::literal::kind::exact_numeric,
                     std::nullopt,
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | APPROXIMATE_NUMERIC_LITERAL[t]
@@ -4258,7 +4258,7 @@ literal
             $$ = driver.node<ast::literal::numeric>(
                     ast::literal::kind::approximate_numeric,
                     std::nullopt,
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | CHARACTER_STRING_LITERAL[t] concatenations_list_opt[c]
@@ -4341,7 +4341,7 @@ unsigned_integer
              $$ = driver.node<ast::literal::numeric>(
                      ast::literal::kind::exact_numeric,
                      std::nullopt,
-                     $t,
+                     regioned { $t, @t },
                      @$);
          }
      ;
-- 
2.43.0


From 41e4efe676e84cf2ad3a2d65f3adf8b7b240485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 28/36] fix: a set element had no region

---
 src/mizugaki/parser/sql_parser.yy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index ef184d3..9c9dd51 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2038,6 +2038,7 @@ set_clause
             $$ = ast::statement::set_element {
                     $n,
                     $e,
+                    @$,
             };
         }
     ;
-- 
2.43.0


From 0d7046afadff47dd9366281898ab05626471c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 29/36] fix: columns of `*` in a grouped query were not checked
 to be grouping keys

---
 .../details/analyze_query_expression.cpp      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 728ef93..607fe9c 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -197,6 +197,7 @@ public:
         // SELECT ...
         relation_info info;
         optional_ptr<trelation::project> select_columns {};
+        std::vector<std::pair<tdescriptor::variable, ast::node_region>> asterisk_columns {};
         {
             auto&& project = graph_.emplace<trelation::project>(std::vector<trelation::project::column> {});
             project.columns().reserve(std::min(expr.elements().size(), std::size_t { 8 }));
@@ -205,6 +206,7 @@ public:
                         expr.elements().front()->region() | expr.elements().back()->region());
             }
             for (auto&& e : expr.elements()) {
+                auto const offset = info.columns().size();
                 auto select = dispatch(*e, scope, project, info);
                 if (!select.success) {
                     return {};
@@ -212,6 +214,14 @@ public:
                 if (select.saw_aggregate) {
                     set_functions.activate();
                 }
+                if (e->node_kind() == ast::query::select_asterisk::tag) {
+                    std::size_t index = 0;
+                    for (auto&& column : info.columns()) {
+                        if (index++ >= offset) {
+                            asterisk_columns.emplace_back(column.variable(), e->region());
+                        }
+                    }
+                }
             }
             if (!context_.resolve(project)) {
                 return {};
@@ -333,6 +343,15 @@ public:
             }
         }
         if (set_functions.active()) {
+            for (auto&& [variable, region] : asterisk_columns) {
+                if (!set_functions.is_grouping(variable)) {
+                    context_.report(
+                            sql_analyzer_code::invalid_aggregation_column,
+                            "column must be aggregated",
+                            region);
+                    return {};
+                }
+            }
             if (auto project = select_columns) {
                 for (auto&& column : project->columns()) {
                     if (!set_functions.process(column.ownership_value())) {
-- 
2.43.0


From 6340b76e3db90d74fe05763b3c08502e2449e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:05 +0000
Subject: [PATCH 30/36] fix: overload resolution depended on the order in which
 candidates were found

---
 .../details/analyze_scalar_expression.cpp      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index c3d1980..ce47393 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -1544,13 +1544,26 @@ public:
             analyzer_context& context,
             std::vector<std::shared_ptr<TDecl>> const& candidates,
             ast::node_region region) {
+        // find the most specific candidate, independent of the order of candidates
         std::size_t left_idx = 0;
         for (std::size_t right_idx = 1, n = candidates.size(); right_idx < n; ++right_idx) {
             auto const* left = candidates[left_idx].get();
             auto const* right = candidates[right_idx].get();
             auto forward_applicable = is_applicable(left->shared_parameter_types(), right->shared_parameter_types());
             auto reverse_applicable = is_applicable(right->shared_parameter_types(), left->shared_parameter_types());
-            if (forward_applicable == reverse_applicable) {
+            if (reverse_applicable && !forward_applicable) {
+                left_idx = right_idx;
+            }
+        }
+        for (std::size_t right_idx = 0, n = candidates.size(); right_idx < n; ++right_idx) {
+            if (right_idx == left_idx) {
+                continue;
+            }
+            auto const* left = candidates[left_idx].get();
+            auto const* right = candidates[right_idx].get();
+            auto forward_applicable = is_applicable(left->shared_parameter_types(), right->shared_parameter_types());
+            auto reverse_applicable = is_applicable(right->shared_parameter_types(), left->shared_parameter_types());
+            if (!forward_applicable || reverse_applicable) {
                 string_builder builder {};
                 builder << "ambiguous function overload: "
                         << left->name()
@@ -1564,9 +1577,6 @@ public:
                         region);
                 return {};
             }
-            if (reverse_applicable) {
-                left_idx = right_idx;
-            }
         }
         return candidates[left_idx];
     }
-- 
2.43.0


From 8e5a280685a3c00f6d3f73395e67a00253c068b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:05 +0000
Subject: [PATCH 31/36] fix: hidden columns of a table were counted in
 correlation lists and TABLE queries

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 607fe9c..cf2304d 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1878,7 +1878,7 @@ analyze_query_expression_result analyze_query_expression(
         bool system = column.features().contains(::yugawara::storage::column_feature::synthesized);
         bool hidden = column.features().contains(::yugawara::storage::column_feature::hidden);
         // keep the system columns
-        if (system && !include_system_columns) {
+        if ((system || hidden) && !include_system_columns) {
             continue;
         }
         auto variable = escape_columns ?
-- 
2.43.0


From 50bf27044d1ef639b8fcd5d8d8b7a744fa524b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:05 +0000
Subject: [PATCH 32/36] fix: UPDATE accepted a hidden column as its target

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index fed295f..6de324c 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -488,7 +488,7 @@ public:
 
             auto identifier = normalize_identifier(context_, element.target()->last_name(), name_kind::variable);
             auto column = info.find(identifier);
-            if (!column || !column->declaration()) {
+            if (!column || !column->declaration() || !column->exported()) {
                 context_.report(
                         sql_analyzer_code::column_not_found,
                         string_builder {}
-- 
2.43.0


From 701912c2098bf96e33f6b108df6fb2b2b3c5b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:35 +0000
Subject: [PATCH 33/36] fix: approximate numeric literals were read by the
 rules of the current locale

---
 .../analyzer/details/analyze_literal.cpp      | 37 ++++++++-----------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index 48fa568..340a3ff 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -1,6 +1,8 @@
 #include <mizugaki/analyzer/details/analyze_literal.h>
 
+#include <charconv>
 #include <limits>
+#include <system_error>
 
 #include <takatori/datetime/conversion.h>
 
@@ -313,39 +315,32 @@ private:
 
     [[nodiscard]] std::unique_ptr<tscalar::immediate> process_approximate_numeric(ast::literal::numeric const& value) {
         // FIXME: more accurate values for fp
-        std::size_t index {};
+        // NOTE: never use std::stod(), because it depends on the current locale
+        auto&& text = value.unsigned_value().value();
+        auto const* end = text.data() + text.size();
         double result {};
-        try {
-            result = std::stod(*value.unsigned_value(), &index);
-            if (value.sign() == ast::literal::sign::minus) {
-                result = -result;
-            }
-            if (index != value.unsigned_value().value().size()) {
-                context_.report(sql_analyzer_code::invalid_numeric_scale,
-                        string_builder {}
-                                << "invalid numeric value: "
-                                << value.unsigned_value()
-                                << string_builder::to_string,
-                        value.region());
-                return {};
-            }
-        } catch (std::invalid_argument& e) {
-            context_.report(sql_analyzer_code::invalid_numeric_scale,
+        auto [rest, error] = std::from_chars(text.data(), end, result);
+        if (error == std::errc::result_out_of_range) {
+            context_.report(sql_analyzer_code::unsupported_approximate_number,
                     string_builder {}
-                            << "invalid numeric value: "
+                            << "out of range numeric value :"
                             << value.unsigned_value()
                             << string_builder::to_string,
                     value.region());
             return {};
-        } catch (std::out_of_range& e) {
-            context_.report(sql_analyzer_code::unsupported_approximate_number,
+        }
+        if (error != std::errc {} || rest != end) {
+            context_.report(sql_analyzer_code::invalid_numeric_scale,
                     string_builder {}
-                            << "out of range numeric value :"
+                            << "invalid numeric value: "
                             << value.unsigned_value()
                             << string_builder::to_string,
                     value.region());
             return {};
         }
+        if (value.sign() == ast::literal::sign::minus) {
+            result = -result;
+        }
         return context_.create<tscalar::immediate>(
                 value.region(),
                 context_.values().get(tvalue::float8 { result }),
-- 
2.43.0


From 6a257843b99e09942987431925ad8abd114e6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:35 +0000
Subject: [PATCH 34/36] fix: regular identifiers were folded by the rules of
 the current locale

---
 src/mizugaki/analyzer/details/analyze_name.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_name.cpp b/src/mizugaki/analyzer/details/analyze_name.cpp
index f0aaab2..f93600a 100644
--- a/src/mizugaki/analyzer/details/analyze_name.cpp
+++ b/src/mizugaki/analyzer/details/analyze_name.cpp
@@ -340,7 +340,9 @@ public:
         if (name.identifier_kind() == ast::name::identifier_kind::regular && is_lowercase(options, kind)) {
             buffer.resize(id.size());
             for (std::size_t i = 0, n = id.size(); i < n; ++i) {
-                buffer[i] = static_cast<char>(std::tolower(id[i])); // FIXME: using the default locale
+                // NOTE: only ASCII letters are folded, regardless of the current locale
+                auto c = id[i];
+                buffer[i] = ('A' <= c && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c;
             }
             return buffer;
         }
-- 
2.43.0


From 04e6f66fbfd88205bffce7c84e46b2997b9767be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:42 +0000
Subject: [PATCH 35/36] fix: the largest size of a type was taken for a
 flexible one

---
 src/mizugaki/parser/sql_driver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 647fa08..0166b01 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -297,7 +297,8 @@ sql_driver::node_ptr<ast::type::type> sql_driver::try_build_type(node_ptr<ast::s
 std::size_t sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
     errno = 0;
     auto result = std::strtoull(str.data(), nullptr, 10);
-    if (errno == ERANGE) {
+    // NOTE: the maximum value stands for flexible sizes (`*`)
+    if (errno == ERANGE || result == static_cast<std::size_t>(-1)) {
         // FIXME: error
         return 0;
     }
-- 
2.43.0


From 4d8143afaf8599d65436556426d09d9b39d978f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:42 +0000
Subject: [PATCH 36/36] fix: constructors which copy their arguments ended the
 process when memory ran out

---
 include/mizugaki/ast/common/sort_element.h                  | 6 +++---
 include/mizugaki/ast/query/table_reference.h                | 2 +-
 .../mizugaki/ast/scalar/quantified_comparison_predicate.h   | 2 +-
 include/mizugaki/ast/scalar/subquery.h                      | 2 +-
 include/mizugaki/ast/statement/identity_constraint.h        | 2 +-
 include/mizugaki/ast/statement/truncate_table_statement.h   | 2 +-
 include/mizugaki/ast/table/apply.h                          | 2 +-
 src/mizugaki/ast/common/sort_element.cpp                    | 6 +++---
 src/mizugaki/ast/query/table_reference.cpp                  | 2 +-
 src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp | 2 +-
 src/mizugaki/ast/scalar/subquery.cpp                        | 2 +-
 src/mizugaki/ast/statement/identity_constraint.cpp          | 2 +-
 src/mizugaki/ast/statement/truncate_table_statement.cpp     | 2 +-
 src/mizugaki/ast/table/apply.cpp                            | 2 +-
 14 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/mizugaki/ast/common/sort_element.h b/include/mizugaki/ast/common/sort_element.h
index 806e171..657b54f 100644
--- a/include/mizugaki/ast/common/sort_element.h
+++ b/include/mizugaki/ast/common/sort_element.h
@@ -76,7 +76,7 @@ public:
             scalar::expression&& key,
             direction_type direction,
             std::optional<null_location_type> null_location = {},
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
@@ -92,7 +92,7 @@ public:
             ::takatori::util::rvalue_ptr<name::name> collation = {},
             std::optional<direction_type> direction = {},
             std::optional<null_location_type> null_location = {},
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
@@ -106,7 +106,7 @@ public:
             name::name&& key,
             direction_type direction,
             std::optional<null_location_type> null_location = {},
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
diff --git a/include/mizugaki/ast/query/table_reference.h b/include/mizugaki/ast/query/table_reference.h
index a2727ed..e0a2c4a 100644
--- a/include/mizugaki/ast/query/table_reference.h
+++ b/include/mizugaki/ast/query/table_reference.h
@@ -40,7 +40,7 @@ public:
      */
     explicit table_reference(
             name::name&& name,
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
diff --git a/include/mizugaki/ast/scalar/quantified_comparison_predicate.h b/include/mizugaki/ast/scalar/quantified_comparison_predicate.h
index ce1dd3b..ee2cfb9 100644
--- a/include/mizugaki/ast/scalar/quantified_comparison_predicate.h
+++ b/include/mizugaki/ast/scalar/quantified_comparison_predicate.h
@@ -61,7 +61,7 @@ public:
             operator_kind_type operator_kind,
             quantifier_type quantifier,
             query::expression&& right,
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
diff --git a/include/mizugaki/ast/scalar/subquery.h b/include/mizugaki/ast/scalar/subquery.h
index 8c41069..bbc71fc 100644
--- a/include/mizugaki/ast/scalar/subquery.h
+++ b/include/mizugaki/ast/scalar/subquery.h
@@ -46,7 +46,7 @@ public:
     explicit subquery(
             ast::query::expression&& query,
             context_kind_type context_kind = context_kind_type::scalar,
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
diff --git a/include/mizugaki/ast/statement/identity_constraint.h b/include/mizugaki/ast/statement/identity_constraint.h
index 687cbee..c56eb56 100644
--- a/include/mizugaki/ast/statement/identity_constraint.h
+++ b/include/mizugaki/ast/statement/identity_constraint.h
@@ -68,7 +68,7 @@ public:
             ::takatori::util::rvalue_ptr<scalar::expression> min_value = {},
             ::takatori::util::rvalue_ptr<scalar::expression> max_value = {},
             std::optional<bool_type> cycle = {},
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
diff --git a/include/mizugaki/ast/statement/truncate_table_statement.h b/include/mizugaki/ast/statement/truncate_table_statement.h
index bdaf7d9..34feb90 100644
--- a/include/mizugaki/ast/statement/truncate_table_statement.h
+++ b/include/mizugaki/ast/statement/truncate_table_statement.h
@@ -48,7 +48,7 @@ public:
     explicit truncate_table_statement(
             name::name&& name,
             std::optional<identity_column_option_type> identity_column_option = {},
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
diff --git a/include/mizugaki/ast/table/apply.h b/include/mizugaki/ast/table/apply.h
index 29a8e8e..23e3b54 100644
--- a/include/mizugaki/ast/table/apply.h
+++ b/include/mizugaki/ast/table/apply.h
@@ -68,7 +68,7 @@ public:
             common::rvalue_list<scalar::expression> arguments,
             correlation_type correlation,
             std::optional<operator_kind_type> operator_kind = {},
-            region_type region = {}) noexcept;
+            region_type region = {});
 
     /**
      * @brief creates a new instance.
diff --git a/src/mizugaki/ast/common/sort_element.cpp b/src/mizugaki/ast/common/sort_element.cpp
index dd25228..29eacae 100644
--- a/src/mizugaki/ast/common/sort_element.cpp
+++ b/src/mizugaki/ast/common/sort_element.cpp
@@ -42,7 +42,7 @@ sort_element::sort_element(
         scalar::expression&& key,
         direction_type direction,
         std::optional<null_location_type> null_location,
-        region_type region) noexcept :
+        region_type region) :
     sort_element {
             clone_unique(std::move(key)),
             nullptr,
@@ -62,7 +62,7 @@ sort_element::sort_element(
         rvalue_ptr<name::name> collation,
         std::optional<direction_type> direction,
         std::optional<null_location_type> null_location,
-        region_type region) noexcept :
+        region_type region) :
     sort_element {
             to_expr(std::move(key)),
             clone_unique(collation),
@@ -76,7 +76,7 @@ sort_element::sort_element(
         name::name&& key,
         direction_type direction,
         std::optional<null_location_type> null_location,
-        region_type region) noexcept :
+        region_type region) :
     sort_element {
             to_expr(std::move(key)),
             nullptr,
diff --git a/src/mizugaki/ast/query/table_reference.cpp b/src/mizugaki/ast/query/table_reference.cpp
index 7cbad8e..3924ba9 100644
--- a/src/mizugaki/ast/query/table_reference.cpp
+++ b/src/mizugaki/ast/query/table_reference.cpp
@@ -20,7 +20,7 @@ table_reference::table_reference(
 
 table_reference::table_reference(
         name::name&& name,
-        region_type region) noexcept :
+        region_type region) :
     table_reference {
             clone_unique(std::move(name)),
             region,
diff --git a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
index 65f4079..b8afe0c 100644
--- a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
@@ -28,7 +28,7 @@ quantified_comparison_predicate::quantified_comparison_predicate(
         operator_kind_type operator_kind,
         quantifier_type quantifier,
         query::expression&& right,
-        region_type region) noexcept:
+        region_type region) :
     quantified_comparison_predicate {
             clone_unique(std::move(left)),
             operator_kind,
diff --git a/src/mizugaki/ast/scalar/subquery.cpp b/src/mizugaki/ast/scalar/subquery.cpp
index 31a443b..cb75558 100644
--- a/src/mizugaki/ast/scalar/subquery.cpp
+++ b/src/mizugaki/ast/scalar/subquery.cpp
@@ -22,7 +22,7 @@ subquery::subquery(
 subquery::subquery(
         ast::query::expression&& query,
         context_kind_type context_kind,
-        region_type region) noexcept :
+        region_type region) :
     subquery {
             clone_unique(std::move(query)),
             context_kind,
diff --git a/src/mizugaki/ast/statement/identity_constraint.cpp b/src/mizugaki/ast/statement/identity_constraint.cpp
index 1287d20..ea520a4 100644
--- a/src/mizugaki/ast/statement/identity_constraint.cpp
+++ b/src/mizugaki/ast/statement/identity_constraint.cpp
@@ -38,7 +38,7 @@ identity_constraint::identity_constraint(
         rvalue_ptr<scalar::expression> min_value,
         rvalue_ptr<scalar::expression> max_value,
         std::optional<bool_type> cycle,
-        region_type region) noexcept :
+        region_type region) :
     identity_constraint {
             generation,
             clone_unique(initial_value),
diff --git a/src/mizugaki/ast/statement/truncate_table_statement.cpp b/src/mizugaki/ast/statement/truncate_table_statement.cpp
index 445538c..511c1fc 100644
--- a/src/mizugaki/ast/statement/truncate_table_statement.cpp
+++ b/src/mizugaki/ast/statement/truncate_table_statement.cpp
@@ -25,7 +25,7 @@ truncate_table_statement::truncate_table_statement(
 truncate_table_statement::truncate_table_statement(
         name::name&& name,
         std::optional<identity_column_option_type> identity_column_option,
-        region_type region) noexcept :
+        region_type region) :
     truncate_table_statement {
             clone_unique(std::move(name)),
             identity_column_option,
diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index b3ac7dc..7f7049e 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -32,7 +32,7 @@ apply::apply(
         common::rvalue_list<scalar::expression> arguments,
         correlation_type correlation,
         std::optional<operator_kind_type> operator_kind,
-        region_type region) noexcept:
+        region_type region) :
     apply {
             clone_unique(std::move(operand)),
             operator_kind,
-- 
2.43.0

