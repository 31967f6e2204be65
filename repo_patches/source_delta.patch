From 5b99c1d36c3c4a8db2a6a6a9771639eda0e6f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 01/15] fix: compare an AST node equal to itself in operator==

The identity shortcut of about fifty AST equality operators returned false when
both operands are the same object.
---
 src/mizugaki/ast/common/sort_element.cpp                    | 2 +-
 src/mizugaki/ast/common/target_element.cpp                  | 2 +-
 src/mizugaki/ast/query/binary_expression.cpp                | 2 +-
 src/mizugaki/ast/query/corresponding_clause.cpp             | 2 +-
 src/mizugaki/ast/query/group_by_clause.cpp                  | 2 +-
 src/mizugaki/ast/query/grouping_column.cpp                  | 2 +-
 src/mizugaki/ast/query/query.cpp                            | 2 +-
 src/mizugaki/ast/query/select_asterisk.cpp                  | 2 +-
 src/mizugaki/ast/query/select_column.cpp                    | 2 +-
 src/mizugaki/ast/query/table_reference.cpp                  | 2 +-
 src/mizugaki/ast/query/table_value_constructor.cpp          | 2 +-
 src/mizugaki/ast/query/with_element.cpp                     | 2 +-
 src/mizugaki/ast/query/with_expression.cpp                  | 2 +-
 src/mizugaki/ast/scalar/between_predicate.cpp               | 2 +-
 src/mizugaki/ast/scalar/binary_expression.cpp               | 2 +-
 src/mizugaki/ast/scalar/builtin_function_invocation.cpp     | 2 +-
 src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp | 2 +-
 src/mizugaki/ast/scalar/case_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/case_when_clause.cpp                | 2 +-
 src/mizugaki/ast/scalar/cast_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/comparison_predicate.cpp            | 2 +-
 src/mizugaki/ast/scalar/current_of_cursor.cpp               | 2 +-
 src/mizugaki/ast/scalar/extract_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/field_reference.cpp                 | 2 +-
 src/mizugaki/ast/scalar/function_invocation.cpp             | 2 +-
 src/mizugaki/ast/scalar/host_parameter_reference.cpp        | 2 +-
 src/mizugaki/ast/scalar/in_predicate.cpp                    | 2 +-
 src/mizugaki/ast/scalar/literal_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/method_invocation.cpp               | 2 +-
 src/mizugaki/ast/scalar/new_invocation.cpp                  | 2 +-
 src/mizugaki/ast/scalar/pattern_match_predicate.cpp         | 2 +-
 src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp | 2 +-
 src/mizugaki/ast/scalar/static_method_invocation.cpp        | 2 +-
 src/mizugaki/ast/scalar/subquery.cpp                        | 2 +-
 src/mizugaki/ast/scalar/table_predicate.cpp                 | 2 +-
 src/mizugaki/ast/scalar/trim_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/unary_expression.cpp                | 2 +-
 src/mizugaki/ast/scalar/value_constructor.cpp               | 2 +-
 src/mizugaki/ast/scalar/variable_reference.cpp              | 2 +-
 src/mizugaki/ast/statement/column_constraint_definition.cpp | 2 +-
 src/mizugaki/ast/statement/privilege_action.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_object.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_user.cpp               | 2 +-
 src/mizugaki/ast/statement/set_element.cpp                  | 2 +-
 src/mizugaki/ast/statement/storage_parameter.cpp            | 2 +-
 src/mizugaki/ast/table/join_columns.cpp                     | 2 +-
 src/mizugaki/ast/table/join_condition.cpp                   | 2 +-
 src/mizugaki/ast/type/field_definition.cpp                  | 2 +-
 src/mizugaki/ast/type/row.cpp                               | 2 +-
 src/mizugaki/ast/type/user_defined.cpp                      | 2 +-
 50 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/mizugaki/ast/common/sort_element.cpp b/src/mizugaki/ast/common/sort_element.cpp
index 4c4a8fa..dd25228 100644
--- a/src/mizugaki/ast/common/sort_element.cpp
+++ b/src/mizugaki/ast/common/sort_element.cpp
@@ -140,7 +140,7 @@ std::optional<sort_element::null_location_type> const& sort_element::null_locati
 
 bool operator==(sort_element const& a, sort_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.key_, *b.key_)
         && eq(*a.collation_, *b.collation_)
diff --git a/src/mizugaki/ast/common/target_element.cpp b/src/mizugaki/ast/common/target_element.cpp
index 4e78f26..a9e387d 100644
--- a/src/mizugaki/ast/common/target_element.cpp
+++ b/src/mizugaki/ast/common/target_element.cpp
@@ -51,7 +51,7 @@ std::unique_ptr<name::simple> const& target_element::indicator() const noexcept
 
 bool operator==(target_element const& a, target_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.indicator_, *b.indicator_);
diff --git a/src/mizugaki/ast/query/binary_expression.cpp b/src/mizugaki/ast/query/binary_expression.cpp
index bb64049..e99ddec 100644
--- a/src/mizugaki/ast/query/binary_expression.cpp
+++ b/src/mizugaki/ast/query/binary_expression.cpp
@@ -147,7 +147,7 @@ std::optional<binary_expression::corresponding_type> const& binary_expression::c
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/query/corresponding_clause.cpp b/src/mizugaki/ast/query/corresponding_clause.cpp
index b951795..4d733a1 100644
--- a/src/mizugaki/ast/query/corresponding_clause.cpp
+++ b/src/mizugaki/ast/query/corresponding_clause.cpp
@@ -51,7 +51,7 @@ std::vector<std::unique_ptr<name::simple>> const& corresponding_clause::column_n
 
 bool operator==(corresponding_clause const& a, corresponding_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.column_names_, *b.column_names_);
 }
diff --git a/src/mizugaki/ast/query/group_by_clause.cpp b/src/mizugaki/ast/query/group_by_clause.cpp
index 8fba22e..b1f97fc 100644
--- a/src/mizugaki/ast/query/group_by_clause.cpp
+++ b/src/mizugaki/ast/query/group_by_clause.cpp
@@ -50,7 +50,7 @@ std::vector<std::unique_ptr<group_by_clause::element_type>> const& group_by_clau
 
 bool operator==(group_by_clause const& a, group_by_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.elements_, *b.elements_);
 }
diff --git a/src/mizugaki/ast/query/grouping_column.cpp b/src/mizugaki/ast/query/grouping_column.cpp
index 8022dce..d9148ee 100644
--- a/src/mizugaki/ast/query/grouping_column.cpp
+++ b/src/mizugaki/ast/query/grouping_column.cpp
@@ -94,7 +94,7 @@ std::unique_ptr<name::name> const& grouping_column::collation() const noexcept {
 
 bool operator==(grouping_column const& a, grouping_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.column_, b.column_)
             && eq(a.collation_, b.collation_);
diff --git a/src/mizugaki/ast/query/query.cpp b/src/mizugaki/ast/query/query.cpp
index 8a01ca6..2d978b9 100644
--- a/src/mizugaki/ast/query/query.cpp
+++ b/src/mizugaki/ast/query/query.cpp
@@ -186,7 +186,7 @@ std::optional<query::quantifier_type> const& query::quantifier() const noexcept
 
 bool operator==(query const& a, query const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.from_, b.from_)
diff --git a/src/mizugaki/ast/query/select_asterisk.cpp b/src/mizugaki/ast/query/select_asterisk.cpp
index d69e0b3..a5ce134 100644
--- a/src/mizugaki/ast/query/select_asterisk.cpp
+++ b/src/mizugaki/ast/query/select_asterisk.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& select_asterisk::qualifier() const no
 
 bool operator==(select_asterisk const& a, select_asterisk const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.qualifier_, b.qualifier_);
 }
diff --git a/src/mizugaki/ast/query/select_column.cpp b/src/mizugaki/ast/query/select_column.cpp
index 492ef8c..e5a5ca9 100644
--- a/src/mizugaki/ast/query/select_column.cpp
+++ b/src/mizugaki/ast/query/select_column.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::simple> const& select_column::name() const noexcept {
 
 bool operator==(select_column const& a, select_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_)
             && eq(a.name_, b.name_);
diff --git a/src/mizugaki/ast/query/table_reference.cpp b/src/mizugaki/ast/query/table_reference.cpp
index 6046c39..7cbad8e 100644
--- a/src/mizugaki/ast/query/table_reference.cpp
+++ b/src/mizugaki/ast/query/table_reference.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<name::name> const& table_reference::name() const noexcept {
 
 bool operator==(table_reference const& a, table_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/query/table_value_constructor.cpp b/src/mizugaki/ast/query/table_value_constructor.cpp
index 42389fb..d7933db 100644
--- a/src/mizugaki/ast/query/table_value_constructor.cpp
+++ b/src/mizugaki/ast/query/table_value_constructor.cpp
@@ -62,7 +62,7 @@ std::vector<std::unique_ptr<scalar::expression>> const& table_value_constructor:
 
 bool operator==(table_value_constructor const& a, table_value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/query/with_element.cpp b/src/mizugaki/ast/query/with_element.cpp
index 70e8d86..bf1a26a 100644
--- a/src/mizugaki/ast/query/with_element.cpp
+++ b/src/mizugaki/ast/query/with_element.cpp
@@ -92,7 +92,7 @@ std::vector<std::unique_ptr<name::simple>> const& with_element::column_names() c
 
 bool operator==(with_element const& a, with_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.expression_, *b.expression_)
diff --git a/src/mizugaki/ast/query/with_expression.cpp b/src/mizugaki/ast/query/with_expression.cpp
index ac31a18..5aeb7a4 100644
--- a/src/mizugaki/ast/query/with_expression.cpp
+++ b/src/mizugaki/ast/query/with_expression.cpp
@@ -104,7 +104,7 @@ with_expression::bool_type const& with_expression::is_recursive() const noexcept
 
 bool operator==(with_expression const& a, with_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.expression_, b.expression_)
diff --git a/src/mizugaki/ast/scalar/between_predicate.cpp b/src/mizugaki/ast/scalar/between_predicate.cpp
index 9bac591..a53e283 100644
--- a/src/mizugaki/ast/scalar/between_predicate.cpp
+++ b/src/mizugaki/ast/scalar/between_predicate.cpp
@@ -120,7 +120,7 @@ between_predicate::bool_type const& between_predicate::is_not() const noexcept {
 
 bool operator==(between_predicate const& a, between_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.target_, b.target_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/binary_expression.cpp b/src/mizugaki/ast/scalar/binary_expression.cpp
index 55dc4f0..38061f2 100644
--- a/src/mizugaki/ast/scalar/binary_expression.cpp
+++ b/src/mizugaki/ast/scalar/binary_expression.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& binary_expression::right() const noexcept {
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
index c7c34a1..21a19ba 100644
--- a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
@@ -77,7 +77,7 @@ std::vector<expression::operand_type> const& builtin_function_invocation::argume
 
 bool operator==(builtin_function_invocation const& a, builtin_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
index 0af9940..b3ed382 100644
--- a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
@@ -90,7 +90,7 @@ std::vector<expression::operand_type> const& builtin_set_function_invocation::ar
 
 bool operator==(builtin_set_function_invocation const& a, builtin_set_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.quantifier_, b.quantifier_)
diff --git a/src/mizugaki/ast/scalar/case_expression.cpp b/src/mizugaki/ast/scalar/case_expression.cpp
index 0fa33f3..2f87a0f 100644
--- a/src/mizugaki/ast/scalar/case_expression.cpp
+++ b/src/mizugaki/ast/scalar/case_expression.cpp
@@ -107,7 +107,7 @@ expression::operand_type const& case_expression::default_result() const noexcept
 
 bool operator==(case_expression const& a, case_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operand_, b.operand_)
             && eq(a.when_clauses_, b.when_clauses_)
diff --git a/src/mizugaki/ast/scalar/case_when_clause.cpp b/src/mizugaki/ast/scalar/case_when_clause.cpp
index 50fe752..4bc9a5f 100644
--- a/src/mizugaki/ast/scalar/case_when_clause.cpp
+++ b/src/mizugaki/ast/scalar/case_when_clause.cpp
@@ -64,7 +64,7 @@ expression::operand_type const& case_when_clause::result() const noexcept {
 
 bool operator==(case_when_clause const& a, case_when_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.when_, *b.when_)
             && eq(*a.result_, *b.result_);
diff --git a/src/mizugaki/ast/scalar/cast_expression.cpp b/src/mizugaki/ast/scalar/cast_expression.cpp
index cadc5b0..36ec4fb 100644
--- a/src/mizugaki/ast/scalar/cast_expression.cpp
+++ b/src/mizugaki/ast/scalar/cast_expression.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<type::type> const& cast_expression::type() const noexcept {
 
 bool operator==(cast_expression const& a, cast_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_)
diff --git a/src/mizugaki/ast/scalar/comparison_predicate.cpp b/src/mizugaki/ast/scalar/comparison_predicate.cpp
index d86fb0e..6f82526 100644
--- a/src/mizugaki/ast/scalar/comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/comparison_predicate.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& comparison_predicate::right() const noexcept {
 
 bool operator==(comparison_predicate const& a, comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/current_of_cursor.cpp b/src/mizugaki/ast/scalar/current_of_cursor.cpp
index 7121cc1..297081a 100644
--- a/src/mizugaki/ast/scalar/current_of_cursor.cpp
+++ b/src/mizugaki/ast/scalar/current_of_cursor.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& current_of_cursor::name() const noexcept {
 
 bool operator==(current_of_cursor const& a, current_of_cursor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/extract_expression.cpp b/src/mizugaki/ast/scalar/extract_expression.cpp
index 75ee965..9df2687 100644
--- a/src/mizugaki/ast/scalar/extract_expression.cpp
+++ b/src/mizugaki/ast/scalar/extract_expression.cpp
@@ -114,7 +114,7 @@ expression::operand_type const& extract_expression::operand() const noexcept {
 
 bool operator==(extract_expression const& a, extract_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.field_, b.field_)
         && eq(a.subsecond_digits_, b.subsecond_digits_)
diff --git a/src/mizugaki/ast/scalar/field_reference.cpp b/src/mizugaki/ast/scalar/field_reference.cpp
index 44ec9a4..ae7e42f 100644
--- a/src/mizugaki/ast/scalar/field_reference.cpp
+++ b/src/mizugaki/ast/scalar/field_reference.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<name::simple> const& field_reference::name() const noexcept {
 
 bool operator==(field_reference const& a, field_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/function_invocation.cpp b/src/mizugaki/ast/scalar/function_invocation.cpp
index 0a244cc..d4ba50c 100644
--- a/src/mizugaki/ast/scalar/function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/function_invocation.cpp
@@ -80,7 +80,7 @@ std::vector<expression::operand_type> const& function_invocation::arguments() co
 
 bool operator==(function_invocation const& a, function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/host_parameter_reference.cpp b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
index 98cd768..0fa7e67 100644
--- a/src/mizugaki/ast/scalar/host_parameter_reference.cpp
+++ b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::simple> const& host_parameter_reference::name() const noex
 
 bool operator==(host_parameter_reference const& a, host_parameter_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/in_predicate.cpp b/src/mizugaki/ast/scalar/in_predicate.cpp
index 3c83697..4eea60f 100644
--- a/src/mizugaki/ast/scalar/in_predicate.cpp
+++ b/src/mizugaki/ast/scalar/in_predicate.cpp
@@ -90,7 +90,7 @@ in_predicate::bool_type const& in_predicate::is_not() const noexcept {
 
 bool operator==(in_predicate const& a, in_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.left_, b.left_)
             && eq(a.right_, b.right_)
diff --git a/src/mizugaki/ast/scalar/literal_expression.cpp b/src/mizugaki/ast/scalar/literal_expression.cpp
index af83788..60668b9 100644
--- a/src/mizugaki/ast/scalar/literal_expression.cpp
+++ b/src/mizugaki/ast/scalar/literal_expression.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<literal::literal> const& literal_expression::value() const noexc
 
 bool operator==(literal_expression const& a, literal_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_);
 }
diff --git a/src/mizugaki/ast/scalar/method_invocation.cpp b/src/mizugaki/ast/scalar/method_invocation.cpp
index 60203bd..3bc6eb9 100644
--- a/src/mizugaki/ast/scalar/method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/method_invocation.cpp
@@ -107,7 +107,7 @@ std::vector<expression::operand_type> const& method_invocation::arguments() cons
 
 bool operator==(method_invocation const& a, method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/new_invocation.cpp b/src/mizugaki/ast/scalar/new_invocation.cpp
index 951c379..36c12d6 100644
--- a/src/mizugaki/ast/scalar/new_invocation.cpp
+++ b/src/mizugaki/ast/scalar/new_invocation.cpp
@@ -79,7 +79,7 @@ std::vector<expression::operand_type> const& new_invocation::arguments() const n
 
 bool operator==(new_invocation const& a, new_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
index cf475c3..10d88b0 100644
--- a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
+++ b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
@@ -119,7 +119,7 @@ pattern_match_predicate::bool_type const& pattern_match_predicate::is_not() cons
 
 bool operator==(pattern_match_predicate const& a, pattern_match_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.match_value_, b.match_value_)
diff --git a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
index 07dc504..65f4079 100644
--- a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
@@ -104,7 +104,7 @@ std::unique_ptr<query::expression> const& quantified_comparison_predicate::right
 
 bool operator==(quantified_comparison_predicate const& a, quantified_comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/static_method_invocation.cpp b/src/mizugaki/ast/scalar/static_method_invocation.cpp
index 88a89ac..3533f2b 100644
--- a/src/mizugaki/ast/scalar/static_method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/static_method_invocation.cpp
@@ -93,7 +93,7 @@ std::vector<expression::operand_type> const& static_method_invocation::arguments
 
 bool operator==(static_method_invocation const& a, static_method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.name_, b.name_)
diff --git a/src/mizugaki/ast/scalar/subquery.cpp b/src/mizugaki/ast/scalar/subquery.cpp
index 7b17d24..31a443b 100644
--- a/src/mizugaki/ast/scalar/subquery.cpp
+++ b/src/mizugaki/ast/scalar/subquery.cpp
@@ -76,7 +76,7 @@ subquery::context_kind_type const& subquery::context_kind() const noexcept {
 
 bool operator==(subquery const& a, subquery const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.query_, b.query_) && a.context_kind_ == b.context_kind_;
 }
diff --git a/src/mizugaki/ast/scalar/table_predicate.cpp b/src/mizugaki/ast/scalar/table_predicate.cpp
index 02a3348..ab6c8f1 100644
--- a/src/mizugaki/ast/scalar/table_predicate.cpp
+++ b/src/mizugaki/ast/scalar/table_predicate.cpp
@@ -76,7 +76,7 @@ std::unique_ptr<query::expression> const& table_predicate::operand() const noexc
 
 bool operator==(table_predicate const& a, table_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/trim_expression.cpp b/src/mizugaki/ast/scalar/trim_expression.cpp
index f953adb..beda913 100644
--- a/src/mizugaki/ast/scalar/trim_expression.cpp
+++ b/src/mizugaki/ast/scalar/trim_expression.cpp
@@ -91,7 +91,7 @@ expression::operand_type const& trim_expression::source() const noexcept {
 
 bool operator==(trim_expression const& a, trim_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.specification_, b.specification_)
             && eq(a.character_, b.character_)
diff --git a/src/mizugaki/ast/scalar/unary_expression.cpp b/src/mizugaki/ast/scalar/unary_expression.cpp
index 79ffe1d..b0ffd6b 100644
--- a/src/mizugaki/ast/scalar/unary_expression.cpp
+++ b/src/mizugaki/ast/scalar/unary_expression.cpp
@@ -76,7 +76,7 @@ expression::operand_type const& unary_expression::operand() const noexcept {
 
 bool operator==(unary_expression const& a, unary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/value_constructor.cpp b/src/mizugaki/ast/scalar/value_constructor.cpp
index 240dde1..b747232 100644
--- a/src/mizugaki/ast/scalar/value_constructor.cpp
+++ b/src/mizugaki/ast/scalar/value_constructor.cpp
@@ -86,7 +86,7 @@ std::vector<expression::operand_type> const& value_constructor::elements() const
 
 bool operator==(value_constructor const& a, value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.elements_, b.elements_);
diff --git a/src/mizugaki/ast/scalar/variable_reference.cpp b/src/mizugaki/ast/scalar/variable_reference.cpp
index 6bac267..c2d715b 100644
--- a/src/mizugaki/ast/scalar/variable_reference.cpp
+++ b/src/mizugaki/ast/scalar/variable_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& variable_reference::name() const noexcept {
 
 bool operator==(variable_reference const& a, variable_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/statement/column_constraint_definition.cpp b/src/mizugaki/ast/statement/column_constraint_definition.cpp
index af808c1..5893394 100644
--- a/src/mizugaki/ast/statement/column_constraint_definition.cpp
+++ b/src/mizugaki/ast/statement/column_constraint_definition.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<constraint> const& column_constraint_definition::body() const no
 
 bool operator==(column_constraint_definition const& a, column_constraint_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.body_, *b.body_);
diff --git a/src/mizugaki/ast/statement/privilege_action.cpp b/src/mizugaki/ast/statement/privilege_action.cpp
index fd0bfd5..38aecb4 100644
--- a/src/mizugaki/ast/statement/privilege_action.cpp
+++ b/src/mizugaki/ast/statement/privilege_action.cpp
@@ -40,7 +40,7 @@ privilege_action::action_kind_type const& privilege_action::action_kind() const
 
 bool operator==(privilege_action const& a, privilege_action const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.action_kind_, *b.action_kind_);
 }
diff --git a/src/mizugaki/ast/statement/privilege_object.cpp b/src/mizugaki/ast/statement/privilege_object.cpp
index 9bcaeb6..53bd8fb 100644
--- a/src/mizugaki/ast/statement/privilege_object.cpp
+++ b/src/mizugaki/ast/statement/privilege_object.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::name> const& privilege_object::object_name() const noexcep
 
 bool operator==(privilege_object const& a, privilege_object const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.object_kind_, b.object_kind_)
             && eq(*a.object_name_, *b.object_name_);
diff --git a/src/mizugaki/ast/statement/privilege_user.cpp b/src/mizugaki/ast/statement/privilege_user.cpp
index 457afcc..6ad3b76 100644
--- a/src/mizugaki/ast/statement/privilege_user.cpp
+++ b/src/mizugaki/ast/statement/privilege_user.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::simple> const& privilege_user::authorization_identifier()
 
 bool operator==(privilege_user const& a, privilege_user const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     if (!eq(a.user_kind_, b.user_kind_)) {
         return false;
diff --git a/src/mizugaki/ast/statement/set_element.cpp b/src/mizugaki/ast/statement/set_element.cpp
index 2c6bea2..291f46a 100644
--- a/src/mizugaki/ast/statement/set_element.cpp
+++ b/src/mizugaki/ast/statement/set_element.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& set_element::value() const noexcept {
 
 bool operator==(set_element const& a, set_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/statement/storage_parameter.cpp b/src/mizugaki/ast/statement/storage_parameter.cpp
index 78c03aa..6daef82 100644
--- a/src/mizugaki/ast/statement/storage_parameter.cpp
+++ b/src/mizugaki/ast/statement/storage_parameter.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<scalar::expression> const& storage_parameter::value() const noex
 
 bool operator==(storage_parameter const& a, storage_parameter const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/table/join_columns.cpp b/src/mizugaki/ast/table/join_columns.cpp
index 83841ee..c10cc28 100644
--- a/src/mizugaki/ast/table/join_columns.cpp
+++ b/src/mizugaki/ast/table/join_columns.cpp
@@ -64,7 +64,7 @@ std::vector<std::unique_ptr<name::simple>> const& join_columns::columns() const
 
 bool operator==(join_columns const& a, join_columns const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.columns_, b.columns_);
 }
diff --git a/src/mizugaki/ast/table/join_condition.cpp b/src/mizugaki/ast/table/join_condition.cpp
index 8f508b6..883289f 100644
--- a/src/mizugaki/ast/table/join_condition.cpp
+++ b/src/mizugaki/ast/table/join_condition.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& join_condition::expression() const no
 
 bool operator==(join_condition const& a, join_condition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.expression_, b.expression_);
 }
diff --git a/src/mizugaki/ast/type/field_definition.cpp b/src/mizugaki/ast/type/field_definition.cpp
index 30cbd05..01a7b4c 100644
--- a/src/mizugaki/ast/type/field_definition.cpp
+++ b/src/mizugaki/ast/type/field_definition.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::name> const& field_definition::collation() const noexcept
 
 bool operator==(field_definition const& a, field_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
         && eq(*a.type_, *b.type_)
diff --git a/src/mizugaki/ast/type/row.cpp b/src/mizugaki/ast/type/row.cpp
index d29acd2..0e09e59 100644
--- a/src/mizugaki/ast/type/row.cpp
+++ b/src/mizugaki/ast/type/row.cpp
@@ -61,7 +61,7 @@ std::vector<field_definition> const& row::elements() const noexcept {
 
 bool operator==(row const& a, row const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/type/user_defined.cpp b/src/mizugaki/ast/type/user_defined.cpp
index 00dcd97..10ea1e0 100644
--- a/src/mizugaki/ast/type/user_defined.cpp
+++ b/src/mizugaki/ast/type/user_defined.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& user_defined::name() const noexcept {
 
 bool operator==(user_defined const& a, user_defined const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
-- 
2.43.0


From 9f56cbdd5262879418c2669e113af7b76c395777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 02/15] fix: compare the operand in table::apply equality

---
 src/mizugaki/ast/table/apply.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index 3c644a6..df1816c 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -137,7 +137,8 @@ bool operator==(apply const& a, apply const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
         return true;
     }
-    return eq(a.operator_kind_, b.operator_kind_)
+    return eq(a.operand_, b.operand_)
+            && eq(a.operator_kind_, b.operator_kind_)
             && eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_)
             && eq(a.correlation_, b.correlation_);
-- 
2.43.0


From 3259591a111527fab7c81f31d74e967d12bfc729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 03/15] fix: compare is_only of both operands in
 table_reference equality

---
 src/mizugaki/ast/table/table_reference.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/table_reference.cpp b/src/mizugaki/ast/table/table_reference.cpp
index 10aa4f6..4e75d83 100644
--- a/src/mizugaki/ast/table/table_reference.cpp
+++ b/src/mizugaki/ast/table/table_reference.cpp
@@ -97,7 +97,7 @@ bool operator==(table_reference const& a, table_reference const& b) noexcept {
     }
     return eq(a.name_, b.name_)
             && eq(a.correlation_, b.correlation_)
-            && eq(a.is_only_, a.is_only_);
+            && eq(a.is_only_, b.is_only_);
 }
 
 bool operator!=(table_reference const& a, table_reference const& b) noexcept {
-- 
2.43.0


From f2e0e3e32a4d07f818a84b39a6bc009d8db9003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 04/15] fix: return *this from the copy assignment of
 clone_wrapper for vectors

---
 include/mizugaki/ast/common/clone_wrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mizugaki/ast/common/clone_wrapper.h b/include/mizugaki/ast/common/clone_wrapper.h
index d3a4611..a34421f 100644
--- a/include/mizugaki/ast/common/clone_wrapper.h
+++ b/include/mizugaki/ast/common/clone_wrapper.h
@@ -146,6 +146,7 @@ public:
      */
     clone_wrapper& operator=(clone_wrapper const& other) {
         element_ = other.clone();
+        return *this;
     }
 
     /**
-- 
2.43.0


From 7d44a5b7d0adc2c5c3c6050df4bc8959e5e160c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 05/15] fix: scan BIT_AND and BIT_OR as their own tokens

---
 src/mizugaki/parser/sql_scanner.ll | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_scanner.ll b/src/mizugaki/parser/sql_scanner.ll
index b8cdba6..5538327 100644
--- a/src/mizugaki/parser/sql_scanner.ll
+++ b/src/mizugaki/parser/sql_scanner.ll
@@ -453,8 +453,8 @@ UTF8_CHAR {ASCII}|{UTF8_2}{U}|{UTF8_3}{U}{U}|{UTF8_4}{U}{U}{U}
 "PLACING" { TRACE_RETURN parser_type::make_PLACING(location()); }
 "TINYINT" { TRACE_RETURN parser_type::make_TINYINT(location()); }
 "BIGINT" { TRACE_RETURN parser_type::make_BIGINT(location()); }
-"BIT_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
-"BIT_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
+"BIT_AND" { TRACE_RETURN parser_type::make_BIT_AND(location()); }
+"BIT_OR" { TRACE_RETURN parser_type::make_BIT_OR(location()); }
 "BOOL_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
 "BOOL_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
 
-- 
2.43.0


From a3f7a626b65fc9238b240d48fdb3ee6d98294896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 06/15] fix: set is_only for ONLY (table) references

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 1052152..747cdb5 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2970,10 +2970,10 @@ table_primary
                     $c,
                     @$);
         }
-    | ONLY "(" table_name[n] ")" correlation_clause_opt[c]
+    | ONLY[q] "(" table_name[n] ")" correlation_clause_opt[c]
         {
             $$ = driver.node<ast::table::table_reference>(
-                    regioned { false },
+                    regioned { true, @q },
                     $n,
                     $c,
                     @$);
-- 
2.43.0


From 82c75b458097d813840244c3c477512171c20e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 07/15] fix: keep the region when cloning
 truncate_table_statement

---
 src/mizugaki/ast/statement/truncate_table_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/ast/statement/truncate_table_statement.cpp b/src/mizugaki/ast/statement/truncate_table_statement.cpp
index b64e990..445538c 100644
--- a/src/mizugaki/ast/statement/truncate_table_statement.cpp
+++ b/src/mizugaki/ast/statement/truncate_table_statement.cpp
@@ -37,6 +37,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             clone_unique(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
@@ -44,6 +45,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             std::move(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
-- 
2.43.0


From d8b038fefd0972f4aad9d79483ec0e3860d1a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 08/15] fix: serialize the operand of table::apply

---
 src/mizugaki/ast/table/apply.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index df1816c..64c1394 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -126,6 +126,7 @@ void apply::serialize(takatori::serializer::object_acceptor& acceptor) const {
     using namespace common::serializers;
     using namespace std::string_view_literals;
     auto obj = struct_block(acceptor, *this);
+    property(acceptor, "operand"sv, operand_);
     property(acceptor, "operator_kind"sv, operator_kind_);
     property(acceptor, "name"sv, name_);
     property(acceptor, "arguments"sv, arguments_);
-- 
2.43.0


From 7cc11a140f65a4f7a0275beb354e0115cf36cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 09/15] fix: set the region of update set clauses

---
 src/mizugaki/parser/sql_parser.yy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 747cdb5..5a2371f 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2038,6 +2038,7 @@ set_clause
             $$ = ast::statement::set_element {
                     $n,
                     $e,
+                    @$,
             };
         }
     ;
-- 
2.43.0


From 0f58ff55e81732b34c8b047a27bb82270c616604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 10/15] fix: limit the region of the privilege object kind to
 its keyword

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 5a2371f..d76d71d 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2243,10 +2243,10 @@ privilege_object
                     @$
             };
         }
-    | TABLE table_name[n]
+    | TABLE[k] table_name[n]
         {
             $$ = ast::statement::privilege_object {
-                    regioned { ast::statement::privilege_object_kind::table, @$ },
+                    regioned { ast::statement::privilege_object_kind::table, @k },
                     $n,
                     @$
             };
-- 
2.43.0


From 7c23f91c49c91da2e814e6e227e5e4583611cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 11/15] fix: keep the region of the date literal value

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index d76d71d..be6fa84 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4282,7 +4282,7 @@ literal
         {
             $$ = driver.node<ast::literal::datetime>(
                     regioned { ast::literal::kind::date, @k },
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | TIME[k] with_or_without_time_zone_opt[z] CHARACTER_STRING_LITERAL[t]
-- 
2.43.0


From 1d5a4722e2a1866cb1be5e4b056716e530f58cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 12/15] fix: reject an argument list that starts with a comma

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index be6fa84..b982b9e 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4183,7 +4183,7 @@ sql_argument_list_opt
     ;
 
 sql_argument_list
-    : sql_argument_list_opt[L] ","[s] sql_argument[e]
+    : sql_argument_list[L] ","[s] sql_argument[e]
         {
             $$ = $L;
             $$.emplace_back($e);
-- 
2.43.0


From 77aa3a854ce94b227be56207dd4f493d31d979a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 13/15] fix: report a size that is out of range instead of
 using zero

---
 src/mizugaki/parser/sql_driver.cpp |  5 ++---
 src/mizugaki/parser/sql_driver.h   |  4 +++-
 src/mizugaki/parser/sql_parser.yy  | 10 +++++++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 647fa08..02804c4 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -294,12 +294,11 @@ sql_driver::node_ptr<ast::type::type> sql_driver::try_build_type(node_ptr<ast::s
     return {};
 }
 
-std::size_t sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
+std::optional<std::size_t> sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
     errno = 0;
     auto result = std::strtoull(str.data(), nullptr, 10);
     if (errno == ERANGE) {
-        // FIXME: error
-        return 0;
+        return std::nullopt;
     }
     return result;
 }
diff --git a/src/mizugaki/parser/sql_driver.h b/src/mizugaki/parser/sql_driver.h
index b9bac13..366e777 100644
--- a/src/mizugaki/parser/sql_driver.h
+++ b/src/mizugaki/parser/sql_driver.h
@@ -2,6 +2,8 @@
 
 #include <cstddef>
 
+#include <optional>
+
 #include <mizugaki/ast/common/vector.h>
 #include <mizugaki/ast/name/name.h>
 #include <mizugaki/ast/name/simple.h>
@@ -94,7 +96,7 @@ public:
         return result;
     }
 
-    [[nodiscard]] std::size_t to_size(ast::common::chars const& str);
+    [[nodiscard]] std::optional<std::size_t> to_size(ast::common::chars const& str);
 
     [[nodiscard]] bool check_regular_identifier(ast::common::chars const& str);
 
diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index b982b9e..e538054 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4669,7 +4669,15 @@ size_maybe_flexible
 size
     : UNSIGNED_INTEGER[t]
         {
-            $$ = { driver.to_size($t), @t };
+             auto size = driver.to_size($t);
+            if (!size) {
+                driver.error(
+                        sql_parser_code::invalid_token,
+                        @t,
+                        "size is out of range");
+                YYABORT;
+            }
+            $$ = { *size, @t };
         }
     ;
 
-- 
2.43.0


From 35fe7d4b9fd5b47bb6f01e1275a5ba4d7982ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 14/15] fix: sql_tree_validator skipped the alias of
 UPDATE/DELETE, the operand of APPLY and the name of a function invocation

---
 src/mizugaki/parser/sql_tree_validator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index c60d4ff..77ba579 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -273,6 +273,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::update_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         for (auto&& clause : element.elements()) { // NOLINT(*-use-anyofallof)
             ACCEPT(clause.target());
             ACCEPT(clause.value());
@@ -283,6 +284,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::delete_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         ACCEPT(element.where());
         return true;
     }
@@ -548,6 +550,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::table::apply const& element, std::size_t depth) {
+        ACCEPT(element.operand());
         ACCEPT(element.name());
         ACCEPT(element.arguments());
         ACCEPT(element.correlation().correlation_name());
@@ -672,6 +675,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::scalar::function_invocation const& element, std::size_t depth) {
+        ACCEPT(element.name());
         ACCEPT(element.arguments()); // NOLINT(*-simplify-boolean-expr)
         return true;
     }
-- 
2.43.0


From 249fab1a6ed305413e616604a67e22faa4408464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 15/15] fix: do not report a stray byte above 0x7f as a control
 character

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index e538054..320e9cc 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -183,7 +183,7 @@
 
         // check erroneous token kind
         if (symbol == kind::S_ERROR) {
-            if (image.size() == 1 && image[0] < static_cast<char>(0x20)) {
+            if (image.size() == 1 && static_cast<unsigned char>(image[0]) < 0x20U) {
                 auto c = static_cast<unsigned int>(image[0]);
                 driver.error(
                         sql_parser_code::invalid_character,
-- 
2.43.0

