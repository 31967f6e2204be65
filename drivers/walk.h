// generated by tool/mkwalk.py: positions of values inside nodes, through the public accessors
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <typeindex>
#include <vector>
#include <mizugaki/ast/common/sort_element.h>
#include <mizugaki/ast/common/target_element.h>
#include <mizugaki/ast/element.h>
#include <mizugaki/ast/literal/boolean.h>
#include <mizugaki/ast/literal/datetime.h>
#include <mizugaki/ast/literal/interval.h>
#include <mizugaki/ast/literal/literal.h>
#include <mizugaki/ast/literal/numeric.h>
#include <mizugaki/ast/literal/special.h>
#include <mizugaki/ast/literal/string.h>
#include <mizugaki/ast/name/name.h>
#include <mizugaki/ast/name/qualified.h>
#include <mizugaki/ast/name/simple.h>
#include <mizugaki/ast/node.h>
#include <mizugaki/ast/query/binary_expression.h>
#include <mizugaki/ast/query/corresponding_clause.h>
#include <mizugaki/ast/query/expression.h>
#include <mizugaki/ast/query/group_by_clause.h>
#include <mizugaki/ast/query/grouping_column.h>
#include <mizugaki/ast/query/grouping_element.h>
#include <mizugaki/ast/query/query.h>
#include <mizugaki/ast/query/select_asterisk.h>
#include <mizugaki/ast/query/select_column.h>
#include <mizugaki/ast/query/select_element.h>
#include <mizugaki/ast/query/table_reference.h>
#include <mizugaki/ast/query/table_value_constructor.h>
#include <mizugaki/ast/query/with_element.h>
#include <mizugaki/ast/query/with_expression.h>
#include <mizugaki/ast/scalar/between_predicate.h>
#include <mizugaki/ast/scalar/binary_expression.h>
#include <mizugaki/ast/scalar/builtin_function_invocation.h>
#include <mizugaki/ast/scalar/builtin_set_function_invocation.h>
#include <mizugaki/ast/scalar/case_expression.h>
#include <mizugaki/ast/scalar/case_when_clause.h>
#include <mizugaki/ast/scalar/cast_expression.h>
#include <mizugaki/ast/scalar/comparison_predicate.h>
#include <mizugaki/ast/scalar/current_of_cursor.h>
#include <mizugaki/ast/scalar/expression.h>
#include <mizugaki/ast/scalar/extract_expression.h>
#include <mizugaki/ast/scalar/field_reference.h>
#include <mizugaki/ast/scalar/function_invocation.h>
#include <mizugaki/ast/scalar/host_parameter_reference.h>
#include <mizugaki/ast/scalar/in_predicate.h>
#include <mizugaki/ast/scalar/literal_expression.h>
#include <mizugaki/ast/scalar/method_invocation.h>
#include <mizugaki/ast/scalar/new_invocation.h>
#include <mizugaki/ast/scalar/pattern_match_predicate.h>
#include <mizugaki/ast/scalar/placeholder_reference.h>
#include <mizugaki/ast/scalar/quantified_comparison_predicate.h>
#include <mizugaki/ast/scalar/static_method_invocation.h>
#include <mizugaki/ast/scalar/subquery.h>
#include <mizugaki/ast/scalar/table_predicate.h>
#include <mizugaki/ast/scalar/trim_expression.h>
#include <mizugaki/ast/scalar/unary_expression.h>
#include <mizugaki/ast/scalar/value_constructor.h>
#include <mizugaki/ast/scalar/variable_reference.h>
#include <mizugaki/ast/statement/alter_index_action.h>
#include <mizugaki/ast/statement/alter_index_statement.h>
#include <mizugaki/ast/statement/alter_table_action.h>
#include <mizugaki/ast/statement/alter_table_statement.h>
#include <mizugaki/ast/statement/column_constraint_definition.h>
#include <mizugaki/ast/statement/column_definition.h>
#include <mizugaki/ast/statement/constraint.h>
#include <mizugaki/ast/statement/delete_statement.h>
#include <mizugaki/ast/statement/drop_statement.h>
#include <mizugaki/ast/statement/empty_statement.h>
#include <mizugaki/ast/statement/expression_constraint.h>
#include <mizugaki/ast/statement/grant_privilege_statement.h>
#include <mizugaki/ast/statement/identity_constraint.h>
#include <mizugaki/ast/statement/index_definition.h>
#include <mizugaki/ast/statement/insert_statement.h>
#include <mizugaki/ast/statement/key_constraint.h>
#include <mizugaki/ast/statement/privilege_action.h>
#include <mizugaki/ast/statement/privilege_object.h>
#include <mizugaki/ast/statement/privilege_user.h>
#include <mizugaki/ast/statement/referential_constraint.h>
#include <mizugaki/ast/statement/rename_column_action.h>
#include <mizugaki/ast/statement/rename_index_action.h>
#include <mizugaki/ast/statement/rename_table_action.h>
#include <mizugaki/ast/statement/revoke_privilege_statement.h>
#include <mizugaki/ast/statement/schema_definition.h>
#include <mizugaki/ast/statement/select_statement.h>
#include <mizugaki/ast/statement/sequence_definition.h>
#include <mizugaki/ast/statement/set_element.h>
#include <mizugaki/ast/statement/simple_constraint.h>
#include <mizugaki/ast/statement/statement.h>
#include <mizugaki/ast/statement/storage_parameter.h>
#include <mizugaki/ast/statement/table_constraint_definition.h>
#include <mizugaki/ast/statement/table_definition.h>
#include <mizugaki/ast/statement/table_element.h>
#include <mizugaki/ast/statement/truncate_table_statement.h>
#include <mizugaki/ast/statement/update_statement.h>
#include <mizugaki/ast/statement/view_definition.h>
#include <mizugaki/ast/table/apply.h>
#include <mizugaki/ast/table/correlation_clause.h>
#include <mizugaki/ast/table/expression.h>
#include <mizugaki/ast/table/join.h>
#include <mizugaki/ast/table/join_columns.h>
#include <mizugaki/ast/table/join_condition.h>
#include <mizugaki/ast/table/join_specification.h>
#include <mizugaki/ast/table/subquery.h>
#include <mizugaki/ast/table/table_reference.h>
#include <mizugaki/ast/table/unnest.h>
#include <mizugaki/ast/type/binary_numeric.h>
#include <mizugaki/ast/type/bit_string.h>
#include <mizugaki/ast/type/character_string.h>
#include <mizugaki/ast/type/collection.h>
#include <mizugaki/ast/type/datetime.h>
#include <mizugaki/ast/type/decimal.h>
#include <mizugaki/ast/type/field_definition.h>
#include <mizugaki/ast/type/interval.h>
#include <mizugaki/ast/type/octet_string.h>
#include <mizugaki/ast/type/row.h>
#include <mizugaki/ast/type/simple.h>
#include <mizugaki/ast/type/type.h>
#include <mizugaki/ast/type/user_defined.h>
namespace walk {
using namespace mizugaki;
inline std::string out;
template<class T, class = void> struct W { static void go(T const&) {} };
template<class T> void go(T const& x) { W<T>::go(x); }
template<class T> void at(char const* n, T const& x) { auto k = out.size(); out += n; out += '{'; auto m = out.size(); go(x); if (out.size() == m) out.resize(k); else out += '}'; }
template<class T> struct W<ast::common::regioned<T>> { static void go(ast::common::regioned<T> const& x) { auto&& r = x.region(); out += std::to_string(r.begin) + "-" + std::to_string(r.end) + ";"; } };
template<class T> struct W<std::optional<T>> { static void go(std::optional<T> const& x) { if (x) walk::go(*x); } };
template<class T, class D> struct W<std::unique_ptr<T, D>> { static void go(std::unique_ptr<T, D> const& x) { if (x) walk::go(*x); } };
template<class T, class A> struct W<std::vector<T, A>> { static void go(std::vector<T, A> const& x) { int n = 0; for (auto&& e : x) at(std::to_string(n++).c_str(), e); } };
template<class T> void members(T const&);
using F = std::function<void (ast::node const&)>;
std::map<std::type_index, F> const& classes();
template<class T> struct W<T, std::enable_if_t<std::is_base_of_v<ast::node, T>>> { static void go(T const& x) { auto i = classes().find(typeid(x)); if (i == classes().end()) out += "?"; else i->second(x); } };
template<class T> struct W<T, std::enable_if_t<std::is_base_of_v<ast::element, T> && !std::is_base_of_v<ast::node, T>>> { static void go(T const& x) { members(x); } };
template<> inline void members(mizugaki::ast::common::sort_element const& x) { (void) x; at("collation", x.collation()); at("direction", x.direction()); at("key", x.key()); at("null_location", x.null_location()); }
template<> inline void members(mizugaki::ast::common::target_element const& x) { (void) x; at("indicator", x.indicator()); at("target", x.target()); }
template<> inline void members(mizugaki::ast::element const& x) { (void) x; }
template<> inline void members(mizugaki::ast::literal::boolean const& x) { (void) x; }
template<> inline void members(mizugaki::ast::literal::datetime const& x) { (void) x; at("value", x.value()); at("value_kind", x.value_kind()); }
template<> inline void members(mizugaki::ast::literal::interval const& x) { (void) x; at("sign", x.sign()); at("value", x.value()); }
template<> inline void members(mizugaki::ast::literal::literal const& x) { (void) x; }
template<> inline void members(mizugaki::ast::literal::numeric const& x) { (void) x; at("sign", x.sign()); at("unsigned_value", x.unsigned_value()); }
template<> inline void members(mizugaki::ast::literal::special<mizugaki::ast::literal::kind::default_> const& x) { (void) x; }
template<> inline void members(mizugaki::ast::literal::special<mizugaki::ast::literal::kind::empty> const& x) { (void) x; }
template<> inline void members(mizugaki::ast::literal::special<mizugaki::ast::literal::kind::null> const& x) { (void) x; }
template<> inline void members(mizugaki::ast::literal::string const& x) { (void) x; at("concatenations", x.concatenations()); at("value", x.value()); at("value_kind", x.value_kind()); }
template<> inline void members(mizugaki::ast::name::name const& x) { (void) x; }
template<> inline void members(mizugaki::ast::name::qualified const& x) { (void) x; at("last", x.last()); at("qualifier", x.qualifier()); }
template<> inline void members(mizugaki::ast::name::simple const& x) { (void) x; }
template<> inline void members(mizugaki::ast::node const& x) { (void) x; }
template<> inline void members(mizugaki::ast::query::binary_expression const& x) { (void) x; at("corresponding", x.corresponding()); at("left", x.left()); at("quantifier", x.quantifier()); at("right", x.right()); }
template<> inline void members(mizugaki::ast::query::corresponding_clause const& x) { (void) x; at("column_names", x.column_names()); }
template<> inline void members(mizugaki::ast::query::expression const& x) { (void) x; }
template<> inline void members(mizugaki::ast::query::group_by_clause const& x) { (void) x; at("elements", x.elements()); }
template<> inline void members(mizugaki::ast::query::grouping_column const& x) { (void) x; at("collation", x.collation()); at("column", x.column()); }
template<> inline void members(mizugaki::ast::query::grouping_element const& x) { (void) x; }
template<> inline void members(mizugaki::ast::query::query const& x) { (void) x; at("elements", x.elements()); at("from", x.from()); at("group_by", x.group_by()); at("having", x.having()); at("limit", x.limit()); at("order_by", x.order_by()); at("quantifier", x.quantifier()); at("where", x.where()); }
template<> inline void members(mizugaki::ast::query::select_asterisk const& x) { (void) x; at("qualifier", x.qualifier()); }
template<> inline void members(mizugaki::ast::query::select_column const& x) { (void) x; at("name", x.name()); at("value", x.value()); }
template<> inline void members(mizugaki::ast::query::select_element const& x) { (void) x; }
template<> inline void members(mizugaki::ast::query::table_reference const& x) { (void) x; at("name", x.name()); }
template<> inline void members(mizugaki::ast::query::table_value_constructor const& x) { (void) x; at("elements", x.elements()); }
template<> inline void members(mizugaki::ast::query::with_element const& x) { (void) x; at("column_names", x.column_names()); at("expression", x.expression()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::query::with_expression const& x) { (void) x; at("elements", x.elements()); at("expression", x.expression()); at("is_recursive", x.is_recursive()); }
template<> inline void members(mizugaki::ast::scalar::between_predicate const& x) { (void) x; at("is_not", x.is_not()); at("left", x.left()); at("right", x.right()); at("target", x.target()); }
template<> inline void members(mizugaki::ast::scalar::binary_expression const& x) { (void) x; at("left", x.left()); at("right", x.right()); }
template<> inline void members(mizugaki::ast::scalar::builtin_function_invocation const& x) { (void) x; at("arguments", x.arguments()); at("function", x.function()); }
template<> inline void members(mizugaki::ast::scalar::builtin_set_function_invocation const& x) { (void) x; at("arguments", x.arguments()); at("function", x.function()); at("quantifier", x.quantifier()); }
template<> inline void members(mizugaki::ast::scalar::case_expression const& x) { (void) x; at("default_result", x.default_result()); at("operand", x.operand()); at("when_clauses", x.when_clauses()); }
template<> inline void members(mizugaki::ast::scalar::case_when_clause const& x) { (void) x; at("result", x.result()); at("when", x.when()); }
template<> inline void members(mizugaki::ast::scalar::cast_expression const& x) { (void) x; at("operand", x.operand()); at("type", x.type()); }
template<> inline void members(mizugaki::ast::scalar::comparison_predicate const& x) { (void) x; at("left", x.left()); at("right", x.right()); }
template<> inline void members(mizugaki::ast::scalar::current_of_cursor const& x) { (void) x; at("name", x.name()); }
template<> inline void members(mizugaki::ast::scalar::expression const& x) { (void) x; }
template<> inline void members(mizugaki::ast::scalar::extract_expression const& x) { (void) x; at("field", x.field()); at("operand", x.operand()); at("subsecond_digits", x.subsecond_digits()); }
template<> inline void members(mizugaki::ast::scalar::field_reference const& x) { (void) x; at("name", x.name()); at("value", x.value()); }
template<> inline void members(mizugaki::ast::scalar::function_invocation const& x) { (void) x; at("arguments", x.arguments()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::scalar::host_parameter_reference const& x) { (void) x; at("name", x.name()); }
template<> inline void members(mizugaki::ast::scalar::in_predicate const& x) { (void) x; at("is_not", x.is_not()); at("left", x.left()); at("right", x.right()); }
template<> inline void members(mizugaki::ast::scalar::literal_expression const& x) { (void) x; at("value", x.value()); }
template<> inline void members(mizugaki::ast::scalar::method_invocation const& x) { (void) x; at("arguments", x.arguments()); at("name", x.name()); at("value", x.value()); }
template<> inline void members(mizugaki::ast::scalar::new_invocation const& x) { (void) x; at("arguments", x.arguments()); at("type", x.type()); }
template<> inline void members(mizugaki::ast::scalar::pattern_match_predicate const& x) { (void) x; at("escape", x.escape()); at("is_not", x.is_not()); at("match_value", x.match_value()); at("pattern", x.pattern()); }
template<> inline void members(mizugaki::ast::scalar::placeholder_reference const& x) { (void) x; }
template<> inline void members(mizugaki::ast::scalar::quantified_comparison_predicate const& x) { (void) x; at("left", x.left()); at("quantifier", x.quantifier()); at("right", x.right()); }
template<> inline void members(mizugaki::ast::scalar::static_method_invocation const& x) { (void) x; at("arguments", x.arguments()); at("name", x.name()); at("type", x.type()); }
template<> inline void members(mizugaki::ast::scalar::subquery const& x) { (void) x; at("query", x.query()); }
template<> inline void members(mizugaki::ast::scalar::table_predicate const& x) { (void) x; at("operand", x.operand()); }
template<> inline void members(mizugaki::ast::scalar::trim_expression const& x) { (void) x; at("character", x.character()); at("source", x.source()); at("specification", x.specification()); }
template<> inline void members(mizugaki::ast::scalar::unary_expression const& x) { (void) x; at("operand", x.operand()); }
template<> inline void members(mizugaki::ast::scalar::value_constructor const& x) { (void) x; at("elements", x.elements()); }
template<> inline void members(mizugaki::ast::scalar::variable_reference const& x) { (void) x; at("name", x.name()); }
template<> inline void members(mizugaki::ast::statement::alter_index_action const& x) { (void) x; }
template<> inline void members(mizugaki::ast::statement::alter_index_statement const& x) { (void) x; at("action", x.action()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::statement::alter_table_action const& x) { (void) x; }
template<> inline void members(mizugaki::ast::statement::alter_table_statement const& x) { (void) x; at("action", x.action()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::statement::column_constraint_definition const& x) { (void) x; at("body", x.body()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::statement::column_definition const& x) { (void) x; at("constraints", x.constraints()); at("name", x.name()); at("type", x.type()); }
template<> inline void members(mizugaki::ast::statement::constraint const& x) { (void) x; }
template<> inline void members(mizugaki::ast::statement::delete_statement const& x) { (void) x; at("alias_name", x.alias_name()); at("table_name", x.table_name()); at("where", x.where()); }
template<> inline void members(mizugaki::ast::statement::drop_statement const& x) { (void) x; at("name", x.name()); at("options", x.options()); at("statement_kind", x.statement_kind()); }
template<> inline void members(mizugaki::ast::statement::empty_statement const& x) { (void) x; }
template<> inline void members(mizugaki::ast::statement::expression_constraint const& x) { (void) x; at("constraint_kind", x.constraint_kind()); at("expression", x.expression()); }
template<> inline void members(mizugaki::ast::statement::grant_privilege_statement const& x) { (void) x; at("actions", x.actions()); at("objects", x.objects()); at("users", x.users()); }
template<> inline void members(mizugaki::ast::statement::identity_constraint const& x) { (void) x; at("cycle", x.cycle()); at("generation", x.generation()); at("increment_value", x.increment_value()); at("initial_value", x.initial_value()); at("max_value", x.max_value()); at("min_value", x.min_value()); }
template<> inline void members(mizugaki::ast::statement::index_definition const& x) { (void) x; at("keys", x.keys()); at("name", x.name()); at("options", x.options()); at("parameters", x.parameters()); at("predicate", x.predicate()); at("table_name", x.table_name()); at("values", x.values()); }
template<> inline void members(mizugaki::ast::statement::insert_statement const& x) { (void) x; at("columns", x.columns()); at("expression", x.expression()); at("options", x.options()); at("table_name", x.table_name()); }
template<> inline void members(mizugaki::ast::statement::key_constraint const& x) { (void) x; at("constraint_kind", x.constraint_kind()); at("key", x.key()); at("parameters", x.parameters()); at("values", x.values()); }
template<> inline void members(mizugaki::ast::statement::privilege_action const& x) { (void) x; at("action_kind", x.action_kind()); }
template<> inline void members(mizugaki::ast::statement::privilege_object const& x) { (void) x; at("object_kind", x.object_kind()); at("object_name", x.object_name()); }
template<> inline void members(mizugaki::ast::statement::privilege_user const& x) { (void) x; at("authorization_identifier", x.authorization_identifier()); }
template<> inline void members(mizugaki::ast::statement::referential_constraint const& x) { (void) x; at("columns", x.columns()); at("on_delete", x.on_delete()); at("on_update", x.on_update()); at("target", x.target()); at("target_columns", x.target_columns()); }
template<> inline void members(mizugaki::ast::statement::rename_column_action const& x) { (void) x; at("column_name", x.column_name()); at("replacement", x.replacement()); }
template<> inline void members(mizugaki::ast::statement::rename_index_action const& x) { (void) x; at("replacement", x.replacement()); }
template<> inline void members(mizugaki::ast::statement::rename_table_action const& x) { (void) x; at("replacement", x.replacement()); }
template<> inline void members(mizugaki::ast::statement::revoke_privilege_statement const& x) { (void) x; at("actions", x.actions()); at("objects", x.objects()); at("users", x.users()); }
template<> inline void members(mizugaki::ast::statement::schema_definition const& x) { (void) x; at("elements", x.elements()); at("name", x.name()); at("options", x.options()); at("user_name", x.user_name()); }
template<> inline void members(mizugaki::ast::statement::select_statement const& x) { (void) x; at("expression", x.expression()); at("targets", x.targets()); }
template<> inline void members(mizugaki::ast::statement::sequence_definition const& x) { (void) x; at("increment_value", x.increment_value()); at("initial_value", x.initial_value()); at("max_value", x.max_value()); at("min_value", x.min_value()); at("name", x.name()); at("options", x.options()); at("owner", x.owner()); at("type", x.type()); }
template<> inline void members(mizugaki::ast::statement::set_element const& x) { (void) x; at("target", x.target()); at("value", x.value()); }
template<> inline void members(mizugaki::ast::statement::simple_constraint const& x) { (void) x; at("constraint_kind", x.constraint_kind()); }
template<> inline void members(mizugaki::ast::statement::statement const& x) { (void) x; }
template<> inline void members(mizugaki::ast::statement::storage_parameter const& x) { (void) x; at("name", x.name()); at("value", x.value()); }
template<> inline void members(mizugaki::ast::statement::table_constraint_definition const& x) { (void) x; at("body", x.body()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::statement::table_definition const& x) { (void) x; at("elements", x.elements()); at("name", x.name()); at("options", x.options()); at("parameters", x.parameters()); }
template<> inline void members(mizugaki::ast::statement::table_element const& x) { (void) x; }
template<> inline void members(mizugaki::ast::statement::truncate_table_statement const& x) { (void) x; at("identity_column_option", x.identity_column_option()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::statement::update_statement const& x) { (void) x; at("alias_name", x.alias_name()); at("elements", x.elements()); at("table_name", x.table_name()); at("where", x.where()); }
template<> inline void members(mizugaki::ast::statement::view_definition const& x) { (void) x; at("columns", x.columns()); at("name", x.name()); at("options", x.options()); at("parameters", x.parameters()); at("query", x.query()); }
template<> inline void members(mizugaki::ast::table::apply const& x) { (void) x; at("arguments", x.arguments()); at("correlation", x.correlation()); at("name", x.name()); at("operand", x.operand()); }
template<> inline void members(mizugaki::ast::table::correlation_clause const& x) { (void) x; at("column_names", x.column_names()); at("correlation_name", x.correlation_name()); }
template<> inline void members(mizugaki::ast::table::expression const& x) { (void) x; }
template<> inline void members(mizugaki::ast::table::join const& x) { (void) x; at("left", x.left()); at("right", x.right()); at("specification", x.specification()); }
template<> inline void members(mizugaki::ast::table::join_columns const& x) { (void) x; at("columns", x.columns()); }
template<> inline void members(mizugaki::ast::table::join_condition const& x) { (void) x; at("expression", x.expression()); }
template<> inline void members(mizugaki::ast::table::join_specification const& x) { (void) x; }
template<> inline void members(mizugaki::ast::table::subquery const& x) { (void) x; at("correlation", x.correlation()); at("expression", x.expression()); at("is_lateral", x.is_lateral()); }
template<> inline void members(mizugaki::ast::table::table_reference const& x) { (void) x; at("correlation", x.correlation()); at("is_only", x.is_only()); at("name", x.name()); }
template<> inline void members(mizugaki::ast::table::unnest const& x) { (void) x; at("correlation", x.correlation()); at("expression", x.expression()); at("with_ordinality", x.with_ordinality()); }
template<> inline void members(mizugaki::ast::type::binary_numeric const& x) { (void) x; at("precision", x.precision()); at("type_kind", x.type_kind()); }
template<> inline void members(mizugaki::ast::type::bit_string const& x) { (void) x; at("length", x.length()); at("type_kind", x.type_kind()); }
template<> inline void members(mizugaki::ast::type::character_string const& x) { (void) x; at("length", x.length()); at("type_kind", x.type_kind()); }
template<> inline void members(mizugaki::ast::type::collection const& x) { (void) x; at("element", x.element()); at("length", x.length()); }
template<> inline void members(mizugaki::ast::type::datetime const& x) { (void) x; at("has_time_zone", x.has_time_zone()); at("type_kind", x.type_kind()); }
template<> inline void members(mizugaki::ast::type::decimal const& x) { (void) x; at("precision", x.precision()); at("scale", x.scale()); at("type_kind", x.type_kind()); }
template<> inline void members(mizugaki::ast::type::field_definition const& x) { (void) x; at("collation", x.collation()); at("name", x.name()); at("type", x.type()); }
template<> inline void members(mizugaki::ast::type::interval const& x) { (void) x; }
template<> inline void members(mizugaki::ast::type::octet_string const& x) { (void) x; at("length", x.length()); at("type_kind", x.type_kind()); }
template<> inline void members(mizugaki::ast::type::row const& x) { (void) x; at("elements", x.elements()); }
template<> inline void members(mizugaki::ast::type::simple const& x) { (void) x; }
template<> inline void members(mizugaki::ast::type::type const& x) { (void) x; }
template<> inline void members(mizugaki::ast::type::user_defined const& x) { (void) x; at("name", x.name()); }
inline std::map<std::type_index, F> const& classes() { static std::map<std::type_index, F> const m {
    { typeid(mizugaki::ast::literal::boolean), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::boolean const&>(n)); } },
    { typeid(mizugaki::ast::literal::datetime), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::datetime const&>(n)); } },
    { typeid(mizugaki::ast::literal::interval), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::interval const&>(n)); } },
    { typeid(mizugaki::ast::literal::numeric), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::numeric const&>(n)); } },
    { typeid(mizugaki::ast::literal::special<mizugaki::ast::literal::kind::default_>), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::special<mizugaki::ast::literal::kind::default_> const&>(n)); } },
    { typeid(mizugaki::ast::literal::special<mizugaki::ast::literal::kind::empty>), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::special<mizugaki::ast::literal::kind::empty> const&>(n)); } },
    { typeid(mizugaki::ast::literal::special<mizugaki::ast::literal::kind::null>), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::special<mizugaki::ast::literal::kind::null> const&>(n)); } },
    { typeid(mizugaki::ast::literal::string), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::literal::string const&>(n)); } },
    { typeid(mizugaki::ast::name::qualified), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::name::qualified const&>(n)); } },
    { typeid(mizugaki::ast::name::simple), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::name::simple const&>(n)); } },
    { typeid(mizugaki::ast::query::binary_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::binary_expression const&>(n)); } },
    { typeid(mizugaki::ast::query::grouping_column), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::grouping_column const&>(n)); } },
    { typeid(mizugaki::ast::query::query), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::query const&>(n)); } },
    { typeid(mizugaki::ast::query::select_asterisk), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::select_asterisk const&>(n)); } },
    { typeid(mizugaki::ast::query::select_column), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::select_column const&>(n)); } },
    { typeid(mizugaki::ast::query::table_reference), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::table_reference const&>(n)); } },
    { typeid(mizugaki::ast::query::table_value_constructor), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::table_value_constructor const&>(n)); } },
    { typeid(mizugaki::ast::query::with_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::query::with_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::between_predicate), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::between_predicate const&>(n)); } },
    { typeid(mizugaki::ast::scalar::binary_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::binary_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::builtin_function_invocation), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::builtin_function_invocation const&>(n)); } },
    { typeid(mizugaki::ast::scalar::builtin_set_function_invocation), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::builtin_set_function_invocation const&>(n)); } },
    { typeid(mizugaki::ast::scalar::case_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::case_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::cast_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::cast_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::comparison_predicate), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::comparison_predicate const&>(n)); } },
    { typeid(mizugaki::ast::scalar::current_of_cursor), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::current_of_cursor const&>(n)); } },
    { typeid(mizugaki::ast::scalar::extract_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::extract_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::field_reference), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::field_reference const&>(n)); } },
    { typeid(mizugaki::ast::scalar::function_invocation), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::function_invocation const&>(n)); } },
    { typeid(mizugaki::ast::scalar::host_parameter_reference), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::host_parameter_reference const&>(n)); } },
    { typeid(mizugaki::ast::scalar::in_predicate), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::in_predicate const&>(n)); } },
    { typeid(mizugaki::ast::scalar::literal_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::literal_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::method_invocation), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::method_invocation const&>(n)); } },
    { typeid(mizugaki::ast::scalar::new_invocation), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::new_invocation const&>(n)); } },
    { typeid(mizugaki::ast::scalar::pattern_match_predicate), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::pattern_match_predicate const&>(n)); } },
    { typeid(mizugaki::ast::scalar::placeholder_reference), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::placeholder_reference const&>(n)); } },
    { typeid(mizugaki::ast::scalar::quantified_comparison_predicate), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::quantified_comparison_predicate const&>(n)); } },
    { typeid(mizugaki::ast::scalar::static_method_invocation), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::static_method_invocation const&>(n)); } },
    { typeid(mizugaki::ast::scalar::subquery), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::subquery const&>(n)); } },
    { typeid(mizugaki::ast::scalar::table_predicate), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::table_predicate const&>(n)); } },
    { typeid(mizugaki::ast::scalar::trim_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::trim_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::unary_expression), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::unary_expression const&>(n)); } },
    { typeid(mizugaki::ast::scalar::value_constructor), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::value_constructor const&>(n)); } },
    { typeid(mizugaki::ast::scalar::variable_reference), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::scalar::variable_reference const&>(n)); } },
    { typeid(mizugaki::ast::statement::alter_index_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::alter_index_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::alter_table_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::alter_table_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::column_definition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::column_definition const&>(n)); } },
    { typeid(mizugaki::ast::statement::delete_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::delete_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::drop_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::drop_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::empty_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::empty_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::expression_constraint), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::expression_constraint const&>(n)); } },
    { typeid(mizugaki::ast::statement::grant_privilege_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::grant_privilege_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::identity_constraint), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::identity_constraint const&>(n)); } },
    { typeid(mizugaki::ast::statement::index_definition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::index_definition const&>(n)); } },
    { typeid(mizugaki::ast::statement::insert_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::insert_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::key_constraint), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::key_constraint const&>(n)); } },
    { typeid(mizugaki::ast::statement::referential_constraint), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::referential_constraint const&>(n)); } },
    { typeid(mizugaki::ast::statement::rename_column_action), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::rename_column_action const&>(n)); } },
    { typeid(mizugaki::ast::statement::rename_index_action), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::rename_index_action const&>(n)); } },
    { typeid(mizugaki::ast::statement::rename_table_action), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::rename_table_action const&>(n)); } },
    { typeid(mizugaki::ast::statement::revoke_privilege_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::revoke_privilege_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::schema_definition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::schema_definition const&>(n)); } },
    { typeid(mizugaki::ast::statement::select_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::select_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::sequence_definition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::sequence_definition const&>(n)); } },
    { typeid(mizugaki::ast::statement::simple_constraint), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::simple_constraint const&>(n)); } },
    { typeid(mizugaki::ast::statement::table_constraint_definition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::table_constraint_definition const&>(n)); } },
    { typeid(mizugaki::ast::statement::table_definition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::table_definition const&>(n)); } },
    { typeid(mizugaki::ast::statement::truncate_table_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::truncate_table_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::update_statement), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::update_statement const&>(n)); } },
    { typeid(mizugaki::ast::statement::view_definition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::statement::view_definition const&>(n)); } },
    { typeid(mizugaki::ast::table::apply), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::table::apply const&>(n)); } },
    { typeid(mizugaki::ast::table::join), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::table::join const&>(n)); } },
    { typeid(mizugaki::ast::table::join_columns), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::table::join_columns const&>(n)); } },
    { typeid(mizugaki::ast::table::join_condition), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::table::join_condition const&>(n)); } },
    { typeid(mizugaki::ast::table::subquery), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::table::subquery const&>(n)); } },
    { typeid(mizugaki::ast::table::table_reference), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::table::table_reference const&>(n)); } },
    { typeid(mizugaki::ast::table::unnest), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::table::unnest const&>(n)); } },
    { typeid(mizugaki::ast::type::binary_numeric), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::binary_numeric const&>(n)); } },
    { typeid(mizugaki::ast::type::bit_string), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::bit_string const&>(n)); } },
    { typeid(mizugaki::ast::type::character_string), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::character_string const&>(n)); } },
    { typeid(mizugaki::ast::type::collection), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::collection const&>(n)); } },
    { typeid(mizugaki::ast::type::datetime), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::datetime const&>(n)); } },
    { typeid(mizugaki::ast::type::decimal), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::decimal const&>(n)); } },
    { typeid(mizugaki::ast::type::interval), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::interval const&>(n)); } },
    { typeid(mizugaki::ast::type::octet_string), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::octet_string const&>(n)); } },
    { typeid(mizugaki::ast::type::row), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::row const&>(n)); } },
    { typeid(mizugaki::ast::type::simple), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::simple const&>(n)); } },
    { typeid(mizugaki::ast::type::user_defined), [](ast::node const& n) { members(dynamic_cast<mizugaki::ast::type::user_defined const&>(n)); } },
};
    return m; }
template<class T> std::string text(T const& x) { out.clear(); members(x); return out; }
}
