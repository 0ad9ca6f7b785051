// generated by tools/reflect_gen.py
#pragma once
#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/ast/element.h>
#include <mizugaki/ast/namespace.h>
#include <mizugaki/ast/node.h>
#include <mizugaki/ast/node_region.h>
#include <mizugaki/ast/common/chars.h>
#include <mizugaki/ast/common/clone_wrapper.h>
#include <mizugaki/ast/common/namespace.h>
#include <mizugaki/ast/common/null_ordering_specification.h>
#include <mizugaki/ast/common/optional.h>
#include <mizugaki/ast/common/ordering_specification.h>
#include <mizugaki/ast/common/regioned.h>
#include <mizugaki/ast/common/rvalue_list.h>
#include <mizugaki/ast/common/sort_element.h>
#include <mizugaki/ast/common/target_element.h>
#include <mizugaki/ast/common/vector.h>
#include <mizugaki/ast/literal/boolean.h>
#include <mizugaki/ast/literal/boolean_kind.h>
#include <mizugaki/ast/literal/datetime.h>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/literal/interval.h>
#include <mizugaki/ast/literal/kind.h>
#include <mizugaki/ast/literal/literal.h>
#include <mizugaki/ast/literal/namespace.h>
#include <mizugaki/ast/literal/numeric.h>
#include <mizugaki/ast/literal/sign.h>
#include <mizugaki/ast/literal/special.h>
#include <mizugaki/ast/literal/string.h>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/name/identifier_kind.h>
#include <mizugaki/ast/name/kind.h>
#include <mizugaki/ast/name/name.h>
#include <mizugaki/ast/name/namespace.h>
#include <mizugaki/ast/name/qualified.h>
#include <mizugaki/ast/name/simple.h>
#include <mizugaki/ast/query/binary_expression.h>
#include <mizugaki/ast/query/binary_operator.h>
#include <mizugaki/ast/query/corresponding_clause.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/query/expression.h>
#include <mizugaki/ast/query/group_by_clause.h>
#include <mizugaki/ast/query/grouping_column.h>
#include <mizugaki/ast/query/grouping_element.h>
#include <mizugaki/ast/query/grouping_element_kind.h>
#include <mizugaki/ast/query/kind.h>
#include <mizugaki/ast/query/namespace.h>
#include <mizugaki/ast/query/query.h>
#include <mizugaki/ast/query/select_asterisk.h>
#include <mizugaki/ast/query/select_column.h>
#include <mizugaki/ast/query/select_element.h>
#include <mizugaki/ast/query/select_element_kind.h>
#include <mizugaki/ast/query/table_reference.h>
#include <mizugaki/ast/query/table_value_constructor.h>
#include <mizugaki/ast/query/with_element.h>
#include <mizugaki/ast/query/with_expression.h>
#include <mizugaki/ast/scalar/between_operator.h>
#include <mizugaki/ast/scalar/between_predicate.h>
#include <mizugaki/ast/scalar/binary_expression.h>
#include <mizugaki/ast/scalar/binary_operator.h>
#include <mizugaki/ast/scalar/builtin_function_invocation.h>
#include <mizugaki/ast/scalar/builtin_function_kind.h>
#include <mizugaki/ast/scalar/builtin_set_function_invocation.h>
#include <mizugaki/ast/scalar/builtin_set_function_kind.h>
#include <mizugaki/ast/scalar/case_expression.h>
#include <mizugaki/ast/scalar/case_when_clause.h>
#include <mizugaki/ast/scalar/cast_expression.h>
#include <mizugaki/ast/scalar/cast_operator.h>
#include <mizugaki/ast/scalar/comparison_operator.h>
#include <mizugaki/ast/scalar/comparison_predicate.h>
#include <mizugaki/ast/scalar/current_of_cursor.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/scalar/expression.h>
#include <mizugaki/ast/scalar/expression_context_kind.h>
#include <mizugaki/ast/scalar/extract_expression.h>
#include <mizugaki/ast/scalar/extract_field_kind.h>
#include <mizugaki/ast/scalar/field_reference.h>
#include <mizugaki/ast/scalar/function_invocation.h>
#include <mizugaki/ast/scalar/host_parameter_reference.h>
#include <mizugaki/ast/scalar/in_predicate.h>
#include <mizugaki/ast/scalar/kind.h>
#include <mizugaki/ast/scalar/literal_expression.h>
#include <mizugaki/ast/scalar/method_invocation.h>
#include <mizugaki/ast/scalar/namespace.h>
#include <mizugaki/ast/scalar/new_invocation.h>
#include <mizugaki/ast/scalar/pattern_match_operator.h>
#include <mizugaki/ast/scalar/pattern_match_predicate.h>
#include <mizugaki/ast/scalar/placeholder_reference.h>
#include <mizugaki/ast/scalar/quantified_comparison_predicate.h>
#include <mizugaki/ast/scalar/quantifier.h>
#include <mizugaki/ast/scalar/reference_operator.h>
#include <mizugaki/ast/scalar/set_quantifier.h>
#include <mizugaki/ast/scalar/static_method_invocation.h>
#include <mizugaki/ast/scalar/subquery.h>
#include <mizugaki/ast/scalar/table_operator.h>
#include <mizugaki/ast/scalar/table_predicate.h>
#include <mizugaki/ast/scalar/trim_expression.h>
#include <mizugaki/ast/scalar/trim_specification.h>
#include <mizugaki/ast/scalar/unary_expression.h>
#include <mizugaki/ast/scalar/unary_operator.h>
#include <mizugaki/ast/scalar/value_constructor.h>
#include <mizugaki/ast/scalar/value_constructor_kind.h>
#include <mizugaki/ast/scalar/variable_reference.h>
#include <mizugaki/ast/statement/alter_index_action.h>
#include <mizugaki/ast/statement/alter_index_action_kind.h>
#include <mizugaki/ast/statement/alter_index_statement.h>
#include <mizugaki/ast/statement/alter_table_action.h>
#include <mizugaki/ast/statement/alter_table_action_kind.h>
#include <mizugaki/ast/statement/alter_table_statement.h>
#include <mizugaki/ast/statement/column_constraint_definition.h>
#include <mizugaki/ast/statement/column_definition.h>
#include <mizugaki/ast/statement/constraint.h>
#include <mizugaki/ast/statement/constraint_kind.h>
#include <mizugaki/ast/statement/delete_statement.h>
#include <mizugaki/ast/statement/dispatch.h>
#include <mizugaki/ast/statement/drop_statement.h>
#include <mizugaki/ast/statement/drop_statement_option.h>
#include <mizugaki/ast/statement/empty_statement.h>
#include <mizugaki/ast/statement/expression_constraint.h>
#include <mizugaki/ast/statement/grant_privilege_statement.h>
#include <mizugaki/ast/statement/identity_column_restart_option.h>
#include <mizugaki/ast/statement/identity_constraint.h>
#include <mizugaki/ast/statement/identity_generation_type.h>
#include <mizugaki/ast/statement/index_definition.h>
#include <mizugaki/ast/statement/index_definition_option.h>
#include <mizugaki/ast/statement/insert_statement.h>
#include <mizugaki/ast/statement/insert_statement_option.h>
#include <mizugaki/ast/statement/key_constraint.h>
#include <mizugaki/ast/statement/kind.h>
#include <mizugaki/ast/statement/namespace.h>
#include <mizugaki/ast/statement/privilege_action.h>
#include <mizugaki/ast/statement/privilege_action_kind.h>
#include <mizugaki/ast/statement/privilege_object.h>
#include <mizugaki/ast/statement/privilege_object_kind.h>
#include <mizugaki/ast/statement/privilege_user.h>
#include <mizugaki/ast/statement/privilege_user_kind.h>
#include <mizugaki/ast/statement/referential_action.h>
#include <mizugaki/ast/statement/referential_constraint.h>
#include <mizugaki/ast/statement/rename_column_action.h>
#include <mizugaki/ast/statement/rename_index_action.h>
#include <mizugaki/ast/statement/rename_table_action.h>
#include <mizugaki/ast/statement/revoke_privilege_statement.h>
#include <mizugaki/ast/statement/schema_definition.h>
#include <mizugaki/ast/statement/schema_definition_option.h>
#include <mizugaki/ast/statement/select_statement.h>
#include <mizugaki/ast/statement/sequence_definition.h>
#include <mizugaki/ast/statement/sequence_definition_option.h>
#include <mizugaki/ast/statement/set_element.h>
#include <mizugaki/ast/statement/simple_constraint.h>
#include <mizugaki/ast/statement/statement.h>
#include <mizugaki/ast/statement/storage_parameter.h>
#include <mizugaki/ast/statement/table_constraint_definition.h>
#include <mizugaki/ast/statement/table_definition.h>
#include <mizugaki/ast/statement/table_definition_option.h>
#include <mizugaki/ast/statement/table_element.h>
#include <mizugaki/ast/statement/table_element_kind.h>
#include <mizugaki/ast/statement/truncate_table_statement.h>
#include <mizugaki/ast/statement/update_statement.h>
#include <mizugaki/ast/statement/view_definition.h>
#include <mizugaki/ast/statement/view_definition_option.h>
#include <mizugaki/ast/table/apply.h>
#include <mizugaki/ast/table/apply_type.h>
#include <mizugaki/ast/table/correlation_clause.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/table/expression.h>
#include <mizugaki/ast/table/join.h>
#include <mizugaki/ast/table/join_columns.h>
#include <mizugaki/ast/table/join_condition.h>
#include <mizugaki/ast/table/join_specification.h>
#include <mizugaki/ast/table/join_specification_kind.h>
#include <mizugaki/ast/table/join_type.h>
#include <mizugaki/ast/table/kind.h>
#include <mizugaki/ast/table/namespace.h>
#include <mizugaki/ast/table/subquery.h>
#include <mizugaki/ast/table/table_reference.h>
#include <mizugaki/ast/table/unnest.h>
#include <mizugaki/ast/type/binary_numeric.h>
#include <mizugaki/ast/type/bit_string.h>
#include <mizugaki/ast/type/character_string.h>
#include <mizugaki/ast/type/collection.h>
#include <mizugaki/ast/type/datetime.h>
#include <mizugaki/ast/type/decimal.h>
#include <mizugaki/ast/type/dispatch.h>
#include <mizugaki/ast/type/field_definition.h>
#include <mizugaki/ast/type/interval.h>
#include <mizugaki/ast/type/kind.h>
#include <mizugaki/ast/type/namespace.h>
#include <mizugaki/ast/type/octet_string.h>
#include <mizugaki/ast/type/row.h>
#include <mizugaki/ast/type/simple.h>
#include <mizugaki/ast/type/type.h>
#include <mizugaki/ast/type/user_defined.h>
namespace reflect {
template<class V> struct by_value { V& v; };
template<class V> by_value<V> value_of(V& v) { return { v }; }
template<class V> struct by_moved { V& v; };
template<class V> by_moved<V> moved_of(V& v) { return { v }; }
template<class V> struct by_pointer { V& v; };
template<class V> by_pointer<V> pointer_of(V& v) { return { v }; }
template<class V> struct by_list { V& v; };
template<class V> by_list<V> list_of(V& v) { return { v }; }
template<class F> void each(mizugaki::ast::compilation_unit& x, F&& f) { (void) x; (void) f;
    f("statements", x.statements());
    f("comments", x.comments());
    f("document", x.document());
}
template<class F> void each(mizugaki::ast::common::sort_element& x, F&& f) { (void) x; (void) f;
    f("key", x.key());
    f("collation", x.collation());
    f("direction", x.direction());
    f("null_location", x.null_location());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::common::sort_element& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.key()), value_of(x.collation()), value_of(x.direction()), value_of(x.null_location()), value_of(x.region()));
    b.constructor(true, moved_of(x.key()), pointer_of(x.collation()), value_of(x.direction()), value_of(x.null_location()), value_of(x.region()));
    b.constructor(false, moved_of(x.key()), value_of(x.direction()), value_of(x.null_location()), value_of(x.region()));
    b.constructor(true, moved_of(x.key()), pointer_of(x.collation()), value_of(x.direction()), value_of(x.null_location()), value_of(x.region()));
    b.constructor(false, moved_of(x.key()), value_of(x.direction()), value_of(x.null_location()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::common::target_element& x, F&& f) { (void) x; (void) f;
    f("target", x.target());
    f("indicator", x.indicator());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::common::target_element& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.target()), value_of(x.indicator()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::literal::boolean& x, F&& f) { (void) x; (void) f;
    f("value", x.value());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::literal::boolean& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value()), value_of(x.region()));
    b.constructor(true, value_of(x.value()), value_of(x.region()));
    b.constructor(true, value_of(x.value()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::literal::datetime& x, F&& f) { (void) x; (void) f;
    f("value_kind", x.value_kind());
    f("value", x.value());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::literal::datetime& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value_kind()), value_of(x.value()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::literal::interval& x, F&& f) { (void) x; (void) f;
    f("sign", x.sign());
    f("value", x.value());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::literal::interval& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.sign()), value_of(x.value()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::literal::numeric& x, F&& f) { (void) x; (void) f;
    f("value_kind", x.value_kind());
    f("sign", x.sign());
    f("unsigned_value", x.unsigned_value());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::literal::numeric& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value_kind()), value_of(x.sign()), value_of(x.unsigned_value()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::literal::string& x, F&& f) { (void) x; (void) f;
    f("value_kind", x.value_kind());
    f("value", x.value());
    f("concatenations", x.concatenations());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::literal::string& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value_kind()), value_of(x.value()), value_of(x.concatenations()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::name::qualified& x, F&& f) { (void) x; (void) f;
    f("qualifier", x.qualifier());
    f("last", x.last());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::name::qualified& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.qualifier()), value_of(x.last()), value_of(x.region()));
    b.constructor(true, moved_of(x.qualifier()), moved_of(x.last()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::name::simple& x, F&& f) { (void) x; (void) f;
    f("identifier", x.identifier());
    f("identifier_kind", x.identifier_kind());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::name::simple& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.identifier()), value_of(x.identifier_kind()), value_of(x.region()));
    b.constructor(false, value_of(x.identifier()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::binary_expression& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("left", x.left());
    f("right", x.right());
    f("quantifier", x.quantifier());
    f("corresponding", x.corresponding());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::binary_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.left()), value_of(x.operator_kind()), value_of(x.quantifier()), value_of(x.corresponding()), value_of(x.right()), value_of(x.region()));
    b.constructor(true, moved_of(x.left()), value_of(x.operator_kind()), value_of(x.quantifier()), list_of(x.corresponding()), moved_of(x.right()), value_of(x.region()));
    b.constructor(false, moved_of(x.left()), value_of(x.operator_kind()), value_of(x.quantifier()), moved_of(x.right()), value_of(x.region()));
    b.constructor(false, moved_of(x.left()), value_of(x.operator_kind()), moved_of(x.right()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::corresponding_clause& x, F&& f) { (void) x; (void) f;
    f("column_names", x.column_names());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::corresponding_clause& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.column_names()), value_of(x.region()));
    b.constructor(true, list_of(x.column_names()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::group_by_clause& x, F&& f) { (void) x; (void) f;
    f("elements", x.elements());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::group_by_clause& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.elements()), value_of(x.region()));
    b.constructor(true, list_of(x.elements()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::grouping_column& x, F&& f) { (void) x; (void) f;
    f("column", x.column());
    f("collation", x.collation());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::grouping_column& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.column()), value_of(x.collation()), value_of(x.region()));
    b.constructor(true, moved_of(x.column()), pointer_of(x.collation()), value_of(x.region()));
    b.constructor(true, moved_of(x.column()), pointer_of(x.collation()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::query& x, F&& f) { (void) x; (void) f;
    f("elements", x.elements());
    f("from", x.from());
    f("where", x.where());
    f("group_by", x.group_by());
    f("having", x.having());
    f("order_by", x.order_by());
    f("limit", x.limit());
    f("quantifier", x.quantifier());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::query& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.quantifier()), value_of(x.elements()), value_of(x.from()), value_of(x.where()), value_of(x.group_by()), value_of(x.having()), value_of(x.order_by()), value_of(x.limit()), value_of(x.region()));
    b.constructor(false, list_of(x.elements()), list_of(x.from()), pointer_of(x.where()), value_of(x.group_by()), pointer_of(x.having()), value_of(x.order_by()), pointer_of(x.limit()), value_of(x.region()));
    b.constructor(true, value_of(x.quantifier()), list_of(x.elements()), list_of(x.from()), pointer_of(x.where()), value_of(x.group_by()), pointer_of(x.having()), value_of(x.order_by()), pointer_of(x.limit()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::select_asterisk& x, F&& f) { (void) x; (void) f;
    f("qualifier", x.qualifier());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::select_asterisk& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.qualifier()), value_of(x.region()));
    b.constructor(true, moved_of(x.qualifier()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::select_column& x, F&& f) { (void) x; (void) f;
    f("value", x.value());
    f("name", x.name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::select_column& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value()), value_of(x.name()), value_of(x.region()));
    b.constructor(true, moved_of(x.value()), pointer_of(x.name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::table_reference& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::table_reference& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::table_value_constructor& x, F&& f) { (void) x; (void) f;
    f("elements", x.elements());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::table_value_constructor& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.elements()), value_of(x.region()));
    b.constructor(true, list_of(x.elements()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::with_element& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("expression", x.expression());
    f("column_names", x.column_names());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::with_element& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.column_names()), value_of(x.expression()), value_of(x.region()));
    b.constructor(false, moved_of(x.name()), moved_of(x.expression()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), list_of(x.column_names()), moved_of(x.expression()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::query::with_expression& x, F&& f) { (void) x; (void) f;
    f("elements", x.elements());
    f("expression", x.expression());
    f("is_recursive", x.is_recursive());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::query::with_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.is_recursive()), value_of(x.elements()), value_of(x.expression()), value_of(x.region()));
    b.constructor(false, value_of(x.elements()), moved_of(x.expression()), value_of(x.region()));
    b.constructor(true, value_of(x.is_recursive()), value_of(x.elements()), moved_of(x.expression()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::between_predicate& x, F&& f) { (void) x; (void) f;
    f("target", x.target());
    f("left", x.left());
    f("right", x.right());
    f("operator_kind", x.operator_kind());
    f("is_not", x.is_not());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::between_predicate& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.target()), value_of(x.is_not()), value_of(x.operator_kind()), value_of(x.left()), value_of(x.right()), value_of(x.region()));
    b.constructor(true, moved_of(x.target()), moved_of(x.left()), moved_of(x.right()), value_of(x.is_not()), value_of(x.operator_kind()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::binary_expression& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("left", x.left());
    f("right", x.right());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::binary_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.left()), value_of(x.operator_kind()), value_of(x.right()), value_of(x.region()));
    b.constructor(true, moved_of(x.left()), value_of(x.operator_kind()), moved_of(x.right()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::builtin_function_invocation& x, F&& f) { (void) x; (void) f;
    f("function", x.function());
    f("arguments", x.arguments());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::builtin_function_invocation& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.function()), value_of(x.arguments()), value_of(x.region()));
    b.constructor(true, value_of(x.function()), list_of(x.arguments()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::builtin_set_function_invocation& x, F&& f) { (void) x; (void) f;
    f("function", x.function());
    f("quantifier", x.quantifier());
    f("arguments", x.arguments());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::builtin_set_function_invocation& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.function()), value_of(x.quantifier()), value_of(x.arguments()), value_of(x.region()));
    b.constructor(true, value_of(x.function()), value_of(x.quantifier()), list_of(x.arguments()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::case_expression& x, F&& f) { (void) x; (void) f;
    f("operand", x.operand());
    f("when_clauses", x.when_clauses());
    f("default_result", x.default_result());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::case_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.operand()), value_of(x.when_clauses()), value_of(x.default_result()), value_of(x.region()));
    b.constructor(true, moved_of(x.operand()), value_of(x.when_clauses()), pointer_of(x.default_result()), value_of(x.region()));
    b.constructor(false, value_of(x.when_clauses()), pointer_of(x.default_result()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::case_when_clause& x, F&& f) { (void) x; (void) f;
    f("when", x.when());
    f("result", x.result());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::case_when_clause& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.when()), value_of(x.result()), value_of(x.region()));
    b.constructor(true, moved_of(x.when()), moved_of(x.result()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::cast_expression& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("operand", x.operand());
    f("type", x.type());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::cast_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.operator_kind()), value_of(x.operand()), value_of(x.type()), value_of(x.region()));
    b.constructor(true, value_of(x.operator_kind()), moved_of(x.operand()), moved_of(x.type()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::comparison_predicate& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("left", x.left());
    f("right", x.right());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::comparison_predicate& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.left()), value_of(x.operator_kind()), value_of(x.right()), value_of(x.region()));
    b.constructor(true, moved_of(x.left()), value_of(x.operator_kind()), moved_of(x.right()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::current_of_cursor& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::current_of_cursor& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::extract_expression& x, F&& f) { (void) x; (void) f;
    f("field", x.field());
    f("subsecond_digits", x.subsecond_digits());
    f("operand", x.operand());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::extract_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.field()), value_of(x.subsecond_digits()), value_of(x.operand()), value_of(x.region()));
    b.constructor(false, value_of(x.field()), value_of(x.operand()), value_of(x.region()));
    b.constructor(false, value_of(x.field()), moved_of(x.operand()), value_of(x.region()));
    b.constructor(true, value_of(x.field()), value_of(x.subsecond_digits()), moved_of(x.operand()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::field_reference& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("value", x.value());
    f("name", x.name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::field_reference& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value()), value_of(x.operator_kind()), value_of(x.name()), value_of(x.region()));
    b.constructor(true, moved_of(x.value()), moved_of(x.name()), value_of(x.operator_kind()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::function_invocation& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("arguments", x.arguments());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::function_invocation& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.arguments()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), list_of(x.arguments()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::host_parameter_reference& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::host_parameter_reference& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::in_predicate& x, F&& f) { (void) x; (void) f;
    f("left", x.left());
    f("right", x.right());
    f("is_not", x.is_not());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::in_predicate& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.left()), value_of(x.is_not()), value_of(x.right()), value_of(x.region()));
    b.constructor(true, moved_of(x.left()), moved_of(x.right()), value_of(x.is_not()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::literal_expression& x, F&& f) { (void) x; (void) f;
    f("value", x.value());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::literal_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value()), value_of(x.region()));
    b.constructor(true, moved_of(x.value()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::method_invocation& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("value", x.value());
    f("name", x.name());
    f("arguments", x.arguments());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::method_invocation& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.value()), value_of(x.operator_kind()), value_of(x.name()), value_of(x.arguments()), value_of(x.region()));
    b.constructor(true, moved_of(x.value()), moved_of(x.name()), list_of(x.arguments()), value_of(x.operator_kind()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::new_invocation& x, F&& f) { (void) x; (void) f;
    f("type", x.type());
    f("arguments", x.arguments());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::new_invocation& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type()), value_of(x.arguments()), value_of(x.region()));
    b.constructor(true, moved_of(x.type()), list_of(x.arguments()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::pattern_match_predicate& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("match_value", x.match_value());
    f("pattern", x.pattern());
    f("escape", x.escape());
    f("is_not", x.is_not());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::pattern_match_predicate& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.match_value()), value_of(x.is_not()), value_of(x.operator_kind()), value_of(x.pattern()), value_of(x.escape()), value_of(x.region()));
    b.constructor(true, moved_of(x.match_value()), value_of(x.operator_kind()), moved_of(x.pattern()), pointer_of(x.escape()), value_of(x.is_not()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::placeholder_reference& x, F&& f) { (void) x; (void) f;
    f("index", x.index());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::placeholder_reference& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.index()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::quantified_comparison_predicate& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("quantifier", x.quantifier());
    f("left", x.left());
    f("right", x.right());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::quantified_comparison_predicate& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.left()), value_of(x.operator_kind()), value_of(x.quantifier()), value_of(x.right()), value_of(x.region()));
    b.constructor(true, moved_of(x.left()), value_of(x.operator_kind()), value_of(x.quantifier()), moved_of(x.right()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::static_method_invocation& x, F&& f) { (void) x; (void) f;
    f("type", x.type());
    f("name", x.name());
    f("arguments", x.arguments());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::static_method_invocation& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type()), value_of(x.name()), value_of(x.arguments()), value_of(x.region()));
    b.constructor(true, moved_of(x.type()), moved_of(x.name()), list_of(x.arguments()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::subquery& x, F&& f) { (void) x; (void) f;
    f("query", x.query());
    f("context_kind", x.context_kind());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::subquery& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.query()), value_of(x.context_kind()), value_of(x.region()));
    b.constructor(true, moved_of(x.query()), value_of(x.context_kind()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::table_predicate& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("operand", x.operand());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::table_predicate& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.operator_kind()), value_of(x.operand()), value_of(x.region()));
    b.constructor(true, value_of(x.operator_kind()), moved_of(x.operand()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::trim_expression& x, F&& f) { (void) x; (void) f;
    f("specification", x.specification());
    f("character", x.character());
    f("source", x.source());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::trim_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.specification()), value_of(x.character()), value_of(x.source()), value_of(x.region()));
    b.constructor(true, value_of(x.specification()), pointer_of(x.character()), moved_of(x.source()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::unary_expression& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("operand", x.operand());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::unary_expression& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.operator_kind()), value_of(x.operand()), value_of(x.region()));
    b.constructor(true, value_of(x.operator_kind()), moved_of(x.operand()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::value_constructor& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("elements", x.elements());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::value_constructor& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.operator_kind()), value_of(x.elements()), value_of(x.region()));
    b.constructor(true, value_of(x.operator_kind()), list_of(x.elements()), value_of(x.region()));
    b.constructor(false, list_of(x.elements()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::scalar::variable_reference& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::scalar::variable_reference& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::alter_index_statement& x, F&& f) { (void) x; (void) f;
    f("if_exists", x.if_exists());
    f("name", x.name());
    f("action", x.action());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::alter_index_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.if_exists()), value_of(x.name()), value_of(x.action()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), moved_of(x.action()), value_of(x.if_exists()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::alter_table_statement& x, F&& f) { (void) x; (void) f;
    f("if_exists", x.if_exists());
    f("name", x.name());
    f("action", x.action());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::alter_table_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.if_exists()), value_of(x.name()), value_of(x.action()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), moved_of(x.action()), value_of(x.if_exists()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::column_constraint_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("body", x.body());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::column_constraint_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.body()), value_of(x.region()));
    b.constructor(true, moved_of(x.body()), pointer_of(x.name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::column_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("type", x.type());
    f("constraints", x.constraints());
    f("description", x.description());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::column_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.type()), value_of(x.constraints()), value_of(x.description()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), moved_of(x.type()), value_of(x.constraints()), value_of(x.description()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::delete_statement& x, F&& f) { (void) x; (void) f;
    f("table_name", x.table_name());
    f("alias_name", x.alias_name());
    f("where", x.where());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::delete_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.table_name()), value_of(x.alias_name()), value_of(x.where()), value_of(x.region()));
    b.constructor(false, moved_of(x.table_name()), pointer_of(x.where()), value_of(x.region()));
    b.constructor(true, moved_of(x.table_name()), moved_of(x.alias_name()), pointer_of(x.where()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::drop_statement& x, F&& f) { (void) x; (void) f;
    f("statement_kind", x.statement_kind());
    f("name", x.name());
    f("options", x.options());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::drop_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.statement_kind()), value_of(x.name()), value_of(x.options()), value_of(x.region()));
    b.constructor(true, value_of(x.statement_kind()), moved_of(x.name()), value_of(x.options()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::empty_statement& x, F&& f) { (void) x; (void) f;
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::empty_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::expression_constraint& x, F&& f) { (void) x; (void) f;
    f("constraint_kind", x.constraint_kind());
    f("expression", x.expression());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::expression_constraint& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.constraint_kind()), value_of(x.expression()), value_of(x.region()));
    b.constructor(true, value_of(x.constraint_kind()), moved_of(x.expression()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::grant_privilege_statement& x, F&& f) { (void) x; (void) f;
    f("actions", x.actions());
    f("objects", x.objects());
    f("users", x.users());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::grant_privilege_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.actions()), value_of(x.objects()), value_of(x.users()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::identity_constraint& x, F&& f) { (void) x; (void) f;
    f("generation", x.generation());
    f("initial_value", x.initial_value());
    f("increment_value", x.increment_value());
    f("min_value", x.min_value());
    f("max_value", x.max_value());
    f("cycle", x.cycle());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::identity_constraint& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.generation()), value_of(x.initial_value()), value_of(x.increment_value()), value_of(x.min_value()), value_of(x.max_value()), value_of(x.cycle()), value_of(x.region()));
    b.constructor(true, value_of(x.generation()), pointer_of(x.initial_value()), pointer_of(x.increment_value()), pointer_of(x.min_value()), pointer_of(x.max_value()), value_of(x.cycle()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::index_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("table_name", x.table_name());
    f("keys", x.keys());
    f("values", x.values());
    f("predicate", x.predicate());
    f("options", x.options());
    f("parameters", x.parameters());
    f("description", x.description());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::index_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.table_name()), value_of(x.keys()), value_of(x.values()), value_of(x.predicate()), value_of(x.options()), value_of(x.parameters()), value_of(x.description()), value_of(x.region()));
    b.constructor(true, pointer_of(x.name()), moved_of(x.table_name()), value_of(x.keys()), list_of(x.values()), pointer_of(x.predicate()), value_of(x.options()), value_of(x.parameters()), value_of(x.description()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::insert_statement& x, F&& f) { (void) x; (void) f;
    f("table_name", x.table_name());
    f("columns", x.columns());
    f("expression", x.expression());
    f("options", x.options());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::insert_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.table_name()), value_of(x.columns()), value_of(x.expression()), value_of(x.options()), value_of(x.region()));
    b.constructor(true, moved_of(x.table_name()), list_of(x.columns()), pointer_of(x.expression()), value_of(x.options()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::key_constraint& x, F&& f) { (void) x; (void) f;
    f("constraint_kind", x.constraint_kind());
    f("key", x.key());
    f("values", x.values());
    f("parameters", x.parameters());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::key_constraint& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.constraint_kind()), value_of(x.key()), value_of(x.values()), value_of(x.parameters()), value_of(x.region()));
    b.constructor(true, value_of(x.constraint_kind()), value_of(x.key()), list_of(x.values()), value_of(x.parameters()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::privilege_action& x, F&& f) { (void) x; (void) f;
    f("action_kind", x.action_kind());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::privilege_action& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.action_kind()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::privilege_object& x, F&& f) { (void) x; (void) f;
    f("object_kind", x.object_kind());
    f("object_name", x.object_name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::privilege_object& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.object_kind()), value_of(x.object_name()), value_of(x.region()));
    b.constructor(false, moved_of(x.object_name()), value_of(x.region()));
    b.constructor(true, value_of(x.object_kind()), moved_of(x.object_name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::privilege_user& x, F&& f) { (void) x; (void) f;
    f("user_kind", x.user_kind());
    f("authorization_identifier", x.authorization_identifier());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::privilege_user& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.user_kind()), value_of(x.authorization_identifier()), value_of(x.region()));
    b.constructor(false, value_of(x.user_kind()), value_of(x.region()));
    b.constructor(false, moved_of(x.authorization_identifier()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::referential_constraint& x, F&& f) { (void) x; (void) f;
    f("columns", x.columns());
    f("target", x.target());
    f("target_columns", x.target_columns());
    f("on_update", x.on_update());
    f("on_delete", x.on_delete());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::referential_constraint& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.columns()), value_of(x.target()), value_of(x.target_columns()), value_of(x.on_update()), value_of(x.on_delete()), value_of(x.region()));
    b.constructor(true, list_of(x.columns()), moved_of(x.target()), list_of(x.target_columns()), value_of(x.on_update()), value_of(x.on_delete()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::rename_column_action& x, F&& f) { (void) x; (void) f;
    f("if_exists", x.if_exists());
    f("column_name", x.column_name());
    f("replacement", x.replacement());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::rename_column_action& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.if_exists()), value_of(x.column_name()), value_of(x.replacement()), value_of(x.region()));
    b.constructor(true, moved_of(x.column_name()), moved_of(x.replacement()), value_of(x.if_exists()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::rename_index_action& x, F&& f) { (void) x; (void) f;
    f("replacement", x.replacement());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::rename_index_action& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.replacement()), value_of(x.region()));
    b.constructor(true, moved_of(x.replacement()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::rename_table_action& x, F&& f) { (void) x; (void) f;
    f("replacement", x.replacement());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::rename_table_action& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.replacement()), value_of(x.region()));
    b.constructor(true, moved_of(x.replacement()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::revoke_privilege_statement& x, F&& f) { (void) x; (void) f;
    f("actions", x.actions());
    f("objects", x.objects());
    f("users", x.users());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::revoke_privilege_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.actions()), value_of(x.objects()), value_of(x.users()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::schema_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("user_name", x.user_name());
    f("elements", x.elements());
    f("options", x.options());
    f("description", x.description());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::schema_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.user_name()), value_of(x.elements()), value_of(x.options()), value_of(x.description()), value_of(x.region()));
    b.constructor(true, pointer_of(x.name()), pointer_of(x.user_name()), list_of(x.elements()), value_of(x.options()), value_of(x.description()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::select_statement& x, F&& f) { (void) x; (void) f;
    f("expression", x.expression());
    f("targets", x.targets());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::select_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.expression()), value_of(x.targets()), value_of(x.region()));
    b.constructor(true, moved_of(x.expression()), value_of(x.targets()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::sequence_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("type", x.type());
    f("initial_value", x.initial_value());
    f("increment_value", x.increment_value());
    f("min_value", x.min_value());
    f("max_value", x.max_value());
    f("options", x.options());
    f("description", x.description());
    f("owner", x.owner());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::sequence_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.type()), value_of(x.initial_value()), value_of(x.increment_value()), value_of(x.min_value()), value_of(x.max_value()), value_of(x.owner()), value_of(x.options()), value_of(x.description()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), pointer_of(x.type()), pointer_of(x.initial_value()), pointer_of(x.increment_value()), pointer_of(x.min_value()), pointer_of(x.max_value()), pointer_of(x.owner()), value_of(x.options()), value_of(x.description()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::set_element& x, F&& f) { (void) x; (void) f;
    f("target", x.target());
    f("value", x.value());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::set_element& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.target()), value_of(x.value()), value_of(x.region()));
    b.constructor(true, moved_of(x.target()), moved_of(x.value()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::simple_constraint& x, F&& f) { (void) x; (void) f;
    f("constraint_kind", x.constraint_kind());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::simple_constraint& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.constraint_kind()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::storage_parameter& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("value", x.value());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::storage_parameter& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.value()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::table_constraint_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("body", x.body());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::table_constraint_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.body()), value_of(x.region()));
    b.constructor(true, moved_of(x.body()), pointer_of(x.name()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::table_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("elements", x.elements());
    f("options", x.options());
    f("parameters", x.parameters());
    f("description", x.description());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::table_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.elements()), value_of(x.options()), value_of(x.parameters()), value_of(x.description()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), list_of(x.elements()), value_of(x.options()), value_of(x.parameters()), value_of(x.description()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::truncate_table_statement& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("identity_column_option", x.identity_column_option());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::truncate_table_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.identity_column_option()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), value_of(x.identity_column_option()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::update_statement& x, F&& f) { (void) x; (void) f;
    f("table_name", x.table_name());
    f("alias_name", x.alias_name());
    f("elements", x.elements());
    f("where", x.where());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::update_statement& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.table_name()), value_of(x.alias_name()), value_of(x.elements()), value_of(x.where()), value_of(x.region()));
    b.constructor(false, moved_of(x.table_name()), value_of(x.elements()), pointer_of(x.where()), value_of(x.region()));
    b.constructor(true, moved_of(x.table_name()), moved_of(x.alias_name()), value_of(x.elements()), pointer_of(x.where()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::statement::view_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("columns", x.columns());
    f("query", x.query());
    f("options", x.options());
    f("parameters", x.parameters());
    f("description", x.description());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::statement::view_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.columns()), value_of(x.query()), value_of(x.options()), value_of(x.parameters()), value_of(x.description()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), list_of(x.columns()), moved_of(x.query()), value_of(x.options()), value_of(x.parameters()), value_of(x.description()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::apply& x, F&& f) { (void) x; (void) f;
    f("operand", x.operand());
    f("operator_kind", x.operator_kind());
    f("name", x.name());
    f("arguments", x.arguments());
    f("correlation", x.correlation());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::apply& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.operand()), value_of(x.operator_kind()), value_of(x.name()), value_of(x.arguments()), value_of(x.correlation()), value_of(x.region()));
    b.constructor(true, moved_of(x.operand()), moved_of(x.name()), list_of(x.arguments()), value_of(x.correlation()), value_of(x.operator_kind()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::correlation_clause& x, F&& f) { (void) x; (void) f;
    f("correlation_name", x.correlation_name());
    f("column_names", x.column_names());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::correlation_clause& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.correlation_name()), value_of(x.column_names()), value_of(x.region()));
    b.constructor(true, moved_of(x.correlation_name()), list_of(x.column_names()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::join& x, F&& f) { (void) x; (void) f;
    f("operator_kind", x.operator_kind());
    f("left", x.left());
    f("right", x.right());
    f("specification", x.specification());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::join& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.left()), value_of(x.operator_kind()), value_of(x.right()), value_of(x.specification()), value_of(x.region()));
    b.constructor(true, moved_of(x.left()), value_of(x.operator_kind()), moved_of(x.right()), pointer_of(x.specification()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::join_columns& x, F&& f) { (void) x; (void) f;
    f("columns", x.columns());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::join_columns& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.columns()), value_of(x.region()));
    b.constructor(true, list_of(x.columns()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::join_condition& x, F&& f) { (void) x; (void) f;
    f("expression", x.expression());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::join_condition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.expression()), value_of(x.region()));
    b.constructor(true, moved_of(x.expression()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::subquery& x, F&& f) { (void) x; (void) f;
    f("expression", x.expression());
    f("correlation", x.correlation());
    f("is_lateral", x.is_lateral());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::subquery& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.is_lateral()), value_of(x.expression()), value_of(x.correlation()), value_of(x.region()));
    b.constructor(true, moved_of(x.expression()), value_of(x.correlation()), value_of(x.is_lateral()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::table_reference& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("correlation", x.correlation());
    f("is_only", x.is_only());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::table_reference& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.is_only()), value_of(x.name()), value_of(x.correlation()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), value_of(x.correlation()), value_of(x.is_only()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::table::unnest& x, F&& f) { (void) x; (void) f;
    f("expression", x.expression());
    f("with_ordinality", x.with_ordinality());
    f("correlation", x.correlation());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::table::unnest& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.expression()), value_of(x.with_ordinality()), value_of(x.correlation()), value_of(x.region()));
    b.constructor(true, moved_of(x.expression()), value_of(x.correlation()), value_of(x.with_ordinality()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::binary_numeric& x, F&& f) { (void) x; (void) f;
    f("type_kind", x.type_kind());
    f("precision", x.precision());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::binary_numeric& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type_kind()), value_of(x.precision()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::bit_string& x, F&& f) { (void) x; (void) f;
    f("type_kind", x.type_kind());
    f("length", x.length());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::bit_string& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type_kind()), value_of(x.length()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::character_string& x, F&& f) { (void) x; (void) f;
    f("type_kind", x.type_kind());
    f("length", x.length());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::character_string& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type_kind()), value_of(x.length()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::collection& x, F&& f) { (void) x; (void) f;
    f("element", x.element());
    f("length", x.length());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::collection& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.element()), value_of(x.length()), value_of(x.region()));
    b.constructor(true, moved_of(x.element()), value_of(x.length()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::datetime& x, F&& f) { (void) x; (void) f;
    f("type_kind", x.type_kind());
    f("has_time_zone", x.has_time_zone());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::datetime& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type_kind()), value_of(x.has_time_zone()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::decimal& x, F&& f) { (void) x; (void) f;
    f("type_kind", x.type_kind());
    f("precision", x.precision());
    f("scale", x.scale());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::decimal& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type_kind()), value_of(x.precision()), value_of(x.scale()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::field_definition& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("type", x.type());
    f("collation", x.collation());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::field_definition& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.type()), value_of(x.collation()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), moved_of(x.type()), pointer_of(x.collation()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::interval& x, F&& f) { (void) x; (void) f;
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::interval& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::octet_string& x, F&& f) { (void) x; (void) f;
    f("type_kind", x.type_kind());
    f("length", x.length());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::octet_string& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.type_kind()), value_of(x.length()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::row& x, F&& f) { (void) x; (void) f;
    f("elements", x.elements());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::row& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.elements()), value_of(x.region()));
    b.constructor(true, value_of(x.elements()), value_of(x.region()));
}
template<class F> void each(mizugaki::ast::type::simple& x, F&& f) { (void) x; (void) f;
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::simple& x, B&& b) { (void) x; (void) b;
}
template<class F> void each(mizugaki::ast::type::user_defined& x, F&& f) { (void) x; (void) f;
    f("name", x.name());
    f("region", x.region());
}
template<class B> void build(mizugaki::ast::type::user_defined& x, B&& b) { (void) x; (void) b;
    b.constructor(true, value_of(x.name()), value_of(x.region()));
    b.constructor(true, moved_of(x.name()), value_of(x.region()));
}
#define REFLECT_NODES(M) \
    M(mizugaki::ast::literal::boolean) \
    M(mizugaki::ast::literal::datetime) \
    M(mizugaki::ast::literal::interval) \
    M(mizugaki::ast::literal::numeric) \
    M(mizugaki::ast::literal::string) \
    M(mizugaki::ast::name::qualified) \
    M(mizugaki::ast::name::simple) \
    M(mizugaki::ast::query::binary_expression) \
    M(mizugaki::ast::query::grouping_column) \
    M(mizugaki::ast::query::query) \
    M(mizugaki::ast::query::select_asterisk) \
    M(mizugaki::ast::query::select_column) \
    M(mizugaki::ast::query::table_reference) \
    M(mizugaki::ast::query::table_value_constructor) \
    M(mizugaki::ast::query::with_expression) \
    M(mizugaki::ast::scalar::between_predicate) \
    M(mizugaki::ast::scalar::binary_expression) \
    M(mizugaki::ast::scalar::builtin_function_invocation) \
    M(mizugaki::ast::scalar::builtin_set_function_invocation) \
    M(mizugaki::ast::scalar::case_expression) \
    M(mizugaki::ast::scalar::cast_expression) \
    M(mizugaki::ast::scalar::comparison_predicate) \
    M(mizugaki::ast::scalar::current_of_cursor) \
    M(mizugaki::ast::scalar::extract_expression) \
    M(mizugaki::ast::scalar::field_reference) \
    M(mizugaki::ast::scalar::function_invocation) \
    M(mizugaki::ast::scalar::host_parameter_reference) \
    M(mizugaki::ast::scalar::in_predicate) \
    M(mizugaki::ast::scalar::literal_expression) \
    M(mizugaki::ast::scalar::method_invocation) \
    M(mizugaki::ast::scalar::new_invocation) \
    M(mizugaki::ast::scalar::pattern_match_predicate) \
    M(mizugaki::ast::scalar::placeholder_reference) \
    M(mizugaki::ast::scalar::quantified_comparison_predicate) \
    M(mizugaki::ast::scalar::static_method_invocation) \
    M(mizugaki::ast::scalar::subquery) \
    M(mizugaki::ast::scalar::table_predicate) \
    M(mizugaki::ast::scalar::trim_expression) \
    M(mizugaki::ast::scalar::unary_expression) \
    M(mizugaki::ast::scalar::value_constructor) \
    M(mizugaki::ast::scalar::variable_reference) \
    M(mizugaki::ast::statement::alter_index_statement) \
    M(mizugaki::ast::statement::alter_table_statement) \
    M(mizugaki::ast::statement::column_definition) \
    M(mizugaki::ast::statement::delete_statement) \
    M(mizugaki::ast::statement::drop_statement) \
    M(mizugaki::ast::statement::empty_statement) \
    M(mizugaki::ast::statement::expression_constraint) \
    M(mizugaki::ast::statement::grant_privilege_statement) \
    M(mizugaki::ast::statement::identity_constraint) \
    M(mizugaki::ast::statement::index_definition) \
    M(mizugaki::ast::statement::insert_statement) \
    M(mizugaki::ast::statement::key_constraint) \
    M(mizugaki::ast::statement::referential_constraint) \
    M(mizugaki::ast::statement::rename_column_action) \
    M(mizugaki::ast::statement::rename_index_action) \
    M(mizugaki::ast::statement::rename_table_action) \
    M(mizugaki::ast::statement::revoke_privilege_statement) \
    M(mizugaki::ast::statement::schema_definition) \
    M(mizugaki::ast::statement::select_statement) \
    M(mizugaki::ast::statement::sequence_definition) \
    M(mizugaki::ast::statement::simple_constraint) \
    M(mizugaki::ast::statement::table_constraint_definition) \
    M(mizugaki::ast::statement::table_definition) \
    M(mizugaki::ast::statement::truncate_table_statement) \
    M(mizugaki::ast::statement::update_statement) \
    M(mizugaki::ast::statement::view_definition) \
    M(mizugaki::ast::table::apply) \
    M(mizugaki::ast::table::join) \
    M(mizugaki::ast::table::join_columns) \
    M(mizugaki::ast::table::join_condition) \
    M(mizugaki::ast::table::subquery) \
    M(mizugaki::ast::table::table_reference) \
    M(mizugaki::ast::table::unnest) \
    M(mizugaki::ast::type::binary_numeric) \
    M(mizugaki::ast::type::bit_string) \
    M(mizugaki::ast::type::character_string) \
    M(mizugaki::ast::type::collection) \
    M(mizugaki::ast::type::datetime) \
    M(mizugaki::ast::type::decimal) \
    M(mizugaki::ast::type::interval) \
    M(mizugaki::ast::type::octet_string) \
    M(mizugaki::ast::type::row) \
    M(mizugaki::ast::type::simple) \
    M(mizugaki::ast::type::user_defined)
#define REFLECT_ENUMS(M) \
    M(mizugaki::ast::common::null_ordering_specification, mizugaki::ast::common::null_ordering_specification::first, mizugaki::ast::common::null_ordering_specification::last) \
    M(mizugaki::ast::common::ordering_specification, mizugaki::ast::common::ordering_specification::asc, mizugaki::ast::common::ordering_specification::desc) \
    M(mizugaki::ast::literal::boolean_kind, mizugaki::ast::literal::boolean_kind::true_, mizugaki::ast::literal::boolean_kind::false_, mizugaki::ast::literal::boolean_kind::unknown) \
    M(mizugaki::ast::literal::kind, mizugaki::ast::literal::kind::boolean, mizugaki::ast::literal::kind::exact_numeric, mizugaki::ast::literal::kind::approximate_numeric, mizugaki::ast::literal::kind::character_string, mizugaki::ast::literal::kind::bit_string, mizugaki::ast::literal::kind::hex_string, mizugaki::ast::literal::kind::date, mizugaki::ast::literal::kind::time, mizugaki::ast::literal::kind::time_with_time_zone, mizugaki::ast::literal::kind::timestamp, mizugaki::ast::literal::kind::timestamp_with_time_zone, mizugaki::ast::literal::kind::interval, mizugaki::ast::literal::kind::null, mizugaki::ast::literal::kind::empty, mizugaki::ast::literal::kind::default_) \
    M(mizugaki::ast::literal::sign, mizugaki::ast::literal::sign::plus, mizugaki::ast::literal::sign::minus) \
    M(mizugaki::ast::name::identifier_kind, mizugaki::ast::name::identifier_kind::regular, mizugaki::ast::name::identifier_kind::delimited) \
    M(mizugaki::ast::name::kind, mizugaki::ast::name::kind::simple, mizugaki::ast::name::kind::qualified) \
    M(mizugaki::ast::query::binary_operator, mizugaki::ast::query::binary_operator::union_, mizugaki::ast::query::binary_operator::outer_union, mizugaki::ast::query::binary_operator::except, mizugaki::ast::query::binary_operator::intersect) \
    M(mizugaki::ast::query::grouping_element_kind, mizugaki::ast::query::grouping_element_kind::column) \
    M(mizugaki::ast::query::kind, mizugaki::ast::query::kind::query, mizugaki::ast::query::kind::table_reference, mizugaki::ast::query::kind::table_value_constructor, mizugaki::ast::query::kind::binary_expression, mizugaki::ast::query::kind::with_expression) \
    M(mizugaki::ast::query::select_element_kind, mizugaki::ast::query::select_element_kind::column, mizugaki::ast::query::select_element_kind::asterisk) \
    M(mizugaki::ast::scalar::between_operator, mizugaki::ast::scalar::between_operator::asymmetric, mizugaki::ast::scalar::between_operator::symmetric) \
    M(mizugaki::ast::scalar::binary_operator, mizugaki::ast::scalar::binary_operator::plus, mizugaki::ast::scalar::binary_operator::minus, mizugaki::ast::scalar::binary_operator::asterisk, mizugaki::ast::scalar::binary_operator::solidus, mizugaki::ast::scalar::binary_operator::percent, mizugaki::ast::scalar::binary_operator::concatenation, mizugaki::ast::scalar::binary_operator::element_reference, mizugaki::ast::scalar::binary_operator::at_time_zone, mizugaki::ast::scalar::binary_operator::and_, mizugaki::ast::scalar::binary_operator::or_, mizugaki::ast::scalar::binary_operator::is, mizugaki::ast::scalar::binary_operator::is_not, mizugaki::ast::scalar::binary_operator::overlaps, mizugaki::ast::scalar::binary_operator::is_distinct_from, mizugaki::ast::scalar::binary_operator::contains, mizugaki::ast::scalar::binary_operator::is_contained_by, mizugaki::ast::scalar::binary_operator::have_elements_in_common) \
    M(mizugaki::ast::scalar::builtin_function_kind, mizugaki::ast::scalar::builtin_function_kind::position, mizugaki::ast::scalar::builtin_function_kind::length, mizugaki::ast::scalar::builtin_function_kind::character_length, mizugaki::ast::scalar::builtin_function_kind::octet_length, mizugaki::ast::scalar::builtin_function_kind::bit_length, mizugaki::ast::scalar::builtin_function_kind::cardinality, mizugaki::ast::scalar::builtin_function_kind::abs, mizugaki::ast::scalar::builtin_function_kind::ceil, mizugaki::ast::scalar::builtin_function_kind::floor, mizugaki::ast::scalar::builtin_function_kind::mod, mizugaki::ast::scalar::builtin_function_kind::substring, mizugaki::ast::scalar::builtin_function_kind::upper, mizugaki::ast::scalar::builtin_function_kind::lower, mizugaki::ast::scalar::builtin_function_kind::convert, mizugaki::ast::scalar::builtin_function_kind::translate, mizugaki::ast::scalar::builtin_function_kind::overlay, mizugaki::ast::scalar::builtin_function_kind::current_date, mizugaki::ast::scalar::builtin_function_kind::current_time, mizugaki::ast::scalar::builtin_function_kind::localtime, mizugaki::ast::scalar::builtin_function_kind::current_timestamp, mizugaki::ast::scalar::builtin_function_kind::localtimestamp, mizugaki::ast::scalar::builtin_function_kind::nullif, mizugaki::ast::scalar::builtin_function_kind::coalesce, mizugaki::ast::scalar::builtin_function_kind::next_value_for, mizugaki::ast::scalar::builtin_function_kind::user, mizugaki::ast::scalar::builtin_function_kind::current_user, mizugaki::ast::scalar::builtin_function_kind::current_role, mizugaki::ast::scalar::builtin_function_kind::system_user, mizugaki::ast::scalar::builtin_function_kind::current_path) \
    M(mizugaki::ast::scalar::builtin_set_function_kind, mizugaki::ast::scalar::builtin_set_function_kind::avg, mizugaki::ast::scalar::builtin_set_function_kind::max, mizugaki::ast::scalar::builtin_set_function_kind::min, mizugaki::ast::scalar::builtin_set_function_kind::sum, mizugaki::ast::scalar::builtin_set_function_kind::every, mizugaki::ast::scalar::builtin_set_function_kind::any, mizugaki::ast::scalar::builtin_set_function_kind::some, mizugaki::ast::scalar::builtin_set_function_kind::count, mizugaki::ast::scalar::builtin_set_function_kind::bit_and, mizugaki::ast::scalar::builtin_set_function_kind::bit_or, mizugaki::ast::scalar::builtin_set_function_kind::bool_and, mizugaki::ast::scalar::builtin_set_function_kind::bool_or) \
    M(mizugaki::ast::scalar::cast_operator, mizugaki::ast::scalar::cast_operator::cast, mizugaki::ast::scalar::cast_operator::treat, mizugaki::ast::scalar::cast_operator::generalize) \
    M(mizugaki::ast::scalar::comparison_operator, mizugaki::ast::scalar::comparison_operator::equals, mizugaki::ast::scalar::comparison_operator::not_equals, mizugaki::ast::scalar::comparison_operator::not_equals_alternative, mizugaki::ast::scalar::comparison_operator::less_than, mizugaki::ast::scalar::comparison_operator::greater_than, mizugaki::ast::scalar::comparison_operator::less_than_or_equals, mizugaki::ast::scalar::comparison_operator::greater_than_or_equals) \
    M(mizugaki::ast::scalar::expression_context_kind, mizugaki::ast::scalar::expression_context_kind::scalar, mizugaki::ast::scalar::expression_context_kind::row) \
    M(mizugaki::ast::scalar::extract_field_kind, mizugaki::ast::scalar::extract_field_kind::year, mizugaki::ast::scalar::extract_field_kind::month, mizugaki::ast::scalar::extract_field_kind::day, mizugaki::ast::scalar::extract_field_kind::hour, mizugaki::ast::scalar::extract_field_kind::minute, mizugaki::ast::scalar::extract_field_kind::second, mizugaki::ast::scalar::extract_field_kind::timezone_hour, mizugaki::ast::scalar::extract_field_kind::timezone_minute, mizugaki::ast::scalar::extract_field_kind::date, mizugaki::ast::scalar::extract_field_kind::year_to_month, mizugaki::ast::scalar::extract_field_kind::year_to_day, mizugaki::ast::scalar::extract_field_kind::year_to_hour, mizugaki::ast::scalar::extract_field_kind::year_to_minute, mizugaki::ast::scalar::extract_field_kind::year_to_second) \
    M(mizugaki::ast::scalar::kind, mizugaki::ast::scalar::kind::literal_expression, mizugaki::ast::scalar::kind::variable_reference, mizugaki::ast::scalar::kind::host_parameter_reference, mizugaki::ast::scalar::kind::field_reference, mizugaki::ast::scalar::kind::case_expression, mizugaki::ast::scalar::kind::cast_expression, mizugaki::ast::scalar::kind::unary_expression, mizugaki::ast::scalar::kind::binary_expression, mizugaki::ast::scalar::kind::extract_expression, mizugaki::ast::scalar::kind::trim_expression, mizugaki::ast::scalar::kind::value_constructor, mizugaki::ast::scalar::kind::subquery, mizugaki::ast::scalar::kind::comparison_predicate, mizugaki::ast::scalar::kind::quantified_comparison_predicate, mizugaki::ast::scalar::kind::between_predicate, mizugaki::ast::scalar::kind::in_predicate, mizugaki::ast::scalar::kind::pattern_match_predicate, mizugaki::ast::scalar::kind::table_predicate, mizugaki::ast::scalar::kind::function_invocation, mizugaki::ast::scalar::kind::builtin_function_invocation, mizugaki::ast::scalar::kind::builtin_set_function_invocation, mizugaki::ast::scalar::kind::new_invocation, mizugaki::ast::scalar::kind::method_invocation, mizugaki::ast::scalar::kind::static_method_invocation, mizugaki::ast::scalar::kind::current_of_cursor, mizugaki::ast::scalar::kind::placeholder_reference) \
    M(mizugaki::ast::scalar::pattern_match_operator, mizugaki::ast::scalar::pattern_match_operator::like, mizugaki::ast::scalar::pattern_match_operator::similar_to) \
    M(mizugaki::ast::scalar::quantifier, mizugaki::ast::scalar::quantifier::all, mizugaki::ast::scalar::quantifier::some, mizugaki::ast::scalar::quantifier::any) \
    M(mizugaki::ast::scalar::reference_operator, mizugaki::ast::scalar::reference_operator::period, mizugaki::ast::scalar::reference_operator::arrow) \
    M(mizugaki::ast::scalar::set_quantifier, mizugaki::ast::scalar::set_quantifier::distinct, mizugaki::ast::scalar::set_quantifier::all) \
    M(mizugaki::ast::scalar::table_operator, mizugaki::ast::scalar::table_operator::exists, mizugaki::ast::scalar::table_operator::unique) \
    M(mizugaki::ast::scalar::trim_specification, mizugaki::ast::scalar::trim_specification::leading, mizugaki::ast::scalar::trim_specification::trailing, mizugaki::ast::scalar::trim_specification::both) \
    M(mizugaki::ast::scalar::unary_operator, mizugaki::ast::scalar::unary_operator::plus, mizugaki::ast::scalar::unary_operator::minus, mizugaki::ast::scalar::unary_operator::not_, mizugaki::ast::scalar::unary_operator::at_local, mizugaki::ast::scalar::unary_operator::reference_resolution) \
    M(mizugaki::ast::scalar::value_constructor_kind, mizugaki::ast::scalar::value_constructor_kind::array, mizugaki::ast::scalar::value_constructor_kind::row) \
    M(mizugaki::ast::statement::alter_index_action_kind, mizugaki::ast::statement::alter_index_action_kind::rename_index) \
    M(mizugaki::ast::statement::alter_table_action_kind, mizugaki::ast::statement::alter_table_action_kind::rename_table, mizugaki::ast::statement::alter_table_action_kind::rename_column) \
    M(mizugaki::ast::statement::constraint_kind, mizugaki::ast::statement::constraint_kind::check, mizugaki::ast::statement::constraint_kind::unique, mizugaki::ast::statement::constraint_kind::primary_key, mizugaki::ast::statement::constraint_kind::referential, mizugaki::ast::statement::constraint_kind::null, mizugaki::ast::statement::constraint_kind::not_null, mizugaki::ast::statement::constraint_kind::default_clause, mizugaki::ast::statement::constraint_kind::generation_clause, mizugaki::ast::statement::constraint_kind::identity_column) \
    M(mizugaki::ast::statement::drop_statement_option, mizugaki::ast::statement::drop_statement_option::if_exists, mizugaki::ast::statement::drop_statement_option::restrict, mizugaki::ast::statement::drop_statement_option::cascade) \
    M(mizugaki::ast::statement::identity_column_restart_option, mizugaki::ast::statement::identity_column_restart_option::continue_identity, mizugaki::ast::statement::identity_column_restart_option::restart_identity) \
    M(mizugaki::ast::statement::identity_generation_type, mizugaki::ast::statement::identity_generation_type::always, mizugaki::ast::statement::identity_generation_type::by_default) \
    M(mizugaki::ast::statement::index_definition_option, mizugaki::ast::statement::index_definition_option::unique, mizugaki::ast::statement::index_definition_option::if_not_exists) \
    M(mizugaki::ast::statement::insert_statement_option, mizugaki::ast::statement::insert_statement_option::or_replace, mizugaki::ast::statement::insert_statement_option::or_ignore) \
    M(mizugaki::ast::statement::kind, mizugaki::ast::statement::kind::select_statement, mizugaki::ast::statement::kind::insert_statement, mizugaki::ast::statement::kind::update_statement, mizugaki::ast::statement::kind::delete_statement, mizugaki::ast::statement::kind::table_definition, mizugaki::ast::statement::kind::index_definition, mizugaki::ast::statement::kind::view_definition, mizugaki::ast::statement::kind::sequence_definition, mizugaki::ast::statement::kind::schema_definition, mizugaki::ast::statement::kind::alter_table_statement, mizugaki::ast::statement::kind::alter_index_statement, mizugaki::ast::statement::kind::drop_table_statement, mizugaki::ast::statement::kind::drop_index_statement, mizugaki::ast::statement::kind::drop_view_statement, mizugaki::ast::statement::kind::drop_sequence_statement, mizugaki::ast::statement::kind::drop_schema_statement, mizugaki::ast::statement::kind::truncate_table_statement, mizugaki::ast::statement::kind::grant_privilege_statement, mizugaki::ast::statement::kind::revoke_privilege_statement, mizugaki::ast::statement::kind::empty_statement) \
    M(mizugaki::ast::statement::privilege_action_kind, mizugaki::ast::statement::privilege_action_kind::all_privileges, mizugaki::ast::statement::privilege_action_kind::select, mizugaki::ast::statement::privilege_action_kind::insert, mizugaki::ast::statement::privilege_action_kind::update, mizugaki::ast::statement::privilege_action_kind::delete_) \
    M(mizugaki::ast::statement::privilege_object_kind, mizugaki::ast::statement::privilege_object_kind::table, mizugaki::ast::statement::privilege_object_kind::schema) \
    M(mizugaki::ast::statement::privilege_user_kind, mizugaki::ast::statement::privilege_user_kind::identifier, mizugaki::ast::statement::privilege_user_kind::all_users, mizugaki::ast::statement::privilege_user_kind::current_user, mizugaki::ast::statement::privilege_user_kind::public_) \
    M(mizugaki::ast::statement::referential_action, mizugaki::ast::statement::referential_action::cascade, mizugaki::ast::statement::referential_action::set_null, mizugaki::ast::statement::referential_action::set_default, mizugaki::ast::statement::referential_action::restrict, mizugaki::ast::statement::referential_action::no_action) \
    M(mizugaki::ast::statement::schema_definition_option, mizugaki::ast::statement::schema_definition_option::if_not_exists) \
    M(mizugaki::ast::statement::sequence_definition_option, mizugaki::ast::statement::sequence_definition_option::cycle, mizugaki::ast::statement::sequence_definition_option::no_cycle, mizugaki::ast::statement::sequence_definition_option::temporary, mizugaki::ast::statement::sequence_definition_option::if_not_exists) \
    M(mizugaki::ast::statement::table_definition_option, mizugaki::ast::statement::table_definition_option::temporary, mizugaki::ast::statement::table_definition_option::if_not_exists) \
    M(mizugaki::ast::statement::table_element_kind, mizugaki::ast::statement::table_element_kind::column_definition, mizugaki::ast::statement::table_element_kind::constraint_definition) \
    M(mizugaki::ast::statement::view_definition_option, mizugaki::ast::statement::view_definition_option::or_replace, mizugaki::ast::statement::view_definition_option::temporary, mizugaki::ast::statement::view_definition_option::recursive, mizugaki::ast::statement::view_definition_option::if_not_exists) \
    M(mizugaki::ast::table::apply_type, mizugaki::ast::table::apply_type::cross, mizugaki::ast::table::apply_type::outer) \
    M(mizugaki::ast::table::join_specification_kind, mizugaki::ast::table::join_specification_kind::condition, mizugaki::ast::table::join_specification_kind::columns) \
    M(mizugaki::ast::table::join_type, mizugaki::ast::table::join_type::cross, mizugaki::ast::table::join_type::inner, mizugaki::ast::table::join_type::left_outer, mizugaki::ast::table::join_type::right_outer, mizugaki::ast::table::join_type::full_outer, mizugaki::ast::table::join_type::natural_inner, mizugaki::ast::table::join_type::natural_left_outer, mizugaki::ast::table::join_type::natural_right_outer, mizugaki::ast::table::join_type::natural_full_outer, mizugaki::ast::table::join_type::union_) \
    M(mizugaki::ast::table::kind, mizugaki::ast::table::kind::table_reference, mizugaki::ast::table::kind::unnest, mizugaki::ast::table::kind::join, mizugaki::ast::table::kind::subquery, mizugaki::ast::table::kind::apply) \
    M(mizugaki::ast::type::kind, mizugaki::ast::type::kind::unknown, mizugaki::ast::type::kind::character, mizugaki::ast::type::kind::character_varying, mizugaki::ast::type::kind::character_large_object, mizugaki::ast::type::kind::bit, mizugaki::ast::type::kind::bit_varying, mizugaki::ast::type::kind::octet, mizugaki::ast::type::kind::octet_varying, mizugaki::ast::type::kind::binary_large_object, mizugaki::ast::type::kind::numeric, mizugaki::ast::type::kind::decimal, mizugaki::ast::type::kind::tiny_integer, mizugaki::ast::type::kind::small_integer, mizugaki::ast::type::kind::integer, mizugaki::ast::type::kind::big_integer, mizugaki::ast::type::kind::float_, mizugaki::ast::type::kind::real, mizugaki::ast::type::kind::double_precision, mizugaki::ast::type::kind::binary_integer, mizugaki::ast::type::kind::binary_float, mizugaki::ast::type::kind::boolean, mizugaki::ast::type::kind::date, mizugaki::ast::type::kind::time, mizugaki::ast::type::kind::timestamp, mizugaki::ast::type::kind::interval, mizugaki::ast::type::kind::row, mizugaki::ast::type::kind::user_defined, mizugaki::ast::type::kind::collection)
} // namespace reflect
