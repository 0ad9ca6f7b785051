R("program", "@statement_list", "<END_OF_FILE>")
R("statement_list", "@statement_list", ";", "@statement")
R("statement_list", "@statement")
R("statement", "@query_expression")
R("statement", "@insert_operation", "INTO", "@table_name", "@insert_source")
R("statement", "@insert_operation", "INTO", "@table_name", "(", "@column_name_list", ")", "@insert_source")
R("statement", "UPDATE", "@target_table", "@table_alias_clause_opt", "SET", "@set_clause_list", "@manipulate_where_clause_opt")
R("statement", "DELETE", "FROM", "@target_table", "@table_alias_clause_opt", "@manipulate_where_clause_opt")
R("statement", "CREATE", "SCHEMA", "@if_not_exists_opt", "@schema_name_opt", "@schema_authorization_opt", "@schema_element_list_opt")
R("statement", "@schema_element")
R("statement", "ALTER", "TABLE", "@if_exists_opt", "@table_name", "@alter_table_action")
R("statement", "ALTER", "INDEX", "@if_exists_opt", "@table_name", "@alter_index_action")
R("statement", "DROP", "TABLE", "@if_exists_opt", "@table_name", "@drop_behavior_opt")
R("statement", "DROP", "INDEX", "@if_exists_opt", "@table_name", "@drop_behavior_opt")
R("statement", "DROP", "VIEW", "@if_exists_opt", "@table_name", "@drop_behavior_opt")
R("statement", "DROP", "SEQUENCE", "@if_exists_opt", "@table_name", "@drop_behavior_opt")
R("statement", "DROP", "SCHEMA", "@if_exists_opt", "@schema_name", "@drop_behavior_opt")
R("statement", "TRUNCATE", "TABLE", "@table_name", "@identity_column_restart_option_opt")
R("statement", "GRANT", "@privilege_list", "ON", "@privilege_object_list", "TO", "@privilege_user_list")
R("statement", "REVOKE", "@privilege_list", "ON", "@privilege_object_list", "FROM", "@privilege_user_list")
R("statement")
R("insert_operation", "INSERT")
R("insert_operation", "INSERT", "OR", "REPLACE")
R("insert_operation", "INSERT", "OR", "IGNORE")
R("insert_operation", "INSERT", "IF", "NOT", "EXISTS")
R("insert_operation", "UPDATE", "OR", "INSERT")
R("insert_source", "@query_expression")
R("insert_source", "DEFAULT", "VALUES")
R("schema_authorization_opt", "AUTHORIZATION", "@user_identifier")
R("schema_authorization_opt", "AUTHORIZATION", "CURRENT_ROLE")
R("schema_authorization_opt", "AUTHORIZATION", "CURRENT_USER")
R("schema_authorization_opt", "AUTHORIZATION", "SESSION_USER")
R("schema_authorization_opt")
R("schema_element_list_opt", "@schema_element_list_opt", "@schema_element")
R("schema_element_list_opt")
R("schema_element", "CREATE", "@temporary_opt", "TABLE", "@if_not_exists_opt", "@table_name", "(", "@table_element_list_opt", ")", "@storage_parameter_list_opt")
R("schema_element", "CREATE", "@unique_opt", "INDEX", "@if_not_exists_opt", "@table_name_opt", "ON", "@table_name", "(", "@sort_specification_list", ")", "@index_value_list_opt", "@storage_parameter_list_opt", "@manipulate_where_clause_opt")
R("schema_element", "CREATE", "@temporary_opt", "@recursive_opt", "VIEW", "@if_not_exists_opt", "@table_name", "@column_list_opt", "@storage_parameter_list_opt", "AS", "@query_expression")
R("schema_element", "CREATE", "OR", "REPLACE", "@temporary_opt", "@recursive_opt", "VIEW", "@if_not_exists_opt", "@table_name", "@column_list_opt", "@storage_parameter_list_opt", "AS", "@query_expression")
R("schema_element", "CREATE", "@temporary_opt", "SEQUENCE", "@if_not_exists_opt", "@table_name", "@sequence_options")
R("table_element_list_opt", "@table_element_list")
R("table_element_list_opt")
R("table_element_list", "@table_element_list", ",", "@table_element")
R("table_element_list", "@table_element")
R("table_element", "@column_name", "@data_type", "@column_constraint_definition_list")
R("table_element", "CONSTRAINT", "@constraint_name", "@table_constraint_body")
R("table_element", "@table_constraint_body")
R("table_constraint_body", "CHECK", "(", "@scalar_value_expression", ")")
R("table_constraint_body", "UNIQUE", "(", "@sort_specification_list", ")", "@index_value_list_opt", "@storage_parameter_list_opt")
R("table_constraint_body", "PRIMARY", "KEY", "(", "@sort_specification_list", ")", "@index_value_list_opt", "@storage_parameter_list_opt")
R("table_constraint_body", "FOREIGN", "KEY", "(", "@column_name_list", ")", "REFERENCES", "@table_name", "@column_name_list_opt", "@referential_actions")
R("column_constraint_definition_list", "@column_constraint_definition_list", "@column_constraint_definition")
R("column_constraint_definition_list")
R("column_constraint_definition", "CONSTRAINT", "@constraint_name", "@column_constraint_body")
R("column_constraint_definition", "@column_constraint_body")
R("column_constraint_body", "NULL")
R("column_constraint_body", "NOT", "NULL")
R("column_constraint_body", "CHECK", "(", "@scalar_value_expression", ")")
R("column_constraint_body", "DEFAULT", "@scalar_value_expression")
R("column_constraint_body", "GENERATED", "ALWAYS", "AS", "(", "@scalar_value_expression", ")")
R("column_constraint_body", "GENERATED", "ALWAYS", "AS", "IDENTITY", "@common_sequence_options_opt")
R("column_constraint_body", "GENERATED", "BY", "DEFAULT", "AS", "IDENTITY", "@common_sequence_options_opt")
R("column_constraint_body", "UNIQUE", "@index_value_list_opt", "@storage_parameter_list_opt")
R("column_constraint_body", "PRIMARY", "KEY", "@index_value_list_opt", "@storage_parameter_list_opt")
R("column_constraint_body", "REFERENCES", "@table_name", "@column_name_list_opt", "@referential_actions")
R("index_value_list_opt", "INCLUDE", "(", "@index_value_list_body_opt", ")")
R("index_value_list_opt")
R("index_value_list_body_opt", "@index_value_list_body")
R("index_value_list_body_opt")
R("index_value_list_body", "@index_value_list_body", ",", "@scalar_value_expression")
R("index_value_list_body", "@scalar_value_expression")
R("referential_actions", "ON", "UPDATE", "@referential_action_kind")
R("referential_actions", "ON", "DELETE", "@referential_action_kind")
R("referential_actions", "ON", "UPDATE", "@referential_action_kind", "ON", "DELETE", "@referential_action_kind")
R("referential_actions", "ON", "DELETE", "@referential_action_kind", "ON", "UPDATE", "@referential_action_kind")
R("referential_actions")
R("referential_action_kind", "CASCADE")
R("referential_action_kind", "SET", "NULL")
R("referential_action_kind", "SET", "DEFAULT")
R("referential_action_kind", "RESTRICT")
R("referential_action_kind", "NO", "ACTION")
R("sequence_options", "@sequence_options", "@sequence_option")
R("sequence_options")
R("sequence_option", "AS", "@data_type")
R("sequence_option", "OWNED", "BY", "@identifier_chain")
R("sequence_option", "@common_sequence_option")
R("common_sequence_options_opt", "(", "@common_sequence_options", ")")
R("common_sequence_options_opt")
R("common_sequence_options", "@common_sequence_options", "@common_sequence_option")
R("common_sequence_options")
R("common_sequence_option", "START", "WITH", "@scalar_value_expression")
R("common_sequence_option", "START", "@scalar_value_expression")
R("common_sequence_option", "@basic_sequence_option")
R("basic_sequence_option", "INCREMENT", "BY", "@scalar_value_expression")
R("basic_sequence_option", "INCREMENT", "@scalar_value_expression")
R("basic_sequence_option", "MAXVALUE", "@scalar_value_expression")
R("basic_sequence_option", "NO", "MAXVALUE")
R("basic_sequence_option", "MINVALUE", "@scalar_value_expression")
R("basic_sequence_option", "NO", "MINVALUE")
R("basic_sequence_option", "CYCLE")
R("basic_sequence_option", "NO", "CYCLE")
R("storage_parameter_list_opt", "WITH", "(", "@storage_parameter_list_body_opt", ")")
R("storage_parameter_list_opt")
R("storage_parameter_list_body_opt", "@storage_parameter_list_body")
R("storage_parameter_list_body_opt")
R("storage_parameter_list_body", "@storage_parameter_list_body", ",", "@storage_parameter")
R("storage_parameter_list_body", "@storage_parameter")
R("storage_parameter", "@identifier_chain")
R("storage_parameter", "@identifier_chain", "=", "@storage_parameter_value")
R("storage_parameter_value", "@scalar_value_expression")
R("target_table", "@table_name")
R("table_alias_clause_opt", "AS", "@correlation_name")
R("table_alias_clause_opt", "@correlation_name")
R("table_alias_clause_opt")
R("set_clause_list", "@set_clause_list", ",", "@set_clause")
R("set_clause_list", "@set_clause")
R("set_clause", "@identifier_chain", "=", "@value_expression")
R("manipulate_where_clause_opt")
R("manipulate_where_clause_opt", "WHERE", "@value_expression")
R("manipulate_where_clause_opt", "WHERE", "CURRENT", "OF", "@cursor_name")
R("temporary_opt")
R("temporary_opt", "TEMPORARY")
R("unique_opt")
R("unique_opt", "UNIQUE")
R("if_exists_opt")
R("if_exists_opt", "IF", "EXISTS")
R("if_not_exists_opt")
R("if_not_exists_opt", "IF", "NOT", "EXISTS")
R("alter_table_action", "RENAME", "TO", "@identifier")
R("alter_table_action", "RENAME", "COLUMN", "@if_exists_opt", "@column_name", "TO", "@identifier")
R("alter_index_action", "RENAME", "TO", "@identifier")
R("drop_behavior_opt")
R("drop_behavior_opt", "CASCADE")
R("drop_behavior_opt", "RESTRICT")
R("identity_column_restart_option_opt")
R("identity_column_restart_option_opt", "RESTART", "IDENTITY")
R("identity_column_restart_option_opt", "CONTINUE", "IDENTITY")
R("privilege_list", "ALL", "PRIVILEGES")
R("privilege_list", "@privilege_action_list")
R("privilege_action_list", "@privilege_action_list", ",", "@privilege_action")
R("privilege_action_list", "@privilege_action")
R("privilege_action", "SELECT")
R("privilege_action", "INSERT")
R("privilege_action", "UPDATE")
R("privilege_action", "DELETE")
R("privilege_object_list", "@privilege_object_list", ",", "@privilege_object")
R("privilege_object_list", "@privilege_object")
R("privilege_object", "@table_name")
R("privilege_object", "TABLE", "@table_name")
R("privilege_user_list", "@privilege_user_list", ",", "@privilege_user")
R("privilege_user_list", "@privilege_user")
R("privilege_user", "@authorization_identifier")
R("privilege_user", "PUBLIC")
R("privilege_user", "CURRENT_USER")
R("privilege_user", "*")
R("query_expression", "WITH", "@recursive_opt", "@with_list", "@query_body")
R("query_expression", "@query_body_root")
R("recursive_opt")
R("recursive_opt", "RECURSIVE")
R("with_list", "@with_list", ",", "@with_element")
R("with_list", "@with_element")
R("with_element", "@query_name", "@column_list_opt", "AS", "(", "@query_expression", ")")
R("column_list_opt")
R("column_list_opt", "(", "@column_name_list", ")")
R("query_body", "@query_body_part")
R("query_body", "@query_term")
R("query_body_root", "@query_body_part")
R("query_body_root", "@query_term_root")
R("query_body_part", "@query_body", "UNION", "@set_quantifier_opt", "@corresponding_spec_opt", "@query_term")
R("query_body_part", "@query_body", "OUTER", "UNION", "@set_quantifier_opt", "@corresponding_spec_opt", "@query_term")
R("query_body_part", "@query_body", "EXCEPT", "@set_quantifier_opt", "@corresponding_spec_opt", "@query_term")
R("query_term", "@query_term_part")
R("query_term", "@query_factor")
R("query_term_root", "@query_term_part")
R("query_term_root", "@query_factor_root")
R("query_term_part", "@query_term", "INTERSECT", "@set_quantifier_opt", "@corresponding_spec_opt", "@query_factor")
R("query_factor", "@query_primary")
R("query_factor_root", "@query_primary_root")
R("query_primary", "@query_primary_part")
R("query_primary", "(", "@query_expression", ")")
R("query_primary_root", "@query_primary_part")
R("query_primary_part", "SELECT", "@set_quantifier_opt", "@select_list", "FROM", "@table_reference_list", "@where_clause_opt", "@group_by_clause_opt", "@having_clause_opt", "@order_by_clause_opt", "@limit_clause_opt")
R("query_primary_part", "SELECT", "@set_quantifier_opt", "@select_list")
R("query_primary_part", "TABLE", "@table_name")
R("query_primary_part", "VALUES", "@explicit_row_value_expression_list")
R("select_list", "@select_list", ",", "@select_element")
R("select_list", "@select_element")
R("select_element", "*")
R("select_element", "@value_expression", ". *")
R("select_element", "@value_expression", "@as_clause_opt")
R("as_clause_opt")
R("as_clause_opt", "@column_name")
R("as_clause_opt", "AS", "@column_name")
R("table_reference_list", "@table_reference_list", ",", "@table_reference")
R("table_reference_list", "@table_reference")
R("where_clause_opt")
R("where_clause_opt", "WHERE", "@value_expression")
R("group_by_clause_opt")
R("group_by_clause_opt", "GROUP", "BY", "(", ")")
R("group_by_clause_opt", "GROUP", "BY", "@grouping_column_reference_list")
R("grouping_column_reference_list", "@grouping_column_reference_list", ",", "@grouping_column_reference")
R("grouping_column_reference_list", "@grouping_column_reference")
R("grouping_column_reference", "@value_expression", "@collate_clause_opt")
R("collate_clause_opt")
R("collate_clause_opt", "COLLATE", "@identifier_chain")
R("having_clause_opt")
R("having_clause_opt", "HAVING", "@value_expression")
R("order_by_clause_opt")
R("order_by_clause_opt", "ORDER", "BY", "@sort_specification_list")
R("sort_specification_list", "@sort_specification_list", ",", "@sort_specification")
R("sort_specification_list", "@sort_specification")
R("sort_specification", "@value_expression", "@collate_clause_opt", "@ordering_specification_opt", "@null_ordering_specification_opt")
R("ordering_specification_opt")
R("ordering_specification_opt", "ASC")
R("ordering_specification_opt", "DESC")
R("null_ordering_specification_opt")
R("null_ordering_specification_opt", "NULLS", "FIRST")
R("null_ordering_specification_opt", "NULLS", "LAST")
R("limit_clause_opt")
R("limit_clause_opt", "LIMIT", "@value_expression")
R("table_reference", "@joined_table")
R("table_reference", "@table_primary")
R("joined_table", "@table_reference", "CROSS", "JOIN", "@table_primary")
R("joined_table", "@table_reference", "@join_type", "@table_reference", "@join_specification")
R("joined_table", "@table_reference", "@natural_join_type", "@table_primary")
R("joined_table", "@table_reference", "UNION JOIN", "@table_primary")
R("joined_table", "@table_reference", "@apply_type", "@function_name", "@routine_invocation_arguments", "@correlation_clause")
R("join_type", "JOIN")
R("join_type", "INNER", "JOIN")
R("join_type", "LEFT", "JOIN")
R("join_type", "LEFT", "OUTER", "JOIN")
R("join_type", "RIGHT", "JOIN")
R("join_type", "RIGHT", "OUTER", "JOIN")
R("join_type", "FULL", "JOIN")
R("join_type", "FULL", "OUTER", "JOIN")
R("natural_join_type", "NATURAL", "JOIN")
R("natural_join_type", "NATURAL", "INNER", "JOIN")
R("natural_join_type", "NATURAL", "LEFT", "JOIN")
R("natural_join_type", "NATURAL", "LEFT", "OUTER", "JOIN")
R("natural_join_type", "NATURAL", "RIGHT", "JOIN")
R("natural_join_type", "NATURAL", "RIGHT", "OUTER", "JOIN")
R("natural_join_type", "NATURAL", "FULL", "JOIN")
R("natural_join_type", "NATURAL", "FULL", "OUTER", "JOIN")
R("join_specification", "ON", "@value_expression")
R("join_specification", "USING", "(", "@column_name_list", ")")
R("apply_type", "APPLY")
R("apply_type", "CROSS", "APPLY")
R("apply_type", "OUTER APPLY")
R("table_primary", "@table_name", "@correlation_clause_opt")
R("table_primary", "(", "@query_expression", ")", "@correlation_clause")
R("table_primary", "LATERAL", "(", "@query_expression", ")", "@correlation_clause")
R("table_primary", "UNNEST", "(", "@value_expression", ")", "@with_ordinality_opt", "@correlation_clause")
R("table_primary", "ONLY", "(", "@table_name", ")", "@correlation_clause_opt")
R("table_primary", "(", "@joined_table", ")")
R("field_definition_list", "@field_definition_list", ",", "@field_definition")
R("field_definition_list", "@field_definition")
R("field_definition", "@field_name", "@data_type", "@collate_clause_opt")
R("with_ordinality_opt")
R("with_ordinality_opt", "WITH", "ORDINALITY")
R("correlation_clause_opt")
R("correlation_clause_opt", "@correlation_clause")
R("correlation_clause", "@correlation_name", "@column_list_opt")
R("correlation_clause", "AS", "@correlation_name", "@column_list_opt")
R("explicit_row_value_expression_list", "@explicit_row_value_expression_list", ",", "@explicit_row_value_expression")
R("explicit_row_value_expression_list", "@explicit_row_value_expression")
R("explicit_row_value_expression", "ROW", "(", "@value_expression_list", ")")
R("explicit_row_value_expression", "(", "@value_expression_list", ")")
R("explicit_row_value_expression", "@row_subquery")
R("value_expression_list", "@value_expression_list", ",", "@value_expression")
R("value_expression_list", "@value_expression")
R("value_expression", "@value_expression", "OR", "@value_expression")
R("value_expression", "@value_expression", "AND", "@value_expression")
R("value_expression", "NOT", "@value_expression")
R("value_expression", "@predicate_expression", "IS", "@not_opt", "@truth_literal")
R("value_expression", "@predicate_expression")
R("predicate_expression", "@row_value_expression", "@comparison_operator", "@row_value_expression")
R("predicate_expression", "@row_value_expression", "@extended_comparison_operator", "@row_value_expression")
R("predicate_expression", "@row_value_expression", "@comparison_operator", "@quantifier", "@table_subquery")
R("predicate_expression", "@row_value_expression", "@not_opt", "BETWEEN", "@symmetric_opt", "@row_value_expression", "AND", "@row_value_expression")
R("predicate_expression", "@row_value_expression", "@not_opt", "IN", "@table_value_expression")
R("predicate_expression", "@row_value_expression", "@not_opt", "LIKE", "@row_value_expression", "@escape_opt")
R("predicate_expression", "@row_value_expression", "@not_opt", "SIMILAR", "TO", "@row_value_expression", "@escape_opt")
R("predicate_expression", "EXISTS", "@table_subquery")
R("predicate_expression", "UNIQUE", "@table_subquery")
R("predicate_expression", "@row_value_expression", "OVERLAPS", "@row_value_expression")
R("predicate_expression", "@row_value_expression")
R("comparison_operator", "=")
R("comparison_operator", "<>")
R("comparison_operator", "!=")
R("comparison_operator", "<")
R("comparison_operator", ">")
R("comparison_operator", "<=")
R("comparison_operator", ">=")
R("extended_comparison_operator", "<@")
R("extended_comparison_operator", "@>")
R("extended_comparison_operator", "&&")
R("not_opt")
R("not_opt", "NOT")
R("symmetric_opt")
R("symmetric_opt", "ASYMMETRIC")
R("symmetric_opt", "SYMMETRIC")
R("escape_opt")
R("escape_opt", "ESCAPE", "@row_value_expression")
R("table_value_expression", "@table_subquery")
R("table_value_expression", "(", "@value_expression_list", ")")
R("row_value_expression", "ROW", "(", "@value_expression_list", ")")
R("row_value_expression", "@scalar_value_expression")
R("scalar_value_expression", "@scalar_value_expression", "+", "@scalar_value_expression")
R("scalar_value_expression", "@scalar_value_expression", "-", "@scalar_value_expression")
R("scalar_value_expression", "@scalar_value_expression", "*", "@scalar_value_expression")
R("scalar_value_expression", "@scalar_value_expression", "/", "@scalar_value_expression")
R("scalar_value_expression", "@scalar_value_expression", "%", "@scalar_value_expression")
R("scalar_value_expression", "@scalar_value_expression", "||", "@scalar_value_expression")
R("scalar_value_expression", "+", "@scalar_value_expression")
R("scalar_value_expression", "-", "@scalar_value_expression")
R("scalar_value_expression", "@value_expression_primary", "AT", "LOCAL")
R("scalar_value_expression", "@value_expression_primary", "AT", "TIME", "ZONE", "@signed_value_expression_primary")
R("scalar_value_expression", "@value_expression_primary", "::", "@data_type")
R("scalar_value_expression", "@value_expression_primary")
R("signed_value_expression_primary", "+", "@value_expression_primary")
R("signed_value_expression_primary", "-", "@value_expression_primary")
R("signed_value_expression_primary", "@value_expression_primary")
R("value_expression_primary", "@literal")
R("value_expression_primary", "@identifier")
R("value_expression_primary", "@host_parameter_name")
R("value_expression_primary", "@placeholder_mark")
R("value_expression_primary", "@value_expression_primary", ".", "@identifier")
R("value_expression_primary", "@identifier", "@routine_invocation_arguments")
R("value_expression_primary", "@value_expression_primary", "->", "@identifier", "@routine_invocation_arguments")
R("value_expression_primary", "@value_expression_primary", ".", "@identifier", "@routine_invocation_arguments")
R("value_expression_primary", "@value_expression_primary", "::", "@identifier", "@routine_invocation_arguments")
R("value_expression_primary", "@value_expression_primary", "[", "@value_expression", "]")
R("value_expression_primary", "@value_expression_primary", "->", "@identifier")
R("value_expression_primary", "DEREF", "(", "@value_expression", ")")
R("value_expression_primary", "@system_set_function_invocation")
R("value_expression_primary", "@system_function_invocation")
R("value_expression_primary", "NULLIF", "(", "@value_expression", ",", "@value_expression", ")")
R("value_expression_primary", "COALESCE", "(", "@value_expression_list", ")")
R("value_expression_primary", "CASE", "@value_expression", "@case_when_clause_list", "@else_expression_opt", "END")
R("value_expression_primary", "CASE", "@case_when_clause_list", "@else_expression_opt", "END")
R("value_expression_primary", "CAST", "(", "@value_expression", "AS", "@data_type", ")")
R("value_expression_primary", "NEW", "@data_type_user", "(", "@sql_argument_list_opt", ")")
R("value_expression_primary", "TREAT", "(", "@value_expression", "AS", "@data_type", ")")
R("value_expression_primary", "ARRAY", "[", "@value_expression_list", "]")
R("value_expression_primary", "@scalar_subquery")
R("value_expression_primary", "(", "@value_expression", "AS", "@data_type", ")")
R("value_expression_primary", "(", "@value_expression_list", ")")
R("value_expression_primary", "NEXT", "VALUE", "FOR", "@identifier")
R("system_function_invocation", "@simple_system_function_name", "(", "@value_expression_list", ")")
R("system_function_invocation", "POSITION", "(", "@scalar_value_expression", "IN", "@scalar_value_expression", ")")
R("system_function_invocation", "EXTRACT", "(", "@extract_field", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "EXTRACT", "(", "SECOND", "(", "@size_maybe_flexible", ")", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "EXTRACT", "(", "YEAR", "TO", "SECOND", "(", "@size_maybe_flexible", ")", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "SUBSTRING", "(", "@scalar_value_expression", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "SUBSTRING", "(", "@scalar_value_expression", "FROM", "@scalar_value_expression", "FOR", "@scalar_value_expression", ")")
R("system_function_invocation", "CONVERT", "(", "@scalar_value_expression", "USING", "@identifier_chain", ")")
R("system_function_invocation", "TRANSLATE", "(", "@scalar_value_expression", "USING", "@identifier_chain", ")")
R("system_function_invocation", "TRIM", "(", "@trim_specification", "@scalar_value_expression", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "TRIM", "(", "@trim_specification", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "TRIM", "(", "@scalar_value_expression", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "TRIM", "(", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "TRIM", "(", "@scalar_value_expression", ")")
R("system_function_invocation", "OVERLAY", "(", "@scalar_value_expression", "PLACING", "@scalar_value_expression", "FROM", "@scalar_value_expression", "FOR", "@scalar_value_expression", ")")
R("system_function_invocation", "OVERLAY", "(", "@scalar_value_expression", "PLACING", "@scalar_value_expression", "FROM", "@scalar_value_expression", ")")
R("system_function_invocation", "CURRENT_DATE")
R("system_function_invocation", "@precise_system_function_name")
R("system_function_invocation", "@precise_system_function_name", "(", "@value_expression", ")")
R("simple_system_function_name", "CHAR_LENGTH")
R("simple_system_function_name", "CHARACTER_LENGTH")
R("simple_system_function_name", "OCTET_LENGTH")
R("simple_system_function_name", "CARDINALITY")
R("simple_system_function_name", "ABS")
R("simple_system_function_name", "CEIL")
R("simple_system_function_name", "FLOOR")
R("simple_system_function_name", "MOD")
R("simple_system_function_name", "UPPER")
R("simple_system_function_name", "LOWER")
R("simple_system_function_name", "LENGTH")
R("precise_system_function_name", "CURRENT_TIME")
R("precise_system_function_name", "LOCALTIME")
R("precise_system_function_name", "CURRENT_TIMESTAMP")
R("precise_system_function_name", "LOCALTIMESTAMP")
R("extract_field", "YEAR")
R("extract_field", "MONTH")
R("extract_field", "DAY")
R("extract_field", "HOUR")
R("extract_field", "MINUTE")
R("extract_field", "SECOND")
R("extract_field", "TIMEZONE_HOUR")
R("extract_field", "TIMEZONE_MINUTE")
R("extract_field", "DATE")
R("extract_field", "YEAR", "TO", "MONTH")
R("extract_field", "YEAR", "TO", "DAY")
R("extract_field", "YEAR", "TO", "HOUR")
R("extract_field", "YEAR", "TO", "MINUTE")
R("extract_field", "YEAR", "TO", "SECOND")
R("trim_specification", "LEADING")
R("trim_specification", "TRAILING")
R("trim_specification", "BOTH")
R("system_set_function_invocation", "COUNT", "(", "*", ")")
R("system_set_function_invocation", "COUNT", "(", "@set_quantifier_opt", "@value_expression", ")")
R("system_set_function_invocation", "@computational_operation_except_count", "(", "@set_quantifier_opt", "@value_expression", ")")
R("computational_operation_except_count", "AVG")
R("computational_operation_except_count", "MAX")
R("computational_operation_except_count", "MIN")
R("computational_operation_except_count", "SUM")
R("computational_operation_except_count", "EVERY")
R("computational_operation_except_count", "BIT_AND")
R("computational_operation_except_count", "BIT_OR")
R("computational_operation_except_count", "BOOL_AND")
R("computational_operation_except_count", "BOOL_OR")
R("quantifier", "ALL")
R("quantifier", "SOME")
R("quantifier", "ANY")
R("case_when_clause_list", "@case_when_clause_list", "@case_when_clause")
R("case_when_clause_list", "@case_when_clause")
R("case_when_clause", "WHEN", "@value_expression", "THEN", "@value_expression")
R("else_expression_opt")
R("else_expression_opt", "ELSE", "@value_expression")
R("routine_invocation_arguments", "(", "@sql_argument_list_opt", ")")
R("sql_argument_list_opt")
R("sql_argument_list_opt", "@sql_argument_list")
R("sql_argument_list", "@sql_argument_list_opt", ",", "@sql_argument")
R("sql_argument_list", "@sql_argument")
R("sql_argument", "@value_expression")
R("sql_argument", "@value_expression", "AS", "@data_type")
R("table_subquery", "@subquery")
R("scalar_subquery", "@subquery")
R("row_subquery", "@subquery")
R("subquery", "(", "@query_expression", ")")
R("literal", "@unsigned_integer")
R("literal", "<exact-numeric-literal>")
R("literal", "<approximate-numeric-literal>")
R("literal", "<character-string-literal>", "@concatenations_list_opt")
R("literal", "<hex-string-literal>", "@concatenations_list_opt")
R("literal", "DATE", "<character-string-literal>")
R("literal", "TIME", "@with_or_without_time_zone_opt", "<character-string-literal>")
R("literal", "TIMESTAMP", "@with_or_without_time_zone_opt", "<character-string-literal>")
R("literal", "INTERVAL", "@sign_opt", "<character-string-literal>")
R("literal", "@truth_literal")
R("literal", "ARRAY", "[", "]")
R("literal", "DEFAULT")
R("unsigned_integer", "<unsigned-integer>")
R("truth_literal", "TRUE")
R("truth_literal", "FALSE")
R("truth_literal", "UNKNOWN")
R("truth_literal", "NULL")
R("sign_opt")
R("sign_opt", "+")
R("sign_opt", "-")
R("concatenations_list_opt", "@concatenations_list_opt", "<character-string-literal>")
R("concatenations_list_opt")
R("data_type", "@data_type_system")
R("data_type", "@data_type_composite")
R("data_type", "@data_type_user")
R("data_type_system", "@character_type_name", "@parenthesized_size_opt")
R("data_type_system", "@character_varying_type_name", "@parenthesized_size_maybe_flexible_opt")
R("data_type_system", "BINARY", "@parenthesized_size_opt")
R("data_type_system", "@octet_varying_type_name", "@parenthesized_size_maybe_flexible_opt")
R("data_type_system", "@decimal_type_name")
R("data_type_system", "@decimal_type_name", "(", "@size_maybe_flexible", ")")
R("data_type_system", "@decimal_type_name", "(", "@size_maybe_flexible", ",", "@size_maybe_flexible", ")")
R("data_type_system", "@integer_type_name")
R("data_type_system", "TINYINT")
R("data_type_system", "SMALLINT")
R("data_type_system", "BIGINT")
R("data_type_system", "FLOAT")
R("data_type_system", "REAL")
R("data_type_system", "DOUBLE", "PRECISION")
R("data_type_system", "DOUBLE")
R("data_type_system", "@integer_type_name", "(", "@size", ")")
R("data_type_system", "FLOAT", "(", "@size", ")")
R("data_type_system", "BOOLEAN")
R("data_type_system", "DATE")
R("data_type_system", "TIME", "@with_or_without_time_zone_opt")
R("data_type_system", "TIMESTAMP", "@with_or_without_time_zone_opt")
R("data_type_system", "INTERVAL")
R("data_type_system", "BLOB")
R("data_type_system", "BINARY", "LARGE", "OBJECT")
R("data_type_system", "CLOB")
R("data_type_system", "@character_type_name", "LARGE", "OBJECT")
R("data_type_composite", "ROW", "(", "@field_definition_list", ")")
R("data_type_composite", "@data_type", "ARRAY", "[", "@size_maybe_flexible_opt", "]")
R("data_type_composite", "@data_type", "[", "@size_maybe_flexible_opt", "]")
R("data_type_user", "@identifier_chain")
R("character_type_name", "CHARACTER")
R("character_type_name", "CHAR")
R("character_varying_type_name", "CHARACTER", "VARYING")
R("character_varying_type_name", "CHAR", "VARYING")
R("character_varying_type_name", "VARCHAR")
R("octet_varying_type_name", "BINARY", "VARYING")
R("octet_varying_type_name", "VARBINARY")
R("decimal_type_name", "DECIMAL")
R("decimal_type_name", "DEC")
R("decimal_type_name", "NUMERIC")
R("integer_type_name", "INT")
R("integer_type_name", "INTEGER")
R("parenthesized_size_maybe_flexible_opt")
R("parenthesized_size_maybe_flexible_opt", "(", "@size_maybe_flexible", ")")
R("parenthesized_size_opt")
R("parenthesized_size_opt", "(", "@size", ")")
R("size_maybe_flexible_opt")
R("size_maybe_flexible_opt", "@size_maybe_flexible")
R("size_maybe_flexible", "@size")
R("size_maybe_flexible", "*")
R("size", "<unsigned-integer>")
R("with_or_without_time_zone_opt")
R("with_or_without_time_zone_opt", "WITH", "TIME", "ZONE")
R("with_or_without_time_zone_opt", "WITHOUT", "TIME", "ZONE")
R("set_quantifier_opt")
R("set_quantifier_opt", "ALL")
R("set_quantifier_opt", "DISTINCT")
R("corresponding_spec_opt")
R("corresponding_spec_opt", "CORRESPONDING", "BY", "(", "@column_name_list", ")")
R("corresponding_spec_opt", "CORRESPONDING")
R("column_name_list_opt", "(", "@column_name_list", ")")
R("column_name_list_opt")
R("column_name_list", "@column_name_list", ",", "@column_name")
R("column_name_list", "@column_name")
R("query_name", "@identifier")
R("table_name", "@identifier_chain")
R("table_name_opt", "@table_name")
R("table_name_opt")
R("schema_name", "@identifier_chain")
R("schema_name_opt", "@schema_name")
R("schema_name_opt")
R("correlation_name", "@identifier")
R("constraint_name", "@identifier_chain")
R("function_name", "@identifier_chain")
R("column_name", "@identifier")
R("field_name", "@identifier")
R("cursor_name", "@identifier")
R("user_identifier", "@identifier")
R("authorization_identifier", "@identifier")
R("host_parameter_name", "<host-parameter-name>")
R("placeholder_mark", "?")
R("identifier_chain", "@identifier_chain", ".", "@identifier")
R("identifier_chain", "@identifier")
R("identifier", "<identifier>")
R("identifier", "<delimited-identifier>")
R("identifier", "@contextual_identifier")
R("contextual_identifier", "ASC")
R("contextual_identifier", "CONTINUE")
R("contextual_identifier", "DESC")
R("contextual_identifier", "KEY")
R("contextual_identifier", "IGNORE")
R("contextual_identifier", "SCHEMA")
R("contextual_identifier", "SEQUENCE")
R("contextual_identifier", "RESTART")
R("contextual_identifier", "RESTRICT")
R("contextual_identifier", "RENAME")
R("contextual_identifier", "FIRST")
R("contextual_identifier", "LAST")
R("contextual_identifier", "ORDINALITY")
R("contextual_identifier", "VALUE")
