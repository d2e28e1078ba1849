// The SHiP protocol (and chain types) as one ABI, written down from the protocol, not computed from the code.
"s get_status_request_v0\n"
"s extension | type uint16 | data bytes\n"
"s block_position | block_num uint32 | block_id checksum256\n"
"s get_status_result_v0 | head block_position | last_irreversible block_position | trace_begin_block uint32 | trace_end_block uint32 | chain_state_begin_block uint32 | chain_state_end_block uint32 | chain_id checksum256\n"
"s get_blocks_request_v0 | start_block_num uint32 | end_block_num uint32 | max_messages_in_flight uint32 | have_positions block_position[] | irreversible_only bool | fetch_block bool | fetch_traces bool | fetch_deltas bool\n"
"s get_blocks_ack_request_v0 | num_messages uint32\n"
"s get_blocks_result_base | head block_position | last_irreversible block_position | this_block block_position? | prev_block block_position?\n"
"s get_blocks_result_v0 : get_blocks_result_base | block bytes? | traces bytes? | deltas bytes?\n"
"s row | present bool | data bytes\n"
"s table_delta_v0 | name string | rows row[]\n"
"s permission_level | actor name | permission name\n"
"s action | account name | name name | authorization permission_level[] | data bytes\n"
"s account_auth_sequence | account name | sequence uint64\n"
"s action_receipt_v0 | receiver name | act_digest checksum256 | global_sequence uint64 | recv_sequence uint64 | auth_sequence account_auth_sequence[] | code_sequence varuint32 | abi_sequence varuint32\n"
"s account_delta | account name | delta int64\n"
"s action_trace_v0 | action_ordinal varuint32 | creator_action_ordinal varuint32 | receipt action_receipt? | receiver name | act action | context_free bool | elapsed int64 | console string | account_ram_deltas account_delta[] | except string? | error_code uint64?\n"
"s action_trace_v1 | action_ordinal varuint32 | creator_action_ordinal varuint32 | receipt action_receipt? | receiver name | act action | context_free bool | elapsed int64 | console string | account_ram_deltas account_delta[] | account_disk_deltas account_delta[] | except string? | error_code uint64? | return_value bytes\n"
"s prunable_data_type::none | prunable_digest checksum256\n"
"s prunable_data_type::partial | signatures signature[] | context_free_segments prunable_data_type::segment_type[]\n"
"s prunable_data_type::full | signatures signature[] | context_free_segments bytes[]\n"
"s prunable_data_type::full_legacy | signatures signature[] | packed_context_free_data bytes\n"
"s prunable_data_type | prunable_data prunable_data_type::prunable_data_t\n"
"s partial_transaction_v0 | expiration time_point_sec | ref_block_num uint16 | ref_block_prefix uint32 | max_net_usage_words varuint32 | max_cpu_usage_ms uint8 | delay_sec varuint32 | transaction_extensions extension[] | signatures signature[] | context_free_data bytes[]\n"
"s partial_transaction_v1 | expiration time_point_sec | ref_block_num uint16 | ref_block_prefix uint32 | max_net_usage_words varuint32 | max_cpu_usage_ms uint8 | delay_sec varuint32 | transaction_extensions extension[] | prunable_data prunable_data_type?\n"
"s transaction_trace_v0 | id checksum256 | status uint8 | cpu_usage_us uint32 | net_usage_words varuint32 | elapsed int64 | net_usage uint64 | scheduled bool | action_traces action_trace[] | account_ram_delta account_delta? | except string? | error_code uint64? | failed_dtrx_trace transaction_trace[] | partial partial_transaction?\n"
"s producer_key | producer_name name | block_signing_key public_key\n"
"s producer_schedule | version uint32 | producers producer_key[]\n"
"s transaction_receipt_header | status uint8 | cpu_usage_us uint32 | net_usage_words varuint32\n"
"s packed_transaction_v0 | signatures signature[] | compression uint8 | packed_context_free_data bytes | packed_trx bytes\n"
"s packed_transaction | compression uint8 | prunable_data prunable_data_type | packed_trx bytes\n"
"s transaction_receipt_v0 : transaction_receipt_header | trx transaction_variant_v0\n"
"s transaction_receipt : transaction_receipt_header | trx transaction_variant\n"
"s block_header | timestamp block_timestamp_type | producer name | confirmed uint16 | previous checksum256 | transaction_mroot checksum256 | action_mroot checksum256 | schedule_version uint32 | new_producers producer_schedule? | header_extensions extension[]\n"
"s signed_block_header : block_header | producer_signature signature\n"
"s signed_block_v0 : signed_block_header | transactions transaction_receipt_v0[] | block_extensions extension[]\n"
"s signed_block_v1 : signed_block_header | prune_state uint8 | transactions transaction_receipt[] | block_extensions extension[]\n"
"s get_blocks_result_v1 : get_blocks_result_base | block signed_block_variant? | traces bytes | deltas bytes\n"
"s transaction_header | expiration time_point_sec | ref_block_num uint16 | ref_block_prefix uint32 | max_net_usage_words varuint32 | max_cpu_usage_ms uint8 | delay_sec varuint32\n"
"s transaction : transaction_header | context_free_actions action[] | actions action[] | transaction_extensions extension[]\n"
"s code_id | vm_type uint8 | vm_version uint8 | code_hash checksum256\n"
"s account_v0 | name name | creation_date block_timestamp_type | abi bytes\n"
"s account_metadata_v0 | name name | privileged bool | last_code_update time_point | code code_id?\n"
"s code_v0 | vm_type uint8 | vm_version uint8 | code_hash checksum256 | code bytes\n"
"s contract_table_v0 | code name | scope name | table name | payer name\n"
"s contract_row_v0 | code name | scope name | table name | primary_key uint64 | payer name | value bytes\n"
"s contract_index64_v0 | code name | scope name | table name | primary_key uint64 | payer name | secondary_key uint64\n"
"s contract_index128_v0 | code name | scope name | table name | primary_key uint64 | payer name | secondary_key uint128\n"
"s contract_index256_v0 | code name | scope name | table name | primary_key uint64 | payer name | secondary_key checksum256\n"
"s contract_index_double_v0 | code name | scope name | table name | primary_key uint64 | payer name | secondary_key float64\n"
"s contract_index_long_double_v0 | code name | scope name | table name | primary_key uint64 | payer name | secondary_key float128\n"
"s key_value_v0 | database name | contract name | key bytes | value bytes\n"
"s key_weight | key public_key | weight uint16\n"
"s block_signing_authority_v0 | threshold uint32 | keys key_weight[]\n"
"s producer_authority | producer_name name | authority block_signing_authority\n"
"s producer_authority_schedule | version uint32 | producers producer_authority[]\n"
"s chain_config_v0 | max_block_net_usage uint64 | target_block_net_usage_pct uint32 | max_transaction_net_usage uint32 | base_per_transaction_net_usage uint32 | net_usage_leeway uint32 | context_free_discount_net_usage_num uint32 | context_free_discount_net_usage_den uint32 | max_block_cpu_usage uint32 | target_block_cpu_usage_pct uint32 | max_transaction_cpu_usage uint32 | min_transaction_cpu_usage uint32 | max_transaction_lifetime uint32 | deferred_trx_expiration_window uint32 | max_transaction_delay uint32 | max_inline_action_size uint32 | max_inline_action_depth uint16 | max_authority_depth uint16\n"
"s global_property_v0 | proposed_schedule_block_num uint32? | proposed_schedule producer_schedule | configuration chain_config\n"
"s global_property_v1 | proposed_schedule_block_num uint32? | proposed_schedule producer_authority_schedule | configuration chain_config | chain_id checksum256\n"
"s generated_transaction_v0 | sender name | sender_id uint128 | payer name | trx_id checksum256 | packed_trx bytes\n"
"s activated_protocol_feature_v0 | feature_digest checksum256 | activation_block_num uint32\n"
"s protocol_state_v0 | activated_protocol_features activated_protocol_feature[]\n"
"s permission_level_weight | permission permission_level | weight uint16\n"
"s wait_weight | wait_sec uint32 | weight uint16\n"
"s authority | threshold uint32 | keys key_weight[] | accounts permission_level_weight[] | waits wait_weight[]\n"
"s permission_v0 | owner name | name name | parent name | last_updated time_point | auth authority\n"
"s permission_link_v0 | account name | code name | message_type name | required_permission name\n"
"s resource_limits_v0 | owner name | net_weight int64 | cpu_weight int64 | ram_bytes int64\n"
"s usage_accumulator_v0 | last_ordinal uint32 | value_ex uint64 | consumed uint64\n"
"s resource_usage_v0 | owner name | net_usage usage_accumulator | cpu_usage usage_accumulator | ram_usage uint64\n"
"s resource_limits_state_v0 | average_block_net_usage usage_accumulator | average_block_cpu_usage usage_accumulator | total_net_weight uint64 | total_cpu_weight uint64 | total_ram_bytes uint64 | virtual_net_limit uint64 | virtual_cpu_limit uint64\n"
"s resource_limits_ratio_v0 | numerator uint64 | denominator uint64\n"
"s elastic_limit_parameters_v0 | target uint64 | max uint64 | periods uint32 | max_multiplier uint32 | contract_rate resource_limits_ratio | expand_rate resource_limits_ratio\n"
"s resource_limits_config_v0 | cpu_limit_parameters elastic_limit_parameters | net_limit_parameters elastic_limit_parameters | account_cpu_usage_average_window uint32 | account_net_usage_average_window uint32\n"
"v request | get_status_request_v0 | get_blocks_request_v0 | get_blocks_ack_request_v0\n"
"v table_delta | table_delta_v0\n"
"v action_receipt | action_receipt_v0\n"
"v action_trace | action_trace_v0 | action_trace_v1\n"
"v prunable_data_type::segment_type | checksum256 | bytes\n"
"v prunable_data_type::prunable_data_t | prunable_data_type::full_legacy | prunable_data_type::none | prunable_data_type::partial | prunable_data_type::full\n"
"v partial_transaction | partial_transaction_v0 | partial_transaction_v1\n"
"v transaction_trace | transaction_trace_v0\n"
"v transaction_variant_v0 | checksum256 | packed_transaction_v0\n"
"v transaction_variant | checksum256 | packed_transaction\n"
"v signed_block_variant | signed_block_v0 | signed_block_v1\n"
"v result | get_status_result_v0 | get_blocks_result_v0 | get_blocks_result_v1\n"
"v account | account_v0\n"
"v account_metadata | account_metadata_v0\n"
"v code | code_v0\n"
"v contract_table | contract_table_v0\n"
"v contract_row | contract_row_v0\n"
"v contract_index64 | contract_index64_v0\n"
"v contract_index128 | contract_index128_v0\n"
"v contract_index256 | contract_index256_v0\n"
"v contract_index_double | contract_index_double_v0\n"
"v contract_index_long_double | contract_index_long_double_v0\n"
"v key_value | key_value_v0\n"
"v block_signing_authority | block_signing_authority_v0\n"
"v chain_config | chain_config_v0\n"
"v global_property | global_property_v0 | global_property_v1\n"
"v generated_transaction | generated_transaction_v0\n"
"v activated_protocol_feature | activated_protocol_feature_v0\n"
"v protocol_state | protocol_state_v0\n"
"v permission | permission_v0\n"
"v permission_link | permission_link_v0\n"
"v resource_limits | resource_limits_v0\n"
"v usage_accumulator | usage_accumulator_v0\n"
"v resource_usage | resource_usage_v0\n"
"v resource_limits_state | resource_limits_state_v0\n"
"v resource_limits_ratio | resource_limits_ratio_v0\n"
"v elastic_limit_parameters | elastic_limit_parameters_v0\n"
"v resource_limits_config | resource_limits_config_v0\n"
"s block_info | block_num uint32 | block_id checksum256 | timestamp block_timestamp_type\n"
