// uses the code under test
// written by gen_ship.py
#include "impl.hpp"
using namespace nat;
NAT("ship.global_property_v0", "global_property_v0", cLite|cJ|cP|cK, eosio::ship_protocol::global_property_v0)
NAT("ship.global_property_v1", "global_property_v1", cLite|cJ|cP|cK, eosio::ship_protocol::global_property_v1)
NAT("ship.generated_transaction_v0", "generated_transaction_v0", cLite|cJ, eosio::ship_protocol::generated_transaction_v0)
NAT("ship.activated_protocol_feature_v0", "activated_protocol_feature_v0", cLite|cJ|cP|cK, eosio::ship_protocol::activated_protocol_feature_v0)
NAT("ship.protocol_state_v0", "protocol_state_v0", cLite|cJ|cP|cK, eosio::ship_protocol::protocol_state_v0)
NAT("ship.permission_level_weight", "permission_level_weight", cLite|cJ|cP|cK, eosio::ship_protocol::permission_level_weight)
NAT("ship.wait_weight", "wait_weight", cLite|cJ|cP|cK, eosio::ship_protocol::wait_weight)
NAT("ship.authority", "authority", cLite|cJ|cP|cK, eosio::ship_protocol::authority)
NAT("ship.permission_v0", "permission_v0", cLite|cJ|cP|cK, eosio::ship_protocol::permission_v0)
NAT("ship.permission_link_v0", "permission_link_v0", cLite|cJ|cP|cK, eosio::ship_protocol::permission_link_v0)
NAT("ship.resource_limits_v0", "resource_limits_v0", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits_v0)
NAT("ship.usage_accumulator_v0", "usage_accumulator_v0", cLite|cJ|cP|cK, eosio::ship_protocol::usage_accumulator_v0)
NAT("ship.resource_usage_v0", "resource_usage_v0", cLite|cJ|cP|cK, eosio::ship_protocol::resource_usage_v0)
NAT("ship.resource_limits_state_v0", "resource_limits_state_v0", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits_state_v0)
NAT("ship.resource_limits_ratio_v0", "resource_limits_ratio_v0", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits_ratio_v0)
NAT("ship.elastic_limit_parameters_v0", "elastic_limit_parameters_v0", cLite|cJ|cP|cK, eosio::ship_protocol::elastic_limit_parameters_v0)
NAT("ship.resource_limits_config_v0", "resource_limits_config_v0", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits_config_v0)
NAT("ship.block_info", "block_info", cLite|cJ|cP|cK, chain_types::block_info)
NAT("ship.request", "request", cLite|cJ|cP|cK, eosio::ship_protocol::request)
NAT("ship.table_delta", "table_delta", cLite|cJ, eosio::ship_protocol::table_delta)
NAT("ship.action_receipt", "action_receipt", cLite|cJ|cP|cK, eosio::ship_protocol::action_receipt)
NAT("ship.action_trace", "action_trace", cLite|cJ, eosio::ship_protocol::action_trace)
NAT("ship.prunable_data_type::segment_type", "prunable_data_type::segment_type", cLite|cJ, eosio::ship_protocol::prunable_data_type::segment_type)
NAT("ship.prunable_data_type::prunable_data_t", "prunable_data_type::prunable_data_t", cLite|cJ, eosio::ship_protocol::prunable_data_type::prunable_data_t)
NAT("ship.partial_transaction", "partial_transaction", cLite|cJ, eosio::ship_protocol::partial_transaction)
NAT("ship.transaction_trace", "transaction_trace", cLite|cJ, eosio::ship_protocol::transaction_trace)
NAT("ship.transaction_variant_v0", "transaction_variant_v0", cLite|cJ, eosio::ship_protocol::transaction_variant_v0)
NAT("ship.transaction_variant", "transaction_variant", cLite|cJ, eosio::ship_protocol::transaction_variant)
