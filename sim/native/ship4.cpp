// uses the code under test
// written by gen_ship.py
#include "impl.hpp"
using namespace nat;
NAT("ship.signed_block_variant", "signed_block_variant", cLite|cJ, eosio::ship_protocol::signed_block_variant)
NAT("ship.result", "result", cLite, eosio::ship_protocol::result)
NAT("ship.account", "account", cLite|cJ, eosio::ship_protocol::account)
NAT("ship.account_metadata", "account_metadata", cLite|cJ|cP|cK, eosio::ship_protocol::account_metadata)
NAT("ship.code", "code", cLite|cJ, eosio::ship_protocol::code)
NAT("ship.contract_table", "contract_table", cLite|cJ|cP|cK, eosio::ship_protocol::contract_table)
NAT("ship.contract_row", "contract_row", cLite|cJ, eosio::ship_protocol::contract_row)
NAT("ship.contract_index64", "contract_index64", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index64)
NAT("ship.contract_index128", "contract_index128", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index128)
NAT("ship.contract_index256", "contract_index256", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index256)
NAT("ship.contract_index_double", "contract_index_double", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index_double)
NAT("ship.contract_index_long_double", "contract_index_long_double", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index_long_double)
NAT("ship.key_value", "key_value", cLite|cJ, eosio::ship_protocol::key_value)
NAT("ship.block_signing_authority", "block_signing_authority", cLite|cJ|cP|cK, eosio::ship_protocol::block_signing_authority)
NAT("ship.chain_config", "chain_config", cLite|cJ|cP|cK, eosio::ship_protocol::chain_config)
NAT("ship.global_property", "global_property", cLite|cJ|cP|cK, eosio::ship_protocol::global_property)
NAT("ship.generated_transaction", "generated_transaction", cLite|cJ, eosio::ship_protocol::generated_transaction)
NAT("ship.activated_protocol_feature", "activated_protocol_feature", cLite|cJ|cP|cK, eosio::ship_protocol::activated_protocol_feature)
NAT("ship.protocol_state", "protocol_state", cLite|cJ|cP|cK, eosio::ship_protocol::protocol_state)
NAT("ship.permission", "permission", cLite|cJ|cP|cK, eosio::ship_protocol::permission)
NAT("ship.permission_link", "permission_link", cLite|cJ|cP|cK, eosio::ship_protocol::permission_link)
NAT("ship.resource_limits", "resource_limits", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits)
NAT("ship.usage_accumulator", "usage_accumulator", cLite|cJ|cP|cK, eosio::ship_protocol::usage_accumulator)
NAT("ship.resource_usage", "resource_usage", cLite|cJ|cP|cK, eosio::ship_protocol::resource_usage)
NAT("ship.resource_limits_state", "resource_limits_state", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits_state)
NAT("ship.resource_limits_ratio", "resource_limits_ratio", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits_ratio)
NAT("ship.elastic_limit_parameters", "elastic_limit_parameters", cLite|cJ|cP|cK, eosio::ship_protocol::elastic_limit_parameters)
NAT("ship.resource_limits_config", "resource_limits_config", cLite|cJ|cP|cK, eosio::ship_protocol::resource_limits_config)
