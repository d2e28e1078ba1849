// uses the code under test
// written by gen_ship.py
#include "impl.hpp"
using namespace nat;
NAT("ship.get_status_request_v0", "get_status_request_v0", cLite|cJ|cP|cK, eosio::ship_protocol::get_status_request_v0)
NAT("ship.extension", "extension", cLite|cJ, eosio::ship_protocol::extension)
NAT("ship.block_position", "block_position", cLite|cJ|cP|cK, eosio::ship_protocol::block_position)
NAT("ship.get_status_result_v0", "get_status_result_v0", cLite|cJ|cP|cK, eosio::ship_protocol::get_status_result_v0)
NAT("ship.get_blocks_request_v0", "get_blocks_request_v0", cLite|cJ|cP|cK, eosio::ship_protocol::get_blocks_request_v0)
NAT("ship.get_blocks_ack_request_v0", "get_blocks_ack_request_v0", cLite|cJ|cP|cK, eosio::ship_protocol::get_blocks_ack_request_v0)
NAT("ship.get_blocks_result_base", "get_blocks_result_base", cLite|cJ|cP|cK, eosio::ship_protocol::get_blocks_result_base)
NAT("ship.get_blocks_result_v0", "get_blocks_result_v0", cLite|cJ, eosio::ship_protocol::get_blocks_result_v0)
NAT("ship.row", "row", cLite|cJ, eosio::ship_protocol::row)
NAT("ship.table_delta_v0", "table_delta_v0", cLite|cJ, eosio::ship_protocol::table_delta_v0)
NAT("ship.permission_level", "permission_level", cLite|cJ|cP|cK, eosio::ship_protocol::permission_level)
NAT("ship.action", "action", cLite|cJ, eosio::ship_protocol::action)
NAT("ship.account_auth_sequence", "account_auth_sequence", cLite|cJ|cP|cK, eosio::ship_protocol::account_auth_sequence)
NAT("ship.action_receipt_v0", "action_receipt_v0", cLite|cJ|cP|cK, eosio::ship_protocol::action_receipt_v0)
NAT("ship.account_delta", "account_delta", cLite|cJ|cP|cK, eosio::ship_protocol::account_delta)
NAT("ship.action_trace_v0", "action_trace_v0", cLite|cJ, eosio::ship_protocol::action_trace_v0)
NAT("ship.action_trace_v1", "action_trace_v1", cLite|cJ, eosio::ship_protocol::action_trace_v1)
NAT("ship.prunable_data_type::none", "prunable_data_type::none", cLite|cJ, eosio::ship_protocol::prunable_data_type::none)
NAT("ship.prunable_data_type::partial", "prunable_data_type::partial", cLite|cJ, eosio::ship_protocol::prunable_data_type::partial)
NAT("ship.prunable_data_type::full", "prunable_data_type::full", cLite|cJ, eosio::ship_protocol::prunable_data_type::full)
NAT("ship.prunable_data_type::full_legacy", "prunable_data_type::full_legacy", cLite|cJ, eosio::ship_protocol::prunable_data_type::full_legacy)
NAT("ship.prunable_data_type", "prunable_data_type", cLite|cJ, eosio::ship_protocol::prunable_data_type)
NAT("ship.partial_transaction_v0", "partial_transaction_v0", cLite|cJ, eosio::ship_protocol::partial_transaction_v0)
NAT("ship.partial_transaction_v1", "partial_transaction_v1", cLite|cJ, eosio::ship_protocol::partial_transaction_v1)
NAT("ship.transaction_trace_v0", "transaction_trace_v0", cLite|cJ, eosio::ship_protocol::transaction_trace_v0)
NAT("ship.producer_key", "producer_key", cLite|cJ|cP|cK, eosio::ship_protocol::producer_key)
NAT("ship.producer_schedule", "producer_schedule", cLite|cJ|cP|cK, eosio::ship_protocol::producer_schedule)
NAT("ship.transaction_receipt_header", "transaction_receipt_header", cLite|cJ, eosio::ship_protocol::transaction_receipt_header)
