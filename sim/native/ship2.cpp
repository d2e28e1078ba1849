// uses the code under test
// written by gen_ship.py
#include "impl.hpp"
using namespace nat;
NAT("ship.packed_transaction_v0", "packed_transaction_v0", cLite|cJ, eosio::ship_protocol::packed_transaction_v0)
NAT("ship.packed_transaction", "packed_transaction", cLite|cJ, eosio::ship_protocol::packed_transaction)
NAT("ship.transaction_receipt_v0", "transaction_receipt_v0", cLite|cJ, eosio::ship_protocol::transaction_receipt_v0)
NAT("ship.transaction_receipt", "transaction_receipt", cLite|cJ, eosio::ship_protocol::transaction_receipt)
NAT("ship.block_header", "block_header", cLite|cJ, eosio::ship_protocol::block_header)
NAT("ship.signed_block_header", "signed_block_header", cLite|cJ, eosio::ship_protocol::signed_block_header)
NAT("ship.signed_block_v0", "signed_block_v0", cLite|cJ, eosio::ship_protocol::signed_block_v0)
NAT("ship.signed_block_v1", "signed_block_v1", cLite|cJ, eosio::ship_protocol::signed_block_v1)
NAT("ship.get_blocks_result_v1", "get_blocks_result_v1", cLite, eosio::ship_protocol::get_blocks_result_v1)
NAT("ship.transaction_header", "transaction_header", cLite|cJ|cP|cK, eosio::ship_protocol::transaction_header)
NAT("ship.transaction", "transaction", cLite|cJ, eosio::ship_protocol::transaction)
NAT("ship.code_id", "code_id", cLite|cJ|cP|cK, eosio::ship_protocol::code_id)
NAT("ship.account_v0", "account_v0", cLite|cJ, eosio::ship_protocol::account_v0)
NAT("ship.account_metadata_v0", "account_metadata_v0", cLite|cJ|cP|cK, eosio::ship_protocol::account_metadata_v0)
NAT("ship.code_v0", "code_v0", cLite|cJ, eosio::ship_protocol::code_v0)
NAT("ship.contract_table_v0", "contract_table_v0", cLite|cJ|cP|cK, eosio::ship_protocol::contract_table_v0)
NAT("ship.contract_row_v0", "contract_row_v0", cLite|cJ, eosio::ship_protocol::contract_row_v0)
NAT("ship.contract_index64_v0", "contract_index64_v0", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index64_v0)
NAT("ship.contract_index128_v0", "contract_index128_v0", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index128_v0)
NAT("ship.contract_index256_v0", "contract_index256_v0", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index256_v0)
NAT("ship.contract_index_double_v0", "contract_index_double_v0", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index_double_v0)
NAT("ship.contract_index_long_double_v0", "contract_index_long_double_v0", cLite|cJ|cP|cK, eosio::ship_protocol::contract_index_long_double_v0)
NAT("ship.key_value_v0", "key_value_v0", cLite|cJ, eosio::ship_protocol::key_value_v0)
NAT("ship.key_weight", "key_weight", cLite|cJ|cP|cK, eosio::ship_protocol::key_weight)
NAT("ship.block_signing_authority_v0", "block_signing_authority_v0", cLite|cJ|cP|cK, eosio::ship_protocol::block_signing_authority_v0)
NAT("ship.producer_authority", "producer_authority", cLite|cJ|cP|cK, eosio::ship_protocol::producer_authority)
NAT("ship.producer_authority_schedule", "producer_authority_schedule", cLite|cJ|cP|cK, eosio::ship_protocol::producer_authority_schedule)
NAT("ship.chain_config_v0", "chain_config_v0", cLite|cJ|cP|cK, eosio::ship_protocol::chain_config_v0)
