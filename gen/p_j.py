from lib import prop, h, na

IDEAL = ["The text of JSON documents, decimal numbers and hex strings is opaque: writing and reading them are inverse, and strings are valid UTF-8 (how encoding/json escapes text is outside)."]

prop("P34", "Objects survive their JSON form unchanged",
     "Every output, address, unlock, transaction, block, commitment, attestation, proof and protocol parameters object written as JSON and read back has exactly the bytes, and so the identifier, it had before.",
     ["inputs"], "all values of every kind of output with any of its features and conditions, all addresses in every place, all unlocks, transactions, blocks and parameters",
     "Clients and nodes exchange these objects as JSON; a field that JSON drops or shortens changes the identifier and voids the signature, and tests write a few samples.",
     ["output_basic.go", "output_account.go", "output_anchor.go", "output_foundry.go", "output_nft.go", "output_delegation.go", "address.go", "unlock.go", "transaction.go", "signed_transaction.go", "block.go", "commitment.go", "attestation.go", "output_id_proof.go", "api_v3.go", "identifier.gen.go", "hexutil/numbers.go"],
     [("document", "serix tags of every struct (names, optional and inlined parts); api_v3.go: JSONEncode, JSONDecode"), ("texts", "hexutil: EncodeHex, DecodeHex; identifiers: MarshalText, UnmarshalText; EncodableJSON of capabilities, metadata entries and big integers")],
     [h("H_json_output", "done"), h("H_json_conditions", "done"), h("H_json_address", "done"), h("H_json_tx", "done"), h("H_json_unlocks", "done"), h("H_json_block", "done"), h("H_json_params", "done"), h("H_json_proof", "commitment", "attestation", "output proof", "merkle proof")],
     "lists and texts as in P16; three decay factors.",
     IDEAL, observe=["API.JSONEncode", "API.JSONDecode"])

prop("P35", "Node API responses survive both encodings",
     "Every response and request of the node API read back from its JSON form and from its binary form is the one that was written, with all its values; the states of blocks and transactions have distinct texts which read back, and unknown states are errors.",
     ["inputs"], "all values of every response, with optional parts present or absent and lists of up to two entries, or of hundreds",
     "Wallets act on what nodes answer; a value lost by one of the encodings reaches nobody's attention until then.",
     ["api/core.go", "api/indexer.go", "api/management.go", "api/blockissuer.go", "api/root.go"],
     [("responses", "api/core.go, indexer.go, management.go, root.go, blockissuer.go: every response struct and its serix tags"), ("states", "api/core.go: BlockState, TransactionState: Bytes, EncodeJSON, String and their readers")],
     [h("H_api_node", "info", "congestion", "validators", "rewards", "committee", "indexer", "done"), h("H_api_ledger", "issuance", "block metadata", "block", "transaction metadata", "output metadata", "output", "changes", "full changes", "done"), h("H_api_many", "done", "validators", "details", "committee", "full changes"), h("H_api_admin", "done"), h("H_api_states", "block state", "transaction state")],
     "texts of up to 2 symbolic bytes, lists of up to 2 entries; long lists (255 and 256 entries, thorough also 300) and texts with one free byte.",
     IDEAL, observe=["API.Encode", "API.JSONEncode"])

prop("P36", "Transaction failure reasons tell what actually went wrong",
     "The reason given for a failed transaction is the documented code of the most detailed error the failure is made of, however errors are wrapped and joined; it is the general code only if nothing in the failure has one. A transaction with one thing wrong fails for the reason documented for it. Codes read back from their byte.",
     ["inputs"], "every documented reason in every shape of wrapped and joined errors; all failing transactions of fifteen of the scenarios of the other properties; all amounts, slots and ids of twenty-two single mistakes",
     "Clients decide by the reason whether to wait, to resubmit or to give up; tests look at one reason.",
     ["api/core.go", "vm/vm.go", "vm/nova/vm.go", "error.go"],
     [("mapping", "api/core.go: DetermineTransactionFailureReason, unwrapErrors, txErrorsFailureReasonMap"), ("errors", "vm/vm.go and vm/nova/vm.go: the errors returned by ValidateUnlocks and Execute")],
     [h("H_reason_tree", "done"), h("H_reason_single", "done"), h("H_reason_implicit", "reason"), h("H_reason_sender", "reason"), h("H_reason_delegation_create", "reason"), h("H_reason_chain_immutable", "reason"), h("H_reason_vm_timelock", "reason"), h("H_reason_vm_expiration", "reason"), h("H_reason_staking_implicit", "reason"), h("H_reason_foundry_owner", "reason"), h("H_reason_chain_destroy", "reason"), h("H_reason_account_counter", "reason"), h("H_reason_vm_foundry_supply", "reason"),
      h("H_reason_anchor_transition", "reason", tier="thorough"), h("H_reason_vm_mana_balance", "reason", tier="thorough"), h("H_reason_vm_storage_return", "reason", tier="thorough"),
      h("H_reason_unlocks_direct", "reason"), h("H_reason_unlocks_chain", "reason"), h("H_reason_unlocks_multi", "reason")],
     "the bounds of the scenarios' own properties; error trees of up to five levels.",
     observe=["DetermineTransactionFailureReason", "VirtualMachine.Execute", "ValidateUnlocks"])
