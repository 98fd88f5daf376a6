from lib import prop, h, na

prop("P16", "Addresses and outputs are encoded as documented and restored unchanged",
     "Every valid address, unlock condition, feature and output is encoded to exactly the documented binary layout, its Size is the length of that encoding, and decoding the encoding consumes all of it and yields an equal object that encodes to the same bytes.",
     ["inputs"], "every output kind with every combination of features, unlock conditions and address kinds; all field values symbolic",
     "Round-trip tests use one sample per type; prefix widths, optional parts, ordering and sign/width mistakes appear only for particular values and combinations.",
     ["api_v3.go", "api_common.go", "output_basic.go", "output_account.go", "output_anchor.go", "output_foundry.go", "output_nft.go", "output_delegation.go", "address_multi.go", "address_restricted.go", "feat.go", "unlock_cond.go"],
     [("serix registrations and sizes", "api_v3.go: V3API; output_*.go, feat_*.go, unlock_cond_*.go, address_*.go: Size")],
     [h("H_wire_address", "done"), h("H_wire_output", "done"), h("H_wire_conditions", "done"), h("H_wire_longpayload", "done")],
     "metadata with at most 2 entries of at most 2 symbolic bytes plus lengths 255..8192 with symbolic ends, tags of 1, 3 and 64 bytes, multi addresses of two members, at most 2 block issuer keys; all other fields fully symbolic.",
     observe=["api.Encode", "api.Decode", "Size"])

prop("P18", "Transactions, unlocks and blocks are encoded as documented and keep their IDs",
     "Signed transactions and blocks of every shape are encoded to exactly the documented binary layout, Size is the length of that encoding, and decoding restores an object with the same encoding, the same signing message and the same ID. A block ID is the hash of header hash, body hash and signature together with the slot of the issuing time; transaction IDs name the creation slot.",
     ["inputs"], "every kind of context input, unlock, payload and block body; all field values symbolic",
     "Round-trip tests use one sample per type; optional parts and their length prefixes interact (a nested payload inside a transaction inside a block).",
     ["block.go", "transaction.go", "transaction_essence.go", "signed_transaction.go", "unlock.go", "api_v3.go"],
     [("sizes and IDs", "block.go: Size/ID; transaction.go: ID; transaction_essence.go: Size"), ("serix registrations", "api_v3.go: V3API")],
     [h("H_wire_tx", "done"), h("H_wire_unlocks", "done"), h("H_wire_block", "done"), h("H_id_again", "done"), h("H_wire_time", "done")],
     "2 inputs, up to 3 context inputs, 2 allotments, 2 outputs, unlock lists up to 4 unlocks, up to 2 strong, 1 weak and 1 shallow like parents; issuing times within three 2^31 ns windows.",
     observe=["api.Encode", "api.Decode", "Size", "ID"])

prop("P17", "Decoding accepts canonical encodings only and never panics",
     "Whatever bytes are given to a decoder, it returns an error or an object, never panics, and consumes at most the input. With validation, accepted bytes are exactly the encoding of the object they decode to, and multi addresses, restricted addresses, metadata maps and key lists are accepted in one form only (sorted, unique, no trailing zeros), so no object has two encodings; every truncation of an encoding is rejected and bytes after it are left alone.",
     ["inputs"], "valid encodings of outputs, transactions and blocks with any bytes at any position replaced by any others, cut at any length, or followed by anything; addresses, metadata maps, block issuer key lists and unlock conditions put together from arbitrary bytes",
     "A malformed message needs one particular byte at one particular position; a panic takes a node down, a second encoding gives an object two identities.",
     ["api_v3.go", "api_common.go", "bitmask.go", "feat.go", "signature_ed25519.go", "syntax_validator.go", "block.go", "signed_transaction.go"],
     [("signature decoding", "signature_ed25519.go: Decode"), ("serix registrations and validators", "api_v3.go: V3API; api_common.go")],
     [h("H_canon_output", "accepted", "rejected"), h("H_canon_tx", "accepted", "rejected"), h("H_canon_block", "accepted", "rejected"), h("H_canon_cut", "cut", "extended"), h("H_canon_address", "accepted", "rejected"), h("H_canon_parts", "accepted", "rejected")],
     "one richly filled instance per kind of object; windows of 1 byte (outputs, blocks) or 2 bytes (transactions) at every position, 3 and 4 bytes in the thorough tier; up to 3 members of multi addresses, 2 bytes of capabilities, 2 map entries with keys up to 2 bytes, 3 keys; the issuing time of blocks is not varied; trailing data of 3 bytes.",
     observe=["api.Decode", "api.Encode"])
