from lib import prop, h, na

prop("P27", "Identifiers and slots-with-identifiers round-trip and refuse other lengths",
     "The bytes, hex and text forms of an identifier give exactly it back, reading as many bytes as it has. Bytes and hex strings of any other length, hex strings with other characters and output IDs from other parts are refused, never cut short or padded, and with a panic by the Must functions only. IDs that represent data are its hash, with the slot. Slot and index of an identifier are those it was made with; identifiers have the order of their bytes, and an alias belongs to one of them only. Foundry and NFT, account, anchor and delegation IDs are the documented function of their origin and give their addresses. Sets of IDs remove duplicates only and say whether an ID occurs. Numbers of mana, tokens and slots survive bytes and text.",
     ["inputs"], "all bytes of every identifier type, every length around its own, symbolic characters, symbolic parts",
     "Identifiers come from users and nodes as text of any length and content; a few examples settle one length.",
     ["identifier.gen.go", "block_id.gen.go", "transaction_id.gen.go", "commitment_id.gen.go", "output_id.go", "output_foundry.go", "identifier_account.gen.go", "slot_index.gen.go", "mana.go"],
     [("hex", "identifier.gen.go and the other generated files: FromHexString, ToHex"), ("bytes", "*FromBytes, Bytes, MarshalText, UnmarshalText"), ("output", "output_id.go: OutputIDFromTransactionIDAndIndex, OutputIDFromHexString"), ("sets", "*IDs.RemoveDupsAndSort, output_id.go")],
     [h("H_id_must", "parsed", "refused"), h("H_id_data", "done"), h("H_id_aliases", "done"), h("H_id_hex", "done"), h("H_id_length", "done"), h("H_id_chars", "accepted", "rejected"), h("H_output_id", "done"), h("H_ids_of_chains", "done", "foundry"), h("H_id_sets", "done"), h("H_numbers", "done"), h("H_id_views", "done"), h("H_id_alias", "same", "different")],
     "8 types of identifiers with all bytes symbolic; input lengths from nothing to 40 more than right; lists of up to 3 IDs with 3 symbolic bytes; numbers of 16 symbolic bits at both ends of the range.",
     observe=["FromHexString", "FromBytes", "OutputIDFromTransactionIDAndIndex"])

prop("P28", "Addresses have one identity, masks grant what was asked, signers sign for them",
     "Two addresses are equal, have the same key, the same ID and the same text exactly if they have the same encoding; size, type and ID follow from the encoding. Copies are equal and independent. Addresses read from bytes and from a stream are the same, with the same bytes consumed and the same inputs refused. A capability mask grants exactly the capabilities asked for, in its shortest form and as its bytes say, and granting or checking one leaves the others. A signer signs for each address it has the keys of, restricted and multi addresses included, with signatures that verify for that address and message, and refuses the others.",
     ["inputs"], "pairs of addresses of all 8 kinds with symbolic content, all capability sets, address encodings with symbolic bytes, symbolic choice of keys",
     "Identity has to hold for every pair of addresses, capabilities for every subset.",
     ["address.go", "address_multi.go", "address_restricted.go", "address_signer.go", "transaction.go", "bitmask.go", "transaction_capabilities_bitmask.go"],
     [("identity", "address_*.go: Equal, Key, ID, Size, String"), ("copies", "address_*.go: Clone"), ("stream", "address.go: AddressFromBytes, AddressFromReader"), ("capabilities", "bitmask.go: BitMaskSetBit, BitMaskHasBit; address_restricted.go; transaction_capabilities_bitmask.go"), ("signer", "address_signer.go: InMemoryAddressSigner")],
     [h("H_signer_func", "done"), h("H_mask_read", "read", "refused"), h("H_tx_sign", "done"), h("H_addr_identity", "same", "different"), h("H_addr_clone", "done"), h("H_addr_again", "done"), h("H_addr_read", "accepted", "rejected"), h("H_capabilities", "done"), h("H_capability_bits", "done"), h("H_tx_capabilities", "done"), h("H_signer", "signed", "none", "restricted")],
     "addresses as in P16, multi addresses of 2 members in streams of up to 2; masks of up to 3 bytes; fixed keys of up to 2 addresses, every assignment.",
     observe=["Address.Equal", "Address.Key", "AddressFromReader", "AddressSigner.Sign"])
