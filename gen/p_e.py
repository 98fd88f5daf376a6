from lib import prop, h, na

prop("P19", "Only well-formed outputs pass syntactic validation, all of them do",
     "Syntactic validation accepts a transaction's outputs exactly when: unlock conditions, features and immutable features are sorted by type and unique; metadata maps (also immutable ones) have at most 8192 bytes; amounts are positive, cover the storage deposit and sum up to at most the token supply, stored mana to at most the maximum; timelock and expiration slots and native token amounts are not zero; new chains start from their initial state, no account, anchor or NFT owns itself and no chain appears twice; staked amounts stay within the output and need a block issuer feature; foundries hold only their own token and respect their maximum supply; delegations name a validator; every restricted address allows what the output holds; implicit account creation addresses own plain basic outputs only; staking, issuing and delegating come with a commitment input.",
     ["inputs"], "every kind of output, alone or after another, with symbolic IDs, amounts, counters, slots, capability masks, and every order and multiplicity of its parts",
     "Each rule is tested with one sample; gaps appear for a particular combination of kind, position, presence and boundary value.",
     ["output.go", "syntax_validator.go", "transaction.go", "token_scheme_simple.go", "address_restricted.go", "address_implicit_account_creation.go"],
     [("output validators", "output.go: OutputsSyntactical*"), ("validation", "transaction.go: SyntacticallyValidate"), ("ordering", "syntax_validator.go: LexicalOrderAndUniquenessValidator")],
     [h("H_out_order", "valid", "invalid"), h("H_out_zero", "valid", "invalid"), h("H_out_chain", "valid", "invalid", "account", "anchor", "NFT", "delegation"),
      h("H_out_foundry", "valid", "invalid"), h("H_out_unique", "valid", "invalid"), h("H_out_sums", "valid", "invalid"),
      h("H_out_restricted", "valid", "invalid"), h("H_out_implicit", "valid", "invalid"), h("H_out_metadata", "valid", "invalid"), h("H_out_commitment", "valid", "invalid")],
     "up to 3 outputs; lists of up to 3 parts; chain IDs of one symbolic byte repeated; metadata sizes from 8187 to 8196 bytes in 3 layouts; outputs lacking the conditions the wire format demands are not built; an account owned by the account address of all zeroes is left open.",
     observe=["Transaction.SyntacticallyValidate"])

prop("P20", "Only well-formed transactions and unlock lists pass syntactic validation",
     "Syntactic validation accepts a transaction exactly when it names the network, its inputs are distinct and have a possible index, its context inputs are sorted, unique, refer to existing inputs and come with a commitment input, its allotments are sorted and unique with a sum within the mana supply and its capability mask has no trailing zero bytes. A signed transaction has one unlock for each input; signers appear once outside multi unlocks, references point to earlier unlocks that can be referenced, multi unlocks are unique and not nested, and empty unlocks appear only in them.",
     ["inputs"], "up to 4 inputs, 4 context inputs, 4 allotments and 3 unlocks of every kind with symbolic fields",
     "Ordering and uniqueness checks go wrong for particular triples and prefixes; unlock references for particular index and kind combinations.",
     ["transaction_essence.go", "input.go", "input_context.go", "allotment.go", "syntax_validator.go", "unlock.go", "signed_transaction.go", "bitmask.go"],
     [("essence validation", "transaction_essence.go: syntacticallyValidateEssence"), ("context inputs", "input_context.go: ContextInputsRewardInputMaxIndex, ContextInputsCommitmentInputRequirement"), ("unlocks", "unlock.go: SignaturesUniqueAndReferenceUnlocksValidator")],
     [h("H_tx_inputs", "valid", "invalid"), h("H_tx_context", "valid", "invalid"), h("H_tx_allotments", "valid", "invalid"), h("H_tx_unlocks", "valid", "invalid")],
     "IDs differ in 3 or 4 symbolic bytes; up to 3 unlocks (4 in the thorough tier), multi unlocks of 2 unlocks with different signers; a chain unlock inside a multi unlock that refers to another multi unlock is left open.",
     observe=["Transaction.SyntacticallyValidate", "api.Encode with validation"])

prop("P21", "Only well-formed blocks pass validation, all of them do",
     "A block is accepted, when encoded or decoded with validation, exactly when it has at most 32 KiB, names the version and network of the API, commits to the genesis or to a slot at least the minimum and at most the maximum committable age before its own, its parents of each kind are sorted and unique and its weak parents are no other parents; a transaction in it is not created after the block's slot and its commitment input lies in the same window and not after the block's commitment; a validation block supports at least the block's version.",
     ["inputs"], "blocks of both kinds with symbolic slots, commitments, versions, networks and parents; several genesis slots and committable ages",
     "Window bounds, the genesis exception and wrap-around matter at single slots that sample blocks do not have.",
     ["block.go", "api_v3.go", "syntax_validator.go"],
     [("block validation", "block.go: Block.syntacticallyValidate, BasicBlockBody.syntacticallyValidate, ValidationBlockBody.syntacticallyValidate"), ("parents", "api_v3.go: BlockIDs validator")],
     [h("H_block_commitment", "valid", "invalid"), h("H_block_tx", "valid", "invalid"), h("H_block_header", "valid", "invalid"), h("H_block_parents", "valid", "invalid"), h("H_block_size", "valid", "invalid")],
     "block slots 1, 7, 15 and 1000 after genesis slots 0 and 50, committable ages 2-4, 5-6 and 10-20, all commitment slots; up to 3 parents of a kind with IDs of 3 symbolic bytes; sizes from 32766 to 32770 bytes.",
     observe=["api.Encode with validation", "api.Decode with validation"])

prop("P22", "The storage deposit follows the documented storage score",
     "The storage score of an output is the output overhead plus the data factor for each of its encoded bytes and of its 78 bytes of metadata plus the offsets of the block issuer keys, staking feature, delegation and implicit account addresses it has; an implicit account holds the score of the smallest block issuer account. The minimum deposit is the score times the storage cost, an error when that leaves 64 bits; an amount covers it from exactly there on, and the deposit of a storage deposit return is that of a plain basic output to the return address.",
     ["inputs"], "every kind of output with every combination of parts, for all storage score parameters whose sums stay in 64 bits",
     "An element left out of the score shows only in outputs that contain it and only with parameters that weigh it.",
     ["storagescore.go", "output_basic.go", "output_account.go", "output_anchor.go", "output_foundry.go", "output_nft.go", "output_delegation.go", "feat_blockissuer.go", "feat_staking.go", "address_implicit_account_creation.go"],
     [("score structure", "storagescore.go: NewStorageScoreStructure, MinDeposit, CoversMinDeposit, MinStorageDepositForReturnOutput"), ("scores", "each output, feature, condition and address: StorageScore")],
     [h("H_storage_output", "score"), h("H_storage_conditions", "score"), h("H_storage_address", "deposit", "overflow")],
     "factor of 8 bits, offsets of 32 bits, costs 0, 1, 500, 2^40 and 2^60; lists of up to 3 parts; one metadata layout of symbolic length.",
     observe=["Output.StorageScore", "StorageScoreStructure.MinDeposit", "CoversMinDeposit", "MinStorageDepositForReturnOutput"])

prop("P23", "Work score and mana cost are the documented sums and never overflow",
     "The work score of a block is that of its payload plus the block's own: a weight for each byte of the payload, for each input, context input, allotment and output, for each native token, token scheme, staking and block issuer feature in outputs and for each signature among the unlocks, also inside multi unlocks; validation blocks have none. Sums beyond 32 bits are errors. The mana cost is the work score times the reference mana cost, an error beyond 64 bits. No block that fits into the payload size exceeds the maximum block work of its parameters.",
     ["inputs"], "payloads of every kind, every kind of output and unlock, for all work score parameters",
     "A weight left out or counted twice shows only with transactions that contain the element and parameters that weigh it; overflow needs extreme parameters.",
     ["workscore.go", "block.go", "signed_transaction.go", "transaction.go", "unlock_multi.go", "output_foundry.go", "tagged_data.go", "api_v3.go"],
     [("maximum", "workscore.go: MaxBlockWork"), ("sums", "workscore.go: Add, Multiply; every WorkScore method"), ("cost", "block.go: ManaCost")],
     [h("H_work_output", "score", "overflow"), h("H_work_tx", "score", "overflow"), h("H_work_block", "score"), h("H_mana_cost", "cost", "overflow"), h("H_work_max", "fits")],
     "parameters from 1 to 65536 all at once, or one of 32 bits with the others small constants; transactions of up to 4 inputs, 3 context inputs, 2 allotments and 3 outputs; the maximum against 4 transactions with 128 elements.",
     observe=["Block.WorkScore", "Block.ManaCost", "WorkScoreParameters.MaxBlockWork"])
