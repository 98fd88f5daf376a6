from lib import prop, h, na

prop("P29", "The transaction builder unlocks all inputs and neither loses nor invents mana",
     "A transaction built from inputs whose owners the signer has the keys of, or which are chains consumed by earlier inputs (also chains and implicit accounts just created), has exactly one unlock per input, passes syntactic validation, and its unlocks unlock the inputs; if an owner is missing the builder fails. What outputs and allotments do not use of the mana of the inputs (stored, generated, rewards) is stored in the chosen output or allotted to the chosen account, to the last unit; mana bound to an account only goes to that account. The virtual machine accepts the result. Building fails exactly if there is less mana than asked for. With the minimum allotted, the block issuer gets at least what its block costs, and what the outputs were given stays.",
     ["inputs"], "all symbolic amounts of mana below 2^60 in inputs, outputs, allotments, rewards and minima; every order and owner of up to three inputs of four kinds; every operation for remaining mana",
     "Wallets rely on the builder for every combination of owners, and on its arithmetic for every amount; its tests have a few of each.",
     ["builder/transaction_builder.go", "transaction.go", "address_signer.go", "vm/vm.go"],
     [("unlocks", "builder/transaction_builder.go: Build"), ("available mana", "builder/transaction_builder.go: NewAvailableManaInputs/calculateAvailableManaInputs, calculateAvailableManaOutputs"), ("remaining mana", "builder/transaction_builder.go: AllotAllMana, StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana, AllotMinRequiredManaAndStoreRemainingManaInOutput")],
     [h("H_build_unlocks", "locked", "unlocked"), h("H_build_mana", "built", "lacking"), h("H_build_min", "built", "lacking")],
     "two (thorough: three) inputs of any kind plus one basic one, 7 kinds of owners; mana below 2^60 per place, generated mana for two concrete ages, one account, one delegation with rewards; reference mana cost 0, 1 and 1000.",
     observe=["TransactionBuilder.Build", "BuildAndSwapToBlockBuilder"])

prop("P30", "Copies share nothing and outputs are equal exactly if their encodings are",
     "Two outputs are equal exactly if they have the same encoding: any part that differs or is missing is noticed, from both sides. Copies of outputs, transactions, payloads, unlocks and signatures have the same encoding and are equal, and changing anything reachable from a copy leaves what it was copied from as it was.",
     ["inputs"], "outputs of all six kinds with all conditions and features, with up to two bytes anywhere in their encoding replaced by symbolic ones; every subset of parts",
     "Equality decides whether state transitions are allowed and must not miss any field; tests compare a few outputs.",
     ["output_basic.go", "output_account.go", "output_anchor.go", "output_foundry.go", "output_nft.go", "output_delegation.go", "unlock_cond.go", "signed_transaction.go", "transaction.go"],
     [("outputs", "output_*.go: Equal, Clone"), ("parts", "feat.go, feat_*.go, unlock_cond.go, unlock_cond_*.go: Equal, Clone"), ("transactions", "signed_transaction.go, transaction.go: Clone")],
     [h("H_equal_output", "same", "different", "invalid"), h("H_clone_tx", "done"), h("H_equal_parts", "done")],
     "one output of each kind with all its parts and fixed content but for 2 (thorough: 4) symbolic bytes at every place; one transaction with every kind of input, output and unlock.",
     observe=["Output.Equal", "Output.Clone", "SignedTransaction.Clone"])
