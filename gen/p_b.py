from lib import prop, h, na

VM = "vm/vm.go"
NOVA = "vm/nova/vm.go"

prop("P03", "Transactions conserve base tokens exactly",
     "A transaction that validates and executes creates exactly the base tokens it consumes: the sums over outputs and inputs of every kind agree as unbounded integers, no sum exceeds the token supply, and every balanced transaction with sufficient deposits is accepted.",
     ["inputs"], "all 64-bit amounts on inputs and outputs of every kind",
     "Tests use small amounts; a wrapping or skipped term appears only at particular amounts or for particular kinds of outputs.",
     [VM, "transaction.go", "output.go"], [("balance check", "vm/vm.go: ExecFuncBalancedBaseTokens"), ("supply and deposit checks", "output.go: OutputsSyntacticalDepositAmount")],
     [h("H_vm_base_balance", "accepted", "rejected"), h("H_vm_base_balance_kinds", "accepted", "rejected"), h("H_vm_base_balance_delegation", "accepted", "rejected", "ended", "claimed")],
     "two inputs and two outputs (three with a foundry), every 64-bit amount.", observe=["Transaction.SyntacticallyValidate", "nova VirtualMachine.Execute"])
prop("P04", "Storage deposit returns are always paid",
     "A transaction that consumes outputs with a storage deposit return unlock condition is accepted only if, for every return address, plain basic outputs to that address sum to at least what all its conditions demand together (except for inputs that the return address itself unlocks after expiration); a created return condition demands at least the deposit of the return output and at most the amount of its output.",
     ["inputs"], "all amounts, one or two demands to one or two addresses, all kinds of paying outputs",
     "Netting several demands against several payments of different shapes is combinatorial; tests sample single returns.",
     [VM, "output.go"], [("return netting", "vm/vm.go: ExecFuncBalancedBaseTokens"), ("return amount range", "output.go: OutputsSyntacticalDepositAmount")],
     [h("H_vm_storage_return", "accepted", "rejected"), h("H_vm_storage_return_created", "accepted", "rejected")],
     "one or two inputs and outputs; amounts below 2^60 in the netting harness, all 64-bit amounts for created conditions.")
prop("P05", "Native tokens are conserved and foundries account for every token",
     "Without its foundry a native token's outputs equal its inputs, or fall below them if the transaction may burn. While a foundry is created, transitions or is destroyed, the changes of its minted and melted counters equal exactly the tokens that appear or disappear, counters never decrease, the maximum never changes, the circulating supply stays between zero and the maximum, and every honest minting or melting is accepted.",
     ["inputs"], "all 256-bit token amounts and counters",
     "256-bit counters and sums: tests use one-digit numbers, boundary cases need particular large values and combinations of minting and melting.",
     [NOVA, VM, "token_scheme_simple.go", "output_foundry.go"], [("native token balance", "vm/vm.go: ExecFuncBalancedNativeTokens"), ("foundry supply change", "token_scheme_simple.go: StateTransition")],
     [h("H_vm_native_balance", "accepted", "rejected"), h("H_vm_foundry_supply", "accepted", "rejected", "minted from nothing"), h("H_vm_foundry_ends", "accepted", "rejected", "genesis", "destruction")],
     "two token kinds over two inputs and outputs without foundry; one foundry with at most one token input and one token output.")
prop("P06", "Transactions conserve mana up to permitted burning",
     "An accepted transaction's stored output mana plus allotments equals the decayed stored mana and generated potential mana of its inputs plus claimed rewards, or stays below it exactly when the transaction may burn mana; sums that overflow are refused, and inputs from the future are refused.",
     ["inputs"], "all mana values, several creation slots and kinds of inputs",
     "Overflows and dropped terms depend on particular values; decay and generation depend on the slots of each input.",
     [VM, "transaction.go", "allotment.go", "output.go"], [("mana balance", "vm/vm.go: ExecFuncBalancedMana, TotalManaIn, TotalManaOut")],
     [h("H_vm_mana_sums", "sum", "overflow"), h("H_vm_mana_balance", "accepted", "rejected", "reward", "allotment"), h("H_vm_mana_full_range", "accepted", "rejected", "wrapped"), h("H_vm_mana_decayed", "accepted", "rejected", "decay")],
     "one or two inputs, two outputs, two allotments, one reward; sums of up to two outputs and two (thorough: three) rewards or allotments; listed creation slots.")
prop("P07", "Only owners unlock inputs",
     "An input is unlocked exactly by a signature of its owner's key over this very transaction, by a reference to an earlier unlock of the same address, by a reference to the transition of the chain that owns it, or by sub-unlocks of a multi address whose weights reach the threshold. Any change of the transaction, the key or the signature makes the unlock void, and an anchor's address is controlled only by its state transition.",
     ["inputs", "histories"], "all references, indices, weights, thresholds, key and signature bytes and changed parts of the transaction",
     "Forged combinations of unlock kinds and references are combinatorial; tests check a few wrong unlocks.",
     [VM, NOVA, "unlock_reference.gen.go", "unlock_multi.go", "output_anchor.go", "transaction.go"], [("unlock validation", "vm/vm.go: ValidateUnlocks, unlockAddress"), ("anchor owner", "output_anchor.go: Owner"), ("signing message", "transaction.go: SigningMessage")],
     [h("H_unlocks_direct", "accepted", "rejected"), h("H_unlocks_forged", "accepted", "rejected"), h("H_unlocks_signed_parts", "accepted", "rejected"), h("H_unlocks_chain", "accepted", "rejected"), h("H_unlocks_chain_owner", "accepted", "other index"), h("H_unlocks_multi", "accepted", "rejected")],
     "up to three inputs, three keys, two to three sub-unlocks.", assumptions=["signatures are unforgeable: only signatures made by the harness verify"])
prop("P08", "Timelocks and expirations decide who can spend when",
     "An output with a timelock is spendable exactly when the transaction's commitment proves that the lock has passed. With an expiration its owner alone can spend it while the commitment proves it has not expired, the return address alone once the commitment proves it has, and nobody in between or without a commitment. Outputs themselves say the same about who can unlock them in a range of slots; an anchor is unlocked by its governor, or by its state controller for its next state.",
     ["inputs"], "all 31-bit commitment slots and all expiration/timelock slots",
     "Off-by-one errors at the boundaries between owner, nobody and return address are visible at single slots only.",
     [VM, "unlock_cond_timelock.go", "unlock_cond_expiration.go", "output.go"], [("timelock", "vm/vm.go: ExecFuncTimelocks"), ("expiration", "unlock_cond_expiration.go, output.go: UnlockableBy, UnlockConditionSet.CheckExpirationUnlockCondition")],
     [h("H_vm_timelock", "accepted", "rejected"), h("H_vm_expiration", "accepted", "rejected", "expired", "not expired", "neither"), h("H_vm_conditions", "accepted", "rejected"), h("H_unlockable_by", "can unlock", "can not unlock", "anchor")],
     "one basic or NFT input, or two basic inputs with any combination of deposit return, timelock and expiration; commitment slots below 2^31.")
