from lib import prop, h, na

VM = "vm/vm.go"
NOVA = "vm/nova/vm.go"
OBS = ["Transaction.SyntacticallyValidate", "nova VirtualMachine.Execute"]
AR = ("accepted", "rejected")

prop("P09", "Accounts are created, kept and destroyed only as their binding allows",
     "A chain output carries the id of a consumed chain of its kind, the id derived from a consumed new output, or none if new, and appears at most once. An account is destroyed only with the capability, after its block issuance expired with non-negative credits, after its stake ended and together with its reward. An implicit account is only ever converted into exactly its account, one per transaction.",
     ["inputs", "histories"], "all identifiers, expiry slots, end epochs, credits and commitment slots",
     "The conditions interact; tests check one violated rule at a time with fixed slots.",
     [NOVA, VM, "output_account.go", "chain.go"], [("account transitions", "vm/nova/vm.go: accountSTVF, implicitAccountSTVF"), ("chain matching", "vm/vm.go: ExecFuncChainTransitions; vm/types.go: ChainInputSet; output.go: ChainOutputSet")],
     [h("H_chain_ids", *AR), h("H_account_destroy", *AR), h("H_implicit", *AR)],
     "one or two inputs and outputs, commitment slots below 2^31.", observe=OBS)
prop("P10", "Anchors change only as the acting controller may",
     "An anchor's state transition increments its state index by one and keeps state controller, governor and metadata; a governance transition keeps amount, state index and state metadata; nothing else is accepted, and an anchor disappears only with the capability for its kind.",
     ["inputs"], "all state indices, controllers and amounts, several metadata",
     "Each rule guards one field in one kind of transition; tests sample a few.",
     [NOVA, "output_anchor.go"], [("anchor transitions", "vm/nova/vm.go: anchorStateSTVF, anchorGovernanceSTVF")],
     [h("H_anchor_transition", "accepted", "rejected", "governance", "state"), h("H_chain_destroy", *AR)],
     "one anchor; metadata of one entry.", observe=OBS)
prop("P11", "Issuers, senders and immutable features are authentic",
     "The immutable features of accounts, NFTs, anchors and foundries never change; a new chain names an issuer, and any output names a sender, only if that address is unlocked in the transaction, where a restricted address stands for the one it wraps.",
     ["inputs", "histories"], "all address bytes and metadata values, all kinds of chain outputs",
     "A comparison that misses a feature, kind or byte shows only for inputs differing there.",
     [NOVA, VM, "feat.go", "feat_issuer.go", "feat_sender.go"], [("issuer and immutables", "vm/vm.go: IsIssuerOnOutputUnlocked; vm/nova/vm.go: *StateChangeValid"), ("senders", "vm/vm.go: ExecFuncSenderUnlocked")],
     [h("H_chain_immutable", *AR), h("H_sender", *AR, "issuer")], "one issuer and one metadata entry.", observe=OBS)
prop("P12", "Foundry serial numbers are given out once and in order",
     "The foundry counter of an account grows exactly by the number of its new foundries, whose serial numbers lie in the gap and ascend; foundries appear only next to the transition of their account.",
     ["inputs"], "all 32-bit counters and serial numbers, up to two new foundries and one old",
     "Reusing a serial number would revive a foundry id; the arithmetic on counters has edge cases for particular values.",
     [NOVA, "output_foundry.go"], [("serials", "vm/nova/vm.go: foundrySerialNumberValid, accountFoundryCounterSTVF")],
     [h("H_foundry_accounts", "accepted", "rejected"), h("H_account_counter", *AR), h("H_foundry_owner", *AR), h("H_implicit_foundry", *AR)], "two accounts with three new foundries and an old one; one account with at most two new foundries, one existing one.", observe=OBS)
prop("P13", "Stake is bonded until its end and removed or reset only with its reward",
     "A new stake starts in the epoch the commitment determines and bonds at least the unbonding period; a bonded stake keeps amount, cost and start, and moves its end only far enough into the future; an ended stake is kept unchanged, or removed or reset as if new, exactly together with its reward claim.",
     ["inputs", "histories"], "all amounts, costs, epochs and commitment slots",
     "Epoch boundaries and combinations of changed fields are not enumerable by tests.",
     [NOVA, "feat_staking.go"], [("staking transitions", "vm/nova/vm.go: accountStakingSTVF and helpers")],
     [h("H_staking", "accepted", "rejected", "bonded", "removed", "reset"), h("H_staking_implicit", *AR)],
     "one account; commitment slots below 2^31.", observe=OBS)
prop("P14", "Delegations start, end and pay rewards in the right epoch",
     "A delegation is created over its whole amount, without id or end, to a validator, starting in the first epoch whose committee is not yet determined; it transitions once, recording its end epoch and changing nothing else delegated; it is destroyed exactly together with its reward claim.",
     ["inputs", "histories"], "all epochs, amounts and commitment slots",
     "The registration boundary within an epoch makes off-by-one errors visible at single slots.",
     [NOVA, "output_delegation.go"], [("delegation transitions", "vm/nova/vm.go: delegationSTVF and helpers")],
     [h("H_delegation_create", "accepted", "rejected", "committee fixed"), h("H_delegation_end", "accepted", "rejected", "committee fixed", "destroyed")],
     "one delegation; commitment slots below 2^31.", observe=OBS)
prop("P15", "Block issuing accounts keep their mana and bonds",
     "A block issuer feature is added with an expiry beyond the maximum committable age, is not removed before it expires, and its account transitions only with non-negative block issuance credits. Mana leaves such an account only into outputs timelocked for it long enough, or by burning; what others bring may go anywhere.",
     ["inputs", "histories"], "all expiry and commitment slots, credits, mana values below 2^60",
     "The mana rule sums over inputs, outputs, allotments and locked outputs; an attacker searches exactly the combination a test misses.",
     [NOVA, "feat_blockissuer.go", "unlock_cond.go"], [("block issuer transitions", "vm/nova/vm.go: accountBlockIssuerSTVF"), ("manalocks", "unlock_cond.go: HasManalockCondition")],
     [h("H_issuer_expiry", "accepted", "rejected", "expired", "removal before expiry"), h("H_issuer_mana", *AR)],
     "one account, one other input and output, one allotment; no expiration on the locked output.", observe=OBS)
