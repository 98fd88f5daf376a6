from lib import *

prop("P37", "Views of blocks, transactions and output sets show exactly their content",
     "The parents, inputs, context inputs by kind, outputs by ID, chains, features and unlock conditions that blocks, transactions and sets of outputs report are exactly those they contain, in order, with the right IDs, and what says its kind is encoded with it; filters keep what passes and nothing else; copied sets and builders are independent of what is added to the original afterwards. An API equals another exactly if their parameters are equal, and the provider of one version always answers with it.",
     ["inputs"], "all identifiers, slots and amounts in lists of up to three entries of any mix of kinds",
     "The VM, the builders and every node read objects through these views; a view that skips, repeats or mixes up one entry breaks what is decided by it, and tests call them on one object.",
     ["block.go", "transaction.go", "output.go", "output_id.go", "unlock_cond.go", "feat.go", "vm/types.go", "builder/transaction_builder.go", "api_v3.go", "api_single_version_provider.go"],
     [("blocks", "block.go: Parents, ParentsWithType, ForEachParent"), ("transactions", "transaction.go: Inputs, ContextInputs, BICInputs, RewardInputs, CommitmentInput, OutputsSet"), ("sets", "output.go: OutputSet.Filter, Clone, Outputs.Filter, ChainOutputSet; vm/types.go: InputSet; unlock_cond.go and feat.go: sets")],
     [h("H_view_kinds", "done"), h("H_view_targets", "done"), h("H_must_id", "done", "transaction"), h("H_view_block", "done"), h("H_view_tx", "commitment", "no commitment"), h("H_view_outputs", "done", "new chain"), h("H_view_features", "done", "duplicate"), h("H_view_builder_clone", "done"), h("H_api_views", "done")],
     "lists of up to three entries; basic, account and NFT outputs; one change after copying a builder.",
     observe=["Block.Parents", "Transaction.Inputs", "OutputSet", "UnlockConditionSet"])
