from lib import *

prop("P38", "The node client asks what it is asked and hands out only what the node answered",
     "Every call of the node, indexer, management and block issuer clients is one request to the documented route, with the identifiers, filters, cursors, bodies and headers of the call; what it returns is what the node answered. An output is handed out only if the answer proves that it is the output of the identifier asked for. Answers other than success are the documented errors, an unavailable node is unhealthy and not an error, plugin clients exist exactly if the node has the plugin, all pages of a listing are collected in order up to the limit, and a payload goes to the block issuer as it was given, with an allotment of exactly what its block costs.",
     ["inputs", "fault_sequences"], "all identifiers, contents and tampered proofs of answers, all subsets of routes and query filters, refusals at every status, up to three pages",
     "A wallet believes its client: an output taken for another one, a lost page, a filter that is dropped or a failure taken for success leads to wrong balances or transactions; tests run against one mocked answer per call.",
     ["nodeclient/http.go", "nodeclient/http_api_client.go", "nodeclient/indexer_client.go", "nodeclient/management_client.go", "nodeclient/blockissuer_client.go", "api/endpoints.go", "api/indexer.go"],
     [("requests", "nodeclient/http.go: do, interpretBody, encodeURLWithQueryParams"), ("core", "nodeclient/http_api_client.go: New, OutputByID, OutputWithMetadataByID, SubmitBlock, ValidatorsAll, Health"), ("indexer", "nodeclient/indexer_client.go: IndexerResultSet.Next, singleOutputQuery; api/indexer.go: URLParams"), ("block issuer", "nodeclient/blockissuer_client.go: SendPayload, SendPayloadWithTransactionBuilder")],
     [h("H_client_new", "done"), h("H_client_outputs", "output", "refused"), h("H_client_status", "refused", "unhealthy"), h("H_client_routes", "done"), h("H_client_blocks", "sent", "metadata"),
      h("H_client_queries", "changes", "commitment", "congestion", "page", "transaction"), h("H_client_pages", "done"), h("H_client_indexer", "done"), h("H_client_single", "none", "output"), h("H_client_params", "done"), h("H_client_manage", "added"), h("H_client_issue", "payload", "refused", "transaction"), h("H_client_do", "done", "refused")],
     "answers of the shapes of P35 and P36 with up to two elements; three validator pages, two indexer pages; filters set to one value each, two groups at a time; slots in routes from three values; proof of work target zero.",
     assumptions=("net/http is replaced below the request: a request reaches the node as built, and its answer comes back whole; redirections are not followed (in the native replays net/http is real)",),
     observe=["nodeclient.Client", "nodeclient.IndexerClient", "nodeclient.BlockIssuerClient", "api.*Query.URLParams"])

prop("P39", "A wallet's mnemonic restores its keys, and keys depend on seed and index only",
     "The keys and addresses of a key manager are a function of its seed, its path and the index asked for: the same ones give the same keys in every order of calls, other ones give other keys, accounts read from an ID and a key have these, and asking never changes the manager's path. Restoring a key manager from the mnemonic of another with the same path gives the same keys, addresses and mnemonic. The address of an index is the one of its public key, and the signer of a list of indexes signs validly for exactly their addresses.",
     ["inputs", "histories"], "all seeds, entropies, indexes and messages",
     "A wrong path or a mnemonic that stands for other keys loses the funds for good, and only shows when the backup is needed; the repository has no tests of its wallet.",
     ["wallet/keymanager.go", "wallet/account.go", "address_signer.go"],
     [("derivation", "wallet/keymanager.go: NewKeyManager, Path, KeyPair, Address"), ("mnemonics", "wallet/keymanager.go: NewKeyManagerFromRandom, NewKeyManagerFromMnemonic, Mnemonic"), ("signing", "wallet/keymanager.go: AddressSigner; address_signer.go: NewInMemoryAddressSignerFromEd25519PrivateKeys; wallet/account.go")],
     [h("H_wallet_params", "done", "refused"), h("H_wallet_restore", "done", repeat=300), h("H_wallet_keys", "done"), h("H_wallet_signer", "foreign", "signed")],
     "seeds of 32 and 64 bytes, the two predefined paths, signers of up to two indexes, messages of eight bytes, mnemonics of 24 words; at most three draws of random entropy in one history are arbitrary, further ones do not begin with a zero byte.",
     assumptions=("SLIP-10 derivation and the seed of a mnemonic are idealised as injective hashes of seed and path, and of the sentence; the word list as an injective text of the entropy (in the native replays they are real)",),
     observe=["wallet.KeyManager", "wallet.Ed25519Account"])

SCHED = ("schedules are explored at every visible operation (channels, locks, atomics, goroutine start and end) up to the stated number of preemptions; plain memory accesses are not preemption points, which is sound as long as they do not race, and races are looked for on every path with vector clocks",
         "the native replay of a schedule is repeated under the race detector, not forced")

prop("P40", "The event client hands out what is published, in order, and never hangs",
     "Every subscription of the event client is for the documented topic of its arguments, in the binary form, and its channel yields the objects published there, each once and in the order in which the connection hands them over; a message that cannot be decoded is reported on the error channel and does not stop the following ones. Failures to connect, subscribe or unsubscribe are returned, and clients that are not connected or whose context is done refuse subscriptions. Once the context is cancelled no callback stays blocked, under every schedule of broker, reader and cancellation.",
     ["schedules", "inputs"], "all schedules of publisher, reader and cancellation up to the preemption bound, all identifiers and contents of messages, messages cut short at every object kind",
     "Deliveries race with closing and with slow readers, and a callback that stays blocked stops every subscription of the connection; tests have no broker at all.",
     ["nodeclient/event_api_client.go", "api/endpoints.go"],
     [("subscriptions", "nodeclient/event_api_client.go: subscribeToTopic, newSubscription, Close"), ("errors", "nodeclient/event_api_client.go: sendErrOrDrop, panicIfEventAPIClientInactive"), ("topics", "nodeclient/event_api_client.go: Blocks…, BlockMetadata…, OutputsWithMetadata…; api/endpoints.go: EventAPITopic…")],
     [h("H_events_new", "client"), h("H_events_topics", "done", sched=True), h("H_events_stream", "broken", "read", "stopped", sched=True), h("H_events_errors", "done", sched=True)],
     "two messages per subscription, one of them broken, and nobody who listens to errors; one preemption (two in the thorough tier); messages in the shapes of P35 and P36.",
     assumptions=("the MQTT library is replaced by a broker that calls the handlers in order; its network, reconnection and acknowledgements are not part of the claim",) + SCHED,
     observe=["nodeclient.EventAPIClient", "nodeclient.EventAPIClientSubscription"])

prop("P41", "Parallel proof of work ends with a valid nonce or with its cancellation",
     "Mining with any number of workers returns a nonce worth at least the demanded trailing zeroes, or the cancellation error once the context is cancelled, under every schedule of its goroutines. It ends soon after cancellation, has no data race and leaves no goroutine behind. Targets above 64 are refused.",
     ["schedules", "inputs"], "all schedules of workers, canceller and caller up to the preemption bound, all data of two bytes for one worker",
     "Workers race for the result and with the cancellation; tests see single schedules, and a leaked worker burns a core for ever.",
     ["blockissuer/pow/worker.go"], [("workers", "blockissuer/pow/worker.go: Mine, worker"), ("score", "blockissuer/pow/worker.go: TrailingZeros, trailingZeros")],
     [h("H_pow_mine", "done", sched=True), h("H_pow_cancel", "done", sched=True), h("H_pow_bounds", "done")],
     "up to two workers (three in the thorough tier), targets of 0, 3 and more zeroes than are ever found; one preemption with two workers (two in the thorough tier; one with three workers), at most 80 visible operations per worker search (paths that search longer are cut); cancellation before or during the search, 300 visible operations to end after it.",
     assumptions=SCHED, observe=["pow.Worker.Mine", "pow.TrailingZeros"])

prop("P42", "Objects that goroutines share can be read at the same time",
     "Blocks, transactions, outputs, addresses, protocol parameters and the API can be used by several goroutines at once as long as none changes them: reading, validating, encoding, executing and copying have no data race and give the same results as alone, the first use included. A version provider that learns of versions while it is asked answers as before or as after, concurrent changes of it follow one another, and aliases of identifiers can be registered, read and taken back from anywhere.",
     ["schedules", "inputs"], "all pairs of uses of one object in all schedules up to the preemption bound, all kinds of blocks, outputs and identifiers",
     "A node hands one block, one API and one provider to all its workers; a hidden write in a method that looks like a getter shows only in rare schedules, and single-threaded tests cannot show it at all.",
     ["block.go", "transaction.go", "signed_transaction.go", "output.go", "api_v3.go", "api_v3_protocol_parameters.go", "api_epoch_based_provider.go", "block_id.gen.go", "identifier.gen.go"],
     [("blocks", "block.go: Block.syntacticallyValidate, Parents, ID, WorkScore"), ("parameters", "api_v3_protocol_parameters.go: Bytes, Hash, NetworkID"), ("provider", "api_epoch_based_provider.go: AddProtocolParameters, AddVersion, SetCommittedSlot, APIForSlot, CommittedAPI"), ("aliases", "*.gen.go: RegisterAlias, Alias, UnregisterAlias")],
     [h("H_shared_block", "done", sched=True), h("H_shared_tx", "done", sched=True), h("H_shared_output", "done", sched=True), h("H_shared_params", "done", sched=True), h("H_shared_api", "done", sched=True), h("H_shared_provider", "changed", "read", sched=True), h("H_shared_alias", "done", sched=True)],
     "two goroutines with one use each, out of five to eight uses per object, for a provider two readers, a reader and a change, or two changes; no preemption for blocks, transactions, outputs and parameters (one for parameters in the thorough tier: unordered accesses are found without), one for provider and aliases (two in the thorough tier); contents of the objects mostly concrete; versions 3 to 5.",
     assumptions=SCHED, observe=["Block", "Transaction", "V3ProtocolParameters", "EpochBasedProvider"])

prop("P43", "Documented size limits of every list and text hold exactly",
     "With validation, encoding and decoding accept exactly the documented numbers of context inputs, inputs, unlocks, outputs and allotments of transactions, of strong, weak and shallow like parents of both kinds of blocks, of keys, addresses of multi addresses, unlocks in multi unlocks and metadata entries, and exactly the documented lengths of tags, tagged data, metadata keys and capability masks. What is within the limits is restored unchanged, and one more or one less than allowed is an error, never a panic.",
     ["inputs"], "every list and text at its smallest and largest size and one beyond, with free bytes where their order or their characters matter",
     "Limits are literals in tags and rules far from the code that relies on them; a wrong one rejects valid objects of other nodes, or lets objects in that others reject, only for sizes that no test builds.",
     ["api_v3.go", "api_common.go", "block.go", "transaction.go", "transaction_essence.go", "feat_tag.go", "tagged_data.go", "unlock_multi.go", "feat_blockissuer.go"],
     [("rules", "api_v3.go: txEssenceV3*ArrRules, txV3UnlocksArrRules; api_common.go: addressesWithWeightArrRules, blockIssuerKeysArrRules, mask settings"), ("tags", "block.go: BasicBlockBody, ValidationBlockBody; feat_tag.go; tagged_data.go; unlock_multi.go: minLen, maxLen")],
     [h("H_limits_tx", "accepted", "refused"), h("H_limits_block", "accepted", "refused"), h("H_limits_parts", "accepted", "refused")],
     "one list or text at a time at its bounds, the others small; one free byte, which also decides order, uniqueness and printability.",
     observe=["API.Encode", "API.Decode"])
