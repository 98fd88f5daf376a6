from lib import prop, h, na

prop("P31", "The epoch-based provider serves the right version for every slot and time",
     "Whatever the order in which protocol parameters, version starts and committed slots are announced, the API for an epoch, slot or time is that of the version which started last at or before it, unknown versions and versions without parameters are errors, the committed and latest API follow what was announced, and the versions of two nodes have the same hash exactly if their versions, starts and parameters are the same.",
     ["inputs", "histories"], "every order of up to 3 announcements (thorough: 4) with all start epochs and slots",
     "Nodes switch protocol versions by what was announced in any order; the tests walk one history.",
     ["api_epoch_based_provider.go", "api_protocol_epoch_versions.go", "api_provider.go"],
     [("announcements", "api_epoch_based_provider.go: AddProtocolParametersAtEpoch, AddProtocolParameters, AddVersion, SetCommittedSlot"), ("lookups", "api_epoch_based_provider.go: APIForVersion, APIForEpoch, APIForSlot, APIForTime, CommittedAPI, LatestAPI; api_protocol_epoch_versions.go: VersionForEpoch, EpochForVersion, Add"), ("agreement", "api_epoch_based_provider.go: VersionsAndProtocolParametersHash; api_protocol_epoch_versions.go: Bytes")],
     [h("H_provider_now", "done"), h("H_versions_bytes", "done"), h("H_provider_history", "known", "unknown"), h("H_provider_hash", "same", "different")],
     "3 (thorough: 4) announcements over the versions 4 and 5 (thorough: to 6) beyond the first one, all 32-bit start epochs and slots below the overflow of epochs.",
     ["The parameters of a version are announced once, and before a slot of that version is committed (the provider documents that it panics otherwise).", "Calls are sequential; the locks of the provider are not modelled."],
     state=["histories"], observe=["EpochBasedProvider"])

prop("P32", "Protocol parameters agree, encode and check as documented",
     "Protocol parameters are encoded as documented, decode to what they were, and have the hash of that encoding; they are equal exactly if their encodings are. Parameters that do not fit together (liveness thresholds, committable ages and epoch length, the steps and rate of the congestion control, validation blocks and the exponent of the rewards pool) are refused, all others are accepted.",
     ["inputs", "configurations"], "all values of every field; the consistency checks for all values of the fields they use",
     "All nodes must agree on the parameters by their hash; tests compare a few sets.",
     ["api_v3_protocol_parameters.go", "api_protocol_parameters.go", "api_common.go", "api.go", "mana.go", "rmc.go", "storagescore.go", "workscore.go"],
     [("encoding", "api_v3_protocol_parameters.go: Bytes, Hash; api_common.go: basicProtocolParameters"), ("equality", "api_v3_protocol_parameters.go: Equals; api_protocol_parameters.go"), ("checks", "api_v3_protocol_parameters.go: NewV3SnapshotProtocolParameters")],
     [h("H_params_wire", "done"), h("H_params_equal", "done"), h("H_params_check", "accepted", "refused")],
     "all fields symbolic; three decay factors; network names and token texts of a few lengths; slots per epoch exponents to 13.",
     observe=["ProtocolParameters.Bytes", "ProtocolParameters.Hash", "ProtocolParameters.Equals"])

prop("P33", "Builders produce exactly what they were asked for",
     "An output built from scratch or from a previous output has exactly the amounts, conditions and features the calls asked for, sorted by type, whatever the order of the calls; the previous output stays as it was. Building fails exactly if immutable features would change, or an anchor would have to make a state and a governance transition at once; state transitions increase the state index by one. Block builders sort parents and remove duplicates, set the header, the mana asked for or the cost of the block, and sign for the issuer; a signer without the key makes them fail. Lists of block issuer keys stay sorted and without duplicates and read back from their encoding.",
     ["inputs", "histories"], "every sequence of two calls (thorough: three) of each builder with all values, from scratch and from an output with all parts; all lists of up to three parents of each kind; all keys in lists of up to four",
     "Wallets chain builder calls in any order; tests have one order of each.",
     ["builder/output_builder_basic.go", "builder/output_builder_account.go", "builder/output_builder_anchor.go", "builder/output_builder_foundry.go", "builder/output_builder_nft.go", "builder/output_builder_delegation.go", "builder/block_builder.go", "block_issuer_key.go", "block_issuer_key_ed25519_pubkeyhash.go", "output.go", "feat.go", "unlock_cond.go"],
     [("outputs", "builder/output_builder_*.go: all calls and Build"), ("blocks", "builder/block_builder.go; block_id.gen.go: RemoveDupsAndSort; block.go: Sign, ManaCost"), ("keys", "block_issuer_key.go: NewBlockIssuerKeys, Add, Remove, Has, BlockIssuerKeysFromReader, BlockIssuerKeyFromBytes")],
     [h("H_build_must", "built", "failed"), h("H_outbuild_basic", "built"), h("H_outbuild_nft", "built", "refused"), h("H_outbuild_foundry", "built", "refused"), h("H_outbuild_delegation", "built"), h("H_outbuild_anchor", "built", "refused"), h("H_outbuild_account", "built", "refused"),
      h("H_blockbuild", "basic", "validation"), h("H_blockbuild_signer", "built", "refused"), h("H_issuer_keys", "done", "cut"), h("H_issuer_key", "read", "refused")],
     "2 (thorough: 3) calls per output; ids of parents and keys with 2 symbolic bytes; up to 2 parents of two kinds and 3 of the third; foundry counters and state indices below 2^32.",
     state=["histories"], observe=["OutputBuilder.Build", "BlockBuilder.Build", "BlockIssuerKeys"])
