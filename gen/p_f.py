from lib import prop, h, na

prop("P24", "Merkle roots and inclusion proofs bind exactly the listed values in order",
     "The root of a list is the documented hash: leaves and nodes are prefixed differently, the left subtree holds the largest power of two of values. A proof computed for an index or value leads to that root, and it contains that value and no other; values outside the list have no proof. A proof assembled in any other way from hashes of the list, its nodes or the value does not verify for a value outside the list. The ID of a slot's roots is the root of all eight in order and their proofs verify for that root and ID only. An output ID proof gives its output the ID made of transaction ID and index, and no proof gives an output the ID of another. Proofs survive their encoding.",
     ["inputs"], "lists of every length up to the bound with symbolic values, every index, symbolic values to prove and to tamper with",
     "Proof shapes change with the length of the list; forged proofs are combinations no test writes down.",
     ["merklehasher/merkle_hasher.go", "merklehasher/merkle_proof.go", "commitment_roots.go", "output_id_proof.go", "transaction.go"],
     [("tree", "merklehasher: Hasher.Hash, HashValues"), ("proofs", "merklehasher: ComputeProof, ComputeProofForIndex, Proof.ContainsValue"), ("roots", "commitment_roots.go: Roots.ID, TangleProof, MutationProof, AttestationsProof"), ("outputs", "output_id_proof.go: OutputIDProofFromTransaction, OutputID")],
     [h("H_merkle_tree", "proof", "outside"), h("H_merkle_wire", "done"), h("H_merkle_forge", "proved", "rejected"), h("H_roots", "done"), h("H_merkle_again", "done"), h("H_output_proof", "proof", "outside", "claim")],
     "lists of up to 13 values (33 thorough), each with one symbolic byte; forged proofs with up to 1 node (2 thorough) over lists of 2 and 3; transactions of up to 4 outputs. Hash functions are injective and their results differ from the other inputs.",
     observe=["Hasher.HashValues", "Proof.ContainsValue", "VerifyProof", "OutputIDProof.OutputID"])

prop("P25", "Attestations stand for their blocks, commitments for their content",
     "Header hash and body hash of a block are what is signed; an attestation made from a block has its ID and slot, verifies exactly when the block does, also for degenerate keys, and survives its encoding. Attestations are ordered by committed slot, issuing time and body hash. A commitment has the documented encoding, its ID is the hash of that with its slot, and commitments with the same ID are equal.",
     ["inputs"], "blocks of both kinds with symbolic fields and signatures of every kind; all slots, weights and reference mana costs",
     "Orderings and edge-case keys are not sampled; equality of different objects has to hold for all of them.",
     ["attestation.go", "block.go", "commitment.go", "signature_ed25519.go"],
     [("attestation", "attestation.go: NewAttestation, Compare, BlockID, VerifySignature"), ("block", "block.go: SigningMessage, VerifySignature, ID"), ("commitment", "commitment.go: ID, Equals")],
     [h("H_attestation", "signed", "verified", "unverified"), h("H_attestation_order", "done"), h("H_commitment", "done")],
     "fixed keys, 4 kinds of signatures (valid, of another block, of another message, of degenerate keys); issuing times from 3 values, hashes and IDs of 1-2 symbolic bytes.",
     observe=["Attestation.Compare", "Attestation.VerifySignature", "Commitment.ID"])

prop("P26", "Bech32 strings follow BIP-173 and stand for exactly one address",
     "Encoding data gives the string of BIP-173, rejecting bad prefixes and more than 90 characters; decoding gives prefix and data back. Only such encodings decode: no mixed case, foreign characters, non-zero padding or wrong checksums, also after changing any two characters. The string of an address encodes its ID, it parses back to that address (multi addresses to their reference), and only IDs of valid addresses parse, without trailing bytes.",
     ["inputs"], "data of symbolic bytes at every length up to the limit, strings with symbolic characters at every position, addresses of every kind",
     "The checksum guarantees and the absence of other accepted spellings concern all strings.",
     ["bech32/bech32.go", "bech32/checksum.go", "bech32/chars.go", "bech32/internal/base32/base32.go", "address.go", "address_multi.go", "address_restricted.go"],
     [("codec", "bech32/bech32.go: Encode, Decode"), ("checksum", "bech32/checksum.go"), ("addresses", "address.go: bech32StringBytes, ParseBech32")],
     [h("H_bech32_encode", "encoded", "invalid"), h("H_bech32_decode", "accepted", "rejected"), h("H_bech32_padding", "accepted", "rejected"), h("H_bech32_errors", "done"), h("H_bech32_unicode", "done"), h("H_address_bech32", "done"), h("H_address_parse", "accepted", "rejected", "restricted")],
     "encoded data with symbolic first and last byte, lengths 0-11 and multiples of 6 up to 66; decoded strings of up to 13 characters with 2 free characters anywhere (3 thorough) and 6 free checksum characters, strings of up to 18 characters (58 thorough) whose last two are free and whose checksum is right; changes of any two of 21 characters (65 thorough).",
     observe=["bech32.Encode", "bech32.Decode", "Address.Bech32", "ParseBech32"])
