package props

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"
	"verif/harness/nd"
)

func h256(parts ...[]byte) []byte {
	h := blake2b.Sum256(bytes.Join(parts, nil))
	return h[:]
}

// merkleRoot is the root per the documented construction, computed level by
// level: a node without a sibling moves up unchanged.
func merkleRoot(leaves [][]byte) []byte {
	if len(leaves) == 0 {
		return h256()
	}
	var level [][]byte
	for _, l := range leaves {
		level = append(level, h256([]byte{0}, l))
	}
	for len(level) > 1 {
		var next [][]byte
		for i := 0; i < len(level); i += 2 {
			if i+1 == len(level) {
				next = append(next, level[i])
			} else {
				next = append(next, h256([]byte{1}, level[i], level[i+1]))
			}
		}
		level = next
	}
	return level[0]
}

// symID is an identifier with one symbolic byte.
func symID(name string) (id iotago.Identifier) {
	id = iotago.Identifier(accID(9))
	id[0] = nd.U8(name)
	return
}

var _ = nd.Reg("H_merkle_tree", H_merkle_tree)

// H_merkle_tree: roots and inclusion proofs of lists of any values.
func H_merkle_tree() {
	hasher := merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256)
	n := nd.Choice("n", 14+20*nd.Tier())
	var ids []iotago.Identifier
	var leaves [][]byte
	for i := 0; i < n; i++ {
		id := iotago.Identifier(accID(byte(i)))
		if n < 5 {
			id = symID("id")
		} else if i == 0 {
			id[0] = nd.U8("id")
		}
		ids = append(ids, id)
		leaves = append(leaves, append([]byte(nil), id[:]...))
	}
	root := merkleRoot(leaves)
	nd.Assert(eqBytes(must(hasher.HashValues(ids)), root), "the root is the documented hash of the list")
	nd.Assert(eqBytes(hasher.Hash(leaves), root), "the root is the documented hash of the data")
	if n == 0 {
		nd.Assert(eqBytes(hasher.EmptyRoot(), root), "the empty list has the empty root")
		_, err := hasher.ComputeProofForIndex(ids, 0)
		nd.Assert(err != nil, "nothing is in the empty list")
		return
	}
	i := nd.Choice("index", n+1)
	p, err := hasher.ComputeProofForIndex(ids, i)
	nd.Assert((err == nil) == (i < n), "there are proofs for the elements")
	if err != nil {
		nd.Cover("outside")
		return
	}
	nd.Assert(eqBytes(p.Hash(hasher), root), "the proof leads to the root")
	nd.Assert(must(p.ContainsValue(ids[i], hasher)), "the proof is for the element")
	other := symID("other")
	nd.Assert(must(p.ContainsValue(other, hasher)) == (other == ids[i]), "the proof is for the element only")
	nd.Cover("proof")
	if n > 3 && nd.Tier() == 0 {
		return
	}
	in := false
	for _, id := range ids {
		in = in || id == other
	}
	q, err := hasher.ComputeProof(ids, other)
	nd.Assert((err == nil) == in, "exactly the elements of a list have proofs")
	if err == nil {
		nd.Assert(eqBytes(q.Hash(hasher), root) && must(q.ContainsValue(other, hasher)), "the proof found is for the element")
	}
}

var _ = nd.Reg("H_merkle_wire", H_merkle_wire)

// H_merkle_wire: proofs survive their encodings.
func H_merkle_wire() {
	hasher := merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256)
	n := 1 + nd.Choice("n", 5)
	var ids []iotago.Identifier
	for i := 0; i < n; i++ {
		ids = append(ids, iotago.Identifier(accID(nd.U8("id"))))
	}
	i := nd.Choice("index", n)
	p := must(hasher.ComputeProofForIndex(ids, i))
	b := must(p.Bytes())
	q, k, err := merklehasher.ProofFromBytes[iotago.Identifier](append(append([]byte(nil), b...), 1, 2, 3))
	nd.Assert(err == nil && k == len(b), "encoded proofs decode")
	nd.Assert(eqBytes(q.Hash(hasher), p.Hash(hasher)) && must(q.ContainsValue(ids[i], hasher)), "decoded proofs prove the same")
	nd.Assert(eqBytes(must(q.Bytes()), b), "decoded proofs have the same encoding")
	nd.Cover("done")
}

var _ = nd.Reg("H_merkle_forge", H_merkle_forge)

// H_merkle_forge: proofs assembled from the hashes of a list only prove its
// elements.
func H_merkle_forge() {
	n := 2 + nd.Choice("n", 2)
	var ids []iotago.Identifier
	var leaves, pool [][]byte
	for i := 0; i < n; i++ {
		id := symID("id")
		ids = append(ids, id)
		leaves = append(leaves, append([]byte(nil), id[:]...))
		pool = append(pool, h256([]byte{0}, leaves[i]))
	}
	pool = append(pool, h256([]byte{1}, pool[0], pool[1]))
	root := merkleRoot(leaves)
	var v iotago.Identifier // the value to prove: an arbitrary one or a hash of the tree
	if maybe("hash") {
		copy(v[:], pool[nd.Choice("value", len(pool))])
	} else {
		v = symID("value")
	}
	pool = append(pool, h256([]byte{0}, v[:]), root)
	pick := func(name string) []byte { return pool[nd.Choice(name, len(pool))] }
	type hashable = merklehasher.MerkleHashable[iotago.Identifier]
	leaf := func(name string) hashable {
		if maybe(name) {
			return &merklehasher.ValueHash[iotago.Identifier]{Hash: pick(name)}
		}
		return &merklehasher.LeafHash[iotago.Identifier]{Hash: pick(name)}
	}
	node := func(l, r hashable) hashable {
		return &merklehasher.Node[iotago.Identifier]{Left: l, Right: r}
	}
	var h hashable
	switch nd.Choice("shape", 2+2*nd.Tier()) {
	case 0:
		h = leaf("a")
	case 1:
		h = node(leaf("a"), leaf("b"))
	case 2:
		h = node(node(leaf("a"), leaf("b")), leaf("c"))
	case 3:
		h = node(leaf("a"), node(leaf("b"), leaf("c")))
	}
	p := &merklehasher.Proof[iotago.Identifier]{MerkleHashable: h}
	if !iotago.VerifyProof(p, v, iotago.Identifier(root)) {
		nd.Cover("rejected")
		return
	}
	nd.Cover("proved")
	in := false
	for _, id := range ids {
		in = in || id == v
	}
	nd.Assert(in, "only the elements of a list can be proved to be in it")
}

var _ = nd.Reg("H_roots", H_roots)

// H_roots: the ID of roots binds all of them, their proofs verify.
func H_roots() {
	var ids [8]iotago.Identifier
	var leaves [][]byte
	for i := range ids {
		ids[i] = symID("root")
		leaves = append(leaves, append([]byte(nil), ids[i][:]...))
	}
	r := iotago.NewRoots(ids[0], ids[1], ids[4], ids[2], ids[3], ids[5], ids[6], ids[7])
	id := r.ID()
	nd.Assert(eqBytes(id[:], merkleRoot(leaves)), "the ID is the Merkle root of the roots in order")
	p, i := r.TangleProof(), 0
	switch nd.Choice("proof", 3) {
	case 1:
		p, i = r.MutationProof(), 1
	case 2:
		p, i = r.AttestationsProof(), 4
	}
	nd.Assert(iotago.VerifyProof(p, ids[i], id), "proofs of roots verify")
	x := symID("other")
	nd.Assert(iotago.VerifyProof(p, x, id) == (x == ids[i]), "proofs of roots verify their root only")
	y := symID("tree")
	nd.Assert(!iotago.VerifyProof(p, ids[i], y), "proofs of roots verify for their ID only")
	nd.Cover("done")
	api := newAPI()
	b := must(api.Encode(r))
	q := new(iotago.Roots)
	k, err := api.Decode(b, q)
	nd.Assert(err == nil && k == len(b) && q.ID() == id, "roots survive their encoding")
	nd.Assert(eqBytes(b, bytes.Join(leaves, nil)), "roots are encoded in order")
}

var _ = nd.Reg("H_output_proof", H_output_proof)

// H_output_proof: output ID proofs give the ID of their output and of no other.
func H_output_proof() {
	api := newAPI()
	e := newTxEnv(api, iotago.SlotIndex(nd.U32("slot")))
	e.in(basic(ed(1), 1, 0), 50)
	n := 1 + nd.Choice("outputs", 4)
	for i := 0; i < n; i++ {
		a := iotago.BaseToken(nd.U8("amount"))
		if i == 1 {
			e.out(kindOutput(2, a, 3).(iotago.TxEssenceOutput))
		} else {
			e.out(basic(ed(1), a, 3))
		}
	}
	id := must(e.tx.ID())
	i := nd.Choice("index", n+1)
	p, err := iotago.OutputIDProofFromTransaction(e.tx, uint16(i))
	nd.Assert((err == nil) == (i < n), "there are proofs for the outputs")
	if err != nil {
		nd.Cover("outside")
		return
	}
	if maybe("wire") {
		b := must(p.Bytes())
		q, k, err := iotago.OutputIDProofFromBytes(api)(b)
		nd.Assert(err == nil && k == len(b), "proofs decode")
		p = q
	}
	out := iotago.OutputIDFromTransactionIDAndIndex(id, uint16(i))
	switch nd.Choice("tamper", 5) {
	case 0:
		got, err := p.OutputID(e.tx.Outputs[i])
		nd.Assert(err == nil && got == out, "the proof gives the ID of its output")
		nd.Assert(got.TransactionID() == id && got.Index() == uint16(i) && got.CreationSlot() == e.tx.CreationSlot, "the ID names transaction, index and slot")
		nd.Assert(eqBytes(id[32:], binary.LittleEndian.AppendUint32(nil, uint32(e.tx.CreationSlot))), "the transaction ID ends with the slot")
		nd.Cover("proof")
	case 1:
		o := basic(ed(1), iotago.BaseToken(nd.U8("other")), 3)
		_, err := p.OutputID(o)
		same := false
		if b, is := e.tx.Outputs[i].(*iotago.BasicOutput); is {
			same = b.Amount == o.Amount
		}
		nd.Assert((err == nil) == same, "there is no ID for another output")
	case 2:
		p.Slot = iotago.SlotIndex(nd.U32("otherSlot"))
		got, err := p.OutputID(e.tx.Outputs[i])
		nd.Assert(err == nil && (got == out) == (p.Slot == e.tx.CreationSlot), "another slot gives another ID")
	case 3:
		was := p.TransactionCommitment
		p.TransactionCommitment[3] = nd.U8("commitment")
		got, err := p.OutputID(e.tx.Outputs[i])
		nd.Assert(err == nil && (got == out) == (p.TransactionCommitment == was), "another commitment gives another ID")
	case 4:
		// the same path with another index
		p.OutputIndex = uint16(nd.Choice("claimed", n))
		got, err := p.OutputID(e.tx.Outputs[i])
		nd.Cover("claim")
		nd.AssertKnown(err != nil || got == out, "no proof gives an output the ID of another output of the transaction", "output-proof-index", true)
	}
}

var _ = nd.Reg("H_attestation", H_attestation)

// H_attestation: attestations stand for their blocks.
func H_attestation() {
	api := newAPI()
	x := richBlock(api, 2+nd.Choice("kind", 2))
	x.Header.IssuerID = accID(nd.U8("issuer"))
	x.Header.LatestFinalizedSlot = iotago.SlotIndex(nd.U32("finalized"))
	k := newKey(1)
	msg := must(x.SigningMessage())
	hh := must(x.Header.Hash(api))
	bh := must(x.Body.Hash())
	nd.Assert(eqBytes(msg, append(append([]byte(nil), hh[:]...), bh[:]...)), "header and body hash are signed")
	switch nd.Choice("signature", 4) {
	case 0:
		x.Signature = k.sign(msg)
		nd.Cover("signed")
		nd.Assert(must(x.VerifySignature()), "signed blocks verify")
	case 1: // of another block
		x.Signature = k.sign(msg)
		x.Header.IssuerID = accID(nd.U8("issuer2"))
	case 2:
		x.Signature = k.sign(must(k.sign(msg).Encode()))
	case 3: // a key of small order can be forged
		s := &iotago.Ed25519Signature{}
		y := &iotago.Block{API: api, Header: richBlock(api, 2).Header, Body: x.Body, Signature: s}
		switch nd.Choice("point", 4) {
		case 0:
			s.Signature[0] = 1
		case 1:
			for i := range s.Signature[:32] {
				s.Signature[i] = 0xff
			}
			s.Signature[0], s.Signature[31] = 0xec, 0x7f
		case 2:
			s.Signature[31] = 0x80
		}
		x = y
	}
	a := iotago.NewAttestation(api, x)
	v, err := x.VerifySignature()
	w, err2 := a.VerifySignature()
	nd.Assert((err == nil && v) == (err2 == nil && w), "an attestation verifies when its block does")
	nd.Assert(must(a.BlockID()) == must(x.ID()) && a.Slot() == x.Slot(), "an attestation has the ID of its block")
	if err == nil && v {
		nd.Cover("verified")
	} else {
		nd.Cover("unverified")
	}
	b := must(a.Bytes())
	p := iotago.SingleVersionProvider(api)
	c, n, err := iotago.AttestationFromBytes(p)(b)
	nd.Assert(err == nil && n == len(b), "attestations decode")
	nd.Assert(must(c.BlockID()) == must(a.BlockID()) && eqBytes(must(c.Bytes()), b) && a.Compare(c) == 0, "attestations survive their encoding")
}

var _ = nd.Reg("H_attestation_order", H_attestation_order)

// H_attestation_order: attestations are ordered by commitment slot, issuing
// time and body hash.
func H_attestation_order() {
	api := newAPI()
	mk := func() *iotago.Attestation {
		a := &iotago.Attestation{API: api}
		a.Header.SlotCommitmentID = iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("slot")), iotago.Identifier(accID(nd.U8("commitment"))))
		a.Header.IssuingTime = time.Unix(0, int64([]uint64{5, 6, 1 << 40}[nd.Choice("time", 3)]))
		a.BodyHash[0], a.BodyHash[31] = nd.U8("hash"), nd.U8("hash")
		return a
	}
	a, b := mk(), mk()
	key := func(a *iotago.Attestation) []byte {
		k := binary.BigEndian.AppendUint32(nil, uint32(a.Header.SlotCommitmentID.Slot()))
		k = binary.BigEndian.AppendUint64(k, uint64(a.Header.IssuingTime.UnixNano()))
		return append(k, a.BodyHash[:]...)
	}
	nd.Assert(a.Compare(b) == bytes.Compare(key(a), key(b)), "attestations are ordered by slot, time and hash")
	var none *iotago.Attestation
	nd.Assert(none.Compare(a) == -1 && a.Compare(none) == 1 && none.Compare(nil) == 0, "no attestation comes first")
	nd.Cover("done")
}

var _ = nd.Reg("H_commitment", H_commitment)

// H_commitment: commitments are identified by their documented encoding.
func H_commitment() {
	api := newAPI()
	mk := func() *iotago.Commitment {
		return iotago.NewCommitment(iotago.Version(nd.U8("version")), iotago.SlotIndex(nd.U32("slot")), iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("prev")), symID("previous")), symID("roots"), nd.U64("weight"), iotago.Mana(nd.U64("rmc")))
	}
	c := mk()
	var w wire
	w.u8(uint8(c.ProtocolVersion))
	w.u32(uint32(c.Slot))
	w.raw(c.PreviousCommitmentID[:])
	w.raw(c.RootsID[:])
	w.u64(c.CumulativeWeight)
	w.u64(uint64(c.ReferenceManaCost))
	b := must(api.Encode(c))
	nd.Assert(eqBytes(b, w.b) && c.Size() == len(b), "commitments have the documented encoding and size")
	id := must(c.ID())
	nd.Assert(eqBytes(id[:], binary.LittleEndian.AppendUint32(h256(b), uint32(c.Slot))) && id.Slot() == c.Slot, "the ID is the hash of the encoding with the slot")
	d := new(iotago.Commitment)
	n, err := api.Decode(b, d)
	nd.Assert(err == nil && n == len(b) && d.Equals(c) && must(d.ID()) == id, "commitments survive their encoding")
	e := mk()
	same := e.ProtocolVersion == c.ProtocolVersion && e.Slot == c.Slot && e.PreviousCommitmentID == c.PreviousCommitmentID && e.RootsID == c.RootsID && e.CumulativeWeight == c.CumulativeWeight && e.ReferenceManaCost == c.ReferenceManaCost
	nd.Assert((must(e.ID()) == id) == same && e.Equals(c) == same, "commitments with the same ID are the same")
	nd.Cover("done")
}
