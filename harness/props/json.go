package props

import (
	"crypto"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"
	"verif/harness/nd"
)

// checkJSON sends x through its JSON form into y.
func checkJSON(api iotago.API, x, y any) {
	b, err := api.Encode(x, serix.WithValidation())
	nd.Assert(err == nil, "valid objects encode")
	j, err := api.JSONEncode(x, serix.WithValidation())
	nd.Assert(err == nil, "valid objects have a JSON form")
	err = api.JSONDecode(j, y, serix.WithValidation())
	nd.Assert(err == nil, "the JSON form decodes")
	b2, err := api.Encode(y, serix.WithValidation())
	nd.Assert(err == nil && eqBytes(b, b2), "objects survive their JSON form")
}

var _ = nd.Reg("H_json_output", H_json_output)

// H_json_output: every kind of output with its optional features.
func H_json_output() {
	api := newAPI()
	k := nd.Choice("kind", 6)
	x := anyOutput(k, false, true)
	y := emptyOutput(k)
	checkJSON(api, x, y)
	nd.Assert(x.Equal(y) && y.Equal(x), "the decoded output equals the original")
	nd.Cover("done")
}

var _ = nd.Reg("H_json_conditions", H_json_conditions)

// H_json_conditions: basic outputs and NFTs with every combination of unlock
// conditions.
func H_json_conditions() {
	api := newAPI()
	k := 4 * nd.Choice("kind", 2)
	x := anyOutput(k, true, false)
	y := emptyOutput(k)
	checkJSON(api, x, y)
	nd.Assert(x.Equal(y) && y.Equal(x), "the decoded output equals the original")
	nd.Cover("done")
}

var _ = nd.Reg("H_json_address", H_json_address)

// H_json_address: every kind of address in every place of an output.
func H_json_address() {
	api := newAPI()
	k, x, _ := anyAddressPlace()
	y := emptyOutput(k)
	checkJSON(api, x, y)
	nd.Assert(x.Equal(y) && y.Equal(x), "the decoded output equals the original")
	nd.Cover("done")
}

var _ = nd.Reg("H_json_tx", H_json_tx)

// H_json_tx: signed transactions of every shape keep their bytes and IDs.
func H_json_tx() {
	api := newAPI()
	e := anyTx(api, 1)
	x := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: anySignature("signature")}}}
	y := &iotago.SignedTransaction{}
	checkJSON(api, x, y)
	checkTxIDs(x, y)
	nd.Cover("done")
}

var _ = nd.Reg("H_json_unlocks", H_json_unlocks)

// H_json_unlocks: every kind of unlock.
func H_json_unlocks() {
	api := newAPI()
	x := anyUnlocks(api)
	y := &iotago.SignedTransaction{}
	checkJSON(api, x, y)
	checkTxIDs(x, y)
	nd.Cover("done")
}

var _ = nd.Reg("H_json_block", H_json_block)

// H_json_block: blocks of both kinds with every payload keep their bytes and ID.
func H_json_block() {
	api := newAPI()
	x := anyBlock(api)
	y := &iotago.Block{}
	checkJSON(api, x, y)
	nd.Assert(y.Header.IssuingTime.Equal(x.Header.IssuingTime), "the issuing time is kept")
	nd.Assert(must(x.ID()) == must(y.ID()), "a block keeps its id")
	nd.Cover("done")
}

var _ = nd.Reg("H_json_params", H_json_params)

// H_json_params: protocol parameters keep their bytes and hash.
func H_json_params() {
	api := newAPI()
	p, wire := anyParams("", 2, 3, nd.Choice("factors", 3))
	var x, y iotago.ProtocolParameters = p, nil
	j, err := api.JSONEncode(x)
	nd.Assert(err == nil, "parameters have a JSON form")
	q := &iotago.V3ProtocolParameters{}
	if nd.Choice("interface", 2) == 1 {
		err = api.JSONDecode(j, &y)
		nd.Assert(err == nil, "the JSON form decodes")
	} else {
		err = api.JSONDecode(j, q)
		nd.Assert(err == nil, "the JSON form decodes")
		y = q
	}
	nd.Assert(eqBytes(must(y.Bytes()), wire), "parameters survive their JSON form")
	nd.Assert(must(y.Hash()) == must(p.Hash()) && p.Equals(y), "decoded parameters equal the original")
	nd.Cover("done")
}

var _ = nd.Reg("H_json_proof", H_json_proof)

// H_json_proof: commitments, attestations and proofs.
func H_json_proof() {
	api := newAPI()
	switch nd.Choice("what", 4) {
	case 0:
		c := anyCommitment()
		d := &iotago.Commitment{}
		checkJSON(api, c, d)
		nd.Assert(must(c.ID()) == must(d.ID()), "a commitment keeps its id")
		nd.Cover("commitment")
	case 1:
		b := richBlock(api, 2+nd.Choice("kind", 2))
		b.Header = anyHeader(api)
		b.Signature = anySignature("signature")
		a := iotago.NewAttestation(api, b)
		d := &iotago.Attestation{}
		checkJSON(api, a, d)
		nd.Assert(must(a.BlockID()) == must(d.BlockID()), "an attestation stands for the same block")
		nd.Cover("attestation")
	case 2:
		e := newTxEnv(api, 100)
		n := 1 + nd.Choice("outputs", 4)
		for i := 0; i < n; i++ {
			e.out(basic(ed(byte(i)), 1_000_000, 0))
		}
		i := nd.Choice("index", n)
		e.tx.Outputs[i] = basic(anyEd("owner"), 1_000_000, 0)
		p := must(iotago.OutputIDProofFromTransaction(e.tx, uint16(i)))
		q := &iotago.OutputIDProof{}
		checkJSON(api, p, q)
		nd.Assert(must(q.OutputID(e.tx.Outputs[i])) == must(p.OutputID(e.tx.Outputs[i])), "the proof gives the same ID")
		nd.Cover("output proof")
	case 3:
		hasher := merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256)
		n := 1 + nd.Choice("ids", 5)
		var ids []iotago.Identifier
		for i := 0; i < n; i++ {
			ids = append(ids, iotago.Identifier(accID(byte(i))))
		}
		i := nd.Choice("index", n)
		ids[i] = symID("id")
		p := must(hasher.ComputeProofForIndex(ids, i))
		q, err := merklehasher.ProofFromJSON[iotago.Identifier](must(p.JSONEncode()))
		nd.Assert(err == nil && eqBytes(must(q.Bytes()), must(p.Bytes())), "proofs survive their JSON form")
		nd.Assert(must(q.ContainsValue(ids[i], hasher)) && eqBytes(q.Hash(hasher), p.Hash(hasher)), "decoded proofs prove the same")
		nd.Cover("merkle proof")
	}
}

func anyCommitment() *iotago.Commitment {
	return iotago.NewCommitment(iotago.Version(nd.U8("version")), iotago.SlotIndex(nd.U32("slot")), iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("prev")), symID("previous")), symID("roots"), nd.U64("weight"), iotago.Mana(nd.U64("rmc")))
}
