package props

import (
	"bytes"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"verif/harness/nd"
)

// someParents is a list of blocks in any order, maybe several times the same.
func someParents(name string, max int) (ids iotago.BlockIDs) {
	for i := nd.Choice(name, max+1); i > 0; i-- {
		id := iotago.NewBlockID(3, iotago.Identifier(accID(5)))
		id[0], id[31] = nd.U8(name), nd.U8(name)
		ids = append(ids, id)
	}
	return ids
}

// checkParents: got has exactly the blocks of ids, strictly ascending.
func checkParents(got, ids iotago.BlockIDs) {
	for i := range got {
		nd.Assert(i == 0 || compareBytes(got[i-1][:], got[i][:]) < 0, "parents are unique and in lexical order")
		nd.Assert(hasID(ids, got[i]), "parents are those given")
	}
	for i := range ids {
		nd.Assert(hasID(got, ids[i]), "all parents given are there")
	}
}

func hasID(ids iotago.BlockIDs, id iotago.BlockID) bool {
	r := false
	for _, x := range ids {
		r = r || x == id
	}
	return r
}

var _ = nd.Reg("H_blockbuild", H_blockbuild)

// H_blockbuild: the block builders.
func H_blockbuild() {
	api := newAPI()
	k := newKey(1)
	issuer := iotago.AccountID(anyID("issuer"))
	slot, final := nd.Range64("slot", 1, 1<<20), anySlot("finalized")
	at := api.TimeProvider().SlotStartTime(iotago.SlotIndex(slot))
	com := iotago.NewCommitmentID(anySlot("committed"), iotago.Identifier(anyID("commitment")))
	n := 2 + nd.Tier()
	list := nd.Choice("list", 3)
	var p [3]iotago.BlockIDs
	for i := range p {
		p[i] = someParents([]string{"strong", "weak", "shallow"}[i], n-1)
		if i == list {
			p[i] = append(p[i], someParents("more", 1)...)
		}
	}
	var given [3]iotago.BlockIDs
	for i := range p {
		given[i] = append(given[i], p[i]...)
	}
	want := iotago.BlockHeader{ProtocolVersion: 3, NetworkID: api.ProtocolParameters().NetworkID(), IssuingTime: at, SlotCommitmentID: com, LatestFinalizedSlot: final, IssuerID: issuer}
	if maybe("version") {
		want.ProtocolVersion = 4
	}
	var x *iotago.Block
	var err error
	if maybe("validation") {
		v, hash := iotago.Version(nd.U8("highest")), iotago.Identifier(anyID("hash"))
		b := builder.NewValidationBlockBuilder(api).IssuingTime(at).SlotCommitmentID(com).LatestFinalizedSlot(final).HighestSupportedVersion(v).ProtocolParametersHash(hash).StrongParents(p[0]).WeakParents(p[1]).ShallowLikeParents(p[2])
		if want.ProtocolVersion != 3 {
			b.ProtocolVersion(want.ProtocolVersion)
		}
		x, err = b.Sign(issuer, k.priv).Build()
		nd.Assert(err == nil, "the block is built")
		y := x.Body.(*iotago.ValidationBlockBody)
		nd.Assert(y.HighestSupportedVersion == v && y.ProtocolParametersHash == hash, "the body is as asked for")
		checkParents(y.StrongParents, given[0])
		checkParents(y.WeakParents, given[1])
		checkParents(y.ShallowLikeParents, given[2])
		nd.Cover("validation")
	} else {
		b := builder.NewBasicBlockBuilder(api).IssuingTime(at).SlotCommitmentID(com).LatestFinalizedSlot(final).StrongParents(p[0]).WeakParents(p[1]).ShallowLikeParents(p[2])
		if want.ProtocolVersion != 3 {
			b.ProtocolVersion(want.ProtocolVersion)
		}
		var payload iotago.ApplicationPayload
		if maybe("payload") {
			payload = &iotago.TaggedData{Tag: nd.Bytes("tag", 2), Data: []byte{1}}
			b.Payload(payload)
		}
		max := iotago.Mana(nd.U64("mana"))
		if maybe("calculate") {
			rmc := iotago.Mana(nd.U32("rmc"))
			b.CalculateAndSetMaxBurnedMana(rmc)
			x, err = b.Sign(issuer, k.priv).Build()
			nd.Assert(err == nil, "the block is built")
			max = must(x.ManaCost(rmc))
		} else {
			x, err = b.MaxBurnedMana(max).Sign(issuer, k.priv).Build()
			nd.Assert(err == nil, "the block is built")
		}
		y := x.Body.(*iotago.BasicBlockBody)
		nd.Assert(y.MaxBurnedMana == max && y.Payload == payload, "the body is as asked for")
		checkParents(y.StrongParents, given[0])
		checkParents(y.WeakParents, given[1])
		checkParents(y.ShallowLikeParents, given[2])
		nd.Cover("basic")
	}
	got, exp := &wire{}, &wire{}
	got.header(&x.Header)
	exp.header(&want)
	nd.Assert(eqBytes(got.b, exp.b), "the header is as asked for")
	nd.Assert(must(x.VerifySignature()), "the block is signed")
	nd.Assert(x.Signature.(*iotago.Ed25519Signature).PublicKey == [32]byte(k.pub()), "the block is signed with the key given")
	for i := range p {
		for j := range p[i] {
			nd.Assert(p[i][j] == given[i][j], "lists of parents given are left as they are")
		}
	}
}

var _ = nd.Reg("H_blockbuild_signer", H_blockbuild_signer)

// H_blockbuild_signer: a signer without the key makes building fail.
func H_blockbuild_signer() {
	api := newAPI()
	a, b := newKey(1), newKey(2)
	signer := iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(a.addr, a.priv))
	other := maybe("other")
	addr := a.addr
	if other {
		addr = b.addr
	}
	id := iotago.AccountID(anyID("issuer"))
	at := api.TimeProvider().SlotStartTime(100)
	var x *iotago.Block
	var err error
	if maybe("validation") {
		x, err = builder.NewValidationBlockBuilder(api).IssuingTime(at).SignWithSigner(id, signer, addr).HighestSupportedVersion(4).Build()
	} else {
		x, err = builder.NewBasicBlockBuilder(api).IssuingTime(at).SignWithSigner(id, signer, addr).MaxBurnedMana(3).Build()
	}
	nd.Assert((err != nil) == other, "building fails exactly if the signer lacks the key")
	nd.Assert(err == nil || x == nil, "errors come without a block")
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("built")
	// what changed after signing is not covered by the signature
	nd.Assert(!must(x.VerifySignature()), "signatures bind the content")
}

var _ = nd.Reg("H_issuer_keys", H_issuer_keys)

// H_issuer_keys: lists of block issuer keys are sorted sets.
func H_issuer_keys() {
	var given []iotago.BlockIssuerKey
	for i := 0; i < 2+nd.Tier(); i++ {
		given = append(given, shortKey("key"))
	}
	nd.Assume(keyBytes(given[0])[0] != keyBytes(given[1])[0])
	if len(given) > 2 {
		nd.Assume(keyBytes(given[2])[0] != keyBytes(given[1])[0] && keyBytes(given[2])[0] != keyBytes(given[0])[0])
	}
	keys := iotago.NewBlockIssuerKeys(given...)
	var want iotago.BlockIssuerKeys
	for _, k := range given {
		want = keysWith(want, k)
	}
	for i := 0; i < 2; i++ {
		sameKeys(keys, want)
		k := shortKey("other")
		nd.Assert(keys.Has(k) == hasKey(want, k), "keys are found exactly if they were given")
		clone := keys.Clone()
		old := want
		if maybe("remove") {
			keys.Remove(k)
			want = keysWithout(want, k)
		} else {
			keys.Add(k)
			want = keysWith(want, k)
		}
		sameKeys(clone, old)
		nd.Assert(keys.Equal(clone) == (len(want) == len(old)), "lists are equal exactly if nothing was added or removed")
	}
	sameKeys(keys, want)
	w := &wire{}
	w.u8(uint8(len(want)))
	for _, k := range want {
		w.u8(0)
		w.raw(keyBytes(k))
	}
	nd.Assert(eqBytes(must(keys.Bytes()), w.b) && keys.Size() == len(w.b), "the encoding is the documented one")
	back, err := iotago.BlockIssuerKeysFromReader(bytes.NewReader(w.b))
	nd.Assert(err == nil, "lists read back")
	sameKeys(back, want)
	if len(w.b) > 1 {
		cut := 1 + 16*nd.Choice("cut", 3)
		_, err = iotago.BlockIssuerKeysFromReader(bytes.NewReader(w.b[:len(w.b)-cut]))
		nd.Assert(err != nil, "incomplete lists are refused")
		nd.Cover("cut")
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_issuer_key", H_issuer_key)

// H_issuer_key: single keys.
func H_issuer_key() {
	b := append([]byte{0}, nd.Bytes("hash", 32)...)
	tail := nd.Choice("tail", 2)
	b = append(b, make([]byte, tail)...)
	cut := nd.Choice("cut", 3)
	b[0] = nd.U8("type")
	in := b[:33+tail-cut]
	k, n, err := iotago.BlockIssuerKeyFromBytes(in)
	r, err2 := iotago.BlockIssuerKeyFromReader(bytes.NewReader(in))
	want := b[0] == 0 && len(in) >= 33
	nd.Assert((err == nil) == want && (err2 == nil) == want, "keys are read exactly if they are complete and of a known type")
	if !want {
		nd.Cover("refused")
		return
	}
	nd.Cover("read")
	nd.Assert(n == 33 && eqBytes(keyBytes(k), b[1:33]) && eqBytes(keyBytes(r), b[1:33]) && k.Equal(r) && k.Type() == 0, "keys read are those given")
	nd.Assert(eqBytes(must(k.Bytes()), b[:33]) && k.Size() == 33, "the encoding is the documented one")
	y := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
	n, err = iotago.CommonSerixAPI().Decode(nil, b, y, serix.WithValidation())
	nd.Assert(err == nil && n == 33 && y.Equal(k), "keys decode")
}

func shortKey(name string) iotago.BlockIssuerKey {
	k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
	k.PublicKeyHash[0], k.PublicKeyHash[31] = nd.U8(name), nd.U8(name)
	return k
}

func sameKeys(a, b iotago.BlockIssuerKeys) {
	nd.Assert(len(a) == len(b), "as many keys as there are different ones")
	for i := range a {
		nd.Assert(eqBytes(keyBytes(a[i]), keyBytes(b[i])), "keys are in order")
	}
}

func hasKey(keys iotago.BlockIssuerKeys, k iotago.BlockIssuerKey) bool {
	r := false
	for _, x := range keys {
		r = r || eqBytes(keyBytes(x), keyBytes(k))
	}
	return r
}
