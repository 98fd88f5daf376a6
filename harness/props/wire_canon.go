package props

import (
	"math/big"

	"github.com/iotaledger/hive.go/serializer/v2/serix"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// richOutput is a valid output of kind k with every optional part.
func richOutput(k int) iotago.TxEssenceOutput {
	md := func() *iotago.MetadataFeature {
		return &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"a": []byte{1}, "b": []byte{2, 3}}}
	}
	multi := iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: ed(1), Weight: 1}, {Address: ed(2), Weight: 2}}, 2)
	nftAddr := iotago.NFTAddress(accID(3))
	switch k {
	case 0:
		o := basic(ed(1), 10_000_000, 5, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ed(2), Amount: 1_000_000}, &iotago.TimelockUnlockCondition{Slot: 7}, &iotago.ExpirationUnlockCondition{ReturnAddress: ed(3), Slot: 9})
		o.Features = append(o.Features, &iotago.SenderFeature{Address: multi}, md(), &iotago.TagFeature{Tag: []byte{1, 2}}, nt(token(7, 1), big.NewInt(300)))
		return o
	case 1:
		o := account(7, 10_000_000, &iotago.SenderFeature{Address: ed(1)}, md(), blockIssuer(100), &iotago.StakingFeature{StakedAmount: 5, FixedCost: 6, StartEpoch: 7, EndEpoch: 90})
		o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: &nftAddr}, md())
		return o
	case 2:
		o := kindOutput(3, 10_000_000, 5).(*iotago.AnchorOutput)
		o.Features = append(o.Features, md(), &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{"s": []byte{1}}})
		o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: &iotago.RestrictedAddress{Address: ed(1), AllowedCapabilities: iotago.AddressCapabilitiesBitMask{5, 1}}})
		return o
	case 3:
		o := foundry(7, 1, 10_000_000, &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(9), MeltedTokens: big.NewInt(1), MaximumSupply: big.NewInt(1000)}, md(), nt(token(7, 1), big.NewInt(8)))
		o.ImmutableFeatures = append(o.ImmutableFeatures, md())
		return o
	case 4:
		o := kindOutput(2, 10_000_000, 0).(*iotago.NFTOutput)
		o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: 7})
		o.Features = append(o.Features, &iotago.TagFeature{Tag: []byte{1}})
		o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: multi})
		return o
	default:
		return delegation(10_000_000, iotago.DelegationID(accID(4)), 5, 6)
	}
}

// mutate overwrites w bytes of b at an arbitrary position with arbitrary values.
func mutate(b []byte, w, step int) {
	n := (len(b) - w) / step
	copy(b[step*nd.Choice("position", n+1):], nd.Bytes("mutation", w))
}

// checkCanonical: decoding never panics, and what is accepted is the canonical
// encoding of the result.
func checkCanonical(api iotago.API, b []byte, y any) {
	n, err := api.Decode(b, y, serix.WithValidation())
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	nd.Assert(n <= len(b), "decoding consumes at most the input")
	b2, err := api.Encode(y, serix.WithValidation())
	nd.Assert(err == nil, "accepted objects encode")
	nd.Assert(eqBytes(b[:n], b2), "accepted bytes are the encoding of the decoded object")
}

var _ = nd.Reg("H_canon_output", H_canon_output)

// H_canon_output: outputs of every kind with arbitrary bytes changed.
func H_canon_output() {
	api := newAPI()
	k := nd.Choice("kind", 6)
	b := must(api.Encode(richOutput(k), serix.WithValidation()))
	mutate(b, 1+3*nd.Tier(), 1)
	checkCanonical(api, b, emptyOutput(k))
}

// richTx is a valid signed transaction with every part.
func richTx(api iotago.API) *iotago.SignedTransaction {
	e := newTxEnv(api, 98)
	e.in(basic(ed(1), 1, 0), 50)
	e.in(basic(ed(1), 1, 0), 50)
	e.in(basic(ed(1), 1, 0), 50)
	e.commit(97)
	e.tx.TransactionEssence.ContextInputs = append(e.tx.TransactionEssence.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: accID(7)}, &iotago.RewardInput{Index: 1})
	e.tx.Allotments = iotago.Allotments{&iotago.Allotment{AccountID: accID(1), Mana: 6}, &iotago.Allotment{AccountID: accID(7), Mana: 7}}
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{1}
	e.tx.Payload = &iotago.TaggedData{Tag: []byte{1, 2}, Data: []byte{3}}
	e.out(basic(ed(1), 10_000_000, 5))
	k := newKey(1)
	s := &iotago.SignatureUnlock{Signature: k.sign([]byte{1})}
	t := &iotago.SignatureUnlock{Signature: newKey(2).sign([]byte{1})}
	return &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{s, &iotago.ReferenceUnlock{Reference: 0}, &iotago.MultiUnlock{Unlocks: iotago.Unlocks{t, &iotago.EmptyUnlock{}, &iotago.AccountUnlock{Reference: 0}}}}}
}

// richBlock is a valid block of kind k: 0 tagged data, 1 transaction, 2 empty, 3 validation.
func richBlock(api iotago.API, k int) *iotago.Block {
	ids := func(b ...byte) (ids iotago.BlockIDs) {
		for _, v := range b {
			ids = append(ids, iotago.NewBlockID(3, iotago.Identifier(accID(v))))
		}
		return
	}
	x := &iotago.Block{API: api, Signature: newKey(1).sign([]byte{1}), Header: iotago.BlockHeader{
		ProtocolVersion: api.Version(), NetworkID: api.ProtocolParameters().NetworkID(), IssuingTime: api.TimeProvider().SlotStartTime(100),
		SlotCommitmentID: iotago.NewCommitmentID(97, iotago.Identifier(accID(8))), LatestFinalizedSlot: 80, IssuerID: accID(9)}}
	if k == 3 {
		x.Body = &iotago.ValidationBlockBody{API: api, StrongParents: ids(1, 2), WeakParents: ids(3), ShallowLikeParents: ids(4), HighestSupportedVersion: api.Version() + 1}
		return x
	}
	b := &iotago.BasicBlockBody{API: api, StrongParents: ids(1, 2), WeakParents: ids(3), ShallowLikeParents: ids(4), MaxBurnedMana: 8}
	switch k {
	case 0:
		b.Payload = &iotago.TaggedData{Tag: []byte{1, 2}, Data: []byte{3, 4, 5}}
	case 1:
		b.Payload = richTx(api)
	}
	x.Body = b
	return x
}

var _ = nd.Reg("H_canon_tx", H_canon_tx)

// H_canon_tx: signed transactions with arbitrary bytes changed.
func H_canon_tx() {
	api := newAPI()
	b := must(api.Encode(richTx(api), serix.WithValidation()))
	mutate(b, 2+2*nd.Tier(), 2-nd.Tier())
	checkCanonical(api, b, &iotago.SignedTransaction{})
}

var _ = nd.Reg("H_canon_block", H_canon_block)

// H_canon_block: blocks of every kind with arbitrary bytes changed.
func H_canon_block() {
	api := newAPI()
	b := must(api.Encode(richBlock(api, []int{0, 2, 3}[nd.Choice("kind", 3)]), serix.WithValidation()))
	// all but the issuing time (bytes 9 to 16)
	if maybe("afterTime") {
		mutate(b[17:], 1+2*nd.Tier(), 1)
	} else {
		mutate(b[:9], 1, 1)
	}
	checkCanonical(api, b, &iotago.Block{})
}

var _ = nd.Reg("H_canon_cut", H_canon_cut)

// H_canon_cut: encodings that are cut off are rejected, and what follows an
// encoding is left alone.
func H_canon_cut() {
	api := newAPI()
	k := nd.Choice("kind", 8)
	var x, y any
	switch k {
	case 6:
		x, y = richTx(api), &iotago.SignedTransaction{}
	case 7:
		x, y = richBlock(api, 3*nd.Choice("body", 2)), &iotago.Block{}
	default:
		x, y = richOutput(k), emptyOutput(k)
	}
	b := must(api.Encode(x, serix.WithValidation()))
	if maybe("extended") {
		n, err := api.Decode(append(append([]byte{}, b...), nd.Bytes("rest", 3)...), y, serix.WithValidation())
		nd.Assert(err == nil && n == len(b), "decoding ends with the object")
		nd.Cover("extended")
		return
	}
	cut := nd.Choice("length", len(b))
	_, err := api.Decode(b[:cut], y, serix.WithValidation())
	nd.Assert(err != nil, "an encoding that is cut off is rejected")
	nd.Cover("cut")
}

var _ = nd.Reg("H_canon_address", H_canon_address)

// H_canon_address: bytes are accepted as an address exactly when they follow
// the rules which make the encoding of an address unique.
func H_canon_address() {
	api := newAPI()
	var w wire
	w.u8(0) // address unlock condition
	want := true
	leaf := func(types ...uint8) uint8 {
		k := types[nd.Choice("type", len(types))]
		w.u8(k)
		w.raw(nd.Bytes("address", 32))
		want = want && k != 7 && k != 255
		return k
	}
	members := func() {
		w.u8(40)
		n := []int{0, 1, 2, 3, 10, 11}[nd.Choice("members", 4+2*nd.Tier())]
		w.u8(uint8(n))
		want = want && n >= 2 && n <= 10
		sum := 0
		var last []byte
		for i := 0; i < n; i++ {
			id := make([]byte, 33)
			id[32] = byte(i)
			if n < 10 {
				types := 2
				if i == 0 {
					types = 6
				}
				id[0] = []uint8{0, 8, 16, 24, 32, 7}[nd.Choice("member", types)]
				id[1] = nd.U8("first")
				id[32] = nd.U8("last")
			}
			want = want && (id[0] <= 24 && id[0] != 7) && (i == 0 || compareBytes(last, id) < 0)
			last = id
			w.raw(id)
			weight := nd.U8("weight")
			w.u8(weight)
			want = want && weight != 0
			sum += int(weight)
		}
		t := nd.U16("threshold")
		w.u16(t)
		want = want && t >= 1 && int(t) <= sum
	}
	shape := nd.Choice("shape", 5)
	if shape >= 2 {
		w.u8(48)
	}
	switch shape {
	case 0:
		leaf(0, 8, 16, 24, 32, 7, 255)
	case 1, 3:
		members()
	case 2:
		want = leaf(0, 8, 16, 24, 32, 7) != 32 && want
	case 4: // restricted within restricted
		w.u8(48)
		leaf(0)
		w.u8(0)
		want = false
	}
	if shape >= 2 {
		n := nd.Choice("caps", 3)
		mask := nd.Bytes("mask", n)
		w.u8(uint8(n))
		w.raw(mask)
		if n > 0 {
			want = want && mask[n-1] != 0
		}
	}
	c := &iotago.AddressUnlockCondition{}
	n, err := api.Decode(w.b, c, serix.WithValidation())
	nd.Assert((err == nil) == want, "addresses have one encoding")
	if err == nil {
		nd.Assert(n == len(w.b) && eqBytes(addrBytes(c.Address), w.b[1:]), "the address keeps its encoding")
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
}

var _ = nd.Reg("H_canon_parts", H_canon_parts)

// H_canon_parts: lists and maps within features are accepted in one order only,
// keys of maps are printable, and nobody is paid by an address which creates accounts.
func H_canon_parts() {
	api := newAPI()
	var w wire
	var y any
	want := true
	entries := func() {
		n := nd.Choice("entries", 3)
		w.u8(uint8(n))
		want = n > 0
		var last []byte
		for i := 0; i < n; i++ {
			l := nd.Choice("length", 3)
			key := append([]byte{byte(l)}, nd.Bytes("key", l)...)
			for _, c := range key[1:] {
				want = want && c > 32 && c < 127
			}
			if i > 0 { // shorter keys first
				want = want && (len(last) < len(key) || len(last) == len(key) && compareBytes(last, key) < 0)
			}
			last = key
			w.raw(key)
			v := nd.Choice("value", 2)
			w.u16(uint16(v))
			w.raw(nd.Bytes("v", v))
		}
	}
	other := func() {
		var b [32]byte
		nd.Fill("address", b[:])
		k := []uint8{0, 8, 16, 24, 32}[nd.Choice("type", 5)]
		want = k != 32
		w.u8(k)
		w.raw(b[:])
	}
	switch nd.Choice("part", 7) {
	case 0:
		y = &iotago.MetadataFeature{}
		w.u8(2)
		entries()
	case 1:
		y = &iotago.StateMetadataFeature{}
		w.u8(3)
		entries()
	case 2:
		y = &iotago.BlockIssuerFeature{}
		w.u8(6)
		w.u32(nd.U32("expiry"))
		n := nd.Choice("keys", 4)
		w.u8(uint8(n))
		want = n > 0
		var last []byte
		for i := 0; i < n; i++ {
			key := make([]byte, 33)
			key[0] = uint8(nd.Choice("keyType", 2))
			key[1] = nd.U8("first")
			key[32] = nd.U8("last")
			want = want && key[0] == 0 && (i == 0 || compareBytes(last, key) < 0)
			last = key
			w.raw(key)
		}
	case 3:
		y = &iotago.StorageDepositReturnUnlockCondition{}
		w.u8(1)
		other()
		w.u64(nd.U64("amount"))
	case 4:
		y = &iotago.ExpirationUnlockCondition{}
		w.u8(3)
		other()
		w.u32(nd.U32("slot"))
	case 5:
		y = &iotago.StateControllerAddressUnlockCondition{}
		w.u8(4)
		other()
	case 6:
		y = &iotago.GovernorAddressUnlockCondition{}
		w.u8(5)
		other()
	}
	n, err := api.Decode(w.b, y, serix.WithValidation())
	nd.Assert((err == nil) == want, "parts of outputs have one encoding")
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	nd.Assert(n == len(w.b), "parts are read completely")
	nd.Assert(eqBytes(must(api.Encode(y, serix.WithValidation())), w.b), "parts keep their encoding")
}
