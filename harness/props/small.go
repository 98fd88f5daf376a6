package props

import (
	"encoding/binary"
	"math/big"
	"time"

	"golang.org/x/crypto/blake2b"

	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/wallet"

	"verif/harness/nd"
)

var _ = nd.Reg("H_view_kinds", H_view_kinds)

// H_view_kinds: what says its kind is encoded with it.
func H_view_kinds() {
	api := newAPI()
	var x any
	var kind byte
	switch nd.Choice("what", 7) {
	case 0:
		in := &iotago.UTXOInput{TransactionID: iotago.NewTransactionID(iotago.SlotIndex(nd.U32("slot")), anyID("tx")), TransactionOutputIndex: uint16(nd.Range64("index", 0, 127))}
		nd.Assert(!in.IsReadOnly(), "inputs are consumed")
		set := &vm.WorkingSet{Tx: &iotago.Transaction{TransactionEssence: &iotago.TransactionEssence{Inputs: iotago.TxEssenceInputs{&iotago.UTXOInput{}, in}}}}
		nd.Assert(set.UTXOInputAtIndex(1) == in, "inputs are found by their index")
		x, kind = in, byte(in.Type())
	case 1:
		in := &iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("slot")), anyID("commitment"))}
		nd.Assert(in.IsReadOnly(), "context inputs are read")
		x, kind = in, byte(in.Type())
	case 2:
		in := &iotago.BlockIssuanceCreditInput{AccountID: accID(nd.U8("account"))}
		nd.Assert(in.IsReadOnly(), "context inputs are read")
		x, kind = in, byte(in.Type())
	case 3:
		in := &iotago.RewardInput{Index: uint16(nd.Range64("index", 0, 127))}
		nd.Assert(in.IsReadOnly(), "context inputs are read")
		x, kind = in, byte(in.Type())
	case 4:
		b := &iotago.BasicBlockBody{API: api, StrongParents: iotago.BlockIDs{iotago.NewBlockID(1, anyID("parent"))}}
		x, kind = b, byte(b.Type())
	case 5:
		b := &iotago.ValidationBlockBody{API: api, StrongParents: iotago.BlockIDs{iotago.NewBlockID(1, anyID("parent"))}}
		x, kind = b, byte(b.Type())
	case 6:
		k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: anyID("key")}
		x, kind = k, byte(k.Type())
		b := must(k.Bytes())
		nd.Assert(len(b) == k.Size() && b[0] == kind && eqBytes(b[1:], k.PublicKeyHash[:]), "the bytes of a key are its kind and its hash")
		y, n, err := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromBytes(append(b, nd.U8("more")))
		nd.Assert(err == nil && n == len(b) && y.Equal(k), "keys are read from their bytes")
		_, _, err = iotago.Ed25519PublicKeyHashBlockIssuerKeyFromBytes(b[:nd.Choice("length", len(b))])
		nd.Assert(err != nil, "keys have their length")
	}
	nd.Assert(must(api.Encode(x))[0] == kind, "the encoding begins with the kind")
	nd.Cover("done")
}

var _ = nd.Reg("H_view_targets", H_view_targets)

// H_view_targets: chains are found at the address of their ID, whatever says it.
func H_view_targets() {
	id := anyID("id")
	a, err := (&iotago.AccountOutput{AccountID: iotago.AccountID(id)}).Target()
	nd.Assert(err == nil && a.Equal(iotago.AccountID(id).ToAddress()), "an account is at the address of its ID")
	b, err := (&iotago.AnchorOutput{AnchorID: iotago.AnchorID(id)}).Target()
	nd.Assert(err == nil && b.Equal(iotago.AnchorID(id).ToAddress()), "an anchor is at the address of its ID")
	nd.Assert(a.(*iotago.AccountAddress).AccountID() == iotago.AccountID(id), "the address of a chain has its ID")
	nd.Assert(b.(*iotago.AnchorAddress).AnchorID() == iotago.AnchorID(id), "the address of a chain has its ID")
	nd.Assert((*iotago.NFTAddress)(&id).NFTID() == iotago.NFTID(id), "the address of a chain has its ID")
	k := newKey(1)
	var pub hiveEd25519.PublicKey
	copy(pub[:], k.pub())
	p := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromPublicKey(pub)
	q := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromImplicitAccountCreationAddress(iotago.ImplicitAccountCreationAddressFromPubKey(k.pub()))
	h := blake2b.Sum256(k.pub())
	nd.Assert(p.PublicKeyHash == h && p.Equal(q), "the key of an implicit account is the one its address was made of")
	r := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromImplicitAccountCreationAddress((*iotago.ImplicitAccountCreationAddress)(&id))
	nd.Assert(r.PublicKeyHash == id, "the key of an implicit account has the hash in its address")
	nd.Cover("done")
}

var _ = nd.Reg("H_signer_func", H_signer_func)

// H_signer_func: a function that signs is called with what is to be signed.
func H_signer_func() {
	msg := nd.Bytes("message", 3)
	k := newKey(1)
	fails := maybe("fails")
	calls := 0
	sig, err := iotago.AddressSignerFunc(func(a iotago.Address, m []byte) (iotago.Signature, error) {
		calls++
		nd.Assert(a.Equal(k.addr) && eqBytes(m, msg), "a signer is given the address and the message")
		if fails {
			return nil, iotago.ErrAddressKeysNotMapped
		}
		return k.sign(m), nil
	}).Sign(k.addr, msg)
	nd.Assert(calls == 1 && (err != nil) == fails, "a signer signs once")
	if !fails {
		nd.Assert(k.addr.Unlock(msg, sig.(*iotago.Ed25519Signature)) == nil, "the signature is the one made")
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_mask_read", H_mask_read)

// H_mask_read: masks are read from their bytes if they are not too long.
func H_mask_read() {
	n := nd.Choice("length", 4)
	b := append([]byte{byte(n)}, nd.Bytes("mask", n)...)
	cut := nd.Choice("cut", 2)
	var got []byte
	var k int
	var err error
	longest := 2
	if maybe("transaction") {
		var m iotago.TransactionCapabilitiesBitMask
		m, k, err = iotago.TransactionCapabilitiesBitMaskFromBytes(b[:len(b)-cut])
		got, longest = m, 1
	} else {
		var m iotago.AddressCapabilitiesBitMask
		m, k, err = iotago.AddressCapabilitiesBitMaskFromBytes(b[:len(b)-cut])
		got = m
	}
	if cut == 1 {
		nd.Assert(err != nil, "masks have their length")
		nd.Cover("refused")
		return
	}
	nd.Assert((err == nil) == (n <= longest), "masks have one or two bytes, or none")
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Assert(k == len(b) && eqBytes(got, b[1:]), "masks are what their bytes say")
	nd.Cover("read")
}

var _ = nd.Reg("H_build_must", H_build_must)

// H_build_must: builders that panic instead of failing do so in the same cases and build the same.
func H_build_must() {
	api := newAPI()
	a := ed(nd.U8("owner"))
	acc := iotago.AccountAddress(accID(nd.U8("account")))
	amount := iotago.BaseToken(nd.U8("amount"))
	old, entry := nd.U8("old"), nd.U8("new")
	set := func(v byte) iotago.MetadataFeatureEntries { return iotago.MetadataFeatureEntries{"k": []byte{v}} }
	first, next := set(old), set(entry)
	immutable := true
	var x, y iotago.Output
	var err error
	var panics bool
	switch nd.Choice("kind", 6) {
	case 0:
		mk := func() *builder.BasicOutputBuilder {
			return builder.NewBasicOutputBuilderFromPrevious(builder.NewBasicOutputBuilder(a, amount).Metadata(first).MustBuild()).Metadata(next)
		}
		x, err = mk().Build()
		panics = !ok(func() { y = mk().MustBuild() })
		immutable = false
	case 1:
		mk := func() *builder.AccountOutputBuilder {
			return builder.NewAccountOutputBuilderFromPrevious(builder.NewAccountOutputBuilder(a, amount).ImmutableMetadata(first).MustBuild()).ImmutableMetadata(next)
		}
		x, err = mk().Build()
		panics = !ok(func() { y = mk().MustBuild() })
	case 2:
		mk := func() *builder.AnchorOutputBuilder {
			return builder.NewAnchorOutputBuilderFromPrevious(builder.NewAnchorOutputBuilder(a, a, amount).ImmutableMetadata(first).MustBuild()).ImmutableMetadata(next)
		}
		x, err = mk().Build()
		panics = !ok(func() { y = mk().MustBuild() })
	case 3:
		mk := func() *builder.NFTOutputBuilder {
			return builder.NewNFTOutputBuilderFromPrevious(builder.NewNFTOutputBuilder(a, amount).ImmutableMetadata(first).MustBuild()).ImmutableMetadata(next)
		}
		x, err = mk().Build()
		panics = !ok(func() { y = mk().MustBuild() })
	case 4:
		scheme := &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(1), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(2)}
		mk := func() *builder.FoundryOutputBuilder {
			return builder.NewFoundryOutputBuilderFromPrevious(builder.NewFoundryOutputBuilder(&acc, amount, 1, scheme).ImmutableMetadata(first).MustBuild()).ImmutableMetadata(next)
		}
		x, err = mk().Build()
		panics = !ok(func() { y = mk().MustBuild() })
	case 5:
		mk := func() *builder.DelegationOutputBuilder {
			return builder.NewDelegationOutputBuilderFromPrevious(builder.NewDelegationOutputBuilder(&acc, a, amount).MustBuild()).Amount(amount / 2)
		}
		x, err = mk().Build()
		panics = !ok(func() { y = mk().MustBuild() })
		immutable = false
	}
	nd.Assert(panics == (err != nil), "building panics where it would fail")
	nd.Assert((err != nil) == (immutable && old != entry), "what is immutable cannot be changed")
	if err != nil {
		nd.Cover("failed")
		return
	}
	nd.Assert(x.Equal(y) && eqBytes(must(api.Encode(x)), must(api.Encode(y))), "the same is built")
	nd.Cover("built")
}

var _ = nd.Reg("H_provider_now", H_provider_now)

// H_provider_now: the API of a time is the one of its slot.
func H_provider_now() {
	p3, p4 := versionParams(3), versionParams(4)
	p := newProvider(iotago.V3API(p3))
	p.AddProtocolParametersAtEpoch(p3, 0)
	start := iotago.EpochIndex(nd.Choice("start", 3) + 1)
	p.AddProtocolParametersAtEpoch(p4, start)
	tp := p.LatestAPI().TimeProvider()
	slot := []iotago.SlotIndex{0, tp.EpochStart(start) - 1, tp.EpochStart(start), tp.EpochEnd(start)}[nd.Choice("slot", 4)]
	want := iotago.Version(3)
	if slot >= tp.EpochStart(start) {
		want = 4
	}
	for _, t := range []time.Time{tp.SlotStartTime(slot), tp.SlotEndTime(slot)} {
		nd.Assert(p.APIForTime(t).Version() == want, "the API of a time is the one of its slot")
	}
	nd.Assert(p.APIForSlot(slot).Version() == want && p.APIForEpoch(tp.EpochFromSlot(slot)).Version() == want, "the API of a slot is the one of its epoch")
	s := iotago.SingleVersionProvider(iotago.V3API(p3))
	nd.Assert(s.APIForTime(tp.SlotStartTime(slot)).Version() == 3 && iotago.LatestProtocolVersion() == 3 && iotago.LatestAPI(p3).Version() == 3, "a single version is the one of all times")
	nd.Cover("done")
}

var _ = nd.Reg("H_versions_bytes", H_versions_bytes)

// H_versions_bytes: the bytes of versions are each version and its start, in order.
func H_versions_bytes() {
	v := iotago.NewProtocolEpochVersions()
	n := nd.Choice("versions", 4)
	starts := map[iotago.Version]iotago.EpochIndex{}
	last := iotago.EpochIndex(0)
	order := [][]iotago.Version{{3, 4, 9}, {9, 3, 4}, {4, 9, 3}}[nd.Choice("order", 3)][:n]
	for _, x := range []iotago.Version{3, 4, 9} {
		last += iotago.EpochIndex(nd.U16("start"))
		starts[x] = last
	}
	for _, x := range order {
		v.Add(x, starts[x])
	}
	var want []byte
	for _, x := range []iotago.Version{3, 4, 9} {
		s, known := v.EpochForVersion(x)
		in := false
		for _, y := range order {
			in = in || x == y
		}
		nd.Assert(known == in && (!in || s == starts[x]), "versions start when they were said to")
		if in {
			want = binary.LittleEndian.AppendUint32(append(want, byte(x)), uint32(starts[x]))
		}
	}
	nd.Assert(eqBytes(v.Bytes(), want) && len(v.Slice()) == n, "the bytes of versions are each version and its start, in order")
	nd.Cover("done")
}

var _ = nd.Reg("H_wallet_params", H_wallet_params)

// H_wallet_params: accounts are read from their ID and private key, of the right length.
func H_wallet_params() {
	id := accID(nd.U8("account"))
	k := newKey(1)
	key := append([]byte(nil), k.priv...)
	idHex := id.ToHex()
	bad := nd.Choice("bad", 4)
	switch bad {
	case 1:
		key = key[:63]
	case 2:
		idHex = idHex[:64]
	case 3:
		key = append(key, 1)
	}
	acc, err := wallet.AccountFromParams(idHex, hexOf(key))
	nd.Assert((err == nil) == (bad == 0), "an account needs an ID and a key")
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Assert(acc.ID() == id && eqBytes(acc.PrivateKey(), k.priv) && acc.Address().AccountID() == id && acc.OwnerAddress().Equal(k.addr), "an account has its ID and its key")
	nd.Cover("done")
}

var _ = nd.Reg("H_must_id", H_must_id)

// H_must_id: IDs that are computed with a panic for failures are the IDs.
func H_must_id() {
	api := newAPI()
	b := richBlock(api, nd.Choice("kind", 4))
	b.Header.IssuerID[31] = nd.U8("issuer")
	nd.Assert(b.MustID() == must(b.ID()), "the ID is the ID")
	if body, is := b.Body.(*iotago.BasicBlockBody); is {
		if s, is := body.Payload.(*iotago.SignedTransaction); is {
			nd.Assert(s.MustID() == must(s.ID()) && s.Transaction.MustID() == must(s.Transaction.ID()), "the ID is the ID")
			nd.Cover("transaction")
		}
	}
	c := iotago.NewCommitment(3, iotago.SlotIndex(nd.U32("slot")), iotago.EmptyCommitmentID, anyID("roots"), nd.U64("weight"), 5)
	nd.Assert(c.MustID() == must(c.ID()), "the ID is the ID")
	nd.Cover("done")
}

var _ = nd.Reg("H_time_now", H_time_now)

// H_time_now: the current slot and epoch are those of the current time.
func H_time_now() {
	tp := iotago.NewTimeProvider(iotago.SlotIndex(nd.Choice("genesis", 3)*7), time.Now().Unix()-int64(nd.Choice("age", 3)*1000), []int64{1, 10}[nd.Choice("duration", 2)], uint8(nd.Choice("exponent", 4)))
	from := tp.SlotFromTime(time.Now())
	s, e := tp.CurrentSlot(), tp.CurrentEpoch()
	to := tp.SlotFromTime(time.Now())
	nd.Assert(from <= s && s <= to, "the current slot is the one of the current time")
	nd.Assert(tp.EpochFromSlot(from) <= e && e <= tp.EpochFromSlot(tp.SlotFromTime(time.Now())), "the current epoch is the one of the current slot")
	nd.Cover("done")
}
