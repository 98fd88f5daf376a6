package props

import (
	"math/big"
	"sort"

	"github.com/iotaledger/hive.go/serializer/v2/serix"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// wire writes the documented binary layout, independently of the library.
type wire struct{ b []byte }

func (w *wire) u8(v uint8)   { w.b = append(w.b, v) }
func (w *wire) u16(v uint16) { w.b = append(w.b, byte(v), byte(v>>8)) }
func (w *wire) u32(v uint32) { w.u16(uint16(v)); w.u16(uint16(v >> 16)) }
func (w *wire) u64(v uint64) { w.u32(uint32(v)); w.u32(uint32(v >> 32)) }
func (w *wire) raw(b []byte) { w.b = append(w.b, b...) }
func (w *wire) u256(v *big.Int) {
	m := new(big.Int).SetUint64(^uint64(0))
	for i := 0; i < 4; i++ {
		w.u64(new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m).Uint64())
	}
}

func (w *wire) address(a iotago.Address) {
	switch a := a.(type) {
	case *iotago.Ed25519Address:
		w.u8(0)
		w.raw(a[:])
	case *iotago.AccountAddress:
		w.u8(8)
		w.raw(a[:])
	case *iotago.NFTAddress:
		w.u8(16)
		w.raw(a[:])
	case *iotago.AnchorAddress:
		w.u8(24)
		w.raw(a[:])
	case *iotago.ImplicitAccountCreationAddress:
		w.u8(32)
		w.raw(a[:])
	case *iotago.MultiAddress:
		w.u8(40)
		w.u8(uint8(len(a.Addresses)))
		for _, x := range a.Addresses {
			w.address(x.Address)
			w.u8(x.Weight)
		}
		w.u16(a.Threshold)
	case *iotago.RestrictedAddress:
		w.u8(48)
		w.address(a.Address)
		w.u8(uint8(len(a.AllowedCapabilities)))
		w.raw(a.AllowedCapabilities)
	default:
		panic("address")
	}
}

func (w *wire) condition(c iotago.UnlockCondition) {
	switch c := c.(type) {
	case *iotago.AddressUnlockCondition:
		w.u8(0)
		w.address(c.Address)
	case *iotago.StorageDepositReturnUnlockCondition:
		w.u8(1)
		w.address(c.ReturnAddress)
		w.u64(uint64(c.Amount))
	case *iotago.TimelockUnlockCondition:
		w.u8(2)
		w.u32(uint32(c.Slot))
	case *iotago.ExpirationUnlockCondition:
		w.u8(3)
		w.address(c.ReturnAddress)
		w.u32(uint32(c.Slot))
	case *iotago.StateControllerAddressUnlockCondition:
		w.u8(4)
		w.address(c.Address)
	case *iotago.GovernorAddressUnlockCondition:
		w.u8(5)
		w.address(c.Address)
	case *iotago.ImmutableAccountUnlockCondition:
		w.u8(6)
		w.address(c.Address)
	default:
		panic("condition")
	}
}

func (w *wire) entries(m map[string][]byte) {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	w.u8(uint8(len(keys)))
	for _, k := range keys {
		w.u8(uint8(len(k)))
		w.raw([]byte(k))
		w.u16(uint16(len(m[k])))
		w.raw(m[k])
	}
}

func (w *wire) feature(f iotago.Feature) {
	switch f := f.(type) {
	case *iotago.SenderFeature:
		w.u8(0)
		w.address(f.Address)
	case *iotago.IssuerFeature:
		w.u8(1)
		w.address(f.Address)
	case *iotago.MetadataFeature:
		w.u8(2)
		m := map[string][]byte{}
		for k, v := range f.Entries {
			m[string(k)] = v
		}
		w.entries(m)
	case *iotago.StateMetadataFeature:
		w.u8(3)
		m := map[string][]byte{}
		for k, v := range f.Entries {
			m[string(k)] = v
		}
		w.entries(m)
	case *iotago.TagFeature:
		w.u8(4)
		w.u8(uint8(len(f.Tag)))
		w.raw(f.Tag)
	case *iotago.NativeTokenFeature:
		w.u8(5)
		w.raw(f.ID[:])
		w.u256(f.Amount)
	case *iotago.BlockIssuerFeature:
		w.u8(6)
		w.u32(uint32(f.ExpirySlot))
		w.u8(uint8(len(f.BlockIssuerKeys)))
		for _, k := range f.BlockIssuerKeys {
			w.u8(0)
			w.raw(k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey).PublicKeyHash[:])
		}
	case *iotago.StakingFeature:
		w.u8(7)
		w.u64(uint64(f.StakedAmount))
		w.u64(uint64(f.FixedCost))
		w.u32(uint32(f.StartEpoch))
		w.u32(uint32(f.EndEpoch))
	default:
		panic("feature")
	}
}

func (w *wire) output(o iotago.Output) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		w.u8(0)
		w.u64(uint64(o.Amount))
		w.u64(uint64(o.Mana))
		wireList(w, o.UnlockConditions, func(x iotago.BasicOutputUnlockCondition) { w.condition(x) })
		wireList(w, o.Features, func(x iotago.BasicOutputFeature) { w.feature(x) })
	case *iotago.AccountOutput:
		w.u8(1)
		w.u64(uint64(o.Amount))
		w.u64(uint64(o.Mana))
		w.raw(o.AccountID[:])
		w.u32(o.FoundryCounter)
		wireList(w, o.UnlockConditions, func(x iotago.AccountOutputUnlockCondition) { w.condition(x) })
		wireList(w, o.Features, func(x iotago.AccountOutputFeature) { w.feature(x) })
		wireList(w, o.ImmutableFeatures, func(x iotago.AccountOutputImmFeature) { w.feature(x) })
	case *iotago.AnchorOutput:
		w.u8(2)
		w.u64(uint64(o.Amount))
		w.u64(uint64(o.Mana))
		w.raw(o.AnchorID[:])
		w.u32(o.StateIndex)
		wireList(w, o.UnlockConditions, func(x iotago.AnchorOutputUnlockCondition) { w.condition(x) })
		wireList(w, o.Features, func(x iotago.AnchorOutputFeature) { w.feature(x) })
		wireList(w, o.ImmutableFeatures, func(x iotago.AnchorOutputImmFeature) { w.feature(x) })
	case *iotago.FoundryOutput:
		w.u8(3)
		w.u64(uint64(o.Amount))
		w.u32(o.SerialNumber)
		s := o.TokenScheme.(*iotago.SimpleTokenScheme)
		w.u8(0)
		w.u256(s.MintedTokens)
		w.u256(s.MeltedTokens)
		w.u256(s.MaximumSupply)
		wireList(w, o.UnlockConditions, func(x iotago.FoundryOutputUnlockCondition) { w.condition(x) })
		wireList(w, o.Features, func(x iotago.FoundryOutputFeature) { w.feature(x) })
		wireList(w, o.ImmutableFeatures, func(x iotago.FoundryOutputImmFeature) { w.feature(x) })
	case *iotago.NFTOutput:
		w.u8(4)
		w.u64(uint64(o.Amount))
		w.u64(uint64(o.Mana))
		w.raw(o.NFTID[:])
		wireList(w, o.UnlockConditions, func(x iotago.NFTOutputUnlockCondition) { w.condition(x) })
		wireList(w, o.Features, func(x iotago.NFTOutputFeature) { w.feature(x) })
		wireList(w, o.ImmutableFeatures, func(x iotago.NFTOutputImmFeature) { w.feature(x) })
	case *iotago.DelegationOutput:
		w.u8(5)
		w.u64(uint64(o.Amount))
		w.u64(uint64(o.DelegatedAmount))
		w.raw(o.DelegationID[:])
		w.address(o.ValidatorAddress)
		w.u32(uint32(o.StartEpoch))
		w.u32(uint32(o.EndEpoch))
		wireList(w, o.UnlockConditions, func(x iotago.DelegationOutputUnlockCondition) { w.condition(x) })
	default:
		panic("output")
	}
}

func wireList[T any](w *wire, l []T, f func(T)) {
	w.u8(uint8(len(l)))
	for _, x := range l {
		f(x)
	}
}

func (w *wire) payload(p iotago.Payload) {
	switch p := p.(type) {
	case *iotago.TaggedData:
		w.u8(0)
		w.u8(uint8(len(p.Tag)))
		w.raw(p.Tag)
		w.u32(uint32(len(p.Data)))
		w.raw(p.Data)
	case *iotago.SignedTransaction:
		w.u8(1)
		w.tx(p.Transaction)
		w.u16(uint16(len(p.Unlocks)))
		for _, u := range p.Unlocks {
			w.unlock(u)
		}
	case *iotago.CandidacyAnnouncement:
		w.u8(2)
	default:
		panic("payload")
	}
}

func (w *wire) tx(t *iotago.Transaction) {
	w.u64(t.NetworkID)
	w.u32(uint32(t.CreationSlot))
	w.u16(uint16(len(t.TransactionEssence.ContextInputs)))
	for _, c := range t.TransactionEssence.ContextInputs {
		switch c := c.(type) {
		case *iotago.CommitmentInput:
			w.u8(0)
			w.raw(c.CommitmentID[:])
		case *iotago.BlockIssuanceCreditInput:
			w.u8(1)
			w.raw(c.AccountID[:])
		case *iotago.RewardInput:
			w.u8(2)
			w.u16(c.Index)
		default:
			panic("context input")
		}
	}
	w.u16(uint16(len(t.TransactionEssence.Inputs)))
	for _, c := range t.TransactionEssence.Inputs {
		u := c.(*iotago.UTXOInput)
		w.u8(0)
		w.raw(u.TransactionID[:])
		w.u16(u.TransactionOutputIndex)
	}
	w.u16(uint16(len(t.Allotments)))
	for _, a := range t.Allotments {
		w.raw(a.AccountID[:])
		w.u64(uint64(a.Mana))
	}
	w.u8(uint8(len(t.Capabilities)))
	w.raw(t.Capabilities)
	w.optional(t.Payload != nil, func(w *wire) { w.payload(t.Payload) })
	w.u16(uint16(len(t.Outputs)))
	for _, o := range t.Outputs {
		w.output(o)
	}
}

func (w *wire) optional(has bool, f func(*wire)) {
	var p wire
	if has {
		f(&p)
	}
	w.u32(uint32(len(p.b)))
	w.raw(p.b)
}

func (w *wire) signature(s iotago.Signature) {
	e := s.(*iotago.Ed25519Signature)
	w.u8(0)
	w.raw(e.PublicKey[:])
	w.raw(e.Signature[:])
}

func (w *wire) unlock(u iotago.Unlock) {
	switch u := u.(type) {
	case *iotago.SignatureUnlock:
		w.u8(0)
		w.signature(u.Signature)
	case *iotago.ReferenceUnlock:
		w.u8(1)
		w.u16(u.Reference)
	case *iotago.AccountUnlock:
		w.u8(2)
		w.u16(u.Reference)
	case *iotago.AnchorUnlock:
		w.u8(3)
		w.u16(u.Reference)
	case *iotago.NFTUnlock:
		w.u8(4)
		w.u16(u.Reference)
	case *iotago.MultiUnlock:
		w.u8(5)
		w.u8(uint8(len(u.Unlocks)))
		for _, x := range u.Unlocks {
			w.unlock(x)
		}
	case *iotago.EmptyUnlock:
		w.u8(6)
	default:
		panic("unlock")
	}
}

func (w *wire) blockIDs(ids iotago.BlockIDs) {
	w.u8(uint8(len(ids)))
	for _, id := range ids {
		w.raw(id[:])
	}
}

func (w *wire) header(h *iotago.BlockHeader) {
	w.u8(uint8(h.ProtocolVersion))
	w.u64(h.NetworkID)
	w.u64(uint64(h.IssuingTime.UnixNano()))
	w.raw(h.SlotCommitmentID[:])
	w.u32(uint32(h.LatestFinalizedSlot))
	w.raw(h.IssuerID[:])
}

func (w *wire) block(b *iotago.Block) {
	w.header(&b.Header)
	switch x := b.Body.(type) {
	case *iotago.BasicBlockBody:
		w.u8(0)
		w.blockIDs(x.StrongParents)
		w.blockIDs(x.WeakParents)
		w.blockIDs(x.ShallowLikeParents)
		w.optional(x.Payload != nil, func(w *wire) { w.payload(x.Payload) })
		w.u64(uint64(x.MaxBurnedMana))
	case *iotago.ValidationBlockBody:
		w.u8(1)
		w.blockIDs(x.StrongParents)
		w.blockIDs(x.WeakParents)
		w.blockIDs(x.ShallowLikeParents)
		w.u8(uint8(x.HighestSupportedVersion))
		w.raw(x.ProtocolParametersHash[:])
	}
	w.signature(b.Signature)
}

// anyAddress is a symbolic address of one of the first n kinds.
func anyAddress(name string, n int) iotago.Address {
	var b [32]byte
	nd.Fill(name, b[:])
	switch nd.Choice(name+"Kind", n) {
	case 0:
		a := iotago.Ed25519Address(b)
		return &a
	case 1:
		a := iotago.AccountAddress(b)
		return &a
	case 2:
		a := iotago.NFTAddress(b)
		return &a
	case 3:
		a := iotago.AnchorAddress(b)
		return &a
	case 4:
		return anyMulti(name, b)
	case 5:
		a := iotago.Ed25519Address(b)
		return &iotago.RestrictedAddress{Address: &a, AllowedCapabilities: anyCapabilities(name)}
	case 6:
		return &iotago.RestrictedAddress{Address: anyMulti(name, b), AllowedCapabilities: anyCapabilities(name)}
	default:
		a := iotago.ImplicitAccountCreationAddress(b)
		return &a
	}
}

func anyMulti(name string, b [32]byte) *iotago.MultiAddress {
	a := iotago.Ed25519Address(b)
	n := iotago.NFTAddress(b)
	w1, w2 := nd.U8(name+"Weight"), nd.U8(name+"Weight")
	th := nd.U16(name + "Threshold")
	nd.Assume(w1 > 0 && w2 > 0 && th > 0 && int(th) <= int(w1)+int(w2))
	as := iotago.AddressesWithWeight{{Address: &n, Weight: w2}, {Address: &a, Weight: w1}}
	as.Sort()
	return iotago.NewMultiAddress(as, th)
}

func anyCapabilities(name string) iotago.AddressCapabilitiesBitMask {
	c := nd.Bytes(name+"Capabilities", nd.Choice(name+"CapabilityBytes", 3))
	if len(c) > 0 {
		nd.Assume(c[len(c)-1] != 0)
	}
	return c
}

func anyBytes(name string, lens ...int) []byte {
	return nd.Bytes(name, lens[nd.Choice(name, len(lens))])
}

func maybe(name string) bool { return nd.Choice(name, 2) == 1 }

func anyEd(name string) *iotago.Ed25519Address {
	var a iotago.Ed25519Address
	nd.Fill(name, a[:])
	return &a
}

func anyID(name string) (id [32]byte) {
	nd.Fill(name, id[:])
	return
}

func anyMetadata(name string) *iotago.MetadataFeature {
	m := &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"b": nd.Bytes(name, 2)}}
	switch nd.Choice(name+"More", 3) {
	case 1:
		m.Entries["a"] = nd.Bytes(name, 1)
	case 2:
		m.Entries["bb"] = iotago.MetadataFeatureEntriesValue{}
	}
	return m
}

func anyNativeToken() *iotago.NativeTokenFeature {
	f := &iotago.NativeTokenFeature{Amount: nd.Big("tokens")}
	nd.Assume(f.Amount.Sign() > 0)
	nd.Fill("tokenID", f.ID[:])
	return f
}

func anyIssuerFeature(n int) *iotago.BlockIssuerFeature {
	f := &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(nd.U32("expiry"))}
	ks := make([]iotago.BlockIssuerKey, n)
	for i := range ks {
		k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: anyID("issuerKey")}
		k.PublicKeyHash[0] = byte(10 * (n - i)) // distinct, to be sorted
		ks[i] = k
	}
	f.BlockIssuerKeys = iotago.NewBlockIssuerKeys(ks...)
	return f
}

// anyOutput is an output of kind k (0 basic, 1 account, 2 anchor, 3 foundry, 4
// NFT, 5 delegation) with symbolic content; conds and feats select which
// optional parts vary.
func anyOutput(k int, conds, feats bool) iotago.TxEssenceOutput {
	amount, mana := iotago.BaseToken(nd.U64("amount")), iotago.Mana(nd.U64("mana"))
	has := func(on bool, name string) bool { return on && maybe(name) }
	switch k {
	case 0:
		o := &iotago.BasicOutput{Amount: amount, Mana: mana, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: anyEd("owner")}}, Features: iotago.BasicOutputFeatures{}}
		if has(conds, "return") {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: anyEd("returnTo"), Amount: iotago.BaseToken(nd.U64("returned"))})
		}
		if has(conds, "timelock") {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(nd.U32("timelock"))})
		}
		if has(conds, "expiration") {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: anyEd("expireTo"), Slot: iotago.SlotIndex(nd.U32("expiration"))})
		}
		if has(feats, "sender") {
			o.Features = append(o.Features, &iotago.SenderFeature{Address: anyEd("sender")})
		}
		if has(feats, "metadata") {
			o.Features = append(o.Features, anyMetadata("metadata"))
		}
		if has(feats, "tag") {
			o.Features = append(o.Features, &iotago.TagFeature{Tag: anyBytes("tag", 1, 3, 64)})
		}
		if has(feats, "tokens") {
			o.Features = append(o.Features, anyNativeToken())
		}
		return o
	case 1:
		o := &iotago.AccountOutput{Amount: amount, Mana: mana, AccountID: anyID("id"), FoundryCounter: nd.U32("counter"), UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: anyEd("owner")}}, Features: iotago.AccountOutputFeatures{}, ImmutableFeatures: iotago.AccountOutputImmFeatures{}}
		if has(feats, "sender") {
			o.Features = append(o.Features, &iotago.SenderFeature{Address: anyEd("sender")})
		}
		if has(feats, "metadata") {
			o.Features = append(o.Features, anyMetadata("metadata"))
		}
		if feats {
			if n := nd.Choice("issuer", 3); n > 0 {
				o.Features = append(o.Features, anyIssuerFeature(n))
			}
		}
		if has(feats, "staking") {
			o.Features = append(o.Features, stakingIn("staking"))
		}
		if has(feats, "issuerFeature") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: anyEd("issuerFeature")})
		}
		if has(feats, "immutable") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, anyMetadata("immutable"))
		}
		return o
	case 2:
		o := &iotago.AnchorOutput{Amount: amount, Mana: mana, AnchorID: anyID("id"), StateIndex: nd.U32("index"), UnlockConditions: iotago.AnchorOutputUnlockConditions{&iotago.StateControllerAddressUnlockCondition{Address: anyEd("state")}, &iotago.GovernorAddressUnlockCondition{Address: anyEd("governor")}}, Features: iotago.AnchorOutputFeatures{}, ImmutableFeatures: iotago.AnchorOutputImmFeatures{}}
		if has(feats, "metadata") {
			o.Features = append(o.Features, anyMetadata("metadata"))
		}
		if has(feats, "stateMetadata") {
			o.Features = append(o.Features, &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{"s": nd.Bytes("stateMetadata", 2), "r": nd.Bytes("stateMetadata", 1), "q": {}}})
		}
		if has(feats, "issuerFeature") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: anyEd("issuerFeature")})
		}
		if has(feats, "immutable") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, anyMetadata("immutable"))
		}
		return o
	case 3:
		a := iotago.AccountAddress(anyID("account"))
		o := &iotago.FoundryOutput{Amount: amount, SerialNumber: nd.U32("serial"), TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: nd.Big("minted"), MeltedTokens: nd.Big("melted"), MaximumSupply: nd.Big("maximum")}, UnlockConditions: iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &a}}, Features: iotago.FoundryOutputFeatures{}, ImmutableFeatures: iotago.FoundryOutputImmFeatures{}}
		if has(feats, "metadata") {
			o.Features = append(o.Features, anyMetadata("metadata"))
		}
		if has(feats, "tokens") {
			o.Features = append(o.Features, anyNativeToken())
		}
		if has(feats, "immutable") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, anyMetadata("immutable"))
		}
		return o
	case 4:
		o := &iotago.NFTOutput{Amount: amount, Mana: mana, NFTID: anyID("id"), UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: anyEd("owner")}}, Features: iotago.NFTOutputFeatures{}, ImmutableFeatures: iotago.NFTOutputImmFeatures{}}
		if has(conds, "return") {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: anyEd("returnTo"), Amount: iotago.BaseToken(nd.U64("returned"))})
		}
		if has(conds, "timelock") {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(nd.U32("timelock"))})
		}
		if has(conds, "expiration") {
			o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: anyEd("expireTo"), Slot: iotago.SlotIndex(nd.U32("expiration"))})
		}
		if has(feats, "sender") {
			o.Features = append(o.Features, &iotago.SenderFeature{Address: anyEd("sender")})
		}
		if has(feats, "metadata") {
			o.Features = append(o.Features, anyMetadata("metadata"))
		}
		if has(feats, "tag") {
			o.Features = append(o.Features, &iotago.TagFeature{Tag: anyBytes("tag", 1, 3, 64)})
		}
		if has(feats, "issuerFeature") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: anyEd("issuerFeature")})
		}
		if has(feats, "immutable") {
			o.ImmutableFeatures = append(o.ImmutableFeatures, anyMetadata("immutable"))
		}
		return o
	default:
		v := iotago.AccountAddress(anyID("validator"))
		return &iotago.DelegationOutput{Amount: amount, DelegatedAmount: iotago.BaseToken(nd.U64("delegated")), DelegationID: anyID("id"), ValidatorAddress: &v, StartEpoch: iotago.EpochIndex(nd.U32("start")), EndEpoch: iotago.EpochIndex(nd.U32("end")), UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: anyEd("owner")}}}
	}
}

func emptyOutput(k int) iotago.TxEssenceOutput {
	return []iotago.TxEssenceOutput{&iotago.BasicOutput{}, &iotago.AccountOutput{}, &iotago.AnchorOutput{}, &iotago.FoundryOutput{}, &iotago.NFTOutput{}, &iotago.DelegationOutput{}}[k]
}

// checkWire compares the library's encoding of x with the documented one and
// decodes it again into y.
func checkWire(api iotago.API, x, y any, w *wire, size int) {
	b, err := api.Encode(x, serix.WithValidation())
	nd.Assert(err == nil, "valid objects encode")
	nd.Assert(eqBytes(b, w.b), "the encoding is the documented one")
	if size >= 0 {
		nd.Assert(size == len(b), "Size is the encoded size")
	}
	n, err := api.Decode(b, y, serix.WithValidation())
	nd.Assert(err == nil, "encoded objects decode")
	nd.Assert(n == len(b), "decoding consumes the whole encoding")
	b2, err := api.Encode(y, serix.WithValidation())
	nd.Assert(err == nil && eqBytes(b, b2), "decoded objects encode to the same bytes")
}

// anyAddressPlace is an output with an arbitrary address in one of the places for addresses.
func anyAddressPlace() (int, iotago.TxEssenceOutput, iotago.Address) {
	place := nd.Choice("place", 6)
	n := 7
	if place == 0 {
		n = 8
	}
	a := anyAddress("address", n)
	k := 0
	o := basic(ed(1), iotago.BaseToken(nd.U64("amount")), 0)
	var x iotago.TxEssenceOutput = o
	switch place {
	case 0:
		o.UnlockConditions[0] = &iotago.AddressUnlockCondition{Address: a}
	case 1:
		o.UnlockConditions = append(o.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a, Amount: 5})
	case 2:
		o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: 5})
	case 3:
		o.Features = append(o.Features, &iotago.SenderFeature{Address: a})
	case 4:
		k = 4
		p := kindOutput(2, 1, 0).(*iotago.NFTOutput)
		p.ImmutableFeatures = append(p.ImmutableFeatures, &iotago.IssuerFeature{Address: a})
		x = p
	case 5:
		k = 2
		p := kindOutput(3, 1, 0).(*iotago.AnchorOutput)
		p.UnlockConditions[nd.Choice("controller", 2)] = []iotago.AnchorOutputUnlockCondition{&iotago.StateControllerAddressUnlockCondition{Address: a}, &iotago.GovernorAddressUnlockCondition{Address: ed(2)}}[0]
		if _, is := p.UnlockConditions[1].(*iotago.StateControllerAddressUnlockCondition); is {
			p.UnlockConditions[0] = &iotago.StateControllerAddressUnlockCondition{Address: ed(1)}
			p.UnlockConditions[1] = &iotago.GovernorAddressUnlockCondition{Address: a}
		}
		x = p
	}
	return k, x, a
}

var _ = nd.Reg("H_wire_address", H_wire_address)

// H_wire_address: every kind of address in every place of an output.
func H_wire_address() {
	api := newAPI()
	k, x, a := anyAddressPlace()
	var w wire
	w.output(x)
	y := emptyOutput(k)
	checkWire(api, x, y, &w, x.Size())
	nd.Assert(x.Equal(y) && y.Equal(x), "the decoded output equals the original")
	var aw wire
	aw.address(a)
	nd.Assert(a.Size() == len(aw.b), "the size of an address is its encoded size")
	nd.Cover("done")
}

var _ = nd.Reg("H_wire_output", H_wire_output)

// H_wire_output: every kind of output with every combination of features.
func H_wire_output() {
	api := newAPI()
	k := nd.Choice("kind", 6)
	x := anyOutput(k, false, true)
	var w wire
	w.output(x)
	y := emptyOutput(k)
	checkWire(api, x, y, &w, x.Size())
	nd.Assert(x.Equal(y) && y.Equal(x), "the decoded output equals the original")
	nd.Cover("done")
}

var _ = nd.Reg("H_wire_conditions", H_wire_conditions)

// H_wire_conditions: basic outputs and NFTs with every combination of unlock
// conditions.
func H_wire_conditions() {
	api := newAPI()
	k := 4 * nd.Choice("kind", 2)
	x := anyOutput(k, true, false)
	var w wire
	w.output(x)
	y := emptyOutput(k)
	checkWire(api, x, y, &w, x.Size())
	nd.Assert(x.Equal(y) && y.Equal(x), "the decoded output equals the original")
	nd.Cover("done")
}
