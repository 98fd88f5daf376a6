package props

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"verif/harness/nd"
)

// wanted describes the output a builder has to produce: its fields, and the
// conditions and features by type.
type wanted struct {
	kind          int
	amount        iotago.BaseToken
	mana          iotago.Mana
	id            [32]byte
	count         uint32 // foundry counter, state index
	start, end    iotago.EpochIndex
	stake         iotago.BaseToken
	validator     *iotago.AccountAddress
	serial        uint32
	scheme        iotago.TokenScheme
	conds         [10]iotago.UnlockCondition
	feats, immuts [20]iotago.Feature
}

func (w *wanted) cond(c iotago.UnlockCondition) { w.conds[c.Type()] = c }
func (w *wanted) feat(f iotago.Feature)         { w.feats[f.Type()] = f }
func (w *wanted) immut(f iotago.Feature)        { w.immuts[f.Type()] = f }

// from describes an existing output.
func from(k int, o iotago.TxEssenceOutput) *wanted {
	w := &wanted{kind: k, amount: o.BaseTokenAmount(), mana: o.StoredMana()}
	for _, c := range o.UnlockConditionSet() {
		w.cond(c)
	}
	for _, f := range o.FeatureSet() {
		w.feat(f)
	}
	if i, ok := o.(iotago.ChainOutputImmutable); ok {
		for _, f := range i.ImmutableFeatureSet() {
			w.immut(f)
		}
	}
	switch o := o.(type) {
	case *iotago.AccountOutput:
		w.id, w.count = o.AccountID, o.FoundryCounter
	case *iotago.AnchorOutput:
		w.id, w.count = o.AnchorID, o.StateIndex
	case *iotago.NFTOutput:
		w.id = o.NFTID
	case *iotago.FoundryOutput:
		w.serial, w.scheme = o.SerialNumber, o.TokenScheme
	case *iotago.DelegationOutput:
		w.id, w.start, w.end, w.stake, w.validator = o.DelegationID, o.StartEpoch, o.EndEpoch, o.DelegatedAmount, o.ValidatorAddress
	}
	return w
}

// wireSet adds to w what is in the set, in the order of the types.
func wireSet[T comparable](w *wire, set []T, f func(T)) {
	var none T
	n := uint8(0)
	for _, x := range set {
		if x != none {
			n++
		}
	}
	w.u8(n)
	for _, x := range set {
		if x != none {
			f(x)
		}
	}
}

// encoding is the encoding of the output described.
func (w *wanted) encoding() []byte {
	e := &wire{}
	e.u8([]uint8{0, 1, 2, 3, 4, 5}[w.kind])
	e.u64(uint64(w.amount))
	if w.kind != 3 && w.kind != 5 {
		e.u64(uint64(w.mana))
	}
	switch w.kind {
	case 1, 2:
		e.raw(w.id[:])
		e.u32(w.count)
	case 3:
		e.u32(w.serial)
		s := w.scheme.(*iotago.SimpleTokenScheme)
		e.u8(0)
		e.u256(s.MintedTokens)
		e.u256(s.MeltedTokens)
		e.u256(s.MaximumSupply)
	case 4:
		e.raw(w.id[:])
	case 5:
		e.u64(uint64(w.stake))
		e.raw(w.id[:])
		e.address(w.validator)
		e.u32(uint32(w.start))
		e.u32(uint32(w.end))
	}
	wireSet(e, w.conds[:], e.condition)
	if w.kind != 5 {
		wireSet(e, w.feats[:], e.feature)
	}
	if w.kind != 0 && w.kind != 5 {
		wireSet(e, w.immuts[:], e.feature)
	}
	return e.b
}

func anySlot(name string) iotago.SlotIndex   { return iotago.SlotIndex(nd.U32(name)) }
func anyEpoch(name string) iotago.EpochIndex { return iotago.EpochIndex(nd.U32(name)) }
func anyAmount(name string) iotago.BaseToken { return iotago.BaseToken(nd.U64(name)) }
func anyMana(name string) iotago.Mana        { return iotago.Mana(nd.U64(name)) }

// the common parts of the builders
type condBuilder[B any] interface {
	StorageDepositReturn(iotago.Address, iotago.BaseToken) B
	Timelock(iotago.SlotIndex) B
	Expiration(iotago.Address, iotago.SlotIndex) B
	Tag([]byte) B
}

func conditionCall[B any](b condBuilder[B], w *wanted, k int) {
	switch k {
	case 0:
		a, v := anyEd("return"), anyAmount("deposit")
		b.StorageDepositReturn(a, v)
		w.cond(&iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a, Amount: v})
	case 1:
		s := anySlot("timelock")
		b.Timelock(s)
		w.cond(&iotago.TimelockUnlockCondition{Slot: s})
	case 2:
		a, s := anyEd("expired"), anySlot("expiration")
		b.Expiration(a, s)
		w.cond(&iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: s})
	case 3:
		t := nd.Bytes("tag", 2)
		b.Tag(t)
		w.feat(&iotago.TagFeature{Tag: t})
	}
}

type immutBuilder[B any] interface {
	ImmutableIssuer(iotago.Address) B
	ImmutableMetadata(iotago.MetadataFeatureEntries) B
}

// immutCall sets an immutable feature, maybe to what it is already.
func immutCall[B any](b immutBuilder[B], w *wanted, k int) {
	if k == 0 {
		f := &iotago.IssuerFeature{Address: anyEd("issuer")}
		if old := w.immuts[f.Type()]; old != nil && maybe("keep") {
			f = old.Clone().(*iotago.IssuerFeature)
		}
		b.ImmutableIssuer(f.Address)
		w.immut(f)
		return
	}
	f := anyMetadata("immutable")
	if old := w.immuts[f.Type()]; old != nil && maybe("keep") {
		f = old.Clone().(*iotago.MetadataFeature)
	}
	b.ImmutableMetadata(f.Entries)
	w.immut(f)
}

func featureBytes(f iotago.Feature) []byte {
	w := &wire{}
	w.feature(f)
	return w.b
}

// finish checks what was built.
func finish(api iotago.API, w *wanted, o iotago.TxEssenceOutput, err error, refused bool, prev iotago.TxEssenceOutput, before []byte) {
	nd.Assert((err != nil) == refused, "building fails exactly if what must not change changed")
	if prev != nil {
		nd.Assert(eqBytes(must(api.Encode(prev)), before), "the previous output is left as it was")
	}
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("built")
	nd.Assert(eqBytes(must(api.Encode(o)), w.encoding()), "the output has exactly the parts it was given, in order")
}

// previous picks whether to start from an existing output.
func previous(api iotago.API, k int) (iotago.TxEssenceOutput, []byte) {
	if !maybe("previous") {
		return nil, nil
	}
	o := richOutput(k)
	return o, must(api.Encode(o))
}

var _ = nd.Reg("H_outbuild_basic", H_outbuild_basic)

// H_outbuild_basic: basic outputs.
func H_outbuild_basic() {
	api := newAPI()
	prev, before := previous(api, 0)
	var b *builder.BasicOutputBuilder
	var w *wanted
	if prev != nil {
		b, w = builder.NewBasicOutputBuilderFromPrevious(prev.(*iotago.BasicOutput)), from(0, prev)
	} else {
		a, v := anyEd("owner"), anyAmount("amount")
		b, w = builder.NewBasicOutputBuilder(a, v), &wanted{amount: v}
		w.cond(&iotago.AddressUnlockCondition{Address: a})
	}
	for i := 0; i < 2+nd.Tier(); i++ {
		switch k := nd.Choice("call", 10); k {
		case 0:
			w.amount = anyAmount("amount")
			b.Amount(w.amount)
		case 1:
			w.mana = anyMana("mana")
			b.Mana(w.mana)
		case 2:
			a := anyEd("address")
			b.Address(a)
			w.cond(&iotago.AddressUnlockCondition{Address: a})
		case 3:
			a := anyEd("sender")
			b.Sender(a)
			w.feat(&iotago.SenderFeature{Address: a})
		case 4:
			m := anyMetadata("metadata")
			b.Metadata(m.Entries)
			w.feat(m)
		case 5:
			f := nt(token(7, 1), big.NewInt(int64(nd.U8("tokens"))))
			b.NativeToken(f)
			w.feat(f)
		default:
			conditionCall[*builder.BasicOutputBuilder](b, w, k-6)
		}
	}
	o, err := b.Build()
	finish(api, w, o, err, false, prev, before)
}

var _ = nd.Reg("H_outbuild_nft", H_outbuild_nft)

// H_outbuild_nft: NFT outputs.
func H_outbuild_nft() {
	api := newAPI()
	prev, before := previous(api, 4)
	var b *builder.NFTOutputBuilder
	var w *wanted
	if prev != nil {
		b, w = builder.NewNFTOutputBuilderFromPrevious(prev.(*iotago.NFTOutput)), from(4, prev)
	} else {
		a, v := anyEd("owner"), anyAmount("amount")
		b, w = builder.NewNFTOutputBuilder(a, v), &wanted{kind: 4, amount: v}
		w.cond(&iotago.AddressUnlockCondition{Address: a})
	}
	old := *w
	for i := 0; i < 2+nd.Tier(); i++ {
		switch k := nd.Choice("call", 12); k {
		case 0:
			w.amount = anyAmount("amount")
			b.Amount(w.amount)
		case 1:
			w.mana = anyMana("mana")
			b.Mana(w.mana)
		case 2:
			a := anyEd("address")
			b.Address(a)
			w.cond(&iotago.AddressUnlockCondition{Address: a})
		case 3:
			a := anyEd("sender")
			b.Sender(a)
			w.feat(&iotago.SenderFeature{Address: a})
		case 4:
			m := anyMetadata("metadata")
			b.Metadata(m.Entries)
			w.feat(m)
		case 5:
			nd.Assume(prev == nil)
			w.id = anyID("id")
			b.NFTID(w.id)
		case 6, 7:
			immutCall[*builder.NFTOutputBuilder](b, w, k-6)
		default:
			conditionCall[*builder.NFTOutputBuilder](b, w, k-8)
		}
	}
	o, err := b.Build()
	finish(api, w, o, err, prev != nil && immutChanged(&old, w), prev, before)
}

// immutChanged tells whether the immutable features differ.
func immutChanged(a, b *wanted) bool {
	for t := range a.immuts {
		x, y := a.immuts[t], b.immuts[t]
		if (x == nil) != (y == nil) || x != nil && !eqBytes(featureBytes(x), featureBytes(y)) {
			return true
		}
	}
	return false
}

var _ = nd.Reg("H_outbuild_foundry", H_outbuild_foundry)

// H_outbuild_foundry: foundry and delegation outputs.
func H_outbuild_foundry() {
	api := newAPI()
	prev, before := previous(api, 3)
	var b *builder.FoundryOutputBuilder
	var w *wanted
	if prev != nil {
		b, w = builder.NewFoundryOutputBuilderFromPrevious(prev.(*iotago.FoundryOutput)), from(3, prev)
	} else {
		a, v := iotago.AccountAddress(anyID("owner")), anyAmount("amount")
		w = &wanted{kind: 3, amount: v, serial: nd.U32("serial"), scheme: &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(9), MeltedTokens: big.NewInt(1), MaximumSupply: big.NewInt(100)}}
		b = builder.NewFoundryOutputBuilder(&a, v, w.serial, w.scheme)
		w.cond(&iotago.ImmutableAccountUnlockCondition{Address: &a})
	}
	old := *w
	for i := 0; i < 2+nd.Tier(); i++ {
		switch nd.Choice("call", 5) {
		case 0:
			w.amount = anyAmount("amount")
			b.Amount(w.amount)
		case 1:
			m := anyMetadata("metadata")
			b.Metadata(m.Entries)
			w.feat(m)
		case 2:
			f := nt(token(7, 1), big.NewInt(int64(nd.U8("tokens"))))
			b.NativeToken(f)
			w.feat(f)
		case 3:
			w.scheme = &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(int64(nd.U8("minted"))), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(1000)}
			b.TokenScheme(w.scheme)
		case 4:
			m := anyMetadata("immutable")
			if x := w.immuts[m.Type()]; x != nil && maybe("keep") {
				m = x.Clone().(*iotago.MetadataFeature)
			}
			b.ImmutableMetadata(m.Entries)
			w.immut(m)
		}
	}
	o, err := b.Build()
	finish(api, w, o, err, prev != nil && immutChanged(&old, w), prev, before)
}

var _ = nd.Reg("H_outbuild_delegation", H_outbuild_delegation)

// H_outbuild_delegation: delegation outputs.
func H_outbuild_delegation() {
	api := newAPI()
	prev, before := previous(api, 5)
	var b *builder.DelegationOutputBuilder
	var w *wanted
	if prev != nil {
		b, w = builder.NewDelegationOutputBuilderFromPrevious(prev.(*iotago.DelegationOutput)), from(5, prev)
	} else {
		val, a, v := iotago.AccountAddress(anyID("validator")), anyEd("owner"), anyAmount("amount")
		b, w = builder.NewDelegationOutputBuilder(&val, a, v), &wanted{kind: 5, amount: v, validator: &val}
		w.cond(&iotago.AddressUnlockCondition{Address: a})
	}
	for i := 0; i < 2+nd.Tier(); i++ {
		switch nd.Choice("call", 7) {
		case 0:
			w.amount = anyAmount("amount")
			b.Amount(w.amount)
		case 1:
			w.stake = anyAmount("delegated")
			b.DelegatedAmount(w.stake)
		case 2:
			val := iotago.AccountAddress(anyID("new validator"))
			w.validator = &val
			b.ValidatorAddress(&val)
		case 3:
			w.id = anyID("id")
			b.DelegationID(w.id)
		case 4:
			w.start = anyEpoch("start")
			b.StartEpoch(w.start)
		case 5:
			w.end = anyEpoch("end")
			b.EndEpoch(w.end)
		case 6:
			a := anyEd("address")
			b.Address(a)
			w.cond(&iotago.AddressUnlockCondition{Address: a})
		}
	}
	o, err := b.Build()
	finish(api, w, o, err, false, prev, before)
}

var _ = nd.Reg("H_outbuild_anchor", H_outbuild_anchor)

// H_outbuild_anchor: anchor outputs, whose transitions are either of the state
// or of the governance.
func H_outbuild_anchor() {
	api := newAPI()
	prev, before := previous(api, 2)
	var b *builder.AnchorOutputBuilder
	var w *wanted
	if prev != nil {
		o := prev.(*iotago.AnchorOutput)
		o.StateIndex = nd.U32("state index")
		nd.Assume(o.StateIndex < 1<<32-1)
		before = must(api.Encode(o))
		b, w = builder.NewAnchorOutputBuilderFromPrevious(o), from(2, prev)
	} else {
		s, g, v := anyEd("controller"), anyEd("governor"), anyAmount("amount")
		b, w = builder.NewAnchorOutputBuilder(s, g, v), &wanted{kind: 2, amount: v}
		w.cond(&iotago.StateControllerAddressUnlockCondition{Address: s})
		w.cond(&iotago.GovernorAddressUnlockCondition{Address: g})
	}
	old := *w
	state, gov := false, false
	for i := 0; i < 2+nd.Tier(); i++ {
		narrow := maybe("narrow")
		switch k := nd.Choice("call", 9); k {
		case 0:
			w.amount = anyAmount("amount")
			state = true
			if narrow {
				nd.Assert(b.StateTransition().Amount(w.amount).Builder() == b, "the builder stays the same")
			} else {
				b.Amount(w.amount)
			}
		case 1:
			w.mana = anyMana("mana")
			if narrow {
				nd.Assert(b.StateTransition().Mana(w.mana).Builder() == b, "the builder stays the same")
			} else {
				b.Mana(w.mana)
			}
		case 2:
			m := anyMetadata("state metadata")
			f := &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{}}
			for k, v := range m.Entries {
				f.Entries[iotago.StateMetadataFeatureEntriesKey(k)] = iotago.StateMetadataFeatureEntriesValue(v)
			}
			state = true
			if narrow {
				nd.Assert(b.StateTransition().StateMetadata(f.Entries).Builder() == b, "the builder stays the same")
			} else {
				b.StateMetadata(f.Entries)
			}
			w.feat(f)
		case 3:
			a := anyEd("new controller")
			gov = true
			if narrow {
				nd.Assert(b.GovernanceTransition().StateController(a).Builder() == b, "the builder stays the same")
			} else {
				b.StateController(a)
			}
			w.cond(&iotago.StateControllerAddressUnlockCondition{Address: a})
		case 4:
			a := anyEd("new governor")
			gov = true
			if narrow {
				nd.Assert(b.GovernanceTransition().Governor(a).Builder() == b, "the builder stays the same")
			} else {
				b.Governor(a)
			}
			w.cond(&iotago.GovernorAddressUnlockCondition{Address: a})
		case 5:
			m := anyMetadata("metadata")
			gov = true
			if narrow {
				nd.Assert(b.GovernanceTransition().Metadata(m.Entries).Builder() == b, "the builder stays the same")
			} else {
				b.Metadata(m.Entries)
			}
			w.feat(m)
		case 6:
			nd.Assume(prev == nil && !narrow)
			w.id = anyID("id")
			b.AnchorID(w.id)
		default:
			nd.Assume(!narrow)
			immutCall[*builder.AnchorOutputBuilder](b, w, k-7)
		}
	}
	if prev != nil && state {
		w.count++
	}
	o, err := b.Build()
	finish(api, w, o, err, prev != nil && (state && gov || immutChanged(&old, w)), prev, before)
}

var _ = nd.Reg("H_outbuild_account", H_outbuild_account)

// H_outbuild_account: account outputs with their block issuer and staking features.
func H_outbuild_account() {
	api := newAPI()
	prev, before := previous(api, 1)
	var b *builder.AccountOutputBuilder
	var w *wanted
	if prev != nil {
		b, w = builder.NewAccountOutputBuilderFromPrevious(prev.(*iotago.AccountOutput)), from(1, prev)
	} else {
		a, v := anyEd("owner"), anyAmount("amount")
		b, w = builder.NewAccountOutputBuilder(a, v), &wanted{kind: 1, amount: v}
		w.cond(&iotago.AddressUnlockCondition{Address: a})
	}
	old := *w
	for i := 0; i < 2+nd.Tier(); i++ {
		switch k := nd.Choice("call", 14); k {
		case 0:
			w.amount = anyAmount("amount")
			b.Amount(w.amount)
		case 1:
			w.mana = anyMana("mana")
			b.Mana(w.mana)
		case 2:
			a := anyEd("address")
			b.Address(a)
			w.cond(&iotago.AddressUnlockCondition{Address: a})
		case 3:
			a := anyEd("sender")
			b.Sender(a)
			w.feat(&iotago.SenderFeature{Address: a})
		case 4:
			m := anyMetadata("metadata")
			b.Metadata(m.Entries)
			w.feat(m)
		case 5:
			nd.Assume(prev == nil)
			w.id = anyID("id")
			b.AccountID(w.id)
		case 6:
			n := nd.U32("foundries")
			nd.Assume(n <= 1<<32-1-w.count)
			b.FoundriesToGenerate(n)
			w.count += n
		case 7:
			f := &iotago.BlockIssuerFeature{BlockIssuerKeys: biKeys(3), ExpirySlot: anySlot("expiry")}
			b.BlockIssuer(f.BlockIssuerKeys, f.ExpirySlot)
			w.feat(f)
		case 8:
			f := &iotago.StakingFeature{StakedAmount: anyAmount("staked"), FixedCost: anyMana("cost"), StartEpoch: anyEpoch("start"), EndEpoch: iotago.MaxEpochIndex}
			if maybe("end") {
				f.EndEpoch = anyEpoch("end epoch")
				b.Staking(f.StakedAmount, f.FixedCost, f.StartEpoch, f.EndEpoch)
			} else {
				b.Staking(f.StakedAmount, f.FixedCost, f.StartEpoch)
			}
			w.feat(f)
		case 9:
			t := []iotago.FeatureType{iotago.FeatureSender, iotago.FeatureMetadata, iotago.FeatureBlockIssuer, iotago.FeatureStaking}[nd.Choice("remove", 4)]
			b.RemoveFeature(t)
			w.feats[t] = nil
		case 10:
			t := b.StakingTransition()
			f := &iotago.StakingFeature{}
			if x := w.feats[iotago.FeatureStaking]; x != nil {
				f = x.Clone().(*iotago.StakingFeature)
			}
			switch nd.Choice("staking", 4) {
			case 0:
				f.StakedAmount = anyAmount("staked")
				t.StakedAmount(f.StakedAmount)
			case 1:
				f.FixedCost = anyMana("cost")
				t.FixedCost(f.FixedCost)
			case 2:
				f.StartEpoch = anyEpoch("start")
				t.StartEpoch(f.StartEpoch)
			case 3:
				f.EndEpoch = anyEpoch("end epoch")
				t.EndEpoch(f.EndEpoch)
			}
			nd.Assert(t.Builder() == b, "the builder stays the same")
			w.feat(f)
		case 11:
			t := b.BlockIssuerTransition()
			f := &iotago.BlockIssuerFeature{}
			if x := w.feats[iotago.FeatureBlockIssuer]; x != nil {
				f = x.Clone().(*iotago.BlockIssuerFeature)
			}
			switch nd.Choice("issuer", 4) {
			case 0:
				f.ExpirySlot = anySlot("expiry")
				t.ExpirySlot(f.ExpirySlot)
			case 1:
				f.BlockIssuerKeys = biKeys(4)
				t.Keys(biKeys(4))
			case 2:
				k := shortKey("key")
				t.AddKeys(k)
				f.BlockIssuerKeys = keysWith(f.BlockIssuerKeys, k)
			case 3:
				k := shortKey("key")
				t.RemoveKey(k)
				f.BlockIssuerKeys = keysWithout(f.BlockIssuerKeys, k)
			}
			nd.Assert(t.Builder() == b, "the builder stays the same")
			w.feat(f)
		default:
			immutCall[*builder.AccountOutputBuilder](b, w, k-12)
		}
	}
	o, err := b.Build()
	finish(api, w, o, err, prev != nil && immutChanged(&old, w), prev, before)
}

func keyBytes(k iotago.BlockIssuerKey) []byte {
	x := k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey)
	return x.PublicKeyHash[:]
}

// keysWith is the ordered list with a key added if it is not there yet.
func keysWith(keys iotago.BlockIssuerKeys, k iotago.BlockIssuerKey) (l iotago.BlockIssuerKeys) {
	done := false
	for _, x := range keys {
		c := compareBytes(keyBytes(x), keyBytes(k))
		if c == 0 {
			done = true
		}
		if c > 0 && !done {
			l = append(l, k)
			done = true
		}
		l = append(l, x)
	}
	if !done {
		l = append(l, k)
	}
	return l
}

// keysWithout is the list without the key.
func keysWithout(keys iotago.BlockIssuerKeys, k iotago.BlockIssuerKey) (l iotago.BlockIssuerKeys) {
	for _, x := range keys {
		if !eqBytes(keyBytes(x), keyBytes(k)) {
			l = append(l, x)
		}
	}
	return l
}

func compareBytes(a, b []byte) int {
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}
