package props

import (
	"bytes"
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// This file states what a syntactically valid transaction is, independently of
// the validators of the repository, and compares the two.

// parts are the unlock conditions, features and immutable features of o.
func parts(o iotago.Output) (conds []iotago.UnlockCondition, feats, imms []iotago.Feature) {
	switch o := o.(type) {
	case *iotago.BasicOutput:
		for _, c := range o.UnlockConditions {
			conds = append(conds, c)
		}
		for _, f := range o.Features {
			feats = append(feats, f)
		}
	case *iotago.AccountOutput:
		for _, c := range o.UnlockConditions {
			conds = append(conds, c)
		}
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imms = append(imms, f)
		}
	case *iotago.AnchorOutput:
		for _, c := range o.UnlockConditions {
			conds = append(conds, c)
		}
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imms = append(imms, f)
		}
	case *iotago.FoundryOutput:
		for _, c := range o.UnlockConditions {
			conds = append(conds, c)
		}
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imms = append(imms, f)
		}
	case *iotago.NFTOutput:
		for _, c := range o.UnlockConditions {
			conds = append(conds, c)
		}
		for _, f := range o.Features {
			feats = append(feats, f)
		}
		for _, f := range o.ImmutableFeatures {
			imms = append(imms, f)
		}
	case *iotago.DelegationOutput:
		for _, c := range o.UnlockConditions {
			conds = append(conds, c)
		}
	}
	return
}

func condRank(c iotago.UnlockCondition) int {
	switch c.(type) {
	case *iotago.AddressUnlockCondition:
		return 0
	case *iotago.StorageDepositReturnUnlockCondition:
		return 1
	case *iotago.TimelockUnlockCondition:
		return 2
	case *iotago.ExpirationUnlockCondition:
		return 3
	case *iotago.StateControllerAddressUnlockCondition:
		return 4
	case *iotago.GovernorAddressUnlockCondition:
		return 5
	}
	return 6
}

func featRank(f iotago.Feature) int {
	switch f.(type) {
	case *iotago.SenderFeature:
		return 0
	case *iotago.IssuerFeature:
		return 1
	case *iotago.MetadataFeature:
		return 2
	case *iotago.StateMetadataFeature:
		return 3
	case *iotago.TagFeature:
		return 4
	case *iotago.NativeTokenFeature:
		return 5
	case *iotago.BlockIssuerFeature:
		return 6
	}
	return 7
}

func ascending[T any](l []T, rank func(T) int) bool {
	for i := 1; i < len(l); i++ {
		if rank(l[i-1]) >= rank(l[i]) {
			return false
		}
	}
	return true
}

// ordered tells whether conditions and features of o are sorted and unique.
func ordered(o iotago.Output) bool {
	conds, feats, imms := parts(o)
	return ascending(conds, condRank) && ascending(feats, featRank) && ascending(imms, featRank)
}

var _ = nd.Reg("H_out_order", H_out_order)

// H_out_order: unlock conditions and features come in the order of their types,
// each at most once.
func H_out_order() {
	e := newTxEnv(newAPI(), 100)
	e.commit(98)
	k := nd.Choice("kind", 5)
	list := nd.Choice("list", 3)
	v := nd.Range64("value", 1, uint64(rich)) // also an amount staked
	o := kindOutput(k, rich, 0)
	meta := iotago.MetadataFeatureEntries{"k": {byte(v)}}
	allFeats := []iotago.Feature{
		&iotago.SenderFeature{Address: ed(1)},
		&iotago.IssuerFeature{Address: ed(1)},
		&iotago.MetadataFeature{Entries: meta},
		&iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{"k": {byte(v)}}},
		&iotago.TagFeature{Tag: []byte{byte(v)}},
		nt(token(7, 1), big.NewInt(int64(v))),
		blockIssuer(iotago.SlotIndex(v)),
		&iotago.StakingFeature{StakedAmount: iotago.BaseToken(v), StartEpoch: 1, EndEpoch: 2},
	}
	pick := func(allowed ...int) (r []iotago.Feature) {
		n := nd.Choice("length", 4)
		for i := 0; i < n; i++ {
			r = append(r, allFeats[allowed[nd.Choice("which", len(allowed))]])
		}
		return
	}
	sdr := &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ed(4), Amount: 1_000_000}
	tl := &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(v)}
	exp := &iotago.ExpirationUnlockCondition{ReturnAddress: ed(4), Slot: iotago.SlotIndex(v)}
	addr := &iotago.AddressUnlockCondition{Address: ed(1)}
	// at most three more conditions around the required ones
	around := func(n int) (r []int) {
		for i := 0; i < n; i++ {
			r = append(r, nd.Choice("condition", 4))
		}
		return
	}
	switch o := o.(type) {
	case *iotago.BasicOutput:
		switch list {
		case 0:
			n := 1 + nd.Choice("length", 3)
			at := nd.Choice("address", n)
			o.UnlockConditions = nil
			for i, c := range around(n) {
				switch {
				case i == at || c == 0:
					o.UnlockConditions = append(o.UnlockConditions, addr)
				case c == 1:
					o.UnlockConditions = append(o.UnlockConditions, sdr)
				case c == 2:
					o.UnlockConditions = append(o.UnlockConditions, tl)
				default:
					o.UnlockConditions = append(o.UnlockConditions, exp)
				}
			}
		default:
			for _, f := range pick(0, 2, 4, 5) {
				o.Features = append(o.Features, f)
			}
		}
	case *iotago.AccountOutput:
		switch list {
		case 0:
			for i := nd.Choice("length", 3); i > 0; i-- {
				o.UnlockConditions = append(o.UnlockConditions, addr)
			}
		case 1:
			fs := pick(0, 2, 6, 7)
			for _, f := range fs {
				o.Features = append(o.Features, f)
			}
			// staking asks for a block issuer feature
			bi, st := 0, 0
			for _, f := range fs {
				switch featRank(f) {
				case 6:
					bi++
				case 7:
					st++
				}
			}
			nd.Assume(st == 0 || bi > 0)
		default:
			for _, f := range pick(1, 2) {
				o.ImmutableFeatures = append(o.ImmutableFeatures, f)
			}
		}
	case *iotago.AnchorOutput:
		switch list {
		case 0:
			s, g := o.UnlockConditions[0], o.UnlockConditions[1]
			o.UnlockConditions = nil
			for i := 1 + nd.Choice("length", 3); i > 0; i-- {
				if maybe("governor") {
					o.UnlockConditions = append(o.UnlockConditions, g)
				} else {
					o.UnlockConditions = append(o.UnlockConditions, s)
				}
			}
			ss, gs := 0, 0
			for _, c := range o.UnlockConditions {
				if condRank(c) == 4 {
					ss++
				} else {
					gs++
				}
			}
			nd.Assume(ss > 0 && gs > 0)
		case 1:
			for _, f := range pick(2, 3) {
				o.Features = append(o.Features, f)
			}
		default:
			for _, f := range pick(1, 2) {
				o.ImmutableFeatures = append(o.ImmutableFeatures, f)
			}
		}
	case *iotago.FoundryOutput:
		switch list {
		case 0:
			for i := nd.Choice("length", 3); i > 0; i-- {
				o.UnlockConditions = append(o.UnlockConditions, o.UnlockConditions[0])
			}
		case 1:
			for _, f := range pick(2, 5) {
				o.Features = append(o.Features, f)
			}
		default:
			for _, f := range pick(2) {
				o.ImmutableFeatures = append(o.ImmutableFeatures, f)
			}
		}
	case *iotago.NFTOutput:
		switch list {
		case 0:
			n := 1 + nd.Choice("length", 3)
			at := nd.Choice("address", n)
			o.UnlockConditions = nil
			for i, c := range around(n) {
				switch {
				case i == at || c == 0:
					o.UnlockConditions = append(o.UnlockConditions, addr)
				case c == 1:
					o.UnlockConditions = append(o.UnlockConditions, sdr)
				case c == 2:
					o.UnlockConditions = append(o.UnlockConditions, tl)
				default:
					o.UnlockConditions = append(o.UnlockConditions, exp)
				}
			}
		case 1:
			for _, f := range pick(0, 2, 4) {
				o.Features = append(o.Features, f)
			}
		default:
			for _, f := range pick(1, 2) {
				o.ImmutableFeatures = append(o.ImmutableFeatures, f)
			}
		}
	}
	// the output under test comes first or second
	if maybe("second") {
		e.out(basic(ed(1), rich, 0, tl))
	}
	e.out(o)
	e.in(basic(ed(1), rich, 0), 100)
	verdict(e, ordered(o), "conditions and features are sorted and unique")
}

// verdict compares the real syntactic validation with the expectation.
func verdict(e *txEnv, want bool, msg string) {
	ok := e.valid() == nil
	if ok {
		nd.Cover("valid")
	} else {
		nd.Cover("invalid")
	}
	nd.Assert(ok == want, msg)
}

var _ = nd.Reg("H_out_zero", H_out_zero)

// H_out_zero: no amount, slot or token amount of zero, in any output.
func H_out_zero() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	want := true
	for i := 0; i < 2; i++ {
		o := basic(ed(1), rich, 0)
		if maybe("timelock") {
			s := nd.U32("slot")
			o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(s)})
			want = want && s != 0
		}
		if maybe("expiration") {
			s := nd.U32("expirationSlot")
			o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: ed(4), Slot: iotago.SlotIndex(s)})
			want = want && s != 0
		}
		if maybe("token") {
			a := nd.Big("tokens")
			o.Features = append(o.Features, nt(token(7, uint32(i)), a))
			want = want && a.Sign() != 0
		}
		e.out(o)
	}
	verdict(e, want, "no zero slots or token amounts")
}

// somebody is a fixed address, or the account, NFT or anchor with symbolic id.
func somebody(name string) (iotago.Address, int, byte) {
	k := nd.Choice(name, 4)
	b := nd.U8(name + "ID")
	switch k {
	case 1:
		a := iotago.AccountAddress(accID(b))
		return &a, k, b
	case 2:
		a := iotago.NFTAddress(accID(b))
		return &a, k, b
	case 3:
		a := iotago.AnchorAddress(accID(b))
		return &a, k, b
	}
	return ed(b), 0, b
}

var _ = nd.Reg("H_out_chain", H_out_chain)

// H_out_chain: new chains start from their initial state and no chain output
// owns itself; staking stays within the amount and needs a block issuer.
func H_out_chain() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	id := nd.U8("id")
	addr, ak, ab := somebody("owner")
	want := true
	commit := maybe("commitment")
	if commit {
		e.commit(98)
	}
	var o iotago.TxEssenceOutput
	switch nd.Choice("kind", 4) {
	case 0:
		nd.Cover("account")
		a := account(id, iotago.BaseToken(nd.Range64("amount", uint64(rich), uint64(2*rich))))
		a.FoundryCounter = nd.U32("counter")
		a.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = addr
		nd.Assume(!(ak == 1 && ab == 0)) // the address of no account
		want = (id != 0 || a.FoundryCounter == 0) && !(ak == 1 && ab == id)
		if maybe("issuer") {
			a.Features = append(a.Features, blockIssuer(iotago.SlotIndex(nd.U32("expiry"))))
			want = want && commit
		}
		if maybe("staking") {
			s := &iotago.StakingFeature{StakedAmount: iotago.BaseToken(nd.U64("staked")), StartEpoch: iotago.EpochIndex(nd.U32("start")), EndEpoch: iotago.EpochIndex(nd.U32("end"))}
			want = want && len(a.Features) > 0 && s.StakedAmount <= a.Amount && commit
			a.Features = append(a.Features, s)
		}
		o = a
	case 1:
		nd.Cover("anchor")
		a := kindOutput(3, rich, nd.U32("index")).(*iotago.AnchorOutput)
		a.AnchorID = iotago.AnchorID(accID(id))
		gov, gk, gb := somebody("governor")
		a.UnlockConditions[0].(*iotago.StateControllerAddressUnlockCondition).Address = addr
		a.UnlockConditions[1].(*iotago.GovernorAddressUnlockCondition).Address = gov
		want = id != 0 && !(ak == 3 && ab == id) && !(gk == 3 && gb == id) || id == 0 && a.StateIndex == 0
		o = a
	case 2:
		nd.Cover("NFT")
		a := kindOutput(2, rich, 0).(*iotago.NFTOutput)
		a.NFTID = iotago.NFTID(accID(id))
		a.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = addr
		want = !(id != 0 && ak == 2 && ab == id)
		o = a
	case 3:
		nd.Cover("delegation")
		d := delegation(rich, iotago.DelegationID(accID(id)), iotago.EpochIndex(nd.U32("start")), iotago.EpochIndex(nd.U32("end")))
		var v iotago.AccountAddress
		v[nd.Choice("byte", 2)*31] = nd.U8("validator")
		d.ValidatorAddress = &v
		d.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = addr
		want = v[0]|v[31] != 0 && commit
		o = d
	}
	if maybe("second") {
		e.out(basic(ed(1), rich, 0))
	}
	e.out(o)
	verdict(e, want, "chain outputs are well-formed")
}

var _ = nd.Reg("H_out_foundry", H_out_foundry)

// H_out_foundry: a foundry has a positive maximum supply, never holds more than
// it, and only carries its own tokens.
func H_out_foundry() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	minted, melted, limit := nd.Big("minted"), nd.Big("melted"), nd.Big("maximum")
	serial := nd.U32("serial")
	acc := nd.U8("account")
	o := foundry(acc, serial, rich, &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: melted, MaximumSupply: limit})
	want := limit.Sign() > 0 && minted.Cmp(melted) >= 0 && new(big.Int).Sub(minted, melted).Cmp(limit) <= 0
	if maybe("token") {
		a, s, n := nd.U8("tokenAccount"), nd.U32("tokenSerial"), nd.Big("tokens")
		o.Features = append(o.Features, nt(token(a, s), n))
		want = want && a == acc && s == serial && n.Sign() > 0
	}
	e.out(o)
	verdict(e, want, "foundries are well-formed")
}

var _ = nd.Reg("H_out_unique", H_out_unique)

// H_out_unique: no chain appears twice among the outputs.
func H_out_unique() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	e.commit(98)
	const n = 3
	var kinds [n]int
	var ids [n]byte
	var serial [n]uint32
	want := true
	for i := range ids {
		kinds[i], ids[i] = nd.Choice("kind", 5), nd.U8("id")
		var o iotago.TxEssenceOutput
		switch kinds[i] {
		case 0:
			a := account(ids[i], rich)
			a.FoundryCounter = 0
			o = a
		case 1:
			a := kindOutput(3, rich, 0).(*iotago.AnchorOutput)
			a.AnchorID = iotago.AnchorID(accID(ids[i]))
			o = a
		case 2:
			a := kindOutput(2, rich, 0).(*iotago.NFTOutput)
			a.NFTID = iotago.NFTID(accID(ids[i]))
			o = a
		case 3:
			o = delegation(rich, iotago.DelegationID(accID(ids[i])), 1, 0)
		case 4:
			nd.Assume(ids[i] != 0) // the foundry of no account
			serial[i] = uint32(nd.U8("serial"))
			o = foundry(ids[i], serial[i], rich, &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(0), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(10)})
		}
		for j := 0; j < i; j++ {
			if kinds[i] == kinds[j] && ids[i] == ids[j] && ids[i] != 0 && serial[i] == serial[j] {
				want = false
			}
		}
		e.out(o)
	}
	verdict(e, want, "chains appear once")
}

var _ = nd.Reg("H_out_sums", H_out_sums)

// H_out_sums: base tokens and stored mana stay within their supplies, over
// outputs of any kind.
func H_out_sums() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	pp := e.api.ProtocolParameters()
	want := true
	var base, mana sum128
	for i := 0; i < 3; i++ {
		a, m := nd.U64("amount"), nd.U64("mana")
		base.add(a)
		o := kindOutput(nd.Choice("kind", 5), iotago.BaseToken(a), 0)
		switch o := o.(type) {
		case *iotago.BasicOutput:
			o.Mana = iotago.Mana(m)
			mana.add(m)
		case *iotago.AccountOutput:
			o.AccountID = accID(byte(20 + i))
			o.Mana = iotago.Mana(m)
			mana.add(m)
		case *iotago.AnchorOutput:
			o.AnchorID = iotago.AnchorID(accID(byte(20 + i)))
			o.Mana = iotago.Mana(m)
			mana.add(m)
		case *iotago.NFTOutput:
			o.NFTID = iotago.NFTID(accID(byte(20 + i)))
			o.Mana = iotago.Mana(m)
			mana.add(m)
		case *iotago.FoundryOutput:
			o.SerialNumber = uint32(20 + i)
		}
		want = want && a >= uint64(must(e.api.StorageScoreStructure().MinDeposit(o)))
		e.out(o)
	}
	most := sum128{0, 1<<pp.ManaParameters().BitsCount - 1}
	want = want && !(sum128{0, uint64(pp.TokenSupply())}).less(base) && !most.less(mana)
	verdict(e, want, "sums stay within the supplies")
}

// mayReceive tells whether an address with the capabilities may receive o.
func mayReceive(caps [9]bool, o iotago.Output) bool {
	conds, feats, _ := parts(o)
	for _, f := range feats {
		if featRank(f) == 5 && !caps[0] {
			return false
		}
	}
	if o.StoredMana() != 0 && !caps[1] {
		return false
	}
	for _, c := range conds {
		switch condRank(c) {
		case 2:
			if !caps[2] {
				return false
			}
		case 3:
			if !caps[3] {
				return false
			}
		case 1:
			if !caps[4] {
				return false
			}
		}
	}
	switch o.(type) {
	case *iotago.AccountOutput:
		return caps[5]
	case *iotago.AnchorOutput:
		return caps[6]
	case *iotago.NFTOutput:
		return caps[7]
	case *iotago.DelegationOutput:
		return caps[8]
	}
	return true
}

// restricted is an address that may be restricted, with what it may receive.
func restricted(name string, k int, lens ...int) (iotago.Address, [9]bool) {
	var caps [9]bool
	if k == 0 {
		for i := range caps {
			caps[i] = true
		}
		return ed(1), caps
	}
	c := anyBytes(name, lens...)
	for i := range caps {
		caps[i] = i/8 < len(c) && c[i/8]>>(i%8)&1 == 1
	}
	var a iotago.Address = ed(1)
	switch k {
	case 2:
		n := iotago.NFTAddress(accID(9))
		a = &n
	case 3:
		a = iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: ed(1), Weight: 1}, {Address: ed(2), Weight: 1}}, 2)
	}
	return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: c}, caps
}

var _ = nd.Reg("H_out_restricted", H_out_restricted)

// H_out_restricted: an output only reaches restricted addresses that allow what
// it holds, wherever the address appears.
func H_out_restricted() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	e.commit(98)
	k := nd.Choice("kind", 5)
	if k == 4 {
		k = 5 // foundries only have an account
	}
	mana := iotago.Mana(nd.U32("mana"))
	// all sizes of the bit mask, or two restricted addresses
	lens, others := []int{0, 1, 2}, 1
	if maybe("both") {
		lens, others = []int{1}, 2
	}
	addr, caps := restricted("caps", nd.Choice("address", 4), lens...)
	var o iotago.TxEssenceOutput
	want := true
	switch k {
	case 0, 2:
		conds := []iotago.UnlockCondition{&iotago.AddressUnlockCondition{Address: addr}}
		if maybe("return") {
			conds = append(conds, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ed(4), Amount: 1_000_000})
		}
		if maybe("timelock") {
			conds = append(conds, &iotago.TimelockUnlockCondition{Slot: 5})
		}
		exp := nd.Choice("expiration", 1+others)
		back, backCaps := restricted("back", max(exp-1, 0), lens...)
		if exp > 0 {
			conds = append(conds, &iotago.ExpirationUnlockCondition{ReturnAddress: back, Slot: 5})
		}
		if k == 0 {
			b := basic(ed(1), rich, mana)
			b.UnlockConditions = nil
			for _, c := range conds {
				b.UnlockConditions = append(b.UnlockConditions, c)
			}
			if maybe("token") {
				b.Features = append(b.Features, nt(token(7, 1), big.NewInt(3)))
			}
			o = b
		} else {
			n := kindOutput(2, rich, 0).(*iotago.NFTOutput)
			n.Mana = mana
			n.UnlockConditions = nil
			for _, c := range conds {
				n.UnlockConditions = append(n.UnlockConditions, c)
			}
			o = n
		}
		if exp > 0 {
			want = mayReceive(backCaps, o)
		}
	case 1:
		a := account(7, rich)
		a.Mana = mana
		a.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = addr
		o = a
	case 3:
		a := kindOutput(3, rich, 0).(*iotago.AnchorOutput)
		a.Mana = mana
		gov, govCaps := restricted("gov", nd.Choice("governor", others), lens...)
		a.UnlockConditions[0].(*iotago.StateControllerAddressUnlockCondition).Address = addr
		a.UnlockConditions[1].(*iotago.GovernorAddressUnlockCondition).Address = gov
		o = a
		want = mayReceive(govCaps, o)
	default:
		d := delegation(rich, iotago.DelegationID{}, 1, 0)
		d.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = addr
		o = d
	}
	want = want && mayReceive(caps, o)
	e.out(o)
	verdict(e, want, "restricted addresses receive what they allow")
}

var _ = nd.Reg("H_out_implicit", H_out_implicit)

// H_out_implicit: implicit account creation addresses only own basic outputs
// without further conditions.
func H_out_implicit() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	e.commit(98)
	var i iotago.ImplicitAccountCreationAddress
	nd.Fill("address", i[:])
	var o iotago.TxEssenceOutput
	want := false
	switch nd.Choice("kind", 6) {
	case 0:
		b := basic(&i, rich, iotago.Mana(nd.U32("mana")))
		want = true
		if maybe("return") {
			want = false
			b.UnlockConditions = append(b.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ed(4), Amount: 1_000_000})
		}
		if maybe("timelock") {
			want = false
			b.UnlockConditions = append(b.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(nd.Range64("slot", 1, 1<<32-1))})
		}
		if maybe("expiration") {
			want = false
			b.UnlockConditions = append(b.UnlockConditions, &iotago.ExpirationUnlockCondition{ReturnAddress: ed(4), Slot: iotago.SlotIndex(nd.Range64("slot", 1, 1<<32-1))})
		}
		if maybe("token") {
			b.Features = append(b.Features, nt(token(7, 1), big.NewInt(3)))
		}
		o = b
	case 1:
		a := account(7, rich)
		a.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = &i
		o = a
	case 2:
		a := kindOutput(2, rich, 0).(*iotago.NFTOutput)
		a.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = &i
		o = a
	case 3:
		a := kindOutput(3, rich, 0).(*iotago.AnchorOutput)
		a.UnlockConditions[0].(*iotago.StateControllerAddressUnlockCondition).Address = &i
		o = a
	case 4:
		a := kindOutput(3, rich, 0).(*iotago.AnchorOutput)
		a.UnlockConditions[1].(*iotago.GovernorAddressUnlockCondition).Address = &i
		o = a
	case 5:
		d := delegation(rich, iotago.DelegationID{}, 1, 0)
		d.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = &i
		o = d
	}
	e.out(o)
	verdict(e, want, "implicit account creation addresses own plain basic outputs")
}

var _ = nd.Reg("H_out_metadata", H_out_metadata)

// H_out_metadata: no metadata map exceeds 8192 bytes, wherever it stands.
func H_out_metadata() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	size := 8187 + nd.Choice("size", 10)
	entries := iotago.MetadataFeatureEntries{}
	size2 := 1
	switch nd.Choice("entries", 3) {
	case 0: // one value: count, key length, key, value length, value
		entries["k"] = make([]byte, size-1-1-1-2)
	case 1:
		entries["key"] = make([]byte, 4000)
		entries["l"] = make([]byte, size-1-1-3-2-4000-1-1-2)
	case 2:
		entries["k"] = []byte{}
		entries["l"] = make([]byte, size-1-4-4-5)
		entries["mm"] = []byte{}
	}
	for k, v := range entries {
		size2 += 1 + len(k) + 2 + len(v)
	}
	m := &iotago.MetadataFeature{Entries: entries}
	amount := iotago.BaseToken(10 * rich)
	var o iotago.TxEssenceOutput
	switch nd.Choice("kind", 10) {
	case 0:
		b := basic(ed(1), amount, 0)
		b.Features = append(b.Features, m)
		o = b
	case 1:
		o = account(7, amount, m)
	case 2:
		a := account(7, amount)
		a.ImmutableFeatures = append(a.ImmutableFeatures, m)
		o = a
	case 3:
		a := kindOutput(2, amount, 0).(*iotago.NFTOutput)
		a.Features = append(a.Features, m)
		o = a
	case 4:
		a := kindOutput(2, amount, 0).(*iotago.NFTOutput)
		a.ImmutableFeatures = append(a.ImmutableFeatures, &iotago.IssuerFeature{Address: ed(1)}, m)
		o = a
	case 5:
		a := kindOutput(3, amount, 0).(*iotago.AnchorOutput)
		a.Features = append(a.Features, m)
		o = a
	case 6:
		a := kindOutput(3, amount, 0).(*iotago.AnchorOutput)
		s := iotago.StateMetadataFeatureEntries{}
		for k, v := range entries {
			s[iotago.StateMetadataFeatureEntriesKey(k)] = iotago.StateMetadataFeatureEntriesValue(v)
		}
		a.Features = append(a.Features, &iotago.StateMetadataFeature{Entries: s})
		o = a
	case 7:
		a := kindOutput(3, amount, 0).(*iotago.AnchorOutput)
		a.ImmutableFeatures = append(a.ImmutableFeatures, m)
		o = a
	case 8:
		a := kindOutput(4, amount, 0).(*iotago.FoundryOutput)
		a.Features = append(a.Features, m)
		o = a
	case 9:
		a := kindOutput(4, amount, 0).(*iotago.FoundryOutput)
		a.ImmutableFeatures = append(a.ImmutableFeatures, m)
		o = a
	}
	if maybe("second") {
		e.out(basic(ed(1), rich, 0))
	}
	e.out(o)
	verdict(e, size2 <= 8192, "metadata maps are at most 8192 bytes")
}

var _ = nd.Reg("H_tx_inputs", H_tx_inputs)

// H_tx_inputs: inputs name distinct outputs with a possible index, on the
// right network.
func H_tx_inputs() {
	e := newTxEnv(newAPI(), 100)
	e.out(basic(ed(1), rich, 0))
	net := nd.U64("network")
	e.tx.NetworkID = net
	n := 1 + nd.Choice("inputs", 4)
	var ids [4][4]byte
	var idx [4]uint16
	want := net == e.api.ProtocolParameters().NetworkID()
	for i := 0; i < n; i++ {
		nd.Fill("id", ids[i][:])
		idx[i] = nd.U16("index")
		var t iotago.TransactionID
		t[0], t[17], t[31], t[35] = ids[i][0], ids[i][1], ids[i][2], ids[i][3]
		e.inID(basic(ed(1), rich, 0), iotago.OutputIDFromTransactionIDAndIndex(t, idx[i]))
		want = want && idx[i] < 128
		for j := 0; j < i; j++ {
			want = want && !(ids[i] == ids[j] && idx[i] == idx[j])
		}
	}
	verdict(e, want, "inputs are distinct")
}

var _ = nd.Reg("H_out_commitment", H_out_commitment)

// H_out_commitment: accounts that issue blocks or stake and delegations need a
// commitment, all other outputs do not.
func H_out_commitment() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	needs := false
	for i, n := 0, 1+nd.Choice("outputs", 2); i < n; i++ {
		m := iotago.Mana(nd.Range64("mana", 0, 1<<40))
		switch k := nd.Choice("kind", 7); k {
		case 0:
			e.out(basic(ed(1), rich, m))
		case 1:
			o := account(byte(50+i), rich)
			o.Mana = m
			issuer, staking := nd.Choice("issuer", 2) == 1, nd.Choice("staking", 2) == 1
			if issuer {
				o.Features = append(o.Features, blockIssuer(iotago.SlotIndex(nd.U32("expiry"))))
			}
			nd.Assume(issuer || !staking)
			if staking {
				o.Features = append(o.Features, &iotago.StakingFeature{StakedAmount: 5, FixedCost: m, StartEpoch: iotago.EpochIndex(nd.U32("start")), EndEpoch: iotago.EpochIndex(nd.U32("end"))})
			}
			needs = needs || issuer || staking
			e.out(o)
		case 2:
			e.out(delegation(rich, iotago.DelegationID(accID(byte(60+i))), iotago.EpochIndex(nd.U32("start")), iotago.EpochIndex(nd.U32("end"))))
			needs = true
		default:
			if i == 1 {
				continue
			}
			e.out(kindOutput([]int{2, 3, 4, 0}[k-3], rich, 1))
		}
	}
	has := nd.Choice("commitment", 2) == 1
	if has {
		e.commit(iotago.SlotIndex(nd.U32("slot")))
	}
	verdict(e, has || !needs, "commitments for outputs that need one")
}

var _ = nd.Reg("H_tx_context", H_tx_context)

// H_tx_context: context inputs are sorted and unique, name existing inputs and
// need a commitment.
func H_tx_context() {
	e := newTxEnv(newAPI(), 100)
	e.out(basic(ed(1), rich, 0))
	inputs := 1 + nd.Choice("inputs", 3)
	for i := 0; i < inputs; i++ {
		e.in(basic(ed(1), rich, 0), 100)
	}
	n := nd.Choice("contexts", 5)
	want := true
	commitment := false
	var kinds [4]int
	var accs [4][3]byte
	var idx [4]uint16
	for i := 0; i < n; i++ {
		kinds[i] = nd.Choice("kind", 3)
		var c iotago.ContextInput
		switch kinds[i] {
		case 0:
			c = &iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("slot")), iotago.Identifier(accID(nd.U8("commitment"))))}
			commitment = true
		case 1:
			nd.Fill("account", accs[i][:])
			var id iotago.AccountID
			id[0], id[15], id[31] = accs[i][0], accs[i][1], accs[i][2]
			c = &iotago.BlockIssuanceCreditInput{AccountID: id}
			want = want && commitment
		default:
			idx[i] = nd.U16("index")
			c = &iotago.RewardInput{Index: idx[i]}
			want = want && commitment && int(idx[i]) < inputs
		}
		if i > 0 {
			switch {
			case kinds[i] < kinds[i-1]:
				want = false
			case kinds[i] > kinds[i-1]:
			case kinds[i] == 0:
				want = false
			case kinds[i] == 1:
				want = want && bytes.Compare(accs[i-1][:], accs[i][:]) < 0
			default:
				want = want && idx[i-1] < idx[i]
			}
		}
		e.tx.TransactionEssence.ContextInputs = append(e.tx.TransactionEssence.ContextInputs, c)
	}
	verdict(e, want, "context inputs are sorted")
}

var _ = nd.Reg("H_tx_allotments", H_tx_allotments)

// H_tx_allotments: allotments are sorted and unique with a possible sum, and
// the capability mask is minimal.
func H_tx_allotments() {
	e := newTxEnv(newAPI(), 100)
	e.in(basic(ed(1), rich, 0), 100)
	e.out(basic(ed(1), rich, 0))
	n := nd.Choice("allotments", 5)
	want := true
	var accs [4][3]byte
	var sum sum128
	for i := 0; i < n; i++ {
		nd.Fill("account", accs[i][:])
		m := nd.U64("mana")
		sum.add(m)
		var id iotago.AccountID
		id[0], id[15], id[31] = accs[i][0], accs[i][1], accs[i][2]
		e.tx.Allotments = append(e.tx.Allotments, &iotago.Allotment{AccountID: id, Mana: iotago.Mana(m)})
		want = want && (i == 0 || bytes.Compare(accs[i-1][:], accs[i][:]) < 0)
	}
	most := sum128{0, 1<<e.api.ProtocolParameters().ManaParameters().BitsCount - 1}
	want = want && !most.less(sum)
	c := nd.Bytes("capabilities", nd.Choice("capabilityBytes", 4))
	e.tx.Capabilities = c
	want = want && (len(c) == 0 || c[len(c)-1] != 0)
	verdict(e, want, "allotments are sorted")
}
