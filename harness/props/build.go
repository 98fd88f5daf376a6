package props

import (
	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"verif/harness/nd"
)

var _ = nd.Reg("H_build_unlocks", H_build_unlocks)

// H_build_unlocks: the builder finds the unlocks of all inputs whose owner is
// signed for or unlocked by an earlier input, and they unlock the inputs.
func H_build_unlocks() {
	api := newAPI()
	a, b := newKey(1), newKey(2)
	hasB := false
	impl := iotago.ImplicitAccountCreationAddressFromPubKey(a.pub())
	e := newTxEnv(api, 100)
	// the chains consumed so far, by the kind of their output
	chains := map[int]iotago.ChainID{}
	owners := []iotago.Address{}
	want := true
	for i := 0; i < 3 && want; i++ {
		id := outID(byte(i+1), 100)
		kind := 0
		if i < 2 || nd.Tier() > 0 {
			kind = nd.Choice("kind", 4)
		}
		nd.Assume(kind == 0 || chains[kind] == nil)
		var owner iotago.Address
		k := nd.Choice("owner", 7)
		switch k {
		case 0:
			owner = a.addr
		case 1:
			owner = b.addr
			hasB = hasB || maybe("hasB")
			want = hasB
		case 2:
			owner = &iotago.RestrictedAddress{Address: a.addr, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{255, 1}}
		case 3:
			// only basic outputs belong to implicit addresses
			nd.Assume(kind == 0)
			owner = impl
		default:
			// a chain consumed before or not
			if chains[k-3] == nil {
				owner = []iotago.ChainID{iotago.AccountID(accID(7)), iotago.NFTID(accID(8)), iotago.AnchorID(accID(9))}[k-4].ToAddress()
				want = false
			} else {
				owner = chains[k-3].ToAddress()
				if maybe("capable") {
					owner = &iotago.RestrictedAddress{Address: owner, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{255, 1}}
				}
			}
		}
		// chains just created have no ID yet, it follows from the output ID
		fresh := kind > 0 && maybe("fresh")
		var o iotago.Output
		switch kind {
		case 0:
			o = basic(owner, 1000, 0)
		case 1:
			x := account(7, 1000)
			chains[1] = x.AccountID
			if fresh {
				x.AccountID = iotago.AccountID{}
				chains[1] = iotago.AccountIDFromOutputID(id)
			}
			x.UnlockConditions = iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: owner}}
			o = x
		case 2:
			x := &iotago.NFTOutput{Amount: 1000, NFTID: iotago.NFTID(accID(8)), UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: owner}}}
			chains[2] = x.NFTID
			if fresh {
				x.NFTID = iotago.NFTID{}
				chains[2] = iotago.NFTIDFromOutputID(id)
			}
			o = x
		case 3:
			// the state controller acts
			x := &iotago.AnchorOutput{Amount: rich, AnchorID: iotago.AnchorID(accID(9)), UnlockConditions: iotago.AnchorOutputUnlockConditions{&iotago.StateControllerAddressUnlockCondition{Address: owner}, &iotago.GovernorAddressUnlockCondition{Address: ed(5)}}}
			next := x.Clone().(*iotago.AnchorOutput)
			chains[3] = x.AnchorID
			if fresh {
				x.AnchorID = iotago.AnchorID{}
				next.AnchorID = iotago.AnchorIDFromOutputID(id)
				chains[3] = next.AnchorID
			}
			next.StateIndex++
			e.out(next)
			o = x
		}
		e.inID(o, id)
		owners = append(owners, owner)
	}
	keys := []iotago.AddressKeys{iotago.NewAddressKeysForEd25519Address(a.addr, a.priv), iotago.NewAddressKeysForImplicitAccountCreationAddress(impl, a.priv)}
	if hasB {
		keys = append(keys, iotago.NewAddressKeysForEd25519Address(b.addr, b.priv))
	}
	tb := builder.NewTransactionBuilder(api, iotago.NewInMemoryAddressSigner(keys...)).SetCreationSlot(100)
	n := len(owners)
	for i, o := range e.inputs {
		tb.AddInput(&builder.TxInput{UnlockTarget: owners[i], InputID: e.ids[i], Input: o})
	}
	for _, o := range e.tx.Outputs {
		tb.AddOutput(o)
	}
	out := basic(a.addr, rich, 0)
	tb.AddOutput(out)
	sx, err := tb.Build()
	nd.Assert((err == nil) == want, "unlocks are found when the owners are there")
	if err != nil {
		nd.Cover("locked")
		return
	}
	nd.Cover("unlocked")
	_, err = e.unlocks(sx)
	nd.Assert(err == nil, "the unlocks unlock the inputs")
	nd.Assert(len(sx.Unlocks) == n && len(sx.Transaction.TransactionEssence.Inputs) == n, "one unlock per input")
	_, err = api.Encode(sx, serix.WithValidation())
	nd.Assert(err == nil, "the transaction is valid")
}

var _ = nd.Reg("H_build_mana", H_build_mana)

// H_build_mana: what the builder stores and allots is all that is left, it
// never invents mana nor takes it from an account.
func H_build_mana() {
	api := newAPI()
	k := newKey(1)
	m := func(name string) iotago.Mana { return iotago.Mana(nd.Range64(name, 1, 1<<60)) }
	const now = 20000
	tb := builder.NewTransactionBuilder(api, iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(k.addr, k.priv), iotago.NewAddressKeysForImplicitAccountCreationAddress(iotago.ImplicitAccountCreationAddressFromPubKey(k.pub()), k.priv))).SetCreationSlot(now)
	e := newTxEnv(api, now)
	add := func(o iotago.Output, owner iotago.Address, slot iotago.SlotIndex) iotago.OutputID {
		id := e.in(o, slot)
		tb.AddInput(&builder.TxInput{UnlockTarget: owner, InputID: id, Input: o})
		return id
	}
	id := iotago.AccountID(accID(7))
	inAcc, inFree, outAcc, outFree, outLocked, rewards, allot := m("inAccount"), m("inFree"), m("outAccount"), m("outFree"), m("outLocked"), m("rewards"), m("allotted")
	// inputs of the same slot, or older ones with mana generated and decayed
	slot := iotago.SlotIndex(now)
	if maybe("aged") {
		slot, inAcc, inFree = 20, 1<<41+5, 1<<40+3
	}
	ai := account(7, rich)
	ai.UnlockConditions = iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k.addr}}
	ai.Mana = inAcc
	ao := ai.Clone().(*iotago.AccountOutput)
	effective := func(o iotago.Output) uint64 {
		stored := must(api.ManaDecayProvider().DecayManaBySlots(o.StoredMana(), slot, now))
		return uint64(stored + must(iotago.PotentialMana(api.ManaDecayProvider(), api.StorageScoreStructure(), o, slot, now)))
	}
	haveAcc := uint64(0)
	switch nd.Choice("account", 3) {
	case 0:
		add(ai, k.addr, slot)
		haveAcc = effective(ai)
	case 1: // just created
		ai.AccountID = iotago.AccountID{}
		id = iotago.AccountIDFromOutputID(add(ai, k.addr, slot))
		haveAcc = effective(ai)
	case 2:
		impl := basic(iotago.ImplicitAccountCreationAddressFromPubKey(k.pub()), rich, inAcc)
		id = iotago.AccountIDFromOutputID(add(impl, impl.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address, slot))
		ao.FoundryCounter = 0
		haveAcc = effective(impl)
	}
	ao.AccountID = id
	ao.Mana = outAcc
	ao.Features = append(ao.Features, blockIssuer(80000))
	in := basic(k.addr, rich, inFree)
	del := delegation(rich, iotago.DelegationID(accID(4)), 0, 1)
	del.UnlockConditions = iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k.addr}}
	add(in, k.addr, slot)
	add(del, k.addr, slot)
	haveFree := effective(in) + effective(del)
	e.reward(2, iotago.DelegationID(accID(4)), rewards)
	e.tx.TransactionEssence.ContextInputs = nil
	e.unlock(k.addr, 0)
	e.unlock(iotago.ImplicitAccountCreationAddressFromPubKey(k.pub()), 0)
	e.commit(now)
	e.bic(id, 0)
	tb.AddRewardInput(&iotago.RewardInput{Index: 2}, rewards)
	tb.AddBlockIssuanceCreditInput(&iotago.BlockIssuanceCreditInput{AccountID: id})
	tb.AddCommitmentInput(&iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(now, iotago.Identifier{})})
	tb.AddOutput(ao)
	free := basic(k.addr, 2*rich, outFree)
	tb.AddOutput(free)
	hasLocked := maybe("lockedOutput")
	if !hasLocked {
		outLocked = 0
	}
	locked := basic(id.ToAddress(), rich, outLocked, &iotago.TimelockUnlockCondition{Slot: 1000000})
	if hasLocked {
		tb.AddOutput(locked)
		free.Amount -= rich
	}
	other := iotago.AccountID(accID(70))
	who := other
	if maybe("own") {
		who = id
	}
	tb.IncreaseAllotment(who, allot)
	// what is needed and what is left
	bound := uint64(outAcc) + uint64(outLocked)
	unbound := uint64(outFree)
	if who == id {
		bound += uint64(allot)
	} else {
		unbound += uint64(allot)
	}
	left := haveFree + uint64(rewards)
	boundLeft := uint64(0)
	// split the cases here
	covered := maybe("covered")
	nd.Assume(covered == (haveAcc >= bound))
	if covered {
		boundLeft = haveAcc - bound
	} else {
		unbound += bound - haveAcc
	}
	want := left >= unbound
	left -= unbound
	minimum := iotago.Mana(0)
	op := nd.Choice("operation", 5)
	switch op {
	case 0:
		minimum = m("minimum")
		tb.AllotAllMana(now, id, minimum)
		want = want && left+boundLeft >= uint64(minimum)
	case 1:
		minimum = m("minimum")
		tb.AllotAllMana(now, other, minimum)
		want = want && left >= uint64(minimum)
	default:
		tb.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(now, op-2)
		if op == 4 && !hasLocked {
			want = false
		}
	}
	enough := maybe("enough")
	nd.Assume(enough == want)
	sx, err := tb.Build()
	nd.Assert((err == nil) == want, "building succeeds when there is enough mana")
	if err != nil {
		nd.Cover("lacking")
		return
	}
	nd.Cover("built")
	allotted := func(who iotago.AccountID) (v iotago.Mana) {
		for _, a := range sx.Transaction.Allotments {
			if a.AccountID == who {
				v += a.Mana
			}
		}
		return v
	}
	wantAcc, wantFree, wantLocked, wantOwn, wantOther := outAcc, outFree, outLocked, iotago.Mana(0), iotago.Mana(0)
	if who == id {
		wantOwn = allot
	} else {
		wantOther = allot
	}
	l, bl := iotago.Mana(left), iotago.Mana(boundLeft)
	switch op {
	case 0:
		wantOwn += l + bl
	case 1:
		wantOwn += bl
		wantOther += l
	case 2:
		wantAcc += l + bl
	case 3:
		wantFree += l
		wantOwn += bl
	case 4:
		wantLocked += l + bl
	}
	nd.Assert(ao.Mana == wantAcc, "mana stored in the account")
	nd.Assert(free.Mana == wantFree, "mana stored in the output")
	nd.Assert(locked.Mana == wantLocked, "mana stored in the locked output")
	nd.Assert(allotted(id) == wantOwn, "mana allotted to the account")
	nd.Assert(allotted(other) == wantOther, "mana allotted to another account")
	e.tx = sx.Transaction
	nd.Assert(e.accepted(), "the virtual machine accepts the transaction")
}

var _ = nd.Reg("H_build_min", H_build_min)

// H_build_min: the block issuer is allotted what its block costs, the rest is
// stored in the chosen output.
func H_build_min() {
	api := newAPI()
	k := newKey(1)
	const now = 20000
	m := func(name string) iotago.Mana { return iotago.Mana(nd.Range64(name, 1, 1<<60)) }
	tb := builder.NewTransactionBuilder(api, iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(k.addr, k.priv))).SetCreationSlot(now)
	inAcc, inFree, out := m("inAccount"), m("inFree"), m("out")
	rmc := []iotago.Mana{0, 1, 1000}[nd.Choice("rmc", 3)]
	issuer := iotago.AccountID(accID(70))
	ai := account(7, rich)
	ai.UnlockConditions = iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k.addr}}
	ai.Mana = inAcc
	own := maybe("own")
	if own {
		issuer = ai.AccountID
	}
	hasAccount := maybe("account")
	if hasAccount {
		ao := ai.Clone().(*iotago.AccountOutput)
		ao.Mana = 0
		tb.AddInput(&builder.TxInput{UnlockTarget: k.addr, InputID: outID(1, now), Input: ai})
		tb.AddOutput(ao)
	} else {
		inAcc = 0
	}
	given := iotago.Mana(0)
	if maybe("given") {
		given = m("allotted")
		tb.IncreaseAllotment(issuer, given)
	}
	tb.AddInput(&builder.TxInput{UnlockTarget: k.addr, InputID: outID(2, now), Input: basic(k.addr, rich, inFree)})
	free := basic(k.addr, rich, out)
	tb.AddOutput(free)
	if maybe("tagged") {
		tb.AddTaggedDataPayload(&iotago.TaggedData{Tag: []byte{1, 2, 3}, Data: []byte{4, 5}})
	}
	index := 0
	if hasAccount {
		index = nd.Choice("index", 2)
	}
	tb.AllotMinRequiredManaAndStoreRemainingManaInOutput(now, rmc, issuer, index)
	var sx *iotago.SignedTransaction
	block, err := tb.BuildAndSwapToBlockBuilder(func(tx *iotago.SignedTransaction) { sx = tx }).Build()
	if err != nil {
		// 5M work units: more than any block of this shape
		nd.Assert(uint64(inFree) < uint64(out)+uint64(given)+uint64(rmc)*5_000_000, "building fails for lack of mana only")
		nd.Cover("lacking")
		return
	}
	nd.Cover("built")
	cost := must(block.ManaCost(rmc))
	nd.Observe("cost", uint64(cost))
	var allotted, other iotago.Mana
	for _, a := range sx.Transaction.Allotments {
		if a.AccountID == issuer {
			allotted += a.Mana
		} else {
			other += a.Mana
		}
	}
	nd.Assert(allotted >= cost, "the block issuer is allotted the cost of its block")
	storedAcc := iotago.Mana(0)
	if hasAccount {
		storedAcc = sx.Transaction.Outputs[0].StoredMana()
	}
	nd.Assert(uint64(allotted)+uint64(other)+uint64(storedAcc)+uint64(free.Mana) == uint64(inAcc)+uint64(inFree), "no mana gets lost")
	if !hasAccount || index == 0 {
		nd.Assert(allotted == given+cost && free.Mana >= out, "exactly the cost is allotted, the rest stored")
	}
	nd.Assert(free.Mana >= out && (own || allotted == given+cost) && (other == 0 || !own && index == 1 && other == inAcc), "what the outputs were given stays, nothing is allotted to others but what is bound to them")
}
