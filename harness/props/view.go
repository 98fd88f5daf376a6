package props

import (
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/vm"
	"verif/harness/nd"
)

var _ = nd.Reg("H_unlockable_by", H_unlockable_by)

// H_unlockable_by: what outputs say about who can unlock them in which range
// of slots is what timelock and expiration say, and what the VM says.
func H_unlockable_by() {
	owner, back := ed(1), ed(2)
	past, future := iotago.SlotIndex(nd.U32("past")), iotago.SlotIndex(nd.U32("future"))
	var timelock, expiration iotago.SlotIndex
	if maybe("hasTimelock") {
		timelock = iotago.SlotIndex(nd.U32("timelock"))
		nd.Assume(timelock > 0)
	}
	if maybe("hasExpiration") {
		expiration = iotago.SlotIndex(nd.U32("expiration"))
		nd.Assume(expiration > 0)
	}
	who := []iotago.Address{owner, back, ed(3)}[nd.Choice("who", 3)]
	var got bool
	switch kind := nd.Choice("kind", 6); kind {
	case 0, 1:
		var b iotago.BasicOutputUnlockConditions
		var n iotago.NFTOutputUnlockConditions
		b, n = append(b, &iotago.AddressUnlockCondition{Address: owner}), append(n, &iotago.AddressUnlockCondition{Address: owner})
		if timelock > 0 {
			c := &iotago.TimelockUnlockCondition{Slot: timelock}
			b, n = append(b, c), append(n, c)
		}
		if expiration > 0 {
			c := &iotago.ExpirationUnlockCondition{Slot: expiration, ReturnAddress: back}
			b, n = append(b, c), append(n, c)
		}
		if kind == 0 {
			got = (&iotago.BasicOutput{Amount: 1, UnlockConditions: b}).UnlockableBy(who, past, future)
		} else {
			got = (&iotago.NFTOutput{Amount: 1, UnlockConditions: n}).UnlockableBy(who, past, future)
		}
	default:
		nd.Assume(timelock == 0 && expiration == 0)
		switch kind {
		case 2:
			got = account(7, 1).UnlockableBy(who, past, future)
		case 3:
			f := foundry(7, 1, 1, &iotago.SimpleTokenScheme{})
			acc := iotago.AccountAddress(accID(7))
			nd.Assert(f.UnlockableBy(&acc, past, future), "the account of a foundry can unlock it")
			got = f.UnlockableBy(who, past, future)
			nd.Assert(!got, "nobody but its account can unlock a foundry")
			return
		case 4:
			got = (&iotago.DelegationOutput{Amount: 1, UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: owner}}}).UnlockableBy(who, past, future)
		case 5:
			state, next := nd.U32("state"), nd.U32("next")
			anchor := func(s uint32) *iotago.AnchorOutput {
				return &iotago.AnchorOutput{Amount: 1, StateIndex: s, UnlockConditions: iotago.AnchorOutputUnlockConditions{
					&iotago.StateControllerAddressUnlockCondition{Address: owner}, &iotago.GovernorAddressUnlockCondition{Address: back}}}
			}
			var ok bool
			var err error
			switch nd.Choice("destroy", 2) {
			case 1:
				ok, err = anchor(state).UnlockableBy(who, nil, past, future)
				nd.Assert(err == nil && ok == (who == iotago.Address(back)), "the governor can destroy an anchor")
			case 0:
				ok, err = anchor(state).UnlockableBy(who, anchor(next), past, future)
				switch {
				case next == state:
					nd.Assert(err == nil && ok == (who == iotago.Address(back)), "the governor can unlock an anchor that keeps its state")
				case next == state+1:
					nd.Assert(err == nil && ok == (who == iotago.Address(owner)), "the state controller can unlock an anchor for the next state")
				default:
					nd.Assert(err != nil && !ok, "anchors do not skip states")
				}
			}
			nd.Cover("anchor")
			return
		}
	}
	want := false
	switch {
	case timelock > future:
	case expiration > 0 && future >= expiration:
		want = who == iotago.Address(back)
	case expiration == 0 || past < expiration:
		want = who == iotago.Address(owner)
	}
	if got {
		nd.Cover("can unlock")
	} else {
		nd.Cover("can not unlock")
	}
	nd.Assert(got == want, "who can unlock an output follows from its timelock and expiration")
}

var _ = nd.Reg("H_view_block", H_view_block)

// H_view_block: the parents of a block, in order and by kind.
func H_view_block() {
	lists := [3]iotago.BlockIDs{}
	for i := range lists {
		for n := nd.Choice("parents", 3); n > 0; n-- {
			lists[i] = append(lists[i], iotago.NewBlockID(iotago.SlotIndex(nd.U32("slot")), anyID("parent")))
		}
	}
	b := &iotago.Block{Body: &iotago.BasicBlockBody{StrongParents: lists[0], WeakParents: lists[1], ShallowLikeParents: lists[2]}}
	if maybe("validation") {
		b.Body = &iotago.ValidationBlockBody{StrongParents: lists[0], WeakParents: lists[1], ShallowLikeParents: lists[2]}
	}
	all, typed := b.Parents(), b.ParentsWithType()
	var each []iotago.Parent
	b.ForEachParent(func(p iotago.Parent) { each = append(each, p) })
	total := len(lists[0]) + len(lists[1]) + len(lists[2])
	nd.Assert(len(all) == total && len(typed) == total && len(each) == total, "a block has as many parents as its lists together")
	i := 0
	for k, t := range []iotago.ParentsType{iotago.StrongParentType, iotago.WeakParentType, iotago.ShallowLikeParentType} {
		for _, id := range lists[k] {
			nd.Assert(all[i] == id && typed[i].ID == id && each[i].ID == id, "the parents of a block are those of its lists, in order")
			nd.Assert(typed[i].Type == t && each[i].Type == t, "parents have the type of their list")
			i++
		}
	}
	if len(all) > 0 {
		all[0][0] ^= 1
		for k := range lists {
			if len(lists[k]) > 0 {
				nd.Assert(lists[k][0] != all[0], "the list of parents is the caller's own")
				break
			}
		}
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_view_tx", H_view_tx)

// H_view_tx: the parts of a transaction, by kind and in order.
func H_view_tx() {
	e := newTxEnv(newAPI(), 5)
	ess := e.tx.TransactionEssence
	for i := nd.Choice("inputs", 3); i > 0; i-- {
		ess.Inputs = append(ess.Inputs, &iotago.UTXOInput{TransactionID: iotago.NewTransactionID(iotago.SlotIndex(nd.U32("inputSlot")), anyID("inputTx")), TransactionOutputIndex: nd.U16("inputIndex")})
	}
	var commitments []*iotago.CommitmentInput
	var credits []*iotago.BlockIssuanceCreditInput
	var rewards []*iotago.RewardInput
	for i := nd.Choice("contextInputs", 4); i > 0; i-- {
		switch nd.Choice("contextInput", 3) {
		case 0:
			c := &iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("commitmentSlot")), anyID("commitment"))}
			commitments, ess.ContextInputs = append(commitments, c), append(ess.ContextInputs, c)
		case 1:
			c := &iotago.BlockIssuanceCreditInput{AccountID: anyID("credits")}
			credits, ess.ContextInputs = append(credits, c), append(ess.ContextInputs, c)
		case 2:
			c := &iotago.RewardInput{Index: nd.U16("reward")}
			rewards, ess.ContextInputs = append(rewards, c), append(ess.ContextInputs, c)
		}
	}
	in := e.tx.Inputs()
	nd.Assert(len(in) == len(ess.Inputs), "a transaction lists its inputs")
	for i := range in {
		nd.Assert(in[i].OutputID() == ess.Inputs[i].(*iotago.UTXOInput).OutputID(), "a transaction lists its inputs in order")
		o := in[i].OutputID()
		nd.Assert(o.TransactionID() == in[i].TransactionID && o.Index() == in[i].TransactionOutputIndex, "an input names the output of its transaction at its index")
		nd.Assert(in[i].CreationSlot() == in[i].TransactionID.Slot(), "an input was created in the slot of its transaction")
		nd.Assert(in[i].Equals(in[i].Clone().(*iotago.UTXOInput)), "an input equals its copy")
		if i > 0 {
			nd.Assert(in[i].Equals(in[0]) == (in[i].OutputID() == in[0].OutputID()), "inputs are equal if they name the same output")
		}
	}
	ctx := e.tx.ContextInputs()
	nd.Assert(len(ctx) == len(ess.ContextInputs), "a transaction lists its context inputs")
	for i := range ctx {
		nd.Assert(ctx[i] == ess.ContextInputs[i], "a transaction lists its context inputs in order")
	}
	bics, rs := e.tx.BICInputs(), e.tx.RewardInputs()
	nd.Assert(len(bics) == len(credits) && len(rs) == len(rewards), "a transaction lists its credit and reward inputs")
	for i := range bics {
		nd.Assert(bics[i] == credits[i], "a transaction lists its credit inputs in order")
	}
	for i := range rs {
		nd.Assert(rs[i] == rewards[i], "a transaction lists its reward inputs in order")
	}
	if len(commitments) > 0 {
		nd.Assert(e.tx.CommitmentInput() == commitments[0], "a transaction gives its first commitment input")
		nd.Cover("commitment")
	} else {
		nd.Assert(e.tx.CommitmentInput() == nil, "there is no commitment input where there is none")
		nd.Cover("no commitment")
	}
}

var _ = nd.Reg("H_view_outputs", H_view_outputs)

// H_view_outputs: the outputs of a transaction as a set, filtered, and as
// chains.
func H_view_outputs() {
	e := newTxEnv(newAPI(), 5)
	n := 1 + nd.Choice("outputs", 3)
	for i := 0; i < n; i++ {
		switch nd.Choice("kind", 3) {
		case 0:
			e.out(basic(ed(1), iotago.BaseToken(nd.U64("amount")), iotago.Mana(nd.U64("mana"))))
		case 1:
			a := account(byte(7+i), iotago.BaseToken(nd.U64("amount")))
			if maybe("new") {
				a.AccountID = iotago.EmptyAccountID
			}
			e.out(a)
		case 2:
			o := &iotago.NFTOutput{Amount: iotago.BaseToken(nd.U64("amount")), NFTID: iotago.NFTID(accID(byte(20 + i))),
				UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}}}
			if maybe("new") {
				o.NFTID = iotago.EmptyNFTID()
			}
			e.out(o)
		}
	}
	id := must(e.tx.ID())
	nd.Assert(id == e.tx.MustID(), "a transaction has one ID")
	set := must(e.tx.OutputsSet())
	nd.Assert(len(set) == n, "every output has its ID")
	for i, o := range e.tx.Outputs {
		nd.Assert(set[iotago.OutputIDFromTransactionIDAndIndex(id, uint16(i))] == iotago.Output(o), "the outputs of a transaction are found by their IDs")
	}
	limit := iotago.BaseToken(nd.U64("limit"))
	rich := func(o iotago.Output) bool { return o.BaseTokenAmount() >= limit }
	f := e.tx.Outputs.Filter(rich)
	some := set.Filter(func(_ iotago.OutputID, o iotago.Output) bool { return rich(o) })
	basics := e.tx.Outputs.Filter(iotago.OutputsFilterByType(iotago.OutputBasic))
	k, kb := 0, 0
	for i, o := range e.tx.Outputs {
		if rich(o) {
			nd.Assert(k < len(f) && f[k] == o, "filtered outputs keep their order")
			k++
			nd.Assert(some[iotago.OutputIDFromTransactionIDAndIndex(id, uint16(i))] == iotago.Output(o), "filtered outputs keep their IDs")
		}
		if o.Type() == iotago.OutputBasic {
			nd.Assert(kb < len(basics) && basics[kb] == o, "outputs are filtered by type")
			kb++
		}
	}
	nd.Assert(len(f) == k && len(some) == k && len(basics) == kb, "outputs that do not pass the filter are left out")
	clone := set.Clone()
	nd.Assert(len(clone) == n, "a copied set is complete")
	delete(clone, iotago.OutputIDFromTransactionIDAndIndex(id, 0))
	nd.Assert(len(set) == n, "a copied set is independent")

	chains := e.tx.Outputs.ChainOutputSet(id)
	inputs := vm.InputSet{}
	for oid, o := range set {
		inputs[oid] = o
	}
	nd.Assert(len(inputs.OutputSet()) == n, "an input set is a set of outputs")
	from := inputs.ChainInputSet()
	want := 0
	for i, o := range e.tx.Outputs {
		oid := iotago.OutputIDFromTransactionIDAndIndex(id, uint16(i))
		nd.Assert(inputs.OutputSet()[oid] == iotago.Output(o), "an input set has the outputs it was made of")
		c, is := o.(iotago.ChainOutput)
		if !is {
			continue
		}
		want++
		chain := c.ChainID()
		if chain.Empty() {
			switch chain.(type) {
			case iotago.AccountID:
				chain = iotago.AccountIDFromOutputID(oid)
			case iotago.NFTID:
				chain = iotago.NFTIDFromOutputID(oid)
			}
			nd.Cover("new chain")
		}
		nd.Assert(chains[chain] == c, "a chain is found by its ID among the outputs")
		x := from[chain]
		nd.Assert(x != nil && x.ChainID == chain && x.OutputID == oid && x.Output == c, "a chain is found by its ID among the inputs")
	}
	nd.Assert(len(chains) == want && len(from) == want, "only chains are chains")
	nd.Cover("done")
}

var _ = nd.Reg("H_view_builder_clone", H_view_builder_clone)

// H_view_builder_clone: what is added to a transaction builder after it was
// copied does not reach the copy.
func H_view_builder_clone() {
	api := newAPI()
	k := newKey(1)
	signer := iotago.NewInMemoryAddressSigner(iotago.AddressKeys{Address: k.addr, Keys: k.priv})
	amount := iotago.BaseToken(nd.Range64("amount", 1_000_000, 1<<40))
	in := func(b byte) *builder.TxInput {
		return &builder.TxInput{UnlockTarget: k.addr, InputID: outID(b, 1), Input: basic(k.addr, amount, 0)}
	}
	b := builder.NewTransactionBuilder(api, signer).AddInput(in(1)).AddOutput(basic(ed(2), amount, 0)).
		IncreaseAllotment(accID(5), 3).AddCommitmentInput(&iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(3, iotago.Identifier{})}).
		SetCreationSlot(4).WithTransactionCapabilities(iotago.TransactionCapabilitiesBitMask{1})
	c := b.Clone()
	switch nd.Choice("change", 6) {
	case 0:
		b.AddInput(in(2))
	case 1:
		b.AddOutput(basic(ed(3), amount, 0))
	case 2:
		b.IncreaseAllotment(accID(5), 1)
	case 3:
		b.IncreaseAllotment(accID(6), 1)
	case 4:
		b.AddBlockIssuanceCreditInput(&iotago.BlockIssuanceCreditInput{AccountID: accID(5)})
	case 5:
		b.AddTaggedDataPayload(&iotago.TaggedData{Tag: []byte("x")})
	}
	b.SetCreationSlot(9)
	nd.Assert(c.CreationSlot() == 4, "the copy keeps its creation slot")
	tx, err := c.Build()
	nd.Assert(err == nil, "the copy builds")
	t := tx.Transaction
	nd.Assert(t.CreationSlot == 4 && len(t.TransactionEssence.Inputs) == 1 && len(t.Outputs) == 1 && len(t.TransactionEssence.ContextInputs) == 1 && t.Payload == nil, "the copy has what the builder had")
	nd.Assert(len(t.Allotments) == 1 && t.Allotments[0].AccountID == accID(5) && t.Allotments[0].Mana == 3, "the copy has the allotments the builder had")
	nd.Assert(len(t.Capabilities) == 1 && t.Capabilities[0] == 1, "the copy has the capabilities the builder had")
	nd.Assert(t.Outputs[0].BaseTokenAmount() == amount, "the copy has the output the builder had")
	nd.Cover("done")
}

var _ = nd.Reg("H_view_features", H_view_features)

// H_view_features: the features and unlock conditions of outputs by type.
func H_view_features() {
	var fs iotago.BasicOutputFeatures
	s, m, t := maybe("sender"), maybe("metadata"), maybe("tag")
	if s {
		fs = append(fs, &iotago.SenderFeature{Address: ed(9)})
	}
	if m {
		fs = append(fs, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": {nd.U8("value")}}})
	}
	if t {
		fs = append(fs, &iotago.TagFeature{Tag: nd.Bytes("tag", 2)})
	}
	set := must(fs.Set())
	nd.Assert((set.SenderFeature() != nil) == s && (set.Metadata() != nil) == m && (set.Tag() != nil) == t, "features are found exactly if they are there")
	nd.Assert(set.Issuer() == nil && set.NativeToken() == nil && !set.HasNativeTokenFeature() && set.BlockIssuer() == nil && set.Staking() == nil && set.StateMetadata() == nil, "features that are not there are not found")
	if t {
		nd.Assert(set.Tag() == fs[len(fs)-1].(*iotago.TagFeature), "a feature is found as it is")
	}
	clone := set.Clone()
	nd.Assert(len(clone) == len(set), "a copied set is complete")
	if _, err := append(fs, fs...).Set(); len(fs) > 0 {
		nd.Assert(err != nil, "two features of a type are no set")
		nd.Cover("duplicate")
	}
	other := must(iotago.BasicOutputFeatures{&iotago.TagFeature{Tag: []byte{1, 2}}}.Set())
	calls := 0
	all, err := set.EveryTuple(other, func(a, b iotago.Feature) error {
		calls++
		nd.Assert(a.Type() == b.Type() && a == set[a.Type()] && b == other[b.Type()], "features are paired by type")
		return nil
	})
	nd.Assert(err == nil && all == (!s && !m) && (calls == 1) == t && calls <= 1, "all features are paired that both sets have")

	var us iotago.BasicOutputUnlockConditions
	us = append(us, &iotago.AddressUnlockCondition{Address: ed(1)})
	d, l, x := maybe("return"), maybe("timelock"), maybe("expiration")
	if d {
		us = append(us, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ed(2), Amount: iotago.BaseToken(nd.U64("amount"))})
	}
	slot := iotago.SlotIndex(nd.U32("slot"))
	if l {
		us = append(us, &iotago.TimelockUnlockCondition{Slot: slot})
	}
	if x {
		us = append(us, &iotago.ExpirationUnlockCondition{ReturnAddress: ed(3), Slot: slot})
	}
	us0 := len(us)
	conds := us.MustSet()
	nd.Assert(conds.Address() == us[0] && conds.GovernorAddress() == nil && conds.StateControllerAddress() == nil && conds.ImmutableAccount() == nil, "the address condition is found")
	nd.Assert((conds.StorageDepositReturn() != nil) == d && conds.HasStorageDepositReturnCondition() == d, "deposit returns are found exactly if they are there")
	nd.Assert((conds.Timelock() != nil) == l && conds.HasTimelockCondition() == l, "timelocks are found exactly if they are there")
	nd.Assert((conds.Expiration() != nil) == x && conds.HasExpirationCondition() == x, "expirations are found exactly if they are there")
	at := iotago.SlotIndex(nd.U32("at"))
	nd.Assert(conds.HasTimelockUntil(at) == (l && at < slot), "an output is locked in the slots before its timelock")
	if us.Remove(iotago.UnlockConditionTimelock) {
		nd.Assert(l && len(us) == us0-1, "removing takes one condition")
	} else {
		nd.Assert(!l && len(us) == us0, "nothing is removed where there is nothing to remove")
	}
	nd.Assert(us.MustSet().Timelock() == nil, "a removed condition is not found")
	nd.Assert((us.MustSet().Expiration() != nil) == x && us.MustSet().Address() != nil && (us.MustSet().StorageDepositReturn() != nil) == d, "removing a condition leaves the others")
	nd.Cover("done")
}

var _ = nd.Reg("H_target_reward", H_target_reward)

// H_target_reward: the target of the rewards of an epoch: decaying from the
// initial rate while bootstrapping, the final rate afterwards.
func H_target_reward() {
	api := newAPI()
	r := *api.ProtocolParameters().RewardsParameters()
	r.BootstrappingDuration = iotago.EpochIndex(nd.Range64("bootstrapping", 0, 1<<20))
	n := iotago.EpochIndex(nd.Choice("early", 5))
	epoch := n
	if n == 4 {
		epoch = iotago.EpochIndex(nd.Range64("epoch", 4, 1<<20))
		nd.Assume(epoch > r.BootstrappingDuration)
	}
	got, err := r.TargetReward(epoch, api)
	if epoch > r.BootstrappingDuration {
		nd.Assert(err == nil && got == r.FinalTargetRewardsRate, "after bootstrapping rewards have their final rate")
		nd.Cover("final")
		return
	}
	want := must(api.ManaDecayProvider().DecayManaByEpochs(r.InitialTargetRewardsRate, 0, n))
	nd.Assert(n > 0 || want == r.InitialTargetRewardsRate, "rewards start with their initial rate")
	nd.Assert(err == nil && got == want, "while bootstrapping rewards decay from their initial rate")
	nd.Cover("bootstrapping")
}

var _ = nd.Reg("H_api_views", H_api_views)

// H_api_views: APIs are equal if their parameters are, and the provider of a
// single version always answers with it.
func H_api_views() {
	rate := iotago.WorkScore(nd.Range64("increaseThreshold", 250_000_001, 500_000_000))
	mk := func(v iotago.WorkScore) iotago.API {
		p := smallParams()
		return iotago.V3API(iotago.NewV3SnapshotProtocolParameters(
			iotago.WithTimeProviderOptions(0, 1690879505, 10, 13), iotago.WithLivenessOptions(10, 15, 2, 4, 60), iotago.WithStakingOptions(2, 10, 10),
			iotago.WithCongestionControlOptions(1, 1, 1, v, 250_000_000, 50_000_000, 1000, 100), iotago.WithVersion(p.Version())))
	}
	a, b := mk(400_000_000), mk(rate)
	eq, ok := a.(interface{ Equals(iotago.API) bool })
	nd.Assert(ok && eq.Equals(b) == (rate == 400_000_000), "APIs are equal exactly if their parameters are")
	p := iotago.SingleVersionProvider(a)
	slot := iotago.SlotIndex(nd.U32("slot"))
	got, err := p.APIForVersion(iotago.Version(nd.U8("version")))
	nd.Assert(err == nil && got == a, "the provider of a single version answers with it")
	nd.Assert(p.APIForSlot(slot) == a && p.APIForEpoch(iotago.EpochIndex(slot)) == a && p.APIForTime(time.Unix(int64(slot), 0)) == a && p.CommittedAPI() == a && p.LatestAPI() == a, "the provider of a single version always answers with it")
	nd.Cover("done")
}
