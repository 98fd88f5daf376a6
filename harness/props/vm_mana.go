package props

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"verif/harness/nd"
)

// delegation is a delegation output owned by ed(1) with the given id.
func delegation(amount iotago.BaseToken, id iotago.DelegationID, start, end iotago.EpochIndex) *iotago.DelegationOutput {
	v := iotago.AccountAddress(accID(5))
	return &iotago.DelegationOutput{
		Amount:           amount,
		DelegatedAmount:  amount,
		DelegationID:     id,
		ValidatorAddress: &v,
		StartEpoch:       start,
		EndEpoch:         end,
		UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}},
	}
}

var _ = nd.Reg("H_vm_mana_balance", H_vm_mana_balance)

// H_vm_mana_balance: stored mana, claimed rewards and allotments balance; mana
// disappears only with permission.
func H_vm_mana_balance() {
	e := newTxEnv(newAPI(), 100)
	maxMana := uint64(1)<<e.api.ProtocolParameters().ManaParameters().BitsCount - 1
	var in, stored, allotted, all sum128
	nIn := 1 + nd.Choice("inputs", 2)
	for i := 0; i < nIn; i++ {
		m := nd.Range64("in", 0, maxMana)
		in.add(m)
		e.in(basic(ed(1), 10_000_000, iotago.Mana(m)), 100)
	}
	amount := iotago.BaseToken(nIn) * 10_000_000
	if nd.Choice("reward", 2) == 1 {
		var id iotago.DelegationID
		id[0] = 3
		e.in(delegation(10_000_000, id, 2, 4), 100)
		amount += 10_000_000
		e.commit(90)
		r := nd.U64("reward")
		in.add(r)
		e.reward(nIn, id, iotago.Mana(r))
		nd.Cover("reward")
	}
	e.unlock(ed(1), 0)
	for i, n := 0, 1+nd.Choice("outputs", 2); i < n; i++ {
		m := nd.U64("out")
		stored.add(m)
		all.add(m)
		b := iotago.BaseToken(5_000_000)
		if i == n-1 {
			b = amount
		}
		amount -= b
		e.out(basic(ed(2), b, iotago.Mana(m)))
	}
	for i, n := 0, nd.Choice("allotments", 3); i < n; i++ {
		m := nd.U64("allotment")
		allotted.add(m)
		all.add(m)
		e.tx.Allotments = append(e.tx.Allotments, &iotago.Allotment{AccountID: accID(byte(i + 1)), Mana: iotago.Mana(m)})
		nd.Cover("allotment")
	}
	burn := nd.Choice("burn", 2) == 1
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnMana(burn))
	cap63 := sum128{0, maxMana}
	want := !cap63.less(stored) && !cap63.less(allotted) && in.hi == 0 && all.hi == 0
	if burn {
		want = want && !in.less(all)
	} else {
		want = want && in.eq(all)
	}
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == want, "mana in equals mana out, or some is burned with permission")
}

var _ = nd.Reg("H_vm_mana_sums", H_vm_mana_sums)

// H_vm_mana_sums: the mana of inputs, rewards, outputs and allotments is their sum, or an error.
func H_vm_mana_sums() {
	api := newAPI()
	var total sum128
	part := func(name string) iotago.Mana {
		v := nd.U64(name)
		total.add(v)
		return iotago.Mana(v)
	}
	var sum iotago.Mana
	var err error
	if maybe("inputs") {
		set, rewards := vm.InputSet{}, vm.RewardsInputSet{}
		for i := nd.Choice("inputs", 3); i > 0; i-- {
			set[outID(byte(i), 5)] = &iotago.BasicOutput{Amount: 1, Mana: part("stored"), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}}}
		}
		for i := nd.Choice("rewards", 3+nd.Tier()); i > 0; i-- {
			rewards[accID(byte(i))] = part("reward")
		}
		sum, err = vm.TotalManaIn(api.ManaDecayProvider(), api.StorageScoreStructure(), 5, set, rewards)
	} else {
		var outs iotago.Outputs[iotago.TxEssenceOutput]
		var allot iotago.Allotments
		for i := nd.Choice("outputs", 3); i > 0; i-- {
			outs = append(outs, &iotago.BasicOutput{Amount: 1, Mana: part("stored"), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}}})
		}
		for i := nd.Choice("allotments", 3+nd.Tier()); i > 0; i-- {
			allot = append(allot, &iotago.Allotment{AccountID: accID(byte(i)), Mana: part("allotted")})
		}
		sum, err = vm.TotalManaOut(outs, allot)
	}
	if total.hi != 0 {
		nd.Assert(err != nil, "sums that do not fit are errors")
		nd.Cover("overflow")
		return
	}
	nd.Assert(err == nil && uint64(sum) == total.lo, "the mana is the sum of its parts")
	nd.Cover("sum")
}

var _ = nd.Reg("H_vm_mana_full_range", H_vm_mana_full_range)

// H_vm_mana_full_range: with protocol parameters which give mana the full 64
// bits, stored and allotted mana together still cannot wrap around.
func H_vm_mana_full_range() {
	api := iotago.V3API(iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(0, 1690879505, 10, 13),
		iotago.WithSupplyOptions(1813620509061365, 64, 1, 17, 32, 21, 70),
	))
	e := newTxEnv(api, 100)
	m := nd.U64("in")
	e.in(basic(ed(1), 10_000_000, iotago.Mana(m)), 100)
	e.unlock(ed(1), 0)
	var stored, allotted, all sum128
	for i, n := 0, 1+nd.Choice("outputs", 2); i < n; i++ {
		o := nd.U64("out")
		stored.add(o)
		all.add(o)
		b := iotago.BaseToken(5_000_000)
		if n == 1 {
			b = 10_000_000
		}
		e.out(basic(ed(2), b, iotago.Mana(o)))
	}
	for i, n := 0, 1+nd.Choice("allotments", 2); i < n; i++ {
		a := nd.U64("allotment")
		allotted.add(a)
		all.add(a)
		e.tx.Allotments = append(e.tx.Allotments, &iotago.Allotment{AccountID: accID(byte(i + 1)), Mana: iotago.Mana(a)})
	}
	burn := nd.Choice("burn", 2) == 1
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnMana(burn))
	want := all.hi == 0 && (all.lo == m || burn && all.lo <= m)
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	if all.hi != 0 && stored.hi == 0 && allotted.hi == 0 {
		nd.Cover("wrapped")
	}
	nd.Assert(ok == want, "mana in equals mana out over the full 64 bits")
}

var _ = nd.Reg("H_vm_mana_decayed", H_vm_mana_decayed)

// H_vm_mana_decayed: what an input contributes is its decayed stored mana plus
// what its amount above the storage deposit generated since its creation.
func H_vm_mana_decayed() {
	api := newAPI()
	tp := api.TimeProvider()
	created := []iotago.SlotIndex{100, 8191, 8192, 20000}
	slots := []iotago.SlotIndex{100, 8191, 8193, 40001}
	txSlot := slots[nd.Choice("slot", 4)]
	e := newTxEnv(api, txSlot)
	var total sum128
	past := true
	kind := nd.Choice("kind", 3)
	n := 1
	if kind == 0 {
		n = 2
	}
	amount := iotago.BaseToken(0)
	for i := 0; i < n; i++ {
		c := created[nd.Choice("created", 4)]
		m := nd.Range64("stored", 0, 1<<62)
		var o iotago.Output
		b := iotago.BaseToken(1_000_000_000_000)
		switch kind {
		case 0:
			if i == 1 {
				b = 10_000 // less than its deposit: generates nothing
			}
			o = basic(ed(1), b, iotago.Mana(m))
		case 1:
			a := account(7, b)
			a.Mana = iotago.Mana(m)
			o = a
		case 2:
			o = &iotago.NFTOutput{
				Amount: b, Mana: iotago.Mana(m), NFTID: iotago.NFTID(accID(8)),
				UnlockConditions:  iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}},
				Features:          iotago.NFTOutputFeatures{},
				ImmutableFeatures: iotago.NFTOutputImmFeatures{},
			}
		}
		amount += b
		e.in(o, c)
		if c > txSlot {
			past = false
			continue
		}
		dec := must(api.ManaDecayProvider().DecayManaBySlots(iotago.Mana(m), c, txSlot))
		total.add(uint64(dec))
		if dep := must(api.StorageScoreStructure().MinDeposit(o)); b > dep {
			total.add(uint64(must(api.ManaDecayProvider().GenerateManaAndDecayBySlots(b-dep, c, txSlot))))
		}
		if tp.EpochFromSlot(c) != tp.EpochFromSlot(txSlot) {
			nd.Cover("decay")
		}
	}
	e.unlock(ed(1), 0)
	out := nd.U64("out")
	switch o := e.inputs[0].(type) {
	case *iotago.BasicOutput:
		e.out(basic(ed(2), amount, iotago.Mana(out)))
	case *iotago.AccountOutput:
		p := o.Clone().(*iotago.AccountOutput)
		p.Mana = iotago.Mana(out)
		e.out(p)
	case *iotago.NFTOutput:
		p := o.Clone().(*iotago.NFTOutput)
		p.Mana = iotago.Mana(out)
		e.out(p)
	}
	burn := nd.Choice("burn", 2) == 1
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnMana(burn))
	o := sum128{0, out}
	want := past && out < 1<<63
	if burn {
		want = want && !total.less(o)
	} else {
		want = want && total.eq(o)
	}
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == want, "inputs contribute their decayed and generated mana")
}

var _ = nd.Reg("H_vm_timelock", H_vm_timelock)

// H_vm_timelock: a timelocked output is spent exactly when the transaction
// proves that the lock has passed.
func H_vm_timelock() {
	e := newTxEnv(newAPI(), 1<<31)
	lock := iotago.SlotIndex(nd.U32("timelock"))
	nd.Assume(lock > 0)
	tl := &iotago.TimelockUnlockCondition{Slot: lock}
	nft := nd.Choice("kind", 2) == 1
	if nft {
		o := &iotago.NFTOutput{
			Amount: 10_000_000, NFTID: iotago.NFTID(accID(8)),
			UnlockConditions:  iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}, tl},
			Features:          iotago.NFTOutputFeatures{},
			ImmutableFeatures: iotago.NFTOutputImmFeatures{},
		}
		e.in(o, 1<<31)
		p := o.Clone().(*iotago.NFTOutput)
		p.UnlockConditions = p.UnlockConditions[:1]
		e.out(p)
	} else {
		e.in(basic(ed(1), 10_000_000, 0, tl), 1<<31)
		e.out(basic(ed(1), 10_000_000, 0))
	}
	e.unlock(ed(1), 0)
	has := nd.Choice("commitment", 2) == 1
	c := iotago.SlotIndex(nd.U32("slot"))
	nd.Assume(c < 1<<31)
	if has {
		e.commit(c)
	}
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == (has && c+e.api.ProtocolParameters().MinCommittableAge() >= lock), "spent exactly after the timelock")
}

var _ = nd.Reg("H_vm_expiration", H_vm_expiration)

// H_vm_expiration: before an output's expiration only its owner, after it only
// the return address can spend it, and in the window in which the transaction
// cannot prove either, nobody.
func H_vm_expiration() {
	api := newAPI()
	k := []key{newKey(1), newKey(2), newKey(3)}
	e := newTxEnv(api, 1<<31)
	exp := iotago.SlotIndex(nd.U32("expiration"))
	nd.Assume(exp > 0)
	ex := &iotago.ExpirationUnlockCondition{ReturnAddress: k[1].addr, Slot: exp}
	if nd.Choice("restricted", 2) == 1 {
		ex.ReturnAddress = &iotago.RestrictedAddress{Address: k[1].addr, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{0xff}}
	}
	if nd.Choice("kind", 2) == 1 {
		e.in(&iotago.NFTOutput{
			Amount: 10_000_000, NFTID: iotago.NFTID(accID(8)),
			UnlockConditions:  iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k[0].addr}, ex},
			Features:          iotago.NFTOutputFeatures{},
			ImmutableFeatures: iotago.NFTOutputImmFeatures{},
		}, 1<<31)
	} else {
		e.in(basic(k[0].addr, 10_000_000, 0, ex), 1<<31)
	}
	e.out(basic(ed(1), 10_000_000, 0))
	has := nd.Choice("commitment", 2) == 1
	c := iotago.SlotIndex(nd.U32("slot"))
	nd.Assume(c < 1<<31)
	if has {
		e.commit(c)
	}
	who := nd.Choice("who", 3)
	sx := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: k[who].sign(must(e.tx.SigningMessage()))}}}
	_, err := e.unlocks(sx)
	pp := api.ProtocolParameters()
	want := false
	if has {
		switch {
		case c+pp.MinCommittableAge() >= exp:
			nd.Cover("expired")
			want = who == 1
		case c+pp.MaxCommittableAge() < exp:
			nd.Cover("not expired")
			want = who == 0
		default:
			nd.Cover("neither")
		}
	}
	if err == nil {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert((err == nil) == want, "owner before, return address after the expiration")
}

var _ = nd.Reg("H_vm_conditions", H_vm_conditions)

// H_vm_conditions: two outputs that carry a deposit return, a timelock and an
// expiration in any combination are spent together exactly when each of them
// may be spent by the one who signs.
func H_vm_conditions() {
	api := newAPI()
	pp := api.ProtocolParameters()
	k := []key{newKey(1), newKey(2), newKey(3)}
	e := newTxEnv(api, 1<<31)
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{2}
	c := iotago.SlotIndex(nd.U32("commitment"))
	nd.Assume(c < 1<<31)
	has := nd.Choice("hasCommitment", 2) == 1
	if has {
		e.commit(c)
	}
	who := nd.Choice("who", 2)
	want := true
	var owed iotago.BaseToken
	for i := range 2 {
		mask := nd.Choice("conditions", 8)
		if i == 1 && nd.Tier() == 0 {
			nd.Assume(mask == 0 || mask == 2 || mask == 6)
		}
		var ucs []iotago.BasicOutputUnlockCondition
		if mask&1 != 0 {
			ucs = append(ucs, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: k[1].addr, Amount: 1_000_000})
		}
		if mask&2 != 0 {
			l := iotago.SlotIndex(nd.U32("timelock"))
			nd.Assume(l > 0)
			ucs = append(ucs, &iotago.TimelockUnlockCondition{Slot: l})
			want = want && has && c+pp.MinCommittableAge() >= l
		}
		switch {
		case mask&4 != 0:
			x := iotago.SlotIndex(nd.U32("expiration"))
			nd.Assume(x > 0)
			ucs = append(ucs, &iotago.ExpirationUnlockCondition{ReturnAddress: k[1].addr, Slot: x})
			expired := c+pp.MinCommittableAge() >= x
			want = want && has && (who == 1 && expired || who == 0 && c+pp.MaxCommittableAge() < x)
			if mask&1 != 0 && !expired {
				owed += 1_000_000
			}
		default:
			want = want && who == 0
			if mask&1 != 0 {
				owed += 1_000_000
			}
		}
		e.in(basic(k[0].addr, 10_000_000, 0, ucs...), 1<<31)
	}
	paid := iotago.BaseToken(nd.Choice("paid", 3)) * 1_000_000
	if paid > 0 {
		e.out(basic(k[1].addr, paid, 0))
	}
	e.out(basic(k[2].addr, 20_000_000-paid, 0))
	want = want && paid >= owed
	sx := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: k[who].sign(must(e.tx.SigningMessage()))}, &iotago.ReferenceUnlock{Reference: 0}}}
	ok := false
	if e.valid() == nil {
		u, err := e.unlocks(sx)
		if err == nil {
			e.unlocked = u
			ok = e.exec() == nil
		}
	}
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == want, "spent exactly when all conditions of both outputs allow it")
}
