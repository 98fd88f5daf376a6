package props

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// scoreParams are storage score parameters whose sums fit into 64 bits.
func scoreParams() *iotago.StorageScoreParameters {
	return &iotago.StorageScoreParameters{
		StorageCost:                 iotago.BaseToken([]uint64{0, 1, 500, 1 << 40, 1 << 60}[nd.Choice("cost", 5)]),
		FactorData:                  iotago.StorageScoreFactor(nd.U8("factor")),
		OffsetOutputOverhead:        iotago.StorageScore(nd.U32("overhead")),
		OffsetEd25519BlockIssuerKey: iotago.StorageScore(nd.U32("keyOffset")),
		OffsetStakingFeature:        iotago.StorageScore(nd.U32("stakingOffset")),
		OffsetDelegation:            iotago.StorageScore(nd.U32("delegationOffset")),
	}
}

// score is the storage score of an output per the protocol: the offset of an
// output with its 78 bytes of metadata, the factor for each of its bytes and
// the offsets of what it contains.
func score(p *iotago.StorageScoreParameters, o iotago.Output) uint64 {
	var w wire
	w.output(o)
	s := uint64(p.OffsetOutputOverhead) + uint64(p.FactorData)*uint64(38+36+4+len(w.b))
	addr := func(a iotago.Address) {
		if _, is := a.(*iotago.ImplicitAccountCreationAddress); is {
			// what the smallest account with a block issuer key needs beyond a basic output
			s += uint64(p.OffsetEd25519BlockIssuerKey) + uint64(p.FactorData)*uint64(implicitExtra())
		}
	}
	conds, feats, imms := parts(o)
	for _, c := range conds {
		switch c := c.(type) {
		case *iotago.AddressUnlockCondition:
			addr(c.Address)
		case *iotago.StorageDepositReturnUnlockCondition:
			addr(c.ReturnAddress)
		case *iotago.ExpirationUnlockCondition:
			addr(c.ReturnAddress)
		}
	}
	for _, f := range append(feats, imms...) {
		switch f := f.(type) {
		case *iotago.BlockIssuerFeature:
			s += uint64(len(f.BlockIssuerKeys)) * uint64(p.OffsetEd25519BlockIssuerKey)
		case *iotago.StakingFeature:
			s += uint64(p.OffsetStakingFeature)
		case *iotago.SenderFeature:
			addr(f.Address)
		case *iotago.IssuerFeature:
			addr(f.Address)
		}
	}
	if _, is := o.(*iotago.DelegationOutput); is {
		s += uint64(p.OffsetDelegation)
	}
	return s
}

func implicitExtra() int {
	var a, b wire
	acc := account(1, 1, blockIssuer(1))
	acc.Features[0].(*iotago.BlockIssuerFeature).BlockIssuerKeys = biKeys(1)
	a.output(acc)
	b.output(basic(ed(1), 1, 0))
	return len(a.b) - len(b.b)
}

// checkScore compares the storage score of o with the reference.
func checkScore(p *iotago.StorageScoreParameters, o iotago.Output) {
	nd.Cover("score")
	nd.Assert(uint64(o.StorageScore(iotago.NewStorageScoreStructure(p), nil)) == score(p, o), "the storage score is the documented one")
}

// checkDeposit compares the deposit rules with the reference for o.
func checkDeposit(p *iotago.StorageScoreParameters, o iotago.Output) {
	st := iotago.NewStorageScoreStructure(p)
	want, cost := score(p, o), uint64(p.StorageCost)
	d, err := st.MinDeposit(o)
	a := iotago.BaseToken(nd.U64("held"))
	c, err2 := st.CoversMinDeposit(o, a)
	if cost != 0 && want > ^uint64(0)/cost {
		nd.Cover("overflow")
		nd.Assert(err != nil && err2 != nil, "deposits beyond 64 bits are errors")
		return
	}
	nd.Assert(err == nil && uint64(d) == cost*want, "the minimum deposit is the cost of the score")
	nd.Assert((err2 == nil) == (uint64(a) >= cost*want), "a deposit is covered from the minimum on")
	nd.Assert(err2 != nil || c == d, "covering tells the minimum")
	nd.Cover("deposit")
}

var _ = nd.Reg("H_storage_output", H_storage_output)

// H_storage_output: the storage score of every kind of output.
func H_storage_output() {
	p := scoreParams()
	p.StorageCost = 3
	checkScore(p, anyOutput(nd.Choice("kind", 6), false, true))
}

var _ = nd.Reg("H_storage_conditions", H_storage_conditions)

// H_storage_conditions: the storage score with every combination of unlock
// conditions.
func H_storage_conditions() {
	p := scoreParams()
	p.StorageCost = 3
	checkScore(p, anyOutput(4*nd.Choice("kind", 2), true, false))
}

var _ = nd.Reg("H_storage_address", H_storage_address)

// H_storage_address: the storage score with every kind of address, and the
// deposit of return outputs.
func H_storage_address() {
	p := scoreParams()
	a := anyAddress("address", 8)
	o := basic(a, 1, 0)
	switch nd.Choice("place", 3) {
	case 1:
		o.Features = append(o.Features, &iotago.SenderFeature{Address: a})
	case 2:
		b := basic(ed(1), 1, 0)
		b.UnlockConditions = append(b.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a, Amount: 4}, &iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: 3})
		o = b
	}
	checkDeposit(p, o)
	st := iotago.NewStorageScoreStructure(p)
	d, err := st.MinStorageDepositForReturnOutput(a)
	cost, want := uint64(p.StorageCost), score(p, basic(a, 0, 0))
	over := cost != 0 && want > ^uint64(0)/cost
	nd.Assert((err != nil) == over, "return deposits beyond 64 bits are errors")
	nd.Assert(over || uint64(d) == cost*want, "the deposit of a return output is that of a plain basic output")
	// an implicit account can become a block issuer account
	var i iotago.ImplicitAccountCreationAddress
	acc := account(1, 1, blockIssuer(1))
	acc.Features[0].(*iotago.BlockIssuerFeature).BlockIssuerKeys = biKeys(1)
	acc.ImmutableFeatures = nil
	nd.Assert(score(p, basic(&i, 1, 0)) == uint64(acc.StorageScore(st, nil)), "an implicit account holds the deposit of the smallest block issuer account")
}

// workScore is the work score of o per the protocol.
func workOutput(p *iotago.WorkScoreParameters, o iotago.Output) uint64 {
	s := uint64(p.Output)
	_, feats, imms := parts(o)
	for _, f := range append(feats, imms...) {
		switch f.(type) {
		case *iotago.NativeTokenFeature:
			s += uint64(p.NativeToken)
		case *iotago.BlockIssuerFeature:
			s += uint64(p.BlockIssuer)
		case *iotago.StakingFeature:
			s += uint64(p.Staking)
		}
	}
	if _, is := o.(*iotago.FoundryOutput); is {
		s += uint64(p.NativeToken) // the token scheme
	}
	return s
}

func workUnlocks(p *iotago.WorkScoreParameters, us iotago.Unlocks) (s uint64) {
	for _, u := range us {
		switch u := u.(type) {
		case *iotago.SignatureUnlock:
			s += uint64(p.SignatureEd25519)
		case *iotago.MultiUnlock:
			s += workUnlocks(p, u.Unlocks)
		}
	}
	return
}

func workPayload(p *iotago.WorkScoreParameters, x iotago.Payload) uint64 {
	if x == nil {
		return uint64(p.Block)
	}
	var w wire
	w.payload(x)
	s := uint64(p.Block) + uint64(p.DataByte)*uint64(len(w.b))
	if t, is := x.(*iotago.SignedTransaction); is {
		e := t.Transaction
		s += uint64(p.Input)*uint64(len(e.TransactionEssence.Inputs)) + uint64(p.ContextInput)*uint64(len(e.TransactionEssence.ContextInputs)) + uint64(p.Allotment)*uint64(len(e.Allotments))
		for _, o := range e.Outputs {
			s += workOutput(p, o)
		}
		s += workUnlocks(p, t.Unlocks)
	}
	return s
}

// workParams are work score parameters: from 1 to 65536 each, or one of 32 bits
// with all others constant.
func workParams(small bool) *iotago.WorkScoreParameters {
	i, wide := 0, -1
	if !small {
		wide = nd.Choice("wide", 10)
	}
	v := func(name string) iotago.WorkScore {
		i++
		if i-1 == wide {
			return iotago.WorkScore(nd.U32(name))
		} else if wide >= 0 {
			return iotago.WorkScore(i)
		}
		return iotago.WorkScore(nd.U16(name)) + 1
	}
	return &iotago.WorkScoreParameters{DataByte: v("dataByte"), Block: v("block"), Input: v("input"), ContextInput: v("contextInput"), Output: v("output"), NativeToken: v("nativeToken"), Staking: v("staking"), BlockIssuer: v("blockIssuer"), Allotment: v("allotment"), SignatureEd25519: v("signature")}
}

// checkWork compares a work score with the expected one.
func checkWork(got iotago.WorkScore, err error, want uint64) {
	if want >= 1<<32 {
		nd.Cover("overflow")
		nd.Assert(err != nil, "work scores beyond 32 bits are errors")
		return
	}
	nd.Cover("score")
	nd.Assert(err == nil && uint64(got) == want, "the work score is the documented one")
}

var _ = nd.Reg("H_work_output", H_work_output)

// H_work_output: the work score of every kind of output.
func H_work_output() {
	p := workParams(nd.Choice("small", 2) == 0)
	conds := maybe("conditions") // or features
	o := anyOutput(nd.Choice("kind", 6), conds, !conds)
	s, err := o.WorkScore(p)
	checkWork(s, err, workOutput(p, o))
}

func workUnlockLists(k int) iotago.Unlocks {
	sig := func(b byte) iotago.Unlock { return &iotago.SignatureUnlock{Signature: newKey(b).sign([]byte{1})} }
	switch k {
	case 0:
		return iotago.Unlocks{sig(1)}
	case 1:
		return iotago.Unlocks{sig(1), sig(2)}
	case 2:
		return iotago.Unlocks{sig(1), &iotago.ReferenceUnlock{Reference: 0}, sig(2)}
	case 3:
		return iotago.Unlocks{sig(1), &iotago.AccountUnlock{Reference: 0}, &iotago.NFTUnlock{Reference: 1}, &iotago.AnchorUnlock{Reference: 1}}
	case 4:
		return iotago.Unlocks{&iotago.MultiUnlock{Unlocks: iotago.Unlocks{sig(1), &iotago.EmptyUnlock{}, sig(2), sig(3)}}, sig(4)}
	}
	return iotago.Unlocks{sig(1), &iotago.MultiUnlock{Unlocks: iotago.Unlocks{&iotago.ReferenceUnlock{Reference: 0}, sig(2)}}, &iotago.ReferenceUnlock{Reference: 1}}
}

var _ = nd.Reg("H_work_tx", H_work_tx)

// H_work_tx: the work score of transactions and other payloads.
func H_work_tx() {
	small := nd.Choice("small", 2) == 0
	p := workParams(small)
	pick := func(name string, n int) int {
		if !small {
			return n - 1
		}
		return nd.Choice(name, n)
	}
	api := newAPI()
	var x iotago.Payload
	switch nd.Choice("payload", 3) {
	case 0:
		x = &iotago.TaggedData{Tag: []byte{1, 2}, Data: make([]byte, 30)}
		if small {
			x = anyTagged()
		}
	case 1:
		x = &iotago.CandidacyAnnouncement{}
	case 2:
		us := workUnlockLists(pick("unlocks", 6))
		e := newTxEnv(api, 100)
		for range us {
			e.in(basic(ed(1), 1, 0), 50)
		}
		for i, n := 0, pick("contexts", 4); i < n; i++ {
			switch i {
			case 0:
				e.commit(98)
			case 1:
				e.bic(accID(7), 0)
			case 2:
				e.reward(0, accID(7), 5)
			}
		}
		for i := pick("allotments", 3); i > 0; i-- {
			e.tx.Allotments = append(e.tx.Allotments, &iotago.Allotment{AccountID: accID(byte(9 - i)), Mana: 3})
		}
		if pick("nested", 2) == 1 {
			e.tx.Payload = &iotago.TaggedData{Tag: []byte{1}, Data: []byte{1, 2}}
		}
		e.out(basic(ed(1), rich, 0))
		switch pick("outputs", 3) {
		case 1:
			e.out(account(7, rich, blockIssuer(5), &iotago.StakingFeature{StakedAmount: 1}))
		case 2:
			e.out(foundry(7, 1, rich, &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(1), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(10)}, nt(token(7, 1), big.NewInt(1))))
			e.out(basicNT(ed(1), nt(token(7, 1), big.NewInt(1))))
		}
		x = &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: us}
	}
	s, err := x.WorkScore(p)
	checkWork(s, err, workPayload(p, x))
}

var _ = nd.Reg("H_work_block", H_work_block)

// H_work_block: the work score and the mana cost of blocks.
func H_work_block() {
	p := workParams(true)
	pp := smallParams()
	iotago.WithWorkScoreOptions(p.DataByte, p.Block, p.Input, p.ContextInput, p.Output, p.NativeToken, p.Staking, p.BlockIssuer, p.Allotment, p.SignatureEd25519)(pp)
	api := iotago.V3API(pp)
	k := nd.Choice("kind", 4)
	x := richBlock(api, k)
	want := uint64(0)
	if b, is := x.Body.(*iotago.BasicBlockBody); is {
		want = workPayload(p, b.Payload)
	}
	s, err := x.WorkScore()
	checkWork(s, err, want)
	nd.Assert(want <= uint64(api.MaxBlockWork()), "no block exceeds the maximum work score")
}

var _ = nd.Reg("H_mana_cost", H_mana_cost)

// H_mana_cost: the mana cost of blocks for every reference mana cost.
func H_mana_cost() {
	pp := smallParams()
	iotago.WithWorkScoreOptions(1, iotago.WorkScore([]uint32{0, 1, 900, 1 << 31}[nd.Choice("block", 4)]), 3, 4, 5, 6, 7, 8, 9, 10)(pp)
	api := iotago.V3API(pp)
	x := richBlock(api, nd.Choice("kind", 4))
	s := must(x.WorkScore())
	rmc := nd.U64("rmc")
	c, err := x.ManaCost(iotago.Mana(rmc))
	if s != 0 && rmc > ^uint64(0)/uint64(s) {
		nd.Cover("overflow")
		nd.Assert(err != nil, "mana costs beyond 64 bits are errors")
		return
	}
	nd.Cover("cost")
	nd.Assert(err == nil && uint64(c) == rmc*uint64(s), "the mana cost is the work score times the reference mana cost")
}

var _ = nd.Reg("H_work_max", H_work_max)

// H_work_max: the maximum work score bounds transactions of many parts.
func H_work_max() {
	p := workParams(true)
	api := newAPI()
	e := newTxEnv(api, 100)
	sig := func(b byte) iotago.Unlock {
		s := &iotago.Ed25519Signature{}
		s.PublicKey[0] = b
		return &iotago.SignatureUnlock{Signature: s}
	}
	var us iotago.Unlocks
	switch nd.Choice("parts", 4) {
	case 0: // outputs with tokens
		e.in(basic(ed(1), 1, 0), 50)
		us = append(us, sig(1))
		for i := 0; i < 128; i++ {
			e.out(foundry(7, uint32(i), rich, &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(1), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(10)}, nt(token(7, uint32(i)), big.NewInt(1))))
		}
	case 1: // block issuers that stake
		e.in(basic(ed(1), 1, 0), 50)
		us = append(us, sig(1))
		e.commit(98)
		for i := 0; i < 128; i++ {
			e.out(account(byte(i), rich, blockIssuer(5), &iotago.StakingFeature{StakedAmount: 1}))
		}
	case 2: // inputs with a signature each
		for i := 0; i < 128; i++ {
			e.in(basic(ed(1), 1, 0), 50)
			us = append(us, sig(byte(i)))
		}
		e.out(basic(ed(1), rich, 0))
	case 3: // context inputs, allotments and multi unlocks
		for i := 0; i < 20; i++ {
			e.in(basic(ed(1), 1, 0), 50)
			m := &iotago.MultiUnlock{}
			for j := 0; j < 10; j++ {
				m.Unlocks = append(m.Unlocks, sig(byte(i*10+j)))
			}
			us = append(us, m)
		}
		e.commit(98)
		for i := 0; i < 127; i++ {
			e.bic(accID(byte(i)), 0)
		}
		for i := 0; i < 128; i++ {
			e.tx.Allotments = append(e.tx.Allotments, &iotago.Allotment{AccountID: accID(byte(i)), Mana: 3})
		}
		e.out(basic(ed(1), rich, 0))
	}
	x := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: us}
	var w wire
	w.payload(x)
	nd.Assume(len(w.b) <= iotago.MaxPayloadSize)
	nd.Cover("fits")
	s, err := x.WorkScore(p)
	most, err2 := p.MaxBlockWork()
	nd.Assert(err == nil && err2 == nil && s <= most, "no block exceeds the maximum work score")
}
