package props

import (
	"encoding/binary"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm/nova"

	"verif/harness/nd"
)

// together runs f and g in two goroutines.
func together(f, g func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	g()
	<-done
}

// pair runs two of n operations on a shared object at the same time; want
// tells what an operation yields alone. Unordered accesses are found
// without preemptions too.
func pair(preemptions, n int, op func(int) []byte, want func(int) []byte) {
	i := nd.Choice("first", n)
	j := i + nd.Choice("second", n-i)
	wi, wj := want(i), want(j)
	nd.Schedules(preemptions, 0, 100)
	var gi, gj []byte
	together(func() { gi = op(i) }, func() { gj = op(j) })
	nd.Assert(eqBytes(gi, wi), "uses of shared objects do not disturb each other")
	nd.Assert(eqBytes(gj, wj), "uses of shared objects do not disturb each other")
}

// show writes results down.
func show(vs ...any) []byte {
	var b []byte
	for _, v := range vs {
		switch v := v.(type) {
		case bool:
			b = append(b, 'b', 0)
			if v {
				b[len(b)-1] = 1
			}
		case error:
			b = append(b, 'e')
		case nil:
			b = append(b, 'n')
		case int:
			b = binary.LittleEndian.AppendUint64(b, uint64(v))
		case uint64:
			b = binary.LittleEndian.AppendUint64(b, v)
		default:
			panic("show")
		}
	}
	return b
}

var _ = nd.Reg("H_shared_block", H_shared_block)

// H_shared_block: reading one block from two goroutines is free of races.
func H_shared_block() {
	api := newAPI()
	k := nd.Choice("kind", 4)
	weight := nd.U8("weight")
	make := func() *iotago.Block {
		b := richBlock(api, k)
		b.Header.IssuerID[31] = weight
		if x, ok := b.Body.(*iotago.BasicBlockBody); ok {
			x.StrongParents = append(iotago.BlockIDs{}, x.StrongParents[0], x.StrongParents[1], x.StrongParents[1])[:2] // with room
		}
		return b
	}
	ops := func(b *iotago.Block) func(int) []byte {
		return func(i int) []byte {
			switch i {
			case 0:
				id := must(b.ID())
				return id[:]
			case 1:
				return must(api.Encode(b))
			case 2:
				return must(api.Encode(b, serix.WithValidation()))
			case 3:
				var r []byte
				for _, p := range b.Parents() {
					r = append(r, p[:]...)
				}
				b.ForEachParent(func(p iotago.Parent) { r = append(r, byte(p.Type)) })
				return r
			case 4:
				return show(b.Size(), int(must(b.WorkScore())), uint64(must(b.ManaCost(3))), int(b.Slot()))
			case 5:
				return must(b.SigningMessage())
			default:
				x, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(must(api.Encode(b)))
				return must(api.Encode(must(x, err)))
			}
		}
	}
	pair(0, 7, ops(make()), ops(make()))
	nd.Cover("done")
}

var _ = nd.Reg("H_shared_tx", H_shared_tx)

// H_shared_tx: checking, executing and reading one transaction from two goroutines is free of races.
func H_shared_tx() {
	api := newAPI()
	mana := iotago.Mana(nd.U8("mana"))
	ops := func() func(int) []byte {
		e := newTxEnv(api, 60)
		k := newKey(1)
		owner := k.addr
		e.in(basic(owner, 500_000, 0), 50)
		e.in(basic(owner, 500_000, 200), 60)
		e.commit(58)
		e.out(basic(ed(2), 700_000, mana))
		e.out(basic(ed(1), 300_000, 0, &iotago.TimelockUnlockCondition{Slot: 70}))
		e.tx.Payload = &iotago.TaggedData{Tag: []byte{1}, Data: []byte{2}}
		nd.Assert(e.valid() == nil, "set-up: valid")
		sx := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: k.sign(must(e.tx.SigningMessage()))}, &iotago.ReferenceUnlock{Reference: 0}}}
		return func(i int) []byte {
			switch i {
			case 0:
				u, err := nova.NewVirtualMachine().ValidateUnlocks(sx, e.resolved)
				if err != nil {
					return show(err)
				}
				outs, err := nova.NewVirtualMachine().Execute(e.tx, e.resolved, u)
				return show(len(outs), err)
			case 1:
				return show(e.valid())
			case 2:
				id, sid := must(e.tx.ID()), must(sx.ID())
				return append(id[:], sid[:]...)
			case 3:
				return append(must(api.Encode(sx, serix.WithValidation())), must(api.Encode(e.tx.Outputs[1]))...)
			case 4:
				c := must(api.Encode(sx.Clone().(*iotago.SignedTransaction)))
				r := must(e.tx.OutputCommitment())
				return append(c, r[:]...)
			case 5:
				return show(sx.Size(), int(must(sx.WorkScore(api.ProtocolParameters().WorkScoreParameters()))), uint64(e.tx.Outputs[1].StorageScore(api.StorageScoreStructure(), nil)), len(e.tx.Inputs()), len(e.tx.BICInputs()), len(e.tx.RewardInputs()), e.tx.CommitmentInput() != nil, len(must(e.tx.OutputsSet())))
			default:
				o := e.tx.Outputs[1]
				return show(len(o.UnlockConditionSet()), len(o.FeatureSet()), o.Equal(e.tx.Outputs[0]), o.Equal(o.Clone()), o.UnlockConditionSet().HasTimelockUntil(69), e.inputs[1].UnlockConditionSet().Address().Address.Equal(owner))
			}
		}
	}
	pair(0, 7, ops(), ops())
	nd.Cover("done")
}

var _ = nd.Reg("H_shared_output", H_shared_output)

// H_shared_output: reading one output or address from two goroutines is free of races.
func H_shared_output() {
	api := newAPI()
	k := nd.Choice("kind", 6)
	amount := iotago.BaseToken(nd.U32("amount"))
	score := api.StorageScoreStructure()
	ops := func() func(int) []byte {
		o := richOutput(k)
		switch x := o.(type) {
		case *iotago.BasicOutput:
			x.Amount = amount
		case *iotago.NFTOutput:
			x.Amount = amount
		}
		a := iotago.Address(iotago.RestrictedAddressWithCapabilities(iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: ed(1), Weight: 1}, {Address: ed(2), Weight: 2}}, 2), iotago.WithAddressCanReceiveMana(true)))
		return func(i int) []byte {
			switch i {
			case 0:
				return must(api.Encode(o, serix.WithValidation()))
			case 1:
				return must(api.Encode(o.Clone()))
			case 2:
				return show(o.Size(), uint64(o.StorageScore(score, nil)), int(must(o.WorkScore(api.ProtocolParameters().WorkScoreParameters()))), uint64(o.BaseTokenAmount()), uint64(o.StoredMana()))
			case 3:
				conds, feats, imms := parts(o)
				return show(len(o.UnlockConditionSet()), len(o.FeatureSet()), len(conds), len(feats), len(imms), o.Equal(o.Clone()))
			case 4:
				y := emptyOutput(k)
				if err := api.JSONDecode(must(api.JSONEncode(o)), y); err != nil {
					return show(err)
				}
				return must(api.Encode(y))
			case 5:
				r := a.(*iotago.RestrictedAddress)
				b := append([]byte(a.Key()), a.ID()...)
				return append(b, show(a.Size(), r.AllowedCapabilities.CannotReceiveMana(), r.AllowedCapabilities.CannotReceiveNativeTokens(), a.Equal(a.Clone()), len(a.Bech32("rms")))...)
			default:
				var b []byte
				if c, ok := o.(iotago.ChainOutput); ok {
					b = append(b, c.ChainID().ToHex()...)
				}
				if c, ok := o.(iotago.OwnerTransitionIndependentOutput); ok {
					b = append(b, c.Owner().ID()...)
				}
				return b
			}
		}
	}
	pair(0, 7, ops(), ops())
	nd.Cover("done")
}

var _ = nd.Reg("H_shared_params", H_shared_params)

// H_shared_params: what parameters remember of themselves is the same for all goroutines.
func H_shared_params() {
	ops := func() func(int) []byte {
		p := versionParams(3)
		return func(i int) []byte {
			switch i {
			case 0:
				h := must(p.Hash())
				return h[:]
			case 1:
				return must(p.Bytes())
			case 2:
				return show(uint64(p.NetworkID()))
			case 3:
				api := iotago.V3API(p)
				return show(uint64(api.ProtocolParameters().NetworkID()), int(api.TimeProvider().EpochFromSlot(9000)), uint64(must(api.ManaDecayProvider().DecayManaBySlots(1000, 1, 9000))))
			default:
				return show(p.Equals(versionParams(3)), p.Equals(versionParams(4)))
			}
		}
	}
	pair(nd.Tier(), 5, ops(), ops())
	nd.Cover("done")
}

var _ = nd.Reg("H_shared_provider", H_shared_provider)

// H_shared_provider: a provider that learns of versions answers as before or as after, and changes of it follow one another.
func H_shared_provider() {
	params := map[iotago.Version]*iotago.V3ProtocolParameters{3: versionParams(3), 4: versionParams(4), 5: versionParams(5)}
	base := iotago.V3API(params[3])
	hash := must(params[4].Hash())
	must(params[3].Hash())
	start := iotago.EpochIndex(2 + nd.Choice("start", 2))
	slot := iotago.SlotIndex(8192 * (1 + nd.Choice("slot", 3)))
	fresh := func() *iotago.EpochBasedProvider {
		p := newProvider(base)
		p.AddProtocolParametersAtEpoch(params[3], 0)
		p.AddProtocolParameters(params[5])
		return p
	}
	change := func(p *iotago.EpochBasedProvider, i int) {
		switch i {
		case 0:
			p.AddProtocolParametersAtEpoch(params[4], start)
		case 1:
			p.AddProtocolParameters(params[4])
		case 2:
			p.AddVersion(5, start)
		case 3:
			p.AddFutureVersion(4, hash, start)
		default:
			p.SetCommittedSlot(slot)
		}
	}
	look := func(p *iotago.EpochBasedProvider, i int) []byte {
		switch i {
		case 0:
			return show(int(p.CommittedAPI().Version()))
		case 1:
			return show(int(p.LatestAPI().Version()))
		case 2:
			api, err := p.APIForVersion(4)
			if err != nil {
				return show(nil)
			}
			return show(int(api.Version()))
		case 3:
			return show(int(p.VersionForSlot(slot)))
		case 4:
			e, ok := p.EpochForVersion(5)
			f, known := p.EpochForVersion(4)
			return show(int(e), ok, int(f), known)
		case 5:
			h := p.ProtocolParametersHash(4)
			return h[:]
		case 6:
			var b []byte
			for _, v := range p.ProtocolEpochVersions() {
				b = append(b, v.Bytes()...)
			}
			return b
		case 7:
			return show(p.ProtocolParameters(4) != nil)
		default:
			h, err := p.VersionsAndProtocolParametersHash()
			return append(h[:], show(err != nil)...)
		}
	}
	nd.Schedules(1+nd.Tier(), 0, 100)
	p, before, after := fresh(), fresh(), fresh()
	i := nd.Choice("change", 5)
	change(after, i)
	switch nd.Choice("use", 3) {
	case 0:
		// both look at versions 3 to 5, of which 4 is neither the latest nor committed
		if nd.Assume(i < 2); i == 0 {
			p.AddProtocolParametersAtEpoch(params[4], start)
			before.AddProtocolParametersAtEpoch(params[4], start)
		}
		i, j := nd.Choice("first", 9), nd.Choice("second", 9)
		nd.Assume(i <= j)
		var gi, gj []byte
		together(func() { gi = look(p, i) }, func() { gj = look(p, j) })
		nd.Assert(eqBytes(gi, look(before, i)) && eqBytes(gj, look(before, j)), "readers do not disturb each other")
		nd.Cover("read")
		return
	case 1:
		j := nd.Choice("at", 9)
		var got []byte
		together(func() { change(p, i) }, func() { got = look(p, j) })
		between := fresh()
		if i == 0 {
			between.AddProtocolParameters(params[4])
		}
		nd.Assert(eqBytes(got, look(before, j)) || eqBytes(got, look(after, j)) || eqBytes(got, look(between, j)), "a reader sees the provider before or after a change")
		nd.Assert(eqBytes(look(p, j), look(after, j)), "a change is there once it is made")
		nd.Cover("read")
		return
	}
	j := nd.Choice("other", 5)
	// a version cannot begin without its parameters
	nd.Assume(!(i == 3 && j == 4 || i == 4 && j == 3) || slot>>13 < iotago.SlotIndex(start))
	together(func() { change(p, i) }, func() { change(p, j) })
	change(after, j)
	change(before, j)
	change(before, i)
	nd.Assert(sameViews(look, p, after) || sameViews(look, p, before), "changes follow one another")
	nd.Cover("changed")
}

func sameViews(look func(*iotago.EpochBasedProvider, int) []byte, a, b *iotago.EpochBasedProvider) bool {
	for k := 0; k < 9; k++ {
		if !eqBytes(look(a, k), look(b, k)) {
			return false
		}
	}
	return true
}

type aliased interface {
	Alias() string
	RegisterAlias(string)
	UnregisterAlias()
	ToHex() string
}

var _ = nd.Reg("H_shared_alias", H_shared_alias)

// H_shared_alias: aliases of every kind of identifier can be set, read and taken back from two goroutines.
func H_shared_alias() {
	s := iotago.SlotIndex(nd.U32("slot"))
	id := iotago.Identifier(accID(1))
	ids := []aliased{id, iotago.AccountID(id), iotago.AnchorID(id), iotago.NewBlockID(s, id), iotago.NewCommitmentID(s, id), iotago.NewTransactionID(s, id), iotago.NewSignedTransactionID(s, id), iotago.OutputIDFromTransactionIDAndIndex(iotago.NewTransactionID(s, id), 3)}
	x := ids[nd.Choice("kind", len(ids))]
	hex := x.ToHex()
	nd.Assert(x.Alias() == hex, "no alias but one that was registered")
	nd.Schedules(1+nd.Tier(), 0, 100)
	switch nd.Choice("use", 3) {
	case 0:
		var got string
		together(func() { x.RegisterAlias("a") }, func() { got = x.Alias() })
		nd.Assert((got == "a" || got == hex) && x.Alias() == "a", "a reader sees the alias before or after it is registered")
	case 1:
		x.RegisterAlias("a")
		var got string
		together(x.UnregisterAlias, func() { got = x.Alias() })
		nd.Assert((got == "a" || got == hex) && x.Alias() == hex, "a reader sees the alias before or after it is taken back")
	default:
		together(func() { x.RegisterAlias("a") }, func() { x.RegisterAlias("b") })
		nd.Assert(x.Alias() == "a" || x.Alias() == "b", "one registration comes last")
	}
	x.UnregisterAlias()
	nd.Assert(x.Alias() == hex, "an alias can be taken back")
	nd.Cover("done")
}
