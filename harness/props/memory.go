package props

import (
	"crypto"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"

	"verif/harness/nd"
)

var _ = nd.Reg("H_shared_api", H_shared_api)

// H_shared_api: what one API computes for two goroutines is what each gets alone.
func H_shared_api() {
	mana := iotago.Mana(nd.U8("mana")&15) + 1000
	ops := func() func(int) []byte {
		api := newAPI()
		return func(i int) []byte {
			decay, tp := api.ManaDecayProvider(), api.TimeProvider()
			a, b := tp.EpochStart(3), tp.EpochStart(7)
			switch i {
			case 0:
				return show(uint64(must(decay.DecayManaBySlots(mana, a, b))))
			case 1:
				return show(uint64(must(decay.DecayManaByEpochs(mana, 3, 5))))
			case 2:
				return show(uint64(must(decay.GenerateManaAndDecayBySlots(iotago.BaseToken(mana), a, b))))
			case 3:
				return show(uint64(must(api.ProtocolParameters().RewardsParameters().TargetReward(4, api))))
			case 4:
				return show(int(tp.EpochFromSlot(b)), int(tp.SlotFromTime(tp.SlotEndTime(a))), int(tp.SlotsBeforeNextEpoch(b)))
			default:
				return show(uint64(must(api.StorageScoreStructure().MinDeposit(basic(ed(1), 1, 1)))), uint64(api.MaxBlockWork()))
			}
		}
	}
	pair(nd.Tier(), 6, ops(), ops())
	nd.Cover("done")
}

var _ = nd.Reg("H_mana_again", H_mana_again)

// H_mana_again: mana is a function of its arguments, whatever was computed before.
func H_mana_again() {
	used, fresh := newAPI(), newAPI()
	amounts := []uint64{uint64(nd.U8("first")&15) + 1000, uint64(nd.U8("second")&15) + 1000}
	spans := []iotago.EpochIndex{1, 3, 17, 19}
	calc := func(api iotago.API, k, i int, from, span iotago.EpochIndex) uint64 {
		p, tp := api.ManaDecayProvider(), api.TimeProvider()
		var m iotago.Mana
		var err error
		switch k {
		case 0:
			m, err = p.DecayManaByEpochs(iotago.Mana(amounts[i]), from, from+span)
		case 1:
			m, err = p.DecayManaBySlots(iotago.Mana(amounts[i]), tp.EpochStart(from)+1, tp.EpochStart(from+span)+2)
		case 2:
			m, err = p.GenerateManaAndDecayBySlots(iotago.BaseToken(amounts[i]), tp.EpochStart(from)+1, tp.EpochStart(from+span)+2)
		default:
			m, err = api.ProtocolParameters().RewardsParameters().TargetReward(from+span, api)
		}
		nd.Assert(err == nil, "mana is computed")
		return uint64(m)
	}
	k := nd.Choice("kind", 4)
	span := func(name string) iotago.EpochIndex { return spans[nd.Choice(name, len(spans))] }
	second := nd.Choice("amount", 2)
	a, b := span("before"), span("now")
	calc(used, k, 0, 5, a)
	from := iotago.EpochIndex(5 + nd.Choice("from", 2))
	nd.Assert(calc(used, k, second, from, b) == calc(fresh, k, second, from, b), "mana depends on its arguments only")
	nd.Cover("done")
}

var _ = nd.Reg("H_id_again", H_id_again)

// H_id_again: identifiers, sizes and signing messages follow the content, also
// after they were asked for before.
func H_id_again() {
	api := newAPI()
	v := nd.U8("value")
	nd.Assume(v > 0 && v < 100)
	n := nd.Choice("change", 4)
	switch kind := nd.Choice("object", 3); kind {
	case 0: // transaction
		change := func(t *iotago.SignedTransaction) {
			switch n {
			case 0:
				t.Transaction.Outputs[0].(*iotago.BasicOutput).Mana += iotago.Mana(v)
			case 1:
				t.Transaction.CreationSlot += iotago.SlotIndex(v)
			case 2:
				t.Transaction.Allotments[0].Mana += iotago.Mana(v)
			default:
				t.Unlocks[1] = &iotago.ReferenceUnlock{Reference: uint16(v)}
			}
		}
		look := func(t *iotago.SignedTransaction) []byte {
			id, sid, com := must(t.Transaction.ID()), must(t.ID()), must(t.Transaction.OutputCommitment())
			tc := must(t.Transaction.TransactionCommitment())
			b := append(append(append(append(id[:], sid[:]...), com[:]...), tc[:]...), must(t.Transaction.SigningMessage())...)
			return append(b, show(t.Size(), t.Transaction.Size())...)
		}
		x, y := richTx(api), richTx(api)
		look(x)
		change(x)
		change(y)
		nd.Assert(eqBytes(look(x), look(y)), "identifiers follow the transaction")
		c := x.Clone().(*iotago.SignedTransaction)
		change(c)
		change(y)
		nd.Assert(eqBytes(look(c), look(y)), "identifiers follow the copy of a transaction")
	case 1: // block
		change := func(b *iotago.Block) {
			switch n {
			case 0:
				b.Header.IssuingTime = b.Header.IssuingTime.Add(1)
			case 1:
				b.Header.IssuerID[3] = v
			case 2:
				b.Body.(*iotago.BasicBlockBody).MaxBurnedMana += iotago.Mana(v)
			default:
				b.Signature.(*iotago.Ed25519Signature).Signature[5] ^= v
			}
		}
		look := func(b *iotago.Block) []byte {
			id, body, head := must(b.ID()), must(b.Body.Hash()), must(b.Header.Hash(api))
			return append(append(append(append(id[:], body[:]...), head[:]...), must(b.SigningMessage())...), show(b.Size(), int(b.Slot()))...)
		}
		x, y := richBlock(api, 0), richBlock(api, 0)
		look(x)
		change(x)
		change(y)
		nd.Assert(eqBytes(look(x), look(y)), "identifiers follow the block")
	default: // commitment
		make := func() *iotago.Commitment {
			return iotago.NewCommitment(api.Version(), 9, iotago.CommitmentID{1}, iotago.Identifier{2}, 77, 5)
		}
		change := func(c *iotago.Commitment) {
			switch n {
			case 0:
				c.Slot += iotago.SlotIndex(v)
			case 1:
				c.CumulativeWeight += uint64(v)
			case 2:
				c.ReferenceManaCost += iotago.Mana(v)
			default:
				c.RootsID[4] = v
			}
		}
		look := func(c *iotago.Commitment) []byte {
			id := must(c.ID())
			return append(id[:], show(c.Size())...)
		}
		x, y := make(), make()
		look(x)
		change(x)
		change(y)
		nd.Assert(eqBytes(look(x), look(y)), "identifiers follow the commitment")
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_addr_again", H_addr_again)

// H_addr_again: what an address says of itself follows its content.
func H_addr_again() {
	v := nd.U8("value")
	nd.Assume(v > 1)
	make := func() *iotago.RestrictedAddress {
		return &iotago.RestrictedAddress{Address: iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: ed(1), Weight: 1}, {Address: ed(2), Weight: 2}}, 2), AllowedCapabilities: iotago.AddressCapabilitiesBitMask{1}}
	}
	n := nd.Choice("change", 4)
	change := func(a *iotago.RestrictedAddress) {
		m := a.Address.(*iotago.MultiAddress)
		switch n {
		case 0:
			m.Addresses[0].Weight = v
		case 1:
			m.Threshold = uint16(v)
		case 2:
			m.Addresses[1].Address.(*iotago.Ed25519Address)[7] = v
		default:
			a.AllowedCapabilities[0] = v
		}
	}
	look := func(a *iotago.RestrictedAddress) []byte {
		b := append(append([]byte(a.Key()), a.ID()...), a.Address.ID()...)
		b = append(b, a.Address.Key()...)
		return append(b, show(a.Size(), a.CannotReceiveMana(), a.CannotReceiveNativeTokens(), a.Equal(make()))...)
	}
	x, y := make(), make()
	look(x)
	change(x)
	change(y)
	nd.Assert(eqBytes(look(x), look(y)), "addresses are what they consist of")
	c := x.Clone().(*iotago.RestrictedAddress)
	nd.Assert(eqBytes(look(c), look(y)), "copies are what they consist of")
	nd.Cover("done")
}

var _ = nd.Reg("H_merkle_again", H_merkle_again)

// H_merkle_again: roots and proofs of one hasher stay what they were when it is used again.
func H_merkle_again() {
	h := merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256)
	list := func(name string, n int) (l []iotago.Identifier) {
		for i := 0; i < n; i++ {
			id := iotago.Identifier(accID(byte(i + 1)))
			id[0] = nd.U8(name)
			l = append(l, id)
		}
		return
	}
	a, b := list("first", 1+nd.Choice("n", 4)), list("second", 1+nd.Choice("m", 4))
	root := must(h.HashValues(a))
	was := append([]byte{}, root...)
	p := must(h.ComputeProofForIndex(a, len(a)-1))
	other := must(h.HashValues(b))
	must(h.ComputeProofForIndex(b, 0))
	fresh := merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256)
	nd.Assert(eqBytes(root, was), "a root stays when the hasher is used again")
	nd.Assert(eqBytes(other, must(fresh.HashValues(b))), "a root is a function of its values")
	nd.Assert(eqBytes(p.Hash(h), root) && eqBytes(p.Hash(fresh), root), "a proof stays when the hasher is used again")
	nd.Cover("done")
}
