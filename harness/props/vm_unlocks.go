package props

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

var _ = nd.Reg("H_unlocks_direct", H_unlocks_direct)

// H_unlocks_direct: an input owned by a key is spendable exactly with that
// key's signature over this transaction, given once and then referenced.
func H_unlocks_direct() {
	api := newAPI()
	k := []key{newKey(1), newKey(2)}
	e := newTxEnv(api, 100)
	n := 2 + nd.Tier()
	type owner struct {
		key  int
		kind int // 0 Ed25519, 1 implicit account creation
	}
	owners := make([]owner, n)
	for i := range owners {
		var a iotago.Address
		switch c := nd.Choice("owner", 4); c {
		case 0, 1:
			owners[i] = owner{c, 0}
			a = k[c].addr
		case 2:
			owners[i] = owner{0, 1}
			a = iotago.ImplicitAccountCreationAddressFromPubKey(k[0].pub())
		case 3:
			owners[i] = owner{0, 0}
			a = &iotago.RestrictedAddress{Address: k[0].addr, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{1}}
		}
		e.in(basic(a, 10_000_000, 0), 100)
	}
	e.out(basic(ed(9), 10_000_000*iotago.BaseToken(n), 0))
	msg := must(e.tx.SigningMessage())
	sx := &iotago.SignedTransaction{API: api, Transaction: e.tx}
	want := true
	unlocked := map[owner]bool{}
	sigAt := make([]int, n)
	for i := range owners {
		sigAt[i] = -1
		switch u := nd.Choice("unlock", 5); u {
		case 0, 1, 2:
			s := k[u%2].sign(msg)
			good := true
			if u == 2 { // the right key over another message
				s = k[0].sign(append([]byte{7}, msg...))
				good = false
			}
			sx.Unlocks = append(sx.Unlocks, &iotago.SignatureUnlock{Signature: s})
			if want = want && good && owners[i].key == u%2 && !unlocked[owners[i]]; want {
				sigAt[i] = u
			}
		case 3:
			ref := nd.U16("ref")
			sx.Unlocks = append(sx.Unlocks, &iotago.ReferenceUnlock{Reference: ref})
			found := false
			for j := 0; j < i; j++ {
				if int(ref) == j && sigAt[j] >= 0 && sigAt[j] == owners[i].key {
					found = true
				}
			}
			want = want && found
		case 4: // unlocks for other owners
			sx.Unlocks = append(sx.Unlocks, &iotago.AccountUnlock{Reference: 0})
			want = false
		}
		unlocked[owners[i]] = true
	}
	set, err := e.unlocks(sx)
	if err == nil {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert((err == nil) == want, "spendable exactly with the owner's signature")
	if err == nil {
		nd.Assert(len(set) == len(unlocked), "exactly the owners count as unlocked")
		for o := range unlocked {
			var a iotago.Address = k[o.key].addr
			if o.kind == 1 {
				a = iotago.ImplicitAccountCreationAddressFromPubKey(k[o.key].pub())
			}
			_, has := set[a.Key()]
			nd.Assert(has, "every owner counts as unlocked")
		}
	}
}

var _ = nd.Reg("H_unlocks_forged", H_unlocks_forged)

// H_unlocks_forged: no other public key or signature bytes spend the output.
func H_unlocks_forged() {
	api := newAPI()
	k := newKey(1)
	e := newTxEnv(api, 100)
	var a iotago.Address = k.addr
	if nd.Choice("owner", 2) == 1 {
		a = iotago.ImplicitAccountCreationAddressFromPubKey(k.pub())
	}
	e.in(basic(a, 10_000_000, 0), 100)
	e.out(basic(ed(9), 10_000_000, 0))
	s := k.sign(must(e.tx.SigningMessage()))
	// bits of the key and signature may be flipped arbitrarily
	x, y := nd.U64("key"), nd.U64("signature")
	for i := 0; i < 8; i++ {
		s.PublicKey[i] ^= byte(x >> (8 * i))
		s.Signature[i] ^= byte(y >> (8 * i))
	}
	_, err := e.unlocks(&iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: s}}})
	if err == nil {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert((err == nil) == (x == 0 && y == 0), "only the owner's key and signature spend the output")
}

var _ = nd.Reg("H_unlocks_signed_parts", H_unlocks_signed_parts)

// H_unlocks_signed_parts: a signature is void for a transaction that differs
// from the signed one anywhere.
func H_unlocks_signed_parts() {
	api := newAPI()
	k := newKey(1)
	e := newTxEnv(api, 100)
	e.in(basic(k.addr, 10_000_000, 0), 100)
	e.out(basic(ed(9), 10_000_000, 0))
	e.commit(90)
	e.tx.Allotments = iotago.Allotments{&iotago.Allotment{AccountID: accID(4), Mana: 7}}
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{1}
	e.tx.Payload = &iotago.TaggedData{Tag: []byte{1, 2}, Data: []byte{3}}
	s := k.sign(must(e.tx.SigningMessage()))
	var same bool
	o := e.tx.Outputs[0].(*iotago.BasicOutput)
	switch nd.Choice("part", 10) {
	case 0:
		v := nd.U64("v")
		same = v == uint64(o.Amount)
		o.Amount = iotago.BaseToken(v)
	case 1:
		v := nd.U64("v")
		same = v == uint64(o.Mana)
		o.Mana = iotago.Mana(v)
	case 2:
		v := nd.U32("v")
		same = v == uint32(e.tx.CreationSlot)
		e.tx.CreationSlot = iotago.SlotIndex(v)
	case 3:
		v := nd.U64("v")
		same = v == e.tx.NetworkID
		e.tx.NetworkID = v
	case 4:
		v := nd.U64("v")
		same = v == 7
		e.tx.Allotments[0].Mana = iotago.Mana(v)
	case 5:
		v := nd.U8("v")
		same = v == 1
		e.tx.Capabilities[0] = v
	case 6:
		v := nd.U8("v")
		same = v == 2
		e.tx.Payload.(*iotago.TaggedData).Tag[1] = v
	case 7:
		v := nd.U8("v")
		same = v == 9
		o.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address.(*iotago.Ed25519Address)[5] = v
	case 8:
		v := nd.U8("v")
		in := e.tx.TransactionEssence.ContextInputs[0].(*iotago.CommitmentInput)
		same = v == in.CommitmentID[3]
		in.CommitmentID[3] = v
	case 9:
		v := nd.U16("v")
		same = v == 0
		in := e.tx.TransactionEssence.Inputs[0].(*iotago.UTXOInput)
		e.resolved.InputSet[iotago.OutputIDFromTransactionIDAndIndex(in.TransactionID, v)] = e.inputs[0]
		in.TransactionOutputIndex = v
	}
	_, err := e.unlocks(&iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: s}}})
	if err == nil {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert((err == nil) == same, "a signature covers the whole transaction")
}

var _ = nd.Reg("H_unlocks_chain", H_unlocks_chain)

// H_unlocks_chain: outputs owned by an account, NFT or anchor are spendable
// exactly through the transition of that very output in the same transaction.
func H_unlocks_chain() {
	api := newAPI()
	k := []key{newKey(1), newKey(2)}
	e := newTxEnv(api, 100)
	// input 0: the owning chain
	kind := nd.Choice("chain", 3)
	fresh := nd.Choice("fresh", 2) == 1 // created just before: its id is still implicit
	signer := 0
	var chain iotago.ChainAddress
	id0 := outID(1, 100)
	transition := nd.Choice("transition", 2+kind/2)
	usable := true
	switch kind {
	case 0:
		a := account(7, 10_000_000)
		a.UnlockConditions = iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k[0].addr}}
		if fresh {
			a.AccountID = iotago.EmptyAccountID
		}
		e.in(a, 100)
		b := a.Clone().(*iotago.AccountOutput)
		if fresh {
			b.AccountID = iotago.AccountIDFromOutputID(id0)
		}
		if transition == 1 {
			e.out(b)
		}
		chain = b.AccountID.ToAddress()
	case 1:
		a := kindOutput(2, 10_000_000, 0).(*iotago.NFTOutput)
		a.UnlockConditions = iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k[0].addr}}
		if fresh {
			a.NFTID = iotago.EmptyNFTID()
		}
		e.in(a, 100)
		b := a.Clone().(*iotago.NFTOutput)
		if fresh {
			b.NFTID = iotago.NFTIDFromOutputID(id0)
		}
		if transition == 1 {
			e.out(b)
		}
		chain = b.NFTID.ToAddress()
	case 2:
		a := kindOutput(3, 10_000_000, 3).(*iotago.AnchorOutput)
		a.UnlockConditions = iotago.AnchorOutputUnlockConditions{
			&iotago.StateControllerAddressUnlockCondition{Address: k[0].addr},
			&iotago.GovernorAddressUnlockCondition{Address: k[1].addr},
		}
		if fresh {
			a.AnchorID = iotago.EmptyAnchorID
		}
		e.in(a, 100)
		b := a.Clone().(*iotago.AnchorOutput)
		if fresh {
			b.AnchorID = iotago.AnchorIDFromOutputID(id0)
		}
		chain = b.AnchorID.ToAddress()
		switch transition {
		case 0: // destruction by the governor
			usable, signer = false, 1
		case 1: // governance
			usable, signer = false, 1
			e.out(b)
		case 2: // any other state index
			signer = 0
			b.StateIndex = nd.U32("stateIndex")
			e.out(b)
			usable = b.StateIndex == 4
			if b.StateIndex == 3 {
				signer = 1
			}
		}
	}
	// input 1: owned by the chain, another chain or another kind of chain
	owner := nd.Choice("owner", 3)
	var addr iotago.Address = chain
	switch owner {
	case 1:
		addr = accID(77).ToAddress()
	case 2:
		if kind == 0 {
			x := iotago.NFTAddress(*chain.(*iotago.AccountAddress))
			addr = &x
		} else if kind == 1 {
			x := iotago.AnchorAddress(*chain.(*iotago.NFTAddress))
			addr = &x
		} else {
			x := iotago.AccountAddress(*chain.(*iotago.AnchorAddress))
			addr = &x
		}
	}
	e.in(basic(addr, 10_000_000, 0), 100)
	e.out(basic(ed(9), 10_000_000, 0))
	msg := must(e.tx.SigningMessage())
	by := nd.Choice("signer", 2)
	ref := nd.U16("ref")
	u := nd.Choice("unlock", 5)
	var second iotago.Unlock
	switch u {
	case 0:
		second = &iotago.AccountUnlock{Reference: ref}
	case 1:
		second = &iotago.NFTUnlock{Reference: ref}
	case 2:
		second = &iotago.AnchorUnlock{Reference: ref}
	case 3:
		second = &iotago.ReferenceUnlock{Reference: ref}
	case 4:
		second = &iotago.SignatureUnlock{Signature: k[1-by].sign(msg)}
	}
	sx := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: k[by].sign(msg)}, second}}
	want := by == signer && usable && owner == 0 && u == kind && ref == 0
	set, err := e.unlocks(sx)
	if err == nil {
		nd.Cover("accepted")
		_, has := set[chain.Key()]
		nd.Assert(has, "the chain counts as unlocked")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert((err == nil) == want, "spendable exactly through the owning chain's transition")
}

var _ = nd.Reg("H_unlocks_chain_owner", H_unlocks_chain_owner)

// H_unlocks_chain_owner: a consumed chain counts as unlocked for issuer and
// sender purposes exactly when it is controlled in this transaction.
func H_unlocks_chain_owner() {
	api := newAPI()
	k := []key{newKey(1), newKey(2)}
	e := newTxEnv(api, 100)
	a := kindOutput(3, 10_000_000, 3).(*iotago.AnchorOutput)
	a.UnlockConditions = iotago.AnchorOutputUnlockConditions{
		&iotago.StateControllerAddressUnlockCondition{Address: k[0].addr},
		&iotago.GovernorAddressUnlockCondition{Address: k[1].addr},
	}
	idx := nd.U32("index")
	a.StateIndex = idx
	e.in(a, 100)
	e.out(basic(ed(9), 10_000_000, 0))
	next := nd.U32("next")
	destroyed := nd.Choice("destroyed", 2) == 1
	if !destroyed {
		b := a.Clone().(*iotago.AnchorOutput)
		b.StateIndex = next
		e.out(b)
	}
	by := nd.Choice("signer", 2)
	msg := must(e.tx.SigningMessage())
	set, err := e.unlocks(&iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: k[by].sign(msg)}}})
	signer := 0
	if destroyed || next == idx {
		signer = 1
	}
	if next != idx && next != idx+1 && !destroyed {
		nd.Cover("other index")
		signer = -1
	}
	nd.Assert((err == nil) == (by == signer), "state changes need the state controller, anything else the governor")
	if err == nil {
		nd.Cover("accepted")
		_, has := set[iotago.AnchorID(accID(9)).ToAddress().Key()]
		nd.Assert(has == (!destroyed && next == idx+1), "only a state transition unlocks the anchor's address")
	}
}

var _ = nd.Reg("H_unlocks_multi", H_unlocks_multi)

// H_unlocks_multi: a multi address is spendable exactly when every given
// sub-unlock is valid and their weights reach the threshold.
func H_unlocks_multi() {
	api := newAPI()
	k := []key{newKey(1), newKey(2), newKey(3)}
	e := newTxEnv(api, 100)
	n := 2 + nd.Tier()
	w := make([]byte, n)
	threshold := nd.U16("threshold")
	nd.Assume(threshold > 0)
	aw := iotago.AddressesWithWeight{}
	for i := range w {
		w[i] = nd.U8("weight")
		nd.Assume(w[i] > 0)
		aw = append(aw, &iotago.AddressWithWeight{Address: k[i].addr, Weight: w[i]})
	}
	multi := iotago.NewMultiAddress(aw, threshold)
	e.in(basic(k[0].addr, 10_000_000, 0), 100)
	var owner iotago.Address = multi
	if nd.Choice("restricted", 2) == 1 {
		owner = &iotago.RestrictedAddress{Address: multi, AllowedCapabilities: iotago.AddressCapabilitiesBitMask{}}
	}
	e.in(basic(owner, 10_000_000, 0), 100)
	e.out(basic(ed(9), 20_000_000, 0))
	third := nd.Choice("third", 3)
	if third > 0 {
		e.in(basic([]iotago.Address{nil, multi, k[1].addr}[third], 10_000_000, 0), 100)
	}
	msg := must(e.tx.SigningMessage())
	mu := &iotago.MultiUnlock{}
	want := true
	sum := 0
	for i := range w {
		good := true
		switch nd.Choice("sub", 5) {
		case 0:
			mu.Unlocks = append(mu.Unlocks, &iotago.EmptyUnlock{})
			continue
		case 1: // a signature by the key itself; key 0 was used before and must be referenced
			mu.Unlocks = append(mu.Unlocks, &iotago.SignatureUnlock{Signature: k[i].sign(msg)})
			good = i != 0
		case 2:
			mu.Unlocks = append(mu.Unlocks, &iotago.SignatureUnlock{Signature: k[(i+1)%3].sign(msg)})
			good = false
		case 3:
			mu.Unlocks = append(mu.Unlocks, &iotago.ReferenceUnlock{Reference: 0})
			good = i == 0
		case 4:
			mu.Unlocks = append(mu.Unlocks, &iotago.ReferenceUnlock{Reference: 1})
			good = false
		}
		want = want && good
		sum += int(w[i])
	}
	if nd.Choice("length", 2) == 1 {
		mu.Unlocks = append(mu.Unlocks, &iotago.EmptyUnlock{})
		want = false
	}
	want = want && sum >= int(threshold)
	sx := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: k[0].sign(msg)}, mu}}
	if third > 0 {
		sx.Unlocks = append(sx.Unlocks, &iotago.ReferenceUnlock{Reference: 1})
		// the multi unlock is reusable, its parts are not
		want = want && third == 1
	}
	set, err := e.unlocks(sx)
	if err == nil {
		nd.Cover("accepted")
		_, has := set[multi.Key()]
		_, sub := set[k[1].addr.Key()]
		nd.Assert(has && !sub, "the multi address counts as unlocked, its parts do not")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert((err == nil) == want, "spendable exactly when valid weights reach the threshold")
}
