package props

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

var _ = nd.Reg("H_vm_base_balance", H_vm_base_balance)

// H_vm_base_balance: an accepted transaction moves exactly the base tokens it
// consumes, for every amount.
func H_vm_base_balance() {
	e := newTxEnv(newAPI(), 100)
	var in, out sum128
	for i := 0; i < 2; i++ {
		a := nd.U64("in")
		in.add(a)
		// inputs are outputs of the ledger: each passed validation before
		nd.Assume(a > 0 && iotago.BaseToken(a) <= e.api.ProtocolParameters().TokenSupply())
		e.in(basic(ed(1), iotago.BaseToken(a), 0), 100)
	}
	e.unlock(ed(1), 0)
	covered := true
	for i := 0; i < 2; i++ {
		a := nd.U64("out")
		out.add(a)
		o := basic(ed(2), iotago.BaseToken(a), 0)
		covered = covered && iotago.BaseToken(a) >= must(e.api.StorageScoreStructure().MinDeposit(o))
		e.out(o)
	}
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
		nd.Assert(in.eq(out), "accepted transaction changes the base token sum")
	} else {
		nd.Cover("rejected")
	}
	supply := sum128{0, uint64(e.api.ProtocolParameters().TokenSupply())}
	nd.Assert(ok == (in.eq(out) && covered && !supply.less(out)), "balanced, covered transactions within the supply are accepted")
}

var _ = nd.Reg("H_vm_base_balance_kinds", H_vm_base_balance_kinds)

// kindOutput is an output of each kind that can continue its chain without
// further conditions: k = 0 basic, 1 account, 2 NFT, 3 anchor, 4 foundry (which
// needs its account).
func kindOutput(k int, amount iotago.BaseToken, stateIndex uint32) iotago.TxEssenceOutput {
	switch k {
	case 0:
		return basic(ed(1), amount, 0)
	case 1:
		return account(7, amount)
	case 2:
		return &iotago.NFTOutput{
			Amount:            amount,
			NFTID:             iotago.NFTID(accID(8)),
			UnlockConditions:  iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}},
			Features:          iotago.NFTOutputFeatures{},
			ImmutableFeatures: iotago.NFTOutputImmFeatures{},
		}
	case 3:
		return &iotago.AnchorOutput{
			Amount:     amount,
			AnchorID:   iotago.AnchorID(accID(9)),
			StateIndex: stateIndex,
			UnlockConditions: iotago.AnchorOutputUnlockConditions{
				&iotago.StateControllerAddressUnlockCondition{Address: ed(1)},
				&iotago.GovernorAddressUnlockCondition{Address: ed(2)},
			},
			Features:          iotago.AnchorOutputFeatures{},
			ImmutableFeatures: iotago.AnchorOutputImmFeatures{},
		}
	default:
		return foundry(7, 1, amount, &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(0), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(10)})
	}
}

// account is an account output owned by ed(1) with id accID(b).
func account(b byte, amount iotago.BaseToken, feats ...iotago.AccountOutputFeature) *iotago.AccountOutput {
	return &iotago.AccountOutput{
		Amount:            amount,
		AccountID:         accID(b),
		FoundryCounter:    1,
		UnlockConditions:  iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(1)}},
		Features:          append(iotago.AccountOutputFeatures{}, feats...),
		ImmutableFeatures: iotago.AccountOutputImmFeatures{},
	}
}

// foundry is a foundry of account accID(acc).
func foundry(acc byte, serial uint32, amount iotago.BaseToken, scheme iotago.TokenScheme, feats ...iotago.FoundryOutputFeature) *iotago.FoundryOutput {
	addr := iotago.AccountAddress(accID(acc))
	return &iotago.FoundryOutput{
		Amount:            amount,
		SerialNumber:      serial,
		TokenScheme:       scheme,
		UnlockConditions:  iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &addr}},
		Features:          append(iotago.FoundryOutputFeatures{}, feats...),
		ImmutableFeatures: iotago.FoundryOutputImmFeatures{},
	}
}

// H_vm_base_balance_kinds: the same with every kind of output carrying the
// tokens.
func H_vm_base_balance_kinds() {
	e := newTxEnv(newAPI(), 100)
	supply := e.api.ProtocolParameters().TokenSupply()
	k := nd.Choice("kind", 5)
	kinds := []int{0, k}
	if k == 4 {
		kinds = []int{0, 1, 4}
	}
	var in, out sum128
	var total sum128
	for i, k := range kinds {
		a, b := nd.U64("in"), nd.U64("out")
		nd.Assume(a > 0 && iotago.BaseToken(a) <= supply)
		in.add(a)
		out.add(b)
		total.add(b)
		o := kindOutput(k, iotago.BaseToken(b), 4)
		nd.Assume(iotago.BaseToken(b) >= must(e.api.StorageScoreStructure().MinDeposit(o)) && iotago.BaseToken(b) <= supply)
		e.in(kindOutput(k, iotago.BaseToken(a), 3), 100)
		e.out(o)
		_ = i
	}
	nd.Assume(total.hi == 0 && total.lo <= uint64(supply))
	e.unlock(ed(1), 0)
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == in.eq(out), "accepted exactly when the base token sums agree")
}

var _ = nd.Reg("H_vm_storage_return", H_vm_storage_return)

// H_vm_storage_return: returns demanded by consumed outputs are paid, per
// return address, by plain transfers to that address.
func H_vm_storage_return() {
	e := newTxEnv(newAPI(), 100)
	minDep := uint64(1_000_000)
	limit := uint64(1) << 60
	amount := func(name string) uint64 { return nd.Range64(name, minDep, limit) }
	var in, out sum128
	var owed, paid [10]sum128 // by return address
	var owes [10]bool
	nIn := 1 + nd.Choice("inputs", 2)
	ret := make([]int, nIn)
	r := make([]uint64, nIn)
	for i := 0; i < nIn; i++ {
		a := amount("in")
		in.add(a)
		r[i] = nd.Range64("return", 0, limit)
		nd.Assume(r[i] <= a)
		ret[i] = 9
		if i == 1 {
			ret[i] = 8 + nd.Choice("returnTo", 2)
		}
		e.in(basic(ed(1), iotago.BaseToken(a), 0, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ed(byte(ret[i])), Amount: iotago.BaseToken(r[i])}), 100)
	}
	e.unlock(ed(1), 0)
	// whether the return address 9 itself unlocked an input (expiration)
	by := -1
	switch nd.Choice("returned", 4) {
	case 1:
		e.unlock(ed(9), 0)
		by = 0
	case 2:
		e.unlock(ed(9), 5)
		e.unlocked[ed(9).Key()].ReferencedByInputIndex[0] = struct{}{}
		by = 0
	case 3:
		e.unlock(ed(9), 5) // some other input
		by = 5
	}
	for i := 0; i < nIn; i++ {
		if !(ret[i] == 9 && by == i) {
			owed[ret[i]].add(r[i])
			owes[ret[i]] = true
		}
	}
	nOut := 1 + nd.Choice("outputs", 2)
	var has [10]bool
	for i := 0; i < nOut; i++ {
		a := amount("out")
		out.add(a)
		kinds := 5
		if i > 0 {
			kinds = 3
		}
		switch nd.Choice("outKind", kinds) {
		case 0:
			e.out(basic(ed(9), iotago.BaseToken(a), 0))
			paid[9].add(a)
			has[9] = true
		case 1:
			e.out(basic(ed(8), iotago.BaseToken(a), 0))
			paid[8].add(a)
			has[8] = true
		case 2: // to the right address, but with a feature
			o := basic(ed(9), iotago.BaseToken(a), 0)
			o.Features = iotago.BasicOutputFeatures{&iotago.TagFeature{Tag: []byte{1}}}
			e.out(o)
		case 3: // to the right address, but timelocked
			e.out(basic(ed(9), iotago.BaseToken(a), 0, &iotago.TimelockUnlockCondition{Slot: 7}))
		case 4: // not a basic output
			e.out(&iotago.NFTOutput{
				Amount:            iotago.BaseToken(a),
				UnlockConditions:  iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(9)}},
				Features:          iotago.NFTOutputFeatures{},
				ImmutableFeatures: iotago.NFTOutputImmFeatures{},
			})
		}
	}
	nd.Assume(out.hi == 0 && out.lo <= uint64(e.api.ProtocolParameters().TokenSupply()))
	want := in.eq(out)
	for a := 8; a <= 9; a++ {
		if owes[a] {
			want = want && has[a] && !paid[a].less(owed[a])
		}
	}
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == want, "accepted exactly when every demanded return is paid")
}

var _ = nd.Reg("H_vm_storage_return_created", H_vm_storage_return_created)

// H_vm_storage_return_created: the return demanded by a created output lies
// between the deposit of the return output and the amount of the output.
func H_vm_storage_return_created() {
	e := newTxEnv(newAPI(), 100)
	a, r := nd.U64("amount"), nd.U64("return")
	nd.Assume(a <= uint64(e.api.ProtocolParameters().TokenSupply()))
	var ret iotago.Address = ed(9)
	switch nd.Choice("return address", 4) {
	case 1:
		ret = &iotago.MultiAddress{Addresses: iotago.AddressesWithWeight{{Address: ed(1), Weight: 1}, {Address: ed(2), Weight: 1}, {Address: ed(3), Weight: 2}}, Threshold: 2}
	case 2:
		ret = &iotago.RestrictedAddress{Address: ed(9), AllowedCapabilities: iotago.AddressCapabilitiesBitMask{2}}
	case 3:
		id := accID(3)
		ret = id.ToAddress()
	}
	sdr := &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ret, Amount: iotago.BaseToken(r)}
	var o iotago.TxEssenceOutput = basic(ed(2), iotago.BaseToken(a), 0, sdr)
	if nd.Choice("kind", 2) == 1 {
		o = &iotago.NFTOutput{
			Amount:            iotago.BaseToken(a),
			UnlockConditions:  iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(2)}, sdr},
			Features:          iotago.NFTOutputFeatures{},
			ImmutableFeatures: iotago.NFTOutputImmFeatures{},
		}
	}
	nd.Assume(a > 0)
	e.in(basic(ed(1), iotago.BaseToken(a), 0), 100)
	e.unlock(ed(1), 0)
	e.out(o)
	ss := e.api.StorageScoreStructure()
	minDep := uint64(must(ss.MinDeposit(o)))
	back := uint64(must(ss.MinDeposit(basic(ret, 0, 0))))
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == (a >= minDep && back <= r && r <= a), "the return is payable and covers its output")
}

func token(acc byte, serial uint32) iotago.NativeTokenID {
	addr := iotago.AccountAddress(accID(acc))
	id := must(iotago.FoundryIDFromAddressAndSerialNumberAndTokenScheme(&addr, serial, iotago.TokenSchemeSimple))
	return id
}

func nt(id iotago.NativeTokenID, amount *big.Int) *iotago.NativeTokenFeature {
	return &iotago.NativeTokenFeature{ID: id, Amount: amount}
}

func basicNT(addr iotago.Address, f *iotago.NativeTokenFeature) *iotago.BasicOutput {
	o := basic(addr, 10_000_000, 0)
	o.Features = iotago.BasicOutputFeatures{f}
	return o
}

var maxUint256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

var _ = nd.Reg("H_vm_native_balance", H_vm_native_balance)

// H_vm_native_balance: without their foundry native tokens are conserved, or
// burned if the transaction may burn.
func H_vm_native_balance() {
	e := newTxEnv(newAPI(), 100)
	ids := [2]iotago.NativeTokenID{token(3, 1), token(3, 2)}
	var in, out [2]*big.Int
	for t := range in {
		in[t], out[t] = new(big.Int), new(big.Int)
	}
	pick := func(name string) int { return nd.Choice(name, 3) }
	var nIn, nOut [2]int
	for i := 0; i < 2; i++ {
		t := pick("inToken")
		if t == 2 {
			e.in(basic(ed(1), 10_000_000, 0), 100)
			continue
		}
		a := nd.Big("in")
		nd.Assume(a.Sign() > 0)
		in[t].Add(in[t], a)
		nIn[t]++
		e.in(basicNT(ed(1), nt(ids[t], a)), 100)
	}
	for i := 0; i < 2; i++ {
		t := pick("outToken")
		if t == 2 {
			e.out(basic(ed(1), 10_000_000, 0))
			continue
		}
		a := nd.Big("out")
		nd.Assume(a.Sign() > 0)
		out[t].Add(out[t], a)
		nOut[t]++
		e.out(basicNT(ed(1), nt(ids[t], a)))
	}
	burn := nd.Choice("burn", 2) == 1
	if burn {
		e.tx.Capabilities = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnNativeTokens(true))
	}
	e.unlock(ed(1), 0)
	want := true
	for t := range in {
		// the sum of all existing tokens fits
		nd.Assume(in[t].Cmp(maxUint256) <= 0)
		if burn {
			want = want && out[t].Cmp(in[t]) <= 0
		} else {
			want = want && out[t].Cmp(in[t]) == 0
		}
	}
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == want, "native tokens are conserved, or burned with permission")
}

var _ = nd.Reg("H_vm_foundry_supply", H_vm_foundry_supply)

// H_vm_foundry_supply: while a foundry transitions, its counters account for
// every token minted and melted and the supply stays within its maximum.
func H_vm_foundry_supply() {
	e := newTxEnv(newAPI(), 100)
	id := token(7, 1)
	minted, melted, max := nd.Big("minted"), nd.Big("melted"), nd.Big("max")
	minted2, melted2, max2 := nd.Big("minted2"), nd.Big("melted2"), nd.Big("max2")
	// the consumed foundry was valid
	supply := new(big.Int).Sub(minted, melted)
	nd.Assume(max.Sign() > 0 && supply.Sign() >= 0 && supply.Cmp(max) <= 0)
	in, out := new(big.Int), new(big.Int)
	inKind, outKind := nd.Choice("inToken", 3), nd.Choice("outToken", 3)
	var inF, outF []iotago.FoundryOutputFeature
	var inB, outB = basic(ed(1), 10_000_000, 0), basic(ed(1), 10_000_000, 0)
	if inKind > 0 {
		in = nd.Big("in")
		nd.Assume(in.Sign() > 0 && in.Cmp(supply) <= 0)
		if inKind == 1 {
			inB = basicNT(ed(1), nt(id, in))
		} else {
			inF = append(inF, nt(id, in))
		}
	}
	if outKind > 0 {
		out = nd.Big("out")
		nd.Assume(out.Sign() > 0)
		if outKind == 1 {
			outB = basicNT(ed(1), nt(id, out))
		} else {
			outF = append(outF, nt(id, out))
		}
	}
	e.in(account(7, 10_000_000), 100)
	e.in(foundry(7, 1, 10_000_000, &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: melted, MaximumSupply: max}, inF...), 100)
	e.in(inB, 100)
	e.out(account(7, 10_000_000))
	e.out(foundry(7, 1, 10_000_000, &iotago.SimpleTokenScheme{MintedTokens: minted2, MeltedTokens: melted2, MaximumSupply: max2}, outF...))
	e.out(outB)
	e.unlock(ed(1), 0)
	// burning is never possible while the foundry is there
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnNativeTokens(nd.Tier() == 0 || nd.Choice("burn", 2) == 1))
	ok := e.accepted()
	dMint, dMelt := new(big.Int).Sub(minted2, minted), new(big.Int).Sub(melted2, melted)
	diff := new(big.Int).Sub(out, in)
	if ok {
		nd.Cover("accepted")
		nd.Assert(max.Cmp(max2) == 0, "the maximum supply never changes")
		nd.Assert(dMint.Sign() >= 0 && dMelt.Sign() >= 0, "counters never decrease")
		nd.Assert(new(big.Int).Sub(dMint, dMelt).Cmp(diff) == 0, "counters account for every token")
		s2 := new(big.Int).Sub(minted2, melted2)
		nd.Assert(s2.Sign() >= 0 && s2.Cmp(max2) <= 0, "the supply stays within its maximum")
		nd.Assert(dMint.Sign() == 0 || dMelt.Sign() == 0, "a transaction does not mint and melt at once")
		if outKind > 0 && inKind == 0 {
			nd.Cover("minted from nothing")
		}
	} else {
		nd.Cover("rejected")
		s2 := new(big.Int).Sub(minted2, melted2)
		nd.Assert(!(max.Cmp(max2) == 0 && s2.Cmp(max2) <= 0 && dMint.Sign() >= 0 && dMelt.Sign() >= 0 && (dMint.Sign() == 0 || dMelt.Sign() == 0) && new(big.Int).Sub(dMint, dMelt).Cmp(diff) == 0), "honest minting and melting is accepted")
	}
}

var _ = nd.Reg("H_vm_foundry_ends", H_vm_foundry_ends)

// H_vm_foundry_ends: a new foundry counts exactly the tokens it starts with,
// and a foundry disappears only when no token is left uncounted.
func H_vm_foundry_ends() {
	e := newTxEnv(newAPI(), 100)
	id := token(7, 1)
	minted, melted, max := nd.Big("minted"), nd.Big("melted"), nd.Big("max")
	supply := new(big.Int).Sub(minted, melted)
	scheme := &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: melted, MaximumSupply: max}
	a, b := account(7, 10_000_000), account(7, 10_000_000)
	valid := max.Sign() > 0 && supply.Sign() >= 0 && supply.Cmp(max) <= 0
	var want bool
	if nd.Choice("end", 2) == 0 {
		a.FoundryCounter = 0
		var f []iotago.FoundryOutputFeature
		out := new(big.Int)
		if nd.Choice("outToken", 2) == 1 {
			out = nd.Big("out")
			nd.Assume(out.Sign() > 0)
			f = append(f, nt(id, out))
		}
		e.in(a, 100)
		e.in(basic(ed(1), 10_000_000, 0), 100)
		e.out(b)
		e.out(foundry(7, 1, 10_000_000, scheme, f...))
		want = valid && melted.Sign() == 0 && minted.Cmp(out) == 0
		nd.Cover("genesis")
	} else {
		nd.Assume(valid)
		in, out := new(big.Int), new(big.Int)
		inB, outB := basic(ed(1), 10_000_000, 0), basic(ed(1), 20_000_000, 0)
		if nd.Choice("inToken", 2) == 1 {
			in = nd.Big("in")
			nd.Assume(in.Sign() > 0 && in.Cmp(supply) <= 0)
			inB = basicNT(ed(1), nt(id, in))
			if nd.Choice("outToken", 2) == 1 {
				out = nd.Big("out")
				nd.Assume(out.Sign() > 0)
				outB.Features = iotago.BasicOutputFeatures{nt(id, out)}
			}
		}
		e.in(a, 100)
		e.in(foundry(7, 1, 10_000_000, scheme), 100)
		e.in(inB, 100)
		e.out(b)
		e.out(outB)
		destroy, burn := nd.Choice("destroy", 2) == 1, nd.Choice("burn", 2) == 1
		e.tx.Capabilities = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDestroyFoundryOutputs(destroy), iotago.WithTransactionCanBurnNativeTokens(burn))
		// minted + out - in == melted; tokens that leave without their foundry are burned
		left := new(big.Int).Sub(in, out)
		want = destroy && supply.Cmp(left) == 0 && left.Sign() >= 0 && (left.Sign() == 0 || burn)
		nd.Cover("destruction")
	}
	e.unlock(ed(1), 0)
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == want, "foundry creation and destruction account for all tokens")
}

var _ = nd.Reg("H_vm_base_balance_delegation", H_vm_base_balance_delegation)

// H_vm_base_balance_delegation: the same with delegations, whose own amount
// counts, whatever was delegated.
func H_vm_base_balance_delegation() {
	e := newTxEnv(newAPI(), 100)
	supply := e.api.ProtocolParameters().TokenSupply()
	e.commit(97)
	amount := func(name string) iotago.BaseToken {
		a := iotago.BaseToken(nd.U64(name))
		nd.Assume(a >= 1_000_000 && a <= supply/4)
		return a
	}
	a, b, x, y := amount("in"), amount("out"), amount("delegationIn"), amount("delegationOut")
	var in, out sum128
	e.in(basic(ed(1), a, 0), 100)
	in.add(uint64(a))
	switch nd.Choice("phase", 3) {
	case 0: // delegated
		e.out(delegation(y, iotago.DelegationID{}, 1, 0))
		out.add(uint64(y))
	case 1: // ended
		id := e.in(delegation(x, iotago.DelegationID{}, 1, 0), 100)
		o := delegation(y, iotago.DelegationIDFromOutputID(id), 1, 0)
		o.DelegatedAmount = x
		e.out(o)
		in.add(uint64(x))
		out.add(uint64(y))
		nd.Cover("ended")
	case 2: // claimed
		o := delegation(x, iotago.DelegationID(accID(3)), 1, 2)
		o.DelegatedAmount = y
		e.in(o, 100)
		e.reward(1, o.DelegationID, 0)
		in.add(uint64(x))
		nd.Cover("claimed")
	}
	out.add(uint64(b))
	e.out(basic(ed(1), b, 0))
	e.unlock(ed(1), 0)
	ok := e.accepted()
	nd.Assert(ok == in.eq(out), "accepted exactly when the base token sums agree")
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
}
