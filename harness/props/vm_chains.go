package props

import (
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"verif/harness/nd"
)

// biKeys is one fixed block issuer key.
func biKeys(b byte) iotago.BlockIssuerKeys {
	k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
	k.PublicKeyHash[0] = b
	return iotago.NewBlockIssuerKeys(k)
}

func blockIssuer(expiry iotago.SlotIndex) *iotago.BlockIssuerFeature {
	return &iotago.BlockIssuerFeature{ExpirySlot: expiry, BlockIssuerKeys: biKeys(1)}
}

// slotIn is a symbolic slot far below the end of the slot space.
func slotIn(name string) iotago.SlotIndex {
	s := nd.U32(name)
	nd.Assume(s < 1<<31)
	return iotago.SlotIndex(s)
}

func capabilities(name string, c ...func(bool) iotago.TransactionCapabilitiesBitMask) (iotago.TransactionCapabilitiesBitMask, bool) {
	on := nd.Choice(name, 2) == 1
	return c[0](on), on
}

func canDestroyAccount(on bool) iotago.TransactionCapabilitiesBitMask {
	return iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDestroyAccountOutputs(on))
}
func canDestroyAnchor(on bool) iotago.TransactionCapabilitiesBitMask {
	return iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDestroyAnchorOutputs(on))
}
func canDestroyNFT(on bool) iotago.TransactionCapabilitiesBitMask {
	return iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDestroyNFTOutputs(on))
}
func canDestroyFoundry(on bool) iotago.TransactionCapabilitiesBitMask {
	return iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDestroyFoundryOutputs(on))
}

// judge runs the transaction and compares acceptance with want.
func judge(e *txEnv, want bool, msg string) {
	ok := e.accepted()
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	nd.Assert(ok == want, msg)
}

const rich = iotago.BaseToken(1_000_000_000)

var _ = nd.Reg("H_issuer_expiry", H_issuer_expiry)

// H_issuer_expiry: a block issuer feature is added, changed and removed only
// as the commitment's slot allows, with non-negative block issuance credits.
func H_issuer_expiry() {
	e := newTxEnv(newAPI(), 100)
	pp := e.api.ProtocolParameters()
	a, b := account(7, rich), account(7, rich)
	from := nd.Choice("from", 4) // nothing, feature, implicit account, new account
	to := nd.Choice("to", 2) == 1
	c := slotIn("commitment")
	past := c + pp.MaxCommittableAge()
	has := nd.Choice("hasCommitment", 2) == 1
	var exp, exp2 iotago.SlotIndex
	if from == 1 {
		exp = iotago.SlotIndex(nd.U32("expiry"))
		a.Features = append(a.Features, blockIssuer(exp))
	}
	if to {
		exp2 = iotago.SlotIndex(nd.U32("nextExpiry"))
		b.Features = append(b.Features, blockIssuer(exp2))
	}
	id := iotago.AccountID(accID(7))
	switch from {
	case 0, 1:
		e.in(a, 100)
	case 2:
		o := basic(iotago.ImplicitAccountCreationAddressFromPubKey(newKey(1).pub()), rich, 0)
		id = iotago.AccountIDFromOutputID(e.in(o, 100))
		b.AccountID, b.FoundryCounter = id, 0
	case 3:
		e.in(basic(ed(1), rich, 0), 100)
		b.AccountID, b.FoundryCounter = iotago.EmptyAccountID, 0
	}
	e.out(b)
	e.unlock(ed(1), 0)
	bicOK := false
	if has {
		e.commit(c)
		switch nd.Choice("bic", 3) {
		case 1:
			v := nd.U64("credits")
			e.bic(id, iotago.BlockIssuanceCredits(v))
			bicOK = v < 1<<63
		case 2: // of another account
			e.bic(accID(77), 5)
		}
	}
	var want bool
	switch from {
	case 0, 3: // newly added
		want = !to || has && exp2 >= past
	case 1:
		switch {
		case !has || !bicOK:
		case exp >= c && !to: // not expired: not removable
			nd.Cover("removal before expiry")
		case exp >= c:
			want = exp2 == exp || exp2 >= past
		default:
			nd.Cover("expired")
			want = !to || exp2 >= past
		}
	case 2:
		want = to && has && bicOK && exp2 >= past
	}
	judge(e, want, "block issuer features change as the commitment allows")
}

var _ = nd.Reg("H_issuer_mana", H_issuer_mana)

// H_issuer_mana: mana does not leave an account that issues blocks, except to
// outputs locked for it; rewards, other inputs and burning stay free.
func H_issuer_mana() {
	api := newAPI()
	e := newTxEnv(api, 100)
	pp := api.ProtocolParameters()
	c := iotago.SlotIndex(1000)
	limit := uint64(1) << 60
	m := func(name string) iotago.Mana { return iotago.Mana(nd.Range64(name, 0, limit)) }
	a, b := account(7, rich), account(7, rich)
	id := iotago.AccountID(accID(7))
	in1, in2 := m("account"), m("other")
	out1, out2, allot := m("accountOut"), m("otherOut"), m("allotted")
	from := nd.Choice("from", 3)
	switch from {
	case 0:
		a.Features = append(a.Features, blockIssuer(2000))
		a.Mana = in1
		e.in(a, 100)
	case 1: // the feature is just added
		a.Mana = in1
		e.in(a, 100)
	case 2:
		id = iotago.AccountIDFromOutputID(e.in(basic(iotago.ImplicitAccountCreationAddressFromPubKey(newKey(1).pub()), rich, in1), 100))
		b.AccountID, b.FoundryCounter = id, 0
	}
	b.Features = append(b.Features, blockIssuer(2000))
	b.Mana = out1
	e.in(basic(ed(1), rich, in2), 100)
	e.out(b)
	locked := false
	lockFrom := c + 2*pp.MaxCommittableAge()
	switch k := nd.Choice("receiver", 5); k {
	case 0:
		e.out(basic(ed(2), rich, out2))
	case 1, 2: // locked for the account, possibly not long enough
		lock := iotago.SlotIndex(nd.U32("lock"))
		nd.Assume(lock > 0)
		e.out(basic(id.ToAddress(), rich, out2, &iotago.TimelockUnlockCondition{Slot: lock}))
		locked = lock > lockFrom
	case 3: // locked for another account
		e.out(basic(accID(70).ToAddress(), rich, out2, &iotago.TimelockUnlockCondition{Slot: 1 << 30}))
	case 4: // the account's address without lock
		e.out(basic(id.ToAddress(), rich, out2))
	}
	e.unlock(ed(1), 0)
	e.commit(c)
	e.bic(id, 0)
	own := false
	to := nd.Choice("allot", 3)
	switch to {
	case 0:
		nd.Assume(allot == 0)
	case 1:
		own = true
		e.tx.Allotments = iotago.Allotments{&iotago.Allotment{AccountID: id, Mana: allot}}
	case 2:
		e.tx.Allotments = iotago.Allotments{&iotago.Allotment{AccountID: accID(70), Mana: allot}}
	}
	burn := nd.Choice("burn", 2) == 1
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnMana(burn))
	in, out := in1+in2, out1+out2+allot
	want := in == out || burn && in > out
	// what leaves the account is at most what others brought in
	var leaves iotago.Mana
	if !locked {
		leaves += out2
	}
	if !own {
		leaves += allot
	}
	want = want && leaves <= in2
	judge(e, want, "mana stays with a block issuing account")
}

// stakingIn is a staking feature with symbolic fields.
func stakingIn(name string) *iotago.StakingFeature {
	return &iotago.StakingFeature{
		StakedAmount: iotago.BaseToken(nd.U64(name + "Amount")),
		FixedCost:    iotago.Mana(nd.U64(name + "Cost")),
		StartEpoch:   iotago.EpochIndex(nd.U32(name + "Start")),
		EndEpoch:     iotago.EpochIndex(nd.U32(name + "End")),
	}
}

var _ = nd.Reg("H_staking", H_staking)

// H_staking: stake is locked until its unbonding epoch has passed; then it is
// removed or reset exactly together with claiming its reward.
func H_staking() {
	e := newTxEnv(newAPI(), 100)
	pp := e.api.ProtocolParameters()
	tp := e.api.TimeProvider()
	a, b := account(7, rich), account(7, rich)
	far := iotago.MaxSlotIndex
	a.Features = append(a.Features, blockIssuer(far))
	b.Features = append(b.Features, blockIssuer(far))
	c := slotIn("commitment")
	var s, t *iotago.StakingFeature
	from := nd.Choice("from", 3) // without, with stake, new account
	if from == 1 {
		s = stakingIn("staked")
		nd.Assume(s.StakedAmount <= rich)
		a.Features = append(a.Features, s)
	}
	if nd.Choice("to", 2) == 1 {
		t = stakingIn("next")
		b.Features = append(b.Features, t)
	}
	if from == 2 {
		b.AccountID, b.FoundryCounter = iotago.EmptyAccountID, 0
		e.in(basic(ed(1), rich, 0), 100)
	} else {
		e.in(a, 100)
	}
	e.out(b)
	e.unlock(ed(1), 0)
	e.commit(c)
	e.bic(accID(7), 0)
	claim := from < 2 && nd.Choice("claim", 2) == 1
	if claim {
		e.reward(0, accID(7), 0)
	} else if from == 2 && maybe("others") {
		e.resolved.RewardsInputSet = vm.RewardsInputSet{accID(9): 0}
	}
	past := tp.EpochFromSlot(c + pp.MaxCommittableAge())
	future := tp.EpochFromSlot(c + pp.MinCommittableAge())
	fresh := func() bool { return t.StartEpoch == past && t.EndEpoch >= past+pp.StakingUnbondingPeriod() }
	want := t == nil || t.StakedAmount <= rich
	switch {
	case s == nil && t == nil:
		want = want && !claim
	case s == nil:
		want = want && !claim && fresh()
	case s.EndEpoch >= future: // bonded
		nd.Cover("bonded")
		want = want && !claim && t != nil && s.StakedAmount == t.StakedAmount && s.FixedCost == t.FixedCost && s.StartEpoch == t.StartEpoch &&
			(s.EndEpoch == t.EndEpoch || t.EndEpoch >= past+pp.StakingUnbondingPeriod())
	case t == nil:
		nd.Cover("removed")
		want = want && claim
	case *s == *t:
		want = want && !claim
	default:
		nd.Cover("reset")
		want = want && claim && fresh()
	}
	judge(e, want, "stake is bonded, and removed or reset with its reward")
}

var _ = nd.Reg("H_staking_implicit", H_staking_implicit)

// H_staking_implicit: converting an implicit account into a staking one obeys
// the rules of new stakes.
func H_staking_implicit() {
	e := newTxEnv(newAPI(), 100)
	pp := e.api.ProtocolParameters()
	tp := e.api.TimeProvider()
	b := account(7, rich)
	b.Features = append(b.Features, blockIssuer(iotago.MaxSlotIndex))
	c := slotIn("commitment")
	t := stakingIn("next")
	b.Features = append(b.Features, t)
	b.AccountID = iotago.AccountIDFromOutputID(e.in(basic(iotago.ImplicitAccountCreationAddressFromPubKey(newKey(1).pub()), rich, 0), 100))
	b.FoundryCounter = 0
	e.out(b)
	e.commit(c)
	e.bic(b.AccountID, 0)
	past := tp.EpochFromSlot(c + pp.MaxCommittableAge())
	judge(e, t.StakedAmount <= rich && t.StartEpoch == past && t.EndEpoch >= past+pp.StakingUnbondingPeriod(), "new stake starts now and bonds long enough")
}

var _ = nd.Reg("H_account_destroy", H_account_destroy)

// H_account_destroy: accounts are destroyed only with permission, expired
// block issuance, ended stake and claimed reward.
func H_account_destroy() {
	e := newTxEnv(newAPI(), 100)
	pp := e.api.ProtocolParameters()
	tp := e.api.TimeProvider()
	a := account(7, rich)
	issuer, stake := nd.Choice("issuer", 2) == 1, false
	exp := iotago.SlotIndex(nd.U32("expiry"))
	end := iotago.EpochIndex(nd.U32("end"))
	if issuer {
		a.Features = append(a.Features, blockIssuer(exp))
		if stake = nd.Choice("stake", 2) == 1; stake {
			a.Features = append(a.Features, &iotago.StakingFeature{StakedAmount: 5, FixedCost: 1, StartEpoch: 1, EndEpoch: end})
		}
	}
	e.in(a, 100)
	e.out(basic(ed(1), rich, 0))
	e.unlock(ed(1), 0)
	var can bool
	e.tx.Capabilities, can = capabilities("capability", canDestroyAccount)
	want := can
	c := slotIn("commitment")
	if nd.Choice("hasCommitment", 2) == 1 {
		e.commit(c)
		bic := nd.Choice("bic", 2) == 1
		credits := nd.U64("credits")
		if bic {
			e.bic(accID(7), iotago.BlockIssuanceCredits(credits))
		}
		claim := nd.Choice("claim", 2) == 1
		if claim {
			e.reward(0, accID(7), 0)
		}
		if issuer {
			want = want && exp < c && bic && credits < 1<<63
		}
		if stake {
			want = want && tp.EpochFromSlot(c+pp.MinCommittableAge()) > end
		}
		want = want && claim == stake
	} else {
		want = want && !issuer
	}
	judge(e, want, "accounts are destroyed only when nothing binds them")
}

var _ = nd.Reg("H_account_counter", H_account_counter)

// H_account_counter: an account's foundry counter grows exactly by the new
// foundries, whose serials fill the gap in order.
func H_account_counter() {
	e := newTxEnv(newAPI(), 100)
	a, b := account(7, rich), account(7, rich)
	a.FoundryCounter, b.FoundryCounter = nd.U32("counter"), nd.U32("nextCounter")
	e.in(a, 100)
	amount := rich
	old := nd.Choice("old", 2) == 1
	if old { // one foundry existed before
		e.in(kindOutput(4, 10_000_000, 0), 100)
		nd.Assume(a.FoundryCounter >= 1)
	}
	n := nd.Choice("new", 3)
	serials := make([]uint32, n)
	other := false
	for i := range serials {
		serials[i] = nd.U32("serial")
		acc := byte(7)
		if i == 1 && nd.Choice("account", 2) == 1 {
			acc, other = 70, true
		}
		f := kindOutput(4, 10_000_000, 0).(*iotago.FoundryOutput)
		addr := iotago.AccountAddress(accID(acc))
		f.UnlockConditions = iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &addr}}
		f.SerialNumber = serials[i]
		e.out(f)
		amount -= 10_000_000
		if old {
			nd.Assume(serials[i] != 1)
		}
	}
	// the foundries of one account differ
	if n == 2 && !other {
		nd.Assume(serials[0] != serials[1])
	}
	if old {
		e.out(kindOutput(4, 10_000_000, 0))
	}
	b.Amount = amount
	e.out(b)
	e.unlock(ed(1), 0)
	want := !other && b.FoundryCounter >= a.FoundryCounter && int(b.FoundryCounter-a.FoundryCounter) == n
	for i, s := range serials {
		want = want && s > a.FoundryCounter && s <= b.FoundryCounter && (i == 0 || s > serials[i-1])
	}
	judge(e, want, "serial numbers are given out once and in order")
}

var _ = nd.Reg("H_foundry_accounts", H_foundry_accounts)

// H_foundry_accounts: two accounts create up to three foundries between them,
// next to one that exists already, in any order of the outputs.
func H_foundry_accounts() {
	e := newTxEnv(newAPI(), 100)
	ids := [2]byte{7, 70}
	acc := func(b byte) *iotago.AccountAddress { a := iotago.AccountAddress(accID(b)); return &a }
	mk := func(owner int, serial uint32) *iotago.FoundryOutput {
		f := kindOutput(4, 10_000_000, 0).(*iotago.FoundryOutput)
		f.UnlockConditions = iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: acc(ids[owner])}}
		f.SerialNumber = serial
		return f
	}
	// one old foundry of the first account with serial number 5
	old := nd.Choice("old", 4) // position among the new ones, or none
	var in, out [2]*iotago.AccountOutput
	for i := range in {
		in[i], out[i] = account(ids[i], rich), account(ids[i], rich)
		in[i].FoundryCounter, out[i].FoundryCounter = nd.U32("counter"), nd.U32("next")
		nd.Assume(in[i].FoundryCounter < 1<<31)
		e.in(in[i], 100)
	}
	if old < 3 {
		nd.Assume(in[0].FoundryCounter >= 5)
		e.in(mk(0, 5), 100)
	}
	var n [2]uint32
	var last [2]uint32
	want := true
	var seen [3]uint32
	var owners [3]int
	for i := range seen {
		if i == old {
			e.out(mk(0, 5))
		}
		o, s := nd.Choice("owner", 2), nd.U32("serial")
		owners[i], seen[i] = o, s
		for j := range i { // ids differ
			nd.Assume(owners[j] != o || seen[j] != s)
		}
		nd.Assume(old == 3 || o == 1 || s != 5)
		e.out(mk(o, s))
		out[o].Amount -= 10_000_000
		want = want && s > in[o].FoundryCounter && s <= out[o].FoundryCounter && (n[o] == 0 || s > last[o])
		n[o], last[o] = n[o]+1, s
	}
	for i := range in {
		e.out(out[i])
		want = want && out[i].FoundryCounter == in[i].FoundryCounter+n[i]
	}
	e.unlock(ed(1), 0)
	judge(e, want, "each account numbers its own foundries")
}

var _ = nd.Reg("H_foundry_owner", H_foundry_owner)

// H_foundry_owner: foundries appear only next to the transition of their
// account, and disappear only with permission.
func H_foundry_owner() {
	e := newTxEnv(newAPI(), 100)
	a, b := account(7, rich), account(7, rich)
	a.FoundryCounter = 0
	hasIn, hasOut := nd.Choice("accountIn", 2) == 1, nd.Choice("accountOut", 2) == 1
	amount := iotago.BaseToken(10_000_000)
	e.in(basic(ed(1), 10_000_000, 0), 100)
	if hasIn {
		e.in(a, 100)
		amount += rich
	}
	if hasOut {
		b.Amount = amount - 10_000_000
		if !hasIn {
			nd.Assume(false)
		}
		e.out(b)
		amount = 10_000_000
	} else {
		e.tx.Capabilities = canDestroyAccount(true)
	}
	e.out(kindOutput(4, amount, 0))
	e.unlock(ed(1), 0)
	judge(e, hasIn && hasOut, "foundries are created by their account's transition")
}

var _ = nd.Reg("H_chain_destroy", H_chain_destroy)

// H_chain_destroy: NFTs, anchors and foundries disappear only with the
// capability for exactly their kind.
func H_chain_destroy() {
	e := newTxEnv(newAPI(), 100)
	k := 2 + nd.Choice("kind", 3)
	amount := iotago.BaseToken(10_000_000)
	e.in(kindOutput(k, 10_000_000, 5), 100)
	if k == 4 {
		e.in(account(7, rich), 100)
		e.out(account(7, rich))
	}
	e.out(basic(ed(1), amount, 0))
	e.unlock(ed(1), 0)
	c := nd.U8("capabilities")
	nd.Assume(c > 0 && c < 64)
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{c}
	// bit: burn tokens, burn mana, destroy account, anchor, foundry, NFT
	bit := []uint8{0, 0, 5, 3, 4}[k]
	judge(e, c>>bit&1 == 1, "destruction needs the capability of its kind")
}

var _ = nd.Reg("H_chain_ids", H_chain_ids)

// H_chain_ids: a chain output carries the id of a consumed chain of its kind,
// the id derived from a consumed new output, or, if new, none; the same chain
// appears at most once.
func H_chain_ids() {
	e := newTxEnv(newAPI(), 100)
	e.resolved.RewardsInputSet = vm.RewardsInputSet{}
	k := 1 + nd.Choice("kind", 3)
	fresh := nd.Choice("fresh", 2) == 1
	in := kindOutput(k, 10_000_000, 0)
	setID := func(o iotago.TxEssenceOutput, id [32]byte) {
		switch o := o.(type) {
		case *iotago.AccountOutput:
			o.AccountID = id
			o.FoundryCounter = 0
		case *iotago.NFTOutput:
			o.NFTID = id
		case *iotago.AnchorOutput:
			o.AnchorID = id
		}
	}
	getID := func(o iotago.TxEssenceOutput) [32]byte {
		switch o := o.(type) {
		case *iotago.AccountOutput:
			return o.AccountID
		case *iotago.NFTOutput:
			return o.NFTID
		case *iotago.AnchorOutput:
			return o.AnchorID
		}
		return [32]byte{}
	}
	id := getID(in)
	if fresh {
		setID(in, [32]byte{})
	} else {
		setID(in, id)
	}
	oid := e.in(in, 100)
	if fresh {
		id = iotago.AccountIDFromOutputID(oid)
	}
	e.unlock(ed(1), 0)
	e.unlock(ed(2), 0)
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63}
	n := 1 + nd.Choice("outputs", 2)
	want := true
	seen := 0
	for i := 0; i < n; i++ {
		ko := k
		if i == 0 && nd.Choice("otherKind", 2) == 1 {
			ko = 1 + k%3
		}
		o := kindOutput(ko, 10_000_000/iotago.BaseToken(n), 0)
		out := id
		switch nd.Choice("id", 3) {
		case 0: // new
			setID(o, [32]byte{})
			e.out(o)
			continue
		case 1: // the consumed one, changed anywhere in eight bytes
			var d uint64
			if n == 1 {
				d = nd.U64("change")
			}
			for j := 0; j < 8; j++ {
				out[4*j] ^= byte(d >> (8 * j))
			}
		case 2:
			out = accID(0xaa)
		}
		nd.Assume(out != [32]byte{})
		setID(o, out)
		e.out(o)
		want = want && ko == k && out == id
		if ko == k {
			seen++
		}
	}
	want = want && seen <= 1
	// an anchor without change of state index transitions by governance and keeps its amount
	if k == 3 && n == 2 && seen == 1 {
		want = false
	}
	judge(e, want, "chains continue with their own id, once")
}

// metadata is the content of a metadata feature, or none.
type metadata struct {
	shape int
	v, w  byte
}

const metadataShapes = 6

func someMetadata(name string, shapes int) metadata {
	return metadata{nd.Choice(name, shapes), nd.U8(name + "V"), nd.U8(name + "W")}
}

func (m metadata) entries() iotago.MetadataFeatureEntries {
	switch m.shape {
	case 1:
		return iotago.MetadataFeatureEntries{"k": {m.v}}
	case 2:
		return iotago.MetadataFeatureEntries{"m": {m.v}}
	case 3:
		return iotago.MetadataFeatureEntries{"k": {m.v, m.w}}
	case 4:
		return iotago.MetadataFeatureEntries{"k": {m.v}, "m": {m.w}}
	case 5:
		return iotago.MetadataFeatureEntries{"k": {}}
	}
	return nil
}

func (m metadata) state() iotago.StateMetadataFeatureEntries {
	r := iotago.StateMetadataFeatureEntries{}
	for k, v := range m.entries() {
		r[iotago.StateMetadataFeatureEntriesKey(k)] = iotago.StateMetadataFeatureEntriesValue(v)
	}
	return r
}

func (m metadata) eq(o metadata) bool {
	if m.shape != o.shape {
		return false
	}
	switch m.shape {
	case 1, 2:
		return m.v == o.v
	case 3, 4:
		return m.v == o.v && m.w == o.w
	}
	return true
}

var _ = nd.Reg("H_chain_immutable", H_chain_immutable)

// H_chain_immutable: immutable features never change, and a new chain names an
// issuer only if the issuer takes part.
func H_chain_immutable() {
	e := newTxEnv(newAPI(), 100)
	k := 1 + nd.Choice("kind", 4)
	create := k < 4 && nd.Choice("create", 2) == 1
	// features: optional issuer (account, NFT, anchor), optional metadata
	type imm struct {
		issuer bool
		addr   byte
		meta   metadata
	}
	eq := func(p, q imm) bool { return p.issuer == q.issuer && p.addr == q.addr && p.meta.eq(q.meta) }
	mk := func(o iotago.TxEssenceOutput, s string) (r imm) {
		if k < 4 && nd.Choice(s+"Issuer", 2) == 1 {
			r.issuer, r.addr = true, nd.U8(s+"Addr")
		}
		r.meta = someMetadata(s+"Metadata", metadataShapes)
		a := ed(3)
		a[31] = r.addr
		m := &iotago.MetadataFeature{Entries: r.meta.entries()}
		i := &iotago.IssuerFeature{Address: a}
		switch o := o.(type) {
		case *iotago.AccountOutput:
			if r.issuer {
				o.ImmutableFeatures = append(o.ImmutableFeatures, i)
			}
			if r.meta.shape > 0 {
				o.ImmutableFeatures = append(o.ImmutableFeatures, m)
			}
		case *iotago.NFTOutput:
			if r.issuer {
				o.ImmutableFeatures = append(o.ImmutableFeatures, i)
			}
			if r.meta.shape > 0 {
				o.ImmutableFeatures = append(o.ImmutableFeatures, m)
			}
		case *iotago.AnchorOutput:
			if r.issuer {
				o.ImmutableFeatures = append(o.ImmutableFeatures, i)
			}
			if r.meta.shape > 0 {
				o.ImmutableFeatures = append(o.ImmutableFeatures, m)
			}
		case *iotago.FoundryOutput:
			if r.meta.shape > 0 {
				o.ImmutableFeatures = append(o.ImmutableFeatures, m)
			}
		}
		return r
	}
	in, out := kindOutput(k, 10_000_000, 0), kindOutput(k, 10_000_000, uint32(nd.Choice("state", 2)))
	var want bool
	if create {
		switch o := out.(type) {
		case *iotago.AccountOutput:
			o.AccountID, o.FoundryCounter = iotago.EmptyAccountID, 0
		case *iotago.NFTOutput:
			o.NFTID = iotago.EmptyNFTID()
		case *iotago.AnchorOutput:
			o.AnchorID, o.StateIndex = iotago.EmptyAnchorID, 0
		}
		e.in(basic(ed(1), 10_000_000, 0), 100)
		q := mk(out, "next")
		want = !q.issuer || q.addr == 3 // ed(3) is unlocked
	} else {
		e.in(in, 100)
		p, q := mk(in, "current"), mk(out, "next")
		want = eq(p, q)
		if k == 4 {
			e.in(account(7, rich), 100)
			e.out(account(7, rich))
		}
	}
	e.out(out)
	e.unlock(ed(1), 0)
	if nd.Choice("issuerUnlocked", 2) == 1 {
		e.unlock(ed(3), 0)
	} else if create {
		want = want && !hasIssuer(out)
	}
	judge(e, want, "immutable features are set by their issuer and never change")
}

func hasIssuer(o iotago.TxEssenceOutput) bool {
	i, is := o.(iotago.ChainOutputImmutable)
	return is && i.ImmutableFeatureSet().Issuer() != nil
}

var _ = nd.Reg("H_anchor_transition", H_anchor_transition)

// H_anchor_transition: state transitions increment the state index and keep
// controllers and metadata; governance transitions keep amount, index and
// state metadata.
func H_anchor_transition() {
	e := newTxEnv(newAPI(), 100)
	i, j := nd.U32("index"), nd.U32("next")
	in, out := kindOutput(3, 10_000_000, i).(*iotago.AnchorOutput), kindOutput(3, 10_000_000, j).(*iotago.AnchorOutput)
	type content struct {
		state, gov  byte
		meta, smeta metadata
	}
	set := func(o *iotago.AnchorOutput, c content) {
		s, g := ed(1), ed(2)
		s[9], g[9] = c.state, c.gov
		o.UnlockConditions = iotago.AnchorOutputUnlockConditions{&iotago.StateControllerAddressUnlockCondition{Address: s}, &iotago.GovernorAddressUnlockCondition{Address: g}}
		o.Features = nil
		if c.meta.shape > 0 {
			o.Features = append(o.Features, &iotago.MetadataFeature{Entries: c.meta.entries()})
		}
		if c.smeta.shape > 0 {
			o.Features = append(o.Features, &iotago.StateMetadataFeature{Entries: c.smeta.state()})
		}
	}
	p, q := content{}, content{}
	p.state, p.gov = nd.U8("state"), nd.U8("gov")
	q.state, q.gov = nd.U8("state2"), nd.U8("gov2")
	// the metadata of one kind varies, that of the other is there or not
	if nd.Choice("vary", 2) == 0 {
		p.meta, q.meta = someMetadata("meta", metadataShapes), someMetadata("meta2", metadataShapes)
		p.smeta, q.smeta = someMetadata("smeta", 2), someMetadata("smeta2", 2)
	} else {
		p.meta, q.meta = someMetadata("meta", 2), someMetadata("meta2", 2)
		p.smeta, q.smeta = someMetadata("smeta", metadataShapes), someMetadata("smeta2", metadataShapes)
	}
	set(in, p)
	set(out, q)
	e.in(in, 100)
	e.in(basic(ed(1), rich, 0), 100)
	a := nd.Range64("amount", 5_000_000, 15_000_000)
	out.Amount = iotago.BaseToken(a)
	e.out(out)
	e.out(basic(ed(1), rich+10_000_000-out.Amount, 0))
	in.Mana, out.Mana = 3, 1
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{2}
	e.unlock(ed(1), 0)
	var want bool
	switch {
	case i == j:
		nd.Cover("governance")
		want = a == 10_000_000 && p.smeta.eq(q.smeta)
	default:
		nd.Cover("state")
		want = i+1 == j && p.state == q.state && p.gov == q.gov && p.meta.eq(q.meta)
	}
	judge(e, want, "anchors change as their controllers may")
}

var _ = nd.Reg("H_delegation_create", H_delegation_create)

// H_delegation_create: a delegation starts at the first epoch whose committee
// is not yet fixed, over its whole amount, without end.
func H_delegation_create() {
	e := newTxEnv(newAPI(), 100)
	pp := e.api.ProtocolParameters()
	tp := e.api.TimeProvider()
	o := delegation(10_000_000, iotago.DelegationID{}, iotago.EpochIndex(nd.U32("start")), iotago.EpochIndex(nd.U32("end")))
	o.DelegatedAmount = iotago.BaseToken(nd.U64("delegated"))
	x := nd.U8("id")
	o.DelegationID[5] = x
	v := nd.U8("validator")
	*o.ValidatorAddress = iotago.AccountAddress{3: v}
	e.in(basic(ed(1), 10_000_000, 0), 100)
	e.out(o)
	e.unlock(ed(1), 0)
	c := slotIn("commitment")
	has := nd.Choice("hasCommitment", 2) == 1
	if has {
		e.commit(c)
	}
	past := c + pp.MaxCommittableAge()
	start := tp.EpochFromSlot(past) + 1
	if past+pp.EpochNearingThreshold() > tp.EpochEnd(tp.EpochFromSlot(past)) {
		nd.Cover("committee fixed")
		start++
	}
	judge(e, has && x == 0 && v != 0 && o.DelegatedAmount == o.Amount && o.EndEpoch == 0 && o.StartEpoch == start, "delegations start with their first possible epoch")
}

var _ = nd.Reg("H_delegation_end", H_delegation_end)

// H_delegation_end: a delegation transitions once, only to record its end, and
// disappears exactly with its reward.
func H_delegation_end() {
	e := newTxEnv(newAPI(), 100)
	pp := e.api.ProtocolParameters()
	tp := e.api.TimeProvider()
	id := iotago.DelegationID{}
	delayed := nd.Choice("delayed", 2) == 1
	if delayed {
		id[0] = 9
	}
	in := delegation(10_000_000, id, 3, 0)
	if delayed {
		in.EndEpoch = 7
	}
	oid := e.in(in, 100)
	rid := id
	if !delayed {
		rid = iotago.DelegationIDFromOutputID(oid)
	}
	e.unlock(ed(1), 0)
	c := slotIn("commitment")
	has := nd.Choice("hasCommitment", 2) == 1
	claim := false
	if has {
		e.commit(c)
		if claim = nd.Choice("claim", 2) == 1; claim {
			e.reward(0, rid, 0)
		}
		if nd.Choice("another", 2) == 1 { // with its own reward
			o := delegation(10_000_000, iotago.DelegationID(accID(33)), 3, 5)
			e.in(o, 100)
			e.reward(1, o.DelegationID, 7)
			e.out(basic(ed(2), 10_000_000, 7))
		}
	}
	var want bool
	if nd.Choice("destroy", 2) == 1 {
		nd.Cover("destroyed")
		e.out(basic(ed(2), 10_000_000, 0))
		want = claim
	} else {
		out := delegation(10_000_000, rid, iotago.EpochIndex(nd.U32("start")), iotago.EpochIndex(nd.U32("end")))
		out.DelegatedAmount = iotago.BaseToken(nd.U64("delegated"))
		v := nd.U8("validator")
		out.ValidatorAddress[3] = v
		if nd.Choice("owner", 2) == 1 {
			out.UnlockConditions = iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ed(6)}}
		}
		e.out(out)
		future := c + pp.MinCommittableAge()
		end := tp.EpochFromSlot(future)
		if future+pp.EpochNearingThreshold() > tp.EpochEnd(end) {
			nd.Cover("committee fixed")
			end++
		}
		want = has && !delayed && !claim && out.DelegatedAmount == in.DelegatedAmount && v == 5 && out.StartEpoch == 3 && out.EndEpoch == end
	}
	judge(e, want, "delegations end once, with the right epoch and reward")
}

var _ = nd.Reg("H_sender", H_sender)

// H_sender: senders of outputs and issuers of new chains take part in the
// transaction, for every kind of address.
func H_sender() {
	e := newTxEnv(newAPI(), 100)
	issuer := maybe("issuer")
	k := nd.Choice("kind", 4)
	s := ed(3)
	x := nd.U64("address")
	for i := 0; i < 8; i++ {
		s[4*i] ^= byte(x >> (8 * i))
	}
	kind := nd.Choice("address", 7)
	a := kindAddress(kind, s)
	e.in(basic(ed(1), 10_000_000, 0), 100)
	o := kindOutput(k, 10_000_000, 0)
	sf, f := &iotago.SenderFeature{Address: a}, &iotago.IssuerFeature{Address: a}
	switch o := o.(type) {
	case *iotago.BasicOutput:
		nd.Assume(!issuer)
		o.Features = append(o.Features, sf)
	case *iotago.AccountOutput:
		o.AccountID, o.FoundryCounter = iotago.EmptyAccountID, 0
		if issuer {
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
		} else {
			o.Features = append(o.Features, sf)
		}
		if maybe("issuing blocks") {
			o.Features = append(o.Features, blockIssuer(1<<31))
			e.commit(50)
		}
	case *iotago.NFTOutput:
		o.NFTID = iotago.EmptyNFTID()
		if issuer {
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
		} else {
			o.Features = append(o.Features, sf)
		}
	case *iotago.AnchorOutput:
		nd.Assume(issuer)
		o.AnchorID, o.StateIndex = iotago.EmptyAnchorID, 0
		o.ImmutableFeatures = append(o.ImmutableFeatures, f)
	}
	e.out(o)
	e.unlock(ed(1), 0)
	un := nd.Choice("unlocked", 6)
	if un < 5 {
		e.unlock(kindAddress(un, ed(3)), 0)
	}
	// a restricted address is unlocked as the address it restricts
	is := kind
	if kind == 5 {
		is = 0
	} else if kind == 6 {
		is = 4
	}
	if issuer {
		nd.Cover("issuer")
	}
	judge(e, x == 0 && un == is, "senders and issuers take part in the transaction")
}

// kindAddress is an Ed25519, account, NFT, anchor or multi address with the bytes of s, or
// a restricted Ed25519 or multi address.
func kindAddress(kind int, s *iotago.Ed25519Address) iotago.Address {
	switch kind {
	case 1:
		v := iotago.AccountAddress(*s)
		return &v
	case 2:
		v := iotago.NFTAddress(*s)
		return &v
	case 3:
		v := iotago.AnchorAddress(*s)
		return &v
	case 4:
		n := iotago.NFTAddress(*ed(4))
		return iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: s, Weight: 1}, {Address: &n, Weight: 1}}, 2)
	case 5, 6:
		return &iotago.RestrictedAddress{Address: kindAddress(4*(kind-5), s), AllowedCapabilities: iotago.AddressCapabilitiesBitMask{1}}
	}
	return s
}

var _ = nd.Reg("H_implicit", H_implicit)

// H_implicit: an implicit account is only ever converted to its account, at
// most one per transaction.
func H_implicit() {
	e := newTxEnv(newAPI(), 100)
	addr := iotago.ImplicitAccountCreationAddressFromPubKey(newKey(1).pub())
	id := iotago.AccountIDFromOutputID(e.in(basic(addr, rich, 0), 100))
	two := nd.Choice("two", 2) == 1
	amount := rich
	if two {
		e.in(basic(addr, rich, 0), 100)
		amount += rich
	}
	b := account(7, amount, blockIssuer(5000))
	b.FoundryCounter = 0
	x := nd.U64("id")
	for i := 0; i < 8; i++ {
		id[4*i] ^= byte(x >> (8 * i))
	}
	b.AccountID = id
	nd.Assume(!id.Empty())
	kind := nd.Choice("kind", 3)
	switch kind {
	case 0:
		e.out(b)
	case 1: // destroyed
		e.out(basic(ed(2), amount, 0))
	case 2: // another kind of chain with that id
		o := kindOutput(2, amount, 0).(*iotago.NFTOutput)
		o.NFTID = iotago.NFTID(id)
		e.out(o)
	}
	e.unlock(addr, 0)
	e.commit(1000)
	e.bic(iotago.AccountIDFromOutputID(e.ids[0]), 0)
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63}
	judge(e, kind == 0 && x == 0 && !two, "implicit accounts become exactly their account")
}

var _ = nd.Reg("H_implicit_foundry", H_implicit_foundry)

// H_implicit_foundry: an account converted from an implicit one starts without
// foundries and counts those created with it.
func H_implicit_foundry() {
	e := newTxEnv(newAPI(), 100)
	addr := iotago.ImplicitAccountCreationAddressFromPubKey(newKey(1).pub())
	id := iotago.AccountIDFromOutputID(e.in(basic(addr, rich, 0), 100))
	b := account(7, rich, blockIssuer(5000))
	b.AccountID = id
	b.FoundryCounter = nd.U32("counter")
	n := nd.Choice("foundries", 2)
	want := int(b.FoundryCounter) == n
	e.out(b)
	if n == 1 {
		b.Amount -= 10_000_000
		f := kindOutput(4, 10_000_000, 0).(*iotago.FoundryOutput)
		f.UnlockConditions = iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: id.ToAddress().(*iotago.AccountAddress)}}
		f.SerialNumber = nd.U32("serial")
		want = want && f.SerialNumber == 1
		e.out(f)
	}
	e.unlock(addr, 0)
	e.commit(1000)
	e.bic(id, 0)
	judge(e, want, "converted accounts count their foundries from zero")
}
