package props

import (
	"errors"
	"math/big"

	"github.com/iotaledger/hive.go/ierrors"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"verif/harness/nd"
)

// reasons are the documented codes of the reasons a transaction fails for.
var reasons = []struct {
	err  error
	code api.TransactionFailureReason
}{
	{iotago.ErrTxConflictRejected, 1},
	{iotago.ErrTxOrphaned, 2},
	{iotago.ErrInputAlreadySpent, 3},
	{iotago.ErrInputCreationAfterTxCreation, 4},
	{iotago.ErrUnlockSignatureInvalid, 5},
	{iotago.ErrChainAddressUnlockInvalid, 6},
	{iotago.ErrDirectUnlockableAddressUnlockInvalid, 7},
	{iotago.ErrMultiAddressUnlockInvalid, 8},
	{iotago.ErrCommitmentInputReferenceInvalid, 9},
	{iotago.ErrBICInputReferenceInvalid, 10},
	{iotago.ErrRewardInputReferenceInvalid, 11},
	{iotago.ErrStakingRewardCalculationFailure, 12},
	{iotago.ErrDelegationRewardCalculationFailure, 13},
	{iotago.ErrInputOutputBaseTokenMismatch, 14},
	{iotago.ErrManaOverflow, 15},
	{iotago.ErrInputOutputManaMismatch, 16},
	{iotago.ErrManaDecayCreationIndexExceedsTargetIndex, 17},
	{iotago.ErrNativeTokenSumUnbalanced, 18},
	{iotago.ErrSimpleTokenSchemeMintedMeltedTokenDecrease, 19},
	{iotago.ErrSimpleTokenSchemeMintingInvalid, 20},
	{iotago.ErrSimpleTokenSchemeMeltingInvalid, 21},
	{iotago.ErrSimpleTokenSchemeMaximumSupplyChanged, 22},
	{iotago.ErrSimpleTokenSchemeGenesisInvalid, 23},
	{iotago.ErrMultiAddressLengthUnlockLengthMismatch, 24},
	{iotago.ErrMultiAddressUnlockThresholdNotReached, 25},
	{iotago.ErrSenderFeatureNotUnlocked, 26},
	{iotago.ErrIssuerFeatureNotUnlocked, 27},
	{iotago.ErrStakingRewardInputMissing, 28},
	{iotago.ErrStakingCommitmentInputMissing, 29},
	{iotago.ErrStakingRewardClaimingInvalid, 30},
	{iotago.ErrStakingFeatureRemovedBeforeUnbonding, 31},
	{iotago.ErrStakingFeatureModifiedBeforeUnbonding, 32},
	{iotago.ErrStakingStartEpochInvalid, 33},
	{iotago.ErrStakingEndEpochTooEarly, 34},
	{iotago.ErrBlockIssuerCommitmentInputMissing, 35},
	{iotago.ErrBlockIssuanceCreditInputMissing, 36},
	{iotago.ErrBlockIssuerNotExpired, 37},
	{iotago.ErrBlockIssuerExpiryTooEarly, 38},
	{iotago.ErrManaMovedOffBlockIssuerAccount, 39},
	{iotago.ErrAccountLocked, 40},
	{iotago.ErrTimelockCommitmentInputMissing, 41},
	{iotago.ErrTimelockNotExpired, 42},
	{iotago.ErrExpirationCommitmentInputMissing, 43},
	{iotago.ErrExpirationNotUnlockable, 44},
	{iotago.ErrReturnAmountNotFulFilled, 45},
	{iotago.ErrNewChainOutputHasNonZeroedID, 46},
	{iotago.ErrChainOutputImmutableFeaturesChanged, 47},
	{iotago.ErrImplicitAccountDestructionDisallowed, 48},
	{iotago.ErrMultipleImplicitAccountCreationAddresses, 49},
	{iotago.ErrAccountInvalidFoundryCounter, 50},
	{iotago.ErrAnchorInvalidStateTransition, 51},
	{iotago.ErrAnchorInvalidGovernanceTransition, 52},
	{iotago.ErrFoundryTransitionWithoutAccount, 53},
	{iotago.ErrFoundrySerialInvalid, 54},
	{iotago.ErrDelegationCommitmentInputMissing, 55},
	{iotago.ErrDelegationRewardInputMissing, 56},
	{iotago.ErrDelegationRewardsClaimingInvalid, 57},
	{iotago.ErrDelegationOutputTransitionedTwice, 58},
	{iotago.ErrDelegationModified, 59},
	{iotago.ErrDelegationStartEpochInvalid, 60},
	{iotago.ErrDelegationAmountMismatch, 61},
	{iotago.ErrDelegationEndEpochNotZero, 62},
	{iotago.ErrDelegationEndEpochInvalid, 63},
	{iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, 64},
	{iotago.ErrTxCapabilitiesManaBurningNotAllowed, 65},
	{iotago.ErrTxCapabilitiesAccountDestructionNotAllowed, 66},
	{iotago.ErrTxCapabilitiesAnchorDestructionNotAllowed, 67},
	{iotago.ErrTxCapabilitiesFoundryDestructionNotAllowed, 68},
	{iotago.ErrTxCapabilitiesNFTDestructionNotAllowed, 69},
}

const otherReason = api.TransactionFailureReason(255)

var _ = nd.Reg("H_reason_tree", H_reason_tree)

// H_reason_tree: each reason is found wherever it is in the error, with the
// most detailed one first, and every code is its own encoding.
func H_reason_tree() {
	i := nd.Choice("reason", len(reasons))
	a := reasons[i]
	b := reasons[(i+nd.Choice("other", 4)*17+1)%len(reasons)]
	plain := ierrors.New("something")
	var err error
	want := a.code
	switch nd.Choice("shape", 10) {
	case 0:
		err = a.err
	case 1:
		err = ierrors.Wrap(a.err, "while doing")
	case 2:
		err = ierrors.WithMessagef(ierrors.Wrapf(a.err, "in %d", 3), "of %d", 4)
	case 3:
		err = ierrors.Join(b.err, a.err)
	case 4:
		err = ierrors.Join(b.err, ierrors.Wrap(ierrors.Join(a.err, plain), "deeper"))
	case 5: // the wrapped one is more detailed
		err = ierrors.Join(ierrors.Wrap(ierrors.Join(b.err, a.err), "x"), plain)
	case 6:
		err = ierrors.Join(a.err, plain)
	case 7:
		err = ierrors.Join(plain, ierrors.Join(ierrors.Wrap(b.err, "b"), ierrors.Wrap(a.err, "a")))
	case 8:
		err, want = plain, otherReason
	case 9:
		err, want = ierrors.Join(plain, ierrors.Wrap(plain, "x")), otherReason
	}
	got := api.DetermineTransactionFailureReason(err)
	nd.Assert(got == want, "the reason is the most detailed one the error is made of")
	w, e := got.Bytes()
	nd.Assert(e == nil && len(w) == 1 && w[0] == byte(want), "a reason is one byte, its code")
	back, n, e := api.TransactionFailureReasonFromBytes(w)
	nd.Assert(e == nil && n == 1 && back == got, "the reason reads back")
	nd.Cover("done")
}

// reasonOnly makes accepted judge the reason of a failure and nothing else.
var reasonOnly bool

// judged ends a harness once the reason has been judged.
type judged struct{}

func onlyReasons(f func()) {
	reasonOnly = true
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(judged); !ok {
				panic(r)
			}
		}
	}()
	f()
}

// checkReason asserts that the reason given for a failed execution is one the
// execution met, and that it says something if anything it met has a code.
func checkReason(err error) {
	if err == nil {
		nd.Cover("accepted")
		return
	}
	got := api.DetermineTransactionFailureReason(err)
	known, met := false, false
	for _, r := range reasons {
		if errors.Is(err, r.err) {
			known = true
			if r.code == got {
				met = true
			}
		}
	}
	if known {
		nd.Cover("reason")
		nd.Assert(met, "the reason is one that the failure is made of")
	} else {
		nd.Cover("other")
		nd.Assert(got == otherReason, "a failure without a documented reason has the general one")
	}
}

var _ = nd.Reg("H_reason_implicit", H_reason_implicit)

// H_reason_implicit: the failures among the transactions of H_implicit.
func H_reason_implicit() { onlyReasons(H_implicit) }

var _ = nd.Reg("H_reason_sender", H_reason_sender)

// H_reason_sender: the failures among the transactions of H_sender.
func H_reason_sender() { onlyReasons(H_sender) }

var _ = nd.Reg("H_reason_delegation_create", H_reason_delegation_create)

// H_reason_delegation_create: the failures among the transactions of H_delegation_create.
func H_reason_delegation_create() { onlyReasons(H_delegation_create) }

var _ = nd.Reg("H_reason_anchor_transition", H_reason_anchor_transition)

// H_reason_anchor_transition: the failures among the transactions of H_anchor_transition.
func H_reason_anchor_transition() { onlyReasons(H_anchor_transition) }

var _ = nd.Reg("H_reason_chain_immutable", H_reason_chain_immutable)

// H_reason_chain_immutable: the failures among the transactions of H_chain_immutable.
func H_reason_chain_immutable() { onlyReasons(H_chain_immutable) }

var _ = nd.Reg("H_reason_vm_timelock", H_reason_vm_timelock)

// H_reason_vm_timelock: the failures among the transactions of H_vm_timelock.
func H_reason_vm_timelock() { onlyReasons(H_vm_timelock) }

var _ = nd.Reg("H_reason_vm_expiration", H_reason_vm_expiration)

// H_reason_vm_expiration: the failures among the transactions of H_vm_expiration.
func H_reason_vm_expiration() { onlyReasons(H_vm_expiration) }

var _ = nd.Reg("H_reason_staking_implicit", H_reason_staking_implicit)

// H_reason_staking_implicit: the failures among the transactions of H_staking_implicit.
func H_reason_staking_implicit() { onlyReasons(H_staking_implicit) }

var _ = nd.Reg("H_reason_foundry_owner", H_reason_foundry_owner)

// H_reason_foundry_owner: the failures among the transactions of H_foundry_owner.
func H_reason_foundry_owner() { onlyReasons(H_foundry_owner) }

var _ = nd.Reg("H_reason_chain_destroy", H_reason_chain_destroy)

// H_reason_chain_destroy: the failures among the transactions of H_chain_destroy.
func H_reason_chain_destroy() { onlyReasons(H_chain_destroy) }

var _ = nd.Reg("H_reason_account_counter", H_reason_account_counter)

// H_reason_account_counter: the failures among the transactions of H_account_counter.
func H_reason_account_counter() { onlyReasons(H_account_counter) }

var _ = nd.Reg("H_reason_vm_foundry_supply", H_reason_vm_foundry_supply)

// H_reason_vm_foundry_supply: the failures among the transactions of H_vm_foundry_supply.
func H_reason_vm_foundry_supply() { onlyReasons(H_vm_foundry_supply) }

var _ = nd.Reg("H_reason_vm_mana_balance", H_reason_vm_mana_balance)

// H_reason_vm_mana_balance: the failures among the transactions of H_vm_mana_balance.
func H_reason_vm_mana_balance() { onlyReasons(H_vm_mana_balance) }

var _ = nd.Reg("H_reason_vm_storage_return", H_reason_vm_storage_return)

// H_reason_vm_storage_return: the failures among the transactions of H_vm_storage_return.
func H_reason_vm_storage_return() { onlyReasons(H_vm_storage_return) }

var _ = nd.Reg("H_reason_unlocks_direct", H_reason_unlocks_direct)

// H_reason_unlocks_direct: the failures among the unlocks of H_unlocks_direct.
func H_reason_unlocks_direct() { onlyReasons(H_unlocks_direct) }

var _ = nd.Reg("H_reason_unlocks_chain", H_reason_unlocks_chain)

// H_reason_unlocks_chain: the failures among the unlocks of H_unlocks_chain.
func H_reason_unlocks_chain() { onlyReasons(H_unlocks_chain) }

var _ = nd.Reg("H_reason_unlocks_multi", H_reason_unlocks_multi)

// H_reason_unlocks_multi: the failures among the unlocks of H_unlocks_multi.
func H_reason_unlocks_multi() { onlyReasons(H_unlocks_multi) }

var _ = nd.Reg("H_reason_single", H_reason_single)

// H_reason_single: a transaction with one thing wrong fails for the reason
// documented for it, whatever the amounts, slots and ids are.
func H_reason_single() {
	e := newTxEnv(newAPI(), 100)
	pp := e.api.ProtocolParameters()
	in, out := basic(ed(1), 10_000_000, 100), basic(ed(2), 10_000_000, 100)
	var want api.TransactionFailureReason
	var more []iotago.Output
	var outs iotago.TxEssenceOutputs
	slot := iotago.SlotIndex(100)
	e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63}
	chain := func(a, b iotago.TxEssenceOutput) {
		more = append(more, a)
		if b != nil {
			outs = append(outs, b)
		} else {
			out.Amount += a.BaseTokenAmount()
		}
	}
	switch nd.Choice("wrong", 22) {
	case 0:
		want = api.TxFailureInputOutputBaseTokenMismatch
		out.Amount = iotago.BaseToken(nd.Range64("amount", 1_000_000, 20_000_000))
		nd.Assume(out.Amount != in.Amount)
	case 1:
		want = api.TxFailureInputOutputManaMismatch
		out.Mana = iotago.Mana(nd.Range64("mana", 101, 1<<40))
	case 2:
		want = api.TxFailureCapabilitiesManaBurningNotAllowed
		e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63 &^ 2}
		out.Mana = iotago.Mana(nd.Range64("mana", 0, 99))
	case 3, 4:
		lock := iotago.SlotIndex(nd.U32("lock"))
		nd.Assume(lock > 0)
		in.UnlockConditions = append(in.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: lock})
		want = api.TxFailureTimelockCommitmentInputMissing
		if nd.Choice("commitment", 2) == 1 {
			want = api.TxFailureTimelockNotExpired
			c := iotago.SlotIndex(nd.Range64("committed", 1, 99))
			e.commit(c)
			nd.Assume(c+pp.MinCommittableAge() < lock)
		}
	case 5:
		want = api.TxFailureSenderFeatureNotUnlocked
		var a iotago.Ed25519Address
		nd.Fill("sender", a[:2])
		out.Features = append(out.Features, &iotago.SenderFeature{Address: &a})
	case 6:
		want = api.TxFailureReturnAmountNotFulFilled
		in.UnlockConditions = append(in.UnlockConditions, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ed(9), Amount: iotago.BaseToken(nd.Range64("return", 1_000_000, 5_000_000))})
	case 7: // a chain out of nothing
		want = api.TxFailureNewChainOutputHasNonZeroedID
		o := kindOutput(2, 10_000_000, 0).(*iotago.NFTOutput)
		nd.Fill("id", o.NFTID[:1])
		in.Amount += o.Amount
		outs = append(outs, o)
	case 8:
		want = api.TxFailureDelegationCommitmentInputMissing
		o := delegation(10_000_000, iotago.EmptyDelegationID(), iotago.EpochIndex(nd.U32("start")), 0)
		in.Amount += o.Amount
		outs = append(outs, o)
	case 9:
		want = api.TxFailureCapabilitiesNFTDestructionNotAllowed
		e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63 &^ 32}
		chain(kindOutput(2, 10_000_000, 0), nil)
	case 10:
		want = api.TxFailureCapabilitiesAnchorDestructionNotAllowed
		e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63 &^ 8}
		e.unlock(ed(2), 1)
		chain(kindOutput(3, 10_000_000, nd.U32("state")), nil)
	case 11:
		want = api.TxFailureCapabilitiesAccountDestructionNotAllowed
		e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63 &^ 4}
		chain(account(7, 10_000_000), nil)
	case 12:
		want = api.TxFailureNativeTokenSumUnbalanced
		if nd.Choice("no burning", 2) == 1 {
			e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{}
		}
		if nd.Choice("some", 2) == 1 {
			in.Features = append(in.Features, nt(token(7, 1), big.NewInt(1)))
			out.Features = append(out.Features, nt(token(7, 1), new(big.Int).SetUint64(nd.Range64("tokens", 2, 1<<60))))
			break
		}
		out.Features = append(out.Features, nt(token(7, 1), new(big.Int).SetUint64(nd.Range64("tokens", 1, 1<<60))))
	case 13:
		want = api.TxFailureCapabilitiesNativeTokenBurningNotAllowed
		if nd.Choice("some", 2) == 1 {
			out.Features = append(out.Features, nt(token(7, 1), big.NewInt(1)))
		}
		e.tx.Capabilities = iotago.TransactionCapabilitiesBitMask{63 &^ 1}
		in.Features = append(in.Features, nt(token(7, 1), new(big.Int).SetUint64(nd.Range64("tokens", 2, 1<<60))))
	case 14:
		want = api.TxFailureInputCreationAfterTxCreation
		slot = iotago.SlotIndex(nd.Range64("created", 101, 1000))
	case 15:
		want = api.TxFailureIssuerFeatureNotUnlocked
		var a iotago.Ed25519Address
		nd.Fill("issuer", a[:2])
		o := kindOutput(2, 10_000_000, 0).(*iotago.NFTOutput)
		o.NFTID = iotago.EmptyNFTID()
		o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: &a})
		in.Amount += o.Amount
		outs = append(outs, o)
	case 16:
		want = api.TxFailureChainOutputImmutableFeaturesChanged
		a, b := kindOutput(2, 10_000_000, 0).(*iotago.NFTOutput), kindOutput(2, 10_000_000, 0).(*iotago.NFTOutput)
		x, y := nd.U8("was"), nd.U8("is")
		nd.Assume(x != y)
		a.ImmutableFeatures = append(a.ImmutableFeatures, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": {x}}})
		b.ImmutableFeatures = append(b.ImmutableFeatures, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": {y}}})
		chain(a, b)
	case 17:
		want = api.TxFailureAnchorInvalidStateTransition
		x, y := nd.U32("was"), nd.U32("is")
		nd.Assume(x != 1<<32-1 && y != x && y != x+1)
		chain(kindOutput(3, 10_000_000, x), kindOutput(3, 10_000_000, y))
	case 18:
		want = api.TxFailureBlockIssuerCommitmentInputMissing
		chain(account(7, rich), account(7, rich, blockIssuer(iotago.SlotIndex(nd.U32("expiry")))))
	case 19:
		want = api.TxFailureBlockIssuanceCreditInputMissing
		e.commit(50)
		chain(account(7, rich, blockIssuer(1500)), account(7, rich, blockIssuer(iotago.SlotIndex(nd.Range64("expiry", 1000, 2000)))))
	case 20:
		want = api.TxFailureAccountLocked
		e.commit(50)
		c := nd.U64("credits")
		nd.Assume(c >= 1<<63)
		e.bic(accID(7), iotago.BlockIssuanceCredits(c))
		chain(account(7, rich, blockIssuer(1500)), account(7, rich, blockIssuer(iotago.SlotIndex(nd.Range64("expiry", 1000, 2000)))))
	case 21:
		want = api.TxFailureAccountInvalidFoundryCounter
		a, b := account(7, rich), account(7, rich)
		a.FoundryCounter, b.FoundryCounter = nd.U32("was"), nd.U32("is")
		nd.Assume(a.FoundryCounter != b.FoundryCounter)
		chain(a, b)
	}
	e.in(in, slot)
	for _, o := range more {
		e.in(o, 100)
	}
	e.out(out)
	for _, o := range outs {
		e.out(o)
	}
	e.unlock(ed(1), 0)
	err := e.exec()
	nd.Assert(err != nil, "the transaction fails")
	if err != nil {
		got := api.DetermineTransactionFailureReason(err)
		if got == api.TxFailureManaDecayCreationIndexExceedsTargetIndex { // of the same input
			got = api.TxFailureInputCreationAfterTxCreation
		}
		nd.Assert(got == want, "the failure has the reason documented for it")
	}
	nd.Cover("done")
}
