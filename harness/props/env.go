// Package props holds the property harnesses: ordinary Go functions over the
// public API of iota.go whose inputs come from package nd. The engine executes
// them symbolically; natively they replay recorded assignments.
package props

import (
	"bytes"
	"crypto/ed25519"
	"math/bits"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"
)

// must aborts the harness on errors in concrete set-up code.
func must[T any](v T, err error) T {
	if err != nil {
		panic("set-up: " + err.Error())
	}
	return v
}

// smallParams are protocol parameters with short epochs (8 slots) and a small
// decay table, everything else as in the defaults.
func smallParams() *iotago.V3ProtocolParameters { return paramsWithEpochs(13) }

// paramsWithEpochs are the same with 2^exp slots in an epoch.
func paramsWithEpochs(exp uint8) *iotago.V3ProtocolParameters {
	return iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(0, 1690879505, 10, exp),
		iotago.WithLivenessOptions(10, 15, 2, 4, min(60, iotago.SlotIndex(1)<<exp-1)),
		iotago.WithStakingOptions(2, 10, 10),
	)
}

func newAPI() iotago.API { return iotago.V3API(smallParams()) }

// ed returns a fixed Ed25519 address.
func ed(b byte) *iotago.Ed25519Address {
	var a iotago.Ed25519Address
	for i := range a {
		a[i] = b
	}
	return &a
}

func accID(b byte) iotago.AccountID {
	var a iotago.AccountID
	for i := range a {
		a[i] = b
	}
	return a
}

func txID(b byte, slot iotago.SlotIndex) iotago.TransactionID {
	var id iotago.Identifier
	for i := range id {
		id[i] = b
	}
	return iotago.NewTransactionID(slot, id)
}

// outID is the output id of the i-th test input created in the given slot.
func outID(b byte, slot iotago.SlotIndex) iotago.OutputID {
	return iotago.OutputIDFromTransactionIDAndIndex(txID(b, slot), 0)
}

// txEnv collects a transaction and what it is executed against.
type txEnv struct {
	api      iotago.API
	tx       *iotago.Transaction
	resolved vm.ResolvedInputs
	unlocked vm.UnlockedAddresses
	ids      []iotago.OutputID
	inputs   []iotago.Output
}

func newTxEnv(api iotago.API, slot iotago.SlotIndex) *txEnv {
	return &txEnv{
		api: api,
		tx: &iotago.Transaction{
			API: api,
			TransactionEssence: &iotago.TransactionEssence{
				NetworkID:    api.ProtocolParameters().NetworkID(),
				CreationSlot: slot,
			},
		},
		resolved: vm.ResolvedInputs{InputSet: vm.InputSet{}},
		unlocked: vm.UnlockedAddresses{},
	}
}

// in adds an input consumed from an output created in slot.
func (e *txEnv) in(o iotago.Output, slot iotago.SlotIndex) iotago.OutputID {
	id := outID(byte(len(e.ids)+1), slot)
	e.inID(o, id)
	return id
}

func (e *txEnv) inID(o iotago.Output, id iotago.OutputID) {
	in := &iotago.UTXOInput{TransactionOutputIndex: id.Index(), TransactionID: id.TransactionID()}
	e.tx.TransactionEssence.Inputs = append(e.tx.TransactionEssence.Inputs, in)
	e.resolved.InputSet[id] = o
	e.ids = append(e.ids, id)
	e.inputs = append(e.inputs, o)
}

func (e *txEnv) out(o iotago.TxEssenceOutput) { e.tx.Outputs = append(e.tx.Outputs, o) }

// unlock marks addr as unlocked by input i.
func (e *txEnv) unlock(addr iotago.Address, i int) {
	e.unlocked[addr.Key()] = &vm.UnlockedAddress{Address: addr, UnlockedAtInputIndex: uint16(i), ReferencedByInputIndex: map[uint16]struct{}{}}
}

// commit adds a commitment input for the given slot.
func (e *txEnv) commit(slot iotago.SlotIndex) {
	e.tx.TransactionEssence.ContextInputs = append(e.tx.TransactionEssence.ContextInputs, &iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(slot, iotago.Identifier{})})
	e.resolved.CommitmentInput = &iotago.Commitment{Slot: slot}
}

func (e *txEnv) bic(id iotago.AccountID, v iotago.BlockIssuanceCredits) {
	e.tx.TransactionEssence.ContextInputs = append(e.tx.TransactionEssence.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: id})
	if e.resolved.BlockIssuanceCreditInputSet == nil {
		e.resolved.BlockIssuanceCreditInputSet = vm.BlockIssuanceCreditInputSet{}
	}
	e.resolved.BlockIssuanceCreditInputSet[id] = v
}

func (e *txEnv) reward(i int, id iotago.ChainID, v iotago.Mana) {
	e.tx.TransactionEssence.ContextInputs = append(e.tx.TransactionEssence.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
	if e.resolved.RewardsInputSet == nil {
		e.resolved.RewardsInputSet = vm.RewardsInputSet{}
	}
	e.resolved.RewardsInputSet[id] = v
}

// valid is the real syntactic validation of the transaction.
func (e *txEnv) valid() error { return e.tx.SyntacticallyValidate(e.api) }

// exec is the real execution by the Nova virtual machine.
func (e *txEnv) exec() error {
	_, err := nova.NewVirtualMachine().Execute(e.tx, e.resolved, e.unlocked)
	return err
}

// accepted tells whether the transaction passes syntactic validation and execution.
func (e *txEnv) accepted() bool {
	if e.valid() != nil {
		if reasonOnly {
			panic(judged{})
		}
		return false
	}
	err := e.exec()
	if reasonOnly {
		checkReason(err)
		panic(judged{})
	}
	return err == nil
}

// basic is a basic output owned by addr.
func basic(addr iotago.Address, amount iotago.BaseToken, mana iotago.Mana, ucs ...iotago.BasicOutputUnlockCondition) *iotago.BasicOutput {
	return &iotago.BasicOutput{
		Amount:           amount,
		Mana:             mana,
		UnlockConditions: append(iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}, ucs...),
		Features:         iotago.BasicOutputFeatures{},
	}
}

// sum128 adds numbers without wrapping.
type sum128 struct{ hi, lo uint64 }

func (s *sum128) add(v uint64) {
	var c uint64
	s.lo, c = bits.Add64(s.lo, v, 0)
	s.hi += c
}

func (s sum128) eq(t sum128) bool   { return s.hi == t.hi && s.lo == t.lo }
func (s sum128) less(t sum128) bool { return s.hi < t.hi || (s.hi == t.hi && s.lo < t.lo) }

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// mulShift is v*f >> s modulo 2^64 for f < 2^32 and s <= 32, by splitting v.
func mulShift(v, f uint64, s uint) uint64 {
	return (v>>32)*f<<(32-s) + (v&0xffffffff)*f>>s
}

// mulShift2 is mulShift by long multiplication on 32-bit digits.
func mulShift2(hi, lo, f uint64, s uint) (uint64, uint64) {
	p := hi * f
	q := lo * f
	d := (p&(1<<s-1))<<(32-s) + q>>s
	return p>>s + d>>32, d & 0xffffffff
}

// key is a fixed Ed25519 key pair with its address.
type key struct {
	priv ed25519.PrivateKey
	addr *iotago.Ed25519Address
}

func newKey(b byte) key {
	seed := make([]byte, ed25519.SeedSize)
	seed[0] = b
	priv := ed25519.NewKeyFromSeed(seed)
	return key{priv, iotago.Ed25519AddressFromPubKey(priv.Public().(ed25519.PublicKey))}
}

func (k key) pub() ed25519.PublicKey { return k.priv.Public().(ed25519.PublicKey) }

func (k key) sign(msg []byte) *iotago.Ed25519Signature {
	s := &iotago.Ed25519Signature{}
	copy(s.PublicKey[:], k.pub())
	copy(s.Signature[:], ed25519.Sign(k.priv, msg))
	return s
}

// unlocks is the real unlock validation.
func (e *txEnv) unlocks(sx *iotago.SignedTransaction) (vm.UnlockedAddresses, error) {
	u, err := nova.NewVirtualMachine().ValidateUnlocks(sx, e.resolved)
	if reasonOnly {
		checkReason(err)
		panic(judged{})
	}
	return u, err
}
