package props

import (
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/hive.go/serializer/v2/serix"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

func anySignature(name string) *iotago.Ed25519Signature {
	s := &iotago.Ed25519Signature{}
	nd.Fill(name+"Key", s.PublicKey[:])
	nd.Fill(name+"Bytes", s.Signature[:])
	return s
}

func anyTagged() *iotago.TaggedData {
	return &iotago.TaggedData{Tag: anyBytes("tag", 0, 3, 64), Data: anyBytes("data", 0, 5)}
}

// anyTx is a syntactically valid transaction with symbolic content. n is the
// number of inputs and what selects the part that varies.
func anyTx(api iotago.API, n int) *txEnv {
	e := newTxEnv(api, iotago.SlotIndex(nd.U32("creationSlot")))
	ess := e.tx.TransactionEssence
	for i := 0; i < n; i++ {
		in := &iotago.UTXOInput{TransactionID: iotago.NewTransactionID(iotago.SlotIndex(nd.U32("inputSlot")), anyID("inputTx")), TransactionOutputIndex: nd.U16("inputIndex")}
		nd.Assume(in.TransactionOutputIndex < 128)
		in.TransactionID[0] = byte(i)
		ess.Inputs = append(ess.Inputs, in)
	}
	if c := nd.Choice("contextInputs", 4); c > 0 {
		ess.ContextInputs = append(ess.ContextInputs, &iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(iotago.SlotIndex(nd.U32("commitmentSlot")), anyID("commitment"))})
		if c >= 2 {
			ess.ContextInputs = append(ess.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: anyID("credits")})
		}
		if c == 3 {
			r := nd.U16("rewardIndex")
			nd.Assume(int(r) < n)
			ess.ContextInputs = append(ess.ContextInputs, &iotago.RewardInput{Index: r})
		}
	}
	for i := nd.Choice("allotments", 3); i > 0; i-- {
		a := &iotago.Allotment{AccountID: anyID("allotted"), Mana: iotago.Mana(nd.U64("allotment"))}
		a.AccountID[0] = byte(10 - i)
		nd.Assume(a.Mana < 1<<60)
		ess.Allotments = append(ess.Allotments, a)
	}
	if maybe("capabilities") {
		ess.Capabilities = iotago.TransactionCapabilitiesBitMask{nd.U8("capability")}
		nd.Assume(ess.Capabilities[0] != 0)
	}
	if maybe("payload") {
		ess.Payload = &iotago.TaggedData{Tag: anyBytes("tag", 0, 3), Data: nd.Bytes("data", 3)}
	}
	for i := 1 + nd.Choice("outputs", 2); i > 0; i-- {
		o := basic(anyEd("owner"), iotago.BaseToken(nd.U64("amount")), iotago.Mana(nd.U64("mana")))
		nd.Assume(o.Amount >= 1_000_000 && o.Amount <= rich && o.Mana < 1<<60)
		e.out(o)
	}
	return e
}

var _ = nd.Reg("H_wire_tx", H_wire_tx)

// H_wire_tx: signed transactions of every shape.
func H_wire_tx() {
	api := newAPI()
	e := anyTx(api, 2)
	x := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{
		&iotago.SignatureUnlock{Signature: anySignature("signature")}, &iotago.ReferenceUnlock{Reference: 0}}}
	var w wire
	w.payload(x)
	y := &iotago.SignedTransaction{}
	checkWire(api, x, y, &w, x.Size())
	var tw wire
	tw.tx(e.tx)
	nd.Assert(e.tx.Size() == len(tw.b), "the size of a transaction is its encoded size")
	checkTxIDs(x, y)
	nd.Cover("done")
}

func checkTxIDs(x, y *iotago.SignedTransaction) {
	idx, idy := must(x.Transaction.ID()), must(y.Transaction.ID())
	nd.Assert(idx == idy, "a transaction keeps its id")
	nd.Assert(idx.Slot() == x.Transaction.CreationSlot, "a transaction id names its creation slot")
	sx, sy := must(x.ID()), must(y.ID())
	nd.Assert(sx == sy && sx.Slot() == x.Transaction.CreationSlot, "a signed transaction keeps its id")
	nd.Assert(eqBytes(must(x.Transaction.SigningMessage()), must(y.Transaction.SigningMessage())), "the signing message is kept")
}

// anyUnlocks is a signed transaction with every kind of unlock.
func anyUnlocks(api iotago.API) *iotago.SignedTransaction {
	sig := func(n string) *iotago.SignatureUnlock { return &iotago.SignatureUnlock{Signature: anySignature(n)} }
	a, b := sig("a"), sig("b")
	nd.Assume(a.Signature.(*iotago.Ed25519Signature).PublicKey != b.Signature.(*iotago.Ed25519Signature).PublicKey)
	var us iotago.Unlocks
	ref := nd.U16("reference")
	switch nd.Choice("unlocks", 9) {
	case 0:
		us = iotago.Unlocks{a}
	case 1:
		us = iotago.Unlocks{a, b}
	case 2:
		nd.Assume(ref <= 1)
		us = iotago.Unlocks{a, b, &iotago.ReferenceUnlock{Reference: ref}}
	case 3:
		nd.Assume(ref <= 1)
		us = iotago.Unlocks{a, b, &iotago.AccountUnlock{Reference: ref}}
	case 4:
		nd.Assume(ref <= 1)
		us = iotago.Unlocks{a, b, &iotago.AnchorUnlock{Reference: ref}}
	case 5:
		nd.Assume(ref <= 1)
		us = iotago.Unlocks{a, b, &iotago.NFTUnlock{Reference: ref}}
	case 6:
		nd.Assume(ref == 0)
		us = iotago.Unlocks{a, &iotago.NFTUnlock{Reference: ref}, &iotago.AccountUnlock{Reference: 1}, &iotago.AnchorUnlock{Reference: 2}}
	case 7:
		us = iotago.Unlocks{&iotago.MultiUnlock{Unlocks: iotago.Unlocks{a, &iotago.EmptyUnlock{}, b}}, &iotago.ReferenceUnlock{Reference: 0}}
	case 8:
		nd.Assume(ref == 0)
		us = iotago.Unlocks{a, &iotago.MultiUnlock{Unlocks: iotago.Unlocks{&iotago.ReferenceUnlock{Reference: ref}, &iotago.EmptyUnlock{}}}}
	}
	e := newTxEnv(api, 100)
	for range us {
		e.in(basic(ed(1), 1, 0), 50)
	}
	e.out(basic(ed(1), 10_000_000, 0))
	return &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: us}
}

var _ = nd.Reg("H_wire_unlocks", H_wire_unlocks)

// H_wire_unlocks: every kind of unlock.
func H_wire_unlocks() {
	api := newAPI()
	x := anyUnlocks(api)
	us := x.Unlocks
	var w wire
	w.payload(x)
	y := &iotago.SignedTransaction{}
	checkWire(api, x, y, &w, x.Size())
	checkTxIDs(x, y)
	nd.Assert(len(y.Unlocks) == len(us), "all unlocks are kept")
	for i := range us {
		nd.Assert(us[i].Type() == y.Unlocks[i].Type(), "unlocks keep their kind")
	}
	nd.Cover("done")
}

func anyBlockIDs(name string, first byte, n int) iotago.BlockIDs {
	ids := make(iotago.BlockIDs, n)
	for i := range ids {
		nd.Fill(name, ids[i][:])
		ids[i][0] = first + byte(i)
	}
	return ids
}

// anyHeader is a block header that passes validation.
func anyHeader(api iotago.API) iotago.BlockHeader {
	p := api.ProtocolParameters()
	slot := iotago.SlotIndex(100)
	c := iotago.SlotIndex(nd.U32("commitmentSlot"))
	nd.Assume(c <= slot && c+p.MinCommittableAge() <= slot && slot <= c+p.MaxCommittableAge())
	ns := []uint64{0, 1, 999_999_999}[nd.Choice("nanoseconds", 3)]
	return iotago.BlockHeader{
		ProtocolVersion:     p.Version(),
		NetworkID:           p.NetworkID(),
		IssuingTime:         api.TimeProvider().SlotStartTime(slot).Add(time.Duration(ns)),
		SlotCommitmentID:    iotago.NewCommitmentID(c, anyID("commitment")),
		LatestFinalizedSlot: iotago.SlotIndex(nd.U32("finalized")),
		IssuerID:            anyID("issuer"),
	}
}

var _ = nd.Reg("H_wire_time", H_wire_time)

// H_wire_time: issuing times are kept to the nanosecond.
func H_wire_time() {
	api := newAPI()
	ns := []uint64{0, 1_700_000_000, 1 << 33}[nd.Choice("base", 3)]*1e9 + nd.Range64("offset", 0, 1<<31)
	x, y := &iotago.BlockHeader{IssuingTime: time.Unix(0, int64(ns)).UTC()}, &iotago.BlockHeader{}
	var w wire
	w.u8(0)
	w.u64(0)
	w.u64(ns)
	w.raw(make([]byte, 72))
	b, err := api.Encode(x)
	nd.Assert(err == nil && eqBytes(b, w.b), "the issuing time is encoded in nanoseconds")
	n, err := api.Decode(b, y)
	nd.Assert(err == nil && n == len(b), "headers decode")
	nd.Assert(y.IssuingTime.UnixNano() == int64(ns), "the issuing time is kept")
	nd.Cover("done")
}

// anyBlock is a block of any kind with any payload.
func anyBlock(api iotago.API) *iotago.Block {
	x := &iotago.Block{API: api, Header: anyHeader(api), Signature: anySignature("signature")}
	strong := anyBlockIDs("strong", 10, 1+nd.Choice("strongParents", 2))
	weak := anyBlockIDs("weak", 30, nd.Choice("weakParents", 2))
	shallow := anyBlockIDs("shallow", 50, nd.Choice("shallowParents", 2))
	if maybe("validation") {
		v := iotago.Version(nd.U8("supported"))
		nd.Assume(v >= x.Header.ProtocolVersion)
		x.Body = &iotago.ValidationBlockBody{API: api, StrongParents: strong, WeakParents: weak, ShallowLikeParents: shallow, HighestSupportedVersion: v, ProtocolParametersHash: anyID("parameters")}
	} else {
		b := &iotago.BasicBlockBody{API: api, StrongParents: strong, WeakParents: weak, ShallowLikeParents: shallow, MaxBurnedMana: iotago.Mana(nd.U64("burned"))}
		switch nd.Choice("payload", 4) {
		case 1:
			b.Payload = anyTagged()
		case 2:
			b.Payload = &iotago.CandidacyAnnouncement{}
		case 3:
			e := newTxEnv(api, 90)
			e.in(basic(ed(1), 1, 0), 50)
			e.out(basic(anyEd("owner"), 10_000_000, iotago.Mana(nd.U32("mana"))))
			if maybe("nestedPayload") {
				e.tx.Payload = &iotago.TaggedData{Tag: nd.Bytes("nestedTag", 2), Data: nd.Bytes("nestedData", 3)}
			}
			b.Payload = &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: anySignature("unlock")}}}
		}
		x.Body = b
	}
	return x
}

var _ = nd.Reg("H_wire_block", H_wire_block)

// H_wire_block: blocks of both kinds with every payload, and their IDs.
func H_wire_block() {
	api := newAPI()
	x := anyBlock(api)
	var w wire
	w.block(x)
	y := &iotago.Block{}
	checkWire(api, x, y, &w, x.Size())
	nd.Assert(y.Header.IssuingTime.Equal(x.Header.IssuingTime), "the issuing time is kept")

	// the block id: slot and hash over header, body and signature
	id := must(x.ID())
	var hw, bw wire
	hw.header(&x.Header)
	bw.raw(w.b[len(hw.b) : len(w.b)-97])
	var sw wire
	sw.signature(x.Signature)
	hh, bh := blake2b.Sum256(hw.b), blake2b.Sum256(bw.b)
	want := blake2b.Sum256(append(append(append([]byte{}, hh[:]...), bh[:]...), sw.b...))
	nd.Assert(id == must(y.ID()), "a block keeps its id")
	nd.Assert(eqBytes(id[:32], want[:]), "the id is the documented hash")
	nd.Assert(id.Slot() == x.Slot() && x.Slot() == 100, "a block id names its slot")
	msg := must(x.SigningMessage())
	nd.Assert(eqBytes(msg, append(append([]byte{}, hh[:]...), bh[:]...)), "the signing message is the header hash and the body hash")

	z, n, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(api))(w.b)
	nd.Assert(err == nil && n == len(w.b) && must(z.ID()) == id, "BlockFromBytes restores the block")
	nd.Cover("done")
}

var _ = nd.Reg("H_wire_longpayload", H_wire_longpayload)

// H_wire_longpayload: payload and metadata lengths around the widths of the
// length prefixes.
func H_wire_longpayload() {
	api := newAPI()
	n := []int{255, 256, 257, 4095, 8192}[nd.Choice("length", 5)]
	d := make([]byte, n)
	d[0], d[n-1] = nd.U8("first"), nd.U8("last")
	switch nd.Choice("where", 2) {
	case 0:
		x, y := &iotago.TaggedData{Tag: []byte{1}, Data: d}, &iotago.TaggedData{}
		var w wire
		w.payload(x)
		checkWire(api, x, y, &w, x.Size())
	case 1:
		x, y := basic(ed(1), 10, 0), &iotago.BasicOutput{}
		x.Features = append(x.Features, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": d}})
		var w wire
		w.output(x)
		checkWire(api, x, y, &w, x.Size())
	}
	nd.Cover("done")
}

var _ = serix.WithValidation
