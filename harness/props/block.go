package props

import (
	"bytes"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// This file states which blocks and unlock lists are valid and compares that
// with the validation run when they are encoded or decoded.

// blockAPI is an API with a genesis slot and committable ages.
func blockAPI(genesis, minAge, maxAge iotago.SlotIndex) iotago.API {
	return iotago.V3API(iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(genesis, 1690879505, 10, 13),
		iotago.WithLivenessOptions(10, 15, minAge, maxAge, 60),
	))
}

// judgeBlock compares validation of x, encoded or decoded, with the
// expectation.
func judgeBlock(api iotago.API, x *iotago.Block, want bool, msg string) {
	_, err := api.Encode(x, serix.WithValidation())
	if err == nil {
		nd.Cover("valid")
	} else {
		nd.Cover("invalid")
	}
	nd.Assert((err == nil) == want, msg)
	b := must(api.Encode(x))
	_, err = api.Decode(b, &iotago.Block{}, serix.WithValidation())
	nd.Assert((err == nil) == want, msg+" when decoded")
}

func plainBlock(api iotago.API, slot iotago.SlotIndex) *iotago.Block {
	x := richBlock(api, 2)
	x.Header.IssuingTime = api.TimeProvider().SlotStartTime(slot)
	x.Header.SlotCommitmentID = iotago.NewCommitmentID(slot-api.ProtocolParameters().MinCommittableAge(), iotago.Identifier{})
	return x
}

// within tells whether a block in slot may refer to the commitment of slot c.
func within(api iotago.API, slot, c iotago.SlotIndex) bool {
	p := api.ProtocolParameters()
	s, t := uint64(slot), uint64(c)
	recent := c > p.GenesisSlot() && s < t+uint64(p.MinCommittableAge())
	old := s > t+uint64(p.MaxCommittableAge())
	return !recent && !old
}

func someBlockAPI() (iotago.API, iotago.SlotIndex) {
	genesis := []iotago.SlotIndex{0, 50}[nd.Choice("genesis", 2)]
	ages := [][2]iotago.SlotIndex{{2, 4}, {5, 6}, {10, 20}}[nd.Choice("ages", 3)]
	slot := genesis + []iotago.SlotIndex{1, 7, 15, 1000}[nd.Choice("slot", 4)]
	return blockAPI(genesis, ages[0], ages[1]), slot
}

var _ = nd.Reg("H_block_commitment", H_block_commitment)

// H_block_commitment: a block commits to a slot that can be committed and is
// not too old, except to the genesis.
func H_block_commitment() {
	api, slot := someBlockAPI()
	x := richBlock(api, 2)
	if maybe("validation") {
		x = richBlock(api, 3)
	}
	x.Header.IssuingTime = api.TimeProvider().SlotStartTime(slot)
	c := iotago.SlotIndex(nd.U32("commitment"))
	x.Header.SlotCommitmentID = iotago.NewCommitmentID(c, iotago.Identifier{})
	x.Header.LatestFinalizedSlot = iotago.SlotIndex(nd.U32("finalized"))
	judgeBlock(api, x, within(api, slot, c), "blocks commit to slots within the window")
}

var _ = nd.Reg("H_block_tx", H_block_tx)

// H_block_tx: a transaction is not newer than its block, and its commitment is
// in the window and not newer than that of the block.
func H_block_tx() {
	api, slot := someBlockAPI()
	x := richBlock(api, 2)
	x.Header.IssuingTime = api.TimeProvider().SlotStartTime(slot)
	c := iotago.SlotIndex(nd.U32("commitment"))
	nd.Assume(within(api, slot, c))
	x.Header.SlotCommitmentID = iotago.NewCommitmentID(c, iotago.Identifier{})
	e := newTxEnv(api, iotago.SlotIndex(nd.U32("creation")))
	e.in(basic(ed(1), 1, 0), 50)
	e.out(basic(ed(1), 10_000_000, 5))
	want := e.tx.CreationSlot <= slot
	if maybe("input") {
		in := iotago.SlotIndex(nd.U32("commitmentInput"))
		e.commit(in)
		want = want && within(api, slot, in) && in <= c
	}
	x.Body.(*iotago.BasicBlockBody).Payload = &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: iotago.Unlocks{&iotago.SignatureUnlock{Signature: newKey(1).sign([]byte{1})}}}
	judgeBlock(api, x, want, "transactions fit into their block")
}

var _ = nd.Reg("H_block_header", H_block_header)

// H_block_header: version and network are those of the API; validators support
// the version of their block.
func H_block_header() {
	api := newAPI()
	x := richBlock(api, []int{0, 2, 3}[nd.Choice("kind", 3)])
	v, net := iotago.Version(nd.U8("version")), nd.U64("network")
	x.Header.ProtocolVersion, x.Header.NetworkID = v, net
	want := v == api.Version() && net == api.ProtocolParameters().NetworkID()
	if b, is := x.Body.(*iotago.ValidationBlockBody); is {
		b.HighestSupportedVersion = iotago.Version(nd.U8("supported"))
		want = want && b.HighestSupportedVersion >= v
	}
	_, err := api.Encode(x, serix.WithValidation())
	if err == nil {
		nd.Cover("valid")
	} else {
		nd.Cover("invalid")
	}
	nd.Assert((err == nil) == want, "blocks name the version and the network")
}

var _ = nd.Reg("H_block_parents", H_block_parents)

// H_block_parents: parents of each kind are sorted and unique, and weak parents
// are nothing else besides.
func H_block_parents() {
	api := newAPI()
	x := richBlock(api, 2)
	if maybe("validation") {
		x = richBlock(api, 3)
	}
	want := true
	list := func(name string, n int) (ids iotago.BlockIDs) {
		for i := 0; i < n; i++ {
			var id iotago.BlockID
			id[0], id[31], id[35] = nd.U8(name), nd.U8(name), nd.U8(name)
			if i > 0 && bytes.Compare(ids[i-1][:], id[:]) >= 0 {
				want = false
			}
			ids = append(ids, id)
		}
		return
	}
	n := [][3]int{{1, 0, 0}, {3, 0, 0}, {1, 2, 0}, {2, 2, 1}, {1, 1, 2}, {2, 3, 0}, {1, 0, 3}, {2, 2, 2}}[nd.Choice("parents", 7+nd.Tier())]
	s, w, l := list("strong", n[0]), list("weak", n[1]), list("shallow", n[2])
	for _, a := range w {
		for _, b := range s {
			want = want && a != b
		}
		for _, b := range l {
			want = want && a != b
		}
	}
	switch b := x.Body.(type) {
	case *iotago.BasicBlockBody:
		b.StrongParents, b.WeakParents, b.ShallowLikeParents = s, w, l
	case *iotago.ValidationBlockBody:
		b.StrongParents, b.WeakParents, b.ShallowLikeParents = s, w, l
	}
	var err error
	if maybe("decode") {
		_, err = api.Decode(must(api.Encode(x)), &iotago.Block{}, serix.WithValidation())
	} else {
		_, err = api.Encode(x, serix.WithValidation())
	}
	if err == nil {
		nd.Cover("valid")
	} else {
		nd.Cover("invalid")
	}
	nd.Assert((err == nil) == want, "parents are sorted, unique and disjoint")
}

var _ = nd.Reg("H_block_size", H_block_size)

// H_block_size: no block exceeds 32 KiB.
func H_block_size() {
	api := newAPI()
	x := richBlock(api, 1)
	tx := x.Body.(*iotago.BasicBlockBody).Payload.(*iotago.SignedTransaction)
	size := 32768 - 2 + nd.Choice("size", 5)
	for i := 0; i < 4; i++ {
		o := basic(ed(1), 10_000_000, 0)
		o.Amount = rich
		n := 7990
		if i == 3 {
			o.Features = append(o.Features, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": {}}})
			tx.Transaction.Outputs = append(tx.Transaction.Outputs, o)
			var w wire
			w.block(x)
			n = size - len(w.b)
			o.Features = nil
			tx.Transaction.Outputs = tx.Transaction.Outputs[:len(tx.Transaction.Outputs)-1]
		}
		d := make([]byte, n)
		d[0], d[n-1] = nd.U8("byte"), nd.U8("byte")
		o.Features = append(o.Features, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": d}})
		tx.Transaction.Outputs = append(tx.Transaction.Outputs, o)
	}
	var w wire
	w.block(x)
	nd.Assert(len(w.b) == size, "the harness builds the size it wants")
	judgeBlock(api, x, size <= 32768, "blocks are at most 32 KiB")
}

var _ = nd.Reg("H_tx_unlocks", H_tx_unlocks)

// H_tx_unlocks: there is one unlock for each input; signers are unique,
// references point back to something that unlocks, and multi unlocks are unique
// and not nested.
func H_tx_unlocks() {
	api := newAPI()
	n := 1 + nd.Choice("unlocks", 3+nd.Tier())
	inputs := n
	if nd.Choice("mismatch", 2) == 1 {
		inputs = []int{1, 2, 3, 4, 5}[nd.Choice("inputs", 5)]
	}
	e := newTxEnv(api, 100)
	for i := 0; i < inputs; i++ {
		e.in(basic(ed(1), 1, 0), 50)
	}
	e.out(basic(ed(1), 10_000_000, 0))
	want := n == inputs
	allKinds := 5
	if !want {
		allKinds = 1
	}
	var us iotago.Unlocks
	var signers, inMulti []byte
	var kinds []int // of the unlocks before: 0 signature, 1 reference, 2 chain, 3 multi, 4 invalid
	var multis []multiUnlock
	sig := func(b byte) *iotago.SignatureUnlock {
		s := &iotago.Ed25519Signature{}
		s.PublicKey[0] = b
		return &iotago.SignatureUnlock{Signature: s}
	}
	// in tells whether the reference r points to an unlock of one of the kinds
	in := func(r uint16, ks ...int) bool {
		ok := false
		for j, k := range kinds {
			for _, l := range ks {
				if k == l && int(r) == j {
					ok = true
				}
			}
		}
		return ok
	}
	has := func(l []byte, b byte) bool {
		ok := false
		for _, c := range l {
			ok = ok || b == c
		}
		return ok
	}
	chain := func(name string, r uint16) iotago.Unlock {
		switch nd.Choice(name, 3) {
		case 0:
			return &iotago.AccountUnlock{Reference: r}
		case 1:
			return &iotago.AnchorUnlock{Reference: r}
		}
		return &iotago.NFTUnlock{Reference: r}
	}
	for i := 0; i < n; i++ {
		k := nd.Choice("kind", allKinds)
		switch k {
		case 0:
			b := nd.U8("signer")
			want = want && !has(signers, b) && !has(inMulti, b)
			signers = append(signers, b)
			us = append(us, sig(b))
		case 1:
			r := nd.U16("reference")
			want = want && in(r, 0, 3)
			us = append(us, &iotago.ReferenceUnlock{Reference: r})
		case 2:
			r := nd.U16("reference")
			want = want && in(r, 0, 1, 2, 3)
			us = append(us, chain("chain", r))
		case 3:
			var m multiUnlock
			var mu iotago.MultiUnlock
			var own []byte
			for j := 0; j < 2; j++ {
				m[j].kind = nd.Choice("subKind", 5)
				switch m[j].kind {
				case 0:
					b := nd.U8("signer")
					m[j].b = b
					want = want && !has(signers, b)
					nd.Assume(!has(own, b))
					own = append(own, b)
					mu.Unlocks = append(mu.Unlocks, sig(b))
				case 1:
					r := nd.U16("reference")
					m[j].r = r
					want = want && in(r, 0)
					mu.Unlocks = append(mu.Unlocks, &iotago.ReferenceUnlock{Reference: r})
				case 2:
					r := nd.U16("reference")
					m[j].r = r
					nd.Assume(!in(r, 3))
					want = want && in(r, 0, 1, 2)
					mu.Unlocks = append(mu.Unlocks, &iotago.NFTUnlock{Reference: r})
				case 3:
					mu.Unlocks = append(mu.Unlocks, &iotago.EmptyUnlock{})
				case 4:
					want = false
					mu.Unlocks = append(mu.Unlocks, &iotago.MultiUnlock{Unlocks: iotago.Unlocks{sig(1)}})
				}
			}
			inMulti = append(inMulti, own...)
			for _, o := range multis {
				want = want && o != m
			}
			multis = append(multis, m)
			us = append(us, &mu)
		case 4:
			want = false
			us = append(us, &iotago.EmptyUnlock{})
		}
		kinds = append(kinds, k)
	}
	x := &iotago.SignedTransaction{API: api, Transaction: e.tx, Unlocks: us}
	_, err := api.Encode(x, serix.WithValidation())
	if err == nil {
		nd.Cover("valid")
	} else {
		nd.Cover("invalid")
	}
	nd.Assert((err == nil) == want, "unlocks are well-formed")
}

type multiUnlock [2]struct {
	kind int
	b    byte
	r    uint16
}
