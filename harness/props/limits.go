package props

import (
	"github.com/iotaledger/hive.go/serializer/v2/serix"

	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

// limited checks that x is encoded and decoded, with validation, exactly if it
// is within the documented limits. y receives what is decoded.
func limited(api iotago.API, x, y any, ok bool) {
	b, err := api.Encode(x, serix.WithValidation())
	nd.Assert((err == nil) == ok, "objects within the limits, and no others, are encoded")
	raw, err := api.Encode(x)
	if err != nil {
		nd.Assert(!ok, "objects within the limits are encoded")
		return
	}
	nd.Assert(!ok || eqBytes(raw, b), "validation does not change the encoding")
	n, err := api.Decode(raw, y, serix.WithValidation())
	nd.Assert((err == nil) == ok, "objects within the limits, and no others, are decoded")
	if !ok {
		nd.Cover("refused")
		return
	}
	back, err := api.Encode(y)
	nd.Assert(err == nil && n == len(raw) && eqBytes(back, raw), "objects within the limits survive")
	nd.Cover("accepted")
}

// around is a count at one of the limits or beyond it.
func around(least, most int) (n int, ok bool) {
	counts := []int{least, most, most + 1}
	if least > 0 {
		counts = append(counts, least-1)
	}
	n = counts[nd.Choice("count", len(counts))]
	return n, n >= least && n <= most
}

var _ = nd.Reg("H_limits_tx", H_limits_tx)

// H_limits_tx: the number of parts of every kind that transactions have.
func H_limits_tx() {
	api := newAPI()
	x := richTx(api)
	ess := x.Transaction.TransactionEssence
	ess.ContextInputs, ess.Allotments = nil, nil
	v := nd.U8("value")
	at := func(b []byte, i int) { // distinct, and one of them free
		b[0], b[1] = 1, byte(i)
		if i == 0 {
			b[9] = v
		}
	}
	var ok bool
	var n int
	switch nd.Choice("part", 4) {
	case 0:
		n, ok = around(0, 128)
		for i := 0; i < n; i++ {
			a := &iotago.BlockIssuanceCreditInput{}
			if at(a.AccountID[:], i); i == 0 {
				ess.ContextInputs = append(ess.ContextInputs, &iotago.CommitmentInput{CommitmentID: iotago.NewCommitmentID(97, iotago.Identifier(a.AccountID))})
				continue
			}
			ess.ContextInputs = append(ess.ContextInputs, a)
		}
	case 1:
		n, ok = around(1, 128)
		sig := x.Unlocks[0].(*iotago.SignatureUnlock)
		sig.Signature.(*iotago.Ed25519Signature).Signature[5] = v
		ess.Inputs, x.Unlocks = nil, nil
		for i := 0; i < n; i++ {
			in := &iotago.UTXOInput{}
			at(in.TransactionID[:], i)
			ess.Inputs = append(ess.Inputs, in)
			var u iotago.Unlock = &iotago.ReferenceUnlock{Reference: 0}
			if i == 0 {
				u = sig
			}
			x.Unlocks = append(x.Unlocks, u)
		}
	case 2:
		n, ok = around(1, 128)
		x.Transaction.Outputs = nil
		for i := 0; i < n; i++ {
			a := *ed(7)
			at(a[:], i)
			x.Transaction.Outputs = append(x.Transaction.Outputs, basic(&a, 1_000_000, 0))
		}
	case 3:
		n, ok = around(0, 128)
		for i := 0; i < n; i++ {
			a := &iotago.Allotment{Mana: 1}
			at(a.AccountID[:], i)
			ess.Allotments = append(ess.Allotments, a)
		}
	}
	limited(api, x, &iotago.SignedTransaction{}, ok)
}

var _ = nd.Reg("H_limits_block", H_limits_block)

// H_limits_block: the number of parents of every kind that blocks have.
func H_limits_block() {
	api := newAPI()
	validation := maybe("validation")
	most, kind := 8, 2
	if validation {
		most, kind = 50, 3
	}
	x := richBlock(api, kind)
	least := 0
	which := nd.Choice("parents", 3)
	if which == 0 {
		least = 1
	}
	n, ok := around(least, most)
	v := nd.U8("value")
	ids := iotago.BlockIDs{}
	for i := 0; i < n; i++ {
		id := iotago.NewBlockID(3, iotago.Identifier{100, byte(i)})
		if i == n-1 {
			id[9] = v
		}
		ids = append(ids, id)
	}
	if validation {
		b := x.Body.(*iotago.ValidationBlockBody)
		*[]*iotago.BlockIDs{&b.StrongParents, &b.WeakParents, &b.ShallowLikeParents}[which] = ids
	} else {
		b := x.Body.(*iotago.BasicBlockBody)
		*[]*iotago.BlockIDs{&b.StrongParents, &b.WeakParents, &b.ShallowLikeParents}[which] = ids
	}
	limited(api, x, &iotago.Block{API: api}, ok)
}

var _ = nd.Reg("H_limits_parts", H_limits_parts)

// H_limits_parts: the sizes of tags, data, metadata, capabilities, lists of keys, addresses
// and unlocks.
func H_limits_parts() {
	api := newAPI()
	v := nd.U8("value")
	nd.Assume(v != 0)
	text := func(n int) []byte {
		b := make([]byte, n)
		if n > 0 {
			b[n-1] = v
		}
		return b
	}
	switch nd.Choice("part", 11) {
	case 0:
		n, ok := around(1, 64)
		x := basic(ed(1), 1, 0)
		x.Features = append(x.Features, &iotago.TagFeature{Tag: text(n)})
		limited(api, x, &iotago.BasicOutput{}, ok)
	case 1:
		n, ok := around(0, 64)
		limited(api, &iotago.TaggedData{Tag: text(n), Data: []byte{1}}, &iotago.TaggedData{}, ok)
	case 2:
		n, ok := around(0, 8192)
		limited(api, &iotago.TaggedData{Tag: []byte{1}, Data: text(n)}, &iotago.TaggedData{}, ok)
	case 3:
		n, ok := around(1, 255)
		x := basic(ed(1), 1, 0)
		m := iotago.MetadataFeatureEntries{}
		for i := 0; i < n; i++ {
			m[iotago.MetadataFeatureEntriesKey([]byte{byte(33 + i/16), byte(33 + i%16)})] = text(min(1, n-1-i))
		}
		x.Features = append(x.Features, &iotago.MetadataFeature{Entries: m})
		limited(api, x, &iotago.BasicOutput{}, ok)
	case 4:
		n, ok := around(1, 255)
		x := &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{}}
		for i := 0; i < n; i++ {
			x.Entries[iotago.StateMetadataFeatureEntriesKey([]byte{byte(33 + i/16), byte(33 + i%16)})] = text(min(1, n-1-i))
		}
		limited(api, x, &iotago.StateMetadataFeature{}, ok)
	case 5:
		n, ok := around(0, 255)
		key := make([]byte, n)
		for i := range key {
			key[i] = 'k'
		}
		if n > 0 {
			key[n-1] = v
			ok = ok && v >= 33 && v <= 126
		}
		x := basic(ed(1), 1, 0)
		x.Features = append(x.Features, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{iotago.MetadataFeatureEntriesKey(key): []byte{1}}})
		limited(api, x, &iotago.BasicOutput{}, ok)
	case 6:
		n, ok := around(0, 2)
		limited(api, &iotago.RestrictedAddress{Address: ed(1), AllowedCapabilities: text(n)}, &iotago.RestrictedAddress{}, ok)
	case 7:
		n, ok := around(0, 1)
		x := richTx(api)
		x.Transaction.Capabilities = text(n)
		limited(api, x, &iotago.SignedTransaction{}, ok)
	case 8:
		n, ok := around(1, 128)
		f := &iotago.BlockIssuerFeature{ExpirySlot: 5}
		for i := 0; i < n; i++ {
			k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: iotago.Identifier{byte(i)}}
			if i == n-1 { // sorted and unique
				k.PublicKeyHash[0] = v
				ok = ok && (n < 2 || int(v) > n-2)
			}
			f.BlockIssuerKeys = append(f.BlockIssuerKeys, k)
		}
		limited(api, account(7, 1, f), &iotago.AccountOutput{}, ok)
	case 9:
		n, ok := around(2, 10)
		m := &iotago.MultiAddress{Threshold: 1}
		for i := 0; i < n; i++ {
			a := *ed(byte(i))
			if i == n-1 {
				a = *ed(byte(n - 2))
				a[5] = v
				ok = ok && int(v) > n-2
			}
			m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: &a, Weight: 1})
		}
		limited(api, m, &iotago.MultiAddress{}, ok)
	case 10:
		n, ok := around(2, 10)
		m := &iotago.MultiUnlock{Unlocks: iotago.Unlocks{}}
		for i := 0; i < n; i++ {
			m.Unlocks = append(m.Unlocks, &iotago.NFTUnlock{Reference: uint16(v)})
		}
		limited(api, m, &iotago.MultiUnlock{}, ok)
	}
}
