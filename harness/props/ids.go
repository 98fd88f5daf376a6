package props

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/hexutil"
	"verif/harness/nd"
)

// idType is a kind of identifier, with its values as bytes.
type idType struct {
	n        int
	fromHex  func(string) ([]byte, error)
	toHex    func([]byte) string
	read     func([]byte) ([]byte, int, error)
	text     func([]byte) ([]byte, error)
	fromText func([]byte) ([]byte, error)
	valid    func([]byte) error
}

func cat(b []byte, err error) ([]byte, error) { return b, err }

var idTypes = []func() idType{
	func() idType {
		type T = iotago.Identifier
		return idType{iotago.IdentifierLength,
			func(s string) ([]byte, error) { x, err := iotago.IdentifierFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) { x, n, err := iotago.IdentifierFromBytes(b); return x[:], n, err },
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidIdentifier}
	},
	func() idType {
		type T = iotago.AccountID
		return idType{iotago.AccountIDLength,
			func(s string) ([]byte, error) { x, err := iotago.AccountIDFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) { x, n, err := iotago.AccountIDFromBytes(b); return x[:], n, err },
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidAccountID}
	},
	func() idType {
		type T = iotago.AnchorID
		return idType{iotago.AnchorIDLength,
			func(s string) ([]byte, error) { x, err := iotago.AnchorIDFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) { x, n, err := iotago.AnchorIDFromBytes(b); return x[:], n, err },
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidAnchorID}
	},
	func() idType {
		type T = iotago.BlockID
		return idType{iotago.BlockIDLength,
			func(s string) ([]byte, error) { x, err := iotago.BlockIDFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) { x, n, err := iotago.BlockIDFromBytes(b); return x[:], n, err },
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidBlockID}
	},
	func() idType {
		type T = iotago.CommitmentID
		return idType{iotago.CommitmentIDLength,
			func(s string) ([]byte, error) { x, err := iotago.CommitmentIDFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) { x, n, err := iotago.CommitmentIDFromBytes(b); return x[:], n, err },
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidCommitmentID}
	},
	func() idType {
		type T = iotago.TransactionID
		return idType{iotago.TransactionIDLength,
			func(s string) ([]byte, error) { x, err := iotago.TransactionIDFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) {
				x, n, err := iotago.TransactionIDFromBytes(b)
				return x[:], n, err
			},
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidTransactionID}
	},
	func() idType {
		type T = iotago.SignedTransactionID
		return idType{iotago.SignedTransactionIDLength,
			func(s string) ([]byte, error) { x, err := iotago.SignedTransactionIDFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) {
				x, n, err := iotago.SignedTransactionIDFromBytes(b)
				return x[:], n, err
			},
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidSignedTransactionID}
	},
	func() idType {
		type T = iotago.OutputID
		return idType{iotago.OutputIDLength,
			func(s string) ([]byte, error) { x, err := iotago.OutputIDFromHexString(s); return x[:], err },
			func(b []byte) string { return T(b).ToHex() },
			func(b []byte) ([]byte, int, error) { x, n, err := iotago.OutputIDFromBytes(b); return x[:], n, err },
			func(b []byte) ([]byte, error) { return T(b).MarshalText() },
			func(b []byte) ([]byte, error) { var x T; err := x.UnmarshalText(b); return x[:], err },
			iotago.IsValidOutputID}
	},
}

func hexOf(b []byte) string {
	const digits = "0123456789abcdef"
	var s []byte
	for _, v := range b {
		s = append(s, digits[v>>4], digits[v&15])
	}
	return string(s)
}

func idBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.U8("id")
	}
	return b
}

var _ = nd.Reg("H_id_hex", H_id_hex)

// H_id_hex: IDs have one text form each, which gives them back.
func H_id_hex() {
	t := idTypes[nd.Choice("type", len(idTypes))]()
	b := idBytes(t.n)
	s := t.toHex(b)
	nd.Assert(s == "0x"+hexOf(b), "the text of an ID is its hexadecimal form")
	got, err := t.fromHex(s)
	nd.Assert(err == nil && eqBytes(got, b), "the text of an ID gives the ID back")
	m, err := t.text(b)
	nd.Assert(err == nil && string(m) == hexOf(b), "marshalled IDs are hexadecimal")
	got, err = t.fromText(m)
	nd.Assert(err == nil && eqBytes(got, b), "marshalled IDs give the ID back")
	nd.Assert(t.valid(b) == nil, "IDs are valid")
	nd.Cover("done")
}

var _ = nd.Reg("H_id_length", H_id_length)

// H_id_length: bytes and text of any other length are no IDs.
func H_id_length() {
	t := idTypes[nd.Choice("type", len(idTypes))]()
	n := t.n + []int{0, -1, 1, -t.n, 1 - t.n, 2, 40}[nd.Choice("length", 7)]
	b := idBytes(n)
	nd.Assert((t.valid(b) == nil) == (n == t.n), "IDs have their length")
	got, k, err := t.read(b)
	nd.Assert((err == nil) == (n >= t.n), "IDs are read from their bytes")
	if err == nil {
		nd.Assert(k == t.n && eqBytes(got, b[:t.n]), "IDs are read from the first bytes")
	}
	_, err = t.fromHex("0x" + hexOf(b))
	nd.Assert((err == nil) == (n == t.n), "text of another length is rejected")
	_, err = t.fromHex(hexOf(b))
	nd.Assert(err != nil, "text without a prefix is rejected")
	_, err = t.fromText([]byte(hexOf(b)))
	nd.Assert((err == nil) == (n == t.n), "marshalled text of another length is rejected")
	nd.Cover("done")
}

var _ = nd.Reg("H_id_chars", H_id_chars)

// H_id_chars: only hexadecimal digits make IDs.
func H_id_chars() {
	t := idTypes[nd.Choice("type", len(idTypes))]()
	s := []byte("0x" + hexOf(idBytes(t.n)))
	i := []int{0, 1, 2, 3, 17, len(s) - 1}[nd.Choice("at", 6)]
	c := nd.U8("char")
	s[i] = c
	digit := c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
	ok := digit
	if i < 2 {
		ok = c == "0x"[i] || c == "0X"[i]
	}
	got, err := t.fromHex(string(s))
	nd.Assert((err == nil) == ok, "exactly hexadecimal digits are accepted")
	if err == nil {
		nd.Cover("accepted")
		nd.Assert(hexOf(got) == strings.ToLower(string(s[2:])), "what is parsed has that text")
	} else {
		nd.Cover("rejected")
	}
	if i >= 2 {
		_, err = t.fromText(s[2:])
		nd.Assert((err == nil) == digit, "exactly hexadecimal digits are unmarshalled")
	}
}

var _ = nd.Reg("H_output_id", H_output_id)

// H_output_id: output IDs are made of transaction ID and index, in every form.
func H_output_id() {
	x := iotago.TransactionID(idBytes(iotago.TransactionIDLength))
	i := nd.U16("index")
	id := iotago.OutputIDFromTransactionIDAndIndex(x, i)
	nd.Assert(eqBytes(id[:], binary.LittleEndian.AppendUint16(append([]byte(nil), x[:]...), i)), "an output ID is the transaction ID and the index")
	slot := iotago.SlotIndex(binary.LittleEndian.Uint32(x[32:]))
	nd.Assert(id.TransactionID() == x && id.Index() == i && id.Slot() == slot && id.CreationSlot() == slot && x.Slot() == slot, "an output ID gives its parts back")
	ident := id.Identifier()
	nd.Assert(eqBytes(ident[:], x[:32]), "the identifier is the hash")
	in := id.UTXOInput()
	nd.Assert(in.TransactionID == x && in.TransactionOutputIndex == i && in.OutputID() == id && in.Index() == i && in.CreationSlot() == slot, "an input refers to its output")
	s := id.ToHex()
	p, k, err := iotago.OutputIDHex(s).SplitParts()
	nd.Assert(err == nil && *p == x && k == i, "the text of an output ID splits into its parts")
	in2, err := iotago.OutputIDHex(s).AsUTXOInput()
	nd.Assert(err == nil && *in2 == *in, "the text of an output ID makes an input")
	ids, err := iotago.HexOutputIDsFromOutputIDs(id, iotago.EmptyOutputID).OutputIDs()
	nd.Assert(err == nil && len(ids) == 2 && ids[0] == id && ids[1] == iotago.EmptyOutputID, "texts of output IDs give the IDs back")
	n := []int{0, 1, 35, 36, 37, 39, 76}[nd.Choice("length", 7)]
	bad := "0x" + hexOf(idBytes(n))
	_, _, err = iotago.OutputIDHex(bad).SplitParts()
	nd.Assert(err != nil, "text of another length does not split into an output ID")
	_, err = iotago.HexOutputIDs{iotago.HexOutputID(bad)}.OutputIDs()
	nd.Assert(err != nil, "text of another length is no output ID")
	nd.Cover("done")
	e := iotago.EmptyOutputIDWithCreationSlot(slot)
	nd.Assert(e.CreationSlot() == slot && e.Index() == 0, "empty output IDs have a slot")
}

var _ = nd.Reg("H_ids_of_chains", H_chain_ids)

// H_ids_of_chains: chain IDs derive from output IDs, match themselves only and have
// addresses.
func H_ids_of_chains() {
	o := iotago.OutputID(idBytes(iotago.OutputIDLength))
	h := blake2b.Sum256(o[:])
	other := symID("other")
	var id, x iotago.ChainID
	var typ byte
	switch nd.Choice("kind", 5) {
	case 0:
		id, x, typ = iotago.AccountIDFromOutputID(o), iotago.AccountID(other), 8
		nd.Assert(iotago.AccountAddressFromOutputID(o).Equal(id.ToAddress()), "chain addresses derive from the ID")
	case 1:
		id, x, typ = iotago.NFTIDFromOutputID(o), iotago.NFTID(other), 16
		nd.Assert(iotago.NFTAddressFromOutputID(o).Equal(id.ToAddress()), "chain addresses derive from the ID")
	case 2:
		id, x, typ = iotago.AnchorIDFromOutputID(o), iotago.AnchorID(other), 24
		nd.Assert(iotago.AnchorAddressFromOutputID(o).Equal(id.ToAddress()), "chain addresses derive from the ID")
	case 3:
		id, x = iotago.DelegationIDFromOutputID(o), iotago.DelegationID(other)
	case 4:
		serial := nd.U32("serial")
		f := must(iotago.FoundryIDFromAddressAndSerialNumberAndTokenScheme((*iotago.AccountAddress)(&h), serial, iotago.TokenSchemeSimple))
		nd.Assert(eqBytes(f[:], append(binary.LittleEndian.AppendUint32(append([]byte{8}, h[:]...), serial), 0)), "a foundry ID is account address, serial number and token scheme")
		nd.Assert(f.FoundrySerialNumber() == serial && *must(f.AccountAddress()) == iotago.AccountAddress(h), "a foundry ID gives its parts back")
		g := must(iotago.FoundryIDFromAddressAndSerialNumberAndTokenScheme((*iotago.AccountAddress)(&other), 5, iotago.TokenSchemeSimple))
		nd.Assert(f.Matches(g) == (f == g) && f.Matches(f) && !f.Matches(iotago.AccountID(h)) && !f.Addressable(), "foundry IDs match themselves only")
		nd.Cover("foundry")
		return
	}
	nd.Assert(id.ToHex() == "0x"+hexOf(h[:]), "the chain ID is the hash of the output ID")
	nd.Assert(x.(iotago.UTXOIDChainID).FromOutputID(o) == id && !id.Empty(), "every chain ID of the kind derives the same from the output")
	nd.Assert(id.Matches(id) && id.Matches(x) == (x.ToHex() == id.ToHex()), "chain IDs match themselves only")
	for _, y := range []iotago.ChainID{iotago.AccountID(h), iotago.NFTID(h), iotago.AnchorID(h), iotago.DelegationID(h), iotago.FoundryID{}} {
		nd.Assert(id.Matches(y) == (y == id), "chain IDs of different kinds do not match")
	}
	nd.Assert(id.Addressable() == (typ != 0), "accounts, anchors and NFTs have addresses")
	if typ != 0 {
		a := id.ToAddress()
		nd.Assert(a.ChainID() == id && eqBytes(a.ID(), append([]byte{typ}, h[:]...)), "the address of a chain has its ID")
	}
	nd.Cover("done")
}

func listID[T comparable, L ~[]T](ids [][]byte, from func([]byte) T, bytes func(T) []byte, unique func(L) L, sorted func(L), text func(L) []string, parse func([]string) (L, error)) (s, u [][]byte) {
	var l L
	for _, b := range ids {
		l = append(l, from(b))
	}
	was := append(L(nil), l...)
	for _, x := range unique(l) {
		u = append(u, append([]byte(nil), bytes(x)...))
	}
	t := text(l)
	nd.Assert(len(t) == len(l), "every ID has a text")
	for i := range l {
		nd.Assert(l[i] == was[i], "the list is not changed")
		nd.Assert(t[i] == hexutil.EncodeHex(ids[i]), "the texts are those of the IDs")
	}
	back, err := parse(t)
	nd.Assert(err == nil && len(back) == len(l), "the texts give the IDs")
	for i := range back {
		nd.Assert(back[i] == l[i], "the texts give the IDs")
	}
	if len(t) > 0 {
		t[len(t)-1] = t[len(t)-1][2:]
		_, err = parse(t)
		nd.Assert(err != nil, "broken texts give none")
	}
	sorted(l)
	for _, x := range l {
		s = append(s, append([]byte(nil), bytes(x)...))
	}
	return s, u
}

var _ = nd.Reg("H_id_sets", H_id_sets)

// H_id_sets: ID lists are sorted and made unique without losing an ID.
func H_id_sets() {
	n := nd.Choice("n", 4)
	var ids [][]byte
	mk := func() []byte {
		b := make([]byte, 38)
		b[0], b[31], b[33], b[36] = nd.U8("first"), nd.U8("last"), nd.U8("slot"), nd.U8("tail")
		return b
	}
	for i := 0; i < n; i++ {
		ids = append(ids, mk())
	}
	var sorted, unique [][]byte
	k := nd.Choice("type", 5)
	if k > 0 {
		for i := range ids {
			ids[i] = ids[i][:36]
		}
	}
	switch k {
	case 0:
		sorted, unique = listID(ids, func(b []byte) iotago.OutputID { return iotago.OutputID(b) }, func(x iotago.OutputID) []byte { return x[:] }, iotago.OutputIDs.RemoveDupsAndSort, iotago.OutputIDs.Sort, iotago.OutputIDs.ToHex, iotago.OutputIDsFromHexString)
	case 1:
		sorted, unique = listID(ids, func(b []byte) iotago.BlockID { return iotago.BlockID(b) }, func(x iotago.BlockID) []byte { return x[:] }, iotago.BlockIDs.RemoveDupsAndSort, iotago.BlockIDs.Sort, iotago.BlockIDs.ToHex, iotago.BlockIDsFromHexString)
	case 2:
		sorted, unique = listID(ids, func(b []byte) iotago.TransactionID { return iotago.TransactionID(b) }, func(x iotago.TransactionID) []byte { return x[:] }, iotago.TransactionIDs.RemoveDupsAndSort, iotago.TransactionIDs.Sort, iotago.TransactionIDs.ToHex, iotago.TransactionIDsFromHexString)
	case 3:
		sorted, unique = listID(ids, func(b []byte) iotago.CommitmentID { return iotago.CommitmentID(b) }, func(x iotago.CommitmentID) []byte { return x[:] }, iotago.CommitmentIDs.RemoveDupsAndSort, iotago.CommitmentIDs.Sort, iotago.CommitmentIDs.ToHex, iotago.CommitmentIDsFromHexString)
	case 4:
		sorted, unique = listID(ids, func(b []byte) iotago.SignedTransactionID { return iotago.SignedTransactionID(b) }, func(x iotago.SignedTransactionID) []byte { return x[:] }, iotago.SignedTransactionIDs.RemoveDupsAndSort, iotago.SignedTransactionIDs.Sort, iotago.SignedTransactionIDs.ToHex, iotago.SignedTransactionIDsFromHexString)
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i], ids[j]) < 0 })
	k = 0
	nd.Assert(len(sorted) == n, "sorting keeps every ID")
	for i, b := range ids {
		nd.Assert(eqBytes(sorted[i], b), "IDs are sorted by their bytes")
		if i == 0 || !eqBytes(b, ids[i-1]) {
			nd.Assert(k < len(unique) && eqBytes(unique[k], b), "every ID is in the set once, in order")
			k++
		}
	}
	nd.Assert(k == len(unique), "the set has no other IDs")
	nd.Cover("done")
}

var _ = nd.Reg("H_numbers", H_numbers)

// H_numbers: numbers survive their text forms.
func H_numbers() {
	v := uint64(nd.U16("small"))
	if maybe("large") {
		v = ^(v >> 8)
	}
	got, err := hexutil.DecodeUint64(hexutil.EncodeUint64(v))
	nd.Assert(err == nil && got == v, "numbers survive their decimal form")
	big1 := new(big.Int).Lsh(new(big.Int).SetUint64(v), []uint{0, 64, 192}[nd.Choice("shift", 3)])
	big2, err := hexutil.DecodeUint256(hexutil.EncodeUint256(big1))
	nd.Assert(err == nil && big1.Cmp(big2) == 0, "numbers of 256 bits survive their hexadecimal form")
	sl := iotago.SlotIndex(nd.U32("slot"))
	sl2, n, err := iotago.SlotIndexFromBytes(must(sl.Bytes()))
	nd.Assert(err == nil && sl2 == sl && n == 4, "slots survive their bytes")
	ep := iotago.EpochIndex(sl)
	ep2, n, err := iotago.EpochIndexFromBytes(must(ep.Bytes()))
	nd.Assert(err == nil && ep2 == ep && n == 4, "epochs survive their bytes")
	_, _, err = iotago.SlotIndexFromBytes(must(sl.Bytes())[:nd.Choice("cut", 4)])
	nd.Assert(err != nil, "slots have four bytes")
	nd.Cover("done")
	b := nd.Bytes("data", nd.Choice("length", 4))
	s := hexutil.EncodeHex(b)
	if len(b) == 0 {
		nd.Assert(s == "", "no bytes have no text")
	} else {
		nd.Assert(s == "0x"+hexOf(b), "bytes have their hexadecimal text")
	}
	d, err := hexutil.DecodeHex(s)
	nd.Assert(err == nil && eqBytes(d, b), "bytes survive their hexadecimal text")
	c := "0x" + hexOf([]byte{7})
	a := must(iotago.ParseImplicitAccountCreationAddressFromHexString(c[:2] + hexOf(bytes.Repeat([]byte{7}, 32))))
	nd.Assert(a[0] == 7 && a[31] == 7, "addresses are parsed")
	for _, n := range []int{0, 31, 33, 64} {
		_, err := iotago.ParseImplicitAccountCreationAddressFromHexString(c[:2] + hexOf(bytes.Repeat([]byte{7}, n)))
		nd.Assert(err != nil, "text of another length is no address")
	}
}

// slotID is what identifiers with slots have in common.
type slotID[T any] interface {
	comparable
	Slot() iotago.SlotIndex
	Identifier() iotago.Identifier
	Empty() bool
	Bytes() ([]byte, error)
	ToHex() string
	Alias() string
	RegisterAlias(string)
	UnregisterAlias()
	Compare(T) int
}

func checkSlotID[T slotID[T]](mk func(iotago.SlotIndex, iotago.Identifier) T, raw func(T) []byte) {
	slots := [2]iotago.SlotIndex{iotago.SlotIndex(nd.U32("slot")), iotago.SlotIndex(nd.U32("slot"))}
	ids := [2]iotago.Identifier{}
	for i := range ids {
		ids[i][0], ids[i][17], ids[i][31] = nd.U8("id"), 7, nd.U8("id")
	}
	a, b := mk(slots[0], ids[0]), mk(slots[1], ids[1])
	nd.Assert(a.Slot() == slots[0] && a.Identifier() == ids[0], "slot and identifier are those an ID was made of")
	w := append(append([]byte{}, ids[0][:]...), byte(slots[0]), byte(slots[0]>>8), byte(slots[0]>>16), byte(slots[0]>>24))
	nd.Assert(eqBytes(raw(a)[:36], w) && eqBytes(must(a.Bytes()), raw(a)), "an ID is its identifier and its slot")
	c := a.Compare(b)
	nd.Assert(c == bytes.Compare(raw(a), raw(b)) && c == -b.Compare(a) && (c == 0) == (a == b), "IDs have the order of their bytes")
	var empty T
	nd.Assert(!a.Empty() && empty.Empty(), "only zeroes are empty")
}

var _ = nd.Reg("H_id_views", H_id_views)

// H_id_views: identifiers with slots show what they are made of and have the
// order of their bytes.
func H_id_views() {
	switch nd.Choice("type", 5) {
	case 0:
		checkSlotID(iotago.NewBlockID, func(x iotago.BlockID) []byte { return x[:] })
	case 1:
		checkSlotID(iotago.NewCommitmentID, func(x iotago.CommitmentID) []byte { return x[:] })
	case 2:
		checkSlotID(iotago.NewTransactionID, func(x iotago.TransactionID) []byte { return x[:] })
	case 3:
		checkSlotID(iotago.NewSignedTransactionID, func(x iotago.SignedTransactionID) []byte { return x[:] })
	case 4:
		index := nd.U16("index")
		nd.Assume(index < 128)
		checkSlotID(func(s iotago.SlotIndex, id iotago.Identifier) iotago.OutputID {
			tx := iotago.NewTransactionID(s, id)
			o := iotago.OutputIDFromTransactionIDAndIndex(tx, index)
			nd.Assert(o.TransactionID() == tx && o.Index() == index && o.CreationSlot() == s, "an output ID shows its transaction, index and slot")
			in := o.UTXOInput()
			nd.Assert(in.TransactionID == tx && in.TransactionOutputIndex == index && in.OutputID() == o, "the input of an output names it")
			p := iotago.OutputIDs{o, o}.UTXOInputs()
			nd.Assert(len(p) == 2 && p[1].(*iotago.UTXOInput).OutputID() == o, "the inputs of outputs name them")
			return o
		}, func(x iotago.OutputID) []byte { return x[:] })
	}
	nd.Cover("done")
}

var _ = nd.Reg("H_id_alias", H_id_alias)

// H_id_alias: an alias belongs to the ID it was registered for.
func H_id_alias() {
	a, b := iotago.NewBlockID(iotago.SlotIndex(nd.U32("slot")), iotago.Identifier{1}), iotago.NewBlockID(iotago.SlotIndex(nd.U32("slot")), iotago.Identifier{1})
	a.RegisterAlias("a")
	nd.Assert(a.Alias() == "a", "an ID has its alias")
	if a == b {
		nd.Assert(b.Alias() == "a", "an ID has its alias")
		nd.Cover("same")
	} else {
		nd.Assert(b.Alias() == b.ToHex(), "other IDs have none")
		nd.Cover("different")
	}
	a.UnregisterAlias()
	nd.Assert(a.Alias() == a.ToHex(), "an alias can be taken back")
}

// ok runs f and reports whether it did without panicking.
func ok(f func()) (done bool) {
	defer func() { done = recover() == nil }()
	f()
	return
}

var _ = nd.Reg("H_id_must", H_id_must)

// H_id_must: the functions that panic instead of failing do so for what is no ID, and
// only for that.
func H_id_must() {
	n := []int{0, 31, 32, 33, 36, 37, 38, 39}[nd.Choice("length", 8)]
	b := idBytes(n)
	s := "0x" + hexOf(b)
	var out []byte
	want, parse := 36, func() {}
	switch nd.Choice("type", 10) {
	case 0:
		want, parse = 32, func() { x := iotago.MustIdentifierFromHexString(s); out = x[:] }
	case 1:
		want, parse = 32, func() { x := iotago.MustAccountIDFromHexString(s); out = x[:] }
	case 2:
		want, parse = 32, func() { x := iotago.MustAnchorIDFromHexString(s); out = x[:] }
	case 3:
		parse = func() { x := iotago.MustBlockIDFromHexString(s); out = x[:] }
	case 4:
		parse = func() { x := iotago.MustCommitmentIDFromHexString(s); out = x[:] }
	case 5:
		parse = func() { x := iotago.MustTransactionIDFromHexString(s); out = x[:] }
	case 6:
		parse = func() { x := iotago.MustSignedTransactionIDFromHexString(s); out = x[:] }
	case 7:
		want, parse = 38, func() { x := iotago.MustOutputIDFromHexString(s); out = x[:] }
	case 8:
		want, parse = 38, func() {
			x, i := iotago.OutputIDHex(s).MustSplitParts()
			out = append(append(out, x[:]...), byte(i), byte(i>>8))
		}
	case 9:
		want, parse = 38, func() { x := iotago.OutputIDHex(s).MustAsUTXOInput().OutputID(); out = x[:] }
	}
	if ok(parse) {
		nd.Assert(n == want && eqBytes(out, b), "what is parsed has that text")
		nd.Cover("parsed")
	} else {
		nd.Assert(n != want, "IDs are parsed")
		nd.Cover("refused")
	}
}

var _ = nd.Reg("H_id_data", H_id_data)

// H_id_data: IDs that represent data are its hash, with the slot.
func H_id_data() {
	data, slot := nd.Bytes("data", []int{0, 1, 40}[nd.Choice("length", 3)]), iotago.SlotIndex(nd.U32("slot"))
	h := blake2b.Sum256(data)
	a, b, c := iotago.IdentifierFromData(data), iotago.AccountIDFromData(data), iotago.AnchorIDFromData(data)
	nd.Assert(a == h && b == h && c == h, "IDs of data are its hash")
	nd.Assert(eqBytes(must(a.Bytes()), h[:]) && eqBytes(must(b.Bytes()), h[:]) && eqBytes(must(c.Bytes()), h[:]), "the bytes of an ID are its content")
	nd.Assert(!a.Empty() && !b.Empty() && !c.Empty() && iotago.EmptyIdentifier.Empty() && iotago.EmptyAccountID.Empty() && iotago.EmptyAnchorID.Empty(), "only zeroes are empty")
	w := binary.LittleEndian.AppendUint32(append([]byte{}, h[:]...), uint32(slot))
	p, q, r, s := iotago.BlockIDRepresentingData(slot, data), iotago.CommitmentIDRepresentingData(slot, data), iotago.TransactionIDRepresentingData(slot, data), iotago.SignedTransactionIDRepresentingData(slot, data)
	nd.Assert(eqBytes(p[:], w) && eqBytes(q[:], w) && eqBytes(r[:], w) && eqBytes(s[:], w), "IDs of data are its hash and the slot")
	nd.Assert(p.Index() == slot && q.Index() == slot && r.Index() == slot && s.Index() == slot, "the index is the slot")
	e := iotago.EpochIndex(slot)
	nd.Assert(eqBytes(slot.MustBytes(), w[32:]) && eqBytes(e.MustBytes(), w[32:]), "indexes are four bytes")
	x, n, err := iotago.SlotIndexFromBytes(w[32:])
	y, m, err2 := iotago.EpochIndexFromBytes(w[32:])
	nd.Assert(err == nil && err2 == nil && x == slot && y == e && n == 4 && m == 4, "indexes are read from their bytes")
	nd.Cover("done")
}

var _ = nd.Reg("H_id_aliases", H_id_aliases)

// H_id_aliases: each ID has its own alias, until it or all of them are taken back.
func H_id_aliases() {
	x, y := [32]byte{nd.U8("x"), 1}, [32]byte{nd.U8("y"), 1}
	nd.Assume(x != y)
	switch nd.Choice("type", 8) {
	case 0:
		checkAliases(iotago.Identifier(x), iotago.Identifier(y), iotago.UnregisterIdentifierAliases)
	case 1:
		checkAliases(iotago.AccountID(x), iotago.AccountID(y), iotago.UnregisterAccountIDAliases)
	case 2:
		checkAliases(iotago.AnchorID(x), iotago.AnchorID(y), iotago.UnregisterAnchorIDAliases)
	case 3:
		checkAliases(iotago.NewBlockID(1, x), iotago.NewBlockID(1, y), nil)
	case 4:
		checkAliases(iotago.NewCommitmentID(1, x), iotago.NewCommitmentID(1, y), nil)
	case 5:
		checkAliases(iotago.NewTransactionID(1, x), iotago.NewTransactionID(1, y), nil)
	case 6:
		checkAliases(iotago.NewSignedTransactionID(1, x), iotago.NewSignedTransactionID(1, y), nil)
	case 7:
		checkAliases(iotago.OutputIDFromTransactionIDAndIndex(iotago.NewTransactionID(1, x), 3), iotago.OutputIDFromTransactionIDAndIndex(iotago.NewTransactionID(1, y), 3), nil)
	}
	nd.Cover("done")
}

func checkAliases[T interface {
	ToHex() string
	Alias() string
	RegisterAlias(string)
	UnregisterAlias()
}](a, b T, all func()) {
	nd.Assert(a.Alias() == a.ToHex() && b.Alias() == b.ToHex(), "IDs have no alias at first")
	a.RegisterAlias("a")
	b.RegisterAlias("b")
	nd.Assert(a.Alias() == "a" && b.Alias() == "b", "IDs have their aliases")
	b.RegisterAlias("c")
	nd.Assert(a.Alias() == "a" && b.Alias() == "c", "an alias can be changed")
	a.UnregisterAlias()
	nd.Assert(a.Alias() == a.ToHex() && b.Alias() == "c", "an alias can be taken back")
	a.RegisterAlias("d")
	if all != nil {
		all()
		nd.Assert(a.Alias() == a.ToHex() && b.Alias() == b.ToHex(), "all aliases can be taken back")
	} else {
		a.UnregisterAlias()
		b.UnregisterAlias()
		nd.Assert(a.Alias() == a.ToHex() && b.Alias() == b.ToHex(), "an alias can be taken back")
	}
}
