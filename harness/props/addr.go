package props

import (
	"bytes"
	"context"

	"github.com/iotaledger/hive.go/runtime/options"
	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"verif/harness/nd"
)

func addrBytes(a iotago.Address) []byte {
	return must(iotago.CommonSerixAPI().Encode(context.Background(), a))
}

var _ = nd.Reg("H_addr_identity", H_addr_identity)

// H_addr_identity: addresses are equal when kind and content are, in every
// sense the library has.
func H_addr_identity() {
	a, b := anyAddress("a", 8), anyAddress("b", 8)
	ea, eb := addrBytes(a), addrBytes(b)
	same := eqBytes(ea, eb)
	if same {
		nd.Cover("same")
	} else {
		nd.Cover("different")
	}
	nd.Assert(a.Equal(b) == same && b.Equal(a) == same, "addresses are equal when their encodings are")
	nd.Assert((a.Key() == b.Key()) == same, "addresses have one key each")
	nd.Assert(eqBytes(a.ID(), b.ID()) == same, "addresses have one ID each")
	nd.Assert(a.Size() == len(ea), "the size of an address is that of its encoding")
	nd.Assert(a.Type() == iotago.AddressType(ea[0]) && a.ID()[0] == ea[0], "IDs and encodings start with the type")
	nd.Assert(a.String() == "0x"+hexOf(a.ID()), "the text of an address is its ID")
	if _, multi := a.(*iotago.MultiAddress); !multi && !isRestrictedMulti(a) {
		nd.Assert(eqBytes(a.ID(), ea), "the ID of an address is its encoding")
	}
}

func isRestrictedMulti(a iotago.Address) bool {
	r, is := a.(*iotago.RestrictedAddress)
	if !is {
		return false
	}
	_, is = r.Address.(*iotago.MultiAddress)
	return is
}

var _ = nd.Reg("H_addr_clone", H_addr_clone)

// H_addr_clone: copies of addresses are equal and independent.
func H_addr_clone() {
	a := anyAddress("a", 8)
	e := addrBytes(a)
	c := a.Clone()
	nd.Assert(c.Equal(a) && a.Equal(c) && c.Type() == a.Type() && eqBytes(addrBytes(c), e), "copies are equal")
	switch c := c.(type) {
	case *iotago.Ed25519Address:
		c[5] = ^c[5]
	case *iotago.AccountAddress:
		c[5] = ^c[5]
	case *iotago.NFTAddress:
		c[5] = ^c[5]
	case *iotago.AnchorAddress:
		c[5] = ^c[5]
	case *iotago.ImplicitAccountCreationAddress:
		c[5] = ^c[5]
	case *iotago.MultiAddress:
		smash(c)
	case *iotago.RestrictedAddress:
		for i := range c.AllowedCapabilities {
			c.AllowedCapabilities[i] = ^c.AllowedCapabilities[i]
		}
		switch u := c.Address.(type) {
		case *iotago.Ed25519Address:
			u[5] = ^u[5]
		case *iotago.MultiAddress:
			smash(u)
		}
	}
	nd.Assert(eqBytes(addrBytes(a), e), "changing a copy leaves the address alone")
	nd.Cover("done")
}

func smash(m *iotago.MultiAddress) {
	m.Threshold ^= 3
	for _, x := range m.Addresses {
		x.Weight ^= 5
		switch u := x.Address.(type) {
		case *iotago.Ed25519Address:
			u[5] = ^u[5]
		case *iotago.NFTAddress:
			u[5] = ^u[5]
		}
	}
}

var _ = nd.Reg("H_addr_read", H_addr_read)

// H_addr_read: reading addresses from streams and from bytes is the same.
func H_addr_read() {
	var w wire
	raw := nd.U8("junk")
	kinds := []uint8{0, 8, 16, 24, 32, 7, 255, 40, 48}
	kind := func(name string, n int) uint8 { return kinds[nd.Choice(name, n)] }
	switch nd.Choice("shape", 4) {
	case 0:
		w.u8(kind("type", 7))
		w.raw(nd.Bytes("address", 33-nd.Choice("short", 2)))
	case 1:
		w.u8(48)
		k := kind("inner", 9)
		w.u8(k)
		if k < 40 {
			w.raw(nd.Bytes("address", 32))
		} else {
			// a restricted address within, or no members
			w.raw(make([]byte, 33))
		}
		n := nd.Choice("caps", 5)
		w.u8(uint8(n))
		w.raw(nd.Bytes("mask", min(n, 3)))
	case 2:
		restricted := maybe("restricted")
		if restricted {
			w.u8(48)
		}
		w.u8(40)
		n := 1 + nd.Choice("members", 2)
		w.u8(uint8(n))
		for i := 0; i < n; i++ {
			w.u8(kinds[[]int{0, 1, 4, 5}[nd.Choice("member", 4)]])
			b := accID(9)
			b[0] = nd.U8("first")
			w.raw(b[:])
			w.u8(nd.U8("weight"))
		}
		w.u16(nd.U16("threshold"))
		if restricted {
			n := nd.Choice("caps", 2)
			w.u8(uint8(n))
			w.raw(nd.Bytes("mask", n))
		}
	case 3:
		w.raw(nd.Bytes("prefix", nd.Choice("length", 3)))
	}
	size := len(w.b)
	if maybe("more") {
		w.u8(raw)
	}
	a, n, err := iotago.AddressFromBytes(w.b)
	r := bytes.NewReader(w.b)
	b, err2 := iotago.AddressFromReader(r)
	nd.Assert((err == nil) == (err2 == nil), "streams and bytes hold an address alike")
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	nd.Assert(a.Equal(b) && b.Equal(a), "the address read is the same")
	nd.Assert(len(w.b)-r.Len() == n && n <= size, "as many bytes are read")
	nd.Assert(eqBytes(addrBytes(a), w.b[:n]), "what is read is the encoding of the address")
	_, err = iotago.CommonSerixAPI().Encode(context.Background(), a, serix.WithValidation())
	nd.Assert(err == nil, "what is read is valid")
}

var _ = nd.Reg("H_capabilities", H_capabilities)

// H_capabilities: capability masks hold exactly the capabilities asked for.
func H_capabilities() {
	var f [9]bool
	for i := range f {
		f[i] = nd.Bool("can")
	}
	var opts []options.Option[iotago.AddressCapabilitiesOptions]
	if maybe("anything") {
		opts = append(opts, iotago.WithAddressCanReceiveAnything())
		for i := range f {
			f[i] = true
		}
	} else {
		opts = append(opts,
			iotago.WithAddressCanReceiveNativeTokens(f[0]),
			iotago.WithAddressCanReceiveMana(f[1]),
			iotago.WithAddressCanReceiveOutputsWithTimelockUnlockCondition(f[2]),
			iotago.WithAddressCanReceiveOutputsWithExpirationUnlockCondition(f[3]),
			iotago.WithAddressCanReceiveOutputsWithStorageDepositReturnUnlockCondition(f[4]),
			iotago.WithAddressCanReceiveAccountOutputs(f[5]),
			iotago.WithAddressCanReceiveAnchorOutputs(f[6]),
			iotago.WithAddressCanReceiveNFTOutputs(f[7]),
			iotago.WithAddressCanReceiveDelegationOutputs(f[8]))
	}
	a := iotago.RestrictedAddressWithCapabilities(ed(1), opts...)
	var mask uint16
	for i := range f {
		if f[i] {
			mask |= 1 << i
		}
	}
	var want []byte
	switch {
	case mask > 255:
		want = []byte{byte(mask), byte(mask >> 8)}
	case mask > 0:
		want = []byte{byte(mask)}
	}
	checkCapabilities(a, mask)
	nd.Assert(eqBytes(a.AllowedCapabilitiesBitMask(), want), "the mask has one bit for each capability and no zero bytes at the end")
	nd.Cover("done")
	b := addrBytes(a)
	c, n, err := iotago.AddressFromBytes(b)
	nd.Assert(err == nil && n == len(b) && c.Equal(a), "addresses with capabilities survive their encoding")
}

func checkCapabilities(a iotago.AddressCapabilities, mask uint16) {
	for i, cannot := range []bool{a.CannotReceiveNativeTokens(), a.CannotReceiveMana(), a.CannotReceiveOutputsWithTimelockUnlockCondition(),
		a.CannotReceiveOutputsWithExpirationUnlockCondition(), a.CannotReceiveOutputsWithStorageDepositReturnUnlockCondition(), a.CannotReceiveAccountOutputs(),
		a.CannotReceiveAnchorOutputs(), a.CannotReceiveNFTOutputs(), a.CannotReceiveDelegationOutputs()} {
		nd.Assert(cannot == (mask>>i&1 == 0), "each bit of the mask is one capability")
	}
}

var _ = nd.Reg("H_capability_bits", H_capability_bits)

// H_capability_bits: masks of any length have the capabilities of their bits.
func H_capability_bits() {
	b := nd.Bytes("mask", nd.Choice("length", 4))
	var mask uint16
	for i := 0; i < len(b) && i < 2; i++ {
		mask |= uint16(b[i]) << (8 * i)
	}
	checkCapabilities(iotago.AddressCapabilitiesBitMask(b), mask)
	checkCapabilities(&iotago.RestrictedAddress{Address: ed(1), AllowedCapabilities: b}, mask)
	t := iotago.TransactionCapabilitiesBitMask(b)
	for i, cannot := range []bool{t.CannotBurnNativeTokens(), t.CannotBurnMana(), t.CannotDestroyAccountOutputs(), t.CannotDestroyAnchorOutputs(), t.CannotDestroyFoundryOutputs(), t.CannotDestroyNFTOutputs()} {
		nd.Assert(cannot == (mask>>i&1 == 0), "each bit of the mask is one capability")
	}
	k := uint(nd.Choice("bit", 20))
	was := append([]byte(nil), b...)
	c := iotago.BitMaskSetBit(append([]byte(nil), b...), k)
	for i := uint(0); i < 40; i++ {
		has := i/8 < uint(len(was)) && was[i/8]>>(i%8)&1 == 1
		nd.Assert(iotago.BitMaskHasBit(b, i) == has, "masks have the bits that are set")
		nd.Assert(iotago.BitMaskHasBit(c, i) == (has || i == k), "setting a bit sets that bit only")
	}
	nd.Assert((iotago.BitMaskNonTrailingZeroBytesValidatorFunc(b) == nil) == (len(b) == 0 || b[len(b)-1] != 0), "masks must not end with zero bytes")
	nd.Cover("done")
}

var _ = nd.Reg("H_tx_capabilities", H_tx_capabilities)

// H_tx_capabilities: transaction capability masks hold what was asked for.
func H_tx_capabilities() {
	var f [6]bool
	for i := range f {
		f[i] = nd.Bool("can")
	}
	var t iotago.TransactionCapabilitiesBitMask
	if maybe("anything") {
		t = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanDoAnything())
		f = [6]bool{true, true, true, true, true, true}
	} else {
		t = iotago.TransactionCapabilitiesBitMaskWithCapabilities(iotago.WithTransactionCanBurnNativeTokens(f[0]), iotago.WithTransactionCanBurnMana(f[1]),
			iotago.WithTransactionCanDestroyAccountOutputs(f[2]), iotago.WithTransactionCanDestroyAnchorOutputs(f[3]), iotago.WithTransactionCanDestroyFoundryOutputs(f[4]), iotago.WithTransactionCanDestroyNFTOutputs(f[5]))
	}
	var mask byte
	for i := range f {
		if f[i] {
			mask |= 1 << i
		}
	}
	if mask == 0 {
		nd.Assert(len(t) == 0, "no capabilities make an empty mask")
	} else {
		nd.Assert(len(t) == 1 && t[0] == mask, "the mask has one bit for each capability")
	}
	for i, cannot := range []bool{t.CannotBurnNativeTokens(), t.CannotBurnMana(), t.CannotDestroyAccountOutputs(), t.CannotDestroyAnchorOutputs(), t.CannotDestroyFoundryOutputs(), t.CannotDestroyNFTOutputs()} {
		nd.Assert(cannot == !f[i], "each capability is given by its option")
	}
	c := t.Clone()
	for i := range c {
		c[i] = ^c[i]
	}
	nd.Assert(mask == 0 || t[0] == mask, "changing a copy leaves the mask alone")
	nd.Cover("done")
}

var _ = nd.Reg("H_signer", H_signer)

// H_signer: signatures made for an address unlock it and no other.
func H_signer() {
	k, l := newKey(1), newKey(2)
	impl := func(k key) *iotago.ImplicitAccountCreationAddress {
		return iotago.ImplicitAccountCreationAddressFromPubKey(k.pub())
	}
	restricted := func(k key) *iotago.RestrictedAddress {
		return &iotago.RestrictedAddress{Address: k.addr, AllowedCapabilities: anyCapabilities("mask")}
	}
	var s iotago.AddressSigner
	var has [6]bool // ed, implicit, restricted of k, then of l
	switch nd.Choice("signer", 5) {
	case 0:
		s = iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(k.addr, k.priv))
		has = [6]bool{true, false, true}
	case 1:
		s = iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForImplicitAccountCreationAddress(impl(k), k.priv))
		has = [6]bool{false, true, false}
	case 2:
		s = iotago.NewInMemoryAddressSigner(must(iotago.NewAddressKeysForRestrictedEd25519Address(restricted(k), k.priv)))
		has = [6]bool{true, false, true}
	case 3:
		s = iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(k.priv, l.priv)
		has = [6]bool{true, true, true, true, true, true}
	case 4:
		s = iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(l.addr, l.priv), iotago.NewAddressKeysForImplicitAccountCreationAddress(impl(k), k.priv))
		has = [6]bool{false, true, false, true, false, true}
	}
	i := nd.Choice("address", 6)
	if i == 2 || i == 5 {
		// keys of a restricted address are also used for the address in it
		nd.Cover("restricted")
	}
	o := k
	if i > 2 {
		o = l
	}
	a := []iotago.Address{k.addr, impl(k), restricted(k), l.addr, impl(l), restricted(l)}[i]
	msg := nd.Bytes("message", 5)
	sig, err := s.Sign(a, msg)
	nd.Assert((err == nil) == has[i], "there are signatures for exactly the addresses with keys")
	uid, err2 := s.SignerUIDForAddress(a)
	nd.Assert((err2 == nil) == has[i], "there are signers for exactly the addresses with keys")
	empty, err3 := s.EmptySignatureForAddress(a)
	nd.Assert(err3 == nil && empty.Size() == 97 && empty.Type() == iotago.SignatureEd25519, "empty signatures have the kind and size of signatures")
	if err != nil {
		nd.Cover("none")
		return
	}
	nd.Cover("signed")
	nd.Assert(uid == iotago.IdentifierFromData(o.pub()), "the signer is the hash of the public key")
	es := sig.(*iotago.Ed25519Signature)
	nd.Assert(eqBytes(es.PublicKey[:], o.pub()), "signatures carry the public key of the address")
	unlock := func(a iotago.Address, m []byte) bool {
		if r, is := a.(*iotago.RestrictedAddress); is {
			a = r.Address
		}
		return a.(iotago.DirectUnlockableAddress).Unlock(m, sig) == nil
	}
	nd.Assert(unlock(a, msg), "signatures unlock their address")
	other := nd.Bytes("other", 5)
	nd.Assert(unlock(a, other) == eqBytes(other, msg), "signatures are for their message only")
	var wrong iotago.Address = l.addr
	if i > 2 {
		wrong = impl(k)
	}
	nd.Assert(!unlock(wrong, msg), "signatures do not unlock other addresses")
}
