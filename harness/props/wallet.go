package props

import (
	"crypto/ed25519"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/wallet"
	"verif/harness/nd"
)

var walletKinds = []iotago.AddressType{iotago.AddressEd25519, iotago.AddressImplicitAccountCreation}

var _ = nd.Reg("H_wallet_restore", H_wallet_restore)

// H_wallet_restore: the mnemonic of a wallet restores all its keys.
func H_wallet_restore() {
	path := []string{wallet.DefaultIOTAPath, wallet.DefaultShimmerPath}[nd.Choice("path", 2)]
	k := must(wallet.NewKeyManagerFromRandom(path))
	m := k.Mnemonic()
	nd.Assert(len(m) == 24, "mnemonics have 24 words")
	r, err := wallet.NewKeyManagerFromMnemonic(m.String(), path)
	nd.Assert(err == nil, "a wallet can be restored from its mnemonic")
	t := walletKinds[nd.Choice("kind", 2)]
	if maybe("index") {
		i := nd.U32("i")
		nd.Assert(k.Address(t, i).Equal(r.Address(t, i)), "the restored wallet has the same addresses")
	} else {
		nd.Assert(k.Address(t).Equal(r.Address(t)), "the restored wallet has the same addresses")
	}
	// the restored wallet has the same mnemonic, and restores again
	n := r.Mnemonic()
	nd.Assert(n.String() == m.String(), "the mnemonic of a restored wallet is the one it was restored from")
	// another wallet is another
	o := must(wallet.NewKeyManagerFromRandom(path))
	nd.Assume(o.Mnemonic().String() != m.String())
	nd.Assert(!o.Address(t).Equal(k.Address(t)), "other mnemonics have other addresses")
	_, err = wallet.NewKeyManagerFromMnemonic("legal winner thank year wave sausage worth useful legal winner thank yellow", path)
	nd.Assert(err != nil, "shorter mnemonics are refused")
	_, err = wallet.NewKeyManagerFromMnemonic(m.String(), "44'/x")
	nd.Assert(err != nil, "broken paths are refused")
	nd.Cover("done")
}

var _ = nd.Reg("H_wallet_keys", H_wallet_keys)

// H_wallet_keys: the keys of a wallet depend on seed, path and index alone.
func H_wallet_keys() {
	seed := nd.Bytes("seed", []int{32, 64}[nd.Choice("length", 2)])
	k := must(wallet.NewKeyManager(seed, wallet.DefaultIOTAPath))
	i, j := nd.U32("i"), nd.U32("j")
	const hard = 1 << 31
	want := []uint32{44 | hard, 4218 | hard, hard, hard, hard}
	for step := 0; step < 2; step++ {
		p := k.Path()
		q := k.Path(i)
		nd.Assert(len(p) == 5 && len(q) == 5, "paths have five parts")
		for x := range want {
			nd.Assert(p[x] == want[x], "the path of a wallet stays")
			nd.Assert(q[x] == want[x] || x == 4 && q[x] == i|hard, "only the last part of the path is the index")
		}
		nd.Assert(q[4] == i|hard, "the index is the last part of the path")
	}
	same := i|hard == j|hard
	pi, ai := k.KeyPair(i)
	pj, aj := k.KeyPair(j)
	nd.Assert(eqBytes(ai, aj) == same && eqBytes(pi, pj) == same, "every index has its own key")
	nd.Assert(eqBytes(pi[32:], ai) && len(pi) == 64, "the pair belongs together")
	p0, a0 := k.KeyPair()
	nd.Assert(eqBytes(a0, ai) == (i|hard == hard) && eqBytes(p0, pi) == (i|hard == hard), "without an index the path is used as it is")
	// again, and from another manager of the same seed
	k2 := must(wallet.NewKeyManager(append([]byte(nil), seed...), wallet.DefaultIOTAPath))
	_, b := k.KeyPair(i)
	_, c := k2.KeyPair(i)
	nd.Assert(eqBytes(ai, b) && eqBytes(ai, c), "the same seed, path and index give the same key")
	_, d := must(wallet.NewKeyManager(seed, wallet.DefaultShimmerPath)).KeyPair(i)
	nd.Assert(!eqBytes(ai, d), "other paths give other keys")
	ed := k.Address(iotago.AddressEd25519, i)
	nd.Assert(ed.Equal(iotago.Ed25519AddressFromPubKey(ai)), "the address is the one of the key")
	ia := k.Address(iotago.AddressImplicitAccountCreation, i)
	nd.Assert(ia.Equal(iotago.ImplicitAccountCreationAddressFromPubKey(ai)), "the address is the one of the key")
	if len(seed) == 32 {
		m := k.Mnemonic()
		nd.Assert(len(m) == 24 && m.String() == k2.Mnemonic().String(), "every seed has its mnemonic")
	}
	acc := wallet.NewEd25519Account(accID(nd.U8("account")), pi)
	id := acc.ID()
	addr := acc.Address()
	nd.Assert(eqBytes(id[:], addr[:]) && acc.OwnerAddress().Equal(ed) && eqBytes(acc.PrivateKey(), pi), "an account has its ID and its key")
	nd.Cover("done")
}

var _ = nd.Reg("H_wallet_signer", H_wallet_signer)

// H_wallet_signer: the signer of a wallet signs for the addresses of its indexes.
func H_wallet_signer() {
	k := must(wallet.NewKeyManager(nd.Bytes("seed", 32), wallet.DefaultIOTAPath))
	i, j, other := nd.U32("i"), nd.U32("j"), nd.U32("other")
	const hard = 1 << 31
	n := nd.Choice("indexes", 3)
	var s iotago.AddressSigner
	has := false
	switch n {
	case 0:
		s = k.AddressSigner()
		has = other|hard == hard
	case 1:
		s = k.AddressSigner(i)
		has = other|hard == i|hard
	case 2:
		s = k.AddressSigner(i, j)
		has = other|hard == i|hard || other|hard == j|hard
	}
	t := walletKinds[nd.Choice("kind", 2)]
	msg := nd.Bytes("message", 8)
	addr := k.Address(t, other)
	sig, err := s.Sign(addr, msg)
	nd.Assert((err == nil) == has, "the signer has the keys of its indexes")
	if err != nil {
		nd.Cover("foreign")
		return
	}
	_, pub := k.KeyPair(other)
	e := sig.(*iotago.Ed25519Signature)
	nd.Assert(eqBytes(e.PublicKey[:], pub) && ed25519.Verify(pub, msg, e.Signature[:]), "the signature is one of the key of the address")
	nd.Assert(addr.Unlock(msg, sig) == nil, "the signature unlocks the address")
	msg[0] ^= 1
	nd.Assert(addr.Unlock(msg, sig) != nil, "the signature unlocks nothing else")
	nd.Cover("signed")
}

var _ = nd.Reg("H_tx_sign", H_tx_sign)

// H_tx_sign: a transaction is signed once for each of the keys, in their order, with the message that unlocking checks.
func H_tx_sign() {
	e := newTxEnv(newAPI(), 60)
	e.in(basic(ed(1), 1, 0), 50)
	e.out(basic(ed(2), iotago.BaseToken(nd.U64("amount")), iotago.Mana(nd.U64("mana"))))
	var keys []iotago.AddressKeys
	for n := nd.Choice("keys", 4); n > 0; n-- {
		k := newKey(byte(1 + nd.Choice("key", 2)))
		a := iotago.NewAddressKeysForEd25519Address(k.addr, k.priv)
		if maybe("implicit") {
			a = iotago.NewAddressKeysForImplicitAccountCreationAddress(iotago.ImplicitAccountCreationAddressFromPubKey(k.pub()), k.priv)
		}
		keys = append(keys, a)
	}
	sigs, err := e.tx.Sign(keys...)
	nd.Assert(err == nil && len(sigs) == len(keys), "there is a signature for every key")
	msg := must(e.tx.SigningMessage())
	for i, s := range sigs {
		nd.Assert(keys[i].Address.(iotago.DirectUnlockableAddress).Unlock(msg, s) == nil, "signatures are in the order of the keys")
	}
	nd.Cover("done")
}
