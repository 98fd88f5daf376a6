From 77870c6fba9de7b197d02fd28e11529730ddc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 01/31] fix: do not panic on a foundry created while its
 implicit account is converted

---
 vm/nova/vm.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 9f41510..3cc466d 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -808,8 +808,14 @@ func foundryGenesisValid(vmParams *vm.Params, current *iotago.FoundryOutput, thi
 		)
 	}
 
+	inAccountOutput, isAccountOutput := inAccount.Output.(*iotago.AccountOutput)
+	if !isAccountOutput {
+		// an implicit account that is converted in this transaction has not created any foundries yet.
+		inAccountOutput = &iotago.AccountOutput{}
+	}
+
 	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return foundrySerialNumberValid(vmParams, current, inAccount.Output.(*iotago.AccountOutput), outAccount.(*iotago.AccountOutput), thisFoundryID)
+	return foundrySerialNumberValid(vmParams, current, inAccountOutput, outAccount.(*iotago.AccountOutput), thisFoundryID)
 }
 
 func foundrySerialNumberValid(vmParams *vm.Params, current *iotago.FoundryOutput, inAccount *iotago.AccountOutput, outAccount *iotago.AccountOutput, thisFoundryID iotago.FoundryID) error {
-- 
2.43.0


From 77c118332d7ab8f938ed1a58f867ba9194b699b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 02/31] fix: validate the foundry counter when converting an
 implicit account

---
 vm/nova/vm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 3cc466d..da031e8 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -236,6 +236,11 @@ func implicitAccountSTVF(vmParams *vm.Params, implicitAccount *vm.ImplicitAccoun
 		return err
 	}
 
+	// An implicit account has no foundries, so the foundry counter of the account must account for exactly the new ones.
+	if err := accountFoundryCounterSTVF(vmParams, &iotago.AccountOutput{}, next); err != nil {
+		return err
+	}
+
 	return accountGenesisValid(vmParams, next, false)
 }
 
-- 
2.43.0


From 90c35a00473e1cc9e47ed792d8270f6a79a06c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 03/31] fix: count the payload length prefix in the size of a
 transaction essence

---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From 622507704cb554e078411ab4f77d04d356640180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 04/31] fix: reject truncated Ed25519 signatures instead of
 panicking

---
 signature_ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature_ed25519.go b/signature_ed25519.go
index 6c2e492..25a230d 100644
--- a/signature_ed25519.go
+++ b/signature_ed25519.go
@@ -38,6 +38,10 @@ func (e *Ed25519Signature) Clone() Signature {
 }
 
 func (e *Ed25519Signature) Decode(b []byte) (int, error) {
+	if len(b) < Ed25519SignatureSerializedBytesSize-1 {
+		return 0, ierrors.Wrapf(serializer.ErrDeserializationNotEnoughData, "ed25519 signature requires %d bytes but got %d", Ed25519SignatureSerializedBytesSize-1, len(b))
+	}
+
 	copy(e.PublicKey[:], b[:ed25519.PublicKeySize])
 	copy(e.Signature[:], b[ed25519.PublicKeySize:])
 
-- 
2.43.0


From 2417e3ffff8ad17557b4d655b55adb3617523d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 05/31] fix: limit the size of immutable metadata features like
 that of other metadata features

---
 output.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/output.go b/output.go
index 3da1543..0348352 100644
--- a/output.go
+++ b/output.go
@@ -874,6 +874,16 @@ func OutputsSyntacticalMetadataFeatureMaxSize() ElementValidationFunc[Output] {
 			}
 		}
 
+		if immutableOutput, is := output.(ChainOutputImmutable); is {
+			immutableMetadataFeat := immutableOutput.ImmutableFeatureSet().Metadata()
+			if immutableMetadataFeat != nil {
+				mapSize := immutableMetadataFeat.mapSize()
+				if err := checkMaxSize(index, immutableMetadataFeat.Type(), mapSize); err != nil {
+					return ierrors.WithMessagef(err, "output %d", index)
+				}
+			}
+		}
+
 		return nil
 	}
 }
-- 
2.43.0


From c6056ab321710bdd78c6db1a48a734b4ba478f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 06/31] fix: do not let block commitment windows wrap around
 the slot index range

---
 block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block.go b/block.go
index b98835c..4e46365 100644
--- a/block.go
+++ b/block.go
@@ -313,12 +313,12 @@ func (b *Block) syntacticallyValidate() error {
 
 	// check that commitment is not too recent.
 	if commitmentSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
-		blockSlot < commitmentSlot+minCommittableAge {
+		(blockSlot < minCommittableAge || blockSlot-minCommittableAge < commitmentSlot) {
 		return ierrors.WithMessagef(ErrCommitmentTooRecent, "block at slot %d committing to slot %d, min committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), minCommittableAge)
 	}
 
 	// Check that commitment is not too old.
-	if blockSlot > commitmentSlot+maxCommittableAge {
+	if blockSlot > maxCommittableAge && blockSlot-maxCommittableAge > commitmentSlot {
 		return ierrors.WithMessagef(ErrCommitmentTooOld, "block at slot %d committing to slot %d, max committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), maxCommittableAge)
 	}
 
@@ -427,11 +427,11 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
 			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
-				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
+				(blockSlot < minCommittableAge || blockSlot-minCommittableAge < cInputSlot) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
 			// Check that commitment input is not too old.
-			if blockSlot > cInputSlot+maxCommittableAge {
+			if blockSlot > maxCommittableAge && blockSlot-maxCommittableAge > cInputSlot {
 				return ierrors.WithMessagef(ErrCommitmentInputTooOld, "block at slot %d with commitment input to slot %d, max committable age %d", blockSlot, cInput.CommitmentID.Slot(), maxCommittableAge)
 			}
 
-- 
2.43.0


From 5288d94dd5f819bf2f4b109574bb3d9fc33c98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 07/31] fix: accept commitment inputs to the genesis slot when
 it is not zero

---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index 4e46365..3a841e8 100644
--- a/block.go
+++ b/block.go
@@ -426,7 +426,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 		if cInput := signedTransaction.Transaction.CommitmentInput(); cInput != nil {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
-			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
+			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
 				(blockSlot < minCommittableAge || blockSlot-minCommittableAge < cInputSlot) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
-- 
2.43.0


From 4ae27beeaeb3db8fb6c430ce3d41e900a3c585ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 08/31] fix: account for foundries with native tokens in the
 maximum block work

---
 workscore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/workscore.go b/workscore.go
index e800728..5c23d7d 100644
--- a/workscore.go
+++ b/workscore.go
@@ -107,8 +107,9 @@ func (w WorkScoreParameters) MaxBlockWork() (WorkScore, error) {
 	// outputs factor for max number of outputs
 	addWorkScore(w.Output, MaxOutputsCount)
 
-	// native tokens factor for max number of outputs
-	addWorkScore(w.NativeToken, MaxOutputsCount)
+	// native tokens factor for max number of outputs, each being a foundry output
+	// whose token scheme and native token feature are both accounted for
+	addWorkScore(w.NativeToken, MaxOutputsCount*2)
 
 	// staking factor for max number of outputs each with a staking feature
 	addWorkScore(w.Staking, MaxOutputsCount)
-- 
2.43.0


From bafc1681878db0737a2d4229f35f69c6ac1ca18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 09/31] fix: reject attestations signed with an empty public
 key, as for blocks

---
 attestation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attestation.go b/attestation.go
index bf194e5..5d3c5fc 100644
--- a/attestation.go
+++ b/attestation.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"bytes"
 	"context"
+	"crypto/ed25519"
 
 	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
 	"github.com/iotaledger/hive.go/ierrors"
@@ -111,6 +112,10 @@ func (a *Attestation) VerifySignature() (valid bool, err error) {
 		return false, ierrors.Errorf("only ed2519 signatures supported, got %s", a.Signature.Type())
 	}
 
+	if edSig.PublicKey == [ed25519.PublicKeySize]byte{} {
+		return false, ierrors.New("ed25519 public key must not be empty")
+	}
+
 	return hiveEd25519.Verify(edSig.PublicKey[:], signingMessage, edSig.Signature[:]), nil
 }
 
-- 
2.43.0


From e38218af9b2267f2ace8e8a67a511f9fc53f2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 10/31] fix: reject non US-ASCII characters in the data part of
 Bech32 strings

---
 bech32/bech32.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..f077b57 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -87,6 +87,13 @@ func Decode(s string) (string, []byte, error) {
 		return "", nil, err
 	}
 
+	// validate that the data part does not contain characters which only become part of the charset in lower case
+	for i, c := range s[hrpLen+1:] {
+		if !isValidHRPChar(c) {
+			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non-charset character in data part"), hrpLen + 1 + i}
+		}
+	}
+
 	// convert everything to lower
 	s = strings.ToLower(s)
 	hrp := s[:hrpLen]
-- 
2.43.0


From 1562a3b24aab9b7b55df2fc9f059a7b2fb538fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 11/31] fix: cloning a multi address panicked

---
 address_multi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..deb8ea3 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -61,7 +61,7 @@ type MultiAddress struct {
 
 func (addr *MultiAddress) Clone() Address {
 	cpy := &MultiAddress{
-		Addresses: make(AddressesWithWeight, 0, len(addr.Addresses)),
+		Addresses: make(AddressesWithWeight, len(addr.Addresses)),
 		Threshold: addr.Threshold,
 	}
 
-- 
2.43.0


From 26643e5594fb9ca84be832ccbfccfa648198bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 12/31] fix: reject trailing bytes and invalid capabilities of
 addresses in Bech32 strings

---
 address.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/address.go b/address.go
index 49e8c3f..4ea553d 100644
--- a/address.go
+++ b/address.go
@@ -221,11 +221,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	//nolint:exhaustive
 	switch addrType {
 	case AddressMulti:
-		multiAddrRef, _, err := MultiAddressReferenceFromBytes(addrData)
+		multiAddrRef, consumed, err := MultiAddressReferenceFromBytes(addrData)
 		if err != nil {
 			return "", nil, ierrors.Wrap(err, "invalid multi address")
 		}
 
+		if consumed != len(addrData) {
+			return "", nil, serializer.ErrDeserializationNotAllConsumed
+		}
+
 		return NetworkPrefix(hrp), multiAddrRef, nil
 
 	case AddressRestricted:
@@ -240,10 +244,18 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 			}
 
 			// get the address capabilities from the remaining bytes
-			capabilities, _, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
+			var capabilities AddressCapabilitiesBitMask
+			consumedCapabilities, err := CommonSerixAPI().Decode(context.TODO(), addrData[1+consumed:], &capabilities, serix.WithValidation())
 			if err != nil {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
+			if err := BitMaskNonTrailingZeroBytesValidatorFunc(capabilities); err != nil {
+				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
+			}
+
+			if 1+consumed+consumedCapabilities != len(addrData) {
+				return "", nil, serializer.ErrDeserializationNotAllConsumed
+			}
 
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
@@ -258,7 +270,7 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	}
 
 	serixAPI := CommonSerixAPI()
-	n, err := serixAPI.Decode(context.TODO(), addrData, addr)
+	n, err := serixAPI.Decode(context.TODO(), addrData, addr, serix.WithValidation())
 	if err != nil {
 		return "", nil, err
 	}
-- 
2.43.0


From c8a99862ae397bdd9430834e31eee127f4db32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 13/31] fix: report the bytes of an identifier as consumed, not
 all given bytes

---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..032bb83 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -69,7 +69,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..1b75a01 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -69,7 +69,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..0a6a783 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -69,7 +69,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..3a56d75 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -69,7 +69,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From 75b48232caa819ed0f149ce4937d2373bcd41ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 14/31] fix: reject hex strings of the wrong length for
 identifiers instead of truncating or panicking

---
 block_id.gen.go              | 8 ++++++++
 commitment_id.gen.go         | 8 ++++++++
 gen/identifier.tmpl          | 8 ++++++++
 gen/slot_identifier.tmpl     | 8 ++++++++
 identifier.gen.go            | 8 ++++++++
 identifier_account.gen.go    | 8 ++++++++
 identifier_anchor.gen.go     | 8 ++++++++
 output_id.gen.go             | 8 ++++++++
 signed_transaction_id.gen.go | 8 ++++++++
 transaction_id.gen.go        | 8 ++++++++
 10 files changed, 80 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index e98d820..9539476 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -47,6 +47,10 @@ func BlockIDFromHexString(hex string) (BlockID, error) {
 		return EmptyBlockID, err
 	}
 
+	if err := IsValidBlockID(b); err != nil {
+		return EmptyBlockID, err
+	}
+
 	s, _, err := BlockIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (b BlockID) MarshalText() (text []byte, err error) {
 }
 
 func (b *BlockID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(BlockIDLength) {
+		return ierrors.Errorf("invalid BlockID text length: expected %d characters, got %d characters", hex.EncodedLen(BlockIDLength), len(text))
+	}
+
 	_, err := hex.Decode(b[:], text)
 
 	return err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 1ea2a0f..528a78d 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -47,6 +47,10 @@ func CommitmentIDFromHexString(hex string) (CommitmentID, error) {
 		return EmptyCommitmentID, err
 	}
 
+	if err := IsValidCommitmentID(b); err != nil {
+		return EmptyCommitmentID, err
+	}
+
 	s, _, err := CommitmentIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (c CommitmentID) MarshalText() (text []byte, err error) {
 }
 
 func (c *CommitmentID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(CommitmentIDLength) {
+		return ierrors.Errorf("invalid CommitmentID text length: expected %d characters, got %d characters", hex.EncodedLen(CommitmentIDLength), len(text))
+	}
+
 	_, err := hex.Decode(c[:], text)
 
 	return err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 032bb83..6c57779 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -38,6 +38,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(bytes); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	{{.Receiver}}, _, err := {{.Name}}FromBytes(bytes)
 
 	return {{.Receiver}}, err
@@ -84,6 +88,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid {{.Name}} text length: expected %d characters, got %d characters", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index 4ee3a39..9bdaff6 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -63,6 +63,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(b); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	s, _, err := {{.Name}}FromBytes(b)
 
 	return s, err
@@ -108,6 +112,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen({{.Name}}Length) {
+		return ierrors.Errorf("invalid {{.Name}} text length: expected %d characters, got %d characters", hex.EncodedLen({{.Name}}Length), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/identifier.gen.go b/identifier.gen.go
index 1b75a01..bba9097 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -38,6 +38,10 @@ func IdentifierFromHexString(hex string) (Identifier, error) {
 		return EmptyIdentifier, err
 	}
 
+	if err := IsValidIdentifier(bytes); err != nil {
+		return EmptyIdentifier, err
+	}
+
 	i, _, err := IdentifierFromBytes(bytes)
 
 	return i, err
@@ -84,6 +88,10 @@ func (i Identifier) MarshalText() (text []byte, err error) {
 }
 
 func (i *Identifier) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(IdentifierLength) {
+		return ierrors.Errorf("invalid Identifier text length: expected %d characters, got %d characters", hex.EncodedLen(IdentifierLength), len(text))
+	}
+
 	_, err := hex.Decode(i[:], text)
 
 	return err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 0a6a783..bc60b15 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -38,6 +38,10 @@ func AccountIDFromHexString(hex string) (AccountID, error) {
 		return EmptyAccountID, err
 	}
 
+	if err := IsValidAccountID(bytes); err != nil {
+		return EmptyAccountID, err
+	}
+
 	a, _, err := AccountIDFromBytes(bytes)
 
 	return a, err
@@ -84,6 +88,10 @@ func (a AccountID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AccountID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AccountIDLength) {
+		return ierrors.Errorf("invalid AccountID text length: expected %d characters, got %d characters", hex.EncodedLen(AccountIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 3a56d75..a4ae91c 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -38,6 +38,10 @@ func AnchorIDFromHexString(hex string) (AnchorID, error) {
 		return EmptyAnchorID, err
 	}
 
+	if err := IsValidAnchorID(bytes); err != nil {
+		return EmptyAnchorID, err
+	}
+
 	a, _, err := AnchorIDFromBytes(bytes)
 
 	return a, err
@@ -84,6 +88,10 @@ func (a AnchorID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AnchorID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(AnchorIDLength) {
+		return ierrors.Errorf("invalid AnchorID text length: expected %d characters, got %d characters", hex.EncodedLen(AnchorIDLength), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/output_id.gen.go b/output_id.gen.go
index 77af5e6..f2da856 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -37,6 +37,10 @@ func OutputIDFromHexString(hex string) (OutputID, error) {
 		return EmptyOutputID, err
 	}
 
+	if err := IsValidOutputID(b); err != nil {
+		return EmptyOutputID, err
+	}
+
 	s, _, err := OutputIDFromBytes(b)
 
 	return s, err
@@ -82,6 +86,10 @@ func (o OutputID) MarshalText() (text []byte, err error) {
 }
 
 func (o *OutputID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(OutputIDLength) {
+		return ierrors.Errorf("invalid OutputID text length: expected %d characters, got %d characters", hex.EncodedLen(OutputIDLength), len(text))
+	}
+
 	_, err := hex.Decode(o[:], text)
 
 	return err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 8ecf09f..7b6f56a 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -47,6 +47,10 @@ func SignedTransactionIDFromHexString(hex string) (SignedTransactionID, error) {
 		return EmptySignedTransactionID, err
 	}
 
+	if err := IsValidSignedTransactionID(b); err != nil {
+		return EmptySignedTransactionID, err
+	}
+
 	s, _, err := SignedTransactionIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (t SignedTransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *SignedTransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(SignedTransactionIDLength) {
+		return ierrors.Errorf("invalid SignedTransactionID text length: expected %d characters, got %d characters", hex.EncodedLen(SignedTransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 85b702b..d32f4ac 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -47,6 +47,10 @@ func TransactionIDFromHexString(hex string) (TransactionID, error) {
 		return EmptyTransactionID, err
 	}
 
+	if err := IsValidTransactionID(b); err != nil {
+		return EmptyTransactionID, err
+	}
+
 	s, _, err := TransactionIDFromBytes(b)
 
 	return s, err
@@ -92,6 +96,10 @@ func (t TransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *TransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(TransactionIDLength) {
+		return ierrors.Errorf("invalid TransactionID text length: expected %d characters, got %d characters", hex.EncodedLen(TransactionIDLength), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
-- 
2.43.0


From d03021263fc77dff68005395e791e6e04e7ceda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 15/31] fix: reject hex output IDs of the wrong length instead
 of truncating or panicking

---
 output_id.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/output_id.go b/output_id.go
index 2677f9d..d33a077 100644
--- a/output_id.go
+++ b/output_id.go
@@ -2,9 +2,6 @@ package iotago
 
 import (
 	"encoding/binary"
-
-	"github.com/iotaledger/hive.go/serializer/v2"
-	"github.com/iotaledger/iota.go/v4/hexutil"
 )
 
 func EmptyOutputIDWithCreationSlot(slot SlotIndex) OutputID {
@@ -81,15 +78,13 @@ func (oih OutputIDHex) MustSplitParts() (*TransactionID, uint16) {
 
 // SplitParts returns the transaction ID and output index parts of the hex output ID.
 func (oih OutputIDHex) SplitParts() (*TransactionID, uint16, error) {
-	outputIDBytes, err := hexutil.DecodeHex(string(oih))
+	outputID, err := OutputIDFromHexString(string(oih))
 	if err != nil {
 		return nil, 0, err
 	}
-	var txID TransactionID
-	copy(txID[:], outputIDBytes[:TransactionIDLength])
-	outputIndex := binary.LittleEndian.Uint16(outputIDBytes[TransactionIDLength : TransactionIDLength+serializer.UInt16ByteSize])
+	txID := outputID.TransactionID()
 
-	return &txID, outputIndex, nil
+	return &txID, outputID.Index(), nil
 }
 
 // MustAsUTXOInput converts the hex output ID to a UTXOInput.
@@ -135,11 +130,11 @@ func (ids HexOutputIDs) MustOutputIDs() OutputIDs {
 func (ids HexOutputIDs) OutputIDs() (OutputIDs, error) {
 	vals := make(OutputIDs, len(ids))
 	for i, v := range ids {
-		val, err := hexutil.DecodeHex(string(v))
+		val, err := OutputIDFromHexString(string(v))
 		if err != nil {
 			return nil, err
 		}
-		copy(vals[i][:], val)
+		vals[i] = val
 	}
 
 	return vals, nil
-- 
2.43.0


From bb4f2185fb42abbf8e16afc5a49bb91419bf61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 16/31] fix: reject hex implicit account creation addresses
 with trailing bytes

---
 address_implicit_account_creation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_implicit_account_creation.go b/address_implicit_account_creation.go
index aecc20e..e9f78be 100644
--- a/address_implicit_account_creation.go
+++ b/address_implicit_account_creation.go
@@ -12,7 +12,7 @@ func ParseImplicitAccountCreationAddressFromHexString(hexAddr string) (*Implicit
 		return nil, err
 	}
 
-	if len(addrBytes) < ImplicitAccountCreationAddressBytesLength {
+	if len(addrBytes) != ImplicitAccountCreationAddressBytesLength {
 		return nil, ierrors.New("invalid ImplicitAccountCreationAddress length")
 	}
 
-- 
2.43.0


From e2e8ddcc4f57a5068f4d72729b56dfd8649300de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 17/31] fix: sign for restricted addresses with the keys mapped
 to them

---
 address_signer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address_signer.go b/address_signer.go
index 6dbcb7e..501144e 100644
--- a/address_signer.go
+++ b/address_signer.go
@@ -70,7 +70,12 @@ func NewInMemoryAddressSigner(addrKeys ...AddressKeys) AddressSigner {
 		addrKeys: map[string]interface{}{},
 	}
 	for _, c := range addrKeys {
-		ss.addrKeys[c.Address.Key()] = c.Keys
+		addr := c.Address
+		if restrictedAddr, isRestricted := addr.(*RestrictedAddress); isRestricted {
+			// the keys are looked up by the underlying address
+			addr = restrictedAddr.Address
+		}
+		ss.addrKeys[addr.Key()] = c.Keys
 	}
 
 	return ss
-- 
2.43.0


From a0c97e8e225127ece7ade8920c212c02cd66343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 18/31] fix: do not share block issuer keys and validator
 addresses with clones

---
 feat_blockissuer.go  | 2 +-
 output_delegation.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..1ef8a7a 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -116,7 +116,8 @@ func (d *DelegationOutput) Clone() Output {
 		Amount:           d.Amount,
 		DelegatedAmount:  d.DelegatedAmount,
 		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+		ValidatorAddress: d.ValidatorAddress.Clone().(*AccountAddress),
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From f6660b30813b8497b3df7d4ba9c407a19065347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 19/31] fix: resolve the IDs of new chains and implicit
 accounts in the transaction builder

---
 builder/transaction_builder.go | 39 ++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1584b8e..b179deb 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -574,6 +574,27 @@ func (a *AvailableManaResult) AddAccountBoundMana(accountID iotago.AccountID, va
 	return nil
 }
 
+// accountIDFromInput returns the ID of the account the given input belongs to, if it is an account or an implicit account.
+func accountIDFromInput(inputID iotago.OutputID, input iotago.Output) (iotago.AccountID, bool) {
+	switch output := input.(type) {
+	case *iotago.AccountOutput:
+		if output.AccountID.Empty() {
+			// the account was just created, so its ID needs to be derived from the output ID
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+
+		return output.AccountID, true
+
+	case *iotago.BasicOutput:
+		if addressUnlock := output.UnlockConditionSet().Address(); addressUnlock != nil && addressUnlock.Address.Type() == iotago.AddressImplicitAccountCreation {
+			// the account is created from the implicit account, so its ID needs to be derived from the output ID
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+	}
+
+	return iotago.EmptyAccountID, false
+}
+
 // CalculateAvailableManaInputs calculates the available mana on the input side
 // including mana generation and decay and the rewards.
 func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.SlotIndex) (*AvailableManaResult, error) {
@@ -604,13 +625,13 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 			return nil, err
 		}
 
-		if accountOutput, isAccountOutput := input.(*iotago.AccountOutput); isAccountOutput {
+		if accountID, isAccountInput := accountIDFromInput(inputID, input); isAccountInput {
 			inputTotalMana, err := safemath.SafeAdd(inputPotentialMana, inputStoredMana)
 			if err != nil {
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			if err := result.AddAccountBoundMana(accountOutput.AccountID, inputTotalMana); err != nil {
+			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
 		} else {
@@ -732,7 +753,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 			// always mark the chain as unlocked in case the output is a chain output.
 			// e.g. "an NFT owns an NFT".
-			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+			unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 
 			// skip the rest of the input processing because we don't need to sign chain inputs
 			continue
@@ -777,7 +798,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 		// always mark the chain as unlocked in case the output is a chain output
 		// e.g. "an NFT owned by an ed25519 address".
-		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+		unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
@@ -826,9 +847,15 @@ func (u *txBuilderUnlockedSet) addSignerUID(signerUID iotago.Identifier, unlocke
 // addChainAsUnlocked marks the underlying chain address as unlocked at "unlockedAtIndex".
 // This is only done if the output is a chain output and the chain ID is addressable,
 // which is only valid for AccountOutput, AnchorOutput and NFTOutput.
-func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, unlockedAtIndex int) {
+func (u *txBuilderUnlockedSet) addChainAsUnlocked(inputID iotago.OutputID, input iotago.Output, unlockedAtIndex int) {
 	if chainInput, is := input.(iotago.ChainOutput); is && chainInput.ChainID().Addressable() {
-		u.unlockedChains[chainInput.ChainID().ToAddress().Key()] = unlockedAtIndex
+		chainID := chainInput.ChainID()
+		if utxoIDChainID, is := chainID.(iotago.UTXOIDChainID); is && chainID.Empty() {
+			// the chain was just created, so its ID needs to be derived from the output ID
+			chainID = utxoIDChainID.FromOutputID(inputID)
+		}
+
+		u.unlockedChains[chainID.ToAddress().Key()] = unlockedAtIndex
 	}
 }
 
-- 
2.43.0


From 28bd7a8333c569add2654e48ab50ba591d564cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 20/31] fix: set the features that account output builder
 transitions create

---
 builder/output_builder_account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 37a659e..fdb9b1c 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -169,6 +169,7 @@ func (builder *AccountOutputBuilder) BlockIssuerTransition() *BlockIssuerTransit
 			BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 			ExpirySlot:      0,
 		}
+		builder.output.Features.Upsert(blockIssuerFeature)
 	}
 
 	return &BlockIssuerTransition{
@@ -188,6 +189,7 @@ func (builder *AccountOutputBuilder) StakingTransition() *StakingTransition {
 			StartEpoch:   0,
 			EndEpoch:     0,
 		}
+		builder.output.Features.Upsert(stakingFeature)
 	}
 
 	return &StakingTransition{
-- 
2.43.0


From 72b6014e9d8ad1626de59e7d1d1746021cbe9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 21/31] fix: decode block issuer keys into the key returned

---
 block_issuer_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_issuer_key.go b/block_issuer_key.go
index 7f6a39e..45cfad5 100644
--- a/block_issuer_key.go
+++ b/block_issuer_key.go
@@ -177,7 +177,7 @@ func BlockIssuerKeyFromReader(reader io.ReadSeeker) (BlockIssuerKey, error) {
 func BlockIssuerKeyFromBytes(bytes []byte) (BlockIssuerKey, int, error) {
 	var blockIssuerKey BlockIssuerKey
 
-	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, blockIssuerKey)
+	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, &blockIssuerKey)
 	if err != nil {
 		return nil, 0, ierrors.Wrap(err, "unable to decode block issuer key")
 	}
-- 
2.43.0


From c6e4ddce5553ac3edfcd14b5a7531ec22841384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 22/31] fix: lock the epoch-based provider while listing its
 versions

---
 api_epoch_based_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 356f7ba..892ec7f 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -217,6 +217,9 @@ func (e *EpochBasedProvider) ProtocolParametersHash(version Version) Identifier
 }
 
 func (e *EpochBasedProvider) ProtocolEpochVersions() []ProtocolEpochVersion {
+	e.mutex.RLock()
+	defer e.mutex.RUnlock()
+
 	return e.protocolVersions.Slice()
 }
 
-- 
2.43.0


From 06164bff42881765cbfef386309e7f1422494bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 23/31] fix: read the cached bytes of protocol parameters under
 their lock

---
 api_v3_protocol_parameters.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 281bcff..3551acb 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -147,14 +147,9 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
 	p.bytesMutex.Lock()
 	defer p.bytesMutex.Unlock()
 
-	// Check if some other goroutine cached the bytes while waiting for the lock.
 	if len(p.bytes) > 0 {
 		return p.bytes, nil
 	}
-- 
2.43.0


From 9202189345ba353cfea0f140e4f52bc9ec48022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 24/31] fix: tell when the trailing zeros asked for cannot be
 mined

---
 blockissuer/pow/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blockissuer/pow/worker.go b/blockissuer/pow/worker.go
index a2af40a..456fff6 100644
--- a/blockissuer/pow/worker.go
+++ b/blockissuer/pow/worker.go
@@ -42,6 +42,10 @@ func New(numWorkers ...int) *Worker {
 // It returns a nonce that appended to data results in at least targetTrailingZeros.
 // The computation can be canceled anytime using ctx.
 func (w *Worker) Mine(ctx context.Context, data []byte, targetTrailingZeros int) (uint64, error) {
+	if targetTrailingZeros > MaxTrailingZeros {
+		return 0, ErrInvalidTargetTrailingZeroes
+	}
+
 	var (
 		done    uint32
 		wg      sync.WaitGroup
-- 
2.43.0


From 74f45eb6e675963e71b1b4d0a01da2d32c149b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 25/31] fix: a mapped error that is not wrapped determines the
 transaction failure reason

---
 api/core.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/core.go b/api/core.go
index 364111c..52f7f5e 100644
--- a/api/core.go
+++ b/api/core.go
@@ -445,6 +445,8 @@ func unwrapErrors(err error, errList []error) []error {
 func DetermineTransactionFailureReason(err error) TransactionFailureReason {
 	errorList := make([]error, 0)
 	errorList = unwrapErrors(err, errorList)
+	// The outermost error is the least-detailed one and may itself be one of the mapped errors.
+	errorList = append(errorList, err)
 
 	// Map the error to the transaction failure reason.
 	// The strategy is to map the first failure reason that exists in order of most-detailed to least-detailed error.
-- 
2.43.0


From 8fb232bba5ce7192407e7355b3b548ba9eac0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 26/31] fix: burning native tokens without the capability fails
 for that reason

---
 vm/vm.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 47fa9ac..076313d 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -841,10 +841,15 @@ func ExecFuncBalancedNativeTokens() ExecFunc {
 
 			outSum := vmParams.WorkingSet.OutNativeTokens[nativeTokenID]
 
-			if vmParams.WorkingSet.Tx.Capabilities.CannotBurnNativeTokens() && (outSum == nil || inSum.Cmp(outSum) != 0) {
-				// if burning is not allowed, the input sum must be equal to the output sum
-				return ierrors.WithMessagef(iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, "%w: native token %s is less on output (%d) than input (%d) side but burning is not allowed in the transaction and the foundry is absent for melting", iotago.ErrNativeTokenSumUnbalanced, nativeTokenID, outSum, inSum)
-			} else if (outSum != nil) && (inSum.Cmp(outSum) == -1) {
+			if outSum == nil || inSum.Cmp(outSum) > 0 {
+				// less native tokens on output side than on input side => check if native token burning is allowed
+				if vmParams.WorkingSet.Tx.Capabilities.CannotBurnNativeTokens() {
+					return ierrors.Chain(
+						iotago.ErrNativeTokenSumUnbalanced,
+						ierrors.WithMessagef(iotago.ErrTxCapabilitiesNativeTokenBurningNotAllowed, "native token %s is less on output (%d) than input (%d) side but burning is not allowed in the transaction and the foundry is absent for melting", nativeTokenID, outSum, inSum),
+					)
+				}
+			} else if inSum.Cmp(outSum) < 0 {
 				// input sum must be greater equal the output sum (burning allows it to be greater)
 				return ierrors.WithMessagef(iotago.ErrNativeTokenSumUnbalanced, "native token %s is less on input (%d) than output (%d) side but the foundry is absent for minting", nativeTokenID, inSum, outSum)
 			}
-- 
2.43.0


From 1291b978bec739e203fc4186d4bd2e9d37035390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 27/31] fix: keep the mnemonic a key manager's seed was derived
 from, so that it restores its keys

---
 wallet/keymanager.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 856615c..8ae1c07 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -24,6 +24,9 @@ const (
 type KeyManager struct {
 	seed []byte
 	path bip32path.Path
+
+	// mnemonic is the sentence the seed was derived from (nil if the seed was given directly).
+	mnemonic bip39.Mnemonic
 }
 
 // NewKeyManagerFromRandom creates a new key manager from random entropy.
@@ -34,7 +37,12 @@ func NewKeyManagerFromRandom(path string) (*KeyManager, error) {
 		return nil, ierrors.Wrap(err, "failed to generate random entropy")
 	}
 
-	return NewKeyManager(random.Seed(), path)
+	mnemonic, err := bip39.EntropyToMnemonic(random.Seed())
+	if err != nil {
+		return nil, ierrors.Wrap(err, "failed to convert entropy to mnemonic")
+	}
+
+	return newKeyManagerFromMnemonic(mnemonic, path)
 }
 
 // NewKeyManagerFromMnemonic creates a new key manager from a mnemonic.
@@ -44,12 +52,22 @@ func NewKeyManagerFromMnemonic(mnemonic string, path string) (*KeyManager, error
 		return nil, ierrors.New("mnemomic sentence is not 24 words long")
 	}
 
-	seed, err := bip39.MnemonicToSeed(mnemonicSentence, "")
+	return newKeyManagerFromMnemonic(mnemonicSentence, path)
+}
+
+func newKeyManagerFromMnemonic(mnemonic bip39.Mnemonic, path string) (*KeyManager, error) {
+	seed, err := bip39.MnemonicToSeed(mnemonic, "")
 	if err != nil {
 		return nil, ierrors.Wrap(err, "failed to convert mnemonic to seed")
 	}
 
-	return NewKeyManager(seed, path)
+	keyManager, err := NewKeyManager(seed, path)
+	if err != nil {
+		return nil, err
+	}
+	keyManager.mnemonic = mnemonic
+
+	return keyManager, nil
 }
 
 // NewKeyManager creates a new key manager.
@@ -100,6 +118,11 @@ func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 
 // Mnemonic returns the mnemonic of the key manager.
 func (k *KeyManager) Mnemonic() bip39.Mnemonic {
+	if k.mnemonic != nil {
+		// the seed was derived from the mnemonic, so only the mnemonic itself restores it
+		return lo.CopySlice(k.mnemonic)
+	}
+
 	mnemonic, err := bip39.EntropyToMnemonic(k.seed)
 	if err != nil {
 		panic(ierrors.Wrap(err, "failed to convert seed to mnemonic"))
-- 
2.43.0


From 46b27d78109745697f9a61ed6080cff2b1188d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 28/31] fix: validating a block does not write behind its
 strong parents

---
 block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block.go b/block.go
index 3a841e8..245084e 100644
--- a/block.go
+++ b/block.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/ed25519"
 	"fmt"
+	"slices"
 	"time"
 
 	"golang.org/x/crypto/blake2b"
@@ -293,7 +294,7 @@ func (b *Block) syntacticallyValidate() error {
 	block := b.Body
 	if len(block.WeakParentIDs()) > 0 {
 		// weak parents must be disjunct to the rest of the parents
-		nonWeakParents := lo.KeyOnlyBy(append(block.StrongParentIDs(), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
+		nonWeakParents := lo.KeyOnlyBy(slices.Concat(block.StrongParentIDs(), block.ShallowLikeParentIDs()), func(v BlockID) BlockID {
 			return v
 		})
 
-- 
2.43.0


From 4e277dc49c6365e6093a97c633f5940895523ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 29/31] fix: encoding protocol parameters does not race with
 their first use

---
 api_v3_protocol_parameters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 3551acb..2dff427 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -154,7 +154,9 @@ func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
 		return p.bytes, nil
 	}
 
-	bytes, err := CommonSerixAPI().Encode(context.TODO(), p)
+	// only the parameters themselves are handed to serix, as it copies the struct,
+	// including the cached values which other goroutines might be setting.
+	bytes, err := CommonSerixAPI().Encode(context.TODO(), &V3ProtocolParameters{basicProtocolParameters: p.basicProtocolParameters})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9873be1f792c2de66b471a74c872967c685efa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 30/31] fix: a new random wallet always gets a mnemonic that
 can be restored

---
 wallet/keymanager.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 8ae1c07..271527b 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -31,18 +31,23 @@ type KeyManager struct {
 
 // NewKeyManagerFromRandom creates a new key manager from random entropy.
 func NewKeyManagerFromRandom(path string) (*KeyManager, error) {
-	// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
-	_, random, err := ed25519.GenerateKey(nil)
-	if err != nil {
-		return nil, ierrors.Wrap(err, "failed to generate random entropy")
-	}
+	for {
+		// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
+		_, random, err := ed25519.GenerateKey(nil)
+		if err != nil {
+			return nil, ierrors.Wrap(err, "failed to generate random entropy")
+		}
 
-	mnemonic, err := bip39.EntropyToMnemonic(random.Seed())
-	if err != nil {
-		return nil, ierrors.Wrap(err, "failed to convert entropy to mnemonic")
-	}
+		mnemonic, err := bip39.EntropyToMnemonic(random.Seed())
+		if err != nil {
+			return nil, ierrors.Wrap(err, "failed to convert entropy to mnemonic")
+		}
 
-	return newKeyManagerFromMnemonic(mnemonic, path)
+		// bip39 refuses the mnemonics of entropy that starts with a zero byte, so draw again
+		if _, err := bip39.MnemonicToEntropy(mnemonic); err == nil {
+			return newKeyManagerFromMnemonic(mnemonic, path)
+		}
+	}
 }
 
 // NewKeyManagerFromMnemonic creates a new key manager from a mnemonic.
-- 
2.43.0


From 2791befb95cb1c4db88b3f884505ac2db883d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 31/31] fix: transaction capabilities can be read from their
 bytes

---
 api_common.go | 3 +++
 api_v3.go     | 3 ---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/api_common.go b/api_common.go
index 00cdd9a..8ac1603 100644
--- a/api_common.go
+++ b/api_common.go
@@ -144,6 +144,9 @@ func CommonSerixAPI() *serix.API {
 		must(api.RegisterTypeSettings(AddressCapabilitiesBitMask{},
 			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(2),
 		))
+		must(api.RegisterTypeSettings(TransactionCapabilitiesBitMask{},
+			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(1),
+		))
 
 		must(api.RegisterInterfaceObjects((*Address)(nil), (*Ed25519Address)(nil)))
 		must(api.RegisterInterfaceObjects((*Address)(nil), (*AccountAddress)(nil)))
diff --git a/api_v3.go b/api_v3.go
index 0393cae..8afb814 100644
--- a/api_v3.go
+++ b/api_v3.go
@@ -558,9 +558,6 @@ func V3API(protoParams ProtocolParameters) API {
 				WithLengthPrefixType(serix.LengthPrefixTypeAsUint16).
 				WithArrayRules(txEssenceV3AllotmentsArrRules),
 		))
-		must(api.RegisterTypeSettings(TransactionCapabilitiesBitMask{},
-			serix.TypeSettings{}.WithLengthPrefixType(serix.LengthPrefixTypeAsByte).WithMaxLen(1),
-		))
 
 		must(api.RegisterInterfaceObjects((*TxEssenceOutput)(nil), (*BasicOutput)(nil)))
 		must(api.RegisterInterfaceObjects((*TxEssenceOutput)(nil), (*AccountOutput)(nil)))
-- 
2.43.0

