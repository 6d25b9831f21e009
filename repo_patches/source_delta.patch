From fa6e9e42d8fee5a0fa3e766bec790496e0ac1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 001/133] fix: axolotl: remove a session state from the archive
 when it becomes current again

The promoted state stayed in PreviousStates in its advanced form at first, but
once loaded again as a separate copy it still held the keys of messages that
the current copy had already used, so a ciphertext could be decrypted twice.
Attempts that fail also no longer modify the state they were tried on.
---
 axolotl/session.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3283110..67e8c68 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -23,6 +23,10 @@ func newSessionState(ss *protobuf.SessionStructure) *sessionState {
 	return &sessionState{SS: ss}
 }
 
+func (ss *sessionState) clone() *sessionState {
+	return newSessionState(proto.Clone(ss.SS).(*protobuf.SessionStructure))
+}
+
 func (ss *sessionState) setAliceBaseKey(key []byte) {
 	ss.SS.AliceBaseKey = key
 }
@@ -606,15 +610,21 @@ func (err InvalidMessageError) Error() string {
 	return fmt.Sprintf("invalid message: %s", err.details)
 }
 
+// decrypt tries the current and then the archived states. Every attempt works on a copy, so that a
+// state which cannot decrypt the message is left as it was.
 func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage) ([]byte, error) {
-	b, err := sr.sessionState.decrypt(ciphertext)
+	ss := sr.sessionState.clone()
+	b, err := ss.decrypt(ciphertext)
 	if err == nil {
+		sr.sessionState = ss
 		return b, nil
 	}
 
-	for _, ss := range sr.PreviousStates {
+	for i, prev := range sr.PreviousStates {
+		ss := prev.clone()
 		b, err := ss.decrypt(ciphertext)
 		if err == nil {
+			sr.PreviousStates = append(sr.PreviousStates[:i], sr.PreviousStates[i+1:]...)
 			sr.promoteState(ss)
 			return b, nil
 		}
-- 
2.43.0


From 82247a78a4160d5b47187a859b303e98fa2e3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 002/133] fix: axolotl: give an establishment message effects
 only after it was decrypted

The sender identity was saved before the message was authenticated, so a forged
first message pinned a wrong identity and the real peer was refused from then
on. The one-time prekey was removed before the session replacing it was stored.
---
 axolotl/session.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 67e8c68..e54d0af 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -376,6 +376,8 @@ func (err PreKeyNotFoundError) Error() string {
 }
 
 // BuildReceiverSession creates a new session from a received PreKeyWhisperMessage.
+// The identity key of the message is not authenticated yet, so it is up to the caller
+// to save it once the message has been decrypted.
 func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWhisperMessage) (uint32, error) {
 	if pkwm.Version != currentVersion {
 		return 0, UnsupportedVersionError{pkwm.Version}
@@ -425,11 +427,6 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 	sr.sessionState.setRemoteRegistrationID(pkwm.RegistrationID)
 	sr.sessionState.setAliceBaseKey(pkwm.BaseKey.Serialize())
 
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	if err != nil {
-		return 0, err
-	}
-
 	return pkwm.PreKeyID, nil
 }
 
@@ -700,13 +697,17 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
-	if pkid != 0xFFFFFF {
-		sc.PreKeyStore.RemovePreKey(pkid)
+	err = sc.Builder.identityStore.SaveIdentity(sc.RecipientID, ciphertext.IdentityKey)
+	if err != nil {
+		return nil, err
 	}
 	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
 	if err != nil {
 		return nil, err
 	}
+	if pkid != 0 && pkid != 0xFFFFFF {
+		sc.PreKeyStore.RemovePreKey(pkid)
+	}
 	return plaintext, nil
 }
 
-- 
2.43.0


From 13d5bb8b95b1b519367ddf64795af3b8ec4ae38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 003/133] fix: axolotl: decrypt an establishment message only
 under the session it names

A genuine message wrapped into an establishment message with another base key
was decrypted under the existing session, and the wrapping still consumed the
one-time prekey it named and put a bogus session into the record.
---
 axolotl/session.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index e54d0af..942deb2 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -608,16 +608,22 @@ func (err InvalidMessageError) Error() string {
 }
 
 // decrypt tries the current and then the archived states. Every attempt works on a copy, so that a
-// state which cannot decrypt the message is left as it was.
-func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage) ([]byte, error) {
-	ss := sr.sessionState.clone()
-	b, err := ss.decrypt(ciphertext)
-	if err == nil {
-		sr.sessionState = ss
-		return b, nil
+// state which cannot decrypt the message is left as it was. If baseKey is given, only the session
+// established with that key is tried.
+func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage, baseKey []byte) ([]byte, error) {
+	if baseKey == nil || bytes.Equal(baseKey, sr.sessionState.getAliceBaseKey()) {
+		ss := sr.sessionState.clone()
+		b, err := ss.decrypt(ciphertext)
+		if err == nil {
+			sr.sessionState = ss
+			return b, nil
+		}
 	}
 
 	for i, prev := range sr.PreviousStates {
+		if baseKey != nil && !bytes.Equal(baseKey, prev.getAliceBaseKey()) {
+			continue
+		}
 		ss := prev.clone()
 		b, err := ss.decrypt(ciphertext)
 		if err == nil {
@@ -669,7 +675,7 @@ func (sc *SessionCipher) SessionDecryptWhisperMessage(ciphertext *WhisperMessage
 	if err != nil {
 		return nil, err
 	}
-	plaintext, err := sc.decrypt(sr, ciphertext)
+	plaintext, err := sc.decrypt(sr, ciphertext, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -693,7 +699,7 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
-	plaintext, err := sc.decrypt(sr, ciphertext.Message)
+	plaintext, err := sc.decrypt(sr, ciphertext.Message, ciphertext.BaseKey.Serialize())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 06b71002e9de97e73f137c9b487b66146c9d430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 004/133] fix: axolotl: refuse messages with malformed public
 keys instead of panicking

---
 axolotl/messages.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/axolotl/messages.go b/axolotl/messages.go
index 32317d6..0cc63be 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -37,6 +37,14 @@ func makeVersionByte(hi, lo byte) byte {
 // ErrIncompleteWhisperMessage is returned when an incomplete WhisperMessage is received.
 var ErrIncompleteWhisperMessage = errors.New("incomplete WhisperMessage")
 
+// publicKeyBytes checks the encoding of a public key and returns the key without its type.
+func publicKeyBytes(serialized []byte) ([]byte, error) {
+	if len(serialized) != 33 || serialized[0] != djbType {
+		return nil, InvalidMessageError{"malformed public key"}
+	}
+	return serialized[1:], nil
+}
+
 // LoadWhisperMessage creates a WhisperMessage from serialized bytes.
 func LoadWhisperMessage(serialized []byte) (*WhisperMessage, error) {
 	if len(serialized) == 0 || len(serialized)-macLength < 1 {
@@ -59,11 +67,16 @@ func LoadWhisperMessage(serialized []byte) (*WhisperMessage, error) {
 		return nil, ErrIncompleteWhisperMessage
 	}
 
+	ratchetKey, err := publicKeyBytes(pwm.GetRatchetKey())
+	if err != nil {
+		return nil, err
+	}
+
 	wm := &WhisperMessage{
 		Version:         version,
 		Counter:         pwm.GetCounter(),
 		PreviousCounter: pwm.GetPreviousCounter(),
-		RatchetKey:      NewECPublicKey(pwm.GetRatchetKey()[1:]),
+		RatchetKey:      NewECPublicKey(ratchetKey),
 		Ciphertext:      pwm.GetCiphertext(),
 		serialized:      serialized,
 	}
@@ -146,6 +159,9 @@ var ErrIncompletePreKeyWhisperMessage = errors.New("incomplete PreKeyWhisperMess
 
 // LoadPreKeyWhisperMessage creates a PreKeyWhisperMessage from serialized bytes.
 func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error) {
+	if len(serialized) == 0 {
+		return nil, ErrIncompletePreKeyWhisperMessage
+	}
 	version := highBitsToInt(serialized[0])
 
 	if version != currentVersion {
@@ -169,13 +185,21 @@ func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error)
 	if err != nil {
 		return nil, err
 	}
+	baseKey, err := publicKeyBytes(ppkwm.GetBaseKey())
+	if err != nil {
+		return nil, err
+	}
+	identityKey, err := publicKeyBytes(ppkwm.GetIdentityKey())
+	if err != nil {
+		return nil, err
+	}
 	pkwm := &PreKeyWhisperMessage{
 		Version:        version,
 		RegistrationID: ppkwm.GetRegistrationId(),
 		PreKeyID:       ppkwm.GetPreKeyId(),
 		SignedPreKeyID: ppkwm.GetSignedPreKeyId(),
-		BaseKey:        NewECPublicKey(ppkwm.GetBaseKey()[1:]),
-		IdentityKey:    NewIdentityKey(ppkwm.GetIdentityKey()[1:]),
+		BaseKey:        NewECPublicKey(baseKey),
+		IdentityKey:    NewIdentityKey(identityKey),
 		Message:        wm,
 		serialized:     serialized,
 	}
-- 
2.43.0


From 04c0600a694d12ea44f0aa1a75848d9e631903d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 005/133] fix: axolotl: check length and padding of AES-CBC
 ciphertexts

An empty ciphertext caused a panic and inconsistent padding was accepted, and
both helpers wrote to memory of the caller.
---
 axolotl/crypto.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/axolotl/crypto.go b/axolotl/crypto.go
index 6aaaa42..dfd6056 100644
--- a/axolotl/crypto.go
+++ b/axolotl/crypto.go
@@ -31,15 +31,22 @@ func Decrypt(key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext)%aes.BlockSize != 0 {
 		return nil, errors.New("not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext too short")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
+	plaintext := make([]byte, len(ciphertext)-aes.BlockSize)
 	mode := cipher.NewCBCDecrypter(block, iv)
-	mode.CryptBlocks(ciphertext, ciphertext)
-	pad := ciphertext[len(ciphertext)-1]
+	mode.CryptBlocks(plaintext, ciphertext[aes.BlockSize:])
+	pad := int(plaintext[len(plaintext)-1])
 	if pad > aes.BlockSize {
 		return nil, fmt.Errorf("pad value (%d) larger than AES blocksize (%d)", pad, aes.BlockSize)
 	}
-	return ciphertext[aes.BlockSize : len(ciphertext)-int(pad)], nil
+	if pad == 0 || !bytes.Equal(plaintext[len(plaintext)-pad:], bytes.Repeat([]byte{byte(pad)}, pad)) {
+		return nil, errors.New("invalid padding")
+	}
+	return plaintext[:len(plaintext)-pad], nil
 }
 
 // Encrypt returns the AES-CBC encryption of a plaintext under a given key.
@@ -49,7 +56,10 @@ func Encrypt(key, iv, plaintext []byte) ([]byte, error) {
 		return nil, err
 	}
 	pad := aes.BlockSize - len(plaintext)%aes.BlockSize
-	plaintext = append(plaintext, bytes.Repeat([]byte{byte(pad)}, pad)...)
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("IV length is not the AES blocksize")
+	}
+	plaintext = append(plaintext[:len(plaintext):len(plaintext)], bytes.Repeat([]byte{byte(pad)}, pad)...)
 	ciphertext := make([]byte, len(plaintext))
 	mode := cipher.NewCBCEncrypter(block, iv)
 	mode.CryptBlocks(ciphertext, plaintext)
-- 
2.43.0


From 4e4eb01b38ae59eda00e1c7b303796d0bda3ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 006/133] fix: axolotl: report an error when there is no
 session to encrypt with

---
 axolotl/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 942deb2..cd3f63c 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -530,6 +530,9 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 		return nil, 0, err
 	}
 	ss := sr.sessionState
+	if !ss.hasSenderChain() {
+		return nil, 0, ErrUninitializedSession
+	}
 	chainKey := ss.getSenderChainKey()
 	messageKeys, err := chainKey.getMessageKeys()
 	if err != nil {
@@ -557,7 +560,7 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 			items.preKeyID, uint32(items.signedPreKeyID), items.baseKey,
 			ss.getLocalIdentityPublic(), wm)
 		if err != nil {
-			return nil, 0, nil
+			return nil, 0, err
 		}
 		msg = pkwm.serialize()
 		msgType = int32(signalservice.Envelope_PREKEY_BUNDLE)
-- 
2.43.0


From 34ae224295499e665443dcad8fc7926bce3612da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 007/133] fix: curve25519sign: do not modify the signature that
 is verified

For keys whose Edwards sign bit is set, a valid signature verified only once.
---
 curve25519sign/curve25519sign.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curve25519sign/curve25519sign.go b/curve25519sign/curve25519sign.go
index 917e792..70499e2 100644
--- a/curve25519sign/curve25519sign.go
+++ b/curve25519sign/curve25519sign.go
@@ -94,7 +94,8 @@ func Verify(publicKey [32]byte, message []byte, signature *[64]byte) bool {
 	edwards25519.FeToBytes(&A_ed, &edY)
 
 	A_ed[31] |= signature[63] & 0x80
-	signature[63] &= 0x7F
+	edSignature := *signature
+	edSignature[63] &= 0x7F
 
-	return ed25519.Verify(&A_ed, message, signature)
+	return ed25519.Verify(&A_ed, message, &edSignature)
 }
-- 
2.43.0


From 6fff8aa3943fd208c40c162f5d9873f6b366d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 008/133] fix: axolotl: refuse public keys in non-canonical
 form

An establishment message whose base key had its unused top bit set was accepted,
used up the one-time prekey, and the genuine messages of that session were then
refused.
---
 axolotl/messages.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/axolotl/messages.go b/axolotl/messages.go
index 0cc63be..73d4fde 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -42,6 +42,10 @@ func publicKeyBytes(serialized []byte) ([]byte, error) {
 	if len(serialized) != 33 || serialized[0] != djbType {
 		return nil, InvalidMessageError{"malformed public key"}
 	}
+	// Curve25519 ignores the top bit, so two encodings would stand for the same key.
+	if serialized[32]&0x80 != 0 {
+		return nil, InvalidMessageError{"public key is not in canonical form"}
+	}
 	return serialized[1:], nil
 }
 
-- 
2.43.0


From 26d27ed0053b126d441590c41ea392416d7021ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 009/133] fix: axolotl: refuse a prekey bundle without a signed
 prekey instead of panicking

---
 axolotl/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index cd3f63c..ec94f58 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -446,7 +446,7 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
 	}
-	if pkb.SignedPreKeyPublic != nil &&
+	if pkb.SignedPreKeyPublic == nil ||
 		!curve25519sign.Verify(*theirIdentityKey.Key(), pkb.SignedPreKeyPublic.Serialize(), &pkb.SignedPreKeySignature) {
 		return InvalidSignatureError{pkb}
 	}
-- 
2.43.0


From 8b995f313e93c01756f58aca09503cfa619f5329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 010/133] fix: axolotl: do not keep the first sending chain key
 as a receiving chain

The initiator of a session stored the chain key of its first sending chain a
second time as receiving chain, so that all messages of that chain could be
decrypted from the stored session afterwards. The receiving chain takes the
chain key derived from the key agreement.
---
 axolotl/ratchet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/ratchet.go b/axolotl/ratchet.go
index 9a0d29e..49585a3 100644
--- a/axolotl/ratchet.go
+++ b/axolotl/ratchet.go
@@ -198,7 +198,7 @@ func initializeSenderSession(ss *sessionState, version byte, parameters aliceAxo
 		return err
 	}
 
-	ss.addReceiverChain(parameters.TheirRatchetKey, &sendingChain.chainKey)
+	ss.addReceiverChain(parameters.TheirRatchetKey, &dk.chainKey)
 	ss.setSenderChain(sendingRatchetKey, &sendingChain.chainKey)
 	ss.setRootKey(&sendingChain.rootKey)
 
-- 
2.43.0


From 56ff25db00ae627c23d428b89fad2c7ee586bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 011/133] fix: curve25519sign: refuse signatures whose S is not
 reduced

Adding the group order to the second half of a valid signature gave a different
signature which verified as well.
---
 curve25519sign/curve25519sign.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/curve25519sign/curve25519sign.go b/curve25519sign/curve25519sign.go
index 70499e2..10baf65 100644
--- a/curve25519sign/curve25519sign.go
+++ b/curve25519sign/curve25519sign.go
@@ -66,6 +66,22 @@ func Sign(privateKey *[32]byte, message []byte, random [64]byte) *[64]byte {
 	return signature
 }
 
+// order is the order of the base point in little-endian form.
+var order = [32]byte{
+	0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+	0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}
+
+// isReduced tells whether the little-endian number s is smaller than the group order.
+func isReduced(s []byte) bool {
+	for i := 31; i >= 0; i-- {
+		if s[i] != order[i] {
+			return s[i] < order[i]
+		}
+	}
+	return false
+}
+
 // Verify checks whether the message has a valid signature.
 func Verify(publicKey [32]byte, message []byte, signature *[64]byte) bool {
 
@@ -96,6 +112,10 @@ func Verify(publicKey [32]byte, message []byte, signature *[64]byte) bool {
 	A_ed[31] |= signature[63] & 0x80
 	edSignature := *signature
 	edSignature[63] &= 0x7F
+	if !isReduced(edSignature[32:]) {
+		// adding the group order to S would give a second valid signature
+		return false
+	}
 
 	return ed25519.Verify(&A_ed, message, &edSignature)
 }
-- 
2.43.0


From 1974994eee69ddc0baedf3a959dc3e1ee4398798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 012/133] fix: fingerprint: do not panic when both sides have
 the same fingerprint

---
 fingerprint/fingerprint_numbers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fingerprint/fingerprint_numbers.go b/fingerprint/fingerprint_numbers.go
index a881ca2..b5222f5 100644
--- a/fingerprint/fingerprint_numbers.go
+++ b/fingerprint/fingerprint_numbers.go
@@ -16,9 +16,9 @@ func CreateFingerprintNumbers(localFingerprint []byte, remoteFingerprint []byte)
 
 func compareFingerprintBlocks(localBlocks []string, remoteBlocks []string) int {
 	result := len(localBlocks) - len(remoteBlocks)
-	if result == 0 {
+	if result == 0 && len(localBlocks) > 0 {
 		result = strings.Compare(localBlocks[0], remoteBlocks[0])
-		if result == 0 && len(localBlocks) > 0 {
+		if result == 0 {
 			return compareFingerprintBlocks(localBlocks[1:], remoteBlocks[1:])
 		}
 	}
-- 
2.43.0


From f5547cfd7906c48fa6ea3d83effc4d9eb37fd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 013/133] fix: fingerprint: refuse identity keys of the wrong
 length instead of panicking

---
 fingerprint/fingerprint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fingerprint/fingerprint.go b/fingerprint/fingerprint.go
index ae30731..7245427 100644
--- a/fingerprint/fingerprint.go
+++ b/fingerprint/fingerprint.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"crypto/sha512"
 	"encoding/binary"
+	"errors"
 
 	"fmt"
 	"hash"
@@ -36,6 +37,9 @@ func CreateFingerprint(version uint32, localStableIdentifier []byte, localIdenti
 
 //I'm not particular happy with the name "CreateFingerprintSimple"
 func CreateFingerprintSimple(version uint32, local string, localKey []byte, remote string, remoteKey []byte) ([]string, []byte, error) {
+	if len(localKey) != 33 || len(remoteKey) != 33 {
+		return nil, nil, errors.New("identity key is not 33 bytes long")
+	}
 
 	localStableIdentifier, localECKeys := castParameters(local, localKey)
 
-- 
2.43.0


From 02bbeb86ae8b2b8fcd228ae76f1889acfb89827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 014/133] fix: check length and padding in aesDecrypt, do not
 write to the caller's memory

---
 crypto.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crypto.go b/crypto.go
index fd29e93..ab069e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -69,14 +69,15 @@ func aesEncrypt(key, plaintext []byte) ([]byte, error) {
 	}
 
 	pad := aes.BlockSize - len(plaintext)%aes.BlockSize
-	plaintext = append(plaintext, bytes.Repeat([]byte{byte(pad)}, pad)...)
+	ciphertext := make([]byte, 0, len(plaintext)+pad)
+	ciphertext = append(ciphertext, plaintext...)
+	ciphertext = append(ciphertext, bytes.Repeat([]byte{byte(pad)}, pad)...)
 
-	ciphertext := make([]byte, len(plaintext))
 	iv := make([]byte, 16)
 	randBytes(iv)
 
 	mode := cipher.NewCBCEncrypter(block, iv)
-	mode.CryptBlocks(ciphertext, plaintext)
+	mode.CryptBlocks(ciphertext, ciphertext)
 
 	return append(iv, ciphertext...), nil
 }
@@ -94,14 +95,25 @@ func aesDecrypt(key, ciphertext []byte) ([]byte, error) {
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
 	}
 
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, fmt.Errorf("ciphertext too short: %d bytes", len(ciphertext))
+	}
+
 	iv := ciphertext[:aes.BlockSize]
+	plaintext := make([]byte, len(ciphertext)-aes.BlockSize)
 	mode := cipher.NewCBCDecrypter(block, iv)
-	mode.CryptBlocks(ciphertext, ciphertext)
-	pad := ciphertext[len(ciphertext)-1]
-	if pad > aes.BlockSize {
-		return nil, fmt.Errorf("pad value (%d) larger than AES blocksize (%d)", pad, aes.BlockSize)
+	mode.CryptBlocks(plaintext, ciphertext[aes.BlockSize:])
+	pad := int(plaintext[len(plaintext)-1])
+	if pad == 0 || pad > aes.BlockSize {
+		return nil, fmt.Errorf("pad value (%d) not between 1 and the AES blocksize (%d)", pad, aes.BlockSize)
 	}
-	return ciphertext[aes.BlockSize : len(ciphertext)-int(pad)], nil
+	n := len(plaintext) - pad
+	for _, b := range plaintext[n:] {
+		if int(b) != pad {
+			return nil, errors.New("inconsistent padding")
+		}
+	}
+	return plaintext[:n], nil
 }
 
 func aesCtrNoPaddingDecrypt(key, ciphertext []byte) ([]byte, error) {
@@ -116,6 +128,10 @@ func aesCtrNoPaddingDecrypt(key, ciphertext []byte) ([]byte, error) {
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
 	}
 
+	if len(ciphertext) < aes.BlockSize {
+		return nil, fmt.Errorf("ciphertext too short: %d bytes", len(ciphertext))
+	}
+
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	// CryptBlocks can work in-place if the two arguments are the same.
-- 
2.43.0


From 35c306a704922de1e495934863e655d950d55115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 015/133] fix: store: report a bad MAC for truncated files
 instead of panicking

---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index b87b88b..17bf7ab 100644
--- a/store.go
+++ b/store.go
@@ -151,6 +151,9 @@ func (s *store) decrypt(ciphertext []byte) ([]byte, error) {
 	}
 
 	macPos := len(ciphertext) - 32
+	if macPos < 0 {
+		return nil, ErrStoreBadMAC
+	}
 
 	if !verifyMAC(s.macKey, ciphertext[:macPos], ciphertext[macPos:]) {
 		return nil, ErrStoreBadMAC
-- 
2.43.0


From f2b6c50515b351465036c452338e3b731996abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 016/133] fix: store: an unreadable session is an error, not a
 new session

---
 store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 17bf7ab..9d96486 100644
--- a/store.go
+++ b/store.go
@@ -421,9 +421,12 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 func (s *store) LoadSession(recipientID string, deviceID uint32) (*axolotl.SessionRecord, error) {
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	b, err := s.readFile(sfile)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return axolotl.NewSessionRecord(), nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	record, err := axolotl.LoadSessionRecord(b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 04f7edab3c56b4f906a3b3c4769cbceaefbf1a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 017/133] fix: store: replace files atomically

---
 store.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 9d96486..0652aee 100644
--- a/store.go
+++ b/store.go
@@ -8,7 +8,6 @@ import (
 	"crypto/sha1"
 	"errors"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -32,6 +31,7 @@ type store struct {
 	signedPreKeysDir string
 	identityDir      string
 	sessionsDir      string
+	tmpDir           string
 
 	unencrypted bool
 	aesKey      []byte
@@ -46,6 +46,7 @@ func newStore(password, path string) (*store, error) {
 		signedPreKeysDir: filepath.Join(path, "signed_prekeys"),
 		identityDir:      filepath.Join(path, "identity"),
 		sessionsDir:      filepath.Join(path, "sessions"),
+		tmpDir:           filepath.Join(path, "tmp"),
 		unencrypted:      password == "",
 	}
 
@@ -62,6 +63,13 @@ func newStore(password, path string) (*store, error) {
 	if err := os.MkdirAll(ts.sessionsDir, 0700); err != nil {
 		return nil, err
 	}
+	// Whatever an interrupted write left behind is not needed any more
+	if err := os.RemoveAll(ts.tmpDir); err != nil {
+		return nil, err
+	}
+	if err := os.MkdirAll(ts.tmpDir, 0700); err != nil {
+		return nil, err
+	}
 
 	// If there is a password, generate the keys from it
 	if !ts.unencrypted {
@@ -73,7 +81,7 @@ func newStore(password, path string) (*store, error) {
 		// Create salt if this is first run
 		if !exists(saltFile) {
 			randBytes(salt)
-			err = ioutil.WriteFile(saltFile, salt, 0600)
+			err = ts.replaceFile(saltFile, salt)
 			if err != nil {
 				return nil, err
 			}
@@ -177,7 +185,30 @@ func (s *store) writeFile(path string, b []byte) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(path, b, 0600)
+	return s.replaceFile(path, b)
+}
+
+// replaceFile writes the data to a temporary file and moves that into place when it is complete,
+// so that the file has its complete old or its complete new contents whatever happens in between
+func (s *store) replaceFile(path string, b []byte) error {
+	f, err := os.CreateTemp(s.tmpDir, "write")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(b)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
 
 // Identity store
-- 
2.43.0


From ebc79daedad1eeacefda96eab5b358d2cb46ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 018/133] fix: store: list and delete only the sessions of the
 given recipient

---
 store.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 0652aee..74fc20c 100644
--- a/store.go
+++ b/store.go
@@ -439,9 +439,15 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 	sessions := []uint32{}
 
 	filepath.Walk(s.sessionsDir, func(path string, fi os.FileInfo, err error) error {
-		if !fi.IsDir() {
-			i := strings.LastIndex(path, "_")
-			id, _ := strconv.Atoi(path[i+1:])
+		if err != nil || fi.IsDir() {
+			return nil
+		}
+		i := strings.LastIndex(fi.Name(), "_")
+		if i < 0 {
+			return nil
+		}
+		id, err := strconv.ParseUint(fi.Name()[i+1:], 10, 32)
+		if err == nil && path == s.sessionFilePath(recipientID, uint32(id)) {
 			sessions = append(sessions, uint32(id))
 		}
 		return nil
-- 
2.43.0


From d1efa16c0073836a91a824f5c245c4e94376e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 019/133] fix: store: keep peer identifiers from naming other
 files

---
 store.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 74fc20c..98a9b13 100644
--- a/store.go
+++ b/store.go
@@ -8,6 +8,7 @@ import (
 	"crypto/sha1"
 	"errors"
 	"fmt"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -243,8 +244,14 @@ func (s *store) SetIdentityKeyPair(ikp *axolotl.IdentityKeyPair) error {
 	return s.writeFile(idkeyfile, b)
 }
 
+// remoteIdentityFilePath returns the file of a peer's identity key. The ID comes from outside,
+// it must not be able to name a file somewhere else.
+func (s *store) remoteIdentityFilePath(id string) string {
+	return filepath.Join(s.identityDir, "remote_"+url.PathEscape(id))
+}
+
 func (s *store) SaveIdentity(id string, key *axolotl.IdentityKey) error {
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := s.remoteIdentityFilePath(id)
 	return s.writeFile(idkeyfile, key.Key()[:])
 }
 
@@ -254,7 +261,7 @@ func (s *store) IsTrustedIdentity(id string, key *axolotl.IdentityKey) bool {
 		// more securely and with a better UI.
 		return true
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := s.remoteIdentityFilePath(id)
 	// Trust on first use (TOFU)
 	if !exists(idkeyfile) {
 		return true
@@ -287,7 +294,7 @@ func ContactIdentityKey(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+idClean)
+	idkeyfile := s.remoteIdentityFilePath(idClean)
 	if !exists(idkeyfile) {
 		return nil, UnknownContactError{id}
 	}
@@ -432,7 +439,7 @@ func (s *store) loadHTTPSignalingKey() ([]byte, error) {
 // Session store
 
 func (s *store) sessionFilePath(recipientID string, deviceID uint32) string {
-	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", recipientID, deviceID))
+	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", url.PathEscape(recipientID), deviceID))
 }
 
 func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
-- 
2.43.0


From 685aeb6d5241c60b0af8d37598ffd6ae9fb5b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 020/133] fix: axolotl: pin the identity before storing the
 session built with it

---
 axolotl/session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index ec94f58..4f43ab6 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -491,12 +491,12 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	sr.sessionState.setRemoteRegistrationID(pkb.RegistrationID)
 	sr.sessionState.setAliceBaseKey(ourBaseKey.PublicKey.Serialize())
 
-	err = sb.sessionStore.StoreSession(sb.recipientID, sb.deviceID, sr)
+	// A session must never be there without its peer's identity being pinned
+	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
 	if err != nil {
 		return err
 	}
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	return err
+	return sb.sessionStore.StoreSession(sb.recipientID, sb.deviceID, sr)
 }
 
 // SessionCipher represents a peer and its persistent stored session.
-- 
2.43.0


From 7a7b5c2b5229cd729ba0c2e922e5c9f88f46223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 021/133] fix: axolotl: do not lose a session when another one
 is built at the same time

---
 axolotl/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index 4f43ab6..6c27015 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -442,6 +442,9 @@ func (err InvalidSignatureError) Error() string {
 
 // BuildSenderSession creates a new session from a PreKeyBundle
 func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
+	sb.sessionStore.Lock()
+	defer sb.sessionStore.Unlock()
+
 	theirIdentityKey := pkb.IdentityKey
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
-- 
2.43.0


From 99f8dd3896cd80ae62f92908ee8511a0fafd9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 022/133] fix: crypto: refuse GCM nonces of the wrong length
 instead of panicking, do not write to the caller's memory

---
 crypto/aesgcm.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crypto/aesgcm.go b/crypto/aesgcm.go
index 5891af8..3a9f647 100644
--- a/crypto/aesgcm.go
+++ b/crypto/aesgcm.go
@@ -3,6 +3,7 @@ package crypto
 import (
 	"crypto/aes"
 	"crypto/cipher"
+	"fmt"
 )
 
 const TAG_LENGTH_BYTES = 16
@@ -18,7 +19,10 @@ func AesgcmDecrypt(key, nonce, data, mac []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	ciphertext := append(data, mac...)
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, fmt.Errorf("nonce is %d not %d bytes long", len(nonce), aesgcm.NonceSize())
+	}
+	ciphertext := append(data[:len(data):len(data)], mac...)
 
 	return aesgcm.Open(nil, nonce, ciphertext, nil)
 }
@@ -35,5 +39,8 @@ func AesgcmEncrypt(key, nonce, input []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, fmt.Errorf("nonce is %d not %d bytes long", len(nonce), aesgcm.NonceSize())
+	}
 	return aesgcm.Seal(nil, nonce, input, nil), nil
 }
-- 
2.43.0


From 73ffa68132aedbc705186724aa94813e1e2c75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 023/133] fix: contactDiscoveryCrypto: refuse answers with a
 nonce of the wrong length instead of panicking

---
 contactDiscoveryCrypto/contactDiscoveryCrypto.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contactDiscoveryCrypto/contactDiscoveryCrypto.go b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
index d8136f6..90545e5 100644
--- a/contactDiscoveryCrypto/contactDiscoveryCrypto.go
+++ b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
@@ -195,6 +195,9 @@ func aesDecrypt(key, nonce, data, mac, aad []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	ciphertext := append(data, mac...)
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("wrong nonce length")
+	}
+	ciphertext := append(data[:len(data):len(data)], mac...)
 	return aesgcm.Open(nil, nonce, ciphertext, aad)
 }
-- 
2.43.0


From c6c599821871799da5b81233dbb574760e48dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 024/133] fix: profiles: refuse short avatars and avatar keys
 instead of panicking

---
 profiles/avatars.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 448a5ea..8f1ffe8 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -118,6 +118,12 @@ func setupAvatarsPath() error {
 }
 
 func decryptAvatar(avatar []byte, identityKey []byte) ([]byte, error) {
+	if len(avatar) < NONCE_LEN {
+		return nil, fmt.Errorf("avatar too short: %d bytes", len(avatar))
+	}
+	if len(identityKey) < 32 {
+		return nil, fmt.Errorf("avatar key too short: %d bytes", len(identityKey))
+	}
 	nonce := avatar[:NONCE_LEN]
 	encrypted_avatar := avatar[NONCE_LEN:]
 	decryptedAvatar, err := decrypt(identityKey[:32], encrypted_avatar, nonce)
-- 
2.43.0


From ee4dff64b2cf2975dfb806dc8a1c6b8ea7971595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 025/133] fix: profiles: take profile keys and nonces from the
 CSPRNG

---
 profiles/profile.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 092628b..17024ef 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -2,13 +2,13 @@ package profiles
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"math/rand"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -43,7 +43,9 @@ type ProfileSettings struct {
 // GenerateProfileKey generates a new ProfileKey
 func GenerateProfileKey() []byte {
 	profileKey := make([]byte, 32)
-	rand.Read(profileKey)
+	if _, err := rand.Read(profileKey); err != nil {
+		panic(err)
+	}
 	return profileKey
 }
 func uuidToByte(id string) []byte {
@@ -106,9 +108,11 @@ func encryptName(key, input []byte, paddedLength int) ([]byte, error) {
 	if inputLength > paddedLength {
 		return nil, errors.New("Input too long")
 	}
-	padded := append(input, make([]byte, paddedLength-inputLength)...)
+	padded := append(input[:inputLength:inputLength], make([]byte, paddedLength-inputLength)...)
 	nonce := make([]byte, 12)
-	rand.Read(nonce)
+	if _, err := rand.Read(nonce); err != nil {
+		return nil, err
+	}
 	ciphertext, err := crypto.AesgcmEncrypt(key, nonce, padded)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c27b2efdaa8cbffbeca9b2dc59d18dcc9d155a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 026/133] fix: contactsDiscovery: report malformed and failed
 attestations as errors

---
 contactsDiscovery/remoteAttestationUtil.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index 41a0309..73f4004 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -2,6 +2,7 @@ package contactsDiscovery
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	axolotl "github.com/signal-golang/textsecure/axolotl"
@@ -79,11 +80,14 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 
 	multiRemoteAttestationResponse := &MultiRemoteAttestationResponse{}
 	dec := json.NewDecoder(resp.Body)
 	// log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp", resp)
-	err = dec.Decode(&multiRemoteAttestationResponse)
+	err = dec.Decode(multiRemoteAttestationResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -103,10 +107,9 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 		)
 		if err != nil {
 			log.Errorln("[textsecure] GetAndVerifyMultiRemoteAttestation validation ", err)
-		} else {
-			assestations[key] = assestation
-
+			return nil, err
 		}
+		assestations[key] = assestation
 	}
 
 	return assestations, nil
@@ -119,6 +122,9 @@ func validateAndBuildRemoteAttestation(
 	keyPair *axolotl.ECKeyPair,
 	enclaveName string,
 ) (*RemoteAttestation, error) {
+	if remoteAttestation == nil {
+		return nil, errors.New("empty attestation")
+	}
 	keys, err := remoteAttestationKeys(keyPair, remoteAttestation.ServerEphemeralPublic, remoteAttestation.ServerStaticPublic)
 	log.Debugln("[textsecure] validateAndBuildRemoteAttestation ")
 	if err != nil {
@@ -142,6 +148,9 @@ func validateAndBuildRemoteAttestation(
 }
 
 func remoteAttestationKeys(keyPair *axolotl.ECKeyPair, serverPublicEphemarl []byte, serverPublicStatic []byte) (*RemoteAttestationKeys, error) {
+	if len(serverPublicEphemarl) != 32 || len(serverPublicStatic) != 32 {
+		return nil, fmt.Errorf("attestation keys are %d and %d not 32 bytes long", len(serverPublicEphemarl), len(serverPublicStatic))
+	}
 
 	ephemeralToEphemeral := [32]byte{}
 	serverPublicEphemarlPublicKey := axolotl.NewECPublicKey(serverPublicEphemarl).GetKey()
-- 
2.43.0


From 7e3793872b2593235511ea1035d319d3c228981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 027/133] fix: unidentifiedAccess: report malformed
 certificates and keys as errors instead of ending the process

---
 unidentifiedAccess/unidentifiedAccess.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 593b9e2..4ec074a 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -42,15 +42,15 @@ func CheckCertificate(certificate []byte) error {
 	}
 	serverCert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(certificate, serverCert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return err
 	}
 	senderCertificate := &signalservice.SenderCertificate_Certificate{}
 	if err := proto.Unmarshal(serverCert.Certificate, senderCertificate); err != nil {
-		log.Fatalln("Failed to parse sender certificate:", err)
+		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if *senderCertificate.Expires < uint64(time.Now().Unix()) {
+	if senderCertificate.GetExpires() < uint64(time.Now().Unix()) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
@@ -131,6 +131,9 @@ func GetAccessForUUID(recipent contacts.Contact) (*UnidentifiedAccessPair, error
 		return nil, err
 	}
 	theirUnidentifiedAccessKey, err := GetTargetUnidentifiedAccessKey(recipent)
+	if err != nil {
+		return nil, err
+	}
 
 	return &UnidentifiedAccessPair{
 		TargetUnidentifiedAccess: UnidentifiedAccess{
@@ -147,7 +150,7 @@ func GetOurCertificate() ([]byte, error) {
 	log.Infoln("[textsecure] Getting our certificate")
 	cert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(config.ConfigFile.Certificate, cert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return nil, err
 	}
 	return cert.Certificate, nil
-- 
2.43.0


From e762685f795ca0f90df1d78ba2322135f22cabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 028/133] fix: transport: send the user agent, not the proxy
 server, in the user agent header

---
 transport/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/transport.go b/transport/transport.go
index a20f82b..44df67b 100644
--- a/transport/transport.go
+++ b/transport/transport.go
@@ -128,7 +128,7 @@ func newHTTPTransporter(baseURL, user, pass string, userAgent string, proxyServe
 		},
 	}
 
-	return &httpTransporter{baseURL, user, pass, userAgent, proxyServer, client}
+	return &httpTransporter{baseURL, user, pass, proxyServer, userAgent, client}
 }
 
 func (ht *httpTransporter) Get(url string) (*response, error) {
-- 
2.43.0


From 03e54acd6393fc7b9bdfcb369e1c913d47b06085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 029/133] fix: transport: report failed requests for
 credentials and certificates as errors

---
 transport/credentials.go      | 7 ++++++-
 transport/unidentifiedCert.go | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/transport/credentials.go b/transport/credentials.go
index 8e9cad3..e8186ec 100644
--- a/transport/credentials.go
+++ b/transport/credentials.go
@@ -33,9 +33,14 @@ func GetCredendtails(path string) (*AuthCredentials, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a AuthCredentials
-	dec.Decode(&a)
+	if err := dec.Decode(&a); err != nil {
+		return nil, err
+	}
 	log.Debugln("[textsecure] getCredentials ")
 	return &a, nil
 
diff --git a/transport/unidentifiedCert.go b/transport/unidentifiedCert.go
index bc21a5b..96edaa3 100644
--- a/transport/unidentifiedCert.go
+++ b/transport/unidentifiedCert.go
@@ -23,10 +23,14 @@ func GetSenderCertificate() (*SenderCertificate, error) {
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
+
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&certificates)
+	err = dec.Decode(certificates)
 	if err != nil {
-		return certificates, nil
+		return nil, err
 	}
 
 	return certificates, nil
-- 
2.43.0


From 767770880580c122b8ab83acea555f73999f8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 030/133] fix: do not cut messages without padding at a byte
 that looks like its start

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 9f23563..e07e018 100644
--- a/server.go
+++ b/server.go
@@ -806,6 +806,9 @@ func stripPadding(msg []byte) []byte {
 		if msg[i] == 0x80 {
 			return msg[:i]
 		}
+		if msg[i] != 0 {
+			break
+		}
 	}
 	return msg
 }
-- 
2.43.0


From f1d3384e64b7229ad6b9a05a46aad373c2dcb838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 031/133] fix: report failed device, prekey and account
 requests as errors

---
 server.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index e07e018..0b3355a 100644
--- a/server.go
+++ b/server.go
@@ -413,7 +413,9 @@ func GetMyUUID() (string, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response whoAmIResponse
-	dec.Decode(&response)
+	if err := dec.Decode(&response); err != nil {
+		return "", err
+	}
 	return response.UUID, nil
 }
 
@@ -426,9 +428,14 @@ func getNewDeviceVerificationCode() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if resp.IsError() {
+		return "", resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var c jsonDeviceCode
-	dec.Decode(&c)
+	if err := dec.Decode(&c); err != nil {
+		return "", err
+	}
 	return c.VerificationCode, nil
 
 }
@@ -451,21 +458,27 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 	if err != nil {
 		return devices.DeviceList, err
 	}
+	if resp.IsError() {
+		return devices.DeviceList, resp
+	}
 
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&devices)
+	err = dec.Decode(devices)
 	if err != nil {
-		return devices.DeviceList, nil
+		return nil, err
 	}
 
 	return devices.DeviceList, nil
 }
 
 func unlinkDevice(id int) error {
-	_, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
+	resp, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
 	if err != nil {
 		return err
 	}
+	if resp.IsError() {
+		return resp
+	}
 	return nil
 }
 
@@ -576,7 +589,9 @@ func getPreKeys(UUID string, deviceID string) (*preKeyResponse, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	k := &preKeyResponse{}
-	dec.Decode(k)
+	if err := dec.Decode(k); err != nil {
+		return nil, err
+	}
 
 	return k, nil
 }
-- 
2.43.0


From 5f71746897abde5acbbf7df369436b55fbf45e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 032/133] fix: report contact discovery answers of the wrong
 length as errors

---
 server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 0b3355a..3c2981e 100644
--- a/server.go
+++ b/server.go
@@ -618,7 +618,7 @@ func getContactDiscoveryRegisteredUsers(authorization string, request *contactDi
 	discoveryResponse := &contactDiscoveryCrypto.DiscoveryResponse{}
 	dec := json.NewDecoder(resp.Body)
 	log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp")
-	err = dec.Decode(&discoveryResponse)
+	err = dec.Decode(discoveryResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -698,6 +698,9 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 	}
 	uuidlength := 16
 	ind := 0
+	if len(responseData) != len(tokens)*uuidlength {
+		return nil, fmt.Errorf("contact discovery answered with %d bytes for %d numbers", len(responseData), len(tokens))
+	}
 
 	contacts.Contacts = map[string]contacts.Contact{}
 	for _, phone := range tokens {
-- 
2.43.0


From 8c3b4c702597cc454d981103dd886cca75d323d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 033/133] fix: profiles: report failed requests as errors

---
 profiles/avatars.go |  3 +++
 profiles/profile.go | 26 +++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 8f1ffe8..94add39 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -34,6 +34,9 @@ func GetRemoteAvatar(avatarURL string) (io.ReadCloser, error) {
 
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 
 	return resp.Body, nil
 }
diff --git a/profiles/profile.go b/profiles/profile.go
index 17024ef..1d5e9e9 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -170,6 +170,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -190,6 +193,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 		if err != nil {
 			return profile, err
 		}
+		if resp.IsError() {
+			return nil, resp
+		}
 		bytes, err := io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, err
@@ -241,6 +247,9 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		log.Debugln("[textsecure] GetProfileAndCredential", err)
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -351,17 +360,25 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	resp, err := transport.Transport.Get(fmt.Sprintf(PROFILE_PATH, tel))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
+	}
+	if resp.IsError() {
+		return contacts.Contact{}, resp
 	}
 
 	profile := &Profile{}
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&profile)
+	err = dec.Decode(profile)
 
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
 
-	avatar, _ := GetRemoteAvatar(profile.Avatar)
+	avatar, err := GetRemoteAvatar(profile.Avatar)
+	if err != nil {
+		return contacts.Contact{}, err
+	}
 	buf := new(bytes.Buffer)
 	buf.ReadFrom(avatar)
 
@@ -400,9 +417,12 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			log.Errorln("[textsecure] GetProfileUuid fetch profile:", err)
 			return nil, err
 		}
+		if resp.IsError() {
+			return nil, resp
+		}
 
 		dec := json.NewDecoder(resp.Body)
-		err = dec.Decode(&profile)
+		err = dec.Decode(profile)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid decode", err)
 			return nil, err
-- 
2.43.0


From ce309d5c4b63a1c6835da90ce2ae4633e65ff2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 034/133] fix: groupsv2: report undecodable credentials as an
 error

---
 groupsv2/credentials.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index ed64565..bdde8db 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -74,7 +74,9 @@ func GetGroupAuthCredentials(startDay int64, endDay int64) error {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response GroupCredentials
-	dec.Decode(&response)
+	if err := dec.Decode(&response); err != nil {
+		return err
+	}
 	Credentials = &response
 	return nil
 }
-- 
2.43.0


From 20eb102dc81fba7062bcf9c713f56ccd841d09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 035/133] fix: profiles: decrypt the profile that GetProfile
 returns, not the one it replaces

---
 profiles/profile.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 1d5e9e9..de449e1 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -184,11 +184,6 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 		log.Debugln("[textsecure] GetProfile decode error", err)
 		return nil, err
 	} else {
-		err = decryptProfile(profileKey, profile)
-		if err != nil {
-			log.Errorln("[textsecure] decrypt profile error", err)
-			// return nil, err
-		}
 		resp, err = transport.Transport.GetWithUnidentifiedAccessKey(fmt.Sprintf(PROFILE_PATH, UUID), []byte(profile.UnidentifiedAccess))
 		if err != nil {
 			return profile, err
@@ -205,6 +200,11 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 			log.Debugln("[textsecure] GetProfile decode error", err)
 			return nil, err
 		}
+		err = decryptProfile(profileKey, profile)
+		if err != nil {
+			log.Errorln("[textsecure] decrypt profile error", err)
+			// return nil, err
+		}
 	}
 	return profile, nil
 
-- 
2.43.0


From 9bcce142b9bf0f2dce662525957f8d1c41ed69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 036/133] fix: profiles: decrypt the about texts of profiles
 without a name

---
 profiles/profile.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index de449e1..b37798f 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -302,24 +302,23 @@ func decryptProfile(profileKey []byte, profile *Profile) error {
 			return err
 		}
 		profile.Name = name
-
-		if profile.About != "" {
-			about, err := decryptString(profileKey, profile.About)
-			if err != nil {
-				log.Debugln("[textsecure] decryptProfile about", err)
-				return err
-			}
-			profile.About = about
+	}
+	if profile.About != "" {
+		about, err := decryptString(profileKey, profile.About)
+		if err != nil {
+			log.Debugln("[textsecure] decryptProfile about", err)
+			return err
 		}
-		if profile.AboutEmoji != "" {
+		profile.About = about
+	}
+	if profile.AboutEmoji != "" {
 
-			emoji, err := decryptString(profileKey, profile.AboutEmoji)
-			if err != nil {
-				log.Debugln("[textsecure] decryptProfile aboutEmoji", err)
-				return err
-			}
-			profile.AboutEmoji = emoji
+		emoji, err := decryptString(profileKey, profile.AboutEmoji)
+		if err != nil {
+			log.Debugln("[textsecure] decryptProfile aboutEmoji", err)
+			return err
 		}
+		profile.AboutEmoji = emoji
 	}
 	identityKey, err := base64.StdEncoding.DecodeString(profile.IdentityKey)
 	if err != nil {
-- 
2.43.0


From cc5599659b3ab025168ef9b0514f97e2a5cfa984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 037/133] fix: crayfish: give every call its own answer, and an
 error when the connection is lost

---
 crayfish/avatar.go   |  12 +----
 crayfish/backend.go  | 115 ++++++++++++++++++++++++++++++++++++++-----
 crayfish/envelope.go |  12 +----
 crayfish/register.go |  15 ++----
 4 files changed, 111 insertions(+), 43 deletions(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 6893154..965f6d9 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -34,17 +34,9 @@ func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] avatar send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
-	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
-	rm, err := json.Marshal(response.Message)
-	if err != nil {
-		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", response.Message)
-		return nil, err
-	}
 	var data CrayfishWebSocketResponse_AVATAR_MESSAGE
-	err = json.Unmarshal(rm, &data)
+	err = c.call(m, &data)
+	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
 	if err != nil {
 		return nil, err
 	}
diff --git a/crayfish/backend.go b/crayfish/backend.go
index 40551fe..abb2f8e 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -27,9 +27,13 @@ var (
 	// ErrNotListening is returned when trying to stop listening when there's no
 	// valid listening connection set up
 	ErrNotListening = errors.New("[textsecure-crayfish-ws] there is no listening connection to stop")
+	// ErrConnectionLost is returned when the connection is closed before the answer to a request arrived
+	ErrConnectionLost = errors.New("[textsecure-crayfish-ws] connection lost before the answer arrived")
 )
 
 type CrayfishInstance struct {
+	callMutex      sync.Mutex // held during a call: answers carry no id, so there is one request at a time
+	mutex          sync.Mutex // guards wsconn, stopping and receiveChannel
 	wsconn         *Conn
 	cmd            *exec.Cmd
 	stopping       bool
@@ -109,6 +113,9 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	// closed is closed when no more messages will be received
+	closed chan struct{}
 }
 
 func Run() {
@@ -250,6 +257,8 @@ func (c *Conn) writeWorker() {
 				}).Error("[textsecure-crayfish-ws] Failed to send websocket message")
 				return
 			}
+		case <-c.closed:
+			return
 		case <-ticker.C:
 			log.Debugf("[textsecure-crayfish-ws] Sending websocket ping message")
 			if err := c.write(websocket.PingMessage, nil); err != nil {
@@ -267,9 +276,9 @@ func (c *CrayfishInstance) StartListening() error {
 	defer func() {
 		log.Debugf("[textsecure-crayfish-ws] BackendStartListening")
 		for {
-			if !c.stopping {
+			if !c.isStopping() {
 				err := c.StartWebsocket()
-				if err != nil && !c.stopping {
+				if err != nil && !c.isStopping() {
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure-crayfish-ws] Failed to start listening")
@@ -288,27 +297,32 @@ func (c *CrayfishInstance) StartListening() error {
 func (c *CrayfishInstance) StartWebsocket() error {
 	var err error
 
-	c.wsconn = &Conn{send: make(chan []byte, 256)}
-	err = c.wsconn.connect(serverAdress + websocketPath)
+	conn := &Conn{send: make(chan []byte, 256), closed: make(chan struct{})}
+	err = conn.connect(serverAdress + websocketPath)
 	if err != nil {
 		log.Errorf(err.Error())
 		return err
 	}
 
-	defer c.wsconn.ws.Close()
+	defer conn.ws.Close()
+	defer close(conn.closed)
 
 	// Can only have a single goroutine call write methods
-	go c.wsconn.writeWorker()
+	go conn.writeWorker()
 
-	c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
-	c.wsconn.ws.SetPongHandler(func(string) error {
+	conn.ws.SetReadDeadline(time.Now().Add(pongWait))
+	conn.ws.SetPongHandler(func(string) error {
 		log.Debugf("[textsecure-crayfish-ws] Received websocket pong message")
-		c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
+		conn.ws.SetReadDeadline(time.Now().Add(pongWait))
 		return nil
 	})
 
+	c.mutex.Lock()
+	c.wsconn = conn
+	c.mutex.Unlock()
+
 	for {
-		_, bmsg, err := c.wsconn.ws.ReadMessage()
+		_, bmsg, err := conn.ws.ReadMessage()
 		if err != nil {
 			if websocket.IsUnexpectedCloseError(err, websocket.CloseGoingAway, websocket.CloseAbnormalClosure) {
 				log.Debugf("[textsecure-crayfish-ws] Websocket UnexpectedCloseError: %s", err)
@@ -349,30 +363,105 @@ func (c *CrayfishInstance) StartWebsocket() error {
 
 // StopListening disables the receiving of messages.
 func (c *CrayfishInstance) StopListening() error {
-	if c.wsconn == nil {
+	c.mutex.Lock()
+	conn := c.wsconn
+	c.mutex.Unlock()
+	if conn == nil {
 		return ErrNotListening
 	}
-	if c.wsconn.ws != nil {
-		c.wsconn.ws.Close()
+	if conn.ws != nil {
+		conn.ws.Close()
 	}
 	return nil
 }
 
+func (c *CrayfishInstance) isStopping() bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.stopping
+}
+
+// send hands a request to the connection that is given, if there is one.
+func (c *CrayfishInstance) send(conn *Conn, request []byte) error {
+	if conn == nil {
+		return ErrNotListening
+	}
+	select {
+	case conn.send <- request:
+		return nil
+	case <-conn.closed:
+		return ErrConnectionLost
+	}
+}
+
+// call sends a request, waits for its answer and decodes it into data.
+func (c *CrayfishInstance) call(request []byte, data interface{}) error {
+	c.callMutex.Lock()
+	defer c.callMutex.Unlock()
+
+	receiveChannel := make(chan *CrayfishWebSocketResponseMessage, 1)
+	c.mutex.Lock()
+	conn := c.wsconn
+	c.receiveChannel = receiveChannel
+	c.mutex.Unlock()
+	defer func() {
+		c.mutex.Lock()
+		c.receiveChannel = nil
+		c.mutex.Unlock()
+	}()
+
+	err := c.send(conn, request)
+	if err != nil {
+		return err
+	}
+	var response *CrayfishWebSocketResponseMessage
+	select {
+	case response = <-receiveChannel:
+	case <-conn.closed:
+		// the answer may have been the last message
+		select {
+		case response = <-receiveChannel:
+		default:
+			return ErrConnectionLost
+		}
+	}
+	if response.Message == nil {
+		return errors.New("[textsecure-crayfish-ws] answer without a message")
+	}
+	rm, err := json.Marshal(response.Message)
+	if err != nil {
+		return err
+	}
+	return json.Unmarshal(rm, data)
+}
+
 func handleCrayfishRequestMessage(request *CrayfishWebSocketRequestMessage) error {
+	if request == nil || request.Type == nil {
+		return errors.New("[textsecure-crayfish-ws] request without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket request message", *request.Type)
 	return nil
 }
 
 func (c *CrayfishInstance) handleCrayfishResponseMessage(response *CrayfishWebSocketResponseMessage) error {
+	if response == nil || response.Type == nil {
+		return errors.New("[textsecure-crayfish-ws] response without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket response message", *response.Type)
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	if c.receiveChannel != nil && *response.Type > 1 {
 		c.receiveChannel <- response
+		// nobody is waiting for a second answer
+		c.receiveChannel = nil
 	}
 	return nil
 }
 
 func (c *CrayfishInstance) Stop() error {
+	c.mutex.Lock()
 	c.stopping = true
+	c.mutex.Unlock()
 	err := c.StopListening()
 	if err != nil {
 		return err
diff --git a/crayfish/envelope.go b/crayfish/envelope.go
index b7c2833..246dba7 100644
--- a/crayfish/envelope.go
+++ b/crayfish/envelope.go
@@ -31,17 +31,9 @@ func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketRespons
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
-	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
-	rm, err := json.Marshal(response.Message)
-	if err != nil {
-		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", response.Message)
-		return nil, err
-	}
 	var data CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE
-	err = json.Unmarshal(rm, &data)
+	err = c.call(m, &data)
+	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
 	if err != nil {
 		return nil, err
 	}
diff --git a/crayfish/register.go b/crayfish/register.go
index ae8fddc..1471c43 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -34,8 +34,10 @@ func (c *CrayfishInstance) CrayfishRegister(registrationInfo *registration.Regis
 		return err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send")
-	c.wsconn.send <- m
-	return nil
+	c.mutex.Lock()
+	conn := c.wsconn
+	c.mutex.Unlock()
+	return c.send(conn, m)
 }
 func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registration.RegistrationInfo,
 	phoneNumber string,
@@ -69,15 +71,8 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send verification")
-	c.wsconn.send <- mv
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
-	rm, err := json.Marshal(response.Message)
-	if err != nil {
-		return nil, err
-	}
 	var data CrayfishWebSocketResponse_VERIFY_REGISTER_MESSAGE
-	err = json.Unmarshal(rm, &data)
+	err = c.call(mv, &data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2ef8e21cda1024c2147363ecd2142ffd1eb43245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 038/133] fix: crayfish: do not take an answer without a uuid
 for a registration

---
 crayfish/register.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crayfish/register.go b/crayfish/register.go
index 1471c43..80c1b3e 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -2,6 +2,7 @@ package crayfish
 
 import (
 	"encoding/json"
+	"errors"
 	"strconv"
 
 	uuid "github.com/satori/go.uuid"
@@ -76,6 +77,9 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 	if err != nil {
 		return nil, err
 	}
+	if data.UUID == [16]byte{} {
+		return nil, errors.New("[textsecure-crayfish-ws] answer to the verification without a uuid")
+	}
 	uuidString, err := uuid.FromBytes(data.UUID[:])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 26fed41ec97eb9f0349bdd104bb6b6bb8267ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 039/133] fix: prekeys: keep the ids of one-time prekeys in
 range and off the last resort key's

---
 prekeys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 0e01116..f117755 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -49,8 +49,9 @@ type preKeyResponse struct {
 
 var preKeys *preKeyState
 
+// randID returns a random key id: 24 bits long, neither 0 nor the reserved one of the last resort key
 func randID() uint32 {
-	return randUint32() & 0xffffff
+	return randUint32()%(lastResortPreKeyID-1) + 1
 }
 
 func generatepreKeyEntity(record *axolotl.PreKeyRecord) *preKeyEntity {
@@ -92,7 +93,8 @@ func generatePreKeys() error {
 
 	startID := getNextPreKeyID()
 	for i := 0; i < preKeyBatchSize; i++ {
-		err := generatePreKey(startID + uint32(i))
+		// ids wrap around before the reserved one of the last resort key
+		err := generatePreKey((startID+uint32(i)-1)%(lastResortPreKeyID-1) + 1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e9f5c2c735312e2fb4d12f310340062a1c9552e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 040/133] fix: prekeys: do not publish a signed prekey that
 could not be stored

---
 prekeys.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index f117755..2541c44 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -103,15 +103,15 @@ func generatePreKeys() error {
 	if err != nil {
 		return err
 	}
-	signedKey = generateSignedPreKey()
-	return nil
+	signedKey, err = generateSignedPreKey()
+	return err
 }
 
 func getNextSignedPreKeyID() uint32 {
 	return randID()
 }
 
-func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
+func generateSignedPreKey() (*axolotl.SignedPreKeyRecord, error) {
 	kp := axolotl.NewECKeyPair()
 	id := getNextSignedPreKeyID()
 	var random [64]byte
@@ -119,8 +119,11 @@ func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
 	priv := identityKey.PrivateKey.Key()
 	signature := curve25519sign.Sign(priv, kp.PublicKey.Serialize(), random)
 	record := axolotl.NewSignedPreKeyRecord(id, uint64(time.Now().UnixNano()*1000), kp, signature[:])
-	textSecureStore.StoreSignedPreKey(id, record)
-	return record
+	err := textSecureStore.StoreSignedPreKey(id, record)
+	if err != nil {
+		return nil, err
+	}
+	return record, nil
 }
 
 func generatePreKeyState() error {
-- 
2.43.0


From 0bc6664a7ca4fb65c012eae95b02cc4ff8093ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 041/133] fix: prekeys: report prekeys that cannot be loaded
 instead of crashing

---
 prekeys.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 2541c44..2b88b01 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -145,17 +145,21 @@ func generatePreKeyState() error {
 
 func loadPreKeys() error {
 	preKeyRecords = []*axolotl.PreKeyRecord{}
-	count := 0
 	err := filepath.Walk(textSecureStore.preKeysDir, func(path string, fi os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if !fi.IsDir() {
-			preKeyRecords = append(preKeyRecords, &axolotl.PreKeyRecord{})
 			_, fname := filepath.Split(path)
 			id, err := filenameToID(fname)
 			if err != nil {
 				return err
 			}
-			preKeyRecords[count], _ = textSecureStore.LoadPreKey(uint32(id))
-			count++
+			record, err := textSecureStore.LoadPreKey(uint32(id))
+			if err != nil {
+				return err
+			}
+			preKeyRecords = append(preKeyRecords, record)
 		}
 		return nil
 
-- 
2.43.0


From 13b92d7b5a4948288c9490e12e098674684fb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 042/133] fix: report a sync message that could not be sent
 instead of crashing

---
 sender.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 177a6ee..2ccab88 100644
--- a/sender.go
+++ b/sender.go
@@ -84,7 +84,10 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	}
 
 	resp, err := buildAndSendMessage(user, padMessage(b), true, timestamp)
-	return resp.Timestamp, err
+	if err != nil {
+		return 0, err
+	}
+	return resp.Timestamp, nil
 }
 
 func sendVerifiedMessage(verified *signalservice.Verified, unidentifiedAccess *unidentifiedAccess.UnidentifiedAccess) error {
-- 
2.43.0


From 11b555851c57827bac2ec028917137e1995d28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 043/133] fix: refuse prekeys with an undecodable key or of
 another device

---
 prekeys.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index 2b88b01..7c8d9fc 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -178,6 +178,9 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	}
 
 	d := pkr.Devices[0]
+	if d.DeviceID != deviceID {
+		return nil, fmt.Errorf("got prekeys of device %d for contact %s, device %d", d.DeviceID, UUID, deviceID)
+	}
 	preKeyId := uint32(0)
 	var preKey *axolotl.ECPublicKey
 	if d.PreKey == nil {
@@ -185,10 +188,10 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	} else {
 		preKeyId = d.PreKey.ID
 		decPK, err := decodeKey(d.PreKey.PublicKey)
-		preKey = axolotl.NewECPublicKey(decPK)
 		if err != nil {
 			return nil, err
 		}
+		preKey = axolotl.NewECPublicKey(decPK)
 	}
 
 	if d.SignedPreKey == nil {
-- 
2.43.0


From c6e679659c0e0bea492e899a8cac3e4a01bddd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 044/133] fix: guard the device lists against concurrent sends
 and list every device once

---
 sender.go | 12 ------------
 server.go | 58 ++++++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/sender.go b/sender.go
index 2ccab88..1b6aabd 100644
--- a/sender.go
+++ b/sender.go
@@ -13,10 +13,6 @@ import (
 func sendMessage(msg *outgoingMessage) (uint64, error) {
 	// todo use UnidentifiedSenderMessage
 
-	if _, ok := deviceLists[msg.destination]; !ok {
-		deviceLists[msg.destination] = []uint32{1}
-	}
-
 	dm := createMessage(msg)
 
 	content := &signalservice.Content{
@@ -70,10 +66,6 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	if config.ConfigFile.UUID != "" {
 		user = config.ConfigFile.UUID
 	}
-	if _, ok := deviceLists[user]; !ok {
-		deviceLists[user] = []uint32{1}
-	}
-
 	content := &signalservice.Content{
 		SyncMessage: sm,
 	}
@@ -107,10 +99,6 @@ type outgoingNullMessage struct {
 }
 
 func sendNullMessage(msg *outgoingNullMessage) (uint64, error) {
-	if _, ok := deviceLists[msg.destination]; !ok {
-		deviceLists[msg.destination] = []uint32{1}
-	}
-
 	content := &signalservice.Content{
 		NullMessage: msg.msg,
 	}
diff --git a/server.go b/server.go
index 3c2981e..4edf259 100644
--- a/server.go
+++ b/server.go
@@ -16,6 +16,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/signal-golang/textsecure/axolotl"
@@ -899,11 +900,49 @@ type sendMessageResponse struct {
 // ErrRemoteGone is returned when the peer reinstalled and lost its session state.
 var ErrRemoteGone = errors.New("the remote device is gone (probably reinstalled)")
 
-var deviceLists = map[string][]uint32{}
+var (
+	deviceLists      = map[string][]uint32{}
+	deviceListsMutex sync.Mutex // guards deviceLists
+)
+
+// getDevices returns the devices known of an account, at first only its primary device
+func getDevices(uuid string) []uint32 {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	if _, ok := deviceLists[uuid]; !ok {
+		deviceLists[uuid] = []uint32{1}
+	}
+	return append([]uint32{}, deviceLists[uuid]...)
+}
+
+// updateDevices removes and adds devices of an account, each is listed once
+func updateDevices(uuid string, extra, missing []uint32) {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	remove := map[uint32]bool{}
+	for _, id := range extra {
+		remove[id] = true
+	}
+	devs := []uint32{}
+	listed := map[uint32]bool{}
+	for _, id := range deviceLists[uuid] {
+		if !remove[id] && !listed[id] {
+			devs = append(devs, id)
+			listed[id] = true
+		}
+	}
+	for _, id := range missing {
+		if !listed[id] {
+			devs = append(devs, id)
+			listed[id] = true
+		}
+	}
+	deviceLists[uuid] = devs
+}
 
 func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
 
-	bm, err := buildMessage(uuid, paddedMessage, deviceLists[uuid], isSync)
+	bm, err := buildMessage(uuid, paddedMessage, getDevices(uuid), isSync)
 	if err != nil {
 		return nil, err
 	}
@@ -933,20 +972,7 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 		var j jsonMismatchedDevices
 		dec.Decode(&j)
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
-		devs := []uint32{}
-		for _, id := range deviceLists[uuid] {
-			in := true
-			for _, eid := range j.ExtraDevices {
-				if id == eid {
-					in = false
-					break
-				}
-			}
-			if in {
-				devs = append(devs, id)
-			}
-		}
-		deviceLists[uuid] = append(devs, j.MissingDevices...)
+		updateDevices(uuid, j.ExtraDevices, j.MissingDevices)
 		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
 	}
 	if resp.Status == staleDevicesStatus {
-- 
2.43.0


From d0ac0dae8af4325e238fcfec80e75051589030d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 045/133] fix: do not keep a device without prekeys in the
 device list forever

---
 server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server.go b/server.go
index 4edf259..1923258 100644
--- a/server.go
+++ b/server.go
@@ -940,10 +940,19 @@ func updateDevices(uuid string, extra, missing []uint32) {
 	deviceLists[uuid] = devs
 }
 
+// forgetDevices makes the next message ask the server for the devices of an account
+func forgetDevices(uuid string) {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	delete(deviceLists, uuid)
+}
+
 func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
 
 	bm, err := buildMessage(uuid, paddedMessage, getDevices(uuid), isSync)
 	if err != nil {
+		// one of the devices may be gone, the next message starts with asking for them
+		forgetDevices(uuid)
 		return nil, err
 	}
 	m := make(map[string]interface{})
-- 
2.43.0


From d5168bf60a4278b142835bcf5178a8325e6be9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 046/133] fix: stop sending a message again when the server
 never accepts its devices

---
 server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 1923258..59d7255 100644
--- a/server.go
+++ b/server.go
@@ -947,7 +947,20 @@ func forgetDevices(uuid string) {
 	delete(deviceLists, uuid)
 }
 
+// maxSendAttempts bounds how often a message is sent again because the server reports other devices
+const maxSendAttempts = 10
+
+// ErrTooManyMismatches is returned when the server keeps refusing the devices of a message.
+var ErrTooManyMismatches = errors.New("the server keeps reporting mismatched or stale devices")
+
 func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
+	return buildAndSendMessageAttempts(uuid, paddedMessage, isSync, timestamp, maxSendAttempts)
+}
+
+func buildAndSendMessageAttempts(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64, attempts int) (*sendMessageResponse, error) {
+	if attempts <= 0 {
+		return nil, ErrTooManyMismatches
+	}
 
 	bm, err := buildMessage(uuid, paddedMessage, getDevices(uuid), isSync)
 	if err != nil {
@@ -982,7 +995,7 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 		dec.Decode(&j)
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
 		updateDevices(uuid, j.ExtraDevices, j.MissingDevices)
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		return buildAndSendMessageAttempts(uuid, paddedMessage, isSync, timestamp, attempts-1)
 	}
 	if resp.Status == staleDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
@@ -996,7 +1009,7 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 			}
 			textSecureStore.DeleteSession(uuidCleanup, id)
 		}
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		return buildAndSendMessageAttempts(uuid, paddedMessage, isSync, timestamp, attempts-1)
 	}
 	if resp.IsError() {
 		return nil, resp
-- 
2.43.0


From 1c60dc9e125bc0de18f41c080c88dd0f3a5c60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 047/133] fix: attachments: refuse too short blobs and keys
 instead of crashing

---
 attachments.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attachments.go b/attachments.go
index 6f098df..8c394c6 100644
--- a/attachments.go
+++ b/attachments.go
@@ -112,6 +112,9 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 	}
 
 	l := len(b) - 32
+	if l < 0 || len(a.Key) != 64 {
+		return nil, fmt.Errorf("malformed attachment: %d bytes, key of %d bytes", len(b), len(a.Key))
+	}
 	if !verifyMAC(a.Key[32:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
-- 
2.43.0


From 3850f093353b923e59ee376ef72c53422b1a2be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 048/133] fix: attachments: verify the digest

---
 attachments.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/attachments.go b/attachments.go
index 8c394c6..5866cd8 100644
--- a/attachments.go
+++ b/attachments.go
@@ -95,6 +95,9 @@ func uploadVoiceNote(r io.Reader, ct string) (*attachmentPointerV3, error) {
 // ErrInvalidMACForAttachment signals that the downloaded attachment has an invalid MAC.
 var ErrInvalidMACForAttachment = errors.New("invalid MAC for attachment")
 
+// ErrInvalidDigestForAttachment signals that the downloaded attachment is not the one that was sent.
+var ErrInvalidDigestForAttachment = errors.New("invalid digest for attachment")
+
 func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error) {
 	loc, err := getAttachmentLocation(a.GetCdnId(), a.GetCdnKey(), a.GetCdnNumber())
 	if err != nil {
@@ -119,13 +122,16 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 		return nil, ErrInvalidMACForAttachment
 	}
 
+	digest := sha256.Sum256(b)
+	if len(a.Digest) > 0 && !bytes.Equal(a.Digest, digest[:]) {
+		return nil, ErrInvalidDigestForAttachment
+	}
+
 	b, err = aesDecrypt(a.Key[:32], b[:l])
 	if err != nil {
 		return nil, err
 	}
 
-	// TODO: verify digest
-
 	return &Attachment{bytes.NewReader(b), a.GetContentType(), a.GetFileName()}, nil
 }
 
-- 
2.43.0


From 29e3bbe4632f9e31e180b806624d126f72f0ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 049/133] fix: attachments: cut off the padding after the
 announced size

---
 attachments.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attachments.go b/attachments.go
index 5866cd8..f477490 100644
--- a/attachments.go
+++ b/attachments.go
@@ -132,6 +132,11 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 		return nil, err
 	}
 
+	// what follows the announced size is padding
+	if size := a.GetSize(); size > 0 && uint64(size) < uint64(len(b)) {
+		b = b[:size]
+	}
+
 	return &Attachment{bytes.NewReader(b), a.GetContentType(), a.GetFileName()}, nil
 }
 
-- 
2.43.0


From 38d7c74db560be78a978973eaa97f36943d0cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 050/133] fix: attachments: report failing downloads

---
 attachments.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/attachments.go b/attachments.go
index f477490..1cff7b2 100644
--- a/attachments.go
+++ b/attachments.go
@@ -26,6 +26,9 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	customTransport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
 	c := &http.Client{Transport: customTransport}
 	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		return nil, err
+	}
 	req.Header.Add("Host", SERVICE_REFLECTOR_HOST)
 	req.Header.Add("Content-Type", "application/octet-stream")
 
@@ -33,6 +36,10 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.StatusCode < 200 || resp.StatusCode >= 300 {
+		resp.Body.Close()
+		return nil, fmt.Errorf("downloading attachment: status code %d", resp.StatusCode)
+	}
 
 	return resp.Body, nil
 }
-- 
2.43.0


From 8f7f5a3b655bfad9e2785f8aa69c294becdb4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 051/133] fix: attachments: report a refused or malformed
 upload form instead of crashing

---
 attachments.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/attachments.go b/attachments.go
index 1cff7b2..3883a69 100644
--- a/attachments.go
+++ b/attachments.go
@@ -201,6 +201,9 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a attachmentV3UploadAttributes
 	err = dec.Decode(&a)
@@ -210,12 +213,15 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	return &a, nil
 }
 
-func relativePath(url string) string {
+func relativePath(url string) (string, error) {
 	parts := strings.Split(url, "/")
-	return "/" + strings.Join(parts[3:], "/")
+	if len(parts) < 4 {
+		return "", fmt.Errorf("no upload location: %q", url)
+	}
+	return "/" + strings.Join(parts[3:], "/"), nil
 }
 
-func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() string {
+func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() (string, error) {
 	return relativePath(a.SignedUploadLocation)
 }
 
@@ -224,8 +230,12 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return "", nil, err
 	}
+	signedLocation, err := uploadAttributes.relativeSignedUploadLocation()
+	if err != nil {
+		return "", nil, err
+	}
 	resp, err := transport.CdnTransport.PostWithHeaders(
-		uploadAttributes.relativeSignedUploadLocation(),
+		signedLocation,
 		[]byte{},
 		"application/octet-stream",
 		uploadAttributes.Headers)
@@ -236,8 +246,11 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 		log.Debug("[textsecure] allocateAttachmentV3 error response ", resp.Body)
 		return "", nil, resp
 	}
-	location := resp.Header.Get("Location")
-	return relativePath(location), uploadAttributes, nil
+	location, err := relativePath(resp.Header.Get("Location"))
+	if err != nil {
+		return "", nil, err
+	}
+	return location, uploadAttributes, nil
 }
 
 func getAttachmentLocation(id uint64, key string, cdnNumber uint32) (string, error) {
-- 
2.43.0


From d600295668197f69a8e8043d562c1e8cdcfeb25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 052/133] fix: do not act on mismatch reports that cannot be
 read

---
 server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 59d7255..b2f7dc6 100644
--- a/server.go
+++ b/server.go
@@ -959,6 +959,7 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 
 func buildAndSendMessageAttempts(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64, attempts int) (*sendMessageResponse, error) {
 	if attempts <= 0 {
+		forgetDevices(uuid)
 		return nil, ErrTooManyMismatches
 	}
 
@@ -992,7 +993,9 @@ func buildAndSendMessageAttempts(uuid string, paddedMessage []byte, isSync bool,
 	if resp.Status == mismatchedDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonMismatchedDevices
-		dec.Decode(&j)
+		if err := dec.Decode(&j); err != nil {
+			return nil, err
+		}
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
 		updateDevices(uuid, j.ExtraDevices, j.MissingDevices)
 		return buildAndSendMessageAttempts(uuid, paddedMessage, isSync, timestamp, attempts-1)
@@ -1000,7 +1003,9 @@ func buildAndSendMessageAttempts(uuid string, paddedMessage []byte, isSync bool,
 	if resp.Status == staleDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonStaleDevices
-		dec.Decode(&j)
+		if err := dec.Decode(&j); err != nil {
+			return nil, err
+		}
 		log.Debugf("[textsecure] Stale devices: %+v\n", j)
 		for _, id := range j.StaleDevices {
 			uuidCleanup, err := recID(uuid)
-- 
2.43.0


From 8ef0fd82a21b571f391e4b0ad4e2f984de887fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 053/133] fix: refuse to link a device with a low-order key,
 the link message would be readable by everybody

---
 crypto.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crypto.go b/crypto.go
index ab069e7..fdb6727 100644
--- a/crypto.go
+++ b/crypto.go
@@ -148,9 +148,12 @@ func provisioningCipher(pm *signalservice.ProvisionMessage, theirPublicKey *axol
 	ourKeyPair := axolotl.GenerateIdentityKeyPair()
 
 	version := []byte{0x01}
-	var sharedKey [32]byte
-	curve25519.ScalarMult(&sharedKey, ourKeyPair.PrivateKey.Key(), theirPublicKey.Key())
-	derivedSecret, err := axolotl.DeriveSecrets(sharedKey[:], nil, []byte("TextSecure Provisioning Message"), 64)
+	// refuses public keys for which everybody knows the shared secret
+	sharedKey, err := curve25519.X25519(ourKeyPair.PrivateKey.Key()[:], theirPublicKey.Key()[:])
+	if err != nil {
+		return nil, err
+	}
+	derivedSecret, err := axolotl.DeriveSecrets(sharedKey, nil, []byte("TextSecure Provisioning Message"), 64)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a9c1334ec4a617f2eea5319b92dae05ab929f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 054/133] fix: guard the linking code and do not keep it after
 a failed attempt

---
 link.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/link.go b/link.go
index c39b679..d992d8e 100644
--- a/link.go
+++ b/link.go
@@ -3,16 +3,22 @@
 package textsecure
 
 import (
+	"sync"
 	"time"
 
 	log "github.com/sirupsen/logrus"
 )
 
-var code2 string
+var (
+	code2      string
+	code2Mutex sync.Mutex // guards code2
+)
 
 // AddNewLinkedDevice adds a new signal desktop client
 func AddNewLinkedDevice(uuid string, publicKey string) error {
 	log.Printf("AddNewLinkedDevice")
+	code2Mutex.Lock()
+	defer code2Mutex.Unlock()
 	if code2 == "" {
 		code, err := getNewDeviceVerificationCode()
 		if err != nil {
@@ -24,11 +30,15 @@ func AddNewLinkedDevice(uuid string, publicKey string) error {
 	err := addNewDevice(uuid, publicKey, code2)
 	if err != nil {
 		log.Errorf(err.Error())
+		// the code gets old, the next attempt asks for a new one
+		code2 = ""
 		return err
 	}
 	timer := time.NewTimer(10 * time.Second)
 	go func() {
 		<-timer.C
+		code2Mutex.Lock()
+		defer code2Mutex.Unlock()
 		code2 = ""
 	}()
 	return nil
-- 
2.43.0


From 699ad1453df2a99b98abece8ab3f5c405b031741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 055/133] fix: do not link a device without a verification code

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index b2f7dc6..21b720f 100644
--- a/server.go
+++ b/server.go
@@ -437,6 +437,9 @@ func getNewDeviceVerificationCode() (string, error) {
 	if err := dec.Decode(&c); err != nil {
 		return "", err
 	}
+	if c.VerificationCode == "" {
+		return "", errors.New("the server gave no verification code")
+	}
 	return c.VerificationCode, nil
 
 }
-- 
2.43.0


From f77bc43296d510deb6708cdca75f096d59048a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 056/133] fix: do not crash on received messages shorter than a
 MAC or without a signaling key

---
 textsecure.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 0dc7701..be89008 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -528,6 +528,10 @@ var ErrInvalidMACForMessage = errors.New("invalid MAC for incoming message")
 func decryptReceivedMessage(msg []byte) ([]byte, error) {
 	// decrypt signalservice envelope
 	macpos := len(msg) - 10
+	if macpos < 1 || len(registration.Registration.SignalingKey) <= 32 {
+		// too short to be encrypted with the signaling key, or there is no such key
+		return msg, nil
+	}
 	tmac := msg[macpos:]
 	aesKey := registration.Registration.SignalingKey[:32]
 	macKey := registration.Registration.SignalingKey[32:]
-- 
2.43.0


From f46f0a1f134f61a868ad4ed0ba55c75d47538063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 057/133] fix: acknowledge requests only

---
 websocket.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket.go b/websocket.go
index a687768..8e1363b 100644
--- a/websocket.go
+++ b/websocket.go
@@ -181,6 +181,11 @@ func StartListening() error {
 			return err
 		}
 
+		if wsm.GetRequest() == nil {
+			log.Debugln("[textsecure] Websocket message is no request. Ignoring")
+			continue
+		}
+
 		m := wsm.GetRequest().GetBody()
 
 		if len(m) > 0 {
-- 
2.43.0


From 4f67b9c28b3cd7b9ba9f66f883094364012a4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 058/133] fix: keep listening after an undecodable websocket
 message

---
 websocket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/websocket.go b/websocket.go
index 8e1363b..d43550f 100644
--- a/websocket.go
+++ b/websocket.go
@@ -178,7 +178,7 @@ func StartListening() error {
 			log.WithFields(log.Fields{
 				"error": err,
 			}).Error("[textsecure] Failed to unmarshal websocket message")
-			return err
+			continue
 		}
 
 		if wsm.GetRequest() == nil {
-- 
2.43.0


From 38d30b13c8589282c495a056bf60f2bac786e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 059/133] fix: do not handle an envelope that cannot be decoded

---
 websocket.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/websocket.go b/websocket.go
index d43550f..43c2e55 100644
--- a/websocket.go
+++ b/websocket.go
@@ -200,9 +200,7 @@ func StartListening() error {
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure] Failed to create envelope")
-				}
-				err = handleReceivedMessage(env)
-				if err != nil {
+				} else if err = handleReceivedMessage(env); err != nil {
 					log.Debugf("[textsecure] Failed to handle received message: %+v", env)
 					log.WithFields(log.Fields{
 						"error": err,
-- 
2.43.0


From 2f42276f720db306d2521d92eac4aa2914b18a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 060/133] fix: do not crash on an envelope without a type

---
 textsecure.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index be89008..acc475e 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -571,7 +571,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 	recid := env.GetSourceUuid()
 
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
-	switch *env.Type {
+	switch env.GetType() {
 	case signalservice.Envelope_RECEIPT:
 		handleReceipt(env)
 		return nil
@@ -670,7 +670,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 
 	default:
-		return MessageTypeNotImplementedError{uint32(*env.Type)}
+		return MessageTypeNotImplementedError{uint32(env.GetType())}
 	}
 
 	return nil
-- 
2.43.0


From 6e7f03d2e0c18b178abf42f59e80fff6bba3f2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 061/133] fix: do not crash on a data message without a
 timestamp

---
 handler.go | 4 ++--
 sync.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/handler.go b/handler.go
index c931b58..91e996e 100644
--- a/handler.go
+++ b/handler.go
@@ -82,7 +82,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 	if err != nil {
 		return err
 	}
-	log.Debugln("[textsecure] handleDataMessage", timestamp, *dm.Timestamp, dm.GetExpireTimer())
+	log.Debugln("[textsecure] handleDataMessage", timestamp, dm.GetTimestamp(), dm.GetExpireTimer())
 	gr2, err := groupsv2.HandleGroupsV2(src, dm)
 	if err != nil {
 		return err
@@ -96,7 +96,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     dm.GetContact(),
 		sticker:     dm.GetSticker(),
diff --git a/sync.go b/sync.go
index d764ac7..08272ba 100644
--- a/sync.go
+++ b/sync.go
@@ -119,7 +119,7 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     cs,
 		sticker:     dm.GetSticker(),
-- 
2.43.0


From 5aac1330dc13acd3a85a02fd7fde464d4682e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 062/133] fix: report every message a receipt is about and do
 not crash on an incomplete one

---
 handler.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/handler.go b/handler.go
index 91e996e..b8a5108 100644
--- a/handler.go
+++ b/handler.go
@@ -1,6 +1,8 @@
 package textsecure
 
 import (
+	"errors"
+
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -52,20 +54,27 @@ func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signa
 	return nil
 }
 func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.ReceiptMessage) error {
-	msg := &Message{
-		source:     src,
-		sourceUUID: srcUUID,
-		message:    "sentReceiptMessage",
-		timestamp:  cm.GetTimestamp()[0],
+	if cm.Type == nil {
+		return errors.New("receipt message without a type")
 	}
+	message := "sentReceiptMessage"
 	if *cm.Type == signalservice.ReceiptMessage_READ {
-		msg.message = "readReceiptMessage"
+		message = "readReceiptMessage"
 	}
 	if *cm.Type == signalservice.ReceiptMessage_DELIVERY {
-		msg.message = "deliveryReceiptMessage"
-	}
-	if client.ReceiptMessageHandler != nil {
-		client.ReceiptMessageHandler(msg)
+		message = "deliveryReceiptMessage"
+	}
+	// one receipt can be about several messages
+	for _, ts := range cm.GetTimestamp() {
+		msg := &Message{
+			source:     src,
+			sourceUUID: srcUUID,
+			message:    message,
+			timestamp:  ts,
+		}
+		if client.ReceiptMessageHandler != nil {
+			client.ReceiptMessageHandler(msg)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 63108eb62c4bf4a21942c2bc36861d2f72717c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 063/133] fix: do not crash on sealed sender messages without
 the helper process, a destination or a signaling key

---
 textsecure.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index acc475e..0ebb5a3 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -643,12 +643,15 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 	case signalservice.Envelope_UNIDENTIFIED_SENDER:
 
-		if registration.Registration.SignalingKey[0] != 1 {
+		if len(registration.Registration.SignalingKey) == 0 || registration.Registration.SignalingKey[0] != 1 {
 			log.Errorln("failed to handle message, signalingkey has wrong version, please re-register to update your signaling-key")
 		}
 
 		p, _ := proto.Marshal(env)
-		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", *env.DestinationUuid)
+		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", env.GetDestinationUuid())
+		if crayfish.Instance == nil {
+			return crayfish.ErrNotListening
+		}
 		data, err := crayfish.Instance.HandleEnvelope(p)
 		if err != nil {
 			return err
-- 
2.43.0


From b22cb313f2e743b73f820a94cfe7c4b40b1b6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 064/133] fix: do not deliver messages that have no sender

---
 textsecure.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 0ebb5a3..ce06f81 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -569,6 +569,9 @@ func createEnvelope(plaintext []byte) (*signalservice.Envelope, error) {
 func handleReceivedMessage(env *signalservice.Envelope) error {
 
 	recid := env.GetSourceUuid()
+	if recid == "" && (env.GetType() == signalservice.Envelope_CIPHERTEXT || env.GetType() == signalservice.Envelope_PREKEY_BUNDLE) {
+		return errors.New("[textsecure] envelope without a sender")
+	}
 
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
 	switch env.GetType() {
@@ -656,6 +659,9 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		if err != nil {
 			return err
 		}
+		if data.Sender.UUID == "" {
+			return errors.New("[textsecure] sealed sender message without a sender")
+		}
 		content, err := base64.StdEncoding.DecodeString(data.Message)
 		if err != nil {
 			return err
-- 
2.43.0


From a1efc08c1e3dc61731e29d0a59733aeb5fa8d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 065/133] fix: a receive loop stays with its own connection
 when listening is started again

---
 websocket.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/websocket.go b/websocket.go
index 43c2e55..eb0e73b 100644
--- a/websocket.go
+++ b/websocket.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -40,7 +41,10 @@ type Conn struct {
 	send chan []byte
 }
 
-var wsconn *Conn
+var (
+	wsconn      *Conn
+	wsconnMutex sync.Mutex // guards wsconn
+)
 
 // Connect to Signal websocket API at originURL with user and pass credentials
 func (c *Conn) connect(originURL, user, pass string) error {
@@ -142,29 +146,31 @@ func (c *Conn) writeWorker() {
 
 // StartListening connects to the server and handles incoming websocket messages.
 func StartListening() error {
-	var err error
+	conn := &Conn{send: make(chan []byte, 256)}
+	wsconnMutex.Lock()
+	wsconn = conn
+	wsconnMutex.Unlock()
 
-	wsconn = &Conn{send: make(chan []byte, 256)}
-	err = wsconn.connect(config.ConfigFile.Server+websocketPath, config.ConfigFile.UUID, registration.Registration.Password)
+	err := conn.connect(config.ConfigFile.Server+websocketPath, config.ConfigFile.UUID, registration.Registration.Password)
 	if err != nil {
 		log.Errorf(err.Error())
 		return err
 	}
 
-	defer wsconn.ws.Close()
+	defer conn.ws.Close()
 
 	// Can only have a single goroutine call write methods
-	go wsconn.writeWorker()
+	go conn.writeWorker()
 
-	wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
-	wsconn.ws.SetPongHandler(func(string) error {
+	conn.ws.SetReadDeadline(time.Now().Add(pongWait))
+	conn.ws.SetPongHandler(func(string) error {
 		log.Debugf("[textsecure] Received websocket pong message")
-		wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
+		conn.ws.SetReadDeadline(time.Now().Add(pongWait))
 		return nil
 	})
 
 	for {
-		_, bmsg, err := wsconn.ws.ReadMessage()
+		_, bmsg, err := conn.ws.ReadMessage()
 		if err != nil {
 			if websocket.IsUnexpectedCloseError(err, websocket.CloseGoingAway, websocket.CloseAbnormalClosure) {
 				log.Debugf("[textsecure] Websocket UnexpectedCloseError: %s", err)
@@ -219,7 +225,7 @@ func StartListening() error {
 
 		}
 
-		err = wsconn.sendAck(wsm.GetRequest().GetId())
+		err = conn.sendAck(wsm.GetRequest().GetId())
 		if err != nil {
 			log.WithFields(log.Fields{
 				"error": err,
@@ -237,12 +243,16 @@ var ErrNotListening = errors.New("[textsecure] there is no listening connection
 
 // StopListening disables the receiving of messages.
 func StopListening() error {
-	if wsconn == nil {
+	wsconnMutex.Lock()
+	conn := wsconn
+	wsconnMutex.Unlock()
+
+	if conn == nil {
 		return ErrNotListening
 	}
 
-	if wsconn.ws != nil {
-		wsconn.ws.Close()
+	if conn.ws != nil {
+		conn.ws.Close()
 	}
 
 	return nil
-- 
2.43.0


From c8115d48fe054ff50dffc527c566a1a2b5ccbc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 066/133] fix: stopping to listen works while the connection is
 being set up

---
 websocket.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/websocket.go b/websocket.go
index eb0e73b..568c6e8 100644
--- a/websocket.go
+++ b/websocket.go
@@ -39,6 +39,9 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	mutex   sync.Mutex // guards ws while connecting, and stopped
+	stopped bool
 }
 
 var (
@@ -58,7 +61,6 @@ func (c *Conn) connect(originURL, user, pass string) error {
 	log.Debugf("[textsecure] Websocket Connecting to signal-server")
 	// log.Debugf("Websocket Connecting to %s with user %s and pass %s", originURL, user, pass)
 
-	var err error
 	d := &websocket.Dialer{
 		ReadBufferSize:  1024,
 		WriteBufferSize: 1024,
@@ -68,11 +70,19 @@ func (c *Conn) connect(originURL, user, pass string) error {
 		RootCAs: rootCa.RootCA,
 	}
 
-	c.ws, _, err = d.Dial(u.String(), nil)
+	ws, _, err := d.Dial(u.String(), nil)
 	if err != nil {
 		return err
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.stopped {
+		ws.Close()
+		return ErrStopped
+	}
+	c.ws = ws
+
 	log.Debugf("[textsecure] Websocket Connected successfully")
 
 	return nil
@@ -241,6 +251,19 @@ func StartListening() error {
 // valid listening connection set up
 var ErrNotListening = errors.New("[textsecure] there is no listening connection to stop")
 
+// ErrStopped is returned when listening was stopped before the connection was set up
+var ErrStopped = errors.New("[textsecure] listening was stopped while connecting")
+
+// stop closes the connection, or keeps it from being set up.
+func (c *Conn) stop() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	c.stopped = true
+	if c.ws != nil {
+		c.ws.Close()
+	}
+}
+
 // StopListening disables the receiving of messages.
 func StopListening() error {
 	wsconnMutex.Lock()
@@ -251,9 +274,7 @@ func StopListening() error {
 		return ErrNotListening
 	}
 
-	if conn.ws != nil {
-		conn.ws.Close()
-	}
+	conn.stop()
 
 	return nil
 }
-- 
2.43.0


From a90a938f03865f5856b6b1fff3c0281756cf2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 067/133] fix: end the write worker with the receive loop and
 do not wait for a worker that has ended

---
 websocket.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/websocket.go b/websocket.go
index 568c6e8..48c1c87 100644
--- a/websocket.go
+++ b/websocket.go
@@ -40,6 +40,10 @@ type Conn struct {
 	// Buffered channel of outbound messages
 	send chan []byte
 
+	// closed is closed when the receive loop ends, written when the write worker does
+	closed  chan struct{}
+	written chan struct{}
+
 	mutex   sync.Mutex // guards ws while connecting, and stopped
 	stopped bool
 }
@@ -108,8 +112,12 @@ func (c *Conn) sendAck(id uint64) error {
 		return err
 	}
 
-	c.send <- b
-	return nil
+	select {
+	case c.send <- b:
+		return nil
+	case <-c.written:
+		return ErrNotListening
+	}
 }
 
 // write writes a message with the given message type and payload.
@@ -125,6 +133,7 @@ func (c *Conn) writeWorker() {
 		log.Debugf("[textsecure] Closing writeWorker")
 		ticker.Stop()
 		c.ws.Close()
+		close(c.written)
 	}()
 	for {
 		select {
@@ -142,6 +151,8 @@ func (c *Conn) writeWorker() {
 				}).Error("[textsecure] Failed to send websocket message")
 				return
 			}
+		case <-c.closed:
+			return
 		case <-ticker.C:
 			log.Debugf("[textsecure] Sending websocket ping message")
 			if err := c.write(websocket.PingMessage, nil); err != nil {
@@ -156,7 +167,7 @@ func (c *Conn) writeWorker() {
 
 // StartListening connects to the server and handles incoming websocket messages.
 func StartListening() error {
-	conn := &Conn{send: make(chan []byte, 256)}
+	conn := &Conn{send: make(chan []byte, 256), closed: make(chan struct{}), written: make(chan struct{})}
 	wsconnMutex.Lock()
 	wsconn = conn
 	wsconnMutex.Unlock()
@@ -168,6 +179,7 @@ func StartListening() error {
 	}
 
 	defer conn.ws.Close()
+	defer close(conn.closed)
 
 	// Can only have a single goroutine call write methods
 	go conn.writeWorker()
-- 
2.43.0


From fd2bf72a415e61bd4e1fa1289337d0b5876842eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 068/133] fix: do not lose a message that is decrypted with the
 session of a number without its plus sign

---
 textsecure.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index ce06f81..dad6cca 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -597,8 +597,8 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 			// try the legacy way
 			log.Infof("[textsecure] Incoming WhisperMessage try legacy decrypting")
 
-			recid, err := recID(env.GetSourceUuid())
-			if err != nil {
+			recid, recErr := recID(env.GetSourceUuid())
+			if recErr != nil {
 				recid = env.GetSourceUuid()
 			}
 			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
-- 
2.43.0


From d06135f66fb639b3bbdbd1be673bb0e623cd5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 069/133] fix: report call messages to the handler for call
 messages

---
 handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index b8a5108..f44efe5 100644
--- a/handler.go
+++ b/handler.go
@@ -153,7 +153,9 @@ func handleCallMessage(src string, srcUUID string, timestamp uint64, cm *signals
 		timestamp:  timestamp,
 	}
 
-	if client.MessageHandler != nil {
+	if client.CallMessageHandler != nil {
+		client.CallMessageHandler(msg)
+	} else if client.MessageHandler != nil {
 		client.MessageHandler(msg)
 	}
 	return nil
-- 
2.43.0


From 8a1188d6de949f2c3eabb971857208d2c16fd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 070/133] fix: do not pass empty group data to the group
 library, which panics on it

---
 groupsv2/decrypt.go      | 28 +++++++++++++++++++++++-----
 groupsv2/groupActions.go |  4 ++--
 groupsv2/groupsv2.go     |  4 ++++
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1b3df34..1d8fa95 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -1,6 +1,8 @@
 package groupsv2
 
 import (
+	"errors"
+	"fmt"
 	"strings"
 	"unicode"
 
@@ -40,7 +42,7 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := g.cipher.DecryptBlob(g.GroupContext.GetTitle())
+	title, err := decryptBlob(g.cipher, g.GroupContext.GetTitle())
 	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
 	if err != nil {
 		return nil, err
@@ -80,7 +82,9 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
+		if len(member.GetProfileKey()) > 0 {
+			decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
+		}
 
 	} else {
 		//TODO: check valid presentation
@@ -110,7 +114,21 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 }
 
+// minBlobLen is the length of an empty blob, which has a padding length, once it is encrypted.
+const minBlobLen = 29 + 4
+
+// decryptBlob decrypts a blob, which the group cipher expects to be complete.
+func decryptBlob(cipher *zkgroup.ClientZkGroupCipher, blob []byte) ([]byte, error) {
+	if len(blob) < minBlobLen {
+		return nil, fmt.Errorf("encrypted blob of %d bytes is too short", len(blob))
+	}
+	return cipher.DecryptBlob(blob)
+}
+
 func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
+	if len(uuid) == 0 {
+		return nil, errors.New("encrypted uuid is empty")
+	}
 	if g.cipher == nil {
 		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
 		if err != nil {
@@ -127,11 +145,11 @@ func (g *GroupV2) decryptPendingMembers(pendingMembers []*signalservice.GroupCha
 		added := pendingMember.GetAdded()
 		member := added.GetMember()
 		uuidCipherText := member.GetUserId()
-		uuid, err := g.cipher.DecryptUUID(uuidCipherText)
+		uuid, err := g.decryptUUID(uuidCipherText)
 		if err != nil {
 			log.Errorln(err)
 		}
-		addedByUuid, err := g.cipher.DecryptUUID(added.GetAddedByUserId())
+		addedByUuid, err := g.decryptUUID(added.GetAddedByUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
@@ -153,7 +171,7 @@ func (g *GroupV2) decryptDeletePendingMembers(deletedPendingMembers []*signalser
 	pendingMembersRemoval := []*signalservice.DecryptedPendingMemberRemoval{}
 	for _, deletedPendingMember := range deletedPendingMembers {
 
-		uuid, err := g.cipher.DecryptUUID(deletedPendingMember.DeletedUserId)
+		uuid, err := g.decryptUUID(deletedPendingMember.GetDeletedUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index b54cacb..76325b8 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -10,7 +10,7 @@ import (
 func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInfo, groupSecretParams zkgroup.GroupSecretParams) (*signalservice.DecryptedGroupJoinInfo, error) {
 	decryptedGroupJoinInfo := new(signalservice.DecryptedGroupJoinInfo)
 	clientZkGroupCipher := zkgroup.NewClientZkGroupCipher(groupSecretParams)
-	title, err := clientZkGroupCipher.DecryptBlob(groupJoinInfo.GetTitle())
+	title, err := decryptBlob(clientZkGroupCipher, groupJoinInfo.GetTitle())
 	if err != nil {
 		return nil, err
 	}
@@ -46,7 +46,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		Revision: groupActions.GetRevision(),
 	}
 	if groupActions.SourceUuid != nil {
-		uuid, err := g.cipher.DecryptUUID(groupActions.SourceUuid)
+		uuid, err := g.decryptUUID(groupActions.SourceUuid)
 		log.Debugln("[textsecure][groupsv2] SourceUuid", idToHex(uuid), err)
 	}
 	log.Debugln("[textsecure][groupsv2] Revision", groupActions.Revision)
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index dae5b87..9447382 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/url"
@@ -280,6 +281,9 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			log.Errorln("[textsecure][groupsv2] server public params", err)
 		} else {
 			if len(groupChange.GetActions()) != 0 {
+				if len(groupChange.GetServerSignature()) == 0 {
+					return nil, errors.New("group change without server signature")
+				}
 				err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
 				if err != nil {
 					log.Errorln("[textsecure][groupsv2] signature verification failed", err)
-- 
2.43.0


From 740951c4b6af3c4f8f3642e34935a8b87109eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 071/133] fix: read a group member's presentation as one of a
 profile key credential

---
 groupsv2/decrypt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1d8fa95..fd2bbf3 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -88,7 +88,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 	} else {
 		//TODO: check valid presentation
-		profileKeyCredentialPresentation, err := zkgroup.NewAuthCredentialPresentation(member.GetPresentation())
+		profileKeyCredentialPresentation, err := zkgroup.NewProfileKeyCredentialPresentation(member.GetPresentation())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From db8f1e3c21e9589e27bc2d8224835a9a0fc7c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 072/133] fix: refuse group messages whose master key is none

---
 groupsv2/groupsv2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 9447382..9d11b7d 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -25,6 +25,7 @@ const (
 	HIGHEST_KNOWN_EPOCH = 1
 	GROUPSV2_GROUP      = "/v1/groups/"
 	GROUPSV2_GROUP_JOIN = "/v1/groups/join/%s"
+	masterKeyLen        = 32
 )
 
 const (
@@ -242,6 +243,9 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	if groupContext == nil {
 		return nil, nil
 	}
+	if len(groupContext.GetMasterKey()) != masterKeyLen {
+		return nil, fmt.Errorf("group master key of %d bytes", len(groupContext.GetMasterKey()))
+	}
 	hexid := idToHex(groupContext.GetMasterKey())
 	// search for group
 	group, err := loadGroupV2(hexid)
-- 
2.43.0


From 5925b7f311d02925d65730217d7bcfc7b6835827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 073/133] fix: keep what is known of a group when the server's
 answer cannot be read, and handle messages of groups that could not be
 fetched

---
 groupsv2/decrypt.go  | 5 ++++-
 groupsv2/groupsv2.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index fd2bbf3..8f8d23d 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -17,10 +17,13 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 		GroupContext: *group,
 	}
 	decryptedGroup, err := newGroup.decryptGroup()
+	if err != nil {
+		return err
+	}
 	g.GroupContext = newGroup.GroupContext
 	g.DecryptedGroup = decryptedGroup
 	g.CheckJoinStatus()
-	return err
+	return nil
 }
 func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	log.Debugln("[textsecure][groupsv2] decrypt group")
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 9d11b7d..b05c3ea 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -191,6 +191,9 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 
 	group := &signalservice.Group{}
 	err = proto.Unmarshal(buf.Bytes(), group)
+	if err != nil {
+		return nil, err
+	}
 	g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer group")
@@ -318,7 +321,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		} else {
 			group.GroupAction = nil
 		}
-	} else if group.DecryptedGroup.Revision != groupContext.GetRevision() {
+	} else if group.DecryptedGroup == nil || group.DecryptedGroup.Revision != groupContext.GetRevision() {
 		log.Debugln("[textsecure][groupsv2] outdated group, update")
 		group.UpdateGroupFromServer()
 	}
-- 
2.43.0


From d64faf8838c9d77e0c4d51ff2cbc41f3f37d64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 074/133] fix: know the recipient of a transcript by its uuid
 when it ends a session

---
 sync.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 08272ba..6d3f7b8 100644
--- a/sync.go
+++ b/sync.go
@@ -92,7 +92,11 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		return fmt.Errorf("DataMessage was nil for SyncMessage_Sent")
 	}
 
-	flags, err := handleFlags(dest, dm)
+	peer := destUUID
+	if peer == "" {
+		peer = dest
+	}
+	flags, err := handleFlags(peer, dm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 97f42df2e70ab9c482a1b12a08c6804904c39ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 075/133] fix: do not take our own profile key for that of a
 transcript's recipient

---
 sync.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 6d3f7b8..22c8b85 100644
--- a/sync.go
+++ b/sync.go
@@ -96,9 +96,16 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	if peer == "" {
 		peer = dest
 	}
-	flags, err := handleFlags(peer, dm)
-	if err != nil {
-		return err
+	var flags uint32
+	var err error
+	if dm.GetFlags() == uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE) {
+		// the profile key of what we sent is our own, not the recipient's
+		flags = uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
+	} else {
+		flags, err = handleFlags(peer, dm)
+		if err != nil {
+			return err
+		}
 	}
 
 	atts, err := handleAttachments(dm)
-- 
2.43.0


From 4c2a3e869a348d410721f2654201d694fd3f388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 076/133] fix: report the contacts of a transcript

---
 sync.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sync.go b/sync.go
index 22c8b85..fb81fae 100644
--- a/sync.go
+++ b/sync.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/config"
-	"github.com/signal-golang/textsecure/contacts"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/unidentifiedAccess"
 	log "github.com/sirupsen/logrus"
@@ -116,11 +115,6 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	if err != nil {
 		return err
 	}
-	cs, err := contacts.HandleContacts(dest, dm)
-	if err != nil {
-		return err
-	}
-
 	msg := &Message{
 		source:      dest,
 		sourceUUID:  destUUID,
@@ -132,7 +126,7 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		profileKey:  dm.GetProfileKey(),
 		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
-		contact:     cs,
+		contact:     dm.GetContact(),
 		sticker:     dm.GetSticker(),
 		reaction:    dm.GetReaction(),
 	}
-- 
2.43.0


From 59edad29d339123ee44618ec28c4c551852000c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 077/133] fix: report the group of a transcript when it is new
 or outdated

---
 sync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index fb81fae..db618a5 100644
--- a/sync.go
+++ b/sync.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/unidentifiedAccess"
 	log "github.com/sirupsen/logrus"
@@ -111,7 +112,7 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	if err != nil {
 		return err
 	}
-	grV2, err := handleGroupsV2(dest, dm)
+	grV2, err := groupsv2.HandleGroupsV2(dest, dm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 67b1852256edbc78b303915ecf4ef1284ea14c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 078/133] fix: refuse sync messages of other accounts

---
 sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync.go b/sync.go
index db618a5..a82480c 100644
--- a/sync.go
+++ b/sync.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"regexp"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/config"
@@ -16,6 +17,10 @@ import (
 
 // handleSyncMessage handles an incoming SyncMessage.
 func handleSyncMessage(src string, srcUUID string, timestamp uint64, sm *signalservice.SyncMessage) error {
+	// only our own other devices have anything to synchronise with us
+	if !strings.EqualFold(srcUUID, config.ConfigFile.UUID) {
+		return fmt.Errorf("sync message of another account: %s", srcUUID)
+	}
 	log.Debugf("[textsecure] SyncMessage recieved at %d", timestamp)
 	if sm.GetSent() != nil {
 		log.Debugln("[textsecure] SyncMessage getSent")
-- 
2.43.0


From 932c57da4414e3dfb47df3c4707ed7510f7774fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 079/133] fix: read the title of a group from the blob that
 holds it

---
 groupsv2/decrypt.go      | 20 +++++++++++++++++---
 groupsv2/groupActions.go |  4 ++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 8f8d23d..484bac5 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nanu-c/zkgroup"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
+	"google.golang.org/protobuf/proto"
 )
 
 func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
@@ -45,8 +46,8 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := decryptBlob(g.cipher, g.GroupContext.GetTitle())
-	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
+	title, err := decryptTitle(g.cipher, g.GroupContext.GetTitle())
+	log.Debugln("[textsecure][groupsv2] decrypt group title", title)
 	if err != nil {
 		return nil, err
 	}
@@ -55,7 +56,7 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 			return r
 		}
 		return -1
-	}, string(title))
+	}, title)
 	log.Debugln("[textsecure][groupsv2] decrypt group title", cleanTitle)
 
 	decryptedGroup.Title = cleanTitle
@@ -128,6 +129,19 @@ func decryptBlob(cipher *zkgroup.ClientZkGroupCipher, blob []byte) ([]byte, erro
 	return cipher.DecryptBlob(blob)
 }
 
+// decryptTitle decrypts the title of a group.
+func decryptTitle(cipher *zkgroup.ClientZkGroupCipher, title []byte) (string, error) {
+	b, err := decryptBlob(cipher, title)
+	if err != nil {
+		return "", err
+	}
+	blob := &signalservice.GroupAttributeBlob{}
+	if err := proto.Unmarshal(b, blob); err != nil {
+		return "", err
+	}
+	return blob.GetTitle(), nil
+}
+
 func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
 	if len(uuid) == 0 {
 		return nil, errors.New("encrypted uuid is empty")
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index 76325b8..92b7993 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -10,11 +10,11 @@ import (
 func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInfo, groupSecretParams zkgroup.GroupSecretParams) (*signalservice.DecryptedGroupJoinInfo, error) {
 	decryptedGroupJoinInfo := new(signalservice.DecryptedGroupJoinInfo)
 	clientZkGroupCipher := zkgroup.NewClientZkGroupCipher(groupSecretParams)
-	title, err := decryptBlob(clientZkGroupCipher, groupJoinInfo.GetTitle())
+	title, err := decryptTitle(clientZkGroupCipher, groupJoinInfo.GetTitle())
 	if err != nil {
 		return nil, err
 	}
-	decryptedGroupJoinInfo.Title = string(title)
+	decryptedGroupJoinInfo.Title = title
 	return decryptedGroupJoinInfo, nil
 }
 
-- 
2.43.0


From 4eb8a4d5c72c6dff6d341eb2c016dc4978ad5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 080/133] fix: do not send the messages of a group to ourselves

---
 groups.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/groups.go b/groups.go
index 27fc314..24c432c 100644
--- a/groups.go
+++ b/groups.go
@@ -232,8 +232,12 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 		Revision:  &g.DecryptedGroup.Revision,
 	}
 	for _, m := range g.DecryptedGroup.Members {
+		uuid := idToHexUUID(m.Uuid)
+		if strings.EqualFold(uuid, config.ConfigFile.UUID) {
+			continue
+		}
 		omsg := &outgoingMessage{
-			destination: idToHexUUID(m.Uuid),
+			destination: uuid,
 			msg:         msg,
 			attachment:  attachmentPointer,
 			expireTimer: timer,
-- 
2.43.0


From 7f0535743742acb05a39f007dc56cbdc78dabcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 081/133] fix: send a group's message to the other members when
 one cannot be reached

---
 groups.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/groups.go b/groups.go
index 24c432c..3b42efb 100644
--- a/groups.go
+++ b/groups.go
@@ -244,13 +244,19 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 			timestamp:   &timestamp,
 			groupV2:     groupsV2Context,
 		}
-		ts, err = sendMessage(omsg)
-		if err != nil {
-			log.Errorln("[textsecure] sendGroupV2Helper", err, omsg.destination)
-			return 0, err
+		// one member who cannot be reached does not keep the others from the message
+		mts, merr := sendMessage(omsg)
+		if merr != nil {
+			log.Errorln("[textsecure] sendGroupV2Helper", merr, omsg.destination)
+			err = merr
+			continue
 		}
+		ts = mts
 		log.Debugln("[textsecure] sendGroupV2Helper message to group sent", omsg.destination)
 	}
+	if err != nil {
+		return 0, err
+	}
 	return ts, nil
 }
 
@@ -296,15 +302,21 @@ func sendGroupHelper(hexid string, msg string, attachmentPointer *attachmentPoin
 					typ: signalservice.GroupContext_DELIVER,
 				},
 			}
-			ts, err = sendMessage(omsg)
-			if err != nil {
-				log.Errorln("[textsecure] sendGroupHelper", err, m)
-				return 0, err
+			// one member who cannot be reached does not keep the others from the message
+			mts, merr := sendMessage(omsg)
+			if merr != nil {
+				log.Errorln("[textsecure] sendGroupHelper", merr, m)
+				err = merr
+				continue
 			}
+			ts = mts
 			log.Debugln("[textsecure] sendGroupHelper message to group sent", m)
 
 		}
 	}
+	if err != nil {
+		return 0, err
+	}
 	return ts, nil
 }
 
-- 
2.43.0


From 21dc79bea6ca63da1d78d59d5be2dfbb0359fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 082/133] fix: keep the members of a legacy group once each, in
 a list of our own

---
 groups.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/groups.go b/groups.go
index 3b42efb..8ea18d9 100644
--- a/groups.go
+++ b/groups.go
@@ -366,6 +366,20 @@ func newPartlyGroup(id []byte) (*Group, error) {
 	return groups[hexid], nil
 }
 
+// groupMembers returns the members of a group, each once, and ourselves.
+// The given list remains the caller's.
+func groupMembers(members []string) []string {
+	list := make([]string, 0, len(members)+1)
+	seen := map[string]bool{}
+	for _, m := range append(append([]string{}, members...), config.ConfigFile.Tel) {
+		if !seen[m] {
+			seen[m] = true
+			list = append(list, m)
+		}
+	}
+	return list
+}
+
 func changeGroup(hexid, name string, members []string) (*Group, error) {
 	g, ok := groups[hexid]
 	if !ok {
@@ -373,7 +387,7 @@ func changeGroup(hexid, name string, members []string) (*Group, error) {
 	}
 
 	g.Name = name
-	g.Members = append(members, config.ConfigFile.Tel)
+	g.Members = groupMembers(members)
 	saveGroup(hexid)
 
 	return g, nil
@@ -407,7 +421,7 @@ func newGroup(name string, members []string) (*Group, error) {
 		ID:      id,
 		Hexid:   hexid,
 		Name:    name,
-		Members: append(members, config.ConfigFile.Tel),
+		Members: groupMembers(members),
 	}
 	err := saveGroup(hexid)
 	if err != nil {
-- 
2.43.0


From cd62d92385c36664c61b0b74e3e336670d9c329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 083/133] fix: report that a changed group could not be stored

---
 groups.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/groups.go b/groups.go
index 8ea18d9..fc42263 100644
--- a/groups.go
+++ b/groups.go
@@ -386,9 +386,13 @@ func changeGroup(hexid, name string, members []string) (*Group, error) {
 		return nil, UnknownGroupIDError{hexid}
 	}
 
+	old := *g
 	g.Name = name
 	g.Members = groupMembers(members)
-	saveGroup(hexid)
+	if err := saveGroup(hexid); err != nil {
+		*g = old
+		return nil, err
+	}
 
 	return g, nil
 }
-- 
2.43.0


From 4d0f2a06150fafd8ae090342395f12e6596c176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 084/133] fix: forget a legacy group that was left or removed

---
 groups.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/groups.go b/groups.go
index fc42263..97ad9c7 100644
--- a/groups.go
+++ b/groups.go
@@ -86,6 +86,7 @@ func RemoveGroupKey(hexid string) error {
 	if err != nil {
 		return err
 	}
+	delete(groups, hexid)
 	return nil
 
 }
@@ -494,6 +495,7 @@ func removeGroup(id []byte) error {
 	if err != nil {
 		return err
 	}
+	delete(groups, hexid)
 	return nil
 }
 
@@ -528,8 +530,7 @@ func LeaveGroup(hexid string) error {
 			}
 		}
 	}
-	removeGroup(g.ID)
-	return nil
+	return removeGroup(g.ID)
 }
 
 func JoinGroup(hexID string) (*groupsv2.GroupV2, error) {
-- 
2.43.0


From 5e1bcea3ea59d6316b16cb9f592b1ca4b3cc15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 085/133] fix: find stored groups when others are loaded
 already

---
 groupsv2/groupsv2.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index b05c3ea..715dd3f 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -103,15 +103,15 @@ func createAcceptInviteChange() {
 
 }
 func FindGroup(hexid string) *GroupV2 {
-	if len(groupsV2) == 0 {
-		group, err := loadGroupV2(hexid)
-		if err != nil {
-			log.Debugln("[textsecure][groupsv2] FindGroup", err)
-			return nil
-		}
+	if group, ok := groupsV2[hexid]; ok {
 		return group
 	}
-	return groupsV2[hexid]
+	group, err := loadGroupV2(hexid)
+	if err != nil {
+		log.Debugln("[textsecure][groupsv2] FindGroup", err)
+		return nil
+	}
+	return group
 }
 
 // GroupV2Message defines a group v2 message type
-- 
2.43.0


From f02af13bfd6b91d4d998870271af0e66410a3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 086/133] fix: report that the server refused to let us join a
 group

---
 groupsv2/createGroupChange.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 8de5607..17d41aa 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -102,6 +102,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	}
 	err = PatchGroupV2(out, auth)
 	if err != nil {
+		return err
 	}
 	g.JoinStatus = GroupV2JoinsStatusMember
 	g.UpdateGroupFromServer()
-- 
2.43.0


From 6edb99413a434e6efa035776c752a8aa6d3eebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 087/133] fix: do not report the group change of an earlier
 message again

---
 groupsv2/groupsv2.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 715dd3f..ad6e9bf 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -274,6 +274,8 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	} else if string(group.GroupContext.Title) == "" {
 		err = group.UpdateGroupFromServer()
 	}
+	// the change of an earlier message is not that of this one
+	group.GroupAction = nil
 	// handle group changes
 	if len(groupContext.GroupChange) > 0 {
 		groupChange := &signalservice.GroupChange{}
-- 
2.43.0


From 81022687e79d4d54b308b591a77f2076c1071059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 088/133] fix: load the stored groups wherever the storage
 directory lies

---
 groups.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groups.go b/groups.go
index 97ad9c7..e16377b 100644
--- a/groups.go
+++ b/groups.go
@@ -99,8 +99,11 @@ func setupGroups() error {
 		return err
 	}
 	filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if !fi.IsDir() {
-			if !strings.Contains(path, "avatar") {
+			if !strings.Contains(fi.Name(), "avatar") {
 				loadGroup(path)
 			}
 		}
-- 
2.43.0


From 9fe60d0772dbd2e1b7a80968d5a6a43a39e8a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 089/133] fix: tell the other members of a group when one
 cannot be reached

---
 groups.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/groups.go b/groups.go
index e16377b..9eea39a 100644
--- a/groups.go
+++ b/groups.go
@@ -402,6 +402,7 @@ func changeGroup(hexid, name string, members []string) (*Group, error) {
 }
 
 func sendUpdate(g *Group) error {
+	var err error
 	for _, m := range g.Members {
 		if m != config.ConfigFile.Tel {
 			omsg := &outgoingMessage{
@@ -413,13 +414,14 @@ func sendUpdate(g *Group) error {
 					typ:     signalservice.GroupContext_UPDATE,
 				},
 			}
-			_, err := sendMessage(omsg)
-			if err != nil {
-				return err
+			// one member who cannot be reached does not keep the others from the update
+			if _, merr := sendMessage(omsg); merr != nil {
+				log.Errorln("[textsecure] sendUpdate", merr, m)
+				err = merr
 			}
 		}
 	}
-	return nil
+	return err
 }
 func newGroup(name string, members []string) (*Group, error) {
 	id := newGroupID()
@@ -441,6 +443,7 @@ func newGroup(name string, members []string) (*Group, error) {
 // RequestGroupInfo updates the info for the group like members or the avatat
 func RequestGroupInfo(g *Group) error {
 	log.Debugln("[textsecure] request group update", g.Hexid)
+	var err error
 	for _, m := range g.Members {
 		if m != config.ConfigFile.Tel {
 			omsg := &outgoingMessage{
@@ -450,9 +453,9 @@ func RequestGroupInfo(g *Group) error {
 					typ: signalservice.GroupContext_REQUEST_INFO,
 				},
 			}
-			_, err := sendMessage(omsg)
-			if err != nil {
-				return err
+			if _, merr := sendMessage(omsg); merr != nil {
+				log.Errorln("[textsecure] RequestGroupInfo", merr, m)
+				err = merr
 			}
 		}
 	}
@@ -464,12 +467,9 @@ func RequestGroupInfo(g *Group) error {
 				typ: signalservice.GroupContext_REQUEST_INFO,
 			},
 		}
-		_, err := sendMessage(omsg)
-		if err != nil {
-			return err
-		}
+		_, err = sendMessage(omsg)
 	}
-	return nil
+	return err
 }
 
 // NewGroup creates a group and notifies its members.
@@ -518,6 +518,7 @@ func LeaveGroup(hexid string) error {
 		return UnknownGroupIDError{hexid}
 	}
 
+	var err error
 	for _, m := range g.Members {
 		if m != config.ConfigFile.Tel {
 			omsg := &outgoingMessage{
@@ -527,12 +528,16 @@ func LeaveGroup(hexid string) error {
 					typ: signalservice.GroupContext_QUIT,
 				},
 			}
-			_, err := sendMessage(omsg)
-			if err != nil {
-				return err
+			// one member who cannot be reached does not keep the others from the message
+			if _, merr := sendMessage(omsg); merr != nil {
+				log.Errorln("[textsecure] LeaveGroup", merr, m)
+				err = merr
 			}
 		}
 	}
+	if err != nil {
+		return err
+	}
 	return removeGroup(g.ID)
 }
 
-- 
2.43.0


From c1772d884652587ae1add263c569f193eb49c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 090/133] fix: fetch new group credentials when the old ones
 have run out

---
 groupsv2/credentials.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index bdde8db..afca9dc 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -36,20 +36,33 @@ func getToday() int64 {
 	return time.Now().UnixNano() / int64(time.Millisecond) / (1000 * 60 * 60 * 24)
 }
 
-func GetCredentialForRedemption(day int64) (*GroupCredential, error) {
+// storedCredential returns the credential of the given day, if we have it.
+func storedCredential(day int64) *GroupCredential {
 	if Credentials == nil {
-		today := getToday()
-		err := GetGroupAuthCredentials(today, today+7)
-		if err != nil {
-			log.Errorln("[textsecure] get groupCredentials ", err)
-			return nil, err
-		}
+		return nil
 	}
 	for _, credential := range Credentials.Credentials {
 		if credential.RedemptionTime == day {
-			return &credential, nil
+			return &credential
 		}
 	}
+	return nil
+}
+
+func GetCredentialForRedemption(day int64) (*GroupCredential, error) {
+	if credential := storedCredential(day); credential != nil {
+		return credential, nil
+	}
+	// none yet, or they are of earlier days
+	today := getToday()
+	err := GetGroupAuthCredentials(today, today+7)
+	if err != nil {
+		log.Errorln("[textsecure] get groupCredentials ", err)
+		return nil, err
+	}
+	if credential := storedCredential(day); credential != nil {
+		return credential, nil
+	}
 	return nil, fmt.Errorf("failed to get group credentials")
 }
 
-- 
2.43.0


From 84750b36aff524e8b7403b2be94270b34b9f057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 091/133] fix: do not send to a group after the server said
 that we were removed

---
 groupsv2/groupsv2.go | 11 ++++++++++-
 groupsv2/helpers.go  | 18 ++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index ad6e9bf..17ab0a7 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -42,6 +42,9 @@ var (
 	groupsV2       = map[string]*GroupV2{}
 )
 
+// errNotInGroup is returned when the server says that we are not in a group
+var errNotInGroup = errors.New("Not in group 403")
+
 // GroupV2 holds group metadata.
 type GroupV2 struct {
 	MasterKey         []byte
@@ -179,7 +182,7 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 	}
 	if resp.IsError() {
 		if resp.Status == 403 {
-			return nil, fmt.Errorf(fmt.Sprintf("Not in group %d", resp.Status))
+			return nil, errNotInGroup
 		}
 		if resp.Status == 404 {
 			return nil, fmt.Errorf(fmt.Sprintf("Group not found %d", resp.Status))
@@ -214,6 +217,12 @@ func (g *GroupV2) UpdateGroupFromServer() error {
 	// 	return err
 	// }
 	groupFromServer, err := group.queryGroupChangeFromServer()
+	if err == errNotInGroup && group.removeOurselves() {
+		groupsV2[hexid] = group
+		if serr := saveGroupV2(hexid); serr != nil {
+			log.Errorln("[textsecure][groupsv2] save group", serr)
+		}
+	}
 	if err != nil {
 		return err
 	}
diff --git a/groupsv2/helpers.go b/groupsv2/helpers.go
index 9619ac4..7406660 100644
--- a/groupsv2/helpers.go
+++ b/groupsv2/helpers.go
@@ -4,6 +4,7 @@ import (
 	zkgroup "github.com/nanu-c/zkgroup"
 	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/helpers"
+	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -38,6 +39,23 @@ func (g *GroupV2) CheckJoinStatus() error {
 	return nil
 }
 
+// removeOurselves drops our membership when we were removed from the group
+// and tells whether we were a member.
+func (g *GroupV2) removeOurselves() bool {
+	if g.DecryptedGroup == nil {
+		return false
+	}
+	for i, m := range g.DecryptedGroup.Members {
+		if helpers.HexToUUID(idToHex(m.Uuid)) == config.ConfigFile.UUID {
+			members := append([]*signalservice.DecryptedMember{}, g.DecryptedGroup.Members[:i]...)
+			g.DecryptedGroup.Members = append(members, g.DecryptedGroup.Members[i+1:]...)
+			g.CheckJoinStatus()
+			return true
+		}
+	}
+	return false
+}
+
 func (g *GroupV2) checkCipher() error {
 	if g.cipher == nil {
 		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
-- 
2.43.0


From 304bcc760cd72af24c73abeaf218b76cc87a2929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 092/133] fix: report that the members of a group are not known

---
 groupsv2/groupsv2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 17ab0a7..97f0ac5 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -247,6 +247,10 @@ func GetGroupV2MembersForGroup(group string) ([]*signalservice.DecryptedMember,
 	if err != nil {
 		log.Debugln("[textsecure] could not update group from server")
 	}
+	if g.DecryptedGroup == nil {
+		// nothing is known of it
+		return nil, err
+	}
 
 	return g.DecryptedGroup.Members, nil
 }
-- 
2.43.0


From 99834d87500f769fef0ba6502f4daa41a48f66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 093/133] fix: synchronise a contact that is in the address
 book twice once, with its current account

---
 sync.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index a82480c..38563aa 100644
--- a/sync.go
+++ b/sync.go
@@ -173,8 +173,12 @@ func sendContactUpdate() error {
 
 	var buf bytes.Buffer
 
+	seen := map[string]bool{}
 	for _, contact := range lc {
-		if isValidUUID(contact.UUID) {
+		// only the first entry of a number has been looked up
+		duplicate := contact.Tel != "" && seen[contact.Tel]
+		seen[contact.Tel] = true
+		if isValidUUID(contact.UUID) && !duplicate {
 			cd := &signalservice.ContactDetails{
 				Number:      &contact.Tel,
 				Uuid:        &contact.UUID,
-- 
2.43.0


From b8ec968d47383eaecb0b4b47c2155ae48b36e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 094/133] fix: groupsv2: refuse unusable group credentials with
 an error instead of a panic

---
 groupsv2/groupsv2api.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 28299e0..9e68b88 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -28,27 +28,33 @@ func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Autho
 
 func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecretParams) (*GroupsV2Authorization, error) {
 	publicGroupParams, err := groupSecretParams.PublicParams()
+	if err != nil {
+		return nil, err
+	}
 	today := time.Now().Unix() / 86400
 	credential, err := GetCredentialForRedemption(today)
 	if err != nil {
 		return nil, err
 
 	}
+	if len(credential.Credential) == 0 {
+		return nil, fmt.Errorf("empty group credential")
+	}
 	authCredentialResponse, err := zkgroup.NewAuthCredentialResponse(credential.Credential)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	zkGroupServerPublicParams, _ := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
 	serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup1", err.Error())
-
+		return nil, err
 	}
 	clientZkAuthOperations, err := zkgroup.NewClientZkAuthOperations(serverPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	authCredential, err := clientZkAuthOperations.ReceiveAuthCredential(uuid, (uint32)(today), authCredentialResponse)
 	if err != nil {
-- 
2.43.0


From 6034ac0f3f1129992e984d5bb03ea60f2e9078e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 095/133] fix: profiles: an empty profile key credential is an
 error, not a panic

---
 profiles/profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index b37798f..82f1bec 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -267,7 +267,7 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		}
 	}
 	log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
-	if profile.Credential == nil {
+	if len(profile.Credential) == 0 {
 		log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
 		return nil, errors.New("profile credential is empty")
 	}
-- 
2.43.0


From df1e68e4b43a4a72b90222b94c586a6583622460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 096/133] fix: an answer without our UUID is an error

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 21b720f..e7b92f2 100644
--- a/server.go
+++ b/server.go
@@ -417,6 +417,9 @@ func GetMyUUID() (string, error) {
 	if err := dec.Decode(&response); err != nil {
 		return "", err
 	}
+	if response.UUID == "" {
+		return "", errors.New("the server gave no UUID")
+	}
 	return response.UUID, nil
 }
 
-- 
2.43.0


From 991ed1c4b2c046304365436e8efc601a39e53bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 097/133] fix: groupsv2: do not take a group whose download
 broke off for the group

---
 groupsv2/groupsv2.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 97f0ac5..fd5ffc1 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -153,7 +153,9 @@ func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte
 		return nil, fmt.Errorf(fmt.Sprintf("getGroupJoinInfoFromServer %s", resp.Status))
 	}
 	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
+	if _, err = buf.ReadFrom(resp.Body); err != nil {
+		return nil, err
+	}
 	groupJoinInfo := &signalservice.GroupJoinInfo{}
 	err = proto.Unmarshal(buf.Bytes(), groupJoinInfo)
 	if err != nil {
@@ -190,7 +192,9 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 		return nil, resp
 	}
 	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
+	if _, err = buf.ReadFrom(resp.Body); err != nil {
+		return nil, err
+	}
 
 	group := &signalservice.Group{}
 	err = proto.Unmarshal(buf.Bytes(), group)
-- 
2.43.0


From bf36032b4bec362f10f4c4af295abbb9ede017f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 098/133] fix: groupsv2: refuse group change actions with
 missing parts instead of panicking

---
 groupsv2/groupAuth.go   |  8 ++++----
 groupsv2/groupChange.go | 31 ++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/groupsv2/groupAuth.go b/groupsv2/groupAuth.go
index 97c0863..7d13202 100644
--- a/groupsv2/groupAuth.go
+++ b/groupsv2/groupAuth.go
@@ -14,7 +14,7 @@ func isPromoteMembersPendingAdminApprovalAllowed(user *entities.GroupUser, group
 
 func isDeleteMembersPendingAdminApprovalAllowed(user *entities.GroupUser, group *GroupV2, actions []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction) bool {
 	return isAdminstrator(user, group) ||
-		len(actions) == 1 && user.IsMember(actions[0].DeletedUserId, group.MasterKey)
+		len(actions) == 1 && user.IsMember(actions[0].GetDeletedUserId(), group.MasterKey)
 
 }
 
@@ -58,7 +58,7 @@ func isDeleteMembersPendingProfileKeyAllowed(user *entities.GroupUser, group *Gr
 	if isAdminstrator(user, group) {
 		return true
 	}
-	return len(actions) == 1 && user.IsMember(actions[0].DeletedUserId, group.MasterKey)
+	return len(actions) == 1 && user.IsMember(actions[0].GetDeletedUserId(), group.MasterKey)
 }
 func isAddMembersPendingProfileKeyAllowed(user *entities.GroupUser, group *GroupV2) bool {
 
@@ -88,7 +88,7 @@ func isDeleteMemberAllowed(user *entities.GroupUser,
 	if isAdminstrator(user, group) {
 		return true
 	}
-	return len(members) == 1 && user.IsMember(members[0].DeletedUserId, group.MasterKey)
+	return len(members) == 1 && user.IsMember(members[0].GetDeletedUserId(), group.MasterKey)
 
 }
 func isAddMemberAllowed(user *entities.GroupUser,
@@ -113,7 +113,7 @@ func isAddMemberAllowed(user *entities.GroupUser,
 		(group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ANY &&
 			bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword))) &&
 		len(actions) == 1 &&
-		user.IsMember(actions[0].Added.UserId, group.MasterKey)
+		user.IsMember(actions[0].GetAdded().GetUserId(), group.MasterKey)
 
 }
 func IsAccessRequiredOneOf(valueToTest signalservice.AccessControl_AccessRequired, acceptableValues ...signalservice.AccessControl_AccessRequired) bool {
diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 344cef7..f854643 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -30,6 +30,9 @@ func (g *GroupChangeApplicator) ApplyModifyAnnouncementsOnly(user *entities.Grou
 	group *GroupV2,
 	action *signalservice.GroupChange_Actions_ModifyAnnouncementsOnlyAction, groupImmut *GroupV2) error {
 
+	if action == nil {
+		return nil
+	}
 	if !isModifyAnnouncementsOnlyAllowed(user, groupImmut) {
 		return entities.Status(http.StatusForbidden, "!isModifyAnnouncementsOnlyAllowed")
 	}
@@ -43,6 +46,9 @@ func (g *GroupChangeApplicator) ApplyModifyDescription(user *entities.GroupUser,
 	group *GroupV2,
 	action *signalservice.GroupChange_Actions_ModifyDescriptionAction, groupImmut *GroupV2) error {
 
+	if action == nil {
+		return nil
+	}
 	if !isModifyAttributesAllowed(user, groupImmut) {
 		return entities.Status(http.StatusForbidden, "!isModifyAttributesAllowed")
 	}
@@ -56,6 +62,9 @@ func (g *GroupChangeApplicator) ApplyModifyInviteLinkPassword(user *entities.Gro
 	inviteLinkPassword []byte,
 	group *GroupV2,
 	action *signalservice.GroupChange_Actions_ModifyInviteLinkPasswordAction, groupImmut *GroupV2) error {
+	if action == nil {
+		return nil
+	}
 	if !isModifyInviteLinkPasswordAllowed(user, groupImmut) {
 		return entities.Status(http.StatusForbidden, "!isModifyInviteLinkPasswordAllowed")
 	}
@@ -139,7 +148,7 @@ func (g *GroupChangeApplicator) ApplyDeleteMembersPendingAdminApproval(user *ent
 	}
 	mapModifyUserId := make(map[string]struct{})
 	for _, item := range actions {
-		if actions == nil {
+		if item == nil {
 			return entities.Status(http.StatusBadRequest, "nil ptr in request")
 		}
 		key := getKey(item.DeletedUserId)
@@ -184,7 +193,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingAdminApproval(user *entiti
 	}
 	mapModifyUserId := make(map[string]struct{})
 	for _, item := range actions {
-		if actions == nil {
+		if item.GetAdded() == nil {
 			return entities.Status(http.StatusBadRequest, "nil ptr in request")
 		}
 		key := getKey(item.Added.UserId)
@@ -367,7 +376,7 @@ func (g *GroupChangeApplicator) ApplyPromoteMembersPendingProfileKey(user *entit
 	}
 	var presentations []zkgroup.ProfileKeyCredentialPresentation
 	for _, item := range promoteMembersPendingProfileKeys {
-		presentation, err := g.groupValidator.ValidatePresentationUpdate(user, groupImmut, item.Presentation)
+		presentation, err := g.groupValidator.ValidatePresentationUpdate(user, groupImmut, item.GetPresentation())
 		if err != nil {
 			return entities.Status(http.StatusInternalServerError, err.Error())
 		}
@@ -419,6 +428,9 @@ func (g *GroupChangeApplicator) ApplyDeleteMembersPendingProfileKey(user *entiti
 
 	mapModifyUserId := make(map[string]struct{})
 	for _, item := range deleteMembersPendingProfileKeys {
+		if item == nil {
+			return entities.Status(http.StatusBadRequest, "nil ptr in request")
+		}
 		key := getKey(item.DeletedUserId)
 		if _, ok := mapModifyUserId[key]; ok {
 			return entities.Status(http.StatusBadRequest, "[ApplyDeleteMembersPendingProfileKey] Duplicatates userId")
@@ -460,7 +472,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 	}
 	mapAddUserId := make(map[string]struct{})
 	for _, item := range addMembersPendingProfileKeys {
-		if item.Added.Member == nil {
+		if item.GetAdded().GetMember() == nil {
 			return entities.Status(http.StatusBadRequest, "No member")
 		}
 		if len(item.Added.Member.UserId) == 0 {
@@ -521,7 +533,7 @@ func (g *GroupChangeApplicator) ApplyModifyMemberProfileKeys(user *entities.Grou
 	}
 	var presentations []zkgroup.ProfileKeyCredentialPresentation
 	for _, item := range modifyMembers {
-		presentation, err := g.groupValidator.ValidatePresentationUpdate(user, groupImmut, item.Presentation)
+		presentation, err := g.groupValidator.ValidatePresentationUpdate(user, groupImmut, item.GetPresentation())
 		if err != nil {
 			return err
 		}
@@ -567,6 +579,9 @@ func (g *GroupChangeApplicator) ApplyModifyMemberRoles(user *entities.GroupUser,
 
 	mapModifyUserID := make(map[string]*signalservice.GroupChange_Actions_ModifyMemberRoleAction)
 	for _, member := range modifyMembers {
+		if member == nil {
+			return entities.Status(http.StatusBadRequest, "nil ptr in request")
+		}
 
 		if len(member.UserId) == 0 {
 			return entities.Status(http.StatusBadRequest, "1->BadRequest userID is empty")
@@ -622,6 +637,9 @@ func (g *GroupChangeApplicator) ApplyDeleteMembers(user *entities.GroupUser,
 
 	mapDeleteUserId := make(map[string]struct{})
 	for _, action := range deleteMembers {
+		if action == nil {
+			return entities.Status(http.StatusBadRequest, "nil ptr in request")
+		}
 		key := getKey(action.DeletedUserId)
 		if _, ok := mapDeleteUserId[key]; ok {
 			return errors.New("BadRequset Duplicates userId")
@@ -663,6 +681,9 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 
 	mapModifyUserId := make(map[string]struct{})
 	for _, action := range addMembers {
+		if action.GetAdded() == nil {
+			return entities.Status(http.StatusBadRequest, "nil ptr in request")
+		}
 		key := getKey(action.Added.UserId)
 		if _, ok := mapModifyUserId[key]; ok {
 			return entities.Status(http.StatusBadRequest, "BadRequset Duplicates userId")
-- 
2.43.0


From bb57b3501f3684ba1520d2cb0dd76349664e40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 099/133] fix: groupsv2: accept invitations without a profile
 key, refuse those with one

The checks were the wrong way round, no invitation could be applied.
---
 groupsv2/groupChange.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index f854643..1710496 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -478,10 +478,10 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 		if len(item.Added.Member.UserId) == 0 {
 			return entities.Status(http.StatusBadRequest, "No user id")
 		}
-		if len(item.Added.Member.ProfileKey) == 0 {
+		if len(item.Added.Member.ProfileKey) != 0 {
 			return entities.Status(http.StatusBadRequest, "Profile key present for invitation")
 		}
-		if len(item.Added.Member.Presentation) == 0 {
+		if len(item.Added.Member.Presentation) != 0 {
 			return entities.Status(http.StatusBadRequest, "Presentation not empty for invitation")
 		}
 		if item.Added.Member.Role == signalservice.Member_UNKNOWN {
-- 
2.43.0


From d27416151d9bc7f715a425d7425069bac0cc2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 100/133] fix: groupsv2: add a request to join to the group
 that all other actions work on

It went to the encrypted group, so that nobody could approve or withdraw it and
it could be made again and again.
---
 groupsv2/groupChange.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 1710496..2cee4ba 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -235,7 +235,11 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingAdminApproval(user *entiti
 		return entities.Status(http.StatusBadRequest, "request contains non-self user ids")
 	}
 	for _, item := range actions {
-		group.GroupContext.RequestingMembers = append(group.GroupContext.RequestingMembers, item.Added)
+		group.DecryptedGroup.RequestingMembers = append(group.DecryptedGroup.RequestingMembers, &signalservice.DecryptedRequestingMember{
+			Uuid:       item.Added.UserId,
+			ProfileKey: item.Added.ProfileKey,
+			Timestamp:  item.Added.Timestamp,
+		})
 	}
 
 	return nil
-- 
2.43.0


From 950c7245e9881c9b08fb7d4746f0728efde3ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 101/133] fix: groupsv2: check all new members before adding
 any

A change that was refused for its second entry had already added its first one.
Somebody who asked to join is not let in with an unknown role either.
---
 groupsv2/groupChange.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 2cee4ba..38b9728 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -95,6 +95,7 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 		mapMember[getKey(item.Uuid)] = struct{}{}
 	}
 
+	var newMembers []*signalservice.DecryptedMember
 	mapModifyUserId := make(map[string]signalservice.Member_Role)
 	for _, item := range actions {
 		if item == nil {
@@ -115,9 +116,12 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 		if !ok {
 			return entities.Status(http.StatusBadRequest, "some user ids were not in the set of members pending admin approval")
 		}
+		if item.Role == signalservice.Member_UNKNOWN {
+			return entities.Status(http.StatusBadRequest, "role is unknown")
+		}
 		mapModifyUserId[key] = item.Role
 
-		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{
+		newMembers = append(newMembers, &signalservice.DecryptedMember{
 			Uuid:             item.UserId,
 			Role:             item.Role,
 			JoinedAtRevision: group.Revision + 1,
@@ -130,6 +134,7 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 			ship = append(ship, item)
 		}
 	}
+	group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, newMembers...)
 	group.DecryptedGroup.RequestingMembers = ship
 
 	return nil
@@ -708,6 +713,7 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 	}
 
 	b := isAdminstrator(user, groupImmut)
+	var newMembers []*signalservice.DecryptedMember
 	for _, action := range addMembers {
 
 		if action.Added.Role == signalservice.Member_ADMINISTRATOR && !b {
@@ -731,27 +737,27 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 			ProfileKey:       action.Added.ProfileKey,
 		}
 
-		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, member)
+		newMembers = append(newMembers, member)
+	}
+	group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, newMembers...)
 
-		var pendingProfileKeyShip []*signalservice.DecryptedPendingMember
+	var pendingProfileKeyShip []*signalservice.DecryptedPendingMember
 
-		for _, value := range group.DecryptedGroup.PendingMembers {
-			if _, ok := mapModifyUserId[getKey(value.Uuid)]; !ok {
-				pendingProfileKeyShip = append(pendingProfileKeyShip, value)
-			}
+	for _, value := range group.DecryptedGroup.PendingMembers {
+		if _, ok := mapModifyUserId[getKey(value.Uuid)]; !ok {
+			pendingProfileKeyShip = append(pendingProfileKeyShip, value)
 		}
-		group.DecryptedGroup.PendingMembers = pendingProfileKeyShip
+	}
+	group.DecryptedGroup.PendingMembers = pendingProfileKeyShip
 
-		var pendingAdminApprovalShip []*signalservice.DecryptedRequestingMember
+	var pendingAdminApprovalShip []*signalservice.DecryptedRequestingMember
 
-		for _, value := range group.DecryptedGroup.RequestingMembers {
-			if _, ok := mapModifyUserId[getKey(value.Uuid)]; !ok {
-				pendingAdminApprovalShip = append(pendingAdminApprovalShip, value)
-			}
+	for _, value := range group.DecryptedGroup.RequestingMembers {
+		if _, ok := mapModifyUserId[getKey(value.Uuid)]; !ok {
+			pendingAdminApprovalShip = append(pendingAdminApprovalShip, value)
 		}
-		group.DecryptedGroup.RequestingMembers = pendingAdminApprovalShip
-
 	}
+	group.DecryptedGroup.RequestingMembers = pendingAdminApprovalShip
 
 	return nil
 }
-- 
2.43.0


From 6f0ce2c54e8ad5025ceadb0420df6d839ac8bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 102/133] fix: textsecure: publish the prekeys of an
 interrupted setup at the next start

---
 textsecure.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index dad6cca..505f743 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -312,7 +312,6 @@ func Setup(c *Client) error {
 		return err
 	}
 
-	client.RegistrationDone()
 	rootCa.SetupCA(config.ConfigFile.RootCA)
 	transport.SetupTransporter(config.ConfigFile.Server, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupCDNTransporter(SIGNAL_CDN2_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
@@ -320,6 +319,14 @@ func Setup(c *Client) error {
 	transport.SetupStorageTransporter(STORAGE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupServiceTransporter(SIGNAL_SERVICE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	identityKey, err = textSecureStore.GetIdentityKeyPair()
+	// the profile key is set when the prekeys were published, which an interrupted setup may not have come to
+	if len(config.ConfigFile.ProfileKey) == 0 {
+		err = publishPreKeys()
+		if err != nil {
+			return err
+		}
+	}
+	client.RegistrationDone()
 	// check if we have a uuid and if not get it
 	// config.ConfigFile = checkUUID(config.ConfigFile)
 	profileChanged := false
@@ -424,6 +431,7 @@ func registerDevice() error {
 	config.ConfigFile.Tel = crayfishRegistration.Tel
 	config.ConfigFile.UUID = crayfishRegistration.UUID
 	config.ConfigFile.Name = name
+	config.ConfigFile.ProfileKey = nil
 	config.ConfigFile.AccountCapabilities = config.AccountCapabilities{
 		// Uuid:              false,
 		Gv2:               true,
@@ -441,16 +449,7 @@ func registerDevice() error {
 	log.Debugln("[textsecure] Crayfish registration done")
 	transport.SetupTransporter(config.ConfigFile.Server, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 
-	log.Debugln("[textsecure] generate keys")
-	err = generatePreKeys()
-	if err != nil {
-		return err
-	}
-	err = generatePreKeyState()
-	if err != nil {
-		return err
-	}
-	err = registerPreKeys()
+	err = publishPreKeys()
 	if err != nil {
 		return err
 	}
@@ -467,6 +466,20 @@ func registerDevice() error {
 	return nil
 }
 
+// publishPreKeys generates prekeys and uploads them to the server
+func publishPreKeys() error {
+	log.Debugln("[textsecure] generate keys")
+	err := generatePreKeys()
+	if err != nil {
+		return err
+	}
+	err = generatePreKeyState()
+	if err != nil {
+		return err
+	}
+	return registerPreKeys()
+}
+
 func handleReceipt(env *signalservice.Envelope) {
 	if client.ReceiptHandler != nil {
 		client.ReceiptHandler(env.GetSourceUuid(), env.GetSourceDevice(), env.GetTimestamp())
-- 
2.43.0


From d56bf40be9e05054990e4ba1236d5afdfd8700db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 103/133] fix: textsecure: do not start the helper without a
 configuration

---
 textsecure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textsecure.go b/textsecure.go
index 505f743..4eae84d 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -265,10 +265,10 @@ func Setup(c *Client) error {
 	client = c
 
 	config.ConfigFile, err = loadConfig()
-	go crayfish.Run()
 	if err != nil {
 		return err
 	}
+	go crayfish.Run()
 
 	setupLogging()
 	err = setupStore()
-- 
2.43.0


From 35f100672b03272727161cdd9082f03b79d82e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 104/133] fix: textsecure: report an unreadable identity key at
 the start

---
 textsecure.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 4eae84d..1a461a6 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -319,6 +319,9 @@ func Setup(c *Client) error {
 	transport.SetupStorageTransporter(STORAGE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupServiceTransporter(SIGNAL_SERVICE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	identityKey, err = textSecureStore.GetIdentityKeyPair()
+	if err != nil {
+		return err
+	}
 	// the profile key is set when the prekeys were published, which an interrupted setup may not have come to
 	if len(config.ConfigFile.ProfileKey) == 0 {
 		err = publishPreKeys()
-- 
2.43.0


From b1e8cd483a39c56d80f0f8f6892b8e499a798a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 105/133] fix: textsecure: tell the helper the account id after
 a registration

---
 textsecure.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/textsecure.go b/textsecure.go
index 1a461a6..74dcd74 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -433,6 +433,7 @@ func registerDevice() error {
 	}
 	config.ConfigFile.Tel = crayfishRegistration.Tel
 	config.ConfigFile.UUID = crayfishRegistration.UUID
+	crayfish.Instance.LocalUUID = crayfishRegistration.UUID
 	config.ConfigFile.Name = name
 	config.ConfigFile.ProfileKey = nil
 	config.ConfigFile.AccountCapabilities = config.AccountCapabilities{
-- 
2.43.0


From 879955bbbce07df50cb1b11cef5a4eac21edfd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 106/133] fix: unidentifiedAccess: compare the expiry of a
 certificate in milliseconds

---
 unidentifiedAccess/unidentifiedAccess.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 4ec074a..d4c7c63 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -50,7 +50,8 @@ func CheckCertificate(certificate []byte) error {
 		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if senderCertificate.GetExpires() < uint64(time.Now().Unix()) {
+	// the server gives the time in milliseconds
+	if senderCertificate.GetExpires() < uint64(time.Now().UnixNano()/int64(time.Millisecond)) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
-- 
2.43.0


From 42b38cb592f83bc96d0214bdcac08bf6371acf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 107/133] fix: textsecure: get a new credential for a new
 profile key

---
 textsecure.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 74dcd74..febdf9f 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -336,6 +336,8 @@ func Setup(c *Client) error {
 	// check for a profileKey
 	if len(config.ConfigFile.ProfileKey) == 0 {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+		// the credential belongs to the profile key
+		config.ConfigFile.ProfileKeyCredential = nil
 		saveConfig(config.ConfigFile)
 		profileChanged = true
 	}
@@ -349,6 +351,8 @@ func Setup(c *Client) error {
 		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
 	} else {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+		// the credential belongs to the profile key
+		config.ConfigFile.ProfileKeyCredential = nil
 		saveConfig(config.ConfigFile)
 		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
 	}
-- 
2.43.0


From c4873a31715a224d129e59fca4bd48f87085eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 108/133] fix: config: replace the configuration file only when
 the new one is complete

---
 config.go      |  4 ++--
 utils/utils.go | 31 +++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 5bbd209..2aae72a 100644
--- a/config.go
+++ b/config.go
@@ -4,11 +4,11 @@
 package textsecure
 
 import (
-	"io/ioutil"
 	"os"
 
 	"github.com/go-yaml/yaml"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/utils"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -57,7 +57,7 @@ func WriteConfig(filename string, cfg *config.Config) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return utils.ReplaceFile("", filename, b)
 }
 
 func saveConfig(cfg *config.Config) error {
diff --git a/utils/utils.go b/utils/utils.go
index 79a704d..352a9f2 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"os"
+	"path/filepath"
 	"time"
 
 	uuid "github.com/satori/go.uuid"
@@ -11,6 +12,36 @@ func Exists(path string) bool {
 	_, err := os.Stat(path)
 	return err == nil
 }
+
+// ReplaceFile writes the data to a temporary file and moves that into place when it is complete, so that
+// the file never holds only a part of the data. The temporary file lies in tmpDir, which has to be on the
+// same file system; if that is empty it lies next to the file.
+func ReplaceFile(tmpDir, filename string, data []byte) error {
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+	if tmpDir == "" {
+		tmpDir = filepath.Dir(filename)
+	}
+	f, err := os.CreateTemp(tmpDir, ".write")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
 func UUIDStr(uuid_ba []byte) (string, error) {
 	u, err := uuid.FromBytes(uuid_ba)
 	if err != nil {
-- 
2.43.0


From f30a8bb2ca795a57bca087dbd3df6879c4aa7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 109/133] fix: contacts: replace the contacts file only when
 the new one is complete

---
 contacts/contacts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 950cb10..0f6a548 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -4,10 +4,10 @@
 package contacts
 
 import (
-	"io/ioutil"
 	"os"
 
 	signalservice "github.com/signal-golang/textsecure/protobuf"
+	"github.com/signal-golang/textsecure/utils"
 	log "github.com/sirupsen/logrus"
 
 	"gopkg.in/yaml.v2"
@@ -92,7 +92,7 @@ func WriteContacts(filename string, contacts []Contact) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return utils.ReplaceFile("", filename, b)
 }
 
 // WriteContactsToPath saves a list of contacts to a file at the standard location
@@ -103,7 +103,7 @@ func WriteContactsToPath() error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePath, b, 0600)
+	return utils.ReplaceFile("", filePath, b)
 }
 func contactsToYaml() *yamlContacts {
 	c := &yamlContacts{}
-- 
2.43.0


From 48da7312bbd8a18d4923bd87098364d9959d546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 110/133] fix: groups: replace the file of a group only when
 the new one is complete

---
 groups.go            | 5 +++--
 groupsv2/groupsv2.go | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/groups.go b/groups.go
index 9eea39a..9f6f25b 100644
--- a/groups.go
+++ b/groups.go
@@ -8,7 +8,6 @@ import (
 	"encoding/hex"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -21,6 +20,7 @@ import (
 	"github.com/signal-golang/textsecure/groupsv2"
 	groupsV2 "github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
+	"github.com/signal-golang/textsecure/utils"
 	"gopkg.in/yaml.v2"
 )
 
@@ -60,7 +60,8 @@ func saveGroup(hexid string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	// every file in the directory of the groups is one
+	return utils.ReplaceFile(filepath.Dir(groupDir), idToPath(hexid), b)
 }
 
 // loadGroup loads a group's state from a file.
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index fd5ffc1..857b236 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -6,7 +6,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"io/ioutil"
 	"net/url"
 	"os"
 	"path/filepath"
@@ -16,6 +15,7 @@ import (
 	"github.com/signal-golang/textsecure/config"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/transport"
+	"github.com/signal-golang/textsecure/utils"
 	log "github.com/sirupsen/logrus"
 	"google.golang.org/protobuf/proto"
 	"gopkg.in/yaml.v2"
@@ -380,7 +380,7 @@ func saveGroupV2(hexid string) error {
 		return err
 	}
 	log.Debugln("[textsecure][groupv2] save group", idToPath(hexid))
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	return utils.ReplaceFile(filepath.Dir(groupV2Dir), idToPath(hexid), b)
 }
 
 // loadGroup loads a group's state from a file.
-- 
2.43.0


From cedc24e80c706e265e60e11ad7763267d4cbf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 111/133] fix: textsecure: register only if the credentials
 could be stored

---
 store.go      | 16 ++++++++--------
 textsecure.go | 17 +++++++++++++----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/store.go b/store.go
index 98a9b13..d5fc7fd 100644
--- a/store.go
+++ b/store.go
@@ -126,9 +126,9 @@ func (s *store) readNumFromFile(path string) (uint32, error) {
 	return uint32(num), nil
 }
 
-func (s *store) writeNumToFile(path string, num uint32) {
+func (s *store) writeNumToFile(path string, num uint32) error {
 	b := []byte(strconv.Itoa(int(num)))
-	s.writeFile(path, b)
+	return s.writeFile(path, b)
 }
 
 func (s *store) genKeys(password string, salt []byte, count int) {
@@ -219,9 +219,9 @@ func (s *store) GetLocalRegistrationID() (uint32, error) {
 	return s.readNumFromFile(regidfile)
 }
 
-func (s *store) SetLocalRegistrationID(id uint32) {
+func (s *store) SetLocalRegistrationID(id uint32) error {
 	regidfile := filepath.Join(s.identityDir, "regid")
-	s.writeNumToFile(regidfile, id)
+	return s.writeNumToFile(regidfile, id)
 }
 
 func (s *store) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) {
@@ -408,9 +408,9 @@ func (s *store) RemoveSignedPreKey(id uint32) {
 }
 
 // HTTP API store
-func (s *store) storeHTTPPassword(password string) {
+func (s *store) storeHTTPPassword(password string) error {
 	passFile := filepath.Join(s.identityDir, "http_password")
-	s.writeFile(passFile, []byte(password))
+	return s.writeFile(passFile, []byte(password))
 }
 
 func (s *store) loadHTTPPassword() (string, error) {
@@ -422,9 +422,9 @@ func (s *store) loadHTTPPassword() (string, error) {
 	return string(b), nil
 }
 
-func (s *store) storeHTTPSignalingKey(key []byte) {
+func (s *store) storeHTTPSignalingKey(key []byte) error {
 	keyFile := filepath.Join(s.identityDir, "http_signaling_key")
-	s.writeFile(keyFile, key)
+	return s.writeFile(keyFile, key)
 }
 
 func (s *store) loadHTTPSignalingKey() ([]byte, error) {
diff --git a/textsecure.go b/textsecure.go
index febdf9f..4bddfd2 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -280,16 +280,25 @@ func Setup(c *Client) error {
 		registration.Registration = registration.RegistrationInfo{
 			RegistrationID: generateRegistrationID(),
 		}
-		textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		err := textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.Password = generatePassword()
-		textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		err = textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.SignalingKey = generateSignalingKey()
-		textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		err = textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		if err != nil {
+			return err
+		}
 
 		identityKey = axolotl.GenerateIdentityKeyPair()
-		err := textSecureStore.SetIdentityKeyPair(identityKey)
+		err = textSecureStore.SetIdentityKeyPair(identityKey)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 94add4e033c2f756534f8519e39e5ba1c41e69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 112/133] fix: profiles: keep avatars inside their directory
 and replace them whole

The account an avatar is stored under comes from the server and could name any file of the user.
---
 profiles/avatars.go | 45 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 94add39..bc6a835 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -5,10 +5,12 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	siv "github.com/Blackoverflow/gcmsiv"
 	"github.com/signal-golang/textsecure/config"
 	transport "github.com/signal-golang/textsecure/transport"
+	"github.com/signal-golang/textsecure/utils"
 
 	"crypto/aes"
 	"crypto/cipher"
@@ -42,31 +44,33 @@ func GetRemoteAvatar(avatarURL string) (io.ReadCloser, error) {
 }
 func GetLocalAvatarPath(uuid string) (string, error) {
 	log.Debugln("[textsecure] get local avatar for ", uuid)
+	return avatarFile(uuid)
+}
+
+// avatarFile returns the path of the avatar of an account. The account comes from outside: it must name a file in
+// the avatar directory.
+func avatarFile(uuid string) (string, error) {
 	if uuid == "" {
 		return "", fmt.Errorf("empty uuid")
 	}
+	if uuid == "." || uuid == ".." || strings.ContainsAny(uuid, "/\\\x00") {
+		return "", fmt.Errorf("%q is not an account", uuid)
+	}
 	if avatarsPath == "" {
 		err := setupAvatarsPath()
 		if err != nil {
 			return "", err
 		}
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
-	return avatarFile, nil
+	return filepath.Join(avatarsPath, uuid), nil
 }
 func GetLocalAvatar(uuid string) (io.ReadCloser, error) {
 	log.Debugln("[textsecure] get local avatar for ", uuid)
-	if uuid == "" {
-		return nil, fmt.Errorf("empty uuid")
-	}
-	if avatarsPath == "" {
-		err := setupAvatarsPath()
-		if err != nil {
-			return nil, err
-		}
+	path, err := avatarFile(uuid)
+	if err != nil {
+		return nil, err
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
-	f, err := os.Open(avatarFile)
+	f, err := os.Open(path)
 	if err != nil {
 		return nil, err
 	}
@@ -84,26 +88,15 @@ func SaveAvatar(uuid string, avatar []byte) error {
 
 func saveLocalAvatar(uuid string, avatar []byte) error {
 	log.Debugln("[textsecure] save local avatar for ", uuid)
-	if uuid == "" {
-		return fmt.Errorf("empty uuid")
-	}
 	if len(avatar) == 0 {
 		return fmt.Errorf("empty avatar")
 	}
-	if avatarsPath == "" {
-		err := setupAvatarsPath()
-		if err != nil {
-			return err
-		}
-	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
-	log.Debugln("[textsecure] save avatar to ", avatarFile)
-	f, err := os.Create(avatarFile)
+	path, err := avatarFile(uuid)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-	_, err = f.Write(avatar)
+	log.Debugln("[textsecure] save avatar to ", path)
+	err = utils.ReplaceFile("", path, avatar)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ff09498501af51822c838e3d5880fcca475a7ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 113/133] fix: profiles: do not take the profile of one account
 for another, nor an unusable avatar for one

---
 profiles/profile.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 82f1bec..d4e7924 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -427,6 +427,9 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			return nil, err
 		}
 	}
+	if profile.UUID != "" && profile.UUID != uuid {
+		return nil, fmt.Errorf("profile of %q instead of %q", profile.UUID, uuid)
+	}
 	var avatarDecrypted []byte
 
 	if profile.Avatar != "" {
@@ -449,14 +452,13 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 						log.Errorln("[textsecure] GetProfileUuid Avatar decryption failed", err)
 						profile.Avatar = ""
 
-					}
-					err = saveLocalAvatar(profile.UUID, avatarDecrypted)
-					if err != nil {
-						log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
+					} else if err = saveLocalAvatar(uuid, avatarDecrypted); err != nil {
+						log.Errorln("[textsecure] GetProfileUuid saving avatar failed ", err)
+						profile.Avatar = ""
 					}
 				} else {
 					log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: avatar is empty")
-
+					profile.Avatar = ""
 				}
 			}
 		}
-- 
2.43.0


From 9c1edae14ea6c82c6ec64c6f1c68c6b18f4f0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 114/133] fix: profiles: do not take the encrypted name of a
 profile for a name

---
 profiles/profile.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index d4e7924..fe11225 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -471,19 +471,23 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 	// 	return nil, err
 	// }
 
-	c.Username = profile.Name
-	if c.Name == "" {
+	// without the profile key the texts are still encrypted
+	readable := len(c.ProfileKey) > 0
+	if readable {
+		c.Username = profile.Name
+	}
+	if readable && c.Name == "" {
 		c.Name = profile.Name
 	}
-	c.UUID = profile.UUID
+	c.UUID = uuid
 	if profile.Avatar != "" {
 		c.HasAvatar = true
 		c.AvatarImg = avatarDecrypted
 	}
-	if profile.About != "" {
+	if readable && profile.About != "" {
 		c.About = profile.About
 	}
-	if profile.AboutEmoji != "" {
+	if readable && profile.AboutEmoji != "" {
 		c.AboutEmoji = profile.AboutEmoji
 	}
 	contacts.Contacts[c.UUID] = c
-- 
2.43.0


From 9c5f904819617ef85820752247d19e75ba586ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:06 +0000
Subject: [PATCH 115/133] fix: profiles: report contacts that could not be
 stored

---
 profiles/profile.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index fe11225..a65bdcc 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -491,6 +491,9 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 		c.AboutEmoji = profile.AboutEmoji
 	}
 	contacts.Contacts[c.UUID] = c
-	contacts.WriteContactsToPath()
+	err = contacts.WriteContactsToPath()
+	if err != nil {
+		return nil, err
+	}
 	return profile, nil
 }
-- 
2.43.0


From b97c4ca98bb913857a398b799350f34fb3e30e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 116/133] fix: rootCa: trust no server if the configured
 certificate cannot be read

---
 rootCa/rootca.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rootCa/rootca.go b/rootCa/rootca.go
index 658a943..7c1f948 100644
--- a/rootCa/rootca.go
+++ b/rootCa/rootca.go
@@ -83,8 +83,8 @@ func SetupCA(rootca string) {
 	if rootca != "" && utils.Exists(rootca) {
 		b, err := os.ReadFile(rootca)
 		if err != nil {
+			// without the configured certificate no server is trusted
 			log.Error(err)
-			return
 		}
 		pem = b
 	}
-- 
2.43.0


From 2c96e67a6d7595b5eb682f96e36b158544d41d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 117/133] fix: transport: verify the certificate of the server

---
 transport/transport.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/transport/transport.go b/transport/transport.go
index 44df67b..4268c54 100644
--- a/transport/transport.go
+++ b/transport/transport.go
@@ -26,34 +26,35 @@ func SetupTransporter(server string,
 	password string,
 	userAgent string,
 	proxyServer string) {
-	Transport = newHTTPTransporter(server, uuid, password, userAgent, proxyServer, rootCa.RootCA)
+	// the websocket verifies the same server in the same way
+	Transport = newHTTPTransporter(server, uuid, password, userAgent, proxyServer, rootCa.RootCA, true)
 }
 
 var CdnTransport *httpTransporter
 
 func SetupCDNTransporter(cdnUrl string, tel string, password string, userAgent string, proxyServer string) {
 	// setupCA()
-	CdnTransport = newHTTPTransporter(cdnUrl, tel, password, userAgent, proxyServer, rootCa.RootCA)
+	CdnTransport = newHTTPTransporter(cdnUrl, tel, password, userAgent, proxyServer, rootCa.RootCA, false)
 }
 
 var DirectoryTransport *httpTransporter
 
 func SetupDirectoryTransporter(Url string, uuid string, password string, userAgent string, proxyServer string) {
 	// setupCA()
-	DirectoryTransport = newHTTPTransporter(Url, uuid, password, userAgent, proxyServer, rootCa.DirectoryCA)
+	DirectoryTransport = newHTTPTransporter(Url, uuid, password, userAgent, proxyServer, rootCa.DirectoryCA, false)
 }
 
 var StorageTransport *httpTransporter
 
 func SetupStorageTransporter(Url string, uuid string, password string, userAgent string, proxyServer string) {
 	// setupCA()
-	StorageTransport = newHTTPTransporter(Url, uuid, password, userAgent, proxyServer, rootCa.DirectoryCA)
+	StorageTransport = newHTTPTransporter(Url, uuid, password, userAgent, proxyServer, rootCa.DirectoryCA, false)
 }
 
 var ServiceTransport *httpTransporter
 
 func SetupServiceTransporter(Url string, uuid string, password string, userAgent string, proxyServer string) {
-	ServiceTransport = newHTTPTransporter(Url, uuid, password, userAgent, proxyServer, rootCa.DirectoryCA)
+	ServiceTransport = newHTTPTransporter(Url, uuid, password, userAgent, proxyServer, rootCa.DirectoryCA, false)
 }
 
 type response struct {
@@ -116,13 +117,13 @@ func NewHTTPClient() *http.Client {
 	return client
 }
 
-func newHTTPTransporter(baseURL, user, pass string, userAgent string, proxyServer string, rootCA *x509.CertPool) *httpTransporter {
+func newHTTPTransporter(baseURL, user, pass string, userAgent string, proxyServer string, rootCA *x509.CertPool, verify bool) *httpTransporter {
 	client := &http.Client{
 		Timeout: 15 * time.Second,
 		Transport: &http.Transport{
 			TLSClientConfig: &tls.Config{
 				RootCAs:            rootCA,
-				InsecureSkipVerify: true,
+				InsecureSkipVerify: !verify,
 			},
 			// Proxy:           getProxy,
 		},
-- 
2.43.0


From 198b87c8678ed0965a895b5b7181549829023639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 118/133] fix: groupsv2: limit the description of a group by
 its own limit

---
 groupsv2/groupValidator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 52fa7d8..ded3098 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -29,7 +29,7 @@ func NewGroupValidator(profileOp *zkgroup.ServerZkProfileOperations, config *con
 		profileOperations:              profileOp,
 		maxGroupSize:                   config.Group.MaxGroupSize,
 		maxGroupTitleLengthBytes:       config.Group.MaxGroupTitleLengthBytes,
-		maxGroupDescriptionLengthBytes: config.Group.MaxGroupTitleLengthBytes,
+		maxGroupDescriptionLengthBytes: config.Group.MaxGroupDescriptionLengthBytes,
 	}
 }
 
-- 
2.43.0


From f1780b67350860c0800a7cdfe91baf7bd54d06c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 119/133] fix: groupsv2: do not crash on a group without access
 rules or with missing members

---
 groupsv2/groupValidator.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index ded3098..1f11a9e 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -65,17 +65,17 @@ func (g *GroupValidator) ValidatePresentationUpdate(source *entities.GroupUser,
 }
 func (g *GroupValidator) ValidateAccessControl(group *signalservice.DecryptedGroup) error {
 
-	accessControl := group.AccessControl
+	accessControl := group.GetAccessControl()
 	list := []signalservice.AccessControl_AccessRequired{signalservice.AccessControl_MEMBER, signalservice.AccessControl_UNKNOWN, signalservice.AccessControl_ADMINISTRATOR}
-	if !IsAccessRequiredOneOf(accessControl.Attributes, list...) {
+	if !IsAccessRequiredOneOf(accessControl.GetAttributes(), list...) {
 		return errors.New("attribute access invalid")
 	}
 
-	if !IsAccessRequiredOneOf(accessControl.Members, list...) {
+	if !IsAccessRequiredOneOf(accessControl.GetMembers(), list...) {
 		return errors.New("attribute access invalid")
 	}
 
-	if !IsAccessRequiredOneOf(accessControl.AddFromInviteLink, append(list, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
+	if !IsAccessRequiredOneOf(accessControl.GetAddFromInviteLink(), append(list, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
 		return errors.New("add from invite link access invalid")
 	}
 
@@ -134,14 +134,23 @@ func (g *GroupValidator) ValidateFinalGroupState(group *signalservice.DecryptedG
 	mapPendingAdminApprovalUserIds := make(map[string]struct{})
 
 	for _, item := range group.Members {
+		if item == nil {
+			return errors.New("group cannot contain missing entries in the membership lists")
+		}
 		mapUserIds[base64.StdEncoding.EncodeToString(item.Uuid)] = struct{}{}
 	}
 
 	for _, item := range group.PendingMembers {
+		if item == nil {
+			return errors.New("group cannot contain missing entries in the membership lists")
+		}
 		mapPendingProfileKeyUserIds[base64.StdEncoding.EncodeToString(item.Uuid)] = struct{}{}
 	}
 
 	for _, item := range group.RequestingMembers {
+		if item == nil {
+			return errors.New("group cannot contain missing entries in the membership lists")
+		}
 		mapPendingAdminApprovalUserIds[base64.StdEncoding.EncodeToString(item.Uuid)] = struct{}{}
 	}
 	if len(mapUserIds) != len(group.Members) ||
-- 
2.43.0


From 6463d17e54c4cab88f36688cc15f2a1db1f61610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 120/133] fix: server: do not log the keys, the pin and the
 passwords of the account

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index e7b92f2..941e431 100644
--- a/server.go
+++ b/server.go
@@ -246,7 +246,7 @@ func verifyCode(code string, pin *string, credentials *transport.AuthCredentials
 		vd.Pin = pin
 		vd.BasicStorageCredentials = *credentials
 	}
-	log.Debugln("[textsecure] verifyCode", vd)
+	log.Debugln("[textsecure] verifyCode")
 	body, err := json.Marshal(vd)
 	if err != nil {
 		return nil, err
@@ -262,7 +262,7 @@ func verifyCode(code string, pin *string, credentials *transport.AuthCredentials
 			buf := new(bytes.Buffer)
 			buf.ReadFrom(resp.Body)
 			newStr := buf.String()
-			log.Errorln("[textsecure] verifyCode", newStr)
+			log.Errorln("[textsecure] verifyCode: the account has a registration lock")
 			v := RegistrationLockFailure{}
 			err := json.Unmarshal([]byte(newStr), &v)
 			if err != nil {
-- 
2.43.0


From b077205245c6a09ce993316dcc1cd05c934c2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 121/133] fix: handler: do not log the contents of messages

---
 handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index f44efe5..4c4f85f 100644
--- a/handler.go
+++ b/handler.go
@@ -30,12 +30,12 @@ func handleMessage(srcE164 string, srcUUID string, timestamp uint64, b []byte) e
 	} else if tm := content.GetTypingMessage(); tm != nil {
 		return handleTypingMessage(srcE164, srcUUID, timestamp, tm)
 	} else if nm := content.GetNullMessage(); nm != nil {
-		log.Errorln("[textsecure] Nullmessage content received", content)
+		log.Errorln("[textsecure] Nullmessage content received")
 		return nil
 	}
 	//FIXME get the right content
 	// log.Errorf(content)
-	log.Errorln("[textsecure] Unknown message content received", content)
+	log.Errorln("[textsecure] Unknown message content received")
 	return nil
 }
 
-- 
2.43.0


From 86ecdd7d3ed684e247104e1885770ec1e451aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 122/133] fix: crayfish: do not log profile keys and messages

---
 crayfish/avatar.go  | 2 +-
 crayfish/backend.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 965f6d9..be1e30d 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -8,7 +8,7 @@ import (
 )
 
 func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
-	log.Debugln("[textsecure-crayfish-ws] DecryptAvatar", key)
+	log.Debugln("[textsecure-crayfish-ws] DecryptAvatar")
 	messageType := CrayfishWebSocketMessage_REQUEST
 	requestType := CrayfishWebSocketRequestMessageTyp_DECRYPT_AVATAR
 	sEnc := b64.StdEncoding.EncodeToString(avatar)
diff --git a/crayfish/backend.go b/crayfish/backend.go
index abb2f8e..e1fe3d4 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -339,7 +339,7 @@ func (c *CrayfishInstance) StartWebsocket() error {
 			return err
 		}
 		if csm.Type == nil {
-			log.Errorln("[textsecure-crayfish-ws] Websocket message type is nil", string(bmsg))
+			log.Errorln("[textsecure-crayfish-ws] Websocket message type is nil")
 		} else if *csm.Type == CrayfishWebSocketMessage_REQUEST {
 			err = handleCrayfishRequestMessage(csm.Request)
 			if err != nil {
-- 
2.43.0


From 701f7abd3c2361b4802293d30c8a6b45896cd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 123/133] fix: websocket: do not log the content of a message
 that cannot be handled

---
 websocket.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/websocket.go b/websocket.go
index 48c1c87..7bf9d0e 100644
--- a/websocket.go
+++ b/websocket.go
@@ -229,7 +229,8 @@ func StartListening() error {
 						"error": err,
 					}).Error("[textsecure] Failed to create envelope")
 				} else if err = handleReceivedMessage(env); err != nil {
-					log.Debugf("[textsecure] Failed to handle received message: %+v", env)
+					// what is in it may be decrypted already
+					log.Debugf("[textsecure] Failed to handle received message: %s from %s at %d", env.GetType(), env.GetSourceUuid(), env.GetTimestamp())
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure] Failed to handle received message")
-- 
2.43.0


From 550a58f89a6b7d1ee545f1c75e9d541f6d348507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 124/133] fix: attachments: give up a download when the server
 stays silent

---
 attachments.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/attachments.go b/attachments.go
index 3883a69..268f09f 100644
--- a/attachments.go
+++ b/attachments.go
@@ -5,6 +5,7 @@ package textsecure
 
 import (
 	"bytes"
+	"context"
 	"crypto/sha256"
 	"crypto/tls"
 	"encoding/json"
@@ -13,6 +14,7 @@ import (
 	"io"
 	"net/http"
 	"strings"
+	"time"
 
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	textsecure "github.com/signal-golang/textsecure/protobuf"
@@ -20,28 +22,57 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+// Time allowed for the server to send the next part of an attachment.
+const attachmentWait = 30 * time.Second
+
+// attachmentBody is a download which is cancelled when the server stays silent
+type attachmentBody struct {
+	io.ReadCloser
+	timer  *time.Timer
+	cancel context.CancelFunc
+}
+
+// Read gives the server time for the next part
+func (b *attachmentBody) Read(p []byte) (int, error) {
+	b.timer.Reset(attachmentWait)
+	return b.ReadCloser.Read(p)
+}
+
+// Close ends the download
+func (b *attachmentBody) Close() error {
+	b.timer.Stop()
+	b.cancel()
+	return b.ReadCloser.Close()
+}
+
 // getAttachment downloads an encrypted attachment blob from the given URL
 func getAttachment(url string) (io.ReadCloser, error) {
 	customTransport := http.DefaultTransport.(*http.Transport).Clone()
 	customTransport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
 	c := &http.Client{Transport: customTransport}
-	req, err := http.NewRequest("GET", url, nil)
+	ctx, cancel := context.WithCancel(context.Background())
+	req, err := http.NewRequestWithContext(ctx, "GET", url, nil)
 	if err != nil {
+		cancel()
 		return nil, err
 	}
+	timer := time.AfterFunc(attachmentWait, cancel)
 	req.Header.Add("Host", SERVICE_REFLECTOR_HOST)
 	req.Header.Add("Content-Type", "application/octet-stream")
 
 	resp, err := c.Do(req)
 	if err != nil {
+		timer.Stop()
+		cancel()
 		return nil, err
 	}
+	body := &attachmentBody{ReadCloser: resp.Body, timer: timer, cancel: cancel}
 	if resp.StatusCode < 200 || resp.StatusCode >= 300 {
-		resp.Body.Close()
+		body.Close()
 		return nil, fmt.Errorf("downloading attachment: status code %d", resp.StatusCode)
 	}
 
-	return resp.Body, nil
+	return body, nil
 }
 
 // putAttachment uploads an encrypted attachment to the given relative URL using the CdnTransport
-- 
2.43.0


From 5d50f9b26438a928cc8ef8dbfaed4277b05bbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 125/133] fix: websocket: give up connecting when the server
 stays silent

---
 websocket.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/websocket.go b/websocket.go
index 7bf9d0e..08ab952 100644
--- a/websocket.go
+++ b/websocket.go
@@ -22,6 +22,9 @@ const (
 	// Time allowed to write a message to the peer.
 	writeWait = 25 * time.Second
 
+	// Time allowed to connect to the peer.
+	handshakeWait = 30 * time.Second
+
 	// Time allowed to read the next pong message from the peer.
 	pongWait = 60 * time.Second
 
@@ -66,10 +69,13 @@ func (c *Conn) connect(originURL, user, pass string) error {
 	// log.Debugf("Websocket Connecting to %s with user %s and pass %s", originURL, user, pass)
 
 	d := &websocket.Dialer{
-		ReadBufferSize:  1024,
-		WriteBufferSize: 1024,
+		ReadBufferSize:   1024,
+		WriteBufferSize:  1024,
+		HandshakeTimeout: handshakeWait,
+	}
+	d.NetDial = func(network, addr string) (net.Conn, error) {
+		return net.DialTimeout(network, u.Host, handshakeWait)
 	}
-	d.NetDial = func(network, addr string) (net.Conn, error) { return net.Dial(network, u.Host) }
 	d.TLSClientConfig = &tls.Config{
 		RootCAs: rootCa.RootCA,
 	}
-- 
2.43.0


From c864376d4e6b6df2c2927d951d55c4cbc1c406ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 126/133] fix: crayfish: give up connecting when the helper
 stays silent

---
 crayfish/backend.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crayfish/backend.go b/crayfish/backend.go
index e1fe3d4..6b3b93f 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -46,6 +46,9 @@ const (
 	// Time allowed to write a message to the peer.
 	writeWait = 25 * time.Second
 
+	// Time allowed to connect to the peer.
+	handshakeWait = 30 * time.Second
+
 	// Time allowed to read the next pong message from the peer.
 	pongWait = 60 * time.Second
 
@@ -207,10 +210,13 @@ func (c *Conn) connect(originURL string) error {
 
 	var err error
 	d := &websocket.Dialer{
-		ReadBufferSize:  1024,
-		WriteBufferSize: 1024,
+		ReadBufferSize:   1024,
+		WriteBufferSize:  1024,
+		HandshakeTimeout: handshakeWait,
+	}
+	d.NetDial = func(network, addr string) (net.Conn, error) {
+		return net.DialTimeout(network, u.Host, handshakeWait)
 	}
-	d.NetDial = func(network, addr string) (net.Conn, error) { return net.Dial(network, u.Host) }
 	d.TLSClientConfig = &tls.Config{
 		RootCAs: rootCa.RootCA,
 	}
-- 
2.43.0


From 036e95c5bf74f5fc962b2c50566cabefe2e44af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 127/133] fix: contacts: guard the contacts against use from
 several goroutines

---
 contacts/contacts.go | 50 +++++++++++++++++++++++++++++++++++++---
 groups.go            |  2 +-
 profiles/profile.go  | 54 ++++++++++++++++++++++----------------------
 server.go            |  8 +++----
 4 files changed, 79 insertions(+), 35 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 0f6a548..bea2af8 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -5,6 +5,7 @@ package contacts
 
 import (
 	"os"
+	"sync"
 
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/utils"
@@ -48,10 +49,14 @@ type yamlContacts struct {
 var (
 	contactsFile string
 	Contacts     = map[string]Contact{}
+	// mutex guards Contacts and their file
+	mutex sync.Mutex
 )
 
 // LoadContacts reads a YAML contacts file
 func LoadContacts(contactsYaml *yamlContacts) {
+	mutex.Lock()
+	defer mutex.Unlock()
 	for _, c := range contactsYaml.Contacts {
 		if c.UUID != "" && c.UUID != "0" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
 			Contacts[c.UUID] = c
@@ -68,7 +73,9 @@ var filePath string
 func ReadContacts(fileName string) ([]Contact, error) {
 	log.Debug("[textsecure] read contacts from ", fileName)
 	b, err := os.ReadFile(fileName)
+	mutex.Lock()
 	filePath = fileName
+	mutex.Unlock()
 	contactsYaml := &yamlContacts{}
 	if err != nil {
 		log.Debugln("[textsecure] ReadContacts: there is no contact file", err)
@@ -97,6 +104,12 @@ func WriteContacts(filename string, contacts []Contact) error {
 
 // WriteContactsToPath saves a list of contacts to a file at the standard location
 func WriteContactsToPath() error {
+	mutex.Lock()
+	defer mutex.Unlock()
+	return writeContactsToPath()
+}
+
+func writeContactsToPath() error {
 	log.Debugln("[textsecure] write contacts to path ", filePath)
 	c := contactsToYaml()
 	b, err := yaml.Marshal(c)
@@ -129,6 +142,8 @@ func updateContact(c *signalservice.ContactDetails) error {
 	// }
 	// avatar, _ := io.ReadAll(buf)
 
+	mutex.Lock()
+	defer mutex.Unlock()
 	Contacts[c.GetUuid()] = Contact{
 		Tel:  c.GetNumber(),
 		UUID: c.GetUuid(),
@@ -144,7 +159,7 @@ func updateContact(c *signalservice.ContactDetails) error {
 		Archived:      c.GetArchived(),
 	}
 	// log.Debugln("[textsecure] avatar", c.GetAvatar())
-	return WriteContactsToPath()
+	return writeContactsToPath()
 }
 
 func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice.DataMessage_Contact, error) {
@@ -162,10 +177,12 @@ func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice
 
 func UpdateProfileKey(src string, profileKey []byte) error {
 	log.Println("[textsecure] update profile key", src)
+	mutex.Lock()
+	defer mutex.Unlock()
 	if contact, ok := Contacts[src]; ok {
 		contact.ProfileKey = profileKey
 		Contacts[src] = contact
-		return WriteContactsToPath()
+		return writeContactsToPath()
 	}
 	// create new contact
 	Contacts[src] = Contact{
@@ -173,10 +190,37 @@ func UpdateProfileKey(src string, profileKey []byte) error {
 		Name:       src,
 		ProfileKey: profileKey,
 	}
-	return WriteContactsToPath()
+	return writeContactsToPath()
 
 }
 
 func GetContact(uuid string) Contact {
+	mutex.Lock()
+	defer mutex.Unlock()
 	return Contacts[uuid]
 }
+
+// GetContacts returns all contacts
+func GetContacts() []Contact {
+	mutex.Lock()
+	defer mutex.Unlock()
+	return contactsToYaml().Contacts
+}
+
+// ReplaceContacts sets all contacts and writes them to the standard location
+func ReplaceContacts(contacts map[string]Contact) error {
+	mutex.Lock()
+	defer mutex.Unlock()
+	Contacts = contacts
+	return writeContactsToPath()
+}
+
+// UpdateContact changes a contact as it is now, and returns what it has become
+func UpdateContact(uuid string, change func(c *Contact)) (Contact, error) {
+	mutex.Lock()
+	defer mutex.Unlock()
+	c := Contacts[uuid]
+	change(&c)
+	Contacts[uuid] = c
+	return c, writeContactsToPath()
+}
diff --git a/groups.go b/groups.go
index 9f6f25b..cfc97b6 100644
--- a/groups.go
+++ b/groups.go
@@ -200,7 +200,7 @@ type groupMessage struct {
 }
 
 func GetContactForTel(tel string) *contacts.Contact {
-	for _, c := range contacts.Contacts {
+	for _, c := range contacts.GetContacts() {
 		if c.Tel == tel {
 			return &c
 		}
diff --git a/profiles/profile.go b/profiles/profile.go
index a65bdcc..4cfd5dc 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -381,7 +381,6 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	buf := new(bytes.Buffer)
 	buf.ReadFrom(avatar)
 
-	c := contacts.Contacts[profile.UUID]
 	avatarDecrypted, err := decryptAvatar(buf.Bytes(), []byte(profile.IdentityKey))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
@@ -390,19 +389,19 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
 	}
-	c.Name = profile.Name
-	c.UUID = profile.UUID
-	c.HasAvatar = true
-	c.AvatarImg = avatarDecrypted
-	contacts.Contacts[c.UUID] = c
-	contacts.WriteContactsToPath()
+	c, _ := contacts.UpdateContact(profile.UUID, func(c *contacts.Contact) {
+		c.Name = profile.Name
+		c.UUID = profile.UUID
+		c.HasAvatar = true
+		c.AvatarImg = avatarDecrypted
+	})
 	return c, nil
 }
 
 // GetProfileUUID get a profile by a phone number
 func GetProfileUUID(uuid string) (*Profile, error) {
 	log.Debugln("[textsecure] GetProfileUUID", uuid)
-	c := contacts.Contacts[uuid]
+	c := contacts.GetContact(uuid)
 	profile := &Profile{}
 	var err error
 	if len(c.ProfileKey) > 0 {
@@ -473,25 +472,26 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 
 	// without the profile key the texts are still encrypted
 	readable := len(c.ProfileKey) > 0
-	if readable {
-		c.Username = profile.Name
-	}
-	if readable && c.Name == "" {
-		c.Name = profile.Name
-	}
-	c.UUID = uuid
-	if profile.Avatar != "" {
-		c.HasAvatar = true
-		c.AvatarImg = avatarDecrypted
-	}
-	if readable && profile.About != "" {
-		c.About = profile.About
-	}
-	if readable && profile.AboutEmoji != "" {
-		c.AboutEmoji = profile.AboutEmoji
-	}
-	contacts.Contacts[c.UUID] = c
-	err = contacts.WriteContactsToPath()
+	// what came in since the profile was asked for stays
+	_, err = contacts.UpdateContact(uuid, func(c *contacts.Contact) {
+		if readable {
+			c.Username = profile.Name
+		}
+		if readable && c.Name == "" {
+			c.Name = profile.Name
+		}
+		c.UUID = uuid
+		if profile.Avatar != "" {
+			c.HasAvatar = true
+			c.AvatarImg = avatarDecrypted
+		}
+		if readable && profile.About != "" {
+			c.About = profile.About
+		}
+		if readable && profile.AboutEmoji != "" {
+			c.AboutEmoji = profile.AboutEmoji
+		}
+	})
 	if err != nil {
 		return nil, err
 	}
diff --git a/server.go b/server.go
index 941e431..9744662 100644
--- a/server.go
+++ b/server.go
@@ -709,7 +709,7 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 		return nil, fmt.Errorf("contact discovery answered with %d bytes for %d numbers", len(responseData), len(tokens))
 	}
 
-	contacts.Contacts = map[string]contacts.Contact{}
+	all := map[string]contacts.Contact{}
 	for _, phone := range tokens {
 
 		UUID := idToHexUUID(responseData[ind*uuidlength : (ind+1)*uuidlength])
@@ -727,15 +727,15 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 			// add registered contact by UUID
 			localContacts[index].Registered = true
 			// add registered contact by UUID
-			contacts.Contacts[localContacts[index].UUID] = localContacts[index]
+			all[localContacts[index].UUID] = localContacts[index]
 		} else {
 			localContacts[index].Registered = false
 			// add unregistered contacts by phone number
-			contacts.Contacts[localContacts[index].Tel] = localContacts[index]
+			all[localContacts[index].Tel] = localContacts[index]
 		}
 		ind++
 	}
-	err = contacts.WriteContactsToPath()
+	err = contacts.ReplaceContacts(all)
 	if err != nil {
 		log.Debugln("[textsecure] writing contacts failed", err)
 	}
-- 
2.43.0


From b3354192893e6d4abce2e603f0fee14c22d58260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 128/133] fix: groups: guard the groups against use from
 several goroutines

---
 groups.go | 60 ++++++++++++++++++++++++++++++++++++++++++++++---------
 sync.go   |  2 +-
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/groups.go b/groups.go
index cfc97b6..5a7dad8 100644
--- a/groups.go
+++ b/groups.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 
 	log "github.com/sirupsen/logrus"
@@ -37,8 +38,30 @@ type Group struct {
 var (
 	groupDir string
 	groups   = map[string]*Group{}
+	// groupsMutex guards groups and their files. A group in there does not change any more,
+	// it is replaced.
+	groupsMutex sync.Mutex
 )
 
+// findGroup returns a group by its id
+func findGroup(hexid string) (*Group, bool) {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	g, ok := groups[hexid]
+	return g, ok
+}
+
+// allGroups returns all groups
+func allGroups() []*Group {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	all := make([]*Group, 0, len(groups))
+	for _, g := range groups {
+		all = append(all, g)
+	}
+	return all
+}
+
 // idToHex returns the hex representation of the group id byte-slice
 // to be used as both keys in the map and for naming the files.
 func idToHex(id []byte) string {
@@ -53,7 +76,7 @@ func idToPath(hexid string) string {
 // FIXME: for now using unencrypted YAML files for group state,
 // should be definitely encrypted and maybe another format.
 
-// saveGroup stores a group's state in a file.
+// saveGroup stores a group's state in a file, groupsMutex is held.
 func saveGroup(hexid string) error {
 	log.Debugln("[textsecure] save groupv1 ", hexid)
 	b, err := yaml.Marshal(groups[hexid])
@@ -67,6 +90,8 @@ func saveGroup(hexid string) error {
 // loadGroup loads a group's state from a file.
 func loadGroup(path string) error {
 	_, hexid := filepath.Split(path)
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	b, err := os.ReadFile(path)
 	if err != nil {
 		return err
@@ -83,6 +108,8 @@ func loadGroup(path string) error {
 
 // RemoveGroupKey removes the group key
 func RemoveGroupKey(hexid string) error {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	err := os.Remove(config.ConfigFile.StorageDir + "/groups/" + hexid)
 	if err != nil {
 		return err
@@ -142,6 +169,8 @@ func updateGroup(gr *signalservice.GroupContext) error {
 		buf.ReadFrom(r)
 	}
 
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	groups[hexid] = &Group{
 		ID:      gr.GetId(),
 		Hexid:   hexid,
@@ -163,12 +192,16 @@ func (err UnknownGroupIDError) Error() string {
 
 // quitGroup removes a quitting member from the local group state.
 func quitGroup(src string, hexid string) error {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	gr, ok := groups[hexid]
 	if !ok {
 		return UnknownGroupIDError{hexid}
 	}
 
-	gr.Members = removeMember(src, gr.Members)
+	left := *gr
+	left.Members = removeMember(src, append([]string{}, gr.Members...))
+	groups[hexid] = &left
 
 	return saveGroup(hexid)
 }
@@ -268,7 +301,7 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 func sendGroupHelper(hexid string, msg string, attachmentPointer *attachmentPointerV3, timer uint32) (uint64, error) {
 	var ts uint64
 	var err error
-	g, ok := groups[hexid]
+	g, ok := findGroup(hexid)
 	if !ok {
 		log.Infoln("[textsecure] sendGroupHelper unknown group id")
 		ts, err = sendGroupV2Helper(hexid, msg, attachmentPointer, timer)
@@ -357,6 +390,8 @@ func newGroupID() []byte {
 
 func newPartlyGroup(id []byte) (*Group, error) {
 	hexid := idToHex(id)
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	groups[hexid] = &Group{
 		ID:      id,
 		Hexid:   hexid,
@@ -386,20 +421,23 @@ func groupMembers(members []string) []string {
 }
 
 func changeGroup(hexid, name string, members []string) (*Group, error) {
-	g, ok := groups[hexid]
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	old, ok := groups[hexid]
 	if !ok {
 		return nil, UnknownGroupIDError{hexid}
 	}
 
-	old := *g
+	g := *old
 	g.Name = name
 	g.Members = groupMembers(members)
+	groups[hexid] = &g
 	if err := saveGroup(hexid); err != nil {
-		*g = old
+		groups[hexid] = old
 		return nil, err
 	}
 
-	return g, nil
+	return &g, nil
 }
 
 func sendUpdate(g *Group) error {
@@ -428,6 +466,8 @@ func newGroup(name string, members []string) (*Group, error) {
 	id := newGroupID()
 	hexid := idToHex(id)
 	log.Debugln("[textsecure] create new group v1 ", hexid)
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	groups[hexid] = &Group{
 		ID:      id,
 		Hexid:   hexid,
@@ -495,6 +535,8 @@ func UpdateGroup(hexid, name string, members []string) (*Group, error) {
 
 func removeGroup(id []byte) error {
 	hexid := idToHex(id)
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	err := os.Remove(idToPath(hexid))
 	if err != nil {
 		return err
@@ -505,7 +547,7 @@ func removeGroup(id []byte) error {
 
 // GetGroupById returns a group by it's id
 func GetGroupById(hexID string) (*Group, error) {
-	g, ok := groups[hexID]
+	g, ok := findGroup(hexID)
 	if !ok {
 		return nil, UnknownGroupIDError{hexID}
 	}
@@ -514,7 +556,7 @@ func GetGroupById(hexID string) (*Group, error) {
 
 // LeaveGroup sends a group quit message to the other members of the given group.
 func LeaveGroup(hexid string) error {
-	g, ok := groups[hexid]
+	g, ok := findGroup(hexid)
 	if !ok {
 		return UnknownGroupIDError{hexid}
 	}
diff --git a/sync.go b/sync.go
index 38563aa..b1d3339 100644
--- a/sync.go
+++ b/sync.go
@@ -232,7 +232,7 @@ func sendGroupUpdate() error {
 
 	var buf bytes.Buffer
 
-	for _, g := range groups {
+	for _, g := range allGroups() {
 		gd := &signalservice.GroupDetails{
 			Id:          g.ID,
 			Name:        &g.Name,
-- 
2.43.0


From 3749dfc108adc73a718e1fcafc0c15109b5d9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:45 +0000
Subject: [PATCH 129/133] fix: groupsv2: guard the groups against use from
 several goroutines

---
 groupsv2/createGroupChange.go |  5 ++-
 groupsv2/credentials.go       |  8 ++++
 groupsv2/groupsv2.go          | 78 ++++++++++++++++++++++++++++-------
 groupsv2/groupsv2api.go       |  2 +-
 groupsv2/helpers.go           |  5 ++-
 5 files changed, 79 insertions(+), 19 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 17d41aa..280f75f 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -24,9 +24,10 @@ func randBytes(data []byte) {
 }
 func createGroupContextForGroup(hexid string) *signalservice.GroupContextV2 {
 	var revision uint32
-	revision = groupsV2[hexid].GroupContext.Revision + 1
+	group := knownGroup(hexid)
+	revision = group.GroupContext.Revision + 1
 	return &signalservice.GroupContextV2{
-		MasterKey: groupsV2[hexid].MasterKey,
+		MasterKey: group.MasterKey,
 		Revision:  &revision,
 	}
 }
diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index afca9dc..ea935fe 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"sync"
 	"time"
 
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -32,12 +33,17 @@ type GroupExternalCredential struct {
 
 var Credentials *GroupCredentials
 
+// credentialsMutex guards Credentials
+var credentialsMutex sync.Mutex
+
 func getToday() int64 {
 	return time.Now().UnixNano() / int64(time.Millisecond) / (1000 * 60 * 60 * 24)
 }
 
 // storedCredential returns the credential of the given day, if we have it.
 func storedCredential(day int64) *GroupCredential {
+	credentialsMutex.Lock()
+	defer credentialsMutex.Unlock()
 	if Credentials == nil {
 		return nil
 	}
@@ -90,6 +96,8 @@ func GetGroupAuthCredentials(startDay int64, endDay int64) error {
 	if err := dec.Decode(&response); err != nil {
 		return err
 	}
+	credentialsMutex.Lock()
+	defer credentialsMutex.Unlock()
 	Credentials = &response
 	return nil
 }
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 857b236..77fc14d 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -9,6 +9,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"sync"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -40,6 +41,12 @@ var (
 	groupURLPrefix = "https://" + groupURLHost + "/#"
 	groupV2Dir     string
 	groupsV2       = map[string]*GroupV2{}
+	// groupsMutex guards groupsV2 and the files. A group in there does not change any more,
+	// everyone gets a copy.
+	groupsMutex sync.Mutex
+	// updateMutex makes the updates from the server happen one after another,
+	// so that none is overwritten by an earlier one.
+	updateMutex sync.Mutex
 )
 
 // errNotInGroup is returned when the server says that we are not in a group
@@ -58,6 +65,45 @@ type GroupV2 struct {
 	AnnouncementsOnly bool
 }
 
+// copy returns a copy of the group, which may be changed
+func (g *GroupV2) copy() *GroupV2 {
+	group := &GroupV2{}
+	group.set(g)
+	return group
+}
+
+// set makes the group a copy of another
+func (g *GroupV2) set(from *GroupV2) {
+	g.MasterKey = from.MasterKey
+	g.Hexid = from.Hexid
+	proto.Reset(&g.GroupContext)
+	proto.Merge(&g.GroupContext, &from.GroupContext)
+	g.cipher = from.cipher
+	g.DecryptedGroup = from.DecryptedGroup
+	g.GroupAction = from.GroupAction
+	g.JoinStatus = from.JoinStatus
+	g.Revision = from.Revision
+	g.AnnouncementsOnly = from.AnnouncementsOnly
+}
+
+// knownGroup returns a copy of a group that was loaded or stored before, or nil
+func knownGroup(hexid string) *GroupV2 {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	if group := groupsV2[hexid]; group != nil {
+		return group.copy()
+	}
+	return nil
+}
+
+// storeGroup keeps a copy of the group and saves it
+func storeGroup(hexid string, group *GroupV2) error {
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
+	groupsV2[hexid] = group.copy()
+	return saveGroupV2(hexid)
+}
+
 // idToHex returns the hex representation of the group id byte-slice
 // to be used as both keys in the map and for naming the files.
 func idToHex(id []byte) string {
@@ -106,7 +152,7 @@ func createAcceptInviteChange() {
 
 }
 func FindGroup(hexid string) *GroupV2 {
-	if group, ok := groupsV2[hexid]; ok {
+	if group := knownGroup(hexid); group != nil {
 		return group
 	}
 	group, err := loadGroupV2(hexid)
@@ -209,12 +255,14 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 }
 func (g *GroupV2) UpdateGroupFromServer() error {
 	log.Debugln("[textsecure][groupsv2] update group from server")
+	updateMutex.Lock()
+	defer updateMutex.Unlock()
 	hexid := idToHex(g.MasterKey)
-	group := &GroupV2{
-		MasterKey: g.MasterKey,
-	}
-	if groupsV2[hexid] != nil {
-		group = groupsV2[hexid]
+	group := knownGroup(hexid)
+	if group == nil {
+		group = &GroupV2{
+			MasterKey: g.MasterKey,
+		}
 	}
 	// decryptedGroupChange, err := getDecryptedGroupChange(signedGroupChange, groupSecretParams)
 	// if err != nil {
@@ -222,10 +270,10 @@ func (g *GroupV2) UpdateGroupFromServer() error {
 	// }
 	groupFromServer, err := group.queryGroupChangeFromServer()
 	if err == errNotInGroup && group.removeOurselves() {
-		groupsV2[hexid] = group
-		if serr := saveGroupV2(hexid); serr != nil {
+		if serr := storeGroup(hexid, group); serr != nil {
 			log.Errorln("[textsecure][groupsv2] save group", serr)
 		}
+		g.set(group)
 	}
 	if err != nil {
 		return err
@@ -235,10 +283,9 @@ func (g *GroupV2) UpdateGroupFromServer() error {
 		log.Debugln("[textsecure][groupsv2] decryptGroupFromServer", err)
 		return err
 	}
-	groupsV2[hexid] = group
-	saveGroupV2(hexid)
+	storeGroup(hexid, group)
 	log.Debugln("[textsecure][groupsv2] update group from server")
-	g = group
+	g.set(group)
 
 	return nil
 }
@@ -278,8 +325,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			Revision:  groupContext.GetRevision(),
 		}
 		// TODO: get members from server
-		groupsV2[hexid] = group
-		err = saveGroupV2(hexid)
+		err = storeGroup(hexid, group)
 		if err != nil {
 			log.Error("[textsecure][groupsv2] handle groupv2 save", err)
 		}
@@ -373,7 +419,7 @@ func decryptUuidOrUnknown(uuidCipherTex []byte) *[]byte {
 	return nil
 }
 
-// saveGroup stores a group's state in a file.
+// saveGroup stores a group's state in a file, groupsMutex is held.
 func saveGroupV2(hexid string) error {
 	b, err := yaml.Marshal(groupsV2[hexid])
 	if err != nil {
@@ -386,6 +432,8 @@ func saveGroupV2(hexid string) error {
 // loadGroup loads a group's state from a file.
 func loadGroupV2(hexid string) (*GroupV2, error) {
 	path := idToPath(hexid)
+	groupsMutex.Lock()
+	defer groupsMutex.Unlock()
 	b, err := os.ReadFile(path)
 	if err != nil {
 		return nil, fmt.Errorf("group not found %s %s", err.Error(), path)
@@ -397,7 +445,7 @@ func loadGroupV2(hexid string) (*GroupV2, error) {
 		return nil, err
 	}
 	groupsV2[hexid] = group
-	return group, nil
+	return group.copy(), nil
 }
 
 // idToPath returns the path of the file for storing a group's state
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 9e68b88..dd20961 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -16,7 +16,7 @@ type GroupsV2Authorization struct {
 }
 
 func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Authorization, error) {
-	group := groupsV2[hexid]
+	group := knownGroup(hexid)
 	groupSecretParams, err := zkgroup.NewGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
diff --git a/groupsv2/helpers.go b/groupsv2/helpers.go
index 7406660..6714cbe 100644
--- a/groupsv2/helpers.go
+++ b/groupsv2/helpers.go
@@ -6,6 +6,7 @@ import (
 	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
+	"google.golang.org/protobuf/proto"
 )
 
 // todo handle group join requests via link
@@ -48,7 +49,9 @@ func (g *GroupV2) removeOurselves() bool {
 	for i, m := range g.DecryptedGroup.Members {
 		if helpers.HexToUUID(idToHex(m.Uuid)) == config.ConfigFile.UUID {
 			members := append([]*signalservice.DecryptedMember{}, g.DecryptedGroup.Members[:i]...)
-			g.DecryptedGroup.Members = append(members, g.DecryptedGroup.Members[i+1:]...)
+			group := proto.Clone(g.DecryptedGroup).(*signalservice.DecryptedGroup)
+			group.Members = append(members, g.DecryptedGroup.Members[i+1:]...)
+			g.DecryptedGroup = group
 			g.CheckJoinStatus()
 			return true
 		}
-- 
2.43.0


From 801010ee492fdbbd90c1977f87053fcc28667944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:22 +0000
Subject: [PATCH 130/133] fix: store: a session that is ended while it is used
 does not come back

---
 store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store.go b/store.go
index d5fc7fd..78061b1 100644
--- a/store.go
+++ b/store.go
@@ -494,11 +494,16 @@ func (s *store) ContainsSession(recipientID string, deviceID uint32) bool {
 }
 
 func (s *store) DeleteSession(recipientID string, deviceID uint32) {
+	// whoever uses the session at the moment would store it again
+	s.Lock()
+	defer s.Unlock()
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	_ = os.Remove(sfile)
 }
 
 func (s *store) DeleteAllSessions(recipientID string) {
+	s.Lock()
+	defer s.Unlock()
 	log.Debugf("Deleting all sessions for %s\n", recipientID)
 	sessions := s.GetSubDeviceSessions(recipientID)
 	for _, dev := range sessions {
-- 
2.43.0


From 94ea2d8c5bb86241809e3b088135a3635702fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 131/133] fix: sending: make a new session when it is ended in
 the meantime

---
 server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 9744662..52f3f50 100644
--- a/server.go
+++ b/server.go
@@ -847,7 +847,8 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 		return nil, err
 	}
 	messages := []jsonMessage{}
-	for _, devid := range devices {
+	for i := 0; i < len(devices); i++ {
+		devid := devices[i]
 		if !textSecureStore.ContainsSession(recid, devid) {
 			pkb, err := makePreKeyBundle(reciever, devid)
 			if err != nil {
@@ -861,6 +862,11 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 		}
 		sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, devid)
 		encryptedMessage, messageType, err := sc.SessionEncryptMessage(paddedMessage)
+		if err == axolotl.ErrUninitializedSession && !textSecureStore.ContainsSession(recid, devid) {
+			// the session was ended in the meantime, another one is needed
+			i--
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4957a3989fd2f0f786644635fa7035f0113e4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:37 +0000
Subject: [PATCH 132/133] fix: an attachment whose source fails at its
 beginning is not sent as if it were whole

---
 textsecure.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/textsecure.go b/textsecure.go
index 4bddfd2..2052105 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -144,11 +144,24 @@ func SendMessage(uuid, msg string, timer uint32) (uint64, error) {
 // MIMETypeFromReader returns the mime type that is inside the reader
 func MIMETypeFromReader(r io.Reader) (mime string, reader io.Reader) {
 	var buf bytes.Buffer
-	io.CopyN(&buf, r, 1024)
+	_, err := io.CopyN(&buf, r, 1024)
 	mime = mimemagic.Match("", buf.Bytes())
+	if err != nil {
+		// the reader has ended, or failed, which it need not do again
+		return mime, io.MultiReader(&buf, &endReader{err})
+	}
 	return mime, io.MultiReader(&buf, r)
 }
 
+// endReader is what remains of a reader that has ended with an error
+type endReader struct {
+	err error
+}
+
+func (r *endReader) Read([]byte) (int, error) {
+	return 0, r.err
+}
+
 // SendAttachment sends the contents of a reader, along
 // with an optional message to a given contact.
 func SendAttachment(uuid string, msg string, r io.Reader, timer uint32) (uint64, error) {
-- 
2.43.0


From 2a1d765e167d446a4a8096a9971f1cedd6cbf915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:16 +0000
Subject: [PATCH 133/133] fix: sending: the session that was ended in the
 meantime may be there again

---
 server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 52f3f50..1aa176b 100644
--- a/server.go
+++ b/server.go
@@ -847,6 +847,7 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 		return nil, err
 	}
 	messages := []jsonMessage{}
+	ended := 0
 	for i := 0; i < len(devices); i++ {
 		devid := devices[i]
 		if !textSecureStore.ContainsSession(recid, devid) {
@@ -862,8 +863,9 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 		}
 		sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, devid)
 		encryptedMessage, messageType, err := sc.SessionEncryptMessage(paddedMessage)
-		if err == axolotl.ErrUninitializedSession && !textSecureStore.ContainsSession(recid, devid) {
+		if err == axolotl.ErrUninitializedSession && ended < maxSendAttempts {
 			// the session was ended in the meantime, another one is needed
+			ended++
 			i--
 			continue
 		}
-- 
2.43.0

