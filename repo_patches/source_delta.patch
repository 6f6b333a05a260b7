From b1fb07000605a4f21c3bd7c7a9c7148fe9171b49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 01/13] fix: reject signal messages too short to hold a version
 byte and a MAC

NewSignalFromBytes sliced bytes[1:len(bytes)-macSize] after only checking the
input was non-empty, so any 1 to 8 byte input starting with a valid version
nibble panicked.
---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From 98de8f7225679a07b83c3bf062264d15213162f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 02/13] fix: do not panic when verifying a signature of the
 wrong length

curve25519.VerifySignature indexed signature[63] without checking its length.
---
 protocol/curve/curve25519/curve25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..41106f9 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -188,6 +188,10 @@ func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error)
 //
 // It is expected the given public key is Montgomery u-point.
 func VerifySignature(publicKey []byte, signature []byte, messages ...[]byte) (bool, error) {
+	if len(signature) != SignatureSize {
+		return false, nil
+	}
+
 	y, err := utoy(publicKey, (signature[63]&0b1000_0000) == 0)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 6aa014edc90b6eb64d81c826d1aff7790481af04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 03/13] fix: report failed decryption of signal messages

decryptSignal overwrote the error from decryptMessage, so a forged, corrupted,
duplicate or undecryptable message was reported as a success with a nil
plaintext (and the session was stored).
---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..8e84633 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From 7c4e5a45958d44b11e5f4db6c784c3a92920f83c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:18 +0000
Subject: [PATCH 04/13] fix: advance the receiving chain past the message being
 decrypted

The chain key of the latest received message stayed in the session, so that
message could be decrypted again (replay) and its keys were recoverable from
the stored session.
---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 8e84633..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -416,7 +416,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From 54464d266304935e989e5271ee3dbabb6e631bd6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 05/13] fix: return an error when a pre-key message cannot set
 up a session

A pre-key message naming an unknown signed pre-key, or carrying a low-order
base key, made the receiver dereference a nil pointer.
---
 protocol/session/session.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..e141781 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -69,16 +69,16 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
-	var ourSignedPreKeyPair *curve.KeyPair
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, errors.New("signed pre-key not found")
+	}
+	ourSignedPreKeyPair, err := ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
@@ -107,6 +107,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
@@ -307,6 +310,9 @@ func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
 	}
 
 	rootKey, chainKey, err := ratchet.DeriveKeys(secrets.Bytes())
+	if err != nil {
+		return nil, err
+	}
 
 	session := NewState(&v1.SessionStructure{
 		SessionVersion:       message.CiphertextVersion,
-- 
2.43.0


From 9e7506f10254a9817c299883b6fc3988356e64da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 06/13] fix: do not pad into the caller's plaintext buffer

pkcs7pad appended to the given slice, so encrypting buf[:n] overwrote the
caller's bytes after n whenever buf had spare capacity.
---
 protocol/crypto/aes/aes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..3295a39 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,10 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	padded := make([]byte, 0, len(plaintext)+n)
+	padded = append(padded, plaintext...)
+
+	return append(padded, bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From 2a9e05d5370c89ee61bf8d73e43de631b014747d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 07/13] fix: reject plaintexts whose PKCS #7 padding is
 malformed

Only the last byte was looked at, so a plaintext whose other padding bytes
were arbitrary was accepted and silently shortened.
---
 protocol/crypto/aes/aes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 3295a39..893b59c 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -77,7 +77,10 @@ func pkcs7unpad(plaintext []byte) ([]byte, error) {
 	length := len(plaintext)
 	n := int(plaintext[length-1])
 
-	if n < 1 || n > aes.BlockSize {
+	if n < 1 || n > aes.BlockSize || n > length {
+		return nil, errors.New("invalid padding")
+	}
+	if !bytes.Equal(plaintext[length-n:], bytes.Repeat([]byte{byte(n)}, n)) {
 		return nil, errors.New("invalid padding")
 	}
 
-- 
2.43.0


From de7957c08a182891a7c9e4a54fe86eb4beaef1ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 08/13] fix: compare identity keys by value when reporting a
 replaced identity

The in-memory store compared the keys' pointers, so storing the identity it
already had was reported as a change.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From e74e1af834b131240115590ee209b865e6f41858 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 09/13] fix: only store the identity of an authenticated
 pre-key message

The identity key named by a pre-key message was stored, and so trusted, before
the message was decrypted: a forged first message pinned an identity nobody
had proven to own, and the genuine sender was then rejected as untrusted.
---
 protocol/session/cipher.go  |  5 +++++
 protocol/session/session.go | 14 +++-----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..7e9816c 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,11 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	if err != nil {
+		return nil, err
+	}
+
 	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
 	if err != nil {
 		return nil, err
diff --git a/protocol/session/session.go b/protocol/session/session.go
index e141781..0e3a000 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -35,6 +35,8 @@ type Session struct {
 //
 // This method returns the one-time pre-key used by "Alice" when sending the initial message,
 // if one was used.
+//
+// The sender's identity key is not stored, as the message is not authenticated here.
 func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
 	theirIdentityKey := message.IdentityKey()
 
@@ -46,17 +48,7 @@ func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *me
 		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
-	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
-	if err != nil {
-		return nil, err
-	}
-
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
-	if err != nil {
-		return nil, err
-	}
-
-	return unsignedPreKeyID, nil
+	return s.processPreKeyV3(ctx, record, message)
 }
 
 func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-- 
2.43.0


From d7baecc89fca68b11ad2d17f901ac0a3ff89e514 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 10/13] fix: stop at the first archived session which decrypts
 a message

The break only left the switch: the remaining archived sessions were still
tried after a success, and a duplicate reported by one of them discarded the
decrypted message.
---
 protocol/session/cipher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 7e9816c..e74bf57 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -247,6 +247,7 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 
 	var state *updatedState
 
+tryPrevious:
 	for i, previous := range previousStates {
 		plaintext, err := s.decryptMessageSession(random, previous, ciphertext)
 		switch {
@@ -257,7 +258,7 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 				state:     previous,
 				plaintext: plaintext,
 			}
-			break
+			break tryPrevious
 		case errors.Is(err, perrors.ErrDuplicateMessage):
 			return nil, err
 		default:
-- 
2.43.0


From 22fcd4c9597ddc0789d047d5b218bcb6cd15609a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 11/13] fix: do not change stored sessions when an operation
 fails

The in-memory stores returned the stored record itself, and operations change
the record they loaded before they are known to succeed: a forged pre-key
message replaced the current session although it was rejected, and a message
from a momentarily untrusted identity could not be decrypted any more once the
identity was trusted again.
---
 protocol/session/group_record.go | 10 ++++++++++
 protocol/session/group_state.go  |  9 +++++++++
 protocol/session/record.go       | 11 +++++++++++
 protocol/session/store_inmem.go  | 14 ++++++++++++--
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..19f8c62 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -21,6 +21,16 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// Clone returns a copy of the record which shares no mutable state with it.
+func (g *GroupRecord) Clone() *GroupRecord {
+	clone := NewGroupRecord()
+	for _, state := range g.states {
+		clone.states = append(clone.states, state.Clone())
+	}
+
+	return clone
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/group_state.go b/protocol/session/group_state.go
index c7dcf2b..f5c6f37 100644
--- a/protocol/session/group_state.go
+++ b/protocol/session/group_state.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"google.golang.org/protobuf/proto"
+
 	"github.com/RTann/libsignal-go/protocol/curve"
 	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 	"github.com/RTann/libsignal-go/protocol/senderkey"
@@ -45,6 +47,13 @@ func NewGroupState(cfg GroupStateConfig) *GroupState {
 	}
 }
 
+// Clone returns a copy of the state which shares no mutable state with it.
+func (s *GroupState) Clone() *GroupState {
+	return &GroupState{
+		state: proto.Clone(s.state).(*v1.SenderKeyStateStructure),
+	}
+}
+
 func (s *GroupState) Version() uint32 {
 	switch v := s.state.GetMessageVersion(); v {
 	case 0:
diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..51c97d7 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,17 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// Clone returns a copy of the record which shares no mutable state with it.
+func (r *Record) Clone() *Record {
+	clone := NewRecord(nil)
+	if r.currentSession != nil {
+		clone.currentSession = r.currentSession.Clone()
+	}
+	clone.previousSessions = append(clone.previousSessions, r.previousSessions...)
+
+	return clone
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..5955b5d 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,7 +23,12 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+
+	// Hand out a copy, so only Store changes what is stored.
+	return record.Clone(), true, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
@@ -51,7 +56,12 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+
+	// Hand out a copy, so only Store changes what is stored.
+	return record.Clone(), true, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
-- 
2.43.0


From 7e83e0fed64cb459817cfd82790ab835db62c8fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 12/13] fix: only accept pre-key messages of the session which
 decrypted them

---
 protocol/session/cipher.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index e74bf57..3454b5a 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,7 +155,17 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	// Only the identity key named by the pre-key message was checked to be trusted,
+	// so the session which decrypted the message must belong to it.
+	theirIdentityKey, exists, err := record.State().RemoteIdentityKey()
+	if err != nil {
+		return nil, err
+	}
+	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
+		return nil, errors.New("pre-key message does not belong to the session it was decrypted with")
+	}
+
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c728bbdea47f6d812566184e9b786659cd513e7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 13/13] fix: report an untrusted identity in a pre-key bundle
 as one

---
 protocol/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 0e3a000..0ff0072 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -122,7 +122,7 @@ func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bun
 		return err
 	}
 	if !trusted {
-		return errors.New("untrusted identity")
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
-- 
2.43.0

