import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":["protocol/"+f for f in files],"mechanism":[{"name":n,"where":"protocol/"+w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":"protocol/"+c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
S="session/cipher.go"; SS="session/session.go"; ST="session/state.go"; RE="session/record.go"; GC="session/group_cipher.go"; GS="session/group_session.go"; GST="session/group_state.go"; GR="session/group_record.go"
p("C01","Only authentic one-to-one messages yield a plaintext",
 "Decrypting a one-to-one message (plain or pre-key) returns a plaintext only if the 8-byte tag at the end of the received bytes equals the HMAC-SHA256, under the MAC key belonging to this message's own counter on the chain of this message's own ratchet key, of the sender's identity key, the receiver's identity key and every received byte before the tag. The plaintext returned is the decryption of the authenticated ciphertext under the cipher key and IV derived together with that MAC key, and the identities are the remote and local ones of the session state that is used.",
 ["inputs","histories"],"every received byte string and every session state","Tests flip a few bytes of one message; the property is about every byte string, and about every path (current session, archived sessions, stored keys, new chains) to a returned plaintext.",
 [S,"message/signal.go","message/mac.go"],[("MAC verification before decryption",S),("tag computation and comparison","message/signal.go"),("HMAC input","message/mac.go")],obs=["Session.DecryptMessage","Signal.VerifyMAC","NewSignal"])
p("C02","Only authentic group messages yield a plaintext",
 "Decrypting a group message returns a plaintext only if the 64-byte signature at the end of the received bytes verifies over all bytes before it under the signing key stored for the message's sender, distribution and chain. The plaintext is the decryption of that message's ciphertext under the key of that message's own iteration on that same chain.",
 ["inputs","histories"],"every received byte string and every stored sender-key record","Tests tamper with single messages only; a skipped or mis-scoped verification on one path is invisible to them.",
 [GC,"message/senderkey.go",GR],[("signature verification before key derivation",GC),("split of body and signature","message/senderkey.go"),("chain selection",GR)],obs=["GroupSession.DecryptMessage","SenderKey.VerifySignature"])
p("C03","Failures are always reported, never turned into success",
 "When any step an operation depends on fails (a store call, a key or message that does not parse, a key agreement, a signature, encryption, decryption, reading randomness), the exported operation returns a non-nil error and no result. A nil error is always accompanied by the complete result.",
 ["inputs","fault_sequences"],"every failing dependency at every call site of every exported operation","Tests use stores and readers which never fail, so almost no error path is executed.",
 [S,SS,ST,RE,GC,GS,"message/signal.go","message/prekey.go","message/senderkey.go","curve/curve25519/curve25519.go","ratchet/keys.go"],[("error propagation after every fallible call",S),("error propagation",SS),("error propagation",GC)],obs=["every exported function with an error result"])
p("C04","Untrusted identities are never talked to",
 "Encrypting returns a ciphertext, decrypting returns a plaintext, and processing a bundle or pre-key message establishes a session only if the identity store said, in that same operation, that the identity key of that session is trusted for the session's own remote address and for the right direction (sending when encrypting or processing a bundle, receiving when decrypting). If the store says it is not trusted, the operation returns an error and stores nothing.",
 ["inputs","histories","configurations"],"every identity-store implementation, session state and message","The in-memory store ignores the direction and tests exercise one untrusted peer; which key, address and direction are asked for on each path is not observed.",
 [S,SS],[("IsTrustedIdentity before returning",S),("IsTrustedIdentity before establishing",SS)],obs=["identity.Store.IsTrustedIdentity calls","Session.EncryptMessage","Session.DecryptMessage","Session.ProcessPreKey","Session.ProcessPreKeyBundle"])
p("C05","A peer identity is recorded only after it has been proven",
 "The identity store is told to record an identity key only for the session's own remote address, only the key used by the session, only after the store accepted it as trusted, and only after the peer proved it: a message authenticated under that identity, or a bundle whose signed pre-key signature verified under it.",
 ["inputs","histories"],"every message, bundle and store content","Tests check the store after successful handshakes only.",
 [S,SS],[("identity Store after decryption",S),("identity Store after signature verification",SS)],obs=["identity.Store.Store calls"])
p("C06","A bundle with an invalid signature never creates a session",
 "Processing a pre-key bundle has an effect on any store, or returns nil, only if the signed pre-key signature verified over the encoded signed pre-key under the bundle's own identity key. The signed pre-key that was verified is the one the session is built from.",
 ["inputs"],"every bundle","One bad-signature bundle is tested; which key and bytes the signature is checked over on every path is not.",
 [SS],[("VerifySignature before any effect",SS)],obs=["Session.ProcessPreKeyBundle"])
p("C07","No one-to-one message is accepted twice",
 "After a one-to-one message has been decrypted, the stored session can never derive that message's keys again: the receiving chain has moved past the message's counter, or, if the message was late, the saved key used for it is gone. A message whose counter is behind the chain and whose key is not saved is rejected.",
 ["inputs","histories"],"every history of received messages","Replaying one message after one exchange is all a test samples; the rule must hold for every counter, chain and archived session.",
 [S,ST],[("advancing the receiving chain",S),("removing a saved message key",ST),("duplicate rejection",S)],obs=["Session.DecryptMessage","session record passed to the store"])
p("C08","No group message is accepted twice",
 "After a group message has been decrypted, the stored sender-key state can never derive that message's key again: its chain has moved past the message's iteration, or the saved key used for it is gone. Processing a distribution message that repeats a known chain keeps the existing, advanced chain.",
 ["inputs","histories"],"every history of group messages and distribution messages","Tests replay single messages and do not re-deliver distributions after progress.",
 [GC,GST,GR],[("advancing the sender chain",GC),("removing a saved message key",GST),("keeping the existing state",GR)],obs=["GroupSession.DecryptMessage","GroupSession.ProcessSenderKeyDistribution"])
p("C09","No message key ever encrypts two messages",
 "When encrypting returns a ciphertext, the sending chain from which its key was derived has been advanced by exactly one step and that advanced state has been stored successfully, for one-to-one and for group sessions; the counter on the wire is the index of the key used.",
 ["inputs","histories","crash_points"],"every session state and any point at which the process stops or the store fails","Tests never fail the store between deriving a key and returning the ciphertext.",
 [S,GC,"ratchet/keys.go","senderkey/keys.go"],[("SetSenderChainKey(Next) before Store before return",S),("same for groups",GC)],obs=["Session.EncryptMessage","GroupSession.EncryptMessage"])
p("C10","Success means the new state was stored at the right place",
 "When encrypting, decrypting, processing a bundle or processing or creating a sender-key distribution succeeds, the record loaded by that operation (or a new one if none existed), carrying the operation's update, has been stored exactly under the address (and, for groups, the distribution) it was loaded from.",
 ["inputs","histories","configurations"],"every address, distribution, store content and message","Tests use one address per store, so a wrong or missing key would be invisible.",
 [S,SS,GC,GS],[("Load/Store with the session's address",S),("Load/Store",SS),("Load/Store",GC),("Load/Store",GS)],obs=["session.Store and session.GroupStore calls"])
p("C11","Failed operations leave stored state untouched",
 "If decrypting, encrypting or processing fails because of the message, the peer or the cryptography, nothing has been written to or deleted from any store, and the record held by the in-memory store is unchanged. A failed attempt with one session state does not change any other state that is later stored.",
 ["inputs","histories","fault_sequences"],"every failing message and every store content","Tests look at return values of failing calls, not at what the stores hold afterwards.",
 [S,SS,GC,"session/store_inmem.go"],[("effects only after the last check",S),("decrypting with copies of the states",S),("copies handed out by Load","session/store_inmem.go")],obs=["store write and delete calls on failing paths"])
p("C12","One-time pre-keys are consumed exactly when used",
 "When a pre-key message that sets up a new session with a one-time pre-key is decrypted successfully, exactly that pre-key is deleted from the store before success is reported; it is never deleted when decryption fails, when the message repeats the handshake of an existing session, or when the message named none. The pre-keys loaded are those the message names.",
 ["inputs","histories"],"every pre-key message and store content","Tests delete-check one handshake; the non-deletion paths and failing paths are not observed.",
 [SS,S],[("Delete after successful decryption",S),("pre-key lookup",SS)],obs=["prekey.Store calls"])
p("C13","Work and storage caused by a peer are bounded",
 "A message whose counter is more than 25,000 ahead of its chain is rejected before any key is derived (except, one-to-one, for a session with oneself). A chain keeps at most 2,000 saved message keys, a session at most 5 receiving chains, a record at most 40 archived sessions, and a group record at most 5 sender-key states.",
 ["inputs","histories"],"every counter and every history","Tests try a few counters; the bounds are inductive over all histories.",
 [S,ST,RE,GC,GST,GR],[("jump limit",S),("jump limit",GC),("trimming",ST),("trimming",RE),("trimming",GST),("trimming",GR)],obs=["stored records"])
p("C14","Skipped messages stay decryptable",
 "When a message ahead of its chain is accepted, the keys of every skipped counter between the chain's position and the message are saved in the chain with their own counters before the chain moves on, and a message behind the chain is decrypted with the saved key of exactly its counter while every other saved key is kept. When a limit is reached it is the oldest entry that is dropped.",
 ["inputs","histories"],"every order of delivery","Tests shuffle small batches; the rule must hold for every gap and order.",
 [S,ST,GC,GST],[("saving skipped keys",S),("lookup by counter",ST),("saving skipped keys",GC),("lookup by iteration",GST)],obs=["stored records"])
p("C15","Untrusted bytes never crash the process",
 "No byte string received from the network (any message type, key, signature, scanned fingerprint or identifier) makes parsing, verifying or decrypting panic; it is either accepted or rejected with an error. (Stored state, stores, nil arguments and missing bundle keys are the caller's own and not received bytes.)",
 ["inputs"],"every byte string of every length","Tests feed a handful of malformed inputs.",
 ["message/signal.go","message/prekey.go","message/senderkey.go","message/plaintext.go","curve/public.go","curve/curve25519/curve25519.go","crypto/aes/aes.go","fingerprint/scannable.go",S,SS],[("length checks before indexing","message/signal.go"),("length checks","message/senderkey.go"),("length checks","crypto/aes/aes.go"),("presence checks",SS)],obs=["parsers, verifiers and DecryptMessage"])
p("C16","Messages survive the trip over the wire",
 "Every message built by this library, parsed again from its bytes, yields the same version, keys, identifiers, counters and ciphertext, including the absence of an optional one-time pre-key; the bytes kept by a parsed message are exactly the received ones. A field is never filled from, or parsed into, another field.",
 ["inputs"],"every field value","Tests round-trip a few random messages per type and compare some fields.",
 ["message/signal.go","message/prekey.go","message/senderkey.go","message/plaintext.go"],[("encoder/decoder pairs","message/signal.go"),("encoder/decoder pairs","message/prekey.go"),("encoder/decoder pairs","message/senderkey.go")],obs=["New* and New*FromBytes"])
p("C17","What is put into stored state is what comes out",
 "Every value set on a session state, group state, record or pre-key (keys, counters, chains, identities, registration IDs, pending pre-keys) is returned unchanged by the matching accessor, also after the state has been copied or archived and restored, and setting one value leaves the others unchanged.",
 ["inputs","histories"],"every value and every sequence of updates","Tests cover accessors indirectly with a few values.",
 [ST,RE,GST,GR,"prekey/prekey.go","prekey/signed.go"],[("accessor pairs",ST),("archive and restore",RE),("accessor pairs",GST),("records","prekey/prekey.go")],obs=["exported accessors of State, Record, GroupState, GroupRecord, PreKey, SignedPreKey"])
p("C18","Initiator and responder derive the same session",
 "For any identity, base, signed and one-time key pairs, the session built by the initiator and the session built by the responder start from the same root key and chain key, derived from 32 0xFF bytes followed by all three (or four) X3DH agreements in the same order. Each side's first sending chain is a receiving chain of the other, and the identities recorded are each other's.",
 ["inputs"],"every choice of keys, with and without a one-time pre-key","Tests run a few random handshakes; omitted or weak inputs that both sides share are not noticed.",
 [SS,"ratchet/ratchet.go"],[("initiator agreements",SS),("responder agreements",SS)],obs=["InitializeAliceSessionRecord","InitializeBobSessionRecord","Session.ProcessPreKey","Session.ProcessPreKeyBundle"])
p("C19","The key schedule is the Signal key schedule",
 "Root, chain and message keys are derived as the protocol fixes them: HKDF-SHA256 with the labels and salts of the protocol and the fixed output split, HMAC-SHA256 of the chain key with 0x01 for message keys and 0x02 for the next chain key, and indices that grow by one per step.",
 ["inputs"],"every key and index","Test vectors cover one key each and both peers share the code, so consistent deviations go unnoticed.",
 ["ratchet/keys.go","ratchet/ratchet.go","senderkey/keys.go"],[("key derivation","ratchet/keys.go"),("group key derivation","senderkey/keys.go")],obs=["ratchet and senderkey exported functions"])
p("C20","Every new peer ratchet key triggers a full ratchet step",
 "When an authentic message carries a ratchet key with no receiving chain yet, the session derives the receiving chain from its current ratchet key, generates a fresh ratchet key pair, derives root key and sending chain from it, and records the previous sending chain's last counter. When the ratchet key is already known, root key, own ratchet key and sending chain stay as they are.",
 ["inputs","histories"],"every session state and ratchet key","Both test peers run the same code; a step that reuses or skips an input still interoperates with itself.",
 [S,ST],[("ratchet step",S)],obs=["session record passed to the store by DecryptMessage"])
p("C21","Secrets come from full-length fresh randomness",
 "Every generated private key, signature nonce, sender-key seed and chain ID is filled completely from a cryptographic source or the reader the caller passed (the system's when nil is documented), a short or failed read is an error, and the bytes read are used unweakened and for one purpose.",
 ["inputs","fault_sequences"],"every reader behaviour","Tests use one good reader and cannot see entropy.",
 ["curve/curve25519/curve25519.go",GS,"curve/pair.go","curve/djb_private.go",S,SS],[("io.ReadFull into full buffers","curve/curve25519/curve25519.go"),("sender key and chain ID",GS)],obs=["reads from random sources"])
p("C22","Signatures cover every byte of every message part",
 "Signing and verifying treat the message as the concatenation of all parts given, every byte included, and follow XEdDSA: the nonce hash and the challenge hash cover the same message, and verification checks the received signature (only its sign bit moved) against the given public key. A signature made by a private key verifies under its public key for the same parts only.",
 ["inputs"],"every key, message and way of splitting it","A few vectors and random round trips are tested.",
 ["curve/curve25519/curve25519.go","curve/djb_public.go","curve/djb_private.go","curve/pair.go","identity/keys.go"],[("Sign","curve/curve25519/curve25519.go"),("VerifySignature","curve/curve25519/curve25519.go")],obs=["Sign and VerifySignature"])
p("C23","Caller-owned buffers are never modified",
 "No exported operation writes to a byte slice passed in by the caller (plaintexts, ciphertexts, received bytes, keys, signatures, identifiers), not even beyond its length; a key made from bytes keeps no alias of them, and the bytes a key hands out are copies.",
 ["inputs"],"every slice, including ones with spare capacity or sharing memory","Tests pass fresh exactly-sized slices and do not look at them afterwards.",
 ["crypto/aes/aes.go","curve/curve25519/curve25519.go","curve/public.go","curve/djb_public.go","fingerprint/fingerprint.go",GST],[("copying before padding","crypto/aes/aes.go"),("copying keys","curve/public.go")],obs=["writes through parameters"])
p("C24","Secrets and tags are compared in constant time",
 "Authentication tags, keys, session base keys and fingerprints are compared only with constant-time comparisons; no variable-time comparison (==, bytes.Equal, a prefix test, a map lookup, a loop that stops early) decides on secret or authenticating bytes. Looking up a receiving chain by the public ratchet key and checking the padding of a message that was authenticated first are not included.",
 ["inputs"],"every compared pair","Timing and partial comparison are invisible to functional tests.",
 ["message/signal.go","curve/djb_public.go",RE,"fingerprint/scannable.go"],[("hmac.Equal","message/signal.go"),("ConstantTimeCompare","curve/djb_public.go"),("ConstantTimeCompare",RE),("ConstantTimeCompare","fingerprint/scannable.go")],obs=["comparison call sites"])
p("C25","Secrets never reach logs, errors or the wire",
 "Private keys, root, chain and message keys, shared secrets and plaintexts never flow into log lines, error texts or any cleartext message field; the only secret ever put on the wire is the chain key inside a sender-key distribution message.",
 ["inputs","histories"],"every value on every path","Tests do not inspect logs and errors.",
 [S,SS,GC,GS,"message/signal.go","perrors/errors.go"],[("log call sites",S),("message construction","message/signal.go")],obs=["log calls, error construction, message fields"])
p("C26","Safety numbers agree exactly when identities agree",
 "Both parties' fingerprints of each other are built from version, identifier and identity key of each by the same iterated hash, so both display the same number whatever side they are on, and a scan compares as equal exactly when both halves, crosswise and in full, and the version are equal. The identifier, key and iteration count all influence the result.",
 ["inputs"],"every pair of identities, identifiers and iteration counts","Tests compare a few vectors.",
 ["fingerprint/fingerprint.go","fingerprint/displayable.go","fingerprint/scannable.go","fingerprint/encode.go"],[("iterated hash","fingerprint/fingerprint.go"),("ordering","fingerprint/displayable.go"),("cross comparison","fingerprint/scannable.go")],obs=["fingerprint exported functions"])
p("C27","The in-memory stores keep exactly what they are told",
 "The in-memory stores return for a key (full address, distribution or ID) exactly what was last stored under that very key and report absence otherwise, deletes remove exactly that entry, and the identity store trusts an unknown address's key on first use, then only that same key, and reports a replacement exactly when the key really changed.",
 ["histories","inputs"],"every sequence of store operations","Tests use one or two addresses per store.",
 ["session/store_inmem.go","identity/store_inmem.go","prekey/store_inmem.go","protocol/store_inmem.go"],[("maps keyed by the full key","session/store_inmem.go"),("trust on first use","identity/store_inmem.go")],obs=["store methods"])
p("C28","The handshake is repeated until it is confirmed",
 "After a bundle has been processed, every message sent is a pre-key message carrying the IDs, base key, identity and registration ID of that handshake, until a message from the peer has been authenticated; then no more. A responder that receives several pre-key messages of one handshake uses the one session for all of them.",
 ["histories","inputs"],"every order of messages in the handshake","Tests cover a few orders.",
 [S,SS,ST,RE],[("pending pre-key",ST),("lookup by base key",RE),("clearing after authentication",S)],obs=["Session.EncryptMessage","Session.DecryptMessage","Session.ProcessPreKey"])
p("C29","Replaced sessions are archived, usable and restored on use",
 "When a new session replaces the current one, the replaced one is archived unchanged; messages for archived sessions are decrypted with them, and the archived session that decrypts a message becomes the current one, its updated state stored once, while the others are kept in order.",
 ["histories"],"every history of handshakes and messages","Tests archive one session.",
 [RE,S],[("archiving and promoting",RE),("trying archived sessions",S)],obs=["Record and Session.DecryptMessage"])
p("C30","Key encodings are checked, canonical and comparable",
 "Key and key-length checks reject everything that is not a well-formed key; a public key's encoding is the type byte 0x05 followed by exactly its 32 bytes and decodes to an equal key, and two keys are equal exactly when their type and all 32 bytes are. A private key's public key is the one its agreements and signatures correspond to.",
 ["inputs"],"every byte string and key pair","Tests sample random valid keys and a few invalid lengths.",
 ["curve/public.go","curve/private.go","curve/djb_public.go","curve/djb_private.go","curve/pair.go","curve/curve25519/curve25519.go","ratchet/keys.go","identity/keys.go"],[("length and type checks","curve/public.go"),("equality","curve/djb_public.go")],obs=["curve, identity and ratchet constructors"])
p("C31","Encryption pads correctly and decryption accepts only that",
 "CBC encryption pads every plaintext with 1 to 16 PKCS #7 bytes and encrypts all of it under the given key and IV; decryption uses the same mode, rejects wrong IV or ciphertext lengths and malformed padding with an error, and strips exactly the padding.",
 ["inputs"],"every plaintext length and every ciphertext","Vectors of a few lengths are tested.",
 ["crypto/aes/aes.go"],[("padding","crypto/aes/aes.go"),("length checks","crypto/aes/aes.go")],obs=["CBCEncrypt","CBCDecrypt"])
p("C32","Only supported message types and versions are processed",
 "Parsing accepts only the supported message version (and, for plaintext content, its marker byte), a message is decrypted only by a state of the same version, and each message type reports its own type and is dispatched to its own handling; anything else is rejected with an error.",
 ["inputs","configurations"],"every version nibble, state version and message type","Tests use the current version only.",
 ["message/signal.go","message/prekey.go","message/senderkey.go","message/plaintext.go","message/ciphertext.go",S,GC],[("version checks","message/signal.go"),("version match with the state",S),("version match",GC),("type dispatch",S)],obs=["parsers, Type methods and DecryptMessage"])
p("C33","All delivered messages decrypt under any interleaving",
 "Any two honest parties can exchange any number of messages in any interleaving, with reordering within the limits, and every delivered message decrypts to what was sent.",
 ["histories","schedules"],"every interleaving of two parties","Tests sample a few interleavings.",
 [S,ST],[("double ratchet",S)])
p("C34","Operations on secrets take time independent of the secrets",
 "The running time of key agreement, signing, decryption and comparison does not depend on secret values.",
 ["inputs"],"every secret","Timing is not observed by tests.",
 ["curve/curve25519/curve25519.go","crypto/aes/aes.go"],[("constant-time primitives","curve/curve25519/curve25519.go")])
p("C35","Signatures and agreements are mathematically correct",
 "The curve arithmetic (agreement, point conversion between Montgomery and Edwards form, signature equation) computes the mathematically correct results for every key.",
 ["inputs"],"every key and message","Tests sample vectors.",
 ["curve/curve25519/curve25519.go","curve/curve25519/util.go"],[("point conversion","curve/curve25519/util.go")])
p("C36","Messages sent can be authenticated and decrypted by the peer",
 "Every message handed out by encrypting is complete and self-consistent: it names the version, ratchet key, counters, chain or distribution of the keys it was really encrypted with, and ends with the MAC (over sender identity, receiver identity and every byte before it, under the MAC key of that chain position) or the signature (over every byte before it, with the chain's own signing key) that the peer checks. A distribution message describes exactly the stored sender key.",
 ["inputs","histories"],"every plaintext and session state","Test peers run the same code with the same few states; a field that is mixed up only for some states still round-trips.",
 [S,GC,GS,"message/signal.go","message/prekey.go","message/senderkey.go"],[("building messages",S),("MAC over the serialized message","message/signal.go"),("signature over the serialized message","message/senderkey.go")],obs=["Session.EncryptMessage, GroupSession.EncryptMessage, NewSenderKeyDistribution"])
p("C37","What is valid is not refused",
 "As long as stores and randomness work and stored state is complete, an operation fails only for a reason of the protocol. Encrypting succeeds whenever a session (or sender key) is stored and the peer is trusted, whatever the plaintext; processing a trusted bundle with a valid signature, a distribution message, or creating one succeeds. An authentic message of a trusted peer is refused only if no session, sender key, chain or signed pre-key for it is stored, its counter is behind the chain and its key is not saved, its counter is more than 25,000 ahead of the chain, its version is not the session's, or a pre-key message names another identity than the session it belongs to.",
 ["inputs","histories"],"every message, plaintext, identifier, counter and session state","A check that is too strict for a rare counter, length or state refuses messages no test happens to send.",
 [S,"session/session.go",GC,GS,"session/state.go"],[("decrypting",S),("processing bundles and pre-key messages","session/session.go"),("group decryption",GC)],obs=["results of the exported operations"])
p("C38","Nothing outside records and stores ever changes",
 "The library keeps no mutable state outside the session and group records, their states and the in-memory stores: after package initialisation no exported operation modifies a package-level variable or anything reachable from one, and none modifies a message, key, key pair, bundle, configuration, fingerprint or session handle it is given or called on, so these can be used again, by other sessions and at the same time. Methods that only look at a record, state or store (accessors, Clone, Load, trust queries) change nothing in it, and no memory of a package-level variable is handed out to be changed by callers.",
 ["schedules","histories"],"every order and interleaving of operations on any sessions, messages and stores","Tests run one operation at a time on fresh objects; state shared behind their back only shows when operations overlap or an object is used again.",
 [S,"session/session.go","session/state.go","session/record.go",GC,GS,"session/group_state.go","session/group_record.go","message/signal.go","message/senderkey.go","message/prekey.go","message/mac.go","crypto/aes/aes.go","ratchet/keys.go","senderkey/keys.go","curve/curve25519/curve25519.go","fingerprint/fingerprint.go"],[("shared constants","session/state.go"),("messages are only read",S),("fixed prefixes","curve/curve25519/curve25519.go")],obs=["repeated and concurrent use of messages, keys, bundles, sessions and stores"])
p("C39","Used keys are forgotten",
 "Forward secrecy: after every successful operation the stored session or sender-key record contains no secret that is no longer needed. The chain key a message was encrypted or decrypted with, earlier ones, its message keys, replaced root keys, ratchet private keys and sending chain keys, base and one-time private keys, intermediate secrets of a key agreement and Diffie-Hellman results are neither kept in any field nor recoverable from what is kept other than by inverting HMAC, HKDF, key agreement or a public key; saved message keys are those of skipped messages only, and no other store is handed such a key.",
 ["inputs","histories"],"every message, counter, session and group state","Tests look at what can be decrypted, not at what could be recovered from the stored bytes; a key kept one message too long changes no result.",
 [S,"session/session.go","session/state.go","session/record.go",GC,GS,"session/group_state.go","session/group_record.go","ratchet/keys.go","senderkey/keys.go"],[("chain keys advance",S),("saved keys are removed when used","session/state.go"),("sender keys","session/group_state.go")],obs=["the bytes given to session.Store.Store and session.GroupStore.Store"])
p("C40","Failures tell their reason",
 "The errors callers act on are reported exactly when they apply. An operation which fails because the identity store does not trust the peer's identity returns an error for which perrors.IsErrUntrustedIdentity is true, and no other failure does. Decrypting a message (session or group) whose counter is behind its chain and whose key is no longer saved, in a session that would otherwise accept it, fails with perrors.ErrDuplicateMessage, and no message of which that is not found is reported as a duplicate.",
 ["inputs","histories"],"every message, counter, identity and session state, and every answer of the stores","Tests compare the kind of error in one or two histories; a forged, far-ahead or archived-session message reported as duplicate (callers then drop it silently), or a changed identity reported as a general failure, shows only in others.",
 [S,"session/session.go",GC,"perrors/errors.go"],[("untrusted identities","session/session.go"),("used messages",S),("used group messages",GC),("error kinds","perrors/errors.go")],obs=["errors.Is(err, perrors.ErrDuplicateMessage)","perrors.IsErrUntrustedIdentity(err)"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
