#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Ratchet delivery: every delivered message decrypts to exactly what was sent",
 "Between two parties with an established session, every ciphertext that is delivered decrypts to exactly the plaintext that was encrypted, whatever the order of delivery, the losses and the alternation of senders, as long as the message is at most 2000 ahead in its sending chain and belongs to one of the peer's five most recent sending turns. This also holds when either party reloads its session from its store between any two operations. Whether a message is flagged as session-establishing or ordinary follows only from whether the sender has already decrypted a message of that session.",
 ["inputs","schedules","histories"],
 "all interleavings of encrypt, deliver, drop, delay, reorder and reload by two parties; all plaintexts including empty and large ones; all skip distances up to 2000",
 "The existing axolotl tests do not compile and only test key lists and one CBC vector; no test ever runs a ratchet conversation, let alone an out-of-order one.",
 ["axolotl/session.go","axolotl/ratchet.go","axolotl/messages.go","axolotl/crypto.go"],
 [("Double Ratchet state machine","axolotl/session.go SessionEncryptMessage/decrypt/getOrCreateChainKey/getOrCreateMessageKeys"),("key derivation","axolotl/ratchet.go")],
 ["SessionCipher.SessionEncryptMessage","SessionCipher.SessionDecryptWhisperMessage","SessionCipher.SessionDecryptPreKeyWhisperMessage"],
 [("session record","chains, counters, skipped message keys, pending prekey","axolotl/protobuf LocalStorageProtocol")])

p("C02","A ciphertext is decrypted at most once",
 "A ciphertext that has once been decrypted successfully is never decrypted successfully again by that device, however often and however much later it is delivered, including after further messages, after the session has been replaced and re-selected, and after the session has been reloaded from storage (an establishment message excepted whose session was deleted or displaced by more than forty newer ones). A rejected replay leaves the stored session unchanged and does not keep later genuine messages from being decrypted.",
 ["histories","schedules","inputs"],
 "all histories of deliveries with duplicates placed anywhere, over several sessions between the same two devices (re-establishment by either side, simultaneous establishment) and with reloads",
 "No test delivers a message twice; the failing histories need several sessions and a switch back and forth between them.",
 ["axolotl/session.go"],
 [("removal of used message keys","axolotl/session.go getOrCreateMessageKeys/removeMessageKeys"),("session promotion and archive","axolotl/session.go SessionCipher.decrypt, promoteState")],
 ["results of repeated decrypt calls","stored session bytes before and after a rejected call"])

p("C03","Altered ciphertexts are rejected and leave no trace",
 "If any byte of a message (version, ratchet key, counters, body or tag, or the keys and prekey ids by which it starts a session) is altered, inserted or removed, or it is presented under another session or identity than the one it was encrypted for, decryption returns an error, never a plaintext. A rejected message leaves the stored session, the stored one-time prekeys and the pinned identity exactly as they were, and every genuine message still outstanding can still be decrypted afterwards.",
 ["inputs","histories","fault_sequences"],
 "all single- and multi-byte modifications, truncations, extensions, header field substitutions (ratchet key, counter, previous counter, version) and cross-session splices, at every point of a conversation",
 "Tests hold one MAC vector; nothing tests the interaction between rejected messages and the evolving ratchet state.",
 ["axolotl/messages.go","axolotl/session.go","axolotl/crypto.go"],
 [("MAC over version, identities and header","axolotl/messages.go getMac/verifyMAC"),("store only after successful decryption","axolotl/session.go SessionDecryptWhisperMessage")],
 ["error returns","bytes written to the session store","later decryptions"])

p("C04","Hostile protocol bytes never crash the ratchet layer",
 "Loading or decrypting arbitrary bytes as a message, a session-establishing message, a session record or a prekey record returns a value or an error in bounded time; it never panics. A message that was accepted when loaded can then be used in every decrypt operation, in any session state, without a panic.",
 ["inputs"],
 "all byte strings: random, truncated, mutated valid messages, protobuf-structured messages with missing, short, long, empty and extreme fields",
 "Tests only load well-formed data; panics hide in lengths and missing fields that no sender produces.",
 ["axolotl/messages.go","axolotl/keys.go","axolotl/prekeys.go","axolotl/session.go","axolotl/crypto.go"],
 [("length and presence checks","axolotl/messages.go LoadWhisperMessage/LoadPreKeyWhisperMessage"),("bounded skip","axolotl/session.go getOrCreateMessageKeys")],
 ["panics","store state after the call"])

p("C05","Concurrent use of one session never reuses a message key or loses a message",
 "When several goroutines encrypt and decrypt on the same session at the same time through separate cipher objects sharing one store, no two ciphertexts ever carry the same ratchet key and counter, every ciphertext decrypts exactly once at the peer to its plaintext, and no data race occurs. This includes sessions that are being started at the same time: no session under which a message went out is lost.",
 ["schedules","histories"],
 "all interleavings of concurrent encrypts and decrypts of one or several sessions over one shared store",
 "There is no concurrent test in the repository.",
 ["axolotl/session.go","store.go"],
 [("store lock around load-modify-store","axolotl/session.go SessionEncryptMessage, SessionDecrypt*")],
 ["ciphertext headers","peer's decryptions","race detector reports"])

p("C06","Session establishment: both sides agree, only with authentic prekeys",
 "From a published prekey bundle with or without a one-time prekey, both parties derive the same session, whoever starts it, also when both start at once or one of them starts again, and afterwards both can talk to each other. A bundle whose signed prekey is not signed by the stated identity is refused without any change to the store. A one-time prekey is deleted exactly when the first message of a session using it has been decrypted, the last-resort prekey is never deleted, and a message naming a prekey that is gone is refused without changing any session.",
 ["inputs","histories","configurations"],
 "all combinations of bundle contents, start orders, simultaneous starts, repeated starts, re-deliveries of establishment messages and forged bundles",
 "No test builds a session.",
 ["axolotl/session.go","axolotl/ratchet.go","axolotl/prekeys.go"],
 [("X3DH","axolotl/ratchet.go initializeSenderSession/initializeReceiverSession"),("signature check","axolotl/session.go BuildSenderSession"),("prekey consumption","axolotl/session.go SessionDecryptPreKeyWhisperMessage")],
 ["decryptions on both sides","prekey store contents","session store contents"])

p("C07","A peer's identity key is pinned on first use",
 "Once a peer's identity key has been seen, no session is built from a bundle or an establishment message that carries a different identity key for that peer, and such an attempt changes neither the pinned key nor any session; other peers are unaffected. Only the documented always-trust setting lifts this.",
 ["inputs","histories","configurations"],
 "all sequences of first contact, repeat contact and key change for many peers, by bundle and by message, with reopen of the store in between",
 "No test exercises identity checks.",
 ["store.go","axolotl/session.go"],
 [("trust on first use","store.go IsTrustedIdentity/SaveIdentity"),("checks before building","axolotl/session.go BuildReceiverSession/BuildSenderSession")],
 ["returned errors","ContactIdentityKey","session files"])

p("C08","Forward secrecy: used keys are gone and key material is fresh",
 "After a message has been sent or decrypted, the stored session no longer contains the message key or chain key that protected it nor any ratchet private key already replaced; every new sending turn uses a ratchet key never used before. The stored session stays bounded in size in its numbers of receiving chains and of old sessions, and no single message makes it hold more than 2000 further skipped keys.",
 ["histories","inputs"],
 "all conversation histories with turns, gaps, replacements of the session and long skips",
 "No test looks at the stored session.",
 ["axolotl/session.go","axolotl/ratchet.go"],
 [("chain key ratchet","axolotl/ratchet.go getNextChainKey"),("state trimming","axolotl/session.go addReceiverChain/promoteState"),("skip limit","axolotl/session.go getOrCreateMessageKeys")],
 ["serialized session records after each operation"],
 [("session record","stored chains and keys","axolotl/protobuf LocalStorageProtocol")])

p("C09","Password-protected storage is confidential and tamper-evident",
 "With a storage password, no stored key, session, prekey or credential appears in clear on disk, files are readable by their owner only, storing the same value twice leaves different bytes, and everything stored reads back identically after reopening with the same password. Reading with another password, or reading a file that was modified, truncated, extended or replaced by the bytes of garbage, yields an error, never wrong data and never a crash.",
 ["inputs","fault_sequences","configurations"],
 "all passwords, stored values and byte-level corruptions of every file",
 "The only store-related test checks a MAC vector.",
 ["store.go","crypto.go"],
 [("AES-CBC and HMAC with PBKDF2 keys","store.go encrypt/decrypt/genKeys; crypto.go aesEncrypt/appendMAC/verifyMAC")],
 ["bytes on disk","file modes","values and errors returned"])

p("C10","The key store behaves like independent maps that survive restarts",
 "For every history of store, load, contains, remove and delete operations and restarts, the store answers like a set of independent maps keyed by prekey id, signed prekey id, peer and device: a load returns the last stored value, a removed entry stays removed, and operations on one key never affect another. Listing or deleting the sessions of one peer concerns exactly that peer's devices.",
 ["histories","inputs","configurations"],
 "all operation histories over several peers whose names are prefixes of each other or look alike, all ids up to 32 bits, with reopening, with and without password",
 "No test touches the store.",
 ["store.go"],
 [("one file per entry","store.go sessionFilePath/preKeysFilePath"),("listing","store.go GetSubDeviceSessions/DeleteAllSessions")],
 ["return values of the store interfaces","directory contents"])

p("C11","A failed or interrupted write never loses key material",
 "If a write of a session, identity or prekey fails or the process dies during it, the entry afterwards reads back as the complete old or the complete new value. An encryption or decryption whose state could not be stored reports an error and hands out neither ciphertext nor plaintext, and a one-time prekey is not given up before the session that replaces it is stored.",
 ["fault_sequences","crash_points"],
 "all points at which writing to disk can fail or the process can stop, for each kind of entry and each operation",
 "No test injects faults.",
 ["store.go","axolotl/session.go"],
 [("write to file","store.go writeFile"),("order of effects","axolotl/session.go SessionEncryptMessage, SessionDecryptPreKeyWhisperMessage")],
 ["file contents after a killed or failed write","return values"])

p("C12","Signatures: what is signed verifies, nothing else does",
 "For every key pair and message, the signature produced verifies under the matching public key, any number of times and without the inputs being modified. It does not verify under another key, for another message or after any change to the signature. Two different messages never share a nonce, even when the random source repeats itself.",
 ["inputs"],
 "all key pairs, message lengths, random values, repeated verifications and bit flips of key, message and signature",
 "The one test uses random keys but neither repeats a verification nor checks a rejection beyond one flip.",
 ["curve25519sign/curve25519sign.go"],
 [("XEdDSA-style signature","curve25519sign/curve25519sign.go Sign/Verify")],
 ["Verify results","argument bytes after the call"])

p("C13","Safety numbers are symmetric, faithful and collision-sensitive",
 "For any two identities, both parties compute the same safety number of twelve five-digit groups, equal to the published algorithm's result, and it changes when either identifier or key changes. The scannable code of one side is the mirror image of the other's exactly when both sides' keys and identifiers agree, and malformed keys give an error rather than a crash.",
 ["inputs"],
 "all pairs of identifiers (any bytes) and keys, including equal ones, and keys of any length",
 "The tests check one published vector in both directions.",
 ["fingerprint/fingerprint.go","fingerprint/fingerprint_numbers.go","fingerprint/qr_fingerprint.go"],
 [("iterated SHA-512","fingerprint/fingerprint.go"),("ordering of the halves","fingerprint/fingerprint_numbers.go"),("scannable code","fingerprint/qr_fingerprint.go")],
 ["returned strings and bytes"])

p("C14","Attachments arrive intact or not at all",
 "Every attachment uploaded can be fetched by the recipient from the pointer in the message alone and yields exactly the original bytes, content type and size, encrypted under a key used for nothing else. If the stored blob was altered, truncated or replaced, or the pointer is malformed, the message fails with an error; altered bytes are never handed to the application and nothing crashes.",
 ["inputs","fault_sequences"],
 "all attachment contents and lengths, all corruptions of the blob, all pointer shapes",
 "No test uploads or downloads an attachment.",
 ["attachments.go","crypto.go","server.go"],
 [("encrypt-then-MAC with a fresh 64-byte key","attachments.go uploadAttachmentV3"),("MAC and digest check","attachments.go handleSingleAttachment")],
 ["bytes stored at the CDN","pointer in the sent message","Attachment.R"])

p("C15","Sending reaches exactly the peer's current devices, through every mismatch",
 "When a message is sent and the server eventually accepts, the accepted request contains exactly one message per current device of the recipient, each decryptable only by that device to the sent content, with the device's registration id, and with the timestamp returned to the caller; linked devices of the sender get one matching transcript when the server asks for it. Reports of missing, extra or stale devices are obeyed, including removed sessions being rebuilt from fresh bundles, also while several messages are being sent at once. A server that keeps refusing, or answers with errors or garbage, leads to an error in a bounded number of requests, never to a crash or to later messages being refused (a device the key server no longer knows may fail one send).",
 ["histories","fault_sequences","inputs"],
 "all histories of sends and device changes (added, removed, reinstalled devices) and server answers including repeated mismatches, errors and malformed bodies",
 "No test sends a message; the existing tests never talk to a server.",
 ["server.go","sync.go","sender.go","prekeys.go","textsecure.go"],
 [("device list maintenance and retry","server.go buildAndSendMessage"),("bundle handling","prekeys.go makePreKeyBundle")],
 ["HTTP requests at a simulated server with simulated devices"])

p("C16","The receive loop delivers once, acknowledges everything and survives anything",
 "While listening, every server request is acknowledged exactly once with its own id and in order, and only after it has been handled; every valid message is delivered to the application exactly once, in order and with the sender it was authenticated as, also when it is redelivered (the server's own receipts, which carry no key, may repeat). A request with arbitrary, malformed, senderless or undecryptable contents is acknowledged and otherwise ignored: it neither stops the loop, nor crashes the process, nor disturbs later messages, and frames that are no requests are not acknowledged. Listening can be stopped and started again at any moment, and a loop that ended leaves nothing running behind.",
 ["inputs","histories","fault_sequences"],
 "all sequences of frames mixing valid messages of several senders and devices, duplicates, receipts, unknown types, random bytes and malformed envelopes and contents",
 "No test starts the listener.",
 ["websocket.go","textsecure.go","handler.go","sync.go"],
 [("read loop and acknowledgements","websocket.go StartListening/sendAck"),("dispatch","textsecure.go handleReceivedMessage")],
 ["frames at a simulated server","client callbacks"])

p("C17","Published prekeys are usable, signed, distinct and stored",
 "Every prekey uploaded to the server has its private part in the store under the uploaded id, the signed prekey's signature verifies under the uploaded identity key, all ids are distinct and within the protocol's 24-bit range and not zero, the last-resort key is the reserved one, and a peer can start a session with any uploaded key. This holds whatever values the random source produces.",
 ["inputs","histories"],
 "all outcomes of the random source, including the extremes of the id range, and repeated generation",
 "No test generates prekeys for upload (the axolotl prekey test does not compile).",
 ["prekeys.go","axolotl/prekeys.go","server.go"],
 [("generation","prekeys.go generatePreKeys/generatePreKeyState/generateSignedPreKey"),("upload","server.go registerPreKeys")],
 ["body of the upload request","prekey store"])

p("C18","Group messages go to every other member, and group state persists",
 "A message to a group is sent exactly once to each member other than ourselves, each copy carrying the same timestamp and content and, for current groups, the group's key and revision; a member who cannot be reached is reported and keeps no other from getting it, and sending to an unknown group or one we are not a member of sends nothing and reports an error. The legacy and current groups after a restart equal those before it, after any history of create, update, leave, join and member changes. A group change reported with a message is the one the message carries, and only if the server signed it; the credentials that prove our membership are renewed when their day is over.",
 ["histories","inputs"],
 "all group sizes, member lists, histories of group operations and restarts",
 "No test creates a group.",
 ["groups.go","groupsv2/groupsv2.go"],
 [("fan-out","groups.go sendGroupHelper/sendGroupV2Helper"),("persistence","groups.go saveGroup/loadGroup/setupGroups")],
 ["messages received by simulated devices","group files"])

p("C19","Group change actions do exactly what they name, for those allowed",
 "Applying an action of a group change with the change applicator changes exactly what the action names in the decrypted group (members, roles, invitations, requests to join, title, description, avatar, access rules, link password, announcements), new members joining with the next revision and leaving the lists of the invited and of those who asked. It is done only if the acting user's membership and role, the group's access rules and the link password allow it. An action that is not allowed, malformed, duplicated or in conflict with the present membership is an error without any effect, never a crash (actions that rest on a credential presentation and the value of the encrypted timer are left out).",
 ["inputs","histories"],
 "all groups, acting users and sequences of changes over every action type, including conflicting, forbidden and malformed ones",
 "No test applies a group change.",
 ["groupsv2/groupChange.go","groupsv2/groupAuth.go","entities/groupUser.go"],
 [("apply actions","groupsv2/groupChange.go Apply*"),("permissions","groupsv2/groupAuth.go is*Allowed")],
 ["decrypted group before and after","returned errors"])

p("C20","Contact discovery keys and answers are authenticated",
 "A discovery request can be read by the holder of the attested enclave key and contains exactly the queried numbers in order, with fresh keys in every request; the answer is accepted only if its authentication tag is valid under the negotiated key and is then mapped to the numbers in the order asked. An answer or attestation that is altered, shortened or malformed gives an error, never a crash and never data.",
 ["inputs","fault_sequences"],
 "all lists of numbers, key pairs, answers and corruptions of answers and attestations",
 "Tests check single values of helper functions; no test runs a request against an enclave model or corrupts an answer.",
 ["contactDiscoveryCrypto/contactDiscoveryCrypto.go","contactsDiscovery/remoteAttestationUtil.go","contactsDiscovery/quote.go","server.go"],
 [("query encryption","contactDiscoveryCrypto/contactDiscoveryCrypto.go"),("key agreement","contactsDiscovery/remoteAttestationUtil.go"),("mapping","server.go GetRegisteredContacts")],
 ["request decrypted by an independent enclave model","returned contacts"])

p("C21","Profile data is encrypted, padded and recoverable only with the profile key",
 "A profile name (of at most 53 bytes and without trailing NULs; longer ones are refused) encrypted under a profile key decrypts under it to the same name, is padded to one of the fixed sizes so that its length is hidden, and fails to decrypt under another key or after any change; ciphertexts and keys are unpredictable and never repeat. Access keys derived from a profile key are the standard function of it, and malformed encrypted data gives an error rather than a crash.",
 ["inputs"],
 "all names, keys, nonces and corruptions of encrypted profile data",
 "The profile tests only cover fixed strings, if anything; the random source is never looked at.",
 ["profiles/profile.go","profiles/avatars.go","crypto/aesgcm.go","unidentifiedAccess/unidentifiedAccess.go"],
 [("AES-GCM with padding","profiles/profile.go"),("access key","unidentifiedAccess/unidentifiedAccess.go DeriveAccessKeyFrom")],
 ["bytes uploaded","decrypted values","consumption of the system random source"])

p("C22","Linking a device hands over the account to exactly that device",
 "The message sent to link a new device can be decrypted with the new device's ephemeral private key and then contains exactly our identity key pair, account id, number and the verification code; it is authenticated, and without that key nothing of it is readable. Every link message uses fresh key material and a code obtained from the server for it or shortly before, never one kept after a failure, also with several devices linked at once; a malformed device key is refused with an error and nothing is sent.",
 ["inputs"],
 "all ephemeral keys, accounts and verification codes, and malformed device keys",
 "No test links a device.",
 ["crypto.go","server.go","link.go"],
 [("provisioning cipher","crypto.go provisioningCipher"),("upload","server.go addNewDevice")],
 ["request body at a simulated server decrypted by an independent device model"])

p("C23","Helper-process calls return their own answer",
 "Every call to the sealed-sender helper process returns the answer given to that very request or an error, in whatever order and at whatever speed answers come, also with several callers at once and with several requests in sequence. Lost connections, unknown or malformed frames and error answers never crash the caller, never hand it another request's answer and never block it forever once the connection is closed.",
 ["schedules","fault_sequences","histories"],
 "all timings of answers relative to the caller, all sequences and concurrent calls, malformed and unsolicited frames, disconnections",
 "No test talks to the helper process.",
 ["crayfish/backend.go","crayfish/envelope.go","crayfish/avatar.go","crayfish/register.go","crayfish/messages.go"],
 [("request and response channels","crayfish/backend.go"),("calls","crayfish/envelope.go, crayfish/register.go, crayfish/avatar.go")],
 ["results of calls against a simulated helper","race detector reports"])

p("C24","Configuration and contacts survive a write and a read",
 "Whatever configuration or contact list is written reads back equal, for every value of every field, and the files it creates are readable by their owner only; missing values get the documented defaults and present values are never overwritten by them. A profile key update for a contact changes that contact's key and nothing else.",
 ["inputs","histories"],
 "all field values (any strings, bytes and numbers), histories of updates and reloads",
 "No test reads or writes configuration or contacts.",
 ["config.go","config/config.go","contacts/contacts.go"],
 [("YAML files","config.go ReadConfig/WriteConfig; contacts/contacts.go ReadContacts/WriteContacts"),("defaults","config.go loadConfig")],
 ["values read back","file modes"])

p("C25","Synchronisation with linked devices is complete and faithful",
 "A request for contacts or groups is answered with a blob from which the linked device recovers exactly the registered contacts (number, id, name, colour, verification, blocking and timer), or the groups, each once and with the values we hold, and a request that cannot be answered sends nothing; a transcript of a message sent elsewhere reaches the application with its recipient, content and timestamps; read markers are reported one by one. Malformed synchronisation messages give an error, never a crash.",
 ["inputs","histories"],
 "all contact and group lists (empty ones, long names, many entries) and all shapes of incoming synchronisation messages",
 "No test handles a synchronisation message.",
 ["sync.go","sender.go","groups.go","attachments.go"],
 [("length-delimited records","sync.go sendContactUpdate/sendGroupUpdate"),("transcript handling","sync.go handleSyncSent/handleSyncRead")],
 ["blob at the CDN decrypted and parsed by an independent reader","client callbacks"])

p("C26","Incoming contents are reported faithfully and to the right handler",
 "Every decrypted content is handed to exactly the handler for its kind, with the sender it was authenticated as and with body, timestamp, timer, quote, sticker, reaction, contacts and group unchanged and end-session and profile-key messages marked as such; contents of no known kind reach no handler, and synchronisation contents count only if they come from our own account. An end-session message ends exactly the sessions with its sender, and a profile-key update changes exactly its sender's contact. Contents with missing or extreme fields give an error or are reported with those fields absent, never a crash.",
 ["inputs","histories"],
 "all contents of every kind with any subset of fields, and arbitrary bytes as content, with any application handlers installed or absent",
 "No test dispatches a content.",
 ["handler.go","textsecure.go","message.go","sync.go"],
 [("dispatch","handler.go handleMessage"),("flags","textsecure.go handleFlags")],
 ["client callbacks","session store","contacts"])

p("C27","Server requests are authenticated and failures are never taken for success",
 "Every request goes to the configured server and path with the configured user agent and the account's credentials (or those of the directory or group it concerns, or, for unidentified access, the access key and no credentials), and carries exactly the given body and content type. Any final answer outside 200-299, any transport failure and any malformed or cut-off answer the operation needs surfaces as an error to the caller of the operation, gives no result and crashes nothing.",
 ["inputs","fault_sequences"],
 "all methods, credentials, bodies, status codes, truncated and malformed bodies and connection failures",
 "No test makes a request.",
 ["transport/transport.go","transport/credentials.go","transport/unidentifiedCert.go","server.go"],
 [("request construction","transport/transport.go"),("status handling","transport/transport.go IsError and its callers in server.go, attachments.go, profiles")],
 ["requests at a simulated server","results of the operations"])

p("C28","Padding and symmetric encryption helpers are exact inverses and fail closed",
 "For every key and plaintext, decrypting what was encrypted returns the plaintext, and stripping the padding of a padded message returns the message, whatever its bytes; padded lengths are multiples of 160 and reveal nothing finer. Malformed input of any length (empty, short, unaligned, wrong key size, inconsistent padding) gives an error and no crash, and no helper modifies the caller's plaintext.",
 ["inputs"],
 "all keys, plaintexts, lengths and malformed ciphertexts",
 "The tests check single vectors of the MAC and of one CBC decryption (and that package's tests do not compile).",
 ["crypto.go","axolotl/crypto.go","crypto/aesgcm.go","crypto/hkdf.go","server.go"],
 [("AES-CBC with PKCS padding","crypto.go aesEncrypt/aesDecrypt; axolotl/crypto.go Encrypt/Decrypt"),("message padding","server.go padMessage/stripPadding")],
 ["return values","argument bytes after the call"])

p("C29","An account is set up once and taken up again by every later start",
 "Setup registers an account exactly when none was completely set up before; it then stores identity, credentials and prekeys, publishes the prekeys with the account's credentials, and tells the application that it is registered only when that is done. Every later start takes up the same account (id, identity, registration id, credentials, sessions) without registering again, renews a sender certificate that is missing or expired, and leaves a profile key credential that belongs to the profile key in the configuration. A request refused by the helper or the server, a configuration or store that cannot be read, or the process dying at any moment gives an error or the end of that process, never a crash or a changed account, and the next undisturbed start completes the setup so that peers can reach the account.",
 ["histories","crash_points","fault_sequences"],
 "all sequences of starts with any answer of helper and server, any process death during them, and any unreadable file of the account",
 "No test calls Setup; the failing histories need a process that dies or an answer that fails at one particular stage, and a second start.",
 ["textsecure.go","prekeys.go","config.go","store.go","server.go","crayfish/register.go","crayfish/backend.go","unidentifiedAccess/unidentifiedAccess.go","registration/registration.go"],
 [("setup and registration","textsecure.go Setup/registerDevice/renewSenderCertificate"),("key publication","prekeys.go generatePreKeys/generatePreKeyState; server.go registerPreKeys"),("helper registration","crayfish/register.go")],
 ["requests at a simulated helper and server","configuration and store on disk","a conversation with a simulated peer"])

p("C30","Configuration, contacts and groups are replaced whole or not at all",
 "At every moment the file of the configuration, of the contacts and of each group (legacy or not) holds one complete version of it: whoever reads it while it is rewritten, and the next start after the process died at any point of a write, finds the version before or the version after, and never one before the last that was reported as written. A write of the configuration, the contacts or a legacy group that fails (no space, file size or descriptors) reports an error; any failed write keeps the stored version and leaves no other file behind, and the next write succeeds. A start finds exactly the groups that were stored, whatever interrupted writes left, and a link to the file stays a link.",
 ["crash_points","fault_sequences","schedules"],
 "all contents and sizes, all moments of reading, dying and failing",
 "No test writes these files while anything fails or reads; a torn file exists for microseconds or after a crash only.",
 ["config.go","contacts/contacts.go","groups.go","groupsv2/groupsv2.go","profile.go"],
 [("writing","config.go WriteConfig; contacts/contacts.go WriteContacts, WriteContactsToPath; groups.go saveGroup; groupsv2/groupsv2.go saveGroupV2"),("reading","config.go ReadConfig; groups.go setupGroups, loadGroup; groupsv2/groupsv2.go loadGroupV2")],
 ["the files as a concurrent reader and a new process see them","errors returned"])

p("C31","A fetched profile reaches exactly its contact, whole and decrypted",
 "When the profile of a contact is fetched by account id, the contact gets the name (as user name, and as name if it had none), about text, emoji and avatar the peer published, decrypted under the contact's profile key, and keeps everything else it had; the contacts file holds the result, and the stored avatar reads back byte for byte, also after a restart. A request that fails, a profile of another account, without a usable credential or with a part that does not decrypt is an error and changes neither a contact nor an avatar, an avatar that cannot be fetched or decrypted leaves the avatar as it was, and without a profile key nothing encrypted is taken for a name or text. Whatever the server answers and whatever name an avatar is stored or read under, no other contact changes, nothing outside the avatar directory is written or read, and a stored avatar is replaced whole or not at all.",
 ["values","fault_sequences"],
 "all profiles, keys and states of the address book, all answers of server and delivery network",
 "The tests do not fetch profiles; the failing cases need an answer that is wrong in one part, or a server that names another account or a path.",
 ["profiles/profile.go","profiles/avatars.go","server.go","contacts/contacts.go"],
 [("fetching","profiles/profile.go GetProfileUUID/GetProfileAndCredential/decryptProfile"),("avatars","profiles/avatars.go"),("application interface","server.go GetProfileByUUID, GetAvatar, GetAvatarPath")],
 ["contacts in memory and on disk","files of the storage directory","results and errors"])

p("C32","The client talks only to a server that proves to be the configured one",
 "The message socket, requests for the account, other hosts' requests and attachment downloads, and a start with an existing account, send nothing (login, password, request, content) to a server whose certificate is not valid now, for that host name and for servers, with a complete chain to the configured authority, or that does not speak TLS where an https address is configured; such a connection is an error. The configured authority is the file named in the configuration, with all certificates in it, or the built-in one if none is named or it does not exist; a file that cannot be read or holds no certificate means that no server is trusted, and the authorities of the operating system, a certificate of the same name, or one trusted earlier never count. A server with a valid certificate, directly or through intermediates, is reached.",
 ["values","fault_sequences"],
 "all certificates, chains and authority files, all kinds of connections",
 "The tests have no TLS server; the guarantee is about every certificate an attacker on the path could show.",
 ["rootCa/rootca.go","websocket.go","transport/transport.go","attachments.go","textsecure.go"],
 [("authority","rootCa/rootca.go SetupCA"),("socket","websocket.go connect"),("requests","transport/transport.go newHTTPTransporter"),("downloads","attachments.go getAttachment"),("start","textsecure.go Setup")],
 ["requests and bytes a TLS server receives","errors"])

p("C33","A group state or invitation is accepted exactly if it is well formed",
 "Validating the final state of a group succeeds exactly if the title is not empty and title, description, members with invited, and requests to join are each within their own configured limit, no account is twice in one list or in two of them, every entry is there and every member and invited has a known role, each access rule is one that may stand there, and a group that can be joined by link has a link password; the state itself is never changed. A list of invitations is accepted exactly if a member of the group submits it and each has a user, a known role and neither profile key nor presentation, and then says who invited, at which revision and when, whatever the submitter wrote there. Anything else is an error, never a crash.",
 ["inputs"],
 "all group states, limits and lists of invitations",
 "No test validates a group; the faults are combinations of lists, limits and rules.",
 ["groupsv2/groupValidator.go","groupsv2/groupAuth.go","entities/groupUser.go"],
 [("final state","groupsv2/groupValidator.go ValidateFinalGroupState"),("invitations","groupsv2/groupValidator.go ValidateAddMembersPendingProfileKey")],
 ["results and errors","the group state"])

p("C34","What is secret leaves the client neither in the clear nor into logs and files",
 "Texts, attachments, profile and group names, phone numbers of contacts, profile and group keys, sessions' keys and private keys of any kind appear in no request, in no encoding, of any operation that sends, receives, synchronises, registers or changes groups and profiles, whether it succeeds or the server refuses, breaks or garbles it, other than where the protocol puts them: inside what is encrypted for the recipient. Nor do texts, attachment contents, private keys, sessions' keys, attachment keys and passwords appear in what the package logs at any level or prints. Files and directories the package creates in its storage are closed to other accounts of the system under every umask.",
 ["inputs","fault_sequences"],
 "all operations, contents and faults",
 "The tests look at no request; whether something leaks is a question about everything that is emitted, for every content and on every error path.",
 ["outgoing.go","server.go","attachments.go","sync.go","groupsv2/groupsv2.go","profiles/profile.go","store.go","contacts/contacts.go","crayfish/backend.go"],
 [("messages","outgoing.go sendMessage/buildMessage"),("attachments","attachments.go uploadAttachment"),("groups","groupsv2/groupsv2.go"),("log","textsecure.go, incoming.go and others (log.Debugln)"),("files","store.go, contacts/contacts.go, groups.go, profiles/avatars.go")],
 ["all requests","log and standard output","modes of files"])

p("C35","Nothing waits for ever for a silent server, and what is used is given back",
 "Every operation, message socket and call of the helper that finds its server silent - while connecting, in the TLS handshake, in a request, an answer or a frame, for one connection or for all - ends within a minute and a half, with an error where it needed the answer, and works again once the server is back. A message socket whose server is gone is given up in that time while one that is merely quiet is kept, and an attachment that never comes holds later messages back no longer than that; connections, descriptors and goroutines of operations and listening, successful or failed, are given back.",
 ["inputs","fault_sequences","histories"],
 "all operations, and all places and kinds of silence in them",
 "Tests meet neither silence nor repetition: whether something ends is a question about every place in which the network may stop, and what is left over shows only after many operations.",
 ["transport/transport.go","attachments.go","websocket.go","crayfish/backend.go","groupsv2/groupsv2.go","textsecure.go"],
 [("requests","transport/transport.go newHTTPClient, attachments.go"),("downloads","attachments.go getAttachment"),("message socket","websocket.go connect, writeWorker, readWorker"),("helper","crayfish/backend.go connect, writeWorker, readWorker")],
 ["time until an operation ends","result behind silence","descriptors and goroutines"])

p("C36","The package may be used from several goroutines at once",
 "While messages are received, an application may from other goroutines send messages and attachments to people and groups, make, change and leave groups, fetch profiles, end sessions, refresh its contacts, and look up contacts, groups and identities through the functions of the package. Nothing crashes, races or locks up; each message sent reaches each device meant once, each message received is handed over once and acknowledged, and groups and contacts are afterwards, in memory and in their files, as all the changes made one after the other leave them. Changes to different fields of one contact do not undo each other, and a session that was ended does not come back.",
 ["schedules","inputs"],
 "all schedules of receiving and of the application's calls",
 "Schedules: the tests have one goroutine, applications at least two, since listening takes one.",
 ["contacts/contacts.go","groups.go","groupsv2/groupsv2.go","groupsv2/credentials.go","profiles/profile.go","server.go","sync.go","store.go"],
 [("contacts","contacts/contacts.go Contacts, UpdateProfileKey; profiles/profile.go GetProfileUUID"),("groups","groups.go groups, updateGroup, changeGroup"),("groups v2","groupsv2/groupsv2.go groupsV2, UpdateGroupFromServer"),("sending","server.go sendMessage, deviceLists")],
 ["race reports","messages on both sides","memory and files"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
