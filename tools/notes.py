# id: (deciding method, what its verdict rests on)
NOTES={
"C01":("runtime monitoring: reference-model monitor over seeded two-party conversations (reordering, loss, store reloads before any operation)",
 "About 300 conversations with 80,000 encryptions per quick run, gaps up to the 2000 limit included; a delivery the model obliges must return the remembered plaintext. Seeded exploration, not enumeration."),
"C02":("runtime monitoring: exactly-once counter per ciphertext plus byte comparison of stored state around every rejected replay",
 "Histories of one to nine sessions with about 25,000 replays per quick run, over session replacement, re-selection and reload. Seeded exploration."),
"C03":("runtime monitoring: forgery injection with a no-trace monitor (state bytes, prekeys, pinned keys, outstanding messages)",
 "About 24,000 forgeries per quick run in three-party conversations: every header field, body, tag, splices, wrong session or identity, re-wrapped establishment messages."),
"C04":("runtime monitoring: structure-aware hostile input, also correctly authenticated by a malicious peer, under panic, time and memory guards",
 "Decides absence of panics, of unbounded time and of unbounded memory on the generated inputs; a watchdog ends a run that grows beyond 6 GB or 120 s without progress and reports it."),
"C05":("sanitizer and runtime monitoring: Go race detector with scheduling noise, (ratchet key, counter) uniqueness log and exactly-once log",
 "Observed interleavings only; noise is injected inside every load and store so that the windows between them are wide. Evidence counts overlapping calls and distinct completion orders."),
"C06":("runtime monitoring: independent X3DH/ratchet reference and prekey life-cycle model over establishment scenarios",
 "All combinations of bundle kind, initiator, simultaneous start, restart and first-message order are drawn; every establishment message is decrypted a second time by a reference implementation."),
"C07":("runtime monitoring: trust-on-first-use reference model over the real file store",
 "Every outcome, the pinned keys and the whole store directory are compared with the model after every operation."),
"C08":("runtime monitoring: scan of the serialised session for every secret that must be gone, ratchet-key freshness log, size monitor",
 "About 2.5 million secret/scan pairs per quick run. Looks at stored state, not at process memory (Go gives no guarantee there)."),
"C09":("runtime monitoring: at-rest byte scan for known secrets and read-back monitor under file damage and near-miss passwords",
 "Real store directory; truncations, extensions, bit flips, exchanged and foreign files."),
"C10":("runtime monitoring: map reference model compared with the complete store contents after every operation and reopening",
 "Peer names are adversarially similar (prefixes, separators, unicode); the scratch directory's surroundings are watched for escapes."),
"C11":("runtime monitoring with fault injection: refused writes, crash snapshots after every effect, real file-size/descriptor limits and processes dying at chosen byte offsets",
 "First stage: in-memory store whose every effect is a crash point. Second stage: real files under RLIMIT_FSIZE/RLIMIT_NOFILE and children that die by SIGXFSZ at a byte offset or by SIGKILL. Loss of power (unsynced page cache) cannot be produced here."),
"C12":("runtime monitoring: independent Ed25519 oracle, input-unchanged and nonce-uniqueness monitors, hostile random source",
 "1,200 keys per quick run over both Edwards signs; alterations of every signature byte and S plus multiples of the order."),
"C13":("runtime monitoring: independent implementation of the published algorithm; near-collision search and crafted fingerprints",
 "Identities whose five-digit blocks agree are found by a birthday search, so that an order decided by less than the whole fingerprint shows."),
"C14":("runtime monitoring: simulated server, content network and recipient; reference decryption, tampering monitor",
 "Every accepted message's pointer is opened by a reference and by the real receiving code; blobs and pointers are damaged at every position class."),
"C15":("runtime monitoring: delivery monitor over a simulated server with per-device reference peers; race detector stage for concurrent sends",
 "Each accepted request is decrypted by each simulated device, and every device not addressed is shown unable to. Bounded-requests rule catches livelocks."),
"C16":("runtime monitoring: online trace monitor of acknowledgements and callbacks on a simulated message socket; race detector stage; goroutine leak monitor",
 "Order, exactly-once and handled-before-acknowledged are judged on the recorded event log; lost connections, restarts and stops at random moments."),
"C17":("runtime monitoring: upload monitor with hostile random source and failing storage; peers start sessions with every uploaded key",
 "Covers boundary ids (0, 2^24-1, last-resort id) that the real random source practically never gives."),
"C18":("runtime monitoring: delivery and persistence monitor with a simulated group server that signs changes, client restarted in child processes",
 "Copies are decrypted by recipients' devices and compared with membership the server last told; zkgroup server parameters are replaced by the simulator's own through a build overlay."),
"C19":("runtime monitoring: reference group-state model over random action histories, permitted and not",
 "Each call is compared with the model in full (every field). Presentation-based actions are only required to refuse garbage."),
"C20":("runtime monitoring: independent enclave model over loopback TLS; altered attestations and answers",
 "One known finding: the SGX quote and IAS signature are never verified. Alterations of everything that is verified must give an error."),
"C21":("runtime monitoring: independent AES-GCM/HMAC model, alteration and freshness monitors",
 "All name lengths and padding borders, keys of every length, malformed answers."),
"C22":("runtime monitoring: independent model of the new device opens every uploaded link message; race detector stage",
 "Server refusals and losses at each request, code expiry (driven by the cache's own clock), several devices at once."),
"C23":("runtime monitoring: request/answer matching log with a scripted helper, deadlock monitor, race detector",
 "Delays, reordering, noise and connection loss; a call counts as blocked when it does not return within seconds after the connection closed."),
"C24":("runtime monitoring: structural comparison of random values in every field found by reflection, after write and read",
 "A field added later is covered automatically; defaults are checked field by field."),
"C25":("runtime monitoring: record-by-record comparison of synchronisation blobs with the state held, simulated linked devices and discovery",
 "Blobs are read with an independent reader; long records, unusual names, failing uploads and discoveries."),
"C26":("runtime monitoring: recording handlers compared with contents generated field by field from the protocol description",
 "After each acknowledgement what was reported, contacts (memory and disk) and all sessions are compared with the content."),
"C27":("runtime monitoring with fault injection: request log comparison and one fault per request of every operation",
 "Status codes with and without good bodies, broken connections, cut and garbled bodies at each request of about 60 operations."),
"C28":("runtime monitoring: comparison with independent implementations on every length, guard bytes behind every argument",
 "Every length 0..700 for padding and CBC, 0..300 for the helper packages; malformed keys, tags, nonces and paddings."),
"C29":("runtime monitoring with fault injection: every client life in a process of its own against a simulated server and helper; account-state monitor",
 "Each request of the setup is refused once, processes are killed at requests and at random moments, files made unreadable or unwritable; peers' devices then start and continue sessions with the account."),
"C30":("runtime monitoring with fault injection: concurrent reader watching for incomplete files, limits and deaths at byte offsets",
 "About a million looks at files under rewriting per quick run. Loss of power cannot be produced here."),
"C31":("runtime monitoring with fault injection: model of published profiles, address book and avatars compared with memory, contacts file and directory tree after every fetch",
 "Real zero-knowledge credentials from a simulated server; one fault per fetch out of 19 kinds; hostile account names. Fetching by number (GetProfileE164, unused) is only covered by the containment of avatar files."),
"C32":("runtime monitoring against a hostile TLS server: handler and raw byte log on the server decide what an unproven server received",
 "8 kinds of authority configuration x 14 kinds of certificate x 8 surfaces per round, with ECDSA, RSA and Ed25519 keys; the hosts on the Internet cannot be reached here. Known findings: CDN, directory, storage and service requests and attachment downloads do not verify."),
"C33":("runtime monitoring: generated group states with known faults; the validator's answer is compared with the faults given",
 "40,000 states and 10,000 lists of invitations per quick run, limits met exactly and exceeded by one. Validations that rest on a credential presentation are left out: ModifyGroup, their only caller, has no server parameters and cannot be used."),
"C34":("runtime monitoring: taint marks searched, through nested encodings, in everything the package emits over all operations with faults",
 "Secrets the package makes itself are collected from its store and memory. Sizes, times and metadata that the protocol shows (recipients, group ids, blinded names) are not covered."),
"C35":("runtime monitoring with fault injection: a network that falls silent at chosen bytes, a deadline and state monitor in a process per case, descriptors and goroutines compared",
 "Every request of every operation once per quick run; limits are 100 s. A network that is slow but not silent is only covered as far as a quiet socket must be kept."),
"C36":("runtime monitoring: race detector over a whole client in use, conservation of messages, memory and files compared with the changes made",
 "Direct use of exported variables (contacts.Contacts) and of the fields of group objects by the application is outside."),
}
