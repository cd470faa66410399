#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Keys and signatures equal the RFC 8391 / SP 800-208 construction",
  "For every supported parameter set, every choice of seeds, every unused index and every message, the public key derived from the seeds and the signature at that index are byte for byte those the specification (RFC 8391, SP 800-208 for the NIST PRF, generalised to the library's other n and w) prescribes. This holds for indices of any magnitude up to the capacity of the key, for trees of any height and number of layers, and for messages of any length.",
  ["inputs","configurations"], "all (hash, n, h, d, w, prf) the library accepts x all seeds x all indices below 2^h x all messages",
  "TestXMSS/TestWots pin one truncated hash of one signature, at one index with one seed, for 14 RFC/NIST instances with w=16; no vector exists for w=4, w=256, n=16, other heights, high tree indices, or message lengths above one byte.",
  ["api.go","core.go","wots.go","hash.go","address.go","params.go"],
  [("Sign/Derive","api.go:SignFrom, DeriveInto"),("subtree generation","core.go:genSubTreeInto, lTreeInto, subTreePathForSeqNo"),("WOTS+","wots.go"),("hash instantiation","hash.go")],
  observe=["PublicKey.MarshalBinary","Signature.MarshalBinary"])
p("C02", "Every signature produced is accepted by every verification path",
  "Whenever signing returns a signature, it is accepted for exactly that message under the corresponding public key: by the in-memory verifier, by the streaming verifier however the reader chunks the message, and by the byte-level helper on the serialised key and signature. This holds for every message (empty, short, many blocks long), for messages signed from a stream however it chunks its data, and at every position of the key, including across subtree boundaries and after the key has been closed and reopened.",
  ["inputs","histories","configurations"], "all parameter sets x all messages x all ways a reader can deliver them x all positions in the key",
  "Tests sign one fixed 12-byte message at one random index per instance, always from a byte slice and usually without serialising.",
  ["api.go","core.go","hash.go","wots.go"],
  [("SignFrom","api.go"),("VerifyFrom","api.go"),("hashMessage streaming","hash.go:hashMessageInto")],
  observe=["PublicKey.Verify","PublicKey.VerifyFrom","Verify","Sign"])
p("C03", "Verification accepts nothing but genuine signatures",
  "Verification never accepts when the message differs from the one signed, when any bit of the signature's encoding (parameter prefix, index, randomiser, any one-time signature or authentication-path node of any layer) or of the public key is altered, when parts of signatures are exchanged, or when signature and key belong to different keys or parameter sets. On every well-formed input its verdict equals that of an independent implementation of the specification.",
  ["inputs"], "all (public key, signature, message) triples of the right length, in particular all single-bit and structured mutations of genuine ones",
  "Tests only check that one other fixed message is rejected; no test alters a signature or a public key.",
  ["api.go","wots.go","core.go","hash.go"],
  [("root comparison","api.go:VerifyFrom"),("WOTS+ public key recovery","wots.go:wotsPkFromSigInto"),("parameter check","api.go:VerifyFrom")],
  observe=["Verify","PublicKey.Verify"])
p("C04", "A one-time signature cannot be extended to another digest",
  "For any two different digests signed by the same one-time key, neither one-time signature can be turned into the other merely by applying the public chaining function to its values: each has at least one chain at which it reveals a value strictly earlier in the chain than the other does. Consequently nobody who saw one signature can produce an accepted signature on a different message by iterating the public hash, for any supported n and Winternitz parameter.",
  ["inputs","configurations"], "all pairs of distinct n-byte digests x all (hash, n, w, prf)",
  "Tests only sign and verify; a signature scheme with a broken checksum signs and verifies perfectly (release 1.5.0 fixed exactly such a bug that all tests had passed).",
  ["wots.go","params.go"], [("checksum","wots.go:wotsChainLengths"),("checksum length","params.go:WotsLen2"),("base-w digits","wots.go:toBaseW")],
  observe=["one-time signatures inside Signature.MarshalBinary","Verify"])
p("C05", "No index is ever used twice over the life of a key",
  "Over any history of signing, failed signing, reserving and returning indices, closing, reopening, losing or deleting the cache, and losing the process without a close, no two signatures released by the key carry the same index, and indices only ever grow. At every moment the persisted state, if opened instead of the live one, would continue after every signature already released.",
  ["histories","crash_points"], "all finite sequences of {sign, failing sign, helper sign, borrow, borrow-if-below, close+open, crash+open, cache loss, refused open} on one key",
  "TestPrivateKeyContainer covers a single sign-close-load sequence; no test combines borrowing with reopening or crashing.",
  ["api.go","core.go","container.go"],
  [("persist before use","core.go:getSeqNo"),("reservation","api.go:borrowExactly; container.go:BorrowSeqNos"),("restore on close","api.go:Close")],
  [("seqNo/borrowed","first unused index, and how many the container has handed out in advance","container.go:fsContainer, api.go:PrivateKey")],
  ["Signature.SeqNo","PrivateKeyContainer.GetSeqNo after reopening a snapshot"])
p("C06", "Killing the process at any instant never leads to index reuse",
  "If the process is killed at any instant during key creation, signing, reserving, returning or closing, then on the next start the key either reports that no key was stored yet (only possible before creation returned) or opens with the same public key, and its next index is larger than that of every signature released before the kill. Signatures made after the restart verify.",
  ["crash_points","histories"], "every system-call boundary of generated operation histories on the filesystem-backed key, including consecutive crashes",
  "No test kills anything; every test ends in an orderly Close.",
  ["container.go","core.go","api.go"],
  [("write temp, fsync, rename, fsync dir","container.go:writeKeyFile"),("persist before use","core.go:getSeqNo"),("stale lock takeover","container.go:OpenFSPrivateKeyContainer")],
  observe=["a new process calling LoadPrivateKey after the kill"])
p("C07", "A storage or input failure never yields a bad signature or a reused index",
  "If the storage of a key or the message source fails at any point, the operation reports an error (or succeeds fully) rather than crashing, and no signature is released whose index had not been recorded as used. Once the failure is over the same key, after reopening if necessary, signs again: its signatures verify and no index repeats.",
  ["fault_sequences","histories"], "all placements of failures over the storage calls (of an application-provided container and of the filesystem) and reads of a generated history",
  "No test injects a failure; every storage call in the tests succeeds.",
  ["core.go","api.go","container.go"],
  [("abort/cleanup","core.go:getSubTree"),("rollback","container.go:SetSeqNo, BorrowSeqNos"),("error paths","api.go:SignFrom")],
  observe=["errors returned by Sign/SignFrom/Borrow*/Close, then later signatures"])
p("C08", "Concurrent use of one private key is safe",
  "Any number of goroutines may sign, reserve indices, query the key and enable precomputation on one private key at the same time: every call returns, every signature verifies, the indices used are exactly the next consecutive ones with no repeat, and there is no data race. The key never makes overlapping calls into its storage container, which need not be thread safe.",
  ["schedules","histories"], "all interleavings of Sign/SignFrom, BorrowExactly, BorrowExactlyIfBelow, SeqNo, BorrowedSeqNos, UnretiredSeqNos, CachedSubTrees, EnableSubTreePrecomputation",
  "TestSeqNoRetirement runs one schedule with four signers, discards every signature and checks no index.",
  ["core.go","api.go"],
  [("mutex and condition variable","api.go:PrivateKey.mux, cond"),("subtree hand-over","core.go:getSubTree"),("index allocation","core.go:getSeqNo"),("retirement","core.go:retireSeqNo")],
  observe=["returned signatures, race detector, container call log"])
p("C09", "Close always finishes, saves the state and frees the key",
  "Closing a key returns in bounded time at any moment when no signing call is in progress, even while a subtree is being precomputed in the background, never crashes the process, and afterwards nothing touches the key's storage any more. The state it leaves lets the key be reopened at exactly the next unused index, and signing or reserving on the closed key is refused with an error.",
  ["histories","schedules"], "all histories followed by Close, with and without background precomputation at any stage, then use-after-close and reopen",
  "Tests close only idle keys without precomputation.",
  ["api.go","container.go","core.go"], [("join of background work","api.go:Close"),("unmapping and unlocking","container.go:Close")],
  observe=["Close's return, container call log, reopened key"])
p("C10", "At most one holder of a key at a time",
  "While a filesystem key is open, every other attempt to open, create or sign with it - from another process or from the same one - is refused with an error that says it is locked, and does not disturb the holder; if the lock cannot be taken for another reason, opening fails too. After the holder closes it, fails to open it, or dies, the key can be opened again.",
  ["histories","schedules"], "all sequences of open/close/failed open/double close/kill by several handles in several processes",
  "No test opens a key that is already open.",
  ["container.go","api.go"], [("lock file","container.go:OpenFSPrivateKeyContainer"),("release","container.go:Close")],
  observe=["Error.Locked()","success of a second open"])
p("C11", "Loss or damage of the cache never shows in the results",
  "Deleting or truncating the cache file, replacing it by arbitrary bytes, or altering the stored contents of any cached subtrees while the key is closed never prevents the key from opening and never changes its public key, its next index or the signatures it produces, also if several calls come upon the damage at once. Caching is an optimisation only.",
  ["inputs","histories","fault_sequences"], "all damages (deletion, truncation at any length, wholesale replacement, any change of cached tree contents, pages zeroed) at any point of a history",
  "Tests never alter a cache; the checksum and regeneration code is not executed by any test.",
  ["core.go","container.go","api.go"], [("checksum of a cached subtree","core.go:getSubTree"),("cache re-initialisation","api.go:LoadPrivateKeyFrom; container.go:ResetCache, openCache")],
  observe=["signatures and public key after reopening"])
p("C12", "An interrupted cache update never poisons later signatures",
  "If the process disappears at any moment while subtrees are being generated, stored, dropped or their space is being reused, then after reopening the key has the same public key and every signature it makes verifies. A partly written subtree is never mistaken for a finished one.",
  ["crash_points","histories"], "every moment of subtree generation/replacement in generated histories that cross subtree boundaries in several layers",
  "No test stops in the middle of generating a subtree or reuses cache space after a reopen.",
  ["core.go","container.go"], [("allocation before content","container.go:GetSubTree"),("checksum written last","core.go:getSubTree succeed()"),("slot reuse","container.go:DropSubTree, cacheFreeIdx")],
  observe=["snapshots of the files taken mid-operation, reopened and signed with"])
p("C13", "Used-up subtrees are released and the cache stays bounded",
  "When no signing call is in progress there are no unretired indices, and the cache holds only subtrees that unused indices can still need - at most one per layer, or two with precomputation - no matter how many signatures were made, in which order concurrent calls finished, or how large the indices are. The space of released subtrees is reused, so the cache file does not keep growing.",
  ["histories","schedules"], "all signing histories without forced index jumps, all completion orders of overlapping calls, indices of any magnitude",
  "TestSeqNoRetirement only logs the counters.",
  ["core.go","api.go","container.go"], [("retirement queue","core.go:retireSeqNo"),("dropping","core.go:incLeastSeqNoInUse"),("slot reuse","container.go:DropSubTree, GetSubTree")],
  observe=["UnretiredSeqNos","CachedSubTrees","container.ListSubTrees","cache file size"])
p("C14", "Signatures and public keys survive serialisation unchanged",
  "Encoding a signature or public key and decoding it again yields an equivalent object with the same parameters, index and encoding; encodings have exactly the advertised length and depend on nothing but the object. The text form of a public key is the standard base64 of its binary form and round-trips too, and writing into a caller's buffer gives the same bytes.",
  ["inputs","configurations"], "all public keys and all signatures (genuine or not) of all parameter sets, all index widths",
  "One instance is round-tripped once, without comparing bytes; the text form is never exercised.",
  ["api.go","params.go","misc.go"], [("codec","api.go:WriteInto, MarshalBinary, UnmarshalBinary, MarshalText, UnmarshalText"),("index width","api.go:NewContext indexBytes; misc.go:encodeUint64Into")],
  observe=["MarshalBinary/UnmarshalBinary/MarshalText/UnmarshalText/WriteInto"])
p("C15", "Untrusted bytes are handled without crashing",
  "Feeding arbitrary bytes as public key, signature, text key, parameter prefix or algorithm name into decoding or verification never panics and never hangs: the input is either rejected with an error or decoded to an object that can be verified against, printed and re-encoded. Every truncation of a valid encoding is rejected with an error, and verification returns true never together with an error.",
  ["inputs"], "all byte strings; structured mutations of valid encodings in every field; all pairings of decoded keys and signatures",
  "Tests decode only what the library itself just encoded.",
  ["api.go","params.go"], [("length and parameter checks","api.go:UnmarshalBinary; params.go:UnmarshalBinary; api.go:NewContext")],
  observe=["return values or panics of Verify, UnmarshalBinary, UnmarshalText, NewContextFromName2"])
p("C16", "The compressed parameter prefix is an exact, unambiguous code",
  "Every supported parameter set encodes to the four bytes documented for the reserved OID space and decodes to itself; different sets get different codes. Any four bytes that decode successfully re-encode to the same four bytes, and anything else is refused with an error, as are parameters that do not fit the format.",
  ["inputs"], "all parameter sets and all 2^32 four-byte strings, and all other lengths",
  "Tests round-trip the registered instances with three values of w, and never look at the code itself or at foreign codes.",
  ["params.go"], [("Params.WriteInto/UnmarshalBinary","params.go")], observe=["Params.MarshalBinary, Params.UnmarshalBinary"])
p("C17", "Algorithm names, OIDs and classification are consistent",
  "Printing a parameter set and parsing the name gives the same parameter set back, different sets have different names, and every listed name can be used to create an instance. Names and OIDs of registered instances map to each other and to the parameters in RFC 8391 and SP 800-208, classification as RFC, NIST or multi-tree instance agrees with those documents however the instance was created, and sizes follow from the parameters.",
  ["inputs","configurations"], "all parameter sets, all registered names and OIDs (and all unregistered ones), all ways to create an instance",
  "Tests print and re-parse registered names only; OIDs, FromRFC, FromNIST, MT and the unlisted names are not checked against anything.",
  ["params.go","api.go","hashfunc_enumer.go"], [("String / parseParamsFromName","params.go"),("registry","params.go"),("NewContextFromName, NewContextFromOid","api.go")],
  observe=["Params.String, ParamsFromName2, Context.Name/Oid/FromRFC/FromNIST/MT/SignatureSize, ListNames, ListNames2"])
p("C18", "Results do not depend on machine, threads or caching",
  "The public key, signatures and verification verdicts for given seeds, index and message are the same on every platform and setting: with or without vectorised hashing, on 32-bit and 64-bit builds, for any number of worker threads, with a cold or warm cache, with or without precomputation, and whichever storage container holds the key.",
  ["configurations","inputs"], "{AVX2 on, AVX2 off, 386 build} x {threads 1..n} x {cold, warm, reopened} x {precompute on, off} x {memory, file} on the same generated inputs",
  "Tests run in the one configuration of the machine they happen to run on; vectorised and plain code are compared on one input for two functions.",
  ["hash.go","wots.go","core.go","api.go","internal/f1600x4"], [("fourway SHAKE","hash.go:fX4Into, prfAddrX4Into; wots.go:wotsGenChainsX4Into; internal/f1600x4"),("parallel leaf generation","core.go:genSubTreeInto"),("x4Available","api.go:NewContext")],
  observe=["bytes produced by worker processes of each configuration"])
p("C19", "Keys are a function of their seeds alone; fresh keys are fresh",
  "Deriving a key depends only on the parameters and the three seeds: repeating it gives the same public key and the same signatures, changing any seed changes the key or its signatures accordingly, and wrongly sized seeds are refused without touching the storage. Buffers passed in or obtained from the library afterwards are the caller's: overwriting them has no effect on the key. Generating a key uses fresh randomness for all three seeds each time.",
  ["inputs","histories"], "all seed triples of all lengths, all modifications of caller-visible buffers between operations, repeated generation",
  "One derivation per instance is compared to one vector; no buffer is modified after use, generation is not compared to anything.",
  ["api.go","core.go"], [("DeriveInto, GenerateKeyPair","api.go"),("newPrivateKey","core.go")], observe=["public keys, signatures and stored private keys"])
p("C20", "Reopening restores the key exactly and reports losses truthfully",
  "After a successful close, reopening yields the same parameters, public key and next index, with no lost signatures reported. After a loss of the process the number of lost signatures reported is at least the number of reserved indices that were never used, and zero if none were reserved. A key file written in the documented on-disk layout is read with exactly the values stored in it, and vice versa.",
  ["histories","inputs"], "all histories of signing and reserving, ended by close or loss; all parameter sets and indices that can be stored",
  "One sign-close-load sequence without reservations is tested.",
  ["api.go","container.go"], [("key file","container.go:writeKeyFile, OpenFSPrivateKeyContainer, fsKeyHeader"),("borrowed count","container.go:BorrowSeqNos, SetSeqNo, GetSeqNo; api.go:borrowExactly, Close")],
  observe=["LoadPrivateKey's results, key file bytes"])
p("C21", "A key stops at its capacity and never wraps around",
  "A key signs each index below its advertised maximum exactly once and then refuses every further signing request with an error - also when approached with reserved indices, by several goroutines, after reopening, or when its index has been set to or beyond the maximum. It never produces a signature whose index does not exist in the key.",
  ["histories","inputs","configurations"], "all (small) keys signed to exhaustion by any mix of operations; all index values around and beyond the capacity of large keys",
  "No test gets anywhere near the end of a key.",
  ["core.go","params.go","api.go"], [("capacity check","core.go:getSeqNo, newPrivateKey; params.go:MaxSignatureSeqNo")], observe=["Sign's result near the capacity"])
p("C22", "The filesystem container behaves like its documented interface",
  "Over any sequence of its operations, including closing and reopening, the filesystem container behaves like an exact in-memory model of the documented interface: a map from subtree addresses to buffers of the documented size whose contents persist and never overlap, plus the private key, parameters, index and lost-signature record. Operations on an uninitialised or closed container return errors.",
  ["histories","inputs"], "all sequences of Reset, ResetCache, Get/Has/Drop/ListSubTrees, BorrowSeqNos, SetSeqNo, GetSeqNo, GetPrivateKey, Initialized, CacheInitialized, Close, reopen",
  "TestFSContainerCache runs one fixed sequence with four addresses for one parameter set.",
  ["container.go"], [("slot allocation","container.go:GetSubTree, DropSubTree, subTreeOffset"),("key file","container.go:writeKeyFile")],
  observe=["PrivateKeyContainer methods"])
p("C23", "A damaged key file is refused, not misread",
  "Opening a key whose key file is empty, truncated, not a key file, or carries parameters or an index the library does not support returns an error: it neither panics nor hangs nor yields a usable key. The refusal leaves the files as they were and does not keep the key locked.",
  ["inputs"], "all truncations of valid key files, all files without the right magic, all headers with unsupported parameters or out-of-range index",
  "No test opens anything but a key file just written.",
  ["container.go","api.go","core.go"], [("header checks","container.go:OpenFSPrivateKeyContainer; api.go:NewContext; core.go:newPrivateKey")], observe=["LoadPrivateKey, OpenFSPrivateKeyContainer"])
p("C24", "An index is durable on disk before its signature is released",
  "Whatever the operating system may lose in a power failure - data written but not synced, directory changes not synced - the key file found afterwards is complete and loadable, and its next index is beyond that of every signature that had been released before the failure. This holds at every moment after key creation returned.",
  ["crash_points","histories","fault_sequences"], "every moment of generated histories x every loss of unsynced data and unsynced directory entries",
  "Tests cannot observe what has reached the disk; omitting any sync changes nothing they see.",
  ["container.go","core.go"], [("fsync file, rename, fsync directory","container.go:writeKeyFile"),("persist before use","core.go:getSeqNo")],
  observe=["system-call trace replayed on a model disk, whose possible contents are then loaded"])
p("C25", "Reserving indices does exactly what it says",
  "After a successful request for exactly n reserved indices, n are reported as reserved; each signature uses one and, while any are left, signing does not write to the storage; a conditional request acts exactly when no more than the threshold are reserved. Reserving never skips or repeats an index in the live key, and a failed request leaves the key usable with its index sequence intact. Requests, signatures and queries from several goroutines have the results of some order of them, one after another; in particular a conditional request tests and reserves in one step.",
  ["histories","schedules"], "all sequences of BorrowExactly, BorrowExactlyIfBelow, Sign, Close/reopen with all amounts and thresholds, and all schedules of such calls",
  "BorrowExactly is called once in a test whose results are discarded; BorrowExactlyIfBelow never.",
  ["api.go","core.go","container.go"], [("borrowExactly","api.go"),("consumption","core.go:getSeqNo")], observe=["BorrowedSeqNos, Signature.SeqNo, storage writes"])
p("C26", "Verification is a pure function and safe to run concurrently",
  "Verifying does not modify the public key, the signature, the message or any shared state: repeating it, in any order, mixed with other keys and from many goroutines on the same objects gives the same verdict each time, without data races. Encoding or printing the objects at the same time is equally harmless.",
  ["schedules","inputs"], "all interleavings of Verify, VerifyFrom, Marshal*, String and context queries on shared keys, signatures and contexts",
  "Tests verify from a single goroutine and do not compare objects before and after.",
  ["api.go","hash.go","wots.go","params.go"], [("scratch space per call","core.go:newScratchPad"),("precomputed hash state","hash.go:precomputeHashes")], observe=["verdicts, encodings before and after, race detector"])
p("C27", "Creating a key over an old one replaces it completely or not at all",
  "Creating a key where one already exists replaces it entirely: nothing of the old private key, index, reservations or cached trees influences the new one. If the process is killed at any instant meanwhile, the files left behind open as either the old key or the new one - never a mixture - with matching public key and valid signatures.",
  ["crash_points","histories"], "all old keys (parameters, history, cache contents) x all new keys x every system-call boundary of the replacement",
  "Every test creates keys in a fresh directory.",
  ["container.go","api.go"], [("Reset","container.go:Reset, ResetCache, writeKeyFile")], observe=["LoadPrivateKey after completion or kill"])
p("C28", "Secrets stay where they belong",
  "The secret seeds of a private key leave the library only into the private key handed to the storage (the key file and the temporary file it is written through). Signatures, public keys, their encodings and printed forms, errors, log messages, the cache of subtrees and any other file written next to the key never contain them, whatever the history, failures and damage. The key, temporary and cache files are accessible to their owner only, from the moment they exist and whatever the umask.",
  ["histories","fault_sequences","configurations"], "all histories, including failing storage, damaged files, wrongly sized seeds and locked keys, under any umask",
  "No test looks at what is logged, at the text of errors, at file modes or at what else ends up in the files.",
  ["api.go","core.go","container.go"], [("key encoding","core.go:newPrivateKey, api.go:DeriveInto"),("file modes","container.go:writeKeyFile, openCache"),("log and error messages","api.go, container.go")],
  observe=["all outputs, errors, log messages, file contents and modes; system-call trace of file creation"])
p("C29", "Failures are reported as what they are",
  "An operation returns an error exactly when it failed, and then no other result: no key, signature, container, context or positive verdict. Without anything going wrong (in the storage, the message source, the operating system or the input) nothing fails. The error has a message; the error of the storage, message source or operating system that caused it is reachable through Inner() and part of the message; and Locked() is true exactly if the cause is that somebody else holds the key (or that the storage says so).",
  ["fault_sequences","inputs","histories"], "all failures of storage calls and message sources at any time, all file-system obstacles, held and stale locks, malformed inputs",
  "Tests hardly check errors: only that the second opener of a key is refused.",
  ["api.go","container.go","core.go","misc.go"], [("errors","misc.go:errorf, wrapErrorf; api.go:Error"),("locking","container.go:lock"),("wrapped causes","container.go, api.go")],
  observe=["returned values, Error(), Inner(), Locked()"])

p("C30", "Work that was done and kept is not done again",
  "Computing subtrees is nearly all the work there is. Every subtree that a signature needs is computed at most once while it stays in the cache: signing with an index of which the subtrees are cached computes none, whatever happened before (closing and reopening, also after a crash or a one-shot Sign; concurrent signers; damage of other subtrees); otherwise exactly those that are missing (or damaged) are computed. Opening a key computes none, unless the root is not cached; creating one computes one per layer; verifying none. With precomputation enabled, the next bottom subtree is in the cache once the background is at rest, and signing does not wait for it.",
  ["histories","cache_states","schedules","parameter_sets"], "all histories of signing, jumping, borrowing, precomputing, closing, reopening, losing and damaging the cache; sequential and concurrent",
  "Tests do not look at which subtrees are computed; all signatures are right whatever is computed in vain.",
  ["core.go","api.go","container.go"], [("cache use","core.go:getSubTree"),("precomputation","core.go:getSeqNo"),("one-shot use","api.go:Sign")],
  observe=["processor time used by an operation, in units of one subtree","contents of the cache"])
p("C31", "Keys, signatures and files of earlier releases stay usable",
  "Encodings and files mean the same to every release. Keys created or used by the library as it was at the pinned commit (key file, cache file, of the first format too) can be opened, continued and closed by this one, and the other way round, in any alternation and also if a process is lost; public keys, signatures, text forms, names, OIDs and parameter encodings are the same byte for byte, and signatures of each are accepted by the other. (Parameters for which the earlier release was defective are excepted.)",
  ["histories","parameter_sets","inputs"], "all alternations of releases on one key; all instance names; all parameters that the earlier release computes right",
  "Tests only use one release; what is written and read back by the same code may change unnoticed.",
  ["container.go","params.go","api.go"], [("file formats","container.go:fsKeyHeader, fsCacheHeader"),("encodings","params.go:MarshalBinary; api.go:MarshalBinary/Text"),("registry","params.go:registry")],
  observe=["files, encodings, names and signatures of a copy of the pinned library and of this one"])

p("C32", "Nobody waits for somebody else's message",
  "Signing and verifying read the message from a reader that may block for as long as it likes. While such calls wait for their messages, every other operation on the same key, its public key and its context goes on and finishes: signing across any number of subtrees, reserving, queries, precomputation, verification, and calls made by the reader itself. Once its message arrives (or fails), the call that waited finishes as if nobody else had been there: with a valid signature of an index nobody else used, the right verdict, or the error.",
  ["schedules","histories"], "all histories in which any number of signing and verifying calls wait for their messages, at any place in them, and go on in any order",
  "Tests pass messages as byte slices only, one after the other.",
  ["api.go","core.go","hash.go"], [("reading of messages","api.go:SignFrom, VerifyFrom; hash.go:hashMessageInto"),("locking","api.go:PrivateKey.mux"),("retirement","core.go:retireSeqNo")],
  observe=["return of the other calls, signatures, verdicts"])

p("C33", "Nothing is left behind",
  "After a key has been closed - or could not be created, opened, derived or signed with, for whatever reason - the library holds no file descriptor, no memory mapping, no goroutine and no lock for it, and, if nothing failed, leaves no files beside it other than the key file and its cache. Once what caused failures is over, closing succeeds. While a key is open, what the library holds for it (descriptors, mappings up to the subtrees that are cached, room in the cache file, goroutines, memory) does not grow with the number of operations done with it, whether they succeed or fail.",
  ["histories","faults","growth"], "all histories of creating, opening, using and closing keys, with failures at any of them, of any length",
  "Tests end before anything runs out, and do not look at what the process still holds.",
  ["container.go","api.go","core.go"], [("descriptors, mappings","container.go:lock, open, openCache, mmapSubTree, DropSubTree, closeCache, Close"),("goroutines","core.go:startPrecomputingNextSubTree, genSubTreeInto; api.go:PrivateKey.Close"),("retired indices","core.go:retireSeqNo, dropSubTree")],
  observe=["file descriptors, memory mappings, goroutines, heap, files in the key's directory"])

p("C34", "Keys do not influence each other",
  "Any number of keys, contexts, public keys and signatures may be used side by side in one process, one after another or at the same time, also when they share a context, parameters, seeds, a directory or a file name: each of them behaves exactly as if it were the only one. Its signatures, verdicts, indices, stored state and errors are what its own history calls for, and closing one, a failure of one, or slow storage of one has no effect on the others.",
  ["histories","schedules"], "all interleavings of histories of several keys, contexts and public keys, in one or several goroutines",
  "Tests use one key at a time.",
  ["api.go","core.go","container.go","hash.go","params.go"], [("contexts and scratch pads","api.go:Context; core.go:newScratchPad; hash.go:precomputeHashes"),("state of a key","api.go:PrivateKey"),("paths and locks","container.go:lock, unlock, fsContainersOpened")],
  observe=["signatures, verdicts, indices, errors, stored state of each key, against a run alone"])

p("C35", "The storage is used as its interface says",
  "A private key container is used as PrivateKeyContainer documents it: by one call at a time, by none before it is initialised (other than those that initialise or inspect it) and by none after Close; subtrees are asked for only if the key has them; the buffer of a subtree is neither read nor written outside its length, nor after the subtree was dropped or the container reset or closed, and the content of a new one is of no significance; the stored index is lowered only to return reserved indices that were not used and is never set beyond the capacity of the key. So with any container that fulfils the interface a key works as with those of the library.",
  ["histories","schedules","interfaces"], "all histories of operations on a key kept in any container that does what the interface says and no more, with failures, and from several goroutines",
  "Tests use the library's own container only, which tolerates more than the interface promises.",
  ["container.go","api.go","core.go"], [("interface","container.go:PrivateKeyContainer"),("uses","api.go:PrivateKey; core.go:getSubTree, getSeqNo, dropSubTree, startPrecomputingNextSubTree, newPrivateKey")],
  observe=["calls made to a container that checks them, memory next to and of dropped buffers, signatures"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), max(len(x["title"]) for x in P))
