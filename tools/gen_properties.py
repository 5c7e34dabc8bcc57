#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CTF = "go/cmd/ct-fetch/ct-fetch.go"; RFC = "go/cmd/ct-fetch/rfc6962.go"; TIL = "go/cmd/ct-fetch/tiled.go"
DB = "go/storage/certdatabase.go"; RC = "go/storage/rediscache.go"; ST = "go/storage/types.go"; TY = "go/types.go"
AK = "go/cmd/aggregate-known/aggregate-known.go"; AC = "go/cmd/aggregate-crls/aggregate-crls.go"; AU = "go/cmd/aggregate-crls/crl-auditor.go"
DL = "go/downloader/downloader.go"; VD = "go/downloader/verifying-downloader.go"; RP = "go/rootprogram/issuers.go"; CM = "go/cmd/commit/commit.go"
PUB = "moz_kinto_publisher/main.py"; WF = "workflow/__init__.py"

# ---------------------------------------------------------------- ingestion
prop("A01", "A log's saved position never runs ahead of its stored entries",
 "At every instant, including after a kill, a failing cache command or a shutdown signal, every unexpired non-root certificate entry whose index lies inside the position range saved for an enrolled CT log has already been written to the cache (or has since been moved to persistent storage). The saved range is never extended over an entry whose write has failed or has not yet been acknowledged.",
 ["schedules", "crash_points", "fault_sequences"], "every interleaving of the downloaders of several logs with the single writer, every kill point, every pattern of failing cache commands",
 "No unit test runs the fetcher at all; ordering of writes against the position save is only visible under crashes and cache errors.",
 [CTF, RFC, TIL, RC], [("entries and save-points share one ordered channel", CTF), ("the writer stores its queue before the save-point and retries both", CTF)],
 ["cache write commands", "saved log position"])
prop("A02", "Only entries authenticated by the log's Merkle tree advance its position",
 "The saved position of a log never covers an entry that does not hash to the subtree roots of the consistency proof the log returned for that range or, for a tiled log, to the signed tree head of the log. When a log serves altered, missing, repeated, reordered or surplus entries, a wrong or truncated proof, or a tree head with a bad signature (tiled), the position stops before the first affected entry, and the honest entries before it are unaffected.",
 ["inputs", "fault_sequences"], "every tree size, batch size, starting position and every tampering of entries, proofs, tiles and checkpoints",
 "The repository has no test for proof handling or the subtree verifier; tampering positions and tree shapes are unbounded.",
 [RFC, TIL], [("consistency proof split into subtrees and every subtree recomputed from downloaded leaves", RFC), ("sunlight client verifies checkpoint and tiles", TIL)],
 ["log server responses", "saved log position"])
prop("A03", "A log's saved range is contiguous and never shrinks across runs",
 "Over any sequence of completed, failed and killed single-pass fetcher runs against an append-only log, the saved range of a log stays one contiguous interval, its low end never rises and its high end never falls, and its oldest timestamp never rises and newest timestamp never falls. A run resumes next to the saved range: it never jumps over indices, neither at the new end nor at the old end.",
 ["histories", "crash_points", "fault_sequences"], "every history of runs, log growth, partial downloads and interruptions",
 "Needs multi-run histories with growth and partial failures; the existing tests have none.",
 [RFC, TIL, CTF], [("init, update and backfill tasks merge a verified subtree only when adjacent to the saved range", RFC), ("tiled reading restarts after the last saved entry", TIL)],
 ["saved log position"])
prop("A04", "Every entry of a healthy log is eventually ingested",
 "For a healthy log of either kind with any number of entries (more than three for a log that is verified by consistency proofs, at least one for a tiled log), any batch size of at least four, and any finite number of earlier interruptions, repeated fetching reaches a saved range covering every entry from the first to the last, with all of their unexpired certificates in the cache. Fetching never gets permanently stuck at a position short of that.",
 ["inputs", "histories", "configurations"], "every tree size, batch size, growth history and interruption point",
 "Progress over all sizes and partial downloads is a liveness property; no test drives the fetcher.",
 [RFC, TIL], [("task selection init/update/backfill/sleep", RFC), ("tiled update and forced update", TIL)],
 ["saved log position", "cache contents"])
prop("A05", "Entries are filed under the right issuer, expiry hour, log and serial",
 "Each unexpired certificate or precertificate entry with an issuer chain is stored exactly under the SHA-256 of the public key of the certificate authority that issues the final certificate (looking through a dedicated precertificate signing certificate), the hour in which it expires, the identity of the log, the log's timestamp and its exact serial number bytes. Expired entries and entries without an issuer are never stored, and nothing else is stored.",
 ["inputs"], "every combination of entry type, chain shape, serial bytes, expiry, log and timestamp",
 "Tests parse a few fixed certificates; they never run an entry from log to cache.",
 [RFC, TIL, DB, ST, TY], [("entry to issuer/serial/expiry mapping", RFC), ("same for tiled logs with issuer lookup by fingerprint", TIL), ("cache member encoding", ST)],
 ["cache write commands"])
prop("A06", "The newest timestamp claimed for a log is justified by what was ingested",
 "The newest timestamp saved for a log is never later than the newest timestamp of the ingested entries, except that once the saved range reaches the last entry of a tree head it may be the timestamp of that tree head; it is never earlier than that of any entry in the saved range. The oldest saved timestamp is never later than that of any entry in the saved range, and a log of which no entry was ingested claims nothing.",
 ["inputs", "histories"], "every assignment of entry timestamps (also out of order), tree head timestamps and pass histories",
 "Coverage honesty depends on timestamps of entries never seen; tests use no log.",
 [RFC, TIL, TY], [("timestamp bounds folded over verified subtrees only", RFC), ("tree-head timestamp used only when fully caught up", RFC)],
 ["saved log position"])
prop("A07", "Exactly the enrolled logs are ingested and a single pass finishes its work",
 "A single-pass run contacts and records exactly the logs marked enrolled in its configuration or in the remote log list, and no others. It exits only after every enrolled log has had its pass and everything fetched has been written, and a broken log does not keep the other logs from being ingested.",
 ["schedules", "configurations", "fault_sequences"], "every goroutine schedule at start-up and shutdown, every set of enrolled and broken logs",
 "Start-up and shutdown races only show under particular schedules; no test starts the engine.",
 [CTF], [("wait groups between enrolment, downloaders and the writer", CTF), ("enrolment map", CTF)],
 ["log servers contacted", "saved log positions at exit"])
prop("A08", "Transient cache failures neither lose entries nor stop ingestion",
 "After any pattern of failing or rejected cache writes (errors, out-of-memory replies, dropped connections) that ends with the cache working again, a fetcher that keeps running stores every entry and reaches the same positions as without the failures, without a restart. Until then it retries and saves no position beyond what is stored.",
 ["fault_sequences", "schedules"], "every placement and kind of cache failure in the stream of writes",
 "Needs failures injected between the individual writes of a batch and its save-point.",
 [CTF, RC], [("retry loop around store and save", CTF), ("client retries", RC)],
 ["cache commands", "saved log position"])

# ---------------------------------------------------------------- storage / commit
SS = [("cache", "sets of timestamped serials per issuer and expiry hour; log positions; generation; commit lock", RC), ("storage", "serial files per issuer and expiry, coverage file, generation file", DB)]
prop("S01", "An accepted serial is never lost between cache and storage",
 "Every serial accepted into the cache is, at every instant until its certificate's expiry hour, present in the cache or in persistent storage, through commits, concurrent ingestion, failed cache or disk operations, and kills at any point followed by any number of retries; the only exception is data loss by the cache server itself. In particular a serial leaves the cache only after it is readable in storage.",
 ["schedules", "crash_points", "fault_sequences", "histories"], "every interleaving of ingestion with the steps of a commit, every kill point, every failing operation",
 "The commit tests run one uninterrupted commit on an in-memory cache.",
 [DB, RC, CM], [("storage file replaced before the moved members are removed from the cache", DB)], ["cache commands", "storage directory"], SS)
prop("S02", "Published coverage never claims a certificate that storage does not hold",
 "At every instant, including between the steps of a commit, after a kill and while ingestion continues concurrently, every unexpired certificate that the persistent coverage metadata claims as covered (its log is listed and its timestamp is at or before the log's newest timestamp minus the maximum merge delay) and that had been ingested when that log position was saved is present in persistent storage.",
 ["schedules", "crash_points", "fault_sequences"], "every interleaving of ingestion and position saves with the steps of a commit, every kill point",
 "A test sees only the final state of one commit; the claim is about every intermediate state under concurrency.",
 [DB, RC, TY], [("coverage snapshot taken before serials are read and published after all were moved", DB), ("cut-off = newest timestamp - MMD", TY)], ["coverage file", "serial files", "cache commands"], SS)
prop("S03", "A commit moves exactly the covered serials to storage",
 "A successful commit moves every cached serial that is covered by the coverage metadata it publishes, every old-format entry that carries no timestamp, and nothing else; entries newer than their log's cut-off, or from a log the metadata does not list, remain in the cache unchanged. The cut-off of a log is its newest timestamp minus its merge delay in milliseconds, zero if that would be negative, and the boundary value itself is covered. The published coverage lists every log with a saved position, each with a position that was current at some time during the commit.",
 ["inputs", "histories"], "every set of cached entries over logs, timestamps around the cut-offs, old-format entries and positions",
 "Tests check a handful of timestamps and one log.",
 [DB, ST, TY], [("coverage test on each cached entry", ST), ("cut-off computation", TY)], ["cache contents", "storage directory"], SS)
prop("S04", "Stored serial files are exact, duplicate-free and only shrink by expiry",
 "After a successful commit each issuer-and-expiry file holds exactly its previous serials plus the newly covered ones, each once and byte-exact, under the right issuer and expiry with the right expiry line. Files disappear exactly when their expiry hour (or day, for day-granular files) has passed completely, and no other file is touched or removed.",
 ["inputs", "histories"], "every history of commits over issuers, expiries, serial byte strings, repeated serials and legacy file names",
 "Tests use a few serials in two bins and one commit.",
 [DB, TY], [("merge, deduplicate, write", DB), ("expiry test on file names", DB), ("expiry dates", TY)], ["storage directory"], SS)
prop("S05", "Readers and crashes never see a partially written storage file",
 "At every instant, including a kill in the middle of a write, each serial file, the coverage file and the generation file in persistent storage is either the complete previous version or the complete new version; files are replaced atomically and never modified in place.",
 ["crash_points", "schedules"], "every system call boundary at which a commit can be killed or a reader can look",
 "Tests look only after the commit has returned.",
 [DB], [("write to a temporary file and rename", DB)], ["system calls on the storage directory"], SS)
prop("S06", "Divergence between cache and storage is always detected and repaired",
 "If the cache was lost or rolled back relative to storage (or the reverse), a commit changes nothing in storage and fails, and the next start of the fetcher rewinds every log to the position last committed to storage and makes the following commit acceptable again, so that the skipped entries are fetched again. Consistent pairs are never rewound, and a commit that succeeds without a failed operation on the cache or on the generation file leaves a consistent pair.",
 ["histories", "crash_points", "fault_sequences"], "every history of commits, cache losses, cache roll-backs, restarts and kills inside commit and rewind",
 "The tests check a few epoch pairs on a mock; histories with losses and kills are unbounded.",
 [DB, RC, CTF], [("generation numbers: cache one ahead of storage", DB), ("reset of cached log positions from stored coverage", RC)], ["generation in cache and storage", "log positions"], SS)
prop("S07", "The commit lock is exclusive and commits require it",
 "At most one process holds the commit lock at any time; a commit attempted without holding it changes nothing, and releasing never removes a lock that meanwhile belongs to someone else. The lock is always taken with an expiry, so a dead holder blocks others only until then, and a finished holder releases it.",
 ["schedules", "crash_points"], "every interleaving of acquire, check, release and expiry among several processes, at the granularity of single cache commands",
 "Tests exercise the lock sequentially.",
 [RC, DB, AK, CM], [("set-if-absent with random token and expiry", RC), ("token comparison before commit and release", RC)], ["lock commands", "storage directory"], SS)
prop("S08", "Failed writes to persistent storage are never silent",
 "If writing, syncing or renaming serial data or coverage metadata fails at any point (disk full, I/O error), the command fails with a non-zero status, no serial is dropped from the cache unless it is readable in storage, and the published coverage does not advance past what is stored. The same holds for the known, revoked and issuer lists produced for the filter: a truncated list never goes with a successful exit.",
 ["fault_sequences"], "every file-system operation of a run failing with every error",
 "No test injects I/O errors.",
 [DB, AK, AC, RP], [("error propagation from buffered writers, close and rename", DB)], ["system calls", "exit status", "storage directory"], SS)
prop("S09", "An interrupted commit or rewind converges to the uninterrupted result",
 "If a commit or a start-up rewind is killed at any point, then after the next normal start-up and a successful commit the stored serials and the published coverage are what they would be had the interruption not happened, with no manual repair. Left-over temporary files or locks never make a later run fail once the lock has expired.",
 ["crash_points", "histories"], "every kill point in commit and rewind, repeated any number of times",
 "Needs a crash at every point and a recovery run after each.",
 [DB, RC, CTF], [("idempotent merge", DB), ("generation check and rewind", RC)], ["storage directory", "cache contents"], SS)
prop("S10", "Fetching never writes to persistent storage",
 "The fetcher treats persistent storage as read-only: no run of it, whatever the logs or the cache do and including the start-up rewind, creates, changes or removes anything under the storage directory, and a database opened read-only refuses to commit.",
 ["histories", "fault_sequences"], "every fetcher run, also with cache loss and failing logs",
 "No test runs the fetcher; the read-only flag is checked for one call.",
 [CTF, DB], [("storage opened read-only", CTF), ("commit refuses read-only storage", DB)], ["storage directory"], SS)

# ---------------------------------------------------------------- known lists
prop("K01", "Known-certificate lists are exactly the stored unexpired serials",
 "After a successful run, each enrolled issuer with stored serials has a list holding, for each expiry that has not passed, exactly the serials in storage at that moment under that expiry, and issuers that are not enrolled have none. The coverage file written next to the lists equals the coverage published in storage by the same run.",
 ["inputs", "configurations", "histories"], "every population of storage, enrolled set, legacy and expired files, and worker count",
 "No test runs the command.",
 [AK, DB], [("per-issuer workers concatenating all unexpired bins", AK)], ["known directory", "ct-logs output", "storage directory"])
prop("K02", "A run that could not produce complete known lists fails",
 "If a run is told to stop, cannot read a stored file, or cannot write a list or the coverage output, it exits with a non-zero status; exit status zero implies that every list is complete.",
 ["fault_sequences", "crash_points", "schedules"], "every moment of a stop signal, every unreadable or malformed stored file, every failing write",
 "No test runs the command, let alone with signals and I/O errors.",
 [AK], [("cancellation on error and error return on cancellation", AK)], ["exit status", "known directory"])
prop("K03", "Known lists and coverage are one consistent snapshot under the commit lock",
 "The commit lock is held from before serials are moved to storage until the last known list has been written, so that no other commit can change storage in between, and it is released at the end. Two overlapping runs never interleave: the second either waits or fails without touching storage.",
 ["schedules"], "every overlap of two committing processes",
 "Concurrency between processes is never exercised.",
 [AK, RC], [("lock acquisition with waiting, deferred release", AK)], ["lock commands", "storage directory"])

# ---------------------------------------------------------------- CRLs
prop("R01", "Only CRLs signed by an enrolled issuer's own key contribute revocations",
 "A revocation is attributed to an issuer only if it appears in a CRL that was obtained for that issuer and whose signature verifies under that issuer's certificate. Unsigned, altered, truncated, foreign-signed or non-CRL responses never add or remove a revocation, whatever servers return and whatever older files are on disk.",
 ["inputs", "fault_sequences", "histories"], "every response and local file content for every URL over several runs",
 "Tests check a few fixed files through one function.",
 [AC, VD], [("signature verification before acceptance and again before use", AC)], ["revoked directory", "crl directory"])
prop("R02", "An issuer's revocations are published all or nothing",
 "The revocation list of an issuer is written only if every one of its CRLs was obtained (freshly or as a still verifiable earlier copy), verified and fully processed; otherwise the issuer has no list at all rather than a partial one. A failure for one issuer never affects the list of another.",
 ["fault_sequences", "inputs", "schedules"], "every combination of per-URL outcomes over issuers and worker schedules",
 "Tests cover a few outcomes of single functions, no whole run over several issuers and URLs.",
 [AC], [("issuer dropped when any of its downloads or CRLs fails", AC)], ["revoked directory"])
prop("R03", "Published revocation lists are exact, including reason codes",
 "The list of an issuer holds exactly the union of the entries of all its CRLs: each revoked serial with its exact bytes and its reason code (zero when absent), and nothing else (the list is taken as a set of entries); an issuer whose CRLs are empty yields an empty or absent list.",
 ["inputs"], "every content of CRLs: number of entries, serial encodings, reasons, several CRLs per issuer, partitioned CRLs",
 "Tests use fixed CRLs and compare a few serials.",
 [AC, TY, DB], [("raw TBS decoding with serial bytes and reason", TY), ("list writer", AC)], ["revoked directory"])
prop("R04", "A good local CRL copy is never replaced by a bad one",
 "A CRL file on disk is replaced only by a complete response that verifies for its issuer, atomically; failed, truncated, unverifiable or interrupted downloads leave the previous copy as it was, and it is then used in their place. If neither a fresh nor a verifiable earlier copy exists the CRL counts as missing.",
 ["fault_sequences", "crash_points", "histories"], "every sequence of responses over runs and every interruption point of a download",
 "Tests cover three fixed download outcomes.",
 [VD, DL, AC], [("download to a temporary path, verify, rename, fall back", VD)], ["crl directory", "revoked directory"])
prop("R05", "Distinct CRLs never share a local file",
 "Different CRL URLs, and the same URL for different issuers, are kept in different local files across runs, and the same issuer and URL always map to the same file, so that one CRL is never read in place of another.",
 ["inputs"], "every set of URLs, also with equal last path segments, queries, encodings and dot segments",
 "Tests compare two URLs.",
 [AC], [("file name derived from issuer and full URL", AC)], ["crl directory"])
prop("R06", "The CRL audit reports every failed CRL",
 "The audit written by a run names every issuer and URL whose CRL could not be freshly obtained, verified or processed, with a kind that matches what happened, and contains no failure entry for a CRL that was processed without a problem.",
 ["fault_sequences", "inputs", "schedules"], "every combination of per-URL outcomes",
 "Tests check audit calls one by one.",
 [AC, AU], [("auditor calls at each failure site", AC), ("JSON report", AU)], ["audit file"])
prop("R07", "An interrupted CRL run does not report success",
 "If a run is told to stop before every issuer has been downloaded and aggregated, it exits with a non-zero status; exit status zero implies that every issuer was handled to the end.",
 ["crash_points", "schedules"], "every moment of a stop signal during download or aggregation",
 "No test sends signals to the command.",
 [AC], [("context cancellation in workers and in the main routine", AC)], ["exit status", "revoked directory"])

# ---------------------------------------------------------------- root program
prop("I01", "Exactly the unrevoked intermediates of the CCADB report are enrolled",
 "After loading a CCADB report the enrolled issuers are exactly the public keys of the intermediate-certificate rows that parse, are not marked revoked, and chain for TLS server authentication (through certificates of the report) to an unrevoked root of the report; whatever the order of rows, however many certificates share a key, and whatever malformed or repeated rows the report contains besides. A report that was not downloaded completely is never used: the enrolment then comes from the last complete report, or the load fails.",
 ["inputs"], "every report: row order, duplicate keys, revoked rows, malformed rows, extra columns",
 "Tests use a few fixed rows.",
 [RP], [("row filter and key-indexed issuer map", RP)], ["enrolled issuers output"])
prop("I02", "Each issuer is checked against every CRL URL the report discloses for it",
 "The CRL URLs used for an issuer are exactly the union, over all accepted rows with its public key (a row repeating a certificate already seen is skipped), of the full-CRL URL and all partitioned-CRL URLs of each row that are http or https URLs, without invented, dropped or malformed entries; the issuer is recorded as using partitioned CRLs exactly if one of its rows discloses some.",
 ["inputs"], "every report: full, partitioned, empty, repeated and malformed URL cells over rows sharing keys",
 "Tests use a few fixed rows.",
 [RP, TY], [("URL decoding from two columns, merge per issuer", RP)], ["URLs requested per issuer"])
prop("I03", "Saving and loading the enrolled list preserves every issuer",
 "The enrolled-issuer list that one command writes and the next one reads carries every issuer, unchanged and once each: membership, subjects and enrolment after loading equal those before saving, for any report.",
 ["inputs"], "every set of issuers, subjects with arbitrary characters, several certificates per key",
 "Tests round-trip one fixed list.",
 [RP], [("JSON encoding of issuers", RP)], ["enrolled file", "issuers accepted by the consumer"])

# ---------------------------------------------------------------- publisher
prop("P01", "Every published channel is one full filter plus one unbroken delta chain",
 "After every publishing run that reports success, from any earlier history, each channel in use holds nothing (as long as no run is complete) or exactly one full filter and deltas of which each updates the record published just before it (no branch, no gap, no record without artefact or malformed), with strictly increasing run times; a channel that was retired holds no records. A remote state or run history that is not like that (two full filters, a missing, malformed or re-parented record, equal or decreasing times) is detected and leads to a fresh full filter, never to an extended broken chain. A published record is never rewritten in place.",
 ["histories", "fault_sequences"], "every history of runs, remote states, missing artefacts, failed requests and killed publishers",
 "Tests check about twenty fixed record lists and one publish call at a time.",
 [PUB], [("consistency check of records against runs", PUB), ("publish decision", PUB)], ["records in the collection"])
prop("P02", "Publishing one channel never changes another channel's records",
 "Publishing, clearing or replacing the filters of one channel leaves the records and attachments of all other channels, and of channels unknown to the publisher, as they were. Every record published on a channel carries the artefact of its own run from that channel's own directory, the full filter or the delta as the record says, and is addressed (filter expression) to that channel.",
 ["histories", "configurations"], "every mixture of channels' records and every operation",
 "Tests use records of one channel.",
 [PUB], [("channel selection in clear and publish", PUB)], ["records in the collection"])
prop("P03", "Runs are published in order, at most once, only when complete and fresh",
 "Each run is published to a channel at most once and in run order, and carries the time of its run; only runs marked complete are used. A channel gets a fresh full filter of the newest run when and only when it needs one: it has none, its chain is broken, a published run is gone from the bucket, the new runs are not all complete with a delta and in order of time, or its full filter has reached the channel's age limit. Otherwise every new run is appended as a delta, none skipped, and nothing is deleted. While the newest run is incomplete nothing is published.",
 ["histories", "schedules"], "every history of runs with and without artefacts, ages, gaps, and runs appearing while the publisher works",
 "Tests check fixed sequences.",
 [PUB], [("run selection", PUB), ("age limit", PUB)], ["records in the collection"])
prop("P04", "Review is requested for intermediates only when remote equals local",
 "The intermediates publisher asks for review only when the remote collection holds exactly the local intermediates, each once and with its certificate attached; failed, partial or disturbed uploads never lead to a review request, and a run that leaves a difference does not report success. It deletes only records that are not in the local list, are unusable, or are surplus copies, and uploads only certificates of the local list.",
 ["histories", "fault_sequences"], "every pair of remote and local sets and every failing request",
 "Tests cover record construction and single updates, not synchronisation runs.",
 [PUB], [("post-upload comparison", PUB)], ["records in the collection", "review requests"])
prop("P05", "Log-list synchronisation preserves enrolment and mirrors the known logs",
 "After synchronising the list of logs, every log of the upstream list has exactly one record with its current metadata (description, key, URL, MMD, operator, whether it is tiled, whether its state is admissible), a log already present keeps its enrolment decision, new logs start enrolled, and logs that left the list are dropped; records that are up to date are not rewritten. An inconsistent upstream list or remote collection (two entries for one log) changes nothing.",
 ["inputs", "histories", "fault_sequences"], "every pair of upstream log list and existing records, and every failing request",
 "No test covers it.",
 [PUB], [("difference of record sets by log identity", PUB)], ["records in the collection"])
prop("P06", "A dry run of the publisher changes nothing",
 "With --noop the publisher deletes, creates, changes and submits nothing: filters, intermediates, logs and the review state of every collection are as before, whatever state they, the runs and the upstream lists are in.",
 ["inputs", "histories"], "every remote state and run history",
 "No test runs the publisher with --noop.",
 [PUB], [("every mutation guarded by the option", PUB)], ["requests that change the server"])
prop("P07", "What a successful publishing run changed is submitted for review",
 "When a publishing run reports success, every collection that it changed (published, deleted or updated records of filters, intermediates or logs, including the removal of unused channels) has been submitted for review after the last change. The publisher itself never moves a collection further than to review: it never signs.",
 ["histories"], "every remote state and run history",
 "Tests replace the review call or do not reach it.",
 [PUB], [("request for review after changes", PUB)], ["review requests", "records in the collections"])
prop("P08", "The publisher is never wedged by what earlier runs or others left behind",
 "An undisturbed publishing run over sound inputs (a consistent log list, a complete run) succeeds, whatever an earlier run that was killed or failed at any request, or somebody editing records, left in the collections: malformed records, records without attachment, broken chains, duplicate filters or intermediates, records of runs that are gone, strange object names in the bucket.",
 ["histories", "crash_points", "fault_sequences"], "every state reachable by killed and failed runs and by edits of records, followed by an undisturbed run",
 "Tests start from hand-made healthy states.",
 [PUB, WF], [("tolerance of malformed records", PUB), ("choice of run identifiers", WF)], ["exit code", "records in the collections"])

prop("P09", "Automatic sign-off signs only what waits for review, as it was read",
 "The sign-off tool changes nothing but the status of the collection it was asked to sign, and only from waiting for review (to-review) to waiting for the signature (to-sign), in the state in which it read it: a collection that somebody edits or takes back between the read and the request is not signed. A dry sign-off (--noop, or KINTO_NOOP set to anything) changes nothing. The sign-off script does not sign cert-revocations when the filter it looks at is larger than max_filter_size. Success is not reported while the collection still waits, and a waiting collection is signed when nothing stands in the way.",
 ["histories", "schedules", "crash_points", "fault_sequences"], "every status, every edit between the requests, every request failing before or after its effect, kills, every size around the limit",
 "There is no test of the sign-off tool.",
 ["containers/scripts/crlite-signoff-tool.py", "containers/scripts/crlite-signoff.sh"], [("conditional change of the status", "containers/scripts/crlite-signoff-tool.py"), ("limit on the size", "containers/scripts/crlite-signoff.sh")], ["status of the collections", "exit code"])

# ---------------------------------------------------------------- workflow
prop("W01", "Run identifiers are unique and sort in order of allocation",
 "A newly allocated run identifier is never one that the bucket or the workspace holds already, and it sorts after every identifier in the bucket under the ordering that the publisher uses (date, then number), for any number of runs per day, a clock that moves back, and any other content of the bucket and workspace. When nothing stands in the way of the listing, an allocation succeeds, whatever runs that died or failed before uploading anything left in the workspace.",
 ["histories", "inputs", "crash_points"], "every history of allocations, dead runs and dates, and every listing",
 "Tests sort a few fixed names.",
 [WF, "workflow/0-allocate_identifier"], [("identifier normalisation and allocation", WF), ("choice of the next number", "workflow/0-allocate_identifier")], ["identifiers listed and allocated", "directories of the workspace"])
prop("W02", "A run is marked complete only after all its artefacts are uploaded",
 "Whatever collector, generator or upload fails and wherever the workflow is killed, a run never carries its completion marker in the bucket unless every file of its filter directories, and the full filters of both reason sets among them, has been uploaded as it is in the workspace. A run of which a collector or generator failed is not marked and not reported as a success. An upload that succeeds has marked its run; a dry upload writes nothing; a complete run is never changed again, no upload changes another run, and nothing is removed.",
 ["crash_points", "fault_sequences", "histories"], "every collector, generator or upload failing, the process dying before or after any request, repeated uploads, any files in the filter directories",
 "No test covers the uploader or the driver script.",
 ["workflow/3-upload_mlbf_to_storage", "workflow/1-upload_data_to_storage", WF, "containers/scripts/crlite-generate.sh"], [("order of uploads", "workflow/3-upload_mlbf_to_storage"), ("stop at the first failing step", "containers/scripts/crlite-generate.sh")], ["objects in the bucket"])
prop("W03", "The delta of a run continues from the run before it",
 "For each reason set, whatever the history of revocations (new ones, withdrawn ones, changes of reason) and of failed, killed and repeated runs, when a complete run follows a complete run, every serial that its full filter decides is revoked is decided by the full filter of the run before it or by its own delta; its delta holds nothing that its full filter does not; and after undisturbed runs the delta repeats nothing the previous run decided.",
 ["histories", "crash_points", "fault_sequences"], "every history of revocations and reasons over several runs, with any upload failing or the workflow dying at any request",
 "No test covers the choice of the revoked set that a run's delta is taken against.",
 ["workflow/2-generate_mlbf", "workflow/3-upload_mlbf_to_storage"], [("choice of the previous revoked set", "workflow/2-generate_mlbf"), ("publication of the latest revoked set", "workflow/3-upload_mlbf_to_storage")], ["filters and deltas in the bucket"])

# ---------------------------------------------------------------- filter generation
prop("X01", "Generated filters decide every known certificate correctly",
 "A generated filter answers revoked for exactly the known certificates that are revoked for a selected reason, and applying a delta to the previous filter's decisions gives the decisions of the full filter of the same run.",
 ["inputs", "histories"], "every known/revoked population and every chain of runs",
 "Rust tests cover small fixed sets.",
 ["rust-create-cascade/src/main.rs", "rust-create-cascade/src/clubcard_helper.rs"], [("revoked set difference and approximate-membership construction", "rust-create-cascade/src/main.rs")], ["filter files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
