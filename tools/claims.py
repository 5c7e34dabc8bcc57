TV = "TLA+ design checked by TLC; scripts from its behaviours and enumerated faults/kills/schedules run on the real programs, whose recorded effects are validated against the TLA+ spec"
NOTE = "Exhaustive for the design (Store/MCCommit) within small bounds; for the code, every explored scenario (real commit, aggregate-known and start-up check against a real cache server, kills/faults at every cache command and file operation, scripted interleavings) is replayed through the same TLA+ properties. Trusts: the recording proxy and tracer, TLC, the cache server."
for i, t in (("S01", ""), ("S02", " Known finding S02-window."), ("S03", ""), ("S04", ""), ("S05", ""), ("S06", ""), ("S07", ""), ("S08", " Revoked lists: covered under R02/R07 runs."), ("S09", ""), ("S10", ""), ("K01", ""), ("K02", ""), ("K03", "")):
    CLAIMED[i] = (TV, "model_checking", NOTE + t)
FN = "Exhaustive for the design of ingestion (Fetch/MCFetch: worker, writer, growth, lies, kills, cache loss; liveness under fairness) within small bounds; for the code, every explored scenario (the real ct-fetch against RFC 6962 and tiled logs under the harness' control and a real cache server: kills/faults at each request and cache command, misbehaving logs, growth, sizes, behaviours of the design) is replayed through the same TLA+ properties. Trusts: the fake logs, the recording proxy, TLC, the cache server."
for i, t in (("A01", ""), ("A02", ""), ("A03", " Monotonicity is judged for runs that end by themselves (not runForever)."), ("A04", " Liveness of the code is judged at the end of runs on quiet logs."), ("A05", ""), ("A06", ""), ("A07", ""), ("A08", " Refused writes only; a fetcher told to run forever may give up on a log whose state cannot be read.")):
    CLAIMED[i] = (TV, "model_checking", FN + t)
FC = "Exhaustive for the design of a run of aggregate-crls (Crl/MCCrl: two issuers sharing threads, answers, verification, rename, lists, audit, signals, kills, faults, damaged copies) within small bounds; for the code, every explored scenario (the real aggregate-crls over several runs against servers of the harness, with every kind of answer, altered and foreign CRLs, entries, URL pairs, file faults, kills and signals at requests and file operations) is validated against Crl.tla; not exhaustive for the code. Queries that url.ParseQuery reads alike count as the same URL; fragments and user info are not explored."
for i, t in (("R01", ""), ("R02", ""), ("R03", ""), ("R04", ""), ("R05", ""), ("R06", " Faults of the audit file itself are not injected."), ("R07", "")):
    CLAIMED[i] = (TV, "model_checking", FC + t)
FR = "Exhaustive for the design of a load of the CCADB report (Roots/MCRoots: download, rows in every order, revocation, paths, shared keys, kills, repeated loads) within small bounds; for the code, every explored scenario (the real ct-fetch / aggregate-crls / aggregate-known / get-mozilla-issuers on generated reports: certificate graphs, row orders, cells, malformed rows, refreshes cut at any byte, behaviours of the design) is validated against Roots.tla. Where X.509 leaves room (path-length limits above a cached sub-path, non-CA rows, several roots with one key) the specification accepts either answer."
for i, t in (("I01", " A structurally broken CSV refuses the whole report, which is accepted."), ("I02", ""), ("I03", "")):
    CLAIMED[i] = (TV, "model_checking", FR + t)
FP = "Exhaustive for the design of the publisher (Publish/MCPublish: runs, times, two channels, retired channels, tampering, failing requests, kills, races with new runs, intermediates, logs) within small bounds; for the code, every explored scenario (the real moz_kinto_publisher/main.py executed as a program in a simulated world: settings server, bucket, upstream lists, clock; behaviours of the design, kills and faults at every request, tampered records, odd buckets, lying answers) is validated against Publish.tla. The client libraries (kinto_http, google.cloud) are replaced by stand-ins with their interface; changes of records by others while the publisher runs exempt the filter verdicts of that run."
for i, t in (("P01", ""), ("P02", ""), ("P03", ""), ("P04", " A change made between the read-back and the request for review is not judged."), ("P05", ""), ("P06", ""), ("P07", ""), ("P08", " A record whose attachment is gone from the server, or that lacks the fields the loader needs, is not judged.")):
    CLAIMED[i] = (TV, "model_checking", FP + t)
FW = "Exhaustive for the design of a run of the workflow (Workflow/MCWorkflow: allocation, dates, generation for two reason sets, uploads with failures and deaths at each, repeated uploads, wiped workspaces) within small bounds; for the code, every explored scenario (the real scripts of workflow/, one by one or through the real crlite-generate.sh, against a bucket of the harness: odd listings, dates, failing collectors and generators, failures and kills at every request, histories of revocations, behaviours of the design) is validated against Workflow.tla. The generator (Rust, not buildable here) is replaced by a stand-in that takes revoked sets and deltas as rust-create-cascade does, the collectors by stand-ins, google.cloud by a stand-in with its interface."
for i, t in (("W01", " Allocators on several machines at once, and the removal of the newest run from the bucket, are not judged."), ("W02", ""), ("W03", " Nothing is required of a run that follows an incomplete one.")):
    CLAIMED[i] = (TV, "model_checking", FW + t)
CLAIMED["P09"] = (TV, "model_checking", "Exhaustive for the design of the sign-off (Signoff/MCSignoff: statuses, edits at any moment, failing requests, deaths, the size limit) within small bounds; for the code, every explored scenario (the real crlite-signoff-tool.py, and the real crlite-signoff.sh as a program) is validated against Signoff.tla. kinto_http is replaced by a stand-in with its interface (conditional requests included). Known finding P09-nosize.")
