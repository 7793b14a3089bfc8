"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S="src/backy/"
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[S+f for f in files],mechanism=[dict(name=mech,where=S+files[0])])))

p("C01","Restore returns the image exactly as it was when it was snapshotted",
"Restoring a complete revision of an RBD image, to a new file, over an existing larger or smaller file, or to stdout, yields exactly the bytes the image had when that revision's snapshot was taken. This holds whatever mix of full and incremental backups, image growth and shrinking, discarded regions, tag changes, distrust, verification, removal, expiry and garbage collection happened before the revision was made or since.",
["histories","inputs"],"all sequences of image mutations and backy commands; all image sizes and contents; both rbd diff granularities",
"The tests back up one or two small hand-written images; fidelity quantifies over every history of diffs, resizes and housekeeping and over which chunks are shared between revisions.",
["rbd/__init__.py","rbd/rbd.py","rbd/chunked/file.py","rbd/chunked/chunk.py","rbd/chunked/store.py","utils.py"],
"backup = snapshot + export or export-diff integrated into a chunk-mapped file copied from the newest trusted parent that still has a snapshot; restore = sequential read of the mapping")
p("C02","The chunked file behaves like a flat byte array",
"For every sequence of reads, writes, seeks (also past the end of a writable file, which fills with zeroes), truncation to a shorter or equal length that leaves the position within the file, flush, close and reopening in any supported mode, a chunked file returns the same data, positions and size as a plain byte array would. What was written before a close is what a later open reads, through any number of other chunked files that share chunks in the same store.",
["histories","inputs"],"all operation sequences, offsets and lengths relative to the 4 MiB chunk grid and the in-memory flush threshold",
"The tests use a handful of offsets and never exceed a few chunks; eviction of partially written chunks, sharing and re-opening interact only in longer sequences.",
["rbd/chunked/file.py","rbd/chunked/chunk.py","rbd/chunked/store.py"],
"position to chunk id/offset arithmetic, LRU-like eviction with write-back, mapping written on flush")
p("C03","Garbage collection deletes nothing that is needed and keeps nothing else",
"Garbage collection never removes data that any local revision still present in the repository needs, including a revision that another process completes or is still making while the collection runs. After a collection that ran alone succeeds, no stored chunk remains that no local revision refers to, and every local revision is still restorable exactly as before.",
["histories","schedules"],"all repository histories; all interleavings of collection with backups, verification and restores in other processes",
"The tests purge a store with a hand-made set of used chunks in one process; neither sharing patterns nor a backup that completes between reading the revisions and purging are exercised.",
["rbd/__init__.py","rbd/chunked/store.py","repository.py"],
"used set = union of the mappings of the local history, everything else in the store is unlinked under the exclusive purge lock")
p("C04","A damaged store never yields a wrong restore that claims success",
"If stored chunk data is damaged in any way (bits flipped, truncated, extended, emptied, swapped with another chunk, replaced by other valid compressed data) or missing, or a revision's chunk map is missing or cut short, then restoring a revision either produces exactly the original bytes or fails with a non-zero exit status. An incremental backup made on top of such damage likewise never ends in a successfully restorable complete revision with wrong content.",
["inputs","fault_sequences"],"all corruption kinds, positions and affected revisions",
"The tests corrupt one byte in one chunk and call the chunk reader; the end-to-end exit status and the effect on later incremental backups are not quantified.",
["rbd/chunked/chunk.py","rbd/chunked/file.py","rbd/__init__.py","source.py"],
"every chunk read is decompressed and re-hashed against its name; errors propagate to exit status 1")
p("C05","Verification marks good revisions verified and removes bad ones",
"Verifying a complete local revision marks it verified exactly when each chunk it refers to is intact, chunks already vouched for by a verified revision aside; otherwise the revision is removed, the damaged chunk it met is deleted from the store and no other revision is removed or marked. Revisions and data that are intact survive any verification unchanged.",
["histories","inputs"],"all sets of revisions with shared chunks, all damage patterns, all orders of verification",
"The tests verify one revision with one prepared fault; sharing with verified and unverified revisions and repeated verification are not covered.",
["rbd/__init__.py","rbd/chunked/chunk.py"],
"set of chunk hashes of the revision minus those of verified revisions are read back; first error removes chunk and revision")
p("C06","Distrust makes the next backup rebuild data instead of reusing it",
"While any complete local revision is distrusted, a backup is never based on a distrusted revision and physically rewrites every chunk it stores even if one with that name exists already. So a backup made after all local revisions were distrusted, by command or because the backup itself met a damaged chunk, is complete and restores exactly although any or all previously stored chunks were damaged.",
["histories","fault_sequences"],"all distrust patterns, damage patterns and the backups that follow them",
"The tests check that a log line or flag is set; whether chunks that already exist are really rewritten depends on history and damage the tests never create.",
["repository.py","revision.py","rbd/__init__.py","rbd/chunked/chunk.py"],
"parent selection skips distrusted revisions; store is switched into force-write mode when the history contains distrusted revisions")
p("C07","A crash at any point leaves every complete revision intact",
"If a backup, tag change, distrust, removal, expiry, verification or garbage collection is killed at any moment, then every revision that was complete before and that the command was not told to remove is still listed as complete and restores exactly, no metadata file is unreadable, and a revision listed as complete restores exactly. Running the interrupted kind of command again, or a new backup, succeeds and cleans up after the crash.",
["crash_points","histories"],"every file system operation of every command as the crash point, from varied repository states",
"The tests never kill a process; atomicity is a statement about every prefix of the file system operations.",
["rbd/__init__.py","revision.py","utils.py","rbd/chunked/file.py","rbd/chunked/chunk.py","repository.py"],
"temp file + rename for metadata and chunks; revision counts as complete only once its metadata carries a duration; incomplete ones are cleaned at the next backup")
p("C08","Failed I/O or a failing rbd never produces a complete but wrong revision",
"If any write, rename, sync or other file system operation of a backup fails (no space, I/O error), or any rbd invocation fails, also after having delivered part or all of its output, or a diff stream ends early, then the backup either still ends with an exactly restorable complete revision or exits with a non-zero status and leaves no complete revision for this attempt. Previously complete revisions keep restoring exactly and the next undisturbed backup succeeds.",
["fault_sequences","inputs"],"every operation and every rbd call as the failing one, every truncation length of the diff and export streams",
"The tests mock the rbd calls and never fail a system call; the statement quantifies over each individual failure point.",
["rbd/__init__.py","rbd/rbd.py","rbd/chunked/file.py","rbd/chunked/chunk.py","source.py","cli/__init__.py"],
"exit status of rbd and exceptions from the file layer abort the backup before the revision is marked complete")
p("C09","Data is durable before its revision is marked complete",
"At the moment a revision's metadata first says that it is complete, all data the revision needs and that was written for it (chunks, chunk map or file copy) has already been flushed to stable storage, and the metadata file itself is flushed before it replaces the previous one. Hence a power failure can never leave a revision that is listed as complete but misses data.",
["crash_points","histories"],"every backup in every history, every ordering the file system may choose for unflushed operations",
"Page-cache state is invisible to tests; only the order of write, sync and rename events decides it.",
["rbd/__init__.py","file/__init__.py","utils.py","rbd/chunked/file.py"],
"os.sync()/fsync before the metadata rename")
p("C10","Conflicting operations on one repository exclude each other",
"While a backup of an RBD image or a change of revision metadata (tags, distrust, removal, expiry) is running on a repository, any other such operation from another process or from the daemon fails without changing anything; the gc command is refused while a backup, verification or restore runs, and neither a backup nor a verification touches data while a collection runs. Restores run alongside a backup, and once the holder finished or was killed the refused operation succeeds.",
["schedules"],"all pairs of operations, with one of them stopped at varied points while the other is attempted",
"The tests take locks twice in one process; real exclusion concerns separate processes and every point within the holder's critical section.",
["repository.py","rbd/__init__.py","source.py","cli/__init__.py"],
"flock on .backup (exclusive, non blocking) and .purge (shared/exclusive) in the repository directory")
p("C11","Concurrent commands behave as if they ran one after the other",
"When two commands (backup, tags, distrust, verify, rm, expire, gc, list) run concurrently on one repository, the resulting set of revisions with their tags, trust states, completeness and contents is one that some order of running them one after the other gives, where a command that reports failure may instead have had no effect or only that of its first steps, revisions are selected when a command starts, and the steps of a command (for a backup: cleaning up and recording an incomplete revision, taking the backup, cleaning up; for gc --expire: expiring, collecting) count as commands of their own. In particular no tag update is lost, no removed revision comes back, no completed revision disappears, and listing never fails because of the other command.",
["schedules"],"all pairs of commands and all points at which one is suspended while the other runs",
"Needs two processes and a controlled preemption between reading state and taking the lock; the tests are single process.",
["repository.py","revision.py","rbd/__init__.py","cli/__init__.py"],
"operations must re-read state after acquiring the lock")
p("C12","Expiry removes exactly what the schedule allows",
"Expiry takes a scheduled tag off a revision exactly if the tag has at least as many newer holders as the schedule keeps and the revision is older than keep times the interval, takes off tags the schedule does not know, never touches manual: tags, and removes exactly the revisions left without tags (for a revision owned by another server it only empties the tag set and leaves the removal pending). All other revisions, tags and metadata stay as they were.",
["histories","configurations","inputs"],"all revision sets, tag assignments, schedules and clock values",
"The tests use single hand-made histories; the interaction of several tags, keep counts, age thresholds, foreign and manual tags needs exploration against an independent model.",
["schedule.py","repository.py","revision.py"],
"three phases: per-tag expiry, foreign-tag removal, removal of untagged revisions")
p("C13","Backups are scheduled at every interval, spread evenly, and missed ones made up",
"The next backup time is strictly in the future and, per tag, on a fixed grid of one point per interval that is shifted by an amount that differs between jobs but is fixed by the job's name and schedule; the next run carries every tag whose grid point it is and every tag without a complete backup within its interval. If such a tag is missing, there is already some history and the next regular time is more than five minutes away, the backup is due immediately; otherwise at the next regular time.",
["inputs","configurations","histories"],"all clock values, intervals, tag combinations, job names and histories",
"The tests check a few dates for one schedule; grid, bound and catch-up rules are arithmetic facts over all inputs.",
["schedule.py","daemon/scheduler.py"],
"next_in_interval arithmetic from the epoch plus spread; missed tags from last_by_tag")
p("C14","Staleness is reported exactly when the last good backup is too old",
"A job is reported as violating its SLA exactly when it has a complete backup and the newest one is older than 1.5 times the smallest interval in its schedule. backy check exits with 2 in that case, with 1 if only problem reports are present and with 0 otherwise, and the daemon's status shows the same verdict along with the true last backup, next run, and counts of local revisions, unsynced changes and problem reports.",
["histories","configurations","inputs"],"all histories, schedules, clock values, report sets",
"Tests cover single examples near no boundary; the verdict depends on incomplete and remote revisions, several intervals and the clock.",
["repository.py","cli/__init__.py","daemon/__init__.py","report.py"],
"sla_overdue over the clean history; exit code aggregation; status()")
p("C15","The daemon keeps running every job, one at a time, within its worker limits",
"Every configured job is run again and again whatever its backup, expiry, collection, peers or callback do: after a failure it is retried after 2, 4, 8, ... minutes, at most six hours, and the series restarts after a success. A job never runs two backups at once, no more than the configured number of jobs run at once in the fast and in the slow class, and a request to run a waiting job now starts it without waiting for its time. Jobs that a reload stops or restarts in the middle of a run give their place back, so as many waiting jobs run as there are free places.",
["schedules","histories","fault_sequences"],"all sequences of outcomes and failures, job sets, worker limits, times of run requests",
"The tests run single iterations with mocks; liveness and limits are statements about long runs with many jobs and failures.",
["daemon/scheduler.py","daemon/__init__.py"],
"run_forever loop with exponential backoff, bounded semaphores per speed class, run_immediately event")
p("C16","Revision specifications select what the manual says",
"For every revision specification built from the documented forms (number, id, first, last, latest, tag:, trust:, server:, local, remote, all, clean, ranges, dates, intersections, lists, parentheses, first(), last(), not(), reverse()) the selected revisions and their order are as documented, and specifications without an answer are rejected instead of selecting something else. Commands that print revisions print nothing else on standard output.",
["inputs","histories"],"all specification expressions over all histories",
"The tests enumerate a list of examples; composition of operators over arbitrary histories is open-ended.",
["repository.py","utils.py","cli/__init__.py"],
"recursive evaluation of a token list")
p("C17","Revision metadata survives storing, listing and transfer unchanged",
"The id, time, statistics, tags, original tags, trust state and server of a revision read back from disk, from the machine-readable listing or by a peer through the API are equal to what was stored, for any tags and any values. Rewriting a revision's metadata changes nothing but what was asked for, and the history is always ordered oldest first with every stored revision in it once.",
["inputs","histories"],"all metadata values including unusual tag texts and time stamps, all numbers of rewrites",
"Tests round-trip one revision with plain ASCII tags.",
["revision.py","repository.py","daemon/api.py","utils.py"],
"YAML file per revision; JSON encoding in API and log --json")
p("C18","Tag changes apply completely, to the selected revisions only, or not at all",
"A tag command changes exactly the selected revisions in exactly the asked way (set, add, remove); with an expectation that any selected revision does not meet, with tags the schedule does not know (unless forced or removing), or with an unknown revision, it changes nothing and exits non-zero. With automatic removal, selected revisions left without tags are removed and no others; the peer API's tag update obeys the same rules as a compare-and-set and answers with the documented status.",
["inputs","histories"],"all histories, selections, tag sets, expectations and option combinations",
"Tests cover a few combinations on one to three revisions.",
["repository.py","cli/__init__.py","daemon/api.py","revision.py"],
"check expectations for all, then apply to all, under the exclusive lock")
p("C19","The API answers only requests carrying a currently valid token",
"Every API request without a bearer token that is valid in the most recently loaded configuration is answered with 401 and has no effect, whatever the route, method, header form or order of configuration reloads and listener changes. Requests with a valid token are served according to the route and never with 401.",
["inputs","configurations","histories"],"all routes, header forms, token sets and reload sequences",
"Tests check one missing and one wrong token on one route.",
["daemon/api.py","daemon/__init__.py"],
"authentication middleware in front of all routes; tokens replaced on reconfigure")
p("C20","Metadata exchange between servers converges and stays within its rights",
"Pulling makes the local view of each reachable peer's revisions of a job equal to that peer's own complete revisions (none for peers that do not have or no longer share the job), leaves it alone for a peer that cannot be reached, drops revisions of peers no longer configured, and never changes local revisions. Pushing sends each locally changed tag set to the owner, which applies it only if its tags are still what they were and only while it has no active job of that name, removes the revision if no tags are left and then schedules a purge; afterwards both sides agree, and a refused change stays pending.",
["histories","fault_sequences"],"all combinations of peers' states, local edits, concurrent remote edits and network failures",
"The tests use one or two peers with single revisions; convergence is over sequences of edits, pulls and pushes with failures.",
["daemon/scheduler.py","daemon/api.py"],
"pull_metadata/push_metadata over the HTTP API with compare-and-set on tags")
p("C21","A duplicated job is left to the server that has most backups, and only to it",
"When its time comes and no immediate run was requested, a job is skipped in favour of a peer exactly if some reachable peer has more complete local backups of it than this server, and that peer reports a complete backup not older than five minutes before the due time; the job backs up itself as soon as that peer is idle, not scheduled within five minutes, unreachable, or a run is requested. Peers that fail, time out or do not know the job never prevent the job from being backed up and never hide another peer that leads.",
["schedules","fault_sequences","configurations"],"all peer counts, revision counts, status sequences and failures",
"The tests script a few status sequences for one or two peers.",
["daemon/scheduler.py"],
"_wait_for_leader polling the peers' status every five minutes")
p("C22","After a reload the daemon runs exactly the configured jobs",
"After any sequence of configuration changes and reloads the set of scheduled jobs, their source settings, schedules, API listeners and tokens, peers and worker limit are those of the last configuration that was loaded; jobs whose configuration did not change are not disturbed and directories without a job are offered as dead backups. A second daemon on the same base directory refuses to start while the first one runs.",
["configurations","histories","schedules"],"all sequences of configurations and moments of reload",
"The tests reload once or twice with one changed job.",
["daemon/__init__.py","daemon/scheduler.py","daemon/api.py","source.py"],
"_read_config/_apply_config diffing, api reconfigure loop, flock on <base>.lock")
p("C23","Housekeeping deletes only directories untouched for three months",
"The daemon's clean-up of the base directory removes a directory exactly when nothing in it, at any depth, was modified within the last 93 days; it never removes or follows symbolic links, never removes plain files, and an error with one directory neither ends it nor keeps it from the others. Requested purges of backups without a job are carried out in every daily round, exactly for the directories where they were requested, until they succeed; one that cannot be carried out does not keep the others from it.",
["inputs","histories","fault_sequences"],"all directory trees, modification times, links and failures",
"Tests cover one old directory and one recent file.",
["daemon/__init__.py","utils.py"],
"breadth-first mtime scan with lstat, rmtree; .purge_pending markers")
p("C24","Backups leave foreign snapshots and devices alone and clean up their own",
"A backup run, whether it succeeds or fails, deletes only snapshots of its image whose names start with backy-, keeps the one belonging to the newest complete local revision, also if the backup failed (none when always making full backups), removes all other backy- snapshots it can remove and leaves no device mapped as far as rbd reported the mapping. Incremental exports are always requested relative to a snapshot that exists and belongs to a trusted local complete revision's data.",
["histories","fault_sequences"],"all snapshot sets, naming, failures of single rbd calls",
"Tests mock the client with two or three fixed snapshot names and no failures.",
["rbd/__init__.py","rbd/rbd.py"],
"_delete_old_snapshots on leaving the context; image_reader context manager unmaps")
p("C25","A malformed diff stream is rejected, a valid one is applied exactly",
"Applying any byte stream as an incremental diff either has exactly the effect the rbd diff v1 format prescribes or raises an error; streams that end early, have wrong headers or snapshot names or unknown or misplaced records are rejected. Whether extents are split or merged, ordered differently or empty data extents are added makes no difference to the result.",
["inputs"],"all byte streams, all splits of equivalent diffs",
"The tests parse a few hand-made records.",
["rbd/rbd.py","utils.py","rbd/chunked/file.py"],
"RBDDiffV1 reader state machine and integrate()")
p("C26","Exit status and problem reports tell the truth",
"A backy command exits zero only if everything it was asked to do was done: failures or crashes of the worker process it starts, in backup, restore, verify and gc, make it exit non-zero. A backup whose check against the source finds a difference produces no complete revision, exits non-zero and leaves a problem report naming the offset with both versions of the data; reports can be listed, shown and deleted and exactly those deleted are gone.",
["inputs","fault_sequences","histories"],"all commands, worker outcomes (status or signal) and report sets",
"Tests assert the happy path and few failures with mocked workers.",
["cli/__init__.py","source.py","report.py","rbd/__init__.py","repository.py","utils.py"],
"return codes of subprocesses propagate through Command.__call__; ChunkMismatchReport in quarantine directory")
p("C27","The file source backs up, restores and keeps plain files exactly",
"With the file source, every complete revision restores to exactly the bytes the source file had at backup time, whatever other backups, tag changes, removals, verification and garbage collection happen. Garbage collection removes no metadata or data of any present revision. Commands may run at the same time and be killed at any point: no tag change that was acknowledged is lost and no complete revision disappears unless it is removed.",
["histories","inputs","schedules","crash_points"],"all command sequences, interleavings, kill points and contents",
"The tests make one backup and check one file.",
["file/__init__.py","source.py","repository.py"],
"plain copies named by revision id next to the metadata files")
p("C28","Snapshot requests of other machines in Consul are never touched",
"When snapshots are made through Consul, a backup waits for the requested snapshot, falls back to creating it directly after the timeout and proceeds in either case; afterwards no backy request for its own machine remains, unparsable requests are removed, and requests for other machines or with other names are unchanged. This holds for any contents of the request area and any moment at which the snapshot appears.",
["inputs","schedules","fault_sequences"],"all request sets including garbage, all delays of the snapshot agent",
"Tests use one prepared list of requests.",
["rbd/__init__.py"],
"PUT of a request key, polling of snap ls, clean-up loop in finally")
p("C29","Files replaced in place are never seen half-written",
"A file that backy replaces (revision metadata, job configuration, problem reports) is at every moment either the complete old or the complete new version for any reader, an update that fails leaves the old version, and no temporary files are left by updates that return. A job's stored configuration always equals its current settings after a reload.",
["schedules","fault_sequences","crash_points"],"all moments at which a reader looks, all failure points",
"Tests check the result after completion, never during or after a failure.",
["utils.py","revision.py","source.py","report.py"],
"SafeFile writes a temporary file in the same directory, fsyncs and renames")

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
