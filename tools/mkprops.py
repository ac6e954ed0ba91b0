import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":q},why_tests_cant=why,anchors=a))

p("P01","Interrupted indexing is always recoverable",
"If `notmuch new` is stopped at any point (killed, interrupted, or by power loss), the database it leaves opens without repair, still holds everything committed before the run started, and describes each message either completely or not at all. Running `notmuch new` again to completion then yields the same messages, files, tags and search results as a run that was never stopped.",
["crash_points","histories"],
"Every system call boundary of every `notmuch new` run, over generated mail trees with additions, removals, renames, duplicates and flag changes since the last run; process kill, SIGINT and power loss with un-synced data lost or torn.",
"T380 kills one fixed scenario at each rename() under gdb; it never loses un-synced data, never interrupts at writes or fsyncs, and tries one mail tree.",
["notmuch-new.c","lib/add-message.cc","lib/database.cc","lib/directory.cc","lib/message.cc"],
[("per-file atomic section around add and remove","notmuch-new.c: add_file, remove_filename"),("directory mtime recorded last","notmuch-new.c: add_files / _set_mtime pass"),("transaction nesting","lib/database.cc: notmuch_database_begin_atomic/end_atomic")],
[("directory mtime","a directory whose recorded mtime equals its on-disk mtime is not rescanned","lib/directory.cc")],
["database contents through the library","exit status of the rerun"])

p("P02","A message keeps its tags while any file of it exists",
"A message known to the database keeps its tags, properties and thread for as long as at least one file containing it exists in the mail tree at each scan, however its files are renamed, moved, copied or removed between scans and however scans are interrupted or hit transient I/O errors. It is forgotten only after a scan that finds its last file gone.",
["histories","fault_sequences","crash_points"],
"Sequences of file renames, moves across directories, copies and removals interleaved with scans that are killed, interrupted or see transient errors opening files or directories.",
"T050/T051/T380 cover a handful of fixed renames with no I/O errors; the loss needs a rename plus a fault during the scan.",
["notmuch-new.c","lib/message.cc","lib/add-message.cc","lib/database.cc"],
[("removal of old names is deferred until all new names were added","notmuch-new.c: removed_files processed after add_files"),("a message is deleted only with its last filename","lib/database.cc: notmuch_database_remove_message; lib/message.cc: _notmuch_message_delete")],
None,["tags per message-id"])

p("P03","Scanning converges to the mail tree",
"After `notmuch new` exits with success while nothing else is changing the tree, the set of files known to the database equals the set of non-ignored mail files on disk, each attributed to the right message and folder. If files change or errors occur during a scan, the next undisturbed scan repairs the difference, whatever the timing of the changes relative to earlier scans, as long as the clock does not run backwards and no directory is moved onto the name of another one.",
["histories","schedules","fault_sequences"],
"Histories of deliveries, renames, removals, new and removed directories by other programs at arbitrary moments relative to running scans and clock granularity, with transient errors reading directories and files.",
"The tests pause the clock with explicit directory-mtime bumps and never change the tree while a scan runs; T050 checks chosen cases sequentially.",
["notmuch-new.c","lib/directory.cc","lib/message.cc"],
[("directory mtime comparison with same-second protection","notmuch-new.c: add_files (stat_time vs st_mtime)"),("merge walk of disk and database listings","notmuch-new.c: add_files second pass")],
None,["filenames, folder: and path: per message"])

p("P04","A successful delivery is complete, indexed and durable",
"When `notmuch insert` exits 0, the maildir holds exactly one new file with the exact bytes received (an mbox \"From \" first line rewritten to a header), it was never visible under new/ or cur/ with partial content, and the file survives an immediate power loss. Unless --keep was given, the message is also in the database, with the configured and requested tags if it was new to it, however the input arrived in pieces.",
["inputs","schedules","fault_sequences","crash_points"],
"All message bytes and all ways of splitting the input into reads; system-call failures, short writes and interruptions at every point; power loss right after exit.",
"T070 delivers whole small files through one pipe on a healthy disk; chunk boundaries, short writes, fsync and power loss are not reachable there.",
["notmuch-insert.c","lib/add-message.cc"],
[("write to tmp/, fsync, rename into new/ or cur/, fsync of the directory","notmuch-insert.c: maildir_write_new, sync_dir"),("index before reporting success","notmuch-insert.c: add_file")],
None,["maildir contents, database contents, exit status"])

p("P05","A failed delivery leaves nothing behind",
"When `notmuch insert` without --keep reports failure, no copy of the message stays in the maildir's new/ or cur/ and the database does not refer to it; with --keep a non-zero exit means no file was delivered. A temporary failure is reported with exit status 75 or as plain failure, never as success.",
["fault_sequences","crash_points","inputs"],
"Every single system-call failure (disk full, I/O error, no descriptors, permission, interrupted call) at every point of the delivery, in pairs for cleanup paths.",
"T070 simulates a few failures through environment tricks (read-only DB, missing folder) and cannot fail individual calls such as close, fsync, rename or the database commit.",
["notmuch-insert.c","lib/add-message.cc","lib/database.cc"],
[("unlink on failure and close of the atomic section","notmuch-insert.c: notmuch_insert_command, add_file"),("keep semantics","notmuch-insert.c: keep")],
None,["maildir contents, database contents, exit status"])

p("P06","Concurrent deliveries never collide or get lost",
"Any number of concurrent `notmuch insert` processes, scans and other maildir programs deliver every accepted message exactly once under its own file name: no file is overwritten, no accepted message is lost, and after the dust settles every accepted message is in the database once with its delivery tags.",
["schedules","histories","fault_sequences"],
"All interleavings of concurrent inserts, scans and other maildir agents, with equal process ids and host names across pid namespaces or coarse clocks, and with random crashes among them.",
"The test suite never runs two notmuch processes concurrently except one lock test.",
["notmuch-insert.c","notmuch-new.c","lib/open.cc"],
[("unique temporary name opened exclusively with retry","notmuch-insert.c: maildir_mktemp"),("database write lock waits","lib/open.cc: Xapian::DB_RETRY_LOCK"),],
None,["maildir contents, database contents"])

p("P07","Maildir flag synchronisation is faithful and never clobbers files",
"With flag synchronisation on, after a tag change each file of the message in cur/ or new/ carries exactly the flags its tags call for plus any flags notmuch does not know, and after a scan the tags reflect the flags on disk; a synchronisation that is interrupted leaves each file under its old or its new name. No rename ever replaces a different existing file, loses a file, or leaves the database pointing at a name that does not exist.",
["histories","crash_points","inputs","schedules"],
"Histories of tag changes, flag changes by other mail readers, duplicates of one message in several folders, odd file names, interruptions and rename failures.",
"T340 checks a fixed list of flag combinations; collisions of target names, unknown flags with duplicates, and interruption between the rename and the commit are not reached.",
["lib/message.cc","notmuch-tag.c","notmuch-new.c","notmuch-insert.c"],
[("flag mapping table","lib/message.cc: flag2tag"),("rename then record new filename","lib/message.cc: notmuch_message_tags_to_maildir_flags"),("new->cur on flags","lib/message.cc: _new_maildir_filename")],
None,["file names on disk, tags, filenames in the database"])

p("P08","Dump and restore round-trip everything they claim to",
"Restoring a dump onto a database with the same messages gives every message exactly the tags it had when dumped, and the properties and configuration recorded in the dump, whatever bytes tags, keys, values and message-ids contain, in plain or compressed form and via file or pipe with any read sizes. Restoring is idempotent, can be re-run after an interruption to the same result, leaves messages not named in the dump alone, and with --accumulate only adds tags.",
["inputs","histories","crash_points","fault_sequences"],
"All tag, property and configuration contents; all input chunkings; restores killed at any point and re-run; concurrent tagging before the restore.",
"T240 checks fixed and seeded random tags on an undisturbed machine, and never interrupts a restore or splits its input.",
["notmuch-dump.c","notmuch-restore.c","util/hex-escape.c","util/zlib-extra.c","tag-util.c"],
[("hex encoding of tags, keys and values","util/hex-escape.c"),("line grammar","tag-util.c: parse_tag_line; notmuch-restore.c"),("growing line reader over gzip","util/zlib-extra.c: gz_getline")],
None,["tags, properties and config per message"])

p("P09","A dump file is replaced whole or not at all",
"When a dump is written to a named file, that file at every moment, and after any crash, kill, power loss or write error, holds either its previous content or one complete new dump, and exit status 0 means the complete new dump is there. A dump reflects a single moment of the database even while other programs ask to write, and errors writing it, also to standard output, give a non-zero exit status.",
["crash_points","fault_sequences","schedules"],
"Every system-call boundary and every single failure (including short writes, disk full, failing close, fsync and rename) during a dump, plain and gzip, to file and to standard output, with concurrent writers.",
"T240 only checks that an output file exists after a successful dump and that a read-only target gives an error.",
["notmuch-dump.c","util/zlib-extra.c"],
[("mkstemp, gzip write, fsync, rename","notmuch-dump.c: notmuch_database_dump"),("database lock held during dump","notmuch-dump.c: open for writing")],
None,["output file bytes, exit status"])

p("P10","Threading does not depend on delivery order",
"Two messages belong to the same thread exactly when they are connected through references to message-ids (direct replies, or a common referenced id even if that message has not arrived), whatever order, batches or interruptions the messages were indexed in and across identical copies. Every message of a thread appears exactly once in it, and removing messages, or re-indexing ones whose files are unchanged, never splits a thread whose remaining messages are still connected or merges messages that never were connected.",
["histories","inputs","crash_points"],
"All arrival orders and batchings of generated reply graphs (with missing parents, cycles, self references, forks and duplicates), interleaved with removals, re-indexing and interruptions.",
"T260/T510/T592 check fixed graphs in fixed orders; the guarantee quantifies over permutations.",
["lib/add-message.cc","lib/message.cc","lib/thread.cc","lib/database.cc"],
[("thread-id inheritance and merge","lib/add-message.cc: _notmuch_database_link_message"),("ghost messages","lib/message.cc: _notmuch_message_delete, lib/add-message.cc"),("thread assembly","lib/thread.cc: _resolve_thread_relationships")],
[("metadata thread_id_","thread of a referenced message that has not been seen (old databases)","lib/add-message.cc")],
["thread: terms, search --output=threads, show --entire-thread"])

p("P11","Change tracking never misses or rewinds a change",
"The database revision never decreases over its lifetime, and every committed change to a message's tags, properties or files gives that message a modification number above every revision reported before the change. A client that repeatedly asks for messages changed since the last revision it saw, with the same database identity, therefore learns of every committed change, across concurrent writers, crashes and restarts.",
["histories","schedules","crash_points"],
"All interleavings of writers and a polling client, with crashes of the writers, database reopen and transactions with several changes.",
"T570 checks revisions after single sequential commands.",
["lib/database.cc","lib/message.cc","lib/open.cc","lib/lastmod-fp.cc","notmuch-count.c"],
[("revision allocation","lib/database.cc: _notmuch_database_new_revision"),("revision persisted at the end of the section","lib/database.cc: notmuch_database_end_atomic"),("per-message stamp","lib/message.cc: _notmuch_message_sync")],
None,["count --lastmod, search lastmod:A..B"])

p("P12","Atomic sections take effect entirely or not at all",
"All changes a client makes between the beginning and the outermost end of an atomic section become visible to others, and survive a crash, together or not at all, however sections are nested. A section that is abandoned by closing, crashing or a failing commit leaves the database as it was before, and an error in the middle never publishes part of it unless the client ends the section.",
["programs","crash_points","fault_sequences","schedules"],
"Generated client programs that nest atomic sections around message additions, removals, tag, property and directory changes, with kill, power loss or I/O error at every point and concurrent readers.",
"T380/T385 test one scenario each for abort of a section, without crash during commit or observers.",
["lib/database.cc","lib/message.cc","lib/add-message.cc"],
[("Xapian transaction with nesting counter","lib/database.cc: notmuch_database_begin_atomic/end_atomic"),("close cancels an open transaction","lib/database.cc: notmuch_database_close")],
None,["database contents through the library"])

p("P13","Concurrent writers never lose each other's updates",
"Concurrent modifying commands (tagging, scanning, inserting, restoring, re-indexing, compacting, changing the configuration stored in the database) behave as if run one after another in some order consistent with their real-time order: every change that was reported successful is present, nothing is changed that no command asked for, and the database stays uncorrupted. A command that cannot get the write lock waits or fails with an error and no effect.",
["schedules","fault_sequences","crash_points"],
"All interleavings of two to four concurrent modifying commands at system-call granularity, with crashes of some of them.",
"T620 tests that one second writer waits; no test interleaves writers.",
["lib/open.cc","lib/database.cc","notmuch-tag.c","notmuch-new.c"],
[("write lock acquired on open and retried","lib/open.cc"),("read-modify-write under the lock","lib/message.cc"),],
None,["tags per message, exit status of each command"])

p("P14","Readers see one committed state or report an error",
"A search, count, show or dump that runs while others modify the database and exits 0 printed only committed data: exactly the output of one database state committed between its start and its end or, if its state was overwritten while it ran and it moved on to a later one, data of such states message by message; never less, such as an empty answer. Otherwise it exits non-zero with a message, which, where it would succeed on an idle database, it may do only if something was committed while it ran. It never crashes, loops or blocks writers, and a client that reopens its handle sees the latest committed state.",
["schedules","histories"],
"All interleavings of readers with several commits by writers at system-call granularity, including compaction replacing the database under the reader.",
"T640 provokes one modified-database error in a directory call; no test runs the command-line readers during commits.",
["lib/query.cc","lib/thread.cc","lib/message.cc","lib/database.cc","notmuch-search.c","notmuch-count.c","notmuch-show.c"],
[("Xapian snapshot isolation with DatabaseModifiedError","lib/message.cc: LOG_XAPIAN_EXCEPTION paths"),("reopen","lib/open.cc: notmuch_database_reopen")],
None,["command output and exit status"])

p("P15","Success means the change is saved",
"If a command that changes tags, properties, configuration or the index exits 0, all the changes it was asked to make are committed, and whoever opens the database next sees them; if a disk error, full disk or other system failure prevents that, the command exits non-zero. Partial effects of a failed command are limited to whole messages.",
["fault_sequences","crash_points"],
"Every single system-call failure (EIO, ENOSPC, EMFILE, short write, failing fsync or rename) at every point of tag, restore, new, reindex, config and insert runs; the state is then read by a fresh process.",
"Tests cannot make individual disk operations fail; T560 covers library error paths with corrupted databases only.",
["notmuch-tag.c","notmuch-new.c","notmuch-restore.c","notmuch-reindex.c","notmuch-config.c","lib/database.cc"],
[("commit on close","lib/database.cc: notmuch_database_close"),("exit status from library status","notmuch-*.c")],
None,["exit status, database contents after restart"])

p("P16","Compaction never loses or changes data",
"Compacting the database changes no message, tag, property, file, configuration value or revision (only the database's UUID, as documented), with or without a backup, and a requested backup holds the complete previous database. If compaction fails or is killed at any point, the complete data is still in a database on disk, at its normal place or, for a kill in the final switch-over on a system that cannot exchange two directories atomically, at the backup or compacted copy beside it, and a failure is reported with non-zero status.",
["crash_points","fault_sequences","schedules"],
"Every system-call boundary and failure during compaction, on generated databases, with concurrent readers and writers waiting for the lock.",
"T020 compacts twice on an idle machine.",
["lib/database.cc","notmuch-compact.c"],
[("write lock held, compact to side directory, two renames","lib/database.cc: notmuch_database_compact_db"),("nftw removal of the old database","lib/database.cc: rmtree")],
None,["database contents, directories on disk"])

p("P17","Upgrading an old database is safe to interrupt",
"Opening a database of an older format for writing through the commands that upgrade preserves every message, file, tag and property; if the upgrade is interrupted or fails at any point the database still opens, and repeating it completes with the same result as an uninterrupted upgrade. notmuch new upgrades no database without having written a complete backup of its tags first.",
["crash_points","fault_sequences","histories"],
"Every interruption point of upgrades from each older format level and missing-feature combination, on generated databases.",
"T530 upgrades one stored database once; T550 only toggles feature flags.",
["lib/database.cc","lib/open.cc","lib/features.cc","notmuch-new.c"],
[("upgrade in one atomic section with features written last","lib/database.cc: notmuch_database_upgrade")],
None,["database contents before and after"])

p("P18","Configuration changes are atomic and exact",
"`notmuch config set` to the configuration file changes exactly the requested key, preserving all other keys, and at every moment and after any crash, power loss or I/O error the file is either the complete old or the complete new one; exit 0 means new, non-zero means old. Values stored in the database round-trip exactly, and reading them back gives what was set.",
["crash_points","fault_sequences","histories","inputs"],
"All key and value contents (lists, separators, escapes, unicode), every fault and crash point during the update, symlinked configuration files, concurrent commands reading the file.",
"T030/T040 set and read values sequentially on a healthy disk.",
["notmuch-config.c","lib/config.cc","notmuch-setup.c"],
[("atomic replace of the file through its symlink target","notmuch-config.c: notmuch_conffile_save"),("metadata storage","lib/config.cc: notmuch_database_set_config")],
None,["config file bytes, config get/list output"])

p("P19","Re-indexing preserves everything that is not derived from the text",
"Re-indexing keeps each message's tags, properties, file list and thread membership, makes searches reflect the current file contents, and does so per message entirely or not at all when interrupted. A file that cannot be read at that moment never makes the message or its tags disappear while the file still exists.",
["crash_points","fault_sequences","histories"],
"Every interruption and transient failure (open, read errors) while re-indexing generated messages with tags, properties, duplicates and threads.",
"T700 re-indexes without faults or interruption.",
["notmuch-reindex.c","lib/message.cc"],
[("remove and re-add terms under atomic section","lib/message.cc: notmuch_message_reindex"),("properties not starting with index. survive","lib/message.cc")],
None,["tags, properties, filenames, threads"])

p("P20","Tag operations and searches follow a simple set model",
"After any history of commands, opened, closed, crashed and restarted at will, each message carries exactly the tags and properties that the successful tag changes imply in order, and every way of looking (searching by tag, folder, path, id, property or thread, counting, listing tags, dumping, showing) agrees with that same state, including removed messages never appearing. A tagging batch with a bad line or a failing query applies each line to whole messages or not at all.",
["histories","inputs","crash_points"],
"Random histories of scan, insert, tag (single and batch, with quoting and special characters), remove-all, delete and re-add, property changes and restarts, compared after each step with a small reference model.",
"Each test is one short hand-written history; agreement among all query paths after long histories is not tested.",
["notmuch-tag.c","tag-util.c","lib/message.cc","lib/query.cc","lib/message-property.cc","notmuch-search.c","notmuch-count.c"],
[("tag terms as the only store","lib/message.cc: notmuch_message_add_tag/remove_tag"),("optimised query that skips unchanged messages","notmuch-tag.c: _optimize_tag_query"),("folder/path terms rebuilt from filenames","lib/message.cc")],
None,["search, count, dump output; library iteration"])

p("P21","Mail itself is never altered, and read-only commands change nothing",
"No notmuch command ever modifies or deletes the contents of a mail file that was already in the tree; the only file operations it performs on existing mail are flag renames when synchronisation is on. Commands that only read (search, show, count, address, reply, dump to a file elsewhere, config get) leave the mail tree and the database contents unchanged, even when they fail or are killed.",
["histories","fault_sequences","crash_points"],
"All commands over generated histories with faults and kills at every point, comparing every mail file's bytes and the database state before and after.",
"Tests do not compare the mail tree before and after commands, and never under faults.",
["notmuch-insert.c","lib/message.cc","notmuch.c","lib/open.cc"],
[("read-only open mode","lib/open.cc; notmuch.c command table"),("unlink only of own temporary or failed delivery","notmuch-insert.c")],
None,["mail tree bytes"])

p("P22","Hooks run exactly as documented around commands",
"The pre-new hook runs before a scan and its failure aborts the scan with no database change; post-new and post-insert hooks run only after their command's changes are committed and visible to the hook (insert --keep: after the delivery), run at most once per command, and can themselves use notmuch without deadlock. A failing, killed or missing hook never undoes or loses delivered mail.",
["schedules","fault_sequences","histories"],
"Hooks that succeed, fail, are killed by a signal, deliver new mail, change tags or open the database for writing, with failures of process creation and kills of the parent around them.",
"T400 runs hooks that create marker files; hooks that use the database concurrently or die by signal are not covered.",
["hooks.c","notmuch-new.c","notmuch-insert.c"],
[("fork, exec, wait and status mapping","hooks.c: notmuch_run_hook"),("database closed before post hooks","notmuch-new.c, notmuch-insert.c")],
None,["exit statuses, database state seen by the hook"])

# not applicable
p("N01","Date expressions denote the documented time ranges",
"Every date expression accepted in searches denotes the documented time range for the current time zone, and rounding never excludes instants inside the range.",
["inputs"],"All date expressions and reference times.","T490/T500 check a list of expressions.",
["parse-time-string/parse-time-string.c","lib/parse-time-vrp.cc"],[("parser","parse-time-string/parse-time-string.c")])
p("N02","Structured output is always well-formed",
"JSON and S-expression output is well-formed for every message content and carries every field of the documented schema.",
["inputs"],"All message bytes.","T160/T170/T190 check sample messages.",
["sprinter-json.c","sprinter-sexp.c","notmuch-show.c"],[("string escaping","sprinter-json.c, sprinter-sexp.c")])
p("N03","Replies address the right people",
"A reply's recipients and sender follow the documented rules for every combination of headers and user addresses.",
["inputs"],"All header combinations.","T220/T230 check samples.",
["notmuch-reply.c"],[("recipient scan","notmuch-reply.c")])
p("N04","Encrypted and signed mail is verified and decrypted faithfully",
"Signature status and decrypted content reported for a message are those established by the cryptographic backend, and cleartext is indexed only when the user asked for it.",
["inputs","configurations"],"All message structures and key states.","T350-T357 use sample keys.",
["util/crypto.c","lib/index.cc","mime-node.c"],[("decryption policy","util/crypto.c")])
p("N05","Two repositories synchronised with notmuch-git converge",
"After both sides exchange and merge their histories with notmuch-git, both databases hold the same tags for the messages they share.",
["histories","schedules"],"All histories of two replicas.","T850 checks a short sequence.",
["notmuch-git.py"],[("merge of tag trees","notmuch-git.py")])
p("N06","Language bindings never use freed objects",
"Objects of the Python and Ruby bindings remain valid or raise an error in any order of use and destruction.",
["programs"],"All API call orders.","T390-T395 check samples.",
["bindings/python-cffi","bindings/ruby"],[("parent references","bindings/python-cffi/notmuch2")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
