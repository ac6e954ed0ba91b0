# Per property: quick and thorough budgets (seeds, seconds), what a case is, notes for the manifest.
PROPS = {
 "P01": dict(quick=(700, 45), thorough=(200000, 3000),
   rule="a case is one scan of a generated mail tree and database with one kill, power cut, SIGINT or SIGTERM injected at one system call, followed by a recovery scan; distinct = distinct (database left, fault kind) pairs",
   technique="deterministic simulation: seeded crash/power-loss/signal injection into notmuch new, recovery compared with the uninterrupted run",
   note="Search over seeded histories and fault points; no proof. Trusts the simulated file system's durability model (fsynced data and directory entries survive; anything else may be lost, torn or reordered)."),
 "P02": dict(quick=(900, 60), thorough=(400000, 3000),
   rule="a case is one generated history of tree changes and scans with one kill, power cut, signal or transient system-call error injected into its last scan, followed by an undisturbed scan; distinct = distinct (database left, fault kind) pairs",
   technique="deterministic simulation: seeded faults (errors, short reads, crashes, signals) in notmuch new over histories of renames, copies and removals; tags and properties compared with a reference model",
   note="Search over seeded histories and fault points; no proof. Read errors on the Xapian table files are not injected (see DESIGN.md: Xapian itself corrupts its tables after some of them)."),
 "P03": dict(quick=(8000, 60), thorough=(2000000, 3000),
   rule="a case is one generated history of scans and tree changes, some of them made between the steps of a running scan, with seeded clock rates and scheduling; distinct = distinct (tree, schedule) states at the end of the disturbed scan",
   technique="deterministic simulation: seeded interleaving of a mail client's file operations with the system calls of notmuch new under a simulated clock; index compared with the tree after the next undisturbed scan",
   note="Search over seeded schedules; no proof. Clock never runs backwards and directories are not swapped (documented limits)."),
 "P04": dict(quick=(2000, 60), thorough=(600000, 3000),
   rule="a case is one delivery with generated message, input pieces, folder, options and database history, with one fault (error, short read or write, signal, kill, power loss) at one system call; distinct = distinct traces of system calls and results",
   technique="deterministic simulation: seeded faults in notmuch insert, maildirs watched at every step, power loss simulated after every success under two durability models",
   note="Search over seeded histories and fault points; no proof. After a power loss the file must survive even if only fsynced directories do; the database is only required to survive where renames do (Xapian does not fsync its directory)."),
 "P05": dict(quick=(3000, 60), thorough=(600000, 3000),
   rule="a case is one delivery that fails because of one injected fault (error, short I/O, signal, full disk) or its input; distinct = distinct traces of system calls and results",
   technique="deterministic simulation: seeded faults in notmuch insert; maildirs and database compared with those before whenever it reports failure",
   note="Search over seeded histories and fault points; no proof. The removal of the mail file itself is not made to fail."),
 "P06": dict(quick=(15000, 60), thorough=(4000000, 3000),
   rule="a case is a set of concurrent deliveries, scans and other maildir programs under one seeded schedule, some of them killed or hit by errors; distinct = distinct (database, schedule) at the end",
   technique="deterministic simulation: seeded interleaving of several notmuch processes and maildir programs at every system call; conservation of accepted messages checked",
   note="Search over seeded schedules; no proof. Process ids are distinct, clocks may be so coarse that several deliveries see the same microsecond."),
 "P20": dict(quick=(9000, 45), thorough=(3000000, 3000),
   rule="a case is one generated history of tag, tag --batch and restore commands with a seeded fault, kill or signal in the last one, on a generated database; distinct = distinct (database left, result) pairs",
   technique="deterministic simulation: seeded errors, kills, SIGINT and split input in notmuch tag and restore; tags compared with a reference model of queries and tag changes",
   note="Search over seeded histories; no proof. The reference model covers the query forms it generates, not the whole query language."),
 "P07": dict(quick=(2500, 60), thorough=(1000000, 3000),
   rule="a case is one tag command or batch on a mail tree with generated maildir names and shared base names, with one error, signal, kill or power loss at one system call, and the next scan; distinct = distinct (database left, result) pairs",
   technique="deterministic simulation: seeded faults in notmuch tag with maildir flag synchronisation; every file tracked by inode against a model of flag names, and the database against the tree after the next scan",
   note="Search over seeded histories and fault points; no proof. File names are judged by a model of the maildir flag rules notmuch documents."),
 "P15": dict(quick=(1600, 60), thorough=(800000, 3000),
   rule="a case is one tag, batch, new, restore, reindex, config or compact command with one error, persistent error or short read or write at one system call; distinct = distinct (database left, result) pairs",
   technique="deterministic simulation: seeded system-call errors and full disks in every writing command; after exit 0 the database (also after a power loss) must equal that of the undisturbed run",
   note="Search over seeded histories and fault points; no proof. Failing fsyncs inside Xapian's own compaction are not injected (Xapian ignores them)."),
 "P21": dict(quick=(6000, 50), thorough=(2000000, 3000),
   rule="a case is one command, reading or writing, with one error, short I/O, kill or signal at one system call; distinct = distinct traces of system calls and results",
   technique="deterministic simulation: seeded faults in every command; every mail file tracked by inode and contents, readers watched at every system call and the whole file system compared afterwards",
   note="Search over seeded histories and fault points; no proof. dump holds the database's write lock by design; its contents are still compared."),
 "P13": dict(quick=(10000, 50), thorough=(4000000, 3000),
   rule="a case is two to five writing commands (tag, batch, restore, new, insert, reindex, config, compact) under one seeded schedule with seeded starting moments, stalls and, in a part of the runs, one of them killed or hit by errors; distinct = distinct (database left, schedule) pairs",
   technique="deterministic simulation: seeded interleaving of several writing notmuch processes at every system call; the outcome is compared with all serial orders that agree with real time",
   note="Search over seeded schedules; no proof. Commands that fail must leave no trace; commands hit by faults change a tag no other one uses, which is left out of the comparison."),
 "P14": dict(quick=(4500, 60), thorough=(2000000, 3000),
   rule="a case is one to three reading commands beside one or two writing ones under one seeded schedule with stalls and starting moments near commits; distinct = distinct (database left, schedule) pairs",
   technique="deterministic simulation: seeded interleaving of readers and committing writers at every system call; each output is compared with the same command's on every database state committed meanwhile",
   note="Search over seeded schedules; no proof. A reader that finds its revision gone and moves on to a later one (as the library does for a message's data) is only required to print data of committed states."),
 "P16": dict(quick=(2500, 60), thorough=(600000, 3000),
   rule="a case is one compaction of a generated database, with or without a backup, with one error, persistent error, short write, kill, signal or power loss at one system call; distinct = distinct (files left, result) pairs",
   technique="deterministic simulation: seeded faults in notmuch compact; the database and the backup are compared with the database before at the end and after a later undisturbed compaction",
   note="Search over seeded histories and fault points; no proof. Failing fsyncs inside Xapian's compaction are not injected (Xapian ignores them)."),
 "P18": dict(quick=(6000, 60), thorough=(1000000, 3000),
   rule="a case is one config set (file or database) or setup on a generated configuration file, reached directly or through symbolic links, with one error, persistent error, short I/O, kill, signal or power loss at one system call; distinct = distinct traces of system calls and results",
   technique="deterministic simulation: seeded faults in notmuch config and setup; the file is read at every system call and must always be the old or the new one, and after a power loss; what was set is read back",
   note="Search over seeded histories and fault points; no proof. Values that the list syntax of the file changes by design (';', leading and trailing blanks) are not compared when read back."),
 "P08": dict(quick=(2500, 60), thorough=(800000, 3000),
   rule="a case is one dump, further changes, and one restore of it (split input, either format, packed or not), with one error, persistent error, short I/O, kill or signal at one system call of the restore, followed by an undisturbed restore; distinct = distinct (database left, result) pairs",
   technique="deterministic simulation: seeded faults in notmuch restore of dumps taken from databases with generated ids, tags, properties and configuration; compared with the database when it was dumped, again after repeating it",
   note="Search over seeded histories and fault points; no proof. Messages that the sup format cannot name are left out when that format is used; property changes of the message an interrupted restore was at are only judged after the repeated restore."),
 "P09": dict(quick=(2500, 60), thorough=(800000, 3000),
   rule="a case is one dump to a named file or standard output with one error, persistent error, short write, kill, signal or power loss at one system call, or dumps beside writing commands under one seeded schedule; distinct = distinct traces of system calls and results",
   technique="deterministic simulation: seeded faults in notmuch dump with the named file read at every system call and after power loss, and seeded interleaving of dumps with writers compared with dumps of every committed state",
   note="Search over seeded histories, schedules and fault points; no proof."),
 "P10": dict(quick=(2500, 75), thorough=(800000, 3000),
   rule="a case is one notmuch new, insert or reindex after a generated history of deliveries of a generated reply graph (cycles, self references, missing parents, duplicates, over-long ids) and removals, with one error, persistent error, kill, signal or power loss at one system call, followed by an undisturbed scan; distinct = distinct (database left, threads) pairs",
   technique="deterministic simulation: seeded arrival orders, batches, removals, faults and crashes in notmuch new, insert and reindex; threads compared with the connected components of the messages present and ever seen, and with what notmuch show and search print",
   note="Search over seeded histories and fault points; no proof. After removals, threads may stay joined through messages that are gone."),
 "P11": dict(quick=(6000, 60), thorough=(1500000, 3000),
   rule="a case is one sequence of commands and library clients, alone and concurrent, with polling clients between and beside them, errors, kills, signals and stalls at system calls; distinct = distinct (database left, revision) pairs",
   technique="deterministic simulation: seeded interleaving of writers with polling clients, with faults and crashes; the revision and modification numbers of every committed state are compared with those of the state before it",
   note="Search over seeded schedules and fault points; no proof. Deletions are not learned through modification numbers (by design); a new database identity (compaction) makes clients start over."),
 "P22": dict(quick=(3500, 60), thorough=(1000000, 3000),
   rule="a case is one scan or delivery with generated hooks (succeeding, failing, killed, not runnable; tagging, delivering, scanning) and one error, persistent error, short I/O, kill or signal at one system call, or several such commands under one seeded schedule; distinct = distinct traces of system calls and results",
   technique="deterministic simulation: simulated hook programs that run real notmuch commands, with seeded faults and schedules; the database is read when each hook starts and ends and compared with the run without hooks",
   note="Search over seeded histories, schedules and fault points; no proof. Hooks are actors of the simulator; the commands they run are real code."),
 "P12": dict(quick=(2500, 60), thorough=(800000, 3000),
   rule="a case is one library client with nested atomic sections, message changes, additions, removals, reopening and abandoned sections, with one error, persistent error, kill, signal or power loss at one system call; distinct = distinct (database left, result) pairs",
   technique="deterministic simulation: seeded client programs on libnotmuch with seeded faults and crashes; every state the database commits is read and compared with the states a model allows between sections",
   note="Search over seeded programs and fault points; no proof. Single calls outside a section are not required to be atomic; a client that goes on after a failed begin or end is not judged further."),
 "P17": dict(quick=(2500, 60), thorough=(800000, 3000),
   rule="a case is one upgrade (by notmuch new, with or without new mail, or by a library client) of a generated database turned into one of an older format, with one error, persistent error, short I/O, kill, signal or power loss at one system call, and its repetition; distinct = distinct (database left, result) pairs",
   technique="deterministic simulation: seeded faults in upgrades of databases of the formats 0 to 3 made from generated ones; compared with the same command on the database never downgraded, also after repeating it",
   note="Search over seeded histories and fault points; no proof. Old databases are made by the inverse of the documented format changes, not by old versions of notmuch. Database durability after a power loss is only judged where renames survive (Xapian does not fsync its directory)."),
 "P19": dict(quick=(2500, 60), thorough=(800000, 3000),
   rule="a case is one reindex of a query's messages after a generated history with rewritten, doubled and removed files, properties and tags, with one error, persistent error, short read or write, kill or signal at one system call, followed by an undisturbed one; distinct = distinct (database left, result) pairs",
   technique="deterministic simulation: seeded faults in notmuch reindex; results compared with a model of what is kept, with searches for words of the present files and with a database made from nothing",
   note="Search over seeded histories and fault points; no proof. The comparison with a fresh index is limited to messages of one file (several files are indexed in an order of their own)."),
}
NOT_APPLICABLE = {
 "N01": "pure function of (text, reference time): no schedule, I/O, crash or fault can change its result, so simulated executions would only be ordinary random input testing",
 "N02": "pure formatting of message bytes: nothing depends on scheduling, time, I/O outcome or crashes",
 "N03": "pure function of message headers and configuration: nothing depends on scheduling, time, I/O outcome or crashes",
 "N04": "the behaviour under test is GnuPG's and S/MIME's in separate processes talking over pipes; neither gpg nor a key store can be run inside the simulator, and a stub of it would only test the stub",
 "N05": "notmuch-git is a Python program driving the git binary and the notmuch binary as separate processes; neither the Python interpreter nor git can run inside the simulator, so their I/O and scheduling cannot be controlled",
 "N06": "object lifetime across the Python and Ruby interpreters and their garbage collectors, which cannot run inside the simulator",
}
