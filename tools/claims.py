ENUM = "exhaustive bounded enumeration of operation histories on the real code, against a reference model"
FAULT = "exhaustive enumeration of crash points and faults in real executions (stateless model checking with a fault injector)"
SCHED = "exhaustive enumeration of schedules of real processes up to a preemption bound (stateless model checking under a controlled scheduler)"
CLAIMS = {
 "C04": (SCHED, "exploration", "a writing and a reading process suspended before file-system operations: all schedules with one switch, and those with two or three that are not equivalent to others (quick: evenly spread), in the bounds on programs and layouts; what the reader saw against the intervals of the flushes"),
 "C05": (SCHED, "exploration", "two or three writing processes suspended before file-system operations on what they share: all schedules with one preemption, and those with two that are not equivalent to others (quick: evenly spread), in the bounds on programs and layouts; what is stored afterwards against the intervals of the flushes"),
 "C01": (ENUM, "exploration", "all operation histories up to the stated depth for one and two writers, in all layouts, on the implementation itself; bounded by depth and by a universe of 4 fields"),
 "C02": (FAULT, "fault_enumeration", "every mutating file-system call of every writer program, dying before or within it, with every loss pattern of unsynchronised data in the bounds; directory operations assumed durable in order"),
 "C03": (FAULT, "fault_enumeration", "every file-system call of every writer program and read in the bounds, failed with each error of a fixed list (once, or from then on) or cut short; one fault per execution"),
 "C07": (ENUM, "exploration", "every request over the keywords of two universes (absent, each value, all values, a value that does not occur) in each stored state reachable by archive programs of bounded length, in all modes and depths"),
 "C10": (ENUM, "exploration", "stored states x wipe requests x layouts x variants (dry run, unknown files, locks) and all sequences of archivals and wipes up to a depth; files, answers and control state compared with a reference model"),
 "C09": (ENUM, "exploration", "stored states (before a wipe, after it, after archiving again) x requests x depths, against a reference model that gives the least and the most the axes may hold"),
 "C23": (ENUM, "exploration", "stored states (before a wipe, after it, after archiving again) x database requests; every count and size against the reference model and the files (with sub-tocs, index and record counts excepted)"),
 "C08": (ENUM, "exploration", "stored states x retrieve requests x ways of retrieving, and every sequence of handle operations up to a depth on every kind of handle, against a reference model"),
 "C11": (ENUM, "exploration", "all archive/flush/close histories up to a depth, two concurrent writers, and stored states x requests with and without an earlier wipe; answers, index and data files against a reference model, after dry runs, a purge, another one, and archiving again"),
 "C12": (ENUM, "exploration", "all sequences of up to two (and part of those of three) control requests, and all combinations of locks on two databases x layouts, each operation tried on every database, then after unlocking; answers, files and status against a reference model"),
 "C26": (FAULT, "fault_enumeration", "every file-system call of every wipe and purge in the bounds (stored states x layouts x requests, one database), dying before it, within it, or with the call failing (EIO, once or from then on); then locks cleared, repeated, archived again"),
 "C20": (ENUM, "exploration", "layouts of file spaces x naming rules x permissions of the roots x roots of pre-existing databases; archiving, listing by 14 requests, retrieval and wiping against a model; and database keys with special characters"),
 "C13": (FAULT, "fault_enumeration", "fdb-move itself in stored states x orders of roots x naming rules x options, 11 kinds of moves to be refused, and every file-system call of moves in the bounds: dying before it, within it, or with the call failing (EIO, once or from then on); then what is seen, moving again, archiving and wiping"),
 "C21": ("exhaustive enumeration of thread schedules of the real code up to a preemption bound (stateless model checking under a controlled scheduler)", "exploration", "producers (failing at each step) x queue sizes x consumers x ways of joining iterators under all schedules in the preemption bound; real operations, read to the end or dropped, under all schedules with one deviation from the default"),
 "C19": (ENUM, "exploration", "pairs (some triples, some nested) of members over select and exclude rules x earlier contents; archiving, listing, axes, status, statistics, retrieval, inspection, locks and wipes against a model of the rules and the members' own answers"),
 "C06": ("exhaustive enumeration of thread schedules of the real code up to a preemption bound (stateless model checking under a controlled scheduler)", "exploration", "52 cases of 2 or 3 threads; all schedules with one switch before an operation on locks, files, static initialisation or unprotected shared memory, and those with a switch back soon after the other thread operated on the same object"),
 "C15": (ENUM, "exploration", "all schemas of a bounded grammar x all descriptions over a small universe against a reference matcher, also printed, streamed and with real databases; every type with classes of spellings in every level"),
 "C25": (ENUM, "exploration", "all view definitions in the bounds (1 to 3 parts, 1 to 3 axes, up to 12 fields per part) x orders of the storage; all answers with fields returned 0 to 2 times and 12 kinds of wrong ones; all patterns of missing points; real FDBs with every subset of the fields; against a reference array, in guarded buffers"),
 "C14": (ENUM, "exploration", "the maintenance tools themselves in all sequences of three of 17 operations (archive, hide, mount, unmount, consolidate, re-index, wipe, purge of three databases), from an empty FDB and from three stored databases x 4 layouts (sub-tocs, one writer kept open); listings, retrievals and the files of databases not concerned against a reference model; overlays that are documented not to work left out"),
 "C16": (ENUM, "exploration", "every kind of stored or sent object over enumerations of its members (keys of up to 3 keywords x 14 values in every order, axes over all subsets of 5 values x 3 versions, locations, listing elements, wipe states, statistics, requests, controls, connection negotiation, schemas, path tables): decoded, compared and encoded again; index files of 4 kinds; stored states x format versions and mixtures; 18 databases kept from an earlier build"),
 "C17": (ENUM, "exploration", "all programs of 3 operations (with 13 kinds of operations) x 3 connection layouts, of 2 after a flush in further layouts, universes and read limits, each through real servers and locally, compared step by step; long listings dropped or entangled at each stage"),
 "C18": (FAULT, "fault_enumeration", "every read and write of every socket of a client during 12 operations x 3 layouts: connection cut, half cut, catalogue or store server killed, before the call or within it (quick: cuts before every call, the other kinds before every write with two connections); one fault per execution, scheduling of threads left to the system"),
}
NOT = {}
NOTES = "Checks explore the implementation itself, rebuilt from /repo's working tree into build/ (mirrored by content). known_findings.jsonl lists genuine defects recorded or repaired."
