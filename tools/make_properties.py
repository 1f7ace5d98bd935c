import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Flushed fields are found again, and the latest version of each wins",
"After any sequence of archive, flush, close and reopen operations, every field whose archival was followed by a successful flush can be listed and retrieved through a newly opened FDB, and the bytes returned are exactly those of the most recently archived version of that field. A field never archived is never reported. This holds whatever the indexing layout (single table of contents or one per writer process, common or separate catalogue and store locations), the on-disk format version used for writing, and the limits on how many databases an archiving process keeps open.",
["histories","configurations"],
"Every sequence, up to a depth bound, of archive(field, version) / flush / reopen-writer / change-of-writer over a small key universe spanning several databases, indexes and data; for every supported combination of indexing layout, on-disk format version and open-database limit.",
"The tests archive a handful of fixed sequences under one configuration; masking of an old version by a newer one depends on the order of index records, the number of writers, eviction of open databases and on the layout, which they do not combine.",
["src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCatalogueReader.cc","src/fdb5/toc/TocIndex.cc","src/fdb5/toc/TocStore.cc","src/fdb5/database/Archiver.cc","src/fdb5/toc/BTreeIndex.cc"],
[("index publication on flush","TocCatalogueWriter::flush, TocHandler::writeIndexRecord"),("newest-first index order","TocHandler::loadIndexes"),("database eviction","Archiver::database, CacheLRU"),("data flush before index flush","Archiver::flush, TocStore::flush")],
["FDB::list","FDB::retrieve","FDB::inspect"])
p("C02","A crash at any instant loses no flushed field and exposes no damaged one",
"If a writing process dies at any instant, including in the middle of a write, or the machine loses everything not yet synchronised to disk when data synchronisation is enabled, every field whose flush had returned is still listed and retrieved with its exact bytes. A field that was not flushed is either absent or complete: no listing entry leads to missing, short or foreign bytes. The database stays readable, and a new process can archive and flush into it and have those fields found.",
["crash_points","histories"],
"Every prefix of the file-system calls issued by a writing process (and, for each write, every torn prefix class; and, for each prefix, the loss of unsynchronised data), over a set of archive/flush histories and indexing layouts; followed by a full read-back and by a second writer.",
"No test stops a writer; the guarantee depends on the order of data writes, data synchronisation, index writes and table-of-contents appends at every intermediate point.",
["src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/TocHandler.cc","src/fdb5/toc/BTreeIndex.cc","src/fdb5/toc/TocIndex.cc","src/fdb5/io/FDBFileHandle.cc","src/fdb5/database/Archiver.cc"],
[("order: data, data sync, index, toc append","Archiver::flush, TocCatalogueWriter::flush"),("atomic toc record append","TocHandler::appendRaw"),("initialisation record","TocHandler::writeInitRecord")],
["file-system calls of the writer","FDB::list / retrieve in a fresh process"])
p("C03","A failing disk operation is reported and never yields wrong data",
"When a file-system operation fails or is cut short while archiving, flushing, listing or retrieving (no space, I/O error, interruption, short transfer), the failure is reported to the caller of that operation or of the flush that should have made the data safe, or it is fully recovered; a flush never reports success for a field that cannot then be read back. Whatever fails, no field is ever returned with wrong bytes, no earlier flushed field is lost, and the process is not terminated.",
["fault_sequences","histories"],
"Every file-system call of a set of archive/flush/list/retrieve histories, failed in turn with each applicable error (ENOSPC, EIO, EINTR, EACCES, short count), followed by read-back and by a retry in a new process.",
"Tests never make a system call fail; each of the hundreds of call sites is a separate fault point.",
["src/fdb5/io/FDBFileHandle.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/io/FieldHandle.cc","src/fdb5/database/Archiver.cc","src/fdb5/api/FDB.cc"],
[("write / fsync error checks","FDBFileHandle::write, flush"),("append length check","TocHandler::appendRaw"),("flush error propagation","Archiver::flush, TocStore::flush")],
["return value / exception of each API call","FDB::list / retrieve in a fresh process"])
p("C04","A reader running beside a writer sees only complete, flushed states",
"A process that lists or retrieves while another process archives and flushes sees, for every field, some version whose bytes are complete and exact: never a partial, missing or foreign byte, and never an error caused by the writer's activity. Everything flushed before the reader started is included in what it sees, in that version or a newer one.",
["schedules","histories"],
"Every interleaving, at file-system-call granularity and up to a bounded number of context switches, of a writing process (creating or extending databases, flushing, replacing fields) and a reading process.",
"The concurrency tests run one timing per execution; the window between two system calls of a writer is never hit on purpose.",
["src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCatalogueReader.cc","src/fdb5/toc/TocIndex.cc","src/fdb5/toc/BTreeIndex.cc","src/fdb5/toc/TocCatalogueWriter.cc"],
[("append-only table of contents","TocHandler::appendRaw / readNext"),("index locked before publication","BTreeIndex::flush, TocIndex::flush"),("creation of a database","TocHandler::writeInitRecord")],
["FDB::list / retrieve of the reading process"])
p("C05","Fields flushed by processes writing at the same time all survive",
"When several processes archive and flush into the same or different databases at the same time, including when they all create the same new database, every field flushed by any of them is afterwards listed and retrieved with the exact bytes of one of the versions written for it: the last one flushed, when one flush began after the other had completed. No interleaving makes a writer fail or leaves the database unreadable.",
["schedules","histories"],
"Every interleaving, at file-system-call granularity and up to a bounded number of context switches, of two writing processes over small archive/flush programs on shared and distinct fields, for each indexing layout.",
"Existing tests run writers in sequence or with uncontrolled timing; races on database creation and table-of-contents appends need a particular interleaving.",
["src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCatalogue.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/RootManager.cc","src/fdb5/toc/TocEngine.cc"],
[("database creation","TocHandler::writeInitRecord, RootManager::directory"),("unique data and index file names","TocStore::generateDataPath, TocCatalogueWriter::generateIndexPath"),("atomic appends","TocHandler::appendRaw")],
["FDB::list / retrieve in a fresh process"])
p("C06","Concurrent threads do not corrupt or lose each other's work",
"Threads of one process may archive, flush, list, inspect and retrieve at the same time, each through its own FDB or, for archiving and flushing, through a shared one: no schedule deadlocks, crashes or raises an error, and every field flushed by any thread is afterwards found with its exact bytes. Read results obtained in any schedule equal those of some sequential execution.",
["schedules"],
"All schedules of two or three threads running small programs, up to a bound on preemptions at lock, condition-variable and thread-creation points.",
"Thread tests take whatever schedule the machine gives; process-wide caches and registries are only exercised in one order.",
["src/fdb5/database/AxisRegistry.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/database/Archiver.cc","src/fdb5/database/Store.cc","src/fdb5/database/Catalogue.cc","src/fdb5/rules/Schema.h","src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCommon.cc","src/fdb5/api/FDB.cc"],
[("shared axis registry","AxisRegistry::deduplicate / release"),("archiver locking","Archiver::archive, flush"),("process-wide caches","SchemaRegistry, TocHandler toc caches, Root/FileSpace tables")],
["FDB API results, process exit"])
p("C07","Listing answers a request with exactly the matching fields",
"A listing returns exactly the stored fields that match the request, whether it constrains all, some or none of the keywords, with one or several values each and however values are spelled; each matching element is reported once and nothing else is. The depth and duplicate options select exactly what they name: databases, indexes or fields; the latest version only, all versions, or only superseded ones; and each reported element carries the key, location, length and offset of the field it stands for.",
["inputs","histories"],
"All requests built from subsets of the keywords and of one or two values per keyword (stored and not stored), for every depth and duplicate mode, over a set of database contents with several databases, indexes, schema rules, optional keywords and repeated fields.",
"Tests list a few hand-written requests; the answer depends on the product of request shape, level in the schema, rule, optional keywords and duplicates.",
["src/fdb5/api/local/ListVisitor.h","src/fdb5/api/helpers/ListIterator.cc","src/fdb5/api/helpers/ListElement.cc","src/fdb5/database/EntryVisitMechanism.cc","src/fdb5/database/Catalogue.cc","src/fdb5/toc/TocEngine.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/rules/Schema.cc","src/fdb5/database/Key.cc"],
[("database selection","TocEngine::visitableLocations, RootManager::possibleDbPathNames"),("index and datum matching","ListVisitor, TocIndex::entries"),("de-duplication","ListIterator::next, KeyStore")],
["FDB::list, ListElement"])
p("C08","Retrieved data is exactly the requested fields, however it is read",
"Retrieving a request yields exactly one complete copy of the latest version of each field the request names and that is stored, with no other bytes, and reports an error or the absence of fields that do not exist rather than substituting others. The byte stream, total length and position are the same whatever the sizes of the reads, whether the handle is skipped, sought, rewound or reopened, and whether fields are sorted, merged from adjacent ranges or de-duplicated.",
["inputs","histories"],
"All requests over a small key universe with repeated, missing and duplicate fields; for each result every read-chunk size from a bounded set and every sequence of read, seek, skip, position and reopen operations up to a depth bound.",
"Tests read whole handles in one way; behaviour at field boundaries depends on the combination of chunk size, offset and seek history.",
["src/fdb5/io/FieldHandle.cc","src/fdb5/io/HandleGatherer.cc","src/fdb5/api/FDB.cc","src/fdb5/database/Inspector.cc","src/fdb5/toc/TocFieldLocation.cc","src/fdb5/io/SingleGribMungePartFileHandle.cc","src/fdb5/database/MultiRetrieveVisitor.cc"],
[("seek-able concatenated handle","FieldHandle"),("de-duplicating cube","FDB::read(ListIterator&)"),("gathering and sorting","HandleGatherer"),("datum lookup","Inspector, MultiRetrieveVisitor, TocCatalogueReader::retrieve")],
["FDB::retrieve / inspect / read, eckit::DataHandle"])
p("C09","Reported axes are exactly the values present in the matching fields",
"For any request, at any depth, the axes reported contain exactly the values that occur in the stored fields selected by the request down to that depth, one entry per value, and no value that only occurs in unselected data. Axes of several databases are the union of the axes of each.",
["inputs","histories"],
"All requests over subsets of keywords and values, at depths 1 to 3, over a set of database contents including several databases, indexes, rules, optional keywords, hidden and superseded indexes.",
"Tests check axes of a few hand-made databases; the relation between axes and listing must hold for every content and request.",
["src/fdb5/api/local/AxesVisitor.cc","src/fdb5/api/helpers/AxesIterator.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/database/AxisRegistry.cc","src/fdb5/toc/TocIndex.cc"],
[("axes merge and pruning","AxesVisitor, IndexAxis::merge"),("axis per index","TocIndex axes encode/decode")],
["FDB::axes, FDB::list"])
p("C10","Wipe removes exactly what was asked, and nothing without being told to",
"A wipe without confirmation changes nothing. A confirmed wipe removes every field whose database and index keys match the request, together with the files that only those fields use, and leaves every other field listed and retrievable byte for byte; a wiped database can be archived into again. A wipe refuses a request it cannot express at index level, refuses to touch databases that hold files it does not know unless told to, respects locks, and leaves the control state of surviving databases as it found it.",
["histories","inputs"],
"All wipe requests over subsets of keywords and values with every combination of confirmation, portion-only and unsafe options, over a set of database contents (several databases, indexes sharing and not sharing data files, repeated fields, unknown files, locked databases), each checked against a reference model of the file tree and the contents.",
"Tests wipe a few layouts; which files are shared between matching and surviving indexes depends on the whole history of archive, flush, replace and overlay.",
["src/fdb5/api/local/WipeVisitor.cc","src/fdb5/database/WipeState.cc","src/fdb5/database/WipeCoordinator.cc","src/fdb5/toc/TocCatalogue.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocHandler.cc"],
[("classification of URIs","WipeState, CatalogueWipeState / StoreWipeState"),("masking and deletion order","WipeCoordinator::doWipeURIs"),("control state restore","RestoreControlStateOnExit")],
["FDB::wipe, file tree, FDB::list"])
p("C11","Purge removes only superseded data and changes no answer",
"A purge without confirmation changes nothing. A confirmed purge leaves every listing (latest version of each field) and every retrieval byte-for-byte as it was, removes every index and data file that is left with no visible field at all, and removes nothing that a visible field uses. Purging again finds nothing more to remove.",
["histories","inputs"],
"All archive/flush/replace histories up to a depth bound, over several writers, layouts and databases, followed by purge requests over subsets of keywords with every option, checked against a reference model of which files hold visible fields.",
"Tests purge two fixed layouts; whether a file is wholly superseded depends on every version order and file-sharing pattern.",
["src/fdb5/toc/TocPurgeVisitor.cc","src/fdb5/api/local/PurgeVisitor.cc","src/fdb5/toc/TocStats.cc","src/fdb5/toc/TocHandler.cc"],
[("duplicate detection","TocPurgeVisitor::visitDatum"),("data file use counts","TocDataStats / TocStats"),("clear records","TocHandler::writeClearRecord")],
["FDB::purge, file tree, FDB::list / retrieve"])
p("C12","Locked operations are refused, and only those, until unlocked",
"After an operation (archive, retrieve, list, wipe) is disabled for the databases matching a request, that operation has no effect on those databases and an attempt is refused or skipped without altering or revealing data, while every other operation, and every other database, behaves as before. Enabling it restores the behaviour exactly, the reported status always equals the result of the last changes, and the state is shared by all processes and survives restarts.",
["histories"],
"All sequences, up to a depth bound, of enable / disable of each identifier on matching requests, followed by every operation on matching and non-matching databases, from the same and from new processes.",
"Tests lock one identifier at a time in a single order.",
["src/fdb5/api/local/ControlVisitor.cc","src/fdb5/toc/TocCommon.cc","src/fdb5/toc/TocCatalogue.cc","src/fdb5/database/Catalogue.cc","src/fdb5/api/helpers/ControlIterator.cc","src/fdb5/toc/TocHandler.cc","src/fdb5/database/Archiver.cc"],
[("control files","TocHandler::control, TocCatalogue::enabled"),("refusal points","TocCatalogueWriter, Inspector, ListVisitor, WipeVisitor")],
["FDB::control / status and the results of the other operations"])
p("C13","Moving a database preserves its contents",
"Moving a database to another root leaves every field it held listed and retrievable with exact bytes from the destination, exactly once and with no leftover dependency on the source once the move has been completed; it refuses databases that are not locked, destinations outside the configuration or already occupied, and a refused or unconfirmed move changes nothing. If a move is interrupted at any point, every field stays retrievable from the source or the destination, and moving again completes.",
["histories","crash_points"],
"A set of database contents and layouts moved between roots under every option and precondition violation; and every prefix of the file-system calls of a move, followed by read-back and by re-execution.",
"The tool tests move one database once and uninterrupted.",
["src/fdb5/api/local/MoveVisitor.cc","src/fdb5/toc/TocMoveVisitor.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocCatalogue.cc","src/fdb5/api/helpers/MoveIterator.h","src/fdb5/tools/fdb-move.cc"],
[("copy order and completion","TocMoveVisitor::move, MoveElement"),("precondition checks","TocMoveVisitor::visitDatabase")],
["FDB::move, file trees, FDB::list / retrieve"])
p("C14","Catalogue maintenance changes visibility exactly as documented",
"Hiding a database hides all its present contents and nothing else; overlaying one database on another makes the fields of both visible through the overlaid one, with its own fields taking precedence by time of mounting, and unmounting removes exactly the fields of the mounted one; re-indexing or adopting existing data makes exactly those fields visible with their exact bytes; consolidating tables of contents changes no answer. Fields archived afterwards are found, and no maintenance operation alters the contents of other databases.",
["histories"],
"All sequences up to a depth bound of archive/flush/replace, hide, overlay, unmount, consolidate and re-index operations on two databases, for the indexing layouts, against a reference model of visibility.",
"Tool tests run one fixed scenario per tool; the operations compose through the same record-masking logic.",
["src/fdb5/tools/fdb-hide.cc","src/fdb5/tools/fdb-overlay.cc","src/fdb5/tools/fdb-reconsolidate-toc.cc","src/fdb5/tools/fdb-reindex.cc","src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/AdoptVisitor.cc"],
[("masking records","TocHandler::populateMaskedEntriesList, writeClearRecord, writeClearAllRecord"),("mounting","TocCatalogueWriter::overlayDB, TocHandler::writeSubTocRecord"),("consolidation","TocCatalogueWriter::reconsolidateIndexesAndTocs")],
["tools' effects observed by FDB::list / retrieve"])
p("C15","Every key resolves through the schema deterministically and invertibly",
"For every well-formed schema and field description, archiving selects the first rule that accepts it or reports an error; it never places the same description in two different places, nor two different descriptions in the same place. Equivalent spellings of a value resolve to the same place, normalising an already normal value changes nothing, and the key recorded for a field, split into its levels and joined again, is the description that was archived. Printing a schema and parsing it again gives an equivalent schema.",
["inputs"],
"All schemas in a bounded grammar (one to three rules, each predicate kind, defaults, types, nested alternatives), each against all field descriptions over a small keyword and value universe, compared with a reference matcher; and all values of a bounded set for every type.",
"Tests parse a few schemas and match a few keys; ordering, optional and excluded keywords combine in ways they never try.",
["src/fdb5/rules/Schema.cc","src/fdb5/rules/Rule.cc","src/fdb5/rules/SchemaParser.cc","src/fdb5/rules/Predicate.cc","src/fdb5/rules/MatchOptional.cc","src/fdb5/types/Type.cc","src/fdb5/types/TypesRegistry.cc","src/fdb5/database/Key.cc","src/fdb5/database/BaseArchiveVisitor.cc"],
[("rule expansion","Schema::expand, Rule::expand*"),("predicates","Match*.cc, Exclude*.cc"),("canonicalisation","types/Type*.cc toKey"),("schema printing","Schema::dump")],
["Schema, Key, archive callbacks"])
p("C16","Everything written to disk or to a stream is read back unchanged",
"Every persistent or transmitted object (keys, axes, schemas, field locations, listing elements, wipe states, statistics, control and configuration requests) decodes to an object equal to the one encoded, for all supported format versions, and re-encoding gives the same bytes. A database written with any supported format version answers exactly as one written with any other.",
["inputs","configurations"],
"All objects in bounded enumerations (numbers of keywords, values including empty, long and non-ASCII ones, optional members), each through every encoding version; and a set of database histories written under each format version and read by the current reader.",
"Tests encode a few sample objects in the default version.",
["src/fdb5/database/Key.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/api/helpers/ListElement.cc","src/fdb5/rules/Rule.cc","src/fdb5/database/WipeState.cc","src/fdb5/toc/TocSerialisationVersion.cc","src/fdb5/toc/TocRecord.cc","src/fdb5/toc/FieldRef.cc","src/fdb5/toc/TocFieldLocation.cc"],
[("stream codecs","BaseKey::encode/decode, IndexAxis::encode*, Rule::encode"),("toc format versions","TocHandler::writeInitRecord, IndexAxis::encodeLegacy")],
["eckit::Stream bytes, decoded objects"])
p("C17","A remote FDB gives the same answers as the local one behind it",
"Any sequence of archive, flush, list, axes, inspect, retrieve, status, control, wipe and statistics operations issued through a server gives the same answers, and leaves the same stored state, as the same sequence issued directly to the database that the server serves. This holds with one server for everything and with separate catalogue and store servers, for one or several clients and for results that are only partly consumed.",
["histories","configurations"],
"All operation sequences up to a depth bound over a small key universe, executed both against servers running in the sandbox and against a local FDB, with answers and final contents compared.",
"The remote tests run one archive-list-retrieve scenario; the protocol multiplexes requests whose combinations are never compared with local behaviour.",
["src/fdb5/api/RemoteFDB.cc","src/fdb5/remote/client/Client.cc","src/fdb5/remote/client/RemoteStore.cc","src/fdb5/remote/client/RemoteCatalogue.cc","src/fdb5/remote/server/CatalogueHandler.cc","src/fdb5/remote/server/StoreHandler.cc","src/fdb5/remote/server/ServerConnection.cc","src/fdb5/remote/Connection.cc"],
[("request/response protocol","Connection, ClientConnection, ServerConnection"),("API forwarding","RemoteFDB::forwardApiCall, CatalogueHandler"),("data path","RemoteStore, StoreHandler")],
["FDB API results over TCP loopback"])
p("C18","A broken connection is reported, and never becomes wrong or silent data",
"If the connection between client and server is cut at any byte in either direction, every outstanding client operation ends, in bounded time, with either an error or its correct and complete result: never a hang, a process abort, a shortened listing taken as complete, or wrong bytes. A flush that returned success means the fields are stored; the server goes on serving other clients, and the stored contents remain consistent.",
["fault_sequences"],
"Every message boundary and byte offset class at which a proxy between client and server closes or half-closes the connection, for each kind of client operation.",
"No test breaks a connection; each message of each exchange is a distinct fault point.",
["src/fdb5/remote/Connection.cc","src/fdb5/remote/client/ClientConnection.cc","src/fdb5/remote/client/Client.cc","src/fdb5/remote/client/RemoteStore.cc","src/fdb5/remote/server/ServerConnection.cc","src/fdb5/api/RemoteFDB.cc"],
[("connection loss handling","ClientConnection::listeningThreadLoop, Client::handle"),("server side cleanup","ServerConnection")],
["client API results under a fault-injecting proxy"])
p("C19","Multi-FDB configurations route each operation to exactly the right member",
"With several member FDBs selected by match and exclude rules, a field is archived into the first member that accepts it and nowhere else, or refused if none does, and a read, listing, control or axes request reaches every member that can hold matching fields and combines their answers without loss or duplication. Adding a member that cannot match changes no answer.",
["inputs","configurations"],
"All configurations of two or three members with select / exclude rules over two keywords and a few values, each against all fields and requests of a small universe, compared with a reference router.",
"Tests use two members and a few requests.",
["src/fdb5/api/SelectFDB.cc","src/fdb5/api/SelectFDB.h","src/fdb5/api/helpers/APIIterator.h","src/fdb5/rules/SelectMatcher.h","src/fdb5/api/FDBFactory.cc"],
[("lane matching","SelectFDB::matches, FDBLane"),("aggregation","SelectFDB::queryInternal, APIAggregateIterator")],
["FDB API over the multi-member configuration, each member's contents"])
p("C20","Roots and file spaces place each database once and find it again",
"For every configuration of file spaces, roots with per-operation permissions, and directory-naming rules, a database is created in exactly one root: the existing one if there is one, otherwise the first suitable root that permits archiving, in the file space selected by the first matching rule. Every field so archived is found by every request that matches it, including partial ones, through every root that permits listing or retrieval, and a root that does not permit an operation is never used for it.",
["configurations","histories"],
"All configurations of one or two file spaces with up to three roots, every combination of per-root permissions, and several naming rules, each against archive/list/retrieve histories over a small key universe, compared with a reference placement model.",
"Tests use one or two roots with default permissions and default naming.",
["src/fdb5/toc/RootManager.cc","src/fdb5/toc/FileSpace.cc","src/fdb5/toc/FileSpaceHandler.cc","src/fdb5/toc/Root.cc","src/fdb5/toc/TocEngine.cc"],
[("file space and root selection","RootManager::directory, FileSpace::filesystem, existsDB"),("directory naming","DbPathNamer, substituteVars"),("visiting","RootManager::visitableRoots, TocEngine::scan_dbs")],
["file tree, FDB::list / retrieve"])
p("C21","Result iterators deliver every element, the first error, and never block",
"An asynchronous result iterator delivers exactly the elements its producer generates, in order and once each, then the end; if the producer fails, the consumer receives the elements produced before and then the error, never a silent end. Dropping an iterator at any point, before, during or after production and with the queue empty or full, ends both sides without deadlock, leak or crash, and iterators joined together deliver the union under the same guarantees.",
["schedules","fault_sequences"],
"All schedules up to a bound on preemptions of a producer and a consumer that reads any number of elements before dropping the iterator, with a failure injected at each production step, for small queue capacities.",
"Tests iterate to the end with one timing; abandonment and failure at each point under each schedule is not exercised.",
["src/fdb5/api/helpers/APIIterator.h","src/fdb5/api/LocalFDB.cc","src/fdb5/api/local/QueryVisitor.h"],
[("asynchronous queue","APIAsyncIterator, eckit::Queue"),("aggregation","APIAggregateIterator"),("error propagation","Queue::interrupt")],
["iterator results, thread termination"])
p("C22","Archiving data stores each message under exactly the key it describes",
"Archiving a stream of data stores each message it contains once, byte for byte, under the key that its own metadata describe (as modified by requested overrides), however the stream is cut into reads. Data that do not match the request they are archived with, contain no complete message, or contain fewer or other fields than announced are refused, and nothing is made visible for a message that was refused.",
["inputs"],
"All sequences of up to three messages (well-formed, truncated, padded, foreign, mismatching the request), under every read-chunk size class and each override kind, compared with a reference splitter.",
"Tests archive one or two well-formed messages.",
["src/fdb5/message/MessageArchiver.cc","src/fdb5/message/MessageDecoder.cc","src/fdb5/api/FDB.cc","src/fdb5/database/ArchiveVisitor.cc"],
[("message splitting and decoding","MessageArchiver::archive, MessageDecoder"),("request checks","FDB::archive(request, handle)")],
["FDB::archive, FDB::list / retrieve"])
p("C23","Statistics account for every field and byte exactly",
"The statistics reported for a request equal those computed from the full listing and the files on disk: number of fields, duplicates and wiped fields, bytes visible, superseded and total, and numbers and sizes of databases, indexes, tables of contents and data files. They are additive over databases.",
["histories"],
"All archive/flush/replace histories up to a depth bound over two databases and several writers and layouts, with statistics compared to a direct count.",
"Tests print statistics but do not compare them with the contents.",
["src/fdb5/toc/TocStats.cc","src/fdb5/api/local/StatsVisitor.cc","src/fdb5/database/DbStats.cc","src/fdb5/database/IndexStats.cc","src/fdb5/api/helpers/StatsIterator.cc"],
[("accumulation","TocStatsReportVisitor::visitDatum / visitDatabase")],
["FDB::stats, FDB::list, file tree"])
p("C24","The object-store backend honours the same contract as the file backend",
"With databases kept in the object store, any sequence of archive, flush, list, axes, retrieve, inspect, control and wipe gives the same answers as with databases kept in files: flushed fields are found with their exact bytes, the latest version wins, and a wipe removes exactly what was asked. A failure of an object-store operation is reported and never yields wrong data.",
["histories","fault_sequences"],
"All archive/flush/replace/reopen/wipe histories up to a depth bound over a small key universe, executed on both backends and compared with the same reference model; and each object-store call failed in turn.",
"The object-store tests run one scenario each against a stand-in library.",
["src/fdb5/daos/DaosCatalogueWriter.cc","src/fdb5/daos/DaosCatalogueReader.cc","src/fdb5/daos/DaosStore.cc","src/fdb5/daos/DaosIndex.cc","src/fdb5/daos/DaosEngine.cc","src/fdb5/daos/DaosCatalogue.cc"],
[("key-value indexing","DaosIndex::add, DaosCatalogueWriter"),("array storage","DaosStore::archive")],
["FDB API with the object-store backend"])
p("C25","A chunked view holds exactly the values of the fields it is defined over",
"For every view definition (parts, axis order, chunking of each axis, extension axis), the shape and chunk shape follow from the definition, and every element of every chunk equals the value of the field at the corresponding coordinates, independent of the order in which the storage returns fields. A missing, extra, repeated or wrongly sized field is reported as an error: never a chunk with wrong or stale values, nor a write outside the caller's buffer.",
["inputs"],
"All view definitions with one or two parts, one to three axes of one to three values, every chunking and axis grouping, every chunk index, and every permutation / omission / duplication of the returned fields up to a bound; compared with a reference array.",
"Tests check a few shapes with fields returned in one order.",
["src/chunked_data_view/ViewPart.cc","src/chunked_data_view/ChunkedDataViewImpl.cc","src/chunked_data_view/mapping/IndexMapper.cc","src/chunked_data_view/Axis.cc","src/chunked_data_view/ChunkedDataViewBuilder.cc","src/chunked_data_view/GribExtractor.cc"],
[("index mapping","IndexMapper, Axis"),("part layout","ViewPart::at"),("extension of parts","ChunkedDataViewImpl::at")],
["ChunkedDataView::at, shape, chunkShape"])
p("C26","An interrupted or failing wipe or purge leaves a consistent, repairable database",
"If a confirmed wipe or purge stops at any instant, or any of its file-system operations fails, the fields outside its scope are still listed and retrieved byte for byte, no listed field leads to missing or foreign bytes in what survives, and running the same operation again, after clearing any lock it left, completes it.",
["crash_points","fault_sequences"],
"Every prefix and every single failure of the file-system calls of wipes and purges of several scopes, over a set of database contents and layouts, each followed by read-back and by re-execution.",
"No test interrupts a removal; each intermediate file state is a separate case.",
["src/fdb5/database/WipeCoordinator.cc","src/fdb5/toc/TocCatalogue.cc","src/fdb5/toc/TocPurgeVisitor.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocHandler.cc"],
[("hide before delete","WipeCoordinator::doWipeURIs, TocCatalogue::maskIndexEntries, TocPurgeVisitor::purge")],
["file-system calls, FDB::list / retrieve in a fresh process"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema,os
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch)
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fn): print(x["id"],"missing",fn)
print(len(P))
