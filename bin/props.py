"""The properties and their checks: the single source of properties.jsonl and MANIFEST.json (bin/gen.py writes both)."""

ASSUMPTIONS = [
    "Threads are interleaved at every synchronisation call, disk operation, clock read and (in part of the runs) at arbitrary basic blocks of the library, sequentially consistently: weak-memory effects of data races are not simulated.",
    "Crash model: file contents survive a power loss only as far as fsync made them durable (unsynced writes survive whole, in part, torn or not at all); directory operations reach the disk in order, as on a journalling file system, because the library never fsyncs a directory.",
    "The seeds explored are a sample: a clean run is evidence, not proof.",
]

SCHED = "Schedules: random preemption at scheduling points and basic blocks, or priorities with change points, with stalls, spurious wake-ups, clock jumps to the next deadline and wall-clock jumps in part of the runs."

P = {}


def prop(id, title, statement, over, text, why, files, mechanism, level, rule, note, secs=30, deep=900, assumptions=(), technique=None, observe=None):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, level=level, rule=rule, note=note, secs=secs, deep=deep, assumptions=list(assumptions), technique=technique, observe=observe)


prop("C01", "Acknowledged commits survive any crash; recovery shows exactly one commit",
     "After a crash or power loss at any instant, opening the index succeeds and shows exactly the documents, order, stored content, postings and user data of one commit: the last one whose commit call returned, or one that was in progress at the crash. "
     "Nothing of an acknowledged commit is lost, torn or mixed with later work, and the recovered index accepts further writes, commits and crashes with the same guarantee.",
     ["crash_points", "histories", "schedules", "configurations"],
     "for every sequence of index operations by any number of threads, every configuration, and every crash point with every legal choice of which unsynced bytes survive",
     "The tests crash at a handful of hand-picked points on a RAM directory that fails; none cuts power at an arbitrary disk operation with torn or lost unsynced writes and then reads every document back.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/SegmentInfos.cpp", "src/core/index/IndexFileDeleter.cpp", "src/core/store/FSDirectory.cpp", "src/core/store/ChecksumIndexOutput.cpp", "src/core/index/DirectoryReader.cpp"],
     [("files are synced before the segments file is written", "IndexWriter::startCommit / syncing of all referenced files"), ("two-phase segments_N with trailing checksum", "SegmentInfos::prepareCommit, finishCommit, read"), ("fallback over generations and segments.gen", "FindSegmentsFile::run"), ("old files deleted only after the new commit", "IndexFileDeleter::checkpoint, incRef/decRef")],
     "fault_enumeration",
     "Plans of add/update/delete/commit/prepareCommit/rollback/optimize/expungeDeletes/addIndexes/deleteAll/close-and-reopen on SimpleFS or MMap directories; up to 12 crash images per run are cut at seeded disk operations (biased towards commits) with every unsynced write surviving whole, partly, torn, zeroed or not at all; each image is opened, compared with the reference model, written to again and crashed again.",
     "Seeded search over histories, schedules and crash images; every recovered index is compared document by document with a reference model.",
     secs=32, technique="deterministic simulation, crash images at seeded disk operations against a commit-history model")

prop("C02", "Two-phase commit, rollback and user data are atomic",
     "A prepared commit is invisible to new readers and to crash recovery until it is finished, and becomes visible as a whole with exactly the documents and user data it was prepared with, whatever is indexed in between. "
     "Rolling back, before or after preparing, leaves exactly the last finished commit, and a writer opened afterwards continues from it.",
     ["histories", "crash_points", "schedules", "configurations"],
     "for every history that interleaves prepare, finish, rollback, indexing, merging, reader opens and crashes, in every configuration",
     "The tests prepare and roll back once or twice in fixed sequences; none explores arbitrary histories with indexing and merges between the phases nor crashes between them.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/SegmentInfos.cpp", "src/core/index/IndexFileDeleter.cpp"],
     [("pending commit kept apart from the live segment list", "IndexWriter::startCommit / finishCommit / rollbackInternal"), ("pending segments file is incomplete until finished", "SegmentInfos::prepareCommit, finishCommit, rollbackCommit")],
     "fault_enumeration",
     "Single-writer histories rich in prepareCommit, commit, rollback, close and crash, with merges in the background; readers opened at any time and crash images must show the model's committed state with its user data.",
     "Seeded search over histories and crash points against a model of the committed state.",
     secs=30, technique="deterministic simulation, history refinement of two-phase commit with crash images")

prop("C03", "A failing disk loses nothing that was committed, and the writer recovers",
     "When reads, writes, opens, deletions, listings, mappings or syncs fail or the disk is full, the failure is reported and never loses, revives or damages a committed document; a commit call that returns is complete and durable even when earlier attempts failed. "
     "Only documents that were still buffered when an operation failed may be missing. "
     "Once the disk works again the same writer can commit, roll back or close, a new writer can be opened, nothing hangs, and no files or handles of failed operations stay behind.",
     ["fault_sequences", "histories", "crash_points", "configurations"],
     "for every sequence of index operations, every configuration and every sequence of failing disk operations, in the caller's thread or in a merge thread",
     "The tests fail a few operations of a RAM directory through MockRAMDirectory and mostly check that the index can still be opened; errors of the real file system and their combination with later commits, merges and crashes are not exercised.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/IndexFileDeleter.cpp", "src/core/index/SegmentInfos.cpp", "src/core/index/ConcurrentMergeScheduler.cpp", "src/core/index/TermVectorsTermsWriter.cpp", "src/core/store/SimpleFSDirectory.cpp", "src/core/store/FSDirectory.cpp"],
     [("abort of the segment being buffered", "DocumentsWriter::abort, flush"), ("failed commit keeps the last one", "IndexWriter::startCommit, SegmentInfos::prepareCommit / finishCommit"), ("failed merges", "IndexWriter::merge, mergeInit, handleMergeException, ConcurrentMergeScheduler"), ("deletions that fail are retried", "IndexFileDeleter::deleteFile, deletePendingFiles"), ("transactions", "IndexWriter::startTransaction / rollbackTransaction")],
     "fault_enumeration",
     "One thread runs index operations on SimpleFS or MMap directories while faults are switched on and off: failing or short writes, full disks, failing fsyncs, opens, reads, deletions, listings and mappings, alone, in bursts and combined, also in merge threads. After every failure the content is bounded by what was committed and what was acknowledged since; readers, commits, crash images and reopened writers are compared with these bounds and every document is read in full; at the end no orphan file and no open handle may be left.",
     "Seeded search over fault sequences and histories against a model of what may and must have survived.",
     secs=34, technique="deterministic simulation with disk fault injection against a bounded-loss history model")

prop("C04", "An open reader is an immutable snapshot",
     "Everything a reader shows (documents, deletions, stored fields, terms, postings, norms, vectors, search results) stays exactly as it was when the reader was opened, until it is closed, whatever writers, merges, commits, deletions, file clean-up and other readers do meanwhile.",
     ["histories", "schedules", "configurations"],
     "for every history of writer and reader operations by any number of threads, on every directory type",
     "The tests compare one reader before and after a fixed operation; they do not hold many readers across arbitrary concurrent merges, deletions and file deletions and compare everything each one shows.",
     ["src/core/index/SegmentReader.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/IndexFileDeleter.cpp", "src/core/index/IndexWriter.cpp", "src/core/store/RAMDirectory.cpp"],
     [("copy on write of deletions and norms", "SegmentReader::clone / doDelete, SegmentReaderRef, Norm::copyOnWrite"), ("open files outlive their deletion", "POSIX unlink semantics, RAMFile references"), ("reader pool clones readers it hands out", "ReaderPool::getReadOnlyClone")],
     "exploration",
     "1 to 4 threads index, delete, merge, commit and roll back while readers of commits and near-real-time readers are held; a hash over everything a held reader shows is recomputed at random later points, by several threads at once, and must not change.",
     "Seeded search over histories and schedules; full-content hash of every held reader, plus comparison with the reference model.",
     secs=32, technique="deterministic simulation, full-content hash of held readers across concurrent work")

prop("C05", "Near-real-time readers show every finished change and no partial one",
     "A reader obtained from (or reopened through) a writer shows every document operation that completed before the call, never undoes or duplicates one, and never shows an update partly applied: the old and the new version of a document are never both visible and never both missing.",
     ["histories", "schedules", "configurations"],
     "for every interleaving of threads that index, delete, merge, commit and refresh readers, in every configuration",
     "The tests check visibility in single-threaded sequences and run stress threads without checking each refresh against what had completed; the schedules that expose a half-applied update are not reachable on demand.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/SegmentReader.cpp"],
     [("flush with deletes under the writer's lock before the reader is built", "IndexWriter::getReader, doFlush"), ("buffered deletes bounded by document position", "BufferedDeletes, DocumentsWriter::applyDeletes")],
     "exploration",
     "1 to 4 threads index, update, delete and refresh near-real-time readers. Every operation is stamped at invocation and completion; each reader's documents must be, per thread, the state after some prefix of that thread's operations between those completed before the call and those invoked before it returned.",
     "Seeded search over schedules; every refreshed reader is checked against the recorded history.",
     secs=34, technique="deterministic simulation, prefix-window check of every refreshed reader against the recorded history")

prop("C06", "Concurrent indexing neither loses, duplicates nor garbles documents",
     "When any number of threads add, update and delete through one writer while flushes, merges, optimizes and commits run, the final index holds exactly the documents that the threads' own operation sequences imply: each once, in each thread's order, with exactly its own stored fields, postings, norms and vectors.",
     ["schedules", "histories", "configurations"],
     "for every interleaving of any number of threads, every flush and merge trigger and every configuration",
     "The stress tests run few threads under whatever schedule the machine gives and check counts; they neither control preemption nor compare every document's content.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/DocumentsWriterThreadState.cpp", "src/core/index/ConcurrentMergeScheduler.cpp", "src/core/index/WaitQueue.cpp", "src/core/index/SegmentMerger.cpp", "src/core/index/TermsHash.cpp"],
     [("per-thread states and in-order write-out of finished documents", "DocumentsWriter::getThreadState, WaitQueue"), ("pausing threads around a flush", "DocumentsWriter::pauseAllThreads"), ("deletes carried over to segments merged meanwhile", "IndexWriter::commitMergedDeletes")],
     "exploration",
     "2 to 5 threads run seeded operation lists with disjoint document keys under controlled preemption; intermediate readers and the final index are compared with the per-thread models document by document, term by term.",
     "Seeded search over schedules; complete comparison of the resulting index with the model.",
     secs=34, technique="deterministic simulation of concurrent indexing against per-thread sequential models")

prop("C07", "Any history in any configuration gives the index its operations describe",
     "For every sequence of index operations by one thread, the index always shows exactly the documents the sequence implies, in order, whatever the buffer sizes, flush triggers, merge policy and scheduler, compound-file setting, term-index interval, directory type and deletion policy. "
     "Stored fields, terms, document frequencies, positions, payloads, norms, term vectors, term seeking and the hits of queries all agree with the documents as they were added.",
     ["histories", "inputs", "configurations"],
     "for every operation sequence, document content and configuration",
     "The tests fix the configuration and a short script; the interplay of flush boundaries, deletes, merges and doc stores is a product space they sample at isolated points.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/SegmentMerger.cpp", "src/core/index/LogMergePolicy.cpp", "src/core/index/TermVectorsWriter.cpp", "src/core/index/FieldsReader.cpp", "src/core/index/FreqProxTermsWriter.cpp", "src/core/index/NormsWriter.cpp", "src/core/search/IndexSearcher.cpp"],
     [("document buffering and flush", "DocumentsWriter::updateDocument, flush"), ("merging of every index part", "SegmentMerger"), ("delete application order", "DocumentsWriter::applyDeletes")],
     "exploration",
     "One thread runs a seeded list of all index operations with changing settings, plus the background merges these start; after each reader open everything in the index is compared with a reference model computed from the documents alone, and random queries with brute force.",
     "Seeded search over operation histories and configurations, background merge threads scheduled by the simulator; differential check against an executable model.",
     secs=32, technique="deterministic simulation, refinement of operation histories against an executable index model")

prop("C16", "Directories and streams are faithful byte stores",
     "What is written to a file through any directory (RAM, SimpleFS, MMap, file-switch) or packed into a compound file reads back byte for byte and value for value, at every position and buffer size, through any number of clones used by different threads, and inputs that are open keep their content when the file is deleted or overwritten. "
     "Short transfers and interrupted calls change nothing; a failing disk is reported as an IOException, never as silently wrong, missing or stale bytes; a write or copy that was closed without an error is complete, and what was synced survives a crash.",
     ["inputs", "fault_sequences", "schedules", "crash_points"],
     "for every sequence of typed writes, seeks and reads, every buffer size, interleaving of clones and every fault of the underlying system calls",
     "The tests write and read fixed patterns on a healthy disk; short transfers, errors in the middle of a stream and clones read by several threads are not exercised.",
     ["src/core/store/SimpleFSDirectory.cpp", "src/core/store/MMapDirectory.cpp", "src/core/store/RAMInputStream.cpp", "src/core/store/RAMOutputStream.cpp", "src/core/store/BufferedIndexInput.cpp", "src/core/store/BufferedIndexOutput.cpp", "src/core/store/Directory.cpp", "src/core/store/FSDirectory.cpp", "src/core/store/FileSwitchDirectory.cpp", "src/core/index/CompoundFileReader.cpp", "src/core/index/CompoundFileWriter.cpp", "src/core/store/ChecksumIndexOutput.cpp", "src/core/util/FileUtils.cpp"],
     [("buffered reading and seeking", "BufferedIndexInput::readBytes, refill, seek"), ("transfers are completed or reported", "SimpleFSIndexInput::readInternal, SimpleFSIndexOutput::flushBuffer, close"), ("clones are independent", "clone of every IndexInput"), ("sync", "FSDirectory::sync")],
     "fault_enumeration",
     "1 to 4 threads write, overwrite, delete, sync, copy, pack and read files with typed values and random seeks on all four directory kinds, compared with byte strings; in three quarters of the runs with short transfers, EINTR and slow calls, or failing reads, writes, opens, unlinks, listings, mappings, fsyncs and full disks; crash images after syncs; no handle may stay open.",
     "Seeded search over operation sequences, schedules and system-call faults; differential check against byte strings.",
     secs=30, technique="deterministic simulation of the storage layer with system-call fault injection against a byte-string model")

prop("C21", "A document that fails affects no other document",
     "When analysing or adding one document throws, only that document is missing: the exception reaches the caller, every other document, earlier, later or in flight on another thread, is indexed exactly as if the failing one had never been submitted, and the writer stays usable.",
     ["fault_sequences", "schedules", "histories"],
     "for every position of the failure inside the document, every neighbouring history and every interleaving with other threads",
     "The tests throw at one token of one field in a single thread; failures at arbitrary points while other threads have documents in flight are not exercised.",
     ["src/core/index/DocumentsWriter.cpp", "src/core/index/DocFieldProcessorPerThread.cpp", "src/core/index/DocInverterPerField.cpp", "src/core/index/StoredFieldsWriter.cpp", "src/core/index/TermVectorsTermsWriter.cpp", "src/core/index/WaitQueue.cpp"],
     [("a failed document is marked deleted and its slot skipped", "DocumentsWriter::updateDocument, skipDocWriter"), ("per-document consumers are reset", "DocFieldProcessorPerThread::processDocument")],
     "fault_enumeration",
     "1 to 3 threads add documents of which about a quarter throw after a seeded number of tokens in a seeded field, while others flush, commit and refresh readers; all surviving documents are compared in full with the model.",
     "Seeded search over failure positions and schedules; complete comparison with the model.",
     secs=30, technique="deterministic simulation with injected per-document failures against a model")

prop("C10", "At most one holder of the write lock",
     "At any moment at most one writer or modifying reader holds the write lock of an index, whichever lock factory is used, across threads, lock objects and processes. "
     "A refused party gets an exception after the requested time, without having changed anything; a released lock, or for native locks one whose process died, can be taken again; and a reader that modifies after somebody else committed is refused instead of overwriting that commit.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "for every interleaving of any number of threads and processes that obtain, release, test and lose the lock, with every lock factory and timeout",
     "The tests take a lock twice in one thread, and the stress test shares one native lock file between two threads; crashes of lock holders, several processes, refused writers during commits and stale readers under controlled schedules are not exercised.",
     ["src/core/store/NativeFSLockFactory.cpp", "src/core/store/SimpleFSLockFactory.cpp", "src/core/store/SingleInstanceLockFactory.cpp", "src/core/store/Lock.cpp", "src/core/util/LuceneSignal.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/IndexWriter.cpp"],
     [("lock files", "NativeFSLock::obtain / release, SimpleFSLock::obtain / release, SingleInstanceLock"), ("polling until the timeout", "Lock::obtain(lockWaitTimeout)"), ("stale readers are refused", "DirectoryReader::acquireWriteLock"), ("released only after the commit", "IndexWriter::closeInternal, DirectoryReader::doCommit")],
     "exploration",
     "2 to 4 threads in 1 to 3 simulated processes obtain, release, test and lose locks of the four factories, or open, use, commit, roll back and abandon writers and modifying readers of one index, with failing lock-file operations, slow calls and process crashes; every stay in the critical section is recorded and must be exclusive, refusals must be timely and justified, and the index must contain exactly what the successful holders committed.",
     "Seeded search over schedules, processes and faults; mutual exclusion, bounded waiting and the commit history are checked.",
     secs=34, technique="deterministic simulation of lock holders in several threads and processes, mutual-exclusion and commit-history invariants")

prop("C13", "Changes through a reader are atomic, isolated, exclusive and durable",
     "Deletions, undeletions and norm changes made through a modifying reader are visible at once and exactly in that reader, in no other reader before they are committed, and in every reader opened afterwards; committing makes all of them durable together, a failed commit makes none of them visible and loses none of them, and a crash leaves either all or none. "
     "A reader that is stale, read-only or locked out is refused and changes nothing.",
     ["histories", "fault_sequences", "crash_points", "schedules", "configurations"],
     "for every history of modifying and read-only readers, clones, reopened readers and writer sessions, with failing commits, crashes, and threads sharing a reader",
     "The tests delete or set norms in short fixed scripts; failing commits, crashes, undeletions between commits, clones that share norms and threads sharing one modifying reader are not combined.",
     ["src/core/index/SegmentReader.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/SegmentInfo.cpp", "src/core/index/IndexReader.cpp", "src/core/index/IndexFileDeleter.cpp", "src/core/util/BitVector.cpp"],
     [("new generation of deletions and norms per commit", "SegmentReader::commitChanges, SegmentInfo::advanceDelGen / advanceNormGen, Norm::reWrite"), ("copy on write", "SegmentReader::doDelete, doSetNorm, Norm::copyOnWrite"), ("roll back of a failed commit", "DirectoryReader::doCommit, startCommit, rollbackCommit"), ("write lock and version check", "DirectoryReader::acquireWriteLock")],
     "fault_enumeration",
     "Up to six readers are opened, cloned, reopened, modified, flushed and closed in seeded order, between sessions of writers, with disk faults during commits and crash images; after every operation every open reader is compared with an exact model of its own view (deletions by document number, norms byte by byte, counts, stored fields, postings), every refusal with the model of lock and versions. In a quarter of the runs 2 to 4 threads share one modifying reader.",
     "Seeded search over histories, faults and schedules; every open reader is compared with a model of its own view after each operation.",
     secs=34, technique="deterministic simulation, refinement of reader modifications against a per-reader model with faults and crash images")

prop("C14", "Reopened, cloned and shared readers stay correct and independent",
     "Reopening a reader gives exactly the latest commit, or the same reader when nothing has changed; cloning gives exactly the state of the original. "
     "Readers that share segments stay correct, and independent of each other's changes and of the order in which they are closed, used by any number of threads at once; when the last reference is given up all files are released, and not before.",
     ["histories", "schedules", "configurations"],
     "for every history and interleaving of reopening, cloning, reference counting, closing, modifying and committing",
     "The tests compare a refreshed reader with a fresh one after single fixed changes; reference counts across arbitrary chains of clones and reopened readers, and threads that reopen and close shared readers while the index changes, are not explored.",
     ["src/core/index/DirectoryReader.cpp", "src/core/index/SegmentReader.cpp", "src/core/index/IndexReader.cpp", "src/core/index/ReadOnlyDirectoryReader.cpp", "src/core/index/ReadOnlySegmentReader.cpp"],
     [("reference counts of readers, core and norms", "IndexReader::incRef / decRef, CoreReaders, Norm, SegmentReaderRef"), ("sharing unchanged segments", "DirectoryReader::doReopen, SegmentReader::reopenSegment"), ("currency", "DirectoryReader::isCurrent, SegmentInfos::readCurrentVersion")],
     "exploration",
     "In one half of the runs readers are reopened, cloned, modified, shared through extra references and closed in seeded order between writer sessions and compared with exact models after every step; in the other half 2 to 4 threads reopen, clone, read and close shared readers while another thread changes the index, every reader being compared in full with the commit it shows. No file may stay open at the end.",
     "Seeded search over histories and schedules; every reader is compared with the model, handles are counted.",
     secs=34, technique="deterministic simulation, refinement of reopened and cloned readers against point-in-time models, handle conservation")

prop("C18", "Concurrent searches give what they give alone",
     "A search gives the same hits, scores, order and sort values whether it runs alone or while any number of threads search, load documents, read and purge the field cache, open, clone and close readers and index documents; searchers, queries and caching filters may be shared. "
     "The hits are exactly the matching documents of the reader searched, also when a filter or cache was filled by a search of another reader of the same segments, and over several indexes one after another or in parallel. "
     "A search that fails on a disk error ends with that error and leaves nothing behind that spoils later searches; caches do not keep closed readers.",
     ["schedules", "inputs", "histories", "fault_sequences", "configurations"],
     "for every set of searches (queries, filters, sort orders, collectors), every interleaving with other searches and with indexing, and every sequence of failing reads",
     "The tests search mostly from one thread with fresh filters; sharing caches and searchers between threads, readers of different ages and a writer, at arbitrary interleavings and with failing reads, is not explored.",
     ["src/core/search/FieldCacheImpl.cpp", "src/core/search/CachingWrapperFilter.cpp", "src/core/search/CachingSpanFilter.cpp", "src/core/search/IndexSearcher.cpp", "src/core/search/MultiSearcher.cpp", "src/core/search/ParallelMultiSearcher.cpp", "src/core/search/FieldCacheRangeFilter.cpp", "src/core/search/FieldCacheTermsFilter.cpp", "src/core/util/ThreadPool.cpp", "src/core/index/SegmentReader.cpp"],
     [("field cache entries are created once per reader", "FieldCacheImpl, Cache::get"), ("filter caches keyed by segment core and deletions", "CachingWrapperFilter, FilterCache, SegmentReader::getDeletesCacheKey"), ("sub-searches merged in order", "MultiSearcher, ParallelMultiSearcher, HitQueue"), ("per-thread streams", "CloseableThreadLocal, SegmentReader::getFieldsReader")],
     "exploration",
     "One to three indexes are searched alone first, with top-n, sorted and collecting searches of random query trees with filters, checked against the documents; then 2 to 5 threads repeat these searches through shared IndexSearchers, MultiSearchers, ParallelMultiSearchers and a MultiReader, with shared or new query objects and shared caching filters, while others read and purge the field cache, search clones, new and near-real-time readers (checked against their own documents), and index; read errors in part of the runs. Every result must equal the one obtained alone.",
     "Seeded search over sets of searches, schedules and read faults; results are compared with the same search alone and with the documents.",
     secs=34, technique="deterministic simulation of concurrent searches, equality with the solo result and a document model")

prop("C19", "A search with a time limit stops in time, never early, and keeps what it found",
     "A time-limited search that is stopped has collected exactly a prefix of the documents the unlimited search collects; one that is not stopped has collected all. "
     "It is not stopped before the allowed time less one timer tick has passed, and no document is collected long after it, for any number of searches sharing the timer, whenever the timer is started, stopped or given another resolution; stopping the timer returns.",
     ["schedules", "histories", "configurations"],
     "for every number of concurrent searches, time limit, resolution, speed of the collector, moment of stopping the timer, and interleaving",
     "The tests measure real time with generous slack on one machine and cannot tell a timer that runs twice as fast from a slow search.",
     ["src/core/search/TimeLimitingCollector.cpp", "src/core/util/LuceneThread.cpp"],
     [("one timer thread for all searches", "TimeLimitingCollector::TIMER_THREAD, TimerThread"), ("limit checked per document", "TimeLimitingCollector::collect")],
     "exploration",
     "1 to 4 threads run time-limited searches with collectors that take simulated time per document, greedy or not, while others sleep, stop the timer or change the resolution; the simulated clock gives exact bounds for too early and too late, and the documents collected are compared with the unlimited search.",
     "Seeded search over schedules and simulated time.",
     secs=30, technique="deterministic simulation with a simulated clock, prefix and deadline invariants")

prop("C08", "Operations on shared documents are linearizable",
     "When any number of threads add, update and delete the same documents through one writer, every reader and every commit shows the state after some single order of all operations that respects real time: each operation has taken effect as a whole at one moment between its call and its return, and all readers, commits and recovered indexes agree on that order. "
     "Of concurrent updates of one document exactly one version remains, and documents stand in the order they were added.",
     ["histories", "schedules", "configurations", "crash_points"],
     "for every set of operations on overlapping documents by any number of threads, every interleaving with flushes, merges, commits and reader refreshes, and every configuration",
     "The tests update the same documents from several threads only under whatever schedule the machine gives, and check counts; whether all snapshots can be explained by one order is never decided.",
     ["src/core/index/DocumentsWriter.cpp", "src/core/index/BufferedDeletes.cpp", "src/core/index/IndexWriter.cpp", "src/core/index/DirectoryReader.cpp"],
     [("document number and buffered delete assigned together", "DocumentsWriter::getThreadState, addDeleteTerm"), ("deletes apply to earlier documents only", "DocumentsWriter::applyDeletes, BufferedDeletes, Num"), ("several terms or queries in one step", "DocumentsWriter::bufferDeleteTerms, bufferDeleteQueries"), ("flush, commit and refresh see a consistent state", "IndexWriter::doFlush, startCommit, getReader")],
     "exploration",
     "2 to 4 threads add, update and delete (by term, terms, query, queries, all) documents of 1 to 4 shared keys, refresh readers, commit, optimize and expunge; every near-real-time reader, opened commit, crash image and the final index is recorded with its real-time window, and a search decides whether one linearisation of all operations explains them all.",
     "Seeded search over histories and schedules; each recorded history is decided by a linearizability search over snapshot reads.",
     secs=34, technique="deterministic simulation, linearizability of the recorded history with snapshot reads")

prop("C09", "Commits and files are kept exactly as long as they are needed",
     "The deletion policy is given exactly the commits that exist, in order, whenever an index is opened or committed, and exactly the commits it deletes disappear; a snapshot is kept until it is released. "
     "Every commit that is kept stays complete and unchanged, can be listed, opened, searched, copied while indexing goes on, continued from, and survives crashes; files that no commit and no open writer needs are gone once the writer is closed.",
     ["histories", "schedules", "crash_points", "configurations"],
     "for every deletion policy and every history of commits, merges, rollbacks, snapshots, backups, writers opened at old commits, modifying readers and crashes",
     "The tests use a few fixed policies in short scripts; arbitrary choices of what to keep, combined with merges, rollbacks, crashes and writers that continue from old commits, are not explored.",
     ["src/core/index/IndexFileDeleter.cpp", "src/core/index/SnapshotDeletionPolicy.cpp", "src/core/index/KeepOnlyLastCommitDeletionPolicy.cpp", "src/core/index/IndexWriter.cpp", "src/core/index/DirectoryReader.cpp", "src/core/index/SegmentReader.cpp"],
     [("reference counts of files", "IndexFileDeleter::incRef / decRef, checkpoint, refresh"), ("commit points", "CommitPoint, IndexFileDeleter::deleteCommits"), ("snapshots", "SnapshotDeletionPolicy, MyCommitPoint"), ("new names for changed parts", "SegmentInfo::advanceDelGen / advanceNormGen, SegmentInfos::counter")],
     "fault_enumeration",
     "A policy that keeps the last, all, the last n or randomly chosen commits, alone or under a SnapshotDeletionPolicy, is run through histories of indexing, committing, preparing, rolling back, merging, closing, snapshots, hot backups by another thread, writers opened at any kept commit, modifying readers and readers held on old commits. Every call of the policy, the list of commits, the directory and the content of every kept commit are compared with a model, also in crash images and after closing.",
     "Seeded search over policies, histories and crash points against a model of the kept commits and files.",
     secs=34, technique="deterministic simulation, refinement of commit retention against a model with crash images")

prop("C11", "Closing or rolling back a writer that others use is safe and final",
     "When a writer is closed or rolled back while other threads use it, every operation that returned before close() was called is in the index afterwards, and after rollback() nothing that was not committed; operations that come too late are refused with AlreadyClosedException and have no effect, and a commit that returned normally is not undone. "
     "When close() or rollback() has returned, the writer is closed, its lock is free, no thread of it is left, nothing changes the directory any more and no file is left that no commit needs; every method of a closed writer refuses, and closing again is harmless.",
     ["schedules", "histories", "configurations"],
     "for every history of operations in other threads, every moment at which one or several threads close, roll back or wait, every merge scheduler and every schedule",
     "The tests close a busy writer in one or two scripted ways under the native scheduler; the races of close() and rollback() with commits, flushes, merges, transactions and each other take one preemption at one block.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/DocumentsWriter.cpp", "src/core/index/ConcurrentMergeScheduler.cpp", "src/core/index/IndexFileDeleter.cpp"],
     [("closing", "IndexWriter::close, closeInternal, shouldClose, ensureOpen"), ("rolling back", "IndexWriter::rollback, rollbackInternal, finishMerges"), ("waiting threads", "DocumentsWriter::waitReady, pauseAllThreads, close"), ("late merges and transactions", "IndexWriter::stopMerges, startTransaction, upgradeReadToWrite, registerMerge")],
     "exploration",
     "1-4 threads index, delete, commit, merge, add indexes and open readers while 1-3 further threads call close(), close(false), rollback() or waitForMerges() at arbitrary moments; the writer is opened again and the next round begins. Content is compared with the recorded history, the directory with the files of the last commit, the number of threads with zero; every method of the closed writer is called.",
     "Seeded search over histories, moments and schedules against the recorded history.",
     secs=35, technique="deterministic simulation, seeded schedules with racing closers checked against the recorded history")

prop("C12", "Adding indexes is all or nothing",
     "A call of addIndexes or addIndexesNoOptimize adds all live documents of its sources, in order and unchanged, or nothing at all, whatever fails on the way - reading a source, writing the index, a merge - and whatever runs concurrently. "
     "The sources stay as they were; commits, crashes and readers of commits never show a part; sources that cannot be used are refused without effect; a call that failed leaves no file behind and the writer usable.",
     ["histories", "schedules", "crash_points", "configurations"],
     "for every set of source directories and readers, every history of the writer, every I/O fault in a source or in the index, every crash point and every schedule of other threads",
     "The tests add a few healthy indexes, and one of them fills the disk; failing sources, several transactions at once, merges and commits of other threads during a transaction and crashes are not explored.",
     ["src/core/index/IndexWriter.cpp", "src/core/index/SegmentMerger.cpp", "src/core/index/IndexFileDeleter.cpp", "src/core/index/DocumentsWriter.cpp"],
     [("transactions", "IndexWriter::startTransaction, commitTransaction, rollbackTransaction"), ("adding directories", "IndexWriter::addIndexesNoOptimize, resolveExternalSegments"), ("adding readers", "IndexWriter::addIndexes, SegmentMerger"), ("commits during a transaction", "IndexWriter::blockAddIndexes, doFlushInternal, startCommit")],
     "exploration",
     "1-4 threads mix indexing, commits, merges and readers with calls that add 1-3 source indexes, each built at random with deletions, on a disk of its own or in memory, as directory, read-only or modified reader, near-real-time reader, MultiReader or FilterIndexReader; reads of sources, writes of the index or space on the disk fail during the calls; unusable sources are mixed in. Documents are compared with the model after each failed call, in readers, in crash images and at the end; the bytes of the sources, locks and leftover files are checked.",
     "Seeded search over histories, faults, crash points and schedules against per-thread sequential models.",
     secs=42, technique="deterministic simulation, seeded schedules with I/O faults in sources and target, checked against per-thread models and crash images")

prop("C17", "Damaged indexes are recognised, refused and repaired, never misread",
     "CheckIndex reports every index that the library wrote, by any history or left behind by any crash, as clean, with the right documents, deletions, files and terms of every segment, and changes nothing; when files are missing, truncated or cannot be read it does not throw, reports a damage of damaged segments only, and never fewer documents lost than there are. "
     "fixIndex removes exactly the reported segments, atomically under faults and crashes, keeps all other documents, refuses the report of a partial check, and leaves an index that is clean and that writers can go on with. "
     "A reader or writer over damaged files, or over files whose reads fail now and then, throws or shows the documents of a commit: it never returns other or empty values, not even after a read had failed.",
     ["histories", "crash_points", "fault_sequences", "configurations"],
     "for every index that a history of a writer can produce, every set of files removed or cut at any length, every sequence of failing reads, and every fault or crash during the repair",
     "The tests check one healthy index and one with all its documents deleted; no test reads a truncated file, lets a read fail in a reader that is then used again, or repairs anything.",
     ["src/core/index/CheckIndex.cpp", "src/core/index/SegmentInfos.cpp", "src/core/index/SegmentReader.cpp", "src/core/index/FieldsReader.cpp", "src/core/index/SegmentTermEnum.cpp", "src/core/store/BufferedIndexInput.cpp"],
     [("checking", "CheckIndex::checkIndex, testTermIndex, testStoredFields, testTermVectors, testFieldNorms"), ("repair", "CheckIndex::fixIndex, SegmentInfos::commit"), ("fall back to earlier commits", "FindSegmentsFile::run"), ("failed reads", "FieldsReader::addField, LazyField, SegmentTermEnum::next, TermInfosReader::get, BufferedIndexInput::refill")],
     "exploration",
     "1-3 threads build an index by random histories; it is checked as a whole and in part, then copies of the disk get 1-3 of their files removed or truncated (index files, segments_N, segments.gen) and are checked, read, repaired under I/O faults with crash images, and written on; crash images of the history are checked; readers are used while reads, opens and mappings fail at random and again afterwards. A missing .tvx is left out: the library takes it for a segment without term vectors, as Lucene does.",
     "Seeded search over histories, damages, faults and crash points against the known content of every commit and segment.",
     secs=42, technique="deterministic simulation, seeded histories with file damage, I/O faults and crash images checked against the known content of every commit")

# ---------------------------------------------------------------- not claimed
NA = [
    dict(id="N01", title="Analyzers tokenise text as documented",
         statement="Each analyzer, tokenizer and filter turns every input text into the documented tokens, offsets and positions, however the text is delivered.",
         over=["inputs"], text="for every input text", why="Tests sample sentences.",
         files=["src/core/analysis", "src/contrib/analyzers"], mechanism=[("token streams", "StandardTokenizerImpl, CharTokenizer")],
         reason="A pure function of the input text: no schedule, clock, I/O fault or interleaving enters it, so there is nothing for a simulator to decide."),
    dict(id="N02", title="The query parser builds the query the syntax describes",
         statement="Every query string parses to the query its syntax describes, and printing a parsed query and parsing it again gives an equal query.",
         over=["inputs"], text="for every query string", why="Tests sample strings.",
         files=["src/core/queryparser"], mechanism=[("grammar", "QueryParser")],
         reason="A pure function of the input string; no nondeterminism or fault for a simulator to control."),
    dict(id="N03", title="Scores follow the documented similarity formula",
         statement="The score of every hit equals the documented combination of term frequency, inverse document frequency, norms, boosts and coordination.",
         over=["inputs"], text="for every index and query", why="Tests sample queries.",
         files=["src/core/search"], mechanism=[("scorers", "TermScorer, BooleanScorer2, DefaultSimilarity")],
         reason="A pure function of index content and query; where concurrency or history could change it, that is covered by the snapshot, merge-transparency and concurrent-search properties."),
    dict(id="N04", title="Encodings round-trip and keep order",
         statement="Numeric prefix coding, date coding, UTF-8 conversion, Base64, variable-length integers, norms and compression decode to what was encoded and keep their documented order.",
         over=["inputs"], text="for every value", why="Tests sample values.",
         files=["src/core/util", "src/core/document"], mechanism=[("encoders", "NumericUtils, DateTools, UTF8Stream, CompressionTools, SmallDouble")],
         reason="Pure functions of their input; deciding them by simulation would be input generation under another name."),
    dict(id="N05", title="Highlighter, memory index and stemmers match their reference behaviour",
         statement="Highlighting marks exactly the matching fragments, the in-memory index answers like an ordinary index with one document, and stemmers give the reference stems.",
         over=["inputs"], text="for every text and query", why="Tests sample texts.",
         files=["src/contrib"], mechanism=[("contrib modules", "Highlighter, MemoryIndex, snowball")],
         reason="Single-threaded pure computations without clocks, I/O or shared state; no schedule or fault exists to explore."),
]
CHECKS = P
