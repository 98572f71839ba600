#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the table below is the source)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
              "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Exact lookup returns exactly what is stored under the key",
  "An exact lookup of a key of 1 to 255 bytes returns the byte string most recently stored under that very key, and reports not-found when that key is not stored, whatever other keys are stored and however the stored keys share prefixes. The answer depends on the bytes of the key only: not on bytes that follow the key in the caller's buffer, nor on what the caller's result object held before. The value's reported storage offset reads back the same value.",
  ["inputs", "histories"], "every key, every set of stored keys and values, every history of adds, overwrites and removals that leads there, writer or reader handle",
  "The unit tests look up the few thousand keys they stored, mostly of one shape (decimal or hash strings); the trie has many local shapes (label length 0..255, local or remote label, node widths 1..256, value in edge or node) that depend on the whole history.",
  ["src/detail/search_engine.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/db.cpp", "src/mb_data.cpp"],
  [("walk one edge at a time, comparing the whole label", "detail::SearchEngine::find*"), ("child selection by first byte", "DictMem::NextEdge, select_edge_indices"), ("value read through offset", "Dict::ReadDataFromEdge/ReadDataFromNode")],
  [("edge", "label, flags, child or value offset (13 bytes)", "dict_mem.h EdgePtrs"), ("node", "flag, width, value offset, first bytes, edges", "dict_mem.cpp")], ["DB::Find", "DB::InDB", "DB::ReadDataByOffset"])
p("C02", "A successful add changes the stored mapping at exactly one key",
  "After a successful add of a key (1 to 255 bytes) and value (1 to 32767 bytes), the key maps to exactly the given bytes and every other key's presence and value are what they were. Adding a key that is stored already, without asking for overwrite, is refused as already present and leaves its value alone; with overwrite it replaces the value.",
  ["inputs", "histories"], "every key, value, overwrite flag and every set of keys stored before",
  "An insertion rewrites one of several local trie shapes (new root edge, split of a label at any position, new child, value on an inner node); the tests sample a few key families and seldom re-check all other keys.",
  ["src/dict.cpp", "src/dict_mem.cpp", "src/db.cpp"],
  [("new root edge", "DictMem::AddRootEdge"), ("split a label", "DictMem::AddLink, InsertNode"), ("extend a node", "DictMem::UpdateNode"), ("replace a value", "Dict::UpdateDataBuffer")], (), ["DB::Add", "DB::Find", "iteration"])
p("C03", "A successful remove deletes exactly one key",
  "Removing a stored key succeeds, after which that key is not found, and every other key's presence and value are what they were. Removing a key that is not stored reports not-found and changes nothing. Removing everything leaves an empty, usable database.",
  ["inputs", "histories"], "every key and every set of keys stored before, including keys that are prefixes or extensions of the removed one",
  "A removal collapses edges and nodes differently depending on siblings and stored prefixes; the tests remove a few key families.",
  ["src/dict.cpp", "src/dict_mem.cpp"], [("drop an edge, shrink or collapse the node", "DictMem::RemoveEdgeByIndex, RemoveEdgeSizeN, RemoveEdgeSizeOne, RemoveRootEdge"), ("drop the value", "Dict::DeleteDataFromEdge, Dict::Remove")], (), ["DB::Remove", "DB::RemoveAll", "DB::Find"])
p("C04", "Longest-prefix lookup returns the longest stored prefix",
  "A longest-prefix lookup returns the value, and the length, of the longest stored key that is a prefix of (or equal to) the query, and reports not-found exactly when no stored key is one. Only the bytes of the query count.",
  ["inputs", "histories"], "every query and every set of stored keys", "Needs every combination of stored prefixes, label boundaries and query end; the tests use a handful of nested keys.",
  ["src/detail/search_engine.cpp", "src/dict.cpp", "src/db.cpp"], [("remember the last value passed on the way down", "detail::SearchEngine::findPrefix*")], (), ["DB::FindLongestPrefix"])
p("C05", "Lower-bound lookup returns the greatest stored key not above the query",
  "A lower-bound lookup returns the value, and on request the key, of the greatest stored key that is less than or equal to the query in unsigned byte order, and reports not-found exactly when every stored key is greater. Neither bytes beyond the query nor earlier contents of the output arguments matter.",
  ["inputs", "histories"], "every query and every set of stored keys", "The answer depends on all stored keys around the query and on where the query leaves the trie; the tests check a few hundred fixed keys.",
  ["src/detail/search_engine.cpp", "src/dict_mem.cpp", "src/dict.cpp", "src/db.cpp"], [("descend, then go to the greatest key below the last smaller branch", "detail::SearchEngine::lowerBound*"), ("greatest edge not above a byte", "DictMem::NextLowerBoundEdge, NextMaxEdge")], (), ["DB::FindLowerBound"])
p("C06", "Iteration yields every stored pair exactly once",
  "Iterating over a database that is not being changed yields every stored key with its value exactly once and nothing else. Iteration restricted to a prefix yields every stored key that starts with the prefix exactly once, with its value, and no key that differs from the prefix within their common length.",
  ["inputs", "histories"], "every set of stored keys, every prefix", "Depends on the whole shape of the trie; the tests iterate a few fixed databases.",
  ["src/iterator.cpp", "src/dict_mem.cpp", "src/mbt_base.cpp"], [("depth-first walk with a queue of matched keys", "DB::iterator, Dict::ReadNextEdge")], (), ["DB::iterator"])
p("C07", "The entry count equals the number of stored keys",
  "The reported number of entries always equals the number of distinct keys stored: it grows by one when a new key is added, shrinks by one when a stored key is removed, and does not change on overwrites, refused or failed operations, lookups, resource collection or reopening.",
  ["inputs", "histories"], "every history of operations", "The tests compare the count at a few points of a few histories.",
  ["src/dict.cpp", "src/mb_rc.cpp", "src/db.cpp"], [("count in the shared header", "Dict::Add, Dict::Remove, Dict::RemoveAll, IndexHeader::count")], (), ["DB::Count"])
p("C08", "Rejected operations have no effect",
  "An operation that is rejected - key or value of zero, negative or too great length, missing key, add without overwrite of a stored key, removal of a key that is not stored, a write through a read-only handle - returns an error and changes neither what is stored nor the count, and later operations behave as if it had not been made.",
  ["inputs", "histories"], "every argument outside the accepted range, at every state", "The tests try a couple of invalid arguments on small databases.",
  ["src/db.cpp", "src/dict.cpp", "src/mb_data.cpp"], [("argument checks before any write", "DB::Add, DB::Remove, Dict::Add")], (), ["return codes", "DB::Count", "DB::Find"])
p("C09", "Space in use is never handed out again; released space is accounted for",
  "Storage handed out for an index node, a key fragment or a value never overlaps storage that still belongs to another stored node, fragment or value. The free-space store gives back exactly the buffers released to it, each at most once and with the size released, and the amount it reports as reclaimable equals the total size of the buffers it holds, also across saving and reloading.",
  ["inputs", "histories"], "every sequence of reservations and releases of every admissible size", "An overlap shows only when a later write lands in the shared bytes; the tests check counters on short sequences.",
  ["src/free_list.cpp", "src/free_list.h", "src/util/mb_lsq.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/drm_base.cpp"], [("lists of buffers per size", "FreeList::AddBuffer, RemoveBuffer, ReuseBuffer, Store/LoadListFromDisk"), ("FIFO of offsets", "MBlsq"), ("reserve from list or end of file", "Dict::ReserveData, DictMem::ReserveNode, ReserveData")], (), ["FreeList API", "offsets of live buffers"])
p("C10", "Stored bytes read back the same under every storage configuration",
  "Bytes written at a storage offset read back unchanged until overwritten, and neighbouring offsets are untouched, whichever block they fall in and whether the block is memory mapped or not. Reserved space never straddles a block boundary. Hence the same history of operations gives the same lookup results whatever block size, memory cap, allocator or sync option is configured.",
  ["inputs", "configurations", "histories"], "every offset, length, block size, memory cap and option", "Tests run one or two configurations and rarely cross a block or memory-cap boundary.",
  ["src/rollable_file.cpp", "src/mmap_file.cpp", "src/file_io.cpp", "src/dict.cpp", "src/dict_mem.cpp"], [("offset to block and position", "RollableFile::RandomRead/RandomWrite/Reserve/GetShmPtr/CheckAlignment"), ("mapped or pread/pwrite access", "MmapFileIO::MemRead, RandomRead, MemWrite")], (), ["RollableFile API", "DB API"])
p("C11", "A killed writer loses at most the operation in progress",
  "If the writer process of a database without the allocator option dies at any point of an add, overwrite or removal (the operating system surviving), then after the database is opened again for writing every key not being modified keeps its value, and the key being modified has either its old or its new state. The recovered database accepts further operations correctly.",
  ["crash_points", "histories", "inputs"], "every instruction of every writer operation as the point of death (shared memory survives the process), every prior state", "The unit test replays three recorded interrupted states by hand.",
  ["src/dict.cpp", "src/dict_mem.cpp", "src/lock_free.cpp"], [("single publishing edge write, with its offset and bytes saved beforehand", "DictMem::*, Dict::ExceptionRecovery"), ("exception status in the header", "IndexHeader::excep_*")], (), ["DB opened after the crash"])
p("C12", "Resource collection preserves the stored mapping",
  "Collecting resources, for index and data, separately or together, at any time and with any thresholds, leaves every stored key with its value, stores nothing new, keeps the count, and leaves the database fully usable afterwards.",
  ["histories", "inputs", "configurations"], "every prior history, every threshold", "The tests collect on a few key families and check them after; buffer moves depend on the whole layout.",
  ["src/mb_rc.cpp", "src/drm_base.cpp", "src/dict.cpp"], [("reorder, then move buffers down", "ResourceCollection::ReclaimResource, ReorderBuffers, CollectBuffers, MoveIndexBuffer, MoveDataBuffer")], (), ["DB::CollectResource then lookups and iteration"])
p("C13", "A lookup that overlaps one writer operation sees its state before or after",
  "An exact or longest-prefix lookup by a reader, running while the writer performs one add, overwrite or removal (no prefix-cache option), returns what the database held just before that operation or just after it, for the key looked up: it never misses a key that was stored throughout, never returns another key's value, and never returns a key that was stored neither before nor after.",
  ["schedules", "inputs", "histories"], "every point of the reader's run at which a whole writer operation takes place, and every point of a writer operation at which a whole lookup takes place", "The stress tests run free and hit few of the interleavings; they cannot enumerate them.",
  ["src/lock_free.cpp", "src/detail/lf_guard.h", "src/detail/search_engine.cpp", "src/dict_mem.cpp"], [("seqlock-like counter and the offset being modified", "LockFree::WriterLockFreeStart/Stop, ReaderLockFreeStart/Stop"), ("publish by one edge write", "DictMem::*")], (), ["DB::Find of a reader handle"])
p("C14", "The prefix cache returns what was last put for that prefix",
  "A prefix-cache lookup for a key returns only an entry that was put for exactly the leading bytes of that key at the depth reported, with the value most recently put, and never one from a different prefix. After being cleared it returns nothing until the next put.",
  ["inputs", "histories"], "every sequence of puts, lookups and clears, every table capacity", "The tests put a few dozen prefixes; collisions and table wrap-around are not reached.",
  ["src/util/prefix_cache.cpp", "src/util/prefix_cache.h"], [("tagged slots per depth", "PrefixCache::Put, Get")], (), ["PrefixCache API"])
p("C15", "Queued updates are applied completely, once and in order",
  "Updates accepted by the shared-memory queue are applied by the writer each exactly once, in the order they were accepted, with exactly the key, value and flags given, however often the queue wraps around and however it is filled and drained. An update that does not fit or is invalid is refused and has no effect.",
  ["histories", "inputs"], "every sequence of enqueues and drains through one reader-side handle and the writer, every queue size", "The tests enqueue one key family and compare counts.",
  ["src/shm_queue_mgr.cpp", "src/shmq_update.cpp", "src/async_writer.cpp"], [("slot ring in shared memory", "DB::SHMQ_Add/Remove/..., SHMQ_AcquireSlot, AsyncWriter::ProcessTask")], (), ["async DB handle then DB::Find"])
p("C16", "Closing and reopening preserves the database",
  "After the database is closed and opened again, in the same process or a new one, every stored key has its value, nothing else is stored, the count is unchanged, and subsequent adds and removals work and reuse free space without damaging stored data.",
  ["histories", "configurations"], "every history before closing, every persistent configuration", "The tests reopen a few fixed databases.",
  ["src/dict.cpp", "src/db.cpp", "src/drm_base.cpp", "src/free_list.cpp", "src/resource_pool.cpp"], [("header in shared memory/file, free lists saved on close", "Dict::Destroy, Dict::LoadFreeList, FreeList::StoreListOnDisk/LoadListFromDisk")], (), ["DB open, lookups, iteration"])
p("C17", "Result buffers hold exactly what was put in them",
  "A result object always presents exactly the bytes last delivered to it: copying into it, growing it and copying or transferring its contents keep length and bytes intact, never write outside its storage, and never free memory the caller owns.",
  ["inputs", "histories"], "every sequence of operations on a result object, every length and initial capacity", "The tests use default-constructed objects and small lengths.",
  ["src/mb_data.cpp", "src/mb_data.h"], [("grow on demand", "MBData::Resize, TransferValueTo, TransferValueFrom, Clear")], (), ["MBData API"])
p("C18", "Encoding and decoding of stored integers and hex text are exact inverses",
  "Offsets and lengths written in the 2-, 4-, 5- and 6-byte stored forms read back as the same number for every number in range, touch only their own bytes, and hex text converts to and from bytes without loss, with invalid text refused.",
  ["inputs"], "every representable number, every byte string", "Round trips over the full range are out of reach of example tests.",
  ["src/integer_4b_5b.h", "binaries/hexbin.cpp"], [("byte-wise stores", "Write5BInteger, Get5BInteger, Write6BInteger, Get6BInteger"), ("hex conversion", "bin_2_hex, hex_2_bin")], (), ["return values and bytes written"])
p("C19", "Storage is not recycled under a reader that may still use it",
  "While the allocator-backed index or data area is being compacted at start-up, a block that has been vacated is given to new data only after every reader that was active when it was vacated has finished or moved on, and a block still holding live data is never recycled.",
  ["schedules", "histories"], "every set of registered readers and epochs, every sequence of vacated blocks", "The tests register one reader and check one release.",
  ["src/mb_rc.cpp", "src/db.cpp", "src/dict.cpp"], [("quarantine queue of vacated blocks", "ResourceCollection::QueueReusableBlock, IsReaderEpochQuiesced, ReleaseReusableBlocks")], (), ["blocks released"])
p("C20", "Eviction removes only the oldest entries",
  "Eviction by entry age removes only entries whose write bucket is among the oldest, never the most recently written ones, keeps every other entry with its value, and keeps the count equal to the number of stored keys.",
  ["histories", "inputs", "configurations"], "every history, every bucket size and threshold, including wrap-around of the bucket number", "The tests evict one ascending key family.",
  ["src/mb_rc.cpp", "src/dict.cpp"], [("16-bit bucket stamp in each record", "ResourceCollection::LRUEviction, Dict::ReserveData")], (), ["DB::CollectResource with thresholds"])
p("C21", "A backup is a faithful copy",
  "A backup taken while the database is not being written opens as a database that holds exactly the same keys with the same values and the same count, and taking it changes nothing in the original.",
  ["histories", "configurations"], "every prior history, every storage configuration", "The test backs up one database of one configuration.",
  ["src/mb_backup.cpp"], [("copy all blocks and the header", "DBBackup::Backup, copyFile")], (), ["DB opened on the backup directory"])
p("C22", "Concurrent use under weak memory and free-running schedules is linearizable",
  "Every lookup and update of any number of concurrent reader processes and one writer process appears to take effect atomically at some moment between its start and its end, on hardware with weak memory ordering, whatever the schedule.",
  ["schedules"], "every interleaving of every number of operations at memory-access granularity", "Stress tests sample schedules on one machine.",
  ["src/lock_free.cpp", "src/dict_mem.cpp"], [("lock-free readers", "LockFree")], (), ["DB API"])
p("C23", "At most one writer at a time across processes",
  "At any time at most one process has a database open for writing; a second writer is refused while the first lives.",
  ["schedules", "fault_sequences"], "every interleaving of open, close and process death", "One test opens twice.",
  ["src/resource_pool.cpp", "src/db.cpp"], [("advisory file lock", "acquire_writer_lock")], (), ["DB open"])
p("C24", "Lookups and updates always terminate",
  "Every lookup finishes although the writer keeps writing, and every accepted queued update is eventually applied.",
  ["schedules"], "every fair schedule", "Liveness cannot be observed by finite tests.",
  ["src/lock_free.cpp", "src/async_writer.cpp"], [("bounded retry", "MB_ENABLE_TRAVERSAL_LIMIT")], (), ["DB API"])
if __name__ == "__main__":
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(d, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
