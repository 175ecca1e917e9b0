#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the text is reviewable).
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))

# ---- codecs and integrity -------------------------------------------------
p("C01","Binary serializer: every put is read back, in bounds, at the same position",
  "Whatever sequence of fixed-width integers, raw bytes and length-prefixed buffers is written with the serializer, reading the same sequence back yields exactly the written values, and each operation advances the position by exactly the encoded size. Integers have one fixed big-endian wire format. A read that would need bytes beyond the end reports a read violation, consumes nothing and does not influence the outcome of later reads; bytes outside the written range never change; growable buffers grow as needed without losing content.",
  ["inputs","histories"],"all values, all buffer sizes and positions, all operation sequences, memory and file mode",
  "Tests write a handful of values into buffers that are large enough; boundary positions, failed reads and growth at the exact limit are not enumerated.",
  ["src/internal_helper.cc","src/internal_helper.h","src/endian_encode.h"],
  [("RwSerializer put*/get*","src/internal_helper.cc"),("endian encode/decode","src/endian_encode.h")])
p("C02","Log/manifest checksum is the standard CRC-32 of the whole input",
  "The checksum of a byte sequence equals the reflected CRC-32 (polynomial 0xEDB88320, initial and final inversion) for every length, alignment and start value, whichever of the fast or simple implementations computes it. Checksumming a sequence in pieces, feeding each result into the next call, equals checksumming it at once; the last-8 variant covers exactly the last min(len,8) bytes.",
  ["inputs"],"all byte sequences of any length, all previous values",
  "The test compares implementations with each other on a few buffers; a wrong table entry or tail case for particular bytes goes unnoticed.",
  ["src/crc32.cc"],[("crc32_1, crc32_8, crc32_8_last8","src/crc32.cc"),("lookup tables","src/crc32.cc")])
p("C03","Key hashing is the reference MurmurHash3 on exactly the given bytes",
  "Hash values equal the published MurmurHash3 (x86-32, x86-128 and x64-128) of exactly the given bytes and seed, for every length and content, so files and partitions written earlier stay addressable. Hashing reads no byte outside the key and changes nothing but its output.",
  ["inputs"],"all keys, lengths and seeds",
  "No test that runs checks hash values; changing one tail case silently re-routes keys of some lengths.",
  ["src/murmurhash3.cc","src/murmurhash3.h"],[("MurmurHash3_x86_32, _x86_128, _x64_128","src/murmurhash3.cc")])
p("C04","Bloom filter never denies a key that was added",
  "After a key has been added to a Bloom filter, every later membership query for it answers yes, whatever other keys are added before or after, through exporting and importing the filter, and whether keys or precomputed hash pairs are used. Adding a key only ever turns bits on, within the filter's own storage.",
  ["inputs","histories"],"all keys, filter sizes, hash counts, operation sequences",
  "Only random samples are tried, and that test does not run here.",
  ["src/bloomfilter.cc","src/bloomfilter.h"],[("set/check, set/check on hash pair, export/moveBitmapFrom","src/bloomfilter.cc")])
p("C05","Bitmap get/set/clear act on exactly the addressed bit",
  "Reading a bit returns the last value written to that index (or the initial value); setting or clearing one bit leaves every other bit unchanged; a bulk copy in or out preserves all bits. No operation on an index below the size touches memory outside the bitmap.",
  ["inputs","histories"],"all sizes, indexes and operation sequences",
  "Tests touch a few indexes; aliasing of neighbouring bits, word and partition borders are not covered.",
  ["src/generic_bitmap.h"],[("get/set/clear","src/generic_bitmap.h")])
p("C06","Default key order is total, lexicographic, shorter-prefix-first",
  "Comparing two byte strings gives the sign of their unsigned lexicographic comparison with a proper prefix ordered first; it is antisymmetric, transitive, and zero exactly for equal contents. All six relational operators agree with it, for every length including empty and very large strings.",
  ["inputs"],"all pairs (triples) of byte strings",
  "Tests compare a few short strings; sizes near type limits, embedded zero bytes and high bytes are not covered.",
  ["include/libjungle/sized_buf.h"],[("SizedBuf::cmp and operators","include/libjungle/sized_buf.h")])
p("C07","Buffers and records: copies are deep and equal, moves transfer, frees are exact",
  "Allocating, cloning or copying a buffer, key-value pair or record yields contents equal to the source in separately owned memory; referring or moving shares or transfers without copying, and a moved-from object is empty. Freeing releases exactly the owned memory once and leaves the object empty; resizing keeps the common prefix. Every field (key, value, metadata, sequence number, type) is carried.",
  ["inputs","histories"],"all sizes, contents, ownership states and operation sequences",
  "Tests use a few non-empty strings; empty buffers, referred versus owned memory, aligned memory and missing fields are not enumerated.",
  ["include/libjungle/sized_buf.h","include/libjungle/keyvalue.h","include/libjungle/record.h"],
  [("SizedBuf alloc/set/copyTo/moveTo/resize/free","include/libjungle/sized_buf.h"),("KV","include/libjungle/keyvalue.h"),("Record","include/libjungle/record.h")])
p("C08","Lookup booster only ever answers with the newest matching location it was given",
  "A lookup in the booster cache for a hash returns either a miss or the location of an entry previously stored for exactly that hash; a cache that was never given an entry answers every lookup with a miss. While a hash occupies its slot, storing for it takes effect only with a higher sequence number and is refused otherwise, so its location never goes back to an older version. Storing an entry never changes slots other than the one its hash maps to, and lookups change nothing.",
  ["inputs","histories"],"all hashes, sequence numbers, table sizes and operation sequences",
  "No test that runs touches it; colliding hashes and out-of-order sequence numbers are rare in sampled workloads.",
  ["src/table_lookup_booster.cc","src/table_lookup_booster.h"],[("setIfNew/get","src/table_lookup_booster.cc")])
# ---- in-memory indexes ------------------------------------------------------
p("C09","Skip list behaves as an ordered set when used by one thread",
  "Starting from any well-formed skip list, insertion adds exactly the given element at its ordered place (or is refused, changing nothing, if an equal one exists and duplicates are not allowed), erasure removes exactly the given element, and every other element stays. Exact, smaller-or-equal and greater-or-equal searches and next/previous steps return precisely the neighbours demanded by the comparison order, at any number of layers.",
  ["inputs","histories"],"all list contents, heights, keys and operation sequences (single-threaded)",
  "The skip-list tests do not run here and sample random heights; a wrong link at one layer shows only for particular height patterns.",
  ["src/skiplist.cc","src/skiplist.h"],[("insert/find/erase/next/prev","src/skiplist.cc")])
p("C10","AVL tree keeps search order and reports the right neighbours",
  "After any sequence of insertions and removals the tree's in-order traversal is the sorted sequence of exactly the elements inserted and not removed, and every subtree's heights differ by at most one with correctly recorded balance. Searches (exact, smaller, greater) and first/last/next/previous return the element that order demands, so merged iteration visits every key exactly once in order.",
  ["inputs","histories"],"all tree shapes and operation sequences",
  "No test that runs exercises removal or the double rotations' balance cases systematically.",
  ["src/avltree.cc","src/avltree.h"],[("insert/remove/balance/search/next/prev","src/avltree.cc")])
# ---- file layer ---------------------------------------------------------------
p("C11","POSIX file layer reports success only when exactly the requested bytes moved",
  "Every read, write or append through the buffered POSIX file layer succeeds only if all requested bytes were transferred at the requested offset (appending exactly at the file's logical end), and otherwise reports an error; short transfers and system-call failures never look like success. Open, close, truncate, sync, exist and remove address exactly the named file or descriptor and report failures.",
  ["inputs","fault_sequences"],"all arguments and all system-call outcomes allowed by POSIX",
  "Tests only see successful system calls; short transfers, interrupted and failed calls are never provoked.",
  ["src/fileops_posix.cc","src/fileops_posix.h"],[("FileOpsPosix methods","src/fileops_posix.cc")])
p("C12","Direct-I/O layer keeps appended bytes intact, in order, padded only at the end",
  "Within an open handle, appended bytes follow the content present at opening, in order and unaltered, whatever the chunking, the interleaved flushes and the alignment. After a successful flush or close the file holds exactly those bytes followed, where their end is unaligned, only by the padding marker and zero bytes up to the alignment. Reads return exactly the file's bytes at any offset and length ending within the true file size, and fail otherwise; truncation leaves exactly the requested length and appending continues there; a successful sync makes everything flushed durable. Failed or short system calls are reported as errors, and no memory outside the buffers is touched, also when one thread reads through instances with different settings.",
  ["inputs","histories","fault_sequences"],"all append/flush/read sequences, sizes, alignments and system-call outcomes",
  "Tests use a few sizes; padding edge cases (trailer crossing a block, exact multiples) and failed calls need specific sizes and faults.",
  ["src/fileops_directio.cc","src/fileops_directio.h"],[("append/flush/pread/eof/ftruncate, padding","src/fileops_directio.cc")])
p("C13","Backup and restore of manifest files copies the whole content or reports failure",
  "When backup or restore reports success, the destination is byte-for-byte the source at its full length (and synced when sync was asked); a missing or unreadable source, or any failed step other than closing, is reported as an error. The source is never modified and every handle opened is closed. A partial backup of an appended tail leaves the backup equal to the given content; a backup that does not exist or is shorter than the skipped part is written completely.",
  ["inputs","fault_sequences"],"all contents, lengths and file-operation outcomes",
  "Tests only restore after a simulated corruption of complete files; failures in the middle of copying are not provoked.",
  ["src/internal_helper.cc"],[("BackupRestore::copyFile/backup/restore","src/internal_helper.cc")])
# ---- log -----------------------------------------------------------------------
p("C14","Log records are recovered exactly as written",
  "Loading a log file written by flushing a memory table yields the same records with the same type, key, metadata, value and sequence number, for every size including empty and for compressed values; flush markers restore the flushed position. Nothing that was not flushed appears, and padding or end of file ends loading normally.",
  ["inputs","histories"],"all record contents, batches and file lengths",
  "Tests reopen databases with short printable keys; size-zero fields, embedded markers and block-border positions are not enumerated.",
  ["src/memtable.cc","src/log_file.cc"],[("MemTable::flush / load / loadRecord / loadFlushMarker","src/memtable.cc")])
p("C15","A damaged or truncated log record is never accepted as data",
  "If any byte of a record in a log file differs from what was written, or the file ends inside a record, loading reports corruption at that record instead of returning altered or partial data, and records before it are kept. Length fields taken from the file never cause access outside the file's bytes.",
  ["inputs","crash_points"],"all file contents and truncation points",
  "Corruption tests flip a few bytes at chosen places in well-formed files.",
  ["src/memtable.cc"],[("loadRecord checks","src/memtable.cc"),("crc32_8","src/crc32.cc")])
p("C16","Log manifest is reloaded exactly as stored",
  "Storing the log manifest and loading it again restores the maximum log number, the flushed and synced positions and the per-file first, flushed, synced, and purged sequence numbers of every live log file. Any single damaged byte, or truncation, of the manifest is detected on load and reported, never silently used.",
  ["inputs","crash_points"],"all manifest states and file contents",
  "Tests reopen a few typical databases.",
  ["src/log_manifest.cc"],[("LogManifest::store/load","src/log_manifest.cc")])
p("C17","Reads return the newest visible version; deletions hide older data",
  "A point read returns the most recently written version of the key visible to the reader: unflushed log data takes precedence over flushed tables, and the newest log over older ones. If that version is a deletion the key is reported as not found, without falling through to older data, unless metadata-only access explicitly asks for tombstones. Errors are reported, never turned into stale data, and the returned buffers belong to the caller.",
  ["inputs","histories"],"all keys and all contents of log and table sections",
  "Tests cover common insert/update/delete orders; combinations of partially flushed versions, snapshots, barriers and errors are not enumerated.",
  ["src/jungle.cc","src/log_mgr.cc","src/memtable.cc"],[("DB::get, getRecordByKey, getSN","src/jungle.cc"),("LogMgr::get","src/log_mgr.cc")])
p("C18","A snapshot sees exactly the versions no newer than itself",
  "For a key with any set of versions, a reader at sequence number S sees the version with the greatest sequence number not exceeding S, and nothing if there is none; versions appended later do not change what it sees, and a version discarded by a rollback is seen by nobody. Readers without a snapshot see the greatest of all. Point, nearest-key and prefix reads of the memory table agree with this; a prefix read hands out every visible live key with the prefix, once, in order, until the callback stops it.",
  ["inputs","histories"],"all version lists and snapshot sequence numbers",
  "Tests take snapshots at a few positions.",
  ["src/memtable.cc","src/memtable.h"],[("RecNode::getLatestRecord / validKeyExist / discardRecords","src/memtable.cc"),("MemTable::getRecordByKey / getRecordByKeyInternal / getRecordsByPrefix / findRecordBySeq / addToByKeyIndex","src/memtable.cc")])
p("C19","Sequence numbers are assigned uniquely and never go backwards",
  "Unless overwriting is enabled, each record accepted by a log file carries a number larger than every number accepted before: one without an explicit number gets the next one (the start number, at least 1, if it is the first), and an explicit number not above the last is rejected with nothing stored. With overwriting enabled an explicit number replaces the record stored under it; below the minimum it is always rejected. The minimum, maximum, synced and flushed numbers reported bound every stored record: minimum <= number <= maximum, synced <= maximum, flushed <= synced.",
  ["inputs","histories"],"all sequences of writes with and without explicit numbers (single-threaded)",
  "Tests use consecutive numbers.",
  ["src/memtable.cc","src/log_file.cc"],[("MemTable::assignSeqNum / updateMaxSeqNum","src/memtable.cc")])
p("C20","Database manifest preserves the name-to-ID mapping and detects damage",
  "Storing and reloading the database manifest restores every key-value store's name and ID and the ID counter, for any names; IDs are never reused. A damaged or truncated manifest is reported instead of used, and no content of the file makes loading touch memory outside its buffers.",
  ["inputs","crash_points"],"all sets of names, all file contents",
  "Tests use short names.",
  ["src/db_manifest.cc"],[("DBManifest::store/load/addNewKVS","src/db_manifest.cc")])
p("C21","Table manifest is reloaded exactly as stored",
  "Storing and reloading the table manifest restores every level's tables with number, hash partition, minimum key and stack order, and the next table number is above every existing one. Damage is detected on load.",
  ["inputs","crash_points"],"all table sets and file contents",
  "Tests reopen typical layouts.",
  ["src/table_manifest.cc"],[("TableManifest::store/load","src/table_manifest.cc")])
p("C22","Key routing always reaches the table that holds the key",
  "The hash partition computed for a key at write time is the one searched at read time, and a level search by key picks the table whose range contains the key; range, nearest and prefix searches pick every table that may hold a match.",
  ["inputs","configurations"],"all keys, partition counts and table ranges",
  "Tests use a fixed number of partitions and small key spaces.",
  ["src/table_manifest.cc","src/table_mgr.cc"],[("getTablesPoint/Range/Nearest/Prefix","src/table_manifest.cc"),("TableMgr::getKeyHash","src/table_mgr.cc")])
p("C23","Iterators return each live key once, in order, with its newest visible value",
  "An iterator over a range visits exactly the keys with a live visible version in the requested range, each once, in key order in both directions, with the newest visible version; deleted keys are skipped, and seeking lands on the demanded neighbour.",
  ["inputs","histories"],"all database contents, ranges, directions and seek positions",
  "Tests iterate small sets.",
  ["src/iterator.cc","src/log_iterator.cc","src/table_iterator.cc","src/memtable_iterator.cc"],[("merge of log and table windows","src/iterator.cc")])
p("C24","File helpers move whole buffers and report every shortfall",
  "Appending from or reading into a buffer through the offset-tracking helpers and the serializer's file mode transfers exactly the requested bytes at the current offset and advances the offset by that amount on success only.",
  ["inputs","fault_sequences"],"all sizes, offsets and file-operation outcomes",
  "Only the success path is tested.",
  ["src/internal_helper.h","src/internal_helper.cc"],[("append_file/read_file/append_mem/read_mem","src/internal_helper.h")])
# ---- system-level guarantees (context; see MANIFEST not_applicable) -------------------
p("C25","Synced writes survive a crash at any point",
  "Every write acknowledged by a successful sync is readable with its value after a crash at any later instant and reopening; recovery yields a prefix-consistent state and never resurrects deleted data or loses manifests.",
  ["crash_points","histories"],"all crash points in all operation histories",
  "Tests do not crash at arbitrary points.",
  ["src/log_mgr.cc","src/log_manifest.cc","src/table_manifest.cc"],[("sync/flush ordering","src/log_mgr.cc"),("manifest backup","src/internal_helper.cc")])
p("C26","Concurrent readers, writers, flusher and compactor are linearizable per key",
  "Under any interleaving of concurrent reads, writes, flushes and compactions, each read returns a value consistent with some sequential order of the writes, with no torn, lost or use-after-free data.",
  ["schedules"],"all thread interleavings",
  "Stress tests sample few schedules.",
  ["src/skiplist.cc","src/log_mgr.cc","src/table_mgr.cc"],[("lock-free skip list","src/skiplist.cc"),("reference counting","src/log_manifest.h")])
p("C27","Compaction, split and merge preserve the visible contents",
  "Flushing, compaction, split, merge and log reclaiming never change the result of any read: for every key the newest version (or its deletion) stays visible, and tombstones are only dropped when nothing older remains below.",
  ["histories","configurations"],"all database states and compaction plans",
  "Tests compact small databases.",
  ["src/table_compaction.cc","src/table_file_compaction.cc","src/table_split.cc"],[("merge by key and sequence number","src/table_writer.cc")])
p("C28","Atomic batches become visible all at once or not at all",
  "A group of writes submitted as one batch, within a database or across databases, becomes visible to readers entirely or not at all, including after failure of any part.",
  ["schedules","crash_points"],"all schedules and failure points",
  "Tests check the final state only.",
  ["src/log_mgr.cc","src/global_batch.cc"],[("visible sequence barrier","src/log_mgr.cc")])
p("C29","Background workers make progress and shut down cleanly",
  "Pending flush, compaction and reclaim work is eventually executed, callers waiting on it are woken, and closing or shutting down terminates without deadlock.",
  ["schedules"],"all schedules",
  "Liveness cannot be tested by sampling.",
  ["src/worker_mgr.cc","src/flusher.cc","src/compactor.cc"],[("worker loop","src/worker_mgr.cc")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
