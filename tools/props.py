"""Single source of properties.jsonl and MANIFEST.json (run tools/mkdocs.py)."""
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, cmd, variants, technique, note, level="exploration", state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, cmd=cmd, variants=variants, technique=technique, note=note, level=level,
                  state=state or [], hook=hook))

EXP = "Held on the executions produced (counts in the evidence file), not proved; trusts the Go runtime, its race detector and the reference model in the harness."

# ---------------------------------------------------------------- hashmap
p("M01", "Map and MapL are linearizable per key",
  "Under any concurrent mix of Put, Get, Has and Del, every key of Map and MapL behaves as an atomic register: there is one order of the operations, consistent with real time, in which Get/Has return what the latest Put/Del left, Put returns exactly the value it replaced and whether there was one, and Del reports whether it removed an entry. No operation panics or races.",
  ["schedules", "histories"], "every interleaving of any number of goroutines issuing Put/Get/Has/Del over any keys and values",
  "There is no test of Map or MapL that checks a result; the benchmarks use them from one goroutine.",
  ["hashmap/map.go"], [("sync.Map with Swap/LoadAndDelete", "hashmap/map.go MapL.Put, Map.Put, Del")],
  ["return values at the client boundary"], "containers", ["plain", "perturb", "race"],
  "linearizability checking (porcupine) of recorded per-key histories + race detector", EXP)
p("M02", "MapL length always equals the number of entries",
  "Whenever no operation is in flight, the length MapL reports equals the number of distinct keys stored and equals the number of entries Range visits, each key once with its current value; while operations run, the reported length never leaves the range the completed and in-flight insertions and deletions allow. Range, also of Map, stops as soon as the callback returns false; while others put and delete it visits every key that stays exactly once and no key twice, with a value it had during the walk.",
  ["schedules", "histories"], "every concurrent history of Put/Del/Get/Len/Range followed by quiescence",
  "No test exercises Len or Range of MapL; a counter that drifts needs racing Put/Del of the same key to show.",
  ["hashmap/map.go"], [("atomic counter adjusted only when Swap/LoadAndDelete report a membership change", "hashmap/map.go MapL.Put/Del/Len")],
  ["MapL.Len, MapL.Range"], "containers", ["plain", "perturb", "race"],
  "conservation monitor at quiescent points + online length bounds + race detector", EXP)
p("M03", "TreeMap is a linearizable ordered map",
  "Under any concurrent use TreeMap behaves as one atomic ordered map: Put returns the replaced value, Get sees the latest Put, Del removes. Ascend and Descend visit exactly the entries present at one instant during the call, each once, in strictly increasing respectively decreasing key order, and stop, leaving the map usable, when the callback returns false or panics; with no writer about, a callback may itself read the map.",
  ["schedules", "histories", "inputs"], "every interleaving of Put/Get/Del/Ascend/Descend, every key type with a total order, every tree degree >= 2",
  "Test_treeMap and Test_treeMap2 insert a handful of keys and print; nothing is compared.",
  ["hashmap/treemap.go"], [("RWMutex around a google/btree", "hashmap/treemap.go")],
  ["return values; sequence of callback arguments"], "containers", ["plain", "perturb", "race"],
  "reference-model monitor, linearizability checking of whole-map histories with snapshots, race detector", EXP)
p("M04", "LimitMap never exceeds its capacity and evicts the least recently put key",
  "A LimitMap of capacity n >= 1 never holds more than n entries; inserting a new key into a full map removes exactly one other entry, the one whose last Put is oldest, and no other operation removes an entry except deletion of that key. Put returns the value it replaced, Get returns the latest value put, and this holds under concurrent use.",
  ["inputs", "schedules", "histories"], "every sequence and interleaving of Put/Get/Del/RemoveMulti/Len for every capacity >= 1",
  "TestLimitMap fills below the capacity and prints the length; it never reaches an eviction.",
  ["hashmap/limitmap.go"], [("mutex-guarded map plus recency list", "hashmap/limitmap.go Put")],
  ["return values, Len, presence of keys"], "containers", ["plain", "perturb", "race"],
  "reference-model monitor over generated histories, linearizability checking, race detector", EXP)
p("M05", "LimitHashMap stays within capacity and never confuses keys",
  "For every capacity >= 1 and segment count >= 1 a LimitHashMap never holds more than its capacity in entries, and inserting a new key removes at most one other entry while updating an existing key removes none. Get, Contains and Put's previous value always refer to exactly the given key, whatever other keys are stored (including keys with equal hashes); with a single segment the evicted entry is the one inserted earliest. This holds under concurrent use.",
  ["inputs", "schedules", "histories", "configurations"], "every supported key type and key values, every capacity and segment count, every sequence and interleaving of operations",
  "TestLimitHashMap uses distinct small integer keys below capacity and prints the length.",
  ["hashmap/limithashmap.go"], [("per-segment mutex, map and insertion list", "hashmap/limithashmap.go"), ("hash function per key type", "hashmap/limithashmap.go NewLimitHashMapWithSegment")],
  ["return values, Len, Contains"], "containers", ["plain", "perturb", "race"],
  "reference-model and single-eviction monitors over generated histories incl. colliding keys, race detector", EXP)
p("M06", "LinkedHashMap keeps recency order, limit and iteration exact",
  "A LinkedHashMap with limit n holds at most n entries ordered by recency: Put, LoadOrStore (also of a key that is present) and MoveToFront make a key the newest, a new key over the limit evicts exactly the oldest entry, and Front, Back, Len, Get, Delete and Clear agree with that order. Iterators visit every entry exactly once, from newest or from oldest. LoadOrStore returns the existing value and reports true without changing it when the key is present, and otherwise stores and returns the given value and reports false.",
  ["inputs", "histories"], "every operation sequence, every limit >= 1, both iteration directions",
  "TestLinkedHashMap prints seven entries; it reaches no eviction, no LoadOrStore and compares nothing.",
  ["hashmap/linkedhashmap.go"], [("sync.Map index plus recency list and count", "hashmap/linkedhashmap.go")],
  ["return values, iteration order"], "containers", ["plain"],
  "executable reference model run in lock-step with generated operation sequences", EXP)
p("M07", "LinkedHashMap is consistent under concurrent use",
  "Under concurrent Put, LoadOrStore, Get, Delete, MoveToFront, Clear and iteration no operation panics, hangs or races; a Get returns only a value some Put of that key stored and not one that an already finished later Put or Delete of the same key superseded. At quiescence Len, both iterators and Get agree on exactly the same entries, and the count is within the limit.",
  ["schedules", "histories"], "every interleaving of the operations by any number of goroutines",
  "The only test is single-threaded.",
  ["hashmap/linkedhashmap.go"], [("mutex for mutation, lock-free reads through the index", "hashmap/linkedhashmap.go Get")],
  ["return values, iteration at quiescence"], "containers", ["plain", "perturb", "race"],
  "per-key linearizability of eviction-free histories, structural quiescence monitor, race detector", EXP)
p("M08", "Consistent hashing routes by membership only, with minimal disruption",
  "For any set of nodes, every key is routed to a current member, the same one whatever the order in which nodes were added and removed; with no node every lookup reports failure instead of crashing. Adding a node only moves keys to that node, and removing one only moves keys that were on it. The next-nodes lookup returns min(step, members-1) distinct members (none for step 0) in ring order, none of them the key's own node.",
  ["inputs", "histories"], "every node set, replica count >= 1, membership history and key (string or integer)",
  "The consistent hash has no test.",
  ["hashmap/consistenthash.go"], [("sorted ring of virtual points", "hashmap/consistenthash.go Add/Del/Get/GetStr/GetNextNodeStr")],
  ["returned nodes, Nodes()"], "containers", ["plain"],
  "metamorphic and reference-ring oracle over generated membership histories", EXP)
p("M09", "Consistent hash lookups are safe during membership changes",
  "While nodes are added and removed one at a time concurrently with lookups, every lookup gives exactly the answer of an unchanged ring with the membership that was in force at some instant of the call, so a returned node was a member and the owner of the key then. A lookup never fails while some node stays a member throughout, and no operation panics or races.",
  ["schedules", "histories"], "every interleaving of Add, Del, Get, GetStr, GetNextNodeStr and Nodes",
  "The consistent hash has no test.",
  ["hashmap/consistenthash.go"], [("RWMutex", "hashmap/consistenthash.go")],
  ["returned nodes"], "containers", ["plain", "perturb", "race"],
  "online membership-interval monitor under concurrent churn + race detector", EXP)

# ---------------------------------------------------------------- cache
p("C01", "LruCache is an exact, linearizable LRU cache",
  "An LruCache limited to n entries never answers for more than n keys: Add of a new key over the limit evicts exactly the least recently used (added or successfully read) key, Get returns the latest value added for the key, and Remove and RemoveMulti remove exactly the named keys. Under concurrent use it behaves as if the operations happened one at a time.",
  ["inputs", "schedules", "histories"], "every sequence and interleaving of Add/Get/Remove/RemoveMulti, every limit",
  "lrucache_test.go has only benchmarks that ignore results.",
  ["cache/lrucache.go"], [("mutex around groupcache lru", "cache/lrucache.go")],
  ["return values"], "cachecmd", ["plain", "perturb", "race"],
  "lock-step reference model, linearizability checking of concurrent histories, race detector", EXP)
p("C02", "The Bloom filter never forgets a recent item",
  "Once Add of an item has returned, Contains reports true for it until at least the configured expected number of further items have been added (items added while that Add was running count as further), for every configuration and every number of concurrent adders and readers. No operation panics or races.",
  ["inputs", "schedules", "histories", "configurations"], "every expected-item count >= 1, every rate in (0,1), every item, every interleaving of Add and Contains, across segment rotations",
  "Test_bf adds 31 items to one filter from one goroutine and only prints a miss; it never reaches a rotation.",
  ["cache/bloom.go"], [("three rotating bit segments, the previous one still consulted", "cache/bloom.go getBitIndex/setBit/testBit")],
  ["Contains after Add"], "cachecmd", ["plain", "perturb", "race"],
  "windowed no-false-negative monitor over sequential and concurrent add/query streams, race detector", EXP)
p("C03", "The Bloom filter's false-positive rate tracks its configuration",
  "The fraction of never-added items a filter reports present stays close to the configured false-positive rate (for rates from 0.2 down to 0.0001) while at most the expected number of items were added, and never exceeds a few times that rate however many were added. An empty filter reports nothing present.",
  ["inputs", "configurations"], "every item set, also beyond the configured size, and every configured rate",
  "No test queries an item that was not added.",
  ["cache/bloom.go"], [("bit and hash count from the standard formulas", "cache/bloom.go NewBloomFilter")],
  ["Contains on absent items"], "cachecmd", ["plain"],
  "statistical monitor with wide fixed margins over counted probes", EXP + " The margin (2.5x the rate plus noise) is far outside what random seeds can reach by chance.")

# ---------------------------------------------------------------- lock
p("L01", "Numlock gives mutual exclusion per key",
  "Between a Lock or successful TryLock of a key and its Unlock, no other goroutine holds a lock on that key, for every 64-bit key including negative ones and every lock count; TryLock never blocks and succeeds on a key nobody contends for. The mutex returned is the one that guards the key, and every waiter gets the lock once holders release it.",
  ["schedules", "inputs"], "every interleaving of Lock/TryLock/Unlock over every int64 key and every number of stripes >= 1",
  "Numlock has no test.",
  ["lock/lock.go"], [("fixed stripe of mutexes chosen by key", "lock/lock.go Numlock")],
  ["shadow owner per key"], "lockcmd", ["plain", "perturb", "race"],
  "shadow-owner mutual-exclusion monitor + race detector on data guarded by the lock", EXP)
p("L02", "Strlock gives reader/writer exclusion per key",
  "While a write lock on a key is held no other goroutine holds a read or write lock on that key, and while read locks are held no write lock is; several readers may hold the same key together. Try variants never block, the same string always maps to the same lock, and every waiter eventually gets it.",
  ["schedules", "inputs"], "every interleaving of the lock, try-lock and unlock operations over every string and stripe count >= 1",
  "Strlock has no test.",
  ["lock/lock.go", "util/encode.go"], [("striped RWMutexes chosen by string hash", "lock/lock.go Strlock")],
  ["shadow readers/writer per key"], "lockcmd", ["plain", "perturb", "race"],
  "shadow reader/writer monitor + race detector on data guarded by the lock", EXP)
p("L03", "LimitLock bounds concurrency and keeps its counters exact",
  "At most the configured number of holders are between a successful Lock and its Unlock at any time; a Lock that cannot be served within the timeout returns an error and takes no slot, and a freed slot lets a waiter in. When nothing is in flight the concurrency count equals the number of holders and the lock count equals the number of successful Locks.",
  ["schedules", "histories"], "every interleaving of Lock/Unlock/Cc/LockCount for every limit >= 1 and timeout",
  "LimitLock has no test.",
  ["lock/lock.go"], [("buffered channel semaphore with atomic counters", "lock/lock.go LimitLock")],
  ["shadow holder count, Cc, LockCount"], "lockcmd", ["plain", "perturb", "race"],
  "shadow holder-count monitor, counter conservation at quiescence, race detector", EXP)
p("L04", "Await delivers each value exactly once to the waiter of its id",
  "When a value is put for an id that one goroutine waits on, that waiter returns exactly that value without error, and no waiter of another id receives it; it does not matter whether the put starts shortly before or after the wait. Close releases the waiter with the zero value and no error, and neither call blocks, panics or affects other ids; when several users hold one id, Get gives them the same channel and the value arrives at exactly one of them.",
  ["schedules", "histories"], "every interleaving of Wait/WaitWithCancel/SyncWait with CloseAndPut/Close over distinct ids, every stripe count >= 1",
  "TestAwait runs one waiter at a time with a 1 s race between timeout and put and logs whatever happens.",
  ["lock/await.go"], [("channel per id created under a striped lock", "lock/await.go Get/CloseAndPut/Wait")],
  ["value and error returned by each waiter; error returned by each put"], "lockcmd", ["plain", "perturb", "race"],
  "exactly-once delivery checker over unique ids and values + race detector", EXP)
p("L05", "Await honours timeout and cancellation and leaves nothing behind",
  "A wait whose value never comes returns a timeout error, not before its timeout, and a cancellable wait returns promptly with the cancel flag once its context is done, whether or not a timeout was set. After a wait returned its id is no longer registered, and a new wait on the same id that starts after the earlier one returned, or after the earlier one's value was put, receives its own value.",
  ["schedules", "histories", "fault_sequences"], "every order of timeout, cancellation, put, close and reuse of an id",
  "TestAwait never cancels, never reuses an id and never looks at what remains registered.",
  ["lock/await.go"], [("timer/ctx select and deferred removal", "lock/await.go Wait, WaitWithCancel, SyncWait")],
  ["returned error, cancel flag, Has"], "lockcmd", ["plain", "perturb", "race"],
  "lifecycle monitor over generated timeout/cancel/put/reuse orders, race detector", EXP)
p("L06", "FastAwait delivers once, times out, cancels and cleans up",
  "A value put for an id that was not used before is returned exactly once, by the waiter of that id and no other, also when the put starts shortly before the wait (then a fresh id may be mistaken for an ended one at most in a few cases per thousand); Close releases the waiter with the zero value. A wait whose value never comes returns a timeout error, a cancellable wait returns promptly when its context is done whether or not a timeout was set, and a put or close for an id whose wait already ended returns promptly.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of waits, puts, closes, timeouts and cancellations over distinct ids",
  "TestFastAwait runs one waiter at a time and logs whatever happens.",
  ["lock/fastawait.go", "cache/bloom.go"], [("channel per id plus Bloom filter of finished ids", "lock/fastawait.go")],
  ["value and error per waiter, duration class of late puts"], "lockcmd", ["plain", "perturb", "race"],
  "exactly-once delivery and lifecycle checker + race detector", EXP)

# ---------------------------------------------------------------- pools
p("G01", "The goroutine pool runs every submitted function exactly once",
  "Every function given to Go is executed exactly once, without needing a later call to Go, whatever the limits, however many goroutines submit, whether functions return, panic or end their goroutine, and whether the pool is switched off, on or closed before, during or after the submission. Close starts the functions that still wait, whatever the running ones do, and when all functions have finished the number reported as not executed is zero.",
  ["schedules", "histories", "configurations"], "every interleaving of Go/TurnOff/Close with running functions, every pair of limits",
  "pool_test.go has only benchmarks that never check that a function ran.",
  ["pool/gopool/gopool.go"], [("single dispatcher elected by TryLock over a task queue; counters of pending tasks", "pool/gopool/gopool.go Go/funcn/_funcn"), ("Close starts remaining functions on fresh goroutines", "pool/gopool/gopool.go Close")],
  ["execution counter per function, NumUnExecu"], "poolcmd", ["plain", "perturb", "race"],
  "exactly-once conservation checker over uniquely numbered tasks under stress, close and panic faults + race detector", EXP)
p("G02", "The goroutine pool never runs more functions than its limit",
  "While the pool is on, the number of submitted functions running at the same instant never exceeds the larger of its two limits, and functions that do not depend on each other all run even when the limit is reached. A function that blocks does not prevent others from running while fewer than the limit are running.",
  ["schedules", "configurations"], "every limits pair and every mix of short, long and blocking functions",
  "The benchmarks do not observe concurrency.",
  ["pool/gopool/gopool.go"], [("count of dispatched functions compared with the limits; idle workers queue", "pool/gopool/gopool.go _funcn/put")],
  ["gauge of concurrently running functions"], "poolcmd", ["plain", "perturb", "race"],
  "online concurrency gauge monitor with barrier-controlled tasks", EXP)
p("G03", "Pooled buffers and objects have one owner and arrive clean",
  "An object taken from an object pool, the buffer pool or the package-level byte-buffer pool is held by nobody else until it is put back, arrives reset (buffers empty), and putting back through a pointer clears that pointer and reports true exactly when there was something to put back. Content written by one holder is never visible to or altered by another.",
  ["schedules", "inputs"], "every interleaving of Get/Put by any number of goroutines, every size class request",
  "The pools have no test.",
  ["pool/buffer/pool.go", "pool/buffer/buffer.go", "buffer/buffer.go"], [("sync.Pool per size class; reset on Get", "pool/buffer/pool.go, pool/buffer/buffer.go")],
  ["ownership registry keyed by address, stamped contents"], "poolcmd", ["plain", "race"],
  "ownership-registry and content-stamp monitor under concurrent get/put + race detector", EXP)

# ---------------------------------------------------------------- fastio / mmap
p("F01", "fastio places every write once, whole, at the offset it reports",
  "After any concurrent mix of Write and WriteSync calls has returned, the file contains its earlier content followed by every successfully written block exactly once, unsplit and unmodified, and nothing else; the block of a WriteSync lies exactly at the offset it returned, and Write reports the full length. Blocks written by one goroutine appear in the order it wrote them.",
  ["schedules", "inputs", "histories"], "every interleaving of Write and WriteSync by any number of goroutines, every block size including empty and larger than internal buffers, empty and non-empty initial files",
  "fastio has no test.",
  ["fastio/fw.go", "fastio/file.go"], [("group commit: one caller drains the queue of the others", "fastio/fw.go WriteSync/Write/ioWrite")],
  ["returned offsets and counts; bytes of the file"], "fastiocmd", ["plain", "perturb", "race"],
  "offline tiling checker of file bytes against uniquely stamped blocks and returned offsets + race detector", EXP)
p("F02", "An acknowledged fastio write is in the file",
  "Once Write or WriteSync has returned success its bytes can be read back at once through ReadAt or another descriptor, survive an immediately following Close or kill of the process, and do not change when the caller reuses the slice it passed.",
  ["schedules", "crash_points", "histories"], "every point at which a caller observes its acknowledgement, with any concurrent writers",
  "fastio has no test.",
  ["fastio/fw.go", "fastio/file.go"], [("data handed to the OS before the call returns", "fastio/fw.go")],
  ["file content read immediately after acknowledgement"], "fastiocmd", ["plain", "perturb", "race"],
  "read-after-acknowledge monitor with slice reuse, close and SIGKILL faults", EXP)
p("F03", "fastio reports I/O failures and never hangs on them",
  "When the file cannot take the data (descriptor closed, read-only or size limit reached) every Write and WriteSync whose bytes are not completely in the file returns an error, later and concurrent calls still return, and blocks acknowledged before remain intact. Positional reads return exactly the bytes at that position, and a positional write either stores exactly its bytes there or returns an error and changes nothing.",
  ["fault_sequences", "schedules"], "every point at which the descriptor starts failing while any number of writers are active",
  "fastio has no test, with or without faults.",
  ["fastio/fw.go", "fastio/file.go"], [("error paths of the group commit", "fastio/fw.go")],
  ["returned errors vs. bytes in the file; completion of every call"], "fastiocmd", ["plain", "perturb", "race"],
  "fault injection (close, read-only descriptor, RLIMIT_FSIZE) with acknowledged-implies-stored oracle and bounded-progress monitor", EXP)
p("P01", "Mapped-file appends get disjoint regions that reach the file",
  "Concurrent appends to a mapped file receive disjoint consecutive regions starting at the initial offset and never past the end of the file; each successful append's or positional write's bytes are found exactly there in the mapping and, after flush or close, in the file, and all other bytes keep their earlier value. A positional write beyond the current end moves later appends behind it.",
  ["schedules", "inputs", "histories"], "every interleaving of Append/AppendSync/WriteAt/WriteAtSync over disjoint regions, every file size and start offset",
  "mmap has no test.",
  ["mmap/mmap.go"], [("offset reservation under a mutex, copy outside", "mmap/mmap.go Append/WriteAt")],
  ["returned offsets, mapping bytes, file bytes"], "mmapcmd", ["plain", "perturb", "race"],
  "offline region-tiling checker over stamped blocks + race detector", EXP)
p("P02", "Out-of-range mapped writes are refused without side effects",
  "An append or positional write that does not fit the file, or whose offset is negative or overflows, returns an error, never crashes, changes no byte of the file and does not move the append position; a write that exactly fits succeeds, and so does an empty write within the file. Opening an empty file or with a start offset outside the file fails with an error.",
  ["inputs", "histories"], "every offset (including negative and near the integer limits) and length, for the plain and the synchronous variants, at every fill level",
  "mmap has no test.",
  ["mmap/mmap.go", "mmap/sync_unix.go"], [("bounds check before the copy", "mmap/mmap.go Append/WriteAt")],
  ["returned errors, bytes before/after, next append offset"], "mmapcmd", ["plain"],
  "boundary-value fuzzing in lock-step with a reference byte array", EXP)
p("P03", "Synchronous mapped writes flush exactly what they wrote",
  "When AppendSync or WriteAtSync returns success, a synchronous flush request covering every byte of that write was issued to the kernel after the bytes were in the mapping and before the call returned. Flush and Close likewise flush everything written before them. A failed flush is reported as an error.",
  ["inputs", "histories", "fault_sequences"], "every offset and length relative to page boundaries; success and failure of the flush",
  "mmap has no test, and a missing flush is invisible without a crash.",
  ["mmap/sync_unix.go", "mmap/mmap.go"], [("msync with MS_SYNC from the page-aligned start", "mmap/sync_unix.go mmapSyncToDisk")],
  ["system-call trace of msync ranges and flags"], "mmapcmd", ["plain"],
  "system-call trace monitor (ptrace) matching msync ranges to writes, with injected msync failures", EXP + " Trusts the ptrace record of system calls.")

# ---------------------------------------------------------------- keystore
p("K01", "KeyStore returns the last content written, whole",
  "Read returns exactly the bytes of the latest successful Write, for every content and length, also after reopening the store; a store never written reports an error. Concurrent reads and writes behave as if one at a time: no read sees a mixture or a part.",
  ["inputs", "schedules", "histories"], "every byte string, also the empty one, every interleaving of Read and Write, every reopen point",
  "The key store has no test.",
  ["keystore/bin.go", "util/compress.go"], [("mutex, compress, truncate and write", "keystore/bin.go Write/Read"), ("zlib codec", "util/compress.go")],
  ["bytes returned by Read"], "keystorecmd", ["plain", "perturb", "race"],
  "atomic-register checker over concurrent histories with unique self-describing values, round-trip oracle, race detector", EXP)
p("K02", "The admin store survives reload exactly",
  "Admins, clients, message-queue users and other entries behave as four independent maps under any sequence and concurrency of put, delete, get and list; passwords are kept only as their upper-case MD5 digest. After every completed mutation a fresh load from the same file yields exactly the same four maps, and a missing, empty, damaged or partial store loads as a usable store.",
  ["inputs", "schedules", "histories", "fault_sequences"], "every history of operations with any names and values, every reload point, damaged files",
  "The store has no test.",
  ["keystore/keystore.go", "keystore/store.go", "util/gob.go"], [("in-memory bean rewritten to the key store after each mutation", "keystore/keystore.go"), ("thrift codec of the bean", "keystore/store.go")],
  ["Get/List results before and after reload"], "keystorecmd", ["plain", "race"],
  "lock-step reference model with reload after mutations, concurrent histories, damaged-file fuzzing", EXP)
p("K03", "A crash while writing the key store loses nothing already stored",
  "If the process is killed at any point while the key store is being written, or the disk refuses the data, a later load returns either the complete previous content or the complete new content. A write that fails returns an error.",
  ["crash_points", "fault_sequences"], "every system call of a Write at which the process is killed or the call fails",
  "Nothing tests interrupted writes.",
  ["keystore/bin.go"], [("replace the content atomically", "keystore/bin.go Write")],
  ["content loaded by a fresh process after the fault"], "keystorecmd", ["plain"],
  "crash-point enumeration: kill/fail each system call of Write via ptrace injection, then reload", "Every system call the write issued in the recorded run was killed or failed once; trusts ptrace injection; kill models process death, not power loss.", level="fault_enumeration")
p("K04", "AES encryption round-trips, keeps inputs intact and rejects garbage",
  "Decrypting an encryption of any byte string with the same key and iv gives the string back, and the ciphertext is standard AES-256-CBC with PKCS#7 padding under the derived key. Neither call modifies the caller's slice or memory behind it, a cipher object can be shared by goroutines, and malformed ciphertext yields an error, never a crash.",
  ["inputs", "schedules"], "every plaintext, key, iv, slice capacity and malformed ciphertext; concurrent use of one object",
  "TestAES prints one decryption and compares nothing.",
  ["keystore/aes.go"], [("PKCS#7 padding plus CBC", "keystore/aes.go EncrypterCbc/DecrypterCbc")],
  ["outputs compared with an independent AES-CBC; canary bytes around inputs"], "keystorecmd", ["plain", "race"],
  "differential oracle against crypto/cipher, canary monitor on input memory, malformed-input fuzzing, race detector", EXP)
p("K05", "RSA helpers round-trip and never fail silently",
  "Whatever is encrypted with a public key is recovered by decryption with its private key, with the built-in pair, key files and key bytes alike. Every failure (missing or malformed key, wrong key kind, message too long, altered ciphertext) yields an error and never an empty success.",
  ["inputs", "fault_sequences"], "every message up to the key's limit, every key source, every malformed key or ciphertext",
  "TestKey encrypts one message with the default keys and prints.",
  ["keystore/key.go"], [("PEM and DER parsing, PKCS#1 v1.5", "keystore/key.go")],
  ["(result, error) pairs"], "keystorecmd", ["plain"],
  "round-trip and no-silent-failure oracle over generated messages and damaged keys", EXP)

# ---------------------------------------------------------------- codecs
p("U01", "util compression round-trips and detects damage",
  "util's Zlib, Gzip and Snappy compressions of any byte string are complete streams that decompress, with the matching function and with the standard library, to exactly that string. Truncated or altered zlib and gzip streams yield an error instead of partial data, and altered snappy data never decodes to silently truncated data; no input panics, and concurrent use is safe.",
  ["inputs", "schedules"], "every byte string including empty, large and incompressible ones; every truncation and corruption",
  "TestZlib and Test_Gzip print lengths of one input.",
  ["util/compress.go"], [("writer closed before its output is taken; reader errors returned", "util/compress.go")],
  ["outputs, errors"], "codeccmd", ["plain", "race"],
  "differential round-trip oracle against the standard library plus truncation/corruption enumeration", EXP)
p("U02", "compress package round-trips at every level and detects damage",
  "Zlib, ZlibLevel at every valid level, Gzip, Snappy, Zstd and ZstdLevel produce complete standard streams that the matching decompressor and an independent decoder turn back into exactly the input. Truncated zlib, gzip and zstd streams and malformed data of any format yield an error, never a panic or silently shortened data, and an invalid level yields an error. A gzip or zstd stream made here never decodes to different data after a bit was flipped.",
  ["inputs", "configurations"], "every byte string, every level, every truncation and corruption",
  "The compress package has no test.",
  ["compress/compress.go"], [("writer closed before output is taken", "compress/compress.go")],
  ["outputs, errors"], "codeccmd", ["plain", "race"],
  "differential round-trip oracle plus truncation/corruption enumeration", EXP)
p("U03", "Integer/byte conversions are exact, big-endian and order preserving",
  "Converting any 16-, 32- or 64-bit integer or integer slice to bytes and back gives the same value; the bytes are the big-endian two's-complement form with fixed width, so unsigned order is preserved. Decoding shorter input treats it as the low-order bytes, longer input uses its leading bytes, and no length panics.",
  ["inputs"], "every integer value, slice and byte length",
  "TestIntByte and TestDataToBytes print a few values; Test_int64Tobs and Test_int32Tbs compare random values for two of the functions.",
  ["util/num.go"], [("shift loops", "util/num.go")],
  ["outputs compared with encoding/binary"], "codeccmd", ["plain"],
  "differential oracle against encoding/binary, exhaustive for 16 bits, boundary and random values elsewhere", EXP)
p("U04", "Serialization helpers round-trip every value",
  "Encode/Decode, JSON, protobuf and both thrift helper pairs return an equal value for every value of a serializable type, also when many goroutines use them at once, and never modify their input. Truncated or random bytes never crash the decoder; a required part missing, or JSON followed by anything but white space, yields an error.",
  ["inputs", "schedules"], "every value of the tested struct shapes, every truncation, concurrent use",
  "No test covers them.",
  ["util/gob.go", "util/protobuf.go", "thrift/serialize.go", "keystore/store.go"], [("codec wrappers over fresh buffers with one shared configuration", "util/gob.go TEncode/TDecode; thrift/serialize.go")],
  ["decoded values, errors"], "codeccmd", ["plain", "race"],
  "round-trip oracle over generated values, truncation enumeration, race detector", EXP)
p("U05", "Digests and checksums match their standards",
  "MD5, SHA-1, BLAKE2b-256, CRC-8 (polynomial 0x07), CRC-32 (IEEE), CRC-64 (ECMA), FNV-1a 32/64 and their upper-case hex forms equal the published algorithms for every input, and the 64-bit hash is a function of the content only for the life of the process. All are safe for concurrent use and do not modify their input.",
  ["inputs", "schedules"], "every byte string, any number of concurrent callers",
  "TestCrc prints checksums of one string.",
  ["util/encode.go"], [("standard hash packages and a CRC-8 table", "util/encode.go")],
  ["outputs compared with independent bitwise implementations"], "codeccmd", ["plain", "race"],
  "differential oracle against independent bit-level reference implementations and published test vectors", EXP)
p("U06", "Base58 encodes 64-bit values reversibly and rejects everything else",
  "For every 64-bit unsigned value, decoding its encoding gives the value and reports success; encodings use only the Bitcoin alphabet, never start with the zero digit and are ordered by length as the values are. Decoding reports failure for any other character and for every digit string whose value does not fit 64 bits.",
  ["inputs"], "every uint64 and every byte string",
  "base58 has no test.",
  ["base58/base58.go"], [("repeated division and Horner evaluation", "base58/base58.go")],
  ["outputs compared with big-integer arithmetic"], "codeccmd", ["plain"],
  "differential oracle against math/big over generated values and digit strings", EXP)
p("U07", "File, random and string helpers keep their contracts",
  "ReadFile returns exactly the file's bytes for every size including zero and an error for a missing file; the existence test is true exactly for existing paths. Random helpers always return a value within [0,n), reach both ends for small n and do not repeat a constant; concatenation equals joining the parts, and the panic-to-error helper turns any panic into an error.",
  ["inputs", "schedules"], "every file content, every bound n from 1 to the largest signed 64-bit value, every list of strings",
  "TestRandUint prints values.",
  ["util/encode.go"], [("thin wrappers", "util/encode.go ReadFile, IsFileExist, RandUint, RandInt64Strict, Concat, Recover")],
  ["outputs"], "codeccmd", ["plain", "race"],
  "differential and range oracles over generated inputs, race detector", EXP)
p("U08", "Shanghai date-times and pattern tests are exact and never panic",
  "A text of the form 2006-01-02 15:04:05 is turned into exactly the instant that clock shows in Shanghai: eight hours ahead of UTC from 1992 on, whatever time zone database the machine has, and as the machine's database says before. A text with a missing, shortened, swapped, foreign or out-of-range part is an error (a fraction of a second or a one-digit hour may be tolerated). The pattern test is true exactly when the regular expression matches somewhere in the text, and false, without a panic, for a malformed expression.",
  ["inputs", "configurations", "fault_sequences"], "every date-time text from 1992 on with and without a time zone database, every earlier one with it, every other text, every expression and text",
  "no test calls these functions.",
  ["util/encode.go"], [("fixed layout in a fixed location; compile and match", "util/encode.go StrToTimeFormat, MatchString")],
  ["outputs"], "codeccmd", ["plain", "race"],
  "differential oracles (independent calendar, backtracking matcher) over generated inputs, fault injection by ptrace on the time zone database, race detector", EXP)
p("B01", "Buffer is a faithful byte stream",
  "A Buffer holds exactly the concatenation of what was written minus what was read: reads return the bytes in order, each once, and report end of file exactly when it is empty, so copying a Buffer terminates. Every write reports the number of bytes it appended, Len, Bytes and String agree with the content, strings taken from it never change, Reset empties it, and integers are appended as four big-endian bytes.",
  ["inputs", "histories"], "every sequence of writes, reads and resets with every chunk size, on all constructors",
  "buffer has no test.",
  ["buffer/buffer.go"], [("append-only slice with a moving start", "buffer/buffer.go Read/Write*")],
  ["returned counts, bytes, errors"], "codeccmd", ["plain"],
  "lock-step comparison with a reference byte stream over generated operation sequences", EXP)

# ---------------------------------------------------------------- uuid
p("I01", "Generated UUIDs are unique",
  "No two UUIDs generated in one process are equal, whatever the number of goroutines generating, and none generated by separate processes started at the same moment are; the 64-bit ids derived from them do not collide beyond what 60 random bits allow. Generation never races.",
  ["schedules", "histories"], "every number of ids, goroutines and processes",
  "Test_UUID_UNI checks 64-bit ids from a single goroutine in one process and only prints a collision.",
  ["uuid/uuid.go", "util/encode.go"], [("process-random seed material plus an atomic sequence number", "uuid/uuid.go NewUUID/getSeq")],
  ["set of all ids"], "uuidcmd", ["plain", "perturb", "race"],
  "global duplicate detector over ids from many goroutines and processes + race detector", EXP)
p("I02", "UUID text, version, variant and equality follow RFC 4122",
  "Every generated UUID is version 4 with the RFC 4122 variant, its text form is the canonical lower-case 8-4-4-4-12 form, and parsing any canonical text (either case) gives back exactly its 16 bytes. Two UUIDs are equal exactly when their bytes are; version and variant report the fields of any UUID; text that is not of the canonical form is rejected with an error.",
  ["inputs"], "every UUID value and every string",
  "Test_NewUUID prints ten UUIDs.",
  ["uuid/uuid.go"], [("bit masks, hex formatting and parsing", "uuid/uuid.go")],
  ["outputs compared with an independent formatter/parser"], "uuidcmd", ["plain"],
  "differential oracle against an independent RFC 4122 formatter/parser over generated and mutated texts", EXP)
p("I03", "Numbers derived from a UUID are exact, stable and evenly spread",
  "The 64-bit number of a UUID is its first eight bytes read big-endian and its base 58 text is that number, so it decodes to it again. The 32-bit number is the same each time in one process, also after the UUID was written as text and parsed, and depends on all sixteen bytes. Over generated UUIDs the 32-bit and 64-bit numbers (also those of util) repeat no more often than random numbers of 32 and 60 bits would and use every bit evenly, and reading them never changes or races on the UUID.",
  ["inputs", "schedules"], "every UUID value, any number of reading goroutines",
  "Test_NewUUID prints numbers and texts without checking any.",
  ["uuid/uuid.go", "base58/base58.go", "util/encode.go"], [("big-endian view, per-process seeded hash", "uuid/uuid.go Int64, Int32, Base58"), ("ids from fresh UUIDs", "util/encode.go UUID64, UUID32")],
  ["returned numbers and texts"], "uuidcmd", ["plain", "race"],
  "differential oracle with big-number arithmetic, dependence probes and statistical monitors over generated UUIDs, race detector", EXP)

# ---------------------------------------------------------------- network, signals
p("N01", "HTTP post delivers body, headers and cookie exactly and reports failure",
  "The server receives exactly the given body, headers and cookie in one POST request, and the caller receives exactly the response body whatever the status code, over http and https, also with many concurrent calls. A refused, broken or truncated exchange yields an error and no partial body, and no call leaves a connection or goroutine behind.",
  ["inputs", "fault_sequences", "schedules"], "every body, header set and response size; connection refused, closed early or truncated; concurrent calls",
  "httpclient has no test.",
  ["httpclient/post.go"], [("net/http client with keep-alives off", "httpclient/post.go Post3")],
  ["request seen by a recording server; returned body/error; open connections and goroutines"], "netcmd", ["plain", "race"],
  "recording fault-injecting server on loopback with exact-transfer and leak oracles, race detector", EXP)
p("N02", "WebSocket messages arrive exactly once and unmixed",
  "Every message whose Send returned nil on an open connection arrives at the peer exactly once, unaltered and, per sending goroutine, in order; concurrent senders never interleave frames. Every message the peer sends in one frame before closing is passed to the message callback exactly once and unaltered, and the callback receives nothing else, in particular no part of a message the connection's end cut off.",
  ["schedules", "inputs", "histories"], "every number of concurrent senders and every message size, both directions",
  "websocket has no test.",
  ["websocket/wshandle.go"], [("mutex around frame writes; reader goroutine", "websocket/wshandle.go sendws/read")],
  ["multiset of stamped messages at both ends"], "netcmd", ["plain", "perturb", "race"],
  "exactly-once multiset checker over stamped messages on loopback + race detector", EXP)
p("N03", "WebSocket connection lifecycle is signalled exactly once",
  "The open callback runs once before any other callback, and after the connection ends for whatever reason (local close, peer close, abrupt loss) the error callback runs with a non-nil error and the close callback runs exactly once, after which Send fails and Error is non-nil. Closing repeatedly, concurrently or from a callback never panics, deadlocks or races, and failing to connect yields an error and no callbacks.",
  ["schedules", "fault_sequences"], "every order of close, send, receive and peer failure",
  "websocket has no test.",
  ["websocket/wshandle.go"], [("reader goroutine ends with the callbacks", "websocket/wshandle.go read/Close")],
  ["callback event log per connection"], "netcmd", ["plain", "perturb", "race"],
  "trace-specification monitor over callback logs under close/peer-loss faults + race detector", EXP)
p("N04", "A secure websocket talks only to servers its certificates vouch for",
  "With certificates configured (as files or bytes, one or several, each holding one or several), connecting over wss succeeds exactly with a server whose certificate chain leads to one of them and is valid for the host, the time and the purpose; any other server is refused with an error before a byte of the request reaches it. A missing or malformed certificate anywhere in the configuration is an error, what one connection trusts has no effect on another, and without configured certificates any server is accepted. Messages over a secure connection arrive unaltered in both directions.",
  ["inputs", "configurations", "histories"], "every set of configured certificates and every server certificate, also with many connections at a time",
  "websocket has no test.",
  ["websocket/wshandle.go"], [("a certificate pool of its own for each connection", "websocket/wshandle.go NewHandler, loadCACertificates*")],
  ["result of NewHandler; bytes that reach the server; callbacks; messages"], "netcmd", ["plain", "race"],
  "oracle by construction: connections to servers whose certificates are issued on purpose validly or invalidly, with a byte count at the server, race detector", EXP)
p("S01", "A registered signal reaches its handler once with its identity",
  "After registration, the first delivery of any of the listed signals calls the handler exactly once with that signal and the process keeps running; unlisted signals do not call it, and several independent registrations are each notified.",
  ["histories"], "every signal set and every delivery order of catchable signals",
  "gosignal has no test.",
  ["gosignal/gosignal.go"], [("signal.Notify with a buffered channel", "gosignal/gosignal.go")],
  ["handler call log in a child process"], "miscmd", ["plain", "race"],
  "event-log monitor in child processes that signal themselves", EXP)
p("S02", "The zero-copy string view has exactly the string's bytes",
  "Viewing a string as a byte slice gives exactly its bytes and length for every string, including empty strings and substrings, stays valid across garbage collections while the view is held, and never alters the string.",
  ["inputs"], "every string, under garbage-collection pressure",
  "fast has no test.",
  ["fast/fast.go"], [("unsafe.Slice over the string data", "fast/fast.go StringToSlice")],
  ["bytes of the view before and after collections"], "miscmd", ["plain", "race"],
  "content monitor under forced garbage collection with pointer checking (checkptr) enabled", EXP)
p("V01", "Image transforms are pixel exact and keep the format",
  "For lossless formats, horizontal and vertical flip, quarter-turn rotation, inversion and grayscale yield exactly the transformed pixels, applying a flip or inversion twice restores the image, and cropping yields exactly the requested part clipped to the image. Encoding without a target format keeps the source format, with one yields that format, and the result always decodes.",
  ["inputs", "configurations"], "every image content and size, every option combination, every supported format",
  "The image package is not built or tested here.",
  ["image/image.go", "image/adjust.go"], [("option pipeline over the imaging library", "image/image.go Encode; image/adjust.go")],
  ["decoded output pixels"], "imagecmd", ["plain"],
  "pixel-level reference oracle on generated images (package built with a stand-in for the one module that is not available)", EXP + " The ico encoder is replaced by a stand-in, so ico output is not covered.")
p("V02", "Image scaling respects its bounds and bad input is returned untouched",
  "Scaling to a minimum keeps the aspect ratio and fits inside the requested box, scaling to a maximum covers it, and a pixel cap is never exceeded. Resizing in modes 0 and 2 to 4 keeps the aspect ratio and never enlarges (mode 0 fits its limits for the longer and the shorter side, modes 3 and 4 cover theirs or leave the size as it is), and GIF resizing never enlarges, keeps every frame and delay and fits the box. Undecodable input is returned unchanged or as an error and nothing panics for any size, option or damaged data.",
  ["inputs", "configurations"], "every image size, target size, mode and damaged byte string",
  "The image package is not built or tested here.",
  ["image/image.go", "image/adjust.go"], [("size computations", "image/adjust.go scaleImageWithRatio; image/image.go resizeGIF, praseMode")],
  ["dimensions and frame data of decoded output"], "imagecmd", ["plain"],
  "dimension oracle over generated sizes and options, damaged-input fuzzing", EXP + " The ico encoder is replaced by a stand-in, so ico output is not covered.")
p("O01", "A byte slice belongs to whoever called",
  "No operation changes a slice it was handed to read, in its content, its spare capacity or around it, even for a moment, nor uses it after it has returned: the caller may overwrite it at once, and several callers may pass the same slice at the same time. A slice or decoded value that was handed back belongs to the caller: no later operation changes it, and overwriting it, spare capacity included, changes no later result and no other result. Documented views (StringToSlice, Buffer.Bytes, NewBufferBySlice, UUID.Bytes, Mmap.Bytes) are excepted.",
  ["inputs", "histories", "schedules"], "every sequence and interleaving of calls of every function that takes or returns slices, every content, length and spare capacity",
  "Tests pass fresh slices, compare at once and throw them away; a pooled result buffer or a retained argument needs a second call to show.",
  ["util/compress.go", "util/encode.go", "util/gob.go", "util/num.go", "util/protobuf.go", "compress/compress.go", "base58/base58.go", "keystore/aes.go", "keystore/bin.go", "keystore/key.go", "thrift/serialize.go", "fastio/fw.go", "fastio/file.go", "mmap/mmap.go", "buffer/buffer.go", "cache/bloom.go", "hashmap/consistenthash.go", "httpclient/post.go", "websocket/wshandle.go", "uuid/uuid.go"],
  [("results are built in memory of their own, arguments are copied before they are kept", "compress.*, util.Encode/TEncode/Marshal, fastio ioWrite, mmap WriteAt, websocket read")],
  ["guard bytes around arguments, arguments and results re-read after later calls"], "crosscmd", ["plain", "perturb", "race"],
  "ownership monitor: guarded arguments overwritten after the call, held and overwritten results, shared arguments; race detector", EXP)
p("O02", "Objects do not influence one another",
  "What an object does depends only on the operations on it: the same operations on a map, cache, lock, await, pool, buffer, file, mapping, key store, cipher or connection give the same results whether it is alone in the process or any number of others of its own and other kinds are in use at the same time. A held lock, a blocked wait, callback, function, write or request in one object never delays an operation on another, and distinct objects may be used from different goroutines without synchronisation.",
  ["histories", "schedules", "configurations"], "every set of objects of every kind in one process and every interleaving of operations on them",
  "Each test uses one object; state shared between objects by accident (a global lock, table or scratch buffer) shows only with two of them at work.",
  ["hashmap/map.go", "hashmap/treemap.go", "hashmap/limitmap.go", "hashmap/limithashmap.go", "hashmap/linkedhashmap.go", "hashmap/consistenthash.go", "cache/lrucache.go", "cache/bloom.go", "lock/lock.go", "lock/await.go", "lock/fastawait.go", "pool/gopool/gopool.go", "pool/buffer/buffer.go", "pool/buffer/pool.go", "buffer/buffer.go", "fastio/fw.go", "fastio/file.go", "mmap/mmap.go", "keystore/bin.go", "keystore/aes.go", "httpclient/post.go", "websocket/wshandle.go"],
  [("all state lives in the object", "constructors of every package")],
  ["results of every operation, alone and in company; time to finish while other objects are blocked"], "crosscmd", ["plain", "perturb", "race"],
  "metamorphic monitor: the result log of each object alone against its log in company and beside blocked objects; race detector", EXP)

p("R01", "Finished objects and failed calls leave nothing behind",
  "Once an object is closed (goroutine pool, file, memory map, websocket) or a call has returned (timed or cancelled waits, HTTP posts, file and key store operations, compression), however it ended, soon no goroutine, file descriptor, mapping or connection of it is left, without help of the garbage collector. Opening or connecting that fails leaves nothing behind either. A key store write, successful or not, leaves no file beside the store, and a key store never holds more than one descriptor.",
  ["histories", "fault_sequences", "schedules"], "every life of every closable object and every call that uses goroutines or descriptors, including failures to open, connect, write or answer",
  "No test looks at goroutines or descriptors after the fact; one leaked per use does no harm in the time a test runs.",
  ["pool/gopool/gopool.go", "lock/await.go", "lock/fastawait.go", "lock/lock.go", "fastio/file.go", "mmap/mmap.go", "util/encode.go", "keystore/store.go", "httpclient/post.go", "websocket/wshandle.go", "compress/compress.go"],
  [("release of every worker, descriptor and connection on all paths", "gopool Close/Go, fastio Open/Close, mmap Close/Unmap, util ReadFile, httpclient post, websocket NewHandler/Close")],
  ["goroutine stacks, /proc/self/fd, /proc/self/maps, directory listings after the end"], "rescmd", ["plain", "perturb"],
  "resource-accounting monitor (goroutines, descriptors, mappings, sockets, files) after generated lives with injected failures", EXP)
p("R02", "Structures hold memory only for what is in them",
  "However many distinct keys or values pass through a keyed, bounded or transient structure (maps, caches, consistent hash, keyed and limiting locks, awaits, pools), the memory it retains depends only on what is in it at the time. What was deleted, evicted, released, waited for or executed is not retained.",
  ["histories", "inputs"], "every history of insertions and removals of any length",
  "A structure that keeps a word for each key it ever saw passes every functional test; only growth over many keys shows it.",
  ["hashmap/map.go", "hashmap/treemap.go", "hashmap/limitmap.go", "hashmap/limithashmap.go", "hashmap/linkedhashmap.go", "hashmap/consistenthash.go", "cache/lrucache.go", "cache/bloom.go", "lock/lock.go", "lock/await.go", "lock/fastawait.go", "pool/gopool/gopool.go"],
  [("index and order list are updated together; await entries are removed with the last waiter", "hashmap/*.go, lock/await.go, lock/fastawait.go")],
  ["live heap after collection between batches"], "rescmd", ["plain"],
  "live-heap growth monitor over long churn histories", EXP)
