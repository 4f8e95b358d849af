TESTW = "The suite only runs random workloads to completion and prints a size: it never compares a result with an expected one, "
prop("C01", "Concurrent map operations are linearizable",
 "For any threads calling get, containsKey, put, putIfAbsent, replace, remove, conditional remove and update on one hash map that stays within its capacity, every returned value and the final content are those of the same calls executed one at a time in some order consistent with real time. A key is never stored twice, so an operation that returned is seen by every later operation on that key.",
 ["schedules", "programs"], "every interleaving of the atomic steps of any set of threads and calls, in a table that does not grow",
 TESTW + "and the schedules that break this (two threads claiming one slot within a few instructions) are sampled by chance.",
 [HM, PE], [("slot claim and probe loop", HM + ": putIfMatch(Table*,...)"), ("getImpl probe loop", HM + ": getImpl"), ("dirty-bit compare-and-swap", PE + ": pcas, pcas_read")],
 [("pairs", "open-addressing array of key/value words", HM + ": Table")], ["call and return of the public map operations"])
prop("C02", "Growing the table never loses, reverts, duplicates or resurrects an entry",
 "When insertions make the hash map move its content to a larger table, once or several times in a row, operations running at the same time or later still return exactly what a map would return: every entry present before is found with its latest value, a removed key stays removed, and no update made during the move is undone by a thread that was delayed in the middle of it.",
 ["schedules", "programs"], "every interleaving of operations with one or several (nested) table growths, including threads stalled at any point of the migration",
 TESTW + "a lost or resurrected entry during growth changes nothing the suite checks.",
 [HM], [("slot migration", HM + ": copySlot"), ("promotion of the new table", HM + ": copyCheckAndPromote"), ("growth", HM + ": resize, helpCopy, helpCopyImpl, copySlotAndCheck")],
 [("newTable", "successor table during growth", HM + ": CHM"), ("copyDone", "number of migrated slots", HM + ": CHM")], ["call and return of the public map operations"])
prop("C03", "Each map operation has its documented sequential effect and return value",
 "For any keys and values outside the reserved ones, including zero and the extremes, and any call history: get returns the current value or 'absent'; put, update, remove and replace change exactly the given key; put returns the previous value; putIfAbsent changes nothing if the key is present; remove tells whether the key was present; the conditional remove and replace act, and return true, exactly if the current value is the expected one.",
 ["inputs", "histories"], "every sequence of operations on every key and value, including collisions, full tables and growth",
 TESTW + "return values are ignored or checked to be >= 0.",
 [HM, UCF], [("public operations", HM + ": get, put, putIfAbsent, remove, replace, update, putIfMatch"), ("conditional match", HM + ": putIfMatch(Table*,...)")],
 [], ["return values and later get calls"])
prop("C04", "No increment is ever lost",
 "If n increments of a key run in any threads at any time, also while the table grows, and no other operation writes the key, then afterwards the key's value is its old value plus n, and no two of these increments return the same previous value.",
 ["schedules", "programs"], "every interleaving of increments with each other, with other keys' operations and with table growth",
 TESTW + "degreeTest counts concurrently but nobody checks the counts.",
 [HM, UCF], [("increment as a compare-and-swap function", HM + ": Table::increment"), ("retry in the new table", HM + ": putIfMatch(Table*,...)")], [], ["update/increment results, get after quiescence"])
prop("C05", "The reported size equals the number of keys present when nothing is running",
 "Whenever no operation is in progress, the size of the hash map equals the number of keys for which containsKey is true, whatever mix of concurrent operations, failed conditional operations and table growth came before.",
 ["schedules", "histories"], "every interleaving and history, evaluated at quiescent points",
 TESTW + "the size is printed but not compared.",
 [HM], [("size accounting", HM + ": putIfMatch(Table*,...)"), ("size across growth", HM + ": resize, size")], [], ["size()/count() at quiescence"])
prop("C06", "Every operation completes and every growth finishes",
 "As long as every thread keeps being scheduled, each call on the hash map returns after finitely many steps: no schedule makes threads wait for each other forever, retry forever or abort, not even when a thread is paused for an arbitrary finite time in the middle of an insertion or a growth.",
 ["schedules"], "every fair schedule of any set of operations, including growth",
 "A hang shows in the suite only if the scheduler happens to produce it.",
 [HM, PE], [("migration loop", HM + ": helpCopyImpl"), ("retry loops", HM + ": putIfMatch, copySlot; " + PE + ": pcas")], [], ["termination of each call under a fair scheduler"])
prop("C07", "A value that was read survives any later crash",
 "Once an operation on the hash map has returned a key's value (or its absence), a crash at any later moment, with any subset of unflushed cache lines written back, never rolls that key back to an older state: recovery finds that value or one written to the key later.",
 ["crash_points", "schedules", "histories"], "every crash point of every schedule and every set of cache lines that happened to be written back",
 "No test crashes anything; plain files stand in for persistent memory, so a missing flush is invisible.",
 [PE, HM], [("flush before clearing the dirty bit", PE + ": persist, pcas_read"), ("new values start dirty", PE + ": pcas"), ("initial table flush", HM + ": mmapTable, PERSIST")], [], ["content after recovery compared with results returned before the crash"])
prop("C08", "A crash during growth loses nothing that was durable",
 "If the machine crashes at any moment while the hash map is moving to a larger table (creating it, copying, removing from the old table, switching over), recovery from the table files yields for each key a value at least as new as the last one returned by any operation, and no key is lost because its old copy was removed before its new copy was durable.",
 ["crash_points", "schedules"], "every crash point during a growth, every subset of unflushed lines",
 "No test crashes anything.",
 [HM, PE], [("copy, flush, then retire the old slot", HM + ": copySlot, putIfMatch(Table*,...)"), ("table file creation", HM + ": mmapTable")], [], ["content after recovery"])
prop("C09", "Recovery never invents data",
 "After a crash at any point and any number of recoveries, every key the recovered map contains was inserted by some call made before the crash, its value was written to that key by such a call, and a half-finished insertion is either complete or absent; recovering twice without changes in between gives the same content. A map created without recovery is empty, whatever files an earlier map left.",
 ["crash_points", "histories"], "every crash point, also during table initialisation and during recovery itself",
 "No test runs recovery.",
 [HM], [("recovery constructor", HM + ": ConcurrentHashMap(fileDir,size,reconstruct)"), ("repair of half-inserted pairs", HM + ": mmapTable")], [], ["content after recovery"])
prop("C10", "A recovered map is fully usable",
 "After recovery from any crash image, however many table files it has and whether or not a growth was in progress, the hash map has the right size, and all operations on it complete, are linearizable, can grow it and are durable in the same way as on a fresh one.",
 ["crash_points", "histories", "schedules"], "every reachable crash image, followed by any operations",
 "No test runs recovery.",
 [HM], [("relinking of tables", HM + ": ConcurrentHashMap(fileDir,size,reconstruct)"), ("table file numbering", HM + ": numFromName, getOrderedFileName")], [], ["operations after recovery"])
prop("C11", "All containers implement the same set contract",
 "For every container behind the common interface (the lock-free map, the std::map wrapper, pmem concurrent_hash_map and clevel_hash) and any sequence of calls by one client: insert makes the key present and returns true if that changed the container, erase makes it absent and returns whether it was present, contains tells whether it is present, get returns the stored value, increment makes the key present, and the lock-free map and the std::map wrapper count increments.",
 ["inputs", "histories"], "every call sequence on every container",
 TESTW + "and no test compares containers.",
 ["containers/container.hpp", UCF, "containers/stlMap.hpp", "containers/pmemMap.hpp", "containers/levelMap.hpp"], [("adapters", "containers/*.hpp"), ("vendored persistent maps", "include/libpmemobj++/container/concurrent_hash_map.hpp, include/libpmemobj++/experimental/clevel_hash.hpp")], [], ["return values of the container interface"])
prop("C12", "The std::map container is linearizable under threads",
 "For any threads calling insert, erase, contains, get, increment and count on the std::map container, all results are those of some sequential order consistent with real time, and no two of these calls access the tree at the same time if one of them changes it.",
 ["schedules"], "every interleaving of the container's calls",
 TESTW + "a data race rarely crashes.",
 ["containers/stlMap.hpp"], [("global lock", "containers/stlMap.hpp: guard_type")], [], ["call and return of the container interface"])
prop("C13", "The pmem concurrent_hash_map container is linearizable under threads",
 "For any threads calling insert, erase, contains and get on the pmem container, all results are those of some sequential order consistent with real time, and count equals the number of keys when nothing is running.",
 ["schedules"], "every interleaving of the container's calls, including bucket rehashing",
 TESTW + "and schedules are sampled.",
 ["containers/pmemMap.hpp", "include/libpmemobj++/container/concurrent_hash_map.hpp"], [("bucket and node locks, lazy rehash", "include/libpmemobj++/container/concurrent_hash_map.hpp")], [], ["call and return of the container interface"])
prop("C14", "Reopening a pmem-backed container restores every completed update",
 "If the process using the pmem or clevel container is killed, or the machine loses power, at any moment and the pool is opened again, every insert and erase that had returned is still in effect, an operation in progress is either complete or not applied, and the reopened container keeps obeying its contract.",
 ["crash_points", "histories"], "every kill or power-failure point of any history of operations, and every subset of unflushed lines",
 "No test reopens a pool.",
 ["containers/pmemMap.hpp", "containers/levelMap.hpp", "include/libpmemobj++/container/concurrent_hash_map.hpp", "include/libpmemobj++/experimental/clevel_hash.hpp"], [("transactions and persist calls", "include/libpmemobj++/transaction.hpp, make_persistent*.hpp"), ("runtime_initialize", "containers/pmemMap.hpp")], [], ["content after reopening"])
prop("C15", "Table slots follow a one-way life cycle",
 "In the table files, at every moment: a slot's key, once set, never changes and each key occupies at most one slot per table; a slot handed over for migration never takes another value; the old copy of an entry is removed only after the newer table holds that key; and a table is replaced as the current one only after every slot of it has been handed over.",
 ["schedules"], "every write to the shared table memory in every interleaving",
 "The suite never looks at the table memory.",
 [HM], [("documented rules", HM + ": header comment ('Rule: ...')"), ("slot transitions", HM + ": putIfMatch, copySlot, copyCheckAndPromote")], [], ["writes to table memory"])
prop("C16", "A multi-word compare-and-swap is atomic",
 "For any threads running multi-word compare-and-swaps and reads over overlapping words, each multi-word compare-and-swap takes effect at one instant or not at all: it returns true and sets all its words exactly if all of them had the expected values at that instant, otherwise it returns false and changes none, and a read returns only plain values current at some instant during the read.",
 ["schedules", "programs"], "every interleaving of the steps of any set of overlapping operations, including helping",
 "No test builds or runs this component.",
 [KC], [("descriptor installation and helping", KC + ": PMwCAS, InstallMwCASDescriptor, CompleteInstall"), ("descriptor reuse", KC + ": createNew, readField, CASField")], [], ["results and memory words"])
prop("C17", "A multi-word compare-and-swap is all-or-nothing across a crash",
 "If the machine crashes at any point while multi-word compare-and-swaps run, then after recovery every word holds a plain value and each operation's words are all changed or all unchanged, with every operation whose effect had been read before the crash still in effect.",
 ["crash_points", "schedules"], "every crash point and every subset of unflushed lines",
 "No test builds or runs this component.",
 [KC], [("recovery of descriptors", KC + ": recover"), ("descriptor persistence", KC + ": createNew, PMwCAS")], [], ["memory words after recovery"])
prop("C18", "A thread that stops for ever blocks nobody",
 "The hash map is lock-free: whatever instruction a thread is stopped at, for ever, in the middle of any operation or of a growth of the table, every call made by the other threads still returns after finitely many steps, and all results are those of a map on which the stopped thread's call either took effect at some instant or did not.",
 ["schedules", "fault points"], "every instruction at which a thread may stop, in every interleaving of any set of calls, also during growth",
 TESTW + "and no test stops a thread in the middle of an operation.",
 [HM, PE], [("helping", HM + ": helpCopyImpl, copySlotAndCheck, copySlot"), ("retry loops", HM + ": putIfMatch, getImpl; " + PE + ": pcas")],
 [("copyDone", "number of migrated slots that were reported", HM + ": CHM")], ["call and return of the public map operations"])
