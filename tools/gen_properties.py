#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the anchors stay readable)."""
import json, os
CC = "src/concurrency_control/"
IF = CC + "interface/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Committed short transactions are serializable",
  "Whatever operations concurrent short transactions run and however they interleave, the ones that commit have read and written exactly what some one-after-another execution of them would have read and written. A transaction for which no such position exists is refused at commit with a concurrency error.",
  ["schedules", "programs", "inputs"], "all interleavings of all bounded programs of short transactions over a small key space, all keys and values",
  "a wrong interleaving is one of thousands of schedules and usually corrupts only the outcome of one of them; a unit test runs a handful of fixed schedules",
  [IF + "short_tx/termination.cpp", IF + "short_tx/search.cpp", IF + "search.cpp", IF + "insert.cpp", CC + "local_set.cpp", CC + "tid.cpp"],
  [("read set and version validation at commit", IF + "short_tx/termination.cpp"), ("version word lock and stable read", CC + "tid.cpp, " + CC + "record.cpp"), ("node set", CC + "include/local_set.h")],
  ["commit", "search_key", "next/read_value_from_scan"])
p("P02", "Mixed short, long and read-only transactions are serializable",
  "For any set of short, long and read-only transactions with any declared write reservations and any interleaving with epoch progress, the committed ones are equivalent to some one-after-another execution of them. Long transactions may be placed earlier in that order than they ran, but what every committed transaction read and the final contents must agree with it.",
  ["schedules", "histories", "inputs"], "all bounded histories mixing the three transaction kinds and epoch switches",
  "the order-forwarding rules depend on the combination of epochs, reservations, reads and commit order; the space of histories is combinatorial and a violation needs several transactions in a specific arrangement",
  [IF + "long_tx/termination.cpp", IF + "long_tx/helper.cpp", IF + "long_tx/search.cpp", CC + "read_by.cpp", CC + "ongoing_tx.cpp", IF + "short_tx/termination.cpp"],
  [("read verification and order forwarding", IF + "long_tx/termination.cpp"), ("overtaken set", IF + "long_tx/helper.cpp"), ("read-by records left by readers", CC + "read_by.cpp")],
  ["commit", "search_key"])
p("P03", "Read-only transactions read one fixed committed snapshot and never fail",
  "Every read of a read-only transaction returns the state left by exactly the transactions committed before its snapshot point, the same on every repetition, whatever commits, deletes or is garbage collected meanwhile. A read-only transaction is never refused or aborted because of concurrency.",
  ["schedules", "histories", "inputs"], "all bounded histories of writers, epoch switches and collector runs around a read-only transaction",
  "the version that must be chosen depends on epochs relative to the snapshot; tests fix those epochs",
  [IF + "read_only_tx/search.cpp", IF + "read_only_tx/read_only_tx.cpp", IF + "scan/read_kv_from_scan.cpp", CC + "epoch.cpp", IF + "long_tx/termination.cpp"],
  [("version chain walk by snapshot epoch", IF + "read_only_tx/search.cpp"), ("safe snapshot epoch", CC + "epoch.cpp")],
  ["search_key", "scan reads", "commit"])
p("P04", "An aborted transaction leaves no trace",
  "When a transaction of any kind ends without committing, by request or by refusal, the contents seen by every other transaction are as if it had never run. Nothing it held keeps blocking: the same keys can be read, written and re-inserted by others, and its session can start a new transaction.",
  ["programs", "inputs", "schedules"], "all bounded operation sequences ending in an abort, every abort cause, followed by any bounded probe",
  "placeholders, locks and reservations left behind only show in a later transaction touching the same record in a particular way",
  [IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", IF + "helper.cpp", IF + "insert.cpp", CC + "session.cpp"],
  [("cancel of inserted placeholders", IF + "short_tx/termination.cpp"), ("session clean up", CC + "session.cpp")],
  ["abort", "commit refused", "later search_key/insert/commit"])
p("P05", "A commit becomes visible as a whole",
  "No transaction that itself commits, and no read-only transaction at all, observes some of the writes of another transaction without the others, no matter where in the committing it looks.",
  ["schedules", "inputs"], "every preemption point inside the commit of a two-record writer, all values",
  "the window is a few instructions inside the commit; tests cannot place a reader there",
  [IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", IF + "read_only_tx/search.cpp", IF + "short_tx/search.cpp"],
  [("write lock phase, validation, write phase", IF + "short_tx/termination.cpp")], ["commit", "search_key"])
p("P06", "Operations follow the key-value contract, including a transaction's own writes",
  "For every sequence of insert, update, upsert, delete and search calls in one transaction over any prior contents, each call returns the status and value that an ordered map with the transaction's own uncommitted writes applied would give, and after commit the contents are exactly that map.",
  ["programs", "inputs"], "all bounded operation sequences over a small key space from every initial contents, for short and long transactions",
  "the outcome depends on the pair of previous own operation and committed state; the table of combinations times keys and values is larger than tests enumerate",
  [IF + "insert.cpp", IF + "update.cpp", IF + "upsert.cpp", IF + "delete.cpp", IF + "search.cpp", CC + "local_set.cpp"],
  [("local write set merge", CC + "local_set.cpp"), ("delete over own insert", IF + "delete.cpp")],
  ["insert", "update", "upsert", "delete_record", "search_key", "commit"])
p("P07", "A scan returns exactly the records in its range, in order",
  "For every contents and every pair of endpoints with any kinds of bounds, direction, size limit and scan mode, a scan delivers exactly the live records inside the range, each once, in key order (reversed on request), up to the limit, with their current values and with the transaction's own writes taken into account.",
  ["inputs", "programs", "configurations"], "all key sets, endpoints, endpoint kinds, directions, limits within bounds, both scan modes, all transaction kinds",
  "boundary combinations of endpoints, empty keys, deletes and own writes are too many for examples",
  [IF + "scan/open_scan.cpp", IF + "scan/next.cpp", IF + "scan/read_kv_from_scan.cpp", "src/index/yakushima/include/interface.h"],
  [("range check and cursor", IF + "scan/open_scan.cpp"), ("skip of absent records", IF + "scan/next.cpp")],
  ["open_scan", "next", "read_key_from_scan", "read_value_from_scan"])
p("P08", "A committed transaction saw no phantom",
  "If a short transaction looked at a key range or for a missing key and commits, then no other transaction's insert or delete in what it looked at was committed between the look and its commit, wherever the index placed the records.",
  ["schedules", "inputs", "programs"], "all bounded scans and misses against one or two concurrent committed inserts or deletes, with index nodes splitting",
  "needs the insert to land in a particular index node at a particular time, including node splits",
  [IF + "scan/open_scan.cpp", IF + "scan/next.cpp", IF + "scan/read_kv_from_scan.cpp", IF + "short_tx/search.cpp", CC + "local_set.cpp", CC + "include/local_set.h"],
  [("node version set", CC + "include/local_set.h"), ("own insert adjusts node set", CC + "include/session.h")],
  ["open_scan", "search_key", "commit"])
p("P09", "Write reservations are enforced both ways",
  "A long transaction can write only storages it reserved at its beginning; a write elsewhere is refused and changes nothing. While a reservation is in force a conflicting short transaction on that storage does not commit, and once the reserving transaction has ended, in whatever way, short transactions are no longer hindered by it.",
  ["histories", "programs"], "all bounded histories of reservations, epochs, short operations and ends of the long transaction",
  "depends on epoch-relative validity of reservations and on every way a long transaction can end",
  [CC + "wp.cpp", CC + "wp_meta.cpp", IF + "insert.cpp", IF + "update.cpp", IF + "upsert.cpp", IF + "delete.cpp", IF + "short_tx/search.cpp", IF + "short_tx/termination.cpp"],
  [("reservation table", CC + "wp_meta.cpp"), ("check at access and at commit", IF + "short_tx/termination.cpp")],
  ["tx_begin", "insert/update/upsert/delete_record", "search_key", "commit"])
p("P10", "Declared read areas are enforced",
  "A long transaction with a declared read area can read a storage exactly when the storage is in its inclusive list (or that list is empty) and not in its exclusive list; any other read is refused as a violation and ends the transaction.",
  ["inputs", "programs"], "all bounded inclusive and exclusive lists, all read operations",
  "lists overlap in many ways; each read operation has its own check",
  [IF + "long_tx/helper.cpp", IF + "long_tx/search.cpp", IF + "search.cpp", IF + "scan/open_scan.cpp", CC + "read_plan.cpp"],
  [("read area check", IF + "long_tx/helper.cpp")], ["tx_begin", "search_key", "open_scan"])
p("P11", "Every accepted commit request of a long transaction is decided",
  "A long transaction whose commit was accepted but has to wait is decided as soon as the transactions it waits for have ended, in whatever order and way they end; it neither waits forever nor is decided while one it must wait for is still running.",
  ["schedules", "histories"], "all bounded sets of long transactions, reservations, reads and orders of ending",
  "waiting conditions form a graph over transactions; tests show only a few arrangements",
  [CC + "bg_work/bg_commit.cpp", IF + "long_tx/termination.cpp", CC + "ongoing_tx.cpp", CC + "read_plan.cpp"],
  [("wait condition", CC + "ongoing_tx.cpp"), ("background resolver", CC + "bg_work/bg_commit.cpp")],
  ["commit", "check_commit", "commit callback"])
p("P12", "The commit callback fires exactly once with the real outcome",
  "For every commit request with a callback the callback is called exactly once, with the status, reason and durability position that the transaction really ended with, whether the decision is immediate or taken later in the background, and for refused requests as well.",
  ["schedules", "histories"], "all bounded commit requests of all transaction kinds incl. waiting, repeated and refused ones",
  "depends on which of several paths decides the transaction",
  [IF + "termination.cpp", IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", IF + "read_only_tx/read_only_tx.cpp", CC + "bg_work/bg_commit.cpp"],
  [("callback invocation", CC + "session.cpp")], ["commit with callback", "check_commit"])
p("P13", "Reported transaction states only move forward to the true end state",
  "The state reported through a transaction handle moves only forward through the documented order and ends in committed/durable exactly for transactions that committed and in aborted exactly for those that did not; durable is never reported before the commit's epoch is durable. A released handle is refused.",
  ["histories", "schedules"], "all bounded histories of one or two handles, epochs and durability progress",
  "the state is updated from several places (caller, background resolver, epoch and durability progress)",
  [CC + "transaction_state.cpp", "include/shirakami/transaction_state.h", IF + "termination.cpp", CC + "bg_work/bg_commit.cpp"],
  [("state registry", CC + "transaction_state.cpp")], ["acquire_tx_state_handle", "check_tx_state", "release_tx_state_handle"])
p("P14", "The log receives exactly the committed writes in a replayable order",
  "For every committed transaction the log gets its final writes and deletes, each once and with its storage, key, value and blob references, leaving out at most those already superseded when it commits; nothing is logged for transactions that did not commit. Replaying the log by the versions it carries yields the same contents as the running database.",
  ["programs", "histories", "inputs"], "all bounded histories of short and long transactions with symbolic keys and values",
  "a wrong version order or a missing record shows only for particular sequences on one key and only after recovery",
  ["src/datastore/limestone/lpwal.cpp", IF + "short_tx/termination.cpp", IF + "long_tx/termination.cpp", "include/shirakami/log_record.h", "src/datastore/limestone/limestone_api_helper.cpp"],
  [("log records and versions", "src/datastore/limestone/lpwal.cpp"), ("write version assignment", IF + "short_tx/termination.cpp")],
  ["log channel entries"])
p("P15", "After a crash exactly the durable prefix is recovered",
  "After a crash at any point the recovered contents equal the effect of exactly the transactions whose commit epoch is within the durable epoch; everything reported durable survives and no transaction survives in part.",
  ["crash_points", "histories", "inputs"], "every crash point in all bounded histories",
  "crash points times histories; tests crash at fixed places if at all",
  ["src/datastore/limestone/datastore.cpp", "src/datastore/limestone/lpwal.cpp", CC + "epoch.cpp", IF + "start_up.cpp", CC + "session.cpp"],
  [("log session begin relative to commit epoch", "src/datastore/limestone/lpwal.cpp"), ("durable epoch", CC + "epoch.cpp"), ("recovery", "src/datastore/limestone/datastore.cpp")],
  ["init after crash", "search_key", "durability callback"])
p("P16", "Recovery restores storages, options and identifiers",
  "After shutdown or crash and recovery every durable storage is back under its name with its identifier, options and contents, deleted ones are gone, and newly created storages never reuse an identifier that still exists.",
  ["crash_points", "histories", "inputs"], "all bounded histories of storage operations and restarts",
  "depends on names, identifiers and order of recovered entries",
  ["src/datastore/limestone/datastore.cpp", IF + "storage.cpp", "src/include/storage.h"],
  [("storage metadata recovery", "src/datastore/limestone/datastore.cpp")], ["init", "get_storage", "create_storage", "list_storage", "storage_get_options"])
p("P17", "A sequence shows the newest committed update",
  "Reading a sequence returns the version and value of the highest-version update whose transaction committed, also after a restart; updates of transactions that did not commit never show, updates with stale versions have no effect, identifiers of live sequences are unique and a deleted sequence is gone.",
  ["histories", "inputs"], "all bounded sequences of create, update, delete and reads with symbolic versions and values, committed or aborted",
  "combination of versions, epochs and transaction outcomes",
  [CC + "sequence.cpp", "src/include/sequence.h", "include/shirakami/api_sequence.h"],
  [("sequence map per epoch", CC + "sequence.cpp")], ["create_sequence", "update_sequence", "read_sequence", "delete_sequence"])
p("P18", "Storage management behaves as a map from names to live storages",
  "For every sequence of create, get, list, options and delete calls, a name resolves to its storage exactly from its successful creation to its deletion, identifiers of live storages are distinct and keep the requested id and payload, duplicates and unknown handles are refused, and storages never share records.",
  ["programs", "inputs"], "all bounded sequences of storage calls with symbolic names, ids and payloads",
  "sequence- and input-dependent",
  [IF + "storage.cpp", "src/include/storage.h", "src/database/database.cpp", CC + "wp.cpp"],
  [("name map", "src/include/storage.h"), ("page set meta", CC + "wp.cpp")], ["create_storage", "get_storage", "list_storage", "delete_storage", "storage_get_options/set_options"])
p("P19", "Garbage collection is invisible",
  "Running the collector at any moments changes nothing a transaction reads or leaves, at most a short one is asked to try again: no version, record or key that an active or future transaction can still need is removed and no released memory is touched. What nobody can need any more is eventually removed.",
  ["schedules", "histories"], "every placement of collector steps in all bounded histories",
  "needs the collector at a particular point of another transaction",
  [CC + "garbage.cpp", CC + "include/garbage.h", CC + "record.cpp", IF + "insert.cpp"],
  [("minimum epochs", CC + "garbage.cpp"), ("unhook and version pruning", CC + "garbage.cpp")], ["search_key", "scan reads", "insert", "commit"])
p("P20", "Epochs and the snapshot boundary only advance",
  "The global epoch never decreases and advances by one; a read-only snapshot never changes by a later commit, and one begun after another was read is no older. A transaction's commit epoch lies between its begin and its commit return.",
  ["schedules", "histories"], "all bounded histories of begins, commits, aborts and epoch switches",
  "the boundary depends on every active transaction",
  [CC + "epoch.cpp", CC + "include/epoch.h", CC + "ongoing_tx.cpp", CC + "session.cpp", CC + "include/session.h"],
  [("epoch thread", CC + "epoch.cpp"), ("lowest active epoch", CC + "ongoing_tx.cpp")], ["tx_begin", "commit", "read-only reads"])
p("P21", "Version words keep their parts apart and order by commit position",
  "Setting any part of a version word changes that part and nothing else, for every value of the word; comparing two words with equal flags orders them by epoch, then writer kind, then number. Locking and unlocking change only the lock parts.",
  ["inputs"], "all 2^128 words and all field values",
  "2^128 inputs; tests sample a few", [CC + "include/tid.h", CC + "tid.cpp"],
  [("bit layout", CC + "include/tid.h")], ["version word accessors"])
p("P22", "Locks exclude each other and lock-free snapshots are never torn",
  "At most one thread holds a record's or reservation table's lock at any time, a lock attempt succeeds once the holder releases, and a reader that copies without the lock gets a copy that existed as a whole between its start and end.",
  ["schedules"], "all interleavings of two or three threads up to a preemption bound",
  "needs a preemption between two specific instructions",
  [CC + "tid.cpp", CC + "wp_lock.cpp", CC + "wp_meta.cpp", CC + "record.cpp", CC + "include/version.h", "src/include/atomic_wrapper.h"],
  [("version word lock", CC + "tid.cpp"), ("sequence lock", CC + "wp_lock.cpp")], ["lock/unlock", "stable read", "snapshot of reservations"])
p("P23", "Reservation bookkeeping is an exact multiset",
  "The table of reservations holds exactly the registered and not yet removed entries for any order of concurrent registrations and removals up to its capacity, freed places are reusable, and queries for the lowest epoch, lowest identifier and emptiness return exactly that of the held entries, including the key range recorded for each.",
  ["programs", "inputs", "schedules"], "all bounded sequences with symbolic epochs and ids, incl. the full table; two concurrent callers",
  "order-, value- and capacity-dependent", [CC + "wp_meta.cpp", CC + "include/wp_meta.h"],
  [("slots and used bits", CC + "wp_meta.cpp"), ("write ranges and results", CC + "wp_meta.cpp")], ["register/remove/query of reservations"])
p("P24", "Sessions are exclusive, limited and start clean",
  "Tokens handed out and not yet returned are pairwise distinct up to the configured maximum, one more is refused with a proper status, a returned token becomes available again, and a transaction started on a reused session inherits nothing from the previous user.",
  ["programs", "schedules"], "all bounded sequences of enter, leave and transaction ends; concurrent enters",
  "needs exhaustion, reuse after each kind of end, or a race", [IF + "session_management.cpp", CC + "session_table.cpp", CC + "session.cpp"],
  [("visibility flag", IF + "session_management.cpp"), ("clean up", CC + "session.cpp")], ["enter", "leave", "tx_begin"])
p("P25", "Beginning a transaction and using it out of order is refused properly",
  "A transaction can begin on a session exactly when none is running there; options that make no sense for the transaction kind are refused; operations without a begun transaction or after its end are refused and never take effect, and a transaction whose commit was requested can neither be committed again nor aborted.",
  ["programs", "inputs"], "all bounded call sequences on one session with all option combinations",
  "the misuse table is a product of states and calls", [IF + "tx_begin.cpp", IF + "helper.cpp", IF + "termination.cpp", IF + "insert.cpp"],
  [("begin checks", IF + "tx_begin.cpp")], ["tx_begin", "all operations"])
p("P26", "Keys and values are stored and returned byte for byte",
  "Any key up to the documented maximum length and any value, including empty ones and ones with zero bytes, is returned unchanged; keys differing in any byte or in length are different records, ordered bytewise. A longer key is refused without effect.",
  ["inputs"], "all keys and values within the length bound; every length around the limit",
  "values of all bytes and boundary lengths", [IF + "insert.cpp", IF + "upsert.cpp", IF + "search.cpp", CC + "record.cpp", CC + "include/version.h", IF + "helper.cpp"],
  [("key length check", IF + "helper.cpp")], ["insert", "upsert", "search_key", "scan reads"])
p("P27", "Failure information names the real cause",
  "After a refused operation or commit the result information carries the reason of that refusal and the storage and key concerned, each reason and status code has its own non-empty name, and nothing is left over from an earlier transaction.",
  ["inputs", "programs"], "all code values; all bounded failure causes followed by a further transaction",
  "codes times causes times history", [CC + "result_info.cpp", "include/shirakami/result_info.h", "include/shirakami/scheme.h", IF + "api_result.cpp", "src/include/storage.h"],
  [("result info", "include/shirakami/result_info.h")], ["transaction_result_info", "status and reason names"])
p("P28", "Scan handles live exactly from open to close",
  "A scan handle works from its opening until it is closed or its transaction ends, and several handles of one transaction advance independently of each other. Closing a handle that is not open, and using a handle of another session or none at all, is refused as invalid without effect.",
  ["programs", "inputs"], "all bounded sequences of open, next, read, close and transaction ends over up to three handles",
  "sequence-dependent", [IF + "scan/open_scan.cpp", IF + "scan/close_scan.cpp", IF + "scan/next.cpp", CC + "include/scan.h"],
  [("handle table", CC + "include/scan.h")], ["open_scan", "next", "close_scan", "commit/abort"])
p("P29", "Starting and stopping can be repeated cleanly",
  "Init succeeds once and is refused while running, and fin ends every background activity, answers the commits still waiting, frees what it created and does nothing when not running. Init after fin starts from an empty database (or the recovered one): no storage, session, transaction, handle, sequence or listener of the earlier life is left over or disturbs the new one.",
  ["programs", "configurations"], "all bounded sequences of init, use and fin over the option combinations",
  "needs restart after use in one process", [IF + "start_up.cpp", IF + "shut_down.cpp", CC + "epoch.cpp", CC + "garbage.cpp", CC + "session_table.cpp", CC + "bg_work/bg_commit.cpp"],
  [("life cycle", IF + "start_up.cpp")], ["init", "fin", "create_storage", "enter"])
p("P30", "Range conflict tests are exact",
  "Two key ranges with any endpoint kinds are judged to overlap whenever some key lies in both and never when one ends before the other begins, an inserted or written key is judged inside a read range exactly when it is, and a range is judged empty only if no key can lie in it, always when its ends are crossed.",
  ["inputs"], "all endpoint keys within the length bound and all endpoint kinds",
  "corner cases of equal keys, prefixes and infinities", [CC + "read_plan.cpp", CC + "read_by.cpp", CC + "ongoing_tx.cpp", IF + "scan/open_scan.cpp", IF + "long_tx/termination.cpp"],
  [("range overlap", CC + "read_plan.cpp"), ("range read records", CC + "read_by.cpp")], ["long transaction conflict decisions", "open_scan"])
p("P31", "Durability notifications are complete and ordered",
  "Every registered durability listener is told each durable position that is reached, in non-decreasing order and never a position that is not durable, starting with the current one at registration, and listeners registered later do not disturb earlier ones.",
  ["histories", "schedules"], "all bounded sequences of registration and durability progress",
  "order of registration and progress", ["src/database/tx_state_notification.cpp", "src/database/include/tx_state_notification.h", CC + "epoch.cpp", "src/datastore/limestone/include/datastore.h"],
  [("listener list", "src/database/tx_state_notification.cpp"), ("durable epoch", CC + "epoch.cpp")], ["register_durability_callback"])
p("P32", "Worker pool runs every queued task once and stops when told",
  "Every task pushed to the worker pool before it is told to stop is taken by exactly one worker; a task pushed while it stops is taken at most once and is never lost, staying queued if not taken. Stopping returns, with all workers ended.",
  ["schedules"], "all interleavings of two workers, pushes and the stop request up to a preemption bound",
  "race between stop flag and queue state", ["src/database/thread_pool.cpp", "src/database/include/thread_pool.h", "src/include/concurrent_queue.h"],
  [("worker loop", "src/database/thread_pool.cpp")], ["push", "fin"])
p("P33", "Printed options and byte strings are faithful",
  "Printing a byte string shows every printable byte as itself and every other byte as a backslash, x and two hexadecimal digits; lists and transaction options show every element and option, in order. Printing changes neither the value nor the formatting state of the stream it prints to.",
  ["inputs"], "all byte strings, lists and option values within the length bound",
  "256 byte values times positions; stream state", ["include/shirakami/binary_printer.h", "include/shirakami/span_printer.h", "include/shirakami/transaction_options.h", "src/concurrency_control/include/tid.h"],
  [("byte escaping", "include/shirakami/binary_printer.h")], ["operator<<"])
p("P34", "No call corrupts memory or ends the process",
  "No sequence of calls through the public interface, with any keys, values, handles valid at the time, and any schedule, makes the library read or write memory it does not own, use an object it released, fail an internal fatal check, or block forever with nobody to wake it.",
  ["programs", "inputs", "schedules", "histories"], "all bounded call sequences explored for the other properties, every memory access of every path",
  "memory errors stay silent on most inputs", [IF + "*.cpp", CC + "*.cpp", "src/include/*.h", "src/database/*.cpp"],
  [("all", "src/")], ["every public call"])
os.makedirs("/verif", exist_ok=True)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
