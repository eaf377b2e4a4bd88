"""Properties, their harness entries, bounds and assumptions."""

COMMON_ASSUMPTIONS = [
    "clang 18 -O1 IR of the sources in /repo; sequentially consistent memory",
    "stand-ins for the index, log, glog and tbb libraries (absent here) behave as stated in DESIGN.md",
    "memory allocation succeeds; file system calls are not performed",
]

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop("P21", runs=[
    dict(entry="h_tid_set", src="p21_tid.cpp", bounds="every 128-bit word, every setter, every value"),
    dict(entry="h_tid_all", src="p21_tid.cpp", bounds="every 128-bit word, every combination of part values"),
    dict(entry="h_tid_order", src="p21_tid.cpp", bounds="every base word, every pair of epoch/kind/number"),
    dict(entry="h_tid_lock", src="p21_tid.cpp", bounds="every unlocked word, both lock kinds"),
])

prop("P06", runs=[
    dict(entry="h_kv_short", src="p06_kv.cpp", bounds="short transaction of 3 (thorough: 4) calls of any kind with any one-byte keys and values over prior contents with a live, a deleted and never-written keys"),
    dict(entry="h_kv_long", src="p06_kv.cpp", bounds="as above, long transaction"),
])

prop("P22", runs=[
    dict(entry="h_lock_tid", src="p22_locks.cpp", cfg=dict(threads=2), all="tid_word::", bounds="three threads take the version word lock; every schedule with at most 4 (thorough: 5) preemptions, at every access"),
    dict(entry="h_lock_record", src="p22_locks.cpp", cfg=dict(threads=2), all="tid_word::", bounds="two writers and one stable reader of a record, 4 (5) preemptions"),
    dict(entry="h_lock_wp", src="p22_locks.cpp", cfg=dict(threads=2), all="tid_word::", bounds="three threads take the reservation table lock, 5 (6) preemptions"),
    dict(entry="h_table_copy", src="p22_locks.cpp", cfg=dict(threads=2), all="wp_meta::", bounds="a copying reader against two changes of a two-entry table; preemption before every memory access, 3 (4) preemptions"),
    dict(entry="h_value_copy", src="p22_locks.cpp", cfg=dict(threads=2), all="version::|basic_string", bounds="one value writer, one reader, preemption before every access, 3 (4) preemptions"),
    dict(entry="h_record_value_copy", src="p22_locks.cpp", cfg=dict(threads=2), all="version::|basic_string|Record::", bounds="as above through the record, 2 (3) preemptions"),
])

prop("P23", runs=[
    dict(entry="h_table_ops", src="p23_wpmeta.cpp", cfg=dict(threads=3), witness=2, bounds="table of 3 places, every sequence of 4 (thorough: 5) registrations, removals, outcomes and recorded ranges with any epochs, identifiers and range bytes"),
    dict(entry="h_table_queries", src="p23_wpmeta.cpp", cfg=dict(threads=5), bounds="any table of 5 places"),
    dict(entry="h_table_concurrent", src="p23_wpmeta.cpp", cfg=dict(threads=3), all="wp_meta::|wp_lock::", witness=2, bounds="three threads registering, removing and finishing, preemption before every memory access, 2 (thorough: 3) preemptions; a thread looking at the table while two others do so, 3 (4) preemptions"),
])

prop("P32", runs=[
    dict(entry="h_pool", src="p32_pool.cpp", bounds="up to 2 workers and 2 tasks, start, pushes and stop under every schedule with 3 (thorough: 4) preemptions"),
    dict(entry="h_pool_race", src="p32_pool.cpp", witness=2, bounds="a push racing with stop, up to 2 workers, 3 (4) preemptions, then a restart"),
    dict(entry="h_pool_many", src="p32_pool.cpp", bounds="up to 5 workers and 7 tasks, round-robin schedule"),
])

prop("P31", runs=[
    dict(entry="h_notify", src="p31_durable.cpp", bounds="every sequence of 4 registrations (also of empty callables) and notifications of any positions, up to 3 listeners"),
    dict(entry="h_notify", name="h_notify_log", src="p31_durable.cpp", cfg=dict(pwal=True), bounds="as above in the configuration with log"),
    dict(entry="h_notify_race", src="p31_durable.cpp", bounds="two registrations racing with two notifications, 3 (thorough: 4) preemptions"),
    dict(entry="h_notify_race", name="h_notify_race_log", src="p31_durable.cpp", cfg=dict(pwal=True), bounds="as above in the configuration with log"),
    dict(entry="h_notify_db", src="p31_durable.cpp", cfg=dict(pwal=True), bounds="running database, every sequence of 5 (6) registrations, commits, epoch changes and background steps"),
])

prop("P33", runs=[
    dict(entry="h_print_bytes", src="p33_print.cpp", bounds="every byte string up to 4 (thorough: 6) bytes, four stream settings, both constructors"),
    dict(entry="h_print_span", src="p33_print.cpp", bounds="lists of up to 3 numbers or any characters, both separators, from vectors and pointers"),
    dict(entry="h_print_options", src="p33_print.cpp", bounds="every kind, up to 2 reservations and up to 2 entries in each read list"),
    dict(entry="h_print_word", src="p33_print.cpp", bounds="every combination of flags, sample numbers"),
], assumptions=["character streams: the standard library's templates with the plain C locale"])

prop("P27", runs=[
    dict(entry="h_names", src="p27_result.cpp", bounds="every pair of declared codes of all six code types"),
    dict(entry="h_info", src="p27_result.cpp", bounds="every sequence of 3 (thorough: 4) changes, any 2-byte keys and names, any storage number"),
    dict(entry="h_causes", src="p27_result.cpp", witness=14, bounds="every pair of 14 kinds of refusal after each other, with and without a transaction in between"),
])

prop("P26", runs=[
    dict(entry="h_bytes", src="p26_bytes.cpp", witness=2, bounds="two records, any keys up to 3 (thorough: 4) bytes, any values up to 2 (4) bytes, stored and read by every transaction kind"),
    dict(entry="h_long_values", src="p26_bytes.cpp", bounds="any keys and values of 15, 16, 17, 31 and 48 bytes"),
    dict(entry="h_key_length", src="p26_bytes.cpp", witness=3, bounds="every key length beyond 30 KB up to 2^62, and the limit and one below"),
])

prop("P30", runs=[
    dict(entry="h_overlap", src="p30_range.cpp", witness=2, bounds="any endpoints and keys up to 2 (thorough: 3) bytes, all endpoint kinds"),
    dict(entry="h_empty", src="p30_range.cpp", witness=2, bounds="any endpoints and keys up to 2 (3) bytes, all endpoint kinds"),
    dict(entry="h_range_read", src="p30_range.cpp", witness=2, bounds="2 (3) recorded ranges with any 1-byte endpoints, epochs and identifiers from windows of 8 and 16"),
    dict(entry="h_point_read", src="p30_range.cpp", witness=2, bounds="3 (4) recorded reads with any epochs and identifiers from windows of 8 and 16; any two 64-bit epochs of short readers"),
    dict(entry="h_skew", src="p30_range.cpp", witness=2, bounds="two long transactions, any written key and any range of 1-byte endpoints"),
    dict(entry="h_part", src="p30_range.cpp", witness=2, bounds="two long transactions, any written key of one byte; two looks, each at any single key, at the last record, or at a range of any 1-byte endpoints left at its first (thorough: or second) record or ended"),
    dict(entry="h_part", name="h_part_it", src="p30_range.cpp", cfg=dict(hdefs=["SX_ISCAN"]), witness=2, bounds="as above; iterator based scans"),
    dict(entry="h_chain", src="p30_range.cpp", witness=2, bounds="three long transactions, any written key and any range of 1-byte endpoints"),
])

prop("P01", runs=[
    dict(entry="h_stx_calls", src="p01_serial.cpp", witness=3, bounds="two transactions of two operations of any kind over two keys of one storage, every order of their calls"),
    dict(entry="h_stx_gc", src="p01_serial.cpp", witness=3, bounds="two transactions, each a read or scan and then an insert or upsert of two deleted keys, every order of their calls, the collector running at one (thorough: two) of any moments between"),
    dict(entry="h_stx_race", src="p01_serial.cpp", witness=3, bounds="two transactions, each a read or scan and then a write, preempted at most 1 (2) times before any atomic access"),
    dict(entry="h_stx_race2", src="p01_serial.cpp", witness=3, bounds="six pairs of two-operation transactions, 2 (3) preemptions"),
])

prop("P02", runs=[
    dict(entry="h_ltx_pair", src="p02_mixed.cpp", witness=3, bounds="two long transactions with any reservations, two operations each, the second beginning at any point of the first"),
    dict(entry="h_ltx_stx", src="p02_mixed.cpp", witness=3, bounds="a long transaction with any reservations and a short one, two operations each, every order of calls, one additional epoch change"),
    dict(entry="h_three", src="p02_mixed.cpp", witness=3, bounds="two long and a short, long or read-only transaction, each reading one of two keys and writing one of them; every order of begins, bodies and commits (thorough: of reads and writes)"),
    dict(entry="h_three_scan", src="p02_mixed.cpp", witness=3, bounds="as above with scans of one of two storages, inserts and deletes"),
    dict(entry="h_ltx_race", src="p02_mixed.cpp", witness=3, bounds="eight pairs of a long and a short or long transaction with their begins, epochs and commits, preempted 2 or 1 (thorough: 3 or 2) times before any atomic access"),
    dict(entry="h_same_epoch", src="p02_mixed.cpp", witness=3, bounds="three long transactions begun in the same epoch, each reading or scanning one of two storages and inserting or deleting in one of them, every order of bodies and commits"),
    dict(entry="h_ring", src="p02_mixed.cpp", witness=3, bounds="three transactions, one to three of them long, each reading or scanning one of three storages and writing, inserting or deleting in the next, both ways round; every order of begins, bodies and commits"),
    dict(entry="h_part", src="p30_range.cpp", witness=2, bounds="two long transactions, any written key of one byte; two looks, each at any single key, at the last record, or at a range of any 1-byte endpoints left at its first (thorough: or second) record or ended"),
])

prop("P03", runs=[
    dict(entry="h_snapshot", src="p03_snapshot.cpp", witness=2, bounds="5 (thorough: 6) steps, each a committed write or delete of one of two keys by a short or long transaction, two epochs with the collector running, or the begin of the reader; the reader reads and scans everything after each step"),
])

prop("P05", runs=[
    dict(entry="h_whole_ro", src="p05_whole.cpp", witness=3, bounds="a short or long transaction writing two keys in one or two storages against a read-only one that begins, with epochs passing, at any point of it; 2 (thorough: 3) preemptions before any atomic access"),
    dict(entry="h_whole_rw", src="p05_whole.cpp", witness=3, bounds="as above against a short or long reader, 2 preemptions"),
])

prop("P04", runs=[
    dict(entry="h_abort", src="p04_abort.cpp", bounds="short or long transaction of 2 (thorough: 3) operations of any kind over a present, a deleted and a new key, aborted on request; then read by any kind of transaction and all keys written, with and without epochs passing"),
    dict(entry="h_refused", src="p04_abort.cpp", witness=2, bounds="short transaction of 2 operations refused because another one wrote in between"),
    dict(entry="h_abort_other", src="p04_abort.cpp", witness=2, bounds="one operation of an aborted short or long transaction, two operations of a short one on the same keys, every order of calls"),
])

_scan = [
    ("h_scan_range", 2, "every subset of four records, any endpoints up to 1 (thorough: 2) bytes of all kinds, every transaction kind, neighbouring storages"),
    ("h_scan_limit", 2, "every mixture of live, deleted and never written records, one own write, size limits up to 4, both directions, refused shapes"),
    ("h_scan_own", 2, "two own writes with scans in between, before and after commit"),
]
prop("P07", runs=[dict(entry=e, src="p07_scan.cpp", cfg=dict(defs=["SX_LEAF=2"]), witness=w, bounds=b) for e, w, b in _scan]
     + [dict(entry=e, name=e + "_it", src="p07_scan.cpp", cfg=dict(defs=["SX_LEAF=2"], hdefs=["SX_ISCAN"]), witness=w, bounds=b + "; iterator based scans") for e, w, b in _scan])

_ph = [
    ("h_phantom", 2, "an index of nodes of two records with any of 24 contents; a search, existence test or scan of a whole or partial range (stopped early, limited, reversed), an own write to any key, another transaction's insert or delete of any key in any order with them"),
    ("h_phantom_race", 3, "three (thorough: four) contents, two (four) ways to look, an insert or delete of any key; 2 (thorough: 3; iterator based scans: one less) preemptions before any atomic access"),
]
prop("P08", runs=[dict(entry=e, src="p08_phantom.cpp", cfg=dict(defs=["SX_LEAF=2"]), witness=w, bounds=b) for e, w, b in _ph]
     + [dict(entry=e, name=e + "_it", src="p08_phantom.cpp", cfg=dict(defs=["SX_LEAF=2"], hdefs=["SX_ISCAN"]), witness=w, bounds=b + "; iterator based scans") for e, w, b in _ph]
     + [dict(entry="h_stx_gc", src="p01_serial.cpp", witness=3, bounds="two transactions, each a read or scan and then an insert or upsert of two deleted keys, every order of their calls, the collector running at one (thorough: two) of any moments between")])

prop("P09", runs=[
    dict(entry="h_write_reserved", src="p09_reserve.cpp", witness=2, bounds="any of two storages reserved (also named twice), any write to any of them, before and after the transaction became active"),
    dict(entry="h_keep_out", src="p09_reserve.cpp", witness=3, bounds="any short operation on a present or missing key before, at or after the begin of one or two reserving transactions, any of them ended before the short commit"),
    dict(entry="h_release", src="p09_reserve.cpp", witness=8, bounds="eight ways a reserving transaction or its begin ends"),
])

prop("P10", runs=[
    dict(entry="h_area", src="p10_area.cpp", witness=2, bounds="every inclusive and exclusive subset of three storages, two operations of any kind on any of them, fresh and used sessions"),
    dict(entry="h_area", name="h_area_it", src="p10_area.cpp", cfg=dict(hdefs=["SX_ISCAN"]), tier="thorough", witness=2, bounds="as above; iterator based scans"),
])

prop("P11", runs=[
    dict(entry="h_wait", src="p11_wait.cpp", witness=3, bounds="three long transactions in one or several epochs, each looking at and writing any of two storages, reserving just those or all, the first with or without a read area; each committed or aborted, in every order"),
    dict(entry="h_wait_two", src="p11_wait.cpp", cfg=dict(threads=6), witness=4, bounds="two transactions that read one or both and wrote at most one of two storages reserved by two earlier ones, with or without declared read areas, requested in either order, the earlier ones committing or aborting in either order"),
    dict(entry="h_wait_race", src="p11_wait.cpp", witness=2, bounds="four cases of waiting transactions, the one waited for ending while requests come and the resolver (one or two) works; 2 (thorough: 3; two resolvers: one less) preemptions before any atomic access"),
])

prop("P12", runs=[
    dict(entry="h_callback", src="p12_callback.cpp", witness=4, bounds="every transaction kind, never begun, not yet active, read, write or both, with and without a conflicting commit, a write whose key is inserted or deleted meanwhile, and a second request"),
    dict(entry="h_callback", name="h_callback_log", src="p12_callback.cpp", cfg=dict(pwal=True), witness=4, bounds="as above in the configuration with log"),
    dict(entry="h_callback_wait", src="p12_callback.cpp", witness=3, bounds="a waiting long transaction against what it waits for writing, reading, both or nothing and committing or aborting; a second request, abort or write while it waits"),
    dict(entry="h_callback_next", src="p12_callback.cpp", cfg=dict(threads=6), witness=2, bounds="the session used for a short or a waiting long transaction while the resolver is inside or behind the callback, asked for a transaction until it is free, or left and entered again; 2 (thorough: 3) preemptions before any atomic access"),
])

prop("P13", runs=[
    dict(entry="h_state", src="p13_state.cpp", witness=4, bounds="every transaction kind, waiting or not, ended before or after it is active by abort, leave, commit or losing commit; handle acquired at any of four moments, read after every step, beside another handle; any 64-bit unknown handle"),
    dict(entry="h_state", name="h_state_log", src="p13_state.cpp", cfg=dict(pwal=True), witness=4, bounds="as above in the configuration with log"),
    dict(entry="h_state_end", src="p13_state.cpp", cfg=dict(pwal=True), all="tx_state|TxState|transaction_state.h:", witness=2, bounds="the state of a transaction of every kind read by another thread while it commits or aborts; 2 (thorough: 3) preemptions before any atomic access and any access of the state functions; with log"),
    dict(entry="h_state_race", src="p13_state.cpp", all="tx_state", witness=2, bounds="the handle of a waiting transaction read and released while the resolver decides it; 2 (thorough: 3) preemptions before any atomic access and any access of the state functions"),
])

prop("P14", runs=[
    dict(entry="h_log_short", src="p14_log.cpp", cfg=dict(pwal=True), witness=2, bounds="a write and three (thorough: four) further writes or deletes of one key by short transactions of three sessions, in the same or later epochs; replayed by a restart"),
    dict(entry="h_log_blobs", src="p14_log.cpp", cfg=dict(pwal=True), witness=2, bounds="a short or long transaction of up to three (thorough: four) writes of any kind to one present, missing or deleted key, each with up to two blob references of any value"),
    dict(entry="h_log", src="p14_log.cpp", cfg=dict(pwal=True), witness=3, bounds="a long transaction of two and a short or long one of one (thorough: two) writes of any kind to a present and a missing or deleted key, every order of begins, calls and ends with epochs passing; log entries compared and replayed by a restart"),
])

prop("P15", runs=[
    dict(entry="h_crash", src="p15_crash.cpp", cfg=dict(pwal=True), witness=3, bounds="two transactions (one short or long, one short; thorough: both) each writing, or deleting in, two storages, committed or aborted; every order of their steps with epochs passing, crash after any of them and up to two further epochs"),
    dict(entry="h_crash_again", src="p15_crash.cpp", cfg=dict(pwal=True), witness=3, bounds="two (thorough: three) lives of one transaction of any kind writing or deleting, its session left or not, each ended by a crash after up to two epochs"),
    dict(entry="h_crash_race", src="p15_crash.cpp", cfg=dict(pwal=True), witness=3, bounds="a short transaction (thorough: or long) writing two storages against one that reads from it, up to two epochs passing and the crash at any of 1 (thorough: 2) preemptions before any atomic access, or after up to two further epochs"),
    dict(entry="h_crash_sequence", src="p15_crash.cpp", cfg=dict(pwal=True), witness=2, bounds="a short or long transaction writing two records and a sequence, up to three epochs passing and the crash at any of 1 (thorough: 2) preemptions before any atomic access, or after up to two further epochs"),
])

prop("P17", runs=[
    dict(entry="h_sequence", src="p17_sequence.cpp", witness=3, bounds="two sequences; a long transaction with one or two updates against 4 (thorough: 5) steps of short updates committed or aborted, epochs, deletion and its own commit in any order; any 64-bit versions and values"),
    dict(entry="h_sequence", name="h_sequence_log", src="p17_sequence.cpp", cfg=dict(pwal=True), witness=4, bounds="as above, then a restart from the log"),
    dict(entry="h_sequence_bad", src="p17_sequence.cpp", witness=2, bounds="any unknown 64-bit identifier; deletion with up to three epochs passing"),
    dict(entry="h_sequence_race", src="p17_sequence.cpp", cfg=dict(pwal=True), witness=2, bounds="two short transactions updating and reading one sequence, 2 (thorough: 3) preemptions before any atomic access, then a restart from the log"),
])

prop("P18", runs=[
    dict(entry="h_storage", src="p18_storage.cpp", witness=3, bounds="3 calls creating, deleting, writing to and setting options of storages under three names (one empty), any requested 64-bit identifier, three payloads (thorough: any of them for each); names, list, options and records compared after each"),
    dict(entry="h_storage_bad", src="p18_storage.cpp", witness=1, bounds="any 64-bit handle of no live storage, every call that takes one"),
    dict(entry="h_storage_race", src="p18_storage.cpp", witness=2, bounds="two sessions creating, looking up or deleting the same name; 2 (thorough: 3) preemptions before any atomic access"),
])

prop("P16", runs=[
    dict(entry="h_storage_restart", src="p18_storage.cpp", cfg=dict(pwal=True), witness=3, bounds="3 (thorough: 4) calls (after none or two that make a storage with a record) creating (requested or assigned identifier), deleting, writing to and setting any options of storages under two names, in one or several epochs; stopped cleanly or by a crash after all of it is durable; recovered by the calling or by two other threads, then used (thorough: and restarted again)"),
    dict(entry="h_restore_threads", src="p18_storage.cpp", cfg=dict(pwal=True), all="sequence_map_push|_Rb_tree<unsigned long, std::pair<unsigned long const, std::map", witness=2, bounds="a storage with two records, two storages, or two sequences restored by two threads, every way to deal the entries to them; 1 (thorough: 2) preemptions before any atomic access or access to the sequences"),
])

prop("P24", runs=[
    dict(entry="h_session", src="p24_session.cpp", cfg=dict(threads=3), witness=4, bounds="3 sessions; every sequence of 6 (thorough: 7) calls entering, leaving with and without a running transaction, and leaving any other 64-bit token"),
    dict(entry="h_session_clean", src="p24_session.cpp", witness=4, bounds="a first user with any kind of transaction, one (thorough: two) operations of any kind and any end of it, also in the middle, then a second one with any kind of transaction on the same session"),
    dict(entry="h_session_race", src="p24_session.cpp", cfg=dict(threads=2), witness=2, bounds="three users taking, using and giving back two sessions; 2 (thorough: 3) preemptions before any atomic access"),
])

prop("P25", runs=[
    dict(entry="h_use", src="p25_order.cpp", witness=2, bounds="19 calls on a session without a transaction, in six situations before it (fresh, committed, aborted, with a scan open, begin refused, ended by the engine) for each kind, with and without epochs passing"),
    dict(entry="h_begin", src="p25_order.cpp", witness=2, bounds="two further begins of any kind and with any of four options in three phases of a running transaction of any kind, committed or aborted then"),
    dict(entry="h_requested", src="p25_order.cpp", witness=2, bounds="2 (thorough: 3) further calls on a waiting long transaction requested with or without callback, then the older one aborts, commits, or commits a conflicting write"),
])

_hd = "two storages; 4 (thorough: 5) steps opening up to four scans of five shapes, advancing, reading and closing any of them, using no handle, a closed one or that of another session in any call, or ending the transaction of any kind and beginning the next"
prop("P28", runs=[
    dict(entry="h_handles", src="p28_handles.cpp", witness=4, bounds=_hd),
    dict(entry="h_handles", name="h_handles_it", src="p28_handles.cpp", cfg=dict(hdefs=["SX_ISCAN"]), witness=4, bounds=_hd + "; iterator based scans"),
], assumptions=["advancing or reading through a handle already closed is a caller error (documented: checked only in a debugging build of the engine) and is not exercised"])

_rs = "first life ending with any of 13 things under way (short, long, waiting and read-only transactions, open scans, garbage, a dropped storage, a state handle, a durability listener), stopped with or without flushing, then a second life using every kind of transaction"
prop("P29", runs=[
    dict(entry="h_restart", src="p29_restart.cpp", witness=2, bounds=_rs),
    dict(entry="h_restart", name="h_restart_log", src="p29_restart.cpp", cfg=dict(pwal=True), witness=2, bounds=_rs + ", empty or recovered; with the log"),
    dict(entry="h_restart", name="h_restart_it", src="p29_restart.cpp", cfg=dict(hdefs=["SX_ISCAN"]), witness=2, bounds=_rs + "; iterator based scans"),
    dict(entry="h_leak", src="p29_restart.cpp", witness=1, bounds="three lives with the same of the 13 things under way, memory in use after the second and the third compared"),
    dict(entry="h_leak", name="h_leak_log", src="p29_restart.cpp", cfg=dict(pwal=True), witness=1, bounds="the same with the log"),
    dict(entry="h_logdir", src="p29_restart.cpp", cfg=dict(pwal=True), witness=3, bounds="two lives, each with the log in a directory of the user, of the engine's own or in the caller's hands, created or recovered, with the directory there or not, stopped with or without flushing"),
])

prop("P19", runs=[
    dict(entry="h_stx_gc", src="p01_serial.cpp", witness=3, bounds="two transactions, each a read or scan and then an insert or upsert of two deleted keys, every order of their calls, the collector running at one (thorough: two) of any moments between"),
    dict(entry="h_gc", src="p19_gc.cpp", witness=2, bounds="one key (thorough: two); 5 (thorough: 7) steps: a committed write or delete, any one background thread running until it sleeps, the reader of any kind beginning, time passing; the reader looks after every step"),
    dict(entry="h_gc_past", src="p19_gc.cpp", witness=2, bounds="one key; an older long transaction, then 7 (thorough: 8) steps in any order: a committed write or delete, an epoch with every background thread, a long or read-only reader beginning, the older one ending; the reader looks after every step"),
    dict(entry="h_gc_done", src="p19_gc.cpp", witness=2, bounds="4 (thorough: 5) writes, deletes, undone inserts and epochs with nobody, a short, a long or a read-only transaction there, the same four times over; memory in use four epochs after each compared"),
    dict(entry="h_gc_hold", src="p19_gc.cpp", witness=2, bounds="a record deleted before any two steps of background threads; any background thread interrupted before any atomic access (1; thorough: 2 times) while one session uses the record in any of seven ways, epochs pass, another session begins"),
    dict(entry="h_gc_snap", src="p19_gc.cpp", witness=2, bounds="any background thread interrupted before any atomic access (1; thorough: 2 times) while a long or read-only transaction begins, reads, sees four epochs with a write each pass, and reads again, with nobody else, a late short transaction or an older long one ending meanwhile"),
    dict(entry="h_gc_race", src="p19_gc.cpp", witness=1, bounds="a record deleted or overwritten one or two epochs ago; any background thread late with its turn and one session using the record in any of seven ways interrupting each other 2 (thorough: 3) times before any atomic access"),
])

prop("P20", runs=[
    dict(entry="h_boundary", src="p20_epochs.cpp", cfg=dict(threads=7), witness=3, bounds="two long transactions each reading another storage (thorough: any of three) and writing its own, a short one and two read-only ones, in every order of begins, bodies and epochs (2; thorough: 3), the readers looking at everything after every step"),
    dict(entry="h_overtake", src="p20_epochs.cpp", cfg=dict(threads=7), witness=2, bounds="two long transactions beginning, reading another's storage or a third, and writing their own at separate moments, a read-only one and 3 (thorough: 4) epochs, in every order, the reader looking at everything after every step"),
    dict(entry="h_epochs", src="p20_epochs.cpp", cfg=dict(pwal=True), witness=2, bounds="three (thorough: four) transactions of any kind, with or without reading and with epochs passing at any point of them"),
    dict(entry="h_epochs_race", src="p20_epochs.cpp", cfg=dict(pwal=True), witness=2, bounds="one short transaction and any background thread with 2 (thorough: 3) preemptions before any atomic access, or two with one less"),
])

_cl = "two sessions, one in a transaction of any kind; every sequence of 3 (thorough: 4) of 26 calls of the public interface, then orderly use and shut down"
_sc = "a scan of any kind of transaction, in either direction, against two transactions removing, adding and replacing the records with epochs and collection between; 1 (thorough: 2) preemptions before any atomic access"
prop("P34", runs=[
    dict(entry="h_calls", src="p34_calls.cpp", witness=2, bounds=_cl),
    dict(entry="h_calls", name="h_calls_it", src="p34_calls.cpp", cfg=dict(hdefs=["SX_ISCAN"]), witness=2, bounds=_cl + "; iterator based scans", tier="thorough"),
    dict(entry="h_calls", name="h_calls_log", src="p34_calls.cpp", cfg=dict(pwal=True), witness=2, bounds=_cl + "; with the log", tier="thorough"),
    dict(entry="h_sizes", src="p34_calls.cpp", witness=2, bounds="keys and values of nine lengths up to one more than the longest allowed key, the last three bytes of each free; written, read, scanned, updated, deleted and collected"),
    dict(entry="h_watch", src="p34_calls.cpp", all="print_diagnostics|display_tx", witness=1, bounds="the diagnostics printed while a transaction of any kind begins, works and ends in three ways; 1 (thorough: 2) preemptions before any atomic access and any access of the printing functions"),
    dict(entry="h_lose", src="p34_calls.cpp", witness=2, bounds="a short or long transaction with one of five operations whose commit may lose, against the removal and collection of the record it lost for; 2 (long: 1; thorough: 3) preemptions before any atomic access"),
    dict(entry="h_scan", src="p34_calls.cpp", witness=1, bounds=_sc),
    dict(entry="h_scan", name="h_scan_it", src="p34_calls.cpp", cfg=dict(hdefs=["SX_ISCAN"], defs=["SX_LEAF=2"]), witness=1, bounds=_sc + "; iterator based, index nodes of two keys"),
], assumptions=["every other check decides memory safety as well: each access of each of its paths is checked; a violation found there is reported under that property"])
