"""Prose for DESIGN.md, one entry for each property."""
S = "%s s quick on 8 cores."
H = ("Transactions run through the public interface record what each call answered (`harness/hist.h`). At the end all committed ones are put "
     "in every order; the assertion is that some order, executed on a plain map from the initial contents, gives every recorded answer and the final contents. ")
TEXT = {
"P01": dict(how=H + "Operations, keys and the order of calls (or the preemptions) are free; in one run the collector removes deleted records between any two calls.",
    not_="", cost=S % "60", **{"not": "The answer 'not found' of an update or delete counts as a hint, not as a read; answers that another transaction is just inserting or updating are no observations."}),
"P02": dict(how=H + "Kinds, reservations, begins, epochs and waiting commits are free as well; waiting ones are decided by the resolver thread. A ring of three transactions over three storages is run with every mixture of kinds. Scans left early, bounded ranges, reverse scans and lookups are combined in a write skew with symbolic keys.",
    cost=S % "130", **{"not": "As P01; in addition a long transaction's 'already exists' of insert and 'not found' of update and delete are judged against the newest contents."}),
"P03": dict(how="All committed states are recorded. Each answer of the reader narrows the set of states that explain everything it saw; the set must never become empty, no state younger than its snapshot may remain needed, and no call may be refused.",
    cost=S % "10", **{"not": "Reads before the snapshot epoch may answer 'premature', for at most two epochs."}),
"P04": dict(how="The contents before are recorded; after the abort or refusal every kind of transaction must read exactly those, all keys must be writable and insertable and the session usable.", cost=S % "15"),
"P05": dict(how="The writer puts one value into two places; a reader interrupted at any point must see both or none if it commits (read-only: always).", cost=S % "45"),
"P06": dict(how="The oracle is a map with an overlay of own writes; keys and values are symbolic bytes, prior contents include live, deleted and never written keys; every status and value is compared, then the contents after commit.", cost=S % "15"),
"P07": dict(how="The oracle filters and orders the map by the symbolic endpoints; delivered keys and values are compared one by one. Two scan modes, two directions, limits, own writes.",
    cost=S % "40", **{"not": "A read from a scan answering 'not found' delivers nothing; an open scan over records that are all gone may answer OK; index entries of gone records count against the limit."}),
"P08": dict(how="One transaction looks (a scan of any shape or a miss), another inserts or deletes and commits at any point; if the first commits, its look repeated at the commit must have been the same. Index nodes of two keys make splits reachable. The run with the collector is that of P01.",
    cost=S % "65", **{"not": "Limited scans that delivered nothing and scans that met a record being written are compared only for what they delivered."}),
"P09": dict(how="Reservations, writes to reserved and other storages, and ends of the long transaction are free; short transactions must be refused while a conflicting reservation is in force and never after.",
    cost=S % "10", **{"not": "A blind upsert of a short transaction does not conflict with a reservation that begins later."}),
"P10": dict(how="Inclusive and exclusive lists are free subsets of three storages; each read is compared with the membership test.", cost=S % "5"),
"P11": dict(how="Up to three older transactions end in any order and way; after each end the resolver runs; decided exactly when none it must wait for is left. With two waiting for different ones, each is decided when its own have ended. A preemptive run interrupts the request against the ends and the resolver.", cost=S % "60"),
"P12": dict(how="Counts calls of each callback and compares status, reason and durability position with what the transaction really did (read back); requests before active, repeated, waiting, refused; two resolver workers, preemptions. The session is asked for its next transaction, or left and entered, before, in and after the callback.",
    cost=S % "45", **{"not": "Operations other than commit, abort, begin and state calls on a transaction whose commit was requested are a caller error."}),
"P13": dict(how="The state is read after every step and must not move backwards nor contradict the known end; unknown handles are any 64-bit numbers. Another thread reads it while the transaction ends. Durable must not be reported before the log's durable epoch has reached the transaction's position.", cost=S % "60", **{"not": "A released handle's number may be given out again."}),
"P14": dict(how="The entries the log stand-in received are compared one by one with the final writes of the committed transactions, then replayed by a restart and compared with the contents before. Overwrites of one key by several sessions within one epoch must be replayed in their order. The blob references given with the last write of a key, and no others, must reach the log with it.",
    cost=S % "60", **{"not": "Writes of a long transaction already superseded when it commits may be left out, as may the delete of a key it created itself."}),
"P15": dict(how="Each transaction writes the same value in two places. At a free moment the durable part of the log is set aside (the crash); the engine is started from it. Exactly the transactions whose marker is within the durable epoch must be there, whole, and none without the one it read from; then a second life does the same.",
    cost=S % "60", **{"not": "How the log library makes an epoch durable on disk is assumed (see stand-ins)."}),
"P16": dict(how="Names, identifiers, options and records of the model are compared with the recovered database after a clean stop or crash. One run restores with two threads: the stand-in deals the entries to them in every way and the threads interrupt each other.", cost=S % "40"),
"P17": dict(how="The oracle keeps for each sequence the highest committed version; versions and values are any 64-bit numbers.", cost=S % "60",
    **{"not": "The same version used twice, and the largest version number, are excluded (documented as reserved for deletion)."}),
"P18": dict(how="A map from names to (identifier, payload, records) is the oracle; requested identifiers and unknown handles are any 64-bit numbers.", cost=S % "45",
    **{"not": "Reading, writing or reserving the engine's own storages is a caller error."}),
"P19": dict(how="Committed states are recorded as in P03 while writes, deletes and collector steps alternate freely; live objects are counted and must return to the same number; one of the background threads is interrupted anywhere while sessions come and go; a reader whose past an older transaction kept must go on seeing it after that one ended. Any use of released memory is a violation.",
    cost=S % "75", **{"not": "A bounded number of old versions may stay."}),
"P20": dict(how="The epoch, the log's epoch and the snapshots are observed after every step and, preempted, inside; the commit marker is compared with the epochs around the call.", cost=S % "60",
    **{"not": "Snapshots are compared once the earlier reader has read; of two unread ones the later may be older, by design."}),
"P21": dict(how="Pure functions over every 128-bit word: each setter against a reference of masks, comparison against (epoch, kind, number).", cost=S % "15"),
"P22": dict(how="Threads enter critical sections guarded by the real locks with preemption at every memory access; an occupancy counter must stay at one; copies taken without lock must equal a state that existed.", cost=S % "35"),
"P23": dict(how="A multiset is the oracle for every sequence and for concurrent use of the table; a thread that only looks must find every answer explained by a state the table had.", cost=S % "30"),
"P24": dict(how="Every sequence of enters and leaves against a set; then a second user of a session is compared with one of a fresh session.", cost=S % "40",
    **{"not": "While others enter and leave at the same time a session may be refused when all may be in use."}),
"P25": dict(how="Every call in every situation without a running transaction, every further begin in every phase, and further calls on a waiting commit; status compared with the documented one and the contents unchanged.", cost=S % "10"),
"P26": dict(how="Keys and values are symbolic bytes and lengths; stored, read, scanned by every kind of transaction.", cost=S % "20"),
"P27": dict(how="All declared codes are named and distinct; the record of the reason follows any sequence of changes; each kind of refusal is provoked after each other one.", cost=S % "30"),
"P28": dict(how="Up to four scans with a model position each; every call through every handle is compared.", cost=S % "35"),
"P29": dict(how="A first life is stopped with any of 13 things under way; the second must behave as a fresh one and objects alive after the stop must be as many as before.", cost=S % "55",
    **{"not": "Start with CREATE over an existing log directory does not remove it (the condition in the code looks inverted; left alone because the log library then decides)."}),
"P30": dict(how="The overlap, emptiness and membership tests are compared with their definition over symbolic endpoints (ranges of which one ends before the other begins must not overlap), then through whole transactions, whose looks are combined: single keys, ranges ended or left early, and the last record from the right.", cost=S % "25"),
"P31": dict(how="Any sequence and interleaving of registrations and notifications of any positions, called directly and by the log; a listener registered meanwhile must miss none.", cost=S % "20"),
"P32": dict(how="Pushes, start and stop under every schedule within the preemption bound; each task counts its runs.", cost=S % "20"),
"P33": dict(how="The printed characters are compared with the rule for every byte string; stream flags, fill and width compared before and after.", cost=S % "25"),
"P34": dict(how="Memory and liveness are checked on every path of every check; the runs here put calls together that the others do not: any three calls, lengths around the limits, diagnostics and lost commits interrupted anywhere while records are collected.", cost=S % "70",
    **{"not": "Advancing a closed scan handle, data definition beside data access on the same storage, and use of a token after leave are caller errors."}),
}
