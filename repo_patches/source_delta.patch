From 3d988c1647e1b84cac42ba9a6197466032b88b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:10 +0000
Subject: [PATCH 01/39] fix: do not touch an erased write set entry when a
 delete cancels an upsert

After erasing the entry from the write set of a long transaction the
record pointer was read from the freed entry. Use the copy taken before.
---
 src/concurrency_control/interface/delete.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..04dd03f 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -83,7 +83,7 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         if (!rc) {
             // if this was update
             ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+            register_read_if_ltx(ti, rec_ptr);
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
-- 
2.43.0


From 053703750e3274bf61e0e14b52db0eae18206116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:41 +0000
Subject: [PATCH 02/39] fix: release the reservation table lock when
 registering or removing fails

register_wp without a free slot and remove_wp of an unknown id returned
with the table locked, so every later access to the table blocked.
---
 src/concurrency_control/include/wp_meta.h | 4 +++-
 src/concurrency_control/wp_meta.cpp       | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/include/wp_meta.h b/src/concurrency_control/include/wp_meta.h
index 4b2cf0b..0ddded8 100644
--- a/src/concurrency_control/include/wp_meta.h
+++ b/src/concurrency_control/include/wp_meta.h
@@ -117,7 +117,9 @@ public:
      */
     [[nodiscard]] Status remove_wp(std::size_t const id) {
         wp_lock_.lock();
-        return remove_wp_without_lock(id);
+        auto rc = remove_wp_without_lock(id);
+        if (rc != Status::OK) { wp_lock_.unlock(); }
+        return rc;
     }
 
     void set_wped(std::size_t const pos, wped_elem_type const val) {
diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 682fb09..65efd0c 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -129,7 +129,10 @@ std::size_t wp_meta::find_min_id(const wp_meta::wped_type& wped) {
 Status wp_meta::register_wp(epoch::epoch_t ep, std::size_t id) {
     wp_lock_.lock();
     std::size_t slot{};
-    if (Status::OK != find_slot(slot)) { return Status::ERR_CC; }
+    if (Status::OK != find_slot(slot)) {
+        wp_lock_.unlock();
+        return Status::ERR_CC;
+    }
     wped_used_.set(slot);
     set_wped(slot, {ep, id});
     wp_lock_.unlock();
-- 
2.43.0


From b9321f356a3fa53ca9f8d37b0870d4a775c9d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:53 +0000
Subject: [PATCH 03/39] fix: forget the recorded write range together with its
 reservation

The range was only dropped when removing the reservation failed, so the
table kept one range for every finished long transaction.
---
 src/concurrency_control/wp_meta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 65efd0c..6624469 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -147,11 +147,11 @@ wp_meta::register_wp_result_and_remove_wp(wp_result_elem_type const& elem) {
     }
     wp_lock_.lock();
     auto ret = remove_wp_without_lock(wp_result_elem_extract_id(elem));
-    if (ret == Status::OK) { return ret; }
-    wp_lock_.unlock();
+    if (ret != Status::OK) { wp_lock_.unlock(); }
 
-    // clear wp write range info
-    remove_write_range(std::get<1>(elem));
+    // clear wp write range info, it exists only if the tx reached commit
+    std::lock_guard<std::shared_mutex> lk{get_mtx_write_range()};
+    get_write_range().erase(wp_result_elem_extract_id(elem));
     return ret;
 }
 
-- 
2.43.0


From d5931b0b4f62a73a16a5b6d9eb3402d71d84aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:42 +0000
Subject: [PATCH 04/39] fix: print byte values in two digits whatever the
 stream's alignment and base settings

---
 include/shirakami/binary_printer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/shirakami/binary_printer.h b/include/shirakami/binary_printer.h
index c8597cf..aaecbe0 100644
--- a/include/shirakami/binary_printer.h
+++ b/include/shirakami/binary_printer.h
@@ -42,7 +42,8 @@ public:
                 out << c;
             } else {
                 out << std::string_view("\\x");
-                out << std::hex << std::setw(2) << std::setfill('0')
+                out << std::hex << std::noshowbase << std::right << std::setw(2)
+                    << std::setfill('0')
                     << static_cast<std::uint32_t>(
                                *(static_cast<std::uint8_t const*>(
                                          value.ptr_) + // NOLINT
-- 
2.43.0


From 1291647ba4a21913abbfaf42e37f1f0c23271226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:04 +0000
Subject: [PATCH 05/39] fix: find range reads of all later long transactions
 when a write is ordered before them

---
 src/concurrency_control/read_by.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..7ad472d 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -89,7 +89,7 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            if (ep <= std::get<range_read_by_long::index_epoch>(elem)) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +113,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From e49a9b9740c1f9803e296e875317487fff41b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:36 +0000
Subject: [PATCH 06/39] fix: let a scan start at the transaction's own write on
 a deleted record

---
 .../interface/scan/open_scan.cpp                   | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..3b05e69 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -100,15 +100,6 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             return Status::OK;
         }
 
-        // check read own write
-        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
-        if (inws != nullptr) {
-            if (inws->get_op() == OP_TYPE::INSERT ||
-                inws->get_op() == OP_TYPE::UPSERT) {
-                return Status::OK;
-            }
-        }
-
         /**
          * first version must be inserting page or deleted page
          */
@@ -146,6 +137,11 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             }
         }
     }
+    // check read own write
+    write_set_obj* inws = ti->get_write_set().search(rec_ptr);
+    if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
+        return Status::OK;
+    }
     return Status::INTERNAL_WARN_NOT_FOUND;
 }
 
-- 
2.43.0


From 7919644e95957474f885b01833383fca04a9ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:36 +0000
Subject: [PATCH 07/39] fix: verify the index nodes of skipped and own records
 of a scan

---
 .../interface/scan/next.cpp                   | 16 ++++++++-
 .../interface/scan/open_scan.cpp              | 36 +++++++++----------
 .../interface/scan/read_kv_from_scan.cpp      | 29 +++++++++------
 3 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..b6eeea7 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -57,7 +57,21 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
 
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
-        if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
+        if (rc == Status::INTERNAL_WARN_NOT_FOUND) {
+            // the node of the skipped record must be verified, too
+            if (ti->get_tx_type() ==
+                        transaction_options::transaction_type::SHORT &&
+                ti->get_node_set().emplace_back(
+                        {std::get<1>(*itr), std::get<2>(*itr)}) ==
+                        Status::ERR_CC) {
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(st);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                short_tx::abort(ti);
+                return Status::ERR_CC;
+            }
+            continue;
+        }
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 3b05e69..382f75b 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -356,33 +356,29 @@ static Status open_scan_body(
      */
     std::size_t nvec_delta{0};
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
-        if (scan_res.size() < nvec.size()) {
-            auto add_ns = [&ti, &nvec, storage](std::size_t n) {
-                for (std::size_t i = 0; i < n; ++i) {
-                    auto rc = ti->get_node_set().emplace_back(nvec.at(i));
-                    if (rc == Status::ERR_CC) {
-                        short_tx::abort(ti);
-                        std::unique_lock<std::mutex> lk{
-                                ti->get_mtx_result_info()};
-                        ti->get_result_info().set_storage_name(storage);
-                        ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-                        return Status::ERR_CC;
-                    }
+        auto add_ns = [&ti, &nvec, storage](std::size_t n) {
+            for (std::size_t i = 0; i < n; ++i) {
+                auto rc = ti->get_node_set().emplace_back(nvec.at(i));
+                if (rc == Status::ERR_CC) {
+                    short_tx::abort(ti);
+                    std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                    ti->get_result_info().set_storage_name(storage);
+                    ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                    return Status::ERR_CC;
                 }
-                return Status::OK;
-            };
+            }
+            return Status::OK;
+        };
+        if (scan_res.size() < nvec.size()) {
             if (scan_res.size() + 1 == nvec.size()) {
                 nvec_delta = 1;
-                rc = add_ns(1);
-                if (rc == Status::ERR_CC) { return rc; }
-
-
             } else if (scan_res.size() + 2 == nvec.size()) {
                 nvec_delta = 2;
-                rc = add_ns(2);
-                if (rc == Status::ERR_CC) { return rc; }
             }
         }
+        // include the nodes of the leading skipped records
+        rc = add_ns(nvec_delta + head_skip_rec_n);
+        if (rc == Status::ERR_CC) { return rc; }
     }
 
     // for hit, register left end point info as already read
diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..c1c3a29 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -89,6 +89,19 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         long_tx::update_local_read_range(ti, wp_meta_ptr, key_buf);
     }
 
+    // create node set info if stx, maybe phantom (Status::ERR_CC)
+    auto node_check_if_stx = [ti, st, &node_check] {
+        if (ti->get_tx_type() != transaction_options::transaction_type::SHORT ||
+            node_check() != Status::ERR_CC) {
+            return Status::OK;
+        }
+        std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+        ti->get_result_info().set_storage_name(st);
+        ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+        short_tx::abort(ti);
+        return Status::ERR_CC;
+    };
+
     /**
      * Check read-own-write
      */
@@ -97,6 +110,9 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         if (inws != nullptr) {
             if (inws->get_op() == OP_TYPE::DELETE) {
                 read_register_if_ltx(rec_ptr);
+                if (node_check_if_stx() == Status::ERR_CC) {
+                    return Status::ERR_CC;
+                }
                 return Status::WARN_NOT_FOUND;
             }
             if (key_read) {
@@ -107,7 +123,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
                 inws->get_value(buf);
             }
             read_register_if_ltx(rec_ptr);
-            return Status::OK;
+            return node_check_if_stx();
         }
     }
     // ==========
@@ -128,15 +144,8 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         // optimization: set for re-read
         ti->push_to_read_set_for_stx({st, rec_ptr, tidb});
 
-        // create node set info, maybe phantom (Status::ERR_CC)
-        auto rc = node_check();
-        if (rc == Status::ERR_CC) {
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_storage_name(st);
-            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-            short_tx::abort(ti);
-            return Status::ERR_CC;
-        } // else: return result about read (rr: read result)
+        if (node_check_if_stx() == Status::ERR_CC) { return Status::ERR_CC; }
+        // else: return result about read (rr: read result)
         return rr;
     }
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
-- 
2.43.0


From 705c9fc4306e1f2635f402458eae3e9e3b313edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:02 +0000
Subject: [PATCH 08/39] fix: order an insert over a deleted record after the
 deletion

---
 src/concurrency_control/interface/short_tx/termination.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..291a929 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -398,10 +398,8 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                         return Status::ERR_KVS;
                     }
                 }
-                // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                // check Record version to update, including deleted one
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
-- 
2.43.0


From 8cba313194e45ad89e004303776f8ff9abfe3590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:48 +0000
Subject: [PATCH 09/39] fix: cancel the inserted record when an insert is
 refused by phantom avoidance

---
 src/concurrency_control/interface/insert.cpp | 3 ++-
 src/concurrency_control/interface/upsert.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 719fc38..8e6a2f0 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -41,6 +41,8 @@ static inline Status insert_process(session* const ti, Storage st,
     yakushima::inserted_node_info ii{};
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // register it before node verify so that abort cancels the record, too
+        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -67,7 +69,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         out_rec_ptr = rec_ptr;
         return Status::OK;
     }
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..567589e 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -42,6 +42,8 @@ static inline Status insert_process(session* const ti, Storage st,
     // create tombstone
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // register it before node verify so that abort cancels the record, too
+        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -68,7 +70,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         return Status::OK;
     }
     // fail insert rec_ptr
-- 
2.43.0


From 3afaf0a5047b1b1914b61fe9ac4d81952e88a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:48 +0000
Subject: [PATCH 10/39] fix: verify write preserves of storages where a short
 transaction read only ranges or missing keys

---
 src/concurrency_control/include/session.h           |  8 +++++---
 .../interface/scan/open_scan.cpp                    |  2 +-
 .../interface/short_tx/search.cpp                   |  2 +-
 .../interface/short_tx/termination.cpp              | 13 ++++++++++++-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..7f319c2 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -7,6 +7,7 @@
 #include <array>
 #include <atomic>
 #include <mutex>
+#include <map>
 #include <set>
 
 #include "cpu.h"
@@ -37,7 +38,8 @@ namespace shirakami {
 
 class alignas(CACHE_LINE_SIZE) session {
 public:
-    using range_read_by_short_set_type = std::set<range_read_by_short*>;
+    using range_read_by_short_set_type =
+            std::map<Storage, range_read_by_short*>;
     using read_set_for_stx_type = std::vector<read_set_obj>;
     using wp_set_type = std::vector<std::pair<Storage, wp::wp_meta*>>;
     /**
@@ -441,11 +443,11 @@ public:
         get_range_read_by_short_set().clear();
     }
 
-    void push_to_range_read_by_short_set(range_read_by_short* rrbs) {
+    void push_to_range_read_by_short_set(Storage st, range_read_by_short* rrbs) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
-        get_range_read_by_short_set().insert(rrbs);
+        get_range_read_by_short_set().emplace(st, rrbs);
     }
 
     void clear_read_set_for_stx() {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 382f75b..77e677c 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -269,7 +269,7 @@ static Status open_scan_precheck(
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(storage, rrbs);
     } else if (ti->get_tx_type() !=
                transaction_options::transaction_type::READ_ONLY) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 04018d6..33829e3 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -63,7 +63,7 @@ Status search_key(session* ti, Storage const storage,
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(storage, rrbs);
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 291a929..77df8b4 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -266,6 +266,15 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         commit_tid = std::max(check, commit_tid);
     }
 
+    // range read may not read any records, so log accessed storage
+    {
+        std::shared_lock<std::shared_mutex> lk{
+                ti->get_mtx_range_read_by_short_set()};
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            accessed_st.emplace_back(itr.first);
+        }
+    }
+
     // wp verify
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
@@ -697,7 +706,9 @@ static void register_range_read_by_short(session* const ti) {
         //take read lock
         std::shared_lock<std::shared_mutex> lk{
                 ti->get_mtx_range_read_by_short_set()};
-        for (auto&& itr : ti->get_range_read_by_short_set()) { itr->push(ce); }
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            itr.second->push(ce);
+        }
     }
 }
 
-- 
2.43.0


From 62773c0ce417effaa850f4595d047b4650d4d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:28 +0000
Subject: [PATCH 11/39] fix: verify write preserves of storages a short
 transaction inserted into, updated or deleted from

---
 .../interface/short_tx/termination.cpp        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 77df8b4..e8067a0 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -275,6 +275,25 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         }
     }
 
+    // writes except upsert depend on existence of the record
+    {
+        auto process = [&accessed_st](write_set_obj& wso) {
+            if (wso.get_op() != OP_TYPE::UPSERT) {
+                accessed_st.emplace_back(wso.get_storage());
+            }
+        };
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        if (ti->get_write_set().get_for_batch()) {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+                process(itr.second);
+            }
+        } else {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+                process(itr);
+            }
+        }
+    }
+
     // wp verify
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
-- 
2.43.0


From 786a4c4d4a8b3f04e55ec003aec086404fd266e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:35 +0000
Subject: [PATCH 12/39] fix: take deleted records skipped by a scan into
 account as read by a long transaction

---
 .../interface/scan/next.cpp                   |  4 +++
 .../interface/scan/open_scan.cpp              | 29 +++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index b6eeea7..01eb610 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -238,6 +238,10 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
                     // there is a readable rec
                     return Status::OK;
                 }
+            } else if (ti->get_tx_type() ==
+                       transaction_options::transaction_type::LONG) {
+                // skipping deleted version is also reading the version
+                ti->set_read_version_max_epoch_if_need(tid.get_epoch());
             }
         }
     }
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 77e677c..bdf53f2 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -69,6 +69,12 @@ static Status fin_process(session* const ti, Status const this_result) {
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
     tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
+    // skipping deleted version is also reading the version
+    auto register_read_version_max_epoch = [ti](epoch::epoch_t ep) {
+        if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+            ti->set_read_version_max_epoch_if_need(ep);
+        }
+    };
     if (!tid.get_absent()) {
         // normal page.
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
@@ -85,7 +91,11 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                 ver = ver->get_next();
                 if (ver == nullptr) { break; }
                 if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                    if (ver->get_tid().get_absent()) { break; }
+                    if (ver->get_tid().get_absent()) {
+                        register_read_version_max_epoch(
+                                ver->get_tid().get_epoch());
+                        break;
+                    }
                     return Status::OK;
                 }
             }
@@ -103,12 +113,19 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
         /**
          * first version must be inserting page or deleted page
          */
+        if (tid.get_epoch() < ti->get_valid_epoch()) {
+            register_read_version_max_epoch(tid.get_epoch());
+        }
         version* ver = rec_ptr->get_latest();
         for (;;) {
             ver = ver->get_next();
             if (ver == nullptr) { break; }
             if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                if (ver->get_tid().get_absent()) { break; }
+                if (ver->get_tid().get_absent()) {
+                    register_read_version_max_epoch(
+                            ver->get_tid().get_epoch());
+                    break;
+                }
                 return Status::OK;
             }
         }
@@ -130,10 +147,16 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                     if (ver == nullptr) { break; }
                     if (ver->get_tid().get_epoch() <
                         ti->get_valid_epoch()) {
-                        if (ver->get_tid().get_absent()) { break; }
+                        if (ver->get_tid().get_absent()) {
+                            register_read_version_max_epoch(
+                                    ver->get_tid().get_epoch());
+                            break;
+                        }
                         return Status::OK;
                     }
                 }
+            } else {
+                register_read_version_max_epoch(tid.get_epoch());
             }
         }
     }
-- 
2.43.0


From f56932480617abbe63781e31e3102ef365535ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:51 +0000
Subject: [PATCH 13/39] fix: keep a deleted version deleted when a long
 transaction writes a newer one

---
 src/concurrency_control/interface/long_tx/termination.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..b8a107b 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -172,8 +172,7 @@ static inline void expose_local_write(
                     if (wso.get_op() != OP_TYPE::DELETE) { wso.get_value(vb); }
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
-                    // prepare tid for old version
-                    pre_tid.set_absent(false);
+                    // prepare tid for old version, it may be deleted version
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From 0aab17e986f6b940006b8ef5dcde137aafa2bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:01 +0000
Subject: [PATCH 14/39] fix: close the index iterator of a scan once and only
 for a valid handle

---
 src/concurrency_control/interface/scan/close_scan.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/close_scan.cpp b/src/concurrency_control/interface/scan/close_scan.cpp
index 569ae31..ce3dc8e 100644
--- a/src/concurrency_control/interface/scan/close_scan.cpp
+++ b/src/concurrency_control/interface/scan/close_scan.cpp
@@ -28,9 +28,8 @@ static Status close_scan_body(Token const token, ScanHandle const handle) { // N
 static Status close_scan_body_iscan(Token const token, ScanHandle const handle) { // NOLINT
     auto* ti = static_cast<session*>(token);
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
-    auto* sc = static_cast<scan_context*>(handle);
-    if (sc->get_ycontext_ref()) { yakushima::iscan_close(sc->get_ycontext_ref()); }
-    return ti->get_scan_handle().delete_scan_context(sc);
+    // the scan context closes its index iterator, handle may be invalid
+    return ti->get_scan_handle().delete_scan_context(static_cast<scan_context*>(handle));
 }
 
 Status close_scan(Token const token, ScanHandle const handle) { // NOLINT
-- 
2.43.0


From b237fbdc412c42139da9af0a935666d0664ff920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:23 +0000
Subject: [PATCH 15/39] fix: let scans of a long transaction find committed
 writers of its own epoch

---
 src/concurrency_control/interface/long_tx/helper.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..3b00a86 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -242,14 +242,8 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    // needed without wp too: ltx of the same epoch may be already committed
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From c7b9cd8dfdbe26e6568c86db295ad2435ba31d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:00 +0000
Subject: [PATCH 16/39] fix: keep a read area whose positive list is fully
 excluded from meaning no restriction

---
 src/concurrency_control/interface/long_tx/helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 3b00a86..c0b6fcf 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -60,6 +60,10 @@ static void preprocess_read_area(transaction_options::read_area& ra) {
                 }
             }
         }
+        // nothing is left to read, but empty list means no restriction
+        if (ra.get_positive_list().empty()) {
+            ra = transaction_options::read_area({storage::dummy_storage}, {});
+        }
     }
 }
 
-- 
2.43.0


From e5ca189a7efe6bac03dca0a9beb5542a4bc23333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:10:28 +0000
Subject: [PATCH 17/39] fix: keep the callback of a waiting commit when commit
 is requested again

---
 .../interface/termination.cpp                 | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..7a985dd 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -69,6 +69,20 @@ static Status commit_body(Token const token,                    // NOLINT
         return Status::WARN_NOT_BEGIN;
     }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested, and the callback of that request is still
+         * to be called. So keep it and refuse this request.
+         * User must use check_commit function to check result.
+         */
+        if (callback) {
+            callback(Status::WARN_ILLEGAL_OPERATION, {}, 0);
+            return Status::WARN_ILLEGAL_OPERATION;
+        }
+        return Status::WARN_WAITING_FOR_OTHER_TX;
+    }
+
     // log callback
     ti->set_commit_callback(std::move(callback)); // NOLINT
 
@@ -86,13 +100,6 @@ static Status commit_body(Token const token,                    // NOLINT
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
         // for long tx
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_WAITING_FOR_OTHER_TX;
-        }
         rc = long_tx::commit(ti);
 
         // set about diagnostics
-- 
2.43.0


From d2ac65b21ed4682f42bc65c94298eb64e5ed6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:15:07 +0000
Subject: [PATCH 18/39] fix: forget the commit callback before calling it

---
 src/concurrency_control/include/session.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 7f319c2..29e6539 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -108,11 +108,12 @@ public:
         // get callback
         auto cb = get_commit_callback();
 
+        // clear callback before the call, because the session may be used for
+        // the next transaction as soon as the callback was called
+        set_commit_callback({});
+
         // call callback if it can
         if (cb) { cb(sc, rc, dm); }
-
-        // clear callback
-        set_commit_callback({});
     }
 
     /**
-- 
2.43.0


From 5637b1520cb90dbbd407cd03de01d5b315d862f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:13 +0000
Subject: [PATCH 19/39] fix: report the end state of a transaction that ended
 before its epoch

---
 src/concurrency_control/transaction_state.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..23b0884 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -138,11 +138,7 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
             return Status::ERR_FATAL;
 #endif
         }
-    } else {
-        ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
-        out.set_kind(TxState::StateKind::WAITING_START); // for external
-    }
-
+    } // else : waiting start, or already ended before its epoch
 
     return Status::OK;
 }
-- 
2.43.0


From 8f43a8d6e7768cb338094eccfcfef03655f4b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:46 +0000
Subject: [PATCH 20/39] fix: do not touch a released transaction state from the
 background commit

---
 include/shirakami/transaction_state.h            | 16 ++++++++++++++++
 src/concurrency_control/include/session.h        |  9 +++++----
 .../interface/long_tx/termination.cpp            | 11 ++++-------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/shirakami/transaction_state.h b/include/shirakami/transaction_state.h
index d481604..d152191 100644
--- a/include/shirakami/transaction_state.h
+++ b/include/shirakami/transaction_state.h
@@ -155,6 +155,22 @@ public:
         handle_container_.insert(std::make_pair(hd, TxState()));
     }
 
+    /**
+     * @brief update the state which was acquired for the token.
+     * @details The handle may be released concurrently while the transaction
+     * is processed by background threads. Then this does nothing.
+     */
+    static void update_tx_state(TxStateHandle hd, Token token, StateKind kind,
+                                epoch_t durable_epoch = 0) {
+        std::lock_guard<std::shared_mutex> lk{mtx_hc_};
+        auto itr = handle_container_.find(hd);
+        if (itr != handle_container_.end() &&
+            itr->second.get_token() == token) {
+            itr->second.set_durable_epoch(durable_epoch);
+            itr->second.set_kind(kind);
+        }
+    }
+
     static std::atomic<TxStateHandle>& get_handle_ctr() { return handle_ctr_; }
 
     static handle_container_type& get_handle_container() {
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 29e6539..d52b537 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -549,11 +549,12 @@ public:
 
     void set_current_tx_state_ptr(TxState* ptr) { current_tx_state_ptr_ = ptr; }
 
-    void set_tx_state_if_valid(TxState::StateKind st) const {
+    void set_tx_state_if_valid(TxState::StateKind st,
+                               epoch::epoch_t durable_epoch = 0) {
         if (get_has_current_tx_state_handle()) {
-            if (get_current_tx_state_ptr()->state_kind() != st) {
-                get_current_tx_state_ptr()->set_kind(st);
-            }
+            TxState::update_tx_state(get_current_tx_state_handle(),
+                                     static_cast<Token>(this), st,
+                                     durable_epoch);
         }
     }
 
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index b8a107b..4511f11 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -649,16 +649,13 @@ Status check_wait_for_preceding_bt(session* const ti) {
 
 static void process_tx_state(session* ti,
                              [[maybe_unused]] epoch::epoch_t durable_epoch) {
-    if (ti->get_has_current_tx_state_handle()) {
 #ifdef PWAL
-        // this tx state is checked
-        ti->get_current_tx_state_ptr()->set_durable_epoch(durable_epoch);
-        ti->get_current_tx_state_ptr()->set_kind(
-                TxState::StateKind::WAITING_DURABLE);
+    // this tx state is checked
+    ti->set_tx_state_if_valid(TxState::StateKind::WAITING_DURABLE,
+                              durable_epoch);
 #else
-        ti->get_current_tx_state_ptr()->set_kind(TxState::StateKind::DURABLE);
+    ti->set_tx_state_if_valid(TxState::StateKind::DURABLE);
 #endif
-    }
 }
 
 static void update_read_area(session* const ti) {
-- 
2.43.0


From 2b245fe92dc2f2034f0e0739d23b4d6c51d30e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:46 +0000
Subject: [PATCH 21/39] fix: keep a record with a pending upsert from being
 collected

---
 src/concurrency_control/garbage.cpp          |  7 +++++++
 src/concurrency_control/interface/upsert.cpp | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index ccb7e6b..c5a136c 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -248,6 +248,13 @@ static inline Status unhooking_key(yakushima::Token ytk, Storage st, Record* rec
         absent_still_exists = true;
         return rc;
     }
+
+    if (rec_ptr->get_shared_tombstone_count() != 0) {
+        // some tx is going to write it
+        rec_ptr->get_tidw_ref().unlock();
+        absent_still_exists = true;
+        return Status::INTERNAL_WARN_CONCURRENT_INSERT;
+    }
     // ====================
 
     // unhook and register gc container
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 567589e..eb4ea31 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -135,8 +135,17 @@ static Status upsert_body(
                 return Status::OK;
             }
             if (rc == Status::WARN_ALREADY_EXISTS) {
+                // block gc even if others delete it before this tx commits
+                rec_ptr->get_tidw_ref().lock();
+                if (rec_ptr->get_tidw_ref().get_absent()) {
+                    // deleted by others
+                    rec_ptr->get_tidw_ref().unlock();
+                    continue;
+                }
+                ++rec_ptr->get_shared_tombstone_count();
+                rec_ptr->get_tidw_ref().unlock();
                 // prepare update
-                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, false, std::move(lobs)});
+                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 return Status::OK;
             }
             if (rc == Status::WARN_CONCURRENT_INSERT) { continue; } // else
-- 
2.43.0


From ced03bfef7aa53c0cb8261dde88637c446bcec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:05:20 +0000
Subject: [PATCH 22/39] fix: keep the newest version of a sequence last when
 its epoch is older

---
 src/concurrency_control/sequence.cpp | 10 +++-------
 src/concurrency_control/session.cpp  |  7 +++----
 src/include/sequence.h               |  2 +-
 3 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/concurrency_control/sequence.cpp b/src/concurrency_control/sequence.cpp
index ab3bc82..831c75e 100644
--- a/src/concurrency_control/sequence.cpp
+++ b/src/concurrency_control/sequence.cpp
@@ -187,7 +187,7 @@ sequence::sequence_map_find(SequenceId const id,
 }
 
 // for update sequence function
-Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
+Status sequence::sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                               SequenceId const id,
                                               SequenceVersion const version) {
     // check the sequence object whose id is the arguments of this function.
@@ -208,12 +208,8 @@ Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
     }
 
     if (std::get<0>(last_itr->second) < version) {
-        if (last_itr->first > epoch) {
-            // fix sequence map
-            auto erased_itr = found_id_itr->second.end();
-            erased_itr--;
-            found_id_itr->second.erase(erased_itr);
-        }
+        // the newest version must be the last entry, for recovery too
+        epoch = std::max(epoch, last_itr->first);
         return Status::OK;
     }
     return Status::WARN_ILLEGAL_OPERATION;
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index dba69d4..9f522f9 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -58,8 +58,8 @@ void session::commit_sequence(tid_word ctid) {
         SequenceVersion version = std::get<0>(itr->second);
         SequenceValue value = std::get<1>(itr->second);
         // check update sequence object
-        auto ret = sequence::sequence_map_find_and_verify(ctid.get_epoch(), id,
-                                                          version);
+        epoch::epoch_t epoch = ctid.get_epoch();
+        auto ret = sequence::sequence_map_find_and_verify(epoch, id, version);
         if (ret == Status::WARN_ILLEGAL_OPERATION ||
             ret == Status::WARN_NOT_FOUND) {
             // fail
@@ -87,12 +87,11 @@ void session::commit_sequence(tid_word ctid) {
         log_operation lo{log_operation::UPSERT};
         // log to local to reduce contention for locks
         log_recs.emplace_back(shirakami::lpwal::log_record(
-                lo, lpwal::write_version_type(ctid.get_epoch(), version),
+                lo, lpwal::write_version_type(epoch, version),
                 storage::sequence_storage, key, new_value, {}));
 #endif
 
         // update sequence object
-        auto epoch = ctid.get_epoch();
         ret = sequence::sequence_map_update(id, epoch, version, value);
         if (ret != Status::OK) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/include/sequence.h b/src/include/sequence.h
index 196a260..946dff4 100644
--- a/src/include/sequence.h
+++ b/src/include/sequence.h
@@ -55,7 +55,7 @@ public:
     sequence_map_find(SequenceId id,
                       std::tuple<SequenceVersion, SequenceValue>& out);
 
-    static Status sequence_map_find_and_verify(epoch::epoch_t epoch,
+    static Status sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                                SequenceId id,
                                                SequenceVersion version);
 
-- 
2.43.0


From 211d77b070fadfb50c3abcd0ac39a2c24e88e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:09:08 +0000
Subject: [PATCH 23/39] fix: refuse to delete the storages the engine keeps for
 itself

---
 src/concurrency_control/interface/storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 7858f2d..28027ef 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -135,6 +135,11 @@ Status create_storage(std::string_view key, Storage& storage,
 }
 
 static Status delete_storage_body(Storage const storage) {
+    if (storage == storage::meta_storage ||
+        storage == storage::sequence_storage) {
+        // not created by user
+        return Status::WARN_INVALID_HANDLE;
+    }
     std::lock_guard<std::shared_mutex> lk{storage::get_mtx_key_handle_map()};
     auto ret = storage::delete_storage(storage);
     if (ret != Status::OK) { return ret; }
-- 
2.43.0


From ed863d962d1125e0d8ecf504df444d5e3ccd2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:58 +0000
Subject: [PATCH 24/39] fix: order the log of a removed storage after its
 records and before those of a new one with its id

---
 src/concurrency_control/interface/storage.cpp | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 28027ef..50a501d 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -4,8 +4,10 @@
 
 #include <cstdlib>
 
+#include "clock.h"
 #include "storage.h"
 
+#include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/garbage.h"
 #include "concurrency_control/include/record.h"
 #include "concurrency_control/include/wp.h"
@@ -25,6 +27,11 @@
 
 namespace shirakami {
 
+#ifdef PWAL
+// epoch of the last log about removing storage, guarded by mtx_key_handle_map
+static epoch::epoch_t last_removed_epoch{0}; // NOLINT
+#endif
+
 static void write_storage_metadata(std::string_view key, Storage st,
                                    storage_option const& options) {
     Token s{};
@@ -83,14 +90,14 @@ static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Stora
     if (commit(s) == Status::OK) {
 #ifdef PWAL
         auto* ti = static_cast<session*>(s);
-        // reuse mrc_tid of previous commit to calculate the write-version
-        lpwal::write_version_type wv{ti->get_mrc_tid().get_epoch(), ti->get_mrc_tid().get_tid() | (1UL << 63)};  // NOLINT
-        // note: this write-version is calculated without reading any Records in this storage,
-        // so it may be smaller than that of concurrent transactions writing this storage.
+        // use the largest minor version because this doesn't read any Records
+        // in this storage, which may be written at the same epoch.
+        lpwal::write_version_type wv{ti->get_mrc_tid().get_epoch(), UINT64_MAX};
         {
             std::unique_lock<std::mutex> lk{ti->get_lpwal_handle().get_mtx_logs()};
             ti->get_lpwal_handle().push_log(lpwal::log_record(log_operation::REMOVE_STORAGE, wv, st, {}, {}, {}));
         }
+        last_removed_epoch = ti->get_mrc_tid().get_epoch();
 #endif
         leave(s);
         return;
@@ -112,6 +119,16 @@ static Status create_storage_body(std::string_view const key, Storage& storage,
     }
     // point (*1)
 
+#ifdef PWAL
+    if (options.id() != storage_id_undefined) {
+        // the id may be reused. records of the new storage must be newer than
+        // the log about removing the old one.
+        while (epoch::get_global_epoch() == last_removed_epoch) {
+            sleepUs(epoch::get_global_epoch_time_us());
+        }
+    }
+#endif
+
     ret = storage::create_storage(storage, options);
     if (ret != Status::OK) { return ret; }
     // success create_storage
-- 
2.43.0


From 398dad7cbeb5301feed8eae8e3f2e5def1f345d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:23 +0000
Subject: [PATCH 25/39] fix: do not record a refused abort as the reason of the
 end

---
 .../interface/termination.cpp                    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 7a985dd..4bbfbc2 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -17,6 +17,15 @@ static Status abort_body(Token token) { // NOLINT
     // check whether it already began.
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested.
+         * So user must use check_commit function to check result.
+         */
+        return Status::WARN_ILLEGAL_OPERATION;
+    }
+
     // set result info
     ti->set_result(reason_code::USER_ABORT);
 
@@ -25,13 +34,6 @@ static Status abort_body(Token token) { // NOLINT
         rc = short_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_ILLEGAL_OPERATION;
-        }
         rc = long_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::READ_ONLY) {
-- 
2.43.0


From d3057da526c920a4d8338299088ed4d9153aa16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:29 +0000
Subject: [PATCH 26/39] fix: reset the oldest possible write epoch at every
 start

---
 src/concurrency_control/interface/start_up.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/concurrency_control/interface/start_up.cpp b/src/concurrency_control/interface/start_up.cpp
index 25e093a..74ea871 100644
--- a/src/concurrency_control/interface/start_up.cpp
+++ b/src/concurrency_control/interface/start_up.cpp
@@ -198,6 +198,7 @@ static Status init_body(const database_options& options, [[maybe_unused]] void*
 #else
     epoch::set_global_epoch(epoch::initial_epoch);
     epoch::set_cc_safe_ss_epoch(epoch::initial_cc_safe_ss_epoch);
+    epoch::set_min_epoch_occ_potentially_write(0);
 #endif
 
     // about tx state
-- 
2.43.0


From a9a21a889c668835a1dd5010b82816aec4981b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:17 +0000
Subject: [PATCH 27/39] fix: forget the running transactions of the last life
 at start up

---
 src/concurrency_control/include/ongoing_tx.h   | 10 ++++++++++
 src/concurrency_control/interface/start_up.cpp |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/concurrency_control/include/ongoing_tx.h b/src/concurrency_control/include/ongoing_tx.h
index 83af7f1..827c57b 100644
--- a/src/concurrency_control/include/ongoing_tx.h
+++ b/src/concurrency_control/include/ongoing_tx.h
@@ -30,6 +30,16 @@ public:
     static constexpr std::size_t index_session = 2;
     using tx_info_type = std::vector<tx_info_elem_type>;
 
+    /**
+     * @brief forget all transactions.
+     * @details for start up. The transactions which remained at the last shut
+     * down must not affect the new one.
+     */
+    static void clear() {
+        std::lock_guard<std::shared_mutex> lk{mtx_};
+        tx_info_.clear();
+    }
+
     static bool exist_id(std::size_t id);
 
     /**
diff --git a/src/concurrency_control/interface/start_up.cpp b/src/concurrency_control/interface/start_up.cpp
index 74ea871..03cf7ef 100644
--- a/src/concurrency_control/interface/start_up.cpp
+++ b/src/concurrency_control/interface/start_up.cpp
@@ -206,6 +206,7 @@ static Status init_body(const database_options& options, [[maybe_unused]] void*
 
     // about cc
     session_table::init_session_table();
+    ongoing_tx::clear();
 
     // about index
     // pre condition : before wp::init() because wp::init() use yakushima function.
-- 
2.43.0


From f9c005246cbdbefb23052f6e63901d7f1f09e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:00 +0000
Subject: [PATCH 28/39] fix: notify the commits still waiting at shut down

---
 src/concurrency_control/bg_work/bg_commit.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/concurrency_control/bg_work/bg_commit.cpp b/src/concurrency_control/bg_work/bg_commit.cpp
index fb6c86d..469c821 100644
--- a/src/concurrency_control/bg_work/bg_commit.cpp
+++ b/src/concurrency_control/bg_work/bg_commit.cpp
@@ -41,6 +41,18 @@ void bg_commit::fin() {
     // cleanup workers
     workers().clear();
 
+    /**
+     * The transactions still waiting can not be decided any more. Abort them and
+     * notify it, because the commit callback must be called exactly once.
+     */
+    for (auto&& elem : cont_wait_tx()) {
+        auto* ti = static_cast<session*>(std::get<1>(elem));
+        ti->set_result(reason_code::USER_ABORT);
+        long_tx::abort(ti);
+        ti->set_result_requested_commit(Status::ERR_CC);
+        ti->call_commit_callback(Status::ERR_CC, reason_code::USER_ABORT, 0);
+    }
+
     /**
      * cleanup container because after next startup, manager thread will
      * misunderstand.
-- 
2.43.0


From 88b5b773f840b3940af57cd5b61073426b3d2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:49 +0000
Subject: [PATCH 29/39] fix: drop the transaction state handles of the last
 life at start up

---
 include/shirakami/transaction_state.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/shirakami/transaction_state.h b/include/shirakami/transaction_state.h
index d152191..8a2b3a2 100644
--- a/include/shirakami/transaction_state.h
+++ b/include/shirakami/transaction_state.h
@@ -148,6 +148,10 @@ public:
 
         // initialize reuse system for number of counter
         reuse_ctr_container_.clear();
+
+        // the handles acquired before are not valid any more
+        std::lock_guard<std::shared_mutex> lk{mtx_hc_};
+        handle_container_.clear();
     }
 
     static void insert_tx_state(TxStateHandle hd) {
-- 
2.43.0


From 76eb1a82edbce9ae6512bce0ce3f10d0db360bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:23:12 +0000
Subject: [PATCH 30/39] fix: remove the temporary log directory at shut down

---
 src/concurrency_control/interface/shut_down.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/shut_down.cpp b/src/concurrency_control/interface/shut_down.cpp
index 7b95edf..eb41611 100644
--- a/src/concurrency_control/interface/shut_down.cpp
+++ b/src/concurrency_control/interface/shut_down.cpp
@@ -100,10 +100,12 @@ static void fin_body([[maybe_unused]] bool force_shut_down_logging) try {
     VLOG(log_debug_timing_event) << log_location_prefix_timing_event << "shutdown:start_shutdown_datastore";
     datastore::get_datastore()->remove_persistent_callback();
     datastore::get_datastore()->shutdown().wait(); // this should after epoch::fin();
+    // this is cleared by releasing
+    const bool own_datastore{datastore::get_own_datastore()};
     datastore::release_datastore();
     VLOG(log_debug_timing_event) << log_location_prefix_timing_event << "shutdown:end_shutdown_datastore";
     // cleanup about limestone
-    if (datastore::get_own_datastore() && !lpwal::get_log_dir_pointed()) {
+    if (own_datastore && !lpwal::get_log_dir_pointed()) {
         // log dir was not pointed. So remove log dir
         VLOG(log_debug_timing_event) << log_location_prefix_timing_event << "shutdown:start_cleanup_logdir";
         lpwal::remove_under_log_dir();
-- 
2.43.0


From a7d194eddbdb51cf21ad1e00ec54b9eaf5c7f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:15 +0000
Subject: [PATCH 31/39] fix: do not collect records of transactions begun while
 the oldest one is searched

---
 src/concurrency_control/garbage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index c5a136c..cddb525 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -114,6 +114,9 @@ void work_manager() {
              */
             min_begin_epoch = before_loop;
         }
+        // The tx which began after above loop passed its session was missed.
+        // It may use the records which existed at before_loop.
+        min_begin_epoch = std::min(min_begin_epoch, before_loop);
         // NB. The calculation method used in the code above has a potential concurrency flaws,
         // as it can miss recently begun transactions,
         // which can result in a smaller value than the previously calculated value of min_begin_epoch.
-- 
2.43.0


From 7482b195c408322f6399c25753dbd3f823028d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:03 +0000
Subject: [PATCH 32/39] fix: take the snapshot boundary of the collector before
 searching the running transactions

---
 src/concurrency_control/garbage.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index cddb525..c16a6bd 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -88,6 +88,9 @@ void work_manager() {
         epoch::epoch_t min_begin_epoch{epoch::max_epoch}; // for occ
         // computing about short
         epoch::epoch_t before_loop{epoch::get_global_epoch()};
+        // this must be before the loop because a tx which the loop misses may
+        // read by the snapshot of this epoch.
+        auto csse = epoch::get_cc_safe_ss_epoch();
         epoch::epoch_t valid_epoch{0};
         for (auto&& se : session_table::get_session_table()) {
             if (se.get_visible() && se.get_tx_began()) {
@@ -131,10 +134,9 @@ void work_manager() {
         // computing about ltx
         if (valid_epoch != 0) {
             // exist some ltx
-            auto csse = epoch::get_cc_safe_ss_epoch();
             set_min_batch_epoch(std::min(csse, valid_epoch));
         } else {
-            set_min_batch_epoch(epoch::get_cc_safe_ss_epoch());
+            set_min_batch_epoch(csse);
         }
 #ifdef PWAL
         switch_available_boundary_version(shirakami::datastore::get_datastore(), std::min(get_min_begin_epoch(), get_min_batch_epoch()));
-- 
2.43.0


From 199786d0c396d6aa54bc5b0bdabd48c7dc2b0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:01 +0000
Subject: [PATCH 33/39] fix: begin the log session before a write becomes
 visible

---
 .../interface/short_tx/termination.cpp        | 100 +++++++++---------
 1 file changed, 51 insertions(+), 49 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index e8067a0..9453264 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -501,6 +501,57 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
                         << "\", value: \""
                         << binary_printer(wso_ptr->get_value_view()) << "\"";
         dirty.insert(wso_ptr->get_storage());
+#ifdef PWAL
+        // add log records to local wal buffer
+        // The log session must begin before the write becomes visible, otherwise
+        // a transaction which read it may become durable before this one.
+        std::string key{};
+        wso_ptr->get_rec_ptr()->get_key(key);
+        std::string val{};
+        wso_ptr->get_value(val);
+        log_operation lo{};
+        switch (wso_ptr->get_op()) {
+            case OP_TYPE::INSERT: {
+                lo = log_operation::INSERT;
+                break;
+            }
+            case OP_TYPE::UPDATE: {
+                lo = log_operation::UPDATE;
+                break;
+            }
+            case OP_TYPE::UPSERT: {
+                lo = log_operation::UPSERT;
+                break;
+            }
+            case OP_TYPE::DELETE: {
+                lo = log_operation::DELETE;
+                break;
+            }
+            default: {
+                LOG_FIRST_N(ERROR, 1)
+                        << log_location_prefix << "unknown operation type.";
+                return Status::ERR_FATAL;
+            }
+        }
+        lpwal::write_version_type::minor_write_version_type minor_version = 1;
+        if (wso_ptr->get_storage() == storage::sequence_storage) {
+            SequenceVersion version{};
+            memcpy(&version, val.data(), sizeof(version));
+            minor_version = version;
+        } else {
+            /**
+             * To be larger than LTX.
+             * Ltx's minor version is ltx id.
+             */
+            minor_version <<= 63; // NOLINT
+            minor_version |= update_tid.get_tid();
+        }
+        ti->get_lpwal_handle().push_log(shirakami::lpwal::log_record(
+                lo,
+                lpwal::write_version_type(update_tid.get_epoch(),
+                                          minor_version),
+                wso_ptr->get_storage(), key, val, wso_ptr->get_lobs()));
+#endif
         switch (wso_ptr->get_op()) {
             case OP_TYPE::UPSERT:
             case OP_TYPE::INSERT: {
@@ -600,55 +651,6 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
                 return Status::ERR_FATAL;
             }
         }
-#ifdef PWAL
-        // add log records to local wal buffer
-        std::string key{};
-        wso_ptr->get_rec_ptr()->get_key(key);
-        std::string val{};
-        wso_ptr->get_value(val);
-        log_operation lo{};
-        switch (wso_ptr->get_op()) {
-            case OP_TYPE::INSERT: {
-                lo = log_operation::INSERT;
-                break;
-            }
-            case OP_TYPE::UPDATE: {
-                lo = log_operation::UPDATE;
-                break;
-            }
-            case OP_TYPE::UPSERT: {
-                lo = log_operation::UPSERT;
-                break;
-            }
-            case OP_TYPE::DELETE: {
-                lo = log_operation::DELETE;
-                break;
-            }
-            default: {
-                LOG_FIRST_N(ERROR, 1)
-                        << log_location_prefix << "unknown operation type.";
-                return Status::ERR_FATAL;
-            }
-        }
-        lpwal::write_version_type::minor_write_version_type minor_version = 1;
-        if (wso_ptr->get_storage() == storage::sequence_storage) {
-            SequenceVersion version{};
-            memcpy(&version, val.data(), sizeof(version));
-            minor_version = version;
-        } else {
-            /**
-             * To be larger than LTX.
-             * Ltx's minor version is ltx id.
-             */
-            minor_version <<= 63; // NOLINT
-            minor_version |= update_tid.get_tid();
-        }
-        ti->get_lpwal_handle().push_log(shirakami::lpwal::log_record(
-                lo,
-                lpwal::write_version_type(update_tid.get_epoch(),
-                                          minor_version),
-                wso_ptr->get_storage(), key, val, wso_ptr->get_lobs()));
-#endif
         return Status::OK;
     };
 
-- 
2.43.0


From bd33eafd6903e467446982f4a1a3154f076e6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:44 +0000
Subject: [PATCH 34/39] fix: log the writes and the sequences of a transaction
 in one log session

---
 src/concurrency_control/include/session.h             |  1 +
 .../interface/long_tx/termination.cpp                 | 11 ++++++++---
 .../interface/short_tx/termination.cpp                | 11 ++++++++---
 src/concurrency_control/session.cpp                   |  2 --
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index d52b537..be6529c 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -171,6 +171,7 @@ public:
 
     /**
      * @brief commit process for sequence.
+     * @pre take mtx of logs of the lpwal handle if logging is enabled.
      */
     void commit_sequence(tid_word ctid);
 
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 4511f11..f583aab 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -303,9 +303,6 @@ static inline void expose_local_write(
     };
 
     {
-#ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
-#endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
         for (auto&& wso : ti->get_write_set().get_ref_cont_for_bt()) {
             std::string_view pkey_view =
@@ -798,6 +795,11 @@ extern Status commit(session* const ti) {
          * So it needs boolean.
          */
         std::map<Storage, std::tuple<std::string, std::string>> write_range;
+#ifdef PWAL
+        // the writes and the sequences of this tx must be in the same log
+        // session, otherwise only some of them may be durable
+        std::unique_lock<std::mutex> lk_logs{ti->get_lpwal_handle().get_mtx_logs()};
+#endif
         expose_local_write(ti, ctid, write_range);
 
         // log debug timing event
@@ -808,6 +810,9 @@ extern Status commit(session* const ti) {
         // sequence process
         // This must be after cc commit and before log process
         ti->commit_sequence(ctid);
+#ifdef PWAL
+        lk_logs.unlock();
+#endif
 
         // todo enhancement
         /**
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 9453264..3c218cf 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -655,9 +655,6 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
     };
 
     {
-#ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
-#endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
         if (ti->get_write_set().get_for_batch()) {
             for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
@@ -788,6 +785,11 @@ extern Status commit(session* const ti) {
 
     compute_commit_tid(ti, ce, commit_tid);
 
+#ifdef PWAL
+    // the writes and the sequences of this tx must be in the same log session,
+    // otherwise only some of them may be durable
+    std::unique_lock<std::mutex> lk_logs{ti->get_lpwal_handle().get_mtx_logs()};
+#endif
     // write phase
     rc = write_phase(ti, ce);
     if (rc != Status::OK) {
@@ -804,6 +806,9 @@ extern Status commit(session* const ti) {
     // sequence process
     // This must be after cc commit and before log process
     ti->commit_sequence(ti->get_mrc_tid());
+#ifdef PWAL
+    lk_logs.unlock();
+#endif
     ti->unlock_short_expose_ongoing_and_refresh_epoch();
 
     auto this_dm = epoch::get_global_epoch();
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index 9f522f9..8981e7e 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -102,8 +102,6 @@ void session::commit_sequence(tid_word ctid) {
 
 #ifdef PWAL
     // push log to pwal buffer
-    std::unique_lock<std::mutex> lk_for_pwal_buf{
-            get_lpwal_handle().get_mtx_logs()};
     for (auto& elem : log_recs) { get_lpwal_handle().push_log(elem); }
 #endif
 }
-- 
2.43.0


From 43f1aacf157eb5fcbe2462118e941995da28fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:25:59 +0000
Subject: [PATCH 35/39] fix: record the key a commit lost for before the abort
 releases it

---
 src/concurrency_control/interface/short_tx/termination.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 3c218cf..154b097 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -415,7 +415,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                     tid_word tid{rec_ptr->get_tidw_ref()};
                     if (tid.get_latest() && !tid.get_absent()) {
                         // the record is existing record (not inserting, deleted)
-                        abort_process();
+                        // the abort releases the write set and the record
                         std::unique_lock<std::mutex> lk{
                                 ti->get_mtx_result_info()};
                         ti->get_result_info().set_reason_code(
@@ -423,6 +423,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                         ti->get_result_info().set_key_storage_name(
                                 rec_ptr->get_key_view(),
                                 wso_ptr->get_storage());
+                        abort_process();
                         return Status::ERR_KVS;
                     }
                 }
@@ -456,7 +457,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
             commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
             ++num_locked;
             if (rec_ptr->get_tidw_ref().get_absent()) {
-                abort_process();
+                // the abort releases the write set and the record
                 if (wso_ptr->get_op() == OP_TYPE::UPDATE) {
                     ti->set_result(reason_code::KVS_UPDATE);
                 } else if (wso_ptr->get_op() == OP_TYPE::DELETE) {
@@ -465,6 +466,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_key_storage_name(
                         rec_ptr->get_key_view(), wso_ptr->get_storage());
+                abort_process();
                 return Status::ERR_KVS;
             }
         } else {
-- 
2.43.0


From dfcffd46a426b02080f16120b982af554a40a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:17:25 +0000
Subject: [PATCH 36/39] fix: keep a session to its waiting transaction until
 the commit took what belongs to it

---
 src/concurrency_control/bg_work/bg_commit.cpp |  1 -
 src/concurrency_control/include/session.h     | 18 +++++++---
 .../interface/long_tx/termination.cpp         | 34 +++++++++++++------
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/concurrency_control/bg_work/bg_commit.cpp b/src/concurrency_control/bg_work/bg_commit.cpp
index 469c821..8231591 100644
--- a/src/concurrency_control/bg_work/bg_commit.cpp
+++ b/src/concurrency_control/bg_work/bg_commit.cpp
@@ -167,7 +167,6 @@ void bg_commit::worker() {
             }
             goto REFIND; // NOLINT
         }                // termination was successed
-        ti->set_result_requested_commit(rc);
 
         // erase the tx from cont
         {
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index be6529c..78d7892 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -105,17 +105,23 @@ public:
      */
     void call_commit_callback(Status sc, reason_code rc,
                               durability_marker_type dm) {
-        // get callback
-        auto cb = get_commit_callback();
-
         // clear callback before the call, because the session may be used for
         // the next transaction as soon as the callback was called
-        set_commit_callback({});
+        auto cb = take_commit_callback();
 
         // call callback if it can
         if (cb) { cb(sc, rc, dm); }
     }
 
+    /**
+     * @brief get and clear the commit callback stored
+     */
+    commit_callback_type take_commit_callback() {
+        auto cb = get_commit_callback();
+        set_commit_callback({});
+        return cb;
+    }
+
     /**
      * @brief compare and swap for visible_.
      */
@@ -154,9 +160,11 @@ public:
     void clean_up() {
         clear_local_set(); // this should before (*1). use long tx id info.
         clear_about_long_tx_metadata(); // (*1)
-        clear_tx_property();
         clear_about_scan();
         clear_about_tx_state();
+        // this must be last, because after this the session may be used for
+        // the next transaction
+        clear_tx_property();
     }
 
     /**
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index f583aab..280f2a5 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -675,6 +675,17 @@ static void update_read_area(session* const ti) {
     read_plan::add_elem(ti->get_long_tx_id(), plist, nlist);
 }
 
+static void abort_and_notify(session* const ti, Status const rc) {
+    // take all of this before the abort, because after it the session may be
+    // used for the next transaction
+    auto cb = ti->take_commit_callback();
+    auto reason = ti->get_result_info().get_reason_code();
+    ti->set_result_requested_commit(rc);
+
+    long_tx::abort(ti);
+    if (cb) { cb(rc, reason, 0); }
+}
+
 extern Status commit(session* const ti) {
     // check premature
     if (epoch::get_global_epoch() < ti->get_valid_epoch()) {
@@ -729,9 +740,7 @@ extern Status commit(session* const ti) {
         // log debug timing event
         VLOG(log_debug_timing_event) << log_location_prefix_timing_event
                                      << "start_abort : " << str_tx_id;
-        long_tx::abort(ti);
-        ti->call_commit_callback(rc, ti->get_result_info().get_reason_code(),
-                                 0);
+        abort_and_notify(ti, rc);
         goto END_COMMIT; // NOLINT
     }
     if (rc != Status::OK) {
@@ -756,12 +765,10 @@ extern Status commit(session* const ti) {
         // log debug timing event
         VLOG(log_debug_timing_event) << log_location_prefix_timing_event
                                      << "start_abort : " << str_tx_id;
-        long_tx::abort(ti);
+        abort_and_notify(ti, rc);
         // log debug timing event
         VLOG(log_debug_timing_event) << log_location_prefix_timing_event
                                      << "end_abort : " << str_tx_id;
-        ti->call_commit_callback(rc, ti->get_result_info().get_reason_code(),
-                                 0);
     } else if (rc == Status::OK) {
         // This tx must success.
 
@@ -832,14 +839,18 @@ extern Status commit(session* const ti) {
         // about transaction state
         process_tx_state(ti, this_dm);
 
-        // clean up
-        cleanup_process(ti, true, write_range);
-
         // set transaction result
+        // this should before clean up, because after it the session may be
+        // used for the next transaction
         ti->set_result(reason_code::UNKNOWN);
+        ti->set_result_requested_commit(rc);
+        auto cb = ti->take_commit_callback();
+
+        // clean up
+        cleanup_process(ti, true, write_range);
 
         // call commit callback
-        ti->call_commit_callback(rc, {}, this_dm);
+        if (cb) { cb(rc, {}, this_dm); }
 
         // log debug timing event
         VLOG(log_debug_timing_event) << log_location_prefix_timing_event
@@ -879,6 +890,9 @@ Status check_commit(Token const token) { // NOLINT
     // check for requested commit.
     if (!ti->get_requested_commit()) { return Status::WARN_ILLEGAL_OPERATION; }
 
+    // the result is set before the clean up
+    if (ti->get_tx_began()) { return Status::WARN_WAITING_FOR_OTHER_TX; }
+
     auto rs = ti->get_result_requested_commit();
     if (rs == Status::WARN_WAITING_FOR_OTHER_TX) { return rs; }
     // the transaction was finished.
-- 
2.43.0


From 651bed912e18d20a1970d376a8eb2d8df67014b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:27:56 +0000
Subject: [PATCH 37/39] fix: let a recovery thread find a storage just
 registered by another one

---
 src/datastore/limestone/datastore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..5b135ea 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -140,7 +140,8 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
                 // not exist, so create.
                 auto ret = shirakami::storage::register_storage(st2,
                                                                 {id, payload});
-                if (ret != Status::OK) {
+                // other recovery thread may have registered it meanwhile
+                if (ret != Status::OK && ret != Status::WARN_ALREADY_EXISTS) {
                     /**
                      * This process was done because
                      * shirakami::storage::exist_storage(st2) said not exist,
-- 
2.43.0


From 4e23bed6efc4c9cd7dc9f9bc0edb68735047506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:35:18 +0000
Subject: [PATCH 38/39] fix: take the lock of the sequences in every recovery
 thread

---
 src/datastore/limestone/datastore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 5b135ea..05e42ee 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -171,6 +171,8 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            // other recovery thread may push, too
+            std::lock_guard<std::shared_mutex> lk{sequence::sequence_map_smtx()};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
-- 
2.43.0


From bf4db2ae55c2ffca0fea9ea9ecb2762d9947f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:29:14 +0000
Subject: [PATCH 39/39] fix: keep what a long transaction reads right to left
 in its read range

---
 .../interface/scan/open_scan.cpp                    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index bdf53f2..2279697 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -405,7 +405,11 @@ static Status open_scan_body(
     }
 
     // for hit, register left end point info as already read
-    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+    if (right_to_left) {
+        // it reads from the right end point, so register whole range
+        update_local_read_range_if_ltx();
+    } else if (ti->get_tx_type() ==
+               transaction_options::transaction_type::LONG) {
         long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
     }
 
@@ -536,8 +540,11 @@ static Status open_scan_body_iscan(
     }
 
     // for hit, register left end point info as already read
-    // XXX: broken in reverse scan, currentry reverse scan is used only in RTX
-    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+    if (right_to_left) {
+        // it reads from the right end point, so register whole range
+        update_local_read_range_if_ltx();
+    } else if (ti->get_tx_type() ==
+               transaction_options::transaction_type::LONG) {
         long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
     }
 
-- 
2.43.0

