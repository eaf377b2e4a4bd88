// Helpers shared by the harnesses that drive the whole engine through its public interface.
#pragma once
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include "shirakami/interface.h"
#include "sx.h"

namespace hx {
using namespace shirakami;
using tt = transaction_options::transaction_type;

inline database_options db_options(database_options::open_mode m = database_options::open_mode::CREATE) {
    std::filesystem::path p{std::string("/sx/log")};
    database_options o(m);
    o.set_log_directory_path(p);
    o.set_epoch_time(1);
    o.set_waiting_resolver_threads(1);
#ifdef SX_ISCAN
    o.set_iterator_based_scan(true);
#endif
    return o;
}
inline void open_db() {
    sx_assert(init(db_options()) == Status::OK, "init succeeds");
    sx_tick();
    sx_tick();
}
inline Storage make_storage(const char* name = "s") {
    Storage st{};
    sx_assert(create_storage(name, st) == Status::OK, "create_storage succeeds");
    return st;
}
inline Token open_session() {
    Token t{};
    sx_assert(enter(t) == Status::OK, "enter succeeds");
    return t;
}
inline void begin_short(Token t) { sx_assert(tx_begin({t, tt::SHORT}) == Status::OK, "begin of a short transaction"); }
// long transactions become active with the next epoch
inline void begin_long(Token t, std::vector<Storage> wp, bool wait = true) {
    sx_assert(tx_begin({t, tt::LONG, std::move(wp)}) == Status::OK, "begin of a long transaction");
    if (wait) { sx_tick(); }
}
inline void begin_ro(Token t, bool wait = true) {
    sx_assert(tx_begin({t, tt::READ_ONLY}) == Status::OK, "begin of a read-only transaction");
    if (wait) { sx_tick(); sx_tick(); }
}
inline void must_commit(Token t, const char* msg = "commit without concurrency succeeds") {
    auto rc = commit(t);
    sx_assert(rc == Status::OK, msg);
}
// one committed upsert in its own short transaction
inline void put1(Token t, Storage st, std::string_view k, std::string_view v) {
    begin_short(t);
    sx_assert(upsert(t, st, k, v) == Status::OK, "upsert succeeds");
    must_commit(t);
}
inline void del1(Token t, Storage st, std::string_view k) {
    begin_short(t);
    sx_assert(delete_record(t, st, k) == Status::OK, "delete succeeds");
    must_commit(t);
}
inline void no_log_errors() {
    if (sx_log_errors != 0) { sx_note(sx_log_error_file, static_cast<std::uint64_t>(sx_log_error_line)); }
    sx_assert(sx_log_errors == 0, "no internal error was logged");
}
} // namespace hx
