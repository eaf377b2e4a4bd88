// Stand-in for glog: log statements are compiled but produce nothing, so that the
// formatting of log lines is not executed. LOG(FATAL) ends the run as a failure.
#pragma once
#include <cmath>
#include <cstdio>
#include <ostream>
#include <sstream>
extern "C" void sx_log_error(const char* file, int line);
extern "C" [[noreturn]] void sx_log_fatal(const char* file, int line);
namespace google {
struct sx_void { void operator&(std::ostream&) {} };
inline void InitGoogleLogging(const char*) {}
} // namespace google
extern std::ostream* sx_null_stream;
#define SX_NOLOG true ? (void)0 : ::google::sx_void() & (*sx_null_stream)
#define SX_LOG_INFO SX_NOLOG
#define SX_LOG_WARNING SX_NOLOG
#define SX_LOG_ERROR (sx_log_error(__FILE__, __LINE__), true) ? (void)0 : ::google::sx_void() & (*sx_null_stream)
#define SX_LOG_FATAL (sx_log_fatal(__FILE__, __LINE__), true) ? (void)0 : ::google::sx_void() & (*sx_null_stream)
#define LOG(sev) SX_LOG_##sev
#define DLOG(sev) SX_NOLOG
#define LOG_IF(sev, c) SX_NOLOG
#define LOG_FIRST_N(sev, n) SX_LOG_##sev
#define LOG_EVERY_N(sev, n) SX_LOG_##sev
#define VLOG(n) SX_NOLOG
#define VLOG_IF(n, c) SX_NOLOG
#define VLOG_IS_ON(n) false
#define DVLOG(n) SX_NOLOG
#define CHECK(c) SX_NOLOG
#define FLAGS_stderrthreshold sx_dummy_flag
extern int sx_dummy_flag;
