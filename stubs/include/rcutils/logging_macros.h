#pragma once
inline void rcutils_stub_logf(const char *, const char *, ...) {}
#define RCUTILS_LOG_ERROR_NAMED(...) rcutils_stub_logf(__VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(...) rcutils_stub_logf(__VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(...) rcutils_stub_logf(__VA_ARGS__)
#define RCUTILS_LOG_DEBUG_NAMED(...) rcutils_stub_logf(__VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(...) rcutils_stub_logf(__VA_ARGS__)
