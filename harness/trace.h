// Hooks on every access the library makes to its shared mappings (and on pread/pwrite), present when the
// library sources are compiled with -fsanitize=thread and linked with h_trace.cpp instead of the sanitizer.
#pragma once
#include <cstddef>
enum { TR_READ = 1, TR_WRITE = 2 };
typedef void (*TraceHook)(int kind);
extern thread_local TraceHook g_hook;   // called before the access
extern "C" bool g_traced;               // the library is instrumented
void trace_refresh(const char* dir);    // learn which mappings belong to files below dir
