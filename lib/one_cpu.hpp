// The library's global thread pool is created during static initialisation with one worker per processor. Harnesses that explore
// single-threaded behaviour run in forked processes, which would not inherit the workers: pretend that there is one processor.
#pragma once
extern "C" inline __attribute__((used, visibility("default"))) int get_nprocs(void) { return 1; }
namespace mc { inline int (*volatile keep_get_nprocs)(void) = &get_nprocs; }
