// Controlled-schedule runtime: managed threads of which exactly one runs at a time, a virtual
// clock, a step budget, an event log.  Implemented in vs.cpp, which is compiled without any
// sanitizer and hands the turn over with raw futexes, so that ThreadSanitizer sees no
// synchronisation in it.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace vs {
enum Kind { EXTERNAL = 0, SCHEDULER = 1 };
struct Ev { uint32_t kind; int32_t thr; int64_t a, b; int64_t t; };

void process_init();                       // once
void watchdog();                           // reports a case that blocks for good without using the processor
// ---- a case
void case_begin(const char* family, uint64_t seed, uint64_t step_budget);
void more_steps(uint64_t factor);   // this case may take longer before it counts as hanging
void case_end();
uint64_t hash_history(); uint64_t hash_schedule();
// ---- randomness of the scheduler (separate from the workload's)
uint64_t srand64();
// ---- managed threads
int  spawn(void (*fn)(void*), void* arg, Kind kind);   // from the main thread
void join_all();                           // main: run the others until all are done, join them
void wait_quiet();                         // main: run the others until nothing can happen any more
bool wait_quiet_or(bool (*pred)(void*), void* arg); // ... or the predicate holds (true)
void idle();                               // a scheduler thread had nothing to do
void busy();                               // a scheduler thread did something
void yield();                              // forced switch
bool managed();
int  self();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
// ---- virtual time (ns since the epoch)
int64_t now();
void set_now(int64_t t);
void add_deadline(int64_t t);              // wait_quiet advances the clock to every deadline
void time_jitter(uint32_t per_mille, int64_t max_ns);  // advance at random switch points
// ---- log
void log(uint32_t kind, int64_t a = 0, int64_t b = 0);
size_t log_size(); const Ev& log_at(size_t i);
extern const char* (*kind_name)(uint32_t kind);
// ---- verdicts
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// ---- statistics
struct Stats { uint64_t points, switches, forced, events, cases, advances, hot; };
Stats& stats();
size_t edges_hit(); size_t edges_total();
void aim_begin(); void aim_end(int percent = 60);
int64_t alloc_balance();
void mean_interval(int m);                 // of the current case
void set_strategy(int mean_interval);      // 0: derived from the seed
}
