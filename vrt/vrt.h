// vrt: a deterministic runtime for the code under test.
//
// The library and the drivers are compiled with -fsanitize=thread but linked
// against this file instead of libtsan: every atomic operation, and (with a
// configurable probability) every plain access, becomes a schedule point of a
// cooperative, seeded scheduler of real pthreads.  Pthread mutexes, condition
// variables, futexes, sched_yield/nanosleep, clocks and random_device are
// replaced by deterministic versions with virtual time.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>

namespace vrt {

struct Config {
    std::uint64_t seed = 1;
    int strategy = 0;           // 0 random, 1 PCT, 2 run-to-block (non-preemptive)
    double p_sync = 0.1;        // preemption probability at atomics / locks
    double p_plain = 0.0;       // preemption probability at plain accesses
    double p_time = 0.0;        // probability of a jump of virtual time at a sync point
    double p_spur = 0.0;        // probability of a spurious condvar wakeup at a sync point
    int pct_depth = 3;
    std::uint64_t pct_len = 2000;
    std::uint64_t max_steps = 400000;
    std::uint64_t tick_per_now = 200; // ns added by each clock read
    int max_threads = 8;
};

constexpr std::uint64_t NS_PER_TICK = 1000;

// shared event buffer, one line per event, survives a crash of the child
struct Buffer {
    std::uint32_t len;
    std::uint32_t overflow;
    std::uint32_t finished;     // 1: orderly end; 2: stuck; 3: fault
    std::uint64_t steps, switches, preemptions, timejumps;
    std::uint64_t digest;       // digest of the schedule
    char data[1];
};

void init( Config const&, Buffer *, std::size_t cap);   // in the child process
int spawn( std::function< void() >);    // before run(): new controlled thread
void wait_all_others( int id);          // thread id starts when all others have ended
void run();                             // controller: run all threads (thread 0 first) until done
int self();                             // id of the calling controlled thread, -1 otherwise
bool active();

void emit( char const* fmt, ...) __attribute__((format(printf,1,2)));
void fault( char const* kind) ;         // emits a fault event, ends the process
void on_stuck( void(*)());              // called before a stuck event is emitted

std::uint64_t now_ns();                 // current virtual time
std::int64_t now_ticks();
void add_deadline( std::int64_t ticks); // a time the scheduler may jump to
void advance_ticks( std::int64_t);      // explicit passage of time

std::uint64_t rnd();                    // deterministic choice for drivers/algorithms
std::uint32_t rnd( std::uint32_t n);
double rndf();

struct Stamp { int t; std::uint32_t c; };
Stamp stamp();                          // a point in the calling thread's past
bool ordered( Stamp);                   // does it happen before the present of the calling thread

void point();                           // explicit schedule point
void meet( int n);                      // n threads meet here; from then on switches are frequent
void no_preempt( int d);                // +1 / -1: suspend preemption of this thread

void * arena_alloc( std::size_t n, std::size_t align);
bool arena_free( void *);               // false: not a live block (a fault is raised)
std::size_t arena_live();               // number of live blocks
void crash_handlers();
}
