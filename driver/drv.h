// The driver: interprets a scenario (objects, threads, fibers and their
// operations) against the real library and records the call/return events.
#pragma once
#include <chrono>
#include "../vrt/vrt.h"
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <map>

namespace drv {

struct Op { std::string name; int o = 0, a = 0, b = 0; };
struct FiberProg { int thread = -1; std::vector< Op > ops; };
struct ObjDecl { std::string kind; int a = 0, b = 0; };
struct Scenario {
    long id = 0;
    int threads = 1;
    std::vector< std::string > algos;
    std::vector< ObjDecl > objs;            // index 0 unused
    std::vector< FiberProg > fibers;        // index 0 unused
    std::vector< int > script;              // preferred order of fibers (scripted algorithm)
    vrt::Config cfg;
    bool sched_events = false;              // record awakened / pick_next
    int stackalloc = 0;
};
extern Scenario * S;

// ---- support, not instrumented (support.cpp)
void ev_call( int f, char const* op, int o, long a, long b, bool exact = true);  // exact: a deadline is known to the tick
std::chrono::steady_clock::time_point tp_of( long d);
std::chrono::system_clock::time_point sys_of( long d);
void ev_ret( int f, char const* res, long val, int hb);
void ev_beg( int f);
void ev_fin( int f);
void ev( char const* k, long a, long b, long c = 0);
void ctx_register( void const* ctx, int fid);
int  ctx_fid( void const* ctx);
void set_forking( int fid);                 // the fiber being created by this thread
int  get_forking();
long deadline_of( int dt);                  // absolute deadline in ticks, registered for time jumps

// a payload with life-cycle tracking
struct Val {
    std::uint32_t magic;
    int v;
    vrt::Stamp st;              // where the value was made
    vrt::Stamp w;               // last write to this object
    mutable vrt::Stamp r[8];    // last reads of this object
    Val();
    explicit Val( int v_);
    Val( Val const&);
    Val( Val &&) noexcept;
    Val & operator=( Val const&);
    Val & operator=( Val &&) noexcept;
    ~Val();
    void check() const;
    void rd() const;            // accesses have to be ordered by the code under test
    void wr( bool first = false);
    int hb() const;
};
extern bool in_setup;           // objects are made, no other thread runs yet
long val_live();
long val_bad();

// plain data whose protection is up to the code under test
struct Cell { int v = 0; vrt::Stamp w{ -1, 0 }; vrt::Stamp r[16]; };
// read-modify-write with schedule points inside; returns old value, hb=0 when unordered
int cell_inc( Cell &, int & hb);
int cell_read( Cell &, int & hb);
void cell_write( Cell &, int v, int & hb);

void stack_alloced( void *, std::size_t);
void stack_freed( void *);
long stacks_live();

// ---- objects
struct Obj {
    std::string kind;
    virtual ~Obj() {}
    // executes the op for fiber f; returns false when the op is not one of this object's
    virtual bool exec( int f, Op const& op) = 0;
};
using Factory = Obj * (*)( ObjDecl const&, int index);
void register_kind( char const* kind, Factory);
Obj * make_obj( ObjDecl const&, int index);
Obj * obj( int o);
bool exec_global( int f, Op const& op);     // ops which belong to no object
using GlobalOp = bool (*)( int f, Op const&);
void register_global( GlobalOp);

void run_ops( int f);                       // all the ops of fiber f
void fiber_body( int f);                    // beg, ops, fin
void thread_setup( int t);                  // install the algorithm of thread t
void execute();                             // one scenario, in a forked child
void before_fiber_end( int f);
struct Reg { Reg( char const* k, Factory f) { register_kind( k, f); } };
struct RegG { RegG( GlobalOp g) { register_global( g); } };
struct Lockable : public Obj {   // what a condition variable waits with
    std::vector< int > held = std::vector< int >( 64, 0);
    virtual void raw_lock() = 0;
    virtual void raw_unlock() = 0;
    void lock() { raw_lock(); }
    void unlock() { raw_unlock(); }
};
}
