// Scheduling algorithms of the driver and the operations on fibers.
#include "drv.h"
#include "algos.h"
#include <boost/fiber/all.hpp>
#include <boost/fiber/context.hpp>
#include <chrono>
#include <cstdlib>
#include <condition_variable>
#include <mutex>
#include <thread>

namespace fb = boost::fibers;
using steady = std::chrono::steady_clock;

namespace drv {

// ------------------------------------------------------------ fiber ids of contexts
static int id_of( fb::context * ctx) {
    if ( ! ctx) return 0;
    int f = ctx_fid( ctx);
    if ( f) return f;
    if ( ctx->is_context( fb::type::dispatcher_context)) { f = 100 + vrt::self(); ctx_register( ctx, f); return f; }
    f = get_forking();
    if ( f) ctx_register( ctx, f);
    return f;
}
static void ev_aw( fb::context * c) { if ( S->sched_events) ev( "aw", vrt::self(), id_of( c), id_of( fb::context::active())); else id_of( c); }
// begin of pick_next() and end of awakened(): algorithms that share their queues
static void ev_pb() { if ( S->sched_events) ev( "pb", vrt::self(), 0); }
static void ev_ae() { if ( S->sched_events) ev( "ae", vrt::self(), 0); }
static void ev_pk( fb::context * c) { if ( S->sched_events) ev( "pk", vrt::self(), c ? id_of( c) : 0, id_of( fb::context::active())); }
static void ev_su( steady::time_point const& tp) { if ( S->sched_events) ev( "su", vrt::self(), tp == (steady::time_point::max)() ? -1 : (long)( ( tp.time_since_epoch().count() - 1000000000ll) / 1000)); }
static void ev_sx() { if ( S->sched_events) ev( "sx", vrt::self(), 0); }

template< typename Base >
struct Logged : public Base {
    static constexpr bool shared = ! std::is_same< Base, fb::algo::round_robin >::value;
    template< typename ... A > Logged( A ... a) : Base( a ... ) {}
    void awakened( fb::context * c) noexcept override { ev_aw( c); Base::awakened( c); if ( shared) ev_ae(); }
    fb::context * pick_next() noexcept override { if ( shared) ev_pb(); fb::context * c = Base::pick_next(); ev_pk( c); return c; }
    void suspend_until( steady::time_point const& tp) noexcept override { ev_su( tp); Base::suspend_until( tp); ev_sx(); }
};

// Replay of a behaviour of the specification (one thread): a fiber parks before
// each of its calls; a call is started, in the given order, only when every
// other fiber is parked or blocked and due timeouts have been handled.
static bool parked[512];
static bool lockstep() { return ! S->script.empty(); }
static void park( int f) { parked[f] = true; fb::context::active()->yield(); parked[f] = false; }

// a scheduling algorithm that may choose any ready fiber
struct Chaos : public fb::algo::algorithm {
    std::vector< fb::context * > q; std::mutex m; std::condition_variable c; bool flag = false;
    std::size_t spos = 0; bool scripted; bool disp = false;
    std::size_t choose() {
        std::vector< std::size_t > c; std::size_t d = q.size();
        for ( std::size_t i = 0; i < q.size(); ++i) {
            if ( q[i]->is_context( fb::type::dispatcher_context)) d = i;
            else if ( ! parked[id_of( q[i])]) c.push_back( i);
        }
        if ( ! c.empty()) return c[vrt::rnd( (std::uint32_t)c.size())];
        if ( d < q.size() && ! disp) { disp = true; return d; }
        for ( ; spos < S->script.size(); ++spos) {
            for ( std::size_t i = 0; i < q.size(); ++i) if ( id_of( q[i]) == S->script[spos]) { disp = false; ++spos; return i; }
            // it is just parking, and will be there when the helper fiber runs
            if ( parked[S->script[spos]] && d < q.size()) return d;
        }
        disp = false;
        return vrt::rnd( (std::uint32_t)q.size());
    }
    explicit Chaos( bool s) : scripted{ s } { q.reserve( 64); }
    void awakened( fb::context * ctx) noexcept override { ev_aw( ctx); q.push_back( ctx); }
    fb::context * pick_next() noexcept override {
        fb::context * r = nullptr;
        if ( ! q.empty()) {
            std::size_t k = scripted && lockstep() ? choose() : vrt::rnd( (std::uint32_t)q.size());
            r = q[k]; q.erase( q.begin() + k);
        }
        ev_pk( r);
        return r;
    }
    bool has_ready_fibers() const noexcept override { return ! q.empty(); }
    void suspend_until( steady::time_point const& tp) noexcept override {
        ev_su( tp);
        std::unique_lock< std::mutex > lk( m);
        if ( tp == (steady::time_point::max)()) c.wait( lk, [this]{ return flag; });
        else c.wait_until( lk, tp, [this]{ return flag; });
        flag = false;
        lk.unlock();
        ev_sx();
    }
    void notify() noexcept override { std::unique_lock< std::mutex > lk( m); flag = true; lk.unlock(); c.notify_all(); }
};

// priority scheduling through fiber properties
struct Prio : public fb::fiber_properties {
    int p = 0; int fid = 0;
    explicit Prio( fb::context * c) : fb::fiber_properties{ c } { props_add( 1); }
    ~Prio() { props_add( -1); }
    void set( int v) { p = v; notify(); }
};
struct PrioAlgo : public fb::algo::algorithm_with_properties< Prio > {
    std::vector< fb::context * > q; std::mutex m; std::condition_variable c; bool flag = false;
    PrioAlgo() { q.reserve( 64); }
    void awakened( fb::context * ctx, Prio & p) noexcept override {
        ev_aw( ctx); p.fid = id_of( ctx);
        if ( S->sched_events) ev( "awp", vrt::self(), id_of( ctx), p.p);
        q.push_back( ctx); ctx->ready_link( rq);
    }
    fb::context * pick_next() noexcept override {
        fb::context * r = nullptr;
        if ( ! q.empty()) {
            std::size_t k = 0;
            // highest priority first; the helper fiber comes last
            for ( std::size_t i = 1; i < q.size(); ++i) {
                int a = q[i]->is_context( fb::type::dispatcher_context) ? -1000 : properties( q[i]).p;
                int b = q[k]->is_context( fb::type::dispatcher_context) ? -1000 : properties( q[k]).p;
                if ( a > b) k = i;
            }
            if ( vrt::rnd( 5) == 0) k = vrt::rnd( (std::uint32_t)q.size());
            r = q[k]; q.erase( q.begin() + k); r->ready_unlink();
        }
        ev_pk( r);
        return r;
    }
    bool has_ready_fibers() const noexcept override { return ! q.empty(); }
    void property_change( fb::context * ctx, Prio & p) noexcept override {
        bool in = false; for ( auto x : q) if ( x == ctx) in = true;
        ev( "pch", p.fid, p.p, in ? 1 : 0);
    }
    void suspend_until( steady::time_point const& tp) noexcept override {
        ev_su( tp);
        std::unique_lock< std::mutex > lk( m);
        if ( tp == (steady::time_point::max)()) c.wait( lk, [this]{ return flag; });
        else c.wait_until( lk, tp, [this]{ return flag; });
        flag = false;
        lk.unlock();
        ev_sx();
    }
    void notify() noexcept override { std::unique_lock< std::mutex > lk( m); flag = true; lk.unlock(); c.notify_all(); }
    fb::scheduler::ready_queue_type rq{};
};

static fb::algo::algorithm::ptr_t make_algo( std::string const& a) {
    std::uint32_t n = (std::uint32_t)S->threads;
    if ( a == "rr") return new Logged< fb::algo::round_robin >();
    if ( a == "chaos") return new Chaos( false);
    if ( a == "script") return new Chaos( true);
    if ( a == "prio") return new PrioAlgo();
    if ( a == "ws") return new Logged< fb::algo::work_stealing >( n, true);
    if ( a == "wsn") return new Logged< fb::algo::work_stealing >( n, false);
    if ( a == "sw") return new Logged< fb::algo::shared_work >( true);
    if ( a == "swn") return new Logged< fb::algo::shared_work >( false);
    return nullptr;
}
void thread_setup( int t) {
    std::string a = t < (int)S->algos.size() ? S->algos[t] : "rr";
    fb::algo::algorithm::ptr_t p = make_algo( a);
    if ( p) fb::initialize_thread( p, fb::make_stack_allocator_wrapper< arena_stack >());
    ctx_register( fb::context::active(), t + 1);
}
// A thread which shares its fibers with others (work stealing, work sharing) must
// outlive them all: its main fiber waits until every fiber has ended.
static fb::mutex * gm = nullptr; static fb::condition_variable * gcv = nullptr; static int ndone = 0, nall = 0;
void gate_setup() {
    bool mig = false; for ( auto const& a : S->algos) if ( a[0] == 's' && a[1] == 'w') mig = true; else if ( a[0] == 'w') mig = true;
    if ( ! mig) return;
    gm = new fb::mutex(); gcv = new fb::condition_variable(); nall = (int)S->fibers.size() - 1; ndone = 0;
}
void gate_done() {
    if ( ! gm) return;
    std::unique_lock< fb::mutex > lk( *gm);
    if ( ++ndone == nall) gcv->notify_all();
}
static void gate_wait() {
    if ( ! gm) return;
    std::unique_lock< fb::mutex > lk( *gm);
    gcv->wait( lk, []{ return ndone == nall; });
}
void gate_teardown() { delete gcv; delete gm; gcv = nullptr; gm = nullptr; }
void thread_leave( int t) { gate_wait(); if ( S->sched_events) ev( "lv", t, t + 1); }

// ------------------------------------------------------------ fibers
static std::vector< fb::fiber > * fibs = nullptr;
static std::vector< vrt::Stamp > * finst = nullptr;
static std::vector< fb::fiber > & fibers() {
    if ( ! fibs) { fibs = new std::vector< fb::fiber >( S->fibers.size() + 1); finst = new std::vector< vrt::Stamp >( S->fibers.size() + 1, vrt::Stamp{ -1, 0 }); }
    return *fibs;
}
struct Body {   // carries a tracked argument into the fiber
    int g; std::unique_ptr< Val > v;
    vrt::Stamp forked;
    void operator()( Val const& a) {
        int hb = vrt::ordered( forked) && a.hb() ? 1 : 0;
        if ( a.v != g || v->v != g + 1000 || ! hb) vrt::fault( "badarg");
        fiber_body( g);
    }
};
void life_setup() { fibers(); }
void before_fiber_end( int f) { fibers(); if ( f < (int)finst->size()) (*finst)[f] = vrt::stamp(); }
void life_teardown() { if ( fibs) { for ( auto & f : *fibs) if ( f.joinable()) f.detach(); delete fibs; delete finst; fibs = nullptr; } }

static char const* fiber_err( fb::fiber_error const& e) {
    if ( e.code() == std::errc::resource_deadlock_would_occur) return "deadlk";
    if ( e.code() == std::errc::invalid_argument) return "inval";
    if ( e.code() == std::errc::operation_not_permitted) return "eperm";
    return "err";
}
static bool life_op( int f, Op const& op) {
    std::string const& n = op.name;
    if ( n == "fork") { // fork g policy ; b: with properties
        int g = op.o; auto & fv = fibers();
        ev_call( f, "fork", g, op.a, op.b);
        int prev = get_forking(); set_forking( g);
        fb::launch pol = op.a ? fb::launch::dispatch : fb::launch::post;
        std::unique_ptr< Val > v( new Val( g + 1000));
        Val a( g);
        if ( op.b) {
            auto * p = new Prio( nullptr); p->p = op.b;
            fv[g] = fb::fiber( pol, static_cast< fb::fiber_properties * >( p), std::allocator_arg, arena_stack(), Body{ g, std::move( v), vrt::stamp() }, a);
        } else
            fv[g] = fb::fiber( pol, std::allocator_arg, arena_stack(), Body{ g, std::move( v), vrt::stamp() }, a);
        set_forking( prev);
        ev_ret( f, "ok", 0, 1);
        return true;
    }
    if ( n == "join") {
        int g = op.o; auto & fv = fibers();
        ev_call( f, "join", g, 0, 0);
        char const* res = "ok"; int hb = 1;
        try { fv[g].join(); hb = vrt::ordered( (*finst)[g]) ? 1 : 0; } catch ( fb::fiber_error const& e) { res = fiber_err( e); }
        ev_ret( f, res, fv[g].joinable() ? 1 : 0, hb);
        return true;
    }
    if ( n == "detach") {
        int g = op.o; auto & fv = fibers();
        ev_call( f, "detach", g, 0, 0);
        char const* res = "ok";
        try { fv[g].detach(); } catch ( fb::fiber_error const& e) { res = fiber_err( e); }
        ev_ret( f, res, fv[g].joinable() ? 1 : 0, 1);
        return true;
    }
    if ( n == "move") { // move-construct, swap and move-assign the handle: it stays the same fiber
        int g = op.o; auto & fv = fibers();
        ev_call( f, "move", g, 0, 0);
        auto id = fv[g].get_id();
        fb::fiber x( std::move( fv[g]));
        bool ok = ! fv[g].joinable() && x.get_id() == id && fv[g].get_id() == fb::fiber::id();
        fb::fiber y; y.swap( x); ok = ok && y.get_id() == id && ! x.joinable();
        fv[g] = std::move( y);
        ok = ok && ! y.joinable() && fv[g].get_id() == id;
        ev_ret( f, ok ? "ok" : "bad", fv[g].joinable() ? 1 : 0, 1);
        return true;
    }
    if ( n == "joinable") {
        int g = op.o; auto & fv = fibers();
        ev_call( f, "joinable", g, 0, 0);
        ev_ret( f, "ok", fv[g].joinable() ? 1 : 0, 1);
        return true;
    }
    if ( n == "myid") { // the id of this fiber is the one its handle reports, and unlike all others
        ev_call( f, "myid", f, 0, 0);
        auto id = boost::this_fiber::get_id();
        auto & fv = fibers();
        bool ok = id != fb::fiber::id();
        if ( fv[f].joinable()) ok = ok && fv[f].get_id() == id;
        for ( int g = 1; g < (int)fv.size(); ++g) if ( g != f && fv[g].joinable() && fv[g].get_id() == id) ok = false;
        ev_ret( f, ok ? "ok" : "bad", 0, 1);
        return true;
    }
    if ( n == "yield") {
        ev_call( f, "yield", 0, 0, 0);
        boost::this_fiber::yield();
        ev_ret( f, "ok", 0, 1);
        return true;
    }
    if ( n == "sleep") { // sleep dt variant
        int dt = op.o;
        long d = deadline_of( dt);
        ev_call( f, "sleep", 0, d, 0, op.a != 1 && op.a != 2);
        if ( op.a == 1) boost::this_fiber::sleep_for( std::chrono::microseconds( dt));
        else if ( op.a == 2) boost::this_fiber::sleep_until( sys_of( d));
        else boost::this_fiber::sleep_until( steady::time_point( std::chrono::nanoseconds( 1000000000ll + d * 1000ll)));
        ev_ret( f, "ok", 0, 1);
        return true;
    }
    if ( n == "park") { park( f); return true; }
    if ( n == "work") { for ( int i = 0; i < op.o; ++i) vrt::point(); return true; }
    if ( n == "meet") { vrt::meet( op.o); return true; }
    if ( n == "pass") { vrt::advance_ticks( op.o); return true; }  // time passes while the fiber runs
    if ( n == "swalgo") { // replace the scheduling algorithm of this thread
        ev_call( f, "swalgo", 0, 0, 0);
        if ( S->sched_events) ev( "sa", vrt::self(), op.o);
        if ( op.o == 0) fb::use_scheduling_algorithm< Logged< fb::algo::round_robin > >();
        else if ( op.o == 2) fb::use_scheduling_algorithm< PrioAlgo >();
        else fb::use_scheduling_algorithm< Chaos >( false);
        if ( S->sched_events) ev( "sz", vrt::self(), 0);
        ev_ret( f, "ok", 0, 1);
        return true;
    }
    if ( n == "setprio") { // change the property of the calling fiber or of a fiber with a handle
        int g = op.o; auto & fv = fibers();
        if ( g != f && ! fv[g].joinable()) return true;
        // might yield
        Prio & pr = g == f ? boost::this_fiber::properties< Prio >() : fv[g].properties< Prio >();
        ev_call( f, "setprio", g, op.a, 0);
        pr.set( op.a);
        ev_ret( f, "ok", 0, 1);
        return true;
    }
    if ( n == "getprio") {
        ev_call( f, "getprio", f, 0, 0);
        int v = boost::this_fiber::properties< Prio >().p;
        ev_ret( f, "ok", v, 1);
        return true;
    }
    if ( n == "hasready") {
        ev_call( f, "hasready", 0, 0, 0);
        bool b = fb::has_ready_fibers();
        ev_ret( f, "ok", b ? 1 : 0, 1);
        return true;
    }
    return false;
}
static RegG rg( life_op);
}
