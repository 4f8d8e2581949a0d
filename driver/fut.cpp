// promises, futures, shared futures, packaged tasks, async
#include "drv.h"
#include "algos.h"
#include <boost/fiber/all.hpp>
#include <chrono>
namespace fb = boost::fibers;
using steady = std::chrono::steady_clock;
namespace drv {

struct Exc { Val v; explicit Exc( int x) : v( x) {} };
// what get() on a state did, as an event
struct Res { char const* res = "ok"; int v = 0; int hb = 1; };
template< typename Fn > static Res guarded( Fn fn) {
    Res r;
    try { fn( r); }
    catch ( Exc const& e) { r.res = "exc"; r.v = e.v.v; r.hb = e.v.hb(); }
    catch ( fb::broken_promise const& e) { r.res = e.code().value() == (int)fb::future_errc::broken_promise ? "broken" : "err"; }
    catch ( fb::future_already_retrieved const& e) { r.res = e.code().value() == (int)fb::future_errc::future_already_retrieved ? "retrieved" : "err"; }
    catch ( fb::promise_already_satisfied const& e) { r.res = e.code().value() == (int)fb::future_errc::promise_already_satisfied ? "satisfied" : "err"; }
    catch ( fb::future_uninitialized const& e) { r.res = e.code().value() == (int)fb::future_errc::no_state ? "nostate" : "err"; }
    catch ( fb::promise_uninitialized const& e) { r.res = e.code().value() == (int)fb::future_errc::no_state ? "nostate" : "err"; }
    catch ( fb::packaged_task_uninitialized const& e) { r.res = e.code().value() == (int)fb::future_errc::no_state ? "nostate" : "err"; }
    catch ( fb::future_error const&) { r.res = "err"; }
    return r;
}
template< typename T > struct Tr;
template<> struct Tr< Val > {
    static void set( fb::promise< Val > & p, int v, int rv) { Val x( v); if ( rv) p.set_value( std::move( x)); else p.set_value( x); }
    template< typename F > static void get( F & f, Res & r) { auto && x = f.get(); r.v = x.v; r.hb = x.hb(); }
    static void getu( fb::future< Val > & f, Res & r) { Val x = f.get(); r.v = x.v; r.hb = x.hb(); }
};
static std::vector< Val * > refs;
template<> struct Tr< Val & > {
    static void set( fb::promise< Val & > & p, int v, int) { Val * x = new Val( v); vrt::no_preempt( 1); refs.push_back( x); vrt::no_preempt( -1); p.set_value( *x); }
    template< typename F > static void get( F & f, Res & r) { Val & x = f.get(); r.v = x.v; r.hb = x.hb(); }
    static void getu( fb::future< Val & > & f, Res & r) { get( f, r); }
};
template<> struct Tr< void > {
    static void set( fb::promise< void > & p, int, int) { p.set_value(); }
    template< typename F > static void get( F & f, Res &) { f.get(); }
    static void getu( fb::future< void > & f, Res &) { f.get(); }
};
void fut_teardown() { for ( auto p : refs) delete p; refs.clear(); }

static void ret( int f, Res const& r) { ev_ret( f, r.res, r.v, r.hb); }

template< typename T > struct FutObj : public Obj {
    int idx; fb::future< T > f_; FutObj( int i) : idx( i) {}
    bool exec( int f, Op const& op) override;
};
template< typename T > struct SFutObj : public Obj {
    int idx; fb::shared_future< T > f_; SFutObj( int i) : idx( i) {}
    bool exec( int f, Op const& op) override;
};
template< typename F > static bool waits( int f, int idx, F & fu, Op const& op) {
    std::string const& n = op.name;
    if ( n == "fvalid") { ev_call( f, "fvalid", idx, 0, 0); bool b = fu.valid(); ev_ret( f, b ? "true" : "false", 0, 1); return true; }
    if ( n == "fwait") { ev_call( f, "fwait", idx, 0, 0); ret( f, guarded( [&]( Res &){ fu.wait(); })); return true; }
    if ( n == "fgetx") {
        ev_call( f, "fgetx", idx, 0, 0);
        ret( f, guarded( [&]( Res & r){
            std::exception_ptr p = fu.get_exception_ptr();
            if ( ! p) r.res = "none"; else std::rethrow_exception( p);
        }));
        return true;
    }
    if ( n == "fwaitu") {
        long d = deadline_of( op.a); int dt = op.a;
        int form = vrt::rnd( 3);
        ev_call( f, "fwaitu", idx, 0, d, form == 2);
        ret( f, guarded( [&]( Res & r){
            fb::future_status s;
            switch ( form) {
            case 0: s = fu.wait_for( std::chrono::microseconds( dt)); break;
            case 1: s = fu.wait_until( sys_of( d)); break;
            default: s = fu.wait_until( tp_of( d));
            }
            r.res = s == fb::future_status::ready ? "ready" : s == fb::future_status::timeout ? "timeout" : "err";
        }));
        return true;
    }
    return false;
}
template< typename T > bool FutObj< T >::exec( int f, Op const& op) {
    std::string const& n = op.name;
    if ( waits( f, idx, f_, op)) return true;
    if ( n == "fget") { ev_call( f, "fget", idx, 0, 0); ret( f, guarded( [&]( Res & r){ Tr< T >::getu( f_, r); })); return true; }
    if ( n == "fmove") { // to another future object
        auto * o = dynamic_cast< FutObj< T > * >( obj( op.a)); if ( ! o) return false;
        ev_call( f, "fmove", idx, op.a, 0);
        if ( vrt::rnd( 2)) o->f_ = std::move( f_); else { fb::future< T > t( std::move( f_)); o->f_ = std::move( t); }
        ev_ret( f, "ok", 0, 1); return true;
    }
    if ( n == "share") {
        auto * o = dynamic_cast< SFutObj< T > * >( obj( op.a)); if ( ! o) return false;
        ev_call( f, "share", idx, op.a, 0);
        ret( f, guarded( [&]( Res &){
            if ( op.b) { if ( ! f_.valid()) throw fb::future_uninitialized{}; o->f_ = std::move( f_); }
            else o->f_ = f_.share();
        }));
        return true;
    }
    if ( n == "fdrop") { ev_call( f, "fdrop", idx, 0, 0); f_ = fb::future< T >(); ev_ret( f, "ok", 0, 1); return true; }
    return false;
}
template< typename T > bool SFutObj< T >::exec( int f, Op const& op) {
    std::string const& n = op.name;
    if ( ( n == "fwait" || n == "fwaitu" || n == "fgetx" || n == "fget") && vrt::rnd( 2)) {
        // through a copy, which goes away afterwards
        fb::shared_future< T > t( f_);
        if ( n != "fget") return waits( f, idx, t, op);
        ev_call( f, "sget", idx, 0, 0);
        Res r = guarded( [&]( Res & r){ Tr< T >::get( t, r); });
        if ( vrt::rnd( 2)) t = fb::shared_future< T >();
        ret( f, r);
        return true;
    }
    if ( waits( f, idx, f_, op)) return true;
    if ( n == "fget") { ev_call( f, "sget", idx, 0, 0); ret( f, guarded( [&]( Res & r){ Tr< T >::get( f_, r); })); return true; }
    if ( n == "scopy") {
        auto * o = dynamic_cast< SFutObj< T > * >( obj( op.a)); if ( ! o) return false;
        ev_call( f, "scopy", idx, op.a, 0);
        if ( op.b) { fb::shared_future< T > t( f_); o->f_ = std::move( t); } else o->f_ = f_;
        ev_ret( f, "ok", 0, 1); return true;
    }
    if ( n == "fmove") {
        auto * o = dynamic_cast< SFutObj< T > * >( obj( op.a)); if ( ! o) return false;
        ev_call( f, "fmove", idx, op.a, 0);
        if ( vrt::rnd( 2)) o->f_ = std::move( f_); else { fb::shared_future< T > t( std::move( f_)); o->f_ = std::move( t); }
        ev_ret( f, "ok", 0, 1); return true;
    }
    if ( n == "fdrop") { ev_call( f, "fdrop", idx, 0, 0); f_ = fb::shared_future< T >(); ev_ret( f, "ok", 0, 1); return true; }
    return false;
}
template< typename T > struct PromObj : public Obj {
    int idx; std::unique_ptr< fb::promise< T > > p; PromObj( int i) : idx( i), p( new fb::promise< T >()) {}
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        if ( ! p) return true;
        if ( n == "getf") {
            auto * o = dynamic_cast< FutObj< T > * >( obj( op.a)); if ( ! o) return false;
            ev_call( f, "getf", idx, op.a, 0);
            ret( f, guarded( [&]( Res &){ o->f_ = p->get_future(); }));
            return true;
        }
        if ( n == "setv") {
            ev_call( f, "setv", idx, std::is_void< T >::value ? 0 : op.a, 0);
            ret( f, guarded( [&]( Res &){ Tr< T >::set( *p, op.a, op.b); }));
            return true;
        }
        if ( n == "setx") {
            ev_call( f, "setx", idx, op.a, 0);
            ret( f, guarded( [&]( Res &){ p->set_exception( std::make_exception_ptr( Exc( op.a))); }));
            return true;
        }
        if ( n == "pdrop") { ev_call( f, "pdrop", idx, 0, 0); p.reset(); ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "pmove") { // moves into another promise, which abandons its own state
            auto * o = dynamic_cast< PromObj< T > * >( obj( op.a)); if ( ! o || ! o->p) return true;
            ev_call( f, "pmove", idx, op.a, 0);
            if ( op.b) { fb::promise< T > t( std::move( *p)); *o->p = std::move( t); } else *o->p = std::move( *p);
            ev_ret( f, "ok", 0, 1); return true;
        }
        if ( n == "pswap") {
            auto * o = dynamic_cast< PromObj< T > * >( obj( op.a)); if ( ! o || ! o->p) return true;
            ev_call( f, "pswap", idx, op.a, 0);
            p->swap( *o->p);
            ev_ret( f, "ok", 0, 1); return true;
        }
        return false;
    }
};
// a task returns its id (or throws it); it may yield meanwhile
template< typename T > struct TaskFn;
template<> struct TaskFn< Val > { Val arg; int v, mode; Val operator()() { arg.check(); if ( mode & 2) boost::this_fiber::yield(); if ( mode & 1) throw Exc( v); return Val( v); } };
template<> struct TaskFn< Val & > { Val arg; int v, mode; Val & operator()() { arg.check(); if ( mode & 2) boost::this_fiber::yield(); if ( mode & 1) throw Exc( v); Val * x = new Val( v); vrt::no_preempt( 1); refs.push_back( x); vrt::no_preempt( -1); return *x; } };
template<> struct TaskFn< void > { Val arg; int v, mode; void operator()() { arg.check(); if ( mode & 2) boost::this_fiber::yield(); if ( mode & 1) throw Exc( v); } };
template< typename T > struct PtObj : public Obj {
    typedef fb::packaged_task< T() > task;
    int idx; std::unique_ptr< task > p; PtObj( int i) : idx( i), p( new task()) {}
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        if ( ! p) return true;
        if ( n == "ptmake") { // value, mode (1 throws, 2 yields)
            ev_call( f, "ptmake", idx, std::is_void< T >::value && ! ( op.b & 1) ? 0 : op.a, op.b & 1);
            *p = task( TaskFn< T >{ Val( op.a), op.a, op.b });
            ev_ret( f, "ok", 0, 1); return true;
        }
        if ( n == "getf") {
            auto * o = dynamic_cast< FutObj< T > * >( obj( op.a)); if ( ! o) return false;
            ev_call( f, "getf", idx, op.a, 0);
            ret( f, guarded( [&]( Res &){ o->f_ = p->get_future(); }));
            return true;
        }
        if ( n == "ptvalid") { ev_call( f, "ptvalid", idx, 0, 0); bool b = p->valid(); ev_ret( f, b ? "true" : "false", 0, 1); return true; }
        if ( n == "ptrun") { ev_call( f, "ptrun", idx, 0, 0); ret( f, guarded( [&]( Res &){ (*p)(); })); return true; }
        if ( n == "ptreset") { ev_call( f, "ptreset", idx, 0, 0); ret( f, guarded( [&]( Res &){ p->reset(); })); return true; }
        if ( n == "pdrop") { ev_call( f, "pdrop", idx, 0, 0); p.reset(); ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "pmove") {
            auto * o = dynamic_cast< PtObj< T > * >( obj( op.a)); if ( ! o || ! o->p) return true;
            ev_call( f, "pmove", idx, op.a, 0);
            if ( op.b) { task t( std::move( *p)); *o->p = std::move( t); } else *o->p = std::move( *p);
            ev_ret( f, "ok", 0, 1); return true;
        }
        if ( n == "pswap") {
            auto * o = dynamic_cast< PtObj< T > * >( obj( op.a)); if ( ! o || ! o->p) return true;
            ev_call( f, "pswap", idx, op.a, 0);
            p->swap( *o->p);
            ev_ret( f, "ok", 0, 1); return true;
        }
        return false;
    }
};
// async g o mode: launch fiber g whose result goes to future o; mode 1 throws, 2 dispatch
template< typename T > struct AsyncFn;
template<> struct AsyncFn< Val > { int g, mode; Val operator()( Val const& a) { a.check(); fiber_body( g); if ( mode & 1) throw Exc( g); return Val( g); } };
template<> struct AsyncFn< void > { int g, mode; void operator()( Val const& a) { a.check(); fiber_body( g); if ( mode & 1) throw Exc( g); } };
template< typename T > static bool do_async( int f, Op const& op) {
    auto * o = dynamic_cast< FutObj< T > * >( obj( op.a)); if ( ! o) return false;
    int g = op.o;
    ev_call( f, "async", g, op.a, op.b);
    int prev = get_forking(); set_forking( g);
    AsyncFn< T > fn{ g, op.b };
    fb::launch pol = op.b & 2 ? fb::launch::dispatch : fb::launch::post;
    Val a( g);
    o->f_ = fb::async( pol, std::allocator_arg, arena_stack(), fn, a);
    set_forking( prev);
    ev_ret( f, "ok", 0, 1);
    return true;
}
static bool fut_op( int f, Op const& op) {
    if ( op.name == "async") return do_async< Val >( f, op) || do_async< void >( f, op);
    return false;
}
static RegG rg( fut_op);
static Reg p0( "prom", []( ObjDecl const& d, int i) -> Obj * { if ( d.a == 1) return new PromObj< void >( i); if ( d.a == 2) return new PromObj< Val & >( i); return new PromObj< Val >( i); });
static Reg p1( "fut", []( ObjDecl const& d, int i) -> Obj * { if ( d.a == 1) return new FutObj< void >( i); if ( d.a == 2) return new FutObj< Val & >( i); return new FutObj< Val >( i); });
static Reg p2( "sfut", []( ObjDecl const& d, int i) -> Obj * { if ( d.a == 1) return new SFutObj< void >( i); if ( d.a == 2) return new SFutObj< Val & >( i); return new SFutObj< Val >( i); });
static Reg p3( "pt", []( ObjDecl const& d, int i) -> Obj * { if ( d.a == 1) return new PtObj< void >( i); if ( d.a == 2) return new PtObj< Val & >( i); return new PtObj< Val >( i); });
}
