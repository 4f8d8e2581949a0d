// building blocks which the library uses itself: spinlocks, the work-stealing queue
#include "drv.h"
#include "algos.h"
#include <boost/fiber/all.hpp>
#include <boost/fiber/detail/spinlock_ttas.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
#include <boost/fiber/detail/spinlock_ttas_futex.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp>
#include <boost/fiber/detail/context_spmc_queue.hpp>
#include <boost/fiber/detail/context_spinlock_queue.hpp>
namespace fb = boost::fibers;
namespace drv {
template< typename L > struct SpinObj : public Lockable {
    L l; int idx; SpinObj( int i) : idx( i) {}
    void raw_lock() override { l.lock(); }
    void raw_unlock() override { l.unlock(); }
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        if ( n == "lock") { ev_call( f, "lock", idx, 0, 0); l.lock(); ++held[f]; ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "trylock") { ev_call( f, "trylock", idx, 0, 0); bool b = l.try_lock(); if ( b) ++held[f]; ev_ret( f, b ? "true" : "false", 0, 1); return true; }
        if ( n == "unlock" || n == "cunlock") { if ( held[f] <= 0) return true; ev_call( f, "unlock", idx, 0, 0); l.unlock(); --held[f]; ev_ret( f, "ok", 0, 1); return true; }
        return false;
    }
};
static Reg s0( "spin", []( ObjDecl const& d, int i) -> Obj * {
    switch ( d.a) {
    case 0: return new SpinObj< fb::detail::spinlock_ttas >( i);
    case 1: return new SpinObj< fb::detail::spinlock_ttas_adaptive >( i);
    case 2: return new SpinObj< fb::detail::spinlock_ttas_futex >( i);
    default: return new SpinObj< fb::detail::spinlock_ttas_adaptive_futex >( i);
    }
});
// the queues hold contexts: real ones, of fibers which are never started
// the stacks of these contexts are not accounted for
struct raw_stack {
    typedef boost::context::stack_traits traits_type;
    boost::context::stack_context allocate() {
        boost::context::stack_context sc; sc.size = 16 * 1024;
        sc.sp = static_cast< char * >( vrt::arena_alloc( sc.size, 4096)) + sc.size;
        return sc;
    }
    void deallocate( boost::context::stack_context &) noexcept {}
};
template< typename Q > struct QueueObj : public Obj {
    Q q; int idx; bool lifo;
    QueueObj( int i, std::size_t cap) : q( cap), idx( i) {}
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        if ( n == "qput") {
            ev_call( f, "qput", idx, op.a, 0);
            // values from 100 on: a pinned context, which must not be stolen
            vrt::no_preempt( 1);
            fb::context * c = op.a >= 100 ? fb::context::active() : fb::make_worker_context( fb::launch::post, raw_stack(), []{}).detach();
            vrt::no_preempt( -1);
            tab_add( c, op.a);
            q.push( c);
            ev_ret( f, "ok", 0, 1); return true;
        }
        if ( n == "qget") { ev_call( f, "qget", idx, 0, 0); ret( f, q.pop()); return true; }
        if ( n == "qsteal") { ev_call( f, "qsteal", idx, 0, 0); ret( f, q.steal()); return true; }
        if ( n == "qempty") { ev_call( f, "qempty", idx, 0, 0); bool b = q.empty(); ev_ret( f, b ? "true" : "false", 0, 1); return true; }
        return false;
    }
    void ret( int f, fb::context * c) {
        int v = 0;
        if ( c) v = tab_get( c);
        ev_ret( f, c ? "ok" : "empty", v, 1);
    }
};
static Reg s1( "spmc", []( ObjDecl const& d, int i) -> Obj * { return new QueueObj< fb::detail::context_spmc_queue >( i, (std::size_t)d.a); });
static Reg s2( "spq", []( ObjDecl const& d, int i) -> Obj * { return new QueueObj< fb::detail::context_spinlock_queue >( i, (std::size_t)d.a); });
}
