// buffered and unbuffered channels
#include "drv.h"
#include <boost/fiber/all.hpp>
#include <chrono>
namespace fb = boost::fibers;
using steady = std::chrono::steady_clock;
namespace drv {
static char const* st( fb::channel_op_status s) {
    switch ( s) {
    case fb::channel_op_status::success: return "ok";
    case fb::channel_op_status::empty: return "empty";
    case fb::channel_op_status::full: return "full";
    case fb::channel_op_status::closed: return "closed";
    case fb::channel_op_status::timeout: return "timeout";
    }
    return "err";
}
template< typename C > struct Try {
    static bool push( C & c, Val & v, int rv, fb::channel_op_status & s) { s = rv ? c.try_push( std::move( v)) : c.try_push( v); return true; }
    static bool pop( C & c, Val & v, fb::channel_op_status & s) { s = c.try_pop( v); return true; }
};
template<> struct Try< fb::unbuffered_channel< Val > > {
    template< typename ...A > static bool push( A && ... ) { return false; }
    template< typename ...A > static bool pop( A && ... ) { return false; }
};
// copies, moves and assignments leave an iterator at its element
template< typename It > static bool shake( It & i, int v) {
    It const e{};
    switch ( vrt::rnd( 8)) {
    case 0: { It j( i); return j == i && ! ( j != i) && j != e && (*j).v == v && i->v == v; }
    case 1: { It j( std::move( i)); bool ok = (*j).v == v; i = j; return ok && i->v == v; }
    case 2: { It j; bool ok = j == e; j = i; It k( e); ok = ok && j == i && k == e && k != i; k = j; i = k; j = e; return ok && j == e && (*i).v == v; }
    case 3: { It & r = i; i = r; return i->v == v; }
    case 4: { It j( i); It k; k = std::move( j); i = std::move( k); return i->v == v; }
    case 5: { It j( i), k( e); k = k; j = k; return j == e && i != e && i->v == v; }
    default: return true;
    }
}
// a refused element stays with the caller of a buffered channel
template< typename C > struct Keeps { static const bool value = true; };
template<> struct Keeps< fb::unbuffered_channel< Val > > { static const bool value = false; };
template< typename C >
struct ChanObj : public Obj {
    C * c; int idx; int err;
    template< typename ...A > ChanObj( int i, A ... a) : c( nullptr), idx( i), err( 0) {
        try { c = new C( a ... ); } catch ( fb::fiber_error const& e) { err = e.code() == std::errc::invalid_argument ? 1 : 2; }
    }
    ~ChanObj() { delete c; }
    static int left( Val const& v, int x, bool moved, fb::channel_op_status s) {
        return v.v == x || ( moved && ( s == fb::channel_op_status::success || ! Keeps< C >::value)) ? 0 : 1;
    }
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        fb::channel_op_status s;
        if ( n == "made") { // did construction succeed?
            ev_call( f, "made", idx, 0, 0);
            ev_ret( f, 0 == err ? "ok" : 1 == err ? "inval" : "err", 0, 1);
            return true;
        }
        if ( ! c) return true;
        if ( n == "push") { // value, rvalue?
            Val v( op.a);
            ev_call( f, "push", idx, op.a, 0);
            s = op.b ? c->push( std::move( v)) : c->push( v);
            ev_ret( f, st( s), left( v, op.a, op.b & 1, s), 1);
            return true;
        }
        if ( n == "trypush") {
            Val v( op.a);
            ev_call( f, "trypush", idx, op.a, 0);
            if ( ! Try< C >::push( *c, v, op.b, s) ) return false;
            ev_ret( f, st( s), left( v, op.a, op.b & 1, s), 1);
            return true;
        }
        if ( n == "pushu") { // value, 2*timeout + rvalue
            Val v( op.a); int dt = op.b / 2; bool rv = op.b & 1;
            long d = deadline_of( dt);
            int form = vrt::rnd( 3);
            ev_call( f, "pushu", idx, op.a, d, form == 2);
            switch ( form) {
            case 0: s = rv ? c->push_wait_for( std::move( v), std::chrono::microseconds( dt)) : c->push_wait_for( v, std::chrono::microseconds( dt)); break;
            case 1: { auto tp = sys_of( d); s = rv ? c->push_wait_until( std::move( v), tp) : c->push_wait_until( v, tp); break; }
            default: s = rv ? c->push_wait_until( std::move( v), tp_of( d)) : c->push_wait_until( v, tp_of( d));
            }
            ev_ret( f, st( s), left( v, op.a, rv, s), 1);
            return true;
        }
        if ( n == "pop") {
            Val v;
            ev_call( f, "pop", idx, 0, 0);
            s = c->pop( v);
            ev_ret( f, st( s), v.v, s == fb::channel_op_status::success ? v.hb() : 1);
            return true;
        }
        if ( n == "trypop") {
            Val v;
            ev_call( f, "trypop", idx, 0, 0);
            if ( ! Try< C >::pop( *c, v, s) ) return false;
            ev_ret( f, st( s), v.v, s == fb::channel_op_status::success ? v.hb() : 1);
            return true;
        }
        if ( n == "popu") { // timeout
            Val v; long d = deadline_of( op.a); int dt = op.a;
            int form = vrt::rnd( 3);
            ev_call( f, "popu", idx, 0, d, form == 2);
            switch ( form) {
            case 0: s = c->pop_wait_for( v, std::chrono::microseconds( dt)); break;
            case 1: s = c->pop_wait_until( v, sys_of( d)); break;
            default: s = c->pop_wait_until( v, tp_of( d));
            }
            ev_ret( f, st( s), v.v, s == fb::channel_op_status::success ? v.hb() : 1);
            return true;
        }
        if ( n == "vpop") {
            ev_call( f, "vpop", idx, 0, 0);
            char const* res = "ok"; int v = 0, hb = 1;
            try { Val x = c->value_pop(); v = x.v; hb = x.hb(); }
            catch ( fb::fiber_error const& e) { res = e.code() == std::errc::operation_not_permitted ? "closed" : "err"; }
            ev_ret( f, res, v, hb);
            return true;
        }
        if ( n == "iter") { // at most a elements (0: until closed)
            int k = 0; bool more = true;
            ev_call( f, "vpop", idx, 0, 0);
            auto i = begin( *c); auto e = end( *c);
            for ( ; more && i != e; ) {
                ev_ret( f, "ok", (*i).v, i->hb());
                if ( op.a && ++k >= op.a) { more = false; break; }
                if ( op.b) boost::this_fiber::yield();
                if ( ! shake( i, (*i).v)) vrt::fault( "iterator");
                ev_call( f, "vpop", idx, 0, 0);
                ++i;
            }
            if ( more) ev_ret( f, "closed", 0, 1);
            return true;
        }
        if ( n == "close") { ev_call( f, "close", idx, 0, 0); c->close(); ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "closed") { ev_call( f, "closed", idx, 0, 0); bool b = c->is_closed(); ev_ret( f, b ? "true" : "false", 0, 1); return true; }
        return false;
    }
};
static Reg r1( "bch", []( ObjDecl const& d, int i) -> Obj * { return new ChanObj< fb::buffered_channel< Val > >( i, (std::size_t)d.a); });
static Reg r2( "uch", []( ObjDecl const&, int i) -> Obj * { return new ChanObj< fb::unbuffered_channel< Val > >( i); });
}
