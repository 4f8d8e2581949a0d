// mutexes, condition variables, barriers
#include "drv.h"
#include <boost/fiber/all.hpp>
#include <chrono>
#include <mutex>
namespace fb = boost::fibers;
using steady = std::chrono::steady_clock;
namespace drv {

static char const* lock_err( fb::lock_error const& e) {
    if ( e.code() == std::errc::resource_deadlock_would_occur) return "deadlk";
    if ( e.code() == std::errc::operation_not_permitted) return "eperm";
    return "err";
}
template< typename M > struct timed_ops {
    static bool until( M & m, long d, int dt, int var) {
        if ( var == 1) return m.try_lock_for( std::chrono::microseconds( dt));
        if ( var == 2) return m.try_lock_until( sys_of( d));
        return m.try_lock_until( tp_of( d));
    }
};
template<> struct timed_ops< fb::mutex > { static bool until( fb::mutex & m, long, int, int) { return m.try_lock(); } };
template<> struct timed_ops< fb::recursive_mutex > { static bool until( fb::recursive_mutex & m, long, int, int) { return m.try_lock(); } };

template< typename M >
struct MutexObj : public Lockable {
    M m; int idx;
    MutexObj( int i) : idx( i) {}
    void raw_lock() override { m.lock(); }
    void raw_unlock() override { m.unlock(); }
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        if ( n == "lock") {
            ev_call( f, "lock", idx, 0, 0);
            char const* res = "ok";
            try { m.lock(); ++held[f]; } catch ( fb::lock_error const& e) { res = lock_err( e); }
            ev_ret( f, res, 0, 1);
            return true;
        }
        if ( n == "trylock") {
            ev_call( f, "trylock", idx, 0, 0);
            char const* res;
            try { if ( m.try_lock()) { ++held[f]; res = "true"; } else res = "false"; } catch ( fb::lock_error const& e) { res = lock_err( e); }
            ev_ret( f, res, 0, 1);
            return true;
        }
        if ( n == "tlock") {
            long d = deadline_of( op.a);
            ev_call( f, "tlock", idx, d, 0, op.b != 1 && op.b != 2);
            char const* res;
            try { if ( timed_ops< M >::until( m, d, op.a, op.b)) { ++held[f]; res = "true"; } else res = "false"; } catch ( fb::lock_error const& e) { res = lock_err( e); }
            ev_ret( f, res, 0, 1);
            return true;
        }
        if ( n == "unlock" || n == "cunlock") {
            if ( n == "cunlock" && held[f] <= 0) return true;
            ev_call( f, "unlock", idx, 0, 0);
            char const* res = "ok";
            try { m.unlock(); --held[f]; } catch ( fb::lock_error const& e) { res = lock_err( e); }
            ev_ret( f, res, 0, 1);
            return true;
        }
        return false;
    }
};
static Reg r1( "mutex", []( ObjDecl const&, int i) -> Obj * { return new MutexObj< fb::mutex >( i); });
static Reg r2( "rmutex", []( ObjDecl const&, int i) -> Obj * { return new MutexObj< fb::recursive_mutex >( i); });
static Reg r3( "tmutex", []( ObjDecl const&, int i) -> Obj * { return new MutexObj< fb::timed_mutex >( i); });
static Reg r4( "rtmutex", []( ObjDecl const&, int i) -> Obj * { return new MutexObj< fb::recursive_timed_mutex >( i); });

// data guarded by a mutex: only touched when the fiber holds mutex 'a'
struct VarObj : public Obj {
    Cell c; int idx; VarObj( int i) : idx( i) {}
    bool exec( int f, Op const& op) override {
        Lockable * l = op.a ? dynamic_cast< Lockable * >( obj( op.a)) : nullptr;
        if ( l && l->held[f] <= 0) return true;
        int hb = 1;
        if ( op.name == "inc") { ev_call( f, "inc", idx, 0, 0); int v = cell_inc( c, hb); ev_ret( f, "ok", v, hb); return true; }
        if ( op.name == "set") { ev_call( f, "set", idx, op.b, 0); cell_write( c, op.b, hb); ev_ret( f, "ok", 0, hb); return true; }
        if ( op.name == "get") { ev_call( f, "get", idx, 0, 0); int v = cell_read( c, hb); ev_ret( f, "ok", v, hb); return true; }
        return false;
    }
};
static Reg r5( "var", []( ObjDecl const&, int i) -> Obj * { return new VarObj( i); });

struct CvObj : public Obj {
    fb::condition_variable_any any; fb::condition_variable cv; bool std_; int idx;
    CvObj( int i, bool s) : std_( s), idx( i) {}
    // wait m 0 ; waitu m dt ; waitp m var ; waitpu m var dt(b) -- a: mutex, b: dt or var
    template< typename CV, typename L > bool doit( int f, Op const& op, CV & c, L & lk, Lockable * lo) {
        std::string const& n = op.name;
        if ( n == "wait") {
            ev_call( f, "wait", idx, op.a, 0);
            c.wait( lk);
            ev_ret( f, "ok", 0, 1);
            return true;
        }
        if ( n == "waitu") {
            int dt = op.b; long d = deadline_of( dt);
            int form = vrt::rnd( 3);
            ev_call( f, "waitu", idx, op.a, d, form == 2);
            fb::cv_status s;
            switch ( form) {
            case 0: s = c.wait_for( lk, std::chrono::microseconds( dt)); break;
            case 1: s = c.wait_until( lk, sys_of( d)); break;
            default: s = c.wait_until( lk, tp_of( d));
            }
            ev_ret( f, s == fb::cv_status::timeout ? "timeout" : "ok", 0, 1);
            return true;
        }
        if ( n == "waitp") { // predicate: variable b is not 0
            VarObj * v = dynamic_cast< VarObj * >( obj( op.b)); int hb = 1;
            ev_call( f, "waitp", idx, op.a, op.b);
            c.wait( lk, [&]{ return cell_read( v->c, hb) != 0; });
            ev_ret( f, "ok", 0, hb);
            return true;
        }
        if ( n == "waitpu") { // predicate: variable (b/1000) is not 0, timeout b%1000
            VarObj * v = dynamic_cast< VarObj * >( obj( op.b / 1000)); int hb = 1;
            int dt = op.b % 1000; long d = deadline_of( dt);
            // the specification finds the mutex in o's args: encode var in a (thousands)
            int form = vrt::rnd( 3);
            ev_call( f, "waitpu", idx, op.a + 1000 * ( op.b / 1000), d, form == 2);
            bool r;
            switch ( form) {
            case 0: r = c.wait_for( lk, std::chrono::microseconds( dt), [&]{ return cell_read( v->c, hb) != 0; }); break;
            case 1: r = c.wait_until( lk, sys_of( d), [&]{ return cell_read( v->c, hb) != 0; }); break;
            default: r = c.wait_until( lk, tp_of( d), [&]{ return cell_read( v->c, hb) != 0; });
            }
            ev_ret( f, r ? "true" : "false", 0, hb);
            return true;
        }
        return false;
    }
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        if ( n == "n1") { ev_call( f, "n1", idx, 0, 0); if ( std_) cv.notify_one(); else any.notify_one(); ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "na") { ev_call( f, "na", idx, 0, 0); if ( std_) cv.notify_all(); else any.notify_all(); ev_ret( f, "ok", 0, 1); return true; }
        Lockable * lo = dynamic_cast< Lockable * >( obj( op.a));
        if ( ! lo || lo->held[f] <= 0) return true; // a wait needs the mutex
        if ( std_) {
            auto * mo = dynamic_cast< MutexObj< fb::mutex > * >( lo);
            std::unique_lock< fb::mutex > lk( mo->m, std::adopt_lock);
            bool r = doit( f, op, cv, lk, lo); lk.release(); return r;
        }
        std::unique_lock< Lockable > lk( *lo, std::adopt_lock);
        bool r = doit( f, op, any, lk, lo); lk.release(); return r;
    }
};
static Reg r6( "cv", []( ObjDecl const&, int i) -> Obj * { return new CvObj( i, true); });
static Reg r7( "cvany", []( ObjDecl const&, int i) -> Obj * { return new CvObj( i, false); });

// what a participant has written before the barrier is visible to all of them after it
struct BarObj : public Obj {
    std::unique_ptr< fb::barrier > b; int idx; Cell cells[64][2] = {}; int phase[64] = {};
    BarObj( int n, int i) : idx( i) { if ( n > 0) b.reset( new fb::barrier( n)); }
    bool exec( int f, Op const& op) override {
        if ( op.name == "made") {
            ev_call( f, "made", idx, op.a, 0);
            char const* r = "ok";
            try { fb::barrier x( op.a); } catch ( fb::fiber_error const& e) { r = e.code() == std::make_error_code( std::errc::invalid_argument) ? "inval" : "other"; }
            ev_ret( f, r, 0, 1);
            return true;
        }
        if ( op.name == "bwait") {
            // op.a = 1: a fixed team of participants (the fibers marked in op.b), which take part in every phase
            int hb = 1, ph = phase[f]++;
            if ( op.a == 1) cell_write( cells[f][ph % 2], ph + 1, hb);
            ev_call( f, "bwait", idx, 0, 0);
            bool r = b->wait();
            if ( op.a == 1)
                for ( int g = 1; g < 31; ++g)
                    if ( ( op.b >> g) & 1) { if ( cell_read( cells[g][ph % 2], hb) != ph + 1) hb = 0; }
            ev_ret( f, r ? "true" : "false", 0, hb);
            return true;
        }
        return false;
    }
};
static Reg r8( "barrier", []( ObjDecl const& d, int i) -> Obj * { return new BarObj( d.a, i); });
}
