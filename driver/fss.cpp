// fiber specific pointers
#include "drv.h"
#include <boost/fiber/all.hpp>
#include <boost/fiber/fss.hpp>
namespace fb = boost::fibers;
namespace drv {
static int who() { return ctx_fid( fb::context::active()); }
struct Spec { int o, v; Spec( int o_, int v_) : o( o_), v( v_) {} ~Spec() {} };
// deleted through the default clean-up function
struct DSpec : public Spec { using Spec::Spec; ~DSpec() { ev( "fcl", o, v, who()); o = -1; } };
static void custom( Spec * s);
template< typename T > struct FssObj : public Obj {
    std::unique_ptr< fb::fiber_specific_ptr< T > > p; int idx;
    FssObj( int i, void (*fn)( T *)) : idx( i) { if ( fn) p.reset( new fb::fiber_specific_ptr< T >( fn)); else p.reset( new fb::fiber_specific_ptr< T >()); }
    bool exec( int f, Op const& op) override {
        std::string const& n = op.name;
        if ( n == "fset") { ev_call( f, "fset", idx, op.a, 0); p->reset( new T( idx, op.a)); ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "fnull") { ev_call( f, "fset", idx, 0, 0); p->reset( nullptr); ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "fsame") { ev_call( f, "fsame", idx, 0, 0); p->reset( p->get()); ev_ret( f, "ok", 0, 1); return true; }
        if ( n == "fget") { ev_call( f, "fsget", idx, 0, 0); T * t = p->get(); int v = 0; if ( t) { v = (*p)->v; if ( &**p != t || t->o != idx) v = -1; } ev_ret( f, "ok", v, 1); return true; }
        if ( n == "frel") { ev_call( f, "frel", idx, 0, 0); T * t = p->release(); ev_ret( f, "ok", t ? t->v : 0, 1); if ( t) { t->o = -2; vrt::no_preempt( 1); keep.push_back( t); vrt::no_preempt( -1); } return true; }
        if ( n == "fdel") { ev_call( f, "fdel", idx, 0, 0); p.reset(); ev_ret( f, "ok", 0, 1); return true; }
        return false;
    }
    std::vector< T * > keep; // released by the user
};
static void custom( Spec * s) { if ( ! s) ev( "fcl", -1, 0, who()); else { ev( "fcl", s->o, s->v, who()); s->o = -1; delete s; } }
static Reg r1( "fss", []( ObjDecl const& d, int i) -> Obj * { if ( d.a) return new FssObj< Spec >( i, custom); return new FssObj< DSpec >( i, nullptr); });
}
