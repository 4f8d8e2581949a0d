// Not instrumented.
#include "drv.h"
#include <cstdio>
#include <cstring>
namespace drv {
Scenario * S = nullptr;
void ev_call( int f, char const* op, int o, long a, long b, bool exact) {
    if ( exact) vrt::emit( "[\"c\",%d,\"%s\",%d,%ld,%ld,%lld]", f, op, o, a, b, (long long)vrt::now_ticks());
    else vrt::emit( "[\"c\",%d,\"%s\",%d,%ld,%ld,%lld,0]", f, op, o, a, b, (long long)vrt::now_ticks());
}
std::chrono::steady_clock::time_point tp_of( long d) { return std::chrono::steady_clock::time_point( std::chrono::nanoseconds( 1000000000ll + d * 1000ll)); }
std::chrono::system_clock::time_point sys_of( long d) { return std::chrono::system_clock::time_point( std::chrono::nanoseconds( 6000000000ll + d * 1000ll)); }
void ev_ret( int f, char const* res, long val, int hb) { vrt::emit( "[\"r\",%d,\"%s\",%ld,%d,%lld]", f, res, val, hb, (long long)vrt::now_ticks()); }
void ev_beg( int f) { vrt::emit( "[\"beg\",%d,%d]", f, vrt::self()); }
void ev_fin( int f) { vrt::emit( "[\"fin\",%d,%d]", f, vrt::self()); }
void ev( char const* k, long a, long b, long c) { vrt::emit( "[\"%s\",%ld,%ld,%ld]", k, a, b, c); }
static void const* ctxs[512]; static int fids[512]; static int nctx = 0;
static int forking[16];
void set_forking( int fid) { int t = vrt::self(); if ( t >= 0) forking[t] = fid; }
int get_forking() { int t = vrt::self(); return t >= 0 ? forking[t] : 0; }
void ctx_register( void const* c, int f) { for ( int i = nctx - 1; i >= 0; --i) if ( ctxs[i] == c) { fids[i] = f; return; } if ( nctx < 512) { ctxs[nctx] = c; fids[nctx++] = f; } }
int ctx_fid( void const* c) { for ( int i = nctx - 1; i >= 0; --i) if ( ctxs[i] == c) return fids[i]; return 0; }
long deadline_of( int dt) { long d = (long)vrt::now_ticks() + dt; vrt::add_deadline( d); return d; }

static long live = 0, bad = 0;
constexpr std::uint32_t MAGIC = 0x5a17c0deu, DEAD = 0xdeadbeefu;
bool in_setup = false;
void Val::rd() const { if ( in_setup) return; int t = vrt::self(); if ( t < 0 || t >= 8) return; if ( ! vrt::ordered( w)) vrt::fault( "valrace"); r[t] = vrt::stamp(); }
void Val::wr( bool first) {
    int t = vrt::self();
    if ( first) { w = vrt::Stamp{ -1, 0 }; for ( auto & x : r) x = vrt::Stamp{ -1, 0 }; }
    if ( in_setup || t < 0 || t >= 8) return;
    if ( ! first) { if ( ! vrt::ordered( w)) vrt::fault( "valrace"); for ( auto & x : r) if ( x.c && ! vrt::ordered( x)) vrt::fault( "valrace"); }
    w = vrt::stamp();
}
Val::Val() : magic{ MAGIC }, v{ 0 }, st{ -1, 0 } { wr( true); ++live; }
Val::Val( int v_) : magic{ MAGIC }, v{ v_ }, st( vrt::stamp()) { wr( true); ++live; }
void Val::check() const { if ( magic != MAGIC) { ++bad; vrt::fault( magic == DEAD ? "valdead" : "valraw"); } }
Val::Val( Val const& o) : magic{ MAGIC } { o.check(); o.rd(); v = o.v; st = o.st; wr( true); ++live; }
Val::Val( Val && o) noexcept : magic{ MAGIC } { o.check(); o.rd(); v = o.v; st = o.st; o.wr(); o.v = -1; wr( true); ++live; }
Val & Val::operator=( Val const& o) { check(); o.check(); o.rd(); wr(); v = o.v; st = o.st; return *this; }
Val & Val::operator=( Val && o) noexcept { check(); o.check(); if ( this != &o) { o.rd(); wr(); v = o.v; st = o.st; o.wr(); o.v = -1; } return *this; }
Val::~Val() { check(); wr(); magic = DEAD; --live; }
int Val::hb() const { return vrt::ordered( st) ? 1 : 0; }
long val_live() { return live; }
long val_bad() { return bad; }

int cell_read( Cell & c, int & hb) { if ( ! vrt::ordered( c.w)) hb = 0; int v = c.v; c.r[vrt::self()] = vrt::stamp(); return v; }
void cell_write( Cell & c, int v, int & hb) {
    if ( ! vrt::ordered( c.w)) hb = 0;
    for ( int i = 0; i < 16; ++i) if ( c.r[i].c && ! vrt::ordered( c.r[i])) hb = 0;
    c.v = v; c.w = vrt::stamp();
}
int cell_inc( Cell & c, int & hb) {
    int v = cell_read( c, hb);
    vrt::point(); vrt::point();
    cell_write( c, v + 1, hb);
    return v;
}
static void const * tabp[256]; static int tabv[256]; static int ntab = 0;
void tab_add( void const * p, int v) { if ( ntab < 256) { tabp[ntab] = p; tabv[ntab++] = v; } }
int tab_get( void const * p) { for ( int i = 0; i < ntab; ++i) if ( tabp[i] == p) return tabv[i]; return -1; }
static long nprops = 0;
long props_live() { return nprops; }
void props_add( int d) { nprops += d; }
struct Stk { char * lo; std::size_t n; bool live; };
static Stk stks[512]; static int nstk = 0; static long slive = 0;
void stack_alloced( void * p, std::size_t n) { if ( nstk < 512) stks[nstk++] = { (char*)p, n, true }; ++slive; }
void stack_freed( void * p) {
    for ( int i = 0; i < nstk; ++i) if ( stks[i].lo == p) {
        if ( ! stks[i].live) vrt::fault( "stackdouble");
        char here; if ( & here >= stks[i].lo && & here < stks[i].lo + stks[i].n) vrt::fault( "stackinuse");
        stks[i].live = false; --slive; return; }
    vrt::fault( "stackunknown");
}
long stacks_live() { return slive; }

static std::map< std::string, Factory > & kinds() { static std::map< std::string, Factory > k; return k; }
static std::vector< GlobalOp > & globals() { static std::vector< GlobalOp > g; return g; }
void register_kind( char const* k, Factory f) { kinds()[k] = f; }
void register_global( GlobalOp g) { globals().push_back( g); }
Obj * make_obj( ObjDecl const& d, int i) {
    auto it = kinds().find( d.kind);
    if ( it == kinds().end()) { fprintf( stderr, "unknown object kind %s\n", d.kind.c_str()); vrt::fault( "badscenario"); }
    Obj * o = it->second( d, i); o->kind = d.kind; return o;
}
bool exec_global( int f, Op const& op) { for ( auto g : globals()) if ( g( f, op)) return true; return false; }
}
