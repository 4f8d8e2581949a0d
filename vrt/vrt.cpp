#include "vrt.h"

#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

namespace vrt {

// ---------------------------------------------------------------- raw syscalls
static long raw_syscall6( long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                 : "rcx", "r11", "memory");
    return r;
}
static void raw_wait( int * p, int v) { raw_syscall6( SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void raw_wake( int * p) { raw_syscall6( SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

constexpr int MAXT = 16;
struct VC { std::uint32_t c[MAXT]; };
static inline void vjoin( VC & a, VC const& b) { for ( int i = 0; i < MAXT; ++i) if ( b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum State { RUN, B_MUTEX, B_COND, B_FUTEX, B_ALL, DONE };

struct Thread {
    int id;
    pthread_t pt;
    int go;
    State st;
    void * waddr;
    bool timed;
    bool timedout;
    std::uint64_t deadline;
    VC vc, acq, rel;
    void const * spin_addr;
    std::uint64_t spin_val;
    int spin_cnt;
    int nopre;
    std::int64_t prio;
    std::uint32_t consec;
    bool released;              // just left a critical section: the next access is a good moment to switch
    std::function< void() > fn;
    pthread_mutex_t * cond_mutex;
};

static Config cfg;
static Buffer * buf;
static std::size_t bufcap;
static Thread T[MAXT];
static int nT = 0;
static int cur = -1;
static bool on = false;
static std::uint64_t vnow = 0;
static std::uint64_t base_ns = 1000000000ull;
static thread_local Thread * me __attribute__((tls_model("initial-exec"))) = nullptr;
static int controller_go = 0;
static void (*stuck_hook)() = nullptr;
static std::uint64_t pct_points[16];
static std::int64_t pct_low = -1;
static int met = 0; static bool hot = false;
static std::uint64_t deadlines[256];
static int ndeadlines = 0;
static pthread_key_t end_key;

// ---------------------------------------------------------------- rng
static std::uint64_t rs[2];
static std::uint64_t splitmix( std::uint64_t & x) {
    std::uint64_t z = ( x += 0x9e3779b97f4a7c15ull);
    z = ( z ^ ( z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27)) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31);
}
std::uint64_t rnd() {
    std::uint64_t s1 = rs[0]; std::uint64_t const s0 = rs[1];
    std::uint64_t const r = s0 + s1;
    rs[0] = s0; s1 ^= s1 << 23;
    rs[1] = s1 ^ s0 ^ ( s1 >> 18) ^ ( s0 >> 5);
    return r;
}
std::uint32_t rnd( std::uint32_t n) { return n ? (std::uint32_t)( ( rnd() >> 20) % n) : 0; }
double rndf() { return ( rnd() >> 11) * ( 1.0 / 9007199254740992.0); }

// ---------------------------------------------------------------- events
static std::uint64_t last_event = 0;
void emit( char const* fmt, ...) {
    if ( ! buf) return;
    // an idle scheduler is no progress
    if ( ! ( fmt[0] == '[' && fmt[1] == '"' && fmt[2] == '%')) last_event = buf->steps;
    va_list ap; va_start( ap, fmt);
    std::size_t left = bufcap - buf->len;
    if ( left < 512) { buf->overflow = 1; va_end( ap); return; }
    int n = vsnprintf( buf->data + buf->len, left - 2, fmt, ap);
    va_end( ap);
    if ( n < 0) return;
    buf->data[buf->len + n] = '\n';
    buf->len += n + 1;
}
void fault( char const* kind) {
    static bool in = false;
    if ( ! in) { in = true; emit( "[\"x\",\"%s\",%d]", kind, me ? me->id : -1); if ( buf) buf->finished = 3; }
    _exit( 0);
}
void on_stuck( void(*f)()) { stuck_hook = f; }
[[noreturn]] static void stuck() {
    on = false;
    if ( stuck_hook) stuck_hook();
    emit( "[\"stuck\",%lld]", (long long)now_ticks());
    buf->finished = 2;
    _exit( 0);
}

// ---------------------------------------------------------------- arena
static char * ar_base = nullptr;
static std::size_t ar_size = 0, ar_top = 0, ar_live = 0;
static unsigned char * shadow = nullptr;    // per 16 bytes: 0 none/redzone 1 live 2 freed
struct Hdr { std::size_t size; std::size_t off; };

static void arena_init() {
    ar_size = std::size_t( 192) << 20;
    ar_base = (char*)mmap( nullptr, ar_size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    shadow = (unsigned char*)mmap( nullptr, ar_size / 16, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    ar_top = 64;
}
static inline bool in_arena( void const* p) { return (std::size_t)( (char const*)p - ar_base) < ar_size && ar_base; }
void * arena_alloc( std::size_t n, std::size_t align) {
    if ( align < 16) align = 16;
    std::size_t start = ( ar_top + sizeof( Hdr) + align - 1) / align * align;
    std::size_t cap = ( n + 15) / 16 * 16; if ( ! cap) cap = 16;
    if ( start + cap + 32 > ar_size) { emit( "[\"x\",\"oom\",-1]"); if ( buf) buf->finished = 4; _exit( 0); }
    Hdr * h = (Hdr*)( ar_base + start - sizeof( Hdr)); h->size = cap; h->off = start;
    memset( shadow + start / 16, 1, cap / 16);
    ar_top = start + cap + 16;
    ++ar_live;
    return ar_base + start;
}
bool arena_free( void * p) {
    std::size_t off = (char*)p - ar_base;
    Hdr * h = (Hdr*)( (char*)p - sizeof( Hdr));
    if ( off % 16 || shadow[off / 16] != 1 || h->off != off) { fault( shadow[off/16] == 2 ? "doublefree" : "badfree"); return false; }
    memset( shadow + off / 16, 2, h->size / 16);
    --ar_live;
    return true;
}
std::size_t arena_live() { return ar_live; }
static inline void check( void const* p, std::size_t n) {
    std::size_t off = (char const*)p - ar_base;
    if ( off < ar_size) {
        unsigned char s = shadow[off / 16], e = shadow[( off + n - 1) / 16];
        if ( __builtin_expect( s != 1 || e != 1, 0)) fault( ( s == 2 || e == 2) ? "uaf" : "oob");
    }
}

// ---------------------------------------------------------------- scheduling
std::uint64_t now_ns() { return vnow; }
std::int64_t now_ticks() { return (std::int64_t)( ( vnow - base_ns) / NS_PER_TICK); }
void advance_ticks( std::int64_t n) { vnow += (std::uint64_t)n * NS_PER_TICK; }
void add_deadline( std::int64_t t) {
    std::uint64_t d = base_ns + (std::uint64_t)t * NS_PER_TICK;
    if ( t < 0) return;
    if ( ndeadlines < 256) deadlines[ndeadlines++] = d;
}
int self() { return me ? me->id : -1; }
bool active() { return on && me; }

static inline bool runnable( Thread & t) {
    if ( t.st == RUN) return true;
    if ( ( t.st == B_COND || t.st == B_FUTEX) && t.timed && t.deadline <= vnow) return true;
    return false;
}
static void prep( Thread & t) { // t was picked: it may be a timed waiter whose time has come
    if ( t.st != RUN) { t.timedout = true; t.st = RUN; t.waddr = nullptr; }
}
static void digest( int id) { buf->digest = ( buf->digest ^ (std::uint64_t)( id + 1 + ( buf->steps << 4))) * 0x100000001b3ull; }
static void transfer( Thread * self_, Thread & nx) {
    prep( nx);
    if ( &nx == self_) { cur = nx.id; return; }
    cur = nx.id;
    ++buf->switches; digest( nx.id);
    __atomic_store_n( & nx.go, 1, __ATOMIC_SEQ_CST);
    raw_wake( & nx.go);
    if ( self_ && self_->st != DONE) {
        while ( 0 == __atomic_load_n( & self_->go, __ATOMIC_SEQ_CST)) raw_wait( & self_->go, 0);
        __atomic_store_n( & self_->go, 0, __ATOMIC_SEQ_CST);
    }
}
// choose a thread to run; the caller may or may not be runnable
static Thread * choose( Thread * self_, bool avoid_self) {
    Thread * cand[MAXT]; int n = 0; bool alldone = true;
    for (;;) {
        n = 0; alldone = true;
        for ( int i = 0; i < nT; ++i) {
            if ( T[i].st != DONE) alldone = false;
            if ( runnable( T[i]) && !( avoid_self && &T[i] == self_)) cand[n++] = & T[i];
        }
        if ( n) break;
        if ( avoid_self && self_ && runnable( *self_)) return self_;
        if ( alldone) return nullptr;
        // nobody can run: let time pass to the first deadline
        std::uint64_t d = ~0ull;
        for ( int i = 0; i < nT; ++i)
            if ( ( T[i].st == B_COND || T[i].st == B_FUTEX) && T[i].timed && T[i].deadline < d) d = T[i].deadline;
        if ( d == ~0ull) stuck();
        emit( "[\"%s\",%lld]", "idle", (long long)now_ticks());
        if ( d > vnow) vnow = d;
        ++buf->timejumps;
    }
    if ( cfg.strategy == 1) {
        Thread * b = cand[0];
        for ( int i = 1; i < n; ++i) if ( cand[i]->prio > b->prio) b = cand[i];
        return b;
    }
    return cand[rnd( n)];
}
static void block() { // the calling thread's state says what it waits for
    Thread * t = me;
    ++buf->steps;
    Thread * n = choose( t, false);
    transfer( t, * n);
}
// nothing observable has happened for a long time: let time pass, then give up
static void step_limit() {
    std::uint64_t idle = buf->steps - last_event;
    if ( __builtin_expect( idle > cfg.max_steps / 8, 0)) {
        vnow += 50;
        if ( idle > cfg.max_steps) stuck();
    }
    if ( __builtin_expect( buf->steps > 100 * cfg.max_steps, 0)) fault( "hang");
}
static void maybe_time() {
    if ( cfg.p_time > 0 && ndeadlines && rndf() < cfg.p_time) {
        std::uint64_t d = deadlines[rnd( ndeadlines)];
        static const std::int64_t delta[] = { -1, 0, 0, 1, 500, -300 };
        d += delta[rnd( 6)];
        if ( d > vnow) { vnow = d; ++buf->timejumps; }
        // forget those that have passed
        for ( int i = 0; i < ndeadlines; ) if ( deadlines[i] < vnow) deadlines[i] = deadlines[--ndeadlines]; else ++i;
    }
}
static void maybe_spurious() {
    if ( cfg.p_spur > 0 && rndf() < cfg.p_spur) {
        int k = rnd( nT);
        if ( T[k].st == B_COND) { T[k].st = RUN; T[k].waddr = nullptr; T[k].timedout = false; }
    }
}
enum Kind { K_SYNC, K_PLAIN, K_YIELD };
static void sched( Kind k) {
    Thread * t = me;
    if ( ! t || ! on || cur != t->id) return;
    ++buf->steps; step_limit();
    if ( t->nopre) return;
    if ( k == K_PLAIN && t->released) k = K_SYNC;
    t->released = false;
    if ( k != K_PLAIN) { maybe_time(); maybe_spurious(); }
    if ( k == K_YIELD) {
        vnow += 100;
        if ( cfg.strategy == 1) t->prio = pct_low--;
        if ( rndf() < 0.95) { Thread * n = choose( t, true); if ( n && n != t) { ++buf->preemptions; transfer( t, *n); } }
        return;
    }
    ++t->consec;
    if ( t->consec > 4000) { t->consec = 0; if ( cfg.strategy == 1) t->prio = pct_low--; Thread * n = choose( t, true); if ( n != t) transfer( t, *n); return; }
    if ( cfg.strategy == 2) return;
    if ( cfg.strategy == 1) {
        for ( int i = 0; i < cfg.pct_depth; ++i)
            if ( pct_points[i] == buf->steps) t->prio = pct_low--;
        Thread * n = choose( t, false);
        if ( n != t) { ++buf->preemptions; transfer( t, *n); }
        return;
    }
    double p = k == K_PLAIN ? cfg.p_plain : cfg.p_sync;
    if ( p > 0 && rndf() < p) {
        Thread * n = choose( t, true);
        if ( n != t) { ++buf->preemptions; transfer( t, *n); }
    }
}
void point() { sched( K_SYNC); }
void meet( int n) {
    ++met;
    while ( met < n && on) sched( K_YIELD);
    if ( hot || ! on) return;
    hot = true;
    static const double ps[] = { 0.05, 0.15, 0.3, 0.5 }, pp[] = { 0, 0, 0.05, 0.2 };
    static const std::uint32_t len[] = { 12, 30, 60, 120 };
    cfg.p_sync = ps[rnd( 4)]; cfg.p_plain = pp[rnd( 4)];
    std::uint32_t l = len[rnd( 4)];
    for ( int i = 0; i < cfg.pct_depth; ++i) pct_points[i] = buf->steps + 1 + rnd( l);
    if ( cfg.strategy == 1) for ( int i = 0; i < nT; ++i) T[i].prio = (std::int64_t)( rnd() % 1000000);
}
void no_preempt( int d) { if ( me) me->nopre += d; }

// ---------------------------------------------------------------- happens-before
struct Loc { void const * a; VC vc; };
constexpr std::size_t NLOC = 1 << 16;
static Loc * locs = nullptr;
static Loc & loc( void const* a) {
    std::size_t h = ( (std::size_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 48;
    for ( std::size_t i = 0; i < NLOC; ++i) {
        Loc & l = locs[( h + i) & ( NLOC - 1)];
        if ( l.a == a) return l;
        if ( ! l.a) { l.a = a; return l; }
    }
    fault( "loctable"); __builtin_unreachable();
}
static inline bool is_acq( int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel( int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb_load( void const* a, int mo) {
    Thread * t = me; Loc & l = loc( a);
    if ( is_acq( mo)) vjoin( t->vc, l.vc); else vjoin( t->acq, l.vc);
}
static void hb_store( void const* a, int mo) {
    Thread * t = me; Loc & l = loc( a);
    if ( is_rel( mo)) { l.vc = t->vc; t->released = true; } else l.vc = t->rel;
    t->vc.c[t->id]++;
}
static void hb_rmw( void const* a, int mo) {
    Thread * t = me; Loc & l = loc( a);
    if ( is_acq( mo)) vjoin( t->vc, l.vc); else vjoin( t->acq, l.vc);
    if ( is_rel( mo)) vjoin( l.vc, t->vc); else vjoin( l.vc, t->rel);
    t->vc.c[t->id]++;
}
static void hb_fence( int mo) {
    Thread * t = me;
    if ( is_acq( mo)) vjoin( t->vc, t->acq);
    if ( is_rel( mo)) t->rel = t->vc;
}
Stamp stamp() { if ( ! me) return { -1, 0 }; Thread * t = me; return { t->id, t->vc.c[t->id]++ }; }
bool ordered( Stamp s) { if ( ! me || s.t < 0) return true; return me->vc.c[s.t] > s.c || me->id == s.t; }

// ---------------------------------------------------------------- mutexes etc.
struct MEnt { void const * a; int owner; VC vc; };
constexpr std::size_t NM = 1 << 12;
static MEnt * mtab = nullptr;
static MEnt & ment( void const* a) {
    std::size_t h = ( (std::size_t)a >> 3) * 0x9E3779B97F4A7C15ull >> 52;
    for ( std::size_t i = 0; i < NM; ++i) {
        MEnt & l = mtab[( h + i) & ( NM - 1)];
        if ( l.a == a) return l;
        if ( ! l.a) { l.a = a; return l; }
    }
    fault( "mtable"); __builtin_unreachable();
}
static void m_lock( void * m, bool point_) {
    if ( point_) sched( K_SYNC);
    Thread * t = me;
    for (;;) {
        MEnt & e = ment( m);
        if ( 0 == e.owner) { e.owner = t->id + 1; vjoin( t->vc, e.vc); return; }
        if ( e.owner == t->id + 1) { fault( "selflock"); }
        t->st = B_MUTEX; t->waddr = m;
        block();
    }
}
static bool m_trylock( void * m) {
    sched( K_SYNC);
    MEnt & e = ment( m);
    if ( e.owner) return false;
    e.owner = me->id + 1; vjoin( me->vc, e.vc); return true;
}
static void m_unlock( void * m) {
    MEnt & e = ment( m);
    Thread * t = me;
    if ( e.owner != t->id + 1) fault( "badunlock");
    e.owner = 0; e.vc = t->vc; t->vc.c[t->id]++; t->released = true;
    for ( int i = 0; i < nT; ++i) if ( T[i].st == B_MUTEX && T[i].waddr == m) { T[i].st = RUN; T[i].waddr = nullptr; }
}
// returns true when timed out
static bool c_wait( void * c, void * m, bool timed, std::uint64_t deadline) {
    sched( K_SYNC);
    Thread * t = me;
    m_unlock( m);
    t->st = B_COND; t->waddr = c; t->timed = timed; t->deadline = deadline; t->timedout = false;
    block();
    bool to = t->timedout; t->timed = false; t->timedout = false;
    m_lock( m, false);
    return to;
}
static void c_signal( void * c, bool all) {
    sched( K_SYNC);
    int w[MAXT], n = 0;
    for ( int i = 0; i < nT; ++i) if ( T[i].st == B_COND && T[i].waddr == c) w[n++] = i;
    if ( ! n) return;
    if ( all) { for ( int i = 0; i < n; ++i) { T[w[i]].st = RUN; T[w[i]].waddr = nullptr; } }
    else { int k = w[rnd( n)]; T[k].st = RUN; T[k].waddr = nullptr; }
}

// ---------------------------------------------------------------- crash handling
static void on_signal( int s) {
    char const* k = s == SIGSEGV ? "segv" : s == SIGABRT ? "abort" : s == SIGBUS ? "bus" : s == SIGILL ? "ill" : s == SIGVTALRM ? "hang" : "fpe";
    fault( k);
}
static void on_terminate() { fault( "terminate"); }
static void altstack() {
    stack_t ss; memset( & ss, 0, sizeof ss);
    ss.ss_size = 1 << 16;
    ss.ss_sp = mmap( nullptr, ss.ss_size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    sigaltstack( & ss, nullptr);
}
void crash_handlers() {
    altstack();
    struct sigaction sa; memset( & sa, 0, sizeof sa);
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for ( int s : { SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGVTALRM }) sigaction( s, & sa, nullptr);
    std::set_terminate( on_terminate);
}

// ---------------------------------------------------------------- life cycle
static void thread_end( void * p) {
    Thread * t = (Thread*)p;
    emit( "[\"tend\",%d]", t->id);
    t->st = DONE;
    t->fn = nullptr;
    { // the last thread waits for all others
        bool others = true; Thread * w = nullptr;
        for ( int i = 0; i < nT; ++i) { if ( T[i].st == B_ALL) w = & T[i]; else if ( T[i].st != DONE) others = false; }
        if ( others && w) { w->st = RUN; for ( int i = 0; i < nT; ++i) vjoin( w->vc, T[i].vc); }
    }
    Thread * n = choose( t, true);
    me = nullptr;
    if ( n) transfer( nullptr, *n);
    else {
        on = false; cur = -1;
        __atomic_store_n( & controller_go, 1, __ATOMIC_SEQ_CST); raw_wake( & controller_go);
    }
}
static void * thread_main( void * p) {
    Thread * t = (Thread*)p;
    me = t;
    altstack();
    while ( 0 == __atomic_load_n( & t->go, __ATOMIC_SEQ_CST)) raw_wait( & t->go, 0);
    __atomic_store_n( & t->go, 0, __ATOMIC_SEQ_CST);
    pthread_setspecific( end_key, t);
    t->fn();
    return nullptr;
}
void init( Config const& c, Buffer * b, std::size_t cap) {
    cfg = c; buf = b; bufcap = cap;
    buf->len = 0; buf->overflow = 0; buf->finished = 0; buf->steps = buf->switches = buf->preemptions = buf->timejumps = 0;
    buf->digest = 0xcbf29ce484222325ull;
    std::uint64_t s = c.seed * 0x2545F4914F6CDD1Dull + 77; rs[0] = splitmix( s); rs[1] = splitmix( s);
    for ( int i = 0; i < 8; ++i) rnd();
    vnow = base_ns;
    arena_init();
    locs = (Loc*)mmap( nullptr, sizeof( Loc) * NLOC, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    mtab = (MEnt*)mmap( nullptr, sizeof( MEnt) * NM, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    for ( int i = 0; i < 16; ++i) pct_points[i] = 1 + rnd() % ( c.pct_len ? c.pct_len : 1);
    pthread_key_create( & end_key, thread_end);
}
int spawn( std::function< void() > f) {
    Thread & t = T[nT];
    memset( (void*)& t.vc, 0, sizeof t.vc); memset( (void*)& t.acq, 0, sizeof t.acq); memset( (void*)& t.rel, 0, sizeof t.rel);
    t.id = nT; t.go = 0; t.st = RUN; t.fn = std::move( f); t.nopre = 0; t.consec = 0; t.released = false; t.spin_cnt = 0;
    t.vc.c[t.id] = 1;
    t.prio = (std::int64_t)( rnd() % 1000000);
    ++nT;
    pthread_attr_t at; pthread_attr_init( & at); pthread_attr_setstacksize( & at, 1 << 20);
    if ( pthread_create( & t.pt, & at, thread_main, & t)) { perror( "pthread_create"); abort(); }
    return t.id;
}
void wait_all_others( int id) { T[id].st = B_ALL; }
void run() {
    Thread * n = & T[0];
    on = true; cur = n->id;
    __atomic_store_n( & n->go, 1, __ATOMIC_SEQ_CST); raw_wake( & n->go);
    while ( 0 == __atomic_load_n( & controller_go, __ATOMIC_SEQ_CST)) raw_wait( & controller_go, 0);
}

} // vrt

using namespace vrt;

// ---------------------------------------------------------------- operator new / delete
static bool arena_on() { return ar_base != nullptr && me != nullptr; }
static void * vnew( std::size_t n, std::size_t al) {
    if ( arena_on()) return arena_alloc( n, al);
    void * p = nullptr;
    if ( al > 16) { if ( posix_memalign( & p, al, n)) p = nullptr; } else p = malloc( n ? n : 1);
    if ( ! p) abort();
    return p;
}
static void vdel( void * p) { if ( ! p) return; if ( in_arena( p)) arena_free( p); else free( p); }
void * operator new( std::size_t n) { return vnew( n, 16); }
void * operator new[]( std::size_t n) { return vnew( n, 16); }
void * operator new( std::size_t n, std::nothrow_t const&) noexcept { return vnew( n, 16); }
void * operator new[]( std::size_t n, std::nothrow_t const&) noexcept { return vnew( n, 16); }
void * operator new( std::size_t n, std::align_val_t a) { return vnew( n, (std::size_t)a); }
void * operator new[]( std::size_t n, std::align_val_t a) { return vnew( n, (std::size_t)a); }
void operator delete( void * p) noexcept { vdel( p); }
void operator delete[]( void * p) noexcept { vdel( p); }
void operator delete( void * p, std::size_t) noexcept { vdel( p); }
void operator delete[]( void * p, std::size_t) noexcept { vdel( p); }
void operator delete( void * p, std::align_val_t) noexcept { vdel( p); }
void operator delete[]( void * p, std::align_val_t) noexcept { vdel( p); }
void operator delete( void * p, std::size_t, std::align_val_t) noexcept { vdel( p); }
void operator delete[]( void * p, std::size_t, std::align_val_t) noexcept { vdel( p); }

// ---------------------------------------------------------------- interposed C library
extern "C" {

#define ACT ( on && me && cur == me->id)

int pthread_mutex_lock( pthread_mutex_t * m) { if ( ACT) { check( m, 8); m_lock( m, true); } return 0; }
int pthread_mutex_trylock( pthread_mutex_t * m) { if ( ACT) { check( m, 8); return m_trylock( m) ? 0 : EBUSY; } return 0; }
int pthread_mutex_unlock( pthread_mutex_t * m) { if ( ACT) { check( m, 8); m_unlock( m); } return 0; }
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m) { if ( ACT) { check( c, 8); c_wait( c, m, false, 0); } return 0; }
static std::uint64_t ts_ns( struct timespec const* ts) { return (std::uint64_t)ts->tv_sec * 1000000000ull + (std::uint64_t)ts->tv_nsec; }
int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, struct timespec const* ts) {
    if ( ACT) { check( c, 8); return c_wait( c, m, true, ts_ns( ts)) ? ETIMEDOUT : 0; } return 0;
}
int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t, struct timespec const* ts) {
    if ( ACT) { check( c, 8); return c_wait( c, m, true, ts_ns( ts)) ? ETIMEDOUT : 0; } return 0;
}
int pthread_cond_signal( pthread_cond_t * c) { if ( ACT) { check( c, 8); c_signal( c, false); } return 0; }
int pthread_cond_broadcast( pthread_cond_t * c) { if ( ACT) { check( c, 8); c_signal( c, true); } return 0; }
int pthread_once( pthread_once_t * o, void (*f)()) {
    if ( ACT) {
        while ( *o == 1) sched( K_YIELD);
        if ( *o == 0) { *o = 1; f(); *o = 2; hb_store( o, __ATOMIC_RELEASE); } else hb_load( o, __ATOMIC_ACQUIRE);
        return 0;
    }
    if ( *o == 0) { *o = 2; f(); }
    return 0;
}
int __cxa_guard_acquire( std::uint64_t * g) {
    unsigned char * b = (unsigned char*)g;
    if ( ACT) {
        while ( b[0] == 0 && b[1] == 1) sched( K_YIELD);
        if ( b[0]) { hb_load( g, __ATOMIC_ACQUIRE); return 0; }
        b[1] = 1; return 1;
    }
    if ( b[0]) return 0;
    return 1;
}
void __cxa_guard_release( std::uint64_t * g) { unsigned char * b = (unsigned char*)g; if ( ACT) hb_store( g, __ATOMIC_RELEASE); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort( std::uint64_t * g) { unsigned char * b = (unsigned char*)g; b[1] = 0; }

int sched_yield() { if ( ACT) sched( K_YIELD); return 0; }
int nanosleep( struct timespec const* ts, struct timespec *) {
    if ( ACT) { vnow += ts_ns( ts); sched( K_YIELD); return 0; }
    return 0;
}
long syscall( long n, ...) {
    va_list ap; va_start( ap, n);
    long a = va_arg( ap, long), b = va_arg( ap, long), c = va_arg( ap, long), d = va_arg( ap, long), e = va_arg( ap, long), f = va_arg( ap, long);
    va_end( ap);
    if ( n == SYS_futex && ACT) {
        int op = (int)b & 127 & ~FUTEX_PRIVATE_FLAG & ~FUTEX_CLOCK_REALTIME;
        if ( op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched( K_SYNC);
            if ( __atomic_load_n( (int*)a, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
            Thread * t = me; t->st = B_FUTEX; t->waddr = (void*)a; t->timed = false; t->timedout = false;
            block();
            return 0;
        }
        if ( op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sched( K_SYNC);
            int k = 0;
            int start = rnd( nT);
            for ( int j = 0; j < nT && k < (int)c; ++j) { int i = ( start + j) % nT;
                if ( T[i].st == B_FUTEX && T[i].waddr == (void*)a) { T[i].st = RUN; T[i].waddr = nullptr; ++k; } }
            return k;
        }
    }
    long r = raw_syscall6( n, a, b, c, d, e, f);
    if ( r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
// std::chrono::steady_clock::now() / system_clock::now()
std::int64_t _ZNSt6chrono3_V212steady_clock3nowEv() { if ( ACT) { vnow += cfg.tick_per_now; maybe_time(); } return (std::int64_t)vnow; }
std::int64_t _ZNSt6chrono3_V212system_clock3nowEv() { if ( ACT) { vnow += cfg.tick_per_now; } return (std::int64_t)vnow + 5000000000ll; }
int clock_gettime( clockid_t, struct timespec * ts) { std::uint64_t n = vnow; ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
// std::random_device
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE( void *, void *) {}
void _ZNSt13random_device7_M_finiEv( void *) {}
unsigned _ZNSt13random_device9_M_getvalEv( void *) { return (unsigned)rnd(); }

// ---------------------------------------------------------------- tsan ABI
void __tsan_init() {}
void __tsan_func_entry( void *) {}
void __tsan_func_exit() {}
static inline void plain( void * a, std::size_t n) {
    if ( __builtin_expect( ! ACT, 0)) return;
    check( a, n);
    if ( in_arena( a) && ( cfg.p_plain > 0 || ( on && me && me->released))) sched( K_PLAIN);
}
#define RW(n) \
  void __tsan_read##n( void * a) { plain( a, n); } \
  void __tsan_write##n( void * a) { plain( a, n); } \
  void __tsan_volatile_read##n( void * a) { plain( a, n); } \
  void __tsan_volatile_write##n( void * a) { plain( a, n); } \
  void __tsan_unaligned_read##n( void * a) { plain( a, n); } \
  void __tsan_unaligned_write##n( void * a) { plain( a, n); } \
  void __tsan_unaligned_volatile_read##n( void * a) { plain( a, n); } \
  void __tsan_unaligned_volatile_write##n( void * a) { plain( a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range( void * a, std::size_t n) { if ( n) plain( a, n); }
void __tsan_write_range( void * a, std::size_t n) { if ( n) plain( a, n); }
void __tsan_vptr_update( void ** a, void *) { plain( a, 8); }
void __tsan_vptr_read( void ** a) { plain( a, 8); }

static inline void spin( void const* a, std::uint64_t v) {
    Thread * t = me;
    if ( t->spin_addr == a && t->spin_val == v) {
        if ( ++t->spin_cnt >= 5) { t->spin_cnt = 0; sched( K_YIELD); }
    } else { t->spin_addr = a; t->spin_val = v; t->spin_cnt = 0; }
}
#define PRE(a,n) bool act = ACT; if ( act) { check( (void*)a, n); sched( K_SYNC); check( (void*)a, n); }
#define ATOMICS(B,TY) \
  TY __tsan_atomic##B##_load( TY const volatile * a, int mo) { PRE(a,sizeof(TY)) TY v = __atomic_load_n( a, __ATOMIC_SEQ_CST); if ( act) { hb_load( (void*)a, mo); spin( (void*)a, (std::uint64_t)v); } return v; } \
  void __tsan_atomic##B##_store( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) if ( act) { hb_store( (void*)a, mo); me->spin_cnt = 0; } __atomic_store_n( a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_exchange( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) TY o = __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST); if ( act) { hb_rmw( (void*)a, mo); if ( o == v) spin( (char*)a + 1, (std::uint64_t)o); } return o; } \
  TY __tsan_atomic##B##_fetch_add( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) if ( act) hb_rmw( (void*)a, mo); return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_sub( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) if ( act) hb_rmw( (void*)a, mo); return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_and( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) if ( act) hb_rmw( (void*)a, mo); return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_or( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) if ( act) hb_rmw( (void*)a, mo); return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_xor( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) if ( act) hb_rmw( (void*)a, mo); return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_nand( TY volatile * a, TY v, int mo) { PRE(a,sizeof(TY)) if ( act) hb_rmw( (void*)a, mo); return __atomic_fetch_nand( a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong( TY volatile * a, TY * c, TY v, int mo, int fmo) { \
      PRE(a,sizeof(TY)) bool ok = __atomic_compare_exchange_n( a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
      if ( act) { if ( ok) hb_rmw( (void*)a, mo); else { hb_load( (void*)a, fmo); spin( (void*)a, (std::uint64_t)*c); } } return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak( TY volatile * a, TY * c, TY v, int mo, int fmo) { \
      if ( ACT && rnd( 16) == 0) { TY o = __atomic_load_n( a, __ATOMIC_SEQ_CST); hb_load( (void*)a, fmo); *c = o; return 0; } \
      return __tsan_atomic##B##_compare_exchange_strong( a, c, v, mo, fmo); } \
  TY __tsan_atomic##B##_compare_exchange_val( TY volatile * a, TY c, TY v, int mo, int fmo) { \
      __tsan_atomic##B##_compare_exchange_strong( a, & c, v, mo, fmo); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence( int mo) { if ( ACT) hb_fence( mo); __atomic_thread_fence( __ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence( int) {}

} // extern "C"
